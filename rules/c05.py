"""C05 - change, amounts, fee and counts are checked before a hash exists that can be signed."""
from tsx import *
from engine import mk_add, subst, mk_len, Event

OP = [x for x in OPAQUE if x != r"sub\.addr:"] + [r"sub\.addr:(classify_subaddresses|encode_addr|decode_addr|public_addr_encode)$"]


def run(ctx):
    ctx.rule("change", "every path that accepts a transaction with change has established that the change address is the account's own address and is among the outputs")
    ctx.rule("balance", "every path producing the transaction hashes has established fee = inputs - outputs, outputs <= inputs and the declared output count")
    ctx.rule("counted", "each accepted source adds its amount once to the input sum, each accepted destination once to the output sum; nothing else changes the sums")
    ctx.rule("pinned", "counts, fee, account and change are taken from the confirmed request at the start and never change afterwards")
    ctx.rule("amounts", "the amounts committed to are the amounts counted")
    ctx.rule("permutation", "the input order supplied by the host is accepted only if it contains each declared input exactly once")

    # ------------------------------------------------ change
    tsx = params(ctx.func(BUILDER + "." + ENTRIES["init"]), "init")["tsx_data"]
    cd = mk("attr", tsx, "change_dts")
    ca = mk("attr", cd, "addr")
    amt = mk("attr", cd, "amount")
    outs = mk("attr", tsx, "outputs")
    base = [("is", cd, NONE, False), (cd, True), ("is", ca, NONE, False), (ca, True)]
    spend, view = mk("attr", ca, "spend_public_key"), mk("attr", ca, "view_public_key")
    for name, extra in (("with non-zero change", [("==", amt, const(0), False), (amt, True)]),
                        ("with zero change and not two outputs", [("==", amt, const(0), True), (amt, False), ("==", mk_len(outs), const(2), False)])):
        r = run_step(ctx, "init", assume_state(*(base + extra)), OP)
        n = 0
        for o in rets(r):
            n += 1
            own = among = False
            e = {}
            for a, b in eq_pairs(o.state.facts):
                for x, y in ((a, b), (b, a)):
                    if y is spend or y is view:
                        e.setdefault(y, set()).add(r.i.resolve(x, o.state))
            for xs in e.get(spend, ()):
                for xv in e.get(view, ()):
                    if is_own(xs, xv, tsx):
                        own = True
                    if xs.op == "attr" and xv.op == "attr" and xs.args[1] == "spend_public_key" and xv.args[1] == "view_public_key" \
                            and xs.args[0] is xv.args[0] and in_outputs(xs.args[0], outs):
                        among = True
            for f in o.state.facts:
                if f.op == "t" and f.args[0].op not in ("eq", "eq0", "ge0", "is") and outs in subterms(f.args[0]) and spend in subterms(f.args[0]) and view in subterms(f.args[0]):
                    among = True
            ctx.check("change", "transaction %s: change address is the account's own" % name, own, "a transaction is accepted without establishing that the change address is the "
                      "own primary address of the account", r.fi.fid)
            ctx.check("change", "transaction %s: change address is among the outputs" % name, among, "a transaction is accepted without the change address being an output", r.fi.fid)
        ctx.check("change", "transaction %s: analysed" % name, n > 0, "no accepting path", r.fi.fid)

    # ------------------------------------------------ pinned values
    init = entry(ctx, "init")
    for o in rets(init):
        oc = sget(o, "output_change")
        want = {"input_count": mk("attr", tsx, "num_inputs"), "output_count": mk_len(outs), "fee": mk("attr", tsx, "fee"), "account_idx": mk("attr", tsx, "account")}
        for k, v in want.items():
            got = init.i.resolve(sget(o, k), o.state)
            ctx.check("pinned", "%s taken from the request" % k, got is v, "%s is set to %s" % (k, show(got)[:200]), init.fi.fid)
        g = init.i.resolve(oc, o.state)
        for path, want in ((("addr", "spend_public_key"), spend), (("addr", "view_public_key"), view), (("amount",), amt)):
            ok = True
            if g is not NONE and truth(o.state.facts, "is", cd, NONE) is False:
                x = g
                for a in path:
                    x = ob(x, a)
                    if x is None:
                        break
                ok = x is want or x is None and g is cd
            ctx.check("pinned", "change.%s taken from the request" % ".".join(path), ok, "recorded change is %s" % show(g)[:300], init.fi.fid)
        for k in ("summary_inputs_money", "summary_outs_money", "inp_idx", "out_idx"):
            v = sget(o, k)
            z = const(0) if k.startswith("summary") else const(-1)
            ctx.check("counted", "%s untouched by the init step" % k, v is me(k) or v is z, "set to %s" % show(v)[:100], init.fi.fid)
    for step in ENTRIES:
        if step == "init":
            continue
        r = entry(ctx, step)
        for k in ("input_count", "output_count", "fee", "account_idx", "output_change", "mixin"):
            for o in rets(r):
                v = sget(o, k)
                ctx.check("pinned", "%s unchanged by step %s" % (k, step), v is me(k), "%s is changed to %s" % (k, show(v)[:200]), r.fi.fid)

    # initial values
    ci = ctx.func(BUILDER + ".__init__")
    it = Interp(ctx.repo, opaque=OPAQUE)
    for o in it.run(ci, args={"state": NONE}):
        if o.kind != "return":
            continue
        for k, z in (("summary_inputs_money", 0), ("summary_outs_money", 0), ("inp_idx", -1), ("out_idx", -1)):
            v = sget(o, k)
            ctx.check("counted", "%s starts at %d" % (k, z), is_const(v) and cval(v) == z, "starts at %s" % show(v), ci.fid)

    # ------------------------------------------------ accumulation
    for step in ENTRIES:
        if step == "init":
            continue
        r = entry(ctx, step)
        p = params(r.fi, step)
        for o in rets(r):
            si, so = r.i.resolve(sget(o, "summary_inputs_money"), o.state), r.i.resolve(sget(o, "summary_outs_money"), o.state)
            wi = mk_add(me("summary_inputs_money"), mk("attr", p["src_entr"], "amount")) if step == "input" else me("summary_inputs_money")
            wo = [me("summary_outs_money")]
            if step == "output":
                oi = r.i.resolve(sget(o, "out_idx"), o.state)
                if oi is me("out_idx"):
                    wo = [me("summary_outs_money")]
                else:
                    wo = [mk_add(me("summary_outs_money"), mk("attr", p["dst_entr"], "amount"))]
                if oi.op == "phi":
                    wo = [mk_add(me("summary_outs_money"), mk("attr", p["dst_entr"], "amount")), me("summary_outs_money")]
            ctx.check("counted", "input sum after step %s" % step, si is wi, "input sum becomes %s, expected %s" % (show(si)[:200], show(wi)[:200]), r.fi.fid)
            ctx.check("counted", "output sum after step %s%s" % (step, "" if step != "output" else (" (offloaded proof)" if len(wo) == 1 and wo[0] is me("summary_outs_money") else " (destination)")),
                      so in wo or so.op == "phi" and set(so.args) <= set(wo), "output sum becomes %s, expected %s" % (show(so)[:200], " or ".join(show(w)[:200] for w in wo)), r.fi.fid)

    # ------------------------------------------------ balance
    r = entry(ctx, "all_out")
    F, I, O = me("fee"), me("summary_inputs_money"), me("summary_outs_money")
    crit = [("returned", o.state.facts, r.fi.fid) for o in rets(r)]
    for e in r.i.events:
        if e.kind == "mcall" and e.name in ("get_digest", "set_message", "digest"):
            crit.append(("event " + e.name, e.facts, e.where()))
    ctx.check("balance", "hash production analysed", len(crit) >= 3, "hash production not found", r.fi.fid)
    for what, facts, where in crit:
        fee = lin_true(facts, [(F, 1), (I, -1), (O, 1)])
        ctx.check("balance", "fee equals inputs minus outputs (%s)" % what, fee, "reached without establishing fee = inputs - outputs", where)
        if what == "returned":
            le = truth(facts, ">=", I, O)
            ctx.check("balance", "outputs do not exceed inputs", le is True, "the step completes without establishing outputs <= inputs", where)
            ctx.check("balance", "all declared outputs were processed", lin_true(facts, [(me("out_idx"), 1), (me("output_count"), -1), (None, 1)]), "the step completes without all declared outputs", where)

    # ------------------------------------------------ amounts
    r = entry(ctx, "input")
    p = params(r.fi, "input")
    src_amt = mk("attr", p["src_entr"], "amount")
    cs = [e for e in r.i.events if e.kind == "call" and e.name == "crypto.gen_c"]
    ctx.check("amounts", "input commitment computed", bool(cs), "no commitment", r.fi.fid)
    for e in cs:
        ctx.check("amounts", "input commitment commits to the counted amount", e.args[1] is src_amt, "commits to %s" % show(e.args[1])[:200], e.where())
    for o in rets(r):
        if lin_true(o.state.facts, [(me("inp_idx"), 1), (me("input_count"), -1), (None, 2)]):
            v = r.i.resolve(sget(o, "input_last_amount"), o.state)
            ctx.check("amounts", "last input's amount recorded", v is src_amt, "recorded %s" % show(v)[:200], r.fi.fid)
    r = entry(ctx, "output")
    p = params(r.fi, "output")
    da = mk("attr", p["dst_entr"], "amount")
    cs = [e for e in r.i.events if e.kind == "call" and e.name == "crypto.gen_c"]
    ctx.check("amounts", "output commitment computed", bool(cs), "no commitment", r.fi.fid)
    for e in cs:
        ctx.check("amounts", "output commitment commits to the counted amount", e.args[1] is da, "commits to %s" % show(e.args[1])[:200], e.where())
    ap = [e for e in r.i.events if e.kind == "mcall" and e.name in ("append", "extend", "insert") and show(e.base).startswith("self.output_amounts")]
    for e in ap:
        ctx.check("amounts", "range proof covers the counted amount", e.args and e.args[-1] is da, "appends %s" % [show(a)[:100] for a in e.args], e.where())
    for o in rets(r):
        t = field(r, o, "ecdh_info")
        if t is not None and t is not NONE:
            ctx.check("amounts", "encrypted amount is the counted amount", da in subterms(t), "ecdh info is %s" % show(t)[:300], r.fi.fid)

    # ------------------------------------------------ permutation
    r = entry(ctx, "permutation")
    pm = params(r.fi, "permutation")["perm"]
    for o in rets(r):
        got = r.i.resolve(sget(o, "source_permutation"), o.state)
        ctx.check("permutation", "order comes from the message", got is pm or got.op == "call" and pm in got.args, "order is %s" % show(got)[:200], r.fi.fid)
        ln = truth(o.state.facts, "==", mk_len(pm), me("input_count")) is True
        ctx.check("permutation", "one entry per declared input", ln, "the number of entries is not compared with the declared inputs", r.fi.fid)
        full = False
        for f in o.state.facts:
            if f.op == "forall" and f.args[2].op == "t" and f.args[2].args[0].op == "in":
                a, b = f.args[2].args[0].args
                if a.op == "idx" and b in (pm, got) and f.args[0] in (mk_len(pm), me("input_count")):
                    full = True
            if f.op == "t" and f.args[0].op == "eq":
                s = {show(x) for x in f.args[0].args}
                if any("sorted(" in x or "set" in x for x in s) and any("range" in x or "len" in x for x in s) and pm in subterms(f.args[0]):
                    full = True
        ctx.check("permutation", "every input occurs", full, "nothing establishes that every input index occurs in the order", r.fi.fid)


def is_own(s, v, tsx):
    """(spend, view) is the primary address of the account: sub-address (account, 0) of the device's own keys"""
    if not (s.op == v.op == "call" and s.args[0] == v.args[0] == "crypto.encodepoint"):
        return False
    s, v = s.args[1], v.args[1]
    if not (s.op == v.op == "sub" and s.args[0] is v.args[0] and s.args[1] is const(0) and v.args[1] is const(1)):
        return False
    g = s.args[0]
    cr = me("creds")
    return g.op == "call" and g.args[0].endswith("generate_sub_address_keys") and g.args[1:] == (
        mk("attr", cr, "view_key_private"), mk("attr", cr, "spend_key_public"), mk("attr", tsx, "account"), const(0))


def in_outputs(a, outs):
    return a.op == "attr" and a.args[1] == "addr" and a.args[0].op == "sub" and a.args[0].args[0] is outs


def ob(x, a):
    if x.op == "obj":
        for k in x.args[1]:
            if isinstance(k, tuple) and len(k) == 2 and k[0] == a:
                return k[1]
        return None
    return mk("attr", x, a)


def lin_true(facts, items):
    """the linear equation sum(c*t)=0 is among the facts"""
    from engine import _lin_into
    w = {x: c for x, c in items}
    for f in facts:
        if f.op == "t" and f.args[0].op in ("eq0", "eq"):
            if f.args[0].op == "eq0":
                d = {x: c for x, c in f.args[0].args[0]}
            else:
                d = {x: c for x, c in _lin_into(_lin_into({}, f.args[0].args[0], 1), f.args[0].args[1], -1).items() if c}
            if d == w or d == {x: -c for x, c in w.items()}:
                return True
    return False
