"""C04 - nothing is processed, computed or exported for the host without the user's consent, asked with the very data that is processed."""
from drive import driver
from tsx import *

K = "monero_glue.protocol.key_image_sync:KeyImageSync"
T_ = "monero_glue.hwtoken.token:TokenLite"
S_ = "monero_glue.protocol.tsx_sign:TsxSigner"
P_ = "monero_poc.trezor"
U_ = "monero_poc.utils.misc:CliPrompt"
KOP = [r"monero_glue\.xmr\.(crypto|core\.|mlsag2|enc|key_image|monero)", r"ring_ct:", r"trezor\.wrapper", r"xmrserialize", r"hwtoken\.iface"]


def consent_of(facts, name, wanted):
    """('agreed' | 'refused' | None) from the facts: the answer to a question `name` put with the data `wanted`"""
    for x in facts:
        if x.op not in ("t", "f"):
            continue
        a, pos = x.args[0], x.op == "t"
        while a.op == "not":
            a, pos = a.args[0], not pos
        c = a
        if a.op in ("eq", "is"):
            lit = [y for y in a.args if is_const(y)]
            oth = [y for y in a.args if not is_const(y)]
            if len(lit) != 1 or len(oth) != 1 or not isinstance(cval(lit[0]), bool):
                continue
            c = oth[0]
            if not cval(lit[0]):
                # "is False" says agreed only when false is known to be the only other answer
                if pos:
                    return "refused"
                continue
            if not pos:
                return "refused"
        if c.op == "mcall" and c.args[0] == name and (wanted is None or any(y is wanted or y.op == "kw" and y.args[1] is wanted for y in c.args[2:] if isinstance(y, T))):
            return "agreed" if pos else "refused"
    return None


def confirms(facts, name):
    return [s for x in facts if x.op in ("t", "f") for s in subterms(x.args[0]) if s.op == "mcall" and s.args[0] == name]


def is_secret(t):
    return any(s.op == "attr" and s.args[1] in ("view_key_private", "spend_key_private") for s in subterms(t))


def transaction(ctx):
    ctx.rule("transaction", "the user is asked about the very request before any of it is taken over, checked against secrets or answered; a refusal is answered by a failure and leaves the request unused")
    run = entry(ctx, "init")
    it = run.i
    req = mk("param", run.fi.node.args.args[1].arg)
    n = {"agreed": 0, "refused": 0}
    left = set()
    for o in run.outs:
        facts = o.state.facts
        ans = consent_of(facts, "confirm_transaction", req)
        v = it.resolve(o.value, o.state) if o.value is not None else NONE
        if o.kind == "return" and not failure_value(v):
            ctx.check("transaction", "a transaction is started", ans == "agreed", "a transaction starts without the user's agreement to this request", run.fi.fid)
            n["agreed"] += ans == "agreed"
        elif ans != "agreed":
            if ans == "refused":
                n["refused"] += 1
                ctx.check("transaction", "a refusal is answered by a failure", o.kind == "raise" or failure_value(v), "answers %s" % show(v, lim=6), run.fi.fid)
                s = o.state.store.get((STV, "s"))
                left.add(s)
            for k, w in o.state.store.items():
                if k[0] is SELF or k[0] is STV:
                    w = it.resolve(w, o.state)
                    ctx.check("transaction", "nothing is taken over without agreement: %s" % k[1], req not in subterms(w) and not is_secret(w), "%s is set to %s" % (k[1], show(w, lim=8)), run.fi.fid)
    for e in it.events:
        if e.kind not in ("call", "mcall", "setattr", "setitem"):
            continue
        name = e.name if isinstance(e.name, str) else ""
        if name.rsplit(".", 1)[-1] == "confirm_transaction":
            continue
        args = [it.resolve(a, e.state) for a in (e.args or ()) if isinstance(a, T)]
        if e.value is not None and e.kind in ("setattr", "setitem"):
            args.append(it.resolve(e.value, e.state))
        if consent_of(e.facts, "confirm_transaction", req) == "agreed":
            continue
        for a in args:
            ctx.check("transaction", "nothing is computed with the request before agreement: %s" % name, req not in subterms(a) and not is_secret(a), "%s works on %s" % (name, show(a, lim=8)), e.where())
    ctx.check("transaction", "a transaction can be started", n["agreed"] > 0, "no path starts a transaction after agreement", run.fi.fid)
    ctx.check("transaction", "a refusal is noticed", n["refused"] > 0, "the user's refusal makes no difference", run.fi.fid)
    ctx.floor("transaction", 5)
    ctx.rule("refused", "after a refusal every later step of that session is rejected")
    for s in left:
        for step in ("input", "permutation", "vini", "all_in", "output", "all_out", "sign", "final"):
            st = State()
            if s is not None:
                st.store[(STV, "s")] = s
            r = run_step(ctx, step, state=st)
            bad = [o for o in r.outs if o.kind == "return" and not failure_value(r.i.resolve(o.value, o.state))]
            ctx.check("refused", "%s after a refusal" % step, not bad and bool(r.outs), "the step is carried out although the user refused", r.fi.fid)
    ctx.floor("refused", 8)


def dispatch(ctx):
    ctx.rule("forwarded", "the request handed to the confirming step is the one in the message, and a failing confirmation fails the whole step")
    f = ctx.func(S_ + ".sign")
    it = Interp(ctx.repo, opaque=[r":TTransactionBuilder\.", r"hwtoken\.iface"], limit=200)
    outs = it.run(f)
    ctx.used(it)
    data = mk("attr", mk("param", f.node.args.args[1].arg), "tsx_data")
    ev = [e for e in it.events if e.kind == "mcall" and e.name == "init_transaction"]
    for e in ev:
        args = [it.resolve(x, e.state) for x in e.args]
        ctx.check("forwarded", "the confirming step gets the request of the message", data in args, "gets %s" % [show(x, lim=6) for x in args], e.where())
    ctx.check("forwarded", "the start request is forwarded", bool(ev), "never forwarded", f.fid)
    # the device's own entry: whatever the confirmation or a step raises becomes a failure
    f = ctx.func(T_ + ".tsx_sign")
    it = Interp(ctx.repo, opaque=[r"protocol\.tsx_sign:TsxSigner\.", r"hwtoken\.(iface|misc)", r"protocol_base"], limit=100)
    outs = it.run(f)
    ctx.used(it)
    for o in outs:
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state)
        ok = failure_value(v) or v.op == "mcall" and v.args[0] == "sign" and mk("param", f.node.args.args[1].arg) in v.args[2:]
        ctx.check("forwarded", "the device answers with the step's answer or a failure", ok, "answers %s" % show(v, lim=8), f.fid)
    ctx.floor("forwarded", 2)


def kis(ctx):
    ctx.rule("key images", "key image synchronisation starts only after the user agreed to exactly this request; after a refusal no later step yields key images or the session key")
    mod = K.split(":")[0]
    f = ctx.func(K + ".init")
    msg = mk("param", "msg")
    it = Interp(ctx.repo, opaque=KOP, limit=400)
    d = driver(ctx.repo, mod, "async def d(ctx, iface, creds, msg):\n    k = KeyImageSync(ctx=ctx, iface=iface, creds=creds)\n    r = await k.init(ctx, msg)\n    return (k, r)")
    outs = it.run(d)
    ctx.used(it)
    n = {"agreed": 0, "refused": 0}
    refused = []
    for o in outs:
        if o.kind != "return":
            continue
        ans = consent_of(o.state.facts, "confirm_ki_sync", msg)
        v = it.resolve(o.value.args[1], o.state) if o.value.op == "tuple" else NONE
        if not failure_value(v):
            n["agreed"] += 1
            ctx.check("key images", "a synchronisation is started", ans == "agreed", "starts without the user's agreement to this request", f.fid)
        else:
            n["refused"] += ans == "refused"
            if ans == "refused":
                refused.append(o)
    for e in it.events:
        if e.kind in ("call", "mcall") and consent_of(e.facts, "confirm_ki_sync", msg) != "agreed":
            name = e.name if isinstance(e.name, str) else ""
            args = [it.resolve(a, e.state) for a in (e.args or ()) if isinstance(a, T)]
            for a in args:
                ctx.check("key images", "no secret is used before agreement: %s" % name, not is_secret(a) and not (name.startswith("compute_subaddr")), "%s works on %s" % (name, show(a, lim=6)), e.where())
    ctx.check("key images", "a synchronisation can be started", n["agreed"] > 0, "never starts", f.fid)
    ctx.check("key images", "a refusal is noticed", n["refused"] > 0, "the user's refusal makes no difference", f.fid)
    # after the refusal: any sequence begins with one of these steps, and none of them may succeed or move on
    for which, call in (("step", "sync"), ("final", "final")):
        f2 = ctx.func(K + "." + call)
        for o in refused:
            it2 = Interp(ctx.repo, opaque=KOP, limit=400)
            it2.types.update(it.types)
            st = o.state.clone()
            st.env = {}
            k = o.value.args[0]
            it2.types[k] = next(c for c in ctx.repo.all_classes() if c.cid == K)
            outs2 = it2.run(f2, args={f2.node.args.args[0].arg: k, f2.node.args.args[1].arg: mk("param", "ctx2"), f2.node.args.args[2].arg: mk("param", "msg2")}, state=st)
            ctx.used(it2)
            bad = [x for x in outs2 if x.kind == "return" and not failure_value(it2.resolve(x.value, x.state)) and not impossible(x, it2) and not empty(it2.resolve(x.value, x.state))]
            ctx.check("key images", "the %s of a refused synchronisation is rejected" % which, not bad and bool(outs2), "answers %s" % (show(it2.resolve(bad[0].value, bad[0].state), lim=6) if bad else ""), f2.fid)
            for e in it2.events:
                if e.kind in ("call", "mcall") and isinstance(e.name, str) and e.name.rsplit(".", 1)[-1] == "export_key_image" and not any(never(x) for x in e.facts):
                    ctx.check("key images", "no key image is computed after a refusal", False, "a key image is computed", e.where())
    ctx.floor("key images", 5)


def empty(v):
    """a message whose only content is an empty list"""
    return v.op == "obj" and all(isinstance(x, T) and x.op == "obj" and x.args[0] == "list" and not x.args[1] or x is NONE for a in v.args[1] for x in ([a[1]] if isinstance(a, tuple) and len(a) == 2 else list(a.args)[-1:]))


def never(x):
    """the position in a sequence is said to be negative"""
    if x.op == "forall":
        return never(x.args[-1])
    if x.op != "f" or x.args[0].op != "ge0":
        return False
    lin = x.args[0].args[0]
    return all(c >= 0 and (v is None or isinstance(v, T) and v.op in ("bv", "idx", "pos") or str(show(v)).startswith("#")) for v, c in lin)


def impossible(o, it):
    """a digest never equals nothing"""
    for x in o.state.facts:
        if never(x):
            return True
        x = it.resolve(x, o.state)
        a, pos = x.args[0], x.op == "t"
        if x.op in ("t", "f") and a.op in ("eq", "is") and NONE in a.args and pos:
            b = [y for y in a.args if y is not NONE]
            if b and b[0].op == "mcall" and b[0].args[0] == "digest":
                return True
    return False


def viewkey(ctx):
    ctx.rule("view key", "the private view key is handed out only after the user agreed to its export")
    for where, args in ((T_ + ".get_view_key", None), (P_ + ":TrezorServer.on_watch_only", None)):
        f = ctx.func(where)
        it = Interp(ctx.repo, opaque=[r"monero_glue\.xmr\.(crypto|core\.)", r"hwtoken\.iface", r"CliPrompt", r"TrezorServer\.proto_res", r"poutput"], limit=100)
        outs = it.run(f)
        ctx.used(it)
        k = 0
        for e in it.events:
            hit = [a for a in [it.resolve(a, e.state) for a in (e.args or ()) if isinstance(a, T)] if any(s.op == "attr" and s.args[1] == "view_key_private" for s in subterms(a))]
            if not hit:
                continue
            ans = consent_of(e.facts, "confirm_watch_only", None) or consent_of(e.facts, "wait_confirmation", None)
            ctx.check("view key", "%s: the key is touched only after agreement" % f.qual, ans == "agreed", "%s works on the view key without the user's agreement" % e.name, e.where())
        for o in outs:
            if o.kind != "return":
                continue
            v = it.resolve(o.value, o.state)
            ans = consent_of(o.state.facts, "confirm_watch_only", None) or consent_of(o.state.facts, "wait_confirmation", None)
            if any(s.op == "attr" and s.args[1] == "view_key_private" for s in subterms(v)):
                k += 1
                ctx.check("view key", "%s: exported only after agreement" % f.qual, ans == "agreed", "the view key is exported without the user's agreement", f.fid)
            if any(s.op == "attr" and s.args[1] == "spend_key_private" for s in subterms(v)):
                ctx.check("view key", "%s: never the spend key" % f.qual, False, "the answer contains the spend key", f.fid)
        ctx.check("view key", "%s: exports the key" % f.qual, k > 0, "no path exports the key", f.fid)
    ctx.floor("view key", 4)


def prompts(ctx):
    ctx.rule("prompt", "the emulated device's question is answered by this question's own answer: nothing but the user's choice of the confirming option counts, and an old answer is never reused")
    # waiting: returns the flag, which was cleared when the question was put
    f = ctx.func(U_ + ".wait_confirmation")
    it = Interp(ctx.repo, opaque=[], limit=100)
    outs = it.run(f)
    ctx.used(it)
    flag = None
    for o in outs:
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state)
        names = {s.args[1] for s in subterms(v) if s.op in ("attr", "mattr")}
        cleared = is_const(v) and cval(v) is False or "confirmed_result" in names
        ctx.check("prompt", "a question returns its own answer", cleared, "returns %s" % show(v, lim=8), f.fid)
    waits = [e for e in it.events if e.kind == "mcall" and e.name == "wait"]
    ctx.check("prompt", "a question waits for the user", bool(waits), "the answer is returned without waiting", f.fid)
    for e in waits:
        w = it.resolve(e.state.store.get((SELF, "confirmed_result"), mk("attr", SELF, "confirmed_result")), e.state)
        ctx.check("prompt", "the previous answer is cleared before a question is put", is_const(w) and cval(w) is False, "the previous answer still stands while waiting", e.where())
        b = it.resolve(e.base, e.state)
        ctx.check("prompt", "every question waits on a new event", b.op != "attr", "an old event may already be set", e.where())
    writers = []
    here = [fi for fi in ctx.repo.all_functions() if fi.module.name in (P_, U_.split(":")[0])]

    def answers(name, seen=()):
        """the function receives the user's answer: `confirmation` itself, or a helper only it calls"""
        if name == "confirmation":
            return True
        if name in seen:
            return False
        by = [g.node.name for g in here for y in ast.walk(g.node) if isinstance(y, ast.Call) and isinstance(y.func, (ast.Attribute, ast.Name))
              and (y.func.attr if isinstance(y.func, ast.Attribute) else y.func.id) == name]
        return bool(by) and all(answers(b, seen + (name,)) for b in by)

    for fi in here:
        for x in ast.walk(fi.node):
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Attribute) and t.attr == "confirmed_result":
                        writers.append((fi, x))
    for fi, x in writers:
        v = x.value
        ok = isinstance(v, ast.Constant) and v.value is False or isinstance(v, ast.Name) and v.id in [a.arg for a in fi.node.args.args[1:]] and answers(fi.node.name)
        ctx.check("prompt", "the answer is set by the user's choice only: %s" % fi.qual, ok, "sets the answer to %s" % ast.unparse(v), "%s:%d" % (fi.fid, x.lineno))
    for q, want in (("confirm_transaction", "confirmation"), ("confirm_ki_sync", None), ("confirm_watch_only", None)):
        f = ctx.func(P_ + ":TokenInterface." + q, optional=True)
        if f is None:
            ctx.check("prompt", "the emulated device asks: %s" % q, False, "the default answer of the interface is used", P_ + ":TokenInterface")
            continue
        it = Interp(ctx.repo, opaque=[r"CliPrompt\.", r"TrezorServer\."], limit=100)
        outs = it.run(f)
        ctx.used(it)
        for o in outs:
            if o.kind != "return":
                continue
            v = it.resolve(o.value, o.state)
            asked = [s for x in o.state.facts if x.op == "done" for s in subterms(x.args[0]) if s.op == "mcall" and s.args[0] in ("wait_confirmation", "async_wait_confirmation")]
            own = v.op == "mcall" and v.args[0] in ("wait_confirmation", "async_wait_confirmation") or any(s.op in ("attr", "mattr", "last") and "confirmed_result" in [y for y in s.args if isinstance(y, str)] for s in subterms(v)) \
                or is_const(v) and cval(v) is False
            ctx.check("prompt", "%s waits for the user" % q, bool(asked) or v.op == "mcall" and own, "answers without asking", f.fid)
            ctx.check("prompt", "%s answers with the user's choice" % q, own, "answers %s" % show(v, lim=8), f.fid)
    for cmd in ("do_T", "do_W", "do_K"):
        f = ctx.func(P_ + ":TrezorServer." + cmd)
        it = Interp(ctx.repo, opaque=[r"CliPrompt\.", r"TokenInterface\.", r"monero_glue\.", r"utils\.cli"], limit=200)
        outs = it.run(f)
        ctx.used(it)
        k = 0
        for e in it.events:
            if e.kind == "mcall" and e.name == "confirmation":
                k += 1
                a = it.resolve(e.args[-1], e.state)
                ok, why = chosen(a, e, it)
                ctx.check("prompt", "%s: only choosing the confirming option agrees" % cmd, ok, why, e.where())
        ctx.check("prompt", "%s: passes the user's choice on" % cmd, k > 0, "the choice is never passed on", f.fid)
    ctx.floor("prompt", 12)


def chosen(a, e, it):
    """the answer is true exactly when the option whose text begins with the confirming word was selected"""
    cands = [(a, True)]
    if is_const(a) and isinstance(cval(a), bool):
        if cval(a) is False:
            return True, ""
        cands = [(x.args[0], x.op == "t") for x in e.facts if x.op in ("t", "f")]
    for c, pos in cands:
        while c.op == "not":
            c, pos = c.args[0], not pos
        if not pos or c.op not in ("eq0", "eq"):
            continue
        if c.op == "eq0":
            lin = dict(c.args[0])
            val = -lin.pop(None, 0)
            if len(lin) != 1:
                continue
            sel, k = next(iter(lin.items()))
            val = val // k
        else:
            sel = [x for x in c.args if not is_const(x)][0]
            val = [cval(x) for x in c.args if is_const(x)][0]
        if sel.op not in ("mcall", "call") or sel.args[0] not in ("select",) and not str(sel.args[0]).endswith("select"):
            continue
        opts = [s for s in subterms(sel) if s.op == "tuple" and len(s.args) == 2 and is_const(s.args[0]) and is_const(s.args[1])]
        text = [cval(s.args[1]) for s in opts if cval(s.args[0]) == val]
        other = [cval(s.args[1]) for s in opts if cval(s.args[0]) != val]
        if len(text) == 1 and any(w in str(text[0]).lower() for w in ("confirm", "yes", "accept", "agree", "proceed")) and not any(w in str(text[0]).lower() for w in ("reject", "don't", "not ", "cancel", "refuse")):
            return True, ""
        return False, "choosing %r counts as agreement" % (text[0] if text else val)
    return False, "the answer is %s" % show(a, lim=8)


def shown(ctx):
    ctx.rule("shown", "what the emulated device shows for confirmation is the request under confirmation: every destination with its amount and address, and the fee")
    f = ctx.func(P_ + ":TokenInterface.confirm_transaction")
    it = Interp(ctx.repo, opaque=[r"CliPrompt\.", r"TrezorServer\."], limit=100)
    outs = it.run(f)
    ctx.used(it)
    req = mk("param", f.node.args.args[1].arg)
    k = 0
    for e in it.events:
        if e.kind == "mcall" and e.name in ("wait_confirmation", "async_wait_confirmation"):
            k += 1
            w = it.resolve(e.state.store.get((SELF, "tsx_data"), mk("attr", SELF, "tsx_data")), e.state)
            ctx.check("shown", "the request under confirmation is the one offered for display", w is req, "while waiting, the displayed request is %s" % show(w, lim=6), e.where())
    if not k:
        ctx.check("shown", "the request is offered for display", False, "never waits", f.fid)
    g = ctx.func(P_ + ":TokenInterface.get_tx_data")
    it = Interp(ctx.repo, limit=50)
    for o in it.run(g):
        if o.kind == "return":
            ctx.check("shown", "the display reads the request under confirmation", o.value is mk("attr", SELF, "tsx_data"), "reads %s" % show(o.value, lim=6), g.fid)
    f = ctx.func(P_ + ":TrezorServer.do_T")
    it = Interp(ctx.repo, opaque=[r"CliPrompt\.", r"TokenInterface\.", r"monero_glue\.", r"utils\.cli", r"TrezorServer\.conv_disp"], limit=300)
    outs = it.run(f)
    ctx.used(it)
    data = None
    shows = []
    for e in it.events:
        if e.kind in ("mcall", "call") and isinstance(e.name, str) and e.name.rsplit(".", 1)[-1] == "poutput":
            shows += [(e, it.resolve(a, e.state)) for a in e.args or () if isinstance(a, T)]
    def has(pred):
        return [e for e, a in shows if any(pred(s) for s in subterms(a))]
    src = lambda s: s.op == "mcall" and s.args[0] == "get_tx_data"
    elem = lambda s: s.op == "sub" and s.args[0].op == "attr" and s.args[0].args[1] == "outputs" and any(src(y) for y in subterms(s))
    fee = has(lambda s: s.op == "attr" and s.args[1] == "fee" and src(s.args[0]))
    ctx.check("shown", "the fee is shown", bool(fee), "the fee is not shown", f.fid)
    # in every iteration over the destinations, one line carries both amount and address of that destination
    lines = []
    for e, a in shows:
        subs = list(subterms(a))
        am = [s.args[0] for s in subs if s.op == "attr" and s.args[1] == "amount" and elem(s.args[0])]
        ad = [s.args[0] for s in subs if s.op == "attr" and s.args[1] == "addr" and elem(s.args[0])]
        if am and ad:
            lines.append((e, set(am) & set(ad)))
    ctx.check("shown", "every destination is shown with its amount and address", bool(lines) and all(x for _, x in lines), "no line shows amount and address of the same destination" if not lines else "a line mixes destinations", f.fid)
    # whichever way the loop body goes, a line is written: the conditions of the lines cover all cases
    lits = []
    for e, _ in lines:
        lits.append(frozenset((x.op, x.args[0]) for x in e.facts if x.op in ("t", "f") and any(elem(s) for s in subterms(x.args[0]))))
    ctx.check("shown", "no destination is left out", bool(lits) and covers(lits), "a destination can go unshown", f.fid)
    ctx.floor("shown", 5)


def covers(sets):
    """the disjunction of these conjunctions of literals is a tautology (up to 6 atoms)"""
    atoms = sorted({a for s in sets for _, a in s}, key=repr)
    if len(atoms) > 6:
        return False
    for bits in range(1 << len(atoms)):
        val = {a: bool(bits >> i & 1) for i, a in enumerate(atoms)}
        if not any(all(val[a] == (op == "t") for op, a in s) for s in sets):
            return False
    return True


def run(ctx):
    transaction(ctx)
    dispatch(ctx)
    kis(ctx)
    viewkey(ctx)
    prompts(ctx)
    shown(ctx)
    ctx.assumptions.append("a user interface answers with a truth value; the terminal shows what poutput is given and select() returns the key of the option the user chose")
