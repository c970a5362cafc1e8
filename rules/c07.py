"""C07 - range proofs supplied by the host are verified before anything depends on them; no output is left without one."""
from tsx import *
from engine import mk_len
from rules.c06 import callee, flat

WATCH = ("rsig_val", "verify_bp", "prove_range_bp_batch", "parse_msg")
PROOF = const("proof")


def tracer(it, kind, st, ev):
    if kind not in ("call", "mcall"):
        return None
    n = str(ev.get("name", "")).split(".")[-1]
    if n in WATCH:
        return PROOF, mk("w", n, ev["value"], *ev["args"])
    return None


def events(t):
    """watched calls of a path; a merged path counts for all its alternatives"""
    for p in t:
        if p.op == "w":
            yield p
        elif p.op == "alt":
            for a in p.args[0]:
                for x in events(a):
                    yield x


def run(ctx):
    ctx.rule("verified", "a proof taken from a host message reaches the message hash only together with a positive verdict over it, the recorded amounts and the recorded masks")
    ctx.rule("supplied", "a message that carries a proof is either refused or its proof is the one verified")
    ctx.rule("recorded", "each accepted output records its amount and the mask it is committed with; the records are dropped only by a proof covering all of them")
    ctx.rule("complete", "the outputs are finished only when no recorded output is left without a proof")
    ctx.rule("order", "extraneous or out-of-order proof messages are refused")
    ctx.rule("verifier", "the verdict is the verifier's verdict on commitments recomputed from the given amounts and masks, one per amount")
    ctx.rule("own", "a proof computed by the device covers the recorded amounts and masks and is the one returned and hashed")

    fi = ctx.func(BUILDER + ".set_output")
    p = params(fi, "output")
    dst, rsig, isoff = p["dst_entr"], p["rsig_data"], p["is_offloaded_bp"]
    OFF = me("rsig_offload")
    M0, A0 = me("output_masks"), me("output_amounts")
    det = {"derived masks": [(">=", me("client_version"), const(1), True)],
           "chosen masks": [(">=", me("client_version"), const(1), False), (">=", me("bp_version"), const(2), False)]}
    give = [(rsig, True), (mk("attr", rsig, "rsig"), True), (">=", mk_len(mk("attr", rsig, "rsig")), const(1), True)]
    absent = [(rsig, False)]
    last0 = last_in_batch(ctx)

    def go(off, proc, *facts):
        it = interp(ctx, limit=400)
        it.tracer = tracer
        st = assume_state(*facts)
        st.store[(SELF, "is_processing_offloaded")] = proc      # always a boolean: see the checks on the flag
        outs = it.run(fi, state=st, args={isoff.args[0]: off})
        ctx.used(it)
        return Run(it, outs, fi)

    for dn, df in det.items():
        for on, of in (("host proofs", [(OFF, True)]), ("own proofs", [(OFF, False)])):
            for mn, off, proc in (("output", FALSE, FALSE), ("output after a proof message", FALSE, TRUE), ("proof message", TRUE, FALSE), ("second proof message", TRUE, TRUE)):
                alt = dn == "derived masks" and on == "host proofs"
                if not alt and proc is TRUE:
                    continue        # the flag is only ever set in the alternating mode (checked below)
                for gn, gf in (("with a proof", give), ("without a proof", absent)):
                    what = "%s, %s, %s %s" % (on, dn, mn, gn)
                    r = go(off, proc, *(df + of + gf))
                    acc = rets(r)
                    ctx.counts["paths"] = ctx.counts.get("paths", 0) + len(r.outs)
                    if mn.endswith("proof message") and not alt:
                        ctx.check("order", "%s refused" % what, not acc, "a proof message is accepted although none is expected in this mode", fi.fid)
                        continue
                    if on == "own proofs" and gn == "with a proof":
                        ctx.check("order", "%s refused" % what, not acc, "a host proof is accepted although the device computes the proofs itself", fi.fid)
                        continue
                    if last0 is not None and alt and mn == "output":
                        for o in acc:
                            c, pol = last0
                            ctx.check("order", "%s: next output waits for the proof of the finished batch" % what, mk("f" if pol else "t", c) in o.state.facts,
                                      "an output is accepted although the proof for the batch before it is still missing", fi.fid)
                    if last0 is not None and alt and mn == "second proof message":
                        for o in acc:
                            c, pol = last0
                            ctx.check("order", "%s: only one proof per batch" % what, mk("f" if pol else "t", c) in o.state.facts, "a second proof for the same batch is accepted", fi.fid)
                    for o in acc:
                        one(ctx, r, o, what, fi, p, gn == "with a proof" and not (alt and off is FALSE), off is FALSE, alt, off)
    ctx.floor("recorded", 8)
    ctx.floor("verified", 2)

    # --------------------------------------------- initial values
    ci = ctx.func(BUILDER + ".__init__")
    it = Interp(ctx.repo, opaque=OPAQUE)
    for o in it.run(ci, args={"state": NONE}):
        if o.kind == "return":
            for a in ("output_masks", "output_amounts"):
                v = it.resolve(sget(o, a), o.state)
                ctx.check("recorded", "%s starts empty" % a, v.op == "obj" and v.args[0] == "list" and not v.args[1], "starts as %s" % show(v)[:100], ci.fid)
            v = sget(o, "is_processing_offloaded")
            ctx.check("order", "no proof message is being processed at the start", is_const(v) and not cval(v), "starts as %s" % show(v)[:100], ci.fid)
    for step in ENTRIES:
        if step == "output":
            continue
        r = entry(ctx, step)
        for o in rets(r):
            for a in ("output_masks", "output_amounts", "rsig_offload", "is_processing_offloaded"):
                v = r.i.resolve(sget(o, a), o.state)
                ok = v is me(a) or step == "init" and a == "rsig_offload"
                if not ok and step in ("sign", "final") and a.startswith("output_"):
                    ok = True
                if not ok and step == "all_out":
                    ok = truth_empty(o.state.facts, M0) or a == "output_amounts"
                ctx.check("recorded", "%s not touched by step %s" % (a, step), ok, "becomes %s" % show(v)[:200], r.fi.fid)

    # --------------------------------------------- completion
    r = entry(ctx, "all_out")
    acc = rets(r)
    ctx.check("complete", "analysed", bool(acc), "no accepting path", r.fi.fid)
    for o in acc:
        ctx.check("complete", "no recorded output without a proof", truth_empty(o.state.facts, M0) or truth_empty(o.state.facts, A0),
                  "the outputs are finished without establishing that every recorded output was covered by a proof", r.fi.fid)
    for e in r.i.events:
        if e.kind == "mcall" and e.name in ("rctsig_base_done",):
            ctx.check("complete", "message finished only when all proofs are in", truth_empty(e.facts, M0) or truth_empty(e.facts, A0), "message finished with outputs lacking a proof", e.where())

    # --------------------------------------------- the flag of the message
    wi = ctx.func("monero_glue.protocol.tsx_sign:TsxSigner.tsx_set_output1", optional=True)
    if wi is not None:
        it = Interp(ctx.repo, opaque=[r"tsx_sign_builder", r"tsx_exc_handler"])
        it.run(wi)
        ctx.used(it)
        for e in it.events:
            if e.kind in ("call", "mcall") and str(e.name).split(".")[-1] == "set_output" and len(e.args) > 3:
                v = e.args[3].args[1] if e.args[3].op == "kw" else e.args[3]
                ok = v.op in ("eq", "is", "not", "ge0", "eq0", "in") or is_const(v) and isinstance(cval(v), bool) or v.op == "call" and v.args[0] == "bool"
                ctx.check("order", "the proof message flag is a boolean", ok, "flag handed on is %s" % show(v)[:100], e.where())

    verifier(ctx)
    own(ctx)


def truth_empty(facts, v):
    return mk("f", v) in facts or truth(facts, "==", mk_len(v), const(0)) is True or truth(facts, ">=", mk_len(v), const(1)) is False


def last_in_batch(ctx):
    """(condition, polarity) of 'the output before this message finished a batch', as the code itself computes it"""
    ci = ctx.func(BUILDER)
    lb, gb = ci.methods.get("_is_last_in_batch"), ci.methods.get("_get_rsig_batch")
    if lb is None or gb is None:
        ctx.notes.append("batch helper not found: order of proofs not decided")
        return None
    it = interp(ctx)
    r1 = [o for o in it.run(gb, args={gb.node.args.args[1].arg: me("out_idx")}) if o.kind == "return"]
    if len(r1) != 1:
        return None
    n = [a.arg for a in lb.node.args.args][1:]
    r2 = [o for o in it.run(lb, args={n[0]: me("out_idx"), n[1]: r1[0].value}) if o.kind == "return"]
    vals = {o.value for o in r2}
    if len(vals) == 1 and not is_const(next(iter(vals))):
        return next(iter(vals)), True
    for o in r2:        # returned as True/False under a condition
        if is_const(o.value) and cval(o.value) is True:
            n = [f for f in o.state.facts if f.op in "tf" and "rsig_grp" in show(f)]
            if len(n) == 1:
                return n[0].args[0], n[0].op == "t"
    ctx.notes.append("batch helper not understood: order of proofs not decided")
    return None


def covered(v, base, item=None):
    """v is the recorded sequence, with the given items appended when the message records one"""
    if v is base:
        return item is None
    if v.op == "mut" and v.args[0] is base:
        items = v.args[1]
        if len(items) == 1:
            if items[0].op == "i":
                return item is not None and items[0].args[0] in item
            if items[0].op == "alt":
                return item is not None and all(len(a) == 1 and a[0].op == "i" and a[0].args[0] in item for a in items[0].args[0])
    return False


def one(ctx, r, o, what, fi, p, given, records, alt, off):
    f = o.state.facts
    ev = [mk(*(["w"] + [r.i.resolve(x, o.state) if isinstance(x, T) else x for x in e.args])) for e in events(o.state.hist.get(mk("trace", PROOF), ()))]
    masks, amts = (r.i.resolve(sget(o, a), o.state) for a in ("output_masks", "output_amounts"))
    M0, A0 = me("output_masks"), me("output_amounts")
    # the mask used for the commitment of this output
    cm = set()
    for e in r.i.events:
        if e.kind == "call" and e.name == "crypto.gen_c":
            cm |= flat([e.args[0]])
    wm = cm if records else None
    wa = {mk("attr", p["dst_entr"], "amount")} if records else None
    parsed = [e.args[1] for e in ev if e.args[0] == "parse_msg" and mk("attr", p["rsig_data"], "rsig") in e.args[2:]]
    vers = [e for e in ev if e.args[0] == "verify_bp"]
    good = []
    for e in vers:
        v, a = e.args[1], e.args[2:]
        passed = mk("t", v) in f
        okargs = len(a) >= 3 and a[0] in parsed and covered(a[1], A0, wa) and covered(a[2], M0, wm)
        ctx.check("verified", "%s: verification covers the host's proof, all recorded amounts and masks" % what, okargs,
                  "verified %s" % [show(x)[:120] for x in a], fi.fid)
        if passed and okargs:
            good.append(a[0])
    for e in ev:
        if e.args[0] == "rsig_val" and len(e.args) > 2:
            x = e.args[2]
            if x in parsed:
                ctx.check("verified", "%s: hashed proof was verified" % what, x in good, "a proof supplied by the host is hashed into the message on a path that does not end with a positive verdict", fi.fid)
            else:
                okown = callee_last(x, "prove_range_bp_batch") and covered(x.args[1], A0, wa) and covered(x.args[2], M0, wm)
                ctx.check("own", "%s: hashed proof covers the recorded outputs" % what, okown, "hashed proof is %s" % show(x)[:200], fi.fid)
    if given:
        ctx.check("supplied", "%s: verified" % what, bool(good), "a message carrying a proof is accepted although the proof was not verified", fi.fid)
    done = bool(good) or any(e.args[0] == "rsig_val" and callee_last(e.args[2], "prove_range_bp_batch") for e in ev)
    for v, base, item, n in ((masks, M0, wm, "mask"), (amts, A0, wa, "amount")):
        if covered(v, base, item):
            continue
        empty = v is NONE or v.op == "obj" and v.args[0] == "list" and not v.args[1]
        ctx.check("recorded", "%s: %s records dropped only after a proof" % (what, n), empty and done,
                  "%s records become %s %s a proof" % (n, show(v)[:200], "after" if done else "without"), fi.fid)
    ctx.check("recorded", "%s: analysed" % what, True)
    pr = r.i.resolve(sget(o, "is_processing_offloaded"), o.state)
    ctx.check("order", "%s: proof flag records the message kind" % what, is_const(pr) and cval(pr) == (cval(off) if alt else False), "becomes %s" % show(pr)[:100], fi.fid)


def callee_last(t, name):
    return t.op == "call" and str(t.args[0]).split(".")[-1] == name


def verifier(ctx):
    fi = ctx.func("monero_glue.xmr.ring_ct:verify_bp")
    it = Interp(ctx.repo, opaque=[r"monero_glue\.xmr\.(crypto|core\.|bulletproof)"])
    pn = [a.arg for a in fi.node.args.args]
    proof, am, ms = (mk("param", n) for n in pn[:3])
    for o in it.run(fi, state=assume_state((am, True), ("is", am, NONE, False), (">=", mk_len(am), const(1), True))):
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state)
        ok = v.op in ("call", "mcall", "icall") and proof in subterms(v) and "verify" in str(v.args[0] if v.op == "call" else v.args) \
            or is_const(v) and cval(v) is False
        if is_const(v) and cval(v) is True:
            ok = any(x.op == "t" and proof in subterms(x) and "verify" in show(x) for x in o.state.facts)
        ctx.check("verifier", "verdict is the verifier's", ok, "the verdict is %s" % show(v)[:200], fi.fid)
        V = o.state.store.get((proof, "V"))
        V = it.resolve(V, o.state) if V is not None else mk("attr", proof, "V")
        ctx.check("verifier", "commitments recomputed from amounts and masks", v_ok(V, am, ms), "commitments used: %s" % show(V)[:300], fi.fid)
    ctx.used(it)
    ctx.floor("verifier", 2)


def v_ok(V, am, ms):
    """[encode(1/8 * commit(masks[i], amounts[i])) for every i]"""
    if V.op not in ("obj",) or V.args[0] != "list" or len(V.args[1]) != 1 or V.args[1][0].op != "rep":
        return False
    cnt, _, alts = V.args[1][0].args
    if cnt not in (mk_len(am), mk_len(ms)) or len(alts) != 1 or len(alts[0]) != 1:
        return False
    x = alts[0][0]
    x = x.args[0] if x.op == "i" else x
    if not callee(x, "crypto.encodepoint"):
        return False
    x = x.args[1]
    if x.op == "call" and str(x.args[0]).split(".")[-1] in ("scalarmult_into", "scalarmult") and len(x.args) >= 3:
        a = x.args[1:]
        cs = [y for y in a if callee(y, "crypto.gen_c")]
        inv = [y for y in a if callee(y, "crypto.sc_inv_eight")]
        if not cs or not inv:
            return False
        c = cs[0]
    elif callee(x, "crypto.point_mulinv8") and callee(x.args[1], "crypto.gen_c"):
        c = x.args[1]
    else:
        return False
    m, a = c.args[1:3]
    return m.op == a.op == "sub" and m.args[0] is ms and a.args[0] is am and m.args[1] is a.args[1] and m.args[1].op == "idx"


def own(ctx):
    fi = ctx.func("monero_glue.xmr.ring_ct:prove_range_bp_batch")
    it = Interp(ctx.repo, opaque=[r"monero_glue\.xmr\.(crypto|core\.|bulletproof)"])
    am, ms = (mk("param", a.arg) for a in fi.node.args.args[:2])
    n = 0
    for o in it.run(fi):
        if o.kind != "return":
            continue
        n += 1
        v = it.resolve(o.value, o.state)
        args = v.args[1:] if v.op in ("call", "icall") else v.args[2:] if v.op == "mcall" else ()
        ok = "prove" in show(v) and ms in subterms(v) and am in subterms(v) and any(x is ms for x in subterms(v))
        a0 = [x for x in subterms(v) if x.op == "rep"]
        ok = ok and len(a0) == 1 and a0[0].args[0] is mk_len(am) and all(len(q) == 1 for q in a0[0].args[2])
        if ok:
            y = a0[0].args[2][0][0]
            y = y.args[0] if y.op == "i" else y
            ok = callee(y, "crypto.sc_init") and y.args[1].op in ("sub", "it") and am in subterms(y.args[1])
        ctx.check("own", "own proof covers the given amounts and masks", ok, "proof is %s" % show(v)[:300], fi.fid)
    ctx.check("own", "own proof analysed", n > 0, "no return", fi.fid)
    ctx.used(it)
