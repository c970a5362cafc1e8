"""C06 - an input is signed only with matching keys and balanced commitments."""
from tsx import *
from engine import mk_add
from rules.c05 import lin_true, ob


def sc_lin(t, k=1, d=None):
    """linear form of a scalar expression over sc_add / sc_sub"""
    d = {} if d is None else d
    if t.op == "call" and t.args[0] in ("crypto.sc_add", "crypto.sc_sub") and len(t.args) == 3:
        sc_lin(t.args[1], k, d)
        sc_lin(t.args[2], k if t.args[0].endswith("add") else -k, d)
    elif t.op == "call" and t.args[0] in ("crypto.sc_init", "crypto.sc_0") and (len(t.args) == 1 or t.args[1] is const(0)):
        pass
    else:
        d[t] = d.get(t, 0) + k
        if not d[t]:
            del d[t]
    return d


def sc_equal(facts, a, b):
    """a == b holds, modulo the scalar field, because of an established comparison or identically"""
    if sc_lin(a) == sc_lin(b):
        return True
    w = sc_lin(a)
    sc_lin(b, -1, w)
    n = {k: -v for k, v in w.items()}
    for f in facts:
        if f.op == "t" and f.args[0].op == "call" and f.args[0].args[0] in ("crypto.sc_eq",):
            e = sc_lin(f.args[0].args[1])
            sc_lin(f.args[0].args[2], -1, e)
            if e == w or e == n:
                return True
    return False


def callee(t, *names):
    return t.op == "call" and t.args[0] in names


def opens(facts, key, value):
    """the encoded point `key` is known to equal the point `value`"""
    for f in facts:
        if f.op == "t" and callee(f.args[0], "crypto.point_eq"):
            a, b = f.args[0].args[1:3]
            for x, y in ((a, b), (b, a)):
                if callee(x, "crypto.decodepoint") and x.args[1] is key and y is value:
                    return True
        for a, b in eq_pairs((f,)):
            for x, y in ((a, b), (b, a)):
                if x is key and callee(y, "crypto.encodepoint") and y.args[1] is value:
                    return True
    return False


def run(ctx):
    ctx.rule("spend-key", "every signing call has established that the secret handed to it is the discrete logarithm of the real ring member's one-time key")
    ctx.rule("mask", "every signing call has established that the mask handed to it and the input's amount open the real ring member's commitment")
    ctx.rule("operands", "the signing call is given the device's own message hash, the ring of this input, its real index, and the commitment that is returned with the signature")
    ctx.rule("commitment", "the input commitment used is the authenticated one, or one recomputed over the recorded amount; the blinding factor handed to the signature opens it")
    ctx.rule("balance", "when the last input is signed the sum of input blinding factors equals the sum of output blinding factors")
    ctx.rule("sums", "each blinding factor sum is updated exactly once per item, with the factor that was committed to")

    last = ("==", mk_add(me("inp_idx"), const(2)), me("input_count"), True)
    nlast = last[:3] + (False,)
    det = [("==", me("bp_version"), const(2), True)]
    nondet = [("==", me("bp_version"), const(1), True), (">=", me("bp_version"), const(2), False), (">=", me("client_version"), const(1), False)]
    for name, st in (("last input, computed masks", [last] + det), ("other input, computed masks", [nlast] + det),
                     ("last input, chosen masks", [last] + nondet), ("other input, chosen masks", [nlast] + nondet)):
        r = run_step(ctx, "sign", assume_state(*st))
        p = params(r.fi, "sign")
        src = p["src_entr"]
        real = mk("sub", mk("attr", src, "outputs"), mk("attr", src, "real_output"))
        dest, comm = (mk("attr", mk("attr", real, "key"), x) for x in ("dest", "commitment"))
        evs = [e for e in r.i.events if e.kind in ("call", "mcall") and e.name.split(".")[-1].startswith("prove_rct_mg")]
        ctx.check("operands", "%s: signing call found" % name, bool(evs), "no signing call", r.fi.fid)
        sigs = {}
        for e in evs:
            a = e.args + (None,) * 8
            msg, ring, insk, alpha, pc, _, _, idx = a[:8]
            xs, m = ob(insk, "dest"), ob(insk, "mask")
            ctx.check("spend-key", "%s: secret opens the real member's key" % name, xs is not None and opens(e.facts, dest, mk("call", "crypto.scalarmult_base", xs)),
                      "signing with a secret that was not checked against the ring member's key", e.where())
            ctx.check("mask", "%s: mask and amount open the real member's commitment" % name,
                      m is not None and opens(e.facts, comm, mk("call", "crypto.gen_c", m, mk("attr", src, "amount"))),
                      "signing with a mask that was not checked against the ring member's commitment", e.where())
            ctx.check("operands", "%s: message" % name, msg is me("full_message"), "signed message is %s" % show(msg)[:200], e.where())
            ctx.check("operands", "%s: ring" % name, ring_of(ring, mk("attr", src, "outputs")), "ring is %s" % show(ring)[:300], e.where())
            ctx.check("operands", "%s: real index" % name, idx is mk("attr", src, "real_output"), "index is %s" % show(idx)[:200], e.where())
            # commitment and its blinding factor
            pos = mk("sub", me("source_permutation"), mk_add(me("inp_idx"), const(1)))
            inp_last = lin_true(e.facts, [(pos, 1), (me("input_count"), -1), (None, 1)])
            opened = [x for x in subterms(alpha) if callee(x, "crypto.decodeint") and p["pseudo_out_alpha"] in subterms(x)] if "pseudo_out_alpha" in p else \
                [x for x in subterms(alpha) if callee(x, "crypto.decodeint") and "txin-alpha" in show(x)]
            o1 = opened[0] if len(set(opened)) == 1 else None
            if callee(pc, "crypto.gen_c"):
                ctx.check("commitment", "%s: recomputed commitment has the recorded amount" % name, pc.args[2] is me("input_last_amount"), "commits to %s" % show(pc.args[2])[:200], e.where())
                ctx.check("commitment", "%s: recomputed only for the input whose amount was recorded" % name, inp_last, "recomputed for another input", e.where())
                ctx.check("commitment", "%s: blinding factor opens the recomputed commitment" % name, sc_lin(alpha) == sc_lin(pc.args[1]),
                          "commitment uses %s, signature uses %s" % (show(pc.args[1])[:200], show(alpha)[:200]), e.where())
                corr = sc_lin(alpha)
                okc = o1 is not None and corr == {o1: 1, me("sumout"): 1, me("sumpouts_alphas"): -1}
                ctx.check("balance", "%s: correction makes the sums equal" % name, okc, "blinding factor is %s" % show(alpha)[:300], e.where())
            else:
                ctx.check("commitment", "%s: commitment is the one supplied" % name, callee(pc, "crypto.decodepoint") and pc.args[1] is p["pseudo_out"],
                          "commitment is %s" % show(pc)[:200], e.where())
                ctx.check("commitment", "%s: commitment authenticated" % name, any(p["pseudo_out"] in subterms(x) for x in tag_for(e.facts, p["pseudo_out_hmac"])),
                          "commitment used without a tag comparison", e.where())
                ctx.check("commitment", "%s: blinding factor is the one sealed for this input" % name, o1 is not None and sc_lin(alpha) == {o1: 1},
                          "signature uses %s" % show(alpha)[:200], e.where())
            sigs[e.ev if hasattr(e, "ev") else id(e)] = (pc, e)
        for o in rets(r):
            po = field(r, o, "pseudo_out")
            ctx.check("operands", "%s: commitment returned is the one signed" % name,
                      po is not None and callee(po, "crypto.encodepoint") and any(po.args[1] is pc for pc, e in sigs.values()), "returned %s" % show(po)[:200] if po else "nothing returned", r.fi.fid)
            so, sp = (r.i.resolve(sget(o, k), o.state) for k in ("sumout", "sumpouts_alphas"))
            ctx.check("sums", "%s: output sum untouched" % name, so is me("sumout"), "becomes %s" % show(so)[:200], r.fi.fid)
            used_corr = any(f.op == "t" and lin_true((f,), [(mk("sub", me("source_permutation"), mk_add(me("inp_idx"), const(1))), 1), (me("input_count"), -1), (None, 1)]) for f in o.state.facts)
            if "computed" in name and used_corr:
                ctx.check("sums", "%s: input sum corrected by what the blinding factor was corrected by" % name, sc_lin(sp) == {me("sumout"): 1}, "becomes %s" % show(sp)[:200], r.fi.fid)
            else:
                ctx.check("sums", "%s: input sum untouched" % name, sp is me("sumpouts_alphas"), "becomes %s" % show(sp)[:200], r.fi.fid)
            if "last" in name:
                ctx.check("balance", "%s: sums equal" % name, sc_equal(o.state.facts, sp, so), "the last signature is produced without establishing that the blinding factors balance", r.fi.fid)
        if "last" in name:
            for e in evs:
                ctx.check("balance", "%s: established before signing" % name, any(
                    f.op == "t" and callee(f.args[0], "crypto.sc_eq") and me("sumout") in subterms(f.args[0]) for f in e.facts) or callee(e.args[4], "crypto.gen_c"),
                    "signing without establishing that the blinding factors balance", e.where())

    # ------------------------------------------------ input step
    r = entry(ctx, "input")
    p = params(r.fi, "input")
    for o in rets(r):
        sp = r.i.resolve(sget(o, "sumpouts_alphas"), o.state)
        d = sc_lin(sp)
        d2 = dict(d)
        old = d2.pop(me("sumpouts_alphas"), 0)
        al = list(d2.items())
        ok = old == 1 and len(al) == 1 and al[0][1] == 1
        ctx.check("sums", "input step adds one blinding factor", ok, "sum becomes %s" % show(sp)[:200], r.fi.fid)
        if not ok:
            continue
        al = al[0][0]
        po = field(r, o, "pseudo_out")
        ctx.check("sums", "blinding factor added is the one committed to", po is not None and callee(po, "crypto.encodepoint") and callee(po.args[1], "crypto.gen_c") and po.args[1].args[1] is al,
                  "commitment is %s" % show(po)[:200], r.fi.fid)
        ae = field(r, o, "pseudo_out_alpha")
        ctx.check("sums", "blinding factor added is the one sealed", ae is not None and callee(ae, "chacha_poly.encrypt_pack") and callee(ae.args[2], "crypto.encodeint") and ae.args[2].args[1] is al,
                  "sealed value is %s" % show(ae)[:200], r.fi.fid)
        so = r.i.resolve(sget(o, "sumout"), o.state)
        ctx.check("sums", "input step leaves the output sum", so is me("sumout"), "becomes %s" % show(so)[:200], r.fi.fid)

        if lin_true(o.state.facts, [(me("inp_idx"), 1), (me("input_count"), -1), (None, 2)]):
            v = r.i.resolve(sget(o, "input_last_amount"), o.state)
            ctx.check("commitment", "amount recorded is that of the last input", v is mk("attr", p["src_entr"], "amount"), "recorded %s" % show(v)[:200], r.fi.fid)

    # ------------------------------------------------ inputs done
    r = entry(ctx, "all_in")
    for o in rets(r):
        so, sp = (r.i.resolve(sget(o, k), o.state) for k in ("sumout", "sumpouts_alphas"))
        ctx.check("sums", "input sum untouched when the inputs are complete", sp is me("sumpouts_alphas"), "becomes %s" % show(sp)[:200], r.fi.fid)
        ctx.check("sums", "output sum starts at zero for the outputs", so is me("sumout") or callee(so, "crypto.sc_init") and so.args[1] is const(0) or callee(so, "crypto.sc_0"),
                  "is %s" % show(so)[:200], r.fi.fid)
        # a step that computes the masks in advance has to balance them
        lm = r.i.resolve(sget(o, "output_last_mask"), o.state)
        if lm is not me("output_last_mask") and lm is not NONE:
            ctx.check("balance", "mask computed for the last output balances the sums", any(
                f.op == "t" and callee(f.args[0], "crypto.sc_eq") and me("sumpouts_alphas") in f.args[0].args for f in o.state.facts),
                "masks computed in advance are not checked to balance", r.fi.fid)

    # ------------------------------------------------ output step
    r = entry(ctx, "output")
    p = params(r.fi, "output")
    for o in rets(r):
        oi = r.i.resolve(sget(o, "out_idx"), o.state)
        so, sp = (r.i.resolve(sget(o, k), o.state) for k in ("sumout", "sumpouts_alphas"))
        ctx.check("sums", "output step leaves the input sum", sp is me("sumpouts_alphas"), "becomes %s" % show(sp)[:200], r.fi.fid)
        if oi is me("out_idx"):
            ctx.check("sums", "range proof message leaves the output sum", so is me("sumout"), "becomes %s" % show(so)[:200], r.fi.fid)
            continue
        d = sc_lin(so)
        old = d.pop(me("sumout"), 0)
        al = list(d.items())
        ok = old == 1 and len(al) == 1 and al[0][1] == 1
        ctx.check("sums", "output step adds one mask", ok, "sum becomes %s" % show(so)[:200], r.fi.fid)
        if not ok:
            continue
        mask = al[0][0]
        opk = field(r, o, "out_pk")
        ctx.check("sums", "mask added is the one committed to", opk is not None and any(callee(x, "crypto.gen_c") and x.args[1] is mask and x.args[2] is mk("attr", p["dst_entr"], "amount")
                  for x in subterms(opk)), "output commitment is %s" % show(opk)[:300], r.fi.fid)
    ap = [e for e in r.i.events if e.kind == "mcall" and e.name in ("append", "extend", "insert") and show(e.base).startswith("self.output_masks")]
    ctx.check("sums", "masks recorded for the range proof", bool(ap), "no mask is recorded", r.fi.fid)
    gcs = flat(e.args[0] for e in r.i.events if e.kind == "call" and e.name == "crypto.gen_c")
    rec = flat(e.args[-1] for e in ap)
    for e in ap:
        ctx.check("sums", "range proof uses the mask committed to", flat([e.args[-1]]) <= gcs, "records %s, commitments use %s" % (show(e.args[-1])[:200], sorted(show(x)[:200] for x in gcs)), e.where())
    for x in gcs:
        ctx.check("sums", "every mask committed to is one recorded for the range proof", x in rec or me("output_masks") in subterms(x),
                  "commits to %s, not recorded" % show(x)[:200], r.fi.fid)
    for step in ("permutation", "vini", "all_out", "final"):
        r = entry(ctx, step)
        for o in rets(r):
            for k in ("sumout", "sumpouts_alphas"):
                v = r.i.resolve(sget(o, k), o.state)
                ctx.check("sums", "%s unchanged by step %s" % (k, step), v is me(k), "becomes %s" % show(v)[:200], r.fi.fid)
    ctx.assumptions += ["elliptic-curve and scalar primitives behave as named (C15)", "the sealed blinding factor and spend key are authentic (C02, C24)"]
    ctx.floor("spend-key", 4)
    ctx.floor("balance", 4)
    ctx.floor("sums", 15)


def flat(ts):
    res = set()
    for t in ts:
        if t.op == "phi":
            res |= flat(t.args)
        else:
            res.add(t)
    return res


def ring_of(ring, outs):
    """the list of the keys of all members, in order"""
    if ring is None:
        return False
    s = show(ring)
    o = show(outs)
    return ring.op == "obj" and "rep<len(%s), 1, ((i<%s[#" % (o, o) in s and "].key>))>)" in s
