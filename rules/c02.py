"""C02 - host-held data is authenticated at its own position before the device uses it."""
from tsx import *
from engine import mk_add, subst

ONE = const(1)
I = mk("param", "<index>")
V = mk("param", "<value>")


def run(ctx):
    ctx.rule("tagged-use", "every use of host-returned data is dominated by a successful comparison of its tag with the tag the device recomputes over that data")
    ctx.rule("same-tag", "the recomputed tag is the tag that was issued: same keyed function of the same data at the same item index, keyed by a session secret")
    ctx.rule("sealed", "host-returned encrypted secrets are used only after authenticated decryption under the key the device sealed that item with")
    ctx.rule("derive", "keys of different items or purposes come from different hash inputs: the secret, the whole purpose label and the whole item index enter the derivation")
    derivation(ctx)
    inp, vini, sign, out, init = (entry(ctx, s) for s in ("input", "vini", "sign", "output", "init"))
    nxt_in = mk_add(me("inp_idx"), ONE)

    # ------------------------------------------------ what was issued
    def issued(r, name, data=None, extra=None):
        """set of canonical tag terms for a response field of step r"""
        res = set()
        for o in rets(r):
            t = field(r, o, name)
            if t is None:
                continue
            m = {}
            if data:
                d = field(r, o, data)
                if d is not None:
                    m[d] = V
            kh, ke = sget(o, "key_hmac"), sget(o, "key_enc")
            if kh is not me("key_hmac"):
                m[r.i.resolve(kh, o.state)] = me("key_hmac")
                m[r.i.resolve(ke, o.state)] = me("key_enc")
            t = subst(t, m)
            t = subst(t, {nxt_in: I, mk("idx", 1): I, mk_add(me("out_idx"), ONE): I})
            res.add(t)
        return res

    SRC = params(inp.fi, "input")["src_entr"]
    iss = {
        "vini": issued(inp, "vini_hmac", "vini"),
        "pseudo": issued(inp, "pseudo_out_hmac", "pseudo_out"),
    }
    # destination tags are issued by the init step, one per output, in order
    dst = set()
    tsx = params(init.fi, "init")["tsx_data"]
    for o in rets(init):
        t = field(init, o, "hmacs")
        ok = False
        if t is not None and t.op == "obj" and len(t.args[1]) == 1 and t.args[1][0].op == "rep":
            rep = t.args[1][0]
            bodies = rep.args[2]
            if len(bodies) == 1 and len(bodies[0]) == 1 and bodies[0][0].op == "i":
                e = bodies[0][0].args[0]
                n_ok = show(rep.args[0]) == "len(%s.outputs)" % show(tsx)
                kh = init.i.resolve(sget(o, "key_hmac"), o.state)
                e = subst(e, {kh: me("key_hmac")})
                e = subst(e, {mk("sub", mk("attr", tsx, "outputs"), mk("idx", rep.args[1])): V})
                e = subst(e, {mk("idx", rep.args[1]): I})
                dst.add(e)
                ok = n_ok
        ctx.check("same-tag", "destination tags: one per declared output, in order", ok, "the init response does not carry one tag per output in output order: %s"
                  % (show(t)[:300] if t is not None else None), init.fi.fid)

    def wellformed(kind, terms, need):
        for t in terms:
            ok = t.op == "call" and t.args[0] == "crypto.compute_hmac" and len(t.args) == 3
            k = t.args[1] if ok else None
            ok = ok and deps(k, me("key_hmac")) and deps(k, I) and all(deps(t.args[2], x) for x in need)
            ctx.check("same-tag", "%s tag covers its data and index" % kind, ok,
                      "issued tag is not a keyed MAC over (%s) under a session key bound to the item index: %s" % (", ".join(map(show, need)), show(t)[:300]), inp.fi.fid)
        ctx.check("same-tag", "%s tag issued" % kind, len(terms) == 1, "expected one form of the tag, got %d" % len(terms), inp.fi.fid)

    wellformed("input", iss["vini"], [SRC, V])
    wellformed("pseudo-output", iss["pseudo"], [V])
    wellformed("destination", dst, [V])

    def canon(t, data, idx, src=None):
        m = {data: V, idx: I}
        if src is not None:
            m[src] = SRC
        return subst(t, m)

    def verify_use(r, step, kind, data, tag, idx, issued_terms, uses, src=None):
        """every `uses` event depending on the data carries the fact that the tag matched"""
        for e in uses:
            ok = False
            for t in tag_for(e.facts, tag):
                if canon(t, data, idx, src) in issued_terms:
                    ok = True
            ctx.check("tagged-use", "%s: %s used by %s" % (step, kind, e.name), ok,
                      "'%s' is reached without a successful check of the %s tag at the index being processed" % (e.name, kind), e.where())

    # ------------------------------------------------ vini step
    p = params(vini.fi, "vini")
    sidx = mk("sub", me("source_permutation"), nxt_in)
    uses = [e for e in vini.i.events if e.kind == "mcall" and e.base is not None and show(e.base).startswith("self.") and e.args
            and any(deps(a, p["vini"]) for a in e.args) and e.name not in ("_build_key",)]
    ctx.check("tagged-use", "vini: input is consumed", bool(uses), "the authenticated input is never consumed by the prefix hash", vini.fi.fid)
    verify_use(vini, "vini", "input", p["vini"], p["vini_hmac"], sidx, iss["vini"], uses, p["src_entr"])
    for o in rets(vini):
        ok = any(canon(t, p["vini"], sidx, p["src_entr"]) in iss["vini"] for t in tag_for(o.state.facts, p["vini_hmac"]))
        ctx.check("tagged-use", "vini: acknowledged", ok, "the step is acknowledged without checking the input's tag", vini.fi.fid)

    # ------------------------------------------------ sign step
    p = params(sign.fi, "sign")
    uses = [e for e in sign.i.events if e.kind == "call" and (e.name.startswith("mlsag2.") or e.name == "crypto.point_eq" or e.name.startswith("chacha_poly."))]
    ctx.check("tagged-use", "sign: signature produced", any(e.name.startswith("mlsag2.prove") for e in uses), "no signing call found", sign.fi.fid)
    verify_use(sign, "sign", "input", p["vini"], p["vini_hmac"], sidx, iss["vini"], uses, p["src_entr"])
    ps = [e for e in sign.i.events if e.kind == "call" and e.name.startswith("mlsag2.") and any(deps(a, p["pseudo_out"]) for a in e.args)]
    ctx.check("tagged-use", "sign: host-held commitment is used", bool(ps), "no use of the offloaded commitment found", sign.fi.fid)
    for e in ps:
        ok = False
        for t in tag_for(e.facts, p["pseudo_out_hmac"]):
            if subst(t, {p["pseudo_out"]: V, sidx: I}) in iss["pseudo"]:
                ok = True
        ctx.check("tagged-use", "sign: pseudo-output used by %s" % e.name, ok, "the offloaded commitment reaches '%s' without a check of its tag" % e.name, e.where())
    for o in rets(sign):
        rp = field(sign, o, "pseudo_out")
        if rp is not None and deps(rp, p["pseudo_out"]):
            ok = any(subst(t, {p["pseudo_out"]: V, sidx: I}) in iss["pseudo"] for t in tag_for(o.state.facts, p["pseudo_out_hmac"]))
            ctx.check("tagged-use", "sign: pseudo-output returned", ok, "an unauthenticated commitment is returned as the input's commitment", sign.fi.fid)

    # sealed secrets
    seal = {"pseudo_out_alpha": set(), "spend_key": set()}
    for o in rets(inp):
        for n in seal:
            t = field(inp, o, n)
            good = t is not None and t.op == "call" and t.args[0] == "chacha_poly.encrypt_pack"
            ctx.check("sealed", "%s is sealed" % n, good, "the secret leaves the device without authenticated encryption: %s" % (show(t)[:200] if t is not None else None), inp.fi.fid)
            if good:
                seal[n].add((subst(t.args[1], {nxt_in: I}), tuple(subst(x, {nxt_in: I}) for x in t.args[3:] if x is not NONE)))
    for n in seal:
        for k, ad in seal[n]:
            ctx.check("sealed", "%s sealing key is secret and bound to the index" % n, deps(k, me("key_enc")) and deps(k, I), "sealing key: %s" % show(k), inp.fi.fid)
    for e in sign.i.events:
        if e.kind not in ("call", "mcall"):
            continue
        for n in seal:
            if e.name == "chacha_poly.decrypt_pack" and len(e.args) >= 2 and deps(e.args[1], p[n]):
                k = subst(e.args[0], {sidx: I})
                ctx.check("sealed", "%s opened with its own key" % n, (k, tuple(subst(x, {sidx: I}) for x in e.args[2:] if x is not NONE)) in seal[n],
                          "opened with %s" % show(e.args[0]), e.where())
                ctx.check("sealed", "%s opened from the message" % n, e.args[1] is p[n], "opened blob is %s" % show(e.args[1]), e.where())
    # every other use of the sealed blobs goes through the authenticated opening
    bare = set()
    for e in sign.i.events:
        if e.kind in ("call", "mcall", "store") and e.name != "chacha_poly.decrypt_pack":
            ts = list(e.args or ()) + ([e.value] if e.kind == "store" and e.value is not None else [])
            for n in seal:
                for t in ts:
                    if isinstance(t, T) and naked(t, p[n]):
                        bare.add((n, e.name))
    ctx.check("sealed", "sealed blobs used only after opening", not bare, "raw sealed data used by %s" % sorted(bare), sign.fi.fid)
    used = [e for e in sign.i.events if e.kind == "call" and e.name.startswith("mlsag2.prove")]
    for e in used:
        for n in seal:
            ok = any(any(x.op == "call" and x.args[0] == "chacha_poly.decrypt_pack" and x.args[2] is p[n] for x in subterms(a)) for a in e.args)
            ctx.check("sealed", "signature uses the opened %s" % n, ok, "the signing call does not use the sealed secret", e.where())

    # ------------------------------------------------ output step
    p = params(out.fi, "output")
    d = p["dst_entr"]
    oidx = mk_add(me("out_idx"), ONE)
    heavy = [e for e in out.i.events if (e.kind == "call" and (e.name.startswith(("crypto.", "monero.", "ring_ct.", "addr.")))
                                         or e.kind == "mcall" and e.base is not None and show(e.base).startswith("self.")
                                         or e.kind == "store") and e.name not in ("compute_hmac", "crypto.compute_hmac", "_build_key")
             and any(isinstance(a, T) and deps(a, d) for a in list(e.args or ()) + ([e.value] if e.value is not None else []))]
    ctx.check("tagged-use", "output: destination is consumed", len(heavy) >= 5, "only %d uses of the destination found" % len(heavy), out.fi.fid)
    seenk = set()
    for e in heavy:
        ok = any(subst(t, {d: V, oidx: I}) in dst for t in tag_for(e.facts, p["dst_entr_hmac"]))
        k = (e.name, ok)
        if k in seenk:
            continue
        seenk.add(k)
        ctx.check("tagged-use", "output: destination used by %s" % e.name, ok, "the destination reaches '%s' without a check of its tag at the output index being processed" % e.name, e.where())
    ctx.assumptions += ["compute_hmac is unforgeable without the session key; decrypt_pack refuses forged data (property C24)"]


def derivation(ctx):
    """the key derivation maps (secret, purpose, index) to distinct hash inputs"""
    for name in key_derivers(ctx):
        fi = ctx.func(BUILDER + "." + name)
        pn = [a.arg for a in fi.node.args.args][1:]
        if len(pn) < 3:
            continue
        it = Interp(ctx.repo, opaque=[r"monero_glue\.xmr\.(crypto|core\.)", r"compat\.utils:memcpy"])
        outs = it.run(fi, args={pn[1]: mk("param", pn[1])}, state=assume_state(*[("is", mk("param", x), NONE, False) for x in pn[1:3]]))
        ctx.used(it)
        sec, lab, idx = (mk("param", x) for x in pn[:3])
        for o in outs:
            if o.kind != "return":
                continue
            v = it.resolve(o.value, o.state)
            sub = list(subterms(v))
            for what, x in (("secret", sec), ("purpose label", lab)):
                ok = any(y.op in ("set", "i", "m", "add", "call", "fold") and y.args[0] != "len" and any(z is x for z in y.args) for y in sub) \
                    or x is lab and mk("f", lab) in o.state.facts      # the empty label
                ctx.check("derive", "%s: %s enters the key whole" % (name, what), ok, "key is %s" % show(v)[:300], fi.fid)
            direct = [y for y in sub if y.op == "call" and idx in y.args and any(w in str(y.args[0]) for w in ("uvarint", "to_bytes", "pack"))
                      or y.op == "mcall" and idx in subterms(y) and "to_bytes" in show(y)]
            masked = [y for y in sub if y.op == "bin" and (y.args[0] == "&" and any(is_const(a) and cval(a) in (0x7f, 0xff) for a in y.args[1:])
                                                           or y.args[0] == "%" and is_const(y.args[2]) and cval(y.args[2]) in (0x80, 0x100)) and idx in subterms(y)]
            if direct:
                ok = True
            elif masked:
                # group-wise encoding: the loop is left only when nothing of the index remains
                ok = any(f.op == "f" and rest(f.args[0], idx) for f in o.state.facts) or any(
                    f.op == "t" and f.args[0].op == "eq0" and len(f.args[0].args[0]) == 1 and rest(f.args[0].args[0][0][0], idx) for f in o.state.facts) or any(
                    f.op in "tf" and f.args[0].op == "ge0" and any(x is not None and rest(x, idx, ()) for x, _ in f.args[0].args[0]) for f in o.state.facts)
            else:
                ok = any(idx in subterms(y) for y in sub)
            ctx.check("derive", "%s: item index enters the key whole" % name, ok, "distinct indices can give the same key: the encoding may stop before all of the index is written", fi.fid)
    ctx.floor("derive", 3)


def rest(t, idx, shifts=(7, 8)):
    """t is what is left of the index after the groups written so far"""
    if t.op in ("fold", "last"):
        return idx in subterms(t) and (not shifts or ">> " in show(t))
    if t.op == "bin" and any(x.op == "lphi" for x in subterms(t)):
        return idx in subterms(t) and ">> " in show(t)
    return False


def naked(t, p):
    """p occurs in t outside an authenticated opening"""
    if t is p:
        return True
    if t.op == "call" and t.args[0] == "chacha_poly.decrypt_pack":
        return False
    for a in t.args:
        if isinstance(a, T) and naked(a, p):
            return True
        if isinstance(a, tuple):
            for b in a:
                if isinstance(b, T) and naked(b, p):
                    return True
    return False
