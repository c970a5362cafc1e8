"""C13 - ring signatures bind message, ring, key images and all responses."""
from algebra import Alg, diff, items, rebuild, short, text, norm
from drive import driver
from engine import _lin_into, mk_len, mk_sub, mk_add
from tsx import *

M = "monero_glue.xmr.mlsag2"
R = "monero_glue.xmr.ring_ct"
CR = "monero_glue.xmr.crypto"
OP = [r"monero_glue\.xmr\.core\.", r"monero_glue\.xmr\.crypto:(?!(check|generate)_signature$)", r"xmrserialize", r"common:HashWrapper"]

# What Monero defines: the verifiers as short reference texts.  They are interpreted like the code under analysis, never run.
MLSAG = '''
def spec(message, pk, rv, dsRows):
    c = rv.cc
    for i in range(len(pk)):
        h = crypto.get_keccak()
        h.update(message)
        for j in range(dsRows):
            P = pk[i][j]
            h.update(crypto.encodepoint(P))
            h.update(crypto.encodepoint(crypto.add_keys2(rv.ss[i][j], c, P)))
            h.update(crypto.encodepoint(crypto.add_keys3(rv.ss[i][j], crypto.hash_to_point(crypto.encodepoint(P)), c, rv.II[j])))
        for j in range(dsRows, len(pk[0])):
            h.update(crypto.encodepoint(pk[i][j]))
            h.update(crypto.encodepoint(crypto.add_keys2(rv.ss[i][j], c, pk[i][j])))
        c = crypto.decodeint(h.digest())
    return crypto.sc_eq(c, rv.cc)
'''
CLSAG = '''
def spec(msg, ss, sc1, sI, sD, pubs, C_offset):
    a = crypto.get_keccak()
    b = crypto.get_keccak()
    r = crypto.get_keccak()
    a.update(b"CLSAG_agg_0" + bytes(21))
    b.update(b"CLSAG_agg_1" + bytes(21))
    r.update(b"CLSAG_round" + bytes(21))
    for x in pubs:
        a.update(x.dest)
        b.update(x.dest)
        r.update(x.dest)
    for x in pubs:
        a.update(x.commitment)
        b.update(x.commitment)
        r.update(x.commitment)
    for x in (sI, sD):
        a.update(crypto.encodepoint(x))
        b.update(crypto.encodepoint(x))
    a.update(crypto.encodepoint(C_offset))
    b.update(crypto.encodepoint(C_offset))
    r.update(crypto.encodepoint(C_offset))
    r.update(msg)
    mp = crypto.decodeint(a.digest())
    mc = crypto.decodeint(b.digest())
    c = sc1
    for i in range(len(pubs)):
        C = crypto.point_sub(crypto.decodepoint(pubs[i].commitment), C_offset)
        H = crypto.hash_to_point(pubs[i].dest)
        L = crypto.point_add(crypto.add_keys2(ss[i], crypto.sc_mul(mp, c), crypto.decodepoint(pubs[i].dest)), crypto.scalarmult(C, crypto.sc_mul(mc, c)))
        Rr = crypto.point_add(crypto.add_keys3(ss[i], H, crypto.sc_mul(mp, c), sI), crypto.scalarmult(crypto.point_mul8(sD), crypto.sc_mul(mc, c)))
        h = r.copy()
        h.update(crypto.encodepoint(L))
        h.update(crypto.encodepoint(Rr))
        c = crypto.decodeint(h.digest())
    return crypto.sc_eq(c, sc1)
'''
RING = '''
def spec(prefix_hash, image, pubs, sig):
    h = crypto.get_keccak()
    h.update(prefix_hash)
    t = crypto.sc_0()
    for i in range(len(pubs)):
        c = sig[i][0]
        r = sig[i][1]
        h.update(crypto.encodepoint(crypto.add_keys2(r, c, pubs[i])))
        h.update(crypto.encodepoint(crypto.add_keys3(r, crypto.hash_to_point(crypto.encodepoint(pubs[i])), c, image)))
        t = crypto.sc_add(t, c)
    return crypto.sc_eq(crypto.decodeint(h.digest()), t)
'''
BORRO = '''
def spec(P1, P2, s0, s1, ee):
    h = crypto.get_keccak()
    for i in range(len(P1)):
        c = crypto.hash_to_scalar(crypto.encodepoint(crypto.add_keys2(s0[i], ee, P1[i])))
        h.update(crypto.encodepoint(crypto.add_keys2(s1[i], c, P2[i])))
    return crypto.sc_eq(crypto.decodeint(h.digest()), ee)
'''
SCHNORR = '''
def spec(data, c, r, pub):
    h = crypto.get_keccak()
    h.update(data)
    h.update(crypto.encodepoint(pub))
    h.update(crypto.encodepoint(crypto.add_keys2(r, c, pub)))
    return crypto.sc_eq(crypto.decodeint(h.digest()), c)
'''


def machine(ctx, opaque=()):
    return Interp(ctx.repo, opaque=OP + list(opaque), limit=200)


def positional(f, names):
    """the function's own parameter names, by position"""
    ps = [a.arg for a in f.node.args.args]
    return dict(zip(names, ps))


def accepts(it, outs):
    """outcomes that stand for 'valid', with the atoms known to hold"""
    for o in outs:
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state) if o.value is not None else NONE
        facts = [it.resolve(x, o.state) for x in o.state.facts]
        if is_const(v):
            if cval(v) is False or cval(v) == 0 and cval(v) is not None:
                continue
            yield o, facts
        else:
            yield o, facts + [mk("t", v)]


def equations(al, facts):
    """scalar equalities X == 0 among what is known, as (polynomial items)"""
    out = []
    for x in facts:
        if x.op not in ("t", "f"):
            continue
        a, pos = x.args[0], x.op == "t"
        while a.op == "not":
            a, pos = a.args[0], not pos
        if a.op == "eq0" and len(a.args[0]) == 1 and isinstance(a.args[0][0][0], T):
            y = a.args[0][0][0]
            if short(y) in ("sc_isnonzero", "sc_eq"):
                # f(y) == 0
                a, pos = y, not pos
        if a.op == "eq" and any(is_const(z) for z in a.args):
            k = next(z for z in a.args if is_const(z))
            y = next((z for z in a.args if not is_const(z)), None)
            if y is not None and short(y) in ("sc_isnonzero", "sc_eq"):
                a, pos = y, pos == bool(cval(k))
        n = short(a)
        if n == "sc_isnonzero" and not pos:
            out.append(al.sc(a.args[1]))
        elif n == "sc_eq" and pos:
            from algebra import padd
            out.append(padd(al.sc(a.args[1]), al.sc(a.args[2]), -1))
    return out


def canon(p):
    """up to sign"""
    a = items(p)
    b = items({m: -c for m, c in p.items()})
    return min((a, b), key=lambda q: repr([(tuple(map(str, map(skey_, m))), c) for m, c in q]))


def skey_(t):
    from engine import skey
    return skey(t)


def reference(ctx, module, src, names):
    it = machine(ctx)
    f = driver(ctx.repo, module, src)
    outs = it.run(f, args=names)
    al = Alg()
    eqs = []
    for o, facts in accepts(it, outs):
        eqs += [e for e in equations(al, facts)]
    if not eqs:
        raise Broken("reference verifier has no closing equation")
    return eqs[0]


def verifier(ctx, name, dotted, src, pnames):
    """every accepting path of the verifier implies the reference closing equation"""
    f = ctx.func(dotted)
    real = [a.arg for a in f.node.args.args]
    sym = {p: mk("param", n) for p, n in zip(real, pnames)}
    spec = reference(ctx, M, src, {n: mk("param", n) for n in pnames})
    it = machine(ctx)
    outs = it.run(f, args=sym)
    ctx.used(it)
    n = 0
    for o, facts in accepts(it, outs):
        n += 1
        al = Alg()
        eqs = equations(al, facts)
        ok = any(canon(e) == canon(spec) for e in eqs)
        why = ""
        if not ok:
            why = "; ".join(str(diff(canon(e), canon(spec))) for e in eqs[:1]) if eqs else "no equation is checked"
        ctx.check("verifier", "%s: accepts only a closed chain" % name, ok, "%s accepts without the defining equation: %s" % (dotted, why[:400]), f.fid)
    if not n:
        ctx.check("verifier", "%s: accepts" % name, False, "%s accepts nothing" % dotted, f.fid)
    return f, it, outs


def sizes(ctx, name, f, it, outs, want):
    ctx.rule("sizes", "a verifier accepts only rings, key images and responses of matching sizes")
    for o, facts in accepts(it, outs):
        for label, test in want:
            ctx.check("sizes", "%s: %s" % (name, label), test(set(facts)), "%s accepts without checking: %s" % (f.fid, label), f.fid)


def run(ctx):
    ctx.rule("verifier", "a verifier accepts only when the chain of round hashes over the message, every ring member, the key image and every response closes on the signature's challenge")
    p = lambda n: mk("param", n)
    f, it, outs = verifier(ctx, "MLSAG", M + ":ver_mlsag_ext", MLSAG, ("message", "pk", "rv", "dsRows"))
    f2, it2, outs2 = verifier(ctx, "CLSAG", M + ":verify_clsag", CLSAG, ("msg", "ss", "sc1", "sI", "sD", "pubs", "C_offset"))
    f3, it3, outs3 = verifier(ctx, "ring signature", R + ":check_ring_singature", RING, ("prefix_hash", "image", "pubs", "sig"))
    verifier(ctx, "Borromean", M + ":ver_borromean", BORRO, ("P1", "P2", "s0", "s1", "ee"))
    f5, it5, outs5 = verifier(ctx, "Schnorr", CR + ":check_signature", SCHNORR, ("data", "c", "r", "pub"))
    sizes(ctx, "MLSAG", f, it, outs, mlsag_sizes())
    ss, pubs = p("ss"), p("pubs")
    sizes(ctx, "CLSAG", f2, it2, outs2, [
        ("the ring is not empty", lambda fs: truth(fs, "==", mk_len(pubs), const(0)) is False or truth(fs, ">=", mk_len(pubs), const(1)) is True),
        ("one response per ring member", lambda fs: truth(fs, "==", mk_len(ss), mk_len(pubs)) is True)])
    scalars(ctx, "ring signature", f3, it3, outs3, [("every response is reduced", lambda fs: forall_check(fs, 0) and forall_check(fs, 1))])
    scalars(ctx, "Schnorr", f5, it5, outs5, [("%s is reduced" % n, lambda fs, n=n: truth_check(fs, p(n))) for n in "cr"])
    wrappers(ctx)
    complete(ctx)


# -- shape of what is verified ------------------------------------------------------------------------------------------
def mlsag_sizes():
    p = lambda n: mk("param", n)
    pk, rv, ds = p("pk"), p("rv"), p("dsRows")
    rows, cols = mk_len(mk_sub(pk, const(0))), mk_len(pk)

    def every(fs, n, want):
        """for all i < n: len(want(i)) == rows"""
        return any(x.op == "forall" and x.args[0] is n and any(same(x.args[2], mk_len(want(mk("idx", x.args[1]))), rows) for _ in (0,)) for x in fs)

    def same(x, a, b):
        return x.op == "t" and x.args[0].op == "eq" and set(x.args[0].args) == {a, b}
    return [
        ("the ring has at least two members", lambda fs: truth(fs, ">=", cols, const(2)) is True),
        ("the key vector is not empty", lambda fs: truth(fs, "==", rows, const(0)) is False or truth(fs, ">=", rows, const(1)) is True),
        ("every ring member has the same number of keys", lambda fs: every(fs, cols, lambda i: mk_sub(pk, i))),
        ("one key image per linked row", lambda fs: truth(fs, "==", mk_len(mk("attr", rv, "II")), ds) is True),
        ("one response vector per ring member", lambda fs: truth(fs, "==", mk_len(mk("attr", rv, "ss")), cols) is True),
        ("one response per key", lambda fs: every(fs, cols, lambda i: mk_sub(mk("attr", rv, "ss"), i))),
        ("no more linked rows than rows", lambda fs: truth(fs, ">=", rows, ds) is True),
    ]


def zero_check(x):
    """scalar whose reducedness x establishes"""
    if x.op == "t" and x.args[0].op == "eq0" and len(x.args[0].args[0]) == 1 and isinstance(x.args[0].args[0][0][0], T):
        y = x.args[0].args[0][0][0]
        if short(y) == "sc_check":
            return y.args[1]
    if x.op == "f" and short(x.args[0]) == "sc_check":
        return x.args[0].args[1]
    return None


def truth_check(fs, t):
    return any(zero_check(x) is t for x in fs)


def forall_check(fs, k):
    sig, pubs = mk("param", "sig"), mk("param", "pubs")
    return any(x.op == "forall" and x.args[0] is mk_len(pubs) and zero_check(x.args[2]) is mk_sub(mk_sub(sig, mk("idx", x.args[1])), const(k)) for x in fs)


def scalars(ctx, name, f, it, outs, want):
    ctx.rule("reduced", "a verifier accepts only challenges and responses that are fully reduced")
    for o, facts in accepts(it, outs):
        for label, test in want:
            ctx.check("reduced", "%s: %s" % (name, label), test(set(facts)), "%s accepts without: %s" % (f.fid, label), f.fid)


def wrappers(ctx):
    """the ring verified for a confidential input is (key, commitment - pseudo output), for every member"""
    ctx.rule("ring", "the keys handed to the ring verification are, for every ring member, its one-time key and its commitment minus the pseudo output")
    f = ctx.func(M + ":ver_rct_mg_simple")
    p = lambda n: mk("param", n)
    real = [a.arg for a in f.node.args.args]
    it = machine(ctx)
    ver = ctx.func(M + ":ver_mlsag_ext")
    calls = []
    it.stubs[ver.fid] = lambda it, fi, env, st, node: [(st, mk("call", "VERIFY", *[it.resolve(env[a.arg], st) for a in ver.node.args.args]))] if env else None
    n = 0
    outs = it.run(f, args={a: p(x) for a, x in zip(real, ("message", "mg", "pubs", "C"))})
    ctx.used(it)
    for o, facts in accepts(it, outs):
        vs = [x for t in facts if t.op in ("t", "f") for x in subterms(t.args[0]) if x.op == "call" and x.args[0] == "VERIFY"]
        ok = False
        why = "no ring is verified"
        for t in facts:
            v = t.args[0] if t.op == "t" else None
            if v is None or v.op != "call" or v.args[0] != "VERIFY":
                continue
            msg, pk, rv, ds = v.args[1:5]
            al = Alg()
            i = mk("idx", 91)
            pub = mk_sub(p("pubs"), i)
            al.bind(i, mk_len(p("pubs")))
            row = mk_sub(pk, i)
            want = [mk("call", "crypto.decodepoint", mk("attr", pub, "dest")), mk("call", "crypto.point_sub", mk("call", "crypto.decodepoint", mk("attr", pub, "commitment")), p("C"))]
            good = [al.pt(mk_sub(row, const(k))) == al.pt(want[k]) for k in (0, 1)]
            ok = msg is p("message") and rv is p("mg") and is_const(ds) and cval(ds) == 1 and all(good) and mk_len(row) is const(2) and mk_len(pk) is mk_len(p("pubs"))
            why = "message %s, signature %s, key row %s, commitment row %s" % (show(msg)[:40], show(rv)[:40], text(mk_sub(row, const(0))), text(mk_sub(row, const(1))))
            n += ok
        ctx.check("ring", "verified ring", ok, why, f.fid)
    if not n:
        ctx.check("ring", "verification", False, "ver_rct_mg_simple accepts nothing", f.fid)


# -- the prover's output satisfies the reference equation -----------------------------------------------------------------
def indent(s):
    import textwrap
    return textwrap.indent(textwrap.dedent(s).strip("\n"), "    ") + "\n"


def composed(ctx, src, point_of, label, fid, module=M, scalar_of=None):
    it = machine(ctx)
    it.unroll, it.unroll_true = 60, True
    n = 0
    for o in it.run(driver(ctx.repo, module, src)):
        if o.kind != "return":
            continue
        n += 1
        v = it.resolve(o.value, o.state)
        al = Alg(point_of=point_of, scalar_of=scalar_of)
        eqs = equations(al, [mk("t", v)])
        ok = bool(eqs) and not eqs[0]
        why = "" if ok else (text(items(eqs[0])) if eqs else show(v)[:200])
        ctx.check("prover", label, ok, "the produced signature does not satisfy the verification equation: %s" % why[:300], fid)
    ctx.used(it)
    if not n:
        ctx.check("prover", label, False, "no signature is produced", fid)


def nonces(ctx, fid, name, module, src, n):
    ctx.rule("nonces", "every response a prover publishes is masked by a random scalar of its own")
    for idx in range(n):
        it = machine(ctx)
        it.unroll, it.unroll_true = 60, True
        for o in it.run(driver(ctx.repo, module, src % idx)):
            if o.kind != "return":
                continue
            v = it.resolve(o.value, o.state)
            al = Alg()
            rs = []
            k = 0
            while mk_sub(v, const(k)).op != "sub":
                rs.append(al.sc(mk_sub(v, const(k))))
                k += 1
            rs = [r for r in rs if r] if name == "Schnorr" else rs
            seen = set()
            own = lambda a: a.op == "fresh" and short(a) in ("random_scalar", "random_scalar_into") and not any(x.op == "param" for x in a.args if isinstance(x, T))
            for i, r in enumerate(rs):
                free = [m[0] for m, c in r.items() if len(m) == 1 and c in (1, -1) and own(m[0]) and m[0] not in seen]
                ctx.check("nonces", "%s, position %d, response %d" % (name, idx, i), bool(free), "response %d is %s" % (i, text(items(r))), fid)
                seen |= {a for m in r for a in m}
            if not rs:
                ctx.check("nonces", "%s, position %d" % (name, idx), False, "no responses: %s" % show(v)[:100], fid)
        ctx.used(it)


def complete(ctx):
    ctx.rule("prover", "the signature a prover produces satisfies the defining equation identically in all keys, masks, random values and messages, at every ring position")
    P = lambda k: mk("param", k)
    call = lambda n, *a: mk("call", "crypto." + n, *a)
    base = lambda s: call("scalarmult_base", s)
    top = 16 if ctx.tier == "thorough" else 5
    g = ctx.func(M + ":gen_mlsag_ext").fid
    for n in range(2, top + 1):
        for idx in range(n):
            names = ", ".join("A%d, B%d" % (i, i) for i in range(n))
            pk = "[" + ", ".join("[A%d, B%d]" % (i, i) for i in range(n)) + "]"
            pts = {P("A%d" % idx): base(P("x0")), P("B%d" % idx): base(P("x1"))}
            src = "def d(message, %s, x0, x1):\n" % names + indent(MLSAG)
            for ds in (1, 2) if n < 4 else (1,):
                composed(ctx, src + "    rv = gen_mlsag_ext(message, %s, [x0, x1], None, None, %d, %d)[0]\n    return spec(message, %s, rv, %d)\n" % (pk, idx, ds, pk, ds), pts,
                         "MLSAG, %d members, position %d, %d linked" % (n, idx, ds), g)
            # confidential input: the real commitment opens to mask, the pseudo output to a, for the same amount
            pts = {P("A%d" % idx): base(P("x0")), P("B%d" % idx): call("add_keys2", P("x1"), P("amount"), P("H")), P("Cout"): call("add_keys2", P("a"), P("amount"), P("H"))}
            ring = "[" + ", ".join("CtKey(dest=crypto.encodepoint(A%d), mask=None)" % i for i in range(n)) + "]"
            mkring = "    pubs = [%s]\n" % ", ".join("MoneroRctKeyPublic(dest=crypto.encodepoint(A%d), commitment=crypto.encodepoint(B%d))" % (i, i) for i in range(n))
            sk = "    sk = CtKey(dest=x0, mask=x1)\n"
            rows = "[" + ", ".join("[A%d, crypto.point_sub(B%d, Cout)]" % (i, i) for i in range(n)) + "]"
            composed(ctx, "def d(message, %s, x0, x1, a, Cout):\n" % names + indent(MLSAG) + mkring + sk +
                     "    rv = prove_rct_mg_simple(message, pubs, sk, a, Cout, None, None, %d)[0]\n    return spec(message, %s, rv, 1)\n" % (idx, rows), pts,
                     "confidential input, %d members, position %d" % (n, idx), ctx.func(M + ":prove_rct_mg_simple").fid)
            buf = "    buf = generate_clsag_simple(message, pubs, sk, a, Cout, %d, [])\n" % idx
            resp = "[" + ", ".join("crypto.decodeint(buf[%d])" % (i + 1) for i in range(n)) + "]"
            composed(ctx, "def d(message, %s, x0, x1, a, Cout):\n" % names + indent(CLSAG) + mkring + mkring.replace("pubs", "pubs2") + sk + buf +
                     "    I = crypto.scalarmult(crypto.hash_to_point(crypto.encodepoint(A%d)), x0)\n    return spec(message, %s, crypto.decodeint(buf[%d]), I, crypto.decodepoint(buf[%d]), pubs2, Cout)\n"
                     % (idx, resp, n + 1, n + 2), pts, "CLSAG, %d members, position %d" % (n, idx), ctx.func(M + ":generate_clsag_simple").fid)
    for n in range(1, 4 if ctx.tier == "quick" else 7):
        for idx in range(n):
            names = ", ".join("A%d" % i for i in range(n))
            ring = "[%s]" % names
            composed(ctx, "def d(message, %s, x):\n" % names + indent(RING) +
                     "    ki = crypto.scalarmult(crypto.hash_to_point(crypto.encodepoint(A%d)), x)\n    sig = generate_ring_signature(message, ki, %s, x, %d)\n    return spec(message, ki, %s, sig)\n"
                     % (idx, ring, idx, ring), {P("A%d" % idx): base(P("x"))}, "ring signature, %d members, position %d" % (n, idx), ctx.func(R + ":generate_ring_signature").fid, module=R)
    response_nonces(ctx)
    composed(ctx, "def d(data, priv):\n" + indent(SCHNORR) + "    c, r, pub = crypto.generate_signature(data, priv)\n    return spec(data, c, r, pub)\n", {},
             "Schnorr", ctx.func(CR + ":generate_signature").fid)


def response_nonces(ctx):
    nonces(ctx, ctx.func(M + ":gen_mlsag_ext").fid, "MLSAG", M, "def d(message, A0, B0, A1, B1, x0, x1):\n    rv = gen_mlsag_ext(message, [[A0, B0], [A1, B1]], [x0, x1], None, None, %d, 1)[0]\n"
           "    return [rv.ss[0][0], rv.ss[0][1], rv.ss[1][0], rv.ss[1][1]]\n", 2)
    nonces(ctx, ctx.func(M + ":_generate_clsag").fid, "CLSAG", M, "def d(message, A0, B0, A1, B1, A2, B2, x0, x1, Cout):\n    buf = _generate_clsag(message, [A0, A1, A2], x0, [B0, B1, B2], x1, Cout, %d, [])\n"
           "    return [crypto.decodeint(buf[1]), crypto.decodeint(buf[2]), crypto.decodeint(buf[3])]\n", 3)
    nonces(ctx, ctx.func(R + ":generate_ring_signature").fid, "ring signature", R, "def d(message, ki, A0, A1, x):\n    s = generate_ring_signature(message, ki, [A0, A1], x, %d)\n"
           "    return [s[0][1], s[1][1]]\n", 2)
    nonces(ctx, ctx.func(CR + ":generate_signature").fid, "Schnorr", CR, "def d(data, priv):\n    s = generate_signature(data, priv)\n    return [s[1]] + [sc_0()] * %d\n", 1)
