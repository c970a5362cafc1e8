"""C26: every signature scheme of the repository makes signatures that satisfy its published verification equation, for every ring position and size up to a bound.

Signers are evaluated over symbolic keys; what they return is judged by verifiers written here from the published equations and by the verifiers of the repository.
"""
import itertools

from absint import Nat, Obj, Opq, Poly, Pt, Raised, intern
from ctx import Broken
from rules.c15 import BS, PV, PY, SV, TR, Backend, View, tok
from rules.c16 import G, H, P8, Rec, num, sym
from rules.c19 import FS, hp

ML, RC, CRY, MO = "monero_glue.xmr.mlsag2", "monero_glue.xmr.ring_ct", "monero_glue.xmr.crypto", "monero_glue.xmr.monero"
DOM = lambda s: list(s + b"\0" * (32 - len(s)))


class SG(FS):
    EXT = dict(FS.EXT, BoroSig=lambda m, **k: Rec("BoroSig", **k), RangeSig=lambda m, **k: Rec("RangeSig", **k), CtKey=lambda m, **k: Rec("CtKey", **k))

    def call(self, f, args, kw=None):
        if isinstance(f, Opq) and f.n.rsplit(".", 1)[-1] in ("info", "debug", "warning"):
            return None
        return FS.call(self, f, args, kw)

    def fn(self, mod, n):
        ctx = self.ctx
        if ctx.repo.resolve(mod, n) is None:
            raise Broken("anchor vanished: %s:%s" % (mod, n))
        return lambda *a, **k: self.call(self.module_name(ctx.repo.modules[mod], n), list(a), k)


class Case(object):
    def __init__(self, ctx, b, what, fid):
        self.ctx, self.b, self.what, self.fid = ctx, b, "%s: %s" % (b.name, what), fid
        self.m = SG(ctx, b)

    def s(self, p):
        return self.b.make(self.m, "s", p)

    def p(self, p):
        return self.b.make(self.m, "p", p)

    def S(self, x):
        """value of a returned scalar: value or bytes"""
        if isinstance(x, (BS, View, bytes)):
            v = self.m.scalar(self.m.toks(x), False)
        else:
            v = self.b.read(self.m, x)
        if not isinstance(v, SV):
            raise Raised(Rec("no scalar"), self.m.where)
        return v.p

    def P(self, x):
        if isinstance(x, (BS, View, bytes)):
            v = self.m.point(self.m.toks(x))
        else:
            v = self.b.read(self.m, x)
        if not isinstance(v, PV):
            raise Raised(Rec("no point"), self.m.where)
        return v.p

    def ep(self, p):
        return self.m.enc(PV(p))

    def es(self, p):
        return self.m.enc(SV(p, True))

    def hs(self, t):
        return self.m.scalar(self.m.hash(list(t)), True).p

    def key(self, p):
        return BS(self.ep(p))

    def judge(self, f):
        """f yields (rule, part, ok, message)"""
        try:
            for rule, part, ok, msg in f(self):
                self.ctx.check(rule, "%s%s" % (self.what, ", " + part if part else ""), ok, msg, self.fid)
        except Raised as e:
            n = getattr(e.args[0], "n", e.args[0])
            self.ctx.check("runs", self.what, False, "ends with %s at %s" % (n, e.args[1]), self.fid)
        else:
            self.ctx.check("runs", self.what, True, "", self.fid)
        self.ctx.funcs |= self.m.funcs


def accepted(v):
    return v is True or isinstance(v, int) and v == 1


def refused(c, f, what):
    try:
        v = f()
    except Raised:
        v = False
    return "refused", what, not accepted(v), "the repository's verifier accepts a signature whose %s was changed" % what


BAD = "the signature does not satisfy the published equation"
REF = "the repository's verifier refuses it"


# ---------------------------------------------------------------- single key
def schnorr(c):
    m, x = c.m, sym("x")
    data = tok("data")
    cc, r, pub = m.fn(CRY, "generate_signature")(BS(data), c.s(x))
    C, R, P = c.S(cc), c.S(r), c.P(pub)
    yield "signature", "", P == G.mul(x) and C == c.hs(data + c.ep(P) + c.ep(P.mul(C) + G.mul(R))), BAD
    yield "verifier", "", accepted(m.fn(CRY, "check_signature")(BS(data), cc, r, pub)), REF
    v, d = m.fn(CRY, "check_signature"), num(1)
    yield refused(c, lambda: v(BS(tok("other")), cc, r, pub), "message")
    yield refused(c, lambda: v(BS(data), c.s(C + d), r, pub), "challenge")
    yield refused(c, lambda: v(BS(data), cc, c.s(R + d), pub), "response")
    yield refused(c, lambda: v(BS(data), cc, r, c.p(P + G)), "key")


# ---------------------------------------------------------------- one-time ring signatures of key images
def ring(n, i, test):
    def f(c):
        m, x = c.m, sym("x")
        pubs = [G.mul(x) if k == i else Pt.sym("P%d" % k) for k in range(n)]
        I = hp(m, pubs[i]).mul(x)
        pre = tok("prefix")
        sig = m.fn(RC, "generate_ring_signature")(BS(pre), c.p(I), [c.p(p) for p in pubs], c.s(x), i, test)
        v = [(c.S(a[0]), c.S(a[1])) for a in sig]
        t, s = list(pre), num(0)
        for p, (a, r) in zip(pubs, v):
            t += c.ep(p.mul(a) + G.mul(r)) + c.ep(hp(m, p).mul(r) + I.mul(a))
            s = s + a
        yield "signature", "", len(v) == n and s == c.hs(t), BAD
        yield "verifier", "", accepted(m.fn(RC, "check_ring_singature")(BS(pre), c.p(I), [c.p(p) for p in pubs], sig)), REF
        ver, d = m.fn(RC, "check_ring_singature"), num(1)

        def alt(a=None, b=None, img=I, msg=pre, key=None):
            return ver(BS(msg), c.p(img), [c.p(p + G if k == key else p) for k, p in enumerate(pubs)], [[c.s(x + d if k == a else x), c.s(y + d if k == b else y)] for k, (x, y) in enumerate(v)])
        yield refused(c, lambda: alt(msg=tok("other")), "message")
        yield refused(c, lambda: alt(img=I + G), "key image")
        for k in range(n):
            yield refused(c, lambda: alt(a=k), "challenge %d" % k)
            yield refused(c, lambda: alt(b=k), "response %d" % k)
            yield refused(c, lambda: alt(key=k), "key %d" % k)
    return f


# ---------------------------------------------------------------- full ring signatures over several inputs
def mlsag(rows, cols, i, outs):
    def f(c):
        m = c.m
        ring, sk = [], []
        xs, zs = [sym("x%d" % j) for j in range(rows)], [sym("z%d" % j) for j in range(rows)]
        am = [1000 * (j + 3) for j in range(rows)]
        fee = 9
        oa = [(sum(am) - fee) // outs] * (outs - 1)
        oa.append(sum(am) - fee - sum(oa))
        ys = [sym("y%d" % j) for j in range(outs)]
        for k in range(cols):
            ring.append([(G.mul(xs[j]), G.mul(zs[j]) + H.mul(num(am[j]))) if k == i else (Pt.sym("P%d/%d" % (k, j)), Pt.sym("C%d/%d" % (k, j))) for j in range(rows)])
        O = [G.mul(y) + H.mul(num(a)) for y, a in zip(ys, oa)]
        pubs = lambda: [[Rec("key", dest=c.key(p), commitment=c.key(q)) for p, q in col] for col in ring]
        ctk = lambda d, k: Rec("CtKey", dest=d, mask=k)
        msg = tok("message")
        fk = H.mul(num(fee))
        opk = lambda: [ctk(c.key(Pt.sym("O%d" % j)), c.key(o)) for j, o in enumerate(O)]
        r = m.fn(ML, "prove_rct_mg")(BS(msg), pubs(), [ctk(c.s(x), c.s(z)) for x, z in zip(xs, zs)], [ctk(None, c.s(y)) for y in ys], opk(), None, None, i, c.p(fk))
        mg = r[0]
        cc, ss, II = c.S(mg.d["cc"]), [[c.S(s) for s in l] for l in mg.d["ss"]], [c.P(x) for x in mg.d["II"]]
        ok = len(ss) == cols and all(len(l) == rows + 1 for l in ss) and II == [hp(m, ring[i][j][0]).mul(xs[j]) for j in range(rows)]
        e = cc
        for k in range(cols if ok else 0):
            t = list(msg)
            for j in range(rows):
                P = ring[k][j][0]
                t += c.ep(P) + c.ep(G.mul(ss[k][j]) + P.mul(e)) + c.ep(hp(m, P).mul(ss[k][j]) + II[j].mul(e))
            D = Pt()
            for j in range(rows):
                D = D + ring[k][j][1]
            for o in O + [fk]:
                D = D - o
            e = c.hs(t + c.ep(D) + c.ep(G.mul(ss[k][rows]) + D.mul(e)))
        yield "signature", "", ok and e == cc, BAD
        yield "verifier", "", accepted(m.fn(ML, "ver_rct_mg")(mg, pubs(), opk(), c.p(fk), BS(msg))), REF
    return f


# ---------------------------------------------------------------- concise ring signatures
def clsag(n, i):
    def f(c):
        m = c.m
        x, z, a = sym("x"), sym("z"), sym("a")
        am = num(123456)
        ring = [(G.mul(x), G.mul(z) + H.mul(am)) if k == i else (Pt.sym("P%d" % k), Pt.sym("C%d" % k)) for k in range(n)]
        Q = G.mul(a) + H.mul(am)
        msg = tok("message")
        pubs = lambda: [Rec("key", dest=c.key(p), commitment=c.key(q)) for p, q in ring]
        buf = []
        r = m.fn(ML, "generate_clsag_simple")(BS(msg), pubs(), Rec("CtKey", dest=c.s(x), mask=c.s(z)), c.s(a), c.p(Q), i, buf)
        t = [m.toks(y) for y in (r if r is not None else buf)]
        ok = len(t) == n + 3 and t[0] == [(intern(("varint", repr(n))), 0)] and all(len(y) == 32 for y in t[1:])
        if not ok:
            yield "signature", "", False, "the signature is not a count, %d responses, a challenge and a key image" % n
            return
        ss, c1, D = [c.S(BS(y)) for y in t[1:n + 1]], c.S(BS(t[n + 1])), c.P(BS(t[n + 2]))
        I = hp(m, ring[i][0]).mul(x)
        keys = sum([c.ep(p) for p, _ in ring], []) + sum([c.ep(q) for _, q in ring], [])
        agg = keys + c.ep(I) + c.ep(D) + c.ep(Q)
        mP, mC = c.hs(DOM(b"CLSAG_agg_0") + agg), c.hs(DOM(b"CLSAG_agg_1") + agg)
        e = c1
        for (p, q), s in zip(ring, ss):
            L = G.mul(s) + p.mul(mP * e) + (q - Q).mul(mC * e)
            R = hp(m, p).mul(s) + I.mul(mP * e) + D.mul(P8).mul(mC * e)
            e = c.hs(DOM(b"CLSAG_round") + keys + c.ep(Q) + list(msg) + c.ep(L) + c.ep(R))
        yield "signature", "", e == c1, BAD
        try:
            m.fn(ML, "verify_clsag")(BS(msg), [c.s(s) for s in ss], c.s(c1), c.p(I), c.p(D), pubs(), c.p(Q))
            ok = True
        except Raised:
            ok = False
        yield "verifier", "", ok, REF
    return f


# ---------------------------------------------------------------- range proofs over the bits
def borromean(fn, amount, last):
    def f(c):
        m = c.m
        lm = sym("lastmask") if last else None
        C, a, R = m.fn(RC, fn)(amount, c.s(lm) if last else None)[:3]
        mask = c.S(a)
        yield "commitment", "", c.P(C) == G.mul(mask) + H.mul(num(amount)) and (not last or mask == lm), "the commitment is not that to the amount under the mask returned"
        if isinstance(R, list):
            part = lambda x: [BS(m.toks(x)[32 * k:32 * k + 32]) for k in range(64)]
            s0, s1, ee, Ci = part(R[0]), part(R[1]), R[2], part(R[3])
        else:
            g = R.d["asig"].d
            s0, s1, ee, Ci = g["s0"], g["s1"], g["ee"], R.d["Ci"]
        E = c.S(ee)
        t, tot = [], Pt()
        ok = len(s0) == len(s1) == len(Ci) == 64
        for k in range(64 if ok else 0):
            P = c.P(Ci[k])
            tot = tot + P
            ch = c.hs(c.ep(G.mul(c.S(s0[k])) + P.mul(E)))
            t += c.ep(G.mul(c.S(s1[k])) + (P - H.mul(num(1 << k))).mul(ch))
        yield "signature", "", ok and c.hs(t) == E and tot == c.P(C), BAD
        if not isinstance(R, list):
            yield "verifier", "", accepted(m.fn(RC, "ver_range")(C, R, False, False)), REF
            d = num(1)

            def alt(a=None, b=None, e=0, ci=None, bal=None, cm=0):
                pt = lambda k: P_[k] + (G if k == ci else Pt()) + (G if k == bal else Pt()) - (G if bal is not None and k == bal - 1 else Pt())
                q = Rec("RangeSig", Ci=[c.p(pt(k)) for k in range(64)], asig=Rec("BoroSig", s0=[c.s(A_[k] + d if k == a else A_[k]) for k in range(64)], s1=[c.s(B_[k] + d if k == b else B_[k]) for k in range(64)], ee=c.s(E + num(e))))
                return m.fn(RC, "ver_range")(c.p(c.P(C) + G.mul(num(cm))), q, False, False)
            A_, B_, P_ = [c.S(x) for x in s0], [c.S(x) for x in s1], [c.P(x) for x in Ci]
            yield refused(c, lambda: alt(cm=1), "commitment")
            yield refused(c, lambda: alt(e=1), "challenge")
            for k in (0, 1, 62, 63):
                yield refused(c, lambda: alt(a=k), "first response %d" % k)
                yield refused(c, lambda: alt(b=k), "second response %d" % k)
                yield refused(c, lambda: alt(ci=k), "bit commitment %d" % k)
                if k:
                    yield refused(c, lambda: alt(bal=k), "bit commitments %d and %d" % (k - 1, k))
            yield "verifier", "rebuilt", accepted(alt()), REF
    return f


def cases(deep):
    yield "single key", CRY + ":generate_signature", schnorr
    for n in range(1, 6 if deep else 4):
        for i in range(n):
            yield "key image, %d keys, position %d" % (n, i), RC + ":generate_ring_signature", ring(n, i, i % 2 == 0)
    for n in range(2, 7 if deep else 4):
        for i in range(n):
            yield "concise, ring %d, position %d" % (n, i), ML + ":_generate_clsag", clsag(n, i)
    for rows in range(1, 4 if deep else 3):
        for cols in range(2, 5 if deep else 4):
            for i in range(cols):
                for outs in (1, 2, 3) if deep else (1 + (i + rows) % 2,):
                    yield "full, %d inputs, ring %d, position %d, %d outputs" % (rows, cols, i, outs), ML + ":prove_rct_mg", mlsag(rows, cols, i, outs)
    amounts = [0, 0x8000000000000001, 0x5555555555555555] + ([1, 2, (1 << 64) - 1, 0xaaaaaaaaaaaaaaaa, 1 << 63, 123456789] if deep else [])
    for fn in ("prove_range_mem", "prove_range_orig", "prove_range_chunked"):
        for a in amounts:
            for last in (False, True):
                if deep or last == bool(a):
                    yield "%s, amount %x%s" % (fn, a, ", mask given" if last else ""), RC + ":" + fn, borromean(fn, a, last)


def run(ctx):
    ctx.rule("runs", "signing ends with a signature")
    ctx.rule("signature", "the signature satisfies the published verification equation")
    ctx.rule("verifier", "the verifier of the repository accepts it")
    ctx.rule("refused", "the verifier of the repository refuses it once the message, a key or any part is changed")
    ctx.rule("commitment", "the commitment a range proof returns is that to the amount under the mask it returns")
    late, n = [], 0
    for mod in ((TR, PY) if ctx.tier == "thorough" else (TR,)):
        b = Backend(ctx, mod)
        for what, fid, f in cases(ctx.tier == "thorough"):
            n += 1
            try:
                Case(ctx, b, what, fid).judge(f)
            except Broken as e:
                late.append(str(e))
    ctx.count("signatures", n)
    if late:
        raise Broken("; ".join(sorted(set(late))[:3]))
    ctx.floor("signature", 20)
    ctx.floor("verifier", 20)
    ctx.floor("refused", 30)
