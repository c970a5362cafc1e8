"""C14: what the range proof verifier accepts.

The verifier is evaluated abstractly (lib/absint) for every shape of its input in range: scalars and points of the
proof are unknowns, random draws and hash values too.  The final comparison is then an equation between a linear
combination of points and the identity; it is compared, coefficient by coefficient, with the verification equation of
the published protocol.  Assumptions about single unknowns (a scalar is not reduced, a challenge is zero, the final
point is the identity) must change the outcome as the property says.
"""
from absint import Cell, Cls, Enc, Fn, Machine, Mod, Nat, Obj, Opq, Poly, Pt, Raised, Raw, Vec, intern, le
from engine import Broken

BP = "monero_glue.xmr.bulletproof"
SCALARS = ("taux", "mu", "a", "b", "t")
POINTS = ("A", "S", "T1", "T2")
N, LOGN = 64, 6
IP12 = Poly.num((1 << 64) - 1)
num, sym = Poly.num, Poly.sym


def rounds_of(v):
    k = 0
    while (1 << k) < v and k < 5:
        k += 1
    return LOGN + k


class Case(object):
    """one abstract evaluation of verify_batch"""
    def __init__(self, ctx, shapes, kw=None, unreduced=None, zero=None, final=False):
        self.ctx, self.unreduced, self.zero, self.final = ctx, unreduced, zero, final
        self.asked = {"reduced": set(), "zero": set()}
        self.last = None
        self.res = self.exc = None
        f = ctx.func(BP + ":BulletProofBuilder.verify_batch")
        m = self.m = Machine(ctx.repo, self.differ)
        m.natives[BP + ":KeyV"] = Nat(lambda elems=64, buffer=None, const=False, no_init=False, buffer_chunked=False: keyv(elems, buffer, const))
        m.natives[(BP, "_get_exponent")] = Nat(lambda dst, base, idx: m.put(dst, Enc(Pt.sym(intern(("exp", m.point(base), idx)))), "key"))
        m.natives[("monero_glue.compat.utils", "memcpy")] = Nat(m.memcpy)
        self.proofs = []
        for k, (v, l, r) in enumerate(shapes):
            o = Obj(f.cls)
            for s in SCALARS + POINTS:
                o.d[s] = raw("p%d.%s" % (k, s))
            o.d["V"] = [raw("p%d.V%d" % (k, i)) for i in range(v)]
            o.d["L"] = [raw("p%d.L%d" % (k, i)) for i in range(l)]
            o.d["R"] = [raw("p%d.R%d" % (k, i)) for i in range(r)]
            self.proofs.append(o)
        try:
            b = m.new(f.cls, [], {})
            self.res = m.call(m.getattr(b, f.qual.rsplit(".", 1)[-1]), [self.proofs], kw or {})
        except Raised as e:
            self.exc = e
        ctx.funcs |= m.funcs

    def differ(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Enc) and isinstance(x.v, Poly) and isinstance(y, Raw) and x.v == sym(y.n):
                self.asked["reduced"].add(y.n)
                return y.n == self.unreduced
        if isinstance(a, Enc) and isinstance(a.v, Poly) and b == Enc(num(0)):
            s = a.v
            self.asked["zero"].add(s)
            return s != self.zero
        if isinstance(a, Enc) and isinstance(a.v, Pt) or isinstance(b, Enc) and isinstance(b.v, Pt):
            self.last = (a, b)
            return not self.final
        raise Broken("the verifier compares %r with %r at %s" % (a, b, self.m.where))


def raw(n):
    return Cell("key", Raw(n))


def keyv(elems, buffer, const):
    if buffer is not None:
        if isinstance(buffer, Cell):
            raise Broken("vector over an unknown buffer")
        return Vec([bytes(buffer[i:i + 32]) for i in range(0, len(buffer), 32)], const)
    if elems > 1 << 14:
        raise Broken("vector of %d elements" % elems)
    return Vec([Enc(num(0))] * elems, const)


def hashed(*parts):
    return sym("reduced " + intern(("hash", tuple(Enc(x) if isinstance(x, Poly) else x for x in parts))))


def challenges(k, v, l):
    """the published transcript of proof k"""
    p = lambda s: Raw("p%d.%s" % (k, s))
    h = hashed(*[p("V%d" % i) for i in range(v)])
    c = {"y": hashed(h, p("A"), p("S"))}
    c["z"] = hashed(c["y"])
    c["x"] = hashed(c["z"], c["z"], p("T1"), p("T2"))
    c["x_ip"] = hashed(c["x"], c["x"], p("taux"), p("mu"), p("t"))
    prev = c["x_ip"]
    for i in range(l):
        prev = c["w%d" % i] = hashed(prev, p("L%d" % i), p("R%d" % i))
    return c


def power(p, n):
    if n < 0:
        return power(p.inverse(), -n)
    r = num(1)
    for _ in range(n):
        r = r * p
    return r


def equation(shapes, weights, G, H):
    """sum of the verification equations of all proofs, weighted"""
    acc = Pt()
    one = lambda s, c: Pt({s: c}) if c.m else Pt()
    for k, (v, l, r) in enumerate(shapes):
        p = lambda s: "p%d.%s" % (k, s)
        c = challenges(k, v, l)
        y, z, x = c["y"], c["z"], c["x"]
        wy, wz = weights[k]
        M = 1 << (l - LOGN)
        MN = M * N
        ys = num(0)
        for i in range(MN):
            ys = ys + power(y, i)
        zp = [power(z, i) for i in range(M + 3)]
        kk = -(zp[2] * ys)
        for j in range(1, M + 1):
            kk = kk - zp[j + 2] * IP12
        # (t - k - z sum y) H + taux G = sum z^(j+2) 8 V_j + x 8 T1 + x^2 8 T2
        acc = acc + one("H", -(wy * (sym(p("t")) - (kk + z * ys))))
        acc = acc + one("G", -(wy * sym(p("taux"))))
        for j in range(v):
            acc = acc + one(p("V%d" % j), zp[j + 2] * wy.scale(8))
        acc = acc + one(p("T1"), x * wy.scale(8)) + one(p("T2"), x * x * wy.scale(8))
        # 8 A + x 8 S - mu G + (t - a b) x_ip H + sum w_i^2 8 L_i + w_i^-2 8 R_i - sum g_i G_i - sum h_i H_i
        acc = acc + one(p("A"), wz.scale(8)) + one(p("S"), x * wz.scale(8)) + one("G", -(wz * sym(p("mu"))))
        acc = acc + one("H", wz * c["x_ip"] * (sym(p("t")) - sym(p("a")) * sym(p("b"))))
        w = [c["w%d" % i] for i in range(l)]
        for i in range(l):
            acc = acc + one(p("L%d" % i), power(w[i], 2) * wz.scale(8)) + one(p("R%d" % i), power(w[i], -2) * wz.scale(8))
        yi = y.inverse()
        for i in range(MN):
            g, h = sym(p("a")), sym(p("b")) * power(yi, i)
            for j in range(l):
                u = w[l - 1 - j]
                if i >> j & 1:
                    g, h = g * u, h * u.inverse()
                else:
                    g, h = g * u.inverse(), h * u
            g = g + z
            h = h - (zp[2 + i // N].scale(1 << (i % N)) + z * power(y, i)) * power(yi, i)
            acc = acc + one(G[i], -(g * wz)) + one(H[i], -(h * wz))
    return acc


def weights_of(case, shapes):
    """the random weights, read off the coefficients of T1 (x 8 wy) and A (8 wz)"""
    pt = final_point(case)
    out = []
    for k, (v, l, r) in enumerate(shapes):
        x = challenges(k, v, l)["x"]
        c1, c2 = pt.c.get("p%d.T1" % k), pt.c.get("p%d.A" % k)
        if c1 is None or c2 is None:
            return None
        i8 = pow(8, -1, 2 ** 252 + 27742317777372353535851937790883648493)
        out.append(((c1 * x.inverse()).scale(i8), c2.scale(i8)))
    return out


def final_point(case):
    a, b = case.last
    f = lambda e: e.v if isinstance(e, Enc) else case.m.point(e)
    return f(a) - f(b)


def bases(ctx, case, n):
    """the published generators: precomputed ones as they stand in the source, others by their index"""
    m = case.m
    mod = ctx.repo.module(BP)
    out = []
    for nm, off in (("BP_GI_PRE", 1), ("BP_HI_PRE", 0)):
        b = m.module_name(mod, nm)
        l = [bytes(b[i:i + 32]) for i in range(0, len(b), 32)]
        out.append([l[i] if i < len(l) else intern(("exp", Pt.sym("H"), 2 * i + off)) for i in range(n)])
    return out


def rule_amounts(ctx):
    ctx.rule("amounts", "a proof checked against known amounts and masks is verified over the commitments to exactly these, and the verdict of the verifier is what the caller gets")
    f = ctx.func("monero_glue.xmr.ring_ct:verify_bp")
    def trial(fi, verdict, args, kw, content):
        seen, m = [], Machine(ctx.repo)
        b = Obj(ctx.func(BP + ":BulletProofBuilder.verify").cls)
        look = (lambda p: [m.content(x) for x in p.d["V"]]) if content else (lambda p: p)
        b.d["verify"] = Nat(lambda p: seen.append(look(p)) or verdict)
        b.d["verify_batch"] = Nat(lambda p, *a, **k: [seen.append(look(y)) for y in m.iterate(p)] and verdict)
        m.natives[BP + ":BulletProofBuilder"] = Nat(lambda *a, **k: b)
        proof = Obj(b.ci)
        proof.d["V"] = [raw("old V")]
        res = exc = None
        try:
            res = m.call(m.resolved(("func", fi), fi.qual), args(proof), kw(proof))
        except Raised as e:
            exc = e
        ctx.funcs |= m.funcs
        return seen, exc is None and bool(res), exc, proof

    for n in range(1, 5):
        want = [Enc((Pt({"G": sym("mask%d" % i)}) + Pt({"H": sym("amount%d" % i)})).mul(num(8).inverse())) for i in range(n)]
        for verdict in (True, False):
            args = lambda p: [p, [Cell("sc", sym("amount%d" % i)) for i in range(n)], [Cell("sc", sym("mask%d" % i)) for i in range(n)]]
            seen, good, exc, _ = trial(f, verdict, args, lambda p: {}, True)
            ctx.check("amounts", "%d amounts, verdict %s" % (n, verdict), seen == [want], "the proof is verified over %s" % (seen or exc,), f.fid)
            ctx.check("amounts", "verdict %s for %d amounts" % (verdict, n), good is verdict, "the proof is %s although the verifier said %s" % ("accepted" if good else "refused", verdict), f.fid)
    f = ctx.func("monero_glue.xmr.ring_ct:ver_range")
    for verdict in (True, False):
        seen, good, exc, proof = trial(f, verdict, lambda p: [], lambda p: {"rsig": p, "use_bulletproof": True}, False)
        ctx.check("amounts", "range check, verdict %s" % verdict, seen == [proof] and good is verdict, "the range check of a bulletproof %s although the verifier said %s" % ("passes" if good else "fails", verdict), f.fid)
    ctx.floor("amounts", 6)


def accepted(c):
    return c.exc is None


def run(ctx):
    ctx.rule("equation", "the point compared with the identity is the weighted sum of the published verification equations: every element of every proof has exactly its coefficient")
    ctx.rule("weights", "the equations are combined with weights drawn at random in this call, one pair per proof, all of them different draws")
    ctx.rule("final", "the verifier accepts when that point is the identity and fails in every other case")
    ctx.rule("reduced", "a proof with a scalar that is not reduced modulo the group order is refused")
    ctx.rule("challenge", "a proof for which a challenge of the transcript is zero is refused")
    ctx.rule("shape", "a proof whose vectors do not have the length the number of commitments demands is refused")
    ok = lambda v: (v, rounds_of(v), rounds_of(v))
    cases = [("one output", [ok(1)], {}), ("two outputs", [ok(2)], {}), ("three outputs", [ok(3)], {}),
             ("one output, batch path", [ok(1)], {"single_optim": False}), ("batch of two proofs", [ok(1), ok(2)], {}), ("batch of three proofs", [ok(2), ok(1), ok(1)], {})]
    if ctx.tier == "thorough":
        cases += [("four outputs", [ok(4)], {}), ("five outputs", [ok(5)], {}), ("sixteen outputs", [ok(16)], {}), ("mixed batch", [ok(4), ok(1), ok(3)], {})]
    where = BP + ":BulletProofBuilder.verify_batch"
    for nm, shapes, kw in cases:
        c = Case(ctx, shapes, kw)
        ctx.count("abstract evaluation steps", c.m.steps)
        ctx.count("comparisons of abstract values", len(c.m.compared))
        ctx.check("final", nm + ": equation does not hold", not accepted(c), "a proof is accepted although its verification equation does not hold", where)
        c2 = Case(ctx, shapes, kw, final=True)
        ctx.check("final", nm + ": equation holds", c2.exc is None and c2.res is not None and c2.m.truth(c2.res),
                  "a proof whose equation holds is refused: %s" % (c2.exc.exc.msg if c2.exc else c2.res), c2.exc.where if c2.exc else where)
        if c2.last is None:
            ctx.check("equation", nm, False, "no equation between points is checked", where)
            continue
        w = weights_of(c2, shapes)
        n = max(1 << (l - LOGN) for _, l, _ in shapes) * N
        if w is None:
            ctx.check("equation", nm, False, "a commitment of the proof does not occur in the equation", where)
            continue
        G, H = bases(ctx, c2, n)
        exp = equation(shapes, w, G, H)
        got = final_point(c2)
        bad = [k for k in sorted(set(exp.c) | set(got.c), key=repr) if exp.c.get(k) != got.c.get(k)]
        for k in sorted(set(exp.c) | set(got.c), key=repr):
            ctx.check("equation", "%s: coefficient of %s" % (nm, label(k, G, H)), k not in bad, "the coefficient of %s is %r, not %r" % (label(k, G, H), got.c.get(k), exp.c.get(k)), where)
        flat = [x for p in w for x in p]
        rnd = [x for x in flat if len(x.m) == 1 and all(isinstance(s, str) and s.startswith("draw") for s in x.syms()) and x.syms()]
        ctx.check("weights", nm, len(rnd) == len(flat) and len(set(flat)) == len(flat) and len({frozenset(x.syms()) for x in flat}) == len(flat),
                  "the equations are weighted with %s" % ", ".join(map(repr, flat)), where)
    for nm, shapes in (("one output", [ok(1)]), ("second of two proofs", [ok(2), ok(1)])):
        k = len(shapes) - 1
        for s in SCALARS:
            c = Case(ctx, shapes, unreduced="p%d.%s" % (k, s), final=True)
            ctx.check("reduced", "%s, %s" % (nm, s), not accepted(c), "a proof is accepted with a scalar %s that is not reduced" % s, where)
        for ch, p in challenges(k, *shapes[k][:2]).items():
            c = Case(ctx, shapes, zero=p, final=True)
            ctx.check("challenge", "%s, %s" % (nm, ch), not accepted(c), "a proof is accepted although its challenge %s is zero" % ch, where)
    n = 0
    for v in list(range(0, 5)) + [8, 16, 17, 32, 33]:
        want = rounds_of(v)
        for l in sorted({0, 1, want - 1, want, want + 1, 6, 7, 12, 31, 32, 33}):
            for r in sorted({l, l - 1, l + 1}):
                if r < 0 or v and l == r == want:
                    continue          # the right size (the published verifier bounds the number of commitments by its size alone)
                try:
                    c = Case(ctx, [(v, l, r)], final=True)
                    bad = accepted(c)
                except Broken:
                    bad = True          # not refused before the arithmetic of an oversized proof
                ctx.check("shape", "%d commitments, %d L, %d R" % (v, l, r), not bad, "a proof with %d commitments, %d L and %d R is accepted" % (v, l, r), where)
                c = None
    rule_amounts(ctx)
    ctx.floor("equation", 500)
    ctx.floor("shape", 60)
    ctx.floor("challenge", 15)
    ctx.floor("reduced", 8)


def label(k, G, H):
    if isinstance(k, str):
        return k
    if k in G:
        return "G[%d]" % G.index(k)
    if k in H:
        return "H[%d]" % H.index(k)
    return str(k)[:40]
