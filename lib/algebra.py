"""Normal forms of the group and hash expressions built with the crypto facade.

A scalar is a polynomial over opaque scalars, a point a combination of opaque points with polynomial coefficients, a hash input a
sequence of byte items in which loops stay symbolic.  Two expressions with the same normal form denote the same value in every prime
order group; nothing is evaluated.
"""
from engine import (T, mk, const, is_const, is_num, cval, show, subst, subterms, mk_sub, mk_len, mk_add, from_lin, _lin_into, skey, NONE)


def short(t):
    return str(t.args[0]).rsplit(".", 1)[-1] if t.op in ("call", "mcall", "fresh") else ""


def rebuild(t, m, memo=None):
    """substitution that also re-reads elements of lists that became known"""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(rebuild(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    na = tuple(rebuild(x, m, memo) for x in t.args)
    if t.op == "sub":
        r = mk_sub(na[0], na[1])
    elif t.op == "add":
        r = mk_add(*na)
    elif na == t.args:
        r = t
    else:
        r = mk(t.op, *na)
    memo[t] = r
    return r


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + k * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=skey))
            r[k] = r.get(k, 0) + c * d
    return {k: v for k, v in r.items() if v}


class Alg(object):
    """gens: points that name fixed generators; env: what a bound round number ranges over"""

    def __init__(self, point_of=None, scalar_of=None):
        self.memo = {}
        self.env = {}
        self.level = 0
        self.point_of = point_of or {}
        self.scalar_of = scalar_of or {}

    # scalars ---------------------------------------------------------------------------------------------------------
    def sc(self, t):
        key = ("sc", t, tuple(sorted(self.env.items(), key=lambda p: skey(p[0]))))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.inv8(self._sc(t))
        return r

    def inv8(self, p):
        # 8 * (1/8) = 1
        out = {}
        for m, c in p.items():
            m = list(m)
            while c % 8 == 0 and any(x.op == "inv8" for x in m):
                m.remove(next(x for x in m if x.op == "inv8"))
                c //= 8
            m = tuple(m)
            out[m] = out.get(m, 0) + c
        return {m: c for m, c in out.items() if c}

    def _sc(self, t):
        if t in self.scalar_of:
            return self.sc(self.scalar_of[t])
        if is_num(t):
            return {(): cval(t)} if cval(t) else {}
        n, a = short(t), t.args[1:] if t.op == "call" else ()
        if t.op == "call":
            if n in ("sc_0", "new_scalar"):
                return {}
            if n in ("sc_copy",) and a:
                return self.sc(a[-1])
            if n in ("sc_init", "sc_inv_eight") and n == "sc_inv_eight":
                return {(mk("inv8"),): 1}
            if n in ("sc_init", "sc_init_into") and is_num(a[-1]):
                return {(): cval(a[-1])} if cval(a[-1]) else {}
            if n == "sc_add":
                return padd(self.sc(a[0]), self.sc(a[1]))
            if n == "sc_sub":
                return padd(self.sc(a[0]), self.sc(a[1]), -1)
            if n == "sc_mul":
                return pmul(self.sc(a[0]), self.sc(a[1]))
            if n == "sc_mulsub":
                return padd(self.sc(a[2]), pmul(self.sc(a[0]), self.sc(a[1])), -1)
            if n == "sc_muladd":
                return padd(self.sc(a[2]), pmul(self.sc(a[0]), self.sc(a[1])))
            if n == "sc_neg":
                return padd({}, self.sc(a[0]), -1)
            if n in ("decodeint", "hash_to_scalar", "decodeint_noreduce") or n == "cn_fast_hash":
                b = self.by(a[0])
                if n == "decodeint" and len(b) == 1 and b[0].op == "encsc":
                    return dict(b[0].args[0])
                if n == "hash_to_scalar":
                    return {(mk("hs", b),): 1}
                if len(b) == 1 and b[0].op == "keccak":
                    return {(mk("hs", b[0].args[0]),): 1}
                return {(mk("dec", b),): 1}
        if t.op == "fold":
            return self.fold(t)
        if t.op == "sub":
            r = self.elem(t)
            if r is not None:
                return self.sc(r)
        return {(self.deep(t),): 1}

    def fold(self, t):
        n, d, ini, body = t.args
        ph = [x for x in subterms(body) if x.op == "lphi" and x.args[0] == d]
        idx = mk("idx", d)
        lv = self.bind(idx, n)
        try:
            acc = sorted((x for x in set(ph) if x.args[1] is ini), key=skey)
            me = mk("carry", self.level)
            if acc:
                body = rebuild(body, {acc[0]: me})
            if len(set(ph)) == 1 and acc:
                b = self.sc(body)
                if b.get((me,)) == 1 and not any(me in m for m in b if m != (me,)) and not any(contains_t(x, me) for m in b for x in m if m != (me,)):
                    rest = padd(b, {(me,): 1}, -1)
                    return padd(self.sc(ini), {(mk("sum", self.count(n), items(rest), self.level),): 1})
            return {(mk("fold", self.count(n), items(self.sc(ini)), items(self.sc(body)), self.level),): 1}
        finally:
            self.unbind(idx, lv)

    def count(self, n):
        return self.deep(n)

    def bind(self, idx, n):
        old = (self.env.get(idx), self.level)
        self.level += 1
        self.env[idx] = (self.level, n)
        return old

    def unbind(self, idx, old):
        self.level = old[1]
        if old[0] is None:
            del self.env[idx]
        else:
            self.env[idx] = old[0]

    def elem(self, t):
        """element of a list whose entries were set in loops"""
        b, i = t.args
        if b.op != "obj" or b.args[0] != "list" or len(b.args) < 2:
            return None
        for p in reversed(b.args[1]):
            if p.op == "set" and p.args[0] is i:
                return p.args[1]
            if p.op == "rep" and len(p.args[2]) == 1 and len(p.args[2][0]) == 1 and p.args[2][0][0].op == "set":
                pi = mk("idx", p.args[1])
                pat, v = p.args[2][0][0].args
                for k, (lv, n) in self.env.items():
                    if n is p.args[0] and subst(pat, {pi: k}) is i:
                        return subst(v, {pi: k})
                continue
            if p.op == "set" and is_const(p.args[0]) and is_const(i):
                continue
            return None
        return None

    # points ----------------------------------------------------------------------------------------------------------
    def pt(self, t):
        key = ("pt", t, tuple(sorted(self.env.items(), key=lambda p: skey(p[0]))))
        r = self.memo.get(key)
        if r is None:
            r = self._pt(t)
            r = self.memo[key] = {b: p for b, p in ((b, self.inv8(p)) for b, p in r.items()) if p}
        return r

    def lin(self, *ps):
        r = {}
        for k, p in ps:
            for b, c in p.items():
                c = pmul(k, c)
                r[b] = padd(r.get(b, {}), c)
        return {b: c for b, c in r.items() if c}

    G = mk("gen", "G")

    def _pt(self, t):
        one = {(): 1}
        if t in self.point_of:
            return self.pt(self.point_of[t])
        n, a = short(t), t.args[1:] if t.op == "call" else ()
        if t.op == "call":
            if n in ("identity", "new_point"):
                return {}
            if n == "scalarmult":
                return self.lin((self.sc(a[1]), self.pt(a[0])))
            if n == "scalarmult_base":
                return {self.G: self.sc(a[0])} if self.sc(a[0]) else {}
            if n in ("add_keys2", "add_keys"):
                return self.lin((self.sc(a[0]), {self.G: one}), (self.sc(a[1]), self.pt(a[2])))
            if n == "add_keys3":
                return self.lin((self.sc(a[0]), self.pt(a[1])), (self.sc(a[2]), self.pt(a[3])))
            if n == "ge_double_scalarmult_base_vartime":
                return self.lin((self.sc(a[0]), self.pt(a[1])), (self.sc(a[2]), {self.G: one}))
            if n == "ge_double_scalarmult_precomp_vartime":
                return self.lin((self.sc(a[0]), self.pt(a[1])), (self.sc(a[2]), self.pt(a[3])))
            if n in ("precomp", "ge_dsm_precomp", "ge_frombytes_vartime"):
                return self.pt(a[0])
            if n == "point_add":
                return self.lin((one, self.pt(a[0])), (one, self.pt(a[1])))
            if n == "point_sub":
                return self.lin((one, self.pt(a[0])), ({(): -1}, self.pt(a[1])))
            if n == "point_mul8":
                return self.lin(({(): 8}, self.pt(a[0])))
            if n in ("point_norm", "ge25519_norm"):
                return self.pt(a[0])
            if n == "decodepoint":
                b = self.by(a[0])
                if len(b) == 1 and b[0].op == "encpt":
                    return dict((x, dict(p)) for x, p in b[0].args[0])
                return {mk("point", b): one}
            if n == "hash_to_point":
                return {mk("hp", self.by(a[0])): one}
        if t.op == "sub":
            r = self.elem(t)
            if r is not None:
                return self.pt(r)
        return {self.deep(t): one}

    # bytes -----------------------------------------------------------------------------------------------------------
    def by(self, t):
        """sequence of byte items"""
        n, a = short(t), t.args[1:] if t.op == "call" else ()
        if t.op == "call":
            if n == "encodepoint":
                return self.enc(self.pt(a[0]))
            if n == "encodeint":
                return (mk("encsc", items(self.sc(a[0]))),)
            if n in ("bytes", "bytearray", "memoryview") and len(a) == 1:
                return self.by(a[0])
            if n in ("cn_fast_hash", "keccak_hash"):
                return (mk("keccak", self.by(a[0])),)
        if t.op == "add":
            return sum((self.by(x) for x in t.args), ())
        if t.op == "mcall" and t.args[0] in ("digest", "get_digest"):
            return (mk("keccak", self.hist(t.args[1])),)
        if t.op == "obj" and t.args[0] == "bytearray":
            r = self.buffer(t)
            if r is not None:
                return r
        if t.op == "sub":
            r = self.elem(t)
            if r is not None:
                return self.by(r)
        if is_const(t) and cval(t) in (b"",):
            return ()
        return (self.deep(t),)

    def enc(self, p):
        if len(p) == 1:
            b, c = next(iter(p.items()))
            if b.op == "point" and c == {(): 1}:
                return b.args[0]
        return (mk("encpt", tuple(sorted(((b, items(c)) for b, c in p.items()), key=lambda q: skey(q[0])))),)

    def hist(self, o):
        """everything a hash object absorbed"""
        if o.op != "obj":
            return (self.deep(o),)
        h = [x for x in o.args[1:] if isinstance(x, tuple) and x and isinstance(x[0], T)]
        return self.pieces(h[0]) if h else ()

    def pieces(self, h):
        out = ()
        for p in h:
            if p.op == "ctor":
                for x in p.args:
                    if x.op == "obj":
                        out += self.hist(x)
            elif p.op == "m" and p.args[0] == "update":
                out += self.by(p.args[1])
            elif p.op == "rep":
                idx = mk("idx", p.args[1])
                lv = self.bind(idx, p.args[0])
                alts = tuple(self.pieces(x) for x in p.args[2])
                out += (mk("rep", self.level, self.count(p.args[0]), alts),)
                self.unbind(idx, lv)
            else:
                out += (mk("odd", self.deep(p)),)
        return out

    def buffer(self, t):
        """bytearray(size) filled from the front without gaps"""
        h = t.args[1]
        if not h or h[0].op != "ctor" or len(h[0].args) != 1:
            return None
        lin = lambda *xs: _sum(xs)
        pos, out = {}, ()

        def slots(ps, base, stride, idx):
            nonlocal out
            at = dict(base)
            got = ()
            for p in ps:
                if p.op != "set" or p.args[0].op != "slice":
                    return None
                lo, hi = p.args[0].args[:2]
                want = _lin_into(dict(at), mk("idx", idx), stride) if idx is not None else at
                if norm(_lin_into({}, lo, 1)) != norm(want) or norm(_lin_into({}, hi, 1)) != norm(_lin_into(dict(want), const(32), 1)):
                    return None
                got += self.by(p.args[1])
                at = _lin_into(dict(at), const(32), 1)
            return got, at
        for p in h[1:]:
            if p.op == "rep" and len(p.args[2]) == 1:
                body, idx = p.args[2][0], mk("idx", p.args[1])
                if not out and not norm(pos) and len(body) == 1 and body[0].op == "set" and body[0].args[0] is idx and body[0].args[1].op == "sub" \
                        and body[0].args[1].args[1] is idx and p.args[0] is mk_len(body[0].args[1].args[0]):
                    out += self.by(body[0].args[1].args[0])
                    pos = _lin_into({}, p.args[0], 1)
                    continue
                lv = self.bind(idx, p.args[0])
                r = slots(body, pos, 32 * len(body), p.args[1])
                if r is None:
                    self.unbind(idx, lv)
                    return None
                out += (mk("rep", self.level, self.count(p.args[0]), (r[0],)),)
                self.unbind(idx, lv)
                pos = _lin_into(dict(pos), p.args[0], 32 * len(body))
            elif p.op == "set" and p.args[0].op == "slice" and len(p.args[0].args) == 2:
                lo, hi = p.args[0].args
                v = p.args[1]
                if norm(_lin_into({}, lo, 1)) != norm(pos):
                    return None
                out += self.by(v)
                pos = _lin_into({}, hi, 1)
            else:
                return None
        if norm(_lin_into({}, h[0].args[0], 1)) != norm(pos):
            return None
        return out

    # everything else -------------------------------------------------------------------------------------------------
    def deep(self, t):
        """opaque term with bound round numbers named by nesting"""
        m = {k: mk("round", v[0]) for k, v in self.env.items()}
        return subst(t, m) if m else t


def contains_t(t, s):
    if isinstance(t, tuple):
        return any(contains_t(x, s) for x in t)
    return isinstance(t, T) and (t is s or any(contains_t(x, s) for x in t.args))


def norm(lin):
    return tuple(sorted(((skey(k) if isinstance(k, T) else ("",), c) for k, c in lin.items() if c), key=repr))


def _sum(xs):
    d = {}
    for x in xs:
        _lin_into(d, x, 1)
    return d


def items(p):
    return tuple(sorted(p.items(), key=lambda q: tuple(skey(x) for x in q[0])))


def diff(a, b, path=""):
    """first difference of two normal forms, for the report"""
    if a is b or a == b:
        return None
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args):
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            d = diff(x, y, path + "/" + a.op)
            if d:
                return d
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == len(b):
            for x, y in zip(a, b):
                d = diff(x, y, path)
                if d:
                    return d
        for x in a:
            if x not in b:
                return "%s: %s" % (path, text(x))
        for x in b:
            if x not in a:
                return "%s: lacks %s" % (path, text(x))
    return "%s: %s instead of %s" % (path, text(a), text(b))


def text(x):
    if isinstance(x, T):
        return show(x, lim=7)[:160]
    if isinstance(x, tuple):
        return "(" + ", ".join(text(y) for y in x)[:200] + ")"
    return str(x)[:80]
