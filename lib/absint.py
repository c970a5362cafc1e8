"""A second, small abstract interpreter for arithmetic code whose loops are bounded by the shape of its input.

Sizes, indices and loop bounds are known; everything the input contributes (scalars, points, hash values, random
draws) is abstract: scalars are polynomials over named unknowns modulo the group order, points are linear combinations
of named points with polynomial coefficients.  Comparisons of abstract values are not decided by the interpreter but by
a policy of the analysis (`differ`), which says which unknowns are assumed to coincide.  Nothing of the analysed code
runs: functions are read as syntax trees, arithmetic primitives are replaced by their algebraic meaning.
"""
import ast

from engine import Broken

ORDER = 2 ** 252 + 27742317777372353535851937790883648493


# ---------------------------------------------------------------- algebra

SYMS = {}


def intern(x):
    """short name of a structured unknown (the hash of a list of keys, the inverse of a sum, ...)"""
    r = SYMS.get(x)
    if r is None:
        r = SYMS[x] = "%s#%d" % (x[0], len(SYMS))
    return r


class Poly(object):
    """polynomial with coefficients modulo the group order; negative exponents stand for inverses"""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    @staticmethod
    def num(n):
        n %= ORDER
        return Poly({(): n} if n else {})

    @staticmethod
    def sym(s):
        return Poly({((s, 1),): 1})

    def __add__(self, o):
        m = dict(self.m)
        for k, v in o.m.items():
            x = (m.get(k, 0) + v) % ORDER
            if x:
                m[k] = x
            else:
                m.pop(k, None)
        return Poly(m)

    def scale(self, n):
        return Poly({k: v * n % ORDER for k, v in self.m.items() if v * n % ORDER})

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.m) * len(o.m) > 200000:
            raise Broken("a product of %d and %d terms" % (len(self.m), len(o.m)))
        m = {}
        for a, x in self.m.items():
            for b, y in o.m.items():
                k = mono(a, b)
                v = (m.get(k, 0) + x * y) % ORDER
                if v:
                    m[k] = v
                else:
                    m.pop(k, None)
        return Poly(m)

    def inverse(self):
        if len(self.m) == 1:
            (k, v), = self.m.items()
            return Poly({tuple((s, -e) for s, e in k): pow(v, -1, ORDER)})
        return Poly.sym(intern(("inv", self.key())))

    def key(self):
        return tuple(sorted(self.m.items()))

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(self.key())

    def syms(self):
        return {s for k in self.m for s, _ in k}

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for k, v in sorted(self.m.items())[:6]:
            v = v if v < ORDER // 2 else v - ORDER
            t = "*".join(name(s) + ("" if e == 1 else "^%d" % e) for s, e in k)
            out.append(t if v == 1 and t else "%d%s" % (v, "*" + t if t else "") if abs(v) < 1 << 64 else "c*" + t)
        return " + ".join(out) + (" + ... (%d terms)" % len(self.m) if len(self.m) > 6 else "")


def name(s):
    return s if isinstance(s, str) else "%s(..)" % s[0] if isinstance(s, tuple) else str(s)


def mono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, e in b:
        x = d.get(s, 0) + e
        if x:
            d[s] = x
        else:
            d.pop(s, None)
    return tuple(sorted(d.items()))


class Pt(object):
    """linear combination of named points"""
    __slots__ = ("c",)

    def __init__(self, c=None):
        self.c = c or {}

    @staticmethod
    def sym(s):
        return Pt({s: Poly.num(1)})

    def __add__(self, o):
        c = dict(self.c)
        for k, v in o.c.items():
            x = c[k] + v if k in c else v
            if x.m:
                c[k] = x
            else:
                c.pop(k, None)
        return Pt(c)

    def mul(self, p):
        c = {}
        for k, v in self.c.items():
            x = v * p
            if x.m:
                c[k] = x
        return Pt(c)

    def __neg__(self):
        return Pt({k: -v for k, v in self.c.items()})

    def __sub__(self, o):
        return self + (-o)

    def __eq__(self, o):
        return isinstance(o, Pt) and self.c == o.c

    def __hash__(self):
        return hash(tuple(sorted(((k, v) for k, v in self.c.items()), key=repr)))

    def __repr__(self):
        return " + ".join("(%r)*%s" % (v, name(k)) for k, v in sorted(self.c.items(), key=repr)[:4]) or "identity"


class Enc(object):
    """32 bytes: the canonical encoding of a scalar or point"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Enc) and self.v == o.v

    def __hash__(self):
        return hash(("enc", self.v))

    def __repr__(self):
        return "enc(%r)" % (self.v,)


class Raw(object):
    """32 bytes supplied from outside or by a hash function, known by name only"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Raw) and self.n == o.n

    def __hash__(self):
        return hash(("raw", self.n))

    def __repr__(self):
        return "raw(%s)" % name(self.n)


class Cell(object):
    """mutable 32-byte buffer, or a scalar/point register"""
    __slots__ = ("v", "kind", "size")

    def __init__(self, kind, v=None, size=32):
        self.kind, self.v, self.size = kind, v, size


class Vec(object):
    """vector of keys (KeyV): one abstract key per element"""
    __slots__ = ("e", "const")

    def __init__(self, e, const=False):
        self.e, self.const = e, const


class Obj(object):
    __slots__ = ("ci", "d")

    def __init__(self, ci):
        self.ci, self.d = ci, {}


class Fn(object):
    __slots__ = ("module", "node", "env", "cls", "q")

    def __init__(self, module, node, env=None, cls=None, q=""):
        self.module, self.node, self.env, self.cls, self.q = module, node, env, cls, q


class Bound(object):
    __slots__ = ("f", "o")

    def __init__(self, f, o):
        self.f, self.o = f, o


class Nat(object):
    __slots__ = ("f", "n")

    def __init__(self, f, n=""):
        self.f, self.n = f, n


class Cls(object):
    __slots__ = ("ci",)

    def __init__(self, ci):
        self.ci = ci


class Mod(object):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class Exc(object):
    __slots__ = ("n", "msg")

    def __init__(self, n, msg=""):
        self.n, self.msg = n, msg


class ExcType(object):
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class Hasher(object):
    __slots__ = ("parts",)

    def __init__(self):
        self.parts = []


class Raised(Exception):
    def __init__(self, exc, where):
        self.exc, self.where = exc, where


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Env(object):
    __slots__ = ("d", "up", "fn")

    def __init__(self, fn, up=None):
        self.d, self.up, self.fn = {}, up, fn


class Byte(object):
    __slots__ = ("c", "i")

    def __init__(self, c, i):
        self.c, self.i = c, i


NAMED = {bytes.fromhex("8b655970153799af2aeadc9ff1add0ea6c7251d54154cfa92c173a0dd39c1f94"): "H",
         bytes.fromhex("58" + "66" * 31): "G"}


def le(b):
    return int.from_bytes(b, "little")


class Machine(object):
    def __init__(self, repo, differ=None, budget=6000000):
        self.repo = repo
        self.glob = {}
        self.differ = differ or (lambda a, b: True)
        self.fresh = 0
        self.steps, self.budget = 0, budget
        self.pending, self.keep = {}, []
        self.compared = []          # comparisons of abstract values: (a, b, differ)
        self.funcs = set()
        self.where = ""
        self.natives = {("monero_glue.compat.utils", "memcpy"): Nat(self.memcpy)}           # (module, name) or class name -> transfer function
        self.arith = {}
        for k in dir(self):
            if k.startswith("c_"):
                self.arith[k[2:]] = Nat(getattr(self, k), k[2:])

    # ------------------------------------------------------------ abstract values
    def content(self, x):
        """abstract content of 32 bytes"""
        if isinstance(x, Cell):
            if x.v is None:
                return Enc(Poly.num(0)) if x.kind == "key" else x.v
            return x.v
        if isinstance(x, (bytes, bytearray)):
            return bytes(x)
        if isinstance(x, (Enc, Raw)):
            return x
        raise Broken("not a key: %r in %s" % (x, self.where))

    def scalar(self, x, reduce=True):
        """the scalar encoded by 32 bytes"""
        x = self.content(x)
        if isinstance(x, bytes):
            return Poly.num(le(x))
        if isinstance(x, Enc):
            if isinstance(x.v, Poly):
                return x.v
            return Poly.sym(intern(("bytes", x)))
        if isinstance(x, Raw):
            return Poly.sym("reduced " + x.n if x.n.startswith("hash#") and reduce else x.n)
        raise Broken("no scalar: %r" % (x,))

    def point(self, x):
        x = self.content(x)
        if isinstance(x, bytes):
            if x in NAMED:
                return Pt.sym(NAMED[x])
            return Pt() if x == b"\1" + b"\0" * 31 else Pt.sym(x)
        if isinstance(x, Enc):
            if isinstance(x.v, Pt):
                return x.v
            return Pt.sym(intern(("bytes", x)))
        return Pt.sym(x.n)

    def sc(self, x):
        if isinstance(x, Cell) and x.kind == "sc":
            return x.v if x.v is not None else Poly.num(0)
        if isinstance(x, int):
            return Poly.num(x)
        raise Broken("no scalar register: %r in %s" % (x, self.where))

    def pt(self, x):
        if isinstance(x, Cell) and x.kind == "pt":
            return x.v if x.v is not None else Pt()
        raise Broken("no point register: %r in %s" % (x, self.where))

    def put(self, dst, v, kind):
        if dst is None:
            dst = Cell(kind)
        if not isinstance(dst, Cell):
            raise Broken("result stored into %r in %s" % (dst, self.where))
        dst.v = v
        return dst

    # ------------------------------------------------------------ meaning of the arithmetic primitives
    def c_new_scalar(self): return Cell("sc")
    def c_new_point(self): return Cell("pt")
    def c_identity(self, byte_enc=False): return Cell("pt", Pt())
    def c_identity_into(self, r): return self.put(r, Pt(), "pt")
    def c_sc_0(self): return Cell("sc", Poly.num(0))
    def c_sc_0_into(self, r): return self.put(r, Poly.num(0), "sc")
    def c_sc_init(self, x): return Cell("sc", Poly.num(x))
    def c_sc_init_into(self, r, x): return self.put(r, Poly.num(x), "sc")
    def c_sc_copy(self, dst, n): return self.put(dst, self.sc(n), "sc")
    def c_xmr_H(self): return Cell("pt", Pt.sym("H"))
    def c_decodeint(self, x): return Cell("sc", self.scalar(x))
    def c_decodeint_noreduce(self, x): return Cell("sc", self.scalar(x, False))
    def c_decodeint_into(self, r, x): return self.put(r, self.scalar(x), "sc")
    def c_decodeint_into_noreduce(self, r, x): return self.put(r, self.scalar(x, False), "sc")
    def c_encodeint(self, x): return Cell("key", Enc(self.sc(x)))
    def c_encodeint_into(self, b, x, offset=0): return self.put(b, Enc(self.sc(x)), "key")
    def c_decodepoint(self, x): return Cell("pt", self.point(x))
    def c_decodepoint_into(self, r, x): return self.put(r, self.point(x), "pt")
    def c_encodepoint(self, x): return Cell("key", Enc(self.pt(x)))
    def c_encodepoint_into(self, b, x, offset=0): return self.put(b, Enc(self.pt(x)), "key")
    def c_sc_add(self, a, b): return Cell("sc", self.sc(a) + self.sc(b))
    def c_sc_add_into(self, r, a, b): return self.put(r, self.sc(a) + self.sc(b), "sc")
    def c_sc_sub(self, a, b): return Cell("sc", self.sc(a) - self.sc(b))
    def c_sc_sub_into(self, r, a, b): return self.put(r, self.sc(a) - self.sc(b), "sc")
    def c_sc_mul(self, a, b): return Cell("sc", self.sc(a) * self.sc(b))
    def c_sc_mul_into(self, r, a, b): return self.put(r, self.sc(a) * self.sc(b), "sc")
    def c_sc_muladd(self, a, b, c): return Cell("sc", self.sc(a) * self.sc(b) + self.sc(c))
    def c_sc_muladd_into(self, r, a, b, c): return self.put(r, self.sc(a) * self.sc(b) + self.sc(c), "sc")
    def c_sc_mulsub(self, a, b, c): return Cell("sc", self.sc(c) - self.sc(a) * self.sc(b))
    def c_sc_mulsub_into(self, r, a, b, c): return self.put(r, self.sc(c) - self.sc(a) * self.sc(b), "sc")
    def c_sc_inv(self, a): return Cell("sc", self.sc(a).inverse())
    def c_sc_inv_into(self, r, a): return self.put(r, self.sc(a).inverse(), "sc")
    def c_sc_iszero(self, a): return not self.ne(Enc(self.sc(a)), Enc(Poly.num(0)))
    def c_sc_isnonzero(self, a): return self.ne(Enc(self.sc(a)), Enc(Poly.num(0)))
    def c_sc_eq(self, a, b): return not self.ne(Enc(self.sc(a)), Enc(self.sc(b)))
    def c_point_add(self, a, b): return Cell("pt", self.pt(a) + self.pt(b))
    def c_point_add_into(self, r, a, b): return self.put(r, self.pt(a) + self.pt(b), "pt")
    def c_point_sub(self, a, b): return Cell("pt", self.pt(a) - self.pt(b))
    def c_point_sub_into(self, r, a, b): return self.put(r, self.pt(a) - self.pt(b), "pt")
    def c_point_double(self, a): return Cell("pt", self.pt(a).mul(Poly.num(2)))
    def c_point_double_into(self, r, a): return self.put(r, self.pt(a).mul(Poly.num(2)), "pt")
    def c_point_mul8(self, a): return Cell("pt", self.pt(a).mul(Poly.num(8)))
    def c_point_mul8_into(self, r, a): return self.put(r, self.pt(a).mul(Poly.num(8)), "pt")
    def c_point_eq(self, a, b): return not self.ne(Enc(self.pt(a)), Enc(self.pt(b)))
    def c_scalarmult(self, p, s): return Cell("pt", self.pt(p).mul(self.sc(s)))
    def c_scalarmult_into(self, r, p, s): return self.put(r, self.pt(p).mul(self.sc(s)), "pt")
    def c_scalarmult_base(self, s): return Cell("pt", Pt.sym("G").mul(self.sc(s)))
    def c_scalarmult_base_into(self, r, s): return self.put(r, Pt.sym("G").mul(self.sc(s)), "pt")
    def c_scalarmult_h(self, s): return Cell("pt", Pt.sym("H").mul(self.sc(s)))
    def c_add_keys2(self, a, b, B): return Cell("pt", Pt.sym("G").mul(self.sc(a)) + self.pt(B).mul(self.sc(b)))
    def c_add_keys2_into(self, r, a, b, B): return self.put(r, Pt.sym("G").mul(self.sc(a)) + self.pt(B).mul(self.sc(b)), "pt")
    def c_add_keys3(self, a, A, b, B): return Cell("pt", self.pt(A).mul(self.sc(a)) + self.pt(B).mul(self.sc(b)))
    def c_add_keys3_into(self, r, a, A, b, B): return self.put(r, self.pt(A).mul(self.sc(a)) + self.pt(B).mul(self.sc(b)), "pt")
    def c_ge25519_double_scalarmult_base_vartime(self, a, A, b): return Cell("pt", self.pt(A).mul(self.sc(a)) + Pt.sym("G").mul(self.sc(b)))
    c_ge25519_double_scalarmult_base_vartime2 = c_ge25519_double_scalarmult_base_vartime
    def c_gen_c(self, a, amount): return Cell("pt", Pt.sym("G").mul(self.sc(a)) + Pt.sym("H").mul(self.sc(amount)))
    def c_gen_commitment(self, a, amount): return self.c_gen_c(a, amount)
    def c_sc_inv_eight(self): return Cell("sc", Poly.num(8).inverse())
    def c_random_scalar(self): return Cell("sc", Poly.sym(self.draw()))
    def c_random_scalar_into(self, r): return self.put(r, Poly.sym(self.draw()), "sc")
    def c_get_keccak(self, data=None):
        h = Hasher()
        if data is not None:
            h.parts.append(self.frozen(data))
        return h
    def c_hash_to_scalar(self, data, length=None): return Cell("sc", self.scalar(self.digest((self.frozen(data),))))
    def c_hash_to_scalar_into(self, r, data, length=None): return self.put(r, self.scalar(self.digest((self.frozen(data),))), "sc")
    def c_cn_fast_hash(self, data): return Cell("key", self.digest((self.frozen(data),)))
    def c_keccak_hash(self, data, length=None): return Cell("key", self.digest((self.frozen(data),)))
    def c_prng(self, seed=b""): return Opq("prng")

    def memcpy(self, dst, dst_off, src, src_off, n):
        if dst is None:
            return dst
        if dst_off or src_off or n != 32:
            raise Broken("partial copy of a key at " + self.where)
        return self.put(dst, self.content(src), "key")

    def draw(self):
        self.fresh += 1
        return "draw%d" % self.fresh

    def frozen(self, x):
        if isinstance(x, (list, tuple)):
            return tuple(self.frozen(y) for y in x)
        c = self.content(x)
        return Enc(Poly.num(le(c))) if isinstance(c, bytes) and len(c) == 32 and le(c) < ORDER else c

    def digest(self, parts):
        return Raw(intern(("hash", tuple(parts))))

    def ne(self, a, b):
        """whether two abstract keys differ: identical ones never do, others as the policy says"""
        a, b = self.content(a), self.content(b)
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a != b
        if isinstance(a, bytes):
            a, b = b, a
        if isinstance(b, bytes) and isinstance(a, Enc):
            b = Enc(Poly.num(le(b))) if isinstance(a.v, Poly) else Enc(self.point(b))
        if a == b:
            return False
        if isinstance(a, Enc) and isinstance(b, Enc) and isinstance(a.v, Poly) and isinstance(b.v, Poly) and not (a.v - b.v).syms():
            return True
        r = bool(self.differ(a, b))
        self.compared.append((a, b, r))
        return r

    # ------------------------------------------------------------ names
    def lookup(self, n, env):
        e = env
        while e is not None:
            if n in e.d:
                return e.d[n]
            e = e.up
        return self.module_name(env.fn.module, n)

    def module_name(self, module, n):
        key = (module.name, n)
        if key in self.glob:
            return self.glob[key]
        v = self.natives.get(key)
        if v is None:
            r = self.repo.resolve(module.name, n)
            v = self.resolved(r, n)
        self.glob[key] = v
        return v

    def resolved(self, r, n):
        if r is None:
            if n.startswith("__"):
                return "text"
            v = BUILTINS.get(n)
            if v is None:
                if n.endswith(("Error", "Exception", "StopIteration")):
                    return ExcType(n)
                raise Broken("unknown name %s in %s" % (n, self.where))
            return v
        if r[0] == "mod":
            return Mod(r[1])
        if r[0] == "func":
            f = r[1]
            v = self.natives.get((f.module.name, f.qual))
            if v is not None:
                return v
            if f.module.name.startswith(("monero_glue.xmr.core", "monero_glue.xmr.crypto")):
                v = self.arith.get(f.qual)
                if v is not None:
                    return v
            return Fn(f.module, f.node, None, None, f.qual)
        if r[0] == "class":
            return Cls(r[1])
        if r[0] == "assign":
            m, node = r[1], r[2]
            key = (m.name, n, "assign")
            if key not in self.glob:
                e = Env(Fn(m, None))
                val = None
                for st in m.tree.body:
                    if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in st.targets):
                        val = st.value
                if val is None:
                    raise Broken("global %s of %s is not assigned plainly" % (n, m.name))
                self.glob[key] = self.ev(val, e)
            return self.glob[key]
        if r[0] == "ext":
            v = self.arith.get(n)
            return v if v is not None and "crypto" in r[1] else Opq(r[1])
        raise Broken("unknown kind of name %s" % n)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Nat):
            return f.f(*args, **kw)
        if isinstance(f, Bound):
            if isinstance(f.f, Nat):
                return f.f.f(f.o, *args, **kw)
            return self.call(f.f, [f.o] + list(args), kw)
        if isinstance(f, Opq):
            return Opq(f.n + "()")
        if isinstance(f, ExcType):
            return Exc(f.n, args[0] if args else "")
        if isinstance(f, Cls):
            return self.new(f.ci, args, kw)
        if isinstance(f, Fn):
            return self.enter(f, args, kw)
        raise Broken("call of %r in %s" % (f, self.where))

    def new(self, ci, args, kw):
        h = self.natives.get(ci.cid)
        if h is not None:
            return h.f(*args, **kw)
        o = Obj(ci)
        if any(getattr(b, "id", getattr(b, "attr", "")) .endswith(("Exception", "Error")) for b in ci.node.bases):
            return Exc(ci.node.name, args[0] if args else "")
        m = self.repo.find_method(ci, "__init__")
        if m is not None:
            self.call(self.method(m), [o] + list(args), kw)
        return o

    def method(self, m):
        return Fn(m.module, m.node, None, m.cls, m.qual)

    def enter(self, f, args, kw):
        node = f.node
        a = node.args
        env = Env(f, f.env)
        pos = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(pos) and not a.vararg:
            raise Raised(Exc("TypeError", "too many arguments"), self.where)
        for n, v in zip(pos, args):
            env.d[n] = v
        if a.vararg:
            env.d[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                env.d[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Raised(Exc("TypeError", "unexpected argument " + k), self.where)
        if a.kwarg:
            env.d[a.kwarg.arg] = extra
        denv = Env(Fn(f.module, None), f.env)
        for n, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in env.d:
                key = (f.module.name, id(node), n)
                if key not in self.glob:
                    self.glob[key] = self.ev(d, denv)
                env.d[n] = self.glob[key]
        for n in pos:
            if n not in env.d:
                raise Raised(Exc("TypeError", "missing argument " + n), self.where)
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env)
        self.funcs.add("%s:%s" % (f.module.name, f.q))
        key = (id(node), "gen")
        if key not in self.glob:
            self.glob[key] = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
        if self.glob[key]:
            raise Broken("generator %s" % f.q)
        old = self.where
        try:
            self.block(node.body, env)
        except Ret as r:
            return r.args[0]
        finally:
            self.where = old
        return None

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.steps += 1
            if self.steps > self.budget:
                raise Broken("the analysis of %s does not end" % env.fn.q)
            self.where = "%s:%s:%d" % (env.fn.module.name, env.fn.q, s.lineno)
            getattr(self, "s_" + type(s).__name__, self.unknown)(s, env)

    def unknown(self, s, env):
        raise Broken("unsupported %s at %s" % (type(s).__name__, self.where))

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        cur = self.ev(ast.copy_location(ast.fix_missing_locations(reload(t)), s), env)
        v = self.ev(s.value, env)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            cur.extend(self.iterate(v))
            return
        self.assign(t, self.binop(type(s.op).__name__, cur, v), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            for st in (env.fn.node.body if env.fn.node is not None and not isinstance(env.fn.node, ast.Lambda) else ()):
                if isinstance(st, ast.Global) and t.id in st.names:
                    self.glob[(env.fn.module.name, t.id)] = v
                    return
                if isinstance(st, ast.Nonlocal) and t.id in st.names:
                    e = env.up
                    while e is not None and t.id not in e.d:
                        e = e.up
                    e.d[t.id] = v
                    return
            env.d[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            if len(vs) != len(t.elts):
                raise Broken("unpacking at " + self.where)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                for c in self.repo.mro(o.ci):
                    for m in c.node.body:
                        if isinstance(m, ast.FunctionDef) and m.name == t.attr and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in m.decorator_list):
                            self.call(Fn(c.module, m, None, c, t.attr), [o, v])
                            return
                o.d[t.attr] = v
            elif isinstance(o, Opq):
                pass
            else:
                raise Broken("attribute of %r stored at %s" % (o, self.where))
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.index(t.slice, env)
            if isinstance(o, (list, dict)):
                o[i] = v
            elif isinstance(o, Vec):
                self.vset(o, i, v)
            elif isinstance(o, Cell) and isinstance(i, int):
                self.setbyte(o, i, v)
            elif isinstance(o, Cell) and isinstance(i, slice) and (i.start or 0) == 0 and i.stop in (None, 32):
                self.put(o, self.content(v), "key")
            elif isinstance(o, Obj):
                self.call(self.getattr(o, "__setitem__"), [i, v])
            else:
                raise Broken("element of %r stored at %s" % (o, self.where))
        else:
            raise Broken("assignment at " + self.where)

    def s_Delete(self, s, env):
        for t in s.targets:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(x, ast.Name):
                    env.d.pop(x.id, None)
                elif isinstance(x, ast.Subscript):
                    o = self.ev(x.value, env)
                    del o[self.index(x.slice, env)]

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_While(self, s, env):
        while self.truth(self.ev(s.test, env)):
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                pass
            self.steps += 1
            if self.steps > self.budget:
                raise Broken("a loop does not end at " + self.where)
        self.block(s.orelse, env)

    def s_For(self, s, env):
        for v in self.iterate(self.ev(s.iter, env)):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cont:
                pass
        self.block(s.orelse, env)

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cont()

    def s_Raise(self, s, env):
        if s.exc is None:
            raise Raised(env.d.get("<exc>") or Exc("Exception"), self.where)
        v = self.ev(s.exc, env)
        raise Raised(Exc(v.n) if isinstance(v, ExcType) else v if isinstance(v, Exc) else Exc("Exception"), self.where)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise Raised(Exc("AssertionError"), self.where)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except Raised as r:
                for h in s.handlers:
                    n = "" if h.type is None else ast.unparse(h.type)
                    if h.type is None or r.exc.n in n or n in ("Exception", "BaseException"):
                        if h.name:
                            env.d[h.name] = r.exc
                        env.d["<exc>"] = r.exc
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_FunctionDef(self, s, env):
        env.d[s.name] = Fn(env.fn.module, s, env, env.fn.cls, s.name)

    s_AsyncFunctionDef = s_FunctionDef

    def s_Global(self, s, env):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s, env):
        for a in s.names:
            env.d[(a.asname or a.name).split(".")[0]] = Mod(a.name)

    def s_ImportFrom(self, s, env):
        m = env.fn.module.abs_mod(s.level, s.module) if s.level else s.module
        for a in s.names:
            if m in self.repo.modules:
                r = self.repo.resolve(m, a.name) if m + "." + a.name in self.repo.modules else None
                env.d[a.asname or a.name] = self.module_name(self.repo.module(m), a.name) if m + "." + a.name not in self.repo.modules or r is not None and r[0] != "mod" else Mod(m + "." + a.name)
            else:
                env.d[a.asname or a.name] = Mod(m + "." + a.name) if m + "." + a.name in self.repo.modules else Opq(m + "." + a.name)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, bytearray, list, tuple, dict, set, range)):
            return bool(v)
        if isinstance(v, Vec):
            return bool(v.e)
        if isinstance(v, Cell):
            return True
        if isinstance(v, Obj):
            if self.repo.find_method(v.ci, "__len__") is not None:
                return bool(self.call(self.getattr(v, "__len__"), []))
            return True
        return True

    def iterate(self, v):
        if isinstance(v, (list, tuple, range, dict, set, str)):
            return list(v) if not isinstance(v, list) else IterList(v)
        if isinstance(v, (type({}.values()), type({}.keys()), type({}.items()), frozenset)):
            return list(v)
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, Vec):
            return [Cell("key", x) for x in v.e]
        if isinstance(v, Obj) and self.repo.find_method(v.ci, "__len__") is not None:
            n = self.call(self.getattr(v, "__len__"), [])
            return [self.item(v, i) for i in range(n)]
        if isinstance(v, (Gen,)):
            return v
        raise Broken("iteration over %r at %s" % (v, self.where))

    def ev(self, n, env):
        return getattr(self, "e_" + type(n).__name__, self.bad)(n, env)

    def bad(self, n, env):
        raise Broken("unsupported expression %s at %s" % (type(n).__name__, self.where))

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Lambda(self, n, env):
        return Fn(env.fn.module, n, env, env.fn.cls, "<lambda>")

    def e_Await(self, n, env):
        return self.ev(n.value, env)

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_BoolOp(self, n, env):
        v = None
        for x in n.values:
            v = self.ev(x, env)
            if self.truth(v) != isinstance(n.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(n.op, ast.USub) else ~v if isinstance(n.op, ast.Invert) else v
        raise Broken("operator at " + self.where)

    def e_BinOp(self, n, env):
        return self.binop(type(n.op).__name__, self.ev(n.left, env), self.ev(n.right, env))

    def binop(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, (bytes, str, list, tuple)) and isinstance(b, (bytes, str, list, tuple, int)) or isinstance(a, int) and isinstance(b, (list, bytes, tuple)):
            if op == "Mod" and isinstance(a, str):
                return "text"
            try:
                return OPS[op](a, b)
            except (TypeError, KeyError, ZeroDivisionError):
                raise Broken("operator %s at %s" % (op, self.where))
        if op == "Mod" and isinstance(a, str):
            return "text"
        raise Broken("operator %s of %r and %r at %s" % (op, a, b, self.where))

    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        for op, r in zip(n.ops, n.comparators):
            b = self.ev(r, env)
            if not self.cmp(type(op).__name__, a, b):
                return False
            a = b
        return True

    def cmp(self, op, a, b):
        if op in ("Is", "IsNot"):
            if isinstance(a, Opq) or isinstance(b, Opq):
                raise Broken("comparison of an unknown value at " + self.where)
            r = a is b or isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a == b
            return r == (op == "Is")
        plain = lambda x: x is None or isinstance(x, (bool, int, float, str, bytes, list, tuple, dict, range))
        if op in ("In", "NotIn"):
            if isinstance(b, dict) or isinstance(b, (list, tuple)) and all(plain(x) for x in b) and plain(a):
                return (a in b) == (op == "In")
            raise Broken("membership at " + self.where)
        if plain(a) and plain(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            return CMP[op](a, b)
        if op in ("Eq", "NotEq"):
            if a is None or b is None or isinstance(a, (int, str)) or isinstance(b, (int, str)):
                return op == "NotEq"
            if isinstance(a, Cell) and isinstance(b, Cell) and a.kind == b.kind and a.kind in ("sc", "pt"):
                f = self.sc if a.kind == "sc" else self.pt
                return self.ne(Enc(f(a)), Enc(f(b))) == (op == "NotEq")
            return self.ne(a, b) == (op == "NotEq")
        raise Broken("comparison %s of %r and %r at %s" % (op, a, b, self.where))

    def e_Tuple(self, n, env):
        return tuple(self.elts(n, env))

    def e_List(self, n, env):
        return self.elts(n, env)

    def e_Set(self, n, env):
        return set(self.elts(n, env))

    def elts(self, n, env):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, n, env):
        return {self.ev(k, env): self.ev(v, env) for k, v in zip(n.keys, n.values)}

    def e_JoinedStr(self, n, env):
        return "text"

    def comp(self, n, env, out):
        def go(i, e):
            if i == len(n.generators):
                out(e)
                return
            g = n.generators[i]
            for v in self.iterate(self.ev(g.iter, e)):
                e2 = Env(env.fn, e)
                self.assign(g.target, v, e2)
                if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                    go(i + 1, e2)
        go(0, env)

    def e_ListComp(self, n, env):
        r = []
        self.comp(n, env, lambda e: r.append(self.ev(n.elt, e)))
        return r

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, env):
        r = {}
        self.comp(n, env, lambda e: r.__setitem__(self.ev(n.key, e), self.ev(n.value, e)))
        return r

    def index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.ev(s, env)

    def e_Subscript(self, n, env):
        return self.item(self.ev(n.value, env), self.index(n.slice, env))

    def item(self, o, i):
        if isinstance(o, (list, tuple, bytes, str, dict, range)):
            try:
                return o[i]
            except (IndexError, KeyError) as e:
                raise Raised(Exc(type(e).__name__), self.where)
        if isinstance(o, Vec):
            if not isinstance(i, int):
                raise Broken("slice of a vector at " + self.where)
            return Slot(o, self.vidx(o, i))
        if isinstance(o, Obj):
            return self.call(self.getattr(o, "__getitem__"), [i])
        if isinstance(o, Cell) and isinstance(i, int):
            c = self.content(o)
            return c[i] if isinstance(c, bytes) else Byte(c, i)
        if isinstance(o, Cell) and isinstance(i, slice) and (i.start or 0) == 0 and i.stop in (None, 32):
            return o
        raise Broken("element of %r at %s" % (o, self.where))

    def setbyte(self, o, i, v):
        """a key copied byte by byte"""
        p = self.pending.setdefault(id(o), {})
        p[i] = v if isinstance(v, Byte) else Byte(("byte", v), i)
        self.keep.append(o)
        if len(p) == 32:
            cs = {x.c for x in p.values()}
            if all(isinstance(x.c, tuple) for x in p.values()):
                o.v = bytes(p[k].c[1] for k in range(32))
            elif len(cs) == 1 and all(k == x.i for k, x in p.items()):
                o.v = cs.pop()
            else:
                o.v = Raw(intern(("mixed", tuple((x.c, x.i) for _, x in sorted(p.items())))))
            self.pending.pop(id(o))

    # vectors
    def vidx(self, o, i):
        n = len(o.e)
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise Raised(Exc("IndexError"), self.where)
        return i

    def vset(self, o, i, v):
        if o.const:
            raise Raised(Exc("ValueError", "constant"), self.where)
        o.e[self.vidx(o, i)] = self.content(v)

    def v_to(self, o, idx, buff=None, offset=0):
        return self.put(buff if buff is not None else None, o.e[self.vidx(o, idx)], "key")

    def v_read(self, o, idx, buff, offset=0):
        self.vset(o, idx, buff)

    def v___len__(self, o):
        return len(o.e)

    def v_resize(self, o, nsize, chop=False, realloc=False):
        o.e = (o.e + [Enc(Poly.num(0))] * nsize)[:nsize]
        return o

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def getattr(self, o, a):
        if isinstance(o, Mod):
            if o.n in self.repo.modules:
                m = self.repo.module(o.n)
                v = self.arith.get(a) if o.n.startswith(("monero_glue.xmr.crypto", "monero_glue.xmr.core")) else None
                if v is not None:
                    return v
                return self.module_name(m, a)
            return Opq(o.n + "." + a)
        if isinstance(o, Opq):
            return Opq(o.n + "." + a)
        if isinstance(o, Obj):
            if a in o.d:
                return o.d[a]
            m = self.repo.find_method(o.ci, a)
            if m is not None:
                if "property" in m.decos:
                    return self.call(self.method(m), [o])
                if "staticmethod" in m.decos:
                    return self.method(m)
                if any(d.endswith("setter") for d in m.decos):
                    for c in self.repo.mro(o.ci):
                        for x in c.node.body:
                            if isinstance(x, ast.FunctionDef) and x.name == a and any(isinstance(d, ast.Name) and d.id == "property" for d in x.decorator_list):
                                return self.call(Fn(c.module, x, None, c, a), [o])
                return Bound(self.method(m), o)
            ca = self.repo.find_classattr(o.ci, a)
            if ca is not None:
                v = self.ev(ca[1], self.class_env(ca[0]))
                return Bound(v, o) if isinstance(v, Fn) and v.cls is not None else v
            if a == "__class__":
                return Cls(o.ci)
            raise Raised(Exc("AttributeError", a), self.where)
        if isinstance(o, Cls):
            m = self.repo.find_method(o.ci, a)
            if m is not None:
                return Bound(self.method(m), o) if "classmethod" in m.decos else self.method(m)
            ca = self.repo.find_classattr(o.ci, a)
            if ca is not None:
                return self.ev(ca[1], self.class_env(ca[0]))
            if a == "__name__":
                return o.ci.node.name
        if isinstance(o, Vec):
            f = getattr(self, "v_" + a, None)
            if f is not None:
                return Bound(Nat(f), o)
            if a == "size":
                return len(o.e)
        if isinstance(o, Sup):
            for c in self.repo.mro(o.o.ci)[self.repo.mro(o.o.ci).index(o.cls) + 1:]:
                if a in c.methods:
                    return Bound(self.method(c.methods[a]), o.o)
            return Nat(lambda *x, **k: None)
        if isinstance(o, Hasher):
            return Nat({"update": lambda d: o.parts.append(self.frozen(d)), "reset": lambda: o.parts.clear(),
                        "digest": lambda dst=None: self.put(dst, self.digest(o.parts), "key")}[a])
        if isinstance(o, list) and a == "sort":
            return Nat(lambda key=None, reverse=False: sort_in_place(self, o, key, reverse))
        if isinstance(o, (list, dict, str, bytes, set, tuple)):
            f = getattr(o, a, None)
            if f is not None:
                return Nat(f)
        raise Broken("attribute %s of %r at %s" % (a, o, self.where))

    def frozen_key(self, v):
        raise Broken("order of unknown values at " + self.where)

    def class_env(self, ci):
        e = Env(Fn(ci.module, None))
        for n, m in ci.methods.items():
            e.d[n] = self.method(m)
        return e

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while "self" not in e.d and e.up is not None:
                e = e.up
            return Sup(e.d["self"], env.fn.cls)
        f = self.ev(n.func, env)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        if isinstance(f, Nat) and f.n in SELF_BUILTINS:
            return f.f(self, *args, **kw)
        return self.call(f, args, kw)


class IterList(object):
    """iteration over a list that may grow meanwhile"""
    def __init__(self, l):
        self.l = l

    def __iter__(self):
        i = 0
        while i < len(self.l):
            yield self.l[i]
            i += 1


class Gen(object):
    pass


class Opq(object):
    """value of no interest (logging, garbage collection, sizes of objects)"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


class Sup(object):
    def __init__(self, o, cls):
        self.o, self.cls = o, cls


class Slot(Cell):
    """view of one element of a vector"""
    __slots__ = ("o", "i")

    def __init__(self, o, i):
        object.__setattr__(self, "o", o)
        object.__setattr__(self, "i", i)
        object.__setattr__(self, "kind", "key")

    @property
    def v(self):
        return self.o.e[self.i]

    @v.setter
    def v(self, x):
        self.o.e[self.i] = x


def reload(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    return ast.Subscript(t.value, t.slice, ast.Load())


def b_len(mc, x):
    if isinstance(x, (list, tuple, bytes, str, dict, set, range)):
        return len(x)
    if isinstance(x, Vec):
        return len(x.e)
    if isinstance(x, Cell):
        return x.size
    if isinstance(x, (Enc, Raw)):
        return 32
    if isinstance(x, Obj):
        return mc.call(mc.getattr(x, "__len__"), [])
    raise Broken("length of %r at %s" % (x, mc.where))


def b_bytearray(mc, n=0):
    if isinstance(n, int):
        return Cell("key", None, n)
    return Cell("key", mc.content(n))


def b_isinstance(mc, x, t):
    for c in (t if isinstance(t, tuple) else (t,)):
        if isinstance(c, Cls) and isinstance(x, Obj) and c.ci in mc.repo.mro(x.ci):
            return True
        if isinstance(c, Nat) and type(x).__name__ == c.n:
            return True
        if isinstance(c, Cls) and isinstance(x, Vec) and c.ci.node.name in ("KeyV", "KeyVBase"):
            return True
        if isinstance(c, Nat) and c.n in ("bytearray", "bytes") and isinstance(x, (Cell, bytes)) and getattr(x, "kind", "key") == "key":
            return (c.n == "bytes") == isinstance(x, bytes)
    return False


def b_getattr(mc, o, a, d=None):
    try:
        return mc.getattr(o, a)
    except Raised:
        return d


def b_setattr(mc, o, a, v):
    o.d[a] = v


def b_bytes(mc, x=b""):
    return x if isinstance(x, bytes) else mc.content(x)


def b_hasattr(mc, o, a):
    try:
        mc.getattr(o, a)
        return True
    except Raised:
        return False


def seq(f):
    return lambda mc, *a, **k: f(*[list(mc.iterate(x)) for x in a], **k)


def b_sorted(mc, x, key=None, reverse=False):
    """an order of unknown values is fixed but not the given one"""
    xs = list(mc.iterate(x))
    ks = [mc.call(key, [y]) if key is not None else y for y in xs]
    if not all(isinstance(k, (int, float, str, bytes, tuple)) for k in ks):
        ks = [mc.frozen_key(k) for k in ks]
    return [xs[i] for i in sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(reverse))]


def sort_in_place(mc, l, key=None, reverse=False):
    l[:] = b_sorted(mc, l, key, reverse)


def b_any(mc, x):
    return any(mc.truth(y) for y in mc.iterate(x))


def b_all(mc, x):
    return all(mc.truth(y) for y in mc.iterate(x))


def plainargs(f):
    def g(mc, *a, **k):
        if any(isinstance(x, (Cell, Obj, Opq, Vec)) for x in a):
            raise Broken("builtin of an abstract value at " + mc.where)
        return f(*a, **k)
    return g


SELF = dict(len=b_len, bytearray=b_bytearray, isinstance=b_isinstance, getattr=b_getattr, setattr=b_setattr, hasattr=b_hasattr, bytes=b_bytes,
            list=lambda mc, x=(): list(mc.iterate(x)), tuple=lambda mc, x=(): tuple(mc.iterate(x)), enumerate=lambda mc, x, start=0: list(enumerate(mc.iterate(x), start)),
            zip=lambda mc, *x: list(zip(*[mc.iterate(y) for y in x])), reversed=lambda mc, x: list(reversed(list(mc.iterate(x)))),
            range=plainargs(range), max=plainargs(max), min=plainargs(min), int=plainargs(int), bool=lambda mc, x=False: mc.truth(x), abs=plainargs(abs), any=b_any, all=b_all,
            sum=plainargs(sum), print=lambda mc, *a, **k: None, str=lambda mc, *a: "text", divmod=plainargs(divmod), pow=plainargs(pow),
            sorted=b_sorted, map=lambda mc, f, *x: [mc.call(f, list(a)) for a in zip(*[mc.iterate(y) for y in x])],
            memoryview=lambda mc, x: x, id=lambda mc, x: id(x), type=lambda mc, x: Cls(x.ci) if isinstance(x, Obj) else Opq("type"), dict=lambda mc, **k: dict(k), set=lambda mc, x=(): set(mc.iterate(x)))
SELF_BUILTINS = set(SELF)
BUILTINS = {k: Nat(v, k) for k, v in SELF.items()}
BUILTINS.update({"True": True, "False": False, "None": None})

OPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b,
       "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b, "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
       "Pow": lambda a, b: a ** b, "Div": lambda a, b: a / b}
CMP = {"Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b, "Lt": lambda a, b: a < b, "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b}
