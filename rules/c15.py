"""C15: both curve backends compute the published functions.

Every exported operation of both backends is evaluated over symbolic scalars, points and byte strings; the primitives at the bottom (the arithmetic of the native
library, the curve formulas of the pure Python one) are given their published meaning.  The result is compared with the function the operation stands for, for the
value-returning and the in-place variant, for every way the target can coincide with an operand.
"""
import ast
import struct

from absint import ORDER, OPS, Cls, Env, Exc, Fn, Machine, Mod, Nat, Obj, Opq, Poly, Pt, Raised, intern, BUILTINS
from ctx import Broken

PY, TR = "monero_glue.xmr.core.ec_py", "monero_glue.xmr.core.ec_trezor"
Q = 2 ** 255 - 19
num, sym = Poly.num, Poly.sym


class SV(object):
    """an integer standing for a scalar: its value modulo the group order, and whether it is known to be reduced"""
    __slots__ = ("p", "red")

    def __init__(self, p, red=False):
        self.p, self.red = p, red

    def __eq__(self, o):
        return isinstance(o, SV) and self.p == o.p and self.red == o.red

    def __hash__(self):
        return hash((self.p, self.red))

    def __repr__(self):
        return "%r%s" % (self.p, "" if self.red or not self.p.syms() else " (not reduced)")


class PV(object):
    """coordinates of a point; on: whether it is on the curve"""
    __slots__ = ("p", "on")

    def __init__(self, p, on=True):
        self.p, self.on = p, on

    def __eq__(self, o):
        return isinstance(o, PV) and self.p == o.p and self.on == o.on

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return repr(self.p)


class Coord(object):
    __slots__ = ("pv", "i", "neg")

    def __init__(self, pv, i, neg=False):
        self.pv, self.i, self.neg = pv, i, neg


class Reg(object):
    """register of the native library"""
    __slots__ = ("kind", "v")

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def __repr__(self):
        return repr(self.v)


class BS(object):
    """byte string"""
    __slots__ = ("t", "mutable")

    def __init__(self, t, mutable=False):
        self.t, self.mutable = list(t), mutable

    def __repr__(self):
        return show(self.t)


class View(object):
    __slots__ = ("b", "off", "n")

    def __init__(self, b, off, n):
        self.b, self.off, self.n = b, off, n


class Hash(object):
    __slots__ = ("t",)

    def __init__(self, t=()):
        self.t = list(t)


class Mac(object):
    __slots__ = ("args",)

    def __init__(self, args):
        self.args = args


class Num64(object):
    """an integer of unknown value"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


def show(t):
    out = []
    for x in t:
        s = x[0] if isinstance(x, tuple) else x
        if not out or out[-1] != s:
            out.append(s)
    return "||".join(str(s) for s in out[:8])


def tok(v, n=32):
    k = intern(v)
    return [(k, i) for i in range(n)]


class CM(Machine):
    def __init__(self, ctx, backend):
        Machine.__init__(self, ctx.repo, None, 300000)
        self.arith = {}
        self.mod = ctx.repo.modules[backend]
        self.env = {}
        N = self.natives
        for m in (PY, TR, "monero_glue.xmr.core.ec_base", "monero_glue.xmr.core.pycompat", "monero_glue.compat.utils", "monero_glue.xmr.core.ec", "monero_glue.xmr.core.ec_picker",
                  "monero_glue.xmr.crypto"):
            for k, f in (("isinstance", self.b_isinstance), ("bytes", self.b_bytes), ("bytearray", self.b_bytearray), ("memoryview", self.b_view),
                         ("len", self.b_len), ("pow", self.b_pow), ("int", self.b_int), ("bool", lambda x=False: self.truth(x))):
                N[(m, k)] = Nat(f, k + "!")
            N[(m, "range")] = BUILTINS["range"]
        e = "monero_glue.xmr.core.backend.ed25519"
        N[(e, "decodeint")] = Nat(lambda s: self.scalar(self.toks(s), False))
        N[(e, "encodeint")] = Nat(lambda v: BS(self.enc(self.num(v))))
        e2 = "monero_glue.xmr.core.backend.ed25519_2"
        for nm in (e2, e):
            N[(nm, "encodepoint")] = Nat(lambda p: BS(self.enc(self.pv(p))))
            N[(nm, "decodepoint")] = Nat(lambda s: self.point(self.toks(s)))
        N[(e2, "ident")] = PV(Pt())
        N[(e2, "B")] = PV(Pt.sym("G"))
        N[(e2, "isoncurve")] = Nat(lambda p: self.pv(p).on)
        N[(e2, "edwards_add")] = Nat(lambda p, q: PV(self.pv(p).p + self.pv(q).p))
        N[(e2, "edwards_double")] = Nat(lambda p: PV(self.pv(p).p.mul(num(2))))
        N[(e2, "scalarmult")] = Nat(lambda p, e: PV(self.pv(p).p.mul(self.num(e).p)))
        N[(e2, "scalarmult_B")] = Nat(lambda e: PV(Pt.sym("G").mul(self.num(e).p)))
        ie = "monero_glue.xmr.core.backend.ed25519ietf"
        N[(ie, "point_equal")] = Nat(lambda p, q: self.pv(p).p == self.pv(q).p)
        N[(ie, "point_add")] = N[(e2, "edwards_add")]
        N["monero_glue.xmr.core.backend.keccak2:Keccak256"] = Nat(lambda *a: self.hasher(*a))
        N["monero_glue.xmr.core.backend.keccak2:KeccakHash"] = N["monero_glue.xmr.core.backend.keccak2:Keccak256"]
        N[("monero_glue.xmr.core.backend.keccak2", "Keccak256")] = N["monero_glue.xmr.core.backend.keccak2:Keccak256"]

    # ---------------------------------------------------------------- values
    def num(self, v):
        if isinstance(v, SV):
            return v
        if isinstance(v, (int, bool)):
            return SV(num(int(v)), 0 <= v < ORDER)
        if isinstance(v, Num64):
            return SV(sym(v.n), True)
        if isinstance(v, Reg) and v.kind == "sc":
            return v.v
        raise Broken("no number: %r at %s" % (v, self.where))

    def pv(self, v):
        if isinstance(v, PV):
            return v
        if isinstance(v, Reg) and v.kind == "pt":
            return v.v
        if isinstance(v, Obj) and "v" in v.d:
            return self.pv(v.d["v"])
        if isinstance(v, tuple) and len(v) == 4:
            if v == (0, 1, 1, 0):
                return PV(Pt())
            if all(isinstance(x, Coord) and x.i == i and x.pv is v[0].pv for i, x in enumerate(v)):
                n = tuple(x.neg for x in v)
                if n == (False,) * 4:
                    return v[0].pv
                if n == (True, False, False, True):
                    return PV(-v[0].pv.p, v[0].pv.on)
            return PV(Pt.sym(intern(("coordinates", tuple((x.pv, x.i, x.neg) if isinstance(x, Coord) else repr(x) for x in v)))), False)
        raise Broken("no point: %r at %s" % (v, self.where))

    def enc(self, v):
        k = ("enc", "s", v.p, v.red or not v.p.syms()) if isinstance(v, SV) else ("enc", "p", v.p)
        n = intern(k)
        VALUES[n] = SV(v.p, k[3]) if isinstance(v, SV) else v
        return [(n, i) for i in range(32)]

    def toks(self, x):
        if isinstance(x, BS):
            return x.t
        if isinstance(x, View):
            return x.b.t[x.off:x.off + x.n]
        if isinstance(x, (bytes, bytearray)):
            return list(x)
        if isinstance(x, list):
            return x
        if isinstance(x, Obj):
            return self.toks(self.call(self.getattr(x, "__bytes__"), []))
        raise Broken("no bytes: %r at %s" % (x, self.where))

    def whole(self, t):
        t = t[:32]
        if len(t) < 32:
            raise Raised(Exc("IndexError", "short key"), self.where)
        if all(isinstance(x, int) for x in t):
            return bytes(t)
        if all(isinstance(x, tuple) and x == (t[0][0], i) for i, x in enumerate(t)):
            return t[0][0]
        return intern(("bytes", tuple(t)))

    def scalar(self, t, reduce):
        w = self.whole(t)
        if isinstance(w, bytes):
            n = int.from_bytes(w, "little")
            return SV(num(n), reduce or n < ORDER)
        v = VALUES.get(w)
        return SV(v.p, v.red or reduce) if isinstance(v, SV) else SV(sym(w), reduce)

    def point(self, t):
        w = self.whole(t)
        if isinstance(w, bytes):
            n = {XMR_H: "H", b"\x58" + b"\x66" * 31: "G"}.get(w, w)
            return PV(Pt() if w == b"\1" + b"\0" * 31 else Pt.sym(n))
        v = VALUES.get(w)
        return v if isinstance(v, PV) else PV(Pt.sym(w))

    def hash(self, t):
        return tok(("keccak", tuple(t)))

    # ---------------------------------------------------------------- builtins
    def b_isinstance(self, x, t):
        for c in (t if isinstance(t, tuple) else (t,)):
            if isinstance(c, Cls):
                if isinstance(x, Obj) and c.ci in self.repo.mro(x.ci):
                    return True
            elif isinstance(c, Nat):
                n = c.n.rstrip("!")
                if {"int": isinstance(x, (int, SV, Num64)), "tuple": isinstance(x, (PV, tuple)), "bytes": isinstance(x, (BS, bytes)) and not getattr(x, "mutable", False),
                        "bytearray": isinstance(x, BS) and x.mutable, "memoryview": isinstance(x, View), "bool": isinstance(x, bool), "str": isinstance(x, str), "list": isinstance(x, list)}.get(n, False):
                    return True
            else:
                raise Broken("isinstance at " + self.where)
        return False

    def b_bytes(self, x=b""):
        return BS([0] * x) if isinstance(x, int) else BS(self.toks(x))

    def b_view(self, x):
        x = x if isinstance(x, (View, BS)) else BS(self.toks(x))
        return x if isinstance(x, View) else View(x, 0, len(x.t))

    def b_bytearray(self, x=0):
        return BS([0] * x if isinstance(x, int) else self.toks(x), True)

    def b_len(self, x):
        return len(x) if isinstance(x, (tuple, list, dict, str)) else len(self.toks(x))

    def b_pow(self, a, b, m=None):
        if isinstance(a, SV) and m == ORDER and b in (ORDER - 2, -1):
            return SV(a.p.inverse(), True)
        if isinstance(a, int):
            return pow(a, b, m)
        return SV(sym(intern(("pow", a.p, b, m))), m == ORDER)

    def b_int(self, x=0, *a):
        if isinstance(x, (SV, Num64)):
            return x
        if isinstance(x, str):
            try:
                return int(x, *a)
            except ValueError:
                raise Raised(Exc("ValueError"), self.where)
        return int(x)

    def truth(self, v):
        if isinstance(v, SV):
            return not (v.p == num(0))
        if isinstance(v, BS):
            return bool(v.t)
        if isinstance(v, (PV, Reg, Coord, Hash, Mac, Num64, View)):
            return True
        if isinstance(v, Opq):
            raise Broken("decision on an unknown value %r at %s" % (v, self.where))
        return Machine.truth(self, v)

    def iterate(self, v):
        if isinstance(v, (BS, View)):
            return list(self.toks(v))
        if isinstance(v, PV):
            return [Coord(v, i) for i in range(4)]
        return Machine.iterate(self, v)

    def item(self, o, i):
        if isinstance(o, (BS, View)):
            t = self.toks(o)
            if isinstance(i, slice):
                if isinstance(o, View):
                    a, b, s = i.indices(len(t))
                    return View(o.b, o.off + a, max(0, b - a))
                return BS(t[i], o.mutable)
            if not -len(t) <= i < len(t):
                raise Raised(Exc("IndexError"), self.where)
            return t[i]
        if isinstance(o, PV):
            c = [Coord(o, k) for k in range(4)]
            return tuple(c[i]) if isinstance(i, slice) else c[i]
        return Machine.item(self, o, i)

    def assign(self, t, v, env):
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.index(t.slice, env)
            if isinstance(o, (BS, View)):
                b, off, n = (o, 0, len(o.t)) if isinstance(o, BS) else (o.b, o.off, o.n)
                if isinstance(i, slice):
                    a, e, s = i.indices(n)
                    x = self.toks(v)
                    if len(x) != e - a:
                        raise Broken("resized buffer at " + self.where)
                    b.t[off + a:off + e] = x
                else:
                    if not -n <= i < n:
                        raise Raised(Exc("IndexError"), self.where)
                    b.t[off + i % n] = v
                return
        return Machine.assign(self, t, v, env)

    DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Mod": "__mod__"}

    def binop(self, op, a, b):
        if isinstance(a, Obj) and op in self.DUNDER:
            return self.call(self.getattr(a, self.DUNDER[op]), [b])
        if op == "Add" and isinstance(a, (BS, bytes)) and isinstance(b, (BS, bytes)):
            return BS(self.toks(a) + self.toks(b))
        if isinstance(a, (SV, Num64)) or isinstance(b, (SV, Num64)):
            if op == "Mod" and b == ORDER:
                return SV(self.num(a).p, True)
            if op in ("Add", "Sub", "Mult"):
                p = OPS[op](self.num(a).p, self.num(b).p)
                return SV(p)
            return SV(sym(intern((op, repr(a), repr(b)))), False)
        if isinstance(a, Coord) or isinstance(b, Coord):
            c, o = (a, b) if isinstance(a, Coord) else (b, a)
            if op == "Mult" and o in (1, -1):
                return Coord(c.pv, c.i, c.neg ^ (o == -1))
            if op == "Mod" and c is a and b == Q:
                return a
            if op == "Sub" and c is b and o in (0, Q):
                return Coord(c.pv, c.i, not c.neg)
            return Opq("coordinate expression")
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq("expression")
        return Machine.binop(self, op, a, b)

    def e_UnaryOp(self, n, env):
        if isinstance(n.op, ast.USub):
            v = self.ev(n.operand, env)
            if isinstance(v, Obj):
                return self.call(self.getattr(v, "__neg__"), [])
            if isinstance(v, SV):
                return SV(-v.p)
            if isinstance(v, Coord):
                return Coord(v.pv, v.i, not v.neg)
            if isinstance(v, int):
                return -v
        return Machine.e_UnaryOp(self, n, env)

    def cmp(self, op, a, b):
        if op in ("Eq", "NotEq"):
            if isinstance(a, Obj) and self.repo.find_method(a.ci, "__eq__") is not None:
                return self.truth(self.call(self.getattr(a, "__eq__"), [b])) == (op == "Eq")
            if isinstance(a, (SV, Num64)) or isinstance(b, (SV, Num64)):
                x, y = self.num(a), self.num(b)
                return (x.p == y.p and (x.red == y.red or not x.p.syms() and x.red == y.red)) == (op == "Eq")
            if isinstance(a, (BS, View, bytes)) and isinstance(b, (BS, View, bytes)):
                return (self.toks(a) == self.toks(b)) == (op == "Eq")
            if isinstance(a, PV) and isinstance(b, PV):
                return (a.p == b.p) == (op == "Eq")
        if isinstance(a, int) and isinstance(b, SV) and op in ("Lt", "GtE", "LtE", "Gt"):
            return self.cmp({"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}[op], b, a)
        if isinstance(a, SV) and isinstance(b, int) and op in ("Lt", "GtE", "LtE", "Gt"):
            if not a.p.syms():
                return {"Lt": int.__lt__, "GtE": int.__ge__, "LtE": int.__le__, "Gt": int.__gt__}[op](const_of(a.p), b)
            if b in (ORDER, ORDER - 1) :
                return a.red == (op in ("Lt", "LtE"))
            return (op in ("GtE", "Gt")) == (b <= 0)       # symbolic scalars are positive and of full size only where the case says so
        if op in ("Is", "IsNot") and (isinstance(a, Opq) or isinstance(b, Opq)):
            return (a is b) == (op == "Is")
        return Machine.cmp(self, op, a, b)

    # ---------------------------------------------------------------- library objects
    def hasher(self, *a):
        return Hash(self.toks(a[0]) if a else ())

    def getattr(self, o, a):
        if isinstance(o, Opq) or isinstance(o, Mod) and o.n not in self.repo.modules:
            if o.n.startswith("trezor_crypto.trezor_cfunc") or o.n.startswith("trezor_crypto") and o.n.endswith("trezor_cfunc"):
                return self.native(a)
            if a == "getrandbits":
                return Nat(lambda k: SV(sym(self.draw()), False) if k >= 256 + 64 else SV(sym("short draw"), False))
            if a in ("randint", "randrange") and o.n.startswith("Crypto.Random"):
                return Nat(lambda lo, hi=None: SV(sym(self.draw()), True))
            if (o.n, a) == ("hmac", "new"):
                return Nat(lambda key, msg=None, digestmod=None: Mac((tuple(self.toks(key)), tuple(self.toks(msg)) if msg is not None else None, label(digestmod))))
            if (o.n, a) == ("struct", "pack_into"):
                return Nat(self.pack_into)
            if (o.n, a) == ("struct", "pack"):
                return Nat(lambda f, *v: BS(self.packed(f, v)))
            if a == "dump_uvarint_b":
                return Nat(lambda n: BS([(intern(("varint", repr(n))), 0)]))
            if (o.n, a) == ("os", "getenv"):
                return Nat(lambda k, d=None: self.env.get(k, d))
            if (o.n, a) == ("os", "environ"):
                return self.env
        if isinstance(o, Num64) and a == "to_bytes":
            return Nat(lambda n, order: BS([(intern((order, o.n)), i) for i in range(n)]))
        if isinstance(o, int) and a == "to_bytes":
            return Nat(lambda n, order: BS(o.to_bytes(n, order)))
        if isinstance(o, Hash):
            return Nat({"update": lambda d: o.t.extend(self.toks(d)), "digest": lambda: BS(self.hash(o.t)), "hexdigest": lambda: "text", "copy": lambda: Hash(o.t)}[a])
        if isinstance(o, Mac):
            return Nat({"digest": lambda: BS(tok(("hmac",) + o.args)), "update": lambda d: setattr(o, "args", (o.args[0], (o.args[1] or ()) + tuple(self.toks(d)), o.args[2]))}[a])
        if isinstance(o, Nat) and o.n == "KEY_BUFF" and a in ("from_buffer", "from_buffer_copy"):
            return Nat(self.from_buffer if a == "from_buffer" else lambda b: BS(self.exact(self.toks(b)[:32]), True))
        return Machine.getattr(self, o, a)

    def from_buffer(self, b):
        v = View(b, 0, len(b.t)) if isinstance(b, BS) else b
        if not (isinstance(v, View) and isinstance(v.b, BS) and v.b.mutable):
            raise Raised(Exc("TypeError", "not writable"), self.where)
        if v.n < 32:
            raise Raised(Exc("ValueError", "short buffer"), self.where)
        return View(v.b, v.off, 32)

    def exact(self, t):
        if len(t) < 32:
            raise Raised(Exc("ValueError", "short buffer"), self.where)
        return t

    def module_name(self, module, n):
        z = self.natives.get((module.name, n)) if module is not None else None
        if isinstance(z, Lazy):
            return self.module_name(z.mod, z.n)
        if module is not None and (module.name, n) not in self.natives:
            r = self.repo.resolve(module.name, n)
            if r is not None and r[0] == "ext":
                f = {"get_random_bytes": lambda k: BS(tok(("random", self.draw()), k)),
                     "PBKDF2": lambda inp, salt, dkLen=16, count=1000, prf=None, **k: BS(tok(("pbkdf2", tuple(self.toks(inp)), tuple(self.toks(salt)), count, tuple(self.toks(
                         self.call(prf, [BS([("p", 0)]), BS([("s", 0)])])))), dkLen))}.get(r[1].rsplit(".", 1)[-1])
                if f is not None:
                    return Nat(f)
                if r[1].rsplit(".", 1)[-1] == "xmrserialize":
                    return Opq("xmrserialize")
        return Machine.module_name(self, module, n)

    def mod_names(self):
        return {st.name for st in self.mod.tree.body if isinstance(st, (ast.FunctionDef, ast.ClassDef))}

    def packed(self, fmt, vals):
        out, vals, i = [], list(vals), 0
        fmt = fmt if isinstance(fmt, str) else "<"
        order = "big" if fmt[:1] in ">!" else "little"
        cnt = ""
        for c in fmt.lstrip("<>=!@"):
            if c.isdigit():
                cnt += c
                continue
            if c == "s":
                t = self.toks(vals.pop(0))
                n = int(cnt or 1)
                out += (t + [0] * n)[:n]
            elif c in "bBhHiIlLqQ":
                for _ in range(int(cnt or 1)):
                    v, n = vals.pop(0), struct.calcsize("<" + c)
                    out += list((v % (1 << 8 * n)).to_bytes(n, order)) if isinstance(v, int) else [(intern((order, v.n)), i) for i in range(n)]
            elif c == "x":
                out += [0] * int(cnt or 1)
            else:
                raise Broken("format %s" % fmt)
            cnt = ""
        return out

    def pack_into(self, fmt, buf, off, *vals):
        t = self.packed(fmt, vals)
        buf.t[off:off + len(t)] = t

    # ---------------------------------------------------------------- meaning of the native library
    def native(self, a):
        S, P = (lambda x: self.reg(x, "sc").p), (lambda x: self.reg(x, "pt").p)
        G, H = Pt.sym("G"), Pt.sym("H")
        sc = lambda p: SV(p, True)
        hs = lambda t: self.scalar(self.hash(t), True).p
        dts = lambda d, i: hs(self.enc(self.reg(d, "pt")) + [(intern(("varint", repr(i))), 0)])
        T = {
            "init256_modm": ("sc", lambda n: sc(self.n64(n))), "set256_modm": ("sc", lambda n: sc(self.n64(n))), "copy256_modm": ("sc", lambda x: self.reg(x, "sc")),
            "add256_modm": ("sc", lambda x, y: sc(S(x) + S(y))), "sub256_modm": ("sc", lambda x, y: sc(S(x) - S(y))), "mul256_modm": ("sc", lambda x, y: sc(S(x) * S(y))),
            "neg256_modm": ("sc", lambda x: sc(-S(x))), "mulsub256_modm": ("sc", lambda x, y, c: sc(S(c) - S(x) * S(y))), "muladd256_modm": ("sc", lambda x, y, c: sc(S(c) + S(x) * S(y))),
            "expand256_modm": ("sc", lambda b, n=32: self.scalar(self.toks(b)[:n], True)), "expand_raw256_modm": ("sc", lambda b: self.scalar(self.toks(b), False)),
            "barrett_reduce256_modm": ("sc", lambda q, r: sc(S(r))), "reduce256_modm": ("sc", lambda x: sc(S(x))),
            "xmr_random_scalar": ("sc", lambda: sc(sym(self.draw()))), "xmr_hash_to_scalar": ("sc", lambda d, n=None: sc(hs(self.toks(d)[:n]))),
            "xmr_derivation_to_scalar": ("sc", lambda d, i: sc(dts(d, i))), "xmr_derive_private_key": ("sc", lambda d, i, b: sc(S(b) + dts(d, i))),
            "xmr_get_subaddress_secret_key": ("sc", lambda j, n, m: sc(hs(SUB(self, self.reg(m, "sc"), j, n)))),
            "ge25519_unpack_vartime": ("pt", lambda b: self.point(self.toks(b))), "ge25519_copy": ("pt", lambda p: self.reg(p, "pt")), "ge25519_norm": ("pt", lambda p: self.reg(p, "pt")),
            "ge25519_reduce": ("pt", lambda p: self.reg(p, "pt")), "ge25519_set_neutral": ("pt", lambda: PV(Pt())), "ge25519_set_xmr_h": ("pt", lambda: PV(H)), "ge25519_set_base": ("pt", lambda: PV(G)),
            "ge25519_add": ("pt", lambda p, q, s: PV(P(p) - P(q) if s else P(p) + P(q))), "ge25519_double": ("pt", lambda p: PV(P(p).mul(num(2)))), "ge25519_neg": ("pt", lambda p: PV(-P(p))),
            "ge25519_neg_full": ("pt", lambda p: PV(-P(p))), "ge25519_mul8": ("pt", lambda p: PV(P(p).mul(num(8)))),
            "ge25519_scalarmult": ("pt", lambda p, s: PV(P(p).mul(S(s)))), "ge25519_scalarmult_base_wrapper": ("pt", lambda s: PV(G.mul(S(s)))),
            "ge25519_double_scalarmult_vartime": ("pt", lambda p, x, y: PV(P(p).mul(S(x)) + G.mul(S(y)))),
            "ge25519_double_scalarmult_vartime2": ("pt", lambda p, x, q, y: PV(P(p).mul(S(x)) + P(q).mul(S(y)))),
            "xmr_add_keys2": ("pt", lambda a, b, B: PV(G.mul(S(a)) + P(B).mul(S(b)))), "xmr_add_keys3": ("pt", lambda a, A, b, B: PV(P(A).mul(S(a)) + P(B).mul(S(b)))),
            "xmr_gen_c": ("pt", lambda a, n: PV(G.mul(S(a)) + H.mul(self.n64(n)))), "xmr_hash_to_ec": ("pt", lambda d, n=None: PV(Pt.sym(intern(("hash to point", tuple(self.toks(d)[:n])))))),
            "xmr_generate_key_derivation": ("pt", lambda p, s: PV(P(p).mul(S(s)).mul(num(8)))), "xmr_derive_public_key": ("pt", lambda d, i, b: PV(P(b) + G.mul(dts(d, i)))),
        }
        for k in ("xmr_add_keys2", "xmr_add_keys3"):
            T[k + "_vartime"] = T[k]
        U = {
            "iszero256_modm": lambda x: int(S(x) == num(0)), "eq256_modm": lambda x, y: int(S(x) == S(y)), "is_reduced256_modm": lambda x: int(self.reg(x, "sc").red),
            "check256_modm": lambda x: int(self.reg(x, "sc").red and not S(x) == num(0)), "contract256_modm_r": lambda x: BS(self.enc(self.reg(x, "sc"))),
            "get256_modm_r": lambda x: self.get64(self.reg(x, "sc")), "ge25519_pack_r": lambda p: BS(self.enc(self.reg(p, "pt"))), "ge25519_check": lambda p: int(self.reg(p, "pt").on),
            "ge25519_eq": lambda p, q: int(P(p) == P(q)), "new_ge25519": lambda: Reg("pt", PV(Pt.sym("blank"), False)), "xmr_fast_hash_r": lambda d, n=None: BS(self.hash(self.toks(d)[:n])),
            "contract256_modm": lambda b, x: self.assign_all(b, self.enc(self.reg(x, "sc"))), "ge25519_pack": lambda b, x: self.assign_all(b, self.enc(self.reg(x, "pt"))),
            "xmr_fast_hash": lambda b, d, n: self.assign_all(b, self.hash(self.prefix(d, n))), "random_buffer_r": lambda n: BS(tok(("random", self.draw()), n)),
            "xmr_hasher_init_r": lambda: Hash(), "xmr_hasher_copy_r": lambda h: Hash(h.t), "xmr_hasher_update": lambda h, d, n=None: h.t.extend(self.toks(d)[:n]),
            "xmr_hasher_final_r": lambda h: BS(self.hash(h.t)), "bn_zero_r": lambda: Reg("bn", SV(num(0), True)), "open_lib": lambda *x: None,
            "bn_read_le": lambda b, r: setattr(r, "v", self.scalar(self.toks(b), False)), "bn_inverse": lambda x, m: setattr(x, "v", self.invert(x.v, m.v)),
            "bn_write_le": lambda r, b: self.assign_all(b, self.enc(r.v)),
        }
        if a == "cl":
            return Nat(lambda: Opq("trezor_crypto.trezor_cfunc"))
        if a in ("KEY_BUFF",):
            return Nat(lambda *x: BS(list(x) + [0] * (32 - len(x)), True) if len(x) <= 32 else self.fail("IndexError", "invalid index"), "KEY_BUFF")
        if a in ("ge25519", "bignum256modm"):
            return Opq("type " + a)
        if a in U:
            return Nat(U[a], a)
        base = a[:-2] if a.endswith("_r") else a
        if base in T:
            kind, f = T[base]
            if a.endswith("_r"):
                return Nat(lambda *x: Reg(kind, f(*x)), a)
            return Nat(lambda r, *x: self.into(r, kind, f(*x)), a)
        raise Broken("native function %s has no known meaning" % a)

    def fail(self, n, msg):
        raise Raised(Exc(n, msg), self.where)

    def prefix(self, d, n):
        t = self.toks(d)
        if n > len(t):
            return t + [("past the end", 0)]
        return t[:n]

    def invert(self, v, m):
        return SV(v.p.inverse(), True) if not m.p.syms() and const_of(m.p, raw=True) in (0, ORDER) else SV(sym(intern(("inverse", v.p, m.p))), False)

    def assign_all(self, b, t):
        if not isinstance(b, View) and not (isinstance(b, BS) and b.mutable):
            raise Raised(Exc("TypeError"), self.where)
        d, off = (b, 0) if isinstance(b, BS) else (b.b, b.off)
        d.t[off:off + len(t)] = t

    def into(self, r, kind, v):
        if not (isinstance(r, Reg) and r.kind == kind):
            raise Raised(Exc("ArgumentError", "no register"), self.where)
        r.v = v
        return r

    def reg(self, x, kind):
        if not (isinstance(x, Reg) and x.kind == kind):
            raise Raised(Exc("ArgumentError", "no register"), self.where)
        return x.v

    def n64(self, n):
        if isinstance(n, int):
            return num(n % (1 << 64))
        if isinstance(n, Num64):
            return sym(n.n)
        raise Raised(Exc("ArgumentError", "no integer"), self.where)

    def get64(self, v):
        if v.p.syms() or const_of(v.p) >= 1 << 64:
            raise Raised(Exc("ValueError", "too big"), self.where)
        return const_of(v.p)


XMR_H = bytes.fromhex("8b655970153799af2aeadc9ff1add0ea6c7251d54154cfa92c173a0dd39c1f94")
VALUES = {}


def const_of(p, raw=False):
    for k, v in p.m.items():
        return v if not k else None
    return 0


def SUB(m, sk, major, minor):
    return m.packed("<7sb32sLL", [b"SubAddr", 0, BS(m.enc(sk)), major, minor])


def label(f):
    if isinstance(f, Fn):
        return f.q
    return getattr(f, "n", repr(f)).replace("()", "")


# -------------------------------------------------------------------- the operations
def ops():
    G, H = Pt.sym("G"), Pt.sym("H")
    P8 = lambda p: p.mul(num(8))
    O = {}

    def op(name, kinds, f, into=True, fresh=True, args=None):
        O[name] = dict(kinds=kinds, f=f, into=into, fresh=fresh)

    op("sc_0", "", lambda: num(0))
    op("sc_add", "ss", lambda a, b: a + b)
    op("sc_sub", "ss", lambda a, b: a - b)
    op("sc_mul", "ss", lambda a, b: a * b)
    op("sc_muladd", "sss", lambda a, b, c: a * b + c)
    op("sc_mulsub", "sss", lambda a, b, c: c - a * b)
    op("sc_inv", "s", lambda a: a.inverse())
    op("sc_inv_eight", "", lambda: num(8).inverse(), into=False, fresh=False)
    op("point_add", "pp", lambda p, q: p + q)
    op("point_sub", "pp", lambda p, q: p - q)
    op("point_double", "p", lambda p: p.mul(num(2)))
    op("point_mul8", "p", P8)
    op("point_mulinv8", "p", lambda p: p.mul(num(8).inverse()), into=False)
    op("point_norm", "p", lambda p: p, into=False, fresh=False)
    op("scalarmult", "ps", lambda p, s: p.mul(s))
    op("scalarmult_base", "s", lambda s: G.mul(s))
    op("scalarmult_h", "s", lambda s: H.mul(s), into=False)
    op("identity", "", lambda: Pt())
    op("xmr_H", "", lambda: H, into=False)
    op("add_keys2", "ssp", lambda a, b, B: G.mul(a) + B.mul(b))
    op("add_keys3", "spsp", lambda a, A, b, B: A.mul(a) + B.mul(b))
    op("ge_double_scalarmult_base_vartime", "sps", lambda a, A, b: A.mul(a) + G.mul(b), into=False)
    op("ge25519_double_scalarmult_base_vartime", "sps", lambda a, A, b: A.mul(a) + G.mul(b), into=False)
    op("ge_double_scalarmult_base_vartime2", "spsp", lambda a, A, b, B: A.mul(a) + B.mul(b), into=False)
    op("ge_double_scalarmult_precomp_vartime", "spsp", lambda a, A, b, B: A.mul(a) + B.mul(b), into=False)
    op("ge_double_scalarmult_precomp_vartime2", "spsp", lambda a, A, b, B: A.mul(a) + B.mul(b), into=False)
    op("precomp", "p", lambda p: p, into=False, fresh=False)
    op("ge_dsm_precomp", "p", lambda p: p, into=False, fresh=False)
    op("ge_frombytes_vartime", "p", lambda p: p, into=False, fresh=False)
    op("generate_key_derivation", "ps", lambda p, s: P8(p.mul(s)), into=False)
    return O


class Backend(object):
    def __init__(self, ctx, module):
        self.ctx, self.module, self.name = ctx, module, {PY: "python", TR: "native"}[module]

    def machine(self):
        return CM(self.ctx, self.module)

    def make(self, m, kind, v):
        if kind == "s":
            v = v if isinstance(v, SV) else SV(v, True)
        else:
            v = v if isinstance(v, PV) else PV(v)
        if self.module == TR:
            return Reg({"s": "sc", "p": "pt"}[kind], v)
        o = Obj(classinfo(self.ctx, PY, "EdScalar" if kind == "s" else "EdPoint"))
        o.d["v"] = v
        return o

    def read(self, m, x):
        if isinstance(x, Obj) and "v" in x.d:
            v = x.d["v"]
            if x.ci.node.name == "EdScalar":
                return m.num(v)
            return m.pv(v)
        if isinstance(x, Reg):
            return x.v
        if isinstance(x, (BS, View, bytes)):
            return tuple(m.toks(x))
        return x

    def get(self, m, n):
        f = m.module_name(m.mod, n)
        return f

    def run(self, n, args, kw=None, m=None):
        """(result, None) or (None, exception)"""
        m = m or self.machine()
        f = self.get(m, n)
        try:
            r = m.call(f, args, kw or {})
            e = None
        except Raised as x:
            r, e = None, x.exc
        self.ctx.funcs |= m.funcs
        return r, e

    def where(self, n):
        return "%s:%s" % (self.module, n)


def classinfo(ctx, mod, name):
    r = ctx.repo.resolve(mod, name)
    if r is None or r[0] != "class":
        raise Broken("class %s of %s" % (name, mod))
    return r[1]


def good(v, want):
    """the register holds the value, reduced or on the curve"""
    if isinstance(want, Poly):
        return isinstance(v, SV) and v.p == want and (v.red or not want.syms())
    if isinstance(want, Pt):
        return isinstance(v, PV) and v.p == want
    return v == want


def exported(ctx, b, n):
    r = ctx.repo.resolve(b.module, n)
    if r is None or r[0] not in ("func", "assign"):
        return None
    return r


def late(ctx, f, *args, **kw):
    """evaluate one operation; one that cannot be analysed does not keep the others from being judged"""
    try:
        return f(*args, **kw)
    except Broken as e:
        ctx.late.append(str(e))


def symbols(kinds):
    return [sym("s%d" % i) if k == "s" else Pt.sym("P%d" % i) for i, k in enumerate(kinds)]


def operations(ctx, b):
    for n, o in sorted(ops().items()):
        late(ctx, operation, ctx, b, n, o)
    late(ctx, twice, ctx, b)


def operation(ctx, b, n, o):
    kinds, f = o["kinds"], o["f"]
    vs = symbols(kinds)
    want = f(*vs)
    if exported(ctx, b, n) is None:
        ctx.check("function", "%s: %s" % (b.name, n), False, "the %s backend does not export %s" % (b.name, n), b.module)
        return
    m = b.machine()
    args = [b.make(m, k, v) for k, v in zip(kinds, vs)]
    r, e = b.run(n, args, m=m)
    v = b.read(m, r)
    ctx.check("function", "%s: %s" % (b.name, n), e is None and good(v, want), "%s gives %s, not %r" % (n, e.n if e else repr(v), want), b.where(n))
    ctx.check("operands", "%s: %s" % (b.name, n), e is not None or all(good(b.read(m, a), x) for a, x in zip(args, vs)), "%s changes one of its operands" % n, b.where(n))
    if o["fresh"] and e is None:
        clobber(b, r)
        r2, e2 = b.run(n, [b.make(m, k, v) for k, v in zip(kinds, vs)], m=m)
        ctx.check("independent", "%s: %s" % (b.name, n), e2 is None and good(b.read(m, r2), want) and all(good(b.read(m, a), x) for a, x in zip(args, vs)),
                  "a result of %s shares its storage with an operand or with the next result" % n, b.where(n))
    if not o["into"]:
        return
    n = n + "_into"
    kind = "s" if isinstance(want, Poly) else "p"
    targets = ["new", "none"] + [i for i, k in enumerate(kinds) if k == kind]
    if exported(ctx, b, n) is None:
        ctx.check("in place", "%s: %s" % (b.name, n), False, "the %s backend does not export %s" % (b.name, n), b.module)
        return
    for t in targets:
        m = b.machine()
        args = [b.make(m, k, v) for k, v in zip(kinds, vs)]
        r = b.make(m, kind, sym("old") if kind == "s" else Pt.sym("old")) if t == "new" else None if t == "none" else args[t]
        res, e = b.run(n, [r] + args, m=m)
        v = b.read(m, res)
        desc = {"new": "a register of its own", "none": "no target"}.get(t, "the operand %s as target" % t)
        ctx.check("in place", "%s: %s, %s" % (b.name, n, desc), e is None and good(v, want), "%s with %s returns %s, not %r" % (n, desc, e.n if e else repr(v), want), b.where(n))
        if t != "none":
            ctx.check("in place", "%s: %s stores, %s" % (b.name, n, desc), e is not None or good(b.read(m, r), want), "%s with %s leaves %r in the target" % (n, desc, b.read(m, r)), b.where(n))
        ctx.check("operands", "%s: %s, %s" % (b.name, n, desc), e is not None or all(good(b.read(m, a), x) for i, (a, x) in enumerate(zip(args, vs)) if i != t),
                  "%s changes one of its operands" % n, b.where(n))


def twice(ctx, b):
    """two operands that are one register"""
    for n, kinds, f in (("sc_mul", "ss", lambda a, _: a * a), ("sc_add", "ss", lambda a, _: a + a), ("sc_sub", "ss", lambda a, _: num(0)), ("point_add", "pp", lambda p, _: p + p),
                        ("point_sub", "pp", lambda p, _: Pt())):
        for into in (False, True):
            m = b.machine()
            x = symbols(kinds)[0]
            a = b.make(m, kinds[0], x)
            nm = n + ("_into" if into else "")
            r, e = b.run(nm, ([a] if into else []) + [a, a], m=m)
            ctx.check("function", "%s: %s of one register twice" % (b.name, nm), e is None and good(b.read(m, r), f(x, x)), "%s of a register with itself gives %s" % (nm, e.n if e else repr(b.read(m, r))), b.where(nm))


def clobber(b, r):
    if isinstance(r, Reg):
        r.v = SV(sym("clobbered"), True) if r.kind == "sc" else PV(Pt.sym("clobbered"))
    elif isinstance(r, Obj):
        r.d["v"] = SV(sym("clobbered"), True) if r.ci.node.name == "EdScalar" else PV(Pt.sym("clobbered"))


def key(name, n=32):
    return [(name, i) for i in range(n)]


def codecs(ctx, b):
    def case(*a, **k):
        late(ctx, case1, *a, **k)

    def case1(rule, n, args, want, what, msg=None, kw=None, target=None):
        m = b.machine()
        a = args(m)
        r, e = b.run(n, a, kw, m)
        v = b.read(m, r)
        if want == "error":
            ctx.check(rule, "%s: %s, %s" % (b.name, n, what), e is not None, "%s accepts %s" % (n, what), b.where(n))
            return
        w = want(m) if callable(want) else want
        ok = e is None and (good(v, w) if isinstance(w, (Poly, Pt)) else (v == w or isinstance(w, tuple) and isinstance(v, tuple) and v == w))
        ctx.check(rule, "%s: %s, %s" % (b.name, n, what), ok, "%s of %s gives %s, not %r" % (n, what, e.n if e else repr(v)[:80], w if not isinstance(w, tuple) else show(w)), b.where(n))
        if target is not None and e is None:
            t = b.read(m, a[target])
            ctx.check(rule, "%s: %s stores, %s" % (b.name, n, what), good(t, w) if isinstance(w, (Poly, Pt)) else t == w, "%s of %s leaves %s in its target" % (n, what, repr(t)[:80]), b.where(n))

    S, P, OLD = sym("s"), Pt.sym("P"), sym("old")
    sc = lambda m, v=S: b.make(m, "s", v)
    pt = lambda m, v=P: b.make(m, "p", v)
    enc = lambda v: (lambda m: tuple(m.enc(v)))
    eS, eP = enc(SV(S, True)), enc(PV(P))
    # encoding
    case("codec", "encodeint", lambda m: [sc(m)], eS, "a scalar")
    case("codec", "encodepoint", lambda m: [pt(m)], eP, "a point")
    for n, mk, e in (("encodeint_into", sc, eS), ("encodepoint_into", pt, eP)):
        for off in (0, 16, 32):
            case("codec", n, lambda m: [BS(key("buffer", 80), True), mk(m)] + ([off] if off else []),
                 lambda m: tuple(key("buffer", 80)[:off] + list(e(m)) + key("buffer", 80)[off + 32:]), "offset %d" % off, target=0)
    # decoding
    for into in ("", "_into"):
        for off, extra in ((0, 0), (0, 8), (32, 0), (5, 16)):
            for mut in (False, True):
                buf = lambda m, t: BS(key("head", off) + t + key("tail", extra), mut)
                pre = lambda m, mk, v: ([mk(m, v)] if into else [])
                what = "%s at offset %d of %d bytes" % ("writable key" if mut else "key", off, off + 32 + extra)
                case("codec", "decodeint" + into, lambda m: pre(m, sc, OLD) + [buf(m, key("K"))] + ([off] if off else []), sym("K"), what, target=0 if into else None)
                case("codec", "decodeint" + into, lambda m: pre(m, sc, OLD) + [buf(m, list(eS(m)))] + ([off] if off else []), S, "encoded scalar, " + what, target=0 if into else None)
                case("codec", "decodepoint" + into, lambda m: pre(m, pt, Pt.sym("old")) + [buf(m, key("K"))] + ([off] if off else []), Pt.sym("K"), what, target=0 if into else None)
                case("codec", "decodepoint" + into, lambda m: pre(m, pt, Pt.sym("old")) + [buf(m, list(eP(m)))] + ([off] if off else []), P, "encoded point, " + what, target=0 if into else None)
        for n in (0, 1, 31):
            for nm, mk in (("decodeint", sc), ("decodepoint", pt)):
                case("codec", nm + into, lambda m: ([mk(m)] if into else []) + [BS(key("K", n))], "error", "a key of %d bytes" % n)
                case("codec", nm + into, lambda m: ([mk(m)] if into else []) + [BS(key("K", 40 + n)), 40], "error", "a key of %d bytes at an offset" % n)
        if into:
            case("codec", "decodeint_into", lambda m: [None, BS(key("K"))], sym("K"), "a key, no target")
            case("codec", "decodepoint_into", lambda m: [None, BS(key("K"))], Pt.sym("K"), "a key, no target")
            case("codec", "decodeint_into_noreduce", lambda m: [None, BS(key("K"))], SV(sym("K")), "a key, no target")
            case("codec", "decodeint_into_noreduce", lambda m: [sc(m, OLD), BS(key("K"))], SV(sym("K")), "a key", target=0)
            case("codec", "decodeint_into_noreduce", lambda m: [sc(m, OLD), BS(key("K", 31))], "error", "a key of 31 bytes")
    case("codec", "identity", lambda m: [True], enc(PV(Pt())), "encoded")
    # integers
    for v in (0, 1, 8, 12345, (1 << 63), (1 << 64) - 1):
        case("integers", "sc_init", lambda m: [v], num(v), "%d" % v)
        case("integers", "sc_init_into", lambda m: [sc(m, OLD), v], num(v), "%d" % v, target=0)
        case("integers", "sc_init_into", lambda m: [None, v], num(v), "%d, no target" % v)
        case("integers", "sc_get64", lambda m: [sc(m, num(v))], lambda m: v, "%d" % v) if b.module == TR else case("integers", "sc_get64", lambda m: [sc(m, num(v))], SV(num(v), True), "%d" % v)
        case("integers", "scalarmult_h", lambda m: [v], Pt({"H": num(v)}) if v else Pt(), "%d" % v)
        case("integers", "gen_c", lambda m: [sc(m), v], Pt({"G": S}) + Pt.sym("H").mul(num(v)), "amount %d" % v)
    for v in (-1, -(1 << 64), 1 << 64, (1 << 64) + 5, ORDER):
        case("integers", "sc_init", lambda m: [v], "error", "%d" % v)
        case("integers", "sc_init_into", lambda m: [sc(m, OLD), v], "error", "%d" % v)
    for v in (1 << 64, (1 << 64) + 1, ORDER - 1):
        case("integers", "sc_get64", lambda m: [sc(m, num(v))], "error", "%d" % v)
    case("function", "sc_copy", lambda m: [None, sc(m)], S, "a scalar, no target")
    case("function", "sc_copy", lambda m: [sc(m, OLD), sc(m)], S, "a scalar", target=0)
    # comparisons
    for n, mk, x, y in (("sc_eq", sc, S, sym("t")), ("point_eq", pt, P, Pt.sym("Q"))):
        for same in (True, False):
            m = b.machine()
            r, e = b.run(n, [mk(m, x), mk(m, x if same else y)], m=m)
            ctx.check("function", "%s: %s, %s" % (b.name, n, "equal" if same else "different"), e is None and bool(r) is same, "%s of %s values gives %r" % (n, "equal" if same else "different", r), b.where(n))
    for v, w in ((num(0), False), (num(1), True), (S, True)):
        m = b.machine()
        r, e = b.run("sc_isnonzero", [sc(m, v)], m=m)
        ctx.check("function", "%s: sc_isnonzero of %r" % (b.name, v), e is None and bool(r) is w, "sc_isnonzero of %r gives %r" % (v, r), b.where("sc_isnonzero"))
    # hashes
    hs = lambda m, t: m.scalar(m.hash(t), True).p
    for mut in (False, True):
        d = lambda: BS(key("data", 40), mut)
        nm = "writable data" if mut else "data"
        for n in ("keccak_hash", "cn_fast_hash"):
            case("hashes", n, lambda m: [d()], lambda m: tuple(m.hash(key("data", 40))), nm)
        case("hashes", "keccak_2hash", lambda m: [d()], lambda m: tuple(m.hash(m.hash(key("data", 40)))), nm)
        for size in (None, 1, 24, 40, 99):
            kw = {} if size is None else {"size": size}
            case("hashes", "keccak_hash", lambda m: [d()], lambda m: tuple(m.hash(key("data", 40)[:size])), "%s, size %s" % (nm, size), kw=kw)
            case("hashes", "keccak_hash_into", lambda m: [BS(key("buffer"), True), d()], lambda m: tuple(m.hash(key("data", 40)[:size])), "%s, size %s" % (nm, size), kw=kw, target=0)
            kw = {} if size is None else {"length": size}
            case("hashes", "hash_to_scalar", lambda m: [d()], lambda m: hs(m, key("data", 40)[:size]), "%s, length %s" % (nm, size), kw=kw)
            for t in (False, True):
                case("hashes", "hash_to_scalar_into", lambda m: [sc(m, OLD) if t else None, d()], lambda m: hs(m, key("data", 40)[:size]), "%s, length %s%s" % (nm, size, "" if t else ", no target"), kw=kw, target=0 if t else None)
        if b.module == TR:
            hp = lambda m: Pt.sym(intern(("hash to point", tuple(key("data", 40)))))
            case("hashes", "hash_to_point", lambda m: [d()], hp, nm)
            for t in (False, True):
                case("hashes", "hash_to_point_into", lambda m: [pt(m, Pt.sym("old")) if t else None, d()], hp, nm + ("" if t else ", no target"), target=0 if t else None)
        else:
            m = b.machine()
            m.natives[(PY, "hash_to_point")] = Nat(lambda x: b.make(m, "p", Pt.sym(intern(("hash to point", tuple(m.toks(x)))))))
            for t in (False, True):
                r = pt(m, Pt.sym("old")) if t else None
                res, e = b.run("hash_to_point_into", [r, d()], m=m)
                w = Pt.sym(intern(("hash to point", tuple(key("data", 40)))))
                ctx.check("hashes", "%s: hash_to_point_into, %s%s" % (b.name, nm, "" if t else ", no target"), e is None and good(b.read(m, res), w) and (not t or good(b.read(m, r), w)),
                          "hash_to_point_into does not store the point of the buffer", b.where("hash_to_point_into"))
    # incremental hash
    m = b.machine()
    try:
        h = m.call(b.get(m, "get_keccak"), [BS(key("a", 3))])
        m.call(m.getattr(h, "update"), [BS(key("b", 5), True)])
        r1 = tuple(m.toks(m.call(m.getattr(h, "digest"), [])))
    except Raised as e:
        r1 = e.exc.n
    ctx.funcs |= m.funcs
    ctx.check("hashes", "%s: incremental hash" % b.name, r1 == tuple(m.hash(key("a", 3) + key("b", 5))), "the incremental hash does not cover what was added", b.where("get_keccak"))
    case("hashes", "compute_hmac", lambda m: [BS(key("k")), BS(key("msg", 9))], lambda m: tuple(tok(("hmac", tuple(key("k")), tuple(key("msg", 9)), "get_keccak"))), "key and message")
    m = b.machine()
    r, e = b.run("get_hmac", [BS(key("k")), BS(key("msg", 9))], m=m)
    ctx.check("hashes", "%s: get_hmac" % b.name, isinstance(r, Mac) and r.args == (tuple(key("k")), tuple(key("msg", 9)), "get_keccak"), "get_hmac gives %r" % (r,), b.where("get_hmac"))
    case("hashes", "pbkdf2", lambda m: [BS(key("pass", 6)), BS(key("salt", 8)), 48, 77],
         lambda m: tuple(tok(("pbkdf2", tuple(key("pass", 6)), tuple(key("salt", 8)), 77, tuple(tok(("hmac", (("p", 0),), (("s", 0),), "hashlib.sha256")))), 48)), "a password")
    # keys
    idx = Num64("index")
    dts = lambda m: hs(m, m.enc(PV(P)) + [(intern(("varint", repr(idx))), 0)])
    case("keys", "derivation_to_scalar", lambda m: [pt(m), idx], dts, "a derivation")
    case("keys", "derive_public_key", lambda m: [pt(m), idx, pt(m, Pt.sym("B"))], lambda m: Pt.sym("B") + Pt.sym("G").mul(dts(m)), "a derivation")
    case("keys", "derive_secret_key", lambda m: [pt(m), idx, sc(m, sym("b"))], lambda m: sym("b") + dts(m), "a derivation")
    case("keys", "get_subaddress_secret_key", lambda m: [sc(m), Num64("major"), Num64("minor")], lambda m: hs(m, SUB(m, SV(S, True), Num64("major"), Num64("minor"))), "a subaddress")
    for n in (1, 8, 32, 65):
        m = b.machine()
        rs = [b.run("random_bytes", [n], m=m) for _ in range(2)]
        v = [b.read(m, r) for r, _ in rs]
        ctx.check("random", "%s: random_bytes %d" % (b.name, n), all(isinstance(x, tuple) and len(x) == n and all(isinstance(y, tuple) and y[0].startswith("random#") for y in x) for x in v) and v[0] != v[1],
                  "random_bytes(%d) gives %s" % (n, [show(x) if isinstance(x, tuple) else x for x in v]), b.where("random_bytes"))
    m = b.machine()
    old = sc(m, OLD)
    rs = [b.read(m, b.run("random_scalar", [], m=m)[0]) for _ in range(2)] + [b.read(m, b.run("random_scalar_into", [x], m=m)[0]) for x in (None, old)]
    ok = all(isinstance(x, SV) and x.red and len(x.p.syms()) == 1 and next(iter(x.p.syms())).startswith("draw") and x.p == sym(next(iter(x.p.syms()))) for x in rs)
    ctx.check("random", "%s: random_scalar" % b.name, ok and len({x.p for x in rs}) == 4 and b.read(m, old) == rs[3], "random scalars are %s" % rs, b.where("random_scalar"))


def refusals(ctx, b):
    S, P = sym("s"), Pt.sym("P")
    off = PV(P, False)
    bad = {"zero": SV(num(0), True), "not reduced": SV(S, False)}
    idx = Num64("index")

    def refused(*a):
        late(ctx, refused1, *a)

    def accepted(*a):
        late(ctx, accepted1, *a)

    def refused1(n, args, what):
        m = b.machine()
        r, e = b.run(n, args(m), m=m)
        if n in ("sc_check", "ge_frombytes_vartime_check"):
            ok = e is not None or isinstance(r, (int, bool)) and r != 0
        else:
            ok = e is not None
        ctx.check("refusal", "%s: %s, %s" % (b.name, n, what), ok, "%s accepts %s" % (n, what), b.where(n))

    def accepted1(n, args, what):
        m = b.machine()
        r, e = b.run(n, args(m), m=m)
        ctx.check("refusal", "%s: %s, %s" % (b.name, n, what), e is None and (n not in ("sc_check", "ge_frombytes_vartime_check") or not r), "%s refuses %s" % (n, what), b.where(n))
    for w, v in bad.items():
        refused("sc_check", lambda m: [b.make(m, "s", v)], "a scalar that is " + w)
        refused("check_sc", lambda m: [b.make(m, "s", v)], "a scalar that is " + w)
        refused("generate_key_derivation", lambda m: [b.make(m, "p", P), b.make(m, "s", v)], "a secret key that is " + w)
        refused("derive_secret_key", lambda m: [b.make(m, "p", P), idx, b.make(m, "s", v)], "a base that is " + w)
    accepted("sc_check", lambda m: [b.make(m, "s", S)], "a valid scalar")
    accepted("check_sc", lambda m: [b.make(m, "s", S)], "a valid scalar")
    accepted("check_ed25519point", lambda m: [b.make(m, "p", P)], "a valid point")
    accepted("ge_frombytes_vartime_check", lambda m: [b.make(m, "p", P)], "a valid point")
    w = "a point off the curve"
    refused("check_ed25519point", lambda m: [b.make(m, "p", off)], w)
    refused("ge_frombytes_vartime_check", lambda m: [b.make(m, "p", off)], w)
    refused("ge_frombytes_vartime", lambda m: [b.make(m, "p", off)], w)
    refused("generate_key_derivation", lambda m: [b.make(m, "p", off), b.make(m, "s", S)], w)
    refused("derivation_to_scalar", lambda m: [b.make(m, "p", off), idx], w)
    refused("derive_public_key", lambda m: [b.make(m, "p", PV(Pt.sym("D"))), idx, b.make(m, "p", off)], w)


CR = "monero_glue.xmr.crypto"


def facade(ctx, b):
    """what the rest of the code builds directly on a backend"""
    back = ctx.repo.modules[b.module]

    def machine():
        m = b.machine()
        m.mod = ctx.repo.modules[CR]
        for st in back.tree.body:
            for n in ([st.name] if isinstance(st, ast.FunctionDef) else [t.id for t in st.targets if isinstance(t, ast.Name)] if isinstance(st, ast.Assign) else []):
                if ctx.repo.resolve(CR, n) is not None and n not in m.mod_names():
                    m.natives[(CR, n)] = Lazy(m, back, n)
        return m

    S, x = sym("s"), sym("x")
    G = Pt.sym("G")
    mk = lambda m, v=S: b.make(m, "s", v)
    m = machine()
    r, e = b.run("public_key", [mk(m)], m=m)
    ctx.check("facade", "%s: public_key" % b.name, e is None and b.read(m, r) == tuple(m.enc(PV(G.mul(S)))), "the public key of s is %r" % (e.n if e else b.read(m, r),), CR + ":public_key")
    m = machine()
    r, e = b.run("gen_Hpow", [5], m=m)
    got = [b.read(m, y) for y in r] if isinstance(r, list) else e
    ctx.check("facade", "%s: gen_Hpow" % b.name, isinstance(got, list) and len(got) == 5 and all(good(y, Pt({"H": num(1 << i)})) for i, y in enumerate(got)), "the powers of H are %s" % (got,), CR + ":gen_Hpow")
    m = machine()
    data = lambda nm="data": BS(key(nm, 20))
    r, e = b.run("generate_signature", [data(), mk(m)], m=m)
    v = [b.read(m, y) for y in r] if isinstance(r, tuple) and len(r) == 3 else None
    ok = v is not None and good(v[2], G.mul(S)) and isinstance(v[1], SV) and isinstance(v[0], SV)
    draws = [d for d in (v[1].p.syms() if ok else ()) if d.startswith("draw")]
    if ok and len(draws) == 1:
        comm = G.mul(sym(draws[0]))
        c = m.scalar(m.hash(key("data", 20) + m.enc(v[2]) + m.enc(PV(comm))), True).p
        ok = good(v[0], c) and good(v[1], sym(draws[0]) - c * S)
    ctx.check("facade", "%s: generate_signature" % b.name, ok and len(draws) == 1, "the signature is %s" % (e.n if e else v,), CR + ":generate_signature")

    def signed(m, s=S):
        k = sym("k")
        pub = G.mul(s)
        c = m.scalar(m.hash(key("data", 20) + m.enc(PV(pub)) + m.enc(PV(G.mul(k)))), True).p
        return c, k - c * s, pub
    for what, alter in (("a valid signature", None), ("other data", lambda d, c, r, p: (BS(key("other", 20)), c, r, p)), ("a changed challenge", lambda d, c, r, p: (d, c + num(1), r, p)),
                        ("a changed response", lambda d, c, r, p: (d, c, r + x, p)), ("another public key", lambda d, c, r, p: (d, c, r, p + Pt.sym("Q"))),
                        ("an unreduced challenge", lambda d, c, r, p: (d, SV(c, False), r, p)), ("an unreduced response", lambda d, c, r, p: (d, c, SV(r, False), p)),
                        ("a public key off the curve", lambda d, c, r, p: (d, c, r, PV(p, False)))):
        m = machine()
        a = (data(),) + signed(m)
        if alter:
            a = alter(*a)
        r, e = b.run("check_signature", [a[0], b.make(m, "s", a[1]), b.make(m, "s", a[2]), b.make(m, "p", a[3])], m=m)
        acc = e is None and m.truth(r)
        ctx.check("facade", "%s: check_signature, %s" % (b.name, what), acc == (alter is None), "%s is %s" % (what, "accepted" if acc else "refused"), CR + ":check_signature")


class Lazy(object):
    def __init__(self, m, mod, n):
        self.m, self.mod, self.n = m, mod, n


def interface(ctx):
    """public functions of the backends, and what the rest of the code uses of them"""
    def public(mod):
        out = {}
        for st in ctx.repo.modules[mod].tree.body:
            if isinstance(st, ast.FunctionDef) and not st.name.startswith("_"):
                out[st.name] = st
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Name) and st.value.id in out:
                out[st.targets[0].id] = out[st.value.id]
        return out
    fs = {m: public(m) for m in (PY, TR)}
    used = {}
    for mod in ctx.repo.modules.values():
        if mod.name.startswith("monero_glue.xmr.core") or "_test" in mod.name:
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "crypto":
                used.setdefault(n.attr, "%s:%d" % (mod.name, n.lineno))
    base = ctx.repo.modules["monero_glue.xmr.crypto"]
    for n, at in sorted(used.items()):
        if not any(n in fs[m] for m in fs) or n in ("memcpy",):
            continue
        if n == "prove_range":
            continue        # only the native backend announces range proofs of its own
        for m in fs:
            ctx.check("interface", "%s in %s" % (n, m), n in fs[m], "%s is used at %s but %s does not define it" % (n, at, m), at)
    for n in sorted(set(fs[PY]) & set(fs[TR])):
        a, b = fs[PY][n].args, fs[TR][n].args
        sig = lambda x: (len(x.posonlyargs + x.args), [ast.dump(d) for d in x.defaults], len(x.kwonlyargs), x.vararg is not None, x.kwarg is not None)
        ctx.check("interface", "parameters of %s" % n, sig(a) == sig(b), "%s takes other parameters in the two backends" % n, TR + ":" + n)
    for m in fs:
        ok = "get_backend" in fs[m]
        ctx.check("interface", "get_backend of %s" % m, ok, "%s does not announce its features" % m, m)


def selection(ctx):
    EC, PK = "monero_glue.xmr.core.ec", "monero_glue.xmr.core.ec_picker"

    class Sel(CM):
        def s_ImportFrom(self, s, env):
            m = env.fn.module.abs_mod(s.level, s.module) if s.level else s.module
            if m in (PY, TR):
                self.got.append(m)
                if m in self.broken:
                    raise Raised(Exc("ImportError"), self.where)
                return
            return CM.s_ImportFrom(self, s, env)

        def s_ClassDef(self, s, env):
            pass

    def load(env, broken=()):
        m = Sel(ctx, EC)
        m.env, m.broken, m.got = env, broken, []
        mod = ctx.repo.modules[EC]
        e = Env(Fn(mod, None, None, None, "<module>"))
        try:
            m.block(mod.tree.body, e)
            x = None
        except Raised as r:
            x = r.exc
        ctx.funcs |= m.funcs
        return [g for g in m.got if g not in broken], x
    for env, broken, want in (({"EC_BACKEND": "0"}, (), [PY]), ({"EC_BACKEND": "1"}, (), [TR]), ({"EC_BACKEND": "0"}, (TR,), [PY]), ({"EC_BACKEND": "1"}, (TR,), [PY]),
                              ({"EC_BACKEND": "1", "EC_BACKEND_FORCE": "0"}, (TR,), [PY]), ({"EC_BACKEND": "1", "EC_BACKEND_FORCE": "1"}, (), [TR]),
                              ({"EC_BACKEND": "1", "EC_BACKEND_FORCE": "1"}, (TR,), None), ({"EC_BACKEND": "0", "EC_BACKEND_FORCE": "1"}, (TR,), [PY]),
                              ({"EC_BACKEND": "2"}, (), None), ({"EC_BACKEND": "-1"}, (), None)):
        got, x = load(env, broken)
        desc = ", ".join("%s=%s" % kv for kv in sorted(env.items())) + (" without the native library" if broken else "")
        ctx.check("selection", desc, (x is not None) if want is None else (x is None and got == want), "with %s the backend is %s" % (desc, x.n if x else got), EC)


def run(ctx):
    ctx.rule("function", "every operation of a backend gives the published function of its operands, reduced")
    ctx.rule("in place", "the in-place variant stores and returns what the value-returning one returns, with a target of its own, none, or one of the operands")
    ctx.rule("operands", "no operation changes an operand other than its target")
    ctx.rule("independent", "changing a result changes neither the operands nor later results")
    ctx.rule("codec", "decoding reads the 32 bytes at the offset, reduced, and refuses shorter input; encoding writes 32 bytes at the offset")
    ctx.rule("integers", "integers of 64 bits become the scalar they denote and back, others are refused")
    ctx.rule("hashes", "hashes cover exactly the prefix asked for; both backends hash alike")
    ctx.rule("keys", "one-time and subaddress keys are derived by the published formulas")
    ctx.rule("random", "random scalars and bytes come from fresh draws, wide enough to be uniform after the reduction")
    ctx.rule("refusal", "invalid scalars and points are refused by the checks and by the key derivations")
    ctx.rule("facade", "public keys, powers of H and signatures built on a backend are the published ones; a signature is accepted only for its data, key and reduced scalars")
    ctx.rule("interface", "both backends define what the code uses, with the same parameters")
    ctx.rule("selection", "the configured backend is the one used")
    ctx.late = []
    for mod in (PY, TR):
        b = Backend(ctx, mod)
        operations(ctx, b)
        late(ctx, codecs, ctx, b)
        refusals(ctx, b)
        late(ctx, facade, ctx, b)
    interface(ctx)
    late(ctx, selection, ctx)
    if ctx.late:
        raise Broken("; ".join(sorted(set(ctx.late))[:3]))
    ctx.floor("function", 60)
    ctx.floor("in place", 90)
    ctx.floor("codec", 100)
    ctx.floor("refusal", 30)
    ctx.floor("interface", 80)
