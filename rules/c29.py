"""C29: keys are derived from a master seed as BIP-32 and SLIP-10 define, along every path.

Seeds, keys and HMAC results are symbols; private exponents are linear forms modulo the order of the curve, the words of an entropy phrase are vectors of symbolic bits. Every derivation is compared
with the published one, written here.
"""
import itertools
import re

from absint import Exc, Nat, Obj, Opq, Raised, Sup
from ctx import Broken
from rules.c15 import BS, TR, Backend, tok
from rules.c16 import Rec
from rules.c28 import WM, Case as PhraseCase, Lin, RANGE, atom, bounds, floor, lin, rest

B32, KEYS, UT, DER = "monero_glue.misc.bip.bip32", "monero_glue.misc.bip.keys", "monero_glue.misc.bip.utils", "monero_glue.misc.bip.bip39_deriv"
ORDER = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
HARD = 0x80000000


# a comparison as "at least the limit": (the outcome that says so, what to add to the limit)
LIMIT = {"GtE": (True, 0), "Gt": (True, 1), "Lt": (False, 0), "LtE": (False, 1)}
MIRROR = {"GtE": "LtE", "LtE": "GtE", "Gt": "Lt", "Lt": "Gt"}


class BV(object):
    """vector of bits, least significant first: 0, 1 or a symbol"""
    __slots__ = ("b",)

    def __init__(self, b):
        b = list(b)
        while b and b[-1] == 0:
            b.pop()
        self.b = tuple(b)

    def __eq__(self, o):
        return isinstance(o, BV) and self.b == o.b

    def __hash__(self):
        return hash(self.b)


def bits(x):
    if isinstance(x, BV):
        return list(x.b)
    if isinstance(x, bool) or not isinstance(x, int) or x < 0:
        raise Broken("no bits: %r" % (x,))
    return [x >> i & 1 for i in range(x.bit_length())]


def byte_bits(t):
    return bits(t) if isinstance(t, int) else [("bit", t, i) for i in range(8)]


def unbit(b):
    """a byte out of its bits"""
    b = list(b)
    b += [0] * (8 - len(b))
    if len(b) > 8:
        return None
    if all(isinstance(x, int) for x in b):
        return sum(x << i for i, x in enumerate(b))
    if all(isinstance(x, tuple) and x[:2] == ("bit", b[0][1]) and x[2] == i for i, x in enumerate(b)):
        return b[0][1]
    return ("bits", tuple(b))


class HD(WM):
    def __init__(self, ctx, b, parity=0):
        WM.__init__(self, ctx, b)
        self.parity, self.limits, self.in_raise = parity, [], False
        N = self.natives
        for k in ((B32, "Wallet"), (DER, "mnemonics_to_seed")):
            N.pop(k, None)
        self.curve = Rec("curve", order=ORDER, generator=self.point_of(Lin(c=1)))
        six = Rec("six", integer_types=("int",), string_types=("str",), binary_type=("bytes",), PY3=True, PY2=False)
        kdf = Nat(self.kdf)
        for mod in (B32, KEYS, UT, DER):
            N.update({(mod, "six"): six, (mod, "long"): Nat(self.number), (mod, "int"): Nat(self.toint), (mod, "hexlify"): Nat(self.hexlify), (mod, "unhexlify"): Nat(self.unhexlify),
                      (mod, "isinstance"): Nat(self.isinst), (mod, "is_hex_string"): Nat(self.is_hex), (mod, "hash160"): Nat(lambda x: BS(tok(("hash160", tuple(self.toks(x))), 20))),
                      (mod, "SECP256k1"): self.curve, (mod, "hmac"): Rec("hmac", new=Nat(self.hmac), HMAC=Nat(self.hmac), digest=Nat(lambda k, m, d: self.mac(k, m, d))),
                      (mod, "sha512"): "sha512", (mod, "sha256"): Nat(lambda x: Rec("sha256", digest=Nat(lambda: BS(self.sha256(x))))),
                      (mod, "hashlib"): Rec("hashlib", sha512="sha512", sha256=Nat(lambda x: Rec("sha256", digest=Nat(lambda: BS(self.sha256(x)))))),
                      (mod, "SigningKey"): Rec("SigningKey", from_secret_exponent=Nat(self.signing_key)), (mod, "INFINITY"): Rec("infinity"), (mod, "PBKDF2"): kdf,
                      (mod, "bytes"): Nat(self.tobytes), (mod, "bytearray"): Nat(self.tobytes), (mod, "super"): Nat(lambda c, o: Sup(o, c.ci)), (mod, "abs"): Nat(abs),
                      (mod, "VerifyingKey"): Opq("VerifyingKey"), (mod, "_ECDSA_Public_key"): Opq("ecdsa")})
        self.kdfs = []

    # ---------------------------------------------------------------- primitives
    def hmac(self, key=None, msg=None, digestmod=None):
        if msg is None:
            raise Broken("unfinished HMAC at " + self.where)
        return Rec("mac", digest=Nat(lambda: self.mac(key, msg, digestmod)))

    def mac(self, key, msg, alg):
        return BS(tok(("hmac", str(alg), tuple(self.toks(key)), tuple(self.toks(msg))), 64 if alg == "sha512" else 32))

    def sha256(self, x=b""):
        return tok(("sha256", tuple(self.toks(x))), 32)

    def kdf(self, password=None, salt=None, dkLen=16, count=1000, prf=None, hmac_hash_module=None):
        p = self.call(prf, [BS(tok("p", 8)), BS(tok("s", 8))]) if prf is not None else None
        self.kdfs.append((tuple(self.toks(password)), tuple(self.toks(salt)), dkLen, count, self.toks(p) if p is not None else None))
        return BS(tok(("kdf", self.kdfs[-1][:4]), dkLen))

    def signing_key(self, e, curve=None):
        e = lin(e)
        lo, hi = bounds(e)
        if hi < 1 or lo >= ORDER:
            raise Raised(Exc("AssertionError", "exponent"), self.where)
        point = self.point_of(e)
        return Rec("SigningKey", e=e, curve=curve, to_string=Nat(lambda: BS(self.rawkey(e))), privkey=Rec("privkey", secret_multiplier=e),
                   get_verifying_key=Nat(lambda: Rec("VerifyingKey", pubkey=Rec("pubkey", point=point))), verifying_key=Rec("VerifyingKey", pubkey=Rec("pubkey", point=point)))

    def rawkey(self, e):
        return self.unhexlify(BS(self.digits(e, 64))).t

    def point_of(self, e):
        k = e.key()
        x, y = atom(("x", k), 1 << 256), atom(("y", k), 1 << 255).scale(2).add(Lin(c=self.parity))
        return Rec("point", e=e, x=Nat(lambda: x), y=Nat(lambda: y))

    def digits(self, x, n):
        """n hexadecimal digits of a number"""
        x = lin(x)
        if not x.d:
            return list(("%0*x" % (n, x.c)).encode())
        if x.c == 0 and len(x.d) == 1:
            (k, v), = x.d.items()
            if v == 1 and isinstance(k, tuple) and k[0] == "int" and len(k[1]) <= n:
                return [48] * (n - len(k[1])) + list(k[1])
        return [("digit", x.key(), n, i) for i in range(n)]

    def number(self, x=0, base=10):
        if isinstance(x, BS) and x.t and base == 16:
            t = list(x.t)
            k = t[0]
            if isinstance(k, tuple) and k[0] == "digit" and t == [("digit", k[1], k[2], i) for i in range(k[2])]:
                return Lin(dict(k[1][0]), k[1][1])
            while t and t[0] == 48:
                t.pop(0)
            if t and not all(isinstance(y, int) for y in t):
                return atom(("int", tuple(t)), 16 ** len(t))
        if isinstance(x, BV):
            return x
        if isinstance(x, str):
            try:
                return int(x, base)
            except ValueError:
                raise Raised(Exc("ValueError", "number"), self.where)
        return WM.number(self, x, base)

    def toint(self, x=0, base=10):
        return x if isinstance(x, (int, BV)) else self.number(x, base)

    def hexlify(self, x):
        r = []
        for t in self.toks(x):
            if isinstance(t, int):
                r += list(("%02x" % t).encode())
            elif isinstance(t, tuple) and t[0] == "byte":
                r += list(t[1:])
            else:
                r += [("high", t), ("low", t)]
        return BS(r)

    def is_hex(self, x):
        t = self.toks(x)
        return bool(t) and not (isinstance(t[0], int) and chr(t[0]) not in "0123456789abcdefABCDEF")

    def isinst(self, x, t):
        ts = t if isinstance(t, tuple) else (t,)
        if isinstance(x, Lin):
            x = 0
        for k in ts:
            if isinstance(k, tuple):
                k = k[0] if k else None
            if k == "int" or isinstance(k, Nat) and k.n == "int" or isinstance(k, Nat) and k.f in (self.number, self.toint):
                r = isinstance(x, int) and not isinstance(x, bool)
            elif k == "str" or isinstance(k, Nat) and k.n == "str":
                r = isinstance(x, str)
            elif k == "bytes" or isinstance(k, Nat) and (k.n == "bytes" or k.f == self.tobytes):
                r = isinstance(x, (bytes, BS))
            else:
                r = self.b_isinstance(x, k)
            if r:
                return True
        return False

    def tobytes(self, x=b"", *a):
        if isinstance(x, (list, tuple)):
            r = []
            for y in x:
                y = unbit(bits(y)) if isinstance(y, (int, BV)) else y
                if y is None:
                    raise Raised(Exc("ValueError", "byte"), self.where)
                r.append(y)
            return BS(r)
        return BS(self.toks(x))

    def iterate(self, v):
        if isinstance(v, BS) and self.where.startswith(B32):
            return [y if isinstance(y, int) else BV(byte_bits(y)) for y in v.t]
        return WM.iterate(self, v)

    # ---------------------------------------------------------------- operations
    def getattr(self, o, a):
        if isinstance(o, (BS, bytes)) and a in ("startswith", "endswith"):
            def f(p):
                t, q = self.toks(o), self.toks(p)
                t = t[:len(q)] if a == "startswith" else t[len(t) - len(q):] if q else []
                if len(t) == len(q) and any(not isinstance(y, int) and isinstance(z, int) and z not in b"0123456789abcdef" for y, z in zip(t, q)):
                    return False
                if len(t) == len(q) and any(isinstance(y, int) != isinstance(z, int) for y, z in zip(t, q)):
                    raise Broken("comparison of unknown bytes at " + self.where)
                return t == q
            return Nat(f)
        if isinstance(o, str) and a == "format":
            def f(*x, **k):
                if len(x) == 1 and not k and isinstance(x[0], (int, Lin)) and o.startswith("{0:0") and o.endswith("x}") and o[4:-2].isdigit():
                    return BS(self.digits(x[0], int(o[4:-2])))
                if len(x) == 1 and not k and isinstance(x[0], Lin) and o in ("{0:x}", "{:x}"):
                    return BS(self.short(x[0]))
                if any(not isinstance(y, (str, int, bytes)) for y in list(x) + list(k.values())):
                    raise Broken("format %s at %s" % (o, self.where))
                return o.format(*x, **k)
            return Nat(f)
        if isinstance(o, BS) and a in ("lower", "encode", "decode"):
            return Nat(lambda *x: o)
        return WM.getattr(self, o, a)

    def cmp(self, op, a, b):
        if op in ("In", "NotIn") and isinstance(a, str) and isinstance(b, (str, tuple, list, set)):
            return (a in b) == (op == "In")
        if op in ("Eq", "NotEq") and isinstance(a, Obj) and isinstance(b, Obj):
            k = [x.d.get("_verifying_key") for x in (a, b)]
            if all(isinstance(x, Rec) for x in k):
                return (k[0].d["pubkey"].d["point"].d["e"] == k[1].d["pubkey"].d["point"].d["e"]) == (op == "Eq")
        if op in ("Eq", "NotEq") and any(isinstance(x, Rec) and x.kind == "infinity" for x in (a, b)):
            return op == "NotEq"
        if isinstance(a, Lin) != isinstance(b, Lin) and op in LIMIT:
            if isinstance(b, Lin):
                a, b, op = b, a, MIRROR[op]
            lo, hi = bounds(a)
            up, t = LIMIT[op]
            t += lin(b).c
            if a.d and lo < t <= hi:
                if len(self.taken) == len(self.choices):
                    self.choices.append(True)
                self.taken.append(self.choices[len(self.taken)])
                self.limits.append((t, self.taken[-1] == up))
                return self.taken[-1]
        return WM.cmp(self, op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, BV) or isinstance(b, BV):
            if op in ("LShift", "RShift") and isinstance(b, int):
                x = bits(a)
                return BV([0] * b + x if op == "LShift" else x[b:])
            if op in ("BitAnd", "BitOr", "Add", "BitXor"):
                x, y = bits(a), bits(b)
                n = max(len(x), len(y))
                x, y = x + [0] * (n - len(x)), y + [0] * (n - len(y))
                r = []
                for p, q in zip(x, y):
                    if op == "BitAnd":
                        v = 0 if p == 0 or q == 0 else p if q == 1 else q if p == 1 or p == q else None
                    else:
                        v = p if q == 0 else q if p == 0 else p if op == "BitOr" and (p == q or p == 1) else 1 if op == "BitOr" and q == 1 else None
                    if v is None:
                        raise Broken("mixed bits at " + self.where)
                    r.append(v)
                r = BV(r)
                return r if any(not isinstance(v, int) for v in r.b) else sum(v << i for i, v in enumerate(r.b))
            if op == "Mult" and isinstance(b, int) and b and b & (b - 1) == 0:
                return BV([0] * (b.bit_length() - 1) + bits(a))
            if op in ("FloorDiv", "Mod") and isinstance(b, int) and b and b & (b - 1) == 0:
                n = b.bit_length() - 1
                return BV(bits(a)[n:] if op == "FloorDiv" else bits(a)[:n])
            raise Broken("operation %s on bits at %s" % (op, self.where))
        if op == "Mod" and isinstance(a, (str, bytes)):
            f, x = a if isinstance(a, str) else a.decode(), b if isinstance(b, tuple) else (b,)
            r = self.formatted(f, list(x))
            if r is not None:
                return r
            if any(isinstance(y, (Lin, BS, BV)) for y in x):
                if self.in_raise:
                    return "text"
                raise Broken("format %s at %s" % (f, self.where))
            return f % b
        if isinstance(a, Lin) and op == "BitAnd" and isinstance(b, int) and b & (b + 1) == 0:
            return self.plain(rest(a, b + 1))
        if isinstance(a, Lin) and op == "Mod" and isinstance(b, int):
            return self.plain(rest(a, b))
        return WM.binop(self, op, a, b)

    def formatted(self, f, x):
        """a text of hexadecimal numbers some of which are symbols"""
        r, at, sym = [], 0, False
        for g in re.finditer(r"%(0?)(\*|\d*)x", f):
            r += list(f[at:g.start()].encode())
            at = g.end()
            n = (x.pop(0) if x else None) if g.group(2) == "*" else int(g.group(2) or 0)
            v = x.pop(0) if x else None
            if not isinstance(n, int) or isinstance(v, bool) or not isinstance(v, (int, Lin)):
                return None
            sym = sym or isinstance(v, Lin)
            r += self.digits(v, n) if g.group(1) and n else self.short(v)
        if not sym or x or "%" in f[at:]:
            return None
        return BS(r + list(f[at:].encode()))

    def short(self, x):
        """without leading zeros; followed for a number that has one"""
        if isinstance(x, int) or not x.d:
            return list(("%x" % lin(x).c).encode())
        n = (bounds(x)[1].bit_length() + 3) // 4 - 1
        return [("digit", x.key(), n, i) for i in range(n)]

    def plain(self, x):
        return x.c if isinstance(x, Lin) and not x.d else x

    def s_Raise(self, s, env):
        self.in_raise = True
        try:
            return WM.s_Raise(self, s, env)
        finally:
            self.in_raise = False

    def item(self, o, i):
        if isinstance(i, BV) and isinstance(o, (list, tuple)):
            if 1 << len(i.b) > len(o):
                raise Broken("an index may lie outside the list at " + self.where)
            return Rec("word", i=i)
        return WM.item(self, o, i)


class Case(PhraseCase):
    def __init__(self, ctx, b, what, fid, parity=0):
        self.ctx, self.b, self.what, self.fid = ctx, b, what, fid
        RANGE.clear()
        self.m = HD(ctx, b, parity)

    def master(self, ed, seed):
        m = self.m
        return m.call(m.getattr(m.cls(B32, "Wallet"), "from_master_secret"), [BS(seed)], {"use_ed25519": ed})

    def number(self, t):
        return self.m.number(self.m.hexlify(BS(t)), 16)

    def derive(self, ed, seed, steps):
        """the published derivation: (bytes of the key, chain code) for steps (index, hardened); None where there is none"""
        m = self.m
        I = m.mac(b"ed25519 seed" if ed else b"Bitcoin seed", BS(seed), "sha512").t
        k, c = I[:32], I[32:]
        for i, hard in steps:
            if hard:
                data = [0] + k
            elif ed:
                return None
            else:
                p = m.point_of(lin(self.number(k)))
                data = m.unhexlify(BS(m.digits(2 + m.parity, 2) + m.digits(p.d["x"].f(), 64))).t
            I = m.mac(BS(c), BS(data + list((i + HARD * hard).to_bytes(4, "big"))), "sha512").t
            k = I[:32] if ed else m.rawkey(rest(lin(self.number(I[:32])).add(lin(self.number(k))), ORDER))
            c = I[32:]
        return k, c

    def node(self, w):
        m = self.m
        key = m.call(m.getattr(m.getattr(w, "private_key"), "get_key"), [])
        return m.toks(m.unhexlify(key)), m.toks(m.unhexlify(m.getattr(w, "chain_code")))


def path_text(steps, mark="'"):
    return "/".join(["m"] + ["%d%s" % (i, mark if h else "") for i, h in steps])


def along(ed, steps, text=None):
    def f(c):
        m, seed = c.m, tok("seed", 64)
        w = c.master(ed, seed)
        want = c.derive(ed, seed, steps)
        try:
            r = m.call(m.getattr(w, "get_child_for_path"), [text or path_text(steps)])
        except Raised as e:
            # a part of the HMAC not below the order of the curve is refused in one of the two outcomes
            ok = want is None or any(o for _, o in m.limits)
            yield ("refused" if want is None else "derived"), "", ok, "the derivation ends with %s" % (e.args[0],)
            return
        if want is None:
            yield "refused", "", False, "a key is derived where SLIP-10 defines none"
            return
        k, cc = c.node(r)
        yield "derived", "key", k == want[0], "the key differs from the published derivation"
        yield "derived", "chain code", cc == want[1], "the chain code differs from the published derivation"
    return f


def refuse(ed, text):
    def f(c):
        w = c.master(ed, tok("seed", 64))
        try:
            c.m.call(c.m.getattr(w, "get_child_for_path"), [text])
        except Raised:
            yield "refused", "", True, ""
            return
        yield "refused", "", False, "a key is derived for a path that names none"
    return f


def large(c):
    """every private derivation looks whether the number derived lies below the order of the curve"""
    m = c.m
    w = c.master(False, tok("seed", 64))
    try:
        m.call(m.getattr(w, "get_child_for_path"), ["m/1'"])
    except Raised:
        yield "too large", "", m.limits[-1:] == [(ORDER, True)], "the derivation fails without looking at the number derived"
        return
    yield "too large", "", m.limits and m.limits[-1] == (ORDER, False), "a number outside the order of the curve is used as a key, or it is not looked at"


def words(n):
    def f(c):
        m = c.m
        seed = tok("entropy", n)
        w = m.call(m.getattr(m.cls(B32, "Wallet"), "from_master_secret"), [BS(seed)], {})
        ws, idx = m.call(m.getattr(w, "to_seed_words"), [])
        stream = [b for t in seed + m.sha256(BS(seed))[:1] for b in reversed((byte_bits(t) + [0] * 8)[:8])]
        k = n * 8 * 33 // 32 // 11
        want = [BV(reversed(stream[11 * i:11 * i + 11])) for i in range(k)]
        got = [BV(bits(x)) for x in idx]
        yield "words", "numbers", got == want, "the words of %d bytes of entropy are not its bits and those of its checksum in order" % n
        yield "words", "list", all(isinstance(x, Rec) and x.kind == "word" and x.d["i"] == y for x, y in zip(ws, want)) and len(ws) == k, "the words are not those of the list"
    return f


def unwords(n):
    def f(c):
        m = c.m
        idx = [BV([("bit", ("word", i), j) for j in range(11)]) for i in range(n)]
        r = m.toks(m.call(m.getattr(m.cls(B32, "Wallet"), "indices_to_bytes"), [list(idx)]))
        stream = [b for x in idx for b in reversed(x.b)]
        want = [unbit(reversed(stream[8 * i:8 * i + 8])) for i in range(len(stream) // 8)]
        yield "words", "bytes", r == want, "%d words do not give their bits in order" % n
    return f


def stretch(pw):
    def f(c):
        m = c.m
        r = m.fn(DER, "mnemonics_to_seed")("abandon ability", *([pw] if pw is not None else []))
        want = (tuple(b"abandon ability"), tuple(b"mnemonic" + (pw or b"")), 64, 2048)
        k = m.kdfs
        ok = len(k) == 1 and k[0][:4] == want and m.toks(r) == tok(("kdf", want), 64)
        ok = ok and k[0][4] == m.mac(BS(tok("p", 8)), BS(tok("s", 8)), "sha512").t
        yield "stretched", "", ok, "the seed is not PBKDF2 with HMAC-SHA512, 2048 rounds and the passphrase as salt"
    return f


# ------------------------------------------------------------ remembered results
class Call(object):
    def __init__(self):
        self.d = {}


class ME(HD):
    """a remembering function is driven with calls that differ in one argument each"""
    def getattr(self, o, a):
        if isinstance(o, Call):
            if a in o.d:
                return o.d[a]
            if a in ("__name__", "__qualname__"):
                return "f"
            raise Raised(Exc("AttributeError", a), self.where)
        return HD.getattr(self, o, a)

    def assign(self, t, v, env):
        import ast
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Call):
                o.d[t.attr] = v
                return
        return HD.assign(self, t, v, env)

    def call(self, f, args, kw=None):
        if isinstance(f, Call):
            self.calls += 1
            return ("result", tuple(args), tuple(sorted((kw or {}).items())))
        return HD.call(self, f, args, kw)


def remembered(ctx, b):
    m = ME(ctx, b)
    m.calls = 0
    f = Call()
    N = m.natives
    N[(UT, "wraps")] = Nat(lambda g, *a: Nat(lambda h: h))
    N[(UT, "hasattr")] = Nat(lambda o, a: a in o.d)
    N[(UT, "frozenset")] = Nat(lambda x=(): tuple(sorted(x, key=repr)))
    g = m.fn(UT, "memoize")(f)
    h = lambda *a, **k: m.call(g, list(a), k)
    shapes = [((s,) + a, k) for s in ("node one", "node two") for a in ((), (0,), (1,), (0, True), (0, False), (0, None)) for k in ({}, {"is_prime": True}, {"is_prime": False}, {"is_prime": None}, {"as_private": False}, {"as_private": True},
              {"is_prime": True, "as_private": False}, {"is_prime": False, "as_private": True})]
    bad = []
    for rnd in range(2):
        for a, k in shapes:
            try:
                r = h(*a, **k)
            except Raised as e:
                bad.append("call with %s %s ends with %s" % (a[1:], k, e.args[0]))
                continue
            if r != ("result", tuple(a), tuple(sorted(k.items()))):
                bad.append("a call with arguments %s %s is answered with the result of another call, %s" % (a[1:], k, r[1:] if isinstance(r, tuple) else r))
    ctx.check("remembered", "calls of a remembering function", not bad, bad[0] if bad else "", UT + ":memoize")
    ctx.funcs |= m.funcs


def run(ctx):
    ctx.rule("runs", "derivations end with a result")
    ctx.rule("derived", "the key and chain code at the end of a path are the published ones")
    ctx.rule("refused", "paths that name no key are refused")
    ctx.rule("too large", "a derived number outside the order of the curve is refused")
    ctx.rule("remembered", "a remembered result is returned only for the same arguments")
    ctx.rule("words", "entropy words carry the bits of the entropy and its checksum in order, both ways")
    ctx.rule("stretched", "a phrase is stretched to a seed as BIP-39 defines")
    b = Backend(ctx, TR)
    deep = ctx.tier == "thorough"
    W = B32 + ":Wallet."
    jobs = []
    idx = (0, 1, 255, 0x12345678, HARD - 1) if deep else (0, 1, HARD - 1)
    plans = [()] + [((i, h),) for i in idx for h in (True, False)]
    plans += list(itertools.product([(0, True), (0, False), (7, True), (7, False)], repeat=2)) + list(itertools.product([(44, True), (2, False)], repeat=3))
    plans.append(((44, True), (128, True), (0, True), (0, False), (0, False)))
    plans.append(((44, True), (128, True), (0, True)))
    if deep:
        plans += list(itertools.product([(44, True), (2, False)], repeat=4))
    for st in plans:
        for ed in (False, True):
            for par in ((0, 1) if not ed and any(not h for _, h in st) else (0,)):
                jobs.append(("%s %s%s" % ("SLIP-10" if ed else "BIP-32", path_text(st), ", odd key" if par else ""), W + "get_child", along(ed, st), par))
    for ed in (False, True):
        n = "SLIP-10" if ed else "BIP-32"
        jobs.append(("%s m/3p/4'" % n, W + "get_child_for_path", along(ed, ((3, True), (4, True)), "m/3p/4'"), 0))
        for t in ("", "m/x", "m/0'/", "m/%d" % HARD, "m/%d'" % HARD, "m/-1'", "m/1.5", "x/1'"):
            jobs.append(("%s %r" % (n, t), W + "get_child_for_path", refuse(ed, t), 0))
    jobs.append(("m/1', number derived against the order", W + "get_child", large, 0))
    for n in (16, 20, 24, 28, 32):
        jobs.append(("words of %d bytes" % n, W + "to_seed_words", words(n), 0))
    for n in (12, 15, 18, 21, 24) if not deep else range(1, 49):
        jobs.append(("bytes of %d words" % n, W + "indices_to_bytes", unwords(n), 0))
    for pw in (None, b"", b"TREZOR"):
        jobs.append(("phrase with passphrase %r" % (pw,), DER + ":mnemonics_to_seed", stretch(pw), 0))
    late = []
    for what, fid, f, par in jobs:
        choices, rounds = [], 0
        while choices is not None:
            c = Case(ctx, b, what, fid, par)
            c.m.choices = choices
            try:
                c.judge(f)
            except Broken as e:
                late.append(what + ": " + str(e))
                break
            while choices and not choices[-1]:
                choices.pop()
            choices = choices[:-1] + [False] if choices and len(choices) < 12 else None
    remembered(ctx, b)
    ctx.count("derivations", len(jobs))
    if late and not ctx.viol:
        raise Broken("; ".join(sorted(set(late))[:3]))
    ctx.floor("derived", 30)
    ctx.floor("words", 10)
