"""C28: a recovery phrase restores the seed it was made from; a mistyped one is refused.

Encoder and decoder are evaluated over symbolic seeds and words; numbers are linear forms with division by the size of the word list made explicit, so that encoding followed by
decoding is an identity of linear forms and not of samples.
"""
import hashlib

from absint import Exc, Nat, Obj, Opq, Poly, Pt, Raised, intern
from ctx import Broken
from rules.c15 import BS, TR, Backend, View, tok
from rules.c16 import G, Rec, num, sym
from rules.c27 import DV, Case as WalletCase, SD

MN = "monero_glue.xmr.core.mnemonic"
BASE = 1626


class Lin(object):
    """linear form over integers"""
    __slots__ = ("d", "c")

    def __init__(self, d=None, c=0):
        self.d, self.c = {k: v for k, v in (d or {}).items() if v}, c

    def key(self):
        return (tuple(sorted(self.d.items(), key=repr)), self.c)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "Lin%r" % (self.key(),)

    def add(self, o, f=1):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + f * v
        return Lin(d, self.c + f * o.c)

    def scale(self, f):
        return Lin({k: v * f for k, v in self.d.items()}, self.c * f)


def lin(x):
    return x if isinstance(x, Lin) else Lin(c=x)


# what is known about the range of an atom: 0 <= atom < RANGE
RANGE = {}


def atom(v, top):
    RANGE[v] = top
    return Lin({v: 1})


def rest(x, n):
    """x % n"""
    r = x.add(floor(x, n), -n)
    RANGE[r.key()] = n
    return r


def bounds(x):
    if x.key() in RANGE:
        return 0, RANGE[x.key()] - 1
    lo = hi = x.c
    for k, v in x.d.items():
        t = RANGE[k] - 1
        lo, hi = lo + min(0, v * t), hi + max(0, v * t)
    return lo, hi


def floor(x, n):
    """x // n, in normal form: multiples of n are taken out, what remains is an atom unless its value is known"""
    q = Lin({k: v // n for k, v in x.d.items() if v % n == 0}, x.c // n)
    r = Lin({k: v for k, v in x.d.items() if v % n}, x.c % n)
    # part by part: coefficients reduced into [0, n)
    q2 = Lin({k: v // n for k, v in r.d.items()})
    r = Lin({k: v % n for k, v in r.d.items()}, r.c)
    q = q.add(q2)
    lo, hi = bounds(r)
    if lo // n == hi // n:
        return q.add(Lin(c=lo // n))
    # nested division of one atom
    if len(r.d) == 1 and r.c == 0:
        (k, v), = r.d.items()
        if v == 1 and isinstance(k, tuple) and k[0] == "div":
            return q.add(div(k[1], k[2] * n))
        if v == 1:
            return q.add(div(k, n))
    return q.add(atom(("floor", r.key(), n), hi // n + 1))


def div(k, n):
    top = (RANGE[k] - 1) // n + 1
    return Lin() if top <= 1 else atom(("div", k, n), top)


class WM(DV):
    """words are strings of known length whose first three characters tell them apart"""
    def __init__(self, ctx, b, crc=0):
        DV.__init__(self, ctx, b)
        self.crc, self.summed, self.values = crc, [], {}
        self.choices, self.taken = [], []
        N = self.natives
        for mod in ctx.repo.modules:
            N.pop((mod, "ord"), None)
        for n in ("mn_encode", "mn_decode"):
            N.pop((MN, n), None)
        N[(MN, "int")] = Nat(self.number)
        N[(MN, "str")] = Nat(lambda x="": x)
        for n in ("hexlify", "unhexlify", "crc32"):
            N[(MN, n)] = Nat(getattr(self, n))
        N[(MN, "binascii")] = N[(SD, "binascii")] = Rec("binascii", hexlify=Nat(self.hexlify), unhexlify=Nat(self.unhexlify), crc32=Nat(self.crc32))

    def hexlify(self, x):
        return BS([y for t in self.toks(x) for y in (("high", t), ("low", t))])

    def unhexlify(self, x):
        t, r = self.toks(x), []
        if len(t) % 2:
            raise Raised(Exc("ValueError", "odd length"), self.where)
        for a, b in zip(t[::2], t[1::2]):
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "high" and b[0] == "low" and a[1] == b[1]:
                r.append(a[1])
            elif isinstance(a, int) and isinstance(b, int):
                r.append(int(chr(a) + chr(b), 16))
            else:
                r.append(("byte", a, b))
        return BS(r)

    def crc32(self, x):
        self.summed.append(tuple(self.toks(x)))
        return Rec("checksum", t=tuple(self.toks(x)))

    def number(self, x=0, base=10):
        if isinstance(x, BS):
            t = tuple(x.t)
            if all(isinstance(y, int) for y in t):
                return int(bytes(t), base)
            if base != 16:
                raise Broken("number of symbolic digits at " + self.where)
            return atom(("int", t), 16 ** len(t))
        if isinstance(x, Lin):
            return x
        return int(x, base) if isinstance(x, (str, bytes)) else int(x)

    def toks(self, x):
        return list(x.encode()) if isinstance(x, str) else DV.toks(self, x)

    # ---------------------------------------------------------------- words
    def word(self, i, tail=""):
        """the word of index i (a linear form); tail tells apart spellings that share the beginning"""
        if isinstance(i, int) or not i.d:
            return self.wordlist()[i if isinstance(i, int) else i.c]
        return BS([("letter", i.key(), k, "" if k < 3 else tail) for k in range(6)])

    def wordlist(self):
        return self.module_name(self.ctx.repo.modules[MN], "words")

    def word_index(self, x):
        if isinstance(x, str):
            if x in self.wordlist():
                return self.wordlist().index(x)
        elif isinstance(x, BS):
            t = x.t
            if len(t) == 6 and all(isinstance(y, tuple) and y[0] == "letter" and y[1:] == (t[0][1], k, "") for k, y in enumerate(t)):
                return Lin(dict(t[0][1][0]), t[0][1][1])
        raise Raised(Exc("ValueError", "not in list"), self.where)

    def item(self, o, i):
        if isinstance(i, Lin):
            if not i.d:
                i = i.c
            elif o is self.wordlist():
                lo, hi = bounds(i)
                if lo < 0 or hi >= len(o):
                    raise Raised(Exc("IndexError", "index %r" % (i,)), self.where)
                return self.word(i)
        return DV.item(self, o, i)

    def getattr(self, o, a):
        if isinstance(o, list) and a == "index" and o is self.wordlist():
            return Nat(self.word_index)
        if isinstance(o, list) and a == "pop":
            return Nat(lambda i=-1: o.pop(i))
        if isinstance(o, BS) and a in ("strip", "lower", "encode", "decode"):
            return Nat(lambda *x: o)
        if isinstance(o, BS) and a == "split":
            return Nat(lambda *x: [o])
        if isinstance(o, str) and a == "join":
            return Nat(lambda l: self.join(o, list(self.iterate(l))))
        return DV.getattr(self, o, a)

    def join(self, sep, l):
        if all(isinstance(x, str) for x in l):
            return sep.join(l)
        r = []
        for k, x in enumerate(l):
            r += (self.toks(sep) if k else []) + self.toks(x)
        return BS(r)

    def cmp(self, op, a, b):
        if isinstance(a, Lin) or isinstance(b, Lin):
            lo, hi = bounds(lin(a).add(lin(b), -1))
            r = {"Lt": (hi < 0, lo >= 0), "GtE": (lo >= 0, hi < 0), "LtE": (hi <= 0, lo > 0), "Gt": (lo > 0, hi <= 0), "Eq": (lo == hi == 0, lo > 0 or hi < 0), "NotEq": (lo > 0 or hi < 0, lo == hi == 0)}.get(op)
            if r is not None and not any(r) and len(a.d if isinstance(a, Lin) else b.d) == 1 and not (lin(a).d and lin(b).d):
                # a limit inside the range of a single unknown: either side is possible
                if len(self.taken) == len(self.choices):
                    self.choices.append(True)
                self.taken.append(self.choices[len(self.taken)])
                return self.taken[-1]
            if r is None or not any(r):
                raise Broken("undecided comparison %s at %s" % (op, self.where))
            return r[0]
        if op in ("Eq", "NotEq") and isinstance(a, (str, BS)) and isinstance(b, (str, BS)):
            return (self.toks(a) == self.toks(b)) == (op == "Eq")
        return DV.cmp(self, op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Rec) and a.kind == "checksum":
            if op == "BitAnd" and b == 0xFFFFFFFF:
                return a
            if op == "Mod" and isinstance(b, int):
                if not b:
                    raise Raised(Exc("ZeroDivisionError"), self.where)
                self.values.setdefault((a.d["t"], b), 1)
                return self.crc % b
        if isinstance(a, Rec) and a.kind == "checksum" or isinstance(b, Rec) and b.kind == "checksum":
            raise Broken("arithmetic on the checksum at " + self.where)
        if op == "Mod" and isinstance(a, (str, bytes)):
            x = b[0] if isinstance(b, tuple) else b
            fmt = a if isinstance(a, str) else a.decode()
            if isinstance(x, Lin) and x.d:
                if fmt != "%08x":
                    raise Broken("format %s at %s" % (fmt, self.where))
                if x.c == 0 and len(x.d) == 1:
                    (k, v), = x.d.items()
                    if v == 1 and k[0] == "int" and len(k[1]) == 8:
                        return BS(list(k[1]))
                return BS([("hex", x.key(), k) for k in range(8)])
            return fmt % (x.c if isinstance(x, Lin) else x)
        if isinstance(a, Lin) or isinstance(b, Lin):
            if op in ("Add", "Sub"):
                return lin(a).add(lin(b), 1 if op == "Add" else -1)
            if op == "Mult":
                x, y = lin(a), lin(b)
                if x.d and y.d:
                    raise Broken("product of symbols at " + self.where)
                return y.scale(x.c) if not x.d else x.scale(y.c)
            if op == "LShift" and isinstance(b, int):
                return a.scale(1 << b)
            if op in ("FloorDiv", "RShift", "Mod") and isinstance(b, int):
                n = 1 << b if op == "RShift" else b
                return rest(a, n) if op == "Mod" else floor(a, n)
            raise Broken("operation %s at %s" % (op, self.where))
        if op == "Add" and isinstance(a, (str, BS, bytes)) and isinstance(b, (str, BS, bytes)) and (isinstance(a, BS) or isinstance(b, BS)):
            return BS(self.toks(a) + self.toks(b))
        return DV.binop(self, op, a, b)


class Case(WalletCase):
    def __init__(self, ctx, b, what, fid, crc=0):
        self.ctx, self.b, self.what, self.fid = ctx, b, what, fid
        RANGE.clear()
        self.m = WM(ctx, b, crc)

    def restore(self, words):
        m = self.m
        o = m.call(m.getattr(m.cls(SD, "SeedDerivation"), "from_monero_mnemonics"), [words])
        return o

    def group(self, j):
        """a group of words of a seed: the words, the four bytes they stand for"""
        t = tuple(y for k in (3, 2, 1, 0) for y in (("high", ("seed", 4 * j + k)), ("low", ("seed", 4 * j + k))))
        x = atom(("int", t), 1 << 32)
        q = floor(x, BASE)
        w1 = rest(x, BASE)
        w2 = rest(q.add(w1), BASE)
        return [w1, w2, rest(floor(q, BASE).add(w2), BASE)]

    def phrase(self, groups):
        m = self.m
        return [m.word(w) for j in range(groups) for w in self.group(j)]

    def seed(self, n):
        return [("seed", k) for k in range(n)]

    def begin(self, words):
        return tuple(y for w in words for y in self.m.toks(w)[:3])


def encode(n):
    def f(c):
        m = c.m
        out = list(m.fn(MN, "mn_encode")(BS(c.seed(n)), True))
        want = c.phrase(n // 4)
        yield "phrase", "words", [m.toks(x) for x in out[:-1]] == [m.toks(x) for x in want], "the words are not the published ones for the seed"
        yield "phrase", "checksum", len(out) == len(want) + 1 and m.toks(out[-1]) == m.toks(want[m.crc % len(want)]) and list(m.values) == [(c.begin(want), len(want))], "the last word is not the one the checksum of all words selects"
        plain = list(m.fn(MN, "mn_encode")(BS(c.seed(n)), False))
        yield "phrase", "without checksum", [m.toks(x) for x in plain] == [m.toks(x) for x in want], "the words without checksum are not those of the seed"
    return f


def restored(check, same):
    def f(c):
        m = c.m
        w = c.phrase(8)
        if check:
            k = m.crc % 24
            w.append(m.word(c.group(k // 3)[k % 3], "" if same else "other ending"))
        o = c.restore(w)
        s = m.scalar(c.seed(32), True).p
        yield "restored", "seed", m.toks(m.getattr(o, "monero_master")) == c.seed(32), "the seed restored is not the one the phrase was made from"
        yield "restored", "key", c.S(m.getattr(o, "spend_sec")) == s, "the key restored is not that of the seed"
        if check:
            yield "restored", "checksum", list(m.values)[:1] == [(c.begin(c.phrase(8)), 24)], "the checksum tested is not that of the first 24 words"
    return f


def wrong(what, change):
    def f(c):
        w = change(c, c.phrase(8))
        try:
            c.restore(w)
        except Raised:
            yield "refused", "", True, ""
            return
        yield "refused", "", False, "a phrase with %s is accepted and gives another wallet" % what
    return f


def last(c, k):
    k %= 24
    return c.m.word(c.group(k // 3)[k % 3])


def mistakes():
    other = lambda c: c.m.word(atom(("other",), BASE))
    yield "a wrong last word", lambda c, w: w + [other(c)]
    yield "the word next to the right one as last word", lambda c, w: w + [last(c, c.m.crc + 1)]
    yield "one word missing", lambda c, w: w[:-1]
    yield "two words missing", lambda c, w: w[:-2]
    yield "a word too many after the checksum", lambda c, w: w + [last(c, c.m.crc), other(c)]
    yield "an unknown word", lambda c, w: w[:4] + ["monera"] + w[5:]
    yield "an unknown word and a matching checksum", lambda c, w: w[:4] + ["monera"] + w[5:] + [last(c, 5 if c.m.crc % 24 == 4 else c.m.crc)] if c.m.crc % 24 != 4 else w[:4] + ["monera"] + w[5:] + ["monera"]
    yield "an unknown beginning of a word", lambda c, w: w[:7] + [c.m.word(c.group(2)[1], "other ending")] + w[8:]
    yield "half of the words", lambda c, w: w[:12]
    top = (BASE - 1, BASE - 2, BASE - 3)
    n = 1 << 32
    w1 = n % BASE
    w2 = (n // BASE + w1) % BASE
    w3 = (n // BASE // BASE + w2) % BASE
    for name, g in (("three words that encode no number", top), ("three words that encode 2^32", (w1, w2, w3))):
        for j in (0, 3, 7):
            yield "%s at %d" % (name, j), lambda c, w, g=g, j=j: w[:3 * j] + [c.m.word(i) for i in g] + w[3 * j + 3:]


def largest(c):
    """2^32-1 is the largest number a group may encode"""
    m, n = c.m, (1 << 32) - 1
    w1 = n % BASE
    w2 = (n // BASE + w1) % BASE
    w3 = (n // BASE // BASE + w2) % BASE
    w = c.phrase(8)
    w[6:9] = [m.word(i) for i in (w1, w2, w3)]
    o = c.restore(w)
    yield "restored", "largest number", m.toks(m.getattr(o, "monero_master")) == c.seed(8) + [255] * 4 + c.seed(32)[12:], "the largest number a group of words may encode is not restored"


def table(ctx):
    m = WM(ctx, Backend(ctx, TR))
    l = m.wordlist()
    ok = isinstance(l, list) and len(l) == BASE and all(isinstance(x, str) for x in l)
    ctx.check("list", "size", ok, "the list does not hold %d words" % BASE, MN)
    if ok:
        ctx.check("list", "beginnings", len({x[:3] for x in l}) == BASE and all(len(x) > 3 for x in l), "two words of the list begin with the same three letters", MN)
        ctx.check("list", "content", hashlib.sha256(" ".join(l).encode()).hexdigest() == DIGEST, "the list differs from the published one", MN)
    ctx.funcs |= m.funcs


DIGEST = "3c381ebb6defd69ab7c1998641c8a047a1488fcebc393c5ef44828ca9128003b"


def run(ctx):
    ctx.rule("runs", "encoding and restoring end with a result")
    ctx.rule("list", "the word list is the published one")
    ctx.rule("phrase", "the phrase of a seed is the published one")
    ctx.rule("restored", "the phrase of a seed restores the seed and its key, with and without checksum word")
    ctx.rule("refused", "a mistyped phrase is refused")
    table(ctx)
    late, n = [], 0
    b = Backend(ctx, TR)
    deep = ctx.tier == "thorough"
    for crc in range(24) if deep else (0, 1, 4, 11, 23):
        jobs = [("encoding %d bytes, checksum %d" % (k, crc), MN + ":mn_encode", encode(k)) for k in ((4, 8, 16, 32) if deep else (16, 32))]
        jobs += [("restoring, checksum %d%s" % (crc, "" if s else ", other ending of the last word"), MN + ":mn_decode", restored(True, s)) for s in (True, False)]
        if crc in (0, 4):
            jobs += [("restoring without checksum", MN + ":mn_decode", restored(False, True)), ("restoring the largest number", MN + ":mn_decode", largest)]
        jobs += [("%s, checksum %d" % (what, crc), MN + ":mn_decode", wrong(what, ch)) for what, ch in mistakes()]
        for what, fid, f in jobs:
            n += 1
            choices = []
            while choices is not None:
                c = Case(ctx, b, what, fid, crc)
                c.m.choices = choices
                try:
                    c.judge(f)
                except Broken as e:
                    late.append(what + ": " + str(e))
                # the next combination of outcomes
                while choices and not choices[-1]:
                    choices.pop()
                choices = choices[:-1] + [False] if choices and len(choices) < 12 else None
    ctx.count("phrases", n)
    if late and not ctx.viol:
        raise Broken("; ".join(sorted(set(late))[:3]))
    ctx.floor("refused", 20)
    ctx.floor("restored", 10)
