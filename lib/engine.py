"""Abstract interpreter used by the checks (a static analysis: nothing is executed).

It walks the syntax tree of a repository function (inlining the repository helpers it
calls) over symbolic *provenance terms*: a value is represented by where it comes from
(parameter, attribute, call of an opaque primitive, ...), calls of deterministic
primitives with equal arguments are equal terms (value numbering), mutable objects
carry their mutation history, loops are summarised once (induction variables and
per-iteration contributions), and conditions passed / calls done are must-facts,
intersected where paths merge.  Rules then query the recorded events.
"""
import ast
import itertools
import re
import sys

from repo import Repo, FuncInfo, ClassInfo

sys.setrecursionlimit(20000)


# --------------------------------------------------------------------------- terms
class T(object):
    __slots__ = ("op", "args", "_h", "has_new", "size", "key")

    def __repr__(self):
        return show(self)


_TAB = {}
_CTR = itertools.count()


def mk(op, *args):
    k = (op, tuple((type(a).__name__, a) if not isinstance(a, T) else a for a in args))
    t = _TAB.get(k)
    if t is None:
        t = T()
        t.op, t.args = op, args
        t.key = next(_CTR)
        hn = op == "new"
        sz = 1
        for a in _flat(args):
            sz += a.size
            hn = hn or a.has_new
        t.has_new, t.size = hn, sz
        t._h = hash(k)
        _TAB[k] = t
    return t


def _flat(x):
    for a in x:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in _flat(a):
                yield b


def const(v):
    return mk("const", type(v).__name__, v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


_SHOW = {}


def show(t, depth=0, lim=9):
    """readable form, bounded in depth and size (messages only)"""
    if not isinstance(t, T):
        return _show(t, depth, lim)
    k = (t, depth, lim)
    r = _SHOW.get(k)
    if r is None:
        r = _show(t, depth, lim)
        if len(r) > 4000:
            r = r[:4000] + "…"
        if len(_SHOW) > 200000:
            _SHOW.clear()
        _SHOW[k] = r
    return r


def _show(t, depth, lim):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth, lim) for x in t) + ")"
        return str(t)
    if depth > lim:
        return "…"
    d = depth + 1
    a = t.args
    o = t.op
    if o == "const":
        return repr(a[1])
    if o == "param":
        return a[0]
    if o == "attr":
        return show(a[0], d, lim) + "." + a[1]
    if o == "sub":
        return "%s[%s]" % (show(a[0], d, lim), show(a[1], d, lim))
    if o == "call":
        return "%s(%s)" % (a[0], ", ".join(show(x, d, lim) for x in a[1:]))
    if o == "mcall":
        return "%s.%s(%s)" % (show(a[1], d, lim), a[0], ", ".join(show(x, d, lim) for x in a[2:]))
    if o == "fresh":
        return "%s!%s(%s)" % (a[0], a[1], ", ".join(show(x, d, lim) for x in a[2:]))
    if o in ("add",):
        return "(" + " + ".join(show(x, d, lim) for x in a) + ")"
    if o == "bin":
        return "(%s %s %s)" % (show(a[1], d, lim), a[0], show(a[2], d, lim))
    if o == "idx":
        return "#%s" % a[0]
    if o == "lin":
        return "+".join(("%s*%s" % (c, show(x, d, lim)) if x is not None else str(c)) for x, c in a[0])
    return "%s<%s>" % (o, ", ".join(show(x, d, lim) for x in a))


def subterms(t, seen=None):
    """All distinct subterms (including tuples' members)."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        stack.extend(x.args)
    return seen


def contains(t, sub):
    return sub in subterms(t)


def subst(t, m, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    na = tuple(subst(x, m, memo) for x in t.args)
    if na == t.args:
        r = t
    elif t.op == "add":
        r = mk_add(*na)
    elif t.op == "bin":
        r = mk_bin(na[0], na[1], na[2])
    elif t.op in ("eq", "ge0"):
        r = mk(t.op, *na)
    else:
        r = mk(t.op, *na)
    memo[t] = r
    return r


# arithmetic normalisation ----------------------------------------------------
def is_num(t):
    return t.op == "const" and t.args[0] in ("int",)


def flat_add(*ts):
    out = []
    for t in ts:
        if t.op == "add":
            out.extend(t.args)
        else:
            out.append(t)
    return out


def mk_add(*ts):
    out = flat_add(*ts)
    nums = [x for x in out if is_num(x)]
    if nums:
        lin = {}
        for x in out:
            _lin_into(lin, x, 1)
        return from_lin(lin)
    if any(x.op == "bin" and x.args[0] == "-" for x in out):
        lin = {}
        for x in out:
            _lin_into(lin, x, 1)
        return from_lin(lin)
    bs = []
    for x in out:
        if is_const(x) and x.args[0] in ("bytes", "str") and bs and is_const(bs[-1]) and bs[-1].args[0] == x.args[0]:
            bs[-1] = const(cval(bs[-1]) + cval(x))
        else:
            bs.append(x)
    bs = [x for x in bs if not (is_const(x) and x.args[1] in (b"", ""))] or bs[:1]
    if len(bs) == 1:
        return bs[0]
    return mk("add", *bs)


def _lin_into(lin, t, c):
    if is_num(t):
        lin[None] = lin.get(None, 0) + c * cval(t)
    elif t.op == "add":
        for x in t.args:
            _lin_into(lin, x, c)
    elif t.op == "bin" and t.args[0] == "-":
        _lin_into(lin, t.args[1], c)
        _lin_into(lin, t.args[2], -c)
    elif t.op == "bin" and t.args[0] == "*" and (is_num(t.args[1]) or is_num(t.args[2])):
        a, b = t.args[1], t.args[2]
        if is_num(a):
            _lin_into(lin, b, c * cval(a))
        else:
            _lin_into(lin, a, c * cval(b))
    elif t.op == "un" and t.args[0] == "-":
        _lin_into(lin, t.args[1], -c)
    elif t.op == "lin":
        for x, k in t.args[0]:
            lin[x] = lin.get(x, 0) + c * k
    else:
        lin[t] = lin.get(t, 0) + c
    return lin


def _lin_norm(lin):
    items = [(x, c) for x, c in lin.items() if c != 0 and x is not None]
    items.sort(key=lambda p: skey(p[0]))
    k = lin.get(None, 0)
    if k:
        items.append((None, k))
    return tuple(items)


def from_lin(lin):
    it = _lin_norm(lin)
    if not it:
        return const(0)
    if len(it) == 1:
        x, c = it[0]
        if x is None:
            return const(c)
        if c == 1:
            return x
    return mk("lin", it)


_SK = {}


def skey(t):
    """deterministic ordering key: a digest of the term's structure"""
    s = _SK.get(t)
    if s is not None:
        return s
    import hashlib

    def enc(x, out):
        if isinstance(x, T):
            out.append(_SK[x])
        elif isinstance(x, tuple):
            out.append("(")
            for y in x:
                enc(y, out)
            out.append(")")
        else:
            out.append(type(x).__name__ + ":" + (str(x) if not hasattr(x, "fid") else x.fid))
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _SK:
            stack.pop()
            continue
        todo = [y for y in _flat(x.args) if y not in _SK]
        if todo:
            stack.extend(todo)
            continue
        out = [x.op]
        enc(x.args, out)
        _SK[x] = hashlib.sha1("\x1f".join(out).encode("utf8", "surrogatepass")).hexdigest()
        stack.pop()
    return _SK[t]


def mk_bin(op, a, b):
    if op == "+":
        return mk_add(a, b)
    if is_const(a) and is_const(b):
        try:
            x, y = cval(a), cval(b)
            r = {
                "-": lambda: x - y, "*": lambda: x * y, "//": lambda: x // y, "%": lambda: x % y,
                "<<": lambda: x << y if y < 5000 else None, ">>": lambda: x >> y, "&": lambda: x & y, "|": lambda: x | y,
                "^": lambda: x ^ y, "**": lambda: x ** y if abs(y) < 5000 else None, "/": lambda: x / y,
            }[op]()
            if r is not None and (not isinstance(r, (bytes, str)) or len(r) < 5000):
                return const(r)
        except Exception:
            pass
    if op == "-":
        return from_lin(_lin_into(_lin_into({}, a, 1), b, -1))
    if op == "*" and (is_num(a) or is_num(b)) and not (a.op in ("new", "obj", "tuple") or b.op in ("new", "obj", "tuple")) \
            and not (is_const(a) and a.args[0] in ("bytes", "str")) and not (is_const(b) and b.args[0] in ("bytes", "str")):
        k, x = (a, b) if is_num(a) else (b, a)
        return from_lin(_lin_into({}, x, cval(k)))
    if op in ("*", "&", "|", "^") and skey(b) < skey(a) and not (is_const(a) and a.args[0] in ("bytes", "str")):
        a, b = b, a
    return mk("bin", op, a, b)


def mk_cmp(op, a, b):
    """-> (term, polarity) with canonical comparison term."""
    if op in ("==", "!="):
        pol = op == "=="
        if is_const(a) and is_const(b):
            return (TRUE if (cval(a) == cval(b)) == pol else FALSE), True
        if a is b and a.op not in ("phi",):
            return (TRUE if pol else FALSE), True
        arith = lambda t: t.op in ("lin",) or is_num(t)
        if arith(a) or arith(b):
            l = dict(_lin_into(_lin_into({}, a, 1), b, -1))
            it = _lin_norm(l)
            if not it:
                return (TRUE if pol else FALSE), True
            if it[0][0] is None:
                return (FALSE if pol else TRUE), True
            if it[0][1] < 0:
                it = tuple((x, -c) for x, c in it)
            return mk("eq0", it), pol
        if skey(b) < skey(a):
            a, b = b, a
        return mk("eq", a, b), pol
    if op in ("<", "<=", ">", ">="):
        if op == ">":
            a, b, op = b, a, "<"
        elif op == ">=":
            a, b, op = b, a, "<="
        if is_const(a) and is_const(b):
            try:
                return (TRUE if (cval(a) < cval(b) if op == "<" else cval(a) <= cval(b)) else FALSE), True
            except TypeError:
                pass
        l = _lin_into(_lin_into({}, b, 1), a, -1)     # b - a
        if op == "<":
            l[None] = l.get(None, 0) - 1
        it = _lin_norm(l)
        if not it:
            return TRUE, True
        if it[0][0] is None:
            return (TRUE if it[0][1] >= 0 else FALSE), True
        pol = True
        if it[0][1] < 0:
            d = {x: -c for x, c in it}
            d[None] = d.get(None, 0) - 1
            it = _lin_norm(d)
            pol = False
        return mk("ge0", it), pol
    if op in ("is", "is not"):
        pol = op == "is"
        if a.op == b.op == "cls" or "cls" in (a.op, b.op) and {a.op, b.op} & {"obj", "new", "tuple", "const"}:
            return (TRUE if a is b else FALSE), pol
        if is_const(a) and is_const(b):
            return (TRUE if (cval(a) is cval(b) or cval(a) == cval(b)) == pol else FALSE), True
        if a is b:
            return (TRUE if pol else FALSE), True
        if is_const(a):
            a, b = b, a
        return mk("is", a, b), pol
    if op in ("in", "not in"):
        pol = op == "in"
        return mk("in", a, b), pol
    raise ValueError(op)


# --------------------------------------------------------------------------- state
class State(object):
    __slots__ = ("env", "store", "hist", "facts", "depth", "cap")

    def __init__(self):
        self.env, self.store, self.hist = {}, {}, {}
        self.facts = frozenset()
        self.depth = 0

    def clone(self):
        s = State.__new__(State)
        s.env, s.store, s.hist, s.facts, s.depth = self.env, self.store, self.hist, self.facts, self.depth
        return s

    def setvar(self, k, v):
        e = dict(self.env)
        e[k] = v
        self.env = e

    def setstore(self, b, a, v):
        e = dict(self.store)
        e[(b, a)] = v
        self.store = e

    def sethist(self, b, v):
        e = dict(self.hist)
        e[b] = v
        self.hist = e

    def addfact(self, f):
        if f not in self.facts:
            self.facts = self.facts | {f}

    def same(self, o):
        return (self.facts == o.facts and self.env == o.env and self.store == o.store and self.hist == o.hist)


UNDEF = mk("undef")


def mk_phi(vals):
    s = set()
    for v in vals:
        if v.op == "phi":
            s.update(v.args)
        else:
            s.add(v)
    if len(s) == 1:
        return next(iter(s))
    l = sorted(s, key=skey)
    if len(l) > 12:
        l = l[:12]
    return mk("phi", *l)


def merge_two(a, b):
    s = a.clone()
    s.facts = a.facts & b.facts
    s.env = _mdict(a.env, b.env)
    s.store = _mstore(a.store, b.store)
    s.hist = _mhist(a.hist, b.hist)
    return s


def _mdict(x, y):
    if x is y or x == y:
        return x
    r = {}
    for k in x.keys() | y.keys():
        v, w = x.get(k, UNDEF), y.get(k, UNDEF)
        r[k] = v if v is w else mk_phi((v, w))
    return r


def _mstore(x, y):
    if x is y or x == y:
        return x
    r = {}
    for k in x.keys() | y.keys():
        v, w = x.get(k), y.get(k)
        if v is None:
            v = mk("attr", k[0], k[1])
        if w is None:
            w = mk("attr", k[0], k[1])
        r[k] = v if v is w else mk_phi((v, w))
    return r


def _mhist(x, y):
    if x is y or x == y:
        return x
    r = {}
    for k in x.keys() | y.keys():
        v, w = x.get(k, ()), y.get(k, ())
        if v == w:
            r[k] = v
            continue
        n = 0
        while n < len(v) and n < len(w) and v[n] == w[n]:
            n += 1
        va, wa = v[n:], w[n:]
        alts = set()
        for z in (va, wa):
            if len(z) == 1 and isinstance(z[0], T) and z[0].op == "alt":
                alts |= set(z[0].args[0])
            else:
                alts.add(z)
        r[k] = v[:n] + (mk("alt", tuple(sorted(alts, key=lambda q: repr([skey(i) for i in q])))),)
    return r


def _ddiff(x, y):
    if x is y:
        return 0
    n = 0
    for k, v in x.items():
        if y.get(k) is not v:
            n += 1
    for k in y:
        if k not in x:
            n += 1
    return n


def _dist(a, b):
    st = 0
    if a.store is not b.store:
        for k in a.store.keys() | b.store.keys():
            if a.store.get(k) is not b.store.get(k):
                st += 1 if k[0].has_new else 4
    h = 0
    if a.hist is not b.hist:
        for k in a.hist.keys() | b.hist.keys():
            if a.hist.get(k) != b.hist.get(k):
                h += 1
    return 20 * st + 8 * _ddiff(a.env, b.env) + 4 * h + len(a.facts ^ b.facts)


def merge_states(sts, limit):
    out = []
    for s in sts:
        for o in out:
            if o is s or o.same(s):
                break
        else:
            out.append(s)
    if len(out) > limit:
        # merge the most similar states; states agreeing on all stored attributes first
        buckets = {}
        for o in out:
            k = frozenset((b, a, v) for (b, a), v in o.store.items() if not b.has_new)
            buckets.setdefault(k, []).append(o)
        groups = list(buckets.values())
        n = len(out)
        while n > limit:
            g = max(groups, key=len)
            if len(g) == 1:
                # all differ: merge the closest of a window
                flat = [x for y in groups for x in y]
                _, i, j = min((_dist(flat[i], flat[j]), i, j) for i in range(min(8, len(flat))) for j in range(i + 1, min(8, len(flat))))
                m = merge_two(flat[i], flat[j])
                groups = [[x] for k, x in enumerate(flat) if k not in (i, j)] + [[m]]
            else:
                w = min(len(g), 6)
                _, i, j = min((_dist(g[i], g[j]), i, j) for i in range(w) for j in range(i + 1, w))
                m = merge_two(g[i], g[j])
                g[:] = [x for k, x in enumerate(g) if k not in (i, j)] + [m]
            n -= 1
        out = [x for g in groups for x in g]
    return out


class Event(object):
    __slots__ = ("kind", "name", "args", "value", "facts", "stack", "node", "state", "order", "base", "fn")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    def where(self):
        return "%s (line %s)" % (self.fn, getattr(self.node, "lineno", "?"))

    def __repr__(self):
        return "<%s %s(%s) @ %s>" % (self.kind, self.name, ", ".join(show(a) for a in (self.args or ())), self.where())


class Outcome(object):
    __slots__ = ("kind", "state", "value", "node", "fn")

    def __init__(self, kind, state, value=None, node=None, fn=None):
        self.kind, self.state, self.value, self.node, self.fn = kind, state, value, node, fn

    def __repr__(self):
        return "<%s %s>" % (self.kind, show(self.value) if self.value is not None else "")


SINK_RE = re.compile(r"(?i)keccak|writer|reader|hasher|archive")
MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "clear", "update", "add", "sort", "reverse", "write", "awrite",
    "reset", "setdefault", "discard", "popitem", "seek", "__setitem__", "areadinto", "readinto", "finalize", "verify",
    "extend_from",
}
PURE_METHODS = {
    "digest", "hexdigest", "get_digest", "get_buffer", "copy", "keys", "items", "values", "encode", "decode", "hex",
    "to_bytes", "get", "index", "count", "startswith", "endswith", "split", "strip", "join", "format", "lower", "upper",
    "replace", "getvalue", "tobytes", "isdigit", "ctx",
}
FRESH_RE = re.compile(r"(^|\.)(random_\w+|xmr_random\w*|prng|urandom|get_random_bytes|randbits|randint|getrandbits|token_bytes|token_hex|choice|shuffle|input|getpass|ask_password|time|open)$")
NEW_FUNCS = {"get_keccak", "get_keccak_writer", "namedtuple"}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)

CRYPTO_MODS = ("monero_glue.xmr.crypto", "monero_glue.xmr.core.ec", "monero_glue.xmr.core.ec_py", "monero_glue.xmr.core.ec_trezor",
               "monero_glue.xmr.core.ec_conv", "monero_glue.xmr.core.ec_base")


def short_name(fi):
    """Canonical display name of a repository function used in terms."""
    m = fi.module.name
    if m in CRYPTO_MODS:
        return "crypto." + fi.qual
    return m.rsplit(".", 1)[-1] + "." + fi.qual


class Broken(Exception):
    """The analysis itself cannot be carried out (anchor vanished, unsupported shape)."""


def literal(it, t, st):
    """[python value] of a constant or a tuple of constants"""
    if is_const(t):
        return [cval(t)]
    if t.op == "tuple" and all(is_const(x) for x in t.args):
        return [tuple(cval(x) for x in t.args)]
    return None


class Interp(object):
    def __init__(self, repo, opaque=(), inline=None, types=None, limit=24, max_depth=30, unroll=24, skip=(), new_funcs=(), debug_on=True,
                 pure=(), fresh=(), stubs=None):
        """opaque: iterable of regexes over 'module:qual' ids, or canonical names, not inlined."""
        self.repo = repo
        self.opaque = [re.compile(x) for x in opaque]
        self.ranges = {}          # {integer term: (lowest, highest)}
        self.inline = [re.compile(x) for x in inline] if inline else None
        self.types = dict(types or {})
        self.limit, self.max_depth, self.unroll = limit, max_depth, unroll
        self.skip = [re.compile(x) for x in list(skip) + [
            r"monero_glue\.compat\.(log|gc|micropython):", r":.*\b_?(mem_trace|log_trace)$", r"compat\.utils:unimport_",
            r"monero_glue\.utils\.misc:log", ]]
        self.new_funcs = NEW_FUNCS | set(new_funcs)
        self.fresh_re = [re.compile(x) for x in fresh]
        self.debug_on = debug_on
        self.tuples = {}         # named tuple types -> field names
        self.tables = False      # read module-level lists of constants as the constant tables they are
        self.events = []
        self.mute = 0
        self.stack = []          # FuncInfo stack
        self.cstack = []         # call-site ids
        self.implicit = []       # collectors for try bodies: [call depth of the try, states...]
        self.frames = []         # environments of the suspended callers
        self.imp_limit = (40, 6)     # exceptional states kept per try block / entering its handlers
        self.raises = []         # raise outcomes of the statement under evaluation
        self.sites = {}
        self.lam = {}
        self.cls_of = {}
        self.loopvars = []
        self.inlined = set()
        self.nodes = 0
        self.stubs = stubs or {}
        self.dicts = False      # model o.__dict__ and vars(o) of constructed objects
        self.unroll_true = False    # try to unroll `while True` loops whose exits are decidable
        self.reads = None       # a set: collects attribute reads that find no earlier assignment
        self._ct = {}
        self._it = {}
        self._gc = {}
        self.budget = 3000000
        self.links = {}
        self.tracer = None       # f(interp, kind, state, event fields) -> None or (sink, piece): ordered per-path effect trace

    # ------------------------------------------------------------------ helpers
    def site(self, node, st):
        k = (tuple(self.cstack), id(node))
        n = self.sites.get(k)
        if n is None:
            n = self.sites[k] = len(self.sites)
        return n

    def fsite(self, node, st):
        return "%d@%d" % (self.site(node, st), st.depth)

    def fn(self):
        return self.stack[-1].fid if self.stack else "?"

    def record(self, kind, st, **kw):
        if self.tracer is not None:
            p = self.tracer(self, kind, st, kw)
            if p is not None:
                key = mk("trace", p[0])
                st.sethist(key, st.hist.get(key, ()) + (p[1],))
        if self.mute:
            return
        self.events.append(Event(kind=kind, state=st.clone(), facts=st.facts, stack=tuple(f.fid for f in self.stack), fn=self.fn(), order=len(self.events), **kw))

    def resolve(self, t, st, seen=()):
        """Deep snapshot: replaces mutable objects by their current contents."""
        if isinstance(t, tuple):
            return tuple(self.resolve(x, st, seen) for x in t)
        if not isinstance(t, T):
            return t
        if not seen and self._rmemo is None:
            self._rmemo, self._rrec = {}, 0
            try:
                return self.resolve(t, st, seen)
            finally:
                self._rmemo = None
        if t in seen:
            self._rrec += 1
            return mk("rec", t.args[0] if t.args else "")
        # a term whose contents hold no cycle resolves alike wherever it occurs (attribute depth is limited to three objects)
        key = (t, min(len(seen), 3))
        r = self._rmemo.get(key)
        if r is None:
            n = self._rrec
            r = self._resolve(t, st, seen)
            if self._rrec == n:
                self._rmemo[key] = r
        return r

    _rmemo = None
    _rrec = 0

    def _resolve(self, t, st, seen):
        if t.op == "new":
            kind = t.args[0]
            if kind.startswith("cls:"):
                s2 = seen + (t,)
                at = sorted((a, self.resolve(v, st, s2)) for (b, a), v in st.store.items() if b is t and isinstance(a, str)) if len(seen) < 3 else ()
                h = st.hist.get(t)
                r = mk("obj", kind, tuple(tuple(x) for x in at), *( (self.resolve(h, st, s2),) if h else ()))
                return r
            h = st.hist.get(t, ())
            h = self.resolve(h, st, seen + (t,))
            at = {a: self.resolve(v, st, seen + (t,)) for (b, a), v in st.store.items() if b is t and isinstance(a, str)} if len(seen) < 3 else {}
            if at or (h and h[0].op == "ctor" and any(k.op == "kw" for k in h[0].args)):
                if h and h[0].op == "ctor":
                    for k in h[0].args:
                        if k.op == "kw" and k.args[0] not in at:
                            at[k.args[0]] = k.args[1]
                    rest = tuple(k for k in h[0].args if k.op != "kw")
                    h = ((mk("ctor", *rest),) if rest else ()) + tuple(h[1:])
                return mk("obj", kind, tuple(sorted(at.items(), key=lambda q: q[0])), *((h,) if h else ()))
            return norm_obj(kind, h)
        h = st.hist.get(t)
        if h:
            return mk("mut", t if not t.has_new else self._res_args(t, st, seen), self.resolve(h, st, seen + (t,)))
        if not t.has_new:
            # opaque base with history inside (attr of a mutated param)
            if st.hist and t.op in ("attr", "sub", "call", "mcall", "phi", "tuple", "add", "bin"):
                if any(isinstance(k, T) and not k.has_new and k.op != "new" for k in st.hist):
                    return self._res_args(t, st, seen)
            return t
        return self._res_args(t, st, seen)

    def _res_args(self, t, st, seen):
        na = tuple(self.resolve(x, st, seen) for x in t.args)
        if na == t.args:
            return t
        if t.op == "add":
            return mk_add(*na)
        if t.op == "sub":
            return mk_sub(na[0], na[1])
        if t.op == "call" and t.args[0] == "len" and len(na) == 2:
            return mk_len(na[1])
        return mk(t.op, *na)

    def is_opaque(self, fi):
        if fi.fid in self.stubs:
            return True
        for r in self.opaque:
            if r.search(fi.fid):
                return True
        if self.inline is not None:
            return not any(r.search(fi.fid) for r in self.inline)
        return False

    def is_skip(self, fi):
        return any(r.search(fi.fid) for r in self.skip)

    # ------------------------------------------------------------------ types
    def type_of(self, t, st):
        """ClassInfo of a term when known."""
        if t in self.types:
            return self.types[t]
        if t.op == "new" and t.args[0].startswith("cls:"):
            return self.cls_of.get(t.args[0][4:])
        if t.op == "attr":
            b = self.type_of(t.args[0], st)
            if b is not None:
                return self.attr_type(b, t.args[1])
        if t.op == "call" and t.args[0] in self.cls_by_short:
            return self.cls_by_short[t.args[0]]
        return None

    @property
    def cls_by_short(self):
        d = self._ct.get("__short")
        if d is None:
            d = {}
            for c in self.repo.all_classes():
                d[c.module.name.rsplit(".", 1)[-1] + "." + c.qual] = c
            self._ct["__short"] = d
        return d

    def attr_type(self, cls, attr):
        k = (cls.cid, attr)
        if k in self._it:
            return self._it[k]
        found = set()
        for c in self.repo.mro(cls):
            for m in c.methods.values():
                local = {}
                for n in ast.walk(m.node):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        r, _ = c.module.import_binds(n)
                        local.update(dict(r))
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == "self":
                                r = self.res_static(c.module, n.value.func, local)
                                if r and r[0] == "class":
                                    found.add(r[1])
        r = next(iter(found)) if len(found) == 1 else None
        self._it[k] = r
        return r

    def res_static(self, module, node, local):
        if isinstance(node, ast.Name) and node.id in local:
            b = local[node.id]
            if b[0] == "mod":
                return ("mod", b[1])
            if b[1] in self.repo.modules:
                r = self.repo.resolve(b[1], b[2])
                if r:
                    return r
            if b[1] + "." + b[2] in self.repo.modules:
                return ("mod", b[1] + "." + b[2])
            return ("ext", b[1] + "." + b[2])
        if isinstance(node, ast.Attribute):
            r = self.res_static(module, node.value, local)
            if r and r[0] == "mod":
                if r[1] in self.repo.modules:
                    return self.repo.resolve(r[1], node.attr)
                return ("ext", r[1] + "." + node.attr)
            return None
        return self.repo.resolve_expr(module, node)

    # ------------------------------------------------------------------ globals
    def from_resolution(self, r, st=None):
        if r is None:
            return None
        if r[0] == "func":
            return mk("func", r[1].fid)if self._reg_f(r[1]) else None
        if r[0] == "class":
            self.cls_of[r[1].cid] = r[1]
            return mk("cls", r[1].cid)
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "ext":
            return mk("ext", canon_ext(r[1]))
        if r[0] == "assign":
            return self.global_const(r[1], r[2], r[3])
        return None

    def _reg_f(self, fi):
        self.cls_of["f:" + fi.fid] = fi
        return True

    def global_const(self, module, node, multi):
        k = id(node)
        if k in self._gc:
            return self._gc[k]
        name = "?"
        for n, bl in module.binds.items():
            for b in bl:
                if b[0] in ("assign", "opaque") and b[1] is node:
                    name = n
        g = mk("global", module.name.rsplit(".", 1)[-1], name)
        self._gc[k] = g
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "namedtuple" and len(node.args) == 2 and not multi:
            v = self.eval_simple(module, node.args[1])
            if v is not None and is_const(v) and isinstance(cval(v), str):
                self.tuples[g] = tuple(cval(v).replace(",", " ").split())
            elif v is not None and v.op == "tuple" and all(is_const(x) for x in v.args):
                self.tuples[g] = tuple(cval(x) for x in v.args)
            elif isinstance(node.args[1], ast.List) and all(isinstance(x, ast.Constant) for x in node.args[1].elts):
                self.tuples[g] = tuple(x.value for x in node.args[1].elts)
        if not multi and name != "?":
            v = self.eval_simple(module, node)
            if v is not None:
                self._gc[k] = v
                return v
        return g

    def eval_simple(self, module, node, _d=0):
        """Evaluates module-level constant expressions; None when not constant."""
        if _d > 40:
            return None
        ev = lambda n: self.eval_simple(module, n, _d + 1)
        if isinstance(node, ast.Constant):
            return const(node.value) if not isinstance(node.value, type(Ellipsis)) else None
        if isinstance(node, (ast.Name, ast.Attribute)):
            if isinstance(node, ast.Attribute):
                b = self.repo.resolve_expr(module, node.value)
                if b and b[0] == "class":
                    ca = self.repo.find_classattr(b[1], node.attr)
                    if ca:
                        return self.eval_simple(ca[0].module, ca[1], _d + 1)
            r = self.repo.resolve_expr(module, node)
            if r is None:
                return None
            if r[0] == "assign":
                if r[3]:
                    return None
                v = self.global_const(r[1], r[2], r[3])
                return v if v.op != "global" else None
            return self.from_resolution(r)
        if isinstance(node, ast.Tuple) or self.tables and isinstance(node, ast.List):
            vs = [ev(e) for e in node.elts]
            return None if any(v is None for v in vs) else mk("tuple", *vs)
        if self.tables and isinstance(node, ast.ListComp):
            return self.const_comp(module, node, _d)
        if isinstance(node, ast.BinOp):
            a, b = ev(node.left), ev(node.right)
            if a is None or b is None:
                return None
            return mk_bin(BINOPS[type(node.op)], a, b)
        if isinstance(node, ast.UnaryOp):
            a = ev(node.operand)
            if a is not None and is_const(a):
                try:
                    x = cval(a)
                    return const({ast.USub: lambda: -x, ast.UAdd: lambda: +x, ast.Not: lambda: not x, ast.Invert: lambda: ~x}[type(node.op)]())
                except Exception:
                    return None
            return None
        if isinstance(node, ast.Call):
            f = self.repo.resolve_expr(module, node.func)
            if f and f[0] == "func" and f[1].qual == "const" and len(node.args) == 1:
                return ev(node.args[0])
            if isinstance(node.func, ast.Name) and node.func.id in ("bytes", "int", "str") and f is None and len(node.args) == 1:
                a = ev(node.args[0])
                if a is not None and is_const(a):
                    try:
                        return const({"bytes": bytes, "int": int, "str": str}[node.func.id](cval(a)))
                    except Exception:
                        return None
                if a is not None and a.op == "tuple" and all(is_const(x) for x in a.args) and node.func.id == "bytes":
                    return const(bytes(cval(x) for x in a.args))
            if isinstance(node.func, ast.Name) and node.func.id == "bytes" and f is None and len(node.args) == 1 and isinstance(node.args[0], ast.List):
                vs = [ev(e) for e in node.args[0].elts]
                if all(v is not None and is_num(v) for v in vs):
                    return const(bytes(cval(v) for v in vs))
            return None
        return None

    def const_comp(self, module, node, _d):
        """[f(x) for x in <constant string or tuple>] at module level"""
        g = node.generators[0]
        if len(node.generators) > 1 or g.ifs or not isinstance(g.target, ast.Name):
            return None
        src = self.eval_simple(module, g.iter, _d + 1)
        if src is None or not (src.op == "tuple" or is_const(src) and isinstance(cval(src), (str, bytes))):
            return None
        if src.op == "tuple" and not all(is_const(x) for x in src.args):
            return None
        out = []
        for x in (cval(src) if is_const(src) else [cval(a) for a in src.args]):
            class Sub(ast.NodeTransformer):
                def visit_Name(self, n):
                    return ast.copy_location(ast.Constant(x), n) if n.id == g.target.id else n
            e = Sub().visit(ast.parse(ast.unparse(node.elt), mode="eval").body)
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("ord", "chr", "int") and len(e.args) == 1 and isinstance(e.args[0], ast.Constant):
                try:
                    v = const({"ord": ord, "chr": chr, "int": int}[e.func.id](e.args[0].value))
                except Exception:
                    return None
            else:
                v = self.eval_simple(module, e, _d + 1)
            if v is None or not is_const(v):
                return None
            out.append(v)
        return mk("tuple", *out)

    # ------------------------------------------------------------------ running
    def run(self, fi, args=None, self_cls=None, state=None, prebind=None):
        """Analyses function `fi` symbolically. Returns list of Outcome."""
        st = state.clone() if state is not None else State()
        env = {}
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        is_static = "staticmethod" in fi.decos
        for i, n in enumerate(names):
            if i == 0 and fi.cls is not None and not is_static and n in ("self", "cls"):
                t = mk("param", n)
                self.types[t] = self_cls or fi.cls
            else:
                t = mk("param", n)
            env[n] = t
        for x in a.kwonlyargs:
            env[x.arg] = mk("param", x.arg)
        if a.vararg:
            env[a.vararg.arg] = mk("param", "*" + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = mk("param", "**" + a.kwarg.arg)
        for k, v in (args or {}).items():
            env[k] = v
        for k, v in (prebind or {}).items():
            env[k] = v
        st.env = env
        self.stack.append(fi)
        self.inlined.add(fi.fid)
        outs = self.exec_block(fi.node.body, [st])
        self.stack.pop()
        res = []
        for o in outs:
            if o.kind == "next":
                o = Outcome("return", o.state, NONE, fi.node, fi.fid)
            res.append(o)
        return res

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, states):
        """-> list of Outcome; 'next' outcomes are fallthrough."""
        done = []
        cur = list(states)
        for stmt in body:
            if not cur:
                break
            nxt = []
            for st in cur:
                for o in self.exec_stmt(stmt, st):
                    (nxt if o.kind == "next" else done).append(o if o.kind != "next" else o.state)
            cur = merge_states(nxt, self.limit)
        return done + [Outcome("next", s) for s in cur]

    def exec_stmt(self, node, st):
        self.nodes += 1
        if self.nodes > self.budget:
            raise Broken("analysis budget exceeded in %s" % self.fn())
        saved = self.raises
        self.raises = []
        try:
            m = getattr(self, "s_" + type(node).__name__, None)
            if m is None:
                raise Broken("unsupported statement %s in %s" % (type(node).__name__, self.fn()))
            outs = m(node, st)
            return outs + self.raises
        finally:
            self.raises = saved

    def nx(self, sts):
        return [Outcome("next", s) for s in sts]

    def s_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [Outcome("next", st)]
        return self.nx(s for s, v in self.ev(node.value, st))

    def s_Pass(self, node, st):
        return [Outcome("next", st)]

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, node, st):
        r, _ = self.stack[-1].module.import_binds(node)
        st = st.clone()
        for n, b in r:
            st.setvar(n, mk("mod", b[1]) if b[1] in self.repo.modules or any(x.startswith(b[1] + ".") for x in self.repo.modules) else mk("ext", canon_ext(b[1])))
        return [Outcome("next", st)]

    def s_ImportFrom(self, node, st):
        r, stars = self.stack[-1].module.import_binds(node)
        st = st.clone()
        for n, b in r:
            v = self.res_static(self.stack[-1].module, ast.Name(id=n, ctx=ast.Load()), {n: b})
            v = self.from_resolution(v)
            st.setvar(n, v if v is not None else mk("ext", canon_ext(b[1] + "." + b[2])))
        return [Outcome("next", st)]

    def s_FunctionDef(self, node, st):
        st = st.clone()
        fi = FuncInfo(self.stack[-1].module, self.stack[-1].qual + ".<locals>." + node.name, node, None)
        t = mk("closure", fi.fid, self.site(node, st))
        self.lam[t] = (fi, st.env, node)
        st.setvar(node.name, t)
        return [Outcome("next", st)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, node, st):
        st = st.clone()
        ci = ClassInfo(self.stack[-1].module, self.stack[-1].qual + ".<locals>." + node.name, node)
        self.cls_of[ci.cid] = ci
        st.setvar(node.name, mk("cls", ci.cid))
        return [Outcome("next", st)]

    def s_Return(self, node, st):
        if node.value is None:
            return [Outcome("return", st, NONE, node, self.fn())]
        return [Outcome("return", s, v, node, self.fn()) for s, v in self.ev(node.value, st)]

    def s_Raise(self, node, st):
        if node.exc is None:
            return [Outcome("raise", st, st.env.get("__exc", mk("exc", "?")), node, self.fn())]
        self.mute_implicit = True
        return [Outcome("raise", s, v, node, self.fn()) for s, v in self.ev(node.exc, st)]

    def s_Assert(self, node, st):
        t, f = self.cond(node.test, st)
        outs = self.nx(t)
        for s in f:
            outs.append(Outcome("raise", s, mk("call", "AssertionError"), node, self.fn()))
        return outs

    def s_Delete(self, node, st):
        st = st.clone()
        for t in node.targets:
            for n in ([t] if not isinstance(t, ast.Tuple) else t.elts):
                if isinstance(n, ast.Name) and n.id in st.env:
                    e = dict(st.env)
                    del e[n.id]
                    st.env = e
                elif isinstance(n, ast.Attribute):
                    for s, b in self.ev(n.value, st):
                        st = s
                        st = st.clone()
                        st.setstore(b, n.attr, UNDEF)
                elif isinstance(n, ast.Subscript):
                    for s, b in self.ev(n.value, st):
                        for s2, i in self.ev_index(n.slice, s):
                            st = s2.clone()
                            self.mutate(st, b, mk("del", i))
        return [Outcome("next", st)]

    def s_If(self, node, st):
        t, f = self.cond(node.test, st)
        outs = []
        if t:
            outs += self.exec_block(node.body, merge_states(t, self.limit))
        if f:
            if node.orelse:
                outs += self.exec_block(node.orelse, merge_states(f, self.limit))
            else:
                outs += self.nx(f)
        return outs

    def s_Assign(self, node, st):
        outs = []
        for s, v in self.ev(node.value, st):
            sts = [s.clone()]
            for t in node.targets:
                n2 = []
                for s2 in sts:
                    n2 += self.assign(t, v, s2)
                sts = n2
            outs += sts
        return self.nx(outs)

    def s_AnnAssign(self, node, st):
        if node.value is None:
            return [Outcome("next", st)]
        outs = []
        for s, v in self.ev(node.value, st):
            outs += self.assign(node.target, v, s.clone())
        return self.nx(outs)

    def s_AugAssign(self, node, st):
        load = _as_load(node.target)
        outs = []
        op = BINOPS[type(node.op)]
        for s, cur in self.ev(load, st):
            for s2, v in self.ev(node.value, s):
                s2 = s2.clone()
                if op == "+" and cur.op == "new" and cur.args[0] in ("list", "bytearray"):
                    self.extend(s2, cur, v)
                    outs.append(s2)
                    continue
                nv = mk_bin(op, self.resolve(cur, s2), self.resolve(v, s2))
                outs += self.assign(node.target, nv, s2)
        return self.nx(outs)

    def extend(self, st, lst, v):
        vv = v
        if vv.op == "new" and vv.args[0] in ("list", "bytearray"):
            h = st.hist.get(vv, ())
            st.sethist(lst, st.hist.get(lst, ()) + tuple(h))
            return
        if vv.op == "tuple":
            st.sethist(lst, st.hist.get(lst, ()) + tuple(mk("i", x) for x in vv.args))
            return
        st.sethist(lst, st.hist.get(lst, ()) + (mk("ext", self.resolve(v, st)),))

    def assign(self, target, v, st):
        """-> states"""
        if isinstance(target, ast.Name):
            st.setvar(target.id, v)
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(target.elts), st)
            sts = [st]
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    val = mk("rest", v, i)
                    e = e.value
                elif star:
                    val = mk_sub(self.resolve(v, st), const(i))
                else:
                    val = vals[i]
                n2 = []
                for s in sts:
                    n2 += self.assign(e, val, s)
                sts = n2
            return sts
        if isinstance(target, ast.Attribute):
            outs = []
            for s, b in self.ev(target.value, st):
                s = s.clone()
                s.setstore(b, target.attr, v)
                self.record("store", s, name=target.attr, base=b, value=self.resolve(v, s), args=(b,), node=target)
                outs.append(s)
            return outs
        if isinstance(target, ast.Subscript):
            outs = []
            if isinstance(target.value, ast.Subscript):
                # M[i][j] = v where the row is known only by value: recorded on the matrix
                base = self.ev(target.value.value, st)
                if len(base) == 1 and base[0][1].op == "new" and base[0][1].args[0] == "list":
                    s, b = base[0]
                    idx = self.ev_index(target.value.slice, s)
                    if len(idx) == 1 and self.get_sub(b, idx[0][1], idx[0][0]).op in ("obj", "sub"):
                        s, i = idx[0]
                        for s2, j in self.ev_index(target.slice, s):
                            s2 = s2.clone()
                            self.mutate(s2, b, mk("set2", self.resolve(i, s2), self.resolve(j, s2), v))
                            self.record("setitem", s2, name="[]", base=mk("sub", b, self.resolve(i, s2)), value=self.resolve(v, s2), args=(self.resolve(j, s2),), node=target)
                            outs.append(s2)
                        return outs
            for s, b in self.ev(target.value, st):
                for s2, i in self.ev_index(target.slice, s):
                    s2 = s2.clone()
                    ri = self.resolve(i, s2)
                    h = s2.hist.get(b, ()) if b.op == "new" and b.args[0] == "list" and s2.depth == 0 and is_num(ri) else ()
                    if h and all(isinstance(p, T) and p.op == "i" for p in h) and -len(h) <= cval(ri) < len(h):
                        h = list(h)
                        h[cval(ri)] = mk("i", v)
                        s2.sethist(b, tuple(h))
                    else:
                        self.mutate(s2, b, mk("set", ri, v))
                    self.record("setitem", s2, name="[]", base=b, value=self.resolve(v, s2), args=(self.resolve(i, s2),), node=target)
                    outs.append(s2)
            return outs
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st)
        raise Broken("assign target %s" % type(target).__name__)

    def mutate(self, st, base, piece):
        if is_const(base):
            return
        st.sethist(base, st.hist.get(base, ()) + (piece,))

    def unpack(self, v, n, st):
        if v.op == "tuple" and len(v.args) == n:
            return list(v.args)
        if v.op == "phi" and all(x.op == "tuple" and len(x.args) == n for x in v.args):
            return [mk_phi([x.args[i] for x in v.args]) for i in range(n)]
        if v.op == "new" and v.args[0] == "list":
            h = st.hist.get(v, ())
            if len(h) == n and all(isinstance(p, T) and p.op == "i" for p in h):
                return [p.args[0] for p in h]
        return [self.get_sub(v, const(i), st) for i in range(n)]

    # loops ---------------------------------------------------------------
    def s_For(self, node, st):
        outs = []
        for s, it in self.ev(node.iter, st):
            outs += self.do_for(node, it, s)
        return outs

    s_AsyncFor = s_For

    def concrete_items(self, it, st):
        if it.op == "tuple":
            return list(it.args)
        if it.op == "new" and it.args[0] in ("list", "set", "bytearray"):
            h = st.hist.get(it, ())
            if all(isinstance(p, T) and p.op == "i" for p in h):
                return [p.args[0] for p in h]
            return None
        if it.op == "new" and it.args[0] == "dict":
            h = st.hist.get(it, ())
            if all(isinstance(p, T) and p.op == "set" and is_const(p.args[0]) for p in h):
                ks = []
                for p in h:
                    if p.args[0] not in ks:
                        ks.append(p.args[0])
                return ks
            return None
        if it.op == "obj" and it.args[0] == "list":
            h = it.args[1]
            if all(isinstance(p, T) and p.op == "i" for p in h):
                return [p.args[0] for p in h]
        if it.op == "range" and all(is_const(x) for x in it.args):
            try:
                r = range(*[cval(x) for x in it.args])
            except Exception:
                return None
            if len(r) <= (64 if self.unroll_true else 8):
                return [const(x) for x in r]
        if it.op == "enum":
            r = self.concrete_items(it.args[0], st)
            if r is not None:
                k = it.args[1]
                return [mk("tuple", mk_add(const(i), k), x) for i, x in enumerate(r)]
        if it.op == "zip":
            rs = [self.concrete_items(x, st) for x in it.args]
            if all(r is not None for r in rs):
                return [mk("tuple", *x) for x in zip(*rs)]
        if it.op == "items":
            r = self.concrete_items(it.args[0], st)
            if r is not None:
                return [mk("tuple", k, self.get_sub(it.args[0], k, st)) for k in r]
        if it.op == "reversed":
            r = self.concrete_items(it.args[0], st)
            if r is not None:
                return list(reversed(r))
        return None

    def loop_elem(self, it, idx, st):
        """-> (trip count term, element term)"""
        if it.op == "range":
            a = it.args
            if len(a) == 1:
                return a[0], idx
            lo, hi = a[0], a[1]
            step = a[2] if len(a) > 2 else const(1)
            if is_num(step) and cval(step) == 1:
                return mk_bin("-", hi, lo), mk_add(lo, idx)
            if is_num(step):
                return mk("trip", lo, hi, step), mk_add(lo, mk_bin("*", step, idx))
            return mk("trip", lo, hi, step), mk_add(lo, mk_bin("*", step, idx))
        if it.op == "enum":
            n, e = self.loop_elem(it.args[0], idx, st)
            return n, mk("tuple", mk_add(it.args[1], idx), e)
        if it.op == "zip":
            r = [self.loop_elem(x, idx, st) for x in it.args]
            return r[0][0], mk("tuple", *[x[1] for x in r])
        if it.op == "items":
            b = self.resolve(it.args[0], st)
            return mk_len(b), mk("tuple", mk("key", b, idx), mk("val", b, idx))
        if it.op == "keys":
            b = self.resolve(it.args[0], st)
            return mk_len(b), mk("key", b, idx)
        if it.op == "values":
            b = self.resolve(it.args[0], st)
            return mk_len(b), mk("val", b, idx)
        if it.op == "reversed":
            n, e = self.loop_elem(it.args[0], idx, st)
            return n, subst(e, {idx: mk_bin("-", mk_bin("-", n, const(1)), idx)})
        b = self.resolve(it, st)
        if it.op == "new" and it.args[0] == "dict":
            return mk_len(b), mk("key", b, idx)
        return mk_len(b), mk_sub(b, idx)

    def do_for(self, node, it, st):
        items = self.concrete_items(it, st)
        if items is not None and len(items) <= self.unroll:
            cur = [st]
            outs = []
            for k, x in enumerate(items):
                nxt = []
                for s in cur:
                    for s2 in self.assign(node.target, x, s.clone()):
                        for o in self.iterate(node.body, s2, k):
                            if o.kind in ("next", "continue"):
                                nxt.append(o.state)
                            elif o.kind == "break":
                                outs.append(Outcome("next", o.state))
                            else:
                                outs.append(o)
                cur = merge_states(nxt, self.limit)
                if not cur:
                    break
            for s in cur:
                outs += self.exec_block(node.orelse, [s]) if node.orelse else [Outcome("next", s)]
            return outs
        idx = mk("idx", st.depth + 1)
        n, elem = self.loop_elem(it, idx, st)

        def enter(s):
            return self.assign(node.target, elem, s), []
        return self.loop(node, st, enter, lambda s: n, idx)

    def s_While(self, node, st):
        idx = mk("idx", st.depth + 1)
        # fully concrete loops are unrolled (tried muted first); everything else is summarised
        outs, cur = [], [st]
        if not isinstance(node.test, ast.Constant) or self.unroll_true:
            self.mute += 1
            si, self.implicit = self.implicit, []
            sr, self.raises = self.raises, []
            try:
                ok = self.unroll_while(node, st, trial=True) is not None
            finally:
                self.mute -= 1
                self.implicit = si
                self.raises = sr
            if ok:
                return self.unroll_while(node, st, trial=False)
        for s in cur:
            def enter(x):
                return self.cond(node.test, x)

            def count(s2, node=node, idx=idx):
                return None
            outs += self.loop(node, s, enter, None, idx)
        return outs

    def iterate(self, body, s, k):
        """iteration k of an unrolled loop: objects and random values made in it are its own"""
        if k:
            self.cstack.append(("it", k))
        try:
            return self.exec_block(body, [s])
        finally:
            if k:
                self.cstack.pop()

    def unroll_while(self, node, st, trial):
        cur, outs, k, work = [st], [], 0, 0
        while cur:
            work += len(cur)
            if k > self.unroll or work > 4 * self.unroll:
                return None
            k += 1
            nxt = []
            for s in cur:
                t, f = self.cond(node.test, s)
                if t and f:
                    return None
                for s2 in f:
                    if not trial and node.orelse:
                        outs += self.exec_block(node.orelse, [s2])
                    else:
                        outs.append(Outcome("next", s2))
                for s2 in t:
                    for o in self.iterate(node.body, s2, k):
                        if o.kind in ("next", "continue"):
                            nxt.append(o.state)
                        elif o.kind == "break":
                            outs.append(Outcome("next", o.state))
                        else:
                            outs.append(o)
            cur = merge_states(nxt, self.limit)
        return outs

    def loop(self, node, st, enter, count, idx):
        """Generic summarised loop. `enter(state)` -> (states entering body, states leaving)."""
        depth = st.depth + 1
        pre = st.clone()
        pre.depth = depth
        wid_env, wid_store, wid_hist = set(), set(), set()
        subs = {}
        lp = mk("lp", depth)

        def widened(final):
            s = pre.clone()
            env = dict(s.env)
            for k in wid_env:
                p = pre.env.get(k, UNDEF)
                env[k] = subs.get(("e", k), mk("lphi", depth, p, ordinal[("e", k)]))
            s.env = env
            sto = dict(s.store)
            for k in wid_store:
                p = pre.store.get(k)
                if p is None:
                    p = mk("attr", k[0], k[1])
                sto[k] = subs.get(("s", k), mk("lphi", depth, p, ordinal[("s", k)]))
            s.store = sto
            h = dict(s.hist)
            for k in wid_hist:
                h[k] = pre.hist.get(k, ()) + (lp,)
            s.hist = h
            return s

        ordinal = {}

        def number():
            # structural ordinal: independent of variable names; by initial value then discovery order
            cnt = {}
            pos = {k: i for i, k in enumerate(pre.env)}
            for k in sorted(wid_env, key=lambda q: (pos.get(q, len(pos)), q)):
                p = pre.env.get(k, UNDEF)
                ordinal[("e", k)] = cnt.get(p, 0)
                cnt[p] = cnt.get(p, 0) + 1
            for k in sorted(wid_store, key=lambda q: (skey(q[0]), q[1])):
                ordinal.setdefault(("s", k), 0)

        def one_pass(s):
            ent, leave = enter(s)
            ends, brk, oth = [], [], []
            if ent:
                for o in self.exec_block(node.body, merge_states(ent, self.limit)):
                    if o.kind in ("next", "continue"):
                        ends.append(o.state)
                    elif o.kind == "break":
                        brk.append(o.state)
                    else:
                        oth.append(o)
            return ends, brk, oth, leave

        # discovery passes (muted)
        self.mute += 1
        saved_impl, self.implicit = self.implicit, []
        try:
            for _ in range(4):
                number()
                s0 = widened(False)
                ends, brk, oth, leave = one_pass(s0)
                changed = False
                live = set(pre.env)
                for e in ends:
                    for k, v in e.env.items():
                        if k in wid_env:
                            continue
                        if k in live and s0.env.get(k) is not v:
                            wid_env.add(k)
                            changed = True
                    for k in live:
                        if k not in e.env and k not in wid_env:
                            pass
                    for k, v in e.store.items():
                        if k in wid_store or k[0].has_new and self._new_inside(k[0], pre):
                            continue
                        if s0.store.get(k) is not v:
                            wid_store.add(k)
                            changed = True
                    for k, v in e.hist.items():
                        if k in wid_hist or (k.has_new and self._new_inside(k, pre)):
                            continue
                        if s0.hist.get(k, ()) != v:
                            wid_hist.add(k)
                            changed = True
                if not changed:
                    break
            # induction variables
            number()
            s0 = widened(False)
            if ends:
                for kind, keys in (("e", wid_env), ("s", wid_store)):
                    for k in list(keys):
                        ini = (pre.env.get(k, UNDEF) if kind == "e" else pre.store.get(k) or mk("attr", k[0], k[1]))
                        ph = mk("lphi", depth, ini, ordinal[(kind, k)])
                        vs = set((e.env.get(k, UNDEF) if kind == "e" else e.store.get(k)) for e in ends)
                        if len(vs) == 1:
                            v = next(iter(vs))
                            if v is None or v is UNDEF:
                                continue
                            if v.op == "lin":
                                l = dict(v.args[0])
                                if l.get(ph) == 1:
                                    del l[ph]
                                    if set(l) <= {None} and l:
                                        stepc = l[None]
                                        subs[(kind, k)] = mk_add(ini, mk_bin("*", const(stepc), idx))
                        elif False:
                            pass
                # variables overwritten unconditionally before use keep no carried value
        finally:
            self.mute -= 1
            self.implicit = saved_impl
        # final pass
        s0 = widened(True)
        entry_facts = s0.facts
        ends, brk, oth, leave = one_pass(s0)
        n = count(st) if count else None
        if n is None:
            n = self.while_count(node, s0, idx)
        outs = []
        for o in oth:
            o.state.depth = st.depth
            o.state.hist = self._fix_hist(o.state.hist, wid_hist, pre, n, depth)
            outs.append(o)
        # after-loop state
        post = pre.clone()
        post.depth = st.depth
        env = dict(pre.env)
        endvars = set()
        for e in ends:
            endvars |= set(e.env)
        for k in endvars:
            vs = [e.env.get(k, UNDEF) for e in ends]
            if k in wid_env:
                fl = self.flag_var(ends, k, pre.env.get(k, UNDEF), mk("lphi", depth, pre.env.get(k, UNDEF), ordinal[("e", k)]), n, depth, entry_facts)
                if ("e", k) in subs:
                    env[k] = subst(subs[("e", k)], {idx: n}) if True else None
                elif fl is not None:
                    env[k] = fl
                else:
                    env[k] = mk_fold(n, depth, pre.env.get(k, UNDEF), mk_phi(vs))
            elif k not in pre.env:
                v = mk_phi(vs)
                if v is not UNDEF:
                    env[k] = mk("last", n, v)
        post.env = env
        sto = dict(pre.store)
        for e in ends:
            for k, v in e.store.items():
                if k not in sto and k not in wid_store and v is not None:
                    sto[k] = v
        for k in wid_store:
            vs = [e.store.get(k) for e in ends]
            ini = pre.store.get(k)
            if ini is None:
                ini = mk("attr", k[0], k[1])
            vs = [v for v in vs if v is not None] or [ini]
            if ("s", k) in subs:
                sto[k] = subst(subs[("s", k)], {idx: n})
            else:
                sto[k] = mk_fold(n, depth, ini, mk_phi(vs))
        post.store = sto
        h = dict(pre.hist)
        for e in ends:
            for k, v in e.hist.items():
                if k not in h and k not in wid_hist:
                    h[k] = v
        for k in wid_hist:
            p = pre.hist.get(k, ())
            deltas = set()
            for e in ends:
                v = e.hist.get(k, ())
                v = tuple(v)
                if v[: len(p)] == p and len(v) > len(p) and v[len(p)] is lp:
                    deltas.add(v[len(p) + 1:])
                else:
                    deltas.add((mk("reset"),) + v)
            if not deltas:
                continue
            ds = tuple(sorted(deltas, key=lambda q: repr([skey(i) for i in q])))
            h[k] = p + (mk("rep", n, depth, ds),)
        post.hist = h
        # facts
        if ends:
            common = frozenset.intersection(*[e.facts for e in ends])
            new = common - entry_facts
            fs = set(pre.facts)
            for f in new:
                fs.add(mk("forall", n, depth, f))
            post.facts = frozenset(fs)
        posts = []
        endless = isinstance(node, ast.While) and isinstance(node.test, ast.Constant) and bool(node.test.value)
        if not endless:
            if isinstance(node, ast.While):
                self.mute += 1
                try:
                    _, f = self.cond(node.test, post)
                finally:
                    self.mute -= 1
                posts = merge_states(f, self.limit) or [post]
            else:
                posts = [post]
        for s in posts:
            outs += self.exec_block(node.orelse, [s]) if node.orelse else [Outcome("next", s)]
        for b in brk:
            b.depth = st.depth
            b.hist = self._fix_hist(b.hist, wid_hist, pre, n, depth)
            b.addfact(mk("broke", n, depth))
            outs.append(Outcome("next", b))
        return outs

    def flag_var(self, ends, k, ini, ph, n, depth, entry_facts):
        """a variable only ever set to one constant inside the loop: flag<n, depth, initial, constant, conditions known when set>"""
        if not is_const(ini):
            return None
        vs = {}
        for e in ends:
            vs.setdefault(e.env.get(k, UNDEF), []).append(e)
        cs = [v for v in vs if v is not ph]
        if len(cs) != 1 or not is_const(cs[0]) or bool(cval(cs[0])) == bool(cval(ini)):
            return None
        conds = frozenset.intersection(*[e.facts for e in vs[cs[0]]]) - entry_facts
        keep = vs.get(ph)
        never = frozenset.intersection(*[e.facts for e in keep]) - entry_facts if keep else frozenset()
        return mk("flag", n, depth, ini, cs[0], tuple(sorted((f for f in conds if f.op in ("t", "f")), key=skey)),
                  tuple(sorted((f for f in never if f.op in ("t", "f")), key=skey)))

    def _new_inside(self, k, pre):
        """object allocated inside the loop body (not existing before)"""
        if k.op == "new":
            return k not in pre.hist and not any(b is k for (b, a) in pre.store)
        return any(x.op == "new" and self._new_inside(x, pre) for x in subterms(k) if x is not k)

    def _fix_hist(self, hist, wid, pre, n, depth):
        lp = mk("lp", depth)
        h = dict(hist)
        for k in wid:
            if k in h and lp in h[k]:
                i = h[k].index(lp)
                h[k] = h[k][:i] + (mk("part", n, depth),) + h[k][i + 1:]
        return h

    def while_count(self, node, s0, idx):
        if isinstance(node, ast.While):
            self.mute += 1
            try:
                for s, v in self.ev(node.test, s0.clone()):
                    if v.op == "ge0":
                        l = dict(v.args[0])
                        if l.get(idx) == -1:      # n - 1 - idx >= 0
                            del l[idx]
                            l[None] = l.get(None, 0) + 1
                            return from_lin(l)
                    elif v.op == "not" and v.args[0].op == "ge0":
                        l = {x: -c for x, c in v.args[0].args[0]}
                        l[None] = l.get(None, 0) - 1
                        if l.get(idx) == -1:
                            del l[idx]
                            l[None] = l.get(None, 0) + 1
                            return from_lin(l)
                    return mk("while", v)
            finally:
                self.mute -= 1
        return mk("while", const("?"))

    def s_Break(self, node, st):
        return [Outcome("break", st)]

    def s_Continue(self, node, st):
        return [Outcome("continue", st)]

    # try -------------------------------------------------------------------
    def s_Try(self, node, st):
        self.implicit.append([len(self.frames)])
        body = self.exec_block(node.body, [st])
        imp = self.implicit.pop()[1:]
        outs = []
        raised = [o for o in body if o.kind == "raise"]
        rest = [o for o in body if o.kind != "raise"]
        imp_states = merge_states([s for s in imp], self.imp_limit[1])
        for s in imp_states:
            raised.append(Outcome("raise", s, mk("exc", "implicit"), node, self.fn()))
        if node.handlers:
            for o in raised:
                matched = False
                implicit = o.value is not None and o.value.op == "exc"
                for hd in node.handlers:
                    m = self.exc_match(hd, o, st)
                    if m == "no":
                        continue
                    s = o.state.clone()
                    s.setvar("__exc", o.value)
                    if hd.name:
                        s.setvar(hd.name, o.value if o.value is not None else mk("exc", "?"))
                    s.addfact(mk("caught", self.exc_name(o.value)))
                    self.record("handler", s, name=ast.unparse(hd.type) if hd.type else "*", value=o.value, node=hd)
                    outs += self.exec_block(hd.body, [s])
                    if m == "yes":
                        matched = True
                        break
                if not matched:
                    # implicit failures not matched by any handler leave the function
                    outs.append(o)
        else:
            outs += raised
        for o in rest:
            if o.kind == "next" and node.orelse:
                outs += self.exec_block(node.orelse, [o.state])
            else:
                outs.append(o)
        if node.finalbody:
            fin = []
            for o in outs:
                for f in self.exec_block(node.finalbody, [o.state]):
                    if f.kind == "next":
                        fin.append(Outcome(o.kind, f.state, o.value, o.node, o.fn))
                    else:
                        fin.append(f)
            outs = fin
        # explicit "escapes" of implicit exceptions stay implicit for outer collectors
        return outs

    s_TryStar = s_Try

    def exc_name(self, v):
        if v is None:
            return "?"
        if v.op == "call":
            return str(v.args[0])
        if v.op == "new":
            return v.args[0]
        if v.op in ("cls", "ext", "builtin"):
            return str(v.args[0])
        return v.op

    def exc_match(self, hd, o, st):
        """'yes' | 'no' | 'maybe'"""
        if hd.type is None:
            return "yes"
        types = hd.type.elts if isinstance(hd.type, ast.Tuple) else [hd.type]
        names = [ast.unparse(t) for t in types]
        if any(n in ("Exception", "BaseException") for n in names):
            return "yes"
        v = o.value
        if v is None or v.op == "exc" or v.op == "phi":
            return "maybe"
        en = self.exc_name(v).replace("cls:", "")
        chain = {en.rsplit(":", 1)[-1].rsplit(".", 1)[-1]}
        ci = self.cls_of.get(en)
        if ci is None and en in self.cls_by_short:
            ci = self.cls_by_short[en]
        if ci is not None:
            for c in self.repo.mro(ci):
                chain.add(c.qual)
                for b in c.node.bases:
                    chain.add(ast.unparse(b).rsplit(".", 1)[-1])
        py = {"ValueError": ["Exception"], "AssertionError": ["Exception"], "KeyError": ["LookupError"], "IndexError": ["LookupError"]}
        for c in list(chain):
            chain.update(py.get(c, []))
        for n in names:
            if n.rsplit(".", 1)[-1] in chain:
                return "yes"
        return "no"

    def s_With(self, node, st):
        sts = [st]
        for it in node.items:
            n2 = []
            for s in sts:
                for s2, v in self.ev(it.context_expr, s):
                    if it.optional_vars is not None:
                        n2 += self.assign(it.optional_vars, v, s2.clone())
                    else:
                        n2.append(s2)
            sts = n2
        return self.exec_block(node.body, sts)

    s_AsyncWith = s_With

    # ------------------------------------------------------------------ conditions
    def cond(self, node, st):
        """-> (true states, false states)"""
        if isinstance(node, ast.BoolOp):
            if isinstance(node.op, ast.And):
                cur, fs = [st], []
                for v in node.values:
                    n2 = []
                    for s in cur:
                        t, f = self.cond(v, s)
                        n2 += t
                        fs += f
                    cur = n2
                return cur, fs
            cur, ts = [st], []
            for v in node.values:
                n2 = []
                for s in cur:
                    t, f = self.cond(v, s)
                    ts += t
                    n2 += f
                cur = n2
            return ts, cur
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.cond(node.operand, st)
            return f, t
        if isinstance(node, ast.Name) and node.id == "__debug__":
            return ([st], []) if self.debug_on else ([], [st])
        ts, fs = [], []
        for s, v in self.ev(node, st):
            t, f = self.branch(v, s)
            ts += t
            fs += f
        return ts, fs

    def branch(self, v, st):
        v = self.resolve(v, st) if v.op not in ("new",) else v
        d = self.decide(v, st)
        if d is True:
            return [st], []
        if d is False:
            return [], [st]
        t, f = st.clone(), st.clone()
        self.assume(t, v, True)
        self.assume(f, v, False)
        return [t], [f]

    def interval(self, t):
        """bounds of an integer term, from the declared ranges of its variables; None when unknown"""
        r = self.ranges.get(t)
        if r is not None:
            return r
        if is_const(t) and type(cval(t)) in (int, bool):
            return int(cval(t)), int(cval(t))
        if t.op == "lin":
            lo = hi = 0
            for x, c in t.args[0]:
                a = (1, 1) if x is None else self.interval(x)
                if a is None:
                    return None
                lo, hi = lo + min(a[0] * c, a[1] * c), hi + max(a[0] * c, a[1] * c)
            return lo, hi
        if t.op == "bin" and len(t.args) == 3 and is_const(t.args[2]) and type(cval(t.args[2])) is int:
            a, n = self.interval(t.args[1]), cval(t.args[2])
            if a is None or n < 0:
                return None
            op = t.args[0]
            if op == ">>":
                return a[0] >> n, a[1] >> n
            if op == "<<":
                return a[0] << n, a[1] << n
            if op == "//" and n:
                return a[0] // n, a[1] // n
            if op == "&" and a[0] >= 0:
                return (a[0], a[1]) if n & (n + 1) == 0 and a[1] <= n else (0, min(n, a[1]))
        return None

    def decide_range(self, v):
        if v.op in ("ge0", "eq0"):
            a = self.interval(mk("lin", v.args[0]))
            if a is None:
                return None
            if v.op == "ge0":
                return True if a[0] >= 0 else False if a[1] < 0 else None
            return True if a == (0, 0) else False if a[0] > 0 or a[1] < 0 else None
        a = self.interval(v)
        if a is None:
            return None
        return True if a[0] > 0 or a[1] < 0 else False if a == (0, 0) else None

    def decide(self, v, st):
        if self.ranges:
            r = self.decide_range(v)
            if r is not None:
                return r
        if v.op == "const":
            return bool(cval(v))
        if v.op == "not":
            d = self.decide(v.args[0], st)
            return None if d is None else (not d)
        if v.op == "new":
            if v.args[0] in ("list", "dict", "set", "bytearray"):
                h = st.hist.get(v, ())
                if not h:
                    return False
                if any(isinstance(p, T) and p.op == "i" for p in h) and all(isinstance(p, T) and p.op in ("i", "rep", "ext") for p in h):
                    return True
                return None
            return True
        if v.op in ("func", "cls", "mod", "lambda", "closure", "bound"):
            return True
        if v.op == "tuple":
            return len(v.args) > 0
        if v.op == "and":
            ds = [self.decide(x, st) for x in v.args]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
            return None
        if v.op == "or":
            ds = [self.decide(x, st) for x in v.args]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
            return None
        if mk("t", v) in st.facts:
            return True
        if mk("f", v) in st.facts:
            return False
        if v.op == "is" and v.args[1] is NONE:
            x = v.args[0]
            if x.op in ("new", "obj", "tuple", "func", "cls", "mod", "add", "lin", "fresh", "lambda", "closure", "fstr") or (x.op == "const" and cval(x) is not None):
                return False
            if mk("t", x) in st.facts:
                return False
        if v.op == "eq0" and len(v.args[0]) == 2 and v.args[0][1][0] is None:
            x, c = v.args[0][0]
            for f in st.facts:
                if f.op == "t" and f.args[0].op == "eq0" and len(f.args[0].args[0]) <= 2 and f.args[0].args[0][0][0] is x and f.args[0] is not v \
                        and f.args[0].args[0][0][1] == c:
                    return False
        if v.op == "eq" and (is_const(v.args[0]) or is_const(v.args[1])):
            a, b = v.args
            if is_const(a):
                a, b = b, a
            for f in st.facts:
                if f.op == "t" and f.args[0].op == "eq" and a in f.args[0].args and f.args[0] is not v:
                    o = [x for x in f.args[0].args if x is not a]
                    if len(o) == 1 and is_const(o[0]):
                        return False
        if v.op == "isinst":
            return None
        return None

    def assume(self, st, v, pol):
        if v.op == "const":
            return
        if v.op == "not":
            return self.assume(st, v.args[0], not pol)
        if v.op == "and" and pol:
            for x in v.args:
                self.assume(st, x, True)
            return
        if v.op == "or" and not pol:
            for x in v.args:
                self.assume(st, x, False)
            return
        st.addfact(mk("t" if pol else "f", v))
        if v.op == "flag" and pol == bool(cval(v.args[3])):
            # the loop body set it in some iteration: the conditions held for that element
            for f in v.args[4]:
                st.addfact(f)
            st.addfact(mk("broke", v.args[0], v.args[1]))
        elif v.op == "flag" and pol == bool(cval(v.args[2])):
            for f in v.args[5]:
                st.addfact(mk("forall", v.args[0], v.args[1], f))
        if v.op == "call" and v.args[0] in ("any", "all") and len(v.args) == 2 and v.args[1].op == "obj" and len(v.args[1].args[1]) == 1:
            r = v.args[1].args[1][0]
            if isinstance(r, T) and r.op == "rep" and len(r.args[2]) == 1 and len(r.args[2][0]) == 1 and r.args[2][0][0].op == "i":
                e = r.args[2][0][0].args[0]
                tmp = st.clone()
                tmp.facts = frozenset()
                self.assume(tmp, e, pol)
                for f in tmp.facts:
                    if (v.args[0] == "any") == pol:
                        st.addfact(f)
                    else:
                        st.addfact(mk("forall", r.args[0], r.args[1], f))
                if (v.args[0] == "any") == pol:
                    st.addfact(mk("broke", r.args[0], r.args[1]))

    # ------------------------------------------------------------------ expressions
    def ev(self, node, st):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Broken("unsupported expression %s in %s" % (type(node).__name__, self.fn()))
        r = m(node, st)
        if len(r) > self.limit * 2:
            r = self.cap_vals(r)
        return r

    def cap_vals(self, r):
        by = {}
        for s, v in r:
            by.setdefault(v, []).append(s)
        out = []
        for v, ss in by.items():
            for s in merge_states(ss, max(1, self.limit // max(1, len(by)))):
                out.append((s, v))
        if len(out) > self.limit * 2:
            sts = [s for s, v in out]
            m = sts[0]
            for s in sts[1:]:
                m = merge_two(m, s)
            return [(m, mk_phi([v for s, v in out]))]
        return out

    def ev_list(self, nodes, st):
        cur = [(st, ())]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s):
                        it = self.concrete_items(v, s2)
                        if it is not None:
                            nxt.append((s2, vs + tuple(it)))
                        else:
                            nxt.append((s2, vs + (mk("star", self.resolve(v, s2)),)))
                else:
                    for s2, v in self.ev(n, s):
                        nxt.append((s2, vs + (v,)))
            cur = nxt
            if len(cur) > self.limit * 2:
                sts = merge_states([s for s, v in cur], self.limit)
                if len(set(v for s, v in cur)) == 1:
                    cur = [(s, cur[0][1]) for s in sts]
        return cur

    def e_Constant(self, node, st):
        v = node.value
        if v is Ellipsis:
            return [(st, mk("ellipsis"))]
        return [(st, const(v))]

    def e_Name(self, node, st):
        n = node.id
        if n in st.env:
            return [(st, st.env[n])]
        return [(st, self.global_name(n))]

    def global_name(self, n):
        m = self.stack[-1].module
        r = self.repo.resolve(m.name, n)
        v = self.from_resolution(r)
        if v is not None:
            return v
        if n in BUILTINS:
            return mk("builtin", n)
        return mk("global", m.name.rsplit(".", 1)[-1], n)

    def e_Await(self, node, st):
        outs = self.ev(node.value, st)
        if not isinstance(node.value, ast.Call):
            for s, v in outs:
                self.implicit_raise(s)      # the awaited computation fails here, not where it was created
        return outs

    def e_Yield(self, node, st):
        if node.value is None:
            return [(st, mk("yielded"))]
        outs = []
        for s, v in self.ev(node.value, st):
            self.record("yield", s, name="yield", value=self.resolve(v, s), node=node)
            outs.append((s, mk("yielded")))
        return outs

    def e_YieldFrom(self, node, st):
        return self.ev(node.value, st)

    def e_NamedExpr(self, node, st):
        outs = []
        for s, v in self.ev(node.value, st):
            for s2 in self.assign(node.target, v, s.clone()):
                outs.append((s2, v))
        return outs

    def e_Tuple(self, node, st):
        return [(s, mk("tuple", *vs)) for s, vs in self.ev_list(node.elts, st)]

    def e_List(self, node, st):
        outs = []
        for s, vs in self.ev_list(node.elts, st):
            s = s.clone()
            t = mk("new", "list", self.site(node, s), self.loopkey(s))
            s.sethist(t, tuple(mk("i", v) if v.op != "star" else mk("ext", v.args[0]) for v in vs))
            outs.append((s, t))
        return outs

    def e_Set(self, node, st):
        outs = []
        for s, vs in self.ev_list(node.elts, st):
            s = s.clone()
            t = mk("new", "set", self.site(node, s), self.loopkey(s))
            s.sethist(t, tuple(mk("i", v) for v in vs))
            outs.append((s, t))
        return outs

    def e_Dict(self, node, st):
        outs = []
        if any(k is None for k in node.keys):
            ks = [k for k in node.keys if k is not None]
        cur = [(st, ())]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, acc in cur:
                if k is None:
                    for s2, vv in self.ev(v, s):
                        nxt.append((s2, acc + (mk("upd", self.resolve(vv, s2)),)))
                else:
                    for s2, kk in self.ev(k, s):
                        for s3, vv in self.ev(v, s2):
                            nxt.append((s3, acc + (mk("set", self.resolve(kk, s3), vv),)))
            cur = nxt
        for s, acc in cur:
            s = s.clone()
            t = mk("new", "dict", self.site(node, s), self.loopkey(s))
            s.sethist(t, acc)
            outs.append((s, t))
        return outs

    def loopkey(self, st):
        return st.depth

    def e_JoinedStr(self, node, st):
        parts = [v for v in node.values]
        return [(s, mk("fstr", *[self.resolve(v, s) for v in vs])) for s, vs in self.ev_list(parts, st)]

    def e_FormattedValue(self, node, st):
        return self.ev(node.value, st)

    def e_BinOp(self, node, st):
        op = BINOPS[type(node.op)]
        outs = []
        for s, a in self.ev(node.left, st):
            for s2, b in self.ev(node.right, s):
                ra, rb = self.resolve(a, s2), self.resolve(b, s2)
                if op == "+" and (a.op == "new" and a.args[0] == "list" or b.op == "new" and b.args[0] == "list"):
                    s3 = s2.clone()
                    t = mk("new", "list", self.site(node, s3), self.loopkey(s3))
                    s3.sethist(t, ())
                    self.extend(s3, t, a)
                    self.extend(s3, t, b)
                    outs.append((s3, t))
                    continue
                if op == "*" and a.op == "new" and a.args[0] == "list":
                    h = s2.hist.get(a, ())
                    s3 = s2.clone()
                    t = mk("new", "list", self.site(node, s3), self.loopkey(s3))
                    if is_num(rb) and 0 <= cval(rb) <= self.unroll:
                        s3.sethist(t, tuple(h) * cval(rb))
                    else:
                        s3.sethist(t, (mk("rep", rb, s3.depth + 1, (tuple(h),)),))
                    outs.append((s3, t))
                    continue
                if op == "%" and is_const(ra) and ra.args[0] == "str":
                    outs.append((s2, mk("fmt", ra, rb)))
                    continue
                outs.append((s2, mk_bin(op, ra, rb)))
        return outs

    def e_UnaryOp(self, node, st):
        if isinstance(node.op, ast.Not):
            t, f = self.cond(node.operand, st)
            return [(s, FALSE) for s in t] + [(s, TRUE) for s in f]
        outs = []
        for s, v in self.ev(node.operand, st):
            v = self.resolve(v, s)
            if isinstance(node.op, ast.USub):
                outs.append((s, from_lin(_lin_into({}, v, -1))))
            elif is_const(v) and isinstance(node.op, ast.Invert):
                outs.append((s, const(~cval(v))))
            else:
                outs.append((s, mk("un", type(node.op).__name__, v)))
        return outs

    def e_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)
        outs, cur = [], [st]
        for i, vn in enumerate(node.values):
            nxt = []
            lastv = i == len(node.values) - 1
            for s in cur:
                for s2, v in self.ev(vn, s):
                    if lastv:
                        outs.append((s2, v))
                        continue
                    t, f = self.branch(v, s2)
                    if isand:
                        nxt += t
                        outs += [(x, self.falsy(v)) for x in f]
                    else:
                        nxt += f
                        outs += [(x, self.truthy(v)) for x in t]
            cur = nxt
        return outs

    def falsy(self, v):
        return v if v.op not in ("eq", "eq0", "ge0", "is", "in", "not", "isinst") else FALSE

    def truthy(self, v):
        return v if v.op not in ("eq", "eq0", "ge0", "is", "in", "not", "isinst") else TRUE

    def e_Compare(self, node, st):
        cur = [(s, v, None) for s, v in self.ev(node.left, st)]
        for op, right in zip(node.ops, node.comparators):
            nxt = []
            for s, left, acc in cur:
                for s2, r in self.ev(right, s):
                    o = CMPOPS[type(op)]
                    if o in ("is", "is not") and (left.op == "new" or r.op == "new"):
                        lt, rt = left, r
                    else:
                        lt, rt = self.resolve(left, s2), self.resolve(r, s2)
                    if o in ("in", "not in"):
                        items = self.concrete_items(r, s2)
                        if items is not None and all(is_const(x) for x in items):
                            if is_const(lt):
                                c = const((lt in items) == (o == "in"))
                                nxt.append((s2, r, c if acc is None else mk("and", acc, c)))
                                continue
                            rt = mk("oneof", *sorted(items, key=skey))
                            if len(items) == 1:
                                o = "==" if o == "in" else "!="
                                rt = items[0]
                        elif items is not None and len(items) == 1:
                            o = "==" if o == "in" else "!="
                            rt = self.resolve(items[0], s2)
                    c, pol = mk_cmp(o, lt, rt)
                    if not pol:
                        c = mk("not", c) if not is_const(c) else const(not cval(c))
                    nxt.append((s2, r, c if acc is None else mk("and", acc, c)))
            cur = nxt
        return [(s, acc) for s, r, acc in cur]

    def e_IfExp(self, node, st):
        t, f = self.cond(node.test, st)
        outs = []
        for s in t:
            outs += self.ev(node.body, s)
        for s in f:
            outs += self.ev(node.orelse, s)
        return outs

    def e_Lambda(self, node, st):
        t = mk("lambda", self.site(node, st), ast.unparse(node))
        fi = FuncInfo(self.stack[-1].module, self.stack[-1].qual + ".<lambda>", node, None)
        self.lam[t] = (fi, st.env, node)
        return [(st, t)]

    def e_Starred(self, node, st):
        return self.ev(node.value, st)

    def e_Slice(self, node, st):
        raise Broken("slice")

    def ev_index(self, node, st):
        if isinstance(node, ast.Slice):
            outs = []
            for s, lo in (self.ev(node.lower, st) if node.lower else [(st, const(0))]):
                for s2, hi in (self.ev(node.upper, s) if node.upper else [(s, NONE)]):
                    for s3, stp in (self.ev(node.step, s2) if node.step else [(s2, NONE)]):
                        if lo is NONE:
                            lo = const(0)
                        outs.append((s3, mk("slice", lo, hi, stp) if stp is not NONE else mk("slice", lo, hi)))
            return outs
        return self.ev(node, st)

    def e_Subscript(self, node, st):
        outs = []
        for s, b in self.ev(node.value, st):
            for s2, i in self.ev_index(node.slice, s):
                outs.append((s2, self.get_sub(b, i, s2)))
        return outs

    def get_sub(self, b, i, st):
        i = self.resolve(i, st)
        h = st.hist.get(b)
        if b.op == "tuple" and h is None and is_num(i) and -len(b.args) <= cval(i) < len(b.args):
            return b.args[cval(i)]
        if b.op == "tuple" and h is None and i.op == "slice" and all(x is NONE or is_num(x) for x in i.args):
            return mk("tuple", *b.args[slice(*[None if x is NONE else cval(x) for x in i.args])])
        if b.op == "new" and b.args[0] == "list" and h is not None:
            if all(isinstance(p, T) and p.op == "i" for p in h):
                if is_num(i) and -len(h) <= cval(i) < len(h):
                    return h[cval(i)].args[0]
                if i.op == "slice" and all(x is NONE or is_num(x) for x in i.args):
                    items = [p.args[0] for p in h]
                    sl = items[slice(*[cval(x) for x in i.args])]
                    return norm_obj("list", tuple(mk("i", x) for x in sl))
            if is_num(i) and cval(i) == -1 and h and isinstance(h[-1], T) and h[-1].op == "i":
                return h[-1].args[0]
        if h:
            for p in reversed(h):
                if isinstance(p, T) and p.op == "set":
                    if p.args[0] is i:
                        return p.args[1]
                    if is_const(p.args[0]) and is_const(i):
                        continue
                if isinstance(p, T) and p.op == "i" and is_num(i) and cval(i) == -1:
                    return p.args[0]
                break
        return mk_sub(self.resolve(b, st), i)

    def e_Attribute(self, node, st):
        outs = []
        for s, b in self.ev(node.value, st):
            outs += self.get_attr(b, node.attr, s, node)
        return outs

    def get_attr(self, b, name, st, node):
        v = st.store.get((b, name))
        if v is not None:
            return [(st, v)]
        if name == "__class__" and b.op == "new" and str(b.args[0]).startswith("cls:"):
            ci = self.type_of(b, st)
            if ci is not None:
                self.cls_of.setdefault(ci.cid, ci)
                return [(st, mk("cls", ci.cid))]
        if name == "__dict__" and self.dicts and b.op == "new":
            # instance attributes, in the order of their first assignment
            t = mk("new", "dict", self.site(node, st), self.loopkey(st))
            st.sethist(t, tuple(mk("set", const(k[1]), x) for k, x in st.store.items() if k[0] is b))
            return [(st, t)]
        if b.op == "icall" and b.args[0] in self.tuples and name in self.tuples[b.args[0]]:
            return [(st, b.args[1 + self.tuples[b.args[0]].index(name)])]
        if b.op == "mod":
            if b.args[0] in self.repo.modules:
                r = self.from_resolution(self.repo.resolve(b.args[0], name))
                if r is not None:
                    return [(st, r)]
                return [(st, mk("global", b.args[0].rsplit(".", 1)[-1], name))]
            if b.args[0] + "." + name in self.repo.modules:
                return [(st, mk("mod", b.args[0] + "." + name))]
            return [(st, mk("ext", canon_ext(b.args[0] + "." + name)))]
        if b.op == "ext":
            return [(st, mk("ext", canon_ext(b.args[0] + "." + name)))]
        if b.op == "cls":
            ci = self.cls_of.get(b.args[0])
            if ci is not None:
                m = self.repo.find_method(ci, name)
                if m is not None:
                    self._reg_f(m)
                    if "classmethod" in m.decos:
                        return [(st, mk("bound", b, m.fid))]
                    return [(st, mk("func", m.fid))]
                ca = self.repo.find_classattr(ci, name)
                if ca is not None:
                    v = self.eval_simple(ca[0].module, ca[1])
                    if v is None:
                        v = self.class_level(ca[0], ca[1])
                    return [(st, v if v is not None else mk("attr", b, name))]
            return [(st, mk("attr", b, name))]
        if b.op == "obj" and len(b.args) > 1 and isinstance(b.args[1], tuple) and b.args[1] and isinstance(b.args[1][0], tuple):
            for a, v in b.args[1]:
                if a == name:
                    return [(st, v)]
        h = st.hist.get(b) if b.op == "new" else (b.args[1] if b.op == "obj" and len(b.args) > 1 and isinstance(b.args[1], tuple) else None)
        if h and isinstance(h[0], T) and h[0].op == "ctor":
            for k in h[0].args:
                if k.op == "kw" and k.args[0] == name:
                    return [(st, k.args[1])]
        if b.op == "phi" and len(b.args) <= 6:
            outs = [self.get_attr(x, name, st, node) for x in b.args if x is not NONE and x is not UNDEF]
            if outs and all(len(o) == 1 for o in outs) and not any(o[0][1].op in ("bound",) for o in outs):
                return [(st, mk_phi([o[0][1] for o in outs]))]
        ci = self.type_of(b, st)
        if ci is not None:
            m = self.repo.find_method(ci, name)
            if m is not None:
                self._reg_f(m)
                if "property" in m.decos:
                    return self.call_func(m, (b,), {}, st, node)
                if "staticmethod" in m.decos:
                    return [(st, mk("func", m.fid))]
                return [(st, mk("bound", b, m.fid))]
            ca = self.repo.find_classattr(ci, name)
            if ca is not None:
                if isinstance(ca[1], ast.Name):
                    # method alias in the class body
                    m = self.repo.find_method(ci, ca[1].id)
                    if m is not None:
                        self._reg_f(m)
                        return [(st, mk("bound", b, m.fid))]
                v = self.eval_simple(ca[0].module, ca[1])
                if v is None:
                    v = self.class_level(ca[0], ca[1])
                if v is not None:
                    return [(st, v)]
        if self.reads is not None:
            self.reads.add((b, name, self.stack[-1].fid if self.stack else None))
        return [(st, mk("attr", self.resolve(b, st) if b.op != "new" else b, name))]

    def class_level(self, ci, node):
        """Constant expression that may use other class-level names."""
        if isinstance(node, ast.Call) and len(node.args) == 1:
            return self.eval_simple(ci.module, node.args[0])
        if isinstance(node, ast.Name) and node.id in ci.attrs:
            return self.eval_simple(ci.module, ci.attrs[node.id])
        if isinstance(node, (ast.List, ast.Tuple)):
            vs = [self.eval_simple(ci.module, e) for e in node.elts]
            if all(v is not None for v in vs):
                return mk("tuple", *vs)
        return None

    # comprehensions ------------------------------------------------------------
    def _comp(self, node, st, kind, elt, key=None):
        var = "__comp%d" % (len(self.stack) * 1000 + node.col_offset + node.lineno * 7)
        tmp = ast.Name(id=var, ctx=ast.Load())
        if kind == "dict":
            body = [ast.Assign(targets=[ast.Subscript(value=tmp, slice=key, ctx=ast.Store())], value=elt)]
        else:
            body = [ast.Expr(ast.Call(func=ast.Attribute(value=tmp, attr="append", ctx=ast.Load()), args=[elt], keywords=[]))]
        for g in reversed(node.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for b in body:
            ast.fix_missing_locations(ast.copy_location(b, node))
            for x in ast.walk(b):
                if not hasattr(x, "lineno"):
                    ast.copy_location(x, node)
        s = st.clone()
        t = mk("new", "list" if kind != "dict" else "dict", self.site(node, s), self.loopkey(s))
        s.sethist(t, ())
        s.setvar(var, t)
        keep = st.env
        outs = []
        key_ast = ("comp", id(node))
        if key_ast not in self.lam:
            self.lam[key_ast] = body
        body = self.lam[key_ast]
        for o in self.exec_block(body, [s]):
            if o.kind == "next":
                s2 = o.state.clone()
                s2.env = keep
                outs.append((s2, t))
            elif o.kind == "raise":
                self.raises.append(o)
        return outs

    def _comp_ast(self, node):
        return node

    def e_ListComp(self, node, st):
        return self._comp(node, st, "list", node.elt)

    def e_GeneratorExp(self, node, st):
        return self._comp(node, st, "list", node.elt)

    def e_SetComp(self, node, st):
        return self._comp(node, st, "set", node.elt)

    def e_DictComp(self, node, st):
        return self._comp(node, st, "dict", node.value, node.key)

    # calls ---------------------------------------------------------------------
    def e_Call(self, node, st):
        # super().meth(...)
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Call) and isinstance(node.func.value.func, ast.Name) \
                and node.func.value.func.id == "super":
            return self.call_super(node, st)
        outs = []
        if isinstance(node.func, ast.Name) and node.func.id in ("any", "all") and len(node.args) == 1 and not node.keywords \
                and isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp)) and node.func.id not in st.env:
            return self.any_all(node, st)
        if isinstance(node.func, ast.Attribute):
            for s, b in self.ev(node.func.value, st):
                for s2, args, kw in self.ev_args(node, s):
                    outs += self.call_method(b, node.func.attr, args, kw, s2, node)
            return outs
        for s, f in self.ev(node.func, st):
            for s2, args, kw in self.ev_args(node, s):
                outs += self.call_value(f, args, kw, s2, node)
        return outs

    def any_all(self, node, st):
        """any(c for ...) is a flag set in some iteration"""
        key = ("anyall", id(node))
        isany = node.func.id == "any"
        var = "__flag%d" % (len(self.stack) * 1000 + node.col_offset + node.lineno * 7)
        if key not in self.lam:
            gen = node.args[0]
            test = gen.elt if isany else ast.UnaryOp(op=ast.Not(), operand=gen.elt)
            body = [ast.If(test=test, body=[ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())], value=ast.Constant(value=isany))], orelse=[])]
            for g in reversed(gen.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
            for b in body:
                for x in ast.walk(b):
                    if not hasattr(x, "lineno"):
                        ast.copy_location(x, node)
                ast.fix_missing_locations(b)
            self.lam[key] = body
        s = st.clone()
        s.setvar(var, const(not isany))
        keep = st.env
        outs = []
        for o in self.exec_block(self.lam[key], [s]):
            if o.kind == "next":
                v = o.state.env.get(var)
                s2 = o.state.clone()
                s2.env = keep
                outs.append((s2, v))
            elif o.kind == "raise":
                self.raises.append(o)
        return outs

    def ev_args(self, node, st):
        outs = []
        for s, args in self.ev_list(node.args, st):
            cur = [(s, ())]
            for k in node.keywords:
                nxt = []
                for s2, acc in cur:
                    for s3, v in self.ev(k.value, s2):
                        if k.arg is None:
                            if v.op == "new" and v.args[0] == "dict":
                                h = s3.hist.get(v, ())
                                if all(p.op == "set" and is_const(p.args[0]) for p in h):
                                    nxt.append((s3, acc + tuple((cval(p.args[0]), p.args[1]) for p in h)))
                                    continue
                            nxt.append((s3, acc + (("**", v),)))
                        else:
                            nxt.append((s3, acc + ((k.arg, v),)))
                cur = nxt
            for s2, acc in cur:
                outs.append((s2, args, dict(acc)))
        return outs

    def call_super(self, node, st):
        cur = self.stack[-1]
        selfv = None
        for n in ("self", "cls"):
            if n in st.env:
                selfv = st.env[n]
        meth = node.func.attr
        outs = []
        cls = cur.cls
        m = None
        if cls is not None:
            dyn = self.type_of(selfv, st) if selfv is not None else None
            order = self.repo.mro(dyn) if dyn is not None else self.repo.mro(cls)
            if cls in order:
                order = order[order.index(cls) + 1:]
            else:
                order = self.repo.mro(cls)[1:]
            for c in order:
                if meth in c.methods:
                    m = c.methods[meth]
                    break
        for s, args, kw in self.ev_args(node, st):
            if m is not None:
                outs += self.call_func(m, (selfv,) + args, kw, s, node)
            else:
                if meth == "__init__" and selfv is not None:
                    s = s.clone()
                    if args:
                        s.setstore(selfv, "args", mk("tuple", *args))
                outs.append((s, mk("call", "super." + meth, *[self.resolve(a, s) for a in args])))
        return outs

    def call_method(self, b, name, args, kw, st, node):
        # function-valued attribute stored on the object
        v = st.store.get((b, name))
        if v is not None and v.op != "undef":
            return self.call_value(v, args, kw, st, node)
        if b.op in ("mod", "ext", "cls"):
            outs = []
            for s, f in self.get_attr(b, name, st, node):
                outs += self.call_value(f, args, kw, s, node)
            return outs
        if b.op == "phi":
            cands = [x for x in b.args if x is not NONE and x is not UNDEF]
            if 1 <= len(cands) <= 4 and any(self.type_of(x, st) is not None for x in cands):
                outs = []
                for x in cands:
                    outs += self.call_method(x, name, args, kw, st.clone(), node)
                return outs
        ci = self.type_of(b, st)
        if ci is not None:
            m = self.repo.find_method(ci, name)
            if m is not None:
                if "staticmethod" in m.decos:
                    return self.call_func(m, args, kw, st, node)
                return self.call_func(m, (b,) + args, kw, st, node)
            ca = self.repo.find_classattr(ci, name)
            if ca is not None and isinstance(ca[1], ast.Name):
                m = self.repo.find_method(ci, ca[1].id)
                if m is not None:
                    return self.call_func(m, (b,) + args, kw, st, node)
        return self.opaque_method(b, name, args, kw, st, node)

    def opaque_method(self, b, name, args, kw, st, node):
        st = st.clone()
        if is_const(b) and isinstance(cval(b), (str, bytes)) and not kw and name in ("startswith", "endswith", "upper", "lower", "strip", "lstrip", "rstrip", "replace", "find", "isdigit"):
            la = [literal(self, a, st) for a in args]
            if all(a is not None for a in la):
                try:
                    return [(st, const(getattr(cval(b), name)(*[a[0] for a in la])))]
                except Exception:
                    pass
        ra = tuple(self.resolve(a, st) for a in args) + tuple(mk("kw", k, self.resolve(v, st)) for k, v in sorted(kw.items()))
        if b.op == "new" or (b in st.hist):
            kind = b.args[0] if b.op == "new" else None
            if name == "append" and len(args) == 1:
                self.implicit_raise(st)
                self.record("mcall", st, name=name, base=b, args=ra, value=NONE, node=node)
                st.sethist(b, st.hist.get(b, ()) + (mk("i", args[0]),))
                return [(st, NONE)]
            if name == "add" and kind == "set":
                st.sethist(b, st.hist.get(b, ()) + (mk("i", args[0]),))
                return [(st, NONE)]
            if name == "extend" and len(args) == 1:
                self.extend(st, b, args[0])
                return [(st, NONE)]
        if b.op == "new" and b.args[0] == "dict":
            if name == "get" and 1 <= len(args) <= 2:
                ks = self.concrete_items(b, st)
                if ks is not None and is_const(args[0]) and args[0] not in ks:
                    return [(st, args[1] if len(args) > 1 else NONE)]
                v = self.get_sub(b, args[0], st)
                return [(st, mk_phi([v, args[1] if len(args) > 1 else NONE]) if v.op == "sub" else v)]
        if name in ("items", "keys", "values") and not args:
            return [(st, mk(name, b))]
        if is_const(b) and all(is_const(a) for a in ra) and name in ("encode", "decode", "hex", "lower", "upper", "join", "format", "to_bytes") and not kw:
            try:
                return [(st, const(getattr(cval(b), name)(*[cval(a) for a in ra])))]
            except Exception:
                pass
        if name == "index" and len(ra) == 1 and b.op == "tuple" and is_const(ra[0]) and all(is_const(x) for x in b.args):
            k = [cval(x) for x in b.args]
            if cval(ra[0]) in k:
                return [(st, const(k.index(cval(ra[0]))))]
            self.raises.append(Outcome("raise", st, mk("call", "ValueError"), node, self.fn()))
            return []
        if name == "join" and is_const(b) and len(args) == 1:
            items = self.concrete_items(args[0], st)
            if items is not None and cval(b) in (b"", ""):
                return [(st, mk_add(*[self.resolve(x, st) for x in items]) if items else b)]
        if name == "copy" and not ra and b.op == "new" and SINK_RE.search(str(b.args[0])):
            # a copied hash state goes on independently of the original
            t = mk("new", b.args[0], self.site(node, st), self.loopkey(st))
            st.sethist(t, st.hist.get(b, ()))
            return [(st, t)]
        base = self.resolve(b, st)
        if name in ("append", "extend", "pop", "remove", "insert", "clear") and b.op != "new":
            # tracked container reached through attribute
            self.implicit_raise(st)
            self.record("mcall", st, name=name, base=b, args=ra, value=NONE, node=node)
            if name == "append":
                st.sethist(b, st.hist.get(b, ()) + (mk("i", args[0]),))
                return [(st, NONE)]
            if name == "extend":
                self.extend(st, b, args[0])
                return [(st, NONE)]
            val = mk("mcall", name, base, *ra)
            st.sethist(b, st.hist.get(b, ()) + (mk("m", name, *ra),))
            return [(st, val)]
        val = mk("mcall", name, base, *ra)
        mutates = name in MUTATORS or (b.op == "new" and name not in PURE_METHODS)
        if self.is_fresh("." + name):
            val = mk("fresh", name, self.fsite(node, st), base, *ra)
        self.implicit_raise(st)
        if name == "readinto" and len(args) == 1 and args[0].op == "new" and args[0].args[0] == "bytearray":
            self.mutate(st, args[0], mk("m", "readinto", self.resolve(b, st)))
        self.record("mcall", st, name=name, base=b, args=ra, value=val, node=node)
        st.addfact(mk("done", val))
        if mutates:
            st.sethist(b, st.hist.get(b, ()) + (mk("m", name, *ra),))
            for w in self.links.get(b, ()):
                self.mutate(st, w, mk("m", "<" + name + ">", *ra))
        self.sink_args(st, name, args, ra)
        return [(st, val)]

    def is_fresh(self, name):
        return bool(FRESH_RE.search(name)) or any(r.search(name) for r in self.fresh_re)

    def implicit_raise(self, st):
        if self.implicit:
            c = self.implicit[-1]
            s = st.clone()
            if len(self.frames) > c[0]:
                s.env = self.frames[c[0]]      # the handler runs in the function of the try statement
            if len(c) <= self.imp_limit[0]:
                c.append(s)
            else:
                c[-1] = merge_two(c[-1], s)

    def call_value(self, f, args, kw, st, node):
        if f.op == "func":
            fi = self.cls_of["f:" + f.args[0]]
            return self.call_func(fi, args, kw, st, node)
        if f.op == "bound":
            fi = self.cls_of["f:" + f.args[1]]
            return self.call_func(fi, (f.args[0],) + args, kw, st, node)
        if f.op == "cls":
            return self.instantiate(self.cls_of[f.args[0]], args, kw, st, node)
        if f.op in ("lambda", "closure") and f in self.lam:
            fi, env, n = self.lam[f]
            return self.call_func(fi, args, kw, st, node, closure=env)
        if f.op == "builtin":
            return self.call_builtin(f.args[0], args, kw, st, node)
        if f.op == "mod":
            return self.opaque_call(f.args[0], args, kw, st, node)
        if f.op == "ext":
            return self.opaque_call(f.args[0], args, kw, st, node)
        if f.op == "phi":
            outs = []
            for x in f.args:
                if x is NONE or x is UNDEF:
                    continue
                outs += self.call_value(x, args, kw, st.clone(), node)
            if outs:
                return outs
        st = st.clone()
        if f in self.tuples and len(args) + len(kw) == len(self.tuples[f]) and all(k in self.tuples[f][len(args):] for k in kw):
            vals = list(args) + [kw[k] for k in self.tuples[f][len(args):]]
            return [(st, mk("icall", f, *vals))]
        ra = tuple(self.resolve(a, st) for a in args) + tuple(mk("kw", k, self.resolve(v, st)) for k, v in sorted(kw.items()))
        val = mk("icall", self.resolve(f, st), *ra)
        self.implicit_raise(st)
        self.record("call", st, name="<indirect>", base=f, args=ra, value=val, node=node)
        st.addfact(mk("done", val))
        return [(st, val)]

    def instantiate(self, ci, args, kw, st, node):
        self.cls_of[ci.cid] = ci
        init = self.repo.find_method(ci, "__init__")
        st = st.clone()
        t = mk("new", "cls:" + ci.cid, self.site(node, st), self.loopkey(st))
        is_exc = any(c.qual.endswith(("Error", "Exception")) or any("Exception" in ast.unparse(b) or "Error" in ast.unparse(b) for b in c.node.bases) for c in self.repo.mro(ci))
        if init is None or is_exc or self.is_opaque(init):
            ra = tuple(self.resolve(a, st) for a in args) + tuple(mk("kw", k, self.resolve(v, st)) for k, v in sorted(kw.items()))
            if is_exc:
                return [(st, mk("call", ci.module.name.rsplit(".", 1)[-1] + "." + ci.qual, *ra))]
            self.implicit_raise(st)
            sh = ci.module.name.rsplit(".", 1)[-1] + "." + ci.qual
            self.record("call", st, name=sh, args=ra, value=t, node=node)
            # forget attributes of an earlier object of this site
            st.store = {k: v for k, v in st.store.items() if k[0] is not t}
            st.sethist(t, (mk("ctor", *ra),) if ra else ())
            st.addfact(mk("done", mk("call", sh, *ra)))
            return [(st, t)]
        st.store = {k: v for k, v in st.store.items() if k[0] is not t}
        st.sethist(t, ())
        outs = []
        for s, v in self.call_func(init, (t,) + args, kw, st, node):
            outs.append((s, t))
        self.record("new", st, name=ci.qual, args=(), value=t, node=node)
        return outs

    def bind_args(self, fi, args, kw, st):
        """-> dict param->value or None when the binding is not static"""
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        kw = dict(kw)
        rest = kw.pop("**", None)
        if rest is not None and not a.kwarg:
            return None
        # forwarding of the caller's own *args / **kwargs
        if any(x.op == "star" for x in pos):
            if not a.vararg or pos[-1].op != "star" or len(pos) != len(names) + 1 or any(x.op == "star" for x in pos[:-1]):
                return None
        for n in names:
            if pos:
                env[n] = pos.pop(0)
        if pos:
            if not a.vararg:
                return None
            env[a.vararg.arg] = pos[0].args[0] if len(pos) == 1 and pos[0].op == "star" else mk("tuple", *pos)
        elif a.vararg:
            env[a.vararg.arg] = mk("tuple")
        kwn = set(names) | set(x.arg for x in a.kwonlyargs)
        extra = []
        for k, v in kw.items():
            if k in kwn:
                env[k] = v
            elif a.kwarg:
                extra.append((k, v))
            else:
                return None
        if a.kwarg and rest is not None:
            if extra:
                return None
            env[a.kwarg.arg] = rest
        elif a.kwarg:
            t = mk("new", "dict", self.site(fi.node, st), self.loopkey(st))
            st.sethist(t, tuple(mk("set", const(k), v) for k, v in extra))
            env[a.kwarg.arg] = t
        dn = names[len(names) - len(a.defaults):] if a.defaults else []
        for n, d in zip(dn, a.defaults):
            if n not in env:
                env[n] = self.default_val(fi, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.default_val(fi, d)
        for n in names:
            if n not in env:
                return None
        return env

    def default_val(self, fi, d):
        v = self.eval_simple(fi.module, d)
        if v is not None:
            return v
        return mk("default", fi.qual.rsplit(".", 1)[-1], ast.unparse(d))

    def call_func(self, fi, args, kw, st, node, closure=None):
        if self.is_skip(fi):
            return [(st, NONE)]
        st = st.clone()
        env = self.bind_args(fi, args, kw, st)
        stub = self.stubs.get(fi.fid)
        if stub is not None:
            r = stub(self, fi, env, st, node)
            if r is not None and r != "inline":
                return r
            inline = r == "inline"
        else:
            inline = False
        isnew = fi.qual.rsplit(".", 1)[-1] in self.new_funcs
        if env is None or not inline and self.is_opaque(fi) or fi.fid in [f.fid for f in self.stack] or len(self.stack) > self.max_depth or fi.is_gen:
            if env is None:
                ra = tuple(self.resolve(a, st) for a in args) + tuple(mk("kw", k, self.resolve(v, st)) for k, v in sorted(kw.items()))
                order = None
            else:
                a = fi.node.args
                order = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
                if fi.cls is not None and order and order[0] in ("self", "cls") and args:
                    selfv = env.get(order[0])
                    if selfv is not None and selfv.op != "cls":
                        return self.opaque_bound(fi, selfv, order[1:], env, st, node)
                    if selfv is not None and "classmethod" in fi.decos:
                        order = order[1:]        # named by the class already
                        args = args[1:] if args and args[0] is selfv else args
                ra = tuple(self.resolve(env[n], st) for n in order)
            return self.opaque_named(short_name(fi), args, ra, st, node, isnew, fi)
        # inline
        self.inlined.add(fi.fid)
        caller_env = st.env
        new_env = dict(closure) if closure else {}
        new_env.update(env)
        st.env = new_env
        self.stack.append(fi)
        self.frames.append(caller_env)
        self.cstack.append(self.site(node, st))
        try:
            if isinstance(fi.node, ast.Lambda):
                outs = [Outcome("return", s, v) for s, v in self.ev(fi.node.body, st)]
            else:
                outs = self.exec_block(fi.node.body, [st])
        finally:
            self.stack.pop()
            self.frames.pop()
            self.cstack.pop()
        res = {}
        for o in outs:
            if o.kind == "raise":
                s = o.state
                s.env = caller_env
                self.raises.append(o)
                continue
            v = o.value if o.kind == "return" else NONE
            s = o.state.clone()
            s.env = caller_env
            res.setdefault(v, []).append(s)
        ret = []
        for v, ss in res.items():
            for s in merge_states(ss, max(2, self.limit // max(1, len(res)))):
                ret.append((s, v))
        return ret

    def opaque_bound(self, fi, selfv, order, env, st, node):
        ra = tuple(self.resolve(env[n], st) for n in order if n in env)
        base = self.resolve(selfv, st) if selfv.op != "new" else selfv
        name = fi.qual.rsplit(".", 1)[-1]
        val = mk("mcall", name, self.resolve(selfv, st), *ra)
        if self.is_fresh("." + name):
            val = mk("fresh", name, self.fsite(node, st), *ra)
        self.implicit_raise(st)
        self.record("mcall", st, name=name, base=selfv, args=ra, value=val, node=node)
        st.addfact(mk("done", val))
        if name not in PURE_METHODS and (selfv.op == "new" or name in MUTATORS):
            st.sethist(selfv, st.hist.get(selfv, ()) + (mk("m", name, *ra),))
        return [(st, val)]

    def opaque_call(self, name, args, kw, st, node):
        st = st.clone()
        ra = tuple(self.resolve(a, st) for a in args) + tuple(mk("kw", k, self.resolve(v, st)) for k, v in sorted(kw.items()))
        last = name.rsplit(".", 1)[-1]
        isnew = last in self.new_funcs or (last[:1].isupper() and not last.endswith(("Error", "Exception")))
        return self.opaque_named(name, args, ra, st, node, isnew, None, kw)

    def sink_args(self, st, name, args, ra):
        """An opaque callee given a hasher/writer object feeds its other arguments into it."""
        for i, a in enumerate(args):
            if isinstance(a, T) and a.op == "new" and SINK_RE.search(a.args[0]):
                rest = tuple(x for j, x in enumerate(ra) if j != i)
                if self.tracer is not None:
                    p = self.tracer(self, "sinkarg", st, dict(name=name, base=a, args=rest))
                    if p is not None:
                        key = mk("trace", p[0])
                        st.sethist(key, st.hist.get(key, ()) + (p[1],))
                for w in (a,) + self.links.get(a, ()):
                    self.mutate(st, w, mk("m", "<" + name + ">", *rest))

    def opaque_named(self, name, args, ra, st, node, isnew, fi, kw=()):
        self.implicit_raise(st)
        last = name.rsplit(".", 1)[-1]
        if not isnew:
            self.sink_args(st, name, args, ra)
        # copy/in-place primitives
        if last == "memcpy" and len(ra) == 5:
            dst, doff, src, soff, ln = args[0] if args else ra[0], ra[1], ra[2], ra[3], ra[4]
            self.record("call", st, name=name, args=ra, value=NONE, node=node)
            if is_num(soff) and cval(soff) == 0 and (ln is mk_len(src) or is_num(ln) and cval(ln) == 32 and not is_const(src)):
                srct = src
            else:
                srct = mk_sub(src, mk("slice", soff, mk_add(soff, ln)))
            self.mutate(st, dst, mk("set", mk("slice", doff, mk_add(doff, ln)), srct))
            return [(st, dst)]
        if last == "xor8" and args:
            self.record("call", st, name=name, args=ra, value=args[0], node=node)
            self.mutate(st, args[0], mk("m", "xor8", *ra[1:]))
            return [(st, args[0])]
        if last.endswith("_into") and args and not name.startswith("crypto."):
            # e.g. struct.pack_into: fills the buffer it is given
            k = next((j for j, a in enumerate(args) if isinstance(a, T) and a.op == "new" and a.args[0] == "bytearray"), None)
            if k is not None:
                self.record("call", st, name=name, args=ra, value=NONE, node=node)
                self.mutate(st, args[k], mk("m", last, *[x for j, x in enumerate(ra) if j != k]))
                return [(st, NONE)]
        if (last.endswith("_into") or last == "sc_copy" and len(ra) == 2) and args and name.startswith("crypto."):
            base = last[:-5] if last != "sc_copy" else last
            pf = fi
            val = mk("call", "crypto." + base, *ra[1:])
            if self.is_fresh(base):
                val = mk("fresh", "crypto." + base, self.fsite(node, st), *ra[1:])
            self.record("call", st, name="crypto." + base, args=ra[1:], value=val, node=node)
            st.addfact(mk("done", val))
            dst = args[0]
            if dst is NONE:
                return [(st, val)]
            if isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Subscript) and isinstance(node.args[0].slice, ast.Slice) \
                    and isinstance(node.args[0].value, ast.Name):
                # a slice of a buffer: the buffer changes
                b = st.env.get(node.args[0].value.id)
                if b is not None and b.op == "new" and b.args[0] == "bytearray":
                    for s2, ix in self.ev_index(node.args[0].slice, st):
                        if dst is self.get_sub(b, ix, s2):
                            self.mutate(s2, b, mk("set", self.resolve(ix, s2), val))
                            return [(s2, NONE)]
            if dst.op in ("sub", "const") and isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.Subscript) \
                    and not isinstance(node.args[0].slice, ast.Slice) and last in ("encodepoint_into", "encodeint_into") \
                    and (len(ra) == 2 or len(ra) == 3 and is_num(ra[2]) and cval(ra[2]) == 0):
                # an element of a list of buffers
                return [(s2, NONE) for s2 in self.assign(node.args[0], mk("call", "crypto." + base, ra[1]), st)]
            if len(ra) > 1 and dst.op == "new" and dst.args[0] == "bytearray" and last in ("encodepoint_into", "encodeint_into"):
                off = ra[2] if len(ra) > 2 else const(0)
                val = mk("call", "crypto." + base, ra[1])
                self.mutate(st, dst, mk("set", mk("slice", off, mk_add(off, const(32))), val))
                return [(st, dst)]
            if dst.op in ("call", "sub", "attr", "phi", "fresh", "lphi", "fold", "param", "last", "mut") or (dst.op == "new" and dst.args[0] != "bytearray"):
                # numeric/point object updated in place: rebind every alias of the value
                self.rebind(st, dst, val, node)
                return [(st, val)]
            st.sethist(dst, (mk("assigned", val),))
            return [(st, val)]
        if isnew:
            t = mk("new", name, self.site(node, st), self.loopkey(st))
            lk = tuple(a for a in args if isinstance(a, T) and a.op == "new" and SINK_RE.search(a.args[0]))
            if lk:
                self.links[t] = lk
            st.sethist(t, (mk("ctor", *ra),) if ra else ())
            st.store = {k: v for k, v in st.store.items() if k[0] is not t}
            for k, v in dict(kw).items():
                if isinstance(v, T) and v.op == "new" and v.args[0] in ("list", "dict"):
                    st.store[(t, k)] = v     # the container itself, so that later changes through the attribute are seen
            self.record("call", st, name=name, args=ra, value=t, node=node)
            st.addfact(mk("done", mk("call", name, *ra)))
            return [(st, t)]
        if self.is_fresh(name):
            val = mk("fresh", name, self.fsite(node, st), *ra)
        elif last in ("new_point", "new_scalar") and not ra:
            # distinct objects that are updated in place later
            val = mk("call", name, mk("site", self.fsite(node, st)))
        else:
            val = mk("call", name, *ra)
        self.record("call", st, name=name, args=ra, value=val, node=node)
        st.addfact(mk("done", val))
        return [(st, val)]

    def rebind(self, st, old, new, node=None):
        """In-place update of the object `old` denotes: variables/attributes holding it now hold `new`."""
        hit = False
        env = dict(st.env)
        if old.op == "call" and all(is_const(a) for a in old.args[1:]) and isinstance(node, ast.Call) and node.args \
                and isinstance(node.args[0], ast.Name) and env.get(node.args[0].id) is old:
            # equal constants built separately are distinct objects: only the named one changes
            env[node.args[0].id] = new
            st.env = env
            return
        for k, v in env.items():
            if v is old:
                env[k] = new
                hit = True
        st.env = env
        sto = dict(st.store)
        for k, v in sto.items():
            if v is old:
                sto[k] = new
                hit = True
        if old.op == "attr":
            sto[(old.args[0], old.args[1])] = new
            hit = True
        st.store = sto
        if old.op == "sub":
            self.mutate(st, old.args[0], mk("set", old.args[1], new))

    # builtins ------------------------------------------------------------------
    def call_builtin(self, name, args, kw, st, node):
        st = st.clone()
        ra = [self.resolve(a, st) for a in args]
        if name == "len" and len(ra) == 1:
            return [(st, mk_len(ra[0]))]
        if name == "range":
            return [(st, mk("range", *ra))]
        if name == "enumerate":
            return [(st, mk("enum", args[0], ra[1] if len(ra) > 1 else kw.get("start", const(0))))]
        if name == "zip":
            return [(st, mk("zip", *args))]
        if name == "reversed":
            return [(st, mk("reversed", args[0]))]
        if name in ("list", "tuple", "sorted", "set", "frozenset"):
            if not args:
                t = mk("new", "list" if name != "set" else "set", self.site(node, st), self.loopkey(st))
                st.sethist(t, ())
                return [(st, t)]
            items = self.concrete_items(args[0], st)
            if name == "tuple":
                return [(st, mk("tuple", *items) if items is not None else ra[0])]
            if name in ("list",):
                t = mk("new", "list", self.site(node, st), self.loopkey(st))
                if items is not None:
                    st.sethist(t, tuple(mk("i", x) for x in items))
                else:
                    src = args[0]
                    if src.op == "new" and src.args[0] == "list":
                        st.sethist(t, st.hist.get(src, ()))
                    else:
                        idx = mk("idx", st.depth + 1)
                        n, e = self.loop_elem(args[0], idx, st)
                        st.sethist(t, (mk("rep", n, st.depth + 1, ((mk("i", e),),)),))
                return [(st, t)]
            val = mk("call", name, *(ra + [mk("kw", k, self.resolve(v, st)) for k, v in sorted(kw.items())]))
            if name == "sorted":
                t = mk("new", "list", self.site(node, st), self.loopkey(st))
                st.sethist(t, (mk("ext", val),))
                return [(st, t)]
            return [(st, val)]
        if name == "dict":
            t = mk("new", "dict", self.site(node, st), self.loopkey(st))
            st.sethist(t, tuple(mk("set", const(k), v) for k, v in kw.items()) + tuple(mk("upd", a) for a in ra))
            return [(st, t)]
        if name == "bytes":
            if not ra:
                return [(st, const(b""))]
            if len(ra) == 1:
                if is_const(ra[0]):
                    try:
                        if not (isinstance(cval(ra[0]), int) and cval(ra[0]) > 4096):
                            return [(st, const(bytes(cval(ra[0]))))]
                    except Exception:
                        pass
                items = self.concrete_items(args[0], st)
                if items is not None and all(is_num(x) for x in items):
                    try:
                        return [(st, const(bytes(cval(x) for x in items)))]
                    except ValueError:
                        pass
                if ra[0].op in ("lin",) or (ra[0].op == "call" and ra[0].args[0] == "len"):
                    return [(st, mk("call", "zeros", ra[0]))]
                if items is not None:
                    return [(st, mk("call", "bytes", mk("tuple", *[self.resolve(x, st) for x in items])))]
                return [(st, ra[0])]
            return [(st, mk("call", "bytes", *ra))]
        if name == "bytearray":
            t = mk("new", "bytearray", self.site(node, st), self.loopkey(st))
            st.sethist(t, (mk("ctor", *ra),) if ra else ())
            return [(st, t)]
        if name == "memoryview":
            return [(st, args[0])]
        if name == "bool" and len(ra) == 1:
            d = self.decide(ra[0], st)
            return [(st, const(d) if d is not None else ra[0] if ra[0].op in ("eq", "eq0", "ge0", "is", "in", "not", "isinst") else mk("not", mk("not", ra[0])))]
        if name == "divmod" and len(ra) == 2 and not kw:
            return [(st, mk("tuple", mk_bin("//", ra[0], ra[1]), mk_bin("%", ra[0], ra[1])))]
        if name in ("int", "str", "ord", "abs", "chr", "float", "hex", "min", "max", "sum", "round", "pow", "divmod", "any", "all"):
            if name == "int" and len(ra) == 1 and is_const(ra[0]):
                try:
                    return [(st, const(int(cval(ra[0]))))]
                except Exception:
                    pass
            if name in ("min", "max", "sum", "ord", "abs") and ra and all(is_const(x) for x in ra):
                try:
                    return [(st, const({"min": min, "max": max, "ord": ord, "abs": abs}[name](*[cval(x) for x in ra])))]
                except Exception:
                    pass
            if name in ("any", "all"):
                items = self.concrete_items(args[0], st)
                if items is not None:
                    return [(st, mk("or" if name == "any" else "and", *[self.resolve(x, st) for x in items]) if items else const(name == "all"))]
            self.implicit_raise(st)
            return [(st, mk("call", name, *ra))]
        if name == "isinstance" and len(args) == 2:
            if args[0].op == args[1].op == "cls":
                return [(st, FALSE)]          # a class object is no instance of an ordinary class
            ci = self.type_of(args[0], st)
            if ci is not None and args[1].op == "cls":
                tgt = self.cls_of.get(args[1].args[0])
                if tgt is not None:
                    return [(st, const(tgt in self.repo.mro(ci)))]
            if args[0].op == "new" and args[1].op == "builtin":
                k = args[0].args[0]
                if k in ("list", "dict", "set", "bytearray") and args[1].args[0] in ("list", "dict", "set", "bytearray", "bytes", "int", "str", "tuple"):
                    return [(st, const(k == args[1].args[0]))]
            return [(st, mk("isinst", ra[0], args[1]))]
        if name == "issubclass" and len(args) == 2 and args[0].op == "cls" and args[1].op == "cls":
            ci, tgt = self.cls_of.get(args[0].args[0]), self.cls_of.get(args[1].args[0])
            if ci is not None and tgt is not None:
                return [(st, const(tgt in self.repo.mro(ci)))]
        if name == "vars" and len(args) == 1 and self.dicts:
            return self.get_attr(args[0], "__dict__", st, node)
        if name in ("getattr",) and len(args) >= 2 and is_const(args[1]):
            outs = self.get_attr(args[0], cval(args[1]), st, node)
            if len(args) == 3:
                return [(s, v if not (v.op == "attr" and v.args[1] == cval(args[1])) else mk_phi([v, args[2]])) for s, v in outs]
            return outs
        if name == "setattr" and len(args) == 3:
            if is_const(args[1]):
                st.setstore(args[0], cval(args[1]), args[2])
                self.record("store", st, name=cval(args[1]), base=args[0], value=self.resolve(args[2], st), args=(args[0],), node=node)
            else:
                self.record("setattr", st, name="setattr", base=args[0], value=self.resolve(args[2], st), args=tuple(ra), node=node)
                st.sethist(args[0], st.hist.get(args[0], ()) + (mk("setattr", ra[1], ra[2]),))
            return [(st, NONE)]
        if name == "hasattr":
            return [(st, mk("call", "hasattr", *ra))]
        if name in ("print",):
            self.record("call", st, name="print", args=tuple(ra), value=NONE, node=node)
            return [(st, NONE)]
        if name == "type" and len(args) == 1:
            ci = self.type_of(args[0], st)
            if ci is not None:
                self.cls_of[ci.cid] = ci
                return [(st, mk("cls", ci.cid))]
            return [(st, mk("call", "type", *ra))]
        if name in ("super", "object"):
            return [(st, mk("call", name))]
        if name == "map" and len(args) == 2:
            # lower to a comprehension: [f(x) for x in it]
            items = self.concrete_items(args[1], st)
            t = mk("new", "list", self.site(node, st), self.loopkey(st))
            if items is not None:
                st.sethist(t, ())
                cur = [st]
                for x in items:
                    n2 = []
                    for s in cur:
                        for s2, v in self.call_value(args[0], (x,), {}, s, node):
                            s2 = s2.clone()
                            s2.sethist(t, s2.hist.get(t, ()) + (mk("i", v),))
                            n2.append(s2)
                    cur = n2
                return [(s, t) for s in cur]
            idx = mk("idx", st.depth + 1)
            n, e = self.loop_elem(args[1], idx, st)
            outs = []
            st.depth += 1
            for s, v in self.call_value(args[0], (e,), {}, st, node):
                s = s.clone()
                s.depth -= 1
                s.sethist(t, (mk("rep", n, s.depth + 1, ((mk("i", v),),)),))
                outs.append((s, t))
            return outs
        if name.endswith(("Error", "Exception")) or name in ("StopIteration", "KeyboardInterrupt"):
            return [(st, mk("call", name, *ra))]
        ra += [mk("kw", k, self.resolve(v, st)) for k, v in sorted(kw.items())]
        return self.opaque_named(name, args, tuple(ra), st, node, False, None)


def _as_load(t):
    import copy
    k = ("ld", id(t))
    r = _LD.get(k)
    if r is None:
        r = copy.deepcopy(t)
        for n in ast.walk(r):
            if hasattr(n, "ctx"):
                n.ctx = ast.Load()
        _LD[k] = (r, t)
        return r
    return r[0]


_LD = {}

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<",
          ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
          ast.NotIn: "not in"}


def canon_ext(n):
    return n


def mk_fold(n, depth, ini, body):
    """value after n rounds; a linear function of the round number that starts at the initial value has a closed form"""
    idx = mk("idx", depth)
    if ini is not UNDEF and body.op != "phi" and contains(body, idx) and not any(x.op == "lphi" and x.args[0] == depth for x in subterms(body)):
        at = lambda k: from_lin(_lin_into({}, subst(body, {idx: k}), 1))
        if at(const(-1)) is from_lin(_lin_into({}, ini, 1)):
            lin = _lin_into({}, body, 1)
            if not any(contains(x, idx) and x is not idx for x in lin if isinstance(x, T)):
                return mk_add(ini, from_lin(_lin_into(_lin_into({}, at(mk_add(n, const(-1))), 1), ini, -1)))
    return mk("fold", n, depth, ini, body)


def mk_len(b):
    if is_const(b) and hasattr(cval(b), "__len__"):
        return const(len(cval(b)))
    if b.op == "tuple":
        return const(len(b.args))
    if b.op == "obj" and b.args[0] == "list":
        tot = []
        for p in b.args[1]:
            if p.op == "i":
                tot.append(const(1))
            elif p.op == "rep" and len(p.args[2]) == 1 and len(p.args[2][0]) == 1 and p.args[2][0][0].op == "i":
                tot.append(p.args[0])
            elif p.op == "ext":
                tot.append(mk_len(p.args[0]))
            elif p.op in ("set", "set2") or p.op == "rep" and all(q.op in ("set", "set2") for alt in p.args[2] for q in alt):
                pass
            else:
                return mk("call", "len", b)
        if not tot:
            return const(0)
        return mk_add(const(0), *tot)
    if b.op == "mcall" and b.args[0] in ("digest", "get_digest") and len(b.args) == 2:
        return const(32)
    if b.op == "mut" and len(b.args) == 2 and isinstance(b.args[1], tuple) and b.args[1] and any(p.op != "lp" for p in b.args[1]) and all(
            p.op in ("lp", "set") and (p.op == "lp" or p.args[0].op != "slice") or p.op == "rep" and all(q.op == "set" and q.args[0].op != "slice" for alt in p.args[2] for q in alt)
            for p in b.args[1]):
        # replacing elements keeps the length
        if not any(p.op == "lp" for p in b.args[1]):
            return mk_len(b.args[0])
    if b.op == "obj" and b.args[0] == "bytearray":
        c = [p for p in b.args[1] if p.op == "ctor"]
        if len(c) == 1 and len(c[0].args) == 1 and all(p.op in ("ctor", "set") for p in b.args[1]):
            a = c[0].args[0]
            if is_num(a) or a.op == "lin":
                return a
    if b.op == "range" and len(b.args) == 1:
        return b.args[0]
    if b.op == "call" and b.args[0] in ("sorted",):
        return mk_len(b.args[1])
    if b.op == "call" and b.args[0] == "zeros":
        return b.args[1]
    return mk("call", "len", b)


def mk_sub(b, i):
    if is_const(b) and is_num(i):
        try:
            return const(cval(b)[cval(i)])
        except Exception:
            pass
    if is_const(b) and i.op == "slice" and all(x is NONE or is_num(x) for x in i.args) and isinstance(cval(b), (bytes, str)):
        return const(cval(b)[slice(*[cval(x) for x in i.args])])
    if b.op == "tuple" and is_num(i) and -len(b.args) <= cval(i) < len(b.args):
        return b.args[cval(i)]
    if b.op == "tuple" and i.op == "slice" and all(x is NONE or is_num(x) for x in i.args):
        return mk("tuple", *b.args[slice(*[None if x is NONE else cval(x) for x in i.args])])
    if b.op == "obj" and b.args[0] == "list":
        h = b.args[1]
        if is_num(i) and all(p.op == "i" for p in h) and -len(h) <= cval(i) < len(h):
            return h[cval(i)].args[0]
        if len(h) == 1 and h[0].op == "rep" and len(h[0].args[2]) == 1 and len(h[0].args[2][0]) == 1 and h[0].args[2][0][0].op == "i" and i.op != "slice":
            e = h[0].args[2][0][0].args[0]
            return subst(e, {mk("idx", h[0].args[1]): i})
        if len(h) == 1 and h[0].op == "ext":
            return mk_sub(h[0].args[0], i)
        if is_const(i) and h and all(p.op == "i" or p.op == "set" and is_const(p.args[0]) for p in h):
            for p in reversed(h):
                if p.op == "set" and p.args[0] is i:
                    return p.args[1]
        if len(h) > 2 and i.op != "slice":
            r = mk_row(h, i)
            if r is not None:
                return r
        if len(h) == 2 and all(p.op == "rep" and len(p.args[2]) == 1 and len(p.args[2][0]) == 1 for p in h) and h[0].args[0] is h[1].args[0] and i.op != "slice":
            # n placeholders, every one of them replaced
            a, e = h[0].args[2][0][0], h[1].args[2][0][0]
            if a.op == "i" and a.args[0] is NONE and e.op == "set" and e.args[0] is mk("idx", h[1].args[1]):
                return subst(e.args[1], {e.args[0]: i})
    if i.op == "slice" and b.op == "call" and b.args[0] in ("crypto.encodepoint", "crypto.encodeint") and len(i.args) == 2 \
            and is_num(i.args[0]) and cval(i.args[0]) == 0 and (i.args[1] is NONE or is_num(i.args[1]) and cval(i.args[1]) == 32):
        return b
    if i.op == "slice" and len(i.args) == 2 and is_num(i.args[0]) and cval(i.args[0]) == 0 and i.args[1] is NONE:
        return b
    if b.op == "sub" and b.args[1].op == "slice" and is_num(i) and len(b.args[1].args) == 2 and all(is_num(x) and cval(x) >= 0 for x in b.args[1].args) \
            and 0 <= cval(i) < cval(b.args[1].args[1]) - cval(b.args[1].args[0]):
        return mk_sub(b.args[0], const(cval(b.args[1].args[0]) + cval(i)))
    return mk("sub", b, i)


def mk_row(h, i):
    """row i of a matrix: n placeholders, every row set, then entries set row by row"""
    n, row, more = h[0].args[0] if h[0].op == "rep" else None, None, []
    for k, p in enumerate(h):
        if p.op != "rep" or p.args[0] is not n or len(p.args[2]) != 1:
            return None
        idx, body = mk("idx", p.args[1]), p.args[2][0]
        if k == 0:
            if len(body) != 1 or body[0].op != "i":
                return None
        elif len(body) == 1 and body[0].op == "set" and body[0].args[0] is idx:
            row, more = subst(body[0].args[1], {idx: i}), []
        else:
            for q in body:
                if q.op == "set2" and q.args[0] is idx:
                    more.append(subst(mk("set", q.args[1], q.args[2]), {idx: i}))
                elif q.op == "rep" and len(q.args[2]) == 1 and all(x.op == "set2" and x.args[0] is idx for x in q.args[2][0]):
                    more.append(subst(mk("rep", q.args[0], q.args[1], (tuple(mk("set", x.args[1], x.args[2]) for x in q.args[2][0]),)), {idx: i}))
                else:
                    return None
    if row is None or row.op != "obj" or row.args[0] != "list" or not more:
        return None
    return norm_obj("list", tuple(row.args[1]) + tuple(more))


def norm_obj(kind, h):
    if kind == "list" and len(h) == 1 and h[0].op == "rep":
        r = h[0]
        # [X[i] for i in range(len(X))] == X
        if len(r.args[2]) == 1 and len(r.args[2][0]) == 1 and r.args[2][0][0].op == "i":
            e = r.args[2][0][0].args[0]
            idx = mk("idx", r.args[1])
            if e.op == "sub" and e.args[1] is idx and r.args[0] is mk_len(e.args[0]):
                return e.args[0]
    if kind == "list" and len(h) == 1 and h[0].op == "ext":
        return h[0].args[0]
    if kind == "bytearray":
        if len(h) == 1 and h[0].op == "ctor" and len(h[0].args) == 1 and not is_num(h[0].args[0]) and h[0].args[0].op not in ("lin", "len"):
            return h[0].args[0]
        if len(h) == 1 and h[0].op == "assigned":
            return h[0].args[0]
        if len(h) == 1 and h[0].op == "ctor" and len(h[0].args) == 1 and is_num(h[0].args[0]) and 0 <= cval(h[0].args[0]) <= 4096:
            return const(b"\0" * cval(h[0].args[0]))
        # full cover by contiguous slices
        ctor = h[0] if h and h[0].op == "ctor" else None
        if ctor is not None and len(ctor.args) == 1 and is_num(ctor.args[0]) and len(h) > 1:
            n = cval(ctor.args[0])
            segs = {}
            ok = True
            w = h[-1]
            if w.op == "set" and w.args[0].op == "slice" and len(w.args[0].args) == 2 and is_num(w.args[0].args[0]) and cval(w.args[0].args[0]) == 0 \
                    and (w.args[0].args[1] is NONE or is_num(w.args[0].args[1]) and cval(w.args[0].args[1]) == n):
                return w.args[1]
            for p in h[1:]:
                if p.op != "set":
                    ok = False
                    break
                i, v = p.args
                if i.op == "slice" and is_num(i.args[0]) and (i.args[1] is NONE or is_num(i.args[1])):
                    lo = cval(i.args[0])
                    hi = n if i.args[1] is NONE else cval(i.args[1])
                elif is_num(i):
                    lo, hi = cval(i), cval(i) + 1
                    if is_num(v) and 0 <= cval(v) < 256:
                        v = const(bytes([cval(v)]))
                    else:
                        v = mk("byte", v)
                else:
                    ok = False
                    break
                segs.pop((lo, hi), None)
                segs[(lo, hi)] = v
            if ok and all(is_const(v) and isinstance(cval(v), (bytes, bytearray)) and len(cval(v)) == hi - lo for (lo, hi), v in segs.items()):
                buf = bytearray(n)
                for (lo, hi), v in segs.items():
                    buf[lo:hi] = cval(v)
                if len(buf) == n:
                    return const(bytes(buf))
            if ok:
                ks = sorted(segs)
                pos, parts = 0, []
                for lo, hi in ks:
                    if lo < pos:
                        ok = False
                        break
                    if lo > pos:
                        parts.append(const(b"\0" * (lo - pos)))
                    parts.append(segs[(lo, hi)])
                    pos = hi
                if ok and pos <= n:
                    if pos < n:
                        parts.append(const(b"\0" * (n - pos)))
                    return mk_add(*parts) if len(parts) > 1 else parts[0]
    return mk("obj", kind, tuple(h))


# ---------------------------------------------------------------- matching helpers
class W(object):
    """wildcard"""
    def __init__(self, name=None, pred=None):
        self.name, self.pred = name, pred


ANY = W()


def match(pat, t, binds=None):
    """pat: T (exact), W, str for op/call shorthand tuple ('op', args...), or callable."""
    b = binds if binds is not None else {}
    if isinstance(pat, W):
        if pat.pred is not None and not pat.pred(t):
            return False
        if pat.name:
            if pat.name in b:
                return b[pat.name] is t or b[pat.name] == t
            b[pat.name] = t
        return True
    if isinstance(pat, T):
        return pat is t
    if isinstance(pat, tuple) and pat and isinstance(pat[0], str) and isinstance(t, T):
        if t.op != pat[0]:
            return False
        rest = pat[1:]
        if rest and rest[-1] is Ellipsis:
            rest = rest[:-1]
            if len(t.args) < len(rest):
                return False
        elif len(rest) != len(t.args):
            return False
        return all(match(p, x, b) for p, x in zip(rest, t.args))
    if callable(pat):
        return pat(t)
    return pat == t


def call_pat(name, *args):
    return ("call", name) + args
