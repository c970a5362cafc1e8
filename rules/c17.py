"""C17 - the wire message tables are complete and mutually consistent, and the codec treats every field type on both sides.

The tables are evaluated from the message classes.  The codec is interpreted per field kind: the field key and the payload
are supplied as abstract values, one field at a time, and the decoded object (or the written sequence) is compared with
what the table prescribes."""
import json
import os

from drive import driver
from engine import T, Interp, Outcome, State, mk_add, mk_bin, mk_len, mk_sub
from tsx import *

PB = "monero_glue.protobuf"
MSG = "monero_glue.messages"
CT = mk("param", "__n")
HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = {"UVarintType": 0, "SVarintType": 0, "BoolType": 0, "EnumType": 0, "BytesType": 2, "UnicodeType": 2, "MessageType": 2}
ANN = {"int": ("UVarintType", "SVarintType"), "bool": ("BoolType",), "bytes": ("BytesType",), "str": ("UnicodeType",)}


def P(n):
    return mk("param", n)


def cname(t):
    """name of a class term"""
    if t is not None and t.op == "obj" and t.args[0] == "cls:" + PB + ":EnumType":
        return "EnumType"
    return t.args[0].rsplit(":", 1)[-1] if t is not None and t.op == "cls" else None


# ---------------------------------------------------------------- tables

class Msg:
    pass


def entries(t):
    """[(key, value)] of a resolved dict term"""
    if t is None or t.op != "obj" or t.args[0] != "dict":
        return None
    out = []
    for p in t.args[1]:
        if p.op != "set" or not is_const(p.args[0]):
            return None
        out.append((cval(p.args[0]), p.args[1]))
    return out


def tables(ctx):
    """every message class: field table, attributes set by its constructor, wire number"""
    out = {}
    for c in sorted(ctx.repo.all_classes(), key=lambda c: c.cid):
        mod, name = c.cid.split(":")
        if not mod.startswith(MSG + ".") or "." in name:
            continue
        if not any(b.cid == PB + ":MessageType" for b in ctx.repo.mro(c)[1:]):
            continue
        m = Msg()
        m.name, m.cls, m.mod = name, c, mod
        d = driver(ctx.repo, mod, "def table():\n    return %s.get_fields()\n" % name)
        it = Interp(ctx.repo, limit=50)
        outs = it.run(d, args={})
        ctx.used(it)
        m.fields = None
        if len(outs) == 1 and outs[0].kind == "return":
            m.fields = entries(it.resolve(outs[0].value, outs[0].state))
        d = driver(ctx.repo, mod, "def make():\n    return %s()\n" % name)
        it = Interp(ctx.repo, limit=50)
        outs = [o for o in it.run(d, args={}) if o.kind == "return"]
        ctx.used(it)
        m.attrs = None
        if outs:
            o = outs[0]
            m.attrs = {k[1]: it.resolve(v, o.state) for k, v in o.state.store.items() if k[0] is o.value}
        ini = c.methods.get("__init__")
        m.params = {a.arg: a.annotation for a in ini.node.args.args[1:]} if ini is not None else {}
        ca = ctx.repo.find_classattr(c, "MESSAGE_WIRE_TYPE")
        v = it.eval_simple(ca[0].module, ca[1]) if ca is not None else None
        m.wire = cval(v) if v is not None and is_const(v) else None
        out[name] = m
    return out


def numbers(ctx):
    """constants of the message type table"""
    m = ctx.repo.module(MSG + ".MessageType")
    it = Interp(ctx.repo)
    out = []
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            v = it.eval_simple(m.name, st.value)
            if v is not None and is_const(v) and type(cval(v)) is int:
                out.append((st.targets[0].id, cval(v), st.lineno))
    return out, m


def empty_list(t):
    return t is not None and t.op == "obj" and t.args[0] == "list" and not t.args[1]


def rule_tables(ctx, tab):
    ctx.rule("table", "the field table of every message: unique names, a known field type, a constructor attribute of the same name and kind per field, empty lists for repeated fields")
    for m in tab.values():
        where = "%s:%d" % (m.cls.module.path if hasattr(m.cls.module, "path") else m.mod, m.cls.node.lineno)
        who = "message " + m.name
        if m.fields is None or m.attrs is None:
            ctx.check("table", who, False, "the field table or the constructor of %s could not be evaluated to constant entries" % m.name, where)
            continue
        tags = [k for k, v in m.fields]
        lit = literal_keys(m.cls)
        dup = sorted({k for k in lit if lit.count(k) > 1})
        bad = ["field number %s is given twice" % k for k in dup]
        names = []
        for tag, v in m.fields:
            if type(tag) is not int or tag < 1 or v.op != "tuple" or len(v.args) != 3 or not is_const(v.args[0]) or not is_const(v.args[2]):
                bad.append("entry %s is malformed" % tag)
                continue
            n, ty, fl = cval(v.args[0]), v.args[1], cval(v.args[2])
            names.append(n)
            if fl not in (0, 1):
                bad.append("field %s has unknown flags" % n)
            k = cname(ty)
            if k != "EnumType" and (k is None or not (ty.args[0].startswith(PB + ":") and k in KINDS and k != "MessageType" or k in tab)):
                bad.append("field %s has a type the codec does not know" % n)
            if n not in m.attrs:
                bad.append("field %s is no attribute of a new message" % n)
            elif fl == 1 and not empty_list(m.attrs[n]):
                bad.append("repeated field %s does not start as an empty list" % n)
            elif fl == 0 and m.attrs[n].op == "obj":
                bad.append("single field %s starts as a container" % n)
            a = m.params.get(n)
            if a is not None:
                src = ast.unparse(a).replace("Optional[", "").rstrip("]") if not ast.unparse(a).startswith("List[") else ast.unparse(a)
                lst = src.startswith("List[")
                el = src[5:-1] if lst else src
                if lst != (fl == 1):
                    bad.append("field %s is declared %s but %s on the wire" % (n, "as a list" if lst else "single", "repeated" if fl else "single"))
                if el in ANN and k not in ANN[el] or el in tab and k != el:
                    bad.append("field %s is declared %s but is a %s on the wire" % (n, el, k))
        bad += ["two fields are called " + n for n in sorted({n for n in names if names.count(n) > 1})]
        bad += ["attribute %s has no field, it is lost on the wire" % n for n in sorted(set(m.params) - set(names))]
        ctx.check("table", who, not bad, "%s: %s" % (m.name, "; ".join(bad)), where)
    ctx.floor("table", 150)


def literal_keys(ci):
    out = []
    f = ci.methods.get("get_fields")
    for n in ast.walk(f.node) if f is not None else ():
        if isinstance(n, ast.Dict):
            out += [k.value for k in n.keys if isinstance(k, ast.Constant)]
    return out


def rule_numbers(ctx, tab):
    ctx.rule("number", "message numbers are unique, every number names a message class that carries it and is exported under that name, and every class with a number is listed")
    nums, m = numbers(ctx)
    seen = {}
    pk = ctx.repo.module(MSG)
    for n, v, line in nums:
        where = "monero_glue/messages/MessageType.py:%d" % line
        bad = []
        if v in seen:
            bad.append("number %d is already used by %s" % (v, seen[v]))
        if any(x == n and l != line for x, _, l in nums):
            bad.append("it is listed twice")
        seen.setdefault(v, n)
        t = tab.get(n)
        if t is None:
            bad.append("no such message class")
        else:
            if t.wire != v:
                bad.append("the class carries number %s" % t.wire)
            r = ctx.repo.resolve(MSG, n)
            if r is None or r[0] != "class" or r[1].cid != t.cls.cid:
                bad.append("the message package does not export the class")
        ctx.check("number", "message number " + n, not bad, "%s = %d: %s" % (n, v, "; ".join(bad)), where)
    listed = {n for n, _, _ in nums}
    for t in tab.values():
        if t.wire is not None:
            ctx.check("number", "numbered class " + t.name, t.name in listed, "%s carries number %s but is not listed under its name" % (t.name, t.wire), t.mod)
    ctx.floor("number", 300)


def rule_published(ctx, tab):
    ctx.rule("published", "numbers, fields and field types of the Monero messages are those of the published protocol (a device or host of another build must understand them)")
    ref = json.load(open(os.path.join(HERE, "..", "data", "monero_wire.json")))
    for n, d in sorted(ref.items()):
        m = tab.get(n)
        bad = []
        if m is None or m.fields is None:
            bad = ["the message is missing"]
        else:
            if m.wire != d["wire"]:
                bad.append("number %s, published %s" % (m.wire, d["wire"]))
            have = {}
            for k, v in m.fields:
                if v.op == "tuple" and len(v.args) == 3:
                    have[k] = [cval(v.args[0]) if is_const(v.args[0]) else None, cname(v.args[1]), cval(v.args[2]) if is_const(v.args[2]) else None]
            for k, v in d["fields"].items():
                h = have.get(int(k))
                if h != v:
                    bad.append("field %s is %s, published %s" % (k, h, v))
        ctx.check("published", "published message " + n, not bad, "%s: %s" % (n, "; ".join(bad)), m.mod if m else None)
    ctx.floor("published", 45)


# ---------------------------------------------------------------- codec

def feed(seq, fi_eof=True):
    """stub of the varint reader: hands out the given values, then reports the end of the input"""
    def stub(it, fi, env, st, node):
        n = st.store.get((CT, "n"), 0)
        st.setstore(CT, "n", n + 1)
        if n < len(seq):
            return [(st, seq[n])]
        it.raises.append(Outcome("raise", st, mk("builtin", "EOFError"), node, it.fn()))
        return []
    return stub


def load(ctx, m, seq):
    d = driver(ctx.repo, m.mod, "def load(reader):\n    from monero_glue.protobuf import load_message\n    return load_message(reader, %s)\n" % m.name)
    it = Interp(ctx.repo, limit=300, stubs={PB + ":load_uvarint": feed(seq)})
    it.unroll_true = True
    it.unroll = 40
    outs = it.run(d, args={"reader": P("reader")})
    ctx.used(it)
    return it, outs


def got(it, o, name):
    v = o.state.store.get((o.value, name))
    return it.resolve(v, o.state) if v is not None else None


def facts(it, o):
    return [it.resolve(x, o.state) for x in o.state.facts]


def is_zero(fs, n):
    return any(f.op == "f" and f.args[0] is n or f.op == "t" and f.args[0].op in ("eq0",) and f.args[0].args[0] in (((n, 1),), ((n, -1),)) or
               f.op == "t" and f.args[0].op == "eq" and set(f.args[0].args) == {n, const(0)} for f in fs)


def filled(v, n, fs, events):
    """v is a buffer of n bytes that was completely read from the input"""
    while v.op == "call" and v.args[0] in ("bytes", "bytearray", "memoryview") and len(v.args) == 2:
        v = v.args[1]
    if is_zero(fs, n) and (is_const(v) and not cval(v) or v.op == "call" and v.args[0] == "zeros"):
        return True
    if v.op != "obj" or v.args[0] != "bytearray" or len(v.args[1]) != 2:
        return False
    c, r = v.args[1]
    if c.op != "ctor" or c.args[0] is not n or r.op != "m" or r.args[0] != "readinto":
        return False
    return complete(fs, n)


def complete(fs, n):
    """the number of bytes read was compared with n, or nothing had to be read"""
    if is_zero(fs, n):
        return True
    for f in fs:
        if f.op != "t":
            continue
        a = f.args[0]
        if a.op == "eq" and n in a.args and any(x.op == "mcall" and x.args[0] == "readinto" for x in a.args):
            return True
        if a.op in ("eq0", "ge0") and {x for x, _ in a.args[0]} >= {n} and any(x is not None and x.op == "mcall" and x.args[0] == "readinto" for x, _ in a.args[0]) \
                and not any(x is None and c for x, c in a.args[0]):
            if a.op == "eq0" or dict(a.args[0]).get(n) == -1:
                return True
    return False


def decoded(it, o, m, kind, v, n, nest):
    """the decoded value of a field of the kind, given the payload"""
    fs = facts(it, o)
    if kind == "EnumType":
        return v is n and any(f.op == "t" and f.args[0].op == "in" and f.args[0].args[0] is n for f in fs)
    if kind == "UVarintType":
        return v is n
    if kind == "SVarintType":
        odd = any(f.op == "t" and f.args[0].op == "bin" and f.args[0].args[0] == "&" for f in fs)
        return signed(v, n, odd)
    if kind == "BoolType":
        w = v
        while w.op == "not":
            w = w.args[0]
        return w is n and v is not n or w.op in ("eq0", "eq", "ge0") and is_nonzero(v, n) or v.op == "call" and v.args[0] == "bool" and v.args[1] is n or \
            is_const(v) and cval(v) is True and any(f.op == "t" and f.args[0] is n for f in fs) or is_const(v) and cval(v) is False and is_zero(fs, n)
    if kind == "BytesType":
        return filled(v, n, fs, it.events)
    if kind == "UnicodeType":
        if v.op == "mcall" and v.args[0] == "decode" and len(v.args) == 2:
            return filled(v.args[1], n, fs, it.events) or is_zero(fs, n) and v.args[1] is n
        return v.op == "call" and v.args[0] == "str" and filled(v.args[1], n, fs, it.events) or is_const(v) and cval(v) == "" and is_zero(fs, n)
    # nested message: read by the same decoder for the declared class from a reader limited to the announced length
    if v.op != "call" or not v.args[0].endswith("load_message") or len(v.args) < 3:
        return False
    r, c = v.args[1], v.args[2]
    if cname(c) != kind or r.op != "obj" or not r.args[0].endswith(":LimitedReader"):
        return False
    at = dict(r.args[1])
    if at.get("limit") is not n or at.get("reader") is not P("reader"):
        return False
    return is_zero(fs, n)      # the limit the reader is left with (the engine keeps its initial name) was compared with zero


def is_nonzero(v, n):
    """v is the comparison n != 0"""
    pol = True
    while v.op == "not":
        v, pol = v.args[0], not pol
    if v.op == "ge0":
        return pol and v.args[0] in (((n, 1), (None, -1)), ((None, -1), (n, 1)))
    return not pol and (v.op == "eq0" and v.args[0] in (((n, 1),), ((n, -1),)) or v.op == "eq" and set(v.args) == {n, const(0)})


def signed(v, n, odd):
    """the interleaved signed decoding of n on the path on which its lowest bit is `odd`"""
    half = mk_bin(">>", n, const(1))
    alt = mk_bin("//", n, const(2))
    if odd:
        return v.op == "un" and v.args[0] == "Invert" and v.args[1] in (half, alt) or v in (mk_sub0(half), mk_sub0(alt))
    return v in (half, alt)


def mk_sub0(x):
    return mk_bin("-", const(-1), x)


def representative(tab):
    """one field of every kind and multiplicity, and every field of the Monero messages"""
    seen = set()
    for name in sorted(tab):
        m = tab[name]
        for tag, v in m.fields or ():
            if v.op != "tuple" or len(v.args) != 3 or not is_const(v.args[0]) or not is_const(v.args[2]) or cname(v.args[1]) is None:
                continue
            k, fl = cname(v.args[1]), cval(v.args[2])
            kk = (k if k in KINDS else "nested", fl)
            if kk in seen and "Monero" not in name:
                continue
            seen.add(kk)
            yield m, tag, cval(v.args[0]), k, fl


def rule_decode(ctx, tab):
    ctx.rule("decode", "decoding one field stores exactly the payload, converted by the type of the field, in the attribute of that field: complete reads, declared nested class, repeated fields appended")
    ctx.rule("framing", "a field with another wire type than the table's is refused, unknown fields are skipped by their wire type, and the loop ends only at the end of the input")
    n = 0
    for m, tag, name, kind, fl in representative(tab):
        wt = KINDS.get(kind, 2)
        pay = mk_len(P("payload")) if wt == 2 else P("value")
        it, outs = load(ctx, m, [const(tag << 3 | wt), pay])
        rets = [o for o in outs if o.kind == "return"]
        bad = [] if rets else ["it is never accepted"]
        for o in rets:
            v = got(it, o, name)
            if fl and (v is None or v.op != "obj" or v.args[0] != "list" or len(v.args[1]) != 1 or v.args[1][0].op != "i"):
                bad.append("the repeated field does not hold the one value read")
                continue
            if v is None:
                bad.append("the value is dropped")
                continue
            if fl:
                v = v.args[1][0].args[0]
            if not decoded(it, o, m, kind, v, pay, None):
                bad.append("a %s payload becomes %s" % (kind, str(v)[:80]))
            for t2, v2 in m.fields:
                n2 = cval(v2.args[0])
                if n2 != name and m.attrs.get(n2) is not None and got(it, o, n2) is not m.attrs[n2]:
                    bad.append("field %s changes as well" % n2)
        ctx.check("decode", "decoding %s.%s" % (m.name, name), not bad, "%s.%s (field %d): %s" % (m.name, name, tag, "; ".join(sorted(set(bad)))), PB)
        n += 1
        # two values
        if fl:
            it, outs = load(ctx, m, [const(tag << 3 | wt), const(0) if wt == 2 else P("v1"), const(tag << 3 | wt), const(0) if wt == 2 else P("v2")])
            rets = [o for o in outs if o.kind == "return"]
            ok = bool(rets)
            for o in rets:
                v = got(it, o, name)
                ok &= v is not None and v.op == "obj" and len(v.args[1]) == 2 and all(p.op == "i" for p in v.args[1])
            ctx.check("decode", "decoding %s.%s twice" % (m.name, name), ok, "%s.%s: the second of two values of a repeated field is not appended" % (m.name, name), PB)
        for w in (0, 1, 2, 5):
            if w == wt:
                continue
            it, outs = load(ctx, m, [const(tag << 3 | w), pay])
            ctx.check("framing", "wire type %d for %s.%s" % (w, m.name, name), not any(o.kind == "return" for o in outs),
                      "%s.%s: wire type %d is accepted where the table says %d" % (m.name, name, w, wt), PB)
    # unknown fields
    m = tab["MoneroTransactionSourceEntry"]
    for w in range(8):
        pay = mk_len(P("payload"))
        it, outs = load(ctx, m, [const(999 << 3 | w), pay])
        rets = [o for o in outs if o.kind == "return"]
        bad = []
        if w not in (0, 2) and rets:
            bad.append("it is accepted")
        if w in (0, 2) and not rets:
            bad.append("it is not skipped")
        for o in rets:
            if any(m.attrs.get(cval(v.args[0])) is not got(it, o, cval(v.args[0])) for _, v in m.fields):
                bad.append("it changes a known field")
            if o.state.store.get((CT, "n")) != 3:
                bad.append("its payload is not consumed" if w in (0, 2) else "it is half consumed")
            if w == 2 and not complete(facts(it, o), pay):
                bad.append("a truncated payload is skipped as if it were complete")
        ctx.check("framing", "unknown field of wire type %d" % w, not bad, "an unknown field of wire type %d: %s" % (w, "; ".join(sorted(set(bad)))), PB)
    # truncation: key without payload
    it, outs = load(ctx, m, [const(6 << 3)])
    ctx.check("framing", "key without payload", not any(o.kind == "return" for o in outs), "a message that ends after a field key is accepted", PB)
    it, outs = load(ctx, m, [])
    ctx.check("framing", "empty message", any(o.kind == "return" for o in outs), "the empty message is refused", PB)
    # limited reader
    f = ctx.func(PB + ":LimitedReader.readinto")
    it = Interp(ctx.repo, limit=100)
    me_, buf = P(f.node.args.args[0].arg), P(f.node.args.args[1].arg)
    lim = mk("attr", me_, "limit")
    outs = it.run(f, args={})
    ctx.used(it)
    bad = []
    rets = [o for o in outs if o.kind == "return"]
    for o in rets:
        fs = facts(it, o)
        if not lin_fact(fs, {lim: 1, mk_len(buf): -1}):
            bad.append("it reads although fewer bytes than asked for remain")
        v = it.resolve(o.value, o.state)
        if not (v.op == "mcall" and v.args[0] == "readinto" and buf in v.args):
            bad.append("it does not return the number of bytes read")
        s = o.state.store.get((me_, "limit"))
        s = it.resolve(s, o.state) if s is not None else None
        if s is None or s is not mk_bin("-", lim, v):
            bad.append("the bytes read are not taken off the limit")
    if not rets:
        bad.append("it never reads")
    ctx.check("framing", "limited reader", not bad, "the reader of nested messages: " + "; ".join(sorted(set(bad))), f.where() if hasattr(f, "where") else f.fid)
    ctx.floor("decode", 150)
    ctx.floor("framing", 400)


def lin_fact(fs, want):
    """sum(want) >= 0 holds on the path"""
    for f in fs:
        if f.op not in ("t", "f") or f.args[0].op != "ge0":
            continue
        d = dict(f.args[0].args[0])
        c = d.pop(None, 0)
        if f.op == "t" and d == want and c >= 0 and c <= 0:
            return True
        if f.op == "f" and {k: -x for k, x in d.items()} == want and c == -1:
            return True
    return False


def dump(ctx, m, kw, args):
    d = driver(ctx.repo, m.mod, "def dump(writer, %s):\n    from monero_glue.protobuf import dump_message\n    return dump_message(writer, %s(%s))\n"
               % (", ".join(args), m.name, kw))
    rec = ctx.func(PB + ":dump_message")

    def nested(it, fi, env, st, node):
        """the recursive call: everything that is written goes to the writer it is given, which counts it when it is a counter"""
        if fi.fid not in [x.fid for x in it.stack]:
            return "inline"
        w, msg = (env[a.arg] for a in fi.node.args.args[:2])
        res = it.opaque_named("protobuf.dump_message", (w, msg), (it.resolve(w, st), it.resolve(msg, st)), st, node, False, fi)
        ci = it.type_of(w, st)
        for s, _ in res:
            for a in counting(ctx, ci):
                old = s.store.get((w, a))
                s.setstore(w, a, mk_add(old, written(msg)) if old is not None else mk("other", a))
        return res

    it = Interp(ctx.repo, opaque=[PB + ":dump_uvarint"], limit=300, stubs={rec.fid: nested})
    it.unroll = 40
    outs = it.run(d, args={a: P(a) for a in ("writer",) + tuple(args)})
    ctx.used(it)
    return it, outs


def written(msg):
    return mk("call", "bytes written for", msg)


def counting(ctx, ci):
    """attributes of a writer class that grow by the length of what is written to it"""
    if ci is None:
        return []
    out = ctx.counters.get(ci.cid) if hasattr(ctx, "counters") else None
    if out is None:
        out = []
        f = ctx.repo.find_method(ci, "write")
        if f is not None:
            ps = [a.arg for a in f.node.args.args]
            it = Interp(ctx.repo, limit=60)
            outs = it.run(f, args={ps[0]: P(ps[0]), ps[1]: P(ps[1])})
            for (b, a) in sorted({k for o in outs for k in o.state.store if isinstance(k, tuple) and k[0] is P(ps[0])}, key=str):
                want = mk_add(mk("attr", P(ps[0]), a), mk_len(P(ps[1])))
                if outs and all(o.kind == "return" and it.resolve(o.state.store.get((b, a), NONE), o.state) is want for o in outs):
                    out.append(a)
        if not hasattr(ctx, "counters"):
            ctx.counters = {}
        ctx.counters[ci.cid] = out
    return out


def listed(it, o, v, w, key):
    """the writes on the path for a list of buffers: key, the sum of their lengths, every buffer in order"""
    seq = sequence(it, o, w)
    n = mk_len(v)
    if len(seq) == 3 and seq[2][0] == "raw" and seq[1] == ("int", mk_len(seq[2][1])) and seq[0] == ("int", const(key)):
        return seq[2][1].op == "mcall" and seq[2][1].args[0] == "join" and seq[2][1].args[-1] is v
    if len(seq) != 2 or seq[0] != ("int", const(key)) or seq[1][0] != "int":
        return False
    t = seq[1][1]
    one = lambda x: any(y.op == "sub" and y.args[0] is v and x is mk_len(y) for y in subterms(x))
    ok = False
    if t.op == "fold" and t.args[0] is n and t.args[2] is const(0):
        items = parts(t.args[3])
        ok = len(items) == 2 and [x.op == "lphi" for x in items].count(True) == 1 and all(one(x) for x in items if x.op != "lphi")
    elif t.op == "call" and t.args[0] == "sum" and len(t.args) == 2:
        r = [x for x in subterms(t.args[1]) if x.op == "rep"]
        ok = len(r) == 1 and r[0].args[0] is n and any(one(x) for x in subterms(t.args[1]))
    if not ok:
        return False
    reps = [f for f in o.state.facts if f.op == "forall" and f.args[0] is n and f.args[2].op == "done"]
    ws = [f.args[2].args[0] for f in reps if f.args[2].args[0].op == "mcall" and f.args[2].args[0].args[0] == "write"]
    if len(ws) != 1 or base_of(ws[0].args[1]) is not w or ws[0].args[2].op != "sub" or ws[0].args[2].args[0] is not v:
        return False
    at = [i for i, e in enumerate(it.events) if e.value is not None and e.value is ws[0] or it.resolve(e.value, e.state) is ws[0]] if ws else []
    ln = [i for i, e in enumerate(it.events) if e.value is not None and e.kind == "call" and e.name.endswith("dump_uvarint") and it.resolve(e.value, e.state).args[2] is t]
    return bool(at) and bool(ln) and min(ln) < min(at)


def rule_encode(ctx, tab):
    ctx.rule("encode", "encoding writes for every set field its key (number and wire type) and its payload, lengths first and equal to what is written; unset fields are left out, repeated fields are written per value")
    n = 0
    for m, tag, name, kind, fl in representative(tab):
        wt = KINDS.get(kind, 2)
        key = tag << 3 | wt
        it, outs = dump(ctx, m, "%s=%s" % (name, "[a, b]" if fl else "a"), ("a", "b"))
        vals = [P("a"), P("b")] if fl else [P("a")]
        rets = [o for o in outs if o.kind == "return"]
        bad = [] if rets else ["it can not be encoded"]
        w, lists = P("writer"), []
        # the writes in program order; alternatives (e.g. for lists of buffers) carry different facts
        for o in rets:
            fs = facts(it, o)
            if any(f.op == "t" and f.args[0].op == "is" and f.args[0].args[1] is NONE for f in fs):
                continue          # the value is unset
            if any(f.op == "t" and f.args[0].op == "isinst" and f.args[0].args[1] is mk("builtin", "list") for f in fs):
                if not fl and kind == "BytesType":
                    lists.append(listed(it, o, vals[0], w, key))
                continue          # a list of buffers instead of one buffer
            seq = sequence(it, o, w)
            exp = []
            ok = True
            for v in vals:
                i = 0
                if not seq or seq[0] != ("int", const(key)):
                    ok = False
                    break
                seq = seq[1:]
                k = payload(it, kind, v, seq, fs)
                if not k:
                    ok = False
                    break
                seq = seq[k:]
            if not ok or seq:
                bad.append("writes %s" % str(sequence(it, o, w))[:200])
        if not all(lists):
            bad.append("a list of buffers is not written as the sum of their lengths and every buffer")
        ctx.check("encode", "encoding %s.%s" % (m.name, name), not bad, "%s.%s (field %d, %s): %s" % (m.name, name, tag, kind, "; ".join(bad[:2])), PB)
        n += 1
    m = tab["MoneroTransactionSourceEntry"]
    it, outs = dump(ctx, m, "", ("a",))
    ctx.check("encode", "unset fields", bool(outs) and all(o.kind == "return" and not sequence(it, o, P("writer")) for o in outs), "unset fields are written", PB)
    ctx.floor("encode", 150)


def sequence(it, o, w):
    """writes to the writer on the path of outcome o, in order"""
    out = []
    fs = {it.resolve(f, o.state) for f in o.state.facts}
    for e in it.events:
        if e.kind not in ("call", "mcall") or e.value is None:
            continue
        c = it.resolve(e.value, e.state)
        if mk("done", c) not in fs and mk("done", e.value) not in o.state.facts or not all(x in o.state.facts for x in e.facts):
            continue
        if c.op == "call" and c.args[0].endswith("dump_uvarint") and base_of(c.args[1]) is w:
            out.append(("int", c.args[2]))
        elif c.op == "call" and c.args[0].endswith("dump_message") and base_of(c.args[1]) is w:
            out.append(("msg", c.args[2]))
        elif c.op == "mcall" and c.args[0] == "write" and base_of(c.args[1]) is w:
            out.append(("raw", c.args[2]))
    return out


def base_of(t):
    while t.op == "mut":
        t = t.args[0]
    return t


def payload(it, kind, v, seq, fs):
    """number of writes that make up the payload of value v, 0 when they are not that"""
    a = seq[0] if seq else None
    b = seq[1] if len(seq) > 1 else None
    if kind in ("UVarintType", "EnumType"):
        return 1 if a == ("int", v) else 0
    if kind == "SVarintType":
        return 1 if a and a[0] == "int" and zigzag(a[1], v, fs) else 0
    if kind == "BoolType":
        return 1 if a and a[0] == "int" and (a[1] is v or a[1].op == "call" and a[1].args[0] in ("int", "bool") and a[1].args[1] is v or a[1].op in ("not", "phi")) else 0
    if kind == "BytesType":
        return 2 if a == ("int", mk_len(v)) and b == ("raw", v) else 0
    if kind == "UnicodeType":
        if not a or not b or b[0] != "raw":
            return 0
        r = b[1]
        ok = r is v and any(f.op == "t" and f.args[0].op == "isinst" for f in fs) or r.op == "mcall" and r.args[0] == "encode" and r.args[1] is v
        return 2 if ok and a == ("int", mk_len(r)) else 0
    return 2 if a == ("int", written(v)) and b == ("msg", v) else 0


def zigzag(t, v, fs):
    d = mk_bin("<<", v, const(1))
    alt = mk_bin("*", const(2), v)
    if any(f.op == "f" and f.args[0].op == "ge0" for f in fs):
        return t.op == "un" and t.args[0] == "Invert" and t.args[1] in (d, alt)
    return t in (d, alt)


# ---------------------------------------------------------------- numbers

def bits(t, it=None):
    """byte arithmetic in one normal form: masks, shifts, sums of disjoint masks"""
    if not isinstance(t, T):
        return t
    a = tuple(bits(x, it) if isinstance(x, T) else x for x in t.args)
    if t.op == "bin" and len(a) == 3:
        op, x, y = a
        if op in ("&", "|", "+") and is_const(x) and not is_const(y):
            x, y = y, x
        if is_const(y) and type(cval(y)) is int:
            n = cval(y)
            if op == "//" and n > 0 and n & (n - 1) == 0:
                op, y = ">>", const(n.bit_length() - 1)
            elif op == "%" and n > 0 and n & (n - 1) == 0:
                op, y = "&", const(n - 1)
            elif op == "*" and n > 0 and n & (n - 1) == 0:
                op, y = "<<", const(n.bit_length() - 1)
            n = cval(y)
            if op in ("|", "+", "<<", ">>") and n == 0:
                return x
            if op in ("<<", ">>") and x.op == "bin" and x.args[0] == op and is_const(x.args[2]):
                return mk("bin", op, x.args[1], const(cval(x.args[2]) + n))
            if op in ("|", "+"):
                return mk("bin", "|", x, y)
            if op == "&" and it is not None and n & (n + 1) == 0:
                r = it.interval(x)
                if r is not None and 0 <= r[0] and r[1] <= n:
                    return x              # nothing is masked
        return mk("bin", op, x, y)
    if t.op == "lin":
        pass
    return t if a == t.args else mk(t.op, *a)


def parts(t):
    """{summand: 1} of a sum or bitwise or of byte values"""
    out = []
    if t.op == "bin" and t.args[0] in ("|", "+", "^"):
        return parts(t.args[1]) + parts(t.args[2])
    if t.op == "sum" or t.op == "add":
        for x in t.args:
            out += parts(x)
        return out
    if t.op == "lin":
        for x, c in t.args[0]:
            if x is None:
                out.append(const(c))
            elif c > 0 and c & (c - 1) == 0:
                out.append(mk("bin", "<<", x, const(c.bit_length() - 1)) if c > 1 else x)
            else:
                out.append(mk("bin", "*", x, const(c)))
        return out
    return [t]


def total(t, it=None):
    return sorted((bits(x, it) for x in parts(t) if not (is_const(x) and cval(x) == 0)), key=str)


def rule_varint(ctx):
    ctx.rule("varint", "numbers are written as seven-bit groups, lowest first, with a continuation bit exactly when higher bits remain, and read back as the same sum; an input that ends inside a number is refused")
    rd = ctx.func(PB + ":LimitedReader.readinto")
    cls = rd.cls
    for n in range(1, 11):
        bs = [P("b%d" % i) for i in range(n)]

        def stub(it, fi, env, st, node):
            k = st.store.get((CT, "k"), 0)
            buf = env[fi.node.args.args[1].arg]
            st.setstore(CT, "k", k + 1)
            if k >= len(bs):
                it.raises.append(Outcome("raise", st, mk("builtin", "EOFError"), node, it.fn()))
                return []
            it.mutate(st, buf, mk("set", const(0), bs[k]))
            return [(st, const(1))]

        for full in (True, False):
            f = ctx.func(PB + ":load_uvarint")
            it = Interp(ctx.repo, limit=100, stubs={rd.fid: stub})
            it.unroll_true = True
            arg = f.node.args.args[0].arg
            it.types[P(arg)] = cls
            pre = []
            for i, b in enumerate(bs):
                more = i < n - 1 or not full
                pre.append(mk("t" if more else "f", mk_bin("&", b, const(128))))
            outs = run_with(it, f, pre)
            ctx.used(it)
            rets = [o for o in outs if o.kind == "return"]
            if full:
                want = sorted((bits(mk("bin", "<<", mk_bin("&", b, const(127)), const(7 * i)) if i else mk_bin("&", b, const(127))) for i, b in enumerate(bs)), key=str)
                ok = len(rets) > 0 and all(total(it.resolve(o.value, o.state)) == want for o in rets)
                ctx.check("varint", "reading %d bytes" % n, ok, "a number of %d bytes is read as %s" % (n, [str(it.resolve(o.value, o.state))[:120] for o in rets]), f.fid)
            else:
                eof = [o for o in outs if o.kind == "raise" and o.value is not None and "EOFError" in str(it.resolve(o.value, o.state))]
                ctx.check("varint", "a number cut after %d bytes" % n, not rets and not eof and bool(outs),
                          "a number cut after %d of its bytes is %s" % (n, "accepted" if rets else "taken for the regular end of the message"), f.fid)
    # writing
    wr = ctx.func(PB + ":CountingWriter.write")
    for n in range(1, 11):
        def wstub(it, fi, env, st, node):
            k = st.store.get((CT, "w"), mk("tuple"))
            buf = env[fi.node.args.args[1].arg]
            v = it.get_sub(buf, const(0), st)
            st.setstore(CT, "w", mk("tuple", *((k.args if k.op == "tuple" else (k,)) + (it.resolve(v, st),))))
            return [(st, const(1))]

        f = ctx.func(PB + ":dump_uvarint")
        it = Interp(ctx.repo, limit=100, stubs={wr.fid: wstub})
        it.unroll_true = True
        w, v = P(f.node.args.args[0].arg), P(f.node.args.args[1].arg)
        it.types[w] = wr.cls
        it.ranges = {v: (1 << 7 * (n - 1) if n > 1 else 0, (1 << 7 * n) - 1)}
        outs = run_with(it, f, [])
        ctx.used(it)
        bad = []
        for o in outs:
            if o.kind != "return":
                bad.append("fails")
                continue
            ws = o.state.store.get((CT, "w"), mk("tuple"))
            got_ = [total(x, it) for x in ws.args] if ws.op == "tuple" else ["different bytes on different paths"]
            want = []
            for i in range(n):
                g = bits(mk_bin("&", mk_bin(">>", v, const(7 * i)) if i else v, const(127)), it)
                want.append(sorted([g] + ([const(128)] if i < n - 1 else []), key=str))
            if got_ != want:
                bad.append("writes %s" % str(got_)[:160])
        ctx.check("varint", "writing %d bytes" % n, bool(outs) and not bad, "a number of %d seven-bit groups: %s" % (n, "; ".join(bad[:2])), f.fid)
    f = ctx.func(PB + ":dump_uvarint")
    it = Interp(ctx.repo, limit=100, stubs={wr.fid: wstub})
    v = P(f.node.args.args[1].arg)
    outs = run_with(it, f, [mk("f", mk("ge0", ((v, 1),)))])
    ctx.check("varint", "negative numbers", bool(outs) and all(o.kind == "raise" for o in outs), "a negative number is written", f.fid)
    ctx.floor("varint", 25)


def run_with(it, f, facts_):
    st = State()
    for x in facts_:
        st.addfact(x)
    return it.run(f, args={}, state=st)


# ---------------------------------------------------------------- dispatch and translation

DISPATCH = [("monero_glue.protocol.tsx_sign:TsxSigner.sign", "MoneroTransaction", [r"TsxSigner\.(tsx_|setup$|restore$|should_purge$|wake_up$)", r"tsx_sign_builder", r"exc2str"]),
            ("monero_glue.hwtoken.token:TokenLite.key_image_sync", "MoneroKeyImage", [r"KeyImageSync\.", r"exc2str", r"exc_handler"])]


def handlers(ctx, f, opq, n):
    """calls to methods of the receiver (or of its members) that get the message and produce the answer"""
    it = Interp(ctx.repo, opaque=opq, limit=300)
    msg = P([a.arg for a in f.node.args.args][1])
    outs = it.run(f, args={}, state=assume_state(("==", mk("attr", msg, "MESSAGE_WIRE_TYPE"), const(n), True)))
    ctx.used(it)
    got_, ok = set(), False
    for o in outs:
        if o.kind != "return" or o.value is None:
            continue
        v = it.resolve(o.value, o.state)
        if v.op == "mcall" and depends(v, msg):
            got_.add(v.args[0])
        elif v.op == "call" and depends(v, msg):
            got_.add(v.args[0])
    return got_, outs, it


def depends(t, x):
    return t is x or any(depends(a, x) for a in t.args if isinstance(a, T))


def rule_dispatch(ctx, tab):
    ctx.rule("dispatch", "every request of the signing and key image protocols is routed to one handler of its own whose answer is returned; other messages are refused")
    nums, _ = numbers(ctx)
    for fid, prefix, opq in DISPATCH:
        f = ctx.func(fid)
        used = {}
        for n, v, _ in nums:
            if not (n.startswith(prefix) and n.endswith("Request")):
                continue
            h, outs, it = handlers(ctx, f, opq, v)
            ctx.check("dispatch", "%s in %s" % (n, f.qual), len(h) == 1, "%s is answered by %s" % (n, sorted(h) or "no handler"), fid)
            for x in h:
                used.setdefault(x, []).append(n)
        for x, ns in sorted(used.items()):
            ctx.check("dispatch", "handler %s of %s" % (x, f.qual), len(ns) == 1, "%s answers %s" % (x, " and ".join(ns)), fid)
        for n, v, _ in nums:
            if n.endswith("Ack") and n.startswith(prefix) or n == "Ping":
                h, outs, it = handlers(ctx, f, opq, v)
                ctx.check("dispatch", "%s in %s" % (n, f.qual), not h, "%s is handled by %s" % (n, sorted(h)), fid)
    ctx.floor("dispatch", 25)


CONV = "monero_glue.protocol_base.messages:MessageConverter"
MISC = "monero_glue.hwtoken.misc"


def argat(t, pos, name):
    """argument of a method call term"""
    k = 0
    for a in t.args[2:]:
        if a.op == "kw":
            if a.args[0] == name:
                return a.args[1]
            continue
        if k == pos:
            return a
        k += 1
    return None


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        if isinstance(a, T):
            yield from subterms(a, seen)
        elif isinstance(a, tuple):
            for x in a:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, T):
                        yield from subterms(y, seen)


def rule_convert(ctx):
    ctx.rule("convert", "converting a message to another message package converts its nested messages to that same package, field by field")
    f = ctx.func(CONV + "._transform")
    ps = [a.arg for a in f.node.args.args]
    it = Interp(ctx.repo, opaque=[r"MessageConverter\.(?!_transform$)"], limit=200)
    outs = it.run(f, args={})
    ctx.used(it)
    msg, src, dst = (P(x) for x in ps[1:4])
    rec = [e for e in it.events if e.kind in ("call", "mcall") and e.name.rsplit(".", 1)[-1] in ("_transform", "to_trezorlib", "to_phlib")]
    for e in rec:
        v = it.resolve(e.value, e.state)
        ok = e.name.endswith("_transform") and argat(v, 1, ps[2]) is src and argat(v, 2, ps[3]) is dst
        ctx.check("convert", "nested conversion at " + e.where(), ok, "a nested value is converted by %s, not into the requested package" % str(v)[:100], e.where())
    kinds = {"message": False, "list": False}
    for o in outs:
        if o.kind != "return":
            continue
        fs = facts(it, o)
        v = it.resolve(o.value, o.state)
        sub = list(subterms(v))
        if any(x.op == "t" and x.args[0].op == "isinst" and depends(x.args[0].args[1], src) for x in fs):
            sets = [x for x in sub if x.op == "setattr"]
            ok = any(x.op == "call" and x.args[0] == "getattr" and x.args[1] is dst for x in sub) and bool(sets)
            for x in sets:
                val = x.args[1]
                inner = argat(val, 0, ps[1]) if val.op == "mcall" else None
                ok &= inner is not None and inner.op == "call" and inner.args[0] == "getattr" and inner.args[1] is msg and inner.args[2] is x.args[0]
            kinds["message"] |= True
            ctx.check("convert", "converted message", ok, "the converted message is not built from the same fields of the source: " + str(v)[:160], f.fid)
        elif any(x.op == "t" and x.args[0].op == "isinst" and x.args[0].args[1] is mk("builtin", "list") for x in fs):
            kinds["list"] = True
            ctx.check("convert", "converted list", any(x.op == "mcall" and x.args[0] == "_transform" for x in sub), "the items of a list are not converted", f.fid)
    ctx.check("convert", "kinds of values", all(kinds.values()), "messages or lists are not converted at all", f.fid)
    for name, s_, d_ in (("to_phlib", "self.tlib_p", "messages"), ("to_trezorlib", "protobuf", "self.tlib_msgs")):
        f = ctx.func(CONV + "." + name)
        it = Interp(ctx.repo, opaque=[r"MessageConverter\._", r"bytes_fix"], limit=100)
        outs = [o for o in it.run(f, args={}) if o.kind == "return"]
        ctx.used(it)
        for o in outs:
            v = it.resolve(o.value, o.state)
            a, b = (argat(v, 1, ps[2]), argat(v, 2, ps[3])) if v.op == "mcall" else (None, None)
            n1 = lambda t: t is not None and (str(t).split("<")[-1].rstrip(">").split(".")[-1])
            ok = v.op == "mcall" and v.args[0] == "_transform" and n1(a) == s_.split(".")[-1] and n1(b) == d_.split(".")[-1]
            ctx.check("convert", "%s (%s)" % (name, sorted(str(x)[:30] for x in o.state.facts if x.op in "tf")), ok, "%s converts by %s" % (name, str(v)[:120]), f.fid)
    ctx.floor("convert", 5)


def rule_translate(ctx):
    ctx.rule("translate", "the entries sent to the device hold the values of the same fields of the transaction being built, including the multisig data")
    f = ctx.func(MISC + ":translate_monero_dest_entry_pb")
    src = P(f.node.args.args[0].arg)
    at = lambda t, *ns: at(mk("attr", t, ns[0]), *ns[1:]) if ns else t
    it = Interp(ctx.repo, limit=200)
    outs = [o for o in it.run(f, args={}) if o.kind == "return"]
    ctx.used(it)
    want = {"amount": at(src, "amount"), "is_subaddress": at(src, "is_subaddress"),
            "addr.spend_public_key": at(src, "addr", "m_spend_public_key"), "addr.view_public_key": at(src, "addr", "m_view_public_key")}
    fields_are(ctx, it, outs, f, want)
    f = ctx.func(MISC + ":translate_monero_src_entry_pb")
    src = P(f.node.args.args[0].arg)
    it = Interp(ctx.repo, limit=200)
    outs = [o for o in it.run(f, args={}) if o.kind == "return"]
    ctx.used(it)
    want = {n: at(src, n) for n in ("real_output", "real_out_tx_key", "real_out_additional_tx_keys", "real_output_in_tx_index", "amount", "rct", "mask")}
    fields_are(ctx, it, outs, f, want)
    ml = at(src, "multisig_kLRki")
    for o in outs:
        fs = facts(it, o)
        if any(x.op == "f" and x.args[0] is ml or x.op == "t" and x.args[0].op == "is" and x.args[0].args[0] is ml for x in fs):
            continue
        fields_are(ctx, it, [o], f, {"multisig_kLRki." + n: at(ml, n) for n in ("K", "L", "R", "ki")}, " with multisig data")
    for o in outs:
        v = got(it, o, "outputs")
        txt = None
        ok = False
        if v is not None and v.op == "obj" and len(v.args[1]) == 1 and v.args[1][0].op == "rep":
            r = v.args[1][0]
            x = r.args[2][0][0].args[0]
            e = mk_sub(at(src, "outputs"), mk("idx", r.args[1]))
            d = flat(x)
            ok = r.args[0] is mk_len(at(src, "outputs")) and d.get("idx") is mk_sub(e, const(0)) and d.get("key.dest") is at(mk_sub(e, const(1)), "dest") \
                and d.get("key.commitment") is at(mk_sub(e, const(1)), "mask")
        ctx.check("translate", f.qual + " outputs", ok, "the ring sent to the device is not the ring of the source entry: %s" % str(v)[:160], f.fid)
    ctx.floor("translate", 10)


def flat(t, pre=""):
    out = {}
    if t is not None and t.op == "obj" and str(t.args[0]).startswith("cls:"):
        for k, v in t.args[1]:
            out[pre + k] = v
            out.update(flat(v, pre + k + "."))
    return out


def same(a, b):
    while a is not None and (a.op == "call" and a.args[0] in ("list", "tuple", "bytes") and len(a.args) == 2):
        a = a.args[1]
    return a is b


def fields_are(ctx, it, outs, f, want, note=""):
    for n, w in want.items():
        bad = []
        for o in outs:
            d = flat(it.resolve(o.value, o.state))
            v = d.get(n)
            if not same(v, w):
                bad.append(str(v)[:80])
        ctx.check("translate", "%s %s%s" % (f.qual, n, note), bool(outs) and not bad, "%s of the translated entry is %s%s" % (n, bad[0] if bad else "never made", note), f.fid)


def run(ctx):
    tab = tables(ctx)
    rule_tables(ctx, tab)
    rule_numbers(ctx, tab)
    rule_published(ctx, tab)
    rule_decode(ctx, tab)
    rule_encode(ctx, tab)
    rule_varint(ctx)
    rule_dispatch(ctx, tab)
    rule_convert(ctx)
    rule_translate(ctx)
