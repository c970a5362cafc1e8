"""C18 - addresses: checksum, known network, right length, positions as encoded; base58 blocks of impossible size or value are refused."""
from tsx import *
from engine import Interp, mk_sub, mk_len, mk_add
from drive import driver
def short(x):
    return show(x, lim=14) if isinstance(x, T) else str(x)

C = "monero_glue.xmr.crypto"
A = "monero_glue.xmr.sub.addr"
N = "monero_glue.xmr.sub.xmr_net"
B = "monero_glue.misc.b58_mnr"
# network -> (standard, integrated, subaddress) version byte, as assigned by Monero
PREFIX = {0: (18, 19, 42), 1: (53, 54, 63), 2: (24, 25, 36)}
KNOWN = {v: (net, kind) for net, vs in PREFIX.items() for kind, v in zip(("standard", "integrated", "subaddress"), vs)}
SIZES = [0, 2, 3, 5, 6, 7, 9, 10, 11]
ALPHABET = tuple(b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
OP = [r"crypto:", r"misc\.b58_mnr:", r"xmr\.core\."]

OPC = [r"crypto:(cn_fast_hash|keccak|get_keccak)", r"misc\.b58_mnr:", r"xmr\.core\."]


def sl(x, a, b):
    return mk_sub(x, mk("slice", const(a), NONE if b is None else const(b)))


def plain(x):
    """bytes(x), bytearray(x) and copies are x"""
    while x.op == "call" and x.args[0] in ("bytes", "bytearray") and len(x.args) == 2 or x.op == "obj" and x.args[0] == "bytearray" and len(x.args[1]) == 1 and x.args[1][0].op == "ctor":
        x = x.args[1] if x.op == "call" else x.args[1][0].args[0]
    return x


def atoms(facts):
    for x in facts:
        if x.op in ("t", "f"):
            a, pos = x.args[0], x.op == "t"
            while a.op == "not":
                a, pos = a.args[0], not pos
            yield a, pos


def name(t):
    return str(t.args[0]).rsplit(".", 1)[-1] if t.op == "call" else None


def checksum(ctx):
    ctx.rule("checksum", "an address is decoded only when the hash of everything before the last four bytes equals them; encoding writes that hash")
    f = ctx.func(C + ":xmr_base58_addr_decode_check")
    p = mk("param", "buff")
    it = Interp(ctx.repo, opaque=OPC, limit=100)
    outs = it.run(f, args={f.node.args.args[0].arg: p})
    ctx.used(it)
    k = 0
    for o in outs:
        if o.kind != "return":
            continue
        k += 1
        facts = [it.resolve(x, o.state) for x in o.state.facts]
        ok = None
        for a, pos in atoms(facts):
            if a.op != "eq" or not pos:
                continue
            for x, y in (a.args, a.args[::-1]):
                # compared: d[-4:] and hash(d[:-4])[:4]
                h = y.args[0] if y.op == "sub" and y.args[1] is mk("slice", const(0), const(4)) else None
                if h is None or name(h) != "cn_fast_hash" or len(h.args) != 2:
                    continue
                d = plain(h.args[1])
                if d.op != "sub" or d.args[1] is not mk("slice", const(0), const(-4)):
                    continue
                d = d.args[0]
                if name(d) == "b58decode" and x is sl(d, -4, None) and any(plain(q) is p for q in d.args[1:]):
                    ok = d
        ctx.check("checksum", "decoding compares the checksum of all preceding bytes", ok is not None, "an address is accepted without its checksum having been compared", f.fid)
        v = it.resolve(o.value, o.state)
        body = sl(ok, 0, -4) if ok is not None else None
        good = ok is not None and v.op == "tuple" and len(v.args) == 2 and plain(v.args[0]) in (sl(ok, 1, -4), mk_sub(body, mk("slice", const(1), NONE)))
        if good:
            w = v.args[1]
            good = w in (mk_sub(ok, const(0)), mk_sub(body, const(0))) or name(w) == "ord" and w.args[1] in (sl(ok, 0, 1), sl(body, 0, 1))
        ctx.check("checksum", "the checked bytes are the version and the content handed out", bool(good), "hands out %s" % short(v)[:200], f.fid)
    ctx.check("checksum", "decoding accepts something", k > 0, "no accepting path", f.fid)
    f = ctx.func(C + ":xmr_base58_addr_encode_check")
    ver, buf = mk("param", "version"), mk("param", "buff")
    it = Interp(ctx.repo, opaque=OPC, limit=100)
    outs = it.run(f, args={f.node.args.args[0].arg: ver, f.node.args.args[1].arg: buf})
    ctx.used(it)
    for o in outs:
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state)
        body = None
        if name(v) == "b58encode":
            x = next((y.args[1] if y.op == "kw" else y for y in v.args[1:] if y is not NONE), None)
            body = x.args[1] if x is not None and name(x) == "hexlify" else x
        parts = flat(body) if body is not None else []
        ok = len(parts) == 3 and parts[1] is buf and bytes_of(parts[0]) is ver
        if ok:
            h = parts[2]
            ok = h.op == "sub" and h.args[1] is mk("slice", const(0), const(4)) and name(h.args[0]) == "cn_fast_hash"
            ok = ok and [bytes_of(x) or x for x in flat(h.args[0].args[1])] == [ver, buf]
        ctx.check("checksum", "encoding writes version, content and the first four bytes of their hash", bool(ok), "writes %s" % short(v)[:250], f.fid)
    ctx.floor("checksum", 4)


def flat(x):
    """operands of a concatenation"""
    x = plain(x)
    if x.op == "add":
        return [z for y in x.args for z in flat(y)]
    if x.op == "bin" and x.args[0] == "+":
        return flat(x.args[1]) + flat(x.args[2])
    if x.op == "obj" and x.args[0] == "bytearray":
        out = []
        for p in x.args[1]:
            if p.op in ("ctor", "ext", "i") and len(p.args) == 1:
                out += flat(p.args[0])
            else:
                return [x]
        return out
    return [x]


def bytes_of(x):
    """v for bytes([v])"""
    if x.op == "tuple" and len(x.args) == 1:
        return x.args[0]
    if x.op == "call" and x.args[0] == "bytes" and len(x.args) == 2:
        y = x.args[1]
        if y.op == "tuple" and len(y.args) == 1:
            return y.args[0]
        if y.op == "obj" and len(y.args[1]) == 1 and y.args[1][0].op == "i":
            return y.args[1][0].args[0]
    return None


def run_const(ctx, module, src, **kw):
    f = driver(ctx.repo, module, src)
    it = Interp(ctx.repo, opaque=OP, limit=200, **kw)
    it.tables = True
    outs = it.run(f)
    ctx.used(it)
    return it, outs


def tables(ctx):
    ctx.rule("kinds", "the version byte determines network and kind exactly as assigned; every other value is refused; the encoder picks the byte the decoder reads back")
    for fn in ("get_addr_type", "is_subaddress", "is_integrated"):
        ctx.func(A + ":" + fn)
    for v in range(256):
        got = []
        for fn in ("get_addr_type", "is_subaddress", "is_integrated"):
            it, outs = run_const(ctx, A, "def d():\n    return %s(%d)" % (fn, v))
            vals = {"raise" if o.kind == "raise" else cval(it.resolve(o.value, o.state)) if is_const(it.resolve(o.value, o.state)) else short(it.resolve(o.value, o.state)) for o in outs}
            got.append(vals.pop() if len(vals) == 1 else str(vals))
        if v in KNOWN:
            net, kind = KNOWN[v]
            want = [net, kind == "subaddress", kind == "integrated"]
            ctx.check("kinds", "version %d: network %d, %s" % (v, net, kind), got[0] == want[0] and got[0] is not False and [bool(x) if not isinstance(x, str) else x for x in got[1:]] == want[1:], "classified as network %s, subaddress %s, integrated %s" % tuple(got), A + ":get_addr_type")
        else:
            ctx.check("kinds", "version %d is refused" % v, got[0] == "raise", "taken for network %s" % got[0], A + ":get_addr_type")
    ctx.func(N + ":net_version")
    for net in (0, 1, 2, 3, None):
        for sub in (True, False):
            for integ in (True, False):
                it, outs = run_const(ctx, N, "def d():\n    return net_version(%r, %r, %r)" % (net, sub, integ))
                vals = {"raise" if o.kind == "raise" else cval(it.resolve(o.value, o.state)) if is_const(it.resolve(o.value, o.state)) else short(it.resolve(o.value, o.state)) for o in outs}
                if net == 3 or sub and integ:
                    want = {"raise"}
                else:
                    want = {bytes([PREFIX[net or 0][2 if sub else 1 if integ else 0]])}
                ctx.check("kinds", "encoder, network %s%s%s" % (net, ", subaddress" if sub else "", ", integrated" if integ else ""), vals == want, "version %s instead of %s" % (vals, want), N + ":net_version")
    ctx.floor("kinds", 276)


def encoded(x):
    """(version, [parts]) of an encoded address"""
    if name(x) == "xmr_base58_addr_encode_check" and len(x.args) == 3:
        return x.args[1], flat(x.args[2])
    return None


def decoder(ctx):
    ctx.rule("decode", "network, kind, keys and payment id of a decoded address come from the checked version and the positions the encoder writes, and the length fits the kind")
    ctx.func(A + ":decode_addr")
    ctx.func(A + ":AddrInfo.set_addr")
    data = mk("param", "content")
    for v in sorted(KNOWN):
        net, kind = KNOWN[v]
        asked = []

        def check(it, fi, env, st, node):
            asked.append(it.resolve(next(iter(env.values())), st))
            return [(st, mk("tuple", data, const(v)))]
        f = driver(ctx.repo, A, "def d(text):\n    return decode_addr(text)")
        it = Interp(ctx.repo, opaque=[r"crypto:", r"misc\.b58_mnr:", r"xmr\.core\."], limit=200, stubs={C + ":xmr_base58_addr_decode_check": check})
        it.tables = True
        outs = it.run(f)
        ctx.used(it)
        what = "network %d %s address" % (net, kind)
        ctx.check("decode", "%s: the whole text is decoded with its checksum" % what, bool(asked) and all(plain(a) is mk("param", "text") for a in asked), "decodes %s" % [short(a) for a in asked], A + ":decode_addr")
        k = 0
        n = 72 if kind == "integrated" else 64
        for o in outs:
            if o.kind != "return":
                continue
            facts = [it.resolve(x, o.state) for x in o.state.facts]
            fits = truth(facts, "==", mk_len(data), const(n)) is True
            if any(a.op == "is" and pos and data in a.args and NONE in a.args for a, pos in atoms(facts)):
                continue        # the content is never absent
            if fits and n > 64 and any(not pos and plain(a) in (sl(data, 64, None), sl(data, 64, 72)) for a, pos in atoms(facts)):
                continue        # eight bytes are never empty
            k += 1
            ctx.check("decode", "%s: accepted only with %d bytes of keys%s" % (what, n, " and payment id" if n > 64 else ""), fits, "an address with any number of content bytes is accepted", A + ":AddrInfo.set_addr")
            obj = o.value
            g = lambda a: it.resolve(o.state.store.get((obj, a), NONE), o.state)
            ok = plain(g("spend_key")) is sl(data, 0, 32) and plain(g("view_key")) is sl(data, 32, 64)
            ctx.check("decode", "%s: spend key first, view key second" % what, ok, "spend key %s, view key %s" % (short(g("spend_key")), short(g("view_key"))), A + ":AddrInfo.set_addr")
            ok = is_const(g("net_type")) and cval(g("net_type")) == net and all(is_const(g(a)) and bool(cval(g(a))) == (kind == b) for a, b in (("is_sub_address", "subaddress"), ("is_integrated", "integrated")))
            ctx.check("decode", "%s: network and kind of its version" % what, ok, "network %s, subaddress %s, integrated %s" % tuple(short(g(a)) for a in ("net_type", "is_sub_address", "is_integrated")), A + ":AddrInfo.set_addr")
            pid = g("payment_id")
            ok = plain(pid) in (sl(data, 64, None), sl(data, 64, 72)) if kind == "integrated" else pid is NONE
            ctx.check("decode", "%s: payment id" % what, ok, "payment id %s" % short(pid), A + ":AddrInfo.set_addr")
            for a, ver, pids in (("addr", v, kind == "integrated"), ("base_addr", PREFIX[net][2 if kind == "subaddress" else 0], False)):
                e = encoded(g(a))
                parts = e[1] if e else []
                ok = e is not None and is_const(e[0]) and cval(e[0]) == ver and [plain(x) for x in parts[:2]] == [sl(data, 0, 32), sl(data, 32, 64)] and (plain(parts[2]) in (sl(data, 64, None), sl(data, 64, 72)) and len(parts) == 3 if pids else len(parts) == 2)
                ctx.check("decode", "%s: the %s it stands for" % (what, "address" if a == "addr" else "address without payment id"), ok, "re-encoded as %s" % short(g(a))[:200], A + ":AddrInfo.recompute_addr")
        ctx.check("decode", "%s: accepted when well-formed" % what, k > 0, "no accepting path", A + ":decode_addr")
    ctx.floor("decode", 60)


def encoder(ctx):
    ctx.rule("encode", "an encoded address carries the version of its network and kind, then spend key, view key and, exactly for an integrated one, the 8-byte payment id")
    ctx.func(A + ":public_addr_encode")
    pid = mk("param", "pid")
    for net in (0, 1, 2):
        for sub in (True, False):
            for case in ("none", "empty", "given"):
                src = "def d(s, v, pid):\n    return public_addr_encode(build_address(s, v), %r, %r, %s)" % (sub, net, {"none": "None", "empty": "b''", "given": "pid"}[case])
                it, outs = run_const(ctx, A, src)
                what = "network %d, %s, payment id %s" % (net, "subaddress" if sub else "main address", case)
                k = 0
                for o in outs:
                    if o.kind != "return":
                        continue
                    facts = [it.resolve(x, o.state) for x in o.state.facts]
                    e = encoded(it.resolve(o.value, o.state))
                    if e is None or not is_const(e[0]):
                        ctx.check("encode", what, False, "encodes %s" % short(it.resolve(o.value, o.state)), A + ":public_addr_encode")
                        continue
                    keys = [mk("param", "s"), mk("param", "v")]
                    k += 1
                    if [plain(x) for x in e[1]] == keys:
                        ok = cval(e[0]) == PREFIX[net][2 if sub else 0]
                    else:
                        ok = [plain(x) for x in e[1]] == keys + [pid] and not sub and cval(e[0]) == PREFIX[net][1] and truth(facts, "==", mk_len(pid), const(8)) is True
                    ctx.check("encode", what, ok, "version %s with content %s" % (cval(e[0]), [short(x) for x in e[1]]), A + ":public_addr_encode")
                ctx.check("encode", what + ": has an encoding" if not sub or case == "none" else what + ": never integrated", k > 0 or sub and case != "none", "always refused", A + ":public_addr_encode")
    ctx.rule("own", "the address of account/index (0, 0) carries the standard version, every other one the subaddress version, with the keys of that very index")
    # the host's own addresses: every combination of zero / non-zero account and index
    f = driver(ctx.repo, A, "def d(info, s, v, a, b):\n    info.recompute_sub(s, v, a, b)\n    return info")
    for a in (0, 1):
        for b in (0, 1):
            info = mk("param", "info")
            it = Interp(ctx.repo, opaque=OP, limit=200)
            it.types[info] = next(c for c in ctx.repo.all_classes() if c.cid == A + ":AddrInfo")
            outs = it.run(f, args={"info": info, "a": const(a), "b": const(b)})
            ctx.used(it)
            k = 0
            for o in outs:
                if o.kind != "return":
                    continue
                k += 1
                x = it.resolve(o.state.store.get((info, "is_sub_address"), NONE), o.state)
                ctx.check("own", "address of account %s, index %s" % ("0" if not a else "non-zero", "0" if not b else "non-zero"), is_const(x) and bool(cval(x)) == bool(a or b), "subaddress flag %s" % short(x), A + ":AddrInfo.recompute_sub")
                keys = [plain(it.resolve(o.state.store.get((info, n), NONE), o.state)) for n in ("spend_key", "view_key")]
                ctx.check("own", "keys of account %s, index %s" % (a, b), keys == [mk("param", "s"), mk("param", "v")], "keys %s" % [short(q) for q in keys], A + ":AddrInfo.recompute_sub")
            ctx.check("own", "account %s, index %s has an address" % (a, b), k > 0, "always refused", A + ":AddrInfo.recompute_sub")
    M = "monero_glue.xmr.monero"
    ctx.func(M + ":build_address_info")
    for idx in (None, (0, 0), (0, 1), (1, 0), (1, 1)):
        for pid_ in ("None", "pid"):
            f = driver(ctx.repo, M, "def d(creds, pid):\n    return build_address_info(creds, %r, %s, 1)" % (idx, pid_))
            it = Interp(ctx.repo, opaque=[r"xmr\.crypto:", r"xmr\.core\.", r"misc\.b58_mnr:", r"monero:generate_sub_address_keys"], limit=300)
            outs = it.run(f)
            ctx.used(it)
            for o in outs:
                if o.kind != "return":
                    continue
                g = lambda a: it.resolve(o.state.store.get((o.value, a), NONE), o.state)
                e = encoded(g("addr"))
                sub = idx not in (None, (0, 0))
                facts = [it.resolve(x, o.state) for x in o.state.facts]
                ok = e is not None and is_const(e[0])
                has = ok and len(e[1]) == 3
                ok = ok and cval(e[0]) == PREFIX[1][2 if sub else 1 if has else 0] and not (sub and has)
                ctx.check("own", "address information for %s%s" % ("account %d, index %d" % idx if idx else "the main address", " with payment id" if pid_ == "pid" else ""), bool(ok), "encoded as %s" % (short(e[0]) + " with %d parts" % len(e[1]) if e else short(g("addr"))), M + ":build_address_info")
    ctx.floor("encode", 20)
    ctx.floor("own", 12)


# ---------------------------------------------------------------------------------------------------- base58

def linear(t):
    """{atom: coefficient} of an integer expression over bytes/digits (None: constant)"""
    if t.op == "const":
        return {None: cval(t)} if isinstance(cval(t), int) else {t: 1}
    if t.op == "lin":
        out = {}
        for x, c in t.args[0]:
            for y, d in ({None: 1} if x is None else linear(x)).items():
                out[y] = out.get(y, 0) + c * d
        return out
    if t.op == "add":
        out = {}
        for x in t.args:
            for y, d in linear(x).items():
                out[y] = out.get(y, 0) + d
        return out
    if t.op == "bin":
        op, a, b = t.args
        if op == "|" and is_const(b) and cval(b) == 0:
            return linear(a)
        if op == "|" and is_const(a) and cval(a) == 0:
            return linear(b)
        if op in ("+", "|", "-"):
            la, lb = linear(a), linear(b)
            if op == "|":
                # disjoint bits: one side is a multiple of 256, the other a byte
                for p, q in ((la, lb), (lb, la)):
                    if all(c % 256 == 0 for c in p.values()) and len(q) == 1 and list(q.values()) == [1] and None not in q:
                        break
                else:
                    return {t: 1}
            out = dict(la)
            for y, d in lb.items():
                out[y] = out.get(y, 0) + (-d if op == "-" else d)
            return {y: c for y, c in out.items() if c}
        if op == "<<" and is_const(b):
            return {y: c << cval(b) for y, c in linear(a).items()}
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if is_const(x) and isinstance(cval(x), int):
                    return {z: c * cval(x) for z, c in linear(y).items()}
    if t.op == "mul":
        k, rest = 1, []
        for x in t.args:
            if is_const(x):
                k *= cval(x)
            else:
                rest.append(x)
        if len(rest) == 1:
            return {y: c * k for y, c in linear(rest[0]).items()}
    if t.op == "call" and str(t.args[0]).endswith("from_bytes"):
        return {t: 1}
    return {t: 1}


def lin_eq(a, b):
    return {k: v for k, v in a.items() if v} == {k: v for k, v in b.items() if v}


def digit_of(t, base):
    """(S, d, m): t = (S // d) % m, d and m powers of the base (m None: not reduced)"""
    m = None
    if t.op == "bin" and t.args[0] == "&" and is_const(t.args[1]):
        t = mk("bin", "&", t.args[2], t.args[1])
    if t.op == "bin" and t.args[0] in ("%", "&") and is_const(t.args[2]):
        m = cval(t.args[2]) + (t.args[0] == "&")
        t = t.args[1]
    d = 1
    while t.op == "bin" and t.args[0] in ("//", ">>") and is_const(t.args[2]):
        d *= cval(t.args[2]) if t.args[0] == "//" else 1 << cval(t.args[2])
        t = t.args[1]
    return linear(t), d, m


def slots(v):
    """{position: term} of a list built by item assignments (None when something else happens to it)"""
    if v.op == "obj" and v.args[0] == "list":
        out = {}
        n = 0
        for p in v.args[1]:
            if p.op == "i":
                out[n] = p.args[0]
                n += 1
            elif p.op == "set" and is_const(p.args[0]):
                out[cval(p.args[0])] = p.args[1]
            else:
                return None
        return out
    if v.op == "mut":
        out = slots(v.args[0])
        for p in v.args[1]:
            if out is None or p.op != "set" or not is_const(p.args[0]):
                return None
            out[cval(p.args[0])] = p.args[1]
        return out
    return None


def blocks(ctx):
    ctx.rule("blocks", "a base58 block of n characters decodes only if n is a length the encoder can produce and its value fits the bytes it stands for; its bytes are the digits of that value")
    f = ctx.func(B + ":decode_block")
    table = mk("tuple", *[const(x) for x in ALPHABET])
    for n in range(0, 13):
        ps = ["b%d" % i for i in range(n)]
        f = driver(ctx.repo, B, "def d(%s):\n    return decode_block([%s], ['empty'] * 8, 0)" % (", ".join(ps), ", ".join(ps)))
        it = Interp(ctx.repo, limit=400, unroll=40)
        it.tables = it.unroll_true = True
        outs = it.run(f)
        ctx.used(it)
        k = 0
        size = SIZES.index(n) if n in SIZES else 0
        digits = {}
        S = {}
        for i in range(n):
            S[mk("mcall", "index", table, mk("param", ps[i]))] = 58 ** (n - 1 - i)
        for o in outs:
            if o.kind != "return":
                continue
            v = it.resolve(o.value, o.state)
            if is_const(v) or v.op == "add" or v.op == "lin" or str(short(v)).find("Invalid") >= 0 or v.op == "call" and v.args[0] == "str":
                ctx.check("blocks", "%d characters: a refused block yields nothing usable as content" % n, not (is_const(v) and isinstance(cval(v), (bytes, type(None)))), "returns %s" % short(v), B + ":decode_block")
                continue
            k += 1
            facts = [it.resolve(x, o.state) for x in o.state.facts]
            ctx.check("blocks", "%d characters" % n, size > 0, "a block of impossible size is decoded", B + ":decode_block")
            if size <= 0:
                continue
            bound = upper(facts, S)
            ctx.check("blocks", "%d characters: the value fits %d bytes" % (n, size), bound is not None and bound < 256 ** size, "values up to %s are decoded (%d is the largest that fits)" % (bound, 256 ** size - 1), B + ":decode_block")
            s = slots(v)
            bad = None
            if s is None:
                bad = "content %s" % short(v)[:200]
            else:
                for j in range(8):
                    x = s.get(j)
                    if j >= size:
                        if not (x is not None and is_const(x) and cval(x) == "empty"):
                            bad = "position %d is written" % j
                        continue
                    q, d, m = digit_of(x, 256)
                    if not lin_eq(q, S) or d != 256 ** (size - 1 - j) or not (m == 256 or m is None and j == 0):
                        bad = "byte %d is %s" % (j, short(x)[:120])
            ctx.check("blocks", "%d characters: bytes of the value" % n, bad is None, bad, B + ":decode_block")
        ctx.check("blocks", "%d characters: decodable exactly when the encoder can produce it" % n, (k > 0) == (size > 0), "%s" % ("never decoded" if size else "a block of impossible size is decoded"), B + ":decode_block")
    ctx.func(B + ":encode_block")
    for n in range(1, 9):
        ps = ["b%d" % i for i in range(n)]
        f = driver(ctx.repo, B, "def d(%s):\n    return encode_block([%s], [0x31] * 11, 0)" % (", ".join(ps), ", ".join(ps)))
        it = Interp(ctx.repo, limit=400, unroll=40)
        it.tables = it.unroll_true = True
        outs = it.run(f)
        ctx.used(it)
        S = {mk("param", ps[i]): 256 ** (n - 1 - i) for i in range(n)}
        k = 0
        for o in outs:
            if o.kind != "return":
                continue
            k += 1
            v = it.resolve(o.value, o.state)
            bad = encoded_block(v, S, table, SIZES[n])
            ctx.check("blocks", "%d bytes are written as their base-58 digits" % n, bad is None, bad, B + ":encode_block")
        ctx.check("blocks", "%d bytes have an encoding" % n, k > 0, "never encoded", B + ":encode_block")
    ctx.floor("blocks", 45)


def upper(facts, S):
    """largest value of the sum S the facts allow, from facts about S itself (None: unbounded)"""
    best = None
    for a, pos in atoms(facts):
        if a.op != "ge0":
            continue
        lin = {}
        for t, c in a.args[0]:
            for y, d in ({None: 1} if t is None else linear(t)).items():
                lin[y] = lin.get(y, 0) + c * d
        k = lin.pop(None, 0)
        lin = {y: c for y, c in lin.items() if c}
        # S + k >= 0 false: S <= -k-1;  -S + k >= 0 true: S <= k
        b = None
        if lin_eq(lin, S) and not pos:
            b = -k - 1
        if lin_eq({y: -c for y, c in lin.items()}, S) and pos:
            b = k
        if b is not None:
            best = b if best is None else min(best, b)
    return best


def encoded_block(v, S, table, size):
    """None when v is the list of the base-58 digits of S in the first `size` places"""
    if v.op == "obj" and v.args[0] == "list":
        head = [p for p in v.args[1] if p.op == "i"]
        rest = [p for p in v.args[1] if p.op != "i"]
        if len(head) != 11 or v.args[1][:11] != tuple(head):
            return "content %s" % short(v)[:200]
        if len(rest) == 1 and rest[0].op == "rep" and rest[0].args[0].op == "while":
            # digits peeled off while the value is positive; untouched places hold the zero digit
            w, alts = rest[0].args[0], rest[0].args[2]
            if len(alts) != 1 or len(alts[0]) != 1 or alts[0][0].op != "set":
                return "loop writes %s" % short(rest[0])[:200]
            ix, val = alts[0][0].args[:2]
            if val.op != "sub" or val.args[0] is not table or val.args[1].op != "bin" or val.args[1].args[0] != "%" or not (is_const(val.args[1].args[2]) and cval(val.args[1].args[2]) == 58):
                return "a digit is %s" % short(val)[:200]
            x = val.args[1].args[1]
            if x.op != "lphi" or not lin_eq(linear(x.args[1]), S):
                return "digits of %s" % short(x)[:200]
            li = linear(ix)
            if li.pop(None, 0) != size - 1 or list(li.values()) != [-1]:
                return "digit k is written to %s" % short(ix)
            c = w.args[0]
            if not (c.op == "ge0" and {t: k for t, k in c.args[0]} == {x: 1, None: -1} or c.op in ("not", "eq0") or c is x):
                return "stops when %s" % short(c)[:100]
            return None
        s = slots(v)
        if s is None:
            return "content %s" % short(v)[:200]
        for j in range(11):
            x = s[j]
            if j >= size:
                if not (is_const(x) and cval(x) == 0x31):
                    return "place %d is written" % j
                continue
            if x.op != "sub" or x.args[0] is not table:
                return "place %d is %s" % (j, short(x)[:100])
            q, d, m = digit_of(x.args[1], 58)
            if not lin_eq(q, S) or d != 58 ** (size - 1 - j) or not (m == 58 or m is None and j == 0):
                return "place %d is %s" % (j, short(x)[:100])
        return None
    return "content %s" % short(v)[:200]


def whole(ctx):
    ctx.rule("split", "encoder and decoder cut the text into the same blocks: 8 bytes to 11 characters each, the rest by the size table, nothing left out")
    sizes = mk("tuple", *[const(x) for x in SIZES])
    for fn, blk, src, dst, kind in (("b58decode", "decode_block", 11, 8, "decoding"), ("b58encode", "encode_block", 8, 11, "encoding")):
        f = ctx.func(B + ":" + fn)
        data = mk("param", "data")
        it = Interp(ctx.repo, opaque=[r"b58_mnr:(de|en)code_block$"], limit=300, unroll=40)
        it.tables = True
        outs = it.run(f, args={"data_bin": data, "data_hex": NONE})
        ctx.used(it)
        n = mk_len(data)
        from engine import mk_bin
        q, r = mk_bin("//", n, const(src)), mk_bin("%", n, const(src))
        rest_size = mk("mcall", "index", sizes, r) if kind == "decoding" else mk_sub(sizes, r)
        k = 0
        for o in outs:
            if o.kind != "return":
                continue
            facts = [it.resolve(x, o.state) for x in o.state.facts]
            if any(a is data and not pos for a, pos in atoms(facts)) or truth(facts, "==", n, const(0)) is True:
                continue        # nothing to code
            v = it.resolve(o.value, o.state)
            if is_const(v) and isinstance(cval(v), str):
                continue        # refused
            k += 1
            rest = truth(facts, "==", r, const(0))
            if rest is None:
                rest = truth(facts, ">=", r, const(1))
                rest = None if rest is None else not rest
            bad = None
            x = plain(v)
            calls = []
            if name(x) == blk:
                calls = [x]
                if rest is not False:
                    bad = "the last block is coded although there may be none"
                a = x.args[1]
                ok = a.op == "sub" and plain(a.args[0]) is data and a.args[1].op == "slice" and lin_eq(linear(a.args[1].args[0]), {q: src}) and (a.args[1].args[1] is NONE or ends(a.args[1].args[1], q, r, n, src))
                if not ok:
                    bad = "the last block is %s" % short(a)[:150]
                elif not lin_eq(linear(x.args[3]), {q: dst}):
                    bad = "the last block goes to %s" % short(x.args[3])
                x = x.args[2]
            elif rest is not True:
                bad = "the bytes after the last full block are left out"
            if bad is None:
                if x.op != "fold" or x.args[0] is not q:
                    bad = "full blocks: %s" % short(x)[:200]
                else:
                    init, step = x.args[2], x.args[3]
                    if name(step) != blk or step.args[2].op != "lphi" or step.args[2].args[1] is not init:
                        bad = "a full block is coded by %s" % short(step)[:150]
                    else:
                        a = step.args[1]
                        li = linear(step.args[3])
                        if len(li) != 1 or list(li.values()) != [dst] or None in li:
                            bad = "a full block goes to %s" % short(step.args[3])
                        else:
                            iv = next(iter(li))
                            if not (a.op == "sub" and plain(a.args[0]) is data and a.args[1].op == "slice" and lin_eq(linear(a.args[1].args[0]), {iv: src}) and lin_eq(linear(a.args[1].args[1]), {iv: src, None: src})):
                                bad = "a full block is %s" % short(a)[:150]
                    if bad is None:
                        m = mk_len(init)
                        want = {q: dst}
                        want[rest_size] = 1
                        lm = linear(m)
                        if not lin_eq(lm, want) and not (rest is True and lin_eq(lm, {q: dst})):
                            bad = "room for %s" % short(m)[:150]
            ctx.check("split", "%s, %s" % (kind, "whole blocks only" if rest is True else "with a shorter last block" if rest is False else "any length"), bad is None, bad, f.fid)
        ctx.check("split", "%s does something" % kind, k > 0, "nothing is coded", f.fid)
    ctx.floor("split", 6)


def ends(t, q, r, n, src):
    l = linear(t)
    return lin_eq(l, {q: src, r: 1}) or lin_eq(l, linear(n))


def run(ctx):
    checksum(ctx)
    tables(ctx)
    decoder(ctx)
    encoder(ctx)
    blocks(ctx)
    whole(ctx)
    ctx.assumptions.append("the elements handed to the base58 block functions are bytes; the content of a text that is not an address is refused by bytes() of a list with a non-byte or a string (trusted builtin)")
