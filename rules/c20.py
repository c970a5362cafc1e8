"""C20 - wallet exchange files: right magic, supported version, authenticated, and the parsed bytes are the authenticated ones."""
from tsx import *
from engine import Interp, mk_sub, mk_len, mk_add
from algebra import short

W = "monero_glue.xmr.wallet"
A = "monero_poc.agent:HostAgent"
OP = [r"monero_glue\.xmr\.(crypto|core\.)", r"enc\.chacha:", r"xmrserialize", r"xmrboost", r"monero_glue\.xmr\.monero:"]
# format -> (magic, versions, archive body)
FILES = {
    "unsigned transactions": (b"Monero unsigned tx set", {4}, "load_unsigned_tx", "dump_unsigned_tx"),
    "exported outputs": (b"Monero output export", {3, 4}, "load_exported_outputs", "save_exported_outputs"),
    "signed transactions": (b"Monero signed tx set", {4}, None, "dump_signed_tx"),
}
PARSE = ("message", "container", "tuple", "root", "variant", "field", "load")


def atoms(facts):
    for x in facts:
        if x.op in ("t", "f"):
            a, pos = x.args[0], x.op == "t"
            while a.op == "not":
                a, pos = a.args[0], not pos
            yield a, pos


def magic_known(facts, data, magic):
    n = len(magic)
    want = [mk_sub(data, mk("slice", const(0), const(n))), mk_sub(data, mk("slice", NONE, const(n)))]
    for a, pos in atoms(facts):
        if a.op == "eq" and pos and any(w in a.args for w in want) and any(is_const(x) and bytes(cval(x)) == magic for x in a.args if is_const(x) and isinstance(cval(x), (bytes, bytearray))):
            return True
        if a.op == "mcall" and a.args[0] == "startswith" and a.args[1] is data and pos and is_const(a.args[2]) and cval(a.args[2])[:n] == magic:
            return True
        # magic and version compared in one piece
        if a.op == "eq" and pos:
            for x, y in (a.args, a.args[::-1]):
                if x is mk_sub(data, mk("slice", const(0), const(n + 1))) and is_const(y) and isinstance(cval(y), bytes) and cval(y)[:n] == magic:
                    return True
    return False


def versions_known(facts, data, magic):
    """the set of versions compatible with the facts (None: any)"""
    n = len(magic)
    at = mk_sub(data, const(n))
    forms = [mk("call", "int", at), at]
    for a, pos in atoms(facts):
        for y in subterms(a):
            if y.op == "call" and str(y.args[0]).endswith("int") and len(y.args) == 2 and y.args[1] is at and y not in forms:
                forms.append(y)
    piece = mk_sub(data, mk("slice", const(0), const(n + 1)))

    def possible(k):
        """may the version byte be k under the facts?  second: did any fact speak about it"""
        said = False
        for a, pos in atoms(facts):
            r = None
            if a.op in ("eq0", "ge0"):
                lin = a.args[0]
                if all(t is None or t in forms for t, c in lin) and any(t in forms for t, c in lin):
                    x = sum(c * (1 if t is None else k) for t, c in lin)
                    r = x == 0 if a.op == "eq0" else x >= 0
            elif a.op == "in" and a.args[0] in forms:
                c = a.args[1]
                vals = {cval(x) for x in c.args if isinstance(x, T) and is_const(x)} if c.op in ("oneof", "tuple") else set(cval(c)) if is_const(c) and isinstance(cval(c), (tuple, list, set, bytes, frozenset)) else None
                r = None if vals is None else k in vals
            elif a.op == "eq":
                for x, y in (a.args, a.args[::-1]):
                    if x is piece and is_const(y) and isinstance(cval(y), bytes) and len(cval(y)) == n + 1 and pos:
                        r = cval(y)[n] == k
                    if x in forms and is_const(y):
                        r = cval(y) == k
            if r is not None:
                said = True
                if r != pos:
                    return False, True
        return True, said
    p = {k: possible(k) for k in range(256)}
    if not any(q[1] for q in p.values()):
        return None
    allowed = {k for k, q in p.items() if q[0]}
    return None if len(allowed) > 200 else allowed


def evs(it):
    for e in it.events:
        yield e, [it.resolve(a, e.state) for a in (e.args or [])], [it.resolve(x, e.state) for x in e.facts]


def authenticated(it, x):
    return len(x.args) < 4 or is_const(x.args[3]) and cval(x.args[3]) is True


def reader(ctx, what):
    magic, vers, load, _ = FILES[what]
    f = ctx.func(W + ":" + load)
    real = [a.arg for a in f.node.args.args]
    key, data = mk("param", "key"), mk("param", "data")
    it = Interp(ctx.repo, opaque=OP, limit=200)
    outs = it.run(f, args={real[0]: key, real[1]: data})
    ctx.used(it)
    n = len(magic)
    rest = [mk_sub(data, mk("slice", const(n + 1), NONE))]
    got = set()
    dec = set()
    for e, args, facts in evs(it):
        if e.kind == "call" and e.name.rsplit(".", 1)[-1] in ("decrypt_xmr", "decrypt"):
            v = it.resolve(e.value, e.state)
            dec.add(v)
            ctx.check("magic", "%s: the magic is compared before the content is touched" % what, magic_known(facts, data, magic), "decryption starts without the magic having been compared", e.where())
            vs = versions_known(facts, data, magic)
            ctx.check("version", "%s: the version is compared before the content is touched" % what, vs is not None and vs <= vers, "decryption starts for versions %s" % (sorted(vs) if vs else "of any kind"), e.where())
            ctx.check("auth", "%s: decrypted with authentication" % what, e.name.endswith("decrypt_xmr") and (len(args) < 3 or is_const(args[2]) and cval(args[2]) is True), "authentication is not requested", e.where())
            ctx.check("auth", "%s: everything after the header is authenticated, with the wallet's key" % what, len(args) > 1 and args[0] is key and args[1] in rest, "decrypts %s" % [show(a, lim=6) for a in args], e.where())
    ctx.check("auth", "%s: the content is decrypted" % what, bool(dec), "nothing is decrypted", f.fid)
    n_parse = 0
    for e, args, facts in evs(it):
        if e.kind != "mcall" or e.name not in PARSE or e.base is None:
            continue
        b = it.resolve(e.base, e.state)
        src = [x for x in subterms(b) if x.op == "obj" and str(x.args[0]).endswith("MemoryReaderWriter")]
        if "Archive" not in show(b, lim=3):
            continue
        n_parse += 1
        ok = bool(src) and all(any(d in set(subterms(s)) for d in dec) and data not in free_of(s, dec) for s in src)
        ctx.check("parse", "%s: the parser sees the authenticated bytes only" % what, ok, "parses %s" % [show(s, lim=12)[:200] for s in src], e.where())
    ctx.check("parse", "%s: the content is parsed" % what, n_parse > 0, "no parser call", f.fid)
    for o in outs:
        if o.kind != "return":
            continue
        facts = [it.resolve(x, o.state) for x in o.state.facts]
        vs = versions_known(facts, data, magic)
        got |= vs or set()
        ok = magic_known(facts, data, magic)
        if vs == set():
            continue
        ctx.check("magic", "%s: accepted only with the right magic" % what, ok, "a file with another header is accepted", f.fid)
        ctx.check("version", "%s: accepted only in version %s" % (what, " or ".join(map(str, sorted(vers)))), vs is not None and vs <= vers, "accepts versions %s" % (sorted(vs) if vs else "of any kind"), f.fid)
        ctx.check("auth", "%s: accepted only after authentication" % what, any(x.op == "done" and x.args[0] in dec for x in facts) or any(d in set(subterms(y)) for d in dec for y in [it.resolve(o.value, o.state)] + [it.resolve(z, o.state) for z in o.state.store.values()]) or any(
            e.kind == "call" and e.name.endswith("decrypt_xmr") and e.order < 1 << 60 for e in it.events), "accepted without decryption", f.fid)
    ctx.check("version", "%s: all supported versions are readable" % what, got >= vers, "reads only %s" % sorted(got), f.fid)
    return it, outs, dec


def free_of(t, cut):
    """subterms of t outside the given terms"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, T) or x in cut or x in out:
            continue
        out.add(x)
        todo.extend(x.args)
    return out


def pieces(t):
    if t.op == "add":
        return sum((pieces(x) for x in t.args), [])
    if t.op in ("call",) and t.args[0] in ("bytes", "bytearray") and len(t.args) == 2:
        return pieces(t.args[1])
    if t.op == "obj" and t.args[0] == "bytearray":
        out = []
        for p in t.args[1]:
            if p.op in ("ext", "ctor") and len(p.args) == 1:
                out += pieces(p.args[0])
            else:
                return [t]
        return out
    return [t]


def writer(ctx, what):
    magic, vers, load, dump = FILES[what]
    f = ctx.func(W + ":" + dump)
    it = Interp(ctx.repo, opaque=OP, limit=200)
    real = [a.arg for a in f.node.args.args]
    outs = it.run(f)
    ctx.used(it)
    body = None
    for o in outs:
        if o.kind != "return":
            continue
        ps = pieces(it.resolve(o.value, o.state))
        head = b"".join(bytes(cval(p)) for p in ps[:-1]) if all(is_const(p) for p in ps[:-1]) else None
        ctx.check("writer", "%s: written with its magic and a version the reader accepts" % what, head is not None and len(head) == len(magic) + 1 and head[:-1] == magic and head[-1] in vers, "the header written is %r" % head, f.fid)
        c = ps[-1]
        ok = c.op == "call" and short(c) == "encrypt_xmr"
        ctx.check("writer", "%s: written only encrypted and authenticated" % what, ok and (len(c.args) < 4 or is_const(c.args[3]) and cval(c.args[3]) is True), "writes %s" % show(c, lim=8)[:200], f.fid)
        if not ok:
            continue
        k = c.args[1]
        ctx.check("writer", "%s: protected with the key given for it" % what, k is mk("param", real[1] if what == "exported outputs" else real[0]), "protected with %s" % show(k, lim=5), f.fid)
        body = pieces(c.args[2])
        w = [x for x in subterms(body[-1]) if x.op == "obj" and str(x.args[0]).endswith("MemoryReaderWriter")]
        fed = mk("param", real[2] if what == "exported outputs" else real[1])
        whole = body[-1].op in ("mcall",) and body[-1].args[0] in ("get_buffer", "getvalue")
        ctx.check("writer", "%s: the whole archive with the given content is written" % what, bool(w) and fed in set(subterms(w[0])) and whole, "writes %s" % show(body[-1], lim=10)[:200], f.fid)
    ctx.check("writer", "%s: a file is produced" % what, body is not None, "nothing recognisable is returned", f.fid)
    return body, real


def agree(ctx, it, outs, dec, body, real):
    """the export header: writer and reader put the same keys at the same places"""
    pub = lambda k: mk("call", "crypto.encodepoint", mk("call", "crypto.scalarmult_base", mk("param", k)))
    f = W + ":save_exported_outputs"
    ok = body is not None and len(body) == 3 and show(body[0], lim=9) == show(pub(real[0]), lim=9) and show(body[1], lim=9) == show(pub(real[1]), lim=9)
    ctx.check("agree", "the export starts with the public spend and view key", ok, "it starts with %s" % ([show(b, lim=6) for b in (body or [])[:2]]), f)
    f = W + ":load_exported_outputs"
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        st = {k[1]: it.resolve(v, o.state) for k, v in o.state.store.items()}
        for name, lo, hi in (("m_spend_public_key", 0, 32), ("m_view_public_key", 32, 64)):
            v = st.get(name)
            if v is None:
                continue
            n += 1
            want = {mk_sub(d, mk("slice", const(lo), const(hi))) for d in dec} | {mk_sub(d, mk("slice", NONE, const(hi))) for d in dec if lo == 0}
            alts = [x for x in (v.args if v.op == "phi" else [v]) if x is not NONE]
            ctx.check("agree", "%s is read from where it is written" % name, all(x in want for x in alts) and alts, "read from %s" % show(v, lim=9)[:160], f)
        src = [x for v in st.values() for x in subterms(v) if x.op == "obj" and str(x.args[0]).endswith("MemoryReaderWriter")]
        for s in set(src):
            want = [mk_sub(d, mk("slice", const(64), NONE)) for d in dec]
            ctx.check("agree", "the outputs are read from behind the keys", any(w in set(subterms(s)) for w in want), "read from %s" % show(s, lim=9)[:160], f)
    ctx.check("agree", "the keys of the export are returned", n >= 2, "the reader does not return them", f)


def flags(ctx):
    """nobody asks for unauthenticated file encryption"""
    import ast
    n = 0
    for fi in ctx.repo.all_functions():
        if "_test" in fi.fid or "tests." in fi.fid:
            continue
        for c in ast.walk(fi.node):
            if isinstance(c, ast.Call):
                nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ""
                if nm in ("decrypt_xmr", "encrypt_xmr"):
                    n += 1
                    v = next((k.value for k in c.keywords if k.arg == "authenticated"), c.args[2] if len(c.args) > 2 else None)
                    ctx.check("auth", "%s in %s" % (nm, fi.fid), v is None or isinstance(v, ast.Constant) and v.value is True, "authentication is switched off or not constant", fi.fid)
    for nm in ("decrypt_xmr", "encrypt_xmr"):
        f = ctx.func("monero_glue.xmr.enc.chacha:" + nm)
        d = f.node.args.defaults
        ctx.check("auth", "%s authenticates by default" % nm, bool(d) and isinstance(d[-1], ast.Constant) and d[-1].value is True, "the default is off", f.fid)


def agent(ctx):
    op = [r"monero_glue\."]
    f = ctx.func(A + ".key_image_sync")
    it = Interp(ctx.repo, opaque=op, limit=200)
    it.run(f, self_cls=f.cls)
    ctx.used(it)
    n = 0
    for e, args, facts in evs(it):
        if e.kind in ("mcall", "call") and e.name.rsplit(".", 1)[-1] == "import_outputs":
            n += 1
            load = [x for a in args for x in subterms(a) if short(x) == "load_exported_outputs"]
            ctx.check("owner", "key images are exported only for an authenticated export", bool(load) and all(x.args[1] is mk("attr", me_self(f), "priv_view") for x in load), "exports %s" % [show(a, lim=8)[:120] for a in args], e.where())
            for x in set(load):
                for fld, mine in (("m_spend_public_key", "pub_spend"), ("m_view_public_key", "pub_view")):
                    ok = False
                    for a, pos in atoms(facts):
                        if a.op == "eq" and pos and mk("attr", x, fld) in a.args:
                            o = next(y for y in a.args if y is not mk("attr", x, fld))
                            ok = ok or short(o) == "encodepoint" and o.args[1] is mk("attr", me_self(f), mine)
                    ctx.check("owner", "an export of another wallet is refused (%s)" % fld, ok, "%s is not compared with the wallet's own before key images are exported" % fld, e.where())
    ctx.check("owner", "key images are exported from wallet exports", n > 0, "import_outputs is not called", f.fid)

    f = ctx.func(A + ".sign")
    it = Interp(ctx.repo, opaque=op + [r"agent:.*(store_cdata|serialize_tx)"], limit=200)
    outs = it.run(f, self_cls=f.cls)
    ctx.used(it)
    slf = me_self(f)
    n = 0
    for e, args, facts in evs(it):
        if e.kind in ("mcall", "call") and e.name.rsplit(".", 1)[-1] == "sign_transaction_data":
            n += 1
            load = [x for x in subterms(args[0]) if short(x) == "load_unsigned_tx"]
            ctx.check("signed", "only transactions of the authenticated file are sent to the device", bool(load) and all(x.args[1] is mk("attr", slf, "priv_view") for x in load), "signs %s" % show(args[0], lim=8)[:160], e.where())
    ctx.check("signed", "transactions of the file are signed", n > 0, "sign_transaction_data is not called", f.fid)
    for o in outs:
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state)
        ok = short(v) == "dump_signed_tx" and v.args[1] is mk("attr", slf, "priv_view")
        ctx.check("signed", "the result is written as an authenticated signed set", ok, "returns %s" % show(v, lim=6)[:160], f.fid)

    f = ctx.func(A + ".sign_unsigned")
    it = Interp(ctx.repo, opaque=op + [r"HostAgent\.sign_wrap$", r"HostAgent\.ask_proceed_quit$"], limit=200)
    it.run(f, self_cls=f.cls)
    ctx.used(it)
    n = 0
    for e, args, facts in evs(it):
        if e.kind == "mcall" and e.name == "submit_transfer":
            n += 1
            def said(y):
                return "ask_proceed" in show(y, lim=4) or any(x.op == "fresh" and str(x.args[0]).startswith("input") for x in subterms(y))
            yes = lambda y: is_const(y) and str(cval(y)).lower() in ("y", "yes", "1") or "PROCEED_YES" in show(y, lim=3)
            ask = any(a.op in ("eq", "in") and pos and any(said(y) for y in a.args) and any(yes(y) for y in a.args) for a, pos in atoms(facts)) or any(
                a.op == "eq0" and pos and "ask_proceed" in show(a, lim=6) for a, pos in atoms(facts))
            ctx.check("submit", "a signed transfer is submitted only after the user agreed", ask, "submitted without consent", e.where())
            err = any("isinstance" in show(a, lim=4) and not pos or a.op in ("isinst", "isinstance") and not pos for a, pos in atoms(facts)) or any("sign_wrap" in show(a, lim=9) and not pos for a, pos in atoms(facts))
            ctx.check("submit", "a failed signing is not submitted", err, "the result is submitted without testing it for an error code", e.where())
            ctx.check("submit", "what is submitted is what was signed", any("sign_wrap" in show(a, lim=30) for a in args), "submits %s" % [show(a, lim=12)[:160] for a in args], e.where())
    ctx.check("submit", "signed transfers are submitted", n > 0, "submit_transfer is not called", f.fid)


def me_self(f):
    return mk("param", f.node.args.args[0].arg)


def run(ctx):
    ctx.rule("magic", "a file is accepted and its content decrypted only after its magic was compared")
    ctx.rule("version", "exactly the supported versions are accepted, before the content is touched")
    ctx.rule("auth", "content is decrypted and encrypted with authentication, over everything behind the header")
    ctx.rule("parse", "parsers see only bytes that were authenticated")
    ctx.rule("writer", "files are written with the header the reader expects, encrypted and authenticated, with the whole content")
    ctx.rule("agree", "writer and reader of exported outputs agree on the place of the public keys")
    ctx.rule("owner", "key images are exported only for exports of this very wallet")
    ctx.rule("signed", "the agent signs only transactions from an authenticated file and writes an authenticated signed set")
    ctx.rule("submit", "a transfer is submitted only when signed successfully and confirmed")
    ctx.assumptions.append("decrypt_xmr rejects unauthentic data (C24); the archive parser is the monero_serialize library's")
    bodies = {}
    for what in FILES:
        bodies[what] = writer(ctx, what)
        if FILES[what][2]:
            r = reader(ctx, what)
            if what == "exported outputs":
                exp = r
    agree(ctx, *exp, *bodies["exported outputs"])
    flags(ctx)
    agent(ctx)
    for r, n in (("magic", 4), ("version", 4), ("auth", 6), ("parse", 4), ("writer", 9), ("agree", 4), ("owner", 3), ("signed", 3), ("submit", 3)):
        ctx.floor(r, n)
