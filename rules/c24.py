"""C24 - authenticated decryption never yields data before the tag was verified."""
import ast

import lint
from tsx import *
from rules.c12 import blow, draws

ENC = "monero_glue.xmr.enc."
OP = [r"xmr\.crypto", r"xmr\.core"]


def P(n):
    return mk("param", n)


def run_fn(ctx, fid, opaque=OP, **kw):
    f = ctx.func(fid)
    it = Interp(ctx.repo, opaque=opaque, limit=200, **kw)
    outs = it.run(f, {})
    ctx.used(it)
    return it, outs, f


def margs(t, names):
    """arguments of a method call term by the given parameter names, positional or keyword"""
    pos = [a for a in t.args[2:] if a.op != "kw"]
    kw = {a.args[0]: a.args[1] for a in t.args[2:] if a.op == "kw"}
    return [pos[i] if i < len(pos) else kw.get(n) for i, n in enumerate(names)]


def plain(t):
    """a bytes() copy is the same data"""
    while t is not None and t.op == "call" and t.args[0] in ("bytes", "bytearray", "memoryview") and len(t.args) == 2:
        t = t.args[1]
    return t


def params(f):
    return [a.arg for a in f.node.args.args]


def cipher_of(t):
    """(class name, key, other constructor arguments, associated data updates) of a cipher object term"""
    upd = []
    while t.op == "mut":
        for h in (t.args[1] if isinstance(t.args[1], tuple) else (t.args[1],)):
            if h.op == "m" and h.args[0] == "update":
                upd.append(h.args[1])
        t = t.args[0]
    if t.op == "obj":
        for h in t.args[-1]:
            if h.op == "ctor":
                return str(t.args[0]).split(":")[-1].split(".")[-1], h.args[0] if h.args else None, h.args[1:], upd
    if t.op in ("call", "fresh"):
        a = [x for x in t.args[1:] if isinstance(x, T)]
        kw = {x.args[0]: x.args[1] for x in a if x.op == "kw"}
        pos = [x for x in a if x.op != "kw"]
        return str(t.args[0]), pos[0] if pos else kw.get("key"), tuple(pos[1:]) + tuple(x for x in a if x.op == "kw" and x.args[0] != "key"), upd
    return None, None, (), upd


def sl(t, lo, hi):
    return mk("sub", t, mk("slice", const(lo) if lo is not None else NONE, const(hi) if hi is not None else NONE))


def join(t):
    """concatenated pieces"""
    if t.op == "add":
        return [x for a in t.args for x in join(a)]
    return [t]



def aead(ctx):
    f_enc = ctx.func(ENC + "chacha_poly:encrypt")
    it, outs, f = run_fn(ctx, ENC + "chacha_poly:encrypt")
    ps = params(f)
    for o in outs:
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state)
        ok = v.op == "tuple" and len(v.args) == 3 and v.args[1].op == "mcall" and v.args[1].args[0] == "encrypt"
        if not ctx.check("encrypt", "encryption result", ok, "not (nonce, ciphertext, tag) of one cipher call: %s" % show(v)[:200], f.fid):
            continue
        nonce, ct, tag = v.args
        n, p, ad = margs(ct, ("nonce", "data", "associated_data"))
        cls, key, _, _ = cipher_of(ct.args[1])
        ctx.check("encrypt", "authenticated cipher", str(cls).endswith("ChaCha20Poly1305"), "cipher is %s" % cls, f.fid)
        ctx.check("encrypt", "key is the caller's", plain(key) is P(ps[0]), "key is %s" % show(key)[:100], f.fid)
        ctx.check("encrypt", "whole plaintext", plain(p) is P(ps[1]), "plaintext is %s" % show(p)[:100], f.fid)
        ctx.check("encrypt", "associated data bound", ad is not None and plain(ad) is P(ps[2]), "associated data is %s" % (show(ad)[:100] if ad is not None else None), f.fid)
        ctx.check("encrypt", "nonce returned is the nonce used", plain(n) is plain(nonce), "encrypts with %s, returns %s" % (show(n)[:80], show(nonce)[:80]), f.fid)
        why = blow(plain(nonce), 96)
        size = [d.args[2] for d in draws(nonce) if len(d.args) > 2]
        ctx.check("encrypt", "nonce is a fresh 96-bit draw", why is None and bool(size) and all(is_const(s) and cval(s) == 12 for s in size), "nonce is %s" % show(nonce)[:100], f.fid)
        ctx.check("encrypt", "full tag kept", is_const(tag) and cval(tag) == b"", "tag part is %s" % show(tag)[:100], f.fid)
    it, outs, f = run_fn(ctx, ENC + "chacha_poly:decrypt")
    ps = params(f)
    judge_decrypt(ctx, it, outs, f, "decrypt", P(ps[0]), P(ps[1]), P(ps[2]), P(ps[3]) if len(ps) > 3 else NONE)
    # the packed form
    it, outs, f = run_fn(ctx, ENC + "chacha_poly:encrypt_pack")
    for o in outs:
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state)
        ps = join(v)
        ok = len(ps) == 2 and ps[1].op == "mcall" and ps[1].args[0] == "encrypt" and plain(ps[0]) is plain(margs(ps[1], ("nonce", "data", "associated_data"))[0])
        ctx.check("layout", "packed form", ok, "not nonce followed by the whole ciphertext with tag: %s" % show(v)[:200], f.fid)
    it, outs, f = run_fn(ctx, ENC + "chacha_poly:decrypt_pack")
    ps = params(f)
    judge_decrypt(ctx, it, outs, f, "unpack", P(ps[0]), sl(P(ps[1]), 0, 12), sl(P(ps[1]), 12, None), NONE)


def judge_decrypt(ctx, it, outs, f, what, key, iv, data, ad):
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        n += 1
        v = plain(it.resolve(o.value, o.state))
        ok = v.op == "mcall" and v.args[0] == "decrypt"
        if not ctx.check("decrypt", "%s: plaintext comes from the authenticated cipher" % what, ok, "returns %s" % show(v)[:200], f.fid):
            continue
        cls, k, _, _ = cipher_of(v.args[1])
        i, d, a = margs(v, ("nonce", "data", "associated_data"))
        ctx.check("decrypt", "%s: authenticated cipher" % what, str(cls).endswith("ChaCha20Poly1305"), "cipher is %s" % cls, f.fid)
        ctx.check("decrypt", "%s: caller's key" % what, plain(k) is key, "key is %s" % show(k)[:100], f.fid)
        ctx.check("layout", "%s: stored nonce" % what, plain(i) is iv, "nonce is %s, expected %s" % (show(i)[:100], show(iv)), f.fid)
        ctx.check("layout", "%s: whole ciphertext and tag" % what, plain(d) is data, "decrypts %s, expected %s" % (show(d)[:100], show(data)), f.fid)
        ctx.check("decrypt", "%s: associated data" % what, a is None and ad is NONE or a is not None and plain(a) is ad, "associated data is %s" % (show(a)[:100] if a is not None else None), f.fid)
    ctx.check("decrypt", "%s: returns" % what, n > 0, "no plaintext is ever returned", f.fid)


def gcm(ctx):
    if ctx.func(ENC + "aesgcm:encrypt", optional=True) is None:
        return
    it, outs, f = run_fn(ctx, ENC + "aesgcm:encrypt")
    ps = params(f)
    seen = set()
    for o in outs:
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state)
        if not ctx.check("encrypt", "gcm: result", v.op == "tuple" and len(v.args) == 3, "not (nonce, ciphertext, tag): %s" % show(v)[:160], f.fid):
            continue
        nonce, ct, tag = v.args
        ed = [x for x in (ct, tag) if x.op == "sub" and x.args[0].op == "mcall" and x.args[0].args[0] == "encrypt_and_digest"]
        ok = len(ed) == 2 and ct.args[0] is tag.args[0] and cval(ct.args[1]) == 0 and cval(tag.args[1]) == 1
        if not ctx.check("encrypt", "gcm: ciphertext and full tag", ok, "returns %s and %s" % (show(ct)[:100], show(tag)[:100]), f.fid):
            continue
        m = ct.args[0]
        cls, k, rest, upd = cipher_of(m.args[1])
        ctx.check("encrypt", "gcm: plaintext, key and mode", plain(m.args[2]) is P(ps[1]) and plain(k) is P(ps[0]) and any("MODE_GCM" in show(x) for x in rest), show(m)[:200], f.fid)
        ctx.check("encrypt", "gcm: nonce is the cipher's own", nonce.op == "attr" and nonce.args[1] == "nonce" and nonce.args[0] is m.args[1] and len(rest) == 1, "nonce is %s" % show(nonce)[:160], f.fid)
        gcm_ad(ctx, "encrypt", o, upd, P(ps[2]), f, seen)
    it, outs, f = run_fn(ctx, ENC + "aesgcm:decrypt")
    ps = params(f)
    for o in outs:
        if o.kind != "return":
            continue
        v = plain(it.resolve(o.value, o.state))
        if not ctx.check("decrypt", "gcm: verified plaintext", v.op == "mcall" and v.args[0] == "decrypt_and_verify", "returns %s" % show(v)[:200], f.fid):
            continue
        cls, k, rest, upd = cipher_of(v.args[1])
        rest = [x.args[1] if x.op == "kw" else x for x in rest]
        d, t = margs(v, ("ciphertext", "received_mac_tag"))
        ctx.check("decrypt", "gcm: key, nonce, ciphertext and tag", plain(k) is P(ps[0]) and any(plain(x) is P(ps[1]) for x in rest) and plain(d) is P(ps[2]) and plain(t) is P(ps[3])
                  and any("MODE_GCM" in show(x) for x in rest), show(v)[:240], f.fid)
        gcm_ad(ctx, "decrypt", o, upd, P(ps[4]), f, seen)


def gcm_ad(ctx, rule, o, upd, ad, f, seen):
    """given associated data is authenticated; only absent data may be skipped"""
    skipped = mk("t", ad) in o.state.facts or mk("f", mk("is", ad, NONE)) in o.state.facts
    ok = [plain(x) for x in upd] == [ad] or not upd and not skipped and (mk("f", ad) in o.state.facts or any(ad in subterms(x) for x in o.state.facts))
    ctx.check(rule, "gcm: associated data", ok, "associated data authenticated: %s" % [show(x) for x in upd], f.fid)


def signed(ctx):
    """the signature-authenticated stream encryption of exchange files"""
    it, outs, f = run_fn(ctx, ENC + "chacha:decrypt_xmr")
    ps = params(f)
    key, data, flag = [P(x) for x in ps[:3]]
    d = f.node.args.defaults
    ctx.check("decrypt", "file decryption authenticates by default", bool(d) and isinstance(d[-1], ast.Constant) and d[-1].value is True, "the authentication flag defaults to off", f.fid)
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        fs = o.state.facts
        if mk("f", flag) in fs:
            continue        # the caller asked for the bare stream cipher
        n += 1
        v = plain(it.resolve(o.value, o.state))
        body, c, r = sl(data, 0, -64), None, None
        ok = v.op == "mcall" and v.args[0] == "decrypt" and body in subterms(v)
        # everything decrypted is covered by the signature
        loose = [x for x in subterms(v) if x.op == "sub" and x.args[0] is data and x is not body]
        ctx.check("decrypt", "file decryption covers the signed part only", ok and not loose and not (v.op == "mcall" and plain(v.args[2]) is data), "decrypts %s" % show(v)[:260], f.fid)
        sig = [x.args[0] for x in fs if x.op == "t" and x.args[0].op == "call" and x.args[0].args[0].endswith("check_signature")]
        ctx.check("decrypt", "file signature verified before use", len(sig) >= 1, "plaintext is returned without a successful signature check", f.fid)
        for s in sig:
            a = [x for x in s.args[1:]]
            h = mk("call", "crypto.cn_fast_hash", body)
            ctx.check("decrypt", "file signature covers the whole ciphertext", plain(a[0]) is h, "signed data is %s" % show(a[0])[:200], f.fid)
            tail = sl(data, -64, None)
            for nm, t, lo in (("challenge", a[1], 0), ("response", a[2], 32)):
                want = [sl(tail, lo, lo + 32), sl(tail, lo, None)] + [sl(data, -64 + lo, -64 + lo + 32 if lo == 0 else None)]
                got = [x for x in subterms(t) if x in want]
                off = t.op == "call" and t.args[0].endswith("decodeint") and len(t.args) > 2 and plain(t.args[1]) is tail and is_const(t.args[2]) and cval(t.args[2]) == lo
                ctx.check("layout", "file signature %s" % nm, bool(got) or off, "%s is %s" % (nm, show(t)[:160]), f.fid)
            ctx.check("decrypt", "file signature key", a[3] is mk("call", "crypto.scalarmult_base", key), "verified against %s" % show(a[3])[:160], f.fid)
    ctx.check("decrypt", "file decryption: authenticated path", n > 0, "no authenticated path", f.fid)
    it, outs, f = run_fn(ctx, ENC + "chacha:encrypt_xmr")
    ps = params(f)
    key, plaintext, flag = [P(x) for x in ps[:3]]
    d = f.node.args.defaults
    ctx.check("encrypt", "file encryption authenticates by default", bool(d) and isinstance(d[-1], ast.Constant) and d[-1].value is True, "the authentication flag defaults to off", f.fid)
    n = 0
    for o in outs:
        if o.kind != "return" or mk("f", flag) in o.state.facts:
            continue
        n += 1
        v = it.resolve(o.value, o.state)
        ps = join(v)
        ok = len(ps) >= 4
        if not ctx.check("encrypt", "file encryption appends the signature", ok, show(v)[:240], f.fid):
            continue
        from engine import mk_add
        ct = ps[0]
        for x in ps[1:-2]:
            ct = mk_add(ct, x)
        h = mk("call", "crypto.cn_fast_hash", ct)
        sg = [x for x in subterms(v) if x.op in ("call", "fresh") and str(x.args[0]).endswith("generate_signature")]
        ctx.check("encrypt", "file signature over the whole ciphertext", len(sg) == 1 and h in sg[0].args and key in sg[0].args, "signature is %s" % [show(x)[:200] for x in sg], f.fid)
        if len(sg) == 1:
            want = [mk("call", "crypto.encodeint", mk("sub", sg[0], const(i))) for i in (0, 1)]
            ctx.check("layout", "file signature order", ps[-2:] == want, "appended %s" % [show(x)[:100] for x in ps[-2:]], f.fid)
        m = [x for x in ps if x.op == "mcall" and x.args[0] == "encrypt"]
        ctx.check("encrypt", "file encryption covers the whole plaintext", len(m) == 1 and plain(m[0].args[2]) is plaintext, show(v)[:240], f.fid)
        ctx.check("layout", "file nonce stored in front", bool(m) and ps[0].op == "attr" and ps[0].args[1] == "nonce" and ps[0].args[0] is m[0].args[1], "first part is %s" % show(ps[0])[:120], f.fid)
    ctx.check("encrypt", "file encryption: authenticated path", n > 0, "no authenticated path", f.fid)
    # stream cipher layout
    it, outs, f = run_fn(ctx, ENC + "chacha:decrypt")
    ps = params(f)
    for o in outs:
        if o.kind != "return":
            continue
        v = plain(it.resolve(o.value, o.state))
        cls, k, rest, _ = cipher_of(v.args[1]) if v.op == "mcall" else (None, None, (), ())
        rest = [x.args[1] if x.op == "kw" else x for x in rest]
        ctx.check("layout", "file nonce and body split", v.op == "mcall" and plain(v.args[2]) is sl(P(ps[1]), 8, None) and [plain(x) for x in rest] == [sl(P(ps[1]), 0, 8)] and k is P(ps[0]),
                  "decrypts %s" % show(v)[:200], f.fid)


def verifier(ctx):
    """the signature check itself"""
    it, outs, f = run_fn(ctx, "monero_glue.xmr.crypto:check_signature", opaque=[r"xmr\.core", r"xmr\.crypto:(?!check_signature)"])
    data, c, r, pub = [P(x) for x in params(f)[:4]]
    C = lambda n, *a: mk("call", "crypto." + n, *a)
    n = 0

    def known_zero(fs, t):
        """facts establish sc t == 0"""
        for x in fs:
            if x.op in ("t", "f") and t in subterms(x):
                return True
        return False
    for o in outs:
        if o.kind != "return":
            continue
        v = o.value
        fs = o.state.facts
        if is_const(v) and not cval(v):
            continue
        n += 1
        st = set()
        for x in fs:
            if x.op in ("t", "f"):
                st |= subterms(x)
        if not is_const(v):
            st |= subterms(v)
        for nm, x in (("challenge", c), ("response", r)):
            ok = truth(fs, "==", C("sc_check", x), const(0)) is True or mk("done", C("check_sc", x)) in fs
            ctx.check("signature", "%s must be reduced" % nm, ok, "accepted without a range check", f.fid)
        hs = [x for x in st if x.op == "call" and x.args[0] == "crypto.hash_to_scalar"]
        ctx.check("signature", "challenge recomputed", len(hs) == 1, "accepting path compares %s" % [show(x)[:80] for x in hs], f.fid)
        for h in hs:
            ps = join(plain(h.args[1]))
            ok = len(ps) == 3 and plain(ps[0]) is data and ps[1] is C("encodepoint", pub)
            cm = ps[2] if len(ps) == 3 else None
            ctx.check("signature", "challenge covers data, key and commitment", ok, "hashes %s" % show(h.args[1])[:240], f.fid)
            want = [C("point_add", C("scalarmult", pub, c), C("scalarmult_base", r)), C("point_add", C("scalarmult_base", r), C("scalarmult", pub, c))]
            ctx.check("signature", "commitment recomputed from both values", cm is not None and (cm.op == "call" and len(cm.args) == 2 and cm.args[1] in want
                      or any(q.op == "call" and str(q.args[0]).split(".")[-1].startswith(("add_keys2", "ge_double_scalarmult")) and {c, r, pub} <= set(q.args) for q in subterms(cm))),
                      "commitment is %s" % (show(cm)[:200] if cm is not None else None), f.fid)
            # the comparison decides
            ok = False
            d = [C("sc_sub", h, c), C("sc_sub", c, h)]
            for x in fs:
                if x.op == "f" and x.args[0].op == "call" and x.args[0].args[0] == "crypto.sc_isnonzero" and x.args[0].args[1] in d:
                    ok = True
                if x.op == "t" and x.args[0].op == "call" and x.args[0].args[0] in ("crypto.sc_eq", "crypto.ct_equal") and set(x.args[0].args[1:]) in ({h, c}, {C("encodeint", h), C("encodeint", c)}):
                    ok = True
            if any({a, b} in ({h, c}, {C("encodeint", h), C("encodeint", c)}) for a, b in eq_pairs(fs)):
                ok = True
            ctx.check("signature", "recomputed challenge compared", ok, "accepts without the recomputed challenge equal to the given one", f.fid)
    ctx.check("signature", "accepting path", n > 0, "never accepts", f.fid)


DEC = ("decrypt", "decrypt_pack", "decrypt_xmr")


def callers(ctx):
    """call sites: authentication is not switched off and its failure is not swallowed"""
    n = 0
    for mn, m in sorted(ctx.repo.modules.items()):
        if not mn.startswith(("monero_glue.", "monero_poc.")):
            continue
        par = {}
        for x in ast.walk(m.tree):
            for y in ast.iter_child_nodes(x):
                par[y] = x
        for r in lint.refs(ctx.repo, m):
            if r.res[0] != "func" or not r.res[1].module.name.startswith("monero_glue.xmr.enc."):
                continue
            q = r.res[1].qual
            call = r.parent if isinstance(r.parent, ast.Call) and r.parent.func is r.node else None
            if q in ("decrypt_xmr", "encrypt_xmr") and call is not None:
                n += 1
                pos = call.args[2] if len(call.args) > 2 else next((k.value for k in call.keywords if k.arg == "authenticated"), None)
                if pos is not None and r.scope.functions():
                    pos = lint.expand(r.scope.functions()[0], pos)
                ctx.check("callers", "%s authenticates (%s)" % (q, r.qual), pos is None or isinstance(pos, ast.Constant) and pos.value is True, "authentication may be switched off: %s" % (ast.unparse(pos) if pos is not None else ""), r.where)
            if q in DEC and not mn.startswith("monero_glue.xmr.enc"):
                n += 1
                x, bad = r.node, None
                while x in par and not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    p = par[x]
                    if isinstance(p, ast.Try) and x in p.body:
                        for h in p.handlers:
                            if not any(isinstance(y, (ast.Raise, ast.Return, ast.Continue, ast.Break)) for b in h.body for y in ast.walk(b)) and catches(h):
                                bad = p
                    x = p
                ctx.check("callers", "%s failure is not swallowed (%s)" % (q, r.qual), bad is None, "a failed decryption continues with whatever value was there", r.where)
    ctx.count("call sites", n)


def catches(h):
    if h.type is None:
        return True
    names = [x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "") for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
    return any(x in ("Exception", "BaseException", "ValueError", "InvalidTag", "CryptoError") for x in names)


def run(ctx):
    ctx.rule("encrypt", "encryption feeds the whole plaintext and associated data to an authenticated cipher under a fresh nonce and returns that nonce with the full tag")
    ctx.rule("decrypt", "every path that returns plaintext has passed the verification of the tag over all of the ciphertext")
    ctx.rule("layout", "packing and unpacking agree on the position of nonce, ciphertext and tag")
    ctx.rule("signature", "a file signature is accepted only for reduced values whose recomputed challenge equals the given one")
    ctx.rule("callers", "no call site switches authentication off or continues after a failure")
    ctx.assumptions += ["ChaCha20Poly1305.decrypt and decrypt_and_verify of the cipher libraries raise on a wrong tag or short input"]
    aead(ctx)
    gcm(ctx)
    signed(ctx)
    verifier(ctx)
    callers(ctx)
    ctx.floor("encrypt", 10)
    ctx.floor("decrypt", 12)
    ctx.floor("layout", 6)
    ctx.floor("signature", 6)
    ctx.floor("callers", 8)
