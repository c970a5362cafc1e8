"""C11 - key images are computed only for own outputs and are returned encrypted."""
from drive import driver
from engine import mk_add, mk_len
from tsx import *

K = "monero_glue.protocol.key_image_sync:KeyImageSync"
OP = [r"monero_glue\.xmr\.(crypto|core\.|mlsag2|enc)", r"ring_ct:(generate_ring_signature|check_ring_\w+)$", r"trezor\.wrapper", r"xmrserialize",
      r"monero:(compute_subaddresses|classify_subaddresses|get_subaddress_secret_key)$"]
HASH = "monero_glue.xmr.key_image:compute_hash"
SESSION = ("num", "hash", "enc_key")


def last(t):
    return str(t.args[0]).rsplit(".", 1)[-1] if t.op in ("call", "fresh", "mcall") else ""


def handler(ctx, name):
    f = ctx.func(K + "." + name)
    it = Interp(ctx.repo, opaque=OP, limit=400)
    ch = ctx.func(HASH)
    arg = ch.node.args.args[0].arg
    it.stubs[ch.fid] = lambda it, fi, env, st, node: [(st, mk("mcall", "digest", mk("call", HASH, it.resolve(env[arg], st))))] if env else None
    outs = it.run(f)
    ctx.used(it)
    msg = mk("param", [a.arg for a in f.node.args.args][2])
    return it, outs, f, msg


def get(it, o, name):
    return it.resolve(o.state.store.get((SELF, name), me(name)), o.state)


def consent(ctx):
    ctx.rule("consent", "the session's key, number and hash are set only after the user agreed to exactly this request")
    it, outs, f, msg = handler(ctx, "init")
    ok = 0
    for o in outs:
        touched = [a for a in SESSION if get(it, o, a) is not me(a)]
        conf = [x.args[0] for x in o.state.facts if x.op == "t" and any(
            s.op == "mcall" and s.args[0] == "confirm_ki_sync" and any(p is msg for p in s.args[2:]) for s in subterms(x.args[0]))]
        agreed = any(c.op == "mcall" or (c.op in ("eq", "is") and any(is_const(a) and cval(a) is True for a in c.args)) for c in conf)
        v = it.resolve(o.value, o.state) if o.value is not None else NONE
        if o.kind == "return" and not failure_value(v):
            ok += 1
            ctx.check("consent", "init accepts", agreed, "a synchronisation starts without the user's consent", f.fid)
            key = get(it, o, "enc_key")
            ctx.check("consent", "init: session key", key.op == "fresh" and last(key) == "random_bytes" and any(is_const(a) and cval(a) == 32 for a in key.args if isinstance(a, T)),
                      "the session key is %s" % show(key)[:80], f.fid)
            for a in ("num", "hash"):
                ctx.check("consent", "init: announced %s" % a, get(it, o, a) is mk("attr", msg, a), "the announced %s is stored as %s" % (a, show(get(it, o, a))[:80]), f.fid)
        else:
            ctx.check("consent", "init refuses", agreed or not touched, "a refused synchronisation leaves %s set" % ", ".join(touched), f.fid)
    if not ok:
        raise Broken("key image synchronisation cannot start")
    # a new synchronisation starts from nothing
    it = Interp(ctx.repo, opaque=OP, limit=400)
    o = [x for x in it.run(driver(ctx.repo, K.split(":")[0], "def d(ctx, iface, creds):\n    return KeyImageSync(ctx=ctx, iface=iface, creds=creds)")) if x.kind == "return"]
    for x in o:
        def at(n):
            v = x.state.store.get((x.value, n))
            return it.resolve(v, x.state) if v is not None else None
        ctx.check("consent", "a new session announces nothing", at("num") is const(0) and at("c_idx") is const(-1) and at("hash") is NONE and at("enc_key") is NONE,
                  "a new session starts with num=%s index=%s hash=%s key=%s" % tuple(show(at(n)) if at(n) is not None else "?" for n in ("num", "c_idx", "hash", "enc_key")), K)


def reps(h):
    """history entries of a container filled in one loop: (bound, loop, list of entries per iteration) or None"""
    h = [x for x in h if isinstance(x, T)]
    if len(h) == 1 and h[0].op == "rep":
        bodies = h[0].args[2]
        return h[0].args[0], h[0].args[1], bodies
    return None


def sync(ctx):
    ctx.rule("step", "every processed output is counted, bounded by the announced number, and enters the running hash exactly once, completely")
    ctx.rule("own", "a key image is computed only for an output whose one-time key belongs to this account, with the matching ownership signature")
    ctx.rule("sealed", "the answer holds, per output, the key image and signature encrypted under the session key and nothing else")
    it, outs, f, msg = handler(ctx, "sync")
    tds = mk("attr", msg, "tdis")
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state)
        if failure_value(v):
            continue
        n += 1
        cnt = get(it, o, "c_idx")
        ctx.check("step", "counter", cnt is mk_add(me("c_idx"), mk_len(tds)), "after a step the output counter is %s" % show(cnt)[:100], f.fid)
        # running hash
        hs = [(k, h) for k, h in o.state.hist.items() if any(x is me("hasher") for x in subterms(k)) and h]
        good = False
        shape = ""
        for k, h in hs:
            r = reps(h)
            shape = show(h[0])[:120] if h else ""
            if r and r[0] is mk_len(tds) and len(r[2]) == 1 and len(r[2][0]) == 1 and r[2][0][0].op == "m" and r[2][0][0].args[0] == "update":
                item = mk("sub", tds, mk("idx", r[1]))
                good = complete_hash(r[2][0][0].args[1], item)
                if not good:
                    shape = show(r[2][0][0].args[1])[:200]
        ctx.check("step", "running hash", good and len(hs) == 1, "the running hash does not absorb every output completely and exactly once: %s" % shape, f.fid)
        # the answer
        kis = None
        for h in v.args[-1]:
            if isinstance(h, T) and h.op == "ctor":
                for a in h.args:
                    if a.op == "kw" and a.args[0] == "kis":
                        kis = a.args[1]
        for name, x in (v.args[1] if v.op == "obj" and v.args[1] and isinstance(v.args[1][0], tuple) else ()):
            if name == "kis":
                kis = x
        r = reps(kis.args[1]) if kis is not None and kis.op == "obj" else None
        one = r is not None and r[0] is mk_len(tds) and len(r[2]) == 1 and len(r[2][0]) == 1 and r[2][0][0].op == "i"
        ctx.check("sealed", "one answer per output", one, "the answer is %s" % (show(kis)[:160] if kis is not None else "missing"), f.fid)
        if one:
            e = r[2][0][0].args[0]
            d = {nm: x for nm, x in (e.args[1] if e.op == "obj" and e.args[1] and isinstance(e.args[1][0], tuple) else ())}
            for h in (e.args[-1] if e.op == "obj" else ()):
                if isinstance(h, T) and h.op == "ctor":
                    d.update({a.args[0]: a.args[1] for a in h.args if a.op == "kw"})
            iv, blob = d.get("iv"), d.get("blob")
            enc = [x for x in (iv, blob) if x is not None and x.op == "sub" and last(x.args[0]) == "encrypt"]
            ok = len(enc) == 2 and enc[0].args[0] is enc[1].args[0] and iv.args[1] is const(0) and blob.args[1] is const(1)
            ctx.check("sealed", "answer fields", ok and set(d) <= {"iv", "blob"}, "an answer is %s" % show(e)[:200], f.fid)
            if ok:
                c = enc[0].args[0]
                ctx.check("sealed", "session key", c.args[1] is me("enc_key"), "an image is encrypted under %s" % show(c.args[1])[:100], f.fid)
    if not n:
        raise Broken("no key image is ever returned")
    # every computed image
    m = 0
    for e in it.events:
        if e.kind not in ("call", "mcall"):
            continue
        if str(e.name).endswith("generate_ring_signature"):
            m += 1
            bound = any(x.op == "f" and x.args[0].op == "ge0" and ge_counter(x.args[0], it) for x in e.facts)
            ctx.check("step", "bounded by the announced number: %s" % e.where(), bound, "a key image is computed without comparing the counter with the announced number", e.where())
            key = pubkey_of(e.args)
            owned = [p for p in owner_facts(e.facts) if key is not None and key in p]
            ctx.check("own", "ownership established: %s" % e.where(), bool(owned), "a key image is computed for an output that was not matched with this account's keys", e.where())
            sec = e.args[3] if len(e.args) > 3 else None
            ki = e.args[1] if len(e.args) > 1 else None
            # KI = x Hp(P) for the same x whose public key was matched
            x_ok = sec is not None and any(any(last(t) == "scalarmult_base" and t.args[1] is sec for t in p) or derived(p, sec) for p in owned)
            ctx.check("own", "secret matches the output: %s" % e.where(), x_ok, "the signing secret %s is not the one matched with the output" % (show(sec)[:100] if sec is not None else None), e.where())
            k_ok = ki is not None and sec is not None and last(ki) in ("scalarmult", "generate_key_image") and sec in ki.args
            ctx.check("own", "image belongs to the secret: %s" % e.where(), k_ok and key is not None and any(key in subterms(ki) or any(t in subterms(ki) for t in p) for p in owned), "the key image is %s" % (show(ki)[:120] if ki is not None else None), e.where())
            pre = e.args[0] if e.args else None
            ctx.check("own", "signature covers the image: %s" % e.where(), pre is not None and ki is not None and ki in subterms(pre), "the ownership signature covers %s" % (show(pre)[:80] if pre is not None else None), e.where())
        if last_name(e) == "encrypt":
            lay = layout(e.args[1]) if len(e.args) > 1 else None
            ok = lay is not None and [last(x) for x in lay] == ["encodepoint", "encodeint", "encodeint"]
            sig = ok and lay[1].args[1].op == "sub" and lay[2].args[1].op == "sub" and lay[1].args[1].args[0] is lay[2].args[1].args[0] \
                and lay[1].args[1].args[1] is const(0) and lay[2].args[1].args[1] is const(1)
            ctx.check("sealed", "content: %s" % e.where(), bool(ok and sig), "what is encrypted is %s" % (show(e.args[1])[:200] if len(e.args) > 1 else None), e.where())
            if ok and sig:
                g = lay[1].args[1].args[0]
                rs = g.args[0] if g.op == "sub" else g
                ctx.check("sealed", "image and signature belong together: %s" % e.where(), last(rs) == "generate_ring_signature" and g.op == "sub" and g.args[1] is const(0)
                          and rs.args[2] is lay[0].args[1], "the encrypted signature is not the one over the encrypted image", e.where())
    if not m:
        raise Broken("no ownership signature is computed")


def last_name(e):
    return str(e.name).rsplit(".", 1)[-1]


def complete_hash(t, item):
    """the digest of the transfer details `item`"""
    return t.op == "mcall" and t.args[1].op == "call" and t.args[1].args[0] == HASH and t.args[1].args[1] is item


def details_hash(ctx):
    """compute_hash absorbs every field of the transfer details, one after the other"""
    f = ctx.func(HASH)
    it = Interp(ctx.repo, opaque=[r"xmr\.crypto", r"xmrserialize"], limit=100)
    outs = it.run(f)
    ctx.used(it)
    p = mk("param", f.node.args.args[0].arg)
    at = lambda n: mk("attr", p, n)
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        n += 1
        v = it.resolve(o.value, o.state)
        seq = []
        b = v.args[1] if v.op == "mcall" and v.args[0] == "digest" else NONE
        ok = b.op in ("obj", "mut") and isinstance(b.args[-1], tuple)
        for h in (b.args[-1] if ok else ()):
            if h.op == "m" and h.args[0] == "update":
                seq.append(h.args[1])
            elif h.op == "rep" and len(h.args[2]) == 1 and len(h.args[2][0]) == 1 and h.args[2][0][0].op == "m":
                seq.append((h.args[0], h.args[2][0][0].args[1], h.args[1]))
            elif h.op != "ctor":
                ok = False
        names = []
        for x in seq:
            if isinstance(x, tuple):
                add = at("additional_tx_pub_keys")
                names.append("additional_tx_pub_keys" if x[0] is mk_len(add) and x[1] is mk("sub", add, mk("idx", x[2])) else "?")
            elif x.op == "attr" and x.args[0] is p:
                names.append(x.args[1])
            elif last(x) == "dump_uvarint_b" and x.args[1] is at("internal_output_index"):
                names.append("internal_output_index")
            else:
                names.append("?")
        want = ["out_key", "tx_pub_key", "additional_tx_pub_keys", "internal_output_index"]
        if mk("f", at("additional_tx_pub_keys")) in o.state.facts or truth(o.state.facts, "is", at("additional_tx_pub_keys"), NONE):
            want2 = [w for w in want if w != "additional_tx_pub_keys"]
        else:
            want2 = want
        ctx.check("step", "hash of an output", ok and sorted(names) in (sorted(want), sorted(want2)), "the hash of an output covers only %s" % ", ".join(names), f.fid)
    if not n:
        raise Broken("compute_hash returns nothing")


def ge_counter(c, it):
    d = dict((k, v) for k, v in c.args[0])
    return me("num") in d and me("c_idx") in d and d[me("c_idx")] == -d[me("num")] and d.get(None) == (1 if d[me("c_idx")] > 0 else 0) and any(
        k is not None and k.op == "idx" and v == d[me("c_idx")] for k, v in d.items())


def pubkey_of(args):
    """the single ring member of an ownership signature"""
    if len(args) > 2:
        p = args[2]
        if p.op == "obj" and p.args[0] == "list" and len(p.args[1]) == 1 and p.args[1][0].op == "i":
            return p.args[1][0].args[0]
    return None


def owner_facts(facts):
    for x in facts:
        if x.op == "t" and last(x.args[0]) == "point_eq":
            yield x.args[0].args[1:]
        if x.op == "t" and x.args[0].op == "eq" and all(last(a) == "encodepoint" for a in x.args[0].args):
            yield tuple(a.args[1] for a in x.args[0].args)


def derived(p, sec):
    """public key derived from the parts the secret is built of (multisig accounts)"""
    return any(last(t) in ("derive_public_key", "point_add") for t in p)


def layout(t):
    """consecutive 32 byte pieces of a buffer"""
    if t.op in ("call",) and t.args[0] in ("bytes", "bytearray") and len(t.args) == 2:
        t = t.args[1]
    if t.op == "add":
        return list(t.args)
    if t.op == "obj" and t.args[0] in ("bytearray",):
        sets = {}
        for h in t.args[1]:
            if not isinstance(h, T):
                return None
            if h.op == "set" and h.args[0].op == "slice":
                lo = h.args[0].args[0]
                sets[0 if lo is NONE else cval(lo) if is_const(lo) else None] = h.args[1]
            elif h.op == "i":
                return None
        if set(sets) == {0, 32, 64}:
            return [sets[0], sets[32], sets[64]]
    if t.op == "join" or (t.op == "call" and t.args[0] == "join"):
        for a in t.args:
            if isinstance(a, T) and a.op == "obj":
                return [h.args[0] for h in a.args[1] if h.op == "i"]
    return None


def final(ctx):
    ctx.rule("release", "the session key is released only after exactly the announced number of outputs was processed and their hash matched")
    it, outs, f, msg = handler(ctx, "final")
    n = 0
    for o in outs:
        v = it.resolve(o.value, o.state) if o.value is not None else NONE
        has = any(x is me("enc_key") for x in subterms(v))
        if o.kind == "return" and not failure_value(v):
            n += 1
            fs = o.state.facts
            count = truth(fs, "==", mk_add(me("c_idx"), const(1)), me("num"))
            ctx.check("release", "all outputs processed", count is True, "the session key is released although the number of outputs was not compared", f.fid)
            dig = any(any(a is me("hash") for a in pr) and any(last(b) == "digest" or (b.op == "mcall" and b.args[0] == "digest") for b in pr if b is not me("hash"))
                      and any(me("hasher") in subterms(b) for b in pr) for pr in eq_pairs(fs))
            ctx.check("release", "hash matched", dig, "the session key is released although the hash of the outputs was not compared", f.fid)
            ctx.check("release", "the session's key", has, "final answers %s" % show(v)[:100], f.fid)
        else:
            ctx.check("release", "refusals keep the key", not has, "an error reveals the session key", f.fid)
    if not n:
        raise Broken("key image synchronisation cannot finish")


def token(ctx):
    ctx.rule("ends", "a failed or finished synchronisation leaves no session behind")
    fid = "monero_glue.hwtoken.token:TokenLite.key_image_sync"
    f = ctx.func(fid)
    it = Interp(ctx.repo, opaque=[r"protocol\.key_image_sync", r"hwtoken\.(misc|iface)", r"compat", r"traceback", r"xmr\."], limit=400)
    it.imp_limit = (600, 600)
    outs = it.run(f)
    ctx.used(it)
    steps = set()
    for o in outs:
        s = get(it, o, "ki_sync")
        if o.kind != "return":
            ctx.check("ends", "escaping error", s is NONE, "an error leaves the session %s" % show(s)[:80], fid)
            continue
        v = it.resolve(o.value, o.state)
        if failure_value(v):
            ctx.check("ends", "failure", s is NONE, "after a failure the session is %s" % show(s)[:80], fid)
            continue
        ctx.check("ends", "answers are the session's", v.op == "mcall" and not any(x.op == "caught" for x in o.state.facts), "answers %s" % show(v)[:80], fid)
        if v.op == "mcall":
            steps.add(v.args[0])
            if v.args[0] == "final":
                ctx.check("ends", "finished", s is NONE, "after the key was released the session is %s" % show(s)[:80], fid)
            if v.args[0] == "init":
                b = v.args[1]
                while b.op == "mut":
                    b = b.args[0]
                ctx.check("ends", "start", b.op in ("new", "obj") and "KeyImageSync" in str(b.args[0]), "a synchronisation starts in an old session: %s" % show(b)[:80], fid)
            else:
                b = v.args[1]
                while b.op == "mut":
                    b = b.args[0]
                ctx.check("ends", "continue %s" % v.args[0], b is me("ki_sync"), "a step uses another session: %s" % show(b)[:80], fid)
    ctx.check("ends", "all steps", steps >= {"init", "sync", "final"}, "handles only %s" % sorted(steps), fid)


def host(ctx):
    ctx.rule("host", "the host sends exactly the outputs it announced, in order, in non-empty batches, and reads the answers with the layout the device wrote")
    fid = "monero_glue.agent.agent_lite:Agent.import_outputs"
    f = ctx.func(fid)
    for n in list(range(0, 24)) + [40]:
        xs = ", ".join("x%d" % i for i in range(n))
        it = Interp(ctx.repo, opaque=[], limit=50, unroll=100)
        it.unroll_true = True
        outs = it.run(driver(ctx.repo, "monero_glue.xmr.common", "def d(%s):\n    return chunk([%s], 10)" % (xs, xs)))
        ctx.used(it)
        for o in outs:
            v = it.resolve(o.value, o.state) if o.kind == "return" else NONE
            parts = [p.args[0] for p in v.args[1]] if v.op == "obj" and all(p.op == "i" for p in v.args[1]) else None
            flat = None
            if parts is not None and all(p.op == "obj" and all(q.op == "i" for q in p.args[1]) for p in parts):
                flat = [q.args[0] for p in parts for q in p.args[1]]
            ctx.check("host", "%d outputs in batches" % n, flat == [mk("param", "x%d" % i) for i in range(n)] and all(0 < len(p.args[1]) <= 10 for p in parts),
                      "%d outputs are sent as %s" % (n, show(v)[:160]), "monero_glue.xmr.common:chunk")
    it = Interp(ctx.repo, opaque=[r"key_image", r"common", r"crypto", r"chacha_poly", r"handle_error"], limit=100)
    outs = it.run(f)
    ctx.used(it)
    outputs = mk("param", "outputs")
    ok = 0
    for o in outs:
        if o.kind != "return":
            continue
        ok += 1
        v = it.resolve(o.value, o.state)
        r = reps(v.args[1]) if v.op == "obj" else None
        ent = r[2][0][0].args[0] if r and len(r[2]) == 1 and len(r[2][0]) == 1 and r[2][0][0].op == "i" else None
        good = False
        if ent is not None and ent.op == "tuple" and len(ent.args) == 2 and ent.args[1].op == "tuple" and len(ent.args[1].args) == 2:
            ps = [ent.args[0]] + list(ent.args[1].args)
            good = all(p.op == "sub" and p.args[0] is ps[0].args[0] and last(p.args[0]) == "decrypt" for p in ps) and \
                [tuple(None if x is NONE else cval(x) for x in p.args[1].args) for p in ps] in ([(0, 32), (32, 64), (64, None)], [(None, 32), (32, 64), (64, None)], [(0, 32), (32, 64), (64, 96)])
        ctx.check("host", "answer layout", good, "answers are read as %s" % show(v)[:200], fid)
    if not ok:
        raise Broken("import_outputs never returns")
    sent = {"init": None, "data": None}
    for e in it.events:
        if last_name(e) == "key_image_sync":
            a = e.args[0]
            t = show(a)
            if "FinalRequest" in t:
                continue
            if "StepRequest" in t:
                td = [x for x in subterms(a) if last(x) == "chunk"]
                if any(x.op == "t" and x.args[0].op == "is" and x.args[0].args[1] is NONE and any(last(y) == "chunk" for y in subterms(x.args[0])) for x in e.facts):
                    continue    # a batch is never None
                ctx.check("host", "outputs sent", len(td) == 1 and any(last(x) == "yield_key_image_data" and x.args[1] is outputs for x in subterms(td[0])),
                          "a step sends %s" % t[:160], e.where())
                sent["data"] = True
            else:
                ctx.check("host", "outputs announced", any(last(x) == "generate_commitment" and x.args[1] is outputs for x in subterms(a)), "announces %s" % t[:160], e.where())
                sent["init"] = True
    ctx.check("host", "announce and send", all(sent.values()), "not both announced and sent", fid)
    # the commitment hashes the same data the same way
    g = ctx.func("monero_glue.xmr.key_image:generate_commitment")
    it = Interp(ctx.repo, opaque=[r"xmr\.crypto", r"yield_key_image_data", r"key_image:compute_hash"], limit=100)
    outs = it.run(g)
    ctx.used(it)
    for o in outs:
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state)
        d = dict(v.args[1]) if v.op == "obj" and v.args[1] and isinstance(v.args[1][0], tuple) else {}
        h = d.get("hash")
        ok = h is not None and "digest" in (last(h), str(h.args[0]))
        if ok:
            reps_ = [x for x in subterms(h) if x.op == "rep" and any(last(y) == "compute_hash" for y in subterms(x))]
            ok = len(reps_) == 1 and len(reps_[0].args[2]) == 1 and len(reps_[0].args[2][0]) == 1
        ctx.check("host", "commitment", ok, "the announced hash is %s" % (show(h)[:160] if h is not None else None), g.fid)
        num = d.get("num")
        ctx.check("host", "announced number", num is not None and any(num is mk_len(x) for x in subterms(num) if last(x) == "yield_key_image_data"), "the announced number is %s" % (show(num)[:100] if num is not None else None), g.fid)


def run(ctx):
    ctx.assumptions += ["the account's spend key is present (a watch-only account raises before any image is computed)"]
    consent(ctx)
    sync(ctx)
    details_hash(ctx)
    final(ctx)
    token(ctx)
    host(ctx)
