"""C03 - session keys: one key per purpose and item, from a session secret that includes fresh device randomness."""
from tsx import *
from engine import mk_add, subst

IDX = [None] + list(range(0, 300)) + [(1 << k) + d for k in range(9, 21) for d in (-1, 0, 1)]
SEC = bytes(range(1, 33))


def run(ctx):
    ctx.rule("derivation", "the derived key depends on every byte of its secret, on the purpose and on the index, and is different for any two (secret, purpose, index) in use")
    ctx.rule("purpose", "data of different kind handed to the host is protected under a different (secret, purpose)")
    ctx.rule("index", "keys protecting per-item data are bound to the item's own index")
    ctx.rule("fresh", "session secrets are derived from fresh device randomness, the transaction data and the transaction key")
    ctx.rule("stable", "session secrets are set only when the session is initialised")

    names = key_derivers(ctx)
    nxt = {"input": mk_add(me("inp_idx"), const(1)), "output": mk_add(me("out_idx"), const(1))}
    # ------------------------------------------------ keys protecting what the host stores
    KIND = {}      # (message, field) -> set of key terms
    WHERE = {}
    for step, fields in (("init", ["hmacs"]), ("input", ["vini_hmac", "pseudo_out_hmac", "pseudo_out_alpha", "spend_key"]), ("output", ["vouti_hmac"])):
        r = entry(ctx, step)
        for o in rets(r):
            for f in fields:
                t = field(r, o, f)
                if t is None or t is NONE:
                    continue
                km = {r.i.resolve(sget(o, k), o.state): me(k) for k in ("key_hmac", "key_enc")}
                for x in subterms(t):
                    if x.op == "call" and x.args[0] in ("crypto.compute_hmac", "chacha_poly.encrypt_pack", "hmac.new"):
                        k = subst(r.i.resolve(x.args[1], o.state), km)
                        KIND.setdefault((step, f), set()).add(k)
                        WHERE[(step, f)] = r.fi.fid
    for f in [("init", "hmacs"), ("input", "vini_hmac"), ("input", "pseudo_out_hmac"), ("input", "pseudo_out_alpha"), ("input", "spend_key"), ("output", "vouti_hmac")]:
        ctx.check("purpose", "%s.%s is protected" % f, f in KIND, "nothing keyed protects this field", BUILDER)
    # every other derived value (deterministic masks, export keys)
    other = set()
    for step in ENTRIES:
        r = entry(ctx, step)
        for e in r.i.events:
            if e.kind == "call" or e.kind == "mcall":
                for n in names:
                    if e.name == n or e.name.endswith("." + n):
                        km = {r.i.resolve(x, e.state): x for x in ()}
                        other.add((step, tuple(r.i.resolve(a, e.state) for a in e.args)))
    ctx.counts["derivation call sites x paths"] = len(other)

    def parts(k):
        """derivation term -> (secret, purpose, index)"""
        if k.op in ("mcall", "icall", "call"):
            a = [x for x in k.args if isinstance(x, T)]
            a = a[1:] if a and a[0] is SELF else a
            if len(a) >= 3:
                return a[0], a[1], a[2]
        return None

    by = {}
    for f, ks in KIND.items():
        for k in ks:
            p = parts(k)
            if p is None:
                ctx.check("index", "%s.%s key bound to its item" % f, k.has_new or deps_idx(k), "key %s does not depend on the item index" % show(k)[:200], WHERE[f])
                by.setdefault(("term", k), set()).add(f)
                continue
            by.setdefault((p[0], p[1]), set()).add(f)
            good = p[2] is not NONE and (p[2] is nxt.get(f[0]) or p[2].op == "idx")
            ctx.check("index", "%s.%s key bound to its item" % f, good, "the key index is %s" % show(p[2]), WHERE[f])
            ctx.check("purpose", "%s.%s key comes from a session secret" % f, p[0] in (me("key_hmac"), me("key_enc")), "secret is %s" % show(p[0])[:200], WHERE[f])
    ol = set()
    for step, args in other:
        if len(args) >= 2:
            a = args[1:] if args[0] is SELF else args
            ol.add((a[0], a[1]) if len(a) > 1 else (a[0], NONE))
    for g, fs in by.items():
        ctx.check("purpose", "separate keys: %s" % ", ".join("%s.%s" % f for f in sorted(fs)), len(fs) == 1,
                  "the same key (%s) protects different kinds of data: %s" % (show(g)[:100], sorted(fs)), BUILDER)

    # ------------------------------------------------ the derivation itself
    masters = [me("key_hmac"), me("key_enc")]
    pairs = set()
    for (s, d) in list(by) + list(ol):
        if isinstance(s, T) and s in masters and d.op == "const":
            pairs.add((s, d))
    # symbolic secrets in the init step (freshly derived) map onto the attributes
    ctx.counts["(secret, purpose) pairs in use"] = len(pairs)
    secs = {me("key_hmac"): SEC, me("key_enc"): bytes(255 - b for b in SEC)}
    for n in names:
        fi = ctx.func(BUILDER + "." + n)
        pn = [a.arg for a in fi.node.args.args][1:]

        def derive(sec, disc, idx):
            it = Interp(ctx.repo, opaque=OPAQUE, unroll=64)
            args = dict(zip(pn, [const(sec), disc, const(idx)]))
            outs = it.run(fi, args={k: v for k, v in args.items()})
            ctx.funcs.update(it.inlined)
            vs = {it.resolve(o.value, o.state) for o in outs if o.kind == "return"}
            return vs.pop() if len(vs) == 1 else None

        seen = {}
        ncheck = 0
        allok = True
        clash = None
        for (s, d) in sorted(pairs, key=lambda x: (show(x[0]), show(x[1]))):
            per_index = {}
            for idx in IDX:
                v = derive(secs[s], d, idx)
                if v is None:
                    continue
                ncheck += 1
                k = (show(s), show(d), idx)
                if v in seen and not (seen[v][:2] == k[:2] and {seen[v][2], idx} <= {None, 0}):
                    clash = (seen[v], k)
                    allok = False
                    ctx.check("derivation", "%s: %s/%s vs %s/%s" % (n, seen[v][0], seen[v][1], k[0], k[1]), False, "equal keys for %s and %s" % (seen[v], k), fi.fid)
                seen.setdefault(v, k)
            ctx.check("derivation", "%s: %s/%s distinct over indices and purposes" % (n, show(s), show(d)), True)
        ctx.counts["derived keys compared"] = ncheck
        ctx.check("derivation", "%s: derivation evaluated" % n, ncheck >= 1000 or not pairs, "only %d derivations could be evaluated" % ncheck, fi.fid)
        base = derive(SEC, const(b"txin"), 3)
        for b in range(32):
            alt = bytearray(SEC)
            alt[b] ^= 0x55
            v = derive(bytes(alt), const(b"txin"), 3)
            ctx.check("derivation", "%s: depends on secret byte %d" % (n, b), v is None or base is None or v is not base, "changing byte %d of the secret does not change the key" % b, fi.fid)
    ctx.floor("derivation", 40)

    # ------------------------------------------------ the session secrets
    r = entry(ctx, "init")
    tsx = params(r.fi, "init")["tsx_data"]
    for o in rets(r):
        kh, ke = (r.i.resolve(sget(o, k), o.state) for k in ("key_hmac", "key_enc"))
        rr = r.i.resolve(sget(o, "r"), o.state)
        ctx.check("fresh", "MAC and encryption secrets differ", kh is not ke, "both secrets are %s" % show(kh)[:200], r.fi.fid)
        for nm, k in (("MAC", kh), ("encryption", ke)):
            sub = subterms(k)
            fr = [x for x in sub if x.op == "fresh" and str(x.args[0]).split(".")[-1] in ("random_scalar", "random_bytes", "random_16bytes", "get_random_bytes") and x is not rr
                  and len([y for y in x.args[2:] if isinstance(y, T)]) == 0]
            rnd = [x for x in sub if x.op == "fresh" and str(x.args[0]).split(".")[-1].startswith(("random", "get_random"))]
            ctx.check("fresh", "%s secret includes fresh randomness" % nm, bool(rnd) and bool(fr or len(rnd) > 1), "secret is %s" % show(k)[:300], r.fi.fid)
            ctx.check("fresh", "%s secret includes the transaction data" % nm, tsx in sub, "secret is %s" % show(k)[:300], r.fi.fid)
            ctx.check("fresh", "%s secret includes the transaction key" % nm, rr in sub, "secret is %s" % show(k)[:300], r.fi.fid)
            ctx.check("fresh", "%s secret is a hash of the master secret" % nm, k.op == "call" and "hash" in k.args[0] or k.op == "mcall", "secret is %s" % show(k)[:300], r.fi.fid)
        ctx.check("fresh", "transaction key is random", rr.op == "fresh", "transaction key is %s" % show(rr)[:200], r.fi.fid)
    n = 0
    for step in ENTRIES:
        r = entry(ctx, step)
        for e in r.i.events:
            if e.kind in ("store", "setattr") and e.name in ("key_hmac", "key_enc", "key_master", "r") and e.base is SELF:
                n += 1
                ctx.check("stable", "%s set in step %s" % (e.name, step), step == "init", "session secret replaced outside the init step", e.where())
    ctx.check("stable", "session secrets are set", n >= 3, "no assignment found", BUILDER)
    ctx.assumptions += ["keccak_2hash and HMAC are collision resistant; the secrets handed to the derivation are 32 bytes",
                        "distinctness of indices is evaluated by constant propagation on 0..299 and around the powers of two up to 2^20"]


def deps_idx(k):
    return any(x.op == "idx" or x is me("inp_idx") or x is me("out_idx") for x in subterms(k))
