"""C08 - what is signed covers the whole transaction in the consensus order."""
from tsx import *
from engine import mk_add, subst, mk_len
from rules.c05 import lin_true
from rules.c06 import callee

OP = [x for x in OPAQUE if "keccak_hasher" not in x and "mlsag_hasher" not in x] + [r"keccak_hasher:(HashWrapper|AHashWriter)\.(?!__init__|ctx)"]
WRITES = {"update": "bytes", "write": "bytes", "awrite": "bytes", "uvarint": "uvarint", "container_size": "uvarint", "uint": "uint", "field": "field", "message_field": "mfield",
          "message": "message", "container": "field", "digest": "digest", "get_digest": "digest", "copy": "copy"}


class Sinks(object):
    """builder steps run from a state in which the hashers are real objects; writes are recorded per hash context in path order"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.it = interp(ctx, OP, limit=40)
        self.it.tracer = self.trace
        ci = ctx.func(BUILDER + ".__init__")
        st = None
        for o in self.it.run(ci, args={"state": NONE}):
            if o.kind == "return":
                st = o.state
                break
        if st is None:
            raise Broken("builder constructor does not complete")
        self.names = {}
        self.base = State()
        store = {}
        roots = [sget_(st, SELF, a) for a in ("tx_prefix_hasher", "full_message_hasher")]
        if any(r is None or r.op != "new" for r in roots):
            raise Broken("anchor vanished: hasher objects of the builder")
        store[(SELF, "tx_prefix_hasher")], store[(SELF, "full_message_hasher")] = roots
        seen, todo = set(), list(roots)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for (b, a), v in st.store.items():
                if b is x and isinstance(v, T) and (v.op == "new" or a in ("keeping", "ar")):
                    store[(b, a)] = v
                    if v.op == "new":
                        todo.append(v)
        self.base.store = store
        self.base.hist = {x: st.hist.get(x, ()) for x in seen}
        self.prefix = self.sink(roots[0], self.base)
        fm = roots[1]
        self.master = self.rsig = self.rct = None
        for (b, a), v in store.items():
            if b is fm and v.op == "new":
                if "HashWrapper" in v.args[0]:
                    self.master = self.sink(v, self.base)
                elif "Archive" in v.args[0] or "Writer" in v.args[0]:
                    self.rct = self.sink(v, self.base)
                elif "get_keccak" in v.args[0]:
                    self.rsig = v
        if None in (self.prefix, self.master, self.rsig, self.rct):
            raise Broken("anchor vanished: hash contexts of the message hasher")

    def sink(self, t, st, d=0):
        if t.op != "new" or d > 6:
            return None
        if "get_keccak" in t.args[0] and not t.args[0].startswith("cls:"):
            return t
        for w in self.it.links.get(t, ()):
            r = self.sink(w, st, d + 1)
            if r is not None:
                return r
        res = {self.sink(v, st, d + 1) for (b, a), v in st.store.items() if b is t and isinstance(v, T)}
        res.discard(None)
        return next(iter(res)) if len(res) == 1 else None

    def trace(self, it, kind, st, ev):
        if kind == "sinkarg":
            s = self.sink(ev["base"], st)
            return None if s is None else (s, mk("w", "obj:" + ev["name"], *ev["args"]))
        if kind != "mcall" or ev.get("name") not in WRITES:
            return None
        b = ev["base"]
        if not isinstance(b, T):
            return None
        s = self.sink(b, st)
        if s is None:
            return None
        a = [x for x in ev["args"]]
        n = WRITES[ev["name"]]
        if n in ("bytes", "uvarint"):
            a = a[:1]
        if n == "digest":
            a = [ev["value"]]
        if n == "mfield":
            kw = {x.args[0]: x.args[1] for x in a if x.op == "kw"}
            a = [x for x in a if x.op != "kw"]
            msg, fld = a[0], kw.get("field", a[1] if len(a) > 1 else NONE)
            val = kw.get("fvalue", a[2] if len(a) > 2 else NONE)
            if val is NONE:
                nm = fld.args[0] if fld.op == "tuple" else None
                val = st.store.get((msg, cval(nm))) if nm is not None and is_const(nm) else None
                val = it.resolve(val, st) if val is not None else mk("attr", msg, cval(nm)) if nm is not None and is_const(nm) else mk("mfieldof", msg, fld)
            a = [val, fld]
        return s, mk("w", n, *a)

    def run(self, step, *facts):
        st = assume_state(*facts)
        st.store, st.hist = dict(self.base.store), dict(self.base.hist)
        fi = self.ctx.func(BUILDER + "." + ENTRIES.get(step, step))
        self.it.events = []
        outs = self.it.run(fi, state=st)
        self.ctx.used(self.it)
        return Run(self.it, outs, fi)

    def of(self, r, o, s):
        return [r.i.resolve(p, o.state) for p in o.state.hist.get(mk("trace", s), ())]

    def all(self, r, o):
        return [self.of(r, o, s) for s in (self.prefix, self.rct, self.rsig, self.master)]


def sget_(st, b, a):
    return st.store.get((b, a))


def tr(ps):
    return " | ".join(show(p)[:160] for p in ps) or "nothing"


def bp_alt(ps):
    """a merged path: nothing or one complete proof"""
    return len(ps) == 1 and ps[0].op == "alt" and all(not a or bp_of([x for x in a]) is not None for a in ps[0].args[0])


BP = ["A", "S", "T1", "T2", "taux", "mu", "*L", "*R", "a", "b", "t"]


def bp_of(ps):
    """the object whose range proof fields are exactly the trace, or None"""
    if len(ps) != len(BP):
        return None
    objs = set()
    for n, p in zip(BP, ps):
        if n[0] == "*":
            if p.op != "rep":
                return None
            cnt, _, alts = p.args
            if len(alts) != 1 or len(alts[0]) != 1:
                return None
            w = alts[0][0]
            if w.op != "w" or w.args[0] != "bytes" or w.args[1].op != "sub" or w.args[1].args[1].op != "idx":
                return None
            x = w.args[1].args[0]
            if cnt is not mk_len(x) or x.op != "attr" or x.args[1] != n[1:]:
                return None
            objs.add(x.args[0])
        else:
            if p.op != "w" or p.args[0] != "bytes" or p.args[1].op != "attr" or p.args[1].args[1] != n:
                return None
            objs.add(p.args[1].args[0])
    return next(iter(objs)) if len(objs) == 1 else None


def run(ctx):
    ctx.rule("prefix", "the prefix hash receives version, unlock time and input count once at the start, each authenticated input once in its step, the output count once before the first output, "
                       "each output once, then the extra field, and nothing else")
    ctx.rule("base", "the signature base hash receives type and fee once, the encrypted amount returned for each output once, then every output commitment in order")
    ctx.rule("proofs", "the range proof hash receives every component of every produced or verified range proof in order")
    ctx.rule("message", "the signed message is the digest of prefix hash, base hash and range proof hash, each taken after its last write")
    ctx.rule("one-shot", "the one-shot computation has the same composition")
    ctx.rule("writers", "the hash writers pass every byte on")
    S = Sinks(ctx)

    def expect(rule, what, r, o, sink, want, txt):
        got = S.of(r, o, sink)
        ctx.check(rule, what, got == want, "%s; hashed: %s" % (txt, tr(got)), r.fi.fid)

    def silent(r, o, step, *sinks):
        for s, n in ((S.prefix, "prefix"), (S.rct, "base"), (S.rsig, "proofs"), (S.master, "message")):
            if s in sinks:
                got = S.of(r, o, s)
                ctx.check(n, "step %s adds nothing to the %s hash" % (step, n), not got, "hashes %s" % tr(got), r.fi.fid)

    # ------------------------------------------------ init
    tsx = mk("param", [a.arg for a in ctx.func(BUILDER + "." + ENTRIES["init"]).node.args.args][1])
    T_ = lambda a: mk("attr", tsx, a)
    fee = T_("fee")
    bpv = mk("attr", T_("rsig_data"), "bp_version")
    for v, tname in ((1, "Bulletproof"), (2, "Bulletproof2")):
        r = S.run("init", ("==", bpv, const(v), True), (bpv, True), (">", fee, const(0), True))
        n = 0
        for o in rets(r):
            n += 1
            expect("prefix", "init step: version, unlock time, input count", r, o, S.prefix,
                   [mk("w", "uvarint", const(2)), mk("w", "uvarint", T_("unlock_time")), mk("w", "uvarint", T_("num_inputs"))], "expected version 2, unlock time, input count")
            got = S.of(r, o, S.rct)
            ok = len(got) == 2 and all(g.op == "w" and g.args[0] in ("mfield", "field", "uvarint", "uint", "bytes") for g in got)
            ctx.check("base", "init step: type and fee", ok, "hashes %s" % tr(got), r.fi.fid)
            if ok:
                ctx.check("base", "signature type for version %d" % v, show(got[0].args[1]).rstrip(">").endswith("RctType." + tname), "hashes %s" % show(got[0])[:200], r.fi.fid)
                ctx.check("base", "fee", got[1].args[1] is fee, "hashes %s" % show(got[1])[:200], r.fi.fid)
                for i, g in enumerate(got):
                    ix = [x for x in subterms(g) if x.op == "sub" and "f_specs" in show(x.args[0]) and is_const(x.args[1])]
                    ctx.check("base", "field encoding of %s" % ("type", "fee")[i], all(cval(x.args[1]) == i for x in ix), "encoded as %s" % show(g)[:200], r.fi.fid)
            silent(r, o, "init", S.rsig, S.master)
        ctx.check("prefix", "init step analysed", n > 0, "no accepting path", r.fi.fid)
    # ------------------------------------------------ steps that hash nothing
    for step in ("input", "permutation", "all_in", "sign", "final"):
        r = S.run(step)
        for o in rets(r):
            silent(r, o, step, S.prefix, S.rct, S.rsig, S.master)
            v = sget(o, "full_message")
            ctx.check("message", "step %s leaves the signed message" % step, v is me("full_message") or step == "final", "message becomes %s" % show(v)[:200], r.fi.fid)
            for k in ("output_pk",):
                v = r.i.resolve(sget(o, k), o.state)
                ctx.check("base", "step %s leaves the output commitments" % step, v is me(k) or step in ("sign", "final"), "become %s" % show(v)[:200], r.fi.fid)
            v = r.i.resolve(mk("attr", me("tx"), "extra"), o.state)
    # ------------------------------------------------ vini
    r = S.run("vini")
    vini = params(r.fi, "vini")["vini"]
    n = 0
    for o in rets(r):
        n += 1
        expect("prefix", "input step of the prefix", r, o, S.prefix, [mk("w", "bytes", vini)], "expected the authenticated input")
        silent(r, o, "vini", S.rct, S.rsig, S.master)
    ctx.check("prefix", "input step of the prefix analysed", n > 0, "no accepting path", r.fi.fid)
    # ------------------------------------------------ output
    fl = [(n, [f]) for n, f in (("first output", ("==", me("out_idx"), const(-1), True)), ("later output", ("==", me("out_idx"), const(-1), False)))]
    modes = [[(me("rsig_offload"), off), (">=", me("bp_version"), const(2), v2)] + ([] if v2 else [("==", me("bp_version"), const(1), True), (">", me("client_version"), const(0), c)])
             for off in (True, False) for v2, c in ((True, None), (False, True), (False, False))]
    tot = {}
    for name, fs in [(n, f + m) for n, f in fl for m in modes]:
        r = S.run("output", *fs)
        p = params(r.fi, "output")
        nd = npf = 0
        for o in rets(r):
            pre, rct, rsig, master = S.all(r, o)
            silent(r, o, "output", S.master)
            done = [f.args[0] for f in o.state.facts if f.op == "done" and callee(f.args[0], "ring_ct.prove_range_bp_batch", "ring_ct.verify_bp")]
            dest = r.i.resolve(sget(o, "out_idx"), o.state) is not me("out_idx")
            if done:
                npf += 1
                b = bp_of(rsig)
                want = done[0] if done[0].args[0].endswith("prove_range_bp_batch") else done[0].args[1]
                ctx.check("proofs", "%s: %s" % (name, "computed proof" if want is done[0] else "verified proof"), len(done) == 1 and b is want, "proof %s, hashed: %s" % (show(want)[:200], tr(rsig)), r.fi.fid)
            elif bp_of(rsig) is None:
                ctx.check("proofs", "%s: no proof, nothing hashed" % name, not rsig or bp_alt(rsig), "hashes %s" % tr(rsig), r.fi.fid)
            if dest:
                nd += 1
                first = [mk("w", "uvarint", me("output_count"))] if name == "first output" else []
                to = field(r, o, "tx_out")
                ctx.check("prefix", "%s: output returned to the host is the one hashed" % name, to is not None and pre == first + [mk("w", "bytes", to)], "returned %s; hashed: %s" % (show(to)[:200] if to else None, tr(pre)), r.fi.fid)
                ec = field(r, o, "ecdh_info")
                ctx.check("base", "%s: encrypted amount returned is the one hashed" % name, ec is not None and rct == [mk("w", "bytes", ec)], "returned %s; hashed: %s" % (show(ec)[:200] if ec else None, tr(rct)), r.fi.fid)
                opk = r.i.resolve(sget(o, "output_pk"), o.state)
                ok = opk.op == "mut" and opk.args[0] is me("output_pk") and len(opk.args[1]) == 1 and opk.args[1][0].op == "i"
                ctx.check("base", "%s: commitment appended once" % name, ok, "commitments become %s" % show(opk)[:200], r.fi.fid)
                if ok:
                    x = opk.args[1][0].args[0]
                    rp = field(r, o, "out_pk")
                    ctx.check("base", "%s: commitment returned is the one recorded" % name, rp is not None and x in subterms(rp) and x.op == "call" and x.args[0] == "crypto.encodepoint", "returned %s" % show(rp)[:200] if rp else "", r.fi.fid)
                if to is not None:
                    ctx.check("prefix", "%s: one-time key of the output" % name, tx_out_ok(to), "output is %s" % show(to)[:300], r.fi.fid)
            else:
                ctx.check("prefix", "%s: range proof message adds no output" % name, not pre and not rct, "hashes %s" % tr(pre + rct), r.fi.fid)
        t = tot.setdefault(name, [0, 0])
        t[0] += nd
        t[1] += npf
    for name, (nd, npf) in tot.items():
        ctx.check("prefix", "%s analysed" % name, nd > 0, "no accepting path", r.fi.fid)
        ctx.check("proofs", "%s: proofs analysed" % name, npf > 0, "no range proof is produced or verified", r.fi.fid)
    # ------------------------------------------------ all out
    r = S.run("all_out")
    n = 0
    for o in rets(r):
        n += 1
        pre, rct, rsig, master = S.all(r, o)
        ex = field(r, o, "extra")
        ok = len(pre) == 2 and pre[0].op == "w" and pre[0].args[0] == "mfield" and pre[1].args[0] == "digest"
        ctx.check("prefix", "extra field closes the prefix", ok, "hashes %s" % tr(pre), r.fi.fid)
        if not ok:
            continue
        ctx.check("prefix", "extra field returned is the one hashed", ex is not None and pre[0].args[1] is ex, "returned %s; hashed %s" % (show(ex)[:200], show(pre[0].args[1])[:200]), r.fi.fid)
        ctx.check("prefix", "extra field encoded as length-prefixed bytes", "BlobType" in show(pre[0].args[2]), "encoded as %s" % show(pre[0].args[2])[:200], r.fi.fid)
        ctx.check("prefix", "extra field contains the transaction key", me("r_pub") in subterms(ex) and callee(ex, "tsx_helper.add_tx_pub_key_to_extra", "tsx_helper.add_additional_tx_pub_keys_to_extra"), "extra is %s" % show(ex)[:200], r.fi.fid)
        d = pre[1].args[1]
        th = r.i.resolve(sget(o, "tx_prefix_hash"), o.state)
        ctx.check("message", "prefix hash", th is d and field(r, o, "tx_prefix_hash") is d, "prefix hash is %s" % show(th)[:200], r.fi.fid)
        ok = len(rct) == 2 and rct[0].op == "rep" and rct[1].op == "w" and rct[1].args[0] == "digest"
        ctx.check("base", "every commitment closes the base", ok, "hashes %s" % tr(rct), r.fi.fid)
        if not ok:
            continue
        cnt, _, alts = rct[0].args
        w = alts[0][0] if len(alts) == 1 and len(alts[0]) == 1 else None
        okw = w is not None and w.op == "w" and w.args[0] in ("field", "bytes") and w.args[1].op == "sub" and w.args[1].args[0] is me("output_pk") and w.args[1].args[1].op == "idx"
        okn = cnt in (mk_len(me("output_pk")), me("output_count"))
        ctx.check("base", "each commitment once, in order", okw and okn, "hashes %s" % show(rct[0])[:300], r.fi.fid)
        ctx.check("base", "number of commitments checked", truth(o.state.facts, "==", me("output_count"), mk_len(me("output_pk"))) is True, "no comparison with the declared number of outputs", r.fi.fid)
        ok = len(rsig) == 1 and rsig[0].op == "w" and rsig[0].args[0] == "digest"
        ctx.check("proofs", "closing step adds no proof", ok, "hashes %s" % tr(rsig), r.fi.fid)
        if not ok:
            continue
        want = [mk("w", "bytes", d), mk("w", "bytes", rct[1].args[1]), mk("w", "bytes", rsig[0].args[1])]
        ctx.check("message", "composition", master[:-1] == want and master[-1].args[0] == "digest", "hashes %s" % tr(master), r.fi.fid)
        fm = r.i.resolve(sget(o, "full_message"), o.state)
        ctx.check("message", "signed message is the digest", fm is master[-1].args[1] and field(r, o, "full_message_hash") is fm, "message is %s" % show(fm)[:200], r.fi.fid)
    ctx.check("message", "closing step analysed", n > 0, "no accepting path", r.fi.fid)

    oneshot(ctx)
    writers(ctx)
    ctx.assumptions += ["the serialisation library writes a message field completely", "the collision resistance of Keccak"]
    ctx.floor("prefix", 12)
    ctx.floor("base", 12)
    ctx.floor("proofs", 4)
    ctx.floor("message", 5)


def tx_out_ok(t):
    """0 amount, key variant, one-time key (a derived public key)"""
    ks = [x for x in subterms(t) if callee(x, "crypto.encodepoint")]
    return any(is_const(x) and cval(x) == b"\x00\x02" for x in subterms(t)) and len(ks) == 1 and "derive_public_key" in show(ks[0])


def oneshot(ctx):
    fi = ctx.func("monero_glue.xmr.sub.mlsag_hasher:get_pre_mlsag_hash")
    S = Sinks.__new__(Sinks)
    S.ctx = ctx
    S.it = Interp(ctx.repo, opaque=OP + [r"monero_serialize"])
    S.it.tracer = S.trace
    rv = mk("param", fi.node.args.args[0].arg)
    for tn in ("Bulletproof", "Bulletproof2"):
        st = State()
        outs = S.it.run(fi, state=st)
        ctx.used(S.it)
        n = 0
        for o in outs:
            if o.kind != "return":
                continue
            fs = [show(f) for f in o.state.facts]
            tr_ = {k.args[0]: [S.it.resolve(p, o.state) for p in v] for k, v in o.state.hist.items() if k.op == "trace"}
            val = S.it.resolve(o.value, o.state) if isinstance(o.value, T) else o.value
            master = [v for v in tr_.values() if v and v[-1].op == "w" and v[-1].args[0] == "digest" and v[-1].args[1] is val]
            ok = len(master) == 1 and len(master[0]) == 4
            ctx.check("one-shot", "three hashes are combined", ok, "hashes %s" % tr(master[0] if master else []), fi.fid)
            if not ok:
                continue
            m = master[0]
            ctx.check("one-shot", "prefix hash first", m[0].args[:2] == ("bytes", mk("attr", rv, "message")), "first is %s" % show(m[0])[:200], fi.fid)
            def src(x):
                for v in tr_.values():
                    if v and v[-1].op == "w" and v[-1].args[0] == "digest" and v[-1].args[1] is x:
                        return v[:-1]
            b = src(m[1].args[1]) if m[1].args[0] == "bytes" else None
            ctx.check("one-shot", "base hash second", b is not None and len(b) == 1 and "serialize_rctsig_base" in str(b[0].args[0]), "second is %s" % (tr(b) if b is not None else show(m[1])[:200]), fi.fid)
            p = src(m[2].args[1]) if m[2].args[0] == "bytes" else None
            ctx.check("one-shot", "range proof hash third", p is not None and len(p) == 1 and p[0].op in ("rep", "alt"), "third is %s" % (tr(p) if p is not None else show(m[2])[:200]), fi.fid)
            if p is None or len(p) != 1 or p[0].op != "rep":
                continue
            cnt, _, alts = p[0].args
            if "bulletproofs" not in show(cnt):
                continue
            n += 1
            x = bp_of(list(alts[0])) if len(alts) == 1 else None
            bl = mk("attr", mk("attr", rv, "p"), "bulletproofs")
            ctx.check("one-shot", "every component of every proof", cnt is mk_len(bl) and x is not None and x.op == "sub" and x.args[0] is bl and x.args[1].op == "idx", "hashes %s" % show(p[0])[:400], fi.fid)
        ctx.check("one-shot", "range proof branch analysed", n > 0, "no path hashes the range proofs", fi.fid)
        break


def writers(ctx):
    for cls, meth, tgt in (("HashWrapper", "update", "update"), ("AHashWriter", "write", "update"), ("AHashWriter", "awrite", "update")):
        fi = ctx.func("monero_glue.xmr.sub.keccak_hasher:%s.%s" % (cls, meth), optional=True)
        if fi is None:
            continue
        it = Interp(ctx.repo, opaque=[r"monero_glue\.xmr\.(crypto|core\.)", r"keccak_hasher:HashWrapper\." if cls != "HashWrapper" else r"\$"])
        buf = mk("param", fi.node.args.args[1].arg)
        it.tracer = lambda it, kind, st, ev: (mk("param", "sink"), mk("w", ev["name"], *ev["args"])) if kind == "mcall" and ev.get("name") == tgt else None
        for o in it.run(fi):
            if o.kind != "return":
                continue
            got = o.state.hist.get(mk("trace", mk("param", "sink")), ())
            empty = truth(o.state.facts, "==", mk_len(buf), const(0)) is True or truth(o.state.facts, ">", mk_len(buf), const(0)) is False or mk("f", buf) in o.state.facts
            ctx.check("writers", "%s.%s passes the data on" % (cls, meth), got == (mk("w", tgt, buf),) or empty and not got, "passes on: %s" % tr(got), fi.fid)
        ctx.used(it)
