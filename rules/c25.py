"""C25: the host assembles exactly the transaction the device signed.

The agent's signing routine and the device's are evaluated against each other over symbolic keys, for every arrangement of inputs, orders of their key images, numbers of
outputs and protocol versions up to a bound; the transaction the agent ends up with is judged part by part and by the verifier of C19.
"""
import itertools

from absint import Exc, Nat, Obj, Opq, Pt, Raised, intern
from ctx import Broken
from rules.c15 import BS, PV, PY, SV, TR, Backend, View, tok
from rules.c16 import G, H, Rec, Stub, TX, need, num, sym
from rules.c19 import FS, MINOR, Coin, Spend, closes
from tsx import BUILDER

AGENT = "monero_glue.agent.agent_lite:Agent"
SIGNER = "monero_glue.protocol.tsx_sign:TsxSigner"
MISC = "monero_glue.hwtoken.misc"
TYPES = dict(Null=0, Full=1, Simple=2, Bulletproof=3, Bulletproof2=4)


def record(n, **dflt):
    return lambda m, **k: Rec(n, **dict({a: f() for a, f in dflt.items()}, **k))


class AG(FS):
    """libraries of the host: containers, and serialisation that reads back what the device wrote"""
    def __init__(self, ctx, b):
        FS.__init__(self, ctx, b)
        N = self.natives
        self.digests, self.proofs, self.order = {}, {}, {}
        N[(MISC, "parse_msg")] = Nat(self.parse)
        N[("monero_glue.xmr.ring_ct", "verify_bp")] = Nat(lambda bp, amounts, masks: self.covers(bp, amounts, masks))
        N[("monero_glue.xmr.ring_ct", "ver_range")] = Nat(self.ver_range)
        N[("monero_glue.xmr.monero", "get_transaction_prefix_hash")] = Nat(lambda tx: BS(self.digests.get("tx_prefix_hasher") or [0] * 32))
        for mod in ("monero_glue.xmr.monero", "monero_glue.xmr.sub.mlsag_hasher"):
            N[(mod, "get_pre_mlsag_hash")] = Nat(lambda rv: BS(self.digests.get("full_message_hasher") or [0] * 32))

    EXT = dict(FS.EXT, Transaction=record("Transaction", vin=list, vout=list, extra=list), RctSig=record("RctSig"), RctSigPrunable=record("RctSigPrunable"), TxInV=record("TxInV"), TxOut=record("TxOut"),
               RangeSig=record("RangeSig"), Bulletproof=record("Bulletproof"), TxExtraNonce=record("TxExtraNonce"), MessageParser=record("parser"))

    def call(self, f, args, kw=None):
        if isinstance(f, Opq) and f.n.endswith("EcdhTuple") and not kw and not args:
            return Rec("EcdhTuple")
        return FS.call(self, f, args, kw)

    def getattr(self, o, a):
        if isinstance(o, Opq) and o.n.endswith("RctType") and a in TYPES:
            return TYPES[a]
        if isinstance(o, Stub) and "digest" in a:
            def f(*x, **k):
                t = tok((o.n, "digest"))
                self.digests[o.n] = t
                return BS(t)
            return Nat(f)
        return FS.getattr(self, o, a)

    def frozen_key(self, v):
        r = self.order.get(tuple(self.toks(v))) if isinstance(v, (BS, View)) else None
        if r is None:
            raise Broken("order of values at %s" % self.where)
        return r

    # ---------------------------------------------------------------- range proofs: what they prove is what matters
    def prove(self, amounts, masks, *a, **k):
        if amounts is None:
            return FS.prove(self, amounts, masks)
        am, ms = [self.amount_of(x) for x in self.iterate(amounts)], [self.b.read(self, x).p for x in self.iterate(masks)]
        n = len(self.proofs)
        key = lambda x: BS(tok(("proof %d" % n, x)))
        r = Rec("Bulletproof", **{x: key(x) if x not in "LR" else [key(x + str(i)) for i in range(6)] for x in ("A", "S", "T1", "T2", "taux", "mu", "L", "R", "a", "b", "t")})
        self.proofs[r.d["A"].t[0][0]] = (am, ms)
        return r

    def amount_of(self, x):
        return num(x) if isinstance(x, int) else self.b.read(self, x).p

    def proved(self, r):
        return self.proofs.get(r.d["A"].t[0][0]) if isinstance(r, Rec) and isinstance(r.d.get("A"), BS) else None

    def covers(self, bp, amounts, masks):
        c = self.proved(bp)
        return c is not None and c == ([self.amount_of(x) for x in self.iterate(amounts)], [self.b.read(self, x).p for x in self.iterate(masks)])

    def ver_range(self, C=None, rsig=None, use_bulletproof=True, **k):
        c = self.proved(rsig)
        if c is None or not use_bulletproof:
            return False
        V = rsig.d.get("V")
        want = [G.mul(m) + H.mul(a) for a, m in zip(*c)]
        V = [self.point(self.toks(v)) for v in self.iterate(V)] if V is not None else []
        return [v.p.mul(num(8)) for v in V] == want

    # ---------------------------------------------------------------- reading what was written
    def parse(self, buf, msg):
        t = self.toks(buf)
        kind = msg.kind if isinstance(msg, Rec) else None
        if kind in ("TxInV", "MgSig", "TxinToKey"):
            body = t[1:] if kind == "TxInV" else t
            if (kind == "TxInV" and t[:1] != [2]) or len(body) != 64 or not isinstance(body[0], tuple) or body[0][0] not in self.dumps:
                raise Raised(Exc("ValueError", "not parsed"), self.where)
            r = self.back({"TxInV": "TxinToKey"}.get(kind, kind), self.dumps[body[0][0]])
            return Rec("TxInV", txin_to_key=r) if kind == "TxInV" else r
        if kind == "TxOut":
            if t[:2] != [0, 2] or len(t) != 34:
                raise Raised(Exc("ValueError", "not parsed"), self.where)
            return Rec("TxOut", amount=0, target=Rec("TxoutToKey", key=BS(t[2:], True)))
        if kind in ("CtKey", "EcdhTuple"):
            if len(t) != 64:
                raise Raised(Exc("ValueError", "not parsed"), self.where)
            a, b = ("dest", "mask") if kind == "CtKey" else ("mask", "amount")
            return Rec(kind, **{a: BS(t[:32], True), b: BS(t[32:], True)})
        if kind == "Bulletproof":
            if t and isinstance(t[0], tuple) and t[0][0] in self.dumps:
                return self.back(kind, self.dumps[t[0][0]])
            if len(t) == 32 * 21 + 2 and isinstance(t[0], tuple) and t[0][0] in self.proofs:       # A S T1 T2 taux mu, lists L and R, a b t
                f = lambda i: BS(t[i:i + 32], True)
                vec = lambda o: [f(o + 1 + 32 * k) for k in range(6)] if t[o] == 6 else self.fail("ValueError", "not parsed")
                return Rec(kind, A=f(0), S=f(32), T1=f(64), T2=f(96), taux=f(128), mu=f(160), L=vec(192), R=vec(385), a=f(578), b=f(610), t=f(642))
            raise Raised(Exc("ValueError", "not parsed"), self.where)
        raise Broken("parsing of %r at %s" % (msg, self.where))

    def back(self, kind, d):
        b = lambda v: BS(list(v), True) if isinstance(v, list) and len(v) == 32 and not any(isinstance(x, list) for x in v) else [b(x) for x in v] if isinstance(v, list) else v
        return Rec(kind, **{k: b(v) for k, v in d.items()})


class Host(Spend):
    def __init__(self, ctx, b, coins, perm, dests, hf, client, account):
        Spend.__init__(self, ctx, b, coins, perm, dests, 2 if hf >= 10 else 1, client, account)
        self.m = AG(ctx, b)
        self.m.b = b
        self.hf = hf

    def session(self):
        m, ctx = self.m, self.ctx
        mk = lambda k, v: self.b.make(m, k, v)
        creds = Rec("creds", view_key_private=mk("s", sym("v")), spend_key_private=mk("s", sym("s")), view_key_public=mk("p", G.mul(sym("v"))), spend_key_public=mk("p", G.mul(sym("s"))),
                    multisig_keys=[])
        bd = self.builder = m.new(ctx.func(BUILDER), [], {"trezor": Rec("token", iface=Stub("iface")), "creds": creds})
        need(bd, "state", "tx_prefix_hasher", "full_message_hasher")
        for a in ("state", "tx_prefix_hasher", "full_message_hasher"):
            bd.d[a] = Stub(a)
        sg = self.signer = m.new(ctx.func(SIGNER), [], {})
        need(sg, "tsx_obj", "iface")
        sg.d.update(tsx_obj=bd, iface=Stub("iface"))
        self.log = []
        src, self.src = [], []
        for c in self.coins:
            e, ring, x = self.source(c)
            f = e.d
            self.src.append((e, ring, x))
            src.append(Rec("TxSourceEntry", outputs=[(o.d["idx"], Rec("CtKey", dest=o.d["key"].d["dest"], mask=o.d["key"].d["commitment"])) for o in f["outputs"]],
                           **{k: f[k] for k in ("real_output", "real_out_tx_key", "real_out_additional_tx_keys", "real_output_in_tx_index", "amount", "rct", "mask")}, multisig_kLRki=None))
        I = [m.enc(PV(Pt.sym(intern(("hash to point", tuple(m.enc(PV(G.mul(x))))))).mul(x))) for _, _, x in self.src]
        for r, i in enumerate(self.perm):
            m.order[tuple(I[i])] = -r                   # descending along the wanted order
        dst = lambda n, a: Rec("TxDestinationEntry", amount=a, is_subaddress=self.W[n].sub, addr=Rec("AccountPublicAddress", m_spend_public_key=self.key(self.W[n].spend), m_view_public_key=self.key(self.W[n].view)))
        outs = [dst(n, a) for n, a in zip(self.dests, self.amount)]
        chg = dst("M", self.amount[self.dests.index("M")] if "M" in self.dests else 0)
        tx = Rec("TxConstructionData", sources=src, splitted_dsts=outs, change_dts=chg, extra=[], unlock_time=0, subaddr_account=self.account, use_bulletproofs=True, use_rct=True,
                 subaddr_indices=sorted({0 if c.kind.startswith("main") else MINOR for c in self.coins}))
        ag = self.agent = m.new(ctx.func(AGENT), [Rec("device", tsx_sign=Nat(self.route))], {"address_n": [0x8000002c], "network_type": 0})
        need(ag, "hf", "client_version")
        ag.d.update(hf=self.hf, client_version=self.client)
        self.tx = m.call(m.getattr(ag, "sign_transaction_data"), [tx])

    def route(self, msg):
        m = self.m
        r = m.call(m.getattr(self.signer, "sign"), [msg])
        self.log.append((msg.ci.node.name, msg, r))
        return r

    def answers(self, n):
        return [(q, r) for k, q, r in self.log if k == n]


def label(s):
    d = "".join(s.dests)
    return "%s: inputs %s, order %s, outputs %s, hf %d, client %d%s" % (s.b.name, " ".join("%s%d/%d%s" % (c.kind, c.real, c.ring, "" if c.rct else "p") for c in s.coins), "".join(map(str, s.perm)),
                                                                     d if len(d) < 8 else "%s.. (%d)" % (d[:3], len(d)), s.hf, s.client, ", account %d" % s.account if s.account else "")


def toks(m, v):
    if isinstance(v, (BS, View, bytes)):
        return m.toks(v)
    return list(v) if isinstance(v, (list, tuple)) else None


def judge(ctx, s):
    L, m, where = label(s), s.m, AGENT + ".sign_transaction_data"
    if s.error is not None:
        ctx.check("finishes", L, False, "signing ends with %s at %s" % (s.error, s.where), where)
        return
    ctx.check("finishes", L, True, "", where)
    tx = s.tx
    g = lambda o, a: o.d.get(a) if isinstance(o, (Rec, Obj)) else None
    rv = g(tx, "rct_signatures")
    p = g(rv, "p")
    vin, vout = g(tx, "vin") or [], g(tx, "vout") or []
    ranks = [m.order.get(tuple(toks(m, g(v, "k_image")) or ())) for v in vin]
    ctx.check("inputs", L, None not in ranks and ranks == sorted(ranks, reverse=True) and len(set(ranks)) == len(s.coins), "the inputs are not all there, sorted by key image", where)
    fin = s.answers("MoneroTransactionSetOutputRequest")
    acks = [r for q, r in fin if q.d.get("dst_entr") is not None]
    oa = s.answers("MoneroTransactionAllOutSetRequest")
    if len(oa) != 1 or len(acks) != len(s.dests):
        ctx.check("outputs", L, False, "%d outputs sent for %d destinations" % (len(acks), len(s.dests)), where)
        return
    ack = oa[0][1]
    dev = g(ack, "rv")
    ctx.check("fields", L, g(rv, "type") == g(dev, "rv_type") and g(rv, "txnFee") == s.fee == g(dev, "txn_fee") and toks(m, g(tx, "extra")) == m.toks(g(ack, "extra")) and g(tx, "unlock_time") == 0 and g(tx, "version") == 2,
              "type, fee, extra field, unlock time or version differ from what the device hashed", where)
    # outputs
    pk, ec = g(rv, "outPk") or [], g(rv, "ecdhInfo") or []
    ok = len(vout) == len(pk) == len(ec) == len(acks)
    for k, a in enumerate(acks if ok else []):
        t = m.toks(g(a, "ecdh_info"))
        e = m.toks(g(ec[k], "mask")) + m.toks(g(ec[k], "amount"))
        good = m.toks(g(g(vout[k], "target"), "key")) == m.toks(g(a, "tx_out"))[2:] and g(vout[k], "amount") == 0 and m.toks(g(pk[k], "dest")) + m.toks(g(pk[k], "mask")) == m.toks(g(a, "out_pk"))
        good = good and (e == t if len(t) == 64 else len(e) == 64 and e[32:40] == t and len(t) == 8)
        ok = ok and good
    ctx.check("outputs", L, ok, "outputs, output keys or encrypted amounts are not those of the device, in the order of the destinations", where)
    # range proofs
    com = [m.point(m.toks(g(x, "mask"))).p for x in pk]
    bps, at = g(p, "bulletproofs") or [], 0
    okp = bool(bps)
    for bp in bps:
        c = m.proved(bp)
        if c is None:
            okp = False
            break
        okp = okp and [G.mul(mm) + H.mul(a) for a, mm in zip(*c)] == com[at:at + len(c[0])] and m.ver_range(None, bp) if isinstance(bp.d.get("V"), list) else okp and [G.mul(mm) + H.mul(a) for a, mm in zip(*c)] == com[at:at + len(c[0])]
        at += len(c[0])
    ctx.check("range proofs", L, okp and at == len(com) and not g(p, "rangeSigs"), "the range proofs do not cover every output exactly once, in order", where)
    # signatures
    mgs, po = g(p, "MGs") or [], g(p, "pseudoOuts") or []
    s.message = m.toks(g(ack, "full_message_hash"))
    total = Pt()
    ok = len(mgs) == len(po) == len(vin) == len(s.coins)
    for k, v in enumerate(vin if ok else []):
        i = s.perm[k]
        offs = list(itertools.accumulate(g(v, "key_offsets")))
        c = s.coins[i]
        Q, I = s.val(m.toks(po[k])), s.val(m.toks(g(v, "k_image")))
        mg = m.copied(mgs[k])
        good = offs == [1000 * (c.n + 1) + 7 * j for j in range(c.ring)] and g(v, "amount") == (0 if c.rct else c.amount)
        good = good and isinstance(Q, PV) and isinstance(I, PV) and closes(s, mg, s.src[i][1], Q.p, I.p)
        ctx.check("signatures", "%s: position %d" % (L, k), good, "ring signature, pseudo output and input at this position do not belong together", where)
        total = total + (Q.p if isinstance(Q, PV) else Pt.sym("?"))
    ctx.check("signatures", L, ok, "%d signatures and %d pseudo outputs for %d inputs" % (len(mgs), len(po), len(vin)), where)
    for C in com:
        total = total - C
    ctx.check("balance", L, total == H.mul(num(s.fee)), "pseudo outputs minus outputs is %s instead of the fee" % (repr(total)[:200],), where)
    # what is kept for later proofs
    f = s.answers("MoneroTransactionFinalRequest")
    ct = g(s.agent, "ct")
    ok = len(f) == 1
    if ok:
        want = [m.toks(g(f[0][1], a)) for a in ("salt", "rand_mult", "tx_enc_keys")]
        ok = [toks(m, g(ct, a)) for a in ("enc_salt1", "enc_salt2", "enc_keys")] == want
    ctx.check("kept", L, ok, "the sealed transaction keys and their salts are not kept as the device returned them", where)


def cases(deep):
    def coins(kinds, rings, reals, rct=None):
        return [Coin(n, k, r, q, 5000000000 * (n + 1) + 13, True if rct is None else rct[n]) for n, (k, r, q) in enumerate(zip(kinds, rings, reals))]
    modes = [(10, 1), (9, 1), (9, 0)]
    for hf, cl in modes:
        yield coins(["main"], [3], [1]), (0,), "AM", hf, cl, 0
        yield coins(["main"], [2], [1], [False]), (0,), "CM", hf, cl, 0
        for perm in itertools.permutations(range(2)):
            yield coins(["sub", "main+"], [2, 3], [0, 1]), perm, "CM", hf, cl, 1
        for perm in itertools.permutations(range(3)):
            yield coins(["main", "sub", "sub+"], [2, 2, 3], [0, 1, 2]), perm, "AMC", hf, cl, 0
        for perm in itertools.permutations(range(4)) if deep else ((2, 0, 3, 1), (1, 2, 3, 0)):
            yield coins(["main", "sub", "sub+", "main+"], [2, 2, 2, 2], [0, 1, 0, 1]), perm, "MA", hf, cl, 0
        for n in (2, 3, 4, 5, 8, 9, 15, 16, 17, 18, 20, 33) if deep else (2, 4, 16, 17, 19):
            yield coins(["main"], [2], [0]), (0,), "A" * (n - 1) + "M", hf, cl, 0
        if deep:
            for d in itertools.product("ABCM", repeat=3):
                if d.count("M") == 1:          # wallet transactions always carry one change output
                    yield coins(["main", "sub"], [2, 2], [1, 0]), (1, 0), "".join(d), hf, cl, 0


def run(ctx):
    ctx.rule("finishes", "signing by an honest device ends with a transaction")
    ctx.rule("inputs", "all inputs, sorted by key image")
    ctx.rule("fields", "type, fee, extra field, unlock time and version are those the device hashed")
    ctx.rule("outputs", "outputs, their keys and encrypted amounts are the device's, in the order of the destinations")
    ctx.rule("range proofs", "every output is covered by exactly one range proof, in order")
    ctx.rule("signatures", "the ring signature and pseudo output at each position belong to the input at that position and verify")
    ctx.rule("balance", "the pseudo outputs of the assembled transaction sum to the outputs plus the fee")
    ctx.rule("kept", "the sealed transaction keys and salts are kept as returned")
    n, late = 0, []
    for mod in ((TR, PY) if ctx.tier == "thorough" else (TR,)):
        b = Backend(ctx, mod)
        for c in cases(ctx.tier == "thorough"):
            n += 1
            if len(late) > 20:
                continue
            try:
                judge(ctx, Host(ctx, b, *c).run())
            except Broken as e:
                late.append(str(e))
    ctx.count("sessions", n)
    if late:
        raise Broken("; ".join(sorted(set(late))[:3]))
    ctx.floor("signatures", 30)
    ctx.floor("outputs", 20)
