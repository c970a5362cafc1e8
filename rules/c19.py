"""C19: a signing session that runs to its end yields a transaction satisfying the network's equations.

All steps of the builder are evaluated over symbolic keys for every arrangement of inputs up to a bound; the parts the device hands out are put together as the host does
and judged by a verifier written here: ring signatures close, key images and commitments are those of the real members, the sums balance.
"""
import itertools

from absint import Exc, Nat, Obj, Opq, Pt, Raised, intern
from ctx import Broken
from rules.c15 import BS, CR, PV, PY, SV, TR, Backend, View, tok
from rules.c16 import TX, G, H, P8, Rec, Session, Stub, hkey, need, num, sym
from tsx import BUILDER


class Dumped(object):
    __slots__ = ("content",)

    def __init__(self, content):
        self.content = content


class FS(TX):
    """collaborators: sealing that opens under its own key only, serialisation that can be read back"""
    def __init__(self, ctx, b):
        TX.__init__(self, ctx, b.module)
        N = self.natives
        self.sealed, self.dumps = {}, {}
        N[("monero_glue.xmr.enc.chacha_poly", "decrypt_pack")] = Nat(self.unseal)
        N[("monero_glue.hwtoken.misc", "dump_msg")] = Nat(self.dump)
        if b.module == PY:
            N[(PY, "hash_to_point")] = Nat(lambda x: b.make(self, "p", Pt.sym(intern(("hash to point", tuple(self.toks(x)))))))

    def cmp(self, op, a, b):
        if op in ("Eq", "NotEq") and isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(x, int) for x in a + b):
            return (a == b) == (op == "Eq")
        return TX.cmp(self, op, a, b)

    def seal(self, key, plain, *a, **k):
        r = TX.seal(self, key, plain)
        self.sealed[tuple(r.t)] = (tuple(self.toks(key)), list(self.toks(plain)))
        return r

    def unseal(self, key, t, *a, **k):
        e = self.sealed.get(tuple(self.toks(t)))
        if e is None or e[0] != tuple(self.toks(key)):
            raise Raised(Exc("ValueError", "tag"), self.where)
        return BS(e[1])

    def dump(self, msg, preallocate=None, msg_type=None, prefix=None):
        c = self.content_of(msg)
        t = tok(("dump", c), 64)
        self.dumps[t[0][0]] = {k: (v if not isinstance(v, (BS, View)) else self.toks(v)) for k, v in self.copied(msg).items()}
        return BS((self.toks(prefix) if prefix is not None else []) + t)

    def copied(self, m):
        if isinstance(m, (Rec, Obj)):
            return {k: self.copied(v) for k, v in m.d.items()}
        if isinstance(m, (list, tuple)):
            return [self.copied(x) for x in m]
        if isinstance(m, (BS, View)):
            return list(self.toks(m))
        return m

    EXT = dict(TX.EXT, TxinToKey=lambda m, **k: Rec("TxinToKey", **k), CtKey=lambda m, **k: Rec("CtKey", **k), MgSig=lambda m, **k: Rec("MgSig", **k))


class Coin(object):
    """an output of the account: how its one-time key came about"""
    def __init__(self, n, kind, ring, real, amount, rct=True):
        self.n, self.kind, self.ring, self.real, self.amount, self.rct = n, kind, ring, real, amount, rct


MINOR = 3


class Spend(Session):
    def __init__(self, ctx, b, coins, perm, dests, bp, client, account):
        Session.__init__(self, ctx, b, dests, bp, client, None, account)
        self.m = FS(ctx, b)
        self.coins, self.perm = coins, perm
        total = sum(c.amount for c in coins)
        self.fee = 77
        rest = total - self.fee
        self.amount = [rest // (2 * len(dests)) + 1000 * k for k in range(len(dests) - 1)]
        self.amount.append(rest - sum(self.amount))

    def spend_of(self, c):
        s, v = sym("s"), sym("v")
        if c.kind.startswith("main") and not self.account:
            return s
        minor = 0 if c.kind.startswith("main") else MINOR
        return s + self.m.scalar(self.m.hash(self.m.packed("<7sb32sLL", [b"SubAddr", 0, BS(self.m.enc(SV(v, True))), self.account, minor])), True).p

    def source(self, c):
        """(entry, ring as published, secret key)"""
        m = self.m
        v = sym("v")
        idx = c.n + 1                                   # position in the transaction that created it
        R = Pt.sym("R%d" % c.n)
        adds = [Pt.sym("R%d/%d" % (c.n, k)) for k in range(4)] if c.kind.endswith("+") else []
        D = (adds[idx] if c.kind == "sub+" else R).mul(v).mul(P8)
        x = self.spend_of(c) + self.dscalar(D, idx)
        z = num(1) if not c.rct else sym("z%d" % c.n)
        ring = []
        for k in range(c.ring):
            if k == c.real:
                ring.append((G.mul(x), G.mul(z) + H.mul(num(c.amount))))
            else:
                ring.append((Pt.sym("P%d/%d" % (c.n, k)), Pt.sym("C%d/%d" % (c.n, k))))
        outs = [self.cls("MoneroOutputEntry", idx=1000 * (c.n + 1) + 7 * k, key=self.cls("MoneroRctKeyPublic", dest=self.key(p), commitment=self.key(q))) for k, (p, q) in enumerate(ring)]
        e = self.cls("MoneroTransactionSourceEntry", outputs=outs, real_output=c.real, real_out_tx_key=self.key(R), real_out_additional_tx_keys=[self.key(a) for a in adds],
                     real_output_in_tx_index=idx, amount=c.amount, rct=c.rct, mask=BS(m.enc(SV(z, True))), subaddr_minor=0 if c.kind.startswith("main") else MINOR)
        return e, ring, x

    def session(self):
        m, ctx = self.m, self.ctx
        mk = lambda k, v: self.b.make(m, k, v)
        creds = Rec("creds", view_key_private=mk("s", sym("v")), spend_key_private=mk("s", sym("s")), view_key_public=mk("p", G.mul(sym("v"))), spend_key_public=mk("p", G.mul(sym("s"))),
                    multisig_keys=[])
        bd = self.builder = m.new(ctx.func(BUILDER), [], {"trezor": Rec("token", iface=Stub("iface")), "creds": creds})
        need(bd, "state", "tx_prefix_hasher", "full_message_hasher")
        for a in ("state", "tx_prefix_hasher", "full_message_hasher"):
            bd.d[a] = Stub(a)
        outs = [self.entry(n, x) for n, x in zip(self.dests, self.amount)]
        chg = self.entry("M", self.amount[self.dests.index("M")]) if "M" in self.dests else None
        td = self.request(outs, chg, None)
        td.d.update(num_inputs=len(self.coins), fee=self.fee, minor_indices=sorted({0 if c.kind.startswith("main") else MINOR for c in self.coins}), mixin=self.coins[0].ring - 1)
        hm = self.field(self.step("init_transaction", td), "hmacs")
        src = [self.source(c) for c in self.coins]
        F = ("vini", "vini_hmac", "pseudo_out", "pseudo_out_hmac", "pseudo_out_alpha", "spend_key")
        acks = []
        for e, _, _ in src:
            a = self.step("set_input", e)
            acks.append({f: self.field(a, f) for f in F})
        self.vini = [self.m.dumps.get(self.m.toks(a["vini"])[1][0]) if self.m.toks(a["vini"])[:1] == [2] else None for a in acks]
        self.step("tsx_inputs_permutation", list(self.perm))
        for i in self.perm:
            self.step("input_vini", src[i][0], acks[i]["vini"], acks[i]["vini_hmac"])
        self.step("all_in_set")
        self.outs = []
        for k, d in enumerate(outs):
            late = len(outs) > 2 and k + 1 == len(outs)
            a = self.step("set_output", d, m.item(hm, k), self.proof() if late and not self.det else None)
            self.outs.append({f: m.toks(self.field(a, f)) for f in ("tx_out", "out_pk", "ecdh_info")})
            if late and self.det:
                self.step("set_output", None, None, self.proof(), True)
        a = self.step("all_out1_set")
        self.message = m.toks(self.field(a, "full_message_hash"))
        self.signed = []
        for i in self.perm:
            a = self.step("sign_input", src[i][0], acks[i]["vini"], acks[i]["vini_hmac"], acks[i]["pseudo_out"], acks[i]["pseudo_out_hmac"], acks[i]["pseudo_out_alpha"], acks[i]["spend_key"])
            self.signed.append((i, m.toks(self.field(a, "signature")), m.toks(self.field(a, "pseudo_out"))))
        self.step("final_msg")
        self.src = src


def hp(m, p):
    return Pt.sym(intern(("hash to point", tuple(m.enc(PV(p))))))


def label(s):
    return "%s: inputs %s, order %s, outputs %s, v%d%s%s" % (s.b.name, " ".join("%s%d/%d%s" % (c.kind, c.real, c.ring, "" if c.rct else "p") for c in s.coins), "".join(map(str, s.perm)),
                                                          "".join(s.dests), s.bp, "" if s.client else ", host masks", ", account %d" % s.account if s.account else "")


def judge(ctx, s):
    L, m = label(s), s.m
    where = BUILDER + ".sign_input"
    if s.error is not None:
        ctx.check("finishes", L, False, "the session ends with %s at %s" % (s.error, s.where), where)
        return
    ctx.check("finishes", L, True, "", where)
    total = Pt()
    for pos, (i, sig, po) in enumerate(s.signed):
        what = "%s: input %d" % (L, i)
        e, ring, x = s.src[i]
        v = s.vini[i]
        c = s.coins[i]
        I = s.val(v["k_image"]) if v and isinstance(v.get("k_image"), list) else None
        P = G.mul(x)
        ctx.check("key image", what, isinstance(I, PV) and I.p == hp(m, P).mul(x), "the key image is not that of the spent key", BUILDER + ".set_input")
        offs = v.get("key_offsets") if v else None
        ab = list(itertools.accumulate(offs)) if isinstance(offs, list) and all(isinstance(o, int) for o in offs) else None
        ctx.check("ring", what, ab == [1000 * (c.n + 1) + 7 * k for k in range(c.ring)], "the input refers to other ring members (%s)" % (offs,), BUILDER + ".set_input")
        ctx.check("ring", what + ", amount", v is not None and v.get("amount") == (0 if c.rct else c.amount), "the input states the amount %s" % (v and v.get("amount")), BUILDER + ".set_input")
        Q = s.val(po)
        mg = m.dumps.get(sig[0][0]) if sig and isinstance(sig[0], tuple) else None
        ok = isinstance(Q, PV) and isinstance(mg, dict) and isinstance(I, PV) and closes(s, mg, ring, Q.p, I.p)
        ctx.check("signature", what, ok, "the ring signature does not verify over the published ring, key image, pseudo output and message hash", where)
        if isinstance(Q, PV):
            total = total + Q.p
    for o in s.outs:
        C = s.val(o["out_pk"][32:])
        total = total - (C.p if isinstance(C, PV) else Pt.sym("?"))
    ctx.check("balance", L, total == H.mul(num(s.fee)), "pseudo outputs minus outputs is %s instead of the fee" % (repr(total)[:200],), where)


def closes(s, mg, ring, Q, I):
    """verification of the ring signature, from the published values alone"""
    m = s.m
    ss, cc = mg.get("ss"), s.val(mg.get("cc") or [])
    if not (isinstance(ss, list) and len(ss) == len(ring) and all(isinstance(r, list) and len(r) == 2 for r in ss) and isinstance(cc, SV)):
        return False
    c = cc.p
    for (P, C), r in zip(ring, ss):
        a, b = s.val(r[0]), s.val(r[1])
        if not (isinstance(a, SV) and isinstance(b, SV) and a.red and b.red):
            return False
        D = C - Q
        e = lambda p: m.enc(PV(p))
        c = s.hs(s.message + e(P) + e(G.mul(a.p) + P.mul(c)) + e(hp(m, P).mul(a.p) + I.mul(c)) + e(D) + e(G.mul(b.p) + D.mul(c)))
    return c == cc.p


def cases(deep):
    """(coins, order, outputs, bp, client, account)"""
    def coins(kinds, rings, reals, rct=None):
        return [Coin(n, k, r, q, 5000000000 * (n + 1) + 13, True if rct is None else rct[n]) for n, (k, r, q) in enumerate(zip(kinds, rings, reals))]
    kinds = ("main", "sub", "main+", "sub+")
    modes = [(2, 1), (1, 1), (1, 0)]
    for acc in (0, 1):
        for k in kinds:
            for ring in (2, 3) if deep else (3,):
                for real in range(ring):
                    for bp, cl in modes:
                        yield coins([k], [ring], [real]), (0,), "AM", bp, cl, acc
    for bp, cl in modes:
        yield coins(["main"], [3], [1], [False]), (0,), "AM", bp, cl, 0
        for a, b in itertools.product(kinds, repeat=2) if deep else zip(kinds, kinds[1:] + kinds[:1]):
            for perm in ((0, 1), (1, 0)):
                yield coins([a, b], [2, 2] if not deep else [2, 3], [0, 1]), perm, "CM", bp, cl, 0
        for perm in itertools.permutations(range(3)):
            yield coins(["main", "sub", "sub+"], [2, 2, 2], [0, 1, 0]), perm, "AMC", bp, cl, 1 if deep and perm[0] else 0
        for d in ("M", "AB", "CDM", "AMC") + (("CCDM", "ABM") if deep else ()):
            if d != "M":
                yield coins(["sub", "main"], [2, 2], [1, 0]), (1, 0), d, bp, cl, 0
    if deep:
        for a, b, c in itertools.product(kinds, repeat=3):
            for acc in (0, 1):
                yield coins([a, b, c], [2, 3, 2], [1, 2, 0]), (2, 0, 1), "CAM", 2, 1, acc
        for ring in (4, 5):
            for real in range(ring):
                yield coins(["sub+", "main"], [ring, ring], [real, ring - 1 - real]), (1, 0), "CM", 2, 1, 0
        for perm in itertools.permutations(range(4)):
            yield coins(["main", "sub", "sub+", "main+"], [2, 2, 2, 2], [0, 1, 0, 1]), perm, "AM", 2, 1, 0


def run(ctx):
    ctx.rule("finishes", "an honest session is carried to its end")
    ctx.rule("key image", "the key image of every input is that of the key that is spent")
    ctx.rule("ring", "every input refers to exactly the ring it was given, in order, and hides a hidden amount")
    ctx.rule("signature", "every ring signature verifies over the published ring, key image, pseudo output and message hash, whatever the position of the real member")
    ctx.rule("balance", "the pseudo outputs sum to the outputs plus the fee")
    n, late = 0, []
    for mod in ((TR, PY) if ctx.tier == "thorough" else (TR,)):
        b = Backend(ctx, mod)
        for c in cases(ctx.tier == "thorough"):
            n += 1
            if len(late) > 20:
                continue
            try:
                judge(ctx, Spend(ctx, b, *c).run())
            except Broken as e:
                late.append(str(e))
    ctx.count("sessions", n)
    if late:
        raise Broken("; ".join(sorted(set(late))[:3]))
    ctx.floor("signature", 30)
    ctx.floor("balance", 20)
