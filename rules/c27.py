"""C27: keys, addresses and received outputs of a wallet are those Monero defines.

Derivations are evaluated over symbolic seeds and keys and compared with the published ones written here; outputs are made the way a sender makes them and read by the wallet code.
"""
import itertools

from absint import Exc, Nat, Obj, Opq, Poly, Pt, Raised, intern
from ctx import Broken
from rules.c15 import BS, PV, PY, SV, SUB, TR, Backend, View, tok
from rules.c16 import G, H, P8, Rec, num, sym
from rules.c19 import hp
from rules.c26 import SG, Case as SigCase

MO, SD, AD, CRD, RC = "monero_glue.xmr.monero", "monero_glue.xmr.sub.seed", "monero_glue.xmr.sub.addr", "monero_glue.xmr.sub.creds", "monero_glue.xmr.ring_ct"
B58 = "monero_glue.misc.b58_mnr"
# version bytes of the network: main, integrated, subaddress
NETS = {0: (18, 19, 42), 1: (53, 54, 63), 2: (24, 25, 36)}


class DV(SG):
    def __init__(self, ctx, b):
        SG.__init__(self, ctx, b)
        N = self.natives
        self.b58, self.children = {}, []
        N[(B58, "b58encode")] = Nat(self.b58encode)
        N[(B58, "b58decode")] = Nat(self.b58decode)
        N[("monero_glue.xmr.core.mnemonic", "mn_encode")] = Nat(lambda *a, **k: ["words"])
        N[("monero_glue.misc.bip.bip32", "Wallet")] = Rec("Wallet", from_master_secret=Nat(self.master))
        N[("monero_glue.misc.bip.bip39_deriv", "mnemonics_to_seed")] = Nat(self.phrase)

        for mod in ctx.repo.modules:
            N[(mod, "namedtuple")] = Nat(self.namedtuple)
            N[(mod, "ord")] = Nat(self.ord)

    def namedtuple(self, name, fields, **k):
        fields = [x for f in self.iterate(fields) for x in f.replace(",", " ").split()] if not isinstance(fields, str) else fields.replace(",", " ").split()
        return Nat(lambda *a, **k: Rec(name, **dict(zip(fields, a), **k)))

    def ord(self, x):
        if isinstance(x, str) and len(x) == 1:
            return ord(x)
        t = self.toks(x)
        if len(t) != 1:
            raise Raised(Exc("TypeError", "ord"), self.where)
        return t[0]

    def call(self, f, args, kw=None):
        if isinstance(f, Opq):
            n = f.n.rsplit(".", 1)[-1]
            if n in ("hexlify", "unhexlify"):
                x = args[0]
                return x.d["t"] if n == "unhexlify" and isinstance(x, Rec) and x.kind == "hex" else Rec("hex", t=BS(self.toks(x)))
        return SG.call(self, f, args, kw)

    def getattr(self, o, a):
        if isinstance(o, Opq) and o.n.endswith("xmrtypes.RctType"):
            v = dict(Null=0, Full=1, Simple=2, Bulletproof=3, Bulletproof2=4, CLSAG=5, FullBulletproof=3, SimpleBulletproof=4)
            if a not in v:
                raise Raised(Exc("AttributeError", a), self.where)
            return v[a]
        return SG.getattr(self, o, a)

    def b_isinstance(self, x, t):
        if isinstance(t, Opq):
            return isinstance(x, Rec) and x.kind == t.n.rsplit(".", 1)[-1]
        return SG.b_isinstance(self, x, t)

    def b58encode(self, data_hex=None, data_bin=None):
        x = data_hex.d["t"] if isinstance(data_hex, Rec) else data_bin
        t = self.toks(x)
        r = tok(("base58", tuple(t)), (0, 2, 3, 5, 6, 7, 9, 10)[len(t) % 8] + len(t) // 8 * 11)
        self.b58[tuple(r)] = t
        return BS(r)

    def b58decode(self, enc=None, data_bin=None):
        t = self.b58.get(tuple(self.toks(data_bin if data_bin is not None else enc)))
        if t is None:
            raise Raised(Exc("ValueError", "base58"), self.where)
        return BS(t)

    def master(self, seed, *a, **k):
        ed = k.get("use_ed25519", False)

        def child(path):
            t = tok(("child", tuple(self.toks(seed)), bool(ed), path))
            self.children.append((self.toks(seed), bool(ed), path))
            return Rec("node", private_key=Rec("key", get_key=Nat(lambda: Rec("hex", t=BS(t)))))
        return Rec("master", get_child_for_path=Nat(child))

    def phrase(self, seed, passphrase=b""):
        return BS(tok(("phrase", seed, bytes(passphrase)), 64))

    def cls(self, mod, n):
        if self.ctx.repo.resolve(mod, n) is None:
            raise Broken("anchor vanished: %s:%s" % (mod, n))
        return self.module_name(self.ctx.repo.modules[mod], n)


class Case(SigCase):
    def __init__(self, ctx, b, what, fid):
        self.ctx, self.b, self.what, self.fid = ctx, b, "%s: %s" % (b.name, what), fid
        self.m = DV(ctx, b)

    def address(self, net, kind, spend, view, pid=()):
        m = self.m
        t = [NETS[net][kind]] + self.ep(spend) + self.ep(view) + list(pid)
        return m.b58encode(data_bin=BS(t + m.hash(t)[:4])).t

    def account(self, net=0):
        m, a, b = self.m, sym("a"), sym("b")
        return a, b, m.call(m.getattr(m.cls(CRD, "AccountCreds"), "new_wallet"), [self.s(a), self.s(b)], {"network_type": net})

    def sub(self, a, major, minor):
        """secret of a subaddress"""
        if (major, minor) == (0, 0):
            return num(0)
        return self.hs(list(b"SubAddr\0") + self.es(a) + list(major.to_bytes(4, "little")) + list(minor.to_bytes(4, "little")))

    def subaddress(self, a, b, i):
        D = G.mul(b) + G.mul(self.sub(a, *i))
        return D, D.mul(a)

    def number(self, x):
        return num(x) if isinstance(x, int) else x.p if isinstance(x, SV) else x

    def toks(self, x):
        return self.m.toks(x) if x is not None else None


NOT = "is not the published one"


def seed_keys(c):
    m = c.m
    sd = tok("seed")
    r = m.fn(MO, "generate_monero_keys")(BS(sd))
    s = m.scalar(sd, True).p
    v = c.hs(c.es(s))
    yield "keys", "spend", c.S(r[0]) == s and c.P(r[1]) == G.mul(s), "the spend key " + NOT
    yield "keys", "view", c.S(r[2]) == v and c.P(r[3]) == G.mul(v), "the view key " + NOT


def check_creds(c, o, net, s, v):
    m = c.m
    cr = m.call(m.getattr(o, "creds"), [net])
    g = lambda n: m.getattr(cr, n)
    yield "keys", "", c.S(g("spend_key_private")) == s and c.S(g("view_key_private")) == v and c.P(g("spend_key_public")) == G.mul(s) and c.P(g("view_key_public")) == G.mul(v), "the account's keys are not those of the seed"
    yield "address", "", c.toks(g("address")) == c.address(net, 0, G.mul(s), G.mul(v)), "the account's address is not that of its keys on its network"


def seed_monero(net):
    def f(c):
        m, sd = c.m, tok("seed")
        o = m.call(m.getattr(m.cls(SD, "SeedDerivation"), "from_monero_seed"), [BS(sd)])
        s = m.scalar(sd, True).p
        for x in check_creds(c, o, net, s, c.hs(c.es(s))):
            yield x
    return f


def seed_master(ed, path, words):
    def f(c):
        m = c.m
        kw = dict(slip0010=ed)
        if path:
            kw["path"] = path
        k = m.cls(SD, "SeedDerivation")
        if words:
            o = m.call(m.getattr(k, "from_mnemonics"), [["one", "two three"]], dict(kw, passphrase=b"pass"))
            sd = m.phrase("one two three", b"pass").t
        else:
            sd = tok("master", 64)
            o = m.call(m.getattr(k, "from_master_seed"), [BS(sd)], kw)
        want = path or ("m/44'/128'/0'" if ed else "m/44'/128'/0'/0/0")
        ch = tok(("child", tuple(sd), ed, want))
        yield "path", "", m.children == [(list(sd), ed, want)], "the key is not taken from the master seed at the path %s" % want
        s = m.scalar(ch if ed else m.hash(ch), True).p
        for x in check_creds(c, o, 0, s, c.hs(c.es(s))):
            yield x
    return f


INDEX = [(0, 0), (0, 1), (1, 0), (3, 7), (0, 256), (65536, 2), (2 ** 32 - 1, 2 ** 32 - 1)]


def sub_keys(i):
    def f(c):
        m = c.m
        a, b, cr = c.account()
        D, C = c.subaddress(a, b, i)
        r = m.fn(MO, "generate_sub_address_keys")(c.s(a), c.p(G.mul(b)), i[0], i[1])
        yield "subaddress", "keys", c.P(r[0]) == D and (c.P(r[1]) == (C if i != (0, 0) else G.mul(a))), "the subaddress's keys " + NOT + "s"
        yield "subaddress", "spend key", c.P(m.fn(MO, "get_subaddress_spend_public_key")(c.s(a), c.p(G.mul(b)), i[0], i[1])) == D, "the spend key " + NOT
        subs = m.fn(MO, "compute_subaddresses")(cr, i[0], [i[1], i[1] // 2])
        got = {tuple(k[1:] if isinstance(k, tuple) and k and k[0] == "bytes" else k): v for k, v in subs.items()}
        want = {tuple(c.ep(c.subaddress(a, b, (i[0], j))[0])): (i[0], j) for j in (i[1], i[1] // 2)}
        yield "subaddress", "table", got == want, "the table of subaddresses does not map each spend key to its index"
    return f


def address(net, i, pid):
    def f(c):
        m = c.m
        a, b, cr = c.account(net)
        p = tok("payment id", 8) if pid else None
        try:
            ai = m.fn(MO, "build_address_info")(cr, i, BS(p) if p else None, net)
        except Raised:
            yield "address", "", bool(pid and i not in (None, (0, 0))), "the address is refused"
            return
        yield "address", "kind", not (pid and i not in (None, (0, 0))), "a payment id is accepted with a subaddress"
        D, C = (G.mul(b), G.mul(a)) if i in (None, (0, 0)) else c.subaddress(a, b, i)
        sub = i not in (None, (0, 0))
        kind = 2 if sub else 1 if pid else 0
        yield "address", "", c.toks(m.getattr(ai, "addr")) == c.address(net, kind, D, C, p or ()), "the address is not that of the keys, kind and network"
        yield "address", "base", c.toks(m.getattr(ai, "base_addr")) == c.address(net, 2 if sub else 0, D, C), "the address without payment id is not that of the keys"
        yield "address", "fields", c.toks(m.getattr(ai, "spend_key")) == c.ep(D) and c.toks(m.getattr(ai, "view_key")) == c.ep(C) and bool(m.getattr(ai, "is_sub_address")) == sub and bool(m.getattr(ai, "is_integrated")) == bool(pid), "the description does not match the address"
        if sub or pid or 1:
            d = m.fn(AD, "decode_addr")(BS(c.address(net, kind, D, C, p or ())))
            g = lambda n: m.getattr(d, n)
            yield "address", "decoded", (c.toks(g("spend_key")), c.toks(g("view_key")), g("net_type"), bool(g("is_sub_address")), bool(g("is_integrated")), c.toks(g("payment_id")) if pid else g("payment_id")) == (c.ep(D), c.ep(C), net, sub, bool(pid), p), "decoding does not give the parts of the address"
            yield "address", "encoded again", c.toks(g("addr")) == c.address(net, kind, D, C, p or ()) and c.toks(g("base_addr")) == c.address(net, 2 if sub else 0, D, C), "encoding the decoded address gives another one"
    return f


def sent(c, a, b, i, idx, extra, n):
    """an output to subaddress i at index idx: key, shared and additional transaction keys"""
    r = sym("r")
    D, C = c.subaddress(a, b, i)
    if i == (0, 0):
        C = G.mul(a)
    rs = [sym("r%d" % k) for k in range(n)] if extra else []
    u = rs[idx] if extra else r
    R = D.mul(r) if i != (0, 0) and not extra else G.mul(r)
    adds = [(D.mul(x) if k == idx and i != (0, 0) else Pt.sym("R%d" % k)) for k, x in enumerate(rs)] if extra else []
    if extra and i == (0, 0):
        adds[idx] = G.mul(u)
    dv = C.mul(u).mul(P8)
    sc = c.hs(c.ep(dv) + varint(idx))
    return R, adds, dv, sc, G.mul(sc) + D, sc + b + c.sub(a, *i)


def varint(n):
    return [(intern(("varint", repr(n))), 0)]


def received(i, idx, extra, mine):
    def f(c):
        m = c.m
        a, b, cr = c.account()
        n = idx + 2
        R, adds, dv, sc, P, x = sent(c, a, b, i, idx, extra, n)
        if not mine:
            P = P + Pt.sym("other")
        subs = m.fn(MO, "compute_subaddresses")(cr, i[0], [0, 1, 2, i[1]])
        m.fn(MO, "compute_subaddresses")(cr, 0, [0, 1], subs)
        try:
            r = m.fn(MO, "generate_key_image_helper")(cr, subs, c.p(P), c.p(R), [c.p(q) for q in adds], idx)
        except Raised:
            yield "received", "spending key", not mine, "an output of the account is not recognised"
            return
        yield "received", "ownership", mine, "a foreign output is taken for an own one"
        if mine:
            yield "received", "spending key", c.S(r[0]) == x and G.mul(x) == P, "the spending key does not open the output"
            yield "received", "key image", c.P(r[1]) == hp(m, P).mul(x), "the key image is not that of the output"
    return f


def scanned(i, idx, extra, v2, amount, lie):
    def f(c):
        m = c.m
        a, b, cr = c.account()
        R, adds, dv, sc, P, x = sent(c, a, b, i, idx, extra, idx + 2)
        subs = m.fn(MO, "compute_subaddresses")(cr, i[0], [0, 1, 2, i[1]])
        key = c.es(sc)
        y = c.hs(list(b"commitment_mask") + key) if v2 else sym("y")
        com = G.mul(y) + H.mul(num(amount))
        if v2:
            e = m.hash(list(b"amount") + key)
            am = BS([0] * 32)
            am.t[:8] = list(amount.to_bytes(8, "little"))
            am.t[:8] = [m.binop("BitXor", p, q) for p, q in zip(am.t, e[:8])]
            mk = BS([0] * 32)
        else:
            h1 = c.hs(key)
            mk, am = BS(c.es(y + h1)), BS(c.es(num(amount) + c.hs(c.es(h1))))
        if lie:
            com = com + H
        none = lambda: Rec("EcdhTuple", mask=BS(tok("other mask")), amount=BS(tok("other amount")))
        tx = Rec("tx", vout=[Rec("TxOut", target=Rec("TxoutToKey", key=BS(c.ep(P if k == idx else Pt.sym("Q%d" % k)))), amount=0) for k in range(idx + 2)],
                 rct_signatures=Rec("rv", type=4 if v2 else 1, ecdhInfo=[Rec("EcdhTuple", mask=mk, amount=am) if k == idx else none() for k in range(idx + 2)],
                                    outPk=[Rec("CtKey", mask=BS(c.ep(com if k == idx else Pt.sym("K%d" % k)))) for k in range(idx + 2)]))
        der = lambda q: c.p(q.mul(a).mul(P8))
        try:
            info = m.fn(MO, "check_acc_out_precomp")(tx.d["vout"][idx], subs, der(R), [der(q) for q in adds], idx)
            got, outs = {}, []
            rec = m.getattr(info, "received")
            if rec is None or m.getattr(info, "error"):
                yield "scanned", "", False, "an output of the account is not recognised"
                return
            yield "scanned", "index", tuple(rec[0]) == i, "the output is attributed to another subaddress"
            got[m.key(rec[0]) if hasattr(m, "key") else tuple(rec[0])] = 0
            info = m.fn(MO, "scan_output")(cr, tx, idx, info, got, outs, False)
        except Raised:
            yield "scanned", "", lie, "reading an output of the account fails"
            return
        yield "scanned", "amount opens the commitment", not lie, "an amount that does not open the commitment is accepted"
        if not lie:
            g = lambda n: m.getattr(info, n)
            yield "scanned", "keys", c.S(g("in_ephemeral")) == x and c.P(g("ki")) == hp(m, P).mul(x), "the spending key or key image is not that of the output"
            yield "scanned", "amount", [c.number(x) for x in [g("amount")] + list(got.values())] == [num(amount)] * 2 and c.S(g("mask")) == y, "the amount or mask is not the one sent"
    return f


def exchange(v2, amount):
    def f(c):
        m = c.m
        k, y = tok("shared"), sym("y")
        e = m.fn(RC, "ecdh_encode")(Rec("EcdhTuple", mask=c.s(y), amount=c.s(num(amount))), derivation=BS(k), v2=v2)
        am = c.S(m.getattr(e, "amount"))
        if v2:
            d = BS(list(amount.to_bytes(8, "little")) + [0] * 24)
            d.t[:8] = [m.binop("BitXor", p, q) for p, q in zip(d.t, m.hash(list(b"amount") + k)[:8])]
            ok = am == m.scalar(d.t, True).p
        else:
            ok = am == num(amount) + c.hs(c.es(c.hs(k))) and c.S(m.getattr(e, "mask")) == y + c.hs(k)
        yield "amounts", "encoded", ok, "the encoded amount " + NOT
        r = m.fn(RC, "ecdh_decode")(e, derivation=BS(k), v2=v2)
        yield "amounts", "decoded", c.S(m.getattr(r, "amount")) == num(amount) and c.S(m.getattr(r, "mask")) == (c.hs(list(b"commitment_mask") + k) if v2 else y), "decoding does not give what was encoded"
    return f


def cases(deep):
    yield "keys of a seed", MO + ":generate_monero_keys", seed_keys
    for net in NETS:
        yield "account of a seed, network %d" % net, SD + ":SeedDerivation.set_monero_seed", seed_monero(net)
    for ed, path, words in itertools.product((False, True), (None, "m/1'/2"), (False, True)):
        yield "account of a %s seed, %s path%s" % ("SLIP-10" if ed else "BIP-44", "given" if path else "usual", ", from words" if words else ""), SD + ":SeedDerivation.set_seed", seed_master(ed, path, words)
    for i in INDEX:
        yield "subaddress %d/%d" % i, MO + ":generate_sub_address_keys", sub_keys(i)
    for net in NETS:
        for i in (None, (0, 0), (0, 1), (1, 0), (2, 5)):
            for pid in (False, True):
                yield "address of %s, network %d%s" % ("%d/%d" % i if i else "the account", net, ", payment id" if pid else ""), MO + ":build_address_info", address(net, i, pid)
    for i in [(0, 0), (0, 1), (1, 0), (3, 7)] + (INDEX[4:] if deep else []):
        for extra in (False, True):
            for idx in (0, 1, 3) + ((2, 15) if deep else ()):
                for mine in (True, False):
                    yield "output %d to %d/%d%s%s" % (idx, i[0], i[1], ", own transaction key" if extra else "", "" if mine else ", foreign"), MO + ":generate_key_image_helper", received(i, idx, extra, mine)
                for v2 in (False, True):
                    for lie in (False, True):
                        if deep or idx < 2:
                            yield "scan of output %d to %d/%d%s%s%s" % (idx, i[0], i[1], ", own transaction key" if extra else "", ", short amounts" if v2 else "", ", wrong commitment" if lie else ""), MO + ":scan_output", scanned(i, idx, extra, v2, 123456789012, lie)
    for v2 in (False, True):
        for amount in (0, 1, 2 ** 64 - 1, 0x0102030405060708):
            yield "amount %x%s" % (amount, ", short" if v2 else ""), RC + ":ecdh_encdec", exchange(v2, amount)


def run(ctx):
    ctx.rule("runs", "the derivation ends with a result")
    ctx.rule("keys", "spend and view keys are those of the seed")
    ctx.rule("path", "the seed's child key is taken at the published or the given path")
    ctx.rule("subaddress", "keys and table of subaddresses are those of the account and index")
    ctx.rule("address", "an address encodes the keys, kind, network and payment id, and decodes to them")
    ctx.rule("received", "exactly own outputs yield a spending key and key image, and these are the output's")
    ctx.rule("scanned", "an own output's amount is accepted exactly if it opens the commitment")
    ctx.rule("amounts", "encoded amounts are the published ones and decode to what was encoded")
    late, n = [], 0
    for mod in ((TR, PY) if ctx.tier == "thorough" else (TR,)):
        b = Backend(ctx, mod)
        for what, fid, f in cases(ctx.tier == "thorough"):
            n += 1
            try:
                Case(ctx, b, what, fid).judge(f)
            except Broken as e:
                late.append(str(e))
    ctx.count("derivations", n)
    if late:
        raise Broken("; ".join(sorted(set(late))[:3]))
    ctx.floor("address", 20)
    ctx.floor("received", 20)
    ctx.floor("scanned", 10)
