"""C16: every output can be found, decoded and spent exactly by its confirmed recipient.

The builder's steps are evaluated over symbolic keys, for every arrangement of destinations up to a bound, and the transaction that comes out is read the way the
recipients' wallets read it: each recipient derives the one-time keys, amounts, masks and the payment id from the published bytes and its own secrets alone.
"""
import ast
import itertools

from absint import Bound, Cls, Exc, Machine, Mod, Nat, Obj, Opq, Poly, Pt, Raised, intern
from ctx import Broken
from rules.c15 import BS, CM, CR, PV, PY, SV, TR, VALUES, Backend, Hash, Lazy, View, const_of, tok
from tsx import BUILDER

num, sym = Poly.num, Poly.sym
G, H = Pt.sym("G"), Pt.sym("H")
P8 = num(8)


class Rec(object):
    """a plain record of a library"""
    def __init__(self, kind="", **kw):
        self.kind, self.d = kind, dict(kw)

    def __repr__(self):
        return self.kind or "record"


class Stub(object):
    """a collaborator that agrees with everything and whose content is the subject of other properties"""
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


class TX(CM):
    def __init__(self, ctx, backend):
        CM.__init__(self, ctx, backend)
        self.budget = 3000000
        self.raw = {}
        self.ctx = ctx
        back = ctx.repo.modules[backend]
        N = self.natives
        base = [(k[1], v) for k, v in N.items() if isinstance(k, tuple) and k[0] == PY and isinstance(v, Nat) and v.n.endswith("!")]
        for mod in ctx.repo.modules:
            for k, v in base:
                N.setdefault((mod, k), v)
        crm = ctx.repo.modules[CR]
        own = {st.name for st in crm.tree.body if isinstance(st, (ast.FunctionDef, ast.ClassDef))}
        for st in back.tree.body:
            for n in ([st.name] if isinstance(st, (ast.FunctionDef, ast.ClassDef)) else [t.id for t in st.targets if isinstance(t, ast.Name)] if isinstance(st, ast.Assign) else []):
                if n not in own and (CR, n) not in N:
                    N[(CR, n)] = Lazy(self, back, n)
        self.seals = []
        N[("monero_glue.compat.utils", "memcpy")] = Nat(self.copy)
        for n in ("unimport_begin", "unimport_end"):
            N[("monero_glue.compat.utils", n)] = Nat(lambda *a, **k: None)
        N[("monero_glue.protobuf", "dump_message")] = Nat(self.message)
        N[("monero_glue.xmr.enc.chacha_poly", "encrypt_pack")] = Nat(self.seal)
        N[("monero_glue.xmr.ring_ct", "prove_range_bp_batch")] = Nat(self.prove)
        N[("monero_glue.xmr.ring_ct", "verify_bp")] = Nat(lambda *a, **k: True)
        N[("monero_glue.hwtoken.misc", "parse_msg")] = Nat(lambda *a, **k: self.prove(None, None))

    # ---------------------------------------------------------------- collaborators
    def copy(self, dst, dof, src, sof, n):
        if dst is None:
            return dst
        b, off, size = (dst, 0, len(dst.t)) if isinstance(dst, BS) else (dst.b, dst.off, dst.n)
        t = self.toks(src)[sof:sof + n]
        if len(t) < n or dof + n > size:
            raise Raised(Exc("IndexError", "copy past the end"), self.where)
        b.t[off + dof:off + dof + n] = t
        return dst

    def content_of(self, x, d=0):
        if d > 8:
            return "..."
        if isinstance(x, (Obj, Rec)):
            return tuple(sorted((k, self.content_of(v, d + 1)) for k, v in x.d.items()))
        if isinstance(x, (BS, View, bytes)):
            return tuple(self.toks(x))
        if isinstance(x, (list, tuple)):
            return tuple(self.content_of(y, d + 1) for y in x)
        return repr(x)

    def message(self, writer, msg, *a, **k):
        self.call(self.getattr(writer, "awrite"), [BS([(intern(("message", self.content_of(msg))), 0)])])

    def seal(self, key, plain, *a, **k):
        self.seals.append(self.toks(plain))
        return BS(tok(("sealed", len(self.seals)), 16 + len(self.toks(plain))))

    def prove(self, amounts, masks, *a, **k):
        key = lambda n: BS(tok(("proof", n)))
        return Rec("proof", **{n: key(n) if n not in "LR" else [key(n + str(i)) for i in range(6)] for n in ("A", "S", "T1", "T2", "taux", "mu", "L", "R", "a", "b", "t")})

    EXT = {"EcdhTuple": lambda m, **k: Rec("EcdhTuple", **k), "TxExtraAdditionalPubKeys": lambda m, data=None, **k: Rec("additional", data=data),
           "MemoryReaderWriter": lambda m, *a, **k: Rec("buffer", out=[]), "Archive": lambda m, rw=None, *a, **k: Rec("archive", rw=rw)}

    def call(self, f, args, kw=None):
        if isinstance(f, Stub):
            return True
        if isinstance(f, Opq):
            if f.n.endswith("hmac.compare_digest"):
                return self.toks(args[0]) == self.toks(args[1])
            g = self.EXT.get(f.n.rsplit(".", 1)[-1])
            if g is not None:
                return g(self, *args, **(kw or {}))
        return CM.call(self, f, args, kw)

    def variant(self, rw, elem, *a, **k):
        if not (isinstance(elem, Rec) and elem.kind == "additional"):
            raise Broken("serialisation of %r at %s" % (elem, self.where))
        keys = [self.toks(x) for x in self.iterate(elem.d["data"])]
        rw.d["out"] += [4, len(keys)] + sum(keys, [])

    # ---------------------------------------------------------------- values
    def enc(self, v):
        """small constants and scalars read from short byte strings keep their bytes"""
        if isinstance(v, SV):
            if not v.p.syms():
                return list((const_of(v.p) % (1 << 256)).to_bytes(32, "little"))
            raw = self.raw.get(v.p)
            if raw is not None:
                return list(raw)
        return CM.enc(self, v)

    def scalar(self, t, reduce):
        v = CM.scalar(self, t, reduce)
        t = list(t)[:32]
        if t[31] == 0 and v.p.syms():
            self.raw[v.p] = t
        return v

    def getattr(self, o, a):
        if isinstance(o, Stub):
            return Nat(lambda *x, **k: BS(tok((o.n, a)))) if "digest" in a else Nat(lambda *x, **k: True)
        if isinstance(o, Rec):
            if o.kind == "buffer" and a == "get_buffer":
                return Nat(lambda: BS(o.d["out"]))
            if o.kind == "archive" and a == "variant":
                return Nat(lambda *x, **k: self.variant(o.d["rw"], *x, **k))
            if a in o.d:
                return o.d[a]
            raise Raised(Exc("AttributeError", a), self.where)
        if isinstance(o, bytes) and a == "join":
            return Nat(lambda l: BS(sum([self.toks(x) + self.toks(o) for x in self.iterate(l)], [])) if not o else self.fail("Broken", ""))
        if isinstance(o, BS) and a in ("append", "extend"):
            return Nat(lambda v: o.t.extend([v] if a == "append" else self.toks(v)))
        if isinstance(o, BS) and a == "hex":
            return Nat(lambda: "text")
        if isinstance(o, set):
            if a in ("add", "discard", "remove"):
                return Nat(lambda v: getattr(o, a)(hkey(v)))
        if isinstance(o, dict) and a in ("get", "pop", "setdefault"):
            return Nat(lambda k, *x: getattr(o, a)(hkey(k), *x))
        return CM.getattr(self, o, a)

    def assign(self, t, v, env):
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Rec):
                o.d[t.attr] = v
                return
            if isinstance(o, Stub):
                return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(o, dict):
                o[hkey(self.index(t.slice, env))] = v
                return
        return CM.assign(self, t, v, env)

    def item(self, o, i):
        if isinstance(o, dict):
            i = hkey(i)
        if isinstance(o, bytes) and isinstance(i, slice):
            return o[i]
        return CM.item(self, o, i)

    def truth(self, v):
        if isinstance(v, (Rec, Stub)):
            return True
        return CM.truth(self, v)

    def cmp(self, op, a, b):
        if op in ("In", "NotIn"):
            if isinstance(b, (set, dict)):
                return (hkey(a) in b) == (op == "In")
            if isinstance(b, (list, tuple)):
                return any(self.cmp("Eq", a, x) for x in b) == (op == "In")
        if op in ("Is", "IsNot"):
            return (a is b or isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a == b) == (op == "Is")
        if op in ("Eq", "NotEq"):
            if isinstance(a, Opq) and isinstance(b, Opq):
                return (a.n == b.n) == (op == "Eq")
            by = (BS, View, bytes)
            if isinstance(a, by) != isinstance(b, by) and not isinstance(a, Obj) and not isinstance(b, Obj):
                return op == "NotEq"
        return CM.cmp(self, op, a, b)

    def binop(self, op, a, b):
        if op == "BitXor" and (isinstance(a, tuple) or isinstance(b, tuple)):
            return xor(a, b)
        if op == "Add" and isinstance(a, (BS, View, bytes)) and isinstance(b, (BS, View, bytes)):
            return BS(self.toks(a) + self.toks(b), getattr(a, "mutable", False))
        if op == "Mult" and isinstance(a, bytes) and isinstance(b, int):
            return a * b
        if op == "Mod" and isinstance(a, str):
            return "text"
        return CM.binop(self, op, a, b)

    def frozen_key(self, v):
        import hashlib
        return hashlib.sha256(repr(hkey(v)).encode()).hexdigest()

    def e_Set(self, n, env):
        return {hkey(x) for x in self.elts(n, env)}

    def e_SetComp(self, n, env):
        r = set()
        self.comp(n, env, lambda e: r.add(hkey(self.ev(n.elt, e))))
        return r

    def e_Dict(self, n, env):
        return {hkey(self.ev(k, env)): self.ev(v, env) for k, v in zip(n.keys, n.values)}


def hkey(v):
    if isinstance(v, (BS, View)):
        return ("bytes",) + tuple(v.t if isinstance(v, BS) else v.b.t[v.off:v.off + v.n])
    if isinstance(v, (bytes, bytearray)):
        return ("bytes",) + tuple(v)
    if isinstance(v, (tuple, list)):
        return tuple(hkey(x) for x in v)
    return v


def parts(x):
    if isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and x[0][0] == "xor":
        return set(x[0][1])
    return {x} if x != 0 else set()


def xor(a, b):
    """exclusive or of two bytes: equal ones cancel"""
    s = parts(a) ^ parts(b)
    n = 0
    for x in [x for x in s if isinstance(x, int)]:
        n ^= x
        s.discard(x)
    if n:
        s.add(n)
    if not s:
        return 0
    if len(s) == 1:
        return next(iter(s))
    return (("xor", frozenset(s)), 0)


# -------------------------------------------------------------------- wallets
class Wallet(object):
    """view secret, spend key of the address, and how its view key is published"""
    def __init__(self, name, a, spend, view, sub):
        self.name, self.a, self.spend, self.view, self.sub = name, a, spend, view, sub


def wallets(m, account):
    W = {}
    for n in "AB":
        a = sym("a" + n)
        W[n] = Wallet(n, a, Pt.sym("B" + n), G.mul(a), False)
    for n in "CD":
        a = sym("a" + n)
        W[n] = Wallet(n, a, Pt.sym("D" + n), Pt.sym("D" + n).mul(a), True)
    v, s = sym("v"), sym("s")
    spend = G.mul(s)
    if account:
        spend = spend + G.mul(m.scalar(m.hash(m.packed("<7sb32sLL", [b"SubAddr", 0, BS(m.enc(SV(v, True))), account, 0])), True).p)
    W["M"] = Wallet("M", v, spend, spend.mul(v) if account else G.mul(v), bool(account))
    return W


class Session(object):
    """one signing session: destinations in order, mode, payment id"""
    def __init__(self, ctx, b, dests, bp, client, pid, account):
        self.ctx, self.b, self.dests, self.bp, self.client, self.pid, self.account = ctx, b, dests, bp, client, pid, account
        m = self.m = TX(ctx, b.module)
        self.W = wallets(m, account)
        self.det = bp >= 2 or client > 0
        self.amount = [100000007 + 1000003 * k for k in range(len(dests))]
        self.error = self.where = None

    def cls(self, name, **kw):
        r = self.ctx.repo.resolve("monero_glue.messages", name)
        if r is None or r[0] != "class":
            raise Broken("anchor vanished: message %s" % name)
        return self.m.new(r[1], [], kw)

    def key(self, p):
        return BS(self.m.enc(PV(p)))

    def entry(self, n, amount):
        w = self.W[n]
        addr = self.cls("MoneroAccountPublicAddress", spend_public_key=self.key(w.spend), view_public_key=self.key(w.view))
        return self.cls("MoneroTransactionDestinationEntry", amount=amount, addr=addr, is_subaddress=w.sub)

    def step(self, name, *args):
        f = self.m.getattr(self.builder, name)
        return self.m.call(f, list(args))

    def run(self):
        try:
            self.session()
        except Raised as e:
            self.error, self.where = e.args[0].n, e.args[1]
        self.ctx.funcs |= self.m.funcs
        return self

    def session(self):
        m, ctx = self.m, self.ctx
        mk = lambda k, v: self.b.make(m, k, v)
        creds = Rec("creds", view_key_private=mk("s", sym("v")), spend_key_private=mk("s", sym("s")), view_key_public=mk("p", G.mul(sym("v"))), spend_key_public=mk("p", G.mul(sym("s"))))
        ci = ctx.func(BUILDER)
        bd = self.builder = m.new(ci, [], {"trezor": Rec("token", iface=Stub("iface")), "creds": creds})
        need(bd, "state", "tx_prefix_hasher", "full_message_hasher", "inp_idx", "summary_inputs_money", "sumpouts_alphas")
        for a in ("state", "tx_prefix_hasher", "full_message_hasher"):
            bd.d[a] = Stub(a)
        outs = [self.entry(n, x) for n, x in zip(self.dests, self.amount)]
        chg = self.entry("M", self.amount[self.dests.index("M")]) if "M" in self.dests else None
        pid = None if self.pid is None else BS(tok("payment id", self.pid), True)
        td = self.request(outs, chg, pid)
        ack = self.step("init_transaction", td)
        hm = self.field(ack, "hmacs")
        bd.d["inp_idx"] = 1
        bd.d["summary_inputs_money"] = sum(self.amount) + 77
        bd.d["sumpouts_alphas"] = mk("s", sym("alphas"))
        self.step("all_in_set")
        self.outs = []
        for k, d in enumerate(outs):
            late = len(outs) > 2 and k + 1 == len(outs)           # the host makes the range proof of more than two outputs
            ack = self.step("set_output", d, m.item(hm, k), self.proof() if late and not self.det else None)
            self.outs.append({f: m.toks(self.field(ack, f)) for f in ("tx_out", "out_pk", "ecdh_info")})
            if late and self.det:
                self.step("set_output", None, None, self.proof(), True)
        ack = self.step("all_out1_set")
        self.extra = m.toks(self.field(ack, "extra"))
        self.step("final_msg")

    def request(self, outs, chg, pid):
        rs = self.cls("MoneroTransactionRsigData")
        rs.d.update(rsig_type=3, bp_version=self.bp, grouping=[len(outs)])
        td = self.cls("MoneroTransactionData")
        td.d.update(version=0, payment_id=pid, unlock_time=0, outputs=outs, change_dts=chg, num_inputs=2, mixin=10, fee=77, account=self.account, minor_indices=[],
                    client_version=self.client, rsig_data=rs)
        return td

    def proof(self):
        rs = self.cls("MoneroTransactionRsigData")
        rs.d.update(rsig=BS(tok("proof of the host", 64)))
        return rs

    def field(self, msg, f):
        if not isinstance(msg, Obj):
            raise Broken("anchor vanished: answer with %s" % f)
        return self.m.getattr(msg, f)

    # ---------------------------------------------------------------- the transaction as others see it
    def val(self, t):
        """value of 32 published bytes"""
        t = list(t)
        if len(t) == 32 and all(isinstance(x, int) for x in t):
            return SV(num(int.from_bytes(bytes(t), "little")), True)
        if len(t) != 32 or not all(isinstance(x, tuple) for x in t):
            return None
        return VALUES.get(self.m.whole(t)) if all(x == (t[0][0], i) for i, x in enumerate(t)) else None

    def hs(self, t):
        return self.m.scalar(self.m.hash(list(t)), True).p

    def dscalar(self, D, i):
        return self.hs(self.m.enc(PV(D)) + [(intern(("varint", repr(i))), 0)])

    def parse(self):
        """fields of the extra: (tag, content) or None"""
        t, out = list(self.extra), []
        while t:
            if t[0] == 1 and len(t) >= 33:
                out.append((1, t[1:33]))
                t = t[33:]
            elif t[0] == 2 and len(t) >= 2 and isinstance(t[1], int) and len(t) >= 2 + t[1]:
                out.append((2, t[2:2 + t[1]]))
                t = t[2 + t[1]:]
            elif t[0] == 4 and len(t) >= 2 and isinstance(t[1], int) and len(t) >= 2 + 32 * t[1]:
                out.append((4, [t[2 + 32 * k:34 + 32 * k] for k in range(t[1])]))
                t = t[2 + 32 * t[1]:]
            else:
                return None
        return out


def need(o, *names):
    for n in names:
        if n not in o.d:
            raise Broken("anchor vanished: attribute %s of the builder" % n)


def label(s):
    return "%s: outputs %s%s%s%s" % (s.b.name, "".join(s.dests), {2: ", v2", 1: ", v1"}[s.bp], "" if s.client else ", host masks", {None: "", 8: ", short id", 32: ", long id"}.get(s.pid, ", id of %s bytes" % s.pid)) + (
        ", account %d" % s.account if s.account else "")


def judge(ctx, s):
    m, W, n = s.m, s.W, len(s.dests)
    where = BUILDER + ".set_output"
    others = [x for i, x in enumerate(s.dests) if x != "M" and x not in s.dests[:i]]
    L = label(s)
    if s.pid not in (None, 8, 32) or s.pid == 8 and len(others) > 1:
        ctx.check("payment id", L, s.error is not None, "a payment id %s is accepted" % ("of %d bytes" % s.pid if s.pid not in (8, 32) else "for one recipient with several recipients"), BUILDER + ".init_transaction")
        return
    if s.error is not None:
        if not others:
            return                  # nobody but the sender: refusing is no loss of an output
        ctx.check("found", L, False, "the session ends with %s at %s" % (s.error, s.where), where)
        return
    fs = s.parse()
    if fs is None:
        ctx.check("extra", L, False, "the extra field cannot be parsed: %r" % (s.extra[:70],), BUILDER + ".all_out1_set")
        return
    tags = [t for t, _ in fs]
    add = next((c for t, c in fs if t == 4), [])
    ctx.check("extra", L, tags.count(1) == 1 and tags.count(2) <= 1 and tags.count(4) <= 1 and (not add or len(add) == n), "the extra field holds tags %s with %d additional keys for %d outputs" % (tags, len(add), n), BUILDER + ".all_out1_set")
    R = s.val(next((c for t, c in fs if t == 1), []))
    A = [s.val(x) for x in add]
    if not isinstance(R, PV) or not all(isinstance(x, PV) for x in A):
        ctx.check("extra", L + " keys", False, "the transaction keys in the extra field are no points", BUILDER + ".all_out1_set")
        return
    for k, (name, o) in enumerate(zip(s.dests, s.outs)):
        w = W[name]
        what = "%s #%d" % (L, k)
        P = s.val(o["tx_out"][2:])
        ctx.check("published", what, o["tx_out"][:2] == [0, 2] and isinstance(P, PV) and o["out_pk"][:32] == o["tx_out"][2:], "the output is %s..., its key entry %s..." % (o["tx_out"][:3], o["out_pk"][:1]), where)
        if not isinstance(P, PV):
            continue
        cand = [R.p.mul(w.a).mul(P8)] + ([A[k].p.mul(w.a).mul(P8)] if len(A) == n else [])
        found = [D for D in cand if P.p - G.mul(s.dscalar(D, k)) == w.spend]
        ctx.check("found", what, bool(found), "the one-time key of the output for %s is not the one its recipient derives from the published transaction keys" % kind(w), where)
        if not found:
            continue
        D = found[0]
        key = s.dscalar(D, k)
        ek = m.enc(SV(key, True))
        e = o["ecdh_info"]
        C = s.val(o["out_pk"][32:])
        amount = SV(num(s.amount[k]), True)
        if s.bp >= 2:
            okl = len(e) == 8
            got = [xor(x, y) for x, y in zip(e, m.hash(list(b"amount") + ek))]
            mask = s.hs(list(b"commitment_mask") + ek)
            oka = okl and got == m.enc(amount)[:8]
        else:
            okl = len(e) == 64
            h1 = s.hs(ek)
            h2 = s.hs(m.enc(SV(h1, True)))
            ma, am = s.val(e[:32]), s.val(e[32:])
            oka = okl and isinstance(am, SV) and am.p - h2 == amount.p
            mask = ma.p - h1 if isinstance(ma, SV) else None
        ctx.check("amount", what, oka, "the recipient decodes another amount", where)
        ctx.check("mask", what, isinstance(C, PV) and mask is not None and C.p == G.mul(mask) + H.mul(amount.p), "the mask the recipient decodes does not open the commitment %r" % (C,), where)
        if isinstance(C, PV) and mask is not None and oka:
            decode(ctx, s, k, what, key, amount, mask)
    # payment id
    nonce = next((c for t, c in fs if t == 2), None)
    pid = tok("payment id", s.pid) if s.pid else [0] * 8
    if s.pid == 32:
        ctx.check("payment id", L, nonce == [0] + pid, "the long payment id is published as %r" % (nonce and nonce[:3],), BUILDER + ".init_transaction")
    elif len(others) == 1:
        w = W[others[0]]
        pad = m.hash(m.enc(PV(R.p.mul(w.a).mul(P8))) + [0x8d])
        ok = nonce is not None and len(nonce) == 9 and nonce[0] == 1 and [xor(x, y) for x, y in zip(nonce[1:], pad)] == pid
        if s.pid or nonce is not None:
            ctx.check("payment id", L, ok, "the recipient does not decrypt the payment id from %r" % (nonce and nonce[:3],), BUILDER + ".init_transaction")
    # private keys handed out sealed
    want = []
    if len(s.m.seals) == 1 and len(s.m.seals[0]) == 32 * (1 + len(add)):
        t = s.m.seals[0]
        want = [s.val(t[32 * i:32 * i + 32]) for i in range(1 + len(add))]
    ok = len(want) == 1 + len(add) and all(isinstance(x, SV) for x in want)
    if ok:
        bases = [G] + [W[x].spend for x in s.dests]
        ok = any(b.mul(want[0].p) == R.p for b in bases) and all(A[k].p in (G.mul(want[1 + k].p), W[s.dests[k]].spend.mul(want[1 + k].p)) for k in range(len(A)))
        fresh = [x.p for x in want]
        ok = ok and len({repr(p) for p in fresh}) == len(fresh) and all(len(p.syms()) == 1 and all(q.startswith("draw") for q in p.syms()) for p in fresh)
    ctx.check("private keys", L, ok, "the sealed private keys are not, in order, those of the transaction key and the additional keys, each freshly drawn", BUILDER + ".final_msg")


def decode(ctx, s, k, what, key, amount, mask):
    """the wallet code of this repository reads the output back"""
    m = s.m
    e = [s.outs[i]["ecdh_info"] for i in range(len(s.outs))]
    rv = Rec("rv", ecdhInfo=[Rec("EcdhTuple", mask=BS(x[:32] if len(x) == 64 else [0] * 32, True), amount=BS(x[32:] if len(x) == 64 else x + [0] * 24, True)) for x in e],
             outPk=[Rec("CtKey", dest=BS(o["out_pk"][:32]), mask=BS(o["out_pk"][32:])) for o in s.outs])
    f = "monero_glue.xmr.monero:ecdh_decode_simple"
    try:
        r = m.call(m.module_name(ctx.repo.modules["monero_glue.xmr.monero"], "ecdh_decode_simple"), [rv, s.b.make(m, "s", SV(key, True)), k, s.bp >= 2])
        v = [s.b.read(m, x) for x in r]
        ok = len(v) == 2 and all(isinstance(x, SV) for x in v) and v[0].p == amount.p and v[1].p == mask
        msg = "the repository's own decoding gives %r" % (v,)
    except Raised as x:
        ok, msg = False, "the repository's own decoding fails with %s" % x.args[0].n
    ctx.funcs |= m.funcs
    ctx.check("decode", what, ok, msg, f)


def kind(w):
    return "the account itself" if w.name == "M" else "a subaddress" if w.sub else "a standard address"


def lists(n):
    for k in range(1, n + 1):
        for d in itertools.product("ABCDM", repeat=k):
            if "B" in d and ("A" not in d or d.index("A") > d.index("B")) or "D" in d and ("C" not in d or d.index("C") > d.index("D")) or d.count("M") > 1:
                continue            # renamed recipients
            yield list(d)


def run(ctx):
    ctx.rule("found", "every one-time key is the one the recipient derives from the published transaction keys, the position and its own keys")
    ctx.rule("published", "the output and its key entry publish one key")
    ctx.rule("amount", "the recipient decodes the amount of the destination")
    ctx.rule("mask", "the mask the recipient decodes opens the commitment to the amount")
    ctx.rule("decode", "the decoding of this repository gives the same amount and mask")
    ctx.rule("extra", "the extra field holds one transaction key and, when present, one additional key per output")
    ctx.rule("payment id", "the payment id reaches its single recipient: short ones encrypted for it, others published as given; several recipients are refused")
    ctx.rule("private keys", "the sealed private keys are those of the published keys, in order, each freshly drawn")
    deep = ctx.tier == "thorough"
    n, late = 0, []
    for mod in ((TR, PY) if deep else (TR,)):
        b = Backend(ctx, mod)
        for d in lists(4 if deep else 3):
            for bp, client, pid, acc in [(2, 1, None, 0), (2, 1, 8, 0), (2, 1, 32, 1), (1, 1, None, 0), (1, 0, None, 0)] + ([(2, 1, 7, 0), (2, 0, 8, 1)] if len(d) < 3 else []):
                n += 1
                if len(late) > 20:
                    continue
                try:
                    judge(ctx, Session(ctx, b, d, bp, client, pid, acc).run())
                except Broken as e:
                    late.append(str(e))
    ctx.count("sessions", n)
    if late:
        raise Broken("; ".join(sorted(set(late))[:3]))
    ctx.floor("found", 100)
    ctx.floor("payment id", 20)
