"""C21 - an output is attributed to the wallet only after its one-time key was recomputed and compared."""
from tsx import *
from engine import Interp, mk_sub, mk_len
from algebra import Alg, items, short, text, padd

M = "monero_glue.xmr.monero"
OP = [r"monero_glue\.xmr\.(crypto|core\.)", r"xmrserialize"]
G = Alg.G
ONE = {(): 1}
HELPERS = [M + ":generate_key_image_helper_precomp"]
P = lambda n: mk("param", n)


class Keys(Alg):
    """adds the key derivation vocabulary: Hs(D || i) and the subaddress secret are opaque scalars"""
    def _sc(self, t):
        n, a = short(t), t.args[1:] if t.op == "call" else ()
        if t.op == "call":
            if n == "derivation_to_scalar":
                return {(mk("hsd", self.deep(a[0]), self.deep(a[1])),): 1}
            if n == "derive_secret_key":
                return padd({(mk("hsd", self.deep(a[0]), self.deep(a[1])),): 1}, self.sc(a[2]))
            if n == "get_subaddress_secret_key" and len(a) >= 3:
                return {(mk("sub", self.deep(a[0]), self.deep(a[1]), self.deep(a[2])),): 1}
        return Alg._sc(self, t)

    def _pt(self, t):
        n, a = short(t), t.args[1:] if t.op == "call" else ()
        if t.op == "call" and n == "derive_public_key":
            return self.lin(({(mk("hsd", self.deep(a[0]), self.deep(a[1])),): 1}, {G: ONE}), (ONE, self.pt(a[2])))
        return Alg._pt(self, t)


def canon(p):
    return {b: items(c) for b, c in p.items() if c}


def machine(ctx, extra=()):
    return Interp(ctx.repo, opaque=OP + list(extra), limit=400)


def named(f, *names):
    """the parameters of f, called by the given names whatever the source calls them"""
    real = [a.arg for a in f.node.args.args]
    return dict(zip(real, [P(n) for n in names])), [P(n) for n in names]


def outcomes(ctx, it, f, args):
    outs = it.run(f, args=args)
    ctx.used(it)
    for o in outs:
        if o.kind == "return":
            yield o, (it.resolve(o.value, o.state) if o.value is not None else NONE), [it.resolve(x, o.state) for x in o.state.facts]


def atoms(facts):
    for x in facts:
        if x.op in ("t", "f"):
            a, pos = x.args[0], x.op == "t"
            while a.op == "not":
                a, pos = a.args[0], not pos
            yield a, pos


def looked(facts, table):
    """(key, found?) of every lookup in the table of own subaddresses"""
    for a, pos in atoms(facts):
        if a.op == "in" and a.args[1] is table:
            yield a.args[0], pos
            continue
        g = a
        if a.op == "is" and any(y is NONE for y in a.args):
            g, pos = next((y for y in a.args if y is not NONE), a), not pos
        if lookup_key(g, table) is not None and g.op == "mcall":
            yield lookup_key(g, table), pos


def lookup_key(t, table):
    """the key with which t was read from the table"""
    if t.op == "sub" and t.args[0] is table:
        return t.args[1]
    if t.op == "mcall" and t.args[0] == "get" and t.args[1] is table:
        return t.args[2]
    return None


def empty(facts, l):
    if truth(facts, "==", mk_len(l), const(0)) is True or truth(facts, "<=", mk_len(l), const(0)) is True:
        return True
    for a, pos in atoms(facts):
        if a is l and not pos or a.op == "is" and l in a.args and any(y is NONE for y in a.args) and pos:
            return True
    return False


def pair(v, i):
    return v.args[i] if v.op == "tuple" and i < len(v.args) else None


def scan(ctx, f, it, outs, subs, out, idx, want, adds, what):
    """want: name -> derivation; outs: (outcome, (index, derivation) or None, facts)"""
    al = Keys()
    key = {k: al.enc(al.lin((ONE, al.pt(out)), (padd({}, {(mk("hsd", al.deep(d), al.deep(idx)),): 1}, -1), {G: ONE}))) for k, d in want.items()}
    seen = set()
    for o, v, facts in outs:
        known = [(al.by(k), p) for k, p in looked(facts, subs)]
        if v is None:
            no = [k for k, p in known if not p]
            ctx.check("found", "%s: 'not mine' is said only after the transaction key was tried" % what, key["transaction key"] in no, "the lookup with the transaction key did not fail on this path", f.fid)
            ctx.check("found", "%s: 'not mine' is said only after the additional key was tried" % what, key["additional key"] in no or empty(facts, adds), "additional keys exist but the lookup with the output's own one did not fail on this path", f.fid)
            continue
        i, d = v
        k = lookup_key(i, subs) if i is not None else None
        hit = [n for n, w in want.items() if k is not None and al.by(k) == key[n]]
        ctx.check("recompute", "%s looks up out_key - Hs(D, i)G" % what, bool(hit), "the owner is determined from %s" % (show(k if k is not None else i, lim=14)[:260] if i is not None else "an unexpected result"), f.fid)
        if hit:
            seen.add(hit[0])
            ctx.check("recompute", "%s: the %s result is one found in the table" % (what, hit[0]), (key[hit[0]], True) in known, "membership is not established", f.fid)
            ctx.check("recompute", "%s: the derivation used with the %s is the one that matched" % (what, hit[0]), d is want[hit[0]], "uses %s" % (show(d, lim=8)[:160] if d is not None else None), f.fid)
            if hit[0] == "additional key":
                ctx.check("recompute", "%s: the transaction key has precedence" % what, (key["transaction key"], False) in known, "the additional key is used without trying the transaction key", f.fid)
    for n in want:
        ctx.check("found", "%s recognises outputs through the %s" % (what, n), n in seen, "no such path", f.fid)


def receive(ctx):
    f = ctx.func(M + ":is_out_to_acc_precomp")
    args, (subs, out, der, adds, idx) = named(f, "subaddresses", "out_key", "derivation", "additional_derivations", "output_index")
    it = machine(ctx)
    outs = []
    for o, v, facts in outcomes(ctx, it, f, args):
        outs.append((o, None if v is NONE else (pair(v, 0), pair(v, 1)), facts))
    scan(ctx, f, it, outs, subs, out, idx, {"transaction key": der, "additional key": mk_sub(adds, idx)}, adds, f.qual)


def zero_index(facts, ri):
    """is the received index (0, 0)?  None: contradictory path"""
    t = {}
    for a, pos in atoms(facts):
        if a.op == "eq" and ri in a.args:
            o = next((y for y in a.args if y is not ri), ri)
            if o.op == "tuple" and all(is_const(x) and cval(x) == 0 for x in o.args):
                t["whole"] = pos
            if is_const(o) and cval(o) == (0, 0):
                t["whole"] = pos
    for k in (0, 1):
        z = truth(facts, "==", mk_sub(ri, const(k)), const(0))
        if z is not None:
            t[k] = z
    parts = t.get(0) and t.get(1)
    if "whole" in t:
        if t["whole"] is False and parts or t["whole"] is True and (t.get(0) is False or t.get(1) is False):
            return None
        return t["whole"]
    if parts:
        return True
    if t.get(0) is False or t.get(1) is False:
        return False
    return None if False else "unknown"


def spend(ctx):
    f = ctx.func(M + ":generate_key_image_helper_precomp")
    args, (ack, out, der, idx, ri) = named(f, "ack", "out_key", "recv_derivation", "real_output_index", "received_index")
    it = machine(ctx)
    spendings(ctx, f, outcomes(ctx, it, f, args), ack, out, lambda o, v, facts: (der, ri), idx, f.qual)


def spendings(ctx, f, outs, ack, out, owner, idx, what):
    seen = set()
    for o, v, facts in outs:
        al = Keys()
        der, ri = owner(o, v, facts)
        z = zero_index(facts, ri)
        if z is None:
            continue
        g = lambda n: mk("attr", ack, n)
        multi = not empty(facts, g("multisig_keys"))
        m = {} if z is True else {(mk("sub", al.deep(g("view_key_private")), al.deep(mk_sub(ri, const(0))), al.deep(mk_sub(ri, const(1)))),): 1}
        h = padd({(mk("hsd", al.deep(der), al.deep(idx)),): 1}, m)
        x = padd(h, al.sc(g("spend_key_private")))
        full = al.lin((h, {G: ONE}), (ONE, al.pt(g("spend_key_public")))) if multi else {G: x}
        case = "%s, %s" % ("multisig" if multi else "single signer", "main address" if z is True else "subaddress")
        seen.add(case)
        oks = []
        for a, pos in atoms(facts):
            n = short(a)
            if n == "point_eq" and pos:
                oks.append(a.args[1:3])
            elif n == "ct_equal" and pos:
                oks.append(a.args[1:3])
            elif a.op == "eq" and pos and len(a.args) == 2 and all(short(y) == "encodepoint" for y in a.args):
                oks.append([y.args[1] for y in a.args])
        cmp_ = [next((p for p in pr if p is not out), None) for pr in oks if out in pr]
        ctx.check("compare", "%s (%s): the output's key is recomputed and compared" % (what, case), any(c is not None and canon(al.pt(c)) == canon(full) for c in cmp_),
                  "no comparison of out_key with %s; compared: %s" % (text(canon(full))[:160] if False else ("Hs(D,i)G + B" if multi else "(Hs(D,i)+b)G") + ("" if z is True else " + subaddress term"), [show(c, lim=12)[:200] for c in cmp_ if c is not None]), f.fid)
        xi, ki = pair(v, 0), pair(v, 1)
        ctx.check("secret", "%s (%s): the spending secret is Hs(D, i) + b%s" % (what, case, "" if z is True else " + m"), xi is not None and al.sc(xi) == x, "returns %s" % (show(xi, lim=14)[:260] if xi is not None else None), f.fid)
        want = [canon({mk("hp", e): x}) for e in (al.enc(full), al.enc(al.pt(out)))]
        ctx.check("image", "%s (%s): the key image is x Hp(output key)" % (what, case), ki is not None and canon(al.pt(ki)) in want, "returns %s" % (show(ki, lim=14)[:260] if ki is not None else None), f.fid)
        nz = any(short(a) == "sc_isnonzero" and a.args[1] is g("spend_key_private") and pos for a, pos in atoms(facts)) or any(
            a.op in ("eq0", "eq") and "sc_isnonzero" in show(a, lim=8) and g("spend_key_private") in subterms(a) and not pos for a, pos in atoms(facts))
        ctx.check("watch", "%s (%s): refused without the private spend key" % (what, case), nz, "the spend key may be zero here", f.fid)
    for c in ("single signer, main address", "single signer, subaddress", "multisig, main address", "multisig, subaddress"):
        ctx.check("compare", "%s handles %s" % (what, c), c in seen, "no such path", f.fid)


def derivs(a, key):
    """key derivation of the given transaction key with the private view key"""
    return mk("call", a.args[0], key, a.args[2])


def helper(ctx, dotted, names):
    f = ctx.func(dotted, optional=True)
    if f is None:
        return
    args, (creds, subs, out, R, adds, idx) = named(f, *names)
    it = machine(ctx)
    view = mk("attr", creds, "view_key_private")
    outs = list(outcomes(ctx, it, f, args))
    gd = {x for o, v, facts in outs for t in facts + [v] for x in subterms(t) if short(x) == "generate_key_derivation"}
    fn = next((x.args[0] for x in gd), "crypto.generate_key_derivation")
    want = {"transaction key": mk("call", fn, R, view), "additional key": mk("call", fn, mk_sub(adds, idx), view)}
    al = Keys()
    key = {k: al.enc(al.lin((ONE, al.pt(out)), (padd({}, {(mk("hsd", al.deep(d), al.deep(idx)),): 1}, -1), {G: ONE}))) for k, d in want.items()}

    def owner(o, v, facts):
        for k, p in looked(facts, subs):
            b = al.by(k)
            for n in want:
                if p and b == key[n]:
                    got = [x for t in facts + [v] for x in subterms(t) if x.op == "mcall" and lookup_key(x, subs) is k]
                    return want[n], got[0] if got else mk_sub(subs, k)
        return mk("nobody"), mk("nobody")
    rows = []
    for o, v, facts in outs:
        d, ri = owner(o, v, facts)
        rows.append((o, (ri, d), facts))
    scan(ctx, f, it, rows, subs, out, idx, want, adds, f.qual)
    spendings(ctx, f, outs, creds, out, owner, idx, f.qual)


def table(ctx):
    """every entry of the subaddress table is the recomputed spend key of the index it maps to"""
    f = ctx.func(M + ":compute_subaddresses")
    args, (creds, acc, idxs, subs) = named(f, "creds", "account", "indices", "subaddresses")
    it = machine(ctx)
    n = 0
    sets = []
    for o in it.run(f, args=args):
        pass
    for e in it.events:
        if e.kind == "setitem":
            k = it.resolve(e.args[0], e.state) if e.args else None
            sets.append((it.resolve(k, e.state), it.resolve(e.value, e.state), [it.resolve(x, e.state) for x in e.facts], e))
    ctx.used(it)
    for k, v, facts, e in sets:
        al = Keys()
        a, b = pair(v, 0), pair(v, 1)
        n += 1
        if is_const(v) and isinstance(cval(v), tuple):
            a, b = [const(x) for x in cval(v)]
        good = a is not None and b is not None
        if good:
            za = is_const(a) and cval(a) == 0 or truth(facts, "==", a, const(0)) is True
            zb = is_const(b) and cval(b) == 0 or truth(facts, "==", b, const(0)) is True
            B = al.pt(mk("attr", creds, "spend_key_public"))
            if za and zb:
                w = B
            else:
                w = al.lin((ONE, B), ({(mk("sub", al.deep(mk("attr", creds, "view_key_private")), al.deep(a), al.deep(b)),): 1}, {G: ONE}))
            good = al.by(k) == al.enc(w)
            own = (a is acc or za and truth(facts, "==", acc, const(0)) is True)
            ctx.check("table", "the entry is filed under its own account", own, "filed under account %s" % show(a, lim=6), e.where())
        ctx.check("table", "an entry maps the recomputed spend key to its index", good, "the key %s is mapped to %s" % (show(k, lim=14)[:200], show(v, lim=6)), e.where())
    ctx.check("table", "the table is filled", n > 0, "no entry is ever set", f.fid)


def wallet_scan(ctx):
    f = ctx.func(M + ":check_acc_out_precomp")
    args, (o_, subs, der, adds, idx) = named(f, "tx_out", "subaddresses", "derivation", "additional_derivations", "i")
    it = machine(ctx, [r"monero:is_out_to_acc_precomp$"])
    for o, v, facts in outcomes(ctx, it, f, args):
        st = {k[1]: it.resolve(x, o.state) for k, x in o.state.store.items() if k[0] is o.value or k[0] is v}
        if is_const(st.get("error", NONE)) and cval(st["error"]) is True:
            continue
        r = st.get("received")
        ok = r is not None and short(r) == "is_out_to_acc_precomp" and r.args[1] is subs and r.args[3] is der and r.args[4] is adds and r.args[5] is idx and show(r.args[2], lim=9).find("decodepoint") >= 0 and mk("attr", mk("attr", o_, "target"), "key") in subterms(r.args[2])
        ctx.check("scan", "%s: the verdict is that of the recomputation" % f.qual, ok, "received is %s" % (show(r, lim=10)[:200] if r is not None else None), f.fid)
        m = st.get("money_transfered")
        mine = any(a is r and pos or a.op == "is" and r in a.args and not pos for a, pos in atoms(facts)) if r is not None else False
        ctx.check("scan", "%s: an amount is credited only for own outputs" % f.qual, m is None or is_const(m) and cval(m) == 0 or mine or m.op == "ite", "credits %s" % (show(m, lim=6) if m is not None else None), f.fid)

    f = ctx.func(M + ":scan_output")
    args, ps = named(f, "creds", "tx", "i", "tx_scan_info", "tx_money_got_in_outs", "outs", "multisig")
    creds, tx, i, info, money, outs_, multi = ps
    it = machine(ctx, [r"monero:generate_key_image_helper_precomp$", r"monero:ecdh_decode_rv$"])
    n = 0
    for o, v, facts in outcomes(ctx, it, f, args):
        st = {k[1]: it.resolve(x, o.state) for k, x in o.state.store.items() if k[0] is info}
        if any(a is multi and pos for a, pos in atoms(facts)):
            continue
        n += 1
        rec = mk("attr", info, "received")
        call = next((x for t in st.values() for x in subterms(t) if short(x) == "generate_key_image_helper_precomp"), None)
        ok = call is not None and call.args[1] is creds and call.args[3] is mk_sub(rec, const(1)) and call.args[4] is i and call.args[5] is mk_sub(rec, const(0)) and "decodepoint" in show(call.args[2], lim=9)
        ctx.check("scan", "%s: the spending secret and key image come from the recomputing helper" % f.qual, ok, "in_ephemeral is %s" % show(st.get("in_ephemeral", NONE), lim=10)[:200], f.fid)
        if ok:
            ctx.check("scan", "%s: secret and image are taken in order" % f.qual, st.get("in_ephemeral") is mk_sub(call, const(0)) and st.get("ki") is mk_sub(call, const(1)), "swapped results", f.fid)
            ctx.check("scan", "%s: the output examined is the one with index i" % f.qual, i in subterms(call.args[2]) and tx in subterms(call.args[2]), "examines %s" % show(call.args[2], lim=9)[:160], f.fid)
        m = st.get("mask")
        if m is not None:
            c = next((x for x in subterms(m) if short(x) == "ecdh_decode_rv"), None)
            ctx.check("scan", "%s: a hidden amount is decoded with the matching derivation" % f.qual, c is not None and c.args[2] is mk_sub(rec, const(1)) and c.args[3] is i, "mask is %s" % show(m, lim=9)[:160], f.fid)
    ctx.check("scan", "%s computes key images" % f.qual, n > 0, "no such path", f.fid)


def amounts(ctx):
    f = ctx.func(M + ":ecdh_decode_simple")
    args, (rv, sk, i, v2) = named(f, "rv", "sk", "i", "v2")
    it = machine(ctx)
    n = 0
    for o, v, facts in outcomes(ctx, it, f, args):
        if any(a.op == "is" and NONE in a.args and pos and any("encodeint" in show(y, lim=4) for y in a.args) for a, pos in atoms(facts)):
            continue
        n += 1
        al = Alg()
        amt, mask = pair(v, 0), pair(v, 1)
        good = False
        if amt is not None and mask is not None:
            H = None
            for a, pos in atoms(facts):
                if short(a) == "point_eq" and pos:
                    for p, q in (a.args[1:3], a.args[2:0:-1]):
                        H = next((x for x in subterms(p) if short(x) == "xmr_H"), None)
                        pk = mk("attr", mk_sub(mk("attr", rv, "outPk"), i), "mask")
                        if H is None or pk not in subterms(q):
                            continue
                        if canon(al.pt(p)) == canon(al.lin((al.sc(mask), {G: ONE}), (al.sc(amt), al.pt(H)))) and short(q) == "decodepoint" and q.args[1] is pk:
                            good = True
        ctx.check("amount", "%s: the decoded amount and mask open the output's commitment" % f.qual, good, "returned without comparing mask G + amount H with the commitment of this output", f.fid)
        if good:
            e = mk_sub(mk("attr", rv, "ecdhInfo"), i)
            fields = {x.args[1] for t in (amt, mask) for x in subterms(t) if x.op == "attr" and x.args[0] is e}
            ctx.check("amount", "%s: decodes the entry of this output" % f.qual, "amount" in fields and sk in subterms(amt), "decodes %s" % show(amt, lim=9)[:160], f.fid)
    ctx.check("amount", "%s returns amounts" % f.qual, n > 0, "no such path", f.fid)
    f = ctx.func(M + ":ecdh_decode_rv")
    args, (rv, der, i) = named(f, "rv", "derivation", "i")
    it = machine(ctx, [r"monero:ecdh_decode_simple$"])
    for o, v, facts in outcomes(ctx, it, f, args):
        ok = short(v) == "ecdh_decode_simple" and v.args[1] is rv and v.args[3] is i and short(v.args[2]) == "derivation_to_scalar" and tuple(v.args[2].args[1:3]) == (der, i)
        ctx.check("amount", "%s: amounts are decoded with Hs(D, i)" % f.qual, ok, "returns %s" % show(v, lim=9)[:200], f.fid)


def primitives(ctx):
    """the derivation primitives of the Python backend have their defining form"""
    E = "monero_glue.xmr.core.ec_py"
    low = [r"ec_py:(?!derivation_to_scalar|derive_public_key|derive_secret_key|get_subaddress_secret_key|generate_key_derivation)", r"xmrserialize"]
    for name, want in (("derivation_to_scalar", None), ("derive_secret_key", None), ("derive_public_key", None), ("generate_key_derivation", None), ("get_subaddress_secret_key", None)):
        f = ctx.func(E + ":" + name, optional=True)
        if f is None:
            continue
        args, ps = named(f, "a", "b", "c")[0], [P("a"), P("b"), P("c")]
        it = Interp(ctx.repo, opaque=low, limit=100)
        for o, v, facts in outcomes(ctx, it, f, args):
            al = Alg()
            hs = lambda d, i: next((x for x in subterms(v) if short(x) == "hash_to_scalar"), None)
            h = hs(0, 0)
            if name == "generate_key_derivation":
                ok = canon(al.pt(v)) == canon(al.lin((padd({}, al.sc(ps[1]), 8), al.pt(ps[0]))))
                what = "8 a R"
            elif name == "get_subaddress_secret_key":
                b = show(h.args[1], lim=30) if h is not None else ""
                subs = set(subterms(h)) if h is not None else set()
                ok = v is h and all(p in subs for p in ps) and ("SubAddr" in b)
                order = [x for x in ("SubAddr", "encodeint")]
                what = 'Hs("SubAddr" || a || major || minor)'
                packs = [x for x in subs if x.op in ("pack_into", "pack") or "pack" in str(x.op) or x.op in ("m", "call", "mcall") and "pack" in str(x.args[0])]
                for p in packs:
                    seq = [y for y in p.args if isinstance(y, T)]
                    pos = [next((k for k, y in enumerate(seq) if q in set(subterms(y))), -1) for q in ps]
                    ok = ok and pos == sorted(pos) and -1 not in pos
            else:
                if h is None:
                    ok, what = False, "Hs(D || varint(i))"
                else:
                    by = al.by(h.args[1])
                    # D || varint(i)
                    okh = len(by) == 2 and by[0] in al.enc(al.pt(ps[0])) and by[1].op == "call" and "uvarint" in str(by[1].args[0]) and by[1].args[1] is ps[1]
                    hv = al.sc(h)
                    if name == "derivation_to_scalar":
                        ok, what = okh and al.sc(v) == hv, "Hs(D || varint(i))"
                    elif name == "derive_secret_key":
                        ok, what = okh and al.sc(v) == padd(hv, al.sc(ps[2])), "b + Hs(D || varint(i))"
                    else:
                        ok, what = okh and canon(al.pt(v)) == canon(al.lin((hv, {G: ONE}), (ONE, al.pt(ps[2])))), "B + Hs(D || varint(i)) G"
            ctx.check("primitive", "%s is %s" % (f.qual, what), ok, "it returns %s" % show(v, lim=16)[:300], f.fid)


def users(ctx):
    """nobody computes key images from the bare product except the recomputing helper and the provers"""
    f = ctx.func("monero_glue.xmr.ring_ct:export_key_image")
    it = machine(ctx, [r"monero:generate_key_image_helper$", r"ring_ct:generate_ring_signature$", r"ring_ct:check_ring_singature$"])
    args, (creds, subs, pkey, R, adds, idx, test, verify) = named(f, "creds", "subaddresses", "pkey", "tx_pub_key", "additional", "out_idx", "test", "verify")
    for o, v, facts in outcomes(ctx, it, f, args):
        ki = pair(v, 0)
        c = next((x for x in subterms(v) if short(x) == "generate_key_image_helper"), None)
        ctx.check("use", "%s: the image comes from the recomputing helper" % f.qual, c is not None and tuple(c.args[1:7]) == (creds, subs, pkey, R, adds, idx) and ki is mk_sub(c, const(1)), "returns %s" % show(v, lim=9)[:200], f.fid)
    # the signer's own use
    r = entry(ctx, "input")
    calls = [e for e in r.i.events if e.kind == "call" and e.name.rsplit(":", 1)[-1].rsplit(".", 1)[-1] == "generate_key_image_helper"]
    ctx.check("use", "the signer recomputes the key of every input", bool(calls), "input processing does not call the recomputing helper", BUILDER)


def run(ctx):
    ctx.rule("recompute", "an owner is reported only for the subaddress found under out_key - Hs(D, i)G in the wallet's table, together with the derivation that matched")
    ctx.rule("found", "both the transaction key and the output's own additional key are tried before an output is said to be foreign")
    ctx.rule("compare", "the output's public key is recomputed from the wallet's keys and compared before a spending secret is returned")
    ctx.rule("secret", "the spending secret returned is the discrete logarithm of the recomputed key (or the own share in multisig)")
    ctx.rule("image", "the key image is the spending secret times the hashed output key")
    ctx.rule("watch", "no key image is computed without the private spend key")
    ctx.rule("table", "the table of own subaddresses maps exactly recomputed spend keys to their own index")
    ctx.rule("scan", "wallet scanning reports what the recomputation said, for the output it was asked about")
    ctx.rule("amount", "a decoded amount opens the output's commitment")
    ctx.rule("primitive", "the key derivation primitives have their defining form")
    ctx.rule("use", "key images are exported and inputs are spent only through the recomputing helper")
    ctx.assumptions.append("group arithmetic and hashing of the curve backend (C15); equality of group elements is decided by their normal form")
    receive(ctx)
    spend(ctx)
    six = ("creds", "subaddresses", "out_key", "tx_public_key", "additional_tx_public_keys", "real_output_index")
    helper(ctx, M + ":generate_key_image_helper", six)
    helper(ctx, "monero_glue.xmr.transaction_builder:generate_key_image_ex", six)
    table(ctx)
    wallet_scan(ctx)
    amounts(ctx)
    primitives(ctx)
    users(ctx)
    for r, n in (("recompute", 12), ("found", 8), ("compare", 16), ("secret", 8), ("image", 8), ("watch", 8), ("table", 2), ("scan", 4), ("amount", 3), ("use", 2)):
        ctx.floor(r, n)
