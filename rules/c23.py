"""C23 - the host agent: no device answer is used before it was checked for failure, and nothing the device computed is accepted without the host's own comparison."""
import ast

from tsx import *
from engine import Interp, mk_sub, mk_len, mk_add, Broken

M_ = "monero_glue.agent.agent_lite"
A = M_ + ":Agent"
P_ = "monero_poc.agent:HostAgent"
OP = [r"monero_glue\.xmr\.", r"monero_glue\.misc", r"monero_glue\.compat", r"xmrserialize", r"monero_glue\.messages", r"hwtoken", r"Agent\._get_integrated", r"generate_rsig", r"get_rsig_type"]
TREZOR = mk("attr", SELF, "trezor")
CT = mk("attr", SELF, "ct")
FAILURES = ("TError", "Failure")
LOCAL = ("ping", "close", "session", "reconnect")


def flat(facts):
    for x in facts:
        while x.op == "forall":
            x = x.args[-1]
        yield x


def is_device(t):
    return t.op == "mcall" and t.args[1] is TREZOR and t.args[0] not in LOCAL


def cls_names(c):
    return {str(y).rsplit(":", 1)[-1] for s in subterms(c) for y in s.args if isinstance(y, str)}


def cleared(facts):
    """answers known not to report a failure, and the answers received"""
    kinds, got, ack = {}, set(), set()
    for x in flat(facts):
        if x.op == "done" and is_device(x.args[0]):
            got.add(x.args[0])
        if x.op in "tf" and x.args[0].op == "isinst":
            d, names = x.args[0].args[0], cls_names(x.args[0].args[1])
            if x.op == "f":
                kinds.setdefault(d, set()).update(n for n in FAILURES if n in names)
            elif not names & set(FAILURES) and any(n.endswith("Ack") for n in names):
                ack.add(d)
        if x.op == "f" and x.args[0].op == "or":
            for y in x.args[0].args:
                if y.op == "isinst":
                    kinds.setdefault(y.args[0], set()).update(n for n in FAILURES if n in cls_names(y.args[1]))
    ok = {d for d, k in kinds.items() if len(k) == len(FAILURES)} | ack
    return got, ok


def fields_of(t):
    """the device answers whose fields occur in a term"""
    return {s.args[0] for s in subterms(t) if s.op in ("attr", "sub") and isinstance(s.args[0], type(t)) and is_device(s.args[0])}


def size(f):
    return sum(isinstance(x, ast.stmt) for x in ast.walk(f.node)) - 1


def methods(ctx):
    for c in ctx.repo.all_classes():
        if c.cid == A:
            return c.methods
    raise Broken("the agent class %s is gone" % A)


def talkers(ctx):
    """methods that exchange messages themselves, or through a short helper that hands the raw answer back"""
    ms = methods(ctx)
    raw = {n for n, f in ms.items() if n != "__init__" and any(isinstance(x, ast.Attribute) and x.attr == "trezor" for x in ast.walk(f.node))}
    helpers = {n for n in raw if n.startswith("_") and size(ms[n]) <= 4}
    called = {n: {x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)} for n, f in ms.items()}
    users = set()
    while True:
        new = {n for n in ms if called[n] & (helpers | {u for u in users if u in helpers})}
        more = {n for n in new if n.startswith("_") and size(ms[n]) <= 4}
        if new <= users and more <= helpers:
            break
        users |= new
        helpers |= more
    internal = {n for n in helpers if any(n in called[m] for m in ms if m != n)}
    return sorted((raw | users) - internal), internal


def nothing(it, fi, env, st, node):
    return [(st, NONE)]


def run(ctx):
    failures(ctx)
    hashes(ctx)
    proofs(ctx)
    counts(ctx)
    key_images(ctx)
    poc(ctx)


def ran(ctx, name):
    memo = ctx.__dict__.setdefault("c23_runs", {})
    if name not in memo:
        memo[name] = interp(ctx, name)
    return memo[name]


def interp(ctx, name):
    """one method of the agent, helpers in line; where the payment id comes from is left out (it precedes the exchange and touches no answer)"""
    stub = ctx.func("monero_glue.xmr.sub.tsx_helper:find_tx_extra_field_by_type", optional=True)
    it = Interp(ctx.repo, opaque=OP, limit=4000, stubs={stub.fid: nothing} if stub else {})
    f = ctx.func(A + "." + name)
    names = [a.arg for a in f.node.args.args]
    args = {"multisig": const(False), "exp_tx_prefix_hash": NONE, "use_tx_keys": NONE}
    outs = it.run(f, args={k: v for k, v in args.items() if k in names})
    ctx.used(it)
    return it, outs, f


def failures(ctx):
    ctx.rule("failure", "an answer that reports a failure ends the operation: no field of an answer is read, no further message is sent and nothing is returned before the answer was checked")
    h = ctx.func(A + ".handle_error", optional=True)
    names, internal = talkers(ctx)
    sites = set()
    for n in names:
        it, outs, f = ran(ctx, n)
        for e in it.events:
            if any("is_error" in str(s) or "handle_error" in str(s) for s in (e.stack or ())):
                continue
            terms = [it.resolve(a, e.state) for a in (e.args or ())]
            dev = e.kind == "mcall" and e.base is not None and it.resolve(e.base, e.state) is TREZOR and e.name not in LOCAL
            used = set()
            for t in terms:
                if hasattr(t, "op"):
                    used |= fields_of(t)
            if not dev and not used:
                continue
            got, ok = cleared(e.facts)
            if dev:
                site = "%s: %s" % (f.qual.split(".")[-1], e.name)
                sites.add((e.fn, getattr(e.node, "lineno", 0)))
                ctx.check("failure", "%s sends no further message after an unchecked answer" % site, got <= ok, "the answer to %s was not checked for failure" % tell(got - ok), e.where())
            if used:
                ctx.check("failure", "%s reads only checked answers" % f.qual.split(".")[-1], (used & got) <= ok, "a field of the answer to %s is used before it was checked for failure" % tell((used & got) - ok), e.where())
        for o in outs:
            if o.kind == "return":
                got, ok = cleared(o.state.facts)
                ctx.check("failure", "%s returns after every answer was checked" % f.qual.split(".")[-1], got <= ok, "returns although the answer to %s was never checked for failure" % tell(got - ok), f.fid)
    ctx.check("failure", "every exchange is in reach of the analysis", len(sites) >= 18, "only %d exchanges found" % len(sites), A)
    ctx.count("exchanges", len(sites))
    if h is not None:
        it = Interp(ctx.repo, opaque=OP, limit=50)
        outs = it.run(h)
        for o in outs:
            if o.kind == "return":
                k = set()
                for x in flat(o.state.facts):
                    if x.op == "f" and x.args[0].op == "isinst":
                        k |= cls_names(x.args[0].args[1])
                ctx.check("failure", "the failure check lets only answers pass that report none", set(FAILURES) <= k, "a reported failure passes the check", h.fid)
    ctx.floor("failure", 18)


def tell(ds):
    return ", ".join(sorted({(cls_names(d.args[2]) and sorted(x for x in cls_names(d.args[2]) if x.endswith(("Request", "Address", "Key"))) or [d.args[0]])[0] if len(d.args) > 2 else d.args[0] for d in ds})) or "-"


def object_of(it, t, state):
    t = it.resolve(t, state) if state is not None else t
    while t.op == "mut":
        t = t.args[0]
    return t


def own_equal(facts):
    """pairs known to be equal"""
    for x in flat(facts):
        if x.op != "t":
            continue
        a = x.args[0]
        if a.op == "eq" and len(a.args) == 2:
            yield a.args
        elif a.op in ("call", "icall", "mcall") and str(a.args[0]).split(".")[-1].split(":")[-1] in ("ct_equal", "compare_digest"):
            yield tuple(a.args[-2:])


def from_device(t, *path):
    """`answer.path...`"""
    for p in reversed(path):
        if t.op != "attr" or t.args[1] != p:
            return False
        t = t.args[0]
    return is_device(t)


def call_of(t, name):
    return t.op in ("call", "icall") and str(t.args[0]).split(".")[-1].split(":")[-1] == name


def device_free(t):
    return not any(is_device(s) for s in subterms(t))


def sends(it, e, cls):
    return e.kind == "mcall" and e.base is not None and it.resolve(e.base, e.state) is TREZOR and any(cls in cls_names(it.resolve(a, e.state)) for a in e.args if hasattr(a, "op"))


TX, RV = ("version", "unlock_time", "vin", "vout", "extra"), ("type", "txnFee", "message", "ecdhInfo", "outPk")


def signer(ctx):
    for n in talkers(ctx)[0]:
        it, outs, f = ran(ctx, n)
        if any(sends(it, e, "MoneroTransactionSignInputRequest") for e in it.events):
            return it, outs, f
    raise Broken("no method of the agent requests input signatures")


def hashes(ctx):
    ctx.rule("hash", "before any input signature is requested, the prefix hash, the signed message, the fee and the full message hash named by the device were compared with the host's own, computed over the very transaction that is returned")
    it, outs, f = signer(ctx)
    reqs = [e for e in it.events if sends(it, e, "MoneroTransactionSignInputRequest")]
    q = f.qual.split(".")[-1]
    for e in reqs:
        eqs = [p for a, b in own_equal(e.facts) for p in ((a, b), (b, a))]
        pre = [h for d, h in eqs if from_device(d, "tx_prefix_hash") and call_of(h, "get_transaction_prefix_hash")]
        ctx.check("hash", "%s: the prefix hash is compared with the host's own" % q, bool(pre), "no comparison of the returned prefix hash with the one of the own transaction precedes the signatures", e.where())
        full = [h for d, h in eqs if from_device(d, "full_message_hash") and call_of(h, "get_pre_mlsag_hash")]
        ctx.check("hash", "%s: the full message hash is compared with the host's own" % q, bool(full), "no comparison of the returned message hash with the host's own precedes the signatures", e.where())
        msg = [h for d, h in eqs if from_device(d, "rv", "message") and (h in pre or from_device(h, "tx_prefix_hash") or call_of(h, "get_transaction_prefix_hash"))]
        rvs = [x.args[1] for x in full]
        ctx.check("hash", "%s: the signed message is the prefix hash" % q, bool(msg) or bool(rvs) and all(call_of(v, "get_transaction_prefix_hash") for r in rvs for k, v in (r.args[1] if r.op == "obj" else ()) if k == "message" for v in [v]), "the message the device signs is not compared with the prefix hash", e.where())
        fee = False
        for x in flat(e.facts):
            if x.op == "t" and x.args[0].op == "eq0":
                dev = [y for y, c in x.args[0].args[0] if y is not None and from_device(y, "rv", "txn_fee")]
                rest = [y for y, c in x.args[0].args[0] if y is not None and y not in dev]
                fee = fee or bool(dev) and bool(rest) and all(device_free(y) for y in rest)
        for d, h in eqs:
            fee = fee or from_device(d, "rv", "txn_fee") and device_free(h)
        own = bool(rvs) and all(device_free(v) for r in rvs if r.op == "obj" for k, v in r.args[1] if k == "txnFee" for v in [v]) and any(k == "txnFee" for r in rvs if r.op == "obj" for k, v in r.args[1])
        ctx.check("hash", "%s: the fee is compared with the host's own" % q, fee or own, "the fee named by the device is not compared with the transfer's", e.where())
    # what was hashed is what is returned
    hashed = {"get_transaction_prefix_hash": set(), "get_pre_mlsag_hash": set()}
    for e in it.events:
        n = str(e.name).split(".")[-1].split(":")[-1]
        if e.kind in ("call", "icall") and n in hashed and e.args:
            hashed[n].add(e.args[0])
    rets_ = [o for o in outs if o.kind == "return"]
    ctx.check("hash", "%s returns the transaction" % q, bool(rets_), "never returns", f.fid)

    def same(what, now, seen, names, done):
        seen = [members(x) for x in seen]
        seen = [x for x in seen if done(x)]
        for n in names:
            ctx.check("hash", "%s: `%s` of the %s is unchanged after the comparison" % (q, n, what), n in now and any(x.get(n) is now[n] for x in seen),
                      "the returned %s differs from the compared one in %s" % (what, n), f.fid)
    for o in rets_:
        v = it.resolve(o.value, o.state)
        now = members(v)
        same("transaction", now, hashed["get_transaction_prefix_hash"], TX, lambda x: True)
        ctx.check("hash", "%s: the transaction has inputs and outputs" % q, all(now.get(n) is not None and fields_of(now[n]) or n in now and any(is_device(s) for s in subterms(now[n])) for n in ("vin", "vout")),
                  "the returned transaction lacks the inputs or outputs of the answers", f.fid)
        rv = members(now["rct_signatures"]) if "rct_signatures" in now else {}
        same("ring signature data", rv, hashed["get_pre_mlsag_hash"], RV, lambda x: True)
        if "p" in rv:
            ps = [members(members(x).get("p", NONE)) for x in hashed["get_pre_mlsag_hash"]]
            for n in ("bulletproofs", "rangeSigs"):
                ctx.check("hash", "%s: the range proofs are unchanged after the comparison" % q, any(x.get(n) is members(rv["p"]).get(n) for x in ps), "the returned range proofs differ from the compared ones", f.fid)
    ctx.floor("hash", 16)


def members(t):
    while t.op == "mut":
        t = t.args[0]
    if t.op == "obj" and len(t.args) > 1 and isinstance(t.args[1], tuple):
        return {x[0]: x[1] for x in t.args[1] if isinstance(x, tuple) and len(x) == 2}
    return {}


def equations(facts):
    """known equations, as (term, coefficient) lists"""
    for x in flat(facts):
        if x.op == "t" and x.args[0].op == "eq0":
            yield list(x.args[0].args[0])
        elif x.op == "t" and x.args[0].op == "eq" and len(x.args[0].args) == 2:
            a, b = x.args[0].args
            yield [(None, cval(t) * c) if is_const(t) and isinstance(cval(t), int) else (t, c) for t, c in ((a, 1), (b, -1))]


def accumulated(it, t, state):
    """items put into a container kept in the agent's session data"""
    v = it.resolve(t, state)
    out = []
    if v.op == "mut":
        for p in v.args[1]:
            for s in ([p] if p.op == "i" else [y for y in subterms(p) if y.op == "i"]):
                out.append(s.args[0])
    return out


def proofs(ctx):
    ctx.rule("proof", "a range proof taken from an answer becomes part of the transaction only after the host verified it against the output commitments it belongs to")
    seen = 0
    for n, f in sorted(methods(ctx).items()):
        src = ast.dump(f.node)
        if n == "__init__" or "tx_out_rsigs" not in src and "ver_range" not in src and not ("rsig" in src and "parse_msg" in src):
            continue
        if n == signer(ctx)[2].qual.split(".")[-1]:
            continue
        it, outs, f = ran(ctx, n)
        for o in outs:
            if o.kind != "return":
                continue
            for x in accumulated(it, mk("attr", CT, "tx_out_rsigs"), o.state):
                seen += 1
                own = any(s.op in ("call", "icall") and "prove_range" in str(s.args[0]) for s in subterms(x))
                if own and not any(s.op in ("call", "icall") and "parse_msg" in str(s.args[0]) for s in subterms(x)):
                    continue
                v = [y.args[0] for y in o.state.facts if y.op == "t" and y.args[0].op in ("call", "icall") and any(k in str(y.args[0].args[0]) for k in ("ver_range", "verify_bp", "verify_batch"))]
                hit = [y for y in v if any(strip(s) is strip(x) for a in y.args[1:] for s in subterms(a))]
                ctx.check("proof", "%s: only verified range proofs are kept" % n, bool(hit), "a range proof of the device is kept although the host did not verify it (or ignored the result)", f.fid)
                for y in hit:
                    against(ctx, it, o, f, n, x, y)
    ctx.check("proof", "range proofs of the device are collected", seen > 0, "no range proof is ever collected", A)
    ctx.floor("proof", 4)


def strip(t):
    while t.op == "mut":
        t = t.args[0]
    return t


def against(ctx, it, o, f, n, x, call):
    """the verification covers the commitments of the outputs of this batch"""
    pk = mk("attr", CT, "tx_out_pk")
    args = [a for a in call.args[1:]]
    mode = args[2] if len(args) > 2 else None
    for a in args:
        if a.op == "kw" and a.args[0] == "use_bulletproof":
            mode = a.args[1]
    d = it.decide(mode, o.state) if mode is not None and not is_const(mode) else (cval(mode) if mode is not None else False)
    bp = any("Bulletproof" in str(s.args[0]) for s in subterms(x) if s.op in ("obj", "new"))
    kinds = [d] if d is not None else [True, False]
    if strip(x).op == "param":
        pass
    else:
        ctx.check("proof", "%s: the proof is verified as what it was parsed as" % n, kinds == [bp], "the verification treats the proof as the other kind", f.fid)
    for k in kinds:
        if not k:
            c = args[0] if args else NONE
            last = accumulated(it, pk, o.state)[-1:]
            ok = any(s.op == "attr" and s.args[1] == "mask" and (s.args[0] in last or s.args[0].op == "sub" and strip(s.args[0].args[0]) is pk) for s in subterms(c))
            ctx.check("proof", "%s: an output's own proof is verified against its commitment" % n, ok, "the proof is verified against %s" % show(c, lim=6)[:80], f.fid)
        else:
            v = it.resolve(o.state.store.get((x, "V"), o.state.store.get((strip(x), "V"), NONE)), o.state)
            ok, why = batch(v, pk)
            ctx.check("proof", "%s: a batch proof is verified against the commitments of the batch" % n, ok, why, f.fid)


def batch(v, pk):
    """V is, for the last batch_size outputs in order, the commitment divided by eight"""
    size_ = mk_sub(mk("attr", CT, "rsig_batches"), mk("attr", CT, "cur_batch_idx"))
    reps = [s for s in subterms(v) if s.op == "rep"]
    if not reps:
        return False, "the commitments verified are %s" % show(v, lim=6)[:100]
    r = reps[0]
    var = [s for s in subterms(r) if s.op == "idx" or s.op == "lvar" or str(s).startswith("#")]
    subs = [s for s in subterms(r) if s.op == "sub" and strip(s.args[0]) is pk]
    if not subs:
        return False, "the commitments verified are not those of the outputs"
    if not any(s.op == "attr" and s.args[1] == "mask" and s.args[0] in subs for s in subterms(r)):
        return False, "the proof is not verified against the commitments"
    if r.args[0] is size_:
        idx = subs[0].args[1]
        parts = {show(k, lim=8) if k is not None else None: c for k, c in lin(idx)}
        want = {show(size_, lim=8): -1, show(mk("attr", CT, "cur_output_idx"), lim=8): 1, None: 1}
        tail = {show(size_, lim=8): -1}
        n_ = {show(size_, lim=8): -1, show(mk_len(pk), lim=8): 1}
        rest = {k: c for k, c in parts.items() if k is None or not k.startswith("#")}
        loop = [c for k, c in parts.items() if k is not None and k.startswith("#")]
        if loop == [1] and rest in (want, tail, n_):
            return True, ""
        return False, "the commitment of output %s is used" % show(idx, lim=10)
    return (size_ in set(subterms(r.args[0])), "the number of commitments is %s" % show(r.args[0], lim=6)[:80])


def lin(t):
    if t.op == "lin":
        for k, c in t.args[0]:
            yield from ((k2, c * c2) for k2, c2 in lin(k)) if k is not None and k.op in ("lin", "add") else ((k, c),)
    elif t.op == "add":
        for a in t.args:
            yield from lin(a)
    elif is_const(t):
        yield None, cval(t)
    else:
        yield t, 1


def counts(ctx):
    ctx.rule("count", "an answer with too few or too many items, or items of the wrong size, ends the operation")
    it, outs, f = ran(ctx, "import_outputs")
    for o in outs:
        if o.kind != "return":
            continue
        n = size_ = False
        got = False
        for x in flat(o.state.facts):
            if x.op == "done" and is_device(x.args[0]) and "MoneroKeyImageSyncStepRequest" in cls_names(x.args[0]):
                got = True
        for eq in equations(o.state.facts):
            ls = [y.args[-1] for y, c in eq if y is not None and (y.op == "len" or y.op == "call" and y.args[0] == "len")]
            k = [c for y, c in eq if y is None]
            dev = [y for y in ls if any(s.op == "attr" and s.args[1] == "kis" for s in subterms(y))]
            own = [1 for y, c in eq if y is not None and device_free(y)]
            n = n or bool(dev) and bool(own)
            size_ = size_ or any(any("decrypt" in str(s.args[0]) for s in subterms(y) if s.op in ("call", "icall")) for y in ls) and bool(k) and abs(k[0]) == 96
        v = it.resolve(o.value, o.state)
        some = any(is_device(s) for s in subterms(v))
        ctx.check("count", "key image sync: every output is answered", n or not got, "the number of key images received is not compared with the number of outputs sent", f.fid)
        ctx.check("count", "key image sync: a key image and its signature have the full length", size_ or not some, "the length of a decrypted key image is not checked", f.fid)
    # transaction keys
    k = "_get_tx_key_intern"
    if k not in methods(ctx):
        k = [n for n in talkers(ctx)[0] if "tx_enc_keys" in ast.dump(methods(ctx)[n].node) and n != signer(ctx)[2].qual.split(".")[-1]]
        k = k[0] if k else None
    if k is None:
        raise Broken("no method of the agent asks for transaction keys")
    it, outs, f = ran(ctx, k)
    for o in outs:
        if o.kind == "return":
            whole = any(y is not None and any(s.op == "bin" and s.args[0] in ("%", "Mod") or s.op == "mod" for s in subterms(y)) for eq in equations(o.state.facts) for y, c in eq)
            ctx.check("count", "transaction keys: a whole number of keys", whole, "the length of the decrypted keys is not checked", f.fid)
    # masks handed out for offloaded proofs
    m = [n for n, g in methods(ctx).items() if "rsig_gamma" in ast.dump(g.node) and n not in ("__init__",)]
    j = 0
    for n in m:
        if n == signer(ctx)[2].qual.split(".")[-1]:
            continue
        it, outs, f = ran(ctx, n)
        for o in outs:
            if o.kind != "return":
                continue
            xs = accumulated(it, mk("attr", CT, "rsig_gamma"), o.state)
            cut = [x for x in xs if x.op == "sub" and x.args[1].op == "slice"]
            if cut:
                j += 1
                base = cut[0].args[0]
                ok = any(y is mk_len(base) for eq in equations(o.state.facts) for y, c in eq)
                ctx.check("count", "%s: one mask per output" % n, ok, "the number of masks received is not compared with the number of outputs", f.fid)
    ctx.floor("count", 4)


def key_images(ctx):
    ctx.rule("image", "a key image obtained for one output is returned only after its ring signature for that very output key was verified")
    it, outs, f = ran(ctx, "live_refresh")
    for o in outs:
        if o.kind != "return":
            continue
        ok, why = False, "the ring signature over the key image is not verified"
        for x in o.state.facts:
            a = x.args[0]
            if x.op == "t" and a.op in ("call", "icall") and "check_ring_s" in str(a.args[0]):
                ar = a.args[1:]
                v = it.resolve(o.value, o.state)
                keys = ar[2] if len(ar) > 2 else NONE
                if ar[1] is not v:
                    why = "another value than the verified key image is returned"
                elif not (len(v.args) > 1 and v.op in ("call", "icall") and ar[0] is v.args[1]):
                    why = "the signed message is not the key image"
                elif not (any(s is mk("param", "out_key") for s in subterms(keys)) and device_free(keys)):
                    why = "the key image is not verified for the requested output key"
                elif not fields_of(ar[3]):
                    why = "the signature is not the one of the answer"
                else:
                    ok = True
        ctx.check("image", "live refresh: the key image is verified", ok, why, f.fid)
    ctx.floor("image", 1)


def poc(ctx):
    ctx.rule("wallet", "the command line wallet submits only what a successful signing returned, stores only transactions the device signed, and talks only to the device whose address is the wallet's")
    op = [r"monero_glue\.", r"HostAgent\.(?!sign_unsigned$|check_address$|sign$|_w_)", r"xmrserialize", r"xmrboost"]
    f = ctx.func(P_ + ".sign_unsigned")
    it = Interp(ctx.repo, opaque=op, limit=200)
    outs = it.run(f)
    ctx.used(it)
    n = 0
    for e in it.events:
        if e.kind == "mcall" and e.name == "submit_transfer":
            n += 1
            s = [x.args[0] for x in flat(e.facts) if x.op == "done" and x.args[0].op == "mcall" and x.args[0].args[0] in ("sign_wrap", "sign")]
            sent = [y for a in e.args for y in subterms(it.resolve(a, e.state))]
            ctx.check("wallet", "what is submitted is the result of signing", any(x in sent for x in s), "something else than the signed transactions is submitted", e.where())
            notint = any(x.op == "f" and x.args[0].op == "isinst" and "int" in str(x.args[0].args[1]) and x.args[0].args[0] in s or
                         x.op == "t" and x.args[0].op == "isinst" and "bytes" in str(x.args[0].args[1]) and x.args[0].args[0] in s for x in flat(e.facts))
            ctx.check("wallet", "nothing is submitted after signing failed", notint or any(x.args[0] == "sign" for x in s), "a failed signing is not told apart before submitting", e.where())
    ctx.check("wallet", "signed transactions are submitted", n > 0, "nothing is ever submitted", f.fid)
    # signing failures are told apart
    f = ctx.func(P_ + ".sign_wrap")
    it = Interp(ctx.repo, opaque=op + [r"HostAgent\.sign$"], limit=200)
    outs = it.run(f)
    ctx.used(it)
    for o in outs:
        if o.kind == "return":
            v = it.resolve(o.value, o.state) if o.value is not None else NONE
            good = v.op == "mcall" and v.args[0] == "sign" or is_const(v) and isinstance(cval(v), int)
            ctx.check("wallet", "a failed signing returns an error number", good, "returns %s" % show(v, lim=6)[:80], f.fid)
    # the signed set
    f = ctx.func(P_ + ".sign")
    it = Interp(ctx.repo, opaque=op, limit=400)
    outs = it.run(f)
    ctx.used(it)
    n = 0
    for e in it.events:
        if e.kind in ("call", "icall") and str(e.name).endswith("construct_pending_tsx"):
            n += 1
            v = it.resolve(e.args[0], e.state)
            ok = v.op == "mcall" and v.args[0] == "sign_transaction_data" and len(e.args) > 1 and it.resolve(e.args[1], e.state) in v.args
            ctx.check("wallet", "a pending transaction is the signed one", ok, "built from %s" % show(v, lim=5)[:80], e.where())
    ctx.check("wallet", "the signed set holds the signed transactions", n > 0, "no pending transaction is built", f.fid)
    for o in outs:
        if o.kind == "return":
            v = it.resolve(o.value, o.state)
            ctx.check("wallet", "signing returns the signed set", any(s.op in ("call", "icall") and "dump_signed_tx" in str(s.args[0]) for s in subterms(v)), "returns %s" % show(v, lim=5)[:80], f.fid)
    # device of this wallet
    f = ctx.func(P_ + ".check_address")
    it = Interp(ctx.repo, opaque=op, limit=100)
    outs = it.run(f)
    ctx.used(it)
    for o in outs:
        if o.kind == "return":
            ok = any({a.args[1] if a.op == "attr" else None, b.args[1] if b.op == "attr" else None} == {"address"} and (a is mk("attr", SELF, "address")) != (b is mk("attr", SELF, "address"))
                     for a, b in own_equal(o.state.facts))
            ctx.check("wallet", "a device with another address is refused", ok, "the addresses are not compared", f.fid)
    ctx.floor("wallet", 7)
