"""C10 - secrets leave the device only encrypted or as specified public values."""
import ast

from tsx import *

OPQ = [r"monero_glue\.xmr\.(crypto|core\.|mlsag2|ring_ct|enc)", r"keccak_hasher", r"mlsag_hasher", r"compat\.utils:memcpy",
       r"monero_glue\.protobuf", r"hwtoken\.misc:(dump|parse)", r"sub\.addr:", r"tsx_helper", r"hwtoken\.iface", r"sub\.recode",
       r"monero:(compute_subaddresses|classify_subaddresses|get_subaddress_secret_key)$"]

# attributes of the session and of the account that hold secrets
SECRET = {"r", "key_master", "key_hmac", "key_enc", "input_secrets", "input_alphas", "additional_tx_private_keys", "sumout", "sumpouts_alphas",
          "spend_key_private", "view_key_private", "enc_key"}
MASKS = {"output_masks", "output_last_mask", "output_sk"}
# primitives whose result reveals none of the listed arguments (None: any argument)
ONE_WAY = {
    "scalarmult_base": None, "gen_c": None, "derive_public_key": None, "generate_key_image": None,
    "prove_rct_mg_simple": None, "prove_range_bp_batch": None, "prove_range": None, "generate_ring_signature": None, "compute_hmac": None,
}
SEAL = {"encrypt_pack", "encrypt"}
OPEN = {"decrypt_pack", "decrypt"}
# results that are secret whatever their arguments
SHARED = {"generate_key_derivation", "derivation_to_scalar", "derive_secret_key", "get_subaddress_secret_key"}
RANDOM = {"random_scalar", "random_bytes"}


def last(t):
    return str(t.args[0]).rsplit(".", 1)[-1] if t.op in ("call", "fresh", "mcall") else ""


def base(t):
    """the object or random value before later calls changed it"""
    while t.op == "mut":
        t = t.args[0]
    return t


# of those, the ones whose result is public (a hash or MAC of a secret can still serve as a key)
PUBLIC = {"scalarmult_base", "gen_c", "derive_public_key", "generate_key_image", "prove_rct_mg_simple", "prove_range_bp_batch", "prove_range",
          "generate_ring_signature"}
HASHES = {"hash_to_scalar", "keccak_2hash", "cn_fast_hash", "keccak_hash", "hash_to_scalar_into"}


def key_arg(t):
    kw = {x.args[0]: x.args[1] for x in t.args[1:] if isinstance(x, T) and x.op == "kw"}
    pos = [x for x in t.args[1:] if isinstance(x, T) and x.op != "kw"]
    return pos[0] if pos else kw.get("key")


def data_arg(t):
    kw = {x.args[0]: x.args[1] for x in t.args[1:] if isinstance(x, T) and x.op == "kw"}
    pos = [x for x in t.args[1:] if isinstance(x, T) and x.op != "kw"]
    return pos[1] if len(pos) > 1 else kw.get("plaintext", kw.get("data"))


class Flow(object):
    def __init__(self, derivers):
        self.der = set(derivers)
        self._dep = {}

    def is_secret(self, t):
        """leaf secrets"""
        if t.op == "attr" and t.args[1] in SECRET | MASKS:
            return True
        n = last(t)
        if n in self.der or n in OPEN or n in SHARED:
            return True
        if t.op == "fresh" and n in RANDOM:
            return True
        return False

    def depends(self, t):
        """some secret went into the term"""
        r = self._dep.get(t)
        if r is None:
            r = self._dep[t] = any(self.is_secret(x) for x in subterms(t))
        return r

    def pad(self, t):
        """a hash of a secret: a one-time pad or mask"""
        return last(t) in HASHES and self.depends(t) or (t.op == "sub" and isinstance(t.args[0], T) and self.pad(t.args[0]))

    def key_leaves(self, t, acc=None, seen=None):
        """secrets that make a key unpredictable"""
        acc = set() if acc is None else acc
        seen = set() if seen is None else seen
        if t in seen:
            return acc
        seen.add(t)
        if last(t) in self.der or last(t) in OPEN:
            return self._leaves_in(t, acc, seen, t)
        if self.is_secret(t) and last(t) not in SHARED:
            acc.add(t)
            return acc
        if last(t) in PUBLIC:
            return acc
        return self._leaves_in(t, acc, seen, None)

    def _leaves_in(self, t, acc, seen, _):
        def go(a):
            if isinstance(a, T):
                self.key_leaves(a, acc, seen)
            elif isinstance(a, tuple):
                for b in a:
                    go(b)
        for a in t.args:
            go(a)
        return acc

    def exposed(self, t, acc=None, seals=None, seen=None):
        """secret leaves that can be read off the term; `seals` collects the encryptions met"""
        acc = {} if acc is None else acc
        seals = [] if seals is None else seals
        seen = set() if seen is None else seen
        if t in seen:
            return acc
        seen.add(t)
        if t.op == "call" and last(t) == "sc_sub" and len(t.args) >= 3 and t.args[1].op == "attr" and t.args[1].args[1] == "sumpouts_alphas":
            acc[t] = "mask"
            return acc
        if self.is_secret(t) or (last(t) in HASHES and self.depends(t)):
            acc[t] = True
            return acc
        n = last(t)
        if n in ONE_WAY or n == "get_digest" or t.op == "len" or n in ("len", "isinstance"):
            return acc
        if n in SEAL and t.op in ("call", "fresh"):
            seals.append(t)
            return acc
        if n == "scalarmult" and len(t.args) >= 3 and last(t.args[1]) == "hash_to_point":
            return acc
        if n in ("sc_add", "xor8") and len(t.args) >= 3:
            if any(self.pad(x) for x in t.args[1:] if isinstance(x, T)):
                return acc
        if t.op == "m" and t.args[0] == "xor8" and all(self.pad(x) for x in t.args[1:] if isinstance(x, T)):
            return acc
        for a in t.args:
            self._into(a, acc, seals, seen)
        return acc

    def _into(self, a, acc, seals, seen):
        if isinstance(a, T):
            self.exposed(a, acc, seals, seen)
        elif isinstance(a, tuple):
            for b in a:
                self._into(b, acc, seals, seen)


def message_fields(v):
    """(field, term) of a response object"""
    if v.op == "obj":
        d = {}
        for h in v.args[-1]:
            if isinstance(h, T) and h.op == "ctor":
                for i, k in enumerate(h.args):
                    if k.op == "kw":
                        d[k.args[0]] = k.args[1]
                    else:
                        d[i] = k
        if len(v.args) > 1 and isinstance(v.args[1], tuple) and v.args[1] and isinstance(v.args[1][0], tuple):
            for n, x in v.args[1]:
                d[n] = x
        return sorted(d.items(), key=str)
    return [("", v)]


def label_of(t):
    """purpose of a derived key: its constant label"""
    for a in t.args[1:]:
        if isinstance(a, T) and is_const(a) and isinstance(cval(a), (bytes, str)):
            return cval(a)
    return None


def key_uses(flow, runs):
    """labels of derived keys that seal or authenticate something"""
    res = set()
    for r in runs:
        for e in r.i.events:
            if e.kind in ("call", "mcall") and str(e.name).rsplit(".", 1)[-1] in SEAL | OPEN | {"compute_hmac"} and e.args:
                k = e.args[0]
                if k.op == "kw":
                    k = k.args[1]
                for x in subterms(k):
                    if last(x) in flow.der:
                        res.add(label_of(x))
    return res


def harmful_random(run, leaf):
    """the random value also serves as a key, blinding factor or stored secret of the session"""
    for e in run.i.events:
        if e.kind in ("call", "mcall"):
            n = str(e.name).rsplit(".", 1)[-1]
            if n in PUBLIC and any(leaf in subterms(a) for a in e.args):
                return e
            if n in SEAL and e.args and leaf is e.args[0]:
                return e
        if e.kind == "store" and e.base is SELF and e.value is not None and leaf in subterms(e.value):
            return e
    return None


def judge(ctx, flow, run, what, allow):
    """every response and every error of a handler"""
    n = 0
    for o in run.outs:
        if o.value is None or o.value is NONE:
            continue
        v = run.i.resolve(o.value, o.state)
        fields = message_fields(v) if o.kind == "return" else [("error", v)]
        exp, seals = {}, []
        for name, x in fields:
            n += 1
            s2 = []
            for leaf in flow.exposed(x, seals=s2):
                exp.setdefault(leaf, []).append(name)
            seals += s2
            bad = [l for l, fs in exp.items() if name in fs and not allow(name, l, exp, o, run)]
            ctx.check("response", "%s: %s" % (what, name), not bad,
                      "%s reveals %s" % ("the error text" if o.kind == "raise" else "the response field %s" % name, ", ".join(show(b)[:100] for b in bad[:2])), run.fi.fid)
        for s in seals:
            k = key_arg(s)
            left = flow.key_leaves(k) - set(exp) if k is not None else set()
            ctx.check("sealed", "%s: key of %s" % (what, show(data_arg(s))[:60] if data_arg(s) is not None else "?"), bool(left),
                      "data sealed for the host can be opened by the host: its key is %s" % (show(k)[:120] if k is not None else "missing"), run.fi.fid)
    return n


def run(ctx):
    ctx.rule("response", "no private key, session key, transaction private key, one-time spend key or input blinding factor can be read off a response or an error of the device")
    ctx.rule("sealed", "data encrypted for later return by the host is encrypted under a key that depends on a secret the host never receives")
    ctx.rule("export", "what is encrypted for the host under a key that is released later holds no private key")
    ctx.assumptions += ["hashing, commitments, public keys, key images, proofs and ring signatures reveal none of the secrets they are computed from",
                        "the host may know the blinding factors of outputs: they are handed out for offloaded range proofs"]
    der = key_derivers(ctx)
    flow = Flow(der)
    runs = {}
    for step in ENTRIES:
        runs[step] = run_step(ctx, step, opaque=OPQ)
    uses = key_uses(flow, runs.values())
    n = 0
    for step, r in runs.items():
        def allow(name, leaf, exp, o, run, step=step):
            if step in ("all_in", "output") and name == "rsig_data":
                # blinding factors of outputs, for range proofs computed by the host
                if exp.get(leaf) == "mask" or (leaf.op == "attr" and leaf.args[1] in MASKS) or last(leaf) == "sc_sub":
                    return True
                if last(leaf) in HASHES and blinds(run, o, leaf):
                    return True
                return last(leaf) in flow.der and label_of(leaf) not in uses
            if step == "final":
                if last(leaf) in flow.der:
                    # released key: nothing may be sealed under it
                    return label_of(leaf) is not None and label_of(leaf) not in uses
                if leaf.op == "fresh":
                    return harmful_random(run, leaf) is None
            return False
        n += judge(ctx, flow, r, step, allow)
    ctx.floor("response", 20)
    ctx.floor("sealed", 3)
    ctx.count("response fields and errors examined", n)
    watch(ctx, flow)
    export(ctx, flow)


def blinds(run, o, leaf):
    """the term is the blinding factor of an output commitment made on this path"""
    for e in run.i.events:
        if e.kind in ("call", "mcall") and str(e.name).rsplit(".", 1)[-1] == "gen_c" and e.args and leaf in subterms(e.args[0]):
            return True
    return False


def watch(ctx, flow):
    """the view key handler"""
    f = ctx.func("monero_glue.hwtoken.token:TokenLite.get_view_key")
    it = Interp(ctx.repo, opaque=OPQ, limit=200)
    outs = it.run(f)
    ctx.used(it)

    class R(object):
        pass
    r = R()
    r.i, r.outs, r.fi = it, outs, f
    judge(ctx, flow, r, "view key", lambda name, leaf, exp, o, run: leaf.op == "attr" and leaf.args[1] == "view_key_private" and name == "watch_key")


def export(ctx, flow):
    """key image synchronisation"""
    K = "monero_glue.protocol.key_image_sync:KeyImageSync."
    op = [r"monero_glue\.xmr\.(crypto|core\.|mlsag2|enc)", r"ring_ct:generate_ring_signature", r"common", r"trezor\.wrapper", r"xmrserialize",
          r"monero:(compute_subaddresses|classify_subaddresses|get_subaddress_secret_key)$"]
    for h in ("init", "sync", "final"):
        f = ctx.func(K + h)
        it = Interp(ctx.repo, opaque=op, limit=200)
        outs = it.run(f)
        ctx.used(it)
        r = Run(it, outs, f)
        judge(ctx, flow, r, "key image " + h, lambda name, leaf, exp, o, run: h == "final" and leaf.op == "attr" and leaf.args[1] == "enc_key" and name == "enc_key")
        for e in it.events:
            if e.kind in ("call", "mcall") and str(e.name).rsplit(".", 1)[-1] in SEAL:
                d = e.args[1] if len(e.args) > 1 else None
                exp = flow.exposed(d) if d is not None else {}
                ctx.check("export", "%s seals %s" % (h, e.where()), d is not None and not exp,
                          "private data is handed to the host: %s" % ", ".join(show(x)[:100] for x in exp), e.where())
    ctx.floor("export", 1)
