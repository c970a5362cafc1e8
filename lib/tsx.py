"""Shared setup for the rules about the device-side transaction builder."""
import ast

import lint
from engine import Interp, State, T, mk, const, NONE, TRUE, FALSE, show, subterms, match, W, ANY, is_const, cval, Broken, skey  # noqa

BUILDER = "monero_glue.protocol.tsx_sign_builder:TTransactionBuilder"
TSTATE = "monero_glue.protocol.tsx_sign_state:TState"

OPAQUE = [r"monero_glue\.xmr\.(crypto|core\.|monero|mlsag2|ring_ct|enc)", r"keccak_hasher", r"mlsag_hasher", r"compat\.utils:memcpy",
          r"monero_glue\.protobuf", r"hwtoken\.misc:(dump|parse|compute_tx_key)", r"sub\.addr:", r"tsx_helper", r"hwtoken\.iface",
          r"sub\.recode"]

# protocol step -> builder entry point
ENTRIES = {
    "init": "init_transaction", "input": "set_input", "permutation": "tsx_inputs_permutation", "vini": "input_vini",
    "all_in": "all_in_set", "output": "set_output", "all_out": "all_out1_set", "sign": "sign_input", "final": "final_msg",
}


def key_derivers(ctx):
    """names of the builder's own key derivation primitives: synchronous methods returning a hash of their parameters"""
    ci = ctx.func(BUILDER)
    res = []
    for n, f in ci.methods.items():
        if isinstance(f.node, ast.AsyncFunctionDef) or len(f.node.args.args) < 2:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Return) and x.value is not None:
                v = lint.expand(f.node, x.value)
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr.startswith("keccak_2hash"):
                    res.append(n)
                    break
    return res


def interp(ctx, opaque=OPAQUE, **kw):
    der = key_derivers(ctx)
    return Interp(ctx.repo, opaque=opaque + [r":TTransactionBuilder\.%s$" % n for n in der], **kw)


class Run(object):
    def __init__(self, interp, outs, fi):
        self.i, self.outs, self.fi = interp, outs, fi

    @property
    def returns(self):
        return [o for o in self.outs if o.kind == "return"]

    @property
    def raises(self):
        return [o for o in self.outs if o.kind == "raise"]

    def calls(self, *names):
        return [e for e in self.i.events if e.kind in ("call", "mcall") and e.name in names]


_CACHE = {}


def entry(ctx, step, **kw):
    k = (step, tuple(sorted(kw)))
    if k in _CACHE:
        return _CACHE[k]
    fi = ctx.func(BUILDER + "." + ENTRIES.get(step, step))
    it = interp(ctx, **kw)
    outs = it.run(fi)
    ctx.used(it)
    r = _CACHE[k] = Run(it, outs, fi)
    return r


def failure_value(v, st_hist=None):
    """the returned value is a Failure message"""
    return (v.op in ("new", "obj") and v.args[0].endswith((".Failure", ":Failure"))) \
        or (v.op == "call" and str(v.args[0]).endswith("Failure"))


SELF = mk("param", "self")
STV = mk("attr", SELF, "state")

# message -> (step, fields in the order of the builder step's parameters)
FIELDS = {
    "init": ["tsx_data"],
    "input": ["src_entr"],
    "permutation": ["perm"],
    "vini": ["src_entr", "vini", "vini_hmac"],
    "all_in": [],
    "output": ["dst_entr", "dst_entr_hmac", "rsig_data", "is_offloaded_bp"],
    "all_out": [],
    "sign": ["src_entr", "vini", "vini_hmac", "pseudo_out", "pseudo_out_hmac", "pseudo_out_alpha", "spend_key"],
    "final": [],
}


def me(name):
    return mk("attr", SELF, name)


def params(fi, step):
    """message field -> parameter term of the step"""
    names = [a.arg for a in fi.node.args.args][1:]
    return {f: mk("param", n) for f, n in zip(FIELDS[step], names)}


def sget(o, attr, base=SELF):
    v = o.state.store.get((base, attr))
    return v if v is not None else mk("attr", base, attr)


def field(run, o, name):
    """Resolved value of a field of the message object an outcome returns."""
    v = o.state.store.get((o.value, name))
    if v is None:
        return None
    return run.i.resolve(v, o.state)


def truth(facts, op, a, b):
    """True/False/None: truth of comparison `a op b` among facts."""
    from engine import mk_cmp
    c, pol = mk_cmp(op, a, b)
    if is_const(c):
        return bool(cval(c)) == pol
    if mk("t", c) in facts:
        return pol
    if mk("f", c) in facts:
        return not pol
    return None


def eq_pairs(facts):
    """pairs of terms known equal (constant-time or plain comparison)"""
    for f in facts:
        if f.op == "t":
            c = f.args[0]
            if c.op == "call" and c.args[0] in ("hmac.compare_digest",) and len(c.args) == 3:
                yield c.args[1], c.args[2]
            elif c.op == "eq":
                yield c.args[0], c.args[1]


def tag_for(facts, tag):
    """the term the given (host supplied) tag is known equal to"""
    for a, b in eq_pairs(facts):
        if a is tag:
            yield b
        elif b is tag:
            yield a


def deps(t, p):
    return p in subterms(t)


def rets(run):
    return [o for o in run.returns if not failure_value(o.value)]


def assume_state(*facts):
    """initial state with assumed conditions: (op, a, b, truth) or (term, truth)"""
    from engine import mk_cmp
    st = State()
    for f in facts:
        if len(f) == 4:
            op, a, b, val = f
            c, pol = mk_cmp(op, a, b)
            val = pol == val
        else:
            c, val = f
        st.addfact(mk("t" if val else "f", c))
    return st


def run_step(ctx, step, state=None, opaque=OPAQUE, args=None, self_cls=None, **kw):
    """uncached run of a builder step (or any function, by dotted name) from a given state"""
    fi = ctx.func(BUILDER + "." + ENTRIES.get(step, step)) if ":" not in step else ctx.func(step)
    it = interp(ctx, opaque=opaque, **kw)
    outs = it.run(fi, state=state, args=args, self_cls=self_cls)
    ctx.used(it)
    return Run(it, outs, fi)
