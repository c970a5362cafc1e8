"""C01 - the device signing protocol accepts messages only in order."""
import ast

from tsx import *
from engine import mk_cmp, mk_add, State

# spec automaton: state -> {step: [(condition, next)]}; condition "last"/"more"/None
SPEC = {
    "start": {"init": [(None, "ready")]},
    "ready": {"input": [("more", "inputs"), ("last", "inputs_done")]},
    "inputs": {"input": [("more", "inputs"), ("last", "inputs_done")]},
    "inputs_done": {"permutation": [(None, "permuted")]},
    "permuted": {"vini": [(None, "vinis")]},
    "vinis": {"vini": [(None, "vinis")], "all_in": [(None, "all_in")]},
    "all_in": {"output": [(None, "outputs")]},
    "outputs": {"output": [(None, "outputs")], "all_out": [(None, "hashed")]},
    "hashed": {"sign": [("more", "signing"), ("last", "signed")]},
    "signing": {"sign": [("more", "signing"), ("last", "signed")]},
    "signed": {"final": [(None, "final")]},
    "final": {},
    "rejected": {},
    "failed": {},
}

MESSAGES = {
    # message -> (step, expected argument fields)
    "MoneroTransactionInitRequest": ("init", ["tsx_data"]),
    "MoneroTransactionSetInputRequest": ("input", ["src_entr"]),
    "MoneroTransactionInputsPermutationRequest": ("permutation", ["perm"]),
    "MoneroTransactionInputViniRequest": ("vini", ["src_entr", "vini", "vini_hmac"]),
    "MoneroTransactionAllInputsSetRequest": ("all_in", []),
    "MoneroTransactionSetOutputRequest": ("output", ["dst_entr", "dst_entr_hmac", "rsig_data", "is_offloaded_bp"]),
    "MoneroTransactionAllOutSetRequest": ("all_out", []),
    "MoneroTransactionSignInputRequest": ("sign", ["src_entr", "vini", "vini_hmac", "pseudo_out", "pseudo_out_hmac", "pseudo_out_alpha", "spend_key"]),
    "MoneroTransactionFinalRequest": ("final", []),
}

SELF = mk("param", "self")
STV = mk("attr", SELF, "state")


def sget(o, attr, base=SELF):
    v = o.state.store.get((base, attr))
    return v if v is not None else mk("attr", base, attr)


def known(o, op, a, b):
    """True/False/None: truth of comparison `a op b` among the facts of the outcome."""
    c, pol = mk_cmp(op, a, b)
    if is_const(c):
        return bool(cval(c)) == pol
    if mk("t", c) in o.state.facts:
        return pol
    if mk("f", c) in o.state.facts:
        return not pol
    return None


def runs_from(ctx, step, v, tcls):
    fi = ctx.func(BUILDER + "." + ENTRIES[step])
    it = interp(ctx)
    st = State()
    for k, x in v.items():
        st.setstore(STV, k, x)
    outs = it.run(fi, state=st)
    ctx.used(it)
    return [o for o in outs if o.kind == "return"], [o for o in outs if o.kind == "raise"]


def state_of(o, attrs):
    base = sget(o, "state")
    return tuple((a, sget(o, a, base)) for a in attrs)


def run(ctx):
    ctx.rule("order", "the transition relation of the builder (every entry point run from every reachable protocol state) equals the specified "
                      "automaton: a step completes only in the states that allow it and leads to the specified next state")
    ctx.rule("bounds", "a completed step implies the declared-count condition of that step")
    ctx.rule("dispatch", "every signing message type is handed to exactly its own builder step with its own fields; unknown types are rejected")
    ctx.rule("start", "a new session starts in the initial state; a restored session keeps the saved state")
    ctx.floor("order", 60)
    tcls = ctx.func(TSTATE)
    builder = ctx.func(BUILDER)
    # initial protocol state = what a fresh builder has
    it = interp(ctx)
    outs = [o for o in it.run(ctx.func(TSTATE + ".__init__")) if o.kind == "return"]
    if not outs:
        raise Broken("TState.__init__ does not return")
    st0 = outs[0].state.store
    attrs = sorted(a for (b, a) in st0 if b is SELF)
    init = tuple((a, st0[(SELF, a)]) for a in attrs)
    if not all(is_const(x) for _, x in init):
        raise Broken("initial protocol state is not constant")
    # fresh builder creates a fresh state object
    o2 = [o for o in interp(ctx, opaque=[x for x in OPAQUE] + [r"TState"]).run(ctx.func(BUILDER + "._init")) if o.kind == "return"]
    ok = bool(o2) and all(sget(o, "state").op == "new" and sget(o, "state").args[0].endswith(":TState") for o in o2)
    ctx.check("start", "fresh builder", ok, "a fresh builder does not start with a fresh protocol state", BUILDER + "._init")
    init_fi = ctx.func(BUILDER + ".__init__")
    for label, stval in (("no saved state", NONE), ("saved state", mk("new", "saved", 0))):
        it = interp(ctx, opaque=OPAQUE + [r"TTransactionBuilder\.(_init|state_load)$"])
        os_ = [o for o in it.run(init_fi, prebind={"state": stval}) if o.kind == "return"]
        names = [e.name for e in it.events if e.kind == "mcall" and e.name in ("_init", "state_load")]
        want = ["_init"] if stval is NONE else ["state_load"]
        ctx.check("start", "constructor: " + label, names == want and bool(os_), "constructor with %s runs %s" % (label, names), init_fi.fid)
    # state save / load round trip of the protocol state
    it = interp(ctx)
    so = [o for o in it.run(ctx.func(TSTATE + ".state_save")) if o.kind == "return"]
    for o in so:
        vals = o.value.args if o.value.op == "tuple" else (o.value,)
        it2 = interp(ctx)
        for l in [x for x in it2.run(ctx.func(TSTATE + ".state_load"), prebind={ctx.func(TSTATE + ".state_load").node.args.args[1].arg: o.value}) if x.kind == "return"]:
            same = all((l.state.store.get((SELF, a)) or mk("attr", SELF, a)) is mk("attr", SELF, a) for a in attrs) and \
                all((SELF, a) in l.state.store for a in attrs)
            ctx.check("start", "protocol state round trip", same, "state_load(state_save()) changes the protocol state", TSTATE)

    # ---- product exploration
    seen = set()
    work = [("start", init)]
    edges = 0
    memo = {}
    while work:
        spec, v = work.pop()
        if (spec, v) in seen:
            continue
        seen.add((spec, v))
        if not all(is_const(x) for _, x in v):
            ctx.check("order", "state after reaching '%s'" % spec, False, "protocol state is not a known constant: %s" % (v,), TSTATE)
            continue
        for step in ENTRIES:
            k = (v, step)
            if k not in memo:
                memo[k] = runs_from(ctx, step, dict(v), tcls)
            rets, _ = memo[k]
            edges += 1
            fi = BUILDER + "." + ENTRIES[step]
            allowed = SPEC[spec].get(step)
            if not allowed:
                ctx.check("order", "%s refused in '%s'" % (step, spec), not rets,
                          "step '%s' completes in protocol state '%s'" % (step, spec), fi)
                continue
            ctx.check("order", "%s possible in '%s'" % (step, spec), bool(rets), "step '%s' can never complete in protocol state '%s'" % (step, spec), fi)
            for o in rets:
                if step == "init" and failure_value(o.value):
                    nxt = "rejected"
                elif len(allowed) == 1 and allowed[0][0] is None:
                    nxt = allowed[0][1]
                else:
                    last = known(o, "==", mk_add(sget(o, "inp_idx"), const(1)), sget(o, "input_count"))
                    ctx.check("order", "%s in '%s' distinguishes the last input" % (step, spec), last is not None,
                              "step completes without comparing the input index with the declared number of inputs", fi)
                    if last is None:
                        continue
                    nxt = dict(allowed)["last" if last else "more"]
                v2 = state_of(o, attrs)
                work.append((nxt, v2))
    # distinct spec states must not share a concrete state unless behaviour is identical (checked by exploration itself)
    ctx.count("product_states", len(seen))
    ctx.count("transitions_examined", edges)
    reach = set(s for s, _ in seen)
    for s in SPEC:
        if s != "failed":
            ctx.check("order", "state '%s' reachable" % s, s in reach, "protocol state can not be reached", BUILDER)
    # terminal
    it = interp(ctx)
    fi = ctx.func(TSTATE + ".is_terminal")
    vals = {s: v for s, v in seen}
    for s, v in sorted(seen, key=lambda x: x[0]):
        st = State()
        for a, x in v:
            st.setstore(SELF, a, x)
        rs = [o.value for o in interp(ctx).run(fi, state=st) if o.kind == "return"]
        t = [bool(cval(r)) if is_const(r) else None for r in rs]
        ctx.check("order", "'%s' terminal" % s, t == [s == "final"], "is_terminal() in protocol state '%s' is %s" % (s, t), fi.fid)
    # the failed state accepts nothing and is terminal
    fo = [o for o in interp(ctx).run(ctx.func(TSTATE + ".set_fail")) if o.kind == "return"]
    for o in fo:
        st = State()
        v = {a: o.state.store.get((SELF, a), dict(init)[a]) for a in attrs}
        for a, x in v.items():
            st.setstore(SELF, a, x)
        rs = [x.value for x in interp(ctx).run(fi, state=st) if x.kind == "return"]
        ctx.check("order", "'failed' terminal", rs == [TRUE], "failed state is not terminal", fi.fid)
        for step in ENTRIES:
            rets, _ = runs_from(ctx, step, v, tcls)
            ctx.check("order", "%s refused in 'failed'" % step, not rets, "step '%s' completes in the failed state" % step, BUILDER + "." + ENTRIES[step])

    # ---- bounds
    def need(step, what, pred):
        r = entry(ctx, step)
        rets = [o for o in r.returns if not failure_value(o.value)]
        ctx.check("bounds", "%s: %s" % (step, what), rets and all(pred(o) for o in rets),
                  "step '%s' can complete without: %s" % (step, what), r.fi.fid)

    one = const(1)
    need("input", "input index below the declared number of inputs", lambda o: known(o, "<", sget(o, "inp_idx"), sget(o, "input_count")) is True
         or known(o, "==", mk_add(sget(o, "inp_idx"), one), sget(o, "input_count")) is True)
    need("input", "exactly one input is counted", lambda o: sget(o, "inp_idx") is mk_add(mk("attr", SELF, "inp_idx"), one))
    need("vini", "exactly one input is counted", lambda o: sget(o, "inp_idx") is mk_add(mk("attr", SELF, "inp_idx"), one))
    need("permutation", "the input counter restarts", lambda o: sget(o, "inp_idx") is const(-1))
    OFF = mk("attr", SELF, "is_processing_offloaded")

    def offl(o):
        v = sget(o, "is_processing_offloaded")
        if is_const(v):
            return bool(cval(v))
        if mk("t", v) in o.state.facts:
            return True
        if mk("f", v) in o.state.facts:
            return False
        return None
    need("output", "every declared input was authenticated before", lambda o: known(o, "==", mk_add(sget(o, "inp_idx"), one), sget(o, "input_count")) is True)
    need("output", "output index below the declared number of outputs", lambda o: known(o, "<", sget(o, "out_idx"), sget(o, "output_count")) is True)
    need("output", "exactly one output is counted per destination", lambda o: (sget(o, "out_idx") is mk_add(mk("attr", SELF, "out_idx"), one)) if offl(o) is False
         else sget(o, "out_idx") is mk("attr", SELF, "out_idx"))
    need("all_out", "every declared output was processed", lambda o: any(
        known(o, "==", mk_add(x, one), sget(o, "output_count")) is True for x in (mk("attr", SELF, "out_idx"),)))
    need("all_out", "the input counter restarts", lambda o: sget(o, "inp_idx") is const(-1))
    need("sign", "input index below the declared number of inputs", lambda o: known(o, "<", sget(o, "inp_idx"), sget(o, "input_count")) is True
         or known(o, "==", mk_add(sget(o, "inp_idx"), one), sget(o, "input_count")) is True)
    need("sign", "exactly one input is counted", lambda o: sget(o, "inp_idx") is mk_add(mk("attr", SELF, "inp_idx"), one))

    # ---- dispatch
    sign = ctx.func("monero_glue.protocol.tsx_sign:TsxSigner.sign")
    pname = sign.node.args.args[1].arg
    msg = mk("param", pname)
    entries = {m: s for s, m in ENTRIES.items()}
    wires = {}
    for m, (step, fields) in MESSAGES.items():
        ci = ctx.func("monero_glue.messages.%s:%s" % (m, m))
        ca = ctx.repo.find_classattr(ci, "MESSAGE_WIRE_TYPE")
        w = interp(ctx).eval_simple(ca[0].module, ca[1])
        wires[m] = w
        calls = dispatch(ctx, sign, msg, w)
        want = [(ENTRIES[step], tuple(fields))]
        ctx.check("dispatch", m, sorted(set(calls)) == sorted(want), "message is handled by %s, expected %s" % (sorted(set(calls)), want), sign.fid)
    ctx.check("dispatch", "distinct wire types", len(set(wires.values())) == len(wires), "two signing messages share a wire type", sign.fid)
    bogus = const(max(cval(w) for w in wires.values()) + 77777)
    it = interp(ctx, opaque=OPAQUE + [r":TTransactionBuilder\."])
    st = State()
    st.setstore(msg, "MESSAGE_WIRE_TYPE", bogus)
    outs = it.run(sign, state=st)
    ctx.check("dispatch", "unknown message", all(o.kind == "raise" for o in outs), "an unknown message type is not rejected", sign.fid)
    ctx.assumptions += ["exceptions end the session (property C09), so a refused message has no later effect",
                        "the host cannot write the builder's attributes (it only sends messages)"]


def dispatch(ctx, sign, msg, w):
    it = interp(ctx, opaque=OPAQUE + [r":TTransactionBuilder\."])
    st = State()
    st.setstore(msg, "MESSAGE_WIRE_TYPE", w)
    outs = it.run(sign, state=st)
    ctx.used(it)
    res = []
    names = set(ENTRIES.values())
    for e in it.events:
        if e.kind == "mcall" and e.name in names:
            fs = []
            for a in e.args:
                while a.op == "not" and a.args[0].op == "not":      # bool(x)
                    a = a.args[0].args[0]
                if a.op == "attr" and a.args[0] is msg:
                    fs.append(a.args[1])
                elif a is const(False):
                    fs.append("-")
                elif a.op == "param":
                    fs.append("*")
                else:
                    fs.append(show(a))
            res.append((e.name, tuple(f for f in fs if f not in ("*",))))
    # the step's response must be the message's response
    for o in outs:
        if o.kind == "return" and not failure_value(o.value) and not any(e.value is o.value for e in it.events if e.name in names):
            res.append(("<response dropped>", ()))
    return res
