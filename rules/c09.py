"""C09 - any error ends the signing session and leaves no usable state."""
import tsx
from tsx import *

OPQ = [r"tsx_sign_builder", r"hwtoken\.(misc|iface)", r"compat", r"protocol_base", r"xmr\.", r"traceback", r"apps\.monero\.controller\.(misc|iface)"]
TOKEN = "monero_glue.hwtoken.token:TokenLite.tsx_sign"
SIGNER = "monero_glue.protocol.tsx_sign:TsxSigner.sign"


def run_fn(ctx, fid, escape=False):
    f = ctx.func(fid)
    it = Interp(ctx.repo, opaque=OPQ, limit=6000)
    it.imp_limit = (6000, 6000)
    if escape:
        it.implicit = [[0]]
    outs = it.run(f, {})
    ctx.used(it)
    return it, outs, f


def attr(it, o, name):
    return it.resolve(o.state.store.get((SELF, name), mk("attr", SELF, name)), o.state)


def wire_type(fs):
    """numeric wire type the path is for"""
    for f in fs:
        if f.op == "t" and f.args[0].op == "eq0":
            lin = dict(f.args[0].args[0])
            k = [x for x in lin if x is not None and "MESSAGE_WIRE_TYPE" in show(x)]
            if len(k) == 1 and len(lin) <= 2:
                return abs(lin.get(None, 0))
    return None


def is_builder(t):
    return t.op in ("obj", "new", "mut") and "TTransactionBuilder" in str(t.args[0])


def base_obj(t):
    while t.op == "mut":
        t = t.args[0]
    return t


def ctor_kw(t, name):
    if t.op == "obj":
        for h in t.args[-1]:
            if h.op == "ctor":
                for a in h.args:
                    if a.op == "kw" and a.args[0] == name:
                        return a.args[1]
                if name == "state":
                    pos = [a for a in h.args if a.op != "kw"]
                    if len(pos) > 2:
                        return pos[2]
                    return NONE
    return None


def token(ctx):
    it, outs, f = run_fn(ctx, TOKEN)
    n = ok_steps = 0
    init = init_type(ctx)
    for o in outs:
        st, ob = attr(it, o, "tsx_state"), attr(it, o, "tsx_obj")
        if o.kind == "raise":
            ctx.check("token", "an escaping error leaves no saved session", st is NONE and ob is NONE, "tsx_sign raises with tsx_state=%s" % show(st)[:120], f.fid)
            continue
        v = it.resolve(o.value, o.state)
        n += 1
        if failure_value(o.value) or failure_value(v):
            where = "%s (line %s)" % (f.fid, o.node.lineno if o.node is not None else "?")
            ctx.check("token", "no saved session remains after a failure", st is NONE, "a failure is reported while the saved session is %s" % show(st)[:160], where)
            ctx.check("token", "no session object remains after a failure", ob is NONE or ob is mk("attr", SELF, "tsx_obj"), "a failure is reported while tsx_obj is %s" % show(ob)[:120], where)
            continue
        # success: the builder's own answer, nothing else
        good = v.op == "mcall" and is_builder(base_obj(v.args[1]))
        if not ctx.check("token", "a step answers with the session's result or a failure", good, "returns %s" % show(v)[:200], f.fid):
            continue
        if any(x.op == "caught" for x in o.state.facts):
            ctx.check("token", "no answer after an internal error", False, "returns a result although an exception was caught", f.fid)
        ok_steps += 1
        b = base_obj(v.args[1])
        given = ctor_kw(b, "state")
        if wire_type(o.state.facts) == init:
            ctx.check("token", "a new transaction starts from nothing", given is NONE, "session of an init message is built from %s" % (show(given)[:100] if given is not None else None), f.fid)
        else:
            ctx.check("token", "a step continues the saved session", given is mk("attr", SELF, "tsx_state"), "session is built from %s" % (show(given)[:100] if given is not None else None), f.fid)
        term = [x for x in o.state.facts if x.op == "t" and x.args[0].op == "mcall" and x.args[0].args[0] == "is_terminal"]
        if st is NONE:
            ctx.check("token", "a finished session is dropped", True, "", f.fid)
        else:
            same = st.op == "mcall" and st.args[0] == "state_save" and hist_has(st.args[1], v)
            ctx.check("token", "the session saved is the one that made the step", same, "saved state is %s" % show(st)[:200], f.fid)
            ctx.check("token", "a finished session is not saved", not term, "a terminal session is saved", f.fid)
    ctx.check("token", "every step can succeed", ok_steps >= 9, "only %d successful paths" % ok_steps, f.fid)
    ctx.count("paths of the token entry", len(outs))
    # the user interface is told only when nothing is left
    for e in it.events:
        if e.kind == "mcall" and e.name == "transaction_error" and e.stack and e.node is not None and e.where().startswith("monero_glue.hwtoken.token"):
            st = it.resolve(e.state.store.get((SELF, "tsx_state"), mk("attr", SELF, "tsx_state")), e.state)
            ctx.check("token", "session dropped before the interface is notified", st is NONE, "the interface is notified while the saved session is %s" % show(st)[:120], e.where())


def hist_has(t, v):
    """the object's history contains the step call v"""
    if t.op != "obj":
        return False
    for h in t.args[-1]:
        if h.op == "m" and h.args[0] == v.args[0] and tuple(h.args[1:]) == tuple(v.args[2:]):
            return True
    return False


def init_type(ctx):
    ci = ctx.func("monero_glue.messages.MoneroTransactionInitRequest:MoneroTransactionInitRequest")
    import ast
    for b in ci.node.body:
        if isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "MESSAGE_WIRE_TYPE" for t in b.targets):
            return b.value.value
    raise Broken("no wire type on the init message")


def signer(ctx):
    it, outs, f = run_fn(ctx, SIGNER)
    seen, steps = set(), set()
    for o in outs:
        fs = o.state.facts
        ob = mk("attr", SELF, "tsx_obj")
        called = [x for x in fs if x.op == "done" and x.args[0].op == "mcall" and x.args[0].args[1] is ob]
        wt = wire_type(fs)
        purge, cur = attr(it, o, "purge"), attr(it, o, "tsx_obj")
        gone = purge is TRUE and cur is NONE
        if o.kind == "raise":
            implicit = o.value is not None and o.value.op == "exc"
            if wt is None:
                ctx.check("steps", "unknown messages are refused", True, "", f.fid)
                continue
            seen.add(wt)
            ctx.check("steps", "step %s: error purges the session" % wt, gone, "an exception leaves the step with purge=%s, session %s" % (show(purge)[:60], show(cur)[:60]), f.fid)
            continue
        v = it.resolve(o.value, o.state)
        if failure_value(o.value) or failure_value(v):
            ctx.check("steps", "step %s: failure answer purges the session" % wt, gone, "a failure is returned with purge=%s, session %s" % (show(purge)[:60], show(cur)[:60]), f.fid)
            continue
        ok = v.op == "mcall" and v.args[1] is ob
        ctx.check("steps", "step %s: answers with the session's result" % wt, ok and not any(x.op == "caught" for x in fs), "an error is turned into the answer %s" % show(v)[:120], f.fid)
        if ok:
            steps.add((wt, v.args[0]))
            ctx.check("steps", "step %s: known message" % wt, wt is not None, "a step runs for any message", f.fid)
    for wt, name in sorted(steps, key=str):
        ctx.check("steps", "step %s (%s): exceptions of the step are handled" % (wt, name), wt in seen, "an exception of the step leaves without purging the session", f.fid)
    ctx.check("steps", "all steps dispatched", len(steps) >= 9, "only %s" % sorted(steps, key=str), f.fid)
    # the user interface is told only when nothing is left
    for e in it.events:
        if e.kind == "mcall" and e.name == "transaction_error" and e.node is not None and e.where().startswith("monero_glue.protocol.tsx_sign"):
            cur, pu = (it.resolve(e.state.store.get((SELF, a), mk("attr", SELF, a)), e.state) for a in ("tsx_obj", "purge"))
            ctx.check("steps", "session dropped before the interface is notified", cur is NONE and pu is TRUE, "the interface is notified while the session is %s" % show(cur)[:120], e.where())
    # should_purge
    it, outs, f = run_fn(ctx, "monero_glue.protocol.tsx_sign:TsxSigner.should_purge")
    pu, ob = mk("attr", SELF, "purge"), mk("attr", SELF, "tsx_obj")
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state)
        if mk("t", pu) in o.state.facts:
            n += 1
            ctx.check("steps", "purge request is honoured", v is pu or v is TRUE, "purge requested, answer %s" % show(v)[:100], f.fid)
        terms = [x for x in o.state.facts if x.op == "t" and x.args[0].op == "mcall" and x.args[0].args[0] == "is_terminal"]
        if terms:
            ctx.check("steps", "terminal session is purged", v is TRUE or v is terms[0].args[0], "terminal session, answer %s" % show(v)[:100], f.fid)
            n += 1
        if is_const(v) and not cval(v):
            ctx.check("steps", "session kept only if not purged and not terminal", mk("f", pu) in o.state.facts and (mk("f", ob) in o.state.facts or any(
                x.op == "f" and x.args[0].op == "mcall" and x.args[0].args[0] == "is_terminal" for x in o.state.facts)), "kept without looking at both", f.fid)
        judged = mk("t", pu) in o.state.facts or mk("f", ob) in o.state.facts or any(x.op == "mcall" and x.args[0] == "is_terminal" for g in list(o.state.facts) + [v] for x in subterms(g))
        ctx.check("steps", "a terminal session is recognised", judged, "answers %s without looking at the session" % show(v)[:100], f.fid)
    ctx.check("steps", "should_purge decides on both", n > 0 or any(pu in subterms(it.resolve(o.value, o.state)) for o in outs if o.kind == "return"), "purge flag is not consulted", f.fid)


def builder(ctx):
    """no step of the session swallows its own error"""
    for step in tsx.ENTRIES:
        r = entry(ctx, step)
        bad = [o for o in rets(r) if any(x.op == "caught" for x in o.state.facts)]
        ctx.check("steps", "%s: no internal error is swallowed" % step, not bad, "a caught exception does not end the step", r.fi.fid)


def run(ctx):
    ctx.rule("token", "on every path of the token's signing entry, including every point where a call may raise, a failure leaves neither session object nor saved session")
    ctx.rule("steps", "every step wrapper purges the session on every exception and reports it; a step never swallows an error")
    ctx.assumptions += ["errors are subclasses of Exception (not process termination)", "a saved session of None starts in the initial state, which C01 shows to accept only a new transaction"]
    token(ctx)
    signer(ctx)
    builder(ctx)
    ctx.floor("token", 8)
    ctx.floor("steps", 30)
