"""C22 - a signing session can be suspended and resumed at any step without change."""
import ast

from drive import driver
from tsx import *

MOD = "monero_glue.protocol.tsx_sign_builder"
HM = "monero_glue.xmr.sub.mlsag_hasher"
OP = [r"xmr\.(crypto|core\.|monero|ring_ct|enc)", r"compat", r"xmrserialize", r"monero_serialize"]


def new_interp(ctx, opaque=OP):
    it = Interp(ctx.repo, opaque=opaque, limit=400, unroll=300)
    it.dicts = True
    it.new_funcs = set(it.new_funcs) | {"get_keccak"}
    return it


def builder_attrs(ctx):
    """every instance attribute the builder class assigns or reads on itself, minus its methods and class constants"""
    ci = ctx.func(BUILDER)
    stored, names = [], []
    for n, f in ci.methods.items():
        if not f.node.args.args:
            continue
        me = f.node.args.args[0].arg
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                if isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr not in stored:
                    stored.append(x.attr)
    return ci, stored


SPECIAL = ("state", "tx_prefix_hasher", "full_message_hasher")


def roundtrip(ctx, ci, attrs, values, pre="", post="", state="s"):
    """interprets: construct, set attributes, [save and restore], use. -> {flag: outcome}"""
    src = ["async def rt(flag, trezor, creds, trezor2, creds2, st_s, st_m, m1, m2):",
           "    b = TTransactionBuilder(trezor, creds)"]
    pb = {}
    for i, a in enumerate(attrs):
        if a in SPECIAL or a not in values:
            continue
        v = values[a]
        if isinstance(v, str):
            src.append("    b.%s = %s" % (a, v))
        else:
            pb["_v%d" % i] = v
            src.append("    b.%s = _v%d" % (a, i))
    src += ["    " + l for l in pre.splitlines()]
    src += ["    if flag:",
            "        t = b.state_save()",
            "        b = TTransactionBuilder(trezor2, creds2, state=t)"]
    src += ["    " + l for l in post.splitlines()]
    src.append("    return b")
    fi = driver(ctx.repo, MOD, "\n".join(src))
    it = new_interp(ctx)
    st = State()
    for v in pb.values():
        if v.op == "fresh":
            st.addfact(mk("t", v))
    outs = it.run(fi, state=st, prebind=pb)
    ctx.used(it)
    return it, outs


def flag_of(o):
    f = mk("param", "flag")
    return True if mk("t", f) in o.state.facts else False if mk("f", f) in o.state.facts else None


def value(it, o, name, base=None):
    b = o.value if base is None else base
    v = o.state.store.get((b, name))
    return None if v is None else it.resolve(v, o.state)


def persistence(ctx):
    ctx.rule("roundtrip", "an attribute of the session has the same value after it was saved and restored, whatever its value")
    ci, stored = builder_attrs(ctx)
    where = "%s %s" % (ci.module.rel(), ci.qual)
    it0 = new_interp(ctx)
    o0 = it0.run(driver(ctx.repo, MOD, "def init(trezor, creds):\n    return TTransactionBuilder(trezor, creds)"))
    order = [k[1] for o in o0 for k in o.state.store if k[0] is o.value]
    attrs = list(dict.fromkeys(order)) + [a for a in stored if a not in order]
    keep = [a for a in attrs if not a.startswith("_") and a not in ("trezor",)]
    fresh = {a: mk("fresh", "value of " + a, 0) for a in attrs}
    cases = [("some value", {a: fresh[a] for a in keep}), ("None", {a: "None" for a in keep})]
    for n, k in (("None in every other attribute", 0), ("None in every other attribute, shifted", 1)):
        cases.append((n, {a: "None" if i % 2 == k else fresh[a] for i, a in enumerate(keep)}))
    for lit in ("0", "False", "b''", "[]", "{}", "-1", "True"):
        cases.append((lit, {a: lit for a in keep}))
    bad = {}
    for name, vals in cases:
        it, outs = roundtrip(ctx, ci, keep, vals)
        a = [o for o in outs if o.kind == "return" and flag_of(o) is False]
        b = [o for o in outs if o.kind == "return" and flag_of(o)]
        lost = [o for o in outs if o.kind == "raise"]
        if len(a) != 1 or not b:
            ctx.check("roundtrip", "%s: save and restore with %s" % (ci.qual, name), False,
                      "saving and restoring a session whose attributes are %s does not complete" % name, lost[0].where() if lost else where)
            continue
        for at in keep:
            if at in SPECIAL:
                continue
            want = value(it, a[0], at)
            for o in b:
                got = value(it, o, at)
                if got is not want:
                    bad.setdefault(at, []).append((name, got))
        # the protocol state
    for at in keep:
        if at in SPECIAL:
            continue
        ctx.check("roundtrip", "%s.%s" % (ci.qual, at), at not in bad,
                  "attribute %s with value %s comes back from save and restore as %s" % (
                      at, bad.get(at, [("", None)])[0][0], show(bad[at][0][1])[:80] if at in bad and bad[at][0][1] is not None else "nothing"), where)
    ctx.floor("roundtrip", 30)
    ctx.count("attributes saved and restored", len(keep))
    return ci, where, keep, set(bad)


def protocol_state(ctx, ci, where):
    ctx.rule("state", "the protocol state machine continues from the saved position")
    tf = ctx.func(TSTATE)
    slots = []
    for n, f in tf.methods.items():
        me = f.node.args.args[0].arg if f.node.args.args else None
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me and isinstance(x.ctx, ast.Store) and x.attr not in slots:
                slots.append(x.attr)
    for lit in (None, "0", "3", "False", "True", "250"):
        pre = "\n".join("b.state.%s = %s" % (s, lit if lit is not None else "st_%s" % i) for i, s in enumerate(slots))
        src_vals = {"st_%d" % i: mk("fresh", "state " + s, 0) for i, s in enumerate(slots)}
        fi = driver(ctx.repo, MOD, "async def rt(flag, trezor, creds, trezor2, creds2):\n    b = TTransactionBuilder(trezor, creds)\n    %s\n"
                    "    if flag:\n        t = b.state_save()\n        b = TTransactionBuilder(trezor2, creds2, state=t)\n    return b" % pre.replace("\n", "\n    "))
        it = new_interp(ctx)
        outs = it.run(fi, prebind=src_vals)
        ctx.used(it)
        a = [o for o in outs if o.kind == "return" and flag_of(o) is False]
        b = [o for o in outs if o.kind == "return" and flag_of(o)]
        for s in slots:
            want = {value(it, o, s, o.state.store.get((o.value, "state"))) for o in a}
            got = {value(it, o, s, o.state.store.get((o.value, "state"))) for o in b}
            ctx.check("state", "%s.%s (%s)" % (tf.qual, s, lit or "any value"), len(want) == 1 and got == want and None not in got,
                      "after save and restore the protocol state field %s is %s" % (s, ", ".join("nothing" if g is None else show(g)[:60] for g in got) or "lost"), where)


PREFIX_OPS = ["b.tx_prefix_hasher.keep()", "await b.tx_prefix_hasher.uvarint(m1)", "await b.tx_prefix_hasher.buffer(m2)",
              "await b.tx_prefix_hasher.container_size(3, None)", "await b.tx_prefix_hasher.field(m1, m2)", "b.tx_prefix_hasher.release()",
              "await b.tx_prefix_hasher.message_field(None, m1, m2)", "d = b.tx_prefix_hasher.get_digest()"]
FULL_OPS = ["b.full_message_hasher.init(True)", "await b.full_message_hasher.set_message(m1)", "await b.full_message_hasher.set_type_fee(4, m2)",
            "await b.full_message_hasher.set_pseudo_out(m1)", "await b.full_message_hasher.set_ecdh(m1)", "await b.full_message_hasher.rsig_val(m2, True, raw=True)",
            "await b.full_message_hasher.set_out_pk(m1, m2)", "await b.full_message_hasher.rctsig_base_done()",
            "d = await b.full_message_hasher.get_digest()"]


def hashers(ctx, ci, where):
    ctx.rule("hash", "a running hash continues from the saved position: the digest does not depend on when the session was saved")
    for label, ops in (("tx_prefix_hasher", PREFIX_OPS), ("full_message_hasher", FULL_OPS)):
        for k in range(len(ops)):
            src = ["async def rt(flag, trezor, creds, trezor2, creds2, m1, m2):", "    b = TTransactionBuilder(trezor, creds)"]
            src += ["    " + x for x in ops[:k]]
            src += ["    if flag:", "        t = b.state_save()", "        b = TTransactionBuilder(trezor2, creds2, state=t)"]
            src += ["    " + x for x in ops[k:]]
            src.append("    return d")
            fi = driver(ctx.repo, MOD, "\n".join(src))
            it = new_interp(ctx)
            outs = it.run(fi)
            ctx.used(it)
            a = {it.resolve(o.value, o.state) for o in outs if o.kind == "return" and flag_of(o) is False}
            b = {it.resolve(o.value, o.state) for o in outs if o.kind == "return" and flag_of(o)}
            lost = [o for o in outs if o.kind == "raise" and flag_of(o)]
            if not a:
                raise Broken("the hashing sequence of %s cannot be followed" % label)
            ctx.check("hash", "%s saved after %s" % (label, ops[k - 1].split("(")[0].split(".")[-1] if k else "creation"), a == b and not lost,
                      "the digest of %s changes when the session is saved and restored %s" % (label, ("before " + ops[k]) if k < len(ops) else ""),
                      lost[0].where() if lost else where)
    ctx.floor("hash", 14)


def live(ctx, ci, where, keep, bad):
    ctx.rule("live", "what a step reads from earlier steps is part of the saved session")
    ctx.rule("carry", "a step leaves nothing behind outside the saved session")
    it = None
    n = 0
    for step in ENTRIES:
        fi = ctx.func(BUILDER + "." + ENTRIES[step])
        it = interp(ctx)
        it.reads = set()
        it.run(fi)
        ctx.used(it)
        seen = {}
        for b, name, fn in it.reads:
            if b is SELF:
                seen.setdefault(name, fn)
        for name, fn in sorted(seen.items()):
            if name in ci.attrs or name in ("trezor", "__dict__", "__class__") or ctx.repo.find_method(ci, name) is not None:
                continue
            n += 1
            ctx.check("live", "%s reads %s" % (fi.qual.split(".")[-1], name), name in keep and name not in bad,
                      "step %s reads attribute %s, which %s" % (step, name, "is not part of the saved session" if name not in keep else "is not restored unchanged"),
                      fn or where)
        for e in it.events:
            if e.kind in ("store", "setattr", "setitem") and e.base is not None:
                b, root = e.base, e.base
                while root.op in ("attr", "sub"):
                    b, root = root, root.args[0]
                outside = root.op in ("cls", "mod", "global", "func", "bound") or (root is SELF and b is not root and (b.args[1] in ("trezor",) if b.op == "attr" else False))
                ctx.check("carry", "%s at %s" % (fi.qual.split(".")[-1], e.where()), not outside,
                          "step %s keeps data in %s, outside the saved session" % (step, show(e.base)[:80]), e.where())
    ctx.count("attributes read by steps", n)
    ctx.floor("live", 60)


def wiring(ctx):
    from rules import c09
    ctx.rule("wiring", "the device continues each step from the saved session and saves the session that made the step")
    it, outs, f = c09.run_fn(ctx, c09.TOKEN)
    n = 0
    for o in outs:
        if o.kind != "return":
            continue
        v = it.resolve(o.value, o.state)
        if failure_value(v) or v.op != "mcall":
            continue
        n += 1
        init = c09.wire_type(o.state.facts) == 501
        given = c09.ctor_kw(c09.base_obj(v.args[1]), "state")
        ctx.check("wiring", "the step's session", given is (NONE if init else mk("attr", SELF, "tsx_state")),
                  "the session of a step is built from %s" % (show(given)[:100] if given is not None else None), f.fid)
        st = c09.attr(it, o, "tsx_state")
        if st is not NONE:
            ctx.check("wiring", "the saved session", st.op == "mcall" and st.args[0] == "state_save" and c09.hist_has(st.args[1], v),
                      "the session saved after a step is %s" % show(st)[:160], f.fid)
    if n < 9:
        raise Broken("the token's signing entry cannot be followed")


def run(ctx):
    ci, where, keep, bad = persistence(ctx)
    protocol_state(ctx, ci, where)
    hashers(ctx, ci, where)
    live(ctx, ci, where, keep, bad)
    wiring(ctx)
