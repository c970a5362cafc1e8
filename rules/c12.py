"""C12 - secrets and nonces come from the system's secure randomness, fresh for each use."""
import ast

import lint
from engine import Interp, State, mk, const, NONE, show, subterms, is_const, cval, Broken, is_num
import tsx
from rules.c13 import response_nonces

CORE = "monero_glue.xmr."
NOT_PRODUCTION = ("monero_glue_test", "trezor_monero_test", "monero_glue.trezor_unused", "monero_glue.xmr.transaction_builder", "monero_poc.tools", "monero_vendor",
                  "monero_glue.xmr.bulletproof_cl")
# external generators backed by the operating system (or the device's) CSPRNG -> position of the size argument and its unit in bits
SYSTEM = {"os.urandom": 8, "Crypto.Random.get_random_bytes": 8, "Crypto.Random.random.getrandbits": 1, "secrets.token_bytes": 8, "secrets.randbits": 1,
          "secrets.token_hex": 8,
          "trezor_crypto.trezor_cfunc.random_buffer_r": 8, "trezor_crypto.trezor_cfunc.xmr_random_scalar_r": 0, "trezor_crypto.trezor_cfunc.xmr_random_scalar": 0,
          "Crypto.Random.random.randint": 0, "Crypto.Random.random.randrange": 0}
WRAPPED = {"random_scalar": 0, "random_bytes": 8, "random_scalar_into": 0}
DET_EXT = ("random.", "numpy.random.", "uuid.uuid1", "uuid.uuid3", "uuid.uuid5")
OK_EXT = ("random.SystemRandom",)
KEEP = ("encodeint", "decodeint", "decodeint_noreduce", "decodeint_into", "hexlify", "bytes", "bytearray", "memoryview", "reduce32", "sc_add", "sc_sub", "sc_copy",
        "to_bytes", "from_bytes", "join", "hash_to_scalar", "keccak_hash", "keccak_2hash", "cn_fast_hash", "compute_hmac", "pbkdf2", "EdScalar", "init", "ctor", "decode", "int")


def blow(t, want=128):
    """reason why t does not carry at least `want` bits of a fresh draw, or None if it does"""
    o = t.op
    if o == "fresh":
        nm = str(t.args[0])
        last = nm.split(".")[-1]
        unit = SYSTEM.get(nm, WRAPPED.get(last) if (nm.startswith(("crypto.", "common.")) or nm == last) else None)
        if unit is None:
            return "%s is not a system generator" % nm
        if unit and len(t.args) > 2 and is_num(t.args[2]) and cval(t.args[2]) * unit < want:
            return "only %s units drawn from %s" % (cval(t.args[2]), nm)
        return None
    if o == "phi":
        for a in t.args:
            r = blow(a, want)
            if r:
                return r
        return None
    if o == "sub" and t.args[1].op == "slice":
        lo, hi = t.args[1].args[0], t.args[1].args[1]
        if is_num(lo) and is_num(hi) and 8 * (cval(hi) - cval(lo)) < want:
            return "only a slice of the draw is used"
        return blow(t.args[0], want)
    if o in ("sub", "attr", "last"):
        return blow(t.args[0], want)
    if o in ("call", "mcall"):
        nm = str(t.args[0]).split(".")[-1].split(":")[-1]
        if nm not in KEEP:
            return "%s is not a random draw" % show(t)[:120]
        rs = [blow(a, want) for a in t.args[1:] if hasattr(a, "op")]
        return None if any(r is None for r in rs) else (rs[0] if rs else "constant")
    if o == "bin":
        if t.args[0] == "%":
            return blow(t.args[1], want) if not is_num(t.args[2]) or cval(t.args[2]) >> want else "reduced to a small range"
        if t.args[0] in ("+", "-", "^"):
            r = blow(t.args[1], want)
            return None if r is None else blow(t.args[2], want)
        return "%s is not a random draw" % show(t)[:120]
    if o in ("tuple", "+", "add", "fstr", "kw"):
        rs = [blow(a, want) for a in t.args if hasattr(a, "op")]
        return None if any(r is None for r in rs) else (rs[0] if rs else "constant")
    if o == "lin":
        rs = [blow(k, want) for k, c in t.args[0] if hasattr(k, "op")]
        return None if any(r is None for r in rs) else "constant"
    if o == "fold":       # loop-carried: the last drawn value, or the initial placeholder
        return blow_carry(t.args[-1], want)
    if o in ("obj", "mut", "rep", "alt", "set", "i", "assigned") or isinstance(t, tuple):
        vals = list(pieces(t))
        if not vals:
            return "%s carries no draw" % show(t)[:120]
        for v in vals:
            r = blow(v, want)
            if r:
                return r
        return None
    return "%s is not a random draw" % show(t)[:120]


def blow_carry(t, want):
    if t.op == "phi":
        alts = [a for a in t.args if a.op != "lphi"]
        if not alts:
            return "never drawn"
        for a in alts:
            r = blow(a, want)
            if r:
                return r
        return None
    return blow(t, want)


def pieces(t):
    """values written into a container term"""
    if isinstance(t, tuple):
        for x in t:
            for y in pieces(x):
                yield y
        return
    if not hasattr(t, "op"):
        return
    if t.op == "obj" and str(t.args[0]).startswith("cls:"):
        for h in t.args[-1]:
            if h.op == "ctor":
                for a in h.args:
                    yield a
        return
    if t.op == "alt":
        for x in pieces(tuple(t.args)):
            yield x
        return
    if t.op in ("obj", "mut"):
        h = t.args[1] if len(t.args) > 1 else ()
        for x in pieces(h if isinstance(h, tuple) else (h,)):
            yield x
    elif t.op == "rep":
        for x in pieces(tuple(t.args[2:])):
            yield x
    elif t.op == "set":
        yield t.args[1]
    elif t.op in ("i", "assigned"):
        yield t.args[0]
    elif t.op in ("ctor", "lp", "m"):
        return
    else:
        yield t


def draws(t):
    return {x for x in subterms(t) if x.op == "fresh"}


def rnd(ctx, rule, name, t, where, want=128):
    why = blow(t, want)
    ctx.check(rule, name, why is None, "%s: value is %s" % (why, show(t)[:200]), where)
    return why is None


OP = [r"monero_glue\.xmr\.core\.", r"xmr\.crypto:(?!generate_signature)", r"compat\.utils:memcpy", r"mlsag2:(hasher_message|key_|ver_|gen_clsag_assert|gen_mlsag_assert)",
      r"xmr\.monero:", r"xmr\.common:"]


def run_fn(ctx, fid, opaque=OP, args=None, limit=200, **kw):
    f = ctx.func(fid)
    it = Interp(ctx.repo, opaque=opaque, limit=limit, **kw)
    outs = it.run(f, args or {})
    ctx.used(it)
    return it, outs, f


def generators(ctx):
    """the primitives every other site relies on"""
    for fid, kind in ((CORE + "core.ec_py:random_bytes", "bytes"), (CORE + "core.ec_trezor:random_bytes", "bytes"), (CORE + "common:random_bytes", "bytes"),
                      (CORE + "core.ec_py:random_scalar", "scalar"), (CORE + "core.ec_trezor:random_scalar", "scalar")):
        f = ctx.func(fid)
        it = Interp(ctx.repo, opaque=[r"ec_py:(?!random)", r"ec_trezor:(?!random)", r"ec_base:", r"core\.backend"], limit=60)
        outs = it.run(f, {})
        ctx.used(it)
        rets = [o for o in outs if o.kind == "return"]
        ctx.check("generator", "%s returns" % fid, bool(rets), "no return path", fid)
        for o in rets:
            v = it.resolve(o.value, o.state)
            if kind == "bytes":
                ds = [x for x in draws(v) if str(x.args[0]) in SYSTEM]
                arg = f.params[0] if hasattr(f, "params") else f.node.args.args[0].arg
                ok = bool(ds) and blow(v) is None and any(len(d.args) > 2 and d.args[2] is mk("param", arg) for d in ds)
                ctx.check("generator", "%s draws the requested number of bytes" % fid, ok, "returns %s" % show(v)[:200], fid)
            else:
                rnd(ctx, "generator", "%s draws a full scalar" % fid, v, fid, 250)
    for fid in (CORE + "core.ec_py:random_scalar_into", CORE + "core.ec_trezor:random_scalar_into"):
        f = ctx.func(fid)
        it = Interp(ctx.repo, opaque=[r"ec_py:(?!random)", r"ec_trezor:(?!random)", r"ec_base:", r"core\.backend"], limit=60)
        outs = it.run(f, {})
        ctx.used(it)
        for o in [o for o in outs if o.kind == "return"]:
            tgt = [e for e in it.events if e.kind in ("call", "mcall", "new") and any(str(getattr(x, "args", [""])[0]) in SYSTEM or x.op == "fresh" for x in [e.value] + list(e.args) if hasattr(x, "op"))]
            ctx.check("generator", "%s overwrites its target with a draw" % fid, bool(tgt), "no draw reaches the target", fid)
    for n in ("random_scalar", "random_scalar_into", "random_bytes"):
        r = ctx.repo.resolve(CORE + "crypto", n)
        ok = r is not None and r[0] == "func" and r[1].module.name in (CORE + "core.ec_py", CORE + "core.ec_trezor")
        ctx.check("generator", "crypto.%s is the backend's generator" % n, ok, "resolves to %s" % (r,), CORE + "crypto")
    # the two backends and the facade do not shadow the system modules by something else
    for mn, nm in ((CORE + "core.ec_py", "rand"), (CORE + "core.ec_py", "get_random_bytes"), (CORE + "common", "get_random_bytes")):
        r = ctx.repo.resolve(mn, nm)
        ok = r is None or r[0] in ("ext", "mod") and str(r[1]).startswith(("Crypto.Random", "secrets", "os"))
        ctx.check("generator", "%s.%s is a system generator" % (mn, nm), ok, "resolves to %s" % (r,), mn)


def inventory(ctx):
    """no statistical or constant-seeded generator in production modules; no draw shared through module, class or default-argument scope"""
    n = 0
    for mn in sorted(ctx.repo.modules):
        if mn.startswith(NOT_PRODUCTION):
            continue
        for r in lint.refs(ctx.repo, ctx.repo.modules[mn]):
            q = r.res[1] if r.res[0] in ("ext", "mod") and isinstance(r.res[1], str) else (r.res[1].fid if r.res[0] == "func" else (r.res[1].cid if r.res[0] == "class" else ""))
            if r.res[0] == "ext" and q.startswith(DET_EXT):
                n += 1
                ok = q in OK_EXT or q.startswith("random.SystemRandom.")
                ctx.check("inventory", "%s.%s uses %s" % (mn, r.qual, q), ok, "statistical generator in production code", r.where)
            draw = q in SYSTEM or q.split(":")[-1] in WRAPPED and q.startswith(CORE)
            if draw:
                n += 1
                fns = r.scope.functions()
                ctx.check("inventory", "%s.%s draws inside a function" % (mn, r.qual), bool(fns), "draw at import time: shared by every use", r.where)
                cached = [d for f in fns for d in getattr(f, "decorator_list", []) if "cache" in ast.dump(d).lower() or "memo" in ast.dump(d).lower()]
                ctx.check("inventory", "%s.%s is not cached" % (mn, r.qual), not cached, "the drawn value is cached by a decorator", r.where)
    ctx.counts["random references in production modules"] = n
    # default arguments are evaluated once: lint.refs attributes them to the enclosing scope, so a draw there appears at module or class scope
    for mn in sorted(ctx.repo.modules):
        if mn.startswith(NOT_PRODUCTION):
            continue
        for fn in ast.walk(ctx.repo.modules[mn].tree):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for d in fn.args.defaults + [x for x in fn.args.kw_defaults if x is not None]:
                    for c in ast.walk(d):
                        if isinstance(c, ast.Call) and isinstance(c.func, (ast.Attribute, ast.Name)):
                            nm = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id
                            if nm in WRAPPED or nm in ("urandom", "get_random_bytes", "getrandbits"):
                                ctx.check("inventory", "%s default argument draws" % mn, False, "default argument evaluated once: %s" % ast.unparse(d)[:80], "%s:%d" % (ctx.repo.modules[mn].rel(), d.lineno))


def arg_of(e, pos):
    return e.args[pos] if len(e.args) > pos else None


def nonces(ctx):
    N = NONE
    for fid, args in ((CORE + "crypto:generate_signature", {}), (CORE + "mlsag2:gen_borromean", {}), (CORE + "mlsag2:gen_mlsag_ext", {"kLRki": N, "mscout": N}),
                      (CORE + "mlsag2:_generate_clsag", {}), (CORE + "ring_ct:prove_range_chunked", {}), (CORE + "ring_ct:prove_range_mem", {}),
                      (CORE + "ring_ct:prove_range_orig", {}), (CORE + "ring_ct:generate_ring_signature", {})):
        f = ctx.func(fid, optional=fid.endswith(("_chunked", "_mem", "_orig")))
        if f is None:
            continue
        it, outs, f = run_fn(ctx, fid, args=args)
        got = 0
        per = {}
        loops = [x for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp))]
        for e in it.events:
            last = e.name.split(".")[-1]
            if e.kind not in ("call", "mcall"):
                continue
            if last == "sc_mulsub" and len(e.args) >= 3:
                got += 1
                if rnd(ctx, "nonce", "%s response nonce" % fid, e.args[2], e.where()):
                    for d in draws_main(e.args[2]):
                        per.setdefault(d, set()).add((e.node.lineno, e.node.col_offset))
            elif last in ("add_keys2", "add_keys3") and fid.split(":")[0].endswith(("mlsag2", "ring_ct")):
                if rnd(ctx, "nonce", "%s decoy response" % fid, e.args[0], e.where()):
                    lv = max([x.args[0] for x in index_levels(e.args[-1])] + [0])
                    dp = [int(str(d.args[1]).split("@")[1]) for d in draws_main(e.args[0])]
                    ctx.check("fresh-use", "%s decoy responses are drawn one by one" % fid, bool(dp) and min(dp) >= lv, "one draw serves several ring positions: %s" % show(e.args[0])[:120], e.where())
            elif last in ("ge_double_scalarmult_base_vartime", "ge_double_scalarmult_precomp_vartime"):
                rnd(ctx, "nonce", "%s decoy response" % fid, e.args[0], e.where())
                k = 2
                rnd(ctx, "nonce", "%s decoy challenge" % fid, e.args[k], e.where())
        ctx.check("nonce", "%s computes a response" % fid, got > 0, "no response computation found", fid)
        # the drawn nonce belongs to one loop iteration: responses computed in a loop use a nonce drawn in a loop
        for e in it.events:
            if e.kind in ("call", "mcall") and e.name.split(".")[-1] == "sc_mulsub" and len(e.args) >= 3:
                inloop = any(getattr(l, "lineno", 0) <= e.node.lineno <= l.end_lineno for l in loops) and e.fn == f.fid
                idx = {x for a in e.args[:2] for x in subterms(a) if x.op == "idx"}
                if inloop and idx:
                    ds = draws_main(e.args[2])
                    ctx.check("fresh-use", "%s nonce per response" % fid, bool(ds) and all(int(str(d.args[1]).split("@")[1]) > 0 for d in ds),
                              "one nonce shared by the responses of a loop: %s" % show(e.args[2])[:150], e.where())


def index_levels(t):
    """loop variables by which the element t is selected"""
    while t.op in ("sub", "attr", "call", "mcall") and len(t.args) > 1:
        if t.op == "sub":
            for x in subterms(t.args[1]):
                if x.op == "idx":
                    yield x
            t = t.args[0]
        elif t.op == "attr":
            t = t.args[0]
        else:
            t = next((a for a in t.args[1:] if hasattr(a, "op")), None)
            if t is None:
                return


def draws_main(t):
    """the draws whose value t carries"""
    if t.op == "fresh":
        return {t}
    if t.op == "phi":
        return set().union(*[draws_main(a) for a in t.args])
    if t.op in ("sub", "attr", "last"):
        return draws_main(t.args[0])
    if t.op == "fold":
        return draws_main(t.args[-1])
    if t.op in ("obj", "mut", "rep", "alt", "set", "i", "assigned"):
        r = set()
        for v in pieces(t):
            r |= draws_main(v)
        return r
    if t.op in ("call", "mcall") and str(t.args[0]).split(".")[-1] in KEEP:
        r = set()
        for a in t.args[1:]:
            if hasattr(a, "op"):
                r |= draws_main(a)
        return r
    return set()


def distinct(ctx, name, vals, where):
    """values that must be independent share no draw"""
    ks = sorted(vals)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            sh = draws_main(vals[a]) & draws_main(vals[b])
            ctx.check("fresh-use", "%s: %s and %s are drawn separately" % (name, a, b), not sh and vals[a] is not vals[b], "both come from %s" % [show(x) for x in sh], where)


BPB = CORE + "bulletproof:BulletProofBuilder"
BPOP = [r"monero_glue\.xmr\.core\.", r"xmr\.crypto:", r"compat\.utils:memcpy", r"bulletproof:_(?!sc_gen)", r"bulletproof:Key",
        r"BulletProofBuilder\.(gc|_comp|aX|_hprec|_gprec|_two|_prove_loop)"]


def bulletproofs(ctx):
    it, outs, f = run_fn(ctx, CORE + "bulletproof:_sc_gen", BPOP)
    for o in outs:
        if o.kind == "return":
            rnd(ctx, "blinder", "proof blinding scalar", it.resolve(o.value, o.state), f.fid)
    me = tsx.SELF
    # phase 1 attributes
    it, outs, f = run_fn(ctx, BPB + "._prove_phase1", BPOP)
    vals = {}
    for e in it.events:
        if e.kind == "store" and e.name in ("alpha", "rho", "tau1", "tau2") and e.base is me and e.value is not NONE:
            vals[e.name] = e.value
            rnd(ctx, "blinder", "range proof %s" % e.name, e.value, e.where())
    distinct(ctx, "range proof", vals, f.fid)
    ctx.check("blinder", "range proof draws all four blinders", len(vals) == 4, "only %s assigned by the first phase" % sorted(vals), f.fid)
    for m in ("prove_setup", "prove_setup_"):
        fn = ctx.func(BPB + "." + m, optional=True)
        if fn is None:
            continue
        it, outs, f = run_fn(ctx, BPB + "." + m, BPOP)
        for o in outs:
            if o.kind == "return":
                rnd(ctx, "blinder", "masking secret set by %s" % m, it.resolve(tsx.sget(o, "proof_sec"), o.state), f.fid)
    # masking vectors
    seeds = {}
    for m in ("sL_vct", "sR_vct"):
        it, outs, f = run_fn(ctx, BPB + "." + m, [x for x in BPOP if "Key" not in x] + [r"bulletproof:Key"], args={})
        ks = [e for e in it.events if e.kind in ("call", "new") and e.name.endswith("KeyVPrngMask")]
        for e in ks:
            s = e.args[1]
            src = [x for x in subterms(s) if x.op == "attr" and x.args[1] == "proof_sec"]
            ctx.check("blinder", "%s is seeded from the proof's secret" % m, bool(src) or blow(s) is None, "seed is %s" % show(s)[:150], f.fid)
            seeds[m] = s
        for o in outs:
            if o.kind == "return" and not ks:
                rnd(ctx, "blinder", "%s elements" % m, it.resolve(o.value, o.state), f.fid)
    if len(seeds) == 2:
        ctx.check("fresh-use", "masking vectors use different seeds", seeds["sL_vct"] is not seeds["sR_vct"], "both vectors use %s" % show(seeds["sL_vct"])[:120], BPB)
    it, outs, f = run_fn(ctx, BPB + ".sX_gen", [x for x in BPOP if "Key" not in x] + [r"bulletproof:Key"])
    enc = [e for e in it.events if e.kind == "call" and e.name.endswith("encodeint")]
    ctx.check("blinder", "random vector is filled", bool(enc), "no element written", f.fid)
    for e in enc:
        rnd(ctx, "blinder", "random vector elements", e.args[0], e.where())
        ctx.check("fresh-use", "random vector elements are drawn one by one", all(int(str(d.args[1]).split("@")[1]) > 0 for d in draws_main(e.args[0])), "one draw for all elements", e.where())
    it, outs, f = run_fn(ctx, CORE + "bulletproof:KeyVPrngMask.__init__", [r"xmr\.core\.", r"xmr\.crypto"])
    for o in outs:
        if o.kind == "return":
            p = it.resolve(tsx.sget(o, "prng"), o.state)
            ctx.check("blinder", "masking generator starts from its seed", mk("param", "seed") in set(subterms(p)), "generator is %s" % show(p)[:120], f.fid)
            p = it.resolve(tsx.sget(o, "seed"), o.state)
            ctx.check("blinder", "masking generator restarts from its seed", mk("param", "seed") in set(subterms(p)), "seed attribute is %s" % show(p)[:120], f.fid)
    # offloaded vectors are blinded: the switch is never turned off outside tests
    for mn in sorted(ctx.repo.modules):
        if mn.startswith(NOT_PRODUCTION):
            continue
        for n in ast.walk(ctx.repo.modules[mn].tree):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == "do_blind":
                        ctx.check("blinder", "%s keeps blinding of offloaded vectors on" % mn, isinstance(n.value, ast.Constant) and n.value.value is True,
                                  "do_blind = %s" % ast.unparse(n.value), "%s:%d" % (ctx.repo.modules[mn].rel(), n.lineno))


def device(ctx):
    """secrets of the signing session and of the key image export"""
    r = tsx.entry(ctx, "init")
    # transaction key
    f = ctx.func(tsx.BUILDER + ".gen_r", optional=True)
    n = 0
    for o in r.returns:
        t = r.i.resolve(tsx.sget(o, "r"), o.state)
        if t.op == "attr":
            continue
        n += 1
        rnd(ctx, "secret", "transaction key", t, r.fi.fid)
    ctx.check("secret", "transaction key is set", n > 0, "no transaction key on any path", r.fi.fid)
    ci = ctx.func(tsx.BUILDER)
    # callers never impose the transaction key
    for mn in sorted(ctx.repo.modules):
        if mn.startswith(NOT_PRODUCTION):
            continue
        for c in ast.walk(ctx.repo.modules[mn].tree):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "gen_r":
                ok = all(isinstance(a, ast.Constant) and a.value is None for a in c.args + [k.value for k in c.keywords])
                ctx.check("secret", "%s lets the device draw the transaction key" % mn, ok, "transaction key imposed by the caller: %s" % ast.unparse(c), "%s:%d" % (ctx.repo.modules[mn].rel(), c.lineno))
    # output step: additional keys
    ro = tsx.entry(ctx, "output")
    k = 0
    for e in ro.i.events:
        if e.kind == "mcall" and e.name == "append" or e.kind in ("setitem",):
            b = e.base
            if b is not None and "additional_tx_private_keys" in show(b):
                k += 1
                rnd(ctx, "secret", "additional transaction key", e.args[-1], e.where())
    for o in ro.returns:
        t = ro.i.resolve(tsx.sget(o, "additional_tx_private_keys"), o.state)
        for p in ([t] if t.op in ("obj", "mut") else []):
            for v in pieces(p):
                k += 1
                rnd(ctx, "secret", "additional transaction key", v, ro.fi.fid)
    ctx.check("secret", "additional transaction keys are recorded", k > 0, "no store of additional keys found", ro.fi.fid)
    # input step: pseudo output masks
    ri = tsx.entry(ctx, "input")
    k = 0
    for e in ri.i.events:
        if e.kind == "call" and e.name.split(".")[-1] == "gen_commitment" or e.kind in ("call",) and e.name.split(".")[-1] in ("gen_c", "gen_commitment"):
            pass
    gc = ctx.func(tsx.BUILDER + "._gen_commitment", optional=True)
    if gc is not None:
        it = tsx.interp(ctx)
        outs = it.run(gc, {}, self_cls=ci)
        ctx.used(it)
        for e in it.events:
            if e.kind == "call" and e.name.split(".")[-1] == "gen_c":
                k += 1
                rnd(ctx, "secret", "pseudo output mask", e.args[0], e.where())
    if not k:
        for e in ri.i.events:
            if e.kind == "call" and e.name.split(".")[-1] in ("gen_c", "add_keys2"):
                k += 1
                rnd(ctx, "secret", "pseudo output mask", e.args[0], e.where())
    ctx.check("secret", "pseudo output masks are drawn", k > 0, "no commitment generation found", ri.fi.fid)
    # the ring signature nonce is never taken from the host
    rs = tsx.entry(ctx, "sign")
    n = 0
    for e in rs.i.events:
        if e.kind == "call" and e.name.split(".")[-1].startswith(("prove_rct_mg", "generate_clsag_simple")):
            n += 1
            fn = ctx.func(CORE + "mlsag2:" + e.name.split(".")[-1])
            ps = [a.arg for a in fn.node.args.args]
            for p in ("kLRki", "mscout"):
                if p in ps and ps.index(p) < len(e.args):
                    ctx.check("secret", "signature nonce is the device's own (%s)" % p, e.args[ps.index(p)] is NONE, "%s is %s" % (p, show(e.args[ps.index(p)])[:120]), e.where())
    ctx.check("secret", "ring signature call found", n > 0, "no ring signature call in the signing step", rs.fi.fid)
    # transaction key escrow
    it, outs, f = run_fn(ctx, "monero_glue.hwtoken.misc:compute_tx_key", [r"xmr\.crypto", r"xmr\.core"], args={"salt": NONE, "rand_mult": NONE})
    for o in outs:
        if o.kind == "return":
            v = it.resolve(o.value, o.state)
            if v.op == "tuple" and len(v.args) == 3:
                rnd(ctx, "secret", "transaction key escrow salt", v.args[1], f.fid)
                rnd(ctx, "secret", "transaction key escrow multiplier", v.args[2], f.fid)
                distinct(ctx, "escrow", {"salt": v.args[1], "multiplier": v.args[2]}, f.fid)
            else:
                ctx.check("secret", "transaction key escrow returns key, salt, multiplier", False, show(v)[:100], f.fid)
    rf = tsx.entry(ctx, "final")
    cs = [e for e in rf.i.events if e.kind == "call" and e.name.split(".")[-1] == "compute_tx_key"]
    ctx.check("secret", "final step derives the escrow key", bool(cs), "no call", rf.fi.fid)
    for e in cs:
        ctx.check("secret", "final step draws a new escrow salt", len(e.args) <= 2 or all(a is NONE for a in e.args[2:]), "salt imposed: %s" % [show(a)[:60] for a in e.args[2:]], e.where())
    # key image export session key
    ki = ctx.func("monero_glue.protocol.key_image_sync:KeyImageSync")
    n = 0
    for m in sorted(ki.methods):
        fn = ki.methods[m]
        sets = [x for x in ast.walk(fn.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == "enc_key"]
        if not sets:
            continue
        it = Interp(ctx.repo, opaque=[r"xmr\.", r"hwtoken", r"messages"], limit=60)
        it.run(fn, {}, self_cls=ki)
        ctx.used(it)
        for e in it.events:
            if e.kind == "store" and e.name == "enc_key" and e.value is not NONE:
                n += 1
                rnd(ctx, "secret", "key image export session key", e.value, e.where(), 250)
    ctx.check("secret", "key image export session key is drawn", n > 0, "never assigned", ki.cid)


def ciphers(ctx):
    it, outs, f = run_fn(ctx, CORE + "enc.chacha_poly:encrypt", [])
    n = 0
    for e in it.events:
        if e.kind == "mcall" and e.name == "encrypt":
            n += 1
            rnd(ctx, "secret", "authenticated encryption nonce", e.args[0], e.where(), 96)
    ctx.check("secret", "authenticated encryption takes a nonce", n > 0, "no cipher call found", f.fid)
    it, outs, f = run_fn(ctx, CORE + "enc.chacha:encrypt", [])
    n = 0
    for e in it.events:
        if e.kind in ("call", "mcall", "new") and e.name.endswith("ChaCha20.new"):
            n += 1
            nn = [a for a in e.args if a.op == "kw" and a.args[0] == "nonce"]
            pos = [a for a in e.args if a.op != "kw"]
            ok = not nn and len(pos) <= 1      # the library draws its own nonce
            if nn:
                ok = blow(nn[0].args[1], 64) is None
            ctx.check("secret", "file encryption nonce", ok, "nonce is %s" % [show(a) for a in e.args], e.where())
    ctx.check("secret", "file encryption cipher", n > 0, "no cipher construction found", f.fid)


HOST_SITES = [
    # function, call name suffix, argument index, name, may also come from a file of the user
    ("monero_poc.agent:HostAgent.store_cdata", "crypto.pbkdf2", 1, "salt of the stored transaction", False),
    ("monero_poc.agent:HostAgent.save_account", "wallet_enc_key", 0, "salt of the account file", True),
    ("monero_poc.agent:HostAgent.open_account_file", "wallet_enc_key", 0, "salt of an opened account file", True),
    ("monero_poc.trezor:TrezorServer.create_wallet", "from_master_secret", 0, "wallet seed", False),
    ("monero_poc.generate_creds:main", "new_wallet", 0, "generated view key", False),
    ("monero_poc.generate_creds:main", "new_wallet", 1, "generated spend key", False),
]


def host(ctx):
    """salts, passwords and seeds generated by the command line agent"""
    hops = [r"^monero_glue", r"^monero_serialize", r"^monero_poc\.(utils|cli|trezorlite)", r"xmr_"]
    for fid, name, k, what, stored in HOST_SITES:
        f = ctx.func(fid, optional=True)
        if f is None:
            continue
        it = Interp(ctx.repo, opaque=hops, limit=200)
        it.run(f, {})
        ctx.used(it)
        n, drawn = 0, 0
        for e in it.events:
            if e.kind not in ("call", "mcall") or not ("." + e.name).endswith("." + name) or len(e.args) <= k:
                continue
            n += 1
            v = it.resolve(e.args[k], e.state) if e.state is not None else e.args[k]
            if stored and all(str(d.args[0]) == "open" for d in draws(v)) and v.op != "const" and any(x.op in ("attr", "param") or x.op == "fresh" for x in subterms(v)):
                continue        # the value kept with the file
            drawn += 1
            rnd(ctx, "secret", what, v, e.where())
        ctx.check("secret", "%s is drawn" % what, drawn > 0, "%d uses, none of a drawn value" % n, f.fid)
    m = ctx.repo.modules.get("monero_poc.agent")
    n = 0
    for fn in ast.walk(m.tree) if m is not None else ():
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for st in ast.walk(fn):
            if not (isinstance(st, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "rpc_passwd" for t in st.targets)):
                continue
            v = lint.expand(fn, st.value)
            if isinstance(v, ast.Constant) and v.value is None:
                continue
            n += 1
            sc = lint.Scope(m, fn, None, [fn.name])
            r = lint.resolve(ctx.repo, sc, v.func) if isinstance(v, ast.Call) else None
            size = None
            if isinstance(v, ast.Call):
                cs = [a.value for a in v.args + [k.value for k in v.keywords] if isinstance(a, ast.Constant)]
                size = cs[0] if cs else None
            ok = r is not None and (r[0] == "func" and r[1].qual == "gen_simple_passwd" and isinstance(size, int) and size >= 8 or r[0] == "ext" and r[1] in ("secrets.token_hex", "secrets.token_urlsafe", "secrets.token_bytes"))
            ctx.check("secret", "wallet RPC password", ok, "assigned %s" % ast.unparse(v)[:120], "%s:%d" % (m.rel(), st.lineno))
    ctx.check("secret", "wallet RPC password is drawn", n > 0, "no password is assigned", "monero_poc.agent")


def password(ctx):
    it, outs, f = run_fn(ctx, "monero_poc.utils.misc:gen_simple_passwd", [])
    for o in outs:
        if o.kind == "return":
            v = it.resolve(o.value, o.state)
            bad = [x for x in draws(v) if str(x.args[0]).startswith("random.")]
            src = [x for x in subterms(v) if "SystemRandom" in str(x.args[0] if x.args else "") or x.op == "fresh" and str(x.args[0]) in SYSTEM or x.op == "fresh" and str(x.args[0]).startswith("secrets.")]
            ctx.check("secret", "generated password", bool(src) and not bad, "password is %s" % show(v)[:200], f.fid)


def run(ctx):
    ctx.rule("generator", "the generator primitives of both backends return values drawn from the operating system's cryptographic generator, of the requested size")
    ctx.rule("inventory", "no production code uses a statistical generator; draws happen at use, not at import, in defaults or behind a cache")
    ctx.rule("nonce", "every signature response and every decoy response uses a fresh draw")
    ctx.rule("blinder", "every range proof blinding value is a fresh draw or expanded from a fresh per-proof secret")
    ctx.rule("secret", "every session secret, key, mask, salt, password and encryption nonce is a fresh draw of sufficient size")
    ctx.rule("fresh-use", "values that must be independent come from separate draws, one per loop iteration")
    ctx.assumptions += ["os.urandom, Crypto.Random and the native library's generator are cryptographically secure",
                        "test generators (transaction_builder.py, monero_poc/tools) are not production code"]
    generators(ctx)
    inventory(ctx)
    nonces(ctx)
    response_nonces(ctx)
    bulletproofs(ctx)
    device(ctx)
    ciphers(ctx)
    host(ctx)
    password(ctx)
    ctx.floor("generator", 12)
    ctx.floor("nonce", 12)
    ctx.floor("blinder", 10)
    ctx.floor("secret", 20)
