#!/usr/bin/env python3
"""False-alarm test: behaviour-preserving transformations of whole source files, analysed through an in-memory overlay.
usage: auto.py [-t transform,...] [-f file-substring] [CHECK...]      every (transformation, file) must leave every check quiet"""
import ast
import copy
import os
import sys
import importlib
import traceback
from multiprocessing import Pool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "lib"), ROOT]
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
FILES = """monero_glue/protocol/tsx_sign_builder.py monero_glue/protocol/tsx_sign_state.py monero_glue/protocol/tsx_sign.py monero_glue/protocol/tsx_sign_state_holder.py
monero_glue/protocol/key_image_sync.py monero_glue/hwtoken/misc.py monero_glue/hwtoken/token.py monero_glue/hwtoken/token_lite.py monero_glue/hwtoken/iface.py monero_glue/xmr/crypto.py monero_glue/xmr/mlsag2.py
monero_glue/xmr/ring_ct.py monero_glue/xmr/bulletproof.py monero_glue/xmr/monero.py monero_glue/xmr/common.py monero_glue/xmr/wallet.py monero_glue/xmr/key_image.py
monero_glue/xmr/enc/chacha_poly.py monero_glue/xmr/enc/chacha.py monero_glue/xmr/sub/mlsag_hasher.py monero_glue/xmr/sub/addr.py monero_glue/xmr/sub/keccak_hasher.py monero_glue/xmr/sub/tsx_helper.py
monero_glue/misc/b58_mnr.py monero_glue/protobuf.py monero_glue/agent/agent_lite.py monero_glue/agent/agent_misc.py monero_glue/xmr/core/ec_py.py monero_glue/xmr/core/ec_trezor.py
monero_glue/xmr/core/ec.py monero_glue/xmr/core/ec_base.py monero_poc/agent.py monero_poc/utils/misc.py monero_poc/trezor.py""".split()


def scope_nodes(fn):
    """nodes of the function's own scope (not nested functions)"""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, FN + (ast.ClassDef, ast.Lambda)):
            continue
        st.extend(ast.iter_child_nodes(n))


class Rename(object):
    """every local variable gets another name"""
    def run(self, tree):
        for fn in [n for n in ast.walk(tree) if isinstance(n, FN)]:
            inner = [n for n in ast.walk(fn) if n is not fn and isinstance(n, FN + (ast.ClassDef, ast.Lambda))]
            used_inside = {x.id for i in inner for x in ast.walk(i) if isinstance(x, ast.Name)}
            glob = {g for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for g in n.names}
            params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
            imps = {(a.asname or a.name).split(".")[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
            exc = {n.name for n in ast.walk(fn) if isinstance(n, ast.ExceptHandler)}
            loc = {n.id for n in scope_nodes(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params - imps - exc - glob - used_inside
            comp = {x.id for n in scope_nodes(fn) if isinstance(n, ast.comprehension) for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            loc -= comp
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "eval", "exec") for n in scope_nodes(fn)):
                continue
            for n in scope_nodes(fn):
                if isinstance(n, ast.Name) and n.id in loc:
                    n.id += "_rn"


class Nop(object):
    """a statement that does nothing in every function"""
    def run(self, tree):
        for fn in [n for n in ast.walk(tree) if isinstance(n, FN)]:
            k = 1 if (isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant)) else 0
            fn.body.insert(k, ast.parse("_ = None").body[0])
            if not isinstance(fn.body[-1], (ast.Return, ast.Raise)):
                fn.body.append(ast.parse("_ = 0").body[0])


def blocks(tree):
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


class RetTemp(object):
    """return values and conditions go through a temporary"""
    def run(self, tree):
        c = [0]
        for n, f, b in list(blocks(tree)):
            out = []
            for s in b:
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                    c[0] += 1
                    v = "ret_v%d" % c[0]
                    out.append(ast.Assign(targets=[ast.Name(v, ast.Store())], value=s.value, lineno=s.lineno))
                    s.value = ast.Name(v, ast.Load())
                elif isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and not (f == "orelse" and len(b) == 1):
                    c[0] += 1
                    v = "cond_v%d" % c[0]
                    out.append(ast.Assign(targets=[ast.Name(v, ast.Store())], value=s.test, lineno=s.lineno))
                    s.test = ast.Name(v, ast.Load())
                out.append(s)
            setattr(n, f, out)


class ArgTemp(object):
    """call arguments that are calls are computed first, into temporaries"""
    def run(self, tree):
        c = [0]
        for fn in [x for x in ast.walk(tree) if isinstance(x, FN)]:
            for n, f, b in list(blocks(fn)):
                if isinstance(n, (ast.ClassDef,)):
                    continue
                out = []
                for s in b:
                    call = None
                    if isinstance(s, (ast.Assign, ast.Expr, ast.Return)):
                        call = s.value
                        if isinstance(call, ast.Await):
                            call = call.value
                    if isinstance(call, ast.Call) and not any(isinstance(a, ast.Starred) for a in call.args) and not any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(s)):
                        fx = [i for i, a in enumerate(call.args) if isinstance(a, ast.Call)]
                        if fx and not any(isinstance(y, ast.Call) for y in ast.walk(call.func)):
                            for i, a in enumerate(call.args[: fx[-1] + 1]):
                                if isinstance(a, (ast.Constant, ast.Lambda)):
                                    continue
                                c[0] += 1
                                v = "arg_v%d" % c[0]
                                out.append(ast.Assign(targets=[ast.Name(v, ast.Store())], value=a, lineno=s.lineno))
                                call.args[i] = ast.Name(v, ast.Load())
                    out.append(s)
                setattr(n, f, out)


NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
FLIP = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot, ast.In, ast.NotIn):
        return ast.Compare(e.left, [NEG[type(e.ops[0])]()], e.comparators)
    if isinstance(e, ast.BoolOp):
        return ast.BoolOp(ast.Or() if isinstance(e.op, ast.And) else ast.And(), [neg(x) for x in e.values])
    return ast.UnaryOp(ast.Not(), e)


class Invert(object):
    """branches swapped under the negated condition"""
    def run(self, tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.If):
                n.test = neg(n.test)
                if n.orelse:
                    n.body, n.orelse = n.orelse, n.body
                else:
                    n.orelse = n.body
                    n.body = [ast.Pass()]
            elif isinstance(n, ast.IfExp):
                n.test = neg(n.test)
                n.body, n.orelse = n.orelse, n.body


class Flip(object):
    """comparisons written the other way round"""
    def run(self, tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP and not any(isinstance(y, (ast.Await, ast.Yield)) for y in ast.walk(n)):
                n.left, n.comparators, n.ops = n.comparators[0], [n.left], [FLIP[type(n.ops[0])]()]


class Split(object):
    """`if a and b` nested; `if a or b: raise` as two guards"""
    def run(self, tree):
        for n, f, b in list(blocks(tree)):
            out = []
            for s in b:
                if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and not s.orelse and isinstance(s.test.op, ast.And):
                    inner = s.body
                    for t in reversed(s.test.values):
                        inner = [ast.If(t, inner, [])]
                    out += inner
                elif isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and not s.orelse and isinstance(s.body[-1], (ast.Raise, ast.Return)) and isinstance(s.test.op, ast.Or):
                    for t in s.test.values:
                        out.append(ast.If(t, copy.deepcopy(s.body), []))
                else:
                    out.append(s)
            setattr(n, f, out)


class Comp(object):
    """list comprehensions assigned to a name become loops"""
    def run(self, tree):
        for fn in [x for x in ast.walk(tree) if isinstance(x, FN)]:
            for n, f, b in list(blocks(fn)):
                if isinstance(n, ast.ClassDef):
                    continue
                out = []
                for s in b:
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 \
                            and not s.value.generators[0].is_async:
                        g = s.value.generators[0]
                        names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                        others = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id in names]
                        if len(others) == len([x for x in ast.walk(s.value) if isinstance(x, ast.Name) and x.id in names]):
                            t = ast.Name("acc_v", ast.Load())
                            out.append(ast.Assign([ast.Name("acc_v", ast.Store())], ast.List([], ast.Load()), lineno=s.lineno))
                            body = [ast.Expr(ast.Call(ast.Attribute(t, "append", ast.Load()), [s.value.elt], []))]
                            for c in reversed(g.ifs):
                                body = [ast.If(c, body, [])]
                            out.append(ast.For(g.target, g.iter, body, [], lineno=s.lineno))
                            out.append(ast.Assign(s.targets, t, lineno=s.lineno))
                            continue
                    out.append(s)
                setattr(n, f, out)


class Wrap(object):
    """every method body moves into a helper method"""
    def run(self, tree):
        for c in [x for x in ast.walk(tree) if isinstance(x, ast.ClassDef)]:
            new = []
            for m in list(c.body):
                if not isinstance(m, FN) or m.decorator_list or m.name.startswith("__") or any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(m)) \
                        or any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "super" for y in ast.walk(m)) or m.args.posonlyargs:
                    continue
                h = copy.deepcopy(m)
                h.name = "_w_" + m.name
                h.args.defaults, h.args.kw_defaults = list(m.args.defaults), list(m.args.kw_defaults)
                call = ast.Call(ast.Attribute(ast.Name(m.args.args[0].arg, ast.Load()), h.name, ast.Load()),
                                [ast.Name(a.arg, ast.Load()) for a in m.args.args[1:]] + ([ast.Starred(ast.Name(m.args.vararg.arg, ast.Load()), ast.Load())] if m.args.vararg else []),
                                [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in m.args.kwonlyargs] + ([ast.keyword(None, ast.Name(m.args.kwarg.arg, ast.Load()))] if m.args.kwarg else []))
                m.body = [ast.Return(ast.Await(call) if isinstance(m, ast.AsyncFunctionDef) else call)]
                new.append(h)
            c.body += new


class Guard(object):
    """utils.ensure / self.assrt written as explicit guards"""
    def run(self, tree):
        for n, f, b in list(blocks(tree)):
            out = []
            for s in b:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("ensure", "assrt") and len(s.value.args) in (1, 2) and not s.value.keywords:
                    a = s.value.args
                    out.append(ast.If(neg(a[0]), [ast.Raise(ast.Call(ast.Name("ValueError", ast.Load()), a[1:], []), None)], []))
                else:
                    out.append(s)
            setattr(n, f, out)


class LocalAttr(object):
    """module functions called through a local alias"""
    def run(self, tree):
        for fn in [x for x in ast.walk(tree) if isinstance(x, FN)]:
            seen = {}
            params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
            loc = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            inner = [n for n in ast.walk(fn) if n is not fn and isinstance(n, FN + (ast.ClassDef, ast.Lambda))]
            imps = {(a.asname or a.name).split(".")[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
            if inner or "crypto" in params | loc | imps or fn.name.startswith("__"):
                continue
            for n in scope_nodes(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "crypto":
                    seen[n.func.attr] = 1
                    n.func = ast.Name("c_" + n.func.attr, ast.Load())
            k = 1 if (isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant)) else 0
            for a in sorted(seen):
                fn.body.insert(k, ast.parse("c_%s = crypto.%s" % (a, a)).body[0])


class ElseRaise(object):
    """code after a raising guard moves into the else branch"""
    def run(self, tree):
        for fn in [x for x in ast.walk(tree) if isinstance(x, FN)]:
            for n, f, b in list(blocks(fn)):
                for i, s in enumerate(b):
                    if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Raise) and i + 1 < len(b):
                        s.orelse = b[i + 1:]
                        del b[i + 1:]
                        break


class WhileFor(object):
    """for loops over range(n) become while loops"""
    def run(self, tree):
        c = [0]
        for fn in [x for x in ast.walk(tree) if isinstance(x, FN)]:
            for n, f, b in list(blocks(fn)):
                out = []
                for s in b:
                    if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 \
                            and not s.orelse and not any(isinstance(y, (ast.Continue,)) for y in ast.walk(s)) and not any(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == s.target.id for z in s.body for y in ast.walk(z)):
                        c[0] += 1
                        e = "end_v%d" % c[0]
                        out.append(ast.Assign([ast.Name(e, ast.Store())], s.iter.args[0], lineno=s.lineno))
                        out.append(ast.Assign([ast.Name(s.target.id, ast.Store())], ast.Constant(0), lineno=s.lineno))
                        out.append(ast.While(ast.Compare(ast.Name(s.target.id, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]), s.body + [ast.AugAssign(ast.Name(s.target.id, ast.Store()), ast.Add(), ast.Constant(1))], []))
                    else:
                        out.append(s)
                setattr(n, f, out)


class Enumerate(object):
    """for i in range(len(xs)) becomes enumerate; for x in xs becomes an indexed loop is not always valid and is left out"""
    def run(self, tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and len(n.iter.args) == 1 \
                    and isinstance(n.iter.args[0], ast.Call) and isinstance(n.iter.args[0].func, ast.Name) and n.iter.args[0].func.id == "len":
                x = n.iter.args[0].args[0]
                n.target = ast.Tuple([n.target, ast.Name("_el", ast.Store())], ast.Store())
                n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [x], [])


class Unparse(object):
    def run(self, tree):
        pass


T = {"rename": Rename, "nop": Nop, "rettemp": RetTemp, "argtemp": ArgTemp, "invert": Invert, "flip": Flip, "split": Split, "comp": Comp, "wrap": Wrap, "guard": Guard,
     "alias": LocalAttr, "else": ElseRaise, "while": WhileFor, "enum": Enumerate, "unparse": Unparse}


def transform(name, src):
    tree = ast.parse(src)
    T[name]().run(tree)
    ast.fix_missing_locations(tree)
    return (ast.unparse(tree) + "\n").encode()


def one(job):
    name, f, prop = job
    import warnings
    warnings.simplefilter("ignore")
    import repo
    try:
        p = os.path.join(repo.REPO, f)
        src = open(p, "rb").read()
        new = transform(name, src)
        ast.parse(new)
        if ast.dump(ast.parse(new)) == ast.dump(ast.parse(src)) and name != "unparse":
            return job, "SAME", ""
        repo.OVERLAY[p] = new
    except Exception:
        return job, "TRANSFORM", traceback.format_exc()[-300:]
    from ctx import Ctx, load_known
    from engine import Broken
    import signal

    def late(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(LIMIT)
    try:
        c = Ctx(prop)
        mod = importlib.import_module("rules." + prop.lower())
        mod.run(c)
        known = [k for k in load_known(os.path.join(ROOT, "known_findings.jsonl")) if k.get("property") == prop]
        v = [x for x in c.viol if not any(k["rule"] == x["rule"] and k["construct"] == x["construct"] for k in known)]
        got = c.per_rule()
        if v:
            return job, "VIOLATION", "; ".join("%s: %s: %s" % (x["rule"], x["construct"], str(x["message"])[:150]) for x in v[:5])
        for r, n in c.floors.items():
            if got.get(r, [0])[0] < n:
                return job, "BROKEN", "floor %s %d<%d" % (r, got.get(r, [0])[0], n)
        return job, "QUIET", ""
    except TimeoutError:
        return job, "TIMEOUT", traceback.format_exc()[-200:]
    except Broken as e:
        return job, "BROKEN", str(e)
    except Exception:
        return job, "BROKEN", traceback.format_exc()[-400:]
    finally:
        signal.alarm(0)


def consulted(prop):
    """files with code the check interprets"""
    import repo
    from ctx import Ctx
    c = Ctx(prop)
    importlib.import_module("rules." + prop.lower()).run(c)
    mods = {str(getattr(f, "fid", f)).split(":")[0] for f in c.funcs}
    return {os.path.relpath(c.repo.modules[m].path, repo.REPO) for m in mods if m in c.repo.modules}


LINT = {"C12"}      # checks that also read syntax trees of files they do not interpret
LIMIT = 240


def main():
    a = sys.argv[1:]
    ts, fs, props = list(T), FILES, []
    while a:
        x = a.pop(0)
        if x == "-t":
            ts = a.pop(0).split(",")
        elif x == "-f":
            k = a.pop(0).split(",")
            fs = [f for f in FILES if any(y in f for y in k)]
        elif x == "-show":
            name, f = a.pop(0), a.pop(0)
            sys.stdout.write(transform(name, open(os.path.join("/repo", f), "rb").read()).decode())
            return 0
        else:
            props.append(x)
    props = props or [f[:-3].upper() for f in sorted(os.listdir(os.path.join(ROOT, "rules"))) if f.startswith("c") and f.endswith(".py")]
    jobs = []
    with Pool(8, maxtasksperchild=1) as pool:
        con = dict(zip(props, pool.map(consulted, props)))
    for p in props:
        for f in fs:
            if os.path.exists(os.path.join("/repo", f)) and (f in con[p] or p in LINT):
                for t in ts:
                    jobs.append((t, f, p))
    bad = n = 0
    with Pool(8, maxtasksperchild=1) as pool:
        for (t, f, p), res, msg in pool.imap_unordered(one, jobs, chunksize=1):
            n += res != "SAME"
            if res not in ("QUIET", "SAME"):
                bad += 1
                print("%s %s %s %s: %s" % (res, p, t, f, " ".join(msg.split())[-330:]), flush=True)
    print("%d transformed trees analysed, %d alarms" % (n, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
