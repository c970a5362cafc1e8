"""Name-resolved inventory of calls and references over the syntax trees."""
import ast


def _locals(fn):
    """names assigned or bound in the function itself (they shadow module names)"""
    a = fn.args
    names = {x.arg for x in a.args + a.kwonlyargs + getattr(a, "posonlyargs", [])}
    for x in (a.vararg, a.kwarg):
        if x:
            names.add(x.arg)
    if isinstance(fn, ast.Lambda):
        return names, []
    imps, glob = [], set()
    st = list(fn.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            imps.append(n)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        st.extend(ast.iter_child_nodes(n))
    return names - glob, imps


class Ref(object):
    __slots__ = ("node", "parent", "scope", "res", "where", "qual", "module")


class Scope(object):
    def __init__(self, module, node, up, qual):
        self.module, self.node, self.up, self.qual = module, node, up, qual
        self.names, self.imps = set(), {}
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            self.names, imps = _locals(node)
            for i in imps:
                for n, b in module.import_binds(i)[0]:
                    self.imps[n] = b

    def functions(self):
        s, r = self, []
        while s is not None:
            if isinstance(s.node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                r.append(s.node)
            s = s.up
        return r


def resolve(repo, scope, node):
    if isinstance(node, ast.Name):
        s = scope
        while s is not None:
            if node.id in s.imps:
                b = s.imps[node.id]
                if b[0] == "mod":
                    return ("mod", b[1])
                if b[1] in repo.modules:
                    r = repo.resolve(b[1], b[2])
                    if r:
                        return r
                if b[1] + "." + b[2] in repo.modules:
                    return ("mod", b[1] + "." + b[2])
                return ("ext", b[1] + "." + b[2])
            if node.id in s.names:
                return None
            s = s.up
        return repo.resolve(scope.module.name, node.id)
    if isinstance(node, ast.Attribute):
        r = resolve(repo, scope, node.value)
        if r is None:
            return None
        if r[0] == "mod":
            if r[1] in repo.modules:
                return repo.resolve(r[1], node.attr)
            return ("ext", r[1] + "." + node.attr)
        if r[0] == "ext":
            return ("ext", r[1] + "." + node.attr)
        if r[0] == "class":
            m = repo.find_method(r[1], node.attr)
            if m:
                return ("func", m)
    return None


def refs(repo, module):
    """every outermost Name/Attribute load in the module with its resolution"""
    out = []

    def visit(node, scope, parent):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(node, "decorator_list", []):
                visit(d, scope, node)
            for d in node.args.defaults + [x for x in node.args.kw_defaults if x is not None]:
                visit(d, scope, node)
            q = getattr(node, "name", "<lambda>")
            s = Scope(module, node, scope, scope.qual + [q])
            for b in (node.body if isinstance(node.body, list) else [node.body]):
                visit(b, s, node)
            return
        if isinstance(node, ast.ClassDef):
            for d in node.decorator_list + node.bases:
                visit(d, scope, node)
            s = Scope(module, node, scope, scope.qual + [node.name])
            for b in node.body:
                visit(b, s, node)
            return
        if isinstance(node, (ast.Name, ast.Attribute)) and isinstance(node.ctx, ast.Load):
            r = resolve(repo, scope, node)
            if r is not None:
                x = Ref()
                x.node, x.parent, x.scope, x.res, x.module = node, parent, scope, r, module
                x.qual = ".".join(scope.qual) or "<module>"
                x.where = "%s:%s (%s)" % (module.rel(), node.lineno, x.qual)
                out.append(x)
                return
        for c in ast.iter_child_nodes(node):
            visit(c, scope, node)

    visit(module.tree, Scope(module, module.tree, None, []), None)
    return out


def single_assigns(fn):
    """local names assigned exactly once, by a plain assignment -> value expression"""
    cnt, val = {}, {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            cnt[n.id] = cnt.get(n.id, 0) + 1
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            val[n.targets[0].id] = n.value
    ps = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    return {k: v for k, v in val.items() if cnt[k] == 1 and k not in ps}


def expand(fn, expr, depth=8):
    """the expression with single-assignment locals replaced by their values"""
    import copy
    sa = single_assigns(fn)

    class E(ast.NodeTransformer):
        d = 0

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Load) and n.id in sa and self.d < depth:
                self.d += 1
                r = self.visit(copy.deepcopy(sa[n.id]))
                self.d -= 1
                return r
            return n
    return E().visit(copy.deepcopy(expr))
