"""Loads the current source tree of /repo and resolves names across modules.

Nothing here imports or runs repository code: every module is parsed to a syntax
tree and names are resolved through the import statements found in it.
"""
import ast
import hashlib
import os
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
TOP = ("apps", "monero_glue", "monero_poc", "monero_vendor")


OVERLAY = {}      # path -> source bytes; used only by selftest/run.py to analyse edited variants


class FuncInfo(object):
    __slots__ = ("module", "qual", "node", "cls", "decos", "fid", "is_gen")

    def __init__(self, module, qual, node, cls):
        self.module, self.qual, self.node, self.cls = module, qual, node, cls
        self.fid = "%s:%s" % (module.name, qual)
        self.decos = [_dname(d) for d in getattr(node, "decorator_list", [])]
        self.is_gen = any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node)
        ) if not isinstance(node, ast.Lambda) else False

    def __repr__(self):
        return self.fid


class ClassInfo(object):
    def __init__(self, module, qual, node):
        self.module, self.qual, self.node = module, qual, node
        self.cid = "%s:%s" % (module.name, qual)
        self.methods = {}
        self.attrs = {}
        self.bases = []
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = FuncInfo(module, qual + "." + st.name, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                self.attrs[a.id] = b
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value

    def __repr__(self):
        return self.cid


def _dname(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return "?"


def walk_own(node):
    """Walks a function body without entering nested functions/classes/lambdas."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Module(object):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        if path in OVERLAY:
            self.raw = OVERLAY[path]
        else:
            with open(path, "rb") as fh:
                self.raw = fh.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.raw, path)
        self.binds = {}     # name -> list of binding tuples (in order)
        self.stars = []     # modules imported with *
        self._collect(self.tree.body)

    def rel(self):
        return os.path.relpath(self.path, REPO)

    def _bind(self, n, b):
        self.binds.setdefault(n, []).append(b)

    def abs_mod(self, level, mod):
        if level == 0:
            return mod
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if level > 1:
            parts = parts[: -(level - 1)]
        return ".".join(parts + ([mod] if mod else []))

    def import_binds(self, st):
        """[(localname, binding)] and star modules for an import statement."""
        res, stars = [], []
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    res.append((a.asname, ("mod", a.name)))
                else:
                    res.append((a.name.split(".")[0], ("mod", a.name.split(".")[0])))
        else:
            m = self.abs_mod(st.level, st.module)
            for a in st.names:
                if a.name == "*":
                    stars.append(m)
                else:
                    res.append((a.asname or a.name, ("from", m, a.name)))
        return res, stars

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                r, s = self.import_binds(st)
                for n, b in r:
                    self._bind(n, b)
                self.stars += s
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._bind(st.name, ("func", FuncInfo(self, st.name, st, None)))
            elif isinstance(st, ast.ClassDef):
                self._bind(st.name, ("class", ClassInfo(self, st.name, st)))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self._bind(t.id, ("assign", st.value))
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                if isinstance(st.value, ast.Tuple) and len(st.value.elts) == len(t.elts):
                                    self._bind(e.id, ("assign", st.value.elts[i]))
                                else:
                                    self._bind(e.id, ("opaque", st.value))
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self._bind(st.target.id, ("assign", st.value))
            elif isinstance(st, ast.AugAssign):
                if isinstance(st.target, ast.Name):
                    self._bind(st.target.id, ("opaque", st.value))
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, ast.Try):
                self._collect(st.body)
                for h in st.handlers:
                    self._collect(h.body)
                self._collect(st.orelse)
                self._collect(st.finalbody)
            elif isinstance(st, (ast.For, ast.While, ast.With)):
                if isinstance(st, ast.For):
                    for n in ast.walk(st.target):
                        if isinstance(n, ast.Name):
                            self._bind(n.id, ("opaque", st.iter))
                for s2 in ast.walk(st):
                    if isinstance(s2, ast.Assign):
                        for t in s2.targets:
                            if isinstance(t, ast.Name):
                                self._bind(t.id, ("opaque", s2.value))


class Repo(object):
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.broken = []
        for top in TOP:
            base = os.path.join(self.root, top)
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if d != "__pycache__")
                for f in sorted(fn):
                    if not f.endswith(".py"):
                        continue
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.root)[:-3].split(os.sep)
                    pkg = rel[-1] == "__init__"
                    if pkg:
                        rel = rel[:-1]
                    name = ".".join(rel)
                    try:
                        self.modules[name] = Module(name, p, pkg)
                    except SyntaxError as e:
                        self.broken.append((p, str(e)))
        self._res = {}
        self.consulted = set()

    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            self.consulted.add(name)
        return m

    # ---- name resolution -------------------------------------------------
    def resolve(self, modname, name, _seen=None):
        """-> ('func',FuncInfo)|('class',ClassInfo)|('mod',name)|('assign',Module,node,multi)|('ext',dotted)|None"""
        key = (modname, name)
        if key in self._res:
            return self._res[key]
        _seen = _seen or set()
        if key in _seen:
            return None
        _seen.add(key)
        r = self._resolve(modname, name, _seen)
        self._res[key] = r
        return r

    def _resolve(self, modname, name, seen):
        m = self.module(modname)
        if m is None:
            return ("ext", modname + "." + name)
        bl = m.binds.get(name)
        if bl:
            cands = []
            for b in bl:
                if b[0] in ("func", "class"):
                    cands.append(b)
                elif b[0] == "mod":
                    cands.append(("mod", b[1]))
                elif b[0] == "from":
                    sub = b[1] + "." + b[2]
                    if b[1] in self.modules:
                        r = self.resolve(b[1], b[2], seen)
                        if r is None and sub in self.modules:
                            r = ("mod", sub)
                        if r is not None:
                            cands.append(r)
                    elif sub in self.modules:
                        cands.append(("mod", sub))
                    else:
                        cands.append(("ext", sub))
                elif b[0] == "assign":
                    cands.append(("assign", m, b[1], len(bl) > 1))
                elif b[0] == "opaque":
                    cands.append(("assign", m, b[1], True))
            # prefer the last binding, but a repo binding over an external fallback
            for c in reversed(cands):
                if c[0] != "ext":
                    return c
            return cands[-1] if cands else None
        sub = modname + "." + name
        if sub in self.modules:
            return ("mod", sub)
        for s in m.stars:
            if s in self.modules:
                if self.modules[s].binds.get("__all__") and name.startswith("_"):
                    continue
                r = self.resolve(s, name, seen)
                if r is not None and not (r[0] == "ext" and s not in self.modules):
                    return r
        return None

    def resolve_dotted(self, dotted):
        """'pkg.mod:Class.meth' or 'pkg.mod:func' -> FuncInfo/ClassInfo or None."""
        mod, _, q = dotted.partition(":")
        parts = q.split(".")
        r = self.resolve(mod, parts[0])
        if r is None:
            return None
        if r[0] == "func":
            return r[1] if len(parts) == 1 else None
        if r[0] == "class":
            if len(parts) == 1:
                return r[1]
            return self.find_method(r[1], parts[1])
        return None

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            r = self.resolve_expr(cls.module, b)
            if r and r[0] == "class":
                out.append(r[1])
        return out

    def resolve_expr(self, module, node):
        if isinstance(node, ast.Name):
            return self.resolve(module.name, node.id)
        if isinstance(node, ast.Attribute):
            r = self.resolve_expr(module, node.value)
            if r is None:
                return None
            if r[0] == "mod":
                if r[1] in self.modules:
                    return self.resolve(r[1], node.attr)
                return ("ext", r[1] + "." + node.attr)
            if r[0] == "ext":
                return ("ext", r[1] + "." + node.attr)
            if r[0] == "class":
                meth = self.find_method(r[1], node.attr)
                if meth:
                    return ("func", meth)
        return None

    def mro(self, cls, _d=0):
        out = [cls]
        if _d > 8:
            return out
        for b in self.bases(cls):
            for c in self.mro(b, _d + 1):
                if c not in out:
                    out.append(c)
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_classattr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def all_functions(self):
        """Every function/method (not nested ones) in the tree."""
        for mn in sorted(self.modules):
            m = self.modules[mn]
            for n, bl in m.binds.items():
                for b in bl:
                    if b[0] == "func":
                        yield b[1]
                    elif b[0] == "class":
                        for f in b[1].methods.values():
                            yield f

    def all_classes(self):
        for mn in sorted(self.modules):
            for n, bl in self.modules[mn].binds.items():
                for b in bl:
                    if b[0] == "class":
                        yield b[1]

    def digest(self, names=None):
        h = hashlib.sha256()
        for n in sorted(names or self.modules):
            if n in self.modules:
                h.update(n.encode() + b"\0" + self.modules[n].raw + b"\0")
        return h.hexdigest()
