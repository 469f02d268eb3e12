"""Resolution of names, attributes and call signatures over the package's syntax trees."""

import ast
import builtins
import importlib
import inspect
import os

from .context import REPO

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Scope:
    def __init__(self, kind, node, parent):
        self.kind, self.node, self.parent = kind, node, parent
        self.bound = {}             # name -> list of binding nodes
        self.globals = set()

    def lookup(self, name):
        s, first = self, True
        while s is not None:
            if name in s.bound and name not in s.globals and (first or s.kind != "class"):
                return s
            if s.kind in ("function", "lambda", "comp"):
                first = s.kind == "comp" and first
            else:
                first = False
            s = s.parent
        return None


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.tree = ast.parse(open(path, encoding="utf-8").read(), path)
        self.scope = Scope("module", self.tree, None)
        self.scopes = {self.tree: self.scope}
        self.parents = {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                self.parents[c] = n
        self.uses = []              # (Name node, scope)
        self.stars = []
        self.visit_body(self.tree.body, self.scope)
        self.rel = os.path.relpath(path, REPO)

    # binding

    def bind(self, scope, name, node):
        if name in scope.globals:
            s = scope
            while s.parent is not None:
                s = s.parent
            scope = s
        scope.bound.setdefault(name, []).append(node)

    def visit_body(self, body, scope):
        for s in body:
            self.visit(s, scope)

    def visit(self, n, scope):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.bind(scope, n.name, n)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, scope)
            for a in self.params(n.args):
                if a.annotation is not None and not isinstance(a.annotation, ast.Constant):
                    self.visit(a.annotation, scope)
            self.function(n, n.body, scope)
        elif isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, scope)
            self.function(n, [n.body], scope)
        elif isinstance(n, ast.ClassDef):
            self.bind(scope, n.name, n)
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, scope)
            s = Scope("class", n, scope)
            self.scopes[n] = s
            self.visit_body(n.body, s)
        elif isinstance(n, COMPS):
            s = Scope("comp", n, scope)
            self.scopes[n] = s
            for k, g in enumerate(n.generators):
                self.visit(g.iter, scope if k == 0 else s)
                self.visit(g.target, s)
                for i in g.ifs:
                    self.visit(i, s)
            for f in ("elt", "key", "value"):
                if getattr(n, f, None) is not None:
                    self.visit(getattr(n, f), s)
        elif isinstance(n, ast.NamedExpr):
            t = scope
            while t.kind == "comp":
                t = t.parent
            self.bind(t, n.target.id, n)
            self.visit(n.value, scope)
        elif isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.uses.append((n, scope))
            else:
                self.bind(scope, n.id, n)
                if isinstance(n.ctx, ast.Del):
                    self.uses.append((n, scope))
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name == "*":
                    self.stars.append((n, scope))
                else:
                    self.bind(scope, a.asname or (a.name.split(".")[0] if isinstance(n, ast.Import) else a.name), n)
        elif isinstance(n, ast.Global):
            scope.globals |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            s = scope.parent
            for x in n.names:
                f = s.lookup(x)
                if f is not None:
                    f.bound[x].append(n)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                self.bind(scope, n.name, n)
            for c in ast.iter_child_nodes(n):
                self.visit(c, scope)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                self.bind(scope, n.name, n)
            for c in ast.iter_child_nodes(n):
                self.visit(c, scope)
        else:
            for c in ast.iter_child_nodes(n):
                self.visit(c, scope)

    @staticmethod
    def params(a):
        return a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x is not None]

    def function(self, n, body, scope):
        s = Scope("lambda" if isinstance(n, ast.Lambda) else "function", n, scope)
        self.scopes[n] = s
        for a in self.params(n.args):
            s.bound.setdefault(a.arg, []).append(a)
        for x in body:
            for g in ast.walk(x):
                if isinstance(g, ast.Global) and self.owner(g) is n:
                    s.globals |= set(g.names)
        self.visit_body(body, s)

    def owner(self, n):
        while n is not None and not isinstance(n, FUNCS):
            n = self.parents.get(n)
        return n

    def where(self, n):
        p, names = n, []
        while p is not None:
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.append(p.name)
            p = self.parents.get(p)
        return "%s:%d %s" % (self.rel, getattr(n, "lineno", 0), ".".join(reversed(names)))


class Program:
    def __init__(self, root, package):
        self.package = package
        self.modules = {}
        base = os.path.join(root, package)
        for d, _, files in sorted(os.walk(base)):
            for f in sorted(files):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, ".")
                    name = rel[:-9] if rel.endswith(".__init__") else rel
                    self.modules[name] = Module(name, os.path.join(d, f))
        for m in self.modules.values():
            for n, scope in m.stars:
                src = self.source(m, n)
                if src in self.modules:
                    s = self.modules[src]
                    names = self.all_of(s) or [x for x in s.scope.bound if not x.startswith("_")]
                    for x in names:
                        scope.bound.setdefault(x, []).append(n)
        self.problems, self.active = [], set()
        self.checked = {"names": 0, "attributes": 0, "calls": 0, "imports": 0}
        self.default_only = self.find_default_only()

    def all_of(self, m):
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in n.targets):
                try:
                    return list(ast.literal_eval(n.value))
                except ValueError:
                    return None
        return None

    def source(self, m, n):
        """Absolute name of the module that an import-from statement refers to."""
        if not n.level:
            return n.module
        parts = m.name.split(".")
        if not m.path.endswith("__init__.py"):
            parts = parts[:-1]
        if n.level > 1:
            parts = parts[:-(n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))

    def report(self, m, n, msg):
        if not self.dead(m, n):
            self.problems.append((m.where(n), msg))

    # statically dead code: parameters of private functions that keep their default at all calls

    def find_default_only(self):
        funcs, calls, others = {}, {}, set()
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef) and n.name.startswith("_") and not n.name.startswith("__"):
                    funcs.setdefault(n.name, []).append(n)
                if isinstance(n, ast.Call):
                    f = n.func
                    name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                    if name:
                        calls.setdefault(name, []).append((n, isinstance(f, ast.Attribute)))
                if isinstance(n, (ast.Name, ast.Attribute)):
                    name = n.id if isinstance(n, ast.Name) else n.attr
                    p = m.parents.get(n)
                    if not (isinstance(p, ast.Call) and p.func is n):
                        others.add(name)
        out = {}
        for name, fs in funcs.items():
            if len(fs) != 1 or name in others or any(True for m in self.modules.values() for n in ast.walk(m.tree)
                                                     if isinstance(n, ast.ImportFrom) and any(a.name == name for a in n.names)):
                continue
            f = fs[0]
            a = f.args
            pos = a.posonlyargs + a.args
            given = set()
            for c, attr in calls.get(name, ()):
                if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords):
                    given |= {x.arg for x in pos + a.kwonlyargs}
                off = 1 if attr and pos and pos[0].arg in ("self", "cls") else 0
                given |= {x.arg for x in pos[:len(c.args) + off]} | {k.arg for k in c.keywords}
            for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                if x.arg not in given and isinstance(d, ast.Constant) and d.value is None and \
                        not any(isinstance(y, ast.Name) and y.id == x.arg and not isinstance(y.ctx, ast.Load) for y in ast.walk(f)):
                    out.setdefault(f, set()).add(x.arg)
        return out

    def dead(self, m, n):
        """Is the node under a test of a parameter that is always None?"""
        p, c = m.parents.get(n), n
        while p is not None:
            if isinstance(p, (ast.If, ast.IfExp)):
                t = p.test
                f = m.owner(p)
                body = p.body if isinstance(p.body, list) else [p.body]
                orelse = p.orelse if isinstance(p.orelse, list) else [p.orelse]
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
                        t.left.id in self.default_only.get(f, ()) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
                    if isinstance(t.ops[0], ast.IsNot) and c in body or isinstance(t.ops[0], ast.Is) and c in orelse:
                        return True
                if isinstance(t, ast.Name) and t.id in self.default_only.get(f, ()) and c in body:
                    return True
            c, p = p, m.parents.get(p)
        return False

    # values of expressions, as far as they are known statically

    def resolve(self, m, e, scope):
        """("module", Module) | ("class", m, node) | ("func", m, node) | ("ext", object) | ("inst", m, node) | None"""
        if isinstance(e, ast.Name):
            if e.id == "self" or e.id == "cls":
                f = self.method_of(m, scope)
                if f is not None and f.args.args and f.args.args[0].arg == e.id:
                    c = self.class_of_method(m, f)
                    if c is not None:
                        return ("inst" if e.id == "self" else "class", m, c)
            s = scope.lookup(e.id)
            if s is None:
                return None
            bs = s.bound[e.id]
            if all(isinstance(b, ast.arg) for b in bs) and e.id in ("grid", "state") and s.kind in ("function", "lambda"):
                cls = self.find_class({"grid": "Grid", "state": "State"}[e.id])
                return ("inst", *cls) if cls else None
            if len(bs) != 1:
                return None
            return self.binding(m, e.id, bs[0], s)
        if isinstance(e, ast.Attribute):
            b = self.resolve(m, e.value, scope)
            if b is None:
                return None
            if b[0] == "module":
                return self.member(b[1], e.attr)
            if b[0] == "ext":
                x = getattr_static(b[1], e.attr)
                return None if x is MISSING else ("ext", x)
            if b[0] == "inst":
                if e.attr in ("grid", "_grid") and b[2].name != "Grid":
                    cls = self.find_class("Grid")
                    return ("inst", *cls) if cls else None
                if e.attr in self.stored(b[1], b[2]):
                    return None
                x = self.class_member(b[1], b[2], e.attr)
                if x is not None and isinstance(x[1], ast.FunctionDef) and not x[1].decorator_list:
                    return ("method", x[0], x[1])
                return None
            return None
        if isinstance(e, ast.Call):
            f = self.resolve(m, e.func, scope)
            if f is not None and f[0] == "class":
                return ("inst", f[1], f[2])
        return None

    def method_of(self, m, scope):
        s = scope
        while s is not None and s.kind in ("comp", "lambda"):
            s = s.parent
        return s.node if s is not None and s.kind == "function" else None

    def class_of_method(self, m, f):
        p = m.parents.get(f)
        if isinstance(p, ast.ClassDef) and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.decorator_list):
            return p
        return None

    def find_class(self, name):
        for m in self.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef) and n.name == name:
                    return m, n
        return None

    def binding(self, m, name, b, s):
        key = (m.name, name, id(b))
        if key in self.active:
            return None
        self.active.add(key)
        try:
            return self.binding1(m, name, b, s)
        finally:
            self.active.discard(key)

    def binding1(self, m, name, b, s):
        if isinstance(b, ast.ImportFrom):
            src = self.source(m, b)
            orig = next((a.name for a in b.names if (a.asname or a.name) == name), name)
            if src in self.modules:
                own = self.modules[src].scope.bound.get(orig, ())
                if src + "." + orig in self.modules and all(isinstance(x, ast.ImportFrom) and self.source(self.modules[src], x) == src for x in own):
                    return ("module", self.modules[src + "." + orig])
                return self.member(self.modules[src], orig)
            x = external(src)
            if x is None:
                return None
            y = getattr_static(x, orig)
            if y is MISSING:
                y = external(src + "." + orig)
                return None if y is None else ("ext", y)
            return ("ext", y)
        if isinstance(b, ast.Import):
            a = next((a for a in b.names if (a.asname or a.name.split(".")[0]) == name), None)
            mod = a.name if a.asname else a.name.split(".")[0]
            if mod in self.modules:
                return ("module", self.modules[mod])
            if not a.asname:
                external(a.name)
            x = external(mod)
            return None if x is None else ("ext", x)
        if isinstance(b, ast.ClassDef):
            return ("class", m, b)
        if isinstance(b, ast.FunctionDef):
            if b.decorator_list:
                return None
            if isinstance(m.parents.get(b), ast.ClassDef):
                return None
            return ("func", m, b)
        return None

    def member(self, m, name):
        bs = m.scope.bound.get(name)
        if bs is None:
            if m.name + "." + name in self.modules:
                return ("module", self.modules[m.name + "." + name])
            return None
        if len(bs) != 1:
            return None
        return self.binding(m, name, bs[0], m.scope)

    # classes

    def mro(self, m, c):
        """Classes of the package a class derives from; None if a base is unknown."""
        out = [(m, c)]
        for b in c.bases:
            r = self.resolve(m, b, m.scope)
            if r is None:
                return None
            if r[0] == "class":
                x = self.mro(r[1], r[2])
                if x is None:
                    return None
                out += x
            elif r[0] == "ext" and inspect.isclass(r[1]):
                out.append((None, r[1]))
            else:
                return None
        return out

    def stored(self, m, c):
        """Attributes assigned on instances or on the class from anywhere in the class."""
        out = set()
        for mm, k in self.mro(m, c) or [(m, c)]:
            if mm is None:
                continue
            for n in ast.walk(k):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        out.add(n.args[1].value)
                    else:
                        out.add("*")
                if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                    out.add("*")
        return out

    def class_member(self, m, c, name):
        for mm, k in self.mro(m, c) or [(m, c)]:
            if mm is None:
                if hasattr(k, name):
                    return (None, k)
                continue
            b = self.modules[mm.name].scopes[k].bound.get(name)
            if b:
                return (mm, b[-1])
        return None

    # rules

    def run(self):
        for m in self.modules.values():
            self.names(m)
            self.unbound(m)
            self.imports(m)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.attribute(m, n)
                elif isinstance(n, ast.Call):
                    self.call(m, n)
            exp = self.all_of(m)
            for x in exp or ():
                self.checked["names"] += 1
                if x not in m.scope.bound and m.name + "." + x not in self.modules:
                    self.report(m, m.tree.body[0], "__all__ lists %s, which is not defined" % x)
        return self.problems

    def scope_of(self, m, n):
        c, p = n, m.parents.get(n)
        while p is not None:
            if p in m.scopes:
                s = m.scopes[p]
                if isinstance(p, FUNCS):
                    body = p.body if isinstance(p.body, list) else [p.body]
                    if c in body:
                        return s
                elif isinstance(p, ast.ClassDef):
                    if c in p.body:
                        return s
                elif isinstance(p, COMPS):
                    if not (c is p.generators[0] and self.within(n, p.generators[0].iter)):
                        return s
                else:
                    return s
            c, p = p, m.parents.get(p)
        return m.scope

    @staticmethod
    def within(n, t):
        return any(x is n for x in ast.walk(t))

    def names(self, m):
        known = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__class__", "__loader__"}
        unknown_star = any(self.source(m, n) not in self.modules for n, _ in m.stars)
        for n, scope in m.uses:
            self.checked["names"] += 1
            if n.id in known or unknown_star or scope.lookup(n.id) is not None:
                continue
            s = scope
            while s.parent is not None:
                s = s.parent
            if n.id in s.bound:
                continue
            self.report(m, n, "name %s is not defined" % n.id)

    def unbound(self, m):
        """Uses of local variables that no assignment reaches on any path."""
        for n in list(m.scopes):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                s = m.scopes[n]
                Reaching(self, m, s).block(n.body, {a.arg for a in m.params(n.args)})

    def imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                src = self.source(m, n)
                for a in n.names:
                    self.checked["imports"] += 1
                    if src in self.modules:
                        if a.name != "*" and a.name not in self.modules[src].scope.bound and src + "." + a.name not in self.modules:
                            self.report(m, n, "%s is not defined in %s" % (a.name, src))
                    elif src.split(".")[0] == self.package:
                        self.report(m, n, "module %s does not exist" % src)
                    else:
                        x = external(src)
                        if x is not None and a.name != "*" and getattr_static(x, a.name) is MISSING and external(src + "." + a.name) is None:
                            self.report(m, n, "%s is not defined in the installed %s" % (a.name, src))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.checked["imports"] += 1
                    if a.name.split(".")[0] == self.package and a.name not in self.modules:
                        self.report(m, n, "module %s does not exist" % a.name)
                    elif a.name.split(".")[0] != self.package and external(a.name.split(".")[0]) is not None and external(a.name) is None:
                        self.report(m, n, "module %s does not exist" % a.name)

    def attribute(self, m, n):
        b = self.resolve(m, n.value, self.scope_of(m, n))
        if b is None:
            return
        self.checked["attributes"] += 1
        if b[0] == "module":
            if n.attr not in b[1].scope.bound and b[1].name + "." + n.attr not in self.modules and not n.attr.startswith("__"):
                self.report(m, n, "module %s has no attribute %s" % (b[1].name, n.attr))
        elif b[0] == "ext":
            if getattr_static(b[1], n.attr) is MISSING and inspect.ismodule(b[1]):
                if external(b[1].__name__ + "." + n.attr) is None or not self.imported(m, b[1].__name__ + "." + n.attr):
                    self.report(m, n, "%s has no attribute %s" % (getattr(b[1], "__name__", b[1]), n.attr))
        elif b[0] in ("inst", "class"):
            if self.mro(b[1], b[2]) is None or n.attr.startswith("__"):
                return
            st = self.stored(b[1], b[2])
            if n.attr in st or "*" in st or self.class_member(b[1], b[2], n.attr) is not None:
                return
            if any(self.class_member(b[1], b[2], g) is not None and self.class_member(b[1], b[2], g)[0] is not None
                   for g in ("__getattr__", "__getattribute__")):
                return
            # attributes stored from elsewhere on instances of the class
            if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == n.attr and self.may_store(mm, x, b)
                   for mm in self.modules.values() for x in ast.walk(mm.tree)):
                return
            self.report(m, n, "%s has no attribute %s" % (b[2].name, n.attr))

    def may_store(self, m, n, b):
        """Can the receiver of an attribute store be an instance of the class?"""
        r = self.resolve(m, n.value, self.scope_of(m, n))
        if r is None or r[0] not in ("inst", "class"):
            return True
        # both classes among the bases of one
        for mm in self.modules.values():
            for k in ast.walk(mm.tree):
                if isinstance(k, ast.ClassDef):
                    mro = self.mro(mm, k)
                    if mro is None or {id(r[2]), id(b[2])} <= {id(x) for _, x in mro}:
                        return True
        return False

    def imported(self, m, name):
        return any(isinstance(x, ast.Import) and any(a.name == name or a.name.startswith(name + ".") for a in x.names)
                   for mm in self.modules.values() for x in ast.walk(mm.tree))

    def call(self, m, n):
        scope = self.scope_of(m, n)
        f = self.resolve(m, n.func, scope)
        if f is None:
            return
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        npos, kws = len(n.args), [k.arg for k in n.keywords]
        if f[0] == "ext":
            try:
                sig = inspect.signature(f[1])
            except (ValueError, TypeError):
                return
            self.checked["calls"] += 1
            try:
                sig.bind(*[None] * npos, **{k: None for k in kws})
            except TypeError as e:
                self.report(m, n, "call of %s: %s" % (getattr(f[1], "__name__", "?"), e))
            return
        if f[0] == "class":
            if f[2].decorator_list or f[2].keywords:
                return
            x = self.class_member(f[1], f[2], "__init__")
            if x is None or x[0] is None or not isinstance(x[1], ast.FunctionDef) or x[1].decorator_list or \
                    self.class_member(f[1], f[2], "__new__") and self.class_member(f[1], f[2], "__new__")[0] is not None:
                return
            self.signature(m, n, f[2].name, x[1].args, npos + 1, kws)
        elif f[0] == "func":
            self.signature(m, n, f[2].name, f[2].args, npos, kws)
        elif f[0] == "method":
            self.signature(m, n, f[2].name, f[2].args, npos + 1, kws)

    def signature(self, m, n, name, a, npos, kws):
        self.checked["calls"] += 1
        pos = a.posonlyargs + a.args
        msg = None
        if npos > len(pos) and a.vararg is None:
            msg = "takes %d positional arguments, %d given" % (len(pos), npos)
        names = {x.arg for x in a.args + a.kwonlyargs}
        for k in kws:
            if k not in names and a.kwarg is None:
                msg = "has no parameter %s" % k
            elif k in {x.arg for x in pos[:npos]}:
                msg = "gets parameter %s twice" % k
        need = [x.arg for x in pos[:len(pos) - len(a.defaults)]] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        given = {x.arg for x in pos[:npos]} | set(kws)
        for x in need:
            if x not in given:
                msg = "misses parameter %s" % x
        if msg:
            self.report(m, n, "call of %s: %s" % (name, msg))


class Reaching:
    """May-be-assigned analysis of the local variables of one function (None: unreachable)."""

    def __init__(self, prog, m, scope):
        self.prog, self.m, self.scope = prog, m, scope
        self.seen = set()

    def targets(self, n):
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {a.asname or a.name.split(".")[0] for a in x.names}
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                out.add(x.name)
            elif isinstance(x, ast.MatchMapping) and x.rest:
                out.add(x.rest)
        return out

    def use(self, e, env):
        if e is None or env is None:
            return
        env = env | {x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)}
        self.expr(e, env)

    def expr(self, e, env):
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, COMPS):
            env = env | {y.id for g in e.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
        if isinstance(e, ast.Name) and isinstance(e.ctx, (ast.Load, ast.Del)):
            s = self.scope
            if e.id in s.bound and e.id not in s.globals and e.id not in env and e not in self.seen and \
                    not any(isinstance(g, ast.Nonlocal) and e.id in g.names for g in ast.walk(s.node)):
                self.seen.add(e)
                self.prog.report(self.m, e, "variable %s is used before any assignment" % e.id)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c, env)

    def block(self, body, env):
        for s in body:
            env = self.stmt(s, env)
        return env

    @staticmethod
    def join(*es):
        es = [e for e in es if e is not None]
        return set().union(*es) if es else None

    def stmt(self, s, env):
        if env is None:
            return None
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.use(d, env)
            return env | {s.name}
        if isinstance(s, ast.If):
            self.use(s.test, env)
            env = env | self.targets(s.test)
            return self.join(self.block(s.body, env), self.block(s.orelse, env))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.use(s.iter if hasattr(s, "iter") else s.test, env)
            inner = env | self.targets(s)
            self.block(s.body, inner)
            self.block(s.orelse, inner)
            return inner
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            inner = env | set().union(*[self.targets(x) for x in s.body]) if s.body else env
            outs = [self.block(s.body, env)]
            outs[0] = self.block(s.orelse, outs[0])
            for h in s.handlers:
                self.use(h.type, env)
                outs.append(self.block(h.body, inner | ({h.name} if h.name else set())))
            every = env | self.targets(s)
            self.block(s.finalbody, every)
            out = self.join(*outs)
            return None if out is None else out | set().union(*[self.targets(x) for x in s.finalbody])
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, env)
                if i.optional_vars is not None:
                    env = env | self.targets(i.optional_vars)
            out = self.block(s.body, env)
            return out if out is not None else env | self.targets(s)
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.use(c, env)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            self.use(s.value, env)
            self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), env)
            return env
        if type(s).__name__ == "Match":
            self.use(s.subject, env)
            return self.join(env, *[self.block(c.body, env | self.targets(c)) for c in s.cases])
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.use(c, env)
        return env | self.targets(s)


MISSING = object()


def getattr_static(x, name):
    try:
        return getattr(x, name)
    except AttributeError:
        return MISSING


_EXT = {}


def external(name):
    if name not in _EXT:
        try:
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                _EXT[name] = importlib.import_module(name)
        except Exception:
            _EXT[name] = None
    return _EXT[name]
