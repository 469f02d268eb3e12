"""Values as hashable terms, and substitution inside values."""

from . import poly as P
from .poly import Poly, Atom, ONE, ZERO, ite, atom, topoly
from .values import *
from .values import Num, Const


def reify(I, v, seen=()):
    """Poly or Atom identifying the value extensionally."""
    if isinstance(v, (Poly, Atom)):
        return v
    if isinstance(v, Num):
        return v.p
    if isinstance(v, Const):
        return atom("const", repr(v.v))
    if isinstance(v, Opq):
        return v.t
    if isinstance(v, Tup):
        return atom("tup", tuple(reify(I, x, seen) for x in v.items))
    if isinstance(v, Arr):
        from . import arrays
        c = arrays.read(I, v)
        if not c.sizes:
            return c.body
        return P.lam(list(c.sizes), c.body, [arrays.vix(c.sizes, j) for j in range(len(c.sizes))])
    if isinstance(v, Seq):
        e = reify(I, v.elem, seen)
        return atom("seq", P.lam([v.n], topoly(e), [v.var]))
    if isinstance(v, Phi):
        a, b = reify(I, v.a, seen), reify(I, v.b, seen)
        if a is b:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            return ite(v.c, a, b)
        return atom("phi", v.c, a, b)
    if isinstance(v, Slc):
        return atom("slice", reify(I, v.start, seen), reify(I, v.stop, seen), reify(I, v.step, seen))
    if isinstance(v, Ext):
        return atom("ext", v.path)
    if isinstance(v, Cls):
        return atom("cls", v.name)
    if isinstance(v, Mod):
        return atom("mod_", v.name)
    if isinstance(v, Bound):
        return atom("bound", reify(I, v.func, seen), reify(I, v.self, seen))
    if isinstance(v, Partial):
        return atom("partial", reify(I, v.func, seen), tuple(reify(I, x, seen) for x in v.args),
                    tuple((k, reify(I, v.kwargs[k], seen)) for k in sorted(v.kwargs)))
    if isinstance(v, Memo):
        return reify(I, v.f, seen)
    if isinstance(v, Native):
        return atom("native", v.name, 0 if v.data is None else reify(I, v.data, seen) if isinstance(v.data, (V, Poly, Atom)) else v.data)
    if isinstance(v, Func):
        return func_term(I, v, seen)
    if isinstance(v, Undef):
        return atom("undef")
    if isinstance(v, (ClsMeth, StaticMeth)):
        return reify(I, v.f, seen)
    if isinstance(v, Prop):
        return atom("prop", reify(I, v.fget, seen))
    if isinstance(v, Super):
        return atom("super", v.cls.name)
    if isinstance(v, Ref):
        if v.id in seen:
            return atom("cycle", seen[::-1].index(v.id))
        return content_term(I, v, I.heap[v.id], seen + (v.id,))
    raise TypeError(v)


def content_term(I, v, c, seen):
    if type(c).__name__ == "PhiC":
        a, b = content_term(I, v, c.a, seen), content_term(I, v, c.b, seen)
        return a if a is b else atom("phi", c.c, a, b)
    if isinstance(c, ListC):
        return atom("list", tuple(atom("seg", reify(I, x.v, seen)) if isinstance(x, Seg) else reify(I, x, seen)
                                  for x in c.items))
    if isinstance(c, SetC):
        return atom("setlit", tuple(sorted((reify(I, x, seen) for x in c.items), key=repr)))
    if isinstance(c, DictC):
        return atom("dictlit", tuple((reify(I, k, seen), reify(I, x, seen)) for k, x in c.items))
    if isinstance(c, InstC):
        hook = I.reify_hooks.get(c.cls.name)
        if hook is not None:
            t = hook(I, v, c, seen)
            if t is not None:
                return t
        return atom("inst", c.cls.name, tuple((k, reify(I, c.attrs[k], seen)) for k in sorted(c.attrs)
                                              if c.attrs[k] is not UNDEF))
    raise TypeError(c)


def func_term(I, f, seen):
    """Functions are identified extensionally where possible: by the value
    they compute for symbolic numbers."""
    key = ("func", id(f))
    if key in seen:
        return atom("rec", f.name)
    if f.name.endswith("<lambda>") or "<locals>" in f.name:
        a = f.node.args
        if not (a.vararg or a.kwarg or a.kwonlyargs) and not getattr(I, "in_func_term", 0):
            I.in_func_term = 1
            st = I.save()
            try:
                args = [Num(P.sym("arg%d" % k), "f8", False) for k in range(len(a.posonlyargs + a.args))]
                v = I.call(f, args, {})
                t = reify(I, v, seen + (key,))
                if I.pc.terms:
                    return atom("function", len(args), t)
            except Exception as e:
                if type(e).__name__ != "Unsupported":
                    raise
            finally:
                I.restore(st)
                I.in_func_term = 0
        # closure variables
        import ast
        names = sorted({n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)})
        out = []
        for n in names:
            fid = f.frame
            while fid is not None and I.heap[fid].kind != "module":
                if n in I.heap[fid].vars and I.heap[fid].kind != "class":
                    x = I.heap[fid].vars[n]
                    out.append((n, reify(I, x, seen + (key,))))
                    break
                fid = I.heap[fid].parent
        return atom("closure", f.name, tuple(out))
    return atom("fun", I.qualname(f))


# --- substitution ---------------------------------------------------------------

class Everything:
    """Leaves that may change under a renaming"""

    def __rand__(self, other):
        return True


ALL = Everything()


class Renaming:
    """Injective renaming of arrays and symbols, used like a substitution."""

    def __init__(self, f):
        self.f = f              # (kind, name) -> new name or None
        self.ids = {}

    def __iter__(self):
        return iter(())

    def __bool__(self):
        return True

    def __contains__(self, i):
        if i not in self.ids:
            a = P.ATOMS[i]
            self.ids[i] = None
            if a.op in ("data", "sym") and isinstance(a.args[0], str):
                n = self.f(a.args[1] if a.op == "sym" else a.op, a.args[0])
                if n is not None:
                    b = topoly(atom(a.op, n, *a.args[1:]))
                    if i in P.POSITIVE:
                        P.declare_positive(b)
                    self.ids[i] = b
        return self.ids[i] is not None

    def __getitem__(self, i):
        return self.ids[i]


def _sb(p, mp):
    return P.subst_atoms(p, mp) if isinstance(mp, Renaming) else P.subst(p, mp)


def vsubst(I, v, mp, own=False):
    """own: instances that change get lists and dictionaries of their own"""
    if not mp:
        return v
    keys = ALL if isinstance(mp, Renaming) else frozenset(mp)
    return _vs(I, v, mp, keys, {"own": {}} if own else {})


def shared_cells(I):
    """Cells that modules, classes and default arguments of functions refer to."""
    out = set()
    for c in I.heap.values():
        if isinstance(c, FrameC) and c.kind in ("module", "class", "attrs"):
            for x in c.vars.values():
                for y in [x, *(x.defaults or ()), *(x.kwdefaults or {}).values()] if isinstance(x, Func) else [x]:
                    if isinstance(y, Ref):
                        out.add(y.id)
    return out


def own_copy(I, v, memo):
    """Copies of the containers that an instance refers to (not of those that a module or class refers to)."""
    if isinstance(v, Tup):
        items = [own_copy(I, x, memo) for x in v.items]
        return v if all(x is y for x, y in zip(items, v.items)) else Tup(items)
    if isinstance(v, Phi):
        a, b = own_copy(I, v.a, memo), own_copy(I, v.b, memo)
        return v if a is v.a and b is v.b else I.phi(v.c, a, b, True)
    if not isinstance(v, Ref) or not isinstance(I.heap[v.id], (ListC, DictC, SetC)):
        return v
    own = memo["own"]
    if v.id not in own:
        own[v.id] = v
        if "shared" not in memo:
            memo["shared"] = shared_cells(I)
        if v.id not in memo["shared"]:
            c = I.heap[v.id]
            if isinstance(c, DictC):
                n = DictC([(k, own_copy(I, x, memo)) for k, x in c.items], c.origin)
            else:
                n = type(c)([own_copy(I, x, memo) for x in c.items], c.origin)
            own[v.id] = Ref(I.alloc(n))
    return own[v.id]


def _vs(I, v, mp, keys, memo):
    s = lambda x: _vs(I, x, mp, keys, memo)
    if isinstance(v, Num):
        p = _sb(v.p, mp)
        return v if p is v.p else Num(p, v.dt, v.weak)
    if isinstance(v, Opq):
        if not (v.t.leaves & keys):
            return v
        p = _sb(topoly(v.t), mp)
        a = as_atom(p)
        return Opq(a, v.tag) if a is not None else Num(p, "o")
    if isinstance(v, Tup):
        items = [s(x) for x in v.items]
        return v if all(x is y for x, y in zip(items, v.items)) else Tup(items)
    if isinstance(v, Phi):
        c = _sb(v.c, mp)
        a, b = s(v.a), s(v.b)
        if c is v.c and a is v.a and b is v.b:
            return v
        return I.phi(c, a, b, True)
    if isinstance(v, Slc):
        a, b, c = s(v.start), s(v.stop), s(v.step)
        return v if a is v.start and b is v.stop and c is v.step else Slc(a, b, c)
    if isinstance(v, Seq):
        n = _sb(v.n, mp)
        if n is v.n:
            e = s(v.elem)
            return v if e is v.elem else Seq(n, v.var, e, v.obj)
        var = P.fresh_var(n)
        return Seq(n, var, vsubst(I, vsubst(I, v.elem, {v.var.id: topoly(var)}), mp), v.obj)
    if isinstance(v, Seg):
        x = s(v.v)
        return v if x is v.v else Seg(x)
    if isinstance(v, Arr):
        from . import arrays
        c = I.heap[v.id]
        lv = c.body.leaves
        dep = bool(lv & keys) or any(x.leaves & keys for x in c.sizes) or any(x.leaves & keys for x in v.sizes)
        if v.view is not None and not dep:
            for m in v.view.maps:
                if any(isinstance(x, Poly) and x.leaves & keys for x in m):
                    dep = True
        if not dep:
            return v
        r = arrays.read(I, v)
        sizes = [_sb(x, mp) for x in r.sizes]
        # index variables of changed sizes are renamed by the substitution
        return I.new_arr(sizes, _sb(r.body, mp), r.dt)
    if isinstance(v, Bound):
        f, o = s(v.func), s(v.self)
        return v if f is v.func and o is v.self else Bound(f, o)
    if isinstance(v, Partial):
        f = s(v.func)
        args = [s(x) for x in v.args]
        kw = {k: s(x) for k, x in v.kwargs.items()}
        if f is v.func and all(x is y for x, y in zip(args, v.args)) and all(kw[k] is v.kwargs[k] for k in kw):
            return v
        return Partial(f, args, kw)
    if isinstance(v, Native):
        d = v.data
        if isinstance(d, (V, Poly)) or isinstance(d, tuple):
            return v
        return v
    if isinstance(v, Func):
        fid = frame_subst(I, v.frame, mp, keys, memo)
        if fid == v.frame:
            return v
        k = ("F", id(v))
        if k not in memo:
            g = Func(v.node, fid, v.defaults, v.kwdefaults, v.name, v.module, v.cls)
            g.attrs = v.attrs
            memo[k] = g
        return memo[k]
    if isinstance(v, Ref):
        if v.id in memo:
            r = memo[v.id]
            return v if r is None else r
        memo[v.id] = None
        c = I.heap[v.id]
        n = cont_subst(I, c, s, mp, keys)
        if n is c:
            return v
        if "own" in memo and isinstance(n, InstC):
            n = InstC(n.cls, {k: own_copy(I, x, memo) if x is c.attrs[k] else x for k, x in n.attrs.items()}, n.origin)
        memo[v.id] = r = Ref(I.alloc(n))
        return r
    return v


def frame_subst(I, fid, mp, keys, memo):
    if fid is None or I.heap[fid].kind == "module":
        return fid
    k = ("fr", fid)
    if k in memo:
        return memo[k]
    memo[k] = fid
    c = I.heap[fid]
    par = frame_subst(I, c.parent, mp, keys, memo)
    vars = {n: (x if n == "%decl" else _vs(I, x, mp, keys, memo)) for n, x in c.vars.items()}
    if par == c.parent and all(vars[n] is c.vars[n] for n in vars):
        return fid
    memo[k] = I.alloc(FrameC(vars, par, c.kind))
    return memo[k]


def cont_subst(I, c, s, mp, keys):
    if type(c).__name__ == "PhiC":
        cond = _sb(c.c, mp)
        a, b = cont_subst(I, c.a, s, mp, keys), cont_subst(I, c.b, s, mp, keys)
        if cond is c.c and a is c.a and b is c.b:
            return c
        if cond is ONE:
            return a
        if cond is ZERO:
            return b
        return type(c)(cond, a, b)
    if isinstance(c, (ListC, SetC)):
        items = [s(x) for x in c.items]
        return c if all(x is y for x, y in zip(items, c.items)) else type(c)(items, c.origin)
    if isinstance(c, DictC):
        items = [(s(k), s(x)) for k, x in c.items]
        return c if all(x[0] is y[0] and x[1] is y[1] for x, y in zip(items, c.items)) else DictC(items, c.origin)
    if isinstance(c, InstC):
        attrs = {k: s(x) for k, x in c.attrs.items()}
        return c if all(attrs[k] is c.attrs[k] for k in attrs) else InstC(c.cls, attrs, c.origin)
    return c


def as_atom(p):
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return P.ATOMS[m[0][0]]
    return None
