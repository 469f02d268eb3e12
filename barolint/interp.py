"""Interprocedural value-graph construction for the repository's Python code.

The analysis walks the syntax trees of the modules and computes, for an entry
point and symbolic arguments, the gated value graph of its result together with
the guards of all exceptions, writes to caller-owned storage and calls of
unknown code.  Control-flow merges join heaps with gates; loops of symbolic
length become recurrences (map/sum/append forms or loop terms).  Nothing of the
analysed code is executed.
"""

import ast
import builtins as _bi
import os
from fractions import Fraction

from .desugar import desugar
from . import poly as P
from .poly import Poly, Atom, ONE, ZERO, AND, OR, NOT, ite, atom, topoly
from .values import *
from .values import Num, Const


class Unsupported(P.TooLarge):
    """The analysis cannot model a construct: the obligation is undecided."""

    def __init__(self, msg, loc=None):
        super().__init__(msg)
        self.loc = loc


DEAD = (Unsupported, AttributeError, TypeError, ValueError, KeyError, IndexError, AssertionError)


class PhiC:
    """Gated heap content"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    @property
    def origin(self):
        return self.a.origin


class RaiseRec:
    __slots__ = ("guard", "exc", "loc", "msg")

    def __init__(self, guard, exc, loc, msg=None):
        self.guard, self.exc, self.loc, self.msg = guard, exc, loc, msg

    def __repr__(self):
        return "Raise(%s at %s if %r)" % (self.exc, self.loc, self.guard)


class Effect:
    __slots__ = ("guard", "origin", "loc", "how")

    def __init__(self, guard, origin, loc, how):
        self.guard, self.origin, self.loc, self.how = guard, origin, loc, how

    def __repr__(self):
        return "Effect(%s of %s at %s)" % (self.how, self.origin, self.loc)


class Event:
    __slots__ = ("guard", "recv", "name", "args", "kwargs", "loc", "result")

    def __init__(self, guard, recv, name, args, kwargs, loc, result):
        self.guard, self.recv, self.name = guard, recv, name
        self.args, self.kwargs, self.loc, self.result = args, kwargs, loc, result

    def __repr__(self):
        return "Event(%r.%s%r %r)" % (self.recv, self.name, self.args, self.kwargs)


class Fx:
    """Execution context of one function activation (or one branch of it)."""

    def __init__(self, frame, func=None):
        self.frame = frame
        self.func = func
        self.live = ONE
        self.rets = []          # (rel. guard, value, heap, abs. pc, loc)
        self.loops = []         # stack of LoopCtx
        self.cls = None
        self.yields = None


class LoopCtx:
    def __init__(self):
        self.breaks = []        # (rel. guard, heap, abs pc)
        self.conts = []


MAX_DEPTH = 60
MAX_UNROLL = 400


class Interp:

    def __init__(self, root, package="barotropic", stubs=None):
        self.root = root
        self.package = package
        self.stubs = stubs or {}        # module name -> path of stub source
        self.heap = {}
        self.nextid = 0
        self.pc = ONE
        self.raises = []
        self.effects = []
        self.events = []
        self.modules = {}
        self.loaded = {}
        self.loaded = {}
        self.loc = None
        self.depth = 0
        self.overrides = {}             # function qualname -> Native
        self.analysed = set()           # functions visited
        self.sites = 0
        self.unroll = 0                 # bounded unrolling of symbolic loops
        self.abstract = 0               # depth of generic iterations
        self.bound = ZERO               # region cut off by the bound
        self.loading = []
        self.memo = {}
        self.narrow_powers = []
        self.reify_hooks = {}
        self.mu_hooks = {}
        from . import models
        self.models = models.build(self)
        self.builtins = models.builtins_table(self)

    # --- heap -----------------------------------------------------------

    def alloc(self, content):
        self.nextid += 1
        self.heap[self.nextid] = content
        return self.nextid

    def new_list(self, items):
        return Ref(self.alloc(ListC(items)))

    def new_dict(self, items):
        return Ref(self.alloc(DictC(items)))

    def new_set(self, items):
        return Ref(self.alloc(SetC(items)))

    def new_arr(self, sizes, body, dt="f8", origin=None):
        return Arr(self.alloc(ArrC(sizes, body, dt, origin)), sizes)

    def new_inst(self, cls, attrs=None):
        return Ref(self.alloc(InstC(cls, attrs or {})))

    def content(self, v):
        return self.heap[v.id]

    # --- modules --------------------------------------------------------

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.module_path(name)
        if path is None:
            return None
        frame = self.alloc(FrameC({}, None, "module"))
        m = Mod(name, frame, path)
        self.modules[name] = m
        src = open(path, encoding="utf-8").read()
        tree = desugar(ast.parse(src, path))
        self.setvar_raw(frame, "__name__", Const(name))
        self.setvar_raw(frame, "__file__", Const(path))
        fx = Fx(frame)
        fx.module = m
        save = self.pc, self.loc
        self.pc = ONE
        try:
            self.exec_block(tree.body, fx)
            self.loaded[name] = self.pc
        finally:
            self.pc, self.loc = save
        return m

    def module_path(self, name):
        if name in self.stubs:
            return self.stubs[name]
        parts = name.split(".")
        if parts[0] != self.package:
            return None
        base = os.path.join(self.root, *parts)
        if os.path.isdir(base):
            p = os.path.join(base, "__init__.py")
            return p if os.path.exists(p) else None
        if os.path.exists(base + ".py"):
            return base + ".py"
        return None

    def module_of_frame(self, fid):
        c = self.heap[fid]
        while c.kind != "module":
            fid = c.parent
            c = self.heap[fid]
        for m in self.modules.values():
            if m.frame == fid:
                return m
        return None

    # --- variables ------------------------------------------------------

    def setvar_raw(self, fid, name, v):
        c = self.heap[fid]
        vars = dict(c.vars)
        vars[name] = v
        self.heap[fid] = FrameC(vars, c.parent, c.kind)

    def setvar(self, fx, name, v):
        c = self.heap[fx.frame]
        decl = c.vars.get("%decl")
        if decl is not None and name in decl:
            if decl[name] == "global":
                fid = fx.frame
                while self.heap[fid].kind != "module":
                    fid = self.heap[fid].parent
                return self.setvar_raw(fid, name, v)
            fid = c.parent
            while fid is not None:
                cc = self.heap[fid]
                if name in cc.vars and cc.kind != "class":
                    return self.setvar_raw(fid, name, v)
                fid = cc.parent
        self.setvar_raw(fx.frame, name, v)

    def getvar(self, fid, name):
        f = fid
        first = True
        while f is not None:
            c = self.heap[f]
            if name in c.vars and (first or c.kind != "class"):
                return self.defined(c.vars[name], name)
            first = False
            f = c.parent
        if name in self.builtins:
            return self.builtins[name]
        if name == "NotImplemented":
            return NOTIMPL
        if hasattr(_bi, name):
            return Ext("builtins." + name)
        self.raise_("NameError", msg="name %r is not defined" % name)
        return Opq(atom("unbound", name))

    def defined(self, v, name):
        """Strip undefined alternatives (they raise)."""
        if v is UNDEF:
            self.raise_("UnboundLocalError", msg=name)
            return Opq(atom("unbound", name))
        if isinstance(v, Phi) and self.has_undef(v):
            if v.a is UNDEF:
                self.raise_if(v.c, "UnboundLocalError", msg=name)
                return self.defined(v.b, name)
            if v.b is UNDEF:
                self.raise_if(NOT(v.c), "UnboundLocalError", msg=name)
                return self.defined(v.a, name)
            return self.split(v.c, lambda: self.defined(v.a, name), lambda: self.defined(v.b, name))
        return v

    def has_undef(self, v):
        return v is UNDEF or isinstance(v, Phi) and (self.has_undef(v.a) or self.has_undef(v.b))

    # --- exceptions -----------------------------------------------------

    def raise_(self, exc, msg=None):
        """Unconditional exception: the current path ends."""
        if self.pc.terms:
            self.raises.append(RaiseRec(self.pc, exc, self.loc, msg))
        self.pc = ZERO

    def raise_if(self, cond, exc, msg=None):
        g = AND(self.pc, cond)
        if g.terms:
            self.raises.append(RaiseRec(g, exc, self.loc, msg))
            self.pc = AND(self.pc, NOT(cond))

    def unsupported(self, msg):
        raise Unsupported(msg, self.loc)

    # --- joins ----------------------------------------------------------

    def under(self, c):
        """c given the path condition: ONE, ZERO or c itself."""
        if c is ONE or c is ZERO:
            return c
        g = AND(self.pc, c)
        if not g.terms:
            return ZERO
        if g is self.pc or not AND(self.pc, NOT(c)).terms:
            return ONE
        return c

    def split(self, c, fa, fb, fresh=False):
        """Evaluate both alternatives of a gate and join."""
        if not self.pc.terms:
            # dead code: one alternative suffices
            return fa()
        u = self.under(c)
        if u is ONE:
            return fa()
        if u is ZERO:
            return fb()
        pc0, h0 = self.pc, self.heap
        self.heap = dict(h0)
        self.pc = AND(pc0, c)
        a = self.alive(fa)
        pc1, h1 = self.pc, self.heap
        self.heap = dict(h0)
        self.pc = AND(pc0, NOT(c))
        b = self.alive(fb)
        pc2, h2 = self.pc, self.heap
        self.pc = P.padd(pc1, pc2)
        if not pc1.terms:
            self.heap = h2
            return b
        if not pc2.terms:
            self.heap = h1
            return a
        self.heap = self.merge_heaps(c, h1, h2)
        return self.phi(c, a, b, fresh)

    def lift(self, v, f, fresh=False):
        if isinstance(v, Phi):
            return self.split(v.c, lambda: self.lift(v.a, f, fresh), lambda: self.lift(v.b, f, fresh), fresh)
        return f(v)

    def lift2(self, a, b, f):
        return self.lift(a, lambda x: self.lift(b, lambda y: f(x, y), True), True)

    def liftn(self, vs, f, fresh=True):
        """Lift over every Phi in the list of values."""
        vs = list(vs)
        for k, v in enumerate(vs):
            if isinstance(v, Phi):
                def alt(x, k=k):
                    w = list(vs)
                    w[k] = x
                    return self.liftn(w, f, fresh)
                return self.split(v.c, lambda: alt(v.a), lambda: alt(v.b), fresh)
        return f(*vs)

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Num):
            return a.p is b.p and a.dt == b.dt
        if isinstance(a, Const):
            return a.v == b.v and type(a.v) is type(b.v)
        if isinstance(a, Ref):
            return a.id == b.id
        if isinstance(a, Arr):
            return a.id == b.id and (a.view is b.view or (a.view is not None and b.view is not None
                                     and a.view.maps == b.view.maps)) and a.sizes == b.sizes
        if isinstance(a, Opq):
            return a.t is b.t
        if isinstance(a, Ext):
            return a.path == b.path
        if isinstance(a, Mod):
            return a.frame == b.frame
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Bound):
            return self.same(a.func, b.func) and self.same(a.self, b.self)
        if isinstance(a, Phi):
            return a.c is b.c and self.same(a.a, b.a) and self.same(a.b, b.b)
        return False

    def phi(self, c, a, b, fresh=False):
        if self.same(a, b):
            return a
        if c is ONE:
            return a
        if c is ZERO:
            return b
        if isinstance(a, Num) and isinstance(b, Num):
            num_a, num_b = a.dt in _NUMERIC, b.dt in _NUMERIC
            if (num_a and num_b) or a.dt == b.dt:
                if a.dt == b.dt:
                    dt = a.dt
                else:
                    dt = max(a.dt, b.dt, key=lambda d: _NUMERIC[d])
                return Num(ite(c, a.p, b.p), dt, a.weak and b.weak)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.phi(c, x, y, fresh) for x, y in zip(a.items, b.items)])
        if fresh and isinstance(a, Arr) and isinstance(b, Arr) and self.sizes_same(a.sizes, b.sizes):
            ca, cb = self.read(a), self.read(b)
            dt = ca.dt if ca.dt == cb.dt else (max(ca.dt, cb.dt, key=lambda d: _NUMERIC[d])
                                               if ca.dt in _NUMERIC and cb.dt in _NUMERIC else "o")
            return self.new_arr(a.sizes, ite(c, ca.body, cb.body), dt)
        if fresh and isinstance(a, Arr) and isinstance(b, Num):
            ca = self.read(a)
        if isinstance(a, Slc) and isinstance(b, Slc):
            return Slc(self.phi(c, a.start, b.start), self.phi(c, a.stop, b.stop), self.phi(c, a.step, b.step))
        # avoid nesting on the same gate
        if isinstance(a, Phi) and a.c is c:
            a = a.a
        if isinstance(b, Phi) and b.c is c:
            b = b.b
        if self.same(a, b):
            return a
        return Phi(c, a, b)

    def sizes_same(self, s, t):
        return len(s) == len(t) and all(P.equal(x, y) for x, y in zip(s, t))

    def merge_heaps(self, c, h1, h2):
        out = {}
        if len(h1) >= len(h2):
            big, small, swap = h1, h2, False
        else:
            big, small, swap = h2, h1, True
        out = dict(big)
        for k, x2 in small.items():
            x1 = big.get(k)
            if x1 is None:
                out[k] = x2
            elif x1 is not x2:
                out[k] = self.merge_content(c, x2, x1) if swap else self.merge_content(c, x1, x2)
        return out

    def merge_content(self, c, x, y):
        if type(x) is type(y):
            if isinstance(x, FrameC):
                vars = dict(x.vars)
                for k in set(x.vars) | set(y.vars):
                    a, b = x.vars.get(k, UNDEF), y.vars.get(k, UNDEF)
                    if a is b:
                        continue
                    if k == "%decl":
                        vars[k] = a if a is not UNDEF else b
                    else:
                        vars[k] = self.phi(c, a, b)
                return FrameC(vars, x.parent, x.kind)
            if isinstance(x, ArrC):
                return ArrC(x.sizes, ite(c, x.body, y.body), x.dt if x.dt == y.dt else "f8", x.origin)
            if isinstance(x, InstC):
                attrs = dict(x.attrs)
                for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                    a, b = x.attrs.get(k, UNDEF), y.attrs.get(k, UNDEF)
                    attrs[k] = a if a is b else self.phi(c, a, b)
                return InstC(x.cls, attrs, x.origin)
            if isinstance(x, ListC):
                if len(x.items) == len(y.items) and not any(isinstance(i, Seg) for i in x.items + y.items):
                    return ListC([self.phi(c, a, b) for a, b in zip(x.items, y.items)], x.origin)
                if len(x.items) == len(y.items) and all(a is b for a, b in zip(x.items, y.items)):
                    return x
            if isinstance(x, DictC):
                if len(x.items) == len(y.items) and all(self.same(a[0], b[0]) for a, b in zip(x.items, y.items)):
                    return DictC([(a[0], self.phi(c, a[1], b[1])) for a, b in zip(x.items, y.items)], x.origin)
            if isinstance(x, MemoC):
                k = 0
                while k < min(len(x.items), len(y.items)) and x.items[k] is y.items[k]:
                    k += 1
                return MemoC(x.items[:k] + tuple((AND(e[0], c),) + e[1:] for e in x.items[k:])
                             + tuple((AND(e[0], NOT(c)),) + e[1:] for e in y.items[k:]))
        return PhiC(c, x, y)

    def with_content(self, ref, f):
        """Run f(content) for a Ref, splitting on gated contents."""
        c = self.heap[ref.id]
        if isinstance(c, PhiC):
            def alt(content):
                self.heap[ref.id] = content
                return self.with_content(ref, f)
            return self.split(c.c, lambda: alt(c.a), lambda: alt(c.b))
        return f(c)

    # --- statements -----------------------------------------------------

    def exec_block(self, stmts, fx):
        for s in stmts:
            if not fx.live.terms or not self.pc.terms:
                return
            self.exec_stmt(s, fx)

    def setloc(self, node, fx):
        f = fx.func
        self.loc = (self.file_of(fx), getattr(node, "lineno", 0), f.name if f is not None else "<module>")

    def file_of(self, fx):
        m = getattr(fx, "module", None)
        if m is None and fx.func is not None:
            m = fx.func.module
        return m.path if m is not None else "?"

    def exec_stmt(self, s, fx):
        self.setloc(s, fx)
        self.sites += 1
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.unsupported("statement %s" % type(s).__name__)
        n = len(fx.loops)
        try:
            m(s, fx)
        except DEAD:
            del fx.loops[n:]
            if self.pc.terms:
                raise       # otherwise: code after a certain exception

    def alive(self, f):
        """The value of f(), which may be analysed beyond a certain exception."""
        try:
            return f()
        except DEAD:
            if self.pc.terms:
                raise
            return UNDEF

    def st_Expr(self, s, fx):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fx)

    def st_Pass(self, s, fx):
        pass

    def st_Assign(self, s, fx):
        v = self.eval(s.value, fx)
        for t in s.targets:
            self.assign(t, v, fx)

    def st_AnnAssign(self, s, fx):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fx), fx)

    def st_AugAssign(self, s, fx):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.getvar(fx.frame, t.id)
            v = self.eval(s.value, fx)
            self.setvar(fx, t.id, self.inplace(op, cur, v))
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fx)
            cur = self.getattr(obj, t.attr)
            v = self.eval(s.value, fx)
            self.setattr(obj, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fx)
            idx = self.eval_index(t.slice, fx)
            cur = self.getitem(obj, idx)
            v = self.eval(s.value, fx)
            self.setitem(obj, idx, self.inplace(op, cur, v))
        else:
            self.unsupported("augmented assignment target")

    def inplace(self, op, cur, v):
        """cur op= v; arrays and lists are updated in place"""
        def f(cur):
            if isinstance(cur, Arr):
                new = self.binop(op, cur, v)
                self.store_into(cur, new, "in-place %s" % op)
                return cur
            if isinstance(cur, Ref) and op == "Add":
                c = self.heap[cur.id]
                if isinstance(c, (ListC, PhiC)):
                    items = self.list_segments(v)
                    self.with_content(cur, lambda c: self.set_list(cur, c, c.items + tuple(items)))
                    return cur
            if isinstance(cur, Ref):
                c = self.heap[cur.id]
                if isinstance(c, InstC):
                    nm = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__"}.get(op)
                    if nm and self.lookup_cls(c.cls, nm) is not None:
                        return self.call(self.getattr(cur, nm), [v], {})
            return self.binop(op, cur, v)
        return self.lift(cur, f)

    def set_list(self, ref, c, items):
        self.note_write(c.origin, "list update")
        self.heap[ref.id] = ListC(items, c.origin)

    def note_write(self, origin, how):
        if origin is not None and self.pc.terms:
            self.effects.append(Effect(self.pc, origin, self.loc, how))

    def st_Delete(self, s, fx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(fx, t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                obj = self.eval(t.value, fx)
                self.setattr(obj, t.attr, UNDEF)
            else:
                self.unsupported("del")

    def st_Return(self, s, fx):
        v = self.eval(s.value, fx) if s.value is not None else NONE
        if self.pc.terms:
            fx.rets.append((fx.live, v, self.heap, self.pc, (self.loc[0], s.lineno, self.loc[2])))
        fx.live = ZERO
        self.pc = ZERO
        self.heap = dict(self.heap)

    def st_Raise(self, s, fx):
        exc = "Exception"
        msg = None
        if s.exc is not None:
            e = s.exc
            v = self.eval(e.func if isinstance(e, ast.Call) else e, fx)
            if isinstance(e, ast.Call):
                for a in e.args:
                    if not isinstance(a, ast.JoinedStr):
                        self.eval(a, fx)
            exc = self.exc_name(v)
        self.setloc(s, fx)
        self.raise_(exc)

    def exc_name(self, v):
        if isinstance(v, Ext):
            return v.path.split(".")[-1]
        if isinstance(v, Cls):
            return v.name
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, InstC):
                return c.cls.name
        if isinstance(v, Opq) and v.tag and v.tag.startswith("exc:"):
            return v.tag[4:]
        return "Exception"

    def st_Assert(self, s, fx):
        c = self.cond(s.test, fx)
        self.setloc(s, fx)
        self.raise_if(NOT(c), "AssertionError")

    def st_If(self, s, fx):
        c = self.cond(s.test, fx)
        self.branch(c, lambda: self.exec_block(s.body, fx), lambda: self.exec_block(s.orelse, fx), fx)

    def branch(self, c, fa, fb, fx):
        """Execute statement-level alternatives and join the flows."""
        if not self.pc.terms:
            return
        u = self.under(c)
        if u is ONE:
            return fa()
        if u is ZERO:
            return fb()
        pc0, h0, live0 = self.pc, self.heap, fx.live
        lists = [fx.rets] + [l for lc in fx.loops for l in (lc.breaks, lc.conts)]
        marks = [len(l) for l in lists]
        res = []
        for cond, f in ((c, fa), (NOT(c), fb)):
            self.heap = dict(h0)
            self.pc = AND(pc0, cond)
            fx.live = ONE
            self.alive(f)
            new = [l[m:] for l, m in zip(lists, marks)]
            for l, m in zip(lists, marks):
                del l[m:]
            live = fx.live if self.pc.terms else ZERO
            dead = not live.terms and not any(new)
            res.append((cond, live, self.pc, self.heap, new, dead))
        (c1, l1, p1, hh1, n1, d1), (c2, l2, p2, hh2, n2, d2) = res
        self.pc = P.padd(p1, p2)
        g1 = live0 if d2 else AND(live0, c1)
        g2 = live0 if d1 else AND(live0, c2)
        for g, new in ((g1, n1), (g2, n2)):
            for l, items in zip(lists, new):
                for it in items:
                    l.append((AND(g, it[0]),) + tuple(it[1:]))
        a1, a2 = AND(g1, l1), AND(g2, l2)
        if d1 and d2:
            fx.live = ZERO
            self.heap = hh1
        elif not l1.terms:
            fx.live = a2
            self.heap = hh2
        elif not l2.terms:
            fx.live = a1
            self.heap = hh1
        else:
            fx.live = P.padd(a1, a2)
            self.heap = self.merge_heaps(c, hh1, hh2)

    def st_For(self, s, fx):
        it = self.eval(s.iter, fx)

        def run(it):
            self.for_loop(it, s, fx)
        self.lift_stmt(it, run, fx)

    def lift_stmt(self, v, f, fx):
        if isinstance(v, Phi):
            self.branch(v.c, lambda: self.lift_stmt(v.a, f, fx), lambda: self.lift_stmt(v.b, f, fx), fx)
        elif isinstance(v, Ref) and isinstance(self.heap[v.id], PhiC):
            c = self.heap[v.id]

            def alt(x):
                self.heap[v.id] = x
                self.lift_stmt(v, f, fx)
            self.branch(c.c, lambda: alt(c.a), lambda: alt(c.b), fx)
        else:
            f(v)

    def for_loop(self, it, s, fx):
        items = self.iterate(it)
        if isinstance(items, list):
            if any(isinstance(x, Seg) for x in items):
                if len(items) == 1:
                    items = items[0].v
                elif not s.orelse and not self.has_break(s.body):
                    # a list with symbolic segments: loop over the parts in turn
                    for x in items:
                        if isinstance(x, Seg):
                            from . import loops
                            loops.for_symbolic(self, x.v, s, fx)
                        else:
                            self.loop_known([x], s, fx)
                    return
                else:
                    self.unsupported("loop over a list with symbolic parts")
            else:
                self.loop_known(items, s, fx)
                return
        from . import loops
        loops.for_symbolic(self, items, s, fx)

    def has_break(self, body):
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, (ast.Break, ast.Return)):
                    return True
        return False

    def loop_known(self, items, s, fx):
        if len(items) > MAX_UNROLL:
            self.unsupported("loop of %d iterations" % len(items))
        lc = LoopCtx()
        fx.loops.append(lc)
        for x in items:
            if not fx.live.terms or not self.pc.terms:
                break
            self.assign(s.target, x, fx)
            self.exec_block(s.body, fx)
            self.join_exits(lc.conts, fx)
            lc.conts = []
        if s.orelse:
            self.exec_block(s.orelse, fx)
        fx.loops.pop()
        self.join_exits(lc.breaks, fx)

    def join_exits(self, exits, fx):
        """Join recorded break/continue states with the current one."""
        for g, h, pc in exits:
            if not fx.live.terms or not self.pc.terms:
                fx.live, self.heap, self.pc = g, dict(h), pc
            else:
                self.heap = self.merge_heaps(g, h, self.heap)
                fx.live = P.padd(fx.live, g)
                self.pc = P.padd(self.pc, pc)

    def st_While(self, s, fx):
        lc = LoopCtx()
        fx.loops.append(lc)
        k = 0
        while True:
            c = self.cond(s.test, fx)
            u = self.under(c)
            if not self.pc.terms:
                break
            if u is ZERO:
                break
            if u is not ONE and k == 0 and not self.unroll:
                fx.loops.pop()
                from . import loops
                loops.while_symbolic(self, s, fx, c)
                return
            if u is ONE and k == 0 and not self.unroll:
                # while True with conditional exits: try concrete unrolling of
                # a few iterations only if exits are decided
                if self.loop_exit_symbolic(s, fx):
                    fx.loops.pop()
                    from . import loops
                    loops.while_symbolic(self, s, fx, c)
                    return
            k += 1
            if k > (self.unroll or MAX_UNROLL):
                if self.unroll:
                    g = AND(self.pc, c)
                    self.bound = OR(self.bound, g)
                    self.pc = AND(self.pc, NOT(c))
                    break
                self.unsupported("loop does not terminate in %d iterations" % MAX_UNROLL)
            if u is ONE:
                self.exec_block(s.body, fx)
            else:
                # peel: exit with not c
                g = AND(fx.live, NOT(c))
                lc.breaks.append((g, dict(self.heap), AND(self.pc, NOT(c))))
                fx.live = AND(fx.live, c)
                self.pc = AND(self.pc, c)
                self.exec_block(s.body, fx)
            self.join_exits(lc.conts, fx)
            lc.conts = []
            if not fx.live.terms or not self.pc.terms:
                break
        if s.orelse:
            self.exec_block(s.orelse, fx)
        fx.loops.pop()
        self.join_exits(lc.breaks, fx)

    def loop_exit_symbolic(self, s, fx):
        """Does one trial iteration leave a conditional break behind?"""
        st = self.save()
        live, nr = fx.live, len(fx.rets)
        lc = LoopCtx()
        fx.loops.append(lc)
        try:
            self.exec_block(s.body, fx)
            res = bool(lc.breaks or len(fx.rets) > nr) and fx.live.terms and self.pc.terms
            if not res and fx.live.terms and self.pc.terms:
                self.join_exits(lc.conts, fx)
                u = self.under(self.cond(s.test, fx))
                res = u is not ONE and u is not ZERO
        finally:
            fx.loops.pop()
            fx.live = live
            del fx.rets[nr:]
            self.restore(st)
        return res

    def save(self):
        return (dict(self.heap), self.pc, len(self.raises), len(self.effects), len(self.events), self.loc, self.bound)

    def restore(self, st):
        self.heap = dict(st[0])
        for n in [n for n, m in self.modules.items() if m is not None and m.frame not in self.heap]:
            del self.modules[n]
        self.pc = st[1]
        del self.raises[st[2]:]
        del self.effects[st[3]:]
        del self.events[st[4]:]
        self.loc = st[5]
        self.bound = st[6]

    def st_Break(self, s, fx):
        fx.loops[-1].breaks.append((fx.live, self.heap, self.pc))
        fx.live = ZERO
        self.pc = ZERO
        self.heap = dict(self.heap)

    def st_Continue(self, s, fx):
        fx.loops[-1].conts.append((fx.live, self.heap, self.pc))
        fx.live = ZERO
        self.pc = ZERO
        self.heap = dict(self.heap)

    def st_FunctionDef(self, s, fx):
        f = self.make_func(s, fx)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, fx)
            f = self.decorate(dv, f)
        self.setvar(fx, s.name, f)

    def decorate(self, dv, f):
        return self.call(dv, [f], {})

    def make_func(self, s, fx):
        a = s.args
        defaults = [self.eval(d, fx) for d in a.defaults]
        kwd = [None if d is None else self.eval(d, fx) for d in a.kw_defaults]
        mod = getattr(fx, "module", None) or (fx.func.module if fx.func is not None else None)
        name = getattr(s, "name", "<lambda>")
        pre = ""
        if fx.cls is not None:
            pre = fx.cls + "."
        elif fx.func is not None:
            pre = fx.func.name + ".<locals>."
        f = Func(s, fx.frame, defaults, kwd, pre + name, mod)
        if fx.func is None:
            f.attrs = self.alloc(FrameC({}, None, "attrs"))
        return f

    def st_ClassDef(self, s, fx):
        bases = [self.eval(b, fx) for b in s.bases]
        frame = self.alloc(FrameC({}, fx.frame, "class"))
        cfx = Fx(frame, fx.func)
        cfx.module = getattr(fx, "module", None) or (fx.func.module if fx.func is not None else None)
        cfx.cls = (fx.cls + "." if fx.cls else "") + s.name
        self.exec_block(s.body, cfx)
        c = Cls(s.name, bases, frame, cfx.module, s)
        c.mro = self.compute_mro(c)
        vars = self.heap[frame].vars
        for k, v in vars.items():
            self.tag_cls(v, c)
        for d in reversed(s.decorator_list):
            c = self.decorate(self.eval(d, fx), c)
        self.setvar(fx, s.name, c)

    def tag_cls(self, v, c):
        if isinstance(v, Func):
            if v.cls is None:
                v.cls = c
        elif isinstance(v, (ClsMeth, StaticMeth, Memo, CProp)):
            self.tag_cls(v.f, c)
        elif isinstance(v, Prop):
            self.tag_cls(v.fget, c)

    def compute_mro(self, c):
        out = [c]
        for b in c.bases:
            for x in (b.mro if isinstance(b, Cls) else [b]):
                if x not in out:
                    out.append(x)
        return out

    def st_Import(self, s, fx):
        for a in s.names:
            v = self.import_module(a.name, fx)
            if a.asname:
                self.setvar(fx, a.asname, v)
            else:
                top = a.name.split(".")[0]
                self.setvar(fx, top, self.import_module(top, fx))

    def import_module(self, name, fx):
        m = self.module(name)
        if m is not None:
            return m
        if not self.installed(name):
            self.raise_("ImportError", msg=name)
            return Opq(atom("unbound", name))
        return Ext(name)

    missing_modules = frozenset()

    def installed(self, name):
        return not any(".".join(name.split(".")[:k + 1]) in self.missing_modules for k in range(name.count(".") + 1))

    def st_ImportFrom(self, s, fx):
        mod = getattr(fx, "module", None) or fx.func.module
        if s.level:
            # parent package
            parts = mod.name.split(".")
            if not mod.path.endswith("__init__.py"):
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        else:
            base = s.module
        m = self.import_module(base, fx)
        if not self.pc.terms:
            return
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Mod):
                    allv = self.heap[m.frame].vars
                    for k, v in allv.items():
                        if not k.startswith("_"):
                            self.setvar(fx, k, v)
                else:
                    self.unsupported("import *")
                continue
            if isinstance(m, Mod):
                vars = self.heap[m.frame].vars
                if a.name in vars:
                    v = vars[a.name]
                else:
                    v = self.module(base + "." + a.name)
                    if v is None:
                        # circular import or missing name
                        self.raise_("ImportError", msg="%s.%s" % (base, a.name))
                        return
            else:
                v = self.ext_attr(m, a.name)
            self.setvar(fx, a.asname or a.name, v)

    def st_Global(self, s, fx):
        self.declare(fx, s.names, "global")

    def st_Nonlocal(self, s, fx):
        self.declare(fx, s.names, "nonlocal")

    def declare(self, fx, names, kind):
        c = self.heap[fx.frame]
        d = dict(c.vars.get("%decl") or {})
        for n in names:
            d[n] = kind
        self.setvar_raw(fx.frame, "%decl", d)

    def st_With(self, s, fx):
        for it in s.items:
            v = self.eval(it.context_expr, fx)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fx)
        self.exec_block(s.body, fx)

    def st_Try(self, s, fx):
        st = self.save()
        pc0, h0 = self.pc, dict(self.heap)
        n0 = len(self.raises)
        live0 = fx.live
        self.exec_block(s.body, fx)
        caught = []
        for h in s.handlers:
            names = self.handler_names(h, fx)
            mine = []
            for r in self.raises[n0:]:
                if r not in [x for _, rs in caught for x in rs] and self.exc_match(r.exc, names):
                    mine.append(r)
            caught.append((h, mine))
        drop = [id(r) for _, rs in caught for r in rs]
        if drop:
            self.raises[n0:] = [r for r in self.raises[n0:] if id(r) not in drop]
        if s.orelse:
            self.exec_block(s.orelse, fx)
        for h, mine in caught:
            if not mine:
                continue
            g = ZERO
            for r in mine:
                g = OR(g, r.guard)
            # normal flow: state after the body; handler: state at entry
            hn, pcn, liven = self.heap, self.pc, fx.live
            self.heap = dict(h0)
            self.pc = g
            fx.live = AND(live0, g) if pcn.terms else live0
            if h.name:
                self.setvar(fx, h.name, Opq(atom("exc", tuple(sorted({r.exc for r in mine}))), "exc:" + mine[0].exc))
            self.exec_block(h.body, fx)
            hh, pch, liveh = self.heap, self.pc, fx.live
            if not pcn.terms or not liven.terms:
                if not (pch.terms and liveh.terms):
                    self.heap, self.pc, fx.live = hn, pcn if pcn.terms else pch, ZERO if not liven.terms else liven
                    if not pcn.terms:
                        self.pc = pch
                        fx.live = liveh
                        self.heap = hh
                else:
                    self.heap, self.pc, fx.live = hh, pch, liveh
            elif not pch.terms or not liveh.terms:
                self.heap, self.pc, fx.live = hn, pcn, AND(liven, NOT(g))
                if not any(True for _ in fx.rets) and not pch.terms:
                    fx.live = liven
            else:
                self.heap = self.merge_heaps(g, hh, hn)
                self.pc = P.padd(pcn, pch)
                fx.live = live0
        if s.finalbody:
            self.exec_block(s.finalbody, fx)

    def handler_names(self, h, fx):
        if h.type is None:
            return ["BaseException"]
        v = self.eval(h.type, fx)
        if isinstance(v, Tup):
            return [self.exc_name(x) for x in v.items]
        return [self.exc_name(v)]

    def exc_match(self, exc, names):
        e = getattr(_bi, exc, None)
        for n in names:
            if n == exc:
                return True
            b = getattr(_bi, n, None)
            if isinstance(e, type) and isinstance(b, type) and issubclass(e, b):
                return True
            if e is None and n in ("Exception", "BaseException"):
                return True
        return False

    # --- assignment -----------------------------------------------------

    def assign(self, t, v, fx):
        if isinstance(t, ast.Name):
            self.setvar(fx, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fx)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fx)
            self.setattr(obj, t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fx)
            idx = self.eval_index(t.slice, fx)
            self.setitem(obj, idx, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fx)
        else:
            self.unsupported("assignment target")

    def unpack(self, elts, v, fx):
        if isinstance(v, Phi):
            n = len(elts)
            star = any(isinstance(e, ast.Starred) for e in elts)
            if star:
                self.unsupported("starred unpacking of a gated value")
            parts = [self.lift(v, lambda x, k=k: self.unpack_items(x, n)[k]) for k in range(n)]
            for e, p in zip(elts, parts):
                self.assign(e, p, fx)
            return
        star = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            items = self.iterate(v)
            if not isinstance(items, list) or any(isinstance(x, Seg) for x in items):
                self.unsupported("starred unpacking of a symbolic sequence")
            k = star[0]
            m = len(elts) - k - 1
            if len(items) < len(elts) - 1:
                self.raise_("ValueError", msg="unpack")
                return
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x, fx)
            self.assign(elts[k].value, self.new_list(items[k:len(items) - m]), fx)
            for e, x in zip(elts[k + 1:], items[len(items) - m:]):
                self.assign(e, x, fx)
            return
        items = self.unpack_items(v, len(elts))
        for e, x in zip(elts, items):
            self.assign(e, x, fx)

    def unpack_items(self, v, n):
        if isinstance(v, Opq):
            return [self.opaque_item(v, k) for k in range(n)]
        items = self.iterate(v)
        if isinstance(items, Seq):
            c = items.n.const()
            if c is None:
                # symbolic length cannot match a small constant
                s = P.sign(P.padd(items.n, P.const(-n)))
                if s is not None and s != 0:
                    self.raise_("ValueError", msg="unpack")
                    return [Opq(atom("unbound", "unpack"))] * n
                self.raise_if(NOT(P.eq(items.n, P.const(n))), "ValueError", "unpack")
            return [self.vsubst(items.elem, {items.var.id: P.const(k)}) for k in range(n)]
        if any(isinstance(x, Seg) for x in items):
            self.unsupported("unpacking of a symbolic list")
        if len(items) != n:
            self.raise_("ValueError", msg="expected %d values to unpack, got %d" % (n, len(items)))
            return (list(items) + [Opq(atom("unbound", "unpack"))] * n)[:n]
        return items

    def opaque_item(self, v, k):
        return Opq(atom("item", v.t, k))

    # --- expressions ----------------------------------------------------

    def eval(self, e, fx):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            self.unsupported("expression %s" % type(e).__name__)
        return m(e, fx)

    def ex_Constant(self, e, fx):
        v = e.value
        if isinstance(v, (bool, int, float, complex)):
            return num(v)
        return Const(v)

    def ex_Name(self, e, fx):
        return self.getvar(fx.frame, e.id)

    def ex_Tuple(self, e, fx):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.list_segments(self.eval(x.value, fx))
                if any(isinstance(i, Seg) for i in it):
                    if len(e.elts) == 1:
                        return it[0].v
                    self.unsupported("star in tuple of a symbolic sequence")
                items += it
            else:
                items.append(self.eval(x, fx))
        return Tup(items)

    def ex_List(self, e, fx):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items += self.list_segments(self.eval(x.value, fx))
            else:
                items.append(self.eval(x, fx))
        return self.new_list(items)

    def ex_Set(self, e, fx):
        return self.new_set([self.eval(x, fx) for x in e.elts])

    def ex_Dict(self, e, fx):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, fx)
                items += self.dict_items(d)
            else:
                items.append((self.eval(k, fx), self.eval(v, fx)))
        r = self.new_dict([])
        for k, v in items:
            self.dict_set(r, k, v)
        return r

    def dict_items(self, d):
        if isinstance(d, Ref):
            c = self.heap[d.id]
            if isinstance(c, DictC):
                return list(c.items)
        self.unsupported("mapping expansion of %r" % (d,))

    def ex_Attribute(self, e, fx):
        obj = self.eval(e.value, fx)
        self.setloc(e, fx)
        return self.getattr(obj, e.attr)

    def ex_Subscript(self, e, fx):
        obj = self.eval(e.value, fx)
        idx = self.eval_index(e.slice, fx)
        self.setloc(e, fx)
        return self.getitem(obj, idx)

    def eval_index(self, s, fx):
        return self.eval(s, fx)

    def ex_Slice(self, e, fx):
        f = lambda x: NONE if x is None else self.eval(x, fx)
        return Slc(f(e.lower), f(e.upper), f(e.step))

    def ex_UnaryOp(self, e, fx):
        op = type(e.op).__name__
        if op == "Not":
            return boolv(NOT(self.cond(e.operand, fx)))
        v = self.eval(e.operand, fx)
        return self.unop(op, v)

    def ex_BinOp(self, e, fx):
        a = self.eval(e.left, fx)
        b = self.eval(e.right, fx)
        self.setloc(e, fx)
        return self.binop(type(e.op).__name__, a, b)

    def ex_BoolOp(self, e, fx):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.eval(e.values[k], fx)
            if k == len(e.values) - 1:
                return v
            c = self.truth(v)
            if isand:
                return self.split(c, lambda: go(k + 1), lambda: v)
            return self.split(c, lambda: v, lambda: go(k + 1))
        return go(0)

    def ex_Compare(self, e, fx):
        left = self.eval(e.left, fx)
        if len(e.ops) == 1:
            right = self.eval(e.comparators[0], fx)
            self.setloc(e, fx)
            return self.compare(type(e.ops[0]).__name__, left, right)

        def go(k, left):
            right = self.eval(e.comparators[k], fx)
            self.setloc(e, fx)
            r = self.compare(type(e.ops[k]).__name__, left, right)
            if k == len(e.ops) - 1:
                return r
            c = self.truth(r)
            return self.split(c, lambda: go(k + 1, right), lambda: r)
        return go(0, left)

    def cond(self, e, fx):
        """Truth value of an expression as an indicator polynomial."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = None
            pc0 = self.pc
            for x in e.values:
                if acc is None:
                    acc = self.cond(x, fx)
                    continue
                g = acc if isand else NOT(acc)
                u = self.under(g)
                if u is ZERO:
                    break
                if u is ONE:
                    c = self.cond(x, fx)
                else:
                    c = self.truth(self.split(g, lambda: boolv(self.cond(x, fx)), lambda: boolv(ZERO if isand else ONE)))
                acc = AND(acc, c) if isand else OR(acc, c)
            return acc
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return NOT(self.cond(e.operand, fx))
        return self.truth(self.eval(e, fx))

    def ex_IfExp(self, e, fx):
        c = self.cond(e.test, fx)
        return self.split(c, lambda: self.eval(e.body, fx), lambda: self.eval(e.orelse, fx))

    def ex_NamedExpr(self, e, fx):
        v = self.eval(e.value, fx)
        self.assign(e.target, v, fx)
        return v

    def ex_Lambda(self, e, fx):
        return self.make_func(e, fx)

    def ex_Starred(self, e, fx):
        self.unsupported("starred expression")

    def ex_JoinedStr(self, e, fx):
        from . import models
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
                continue
            v = self.eval(x.value, fx)
            spec = None
            if x.format_spec is not None:
                spec = self.eval(x.format_spec, fx)
            sp = spec.v if isinstance(spec, Const) else (None if spec is None else self.reify(spec))
            if isinstance(v, Phi):
                v = self.lift(v, lambda y: models.mkstr(models.fmt_parts(self, y, x.conversion, sp)))
                parts += models.str_parts(self, v)
            else:
                parts += models.fmt_parts(self, v, x.conversion, sp)
        return models.mkstr(parts)

    def ex_Await(self, e, fx):
        self.unsupported("await")

    def ex_Yield(self, e, fx):
        v = NONE if e.value is None else self.eval(e.value, fx)
        f = fx
        if f.yields is None:
            self.unsupported("yield")
        self.call(self.getattr(f.yields, "append"), [v], {})
        return NONE

    def ex_YieldFrom(self, e, fx):
        v = self.eval(e.value, fx)
        self.call(self.getattr(fx.yields, "extend"), [v], {})
        return NONE

    # comprehensions

    def ex_ListComp(self, e, fx):
        r = self.comp(e, fx, lambda f: self.eval(e.elt, f))
        if isinstance(r, Seq):
            return self.new_list([Seg(r)])
        if isinstance(r, Ref):
            return r
        return self.new_list(r)

    def ex_GeneratorExp(self, e, fx):
        r = self.comp(e, fx, lambda f: self.eval(e.elt, f))
        if isinstance(r, (Seq, Ref)):
            return r
        if any(isinstance(x, Seg) for x in r):
            return self.new_list(r)
        return Tup(r)

    def ex_SetComp(self, e, fx):
        r = self.comp(e, fx, lambda f: self.eval(e.elt, f))
        if isinstance(r, Seq):
            return Opq(atom("set", self.reify(r)))
        if isinstance(r, Ref):
            return Opq(atom("set", self.reify(r)))
        return self.new_set(r)

    def ex_DictComp(self, e, fx):
        r = self.comp(e, fx, lambda f: Tup([self.eval(e.key, f), self.eval(e.value, f)]))
        if isinstance(r, Seq):
            return Opq(atom("dict", self.reify(r)))
        if isinstance(r, Ref):
            self.unsupported("conditional dict comprehension")
        d = self.new_dict([])
        for t in r:
            self.dict_set(d, t.items[0], t.items[1])
        return d

    def comp(self, e, fx, elt):
        frame = self.alloc(FrameC({}, fx.frame, "comp"))
        cfx = Fx(frame, fx.func)
        cfx.module = getattr(fx, "module", None)

        def gen(k):
            """list of values (or Seq), or Ref of a list with gated content"""
            if k == len(e.generators):
                return [elt(cfx)]
            g = e.generators[k]
            it = self.eval(g.iter, fx if k == 0 else cfx)
            return self.comp_over(it, g, k, gen, cfx)
        return gen(0)

    def comp_over(self, it, g, k, gen, cfx):
        if isinstance(it, Phi):
            def alt(x):
                r = self.comp_over(x, g, k, gen, cfx)
                return r if isinstance(r, Ref) else self.new_list(r if isinstance(r, list) else [Seg(r)])
            return self.list_of(self.split(it.c, lambda: alt(it.a), lambda: alt(it.b)))
        items = self.iterate(it)
        if isinstance(items, list) and len(items) == 1 and isinstance(items[0], Seg):
            items = items[0].v
        if isinstance(items, Opq):
            v = P.fresh_var(topoly(atom("len", items.t)))
            items = Seq(v.args[1], v, Opq(atom("elem", items.t, topoly(v))))
        if isinstance(items, Seq):
            # renaming is not needed: sequence variables are unique
            self.assign(g.target, items.elem, cfx)
            conds = [self.cond(i, cfx) for i in g.ifs]
            c = ONE
            for x in conds:
                c = AND(c, x)
            if c is not ONE:
                if k or isinstance(items.n, int):
                    self.unsupported("filtered nested comprehension")
                m = P.lam([items.n], c, [items.var])
                n2 = P.count_of(m)
                v2 = P.fresh_var(n2)
                r = gen(k + 1)
                if not isinstance(r, list) or len(r) != 1:
                    self.unsupported("nested symbolic comprehension")
                el = self.vsubst(r[0], {items.var.id: P.nth(m, 0, topoly(v2))})
                return Seq(n2, v2, el)
            r = gen(k + 1)
            if not isinstance(r, list) or len(r) != 1 or isinstance(r[0], Seg):
                self.unsupported("nested symbolic comprehension")
            return Seq(items.n, items.var, r[0])
        out = []
        ref = None
        for x in items:
            if isinstance(x, Seg):
                self.assign(g.target, x.v.elem, cfx)
                if g.ifs:
                    self.unsupported("filter over symbolic part")
                r = gen(k + 1)
                if not isinstance(r, list) or len(r) != 1:
                    self.unsupported("nested symbolic comprehension")
                r = [Seg(Seq(x.v.n, x.v.var, r[0]))]
            else:
                self.assign(g.target, x, cfx)
                c = ONE
                for i in g.ifs:
                    c = AND(c, self.cond(i, cfx))
                c = self.under(c)
                if c is ZERO:
                    continue
                if c is not ONE:
                    if ref is None:
                        ref = self.new_list(out)
                    def add():
                        rr = gen(k + 1)
                        self.call(self.getattr(ref, "extend"), [self.new_list(rr) if isinstance(rr, list) else rr], {})
                        return NONE
                    self.split(c, add, lambda: NONE)
                    continue
                r = gen(k + 1)
            if isinstance(r, Seq):
                r = [Seg(r)]
            if isinstance(r, Ref) or ref is not None:
                if ref is None:
                    ref = self.new_list(out)
                self.call(self.getattr(ref, "extend"), [self.new_list(r) if isinstance(r, list) else r], {})
            else:
                out += r
        return ref if ref is not None else out

    def list_of(self, v):
        return v

    # calls

    def ex_Call(self, e, fx):
        # super() without arguments
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            c = self.heap[fx.frame]
            fid = fx.frame
            f = fx.func
            cls = f.cls
            selfname = f.node.args.args[0].arg
            return Super(cls, self.getvar(fx.frame, selfname))
        f = self.eval(e.func, fx)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                items = self.list_segments(self.eval(a.value, fx))
                if any(isinstance(x, Seg) for x in items):
                    self.unsupported("star argument of symbolic length")
                args += items
            else:
                args.append(self.eval(a, fx))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fx)
                if isinstance(d, Phi):
                    return self.lift(d, lambda x: self.finish_call(e, f, args, kwargs, x, fx))
                for kk, vv in self.dict_items(d):
                    if not isinstance(kk, Const):
                        self.unsupported("non-constant keyword")
                    kwargs[kk.v] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, fx)
        self.setloc(e, fx)
        return self.call(f, args, kwargs)

    def finish_call(self, e, f, args, kwargs, d, fx):
        kw = dict(kwargs)
        for kk, vv in self.dict_items(d):
            kw[kk.v] = vv
        self.setloc(e, fx)
        return self.call(f, args, kw)

    def call(self, f, args, kwargs):
        if not self.pc.terms:
            return Opq(atom("dead"))
        if isinstance(f, Phi):
            return self.split(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, Native):
            try:
                return f.fn(self, *args, **kwargs)
            except TypeError as e:
                if "argument" in str(e):
                    self.unsupported("call of %s: %s" % (f.name, e))
                raise
        if isinstance(f, Bound):
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + list(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, Memo):
            return self.call_memo(f, list(args), kwargs)
        if isinstance(f, StaticMeth):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Opq):
            return self.call_opaque(f, args, kwargs)
        if isinstance(f, Ref):
            c = self.heap[f.id]
            if isinstance(c, InstC):
                m = self.lookup_cls(c.cls, "__call__")
                if m is not None:
                    return self.call(self.bind(m, f, c.cls), args, kwargs)
        self.raise_("TypeError", msg="object is not callable: %r" % (f,))
        return Opq(atom("dead"))

    def call_memo(self, f, args, kwargs):
        """Call through a cache: the stored result if there is one for equal arguments."""
        names = sorted(kwargs)
        if f.cell not in self.heap or self.abstract or self.generic(args + [kwargs[k] for k in names]):
            return self.call(f.f, args, kwargs)
        return self.liftn(args + [kwargs[k] for k in names], lambda *v: self.memo_lookup(f, v, names))

    def generic(self, vs):
        """Do the values depend on the index of a generic iteration?"""
        for v in vs:
            if isinstance(v, (Num, Opq)):
                p = v.p if isinstance(v, Num) else v.t
                if any(P.ATOMS[i].op in ("fv", "mu") for i in p.leaves):
                    return True
            elif isinstance(v, Tup) and self.generic(v.items):
                return True
        return False

    def memo_lookup(self, f, vals, names):
        n = len(vals) - len(names)
        for v in vals:
            if not isinstance(v, Opq):
                self.builtins["hash"].fn(self, v)
        if not self.pc.terms:
            return Opq(atom("dead"))
        items = self.heap[f.cell].items
        out = []

        def scan(j):
            for j in range(j, len(items)):
                g, vs, ns, r = items[j]
                if len(vs) != len(vals) or ns != names:
                    continue
                e = self.under(g)
                for a, b in zip(vs, vals):
                    if e is not ZERO and not self.same(a, b):
                        e = AND(e, self.truth(self.compare("Eq", a, b)))
                if e is ONE:
                    return r
                if e is not ZERO:
                    return self.split(e, lambda: r, lambda: scan(j + 1), True)
            r = self.call(f.f, list(vals[:n]), dict(zip(names, vals[n:])))
            # entries made during the call come first
            out.append((self.heap[f.cell].items, r))
            return r
        v = scan(0)
        if out and self.pc.terms:
            # after entries with equal arguments, hence without effect for those
            self.heap[f.cell] = MemoC(out[0][0] + ((ONE, tuple(vals), names, out[0][1]),))
        return v

    def call_opaque(self, f, args, kwargs):
        t = atom("call", f.t, tuple(self.reify(a) for a in args),
                 tuple((k, self.reify(kwargs[k])) for k in sorted(kwargs)))
        r = Opq(t)
        if f.t.op == "attr":
            self.events.append(Event(self.pc, f.t.args[0], f.t.args[1], args, kwargs, self.loc, r))
        else:
            self.events.append(Event(self.pc, None, f.t, args, kwargs, self.loc, r))
        return r

    def qualname(self, f):
        m = f.module.name if f.module is not None else "?"
        return m + ":" + f.name

    def call_func(self, f, args, kwargs):
        ov = self.overrides.get(self.qualname(f))
        if ov is not None:
            return ov(self, f, args, kwargs)
        if self.depth > MAX_DEPTH:
            self.unsupported("recursion too deep")
        self.analysed.add(self.qualname(f))
        node = f.node
        vars = self.bind_args(f, args, kwargs)
        if vars is None:
            return Opq(atom("dead"))
        frame = self.alloc(FrameC(vars, f.frame, "func"))
        fx = Fx(frame, f)
        fx.module = f.module
        loc = self.loc
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fx)
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
            if gen:
                fx.yields = self.new_list([])
            self.exec_block(node.body, fx)
            if self.pc.terms and fx.live.terms:
                fx.rets.append((fx.live, NONE, self.heap, self.pc, (self.loc or ("?", 0, f.name))))
            v = self.join_rets(fx.rets)
            if gen:
                return fx.yields
            return v
        finally:
            self.depth -= 1
            self.loc = loc

    def join_rets(self, rets):
        self.last_rets = [r[4] for r in rets]
        if not rets:
            self.pc = ZERO
            return Opq(atom("dead"))
        g, v, h, pc, _ = rets[-1]
        h = dict(h)
        for g1, v1, h1, pc1, _ in reversed(rets[:-1]):
            self.heap = h       # phi may read/alloc
            base = self.heap
            self.heap = self.merge_heaps(g1, h1, h)
            v = self.phi(g1, v1, v)
            h = self.heap
            pc = P.padd(pc, pc1)
        self.heap = h
        self.pc = pc
        return v

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        vars = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_("TypeError", msg="%s: too many positional arguments" % f.name)
                return None
            vars[a.vararg.arg] = Tup(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            vars[a.vararg.arg] = Tup([])
        for n, v in zip(pos, args):
            vars[n] = v
        nd = len(f.defaults)
        for k, n in enumerate(pos):
            if n in vars:
                if n in kwargs and k < len(args):
                    self.raise_("TypeError", msg="%s: multiple values for %s" % (f.name, n))
                    return None
                continue
            if n in kwargs:
                vars[n] = kwargs.pop(n)
            elif k >= len(pos) - nd:
                vars[n] = f.defaults[k - (len(pos) - nd)]
            else:
                self.raise_("TypeError", msg="%s: missing argument %s" % (f.name, n))
                return None
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kwargs:
                vars[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                vars[x.arg] = d
            else:
                self.raise_("TypeError", msg="%s: missing argument %s" % (f.name, x.arg))
                return None
        if a.kwarg is not None:
            vars[a.kwarg.arg] = self.new_dict([(Const(k), v) for k, v in kwargs.items()])
        elif kwargs:
            self.raise_("TypeError", msg="%s: unexpected keyword argument %s" % (f.name, sorted(kwargs)))
            return None
        return vars

    def instantiate(self, c, args, kwargs):
        if any(isinstance(b, Ext) and b.path.startswith("builtins.") and b.path.endswith(("Error", "Exception", "Warning"))
               for b in c.mro):
            return Opq(atom("exc", c.name), "exc:" + c.name)
        r = self.new_inst(c)
        init = self.lookup_cls(c, "__init__")
        if init is not None:
            self.call(self.bind(init, r, c), args, kwargs)
        elif args or kwargs:
            if self.dataclass_fields(c) is not None:
                return self.init_dataclass(r, c, args, kwargs)
            self.raise_("TypeError", msg="%s() takes no arguments" % c.name)
        return r

    def dataclass_fields(self, c):
        return None

    # --- attributes -----------------------------------------------------

    def lookup_cls(self, c, name):
        for k in c.mro:
            if isinstance(k, Ext) and k.path == "collections.abc.Sequence":
                k = self.mixin("Sequence") or k
            if isinstance(k, Cls):
                v = self.heap[k.frame].vars.get(name)
                if v is not None and v is not UNDEF:
                    return v
        return None

    def mixin(self, name):
        m = self.modules.get("abcmix")
        return self.heap[m.frame].vars.get(name) if m is not None else None

    def bind(self, v, obj, cls):
        if isinstance(v, (Func, Native, Memo)):
            return Bound(v, obj)
        if isinstance(v, ClsMeth):
            return Bound(v.f, cls)
        if isinstance(v, StaticMeth):
            return v.f
        if isinstance(v, Prop):
            return self.call(v.fget, [obj], {})
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, InstC):
                g = self.lookup_cls(c.cls, "__get__")
                if g is not None:
                    return self.call(self.bind(g, v, c.cls), [obj if obj is not None else NONE, cls], {})
        return v

    def getattr(self, obj, name, default=None):
        return self.lift(obj, lambda o: self.getattr1(o, name, default))

    def getattr1(self, o, name, default=None):
        if isinstance(o, Ref):
            c = self.heap[o.id]
            if isinstance(c, PhiC) and isinstance(c.a, InstC):
                return self.with_content(o, lambda c: self.getattr1(o, name, default))
            if isinstance(c, InstC):
                return self.inst_getattr(o, c, name, default)
        if isinstance(o, Cls):
            if name == "__name__":
                return Const(o.name)
            if name == "__init__" and self.lookup_cls(o, name) is None:
                return Native(lambda I, *a, **k: NONE, "object.__init__")
            v = self.lookup_cls(o, name)
            if v is not None:
                if isinstance(v, ClsMeth):
                    return Bound(v.f, o)
                if isinstance(v, StaticMeth):
                    return v.f
                return v
            if name == "__mro__":
                return Tup(o.mro)
        elif isinstance(o, Mod):
            vars = self.heap[o.frame].vars
            if name in vars:
                return self.defined(vars[name], name)
            m = self.module(o.name + "." + name) if o.path.endswith("__init__.py") else None
            if m is not None:
                return m
        elif isinstance(o, Ext):
            return self.ext_attr(o, name, default)
        elif isinstance(o, Super):
            mro = (self.class_of(o.self) or o.cls).mro if not isinstance(o.self, Cls) else o.self.mro
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if isinstance(c, Cls):
                    v = self.heap[c.frame].vars.get(name)
                    if v is not None:
                        return self.bind(v, o.self, o.cls)
            if name in ("__init__", "__init_subclass__"):
                return Native(lambda I, *a, **k: NONE, "object.__init__")
            if name == "__getattribute__":
                return Native(lambda I, n: I.getattr(o.self, n.v), "object.__getattribute__")
            if name == "__setattr__":
                return Native(lambda I, n, v: I.setattr_raw(o.self, n.v, v) or NONE, "object.__setattr__")
        elif isinstance(o, Prop):
            if name == "setter":
                return Native(lambda I, f: Prop(o.fget, f), "property.setter")
            if name == "fget":
                return o.fget
        elif isinstance(o, (Func,)):
            c = self.heap.get(o.attrs)
            if c is not None and c.vars.get(name, UNDEF) is not UNDEF:
                v = c.vars[name]
                if isinstance(v, Phi) and self.has_undef(v):
                    cu = self.undef_cond(v)
                    self.raise_if(cu, "AttributeError", msg="function attribute %s" % name)
                    return self.strip_undef(v)
                return v
            if name in ("__name__", "__qualname__"):
                return Const(o.name.split(".")[-1])
            if name == "__doc__":
                return NONE
            if name == "__get__":
                return Native(lambda I, obj, cls=None: Bound(o, obj), "function.__get__")
        elif isinstance(o, Memo):
            if name in ("cache_clear", "cache_info"):
                return Native(lambda I, *a: NONE, name)
            if name == "__wrapped__":
                return o.f
            return self.getattr1(o.f, name, default)
        elif isinstance(o, Bound):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self.getattr1(o.func, name, default)
        elif isinstance(o, Partial):
            if name == "func":
                return o.func
            if name == "args":
                return Tup(o.args)
            if name == "keywords":
                return self.new_dict([(Const(k), v) for k, v in o.kwargs.items()])
        elif isinstance(o, Slc):
            if name in ("start", "stop", "step"):
                return getattr(o, name)
        elif isinstance(o, Opq):
            if default is not None:
                c = topoly(atom("exists", o.t, name))
                return self.split(c, lambda: self.opaque_attr(o, name), lambda: default)
            return self.opaque_attr(o, name)
        elif isinstance(o, Native) and isinstance(getattr(_bi, o.name, None), type):
            t = getattr(_bi, o.name)
            if name in ("__name__", "__qualname__"):
                return Const(o.name)
            if hasattr(t, name):
                d = next((k.__dict__[name] for k in t.__mro__ if name in k.__dict__), None)
                if isinstance(d, (staticmethod, classmethod)) or type(d).__name__ in ("classmethod_descriptor", "builtin_function_or_method"):
                    return Ext("builtins.%s.%s" % (o.name, name))
                return Native(lambda I, self, *a, **k: I.call(I.getattr(self, name), list(a), k), o.name + "." + name)
        from . import models
        v = models.value_attr(self, o, name)
        if v is not None:
            return v
        if default is not None:
            return default
        self.raise_("AttributeError", msg="%s has no attribute %s" % (self.type_name(o), name))
        return Opq(atom("unbound", name))

    def opaque_attr(self, o, name):
        if o.t.op == "dtype":
            if name == "kind":
                return Const({"f4": "f", "f8": "f", "c8": "c", "c16": "c", "T": "O", "D": "O", "o": "O"}.get(o.t.args[0], o.t.args[0]))
            if name == "itemsize" and o.t.args[0] in ("f4", "f8", "c8", "c16", "i", "b"):
                return num({"f4": 4, "f8": 8, "c8": 8, "c16": 16, "i": 8, "b": 1}[o.t.args[0]])
        return Opq(atom("attr", o.t, name))

    def class_of(self, v):
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, PhiC):
                c = c.a
            if isinstance(c, InstC):
                return c.cls
        return None

    def type_name(self, o):
        c = self.class_of(o)
        return c.name if c is not None else type(o).__name__

    def inst_getattr(self, o, c, name, default=None):
        cv = self.lookup_cls(c.cls, name)
        if isinstance(cv, Prop):
            return self.call(cv.fget, [o], {})
        if name in c.attrs:
            v = c.attrs[name]
            if v is not UNDEF:
                if isinstance(v, Phi) and self.has_undef(v):
                    cu = self.undef_cond(v)
                    return self.split(cu, lambda: self.attr_missing(o, c, name, cv, default),
                                      lambda: self.strip_undef(v))
                return v
        if isinstance(cv, CProp):
            v = self.call(cv.f, [o], {})
            if not self.abstract:
                self.setattr_raw(o, name, v)
            return v
        return self.attr_missing(o, c, name, cv, default)

    def undef_cond(self, v):
        if v is UNDEF:
            return ONE
        if isinstance(v, Phi):
            return ite(v.c, self.undef_cond(v.a), self.undef_cond(v.b))
        return ZERO

    def strip_undef(self, v):
        if isinstance(v, Phi):
            if v.a is UNDEF:
                return self.strip_undef(v.b)
            if v.b is UNDEF:
                return self.strip_undef(v.a)
            return self.phi(v.c, self.strip_undef(v.a), self.strip_undef(v.b))
        return v

    def attr_missing(self, o, c, name, cv, default):
        if cv is not None:
            return self.bind(cv, o, c.cls)
        if name == "__class__":
            return c.cls
        if name == "__dict__":
            return Ref(self.alloc(ViewC(self, o)))
        ga = self.lookup_cls(c.cls, "__getattr__")
        if ga is not None and not (name.startswith("__") and name.endswith("__")):
            if default is not None:
                n0 = len(self.raises)
                pc0 = self.pc
                v = self.call(Bound(ga, o), [Const(name)], {})
                mine = [r for r in self.raises[n0:] if r.exc == "AttributeError"]
                if mine:
                    g = ZERO
                    for r in mine:
                        g = OR(g, r.guard)
                    self.raises[n0:] = [r for r in self.raises[n0:] if r not in mine]
                    if not self.pc.terms:
                        self.pc = pc0
                        return default
                    self.pc = pc0
                    return self.phi(g, default, v)
                return v
            return self.call(Bound(ga, o), [Const(name)], {})
        for b in c.cls.mro:
            if isinstance(b, Ext):
                v = self.ext_base_attr(b, o, name)
                if v is not None:
                    return v
        if default is not None:
            return default
        self.raise_("AttributeError", msg="%s has no attribute %s" % (c.cls.name, name))
        return Opq(atom("unbound", name))

    def ext_base_attr(self, b, o, name):
        from . import models
        return models.base_attr(self, b, o, name)

    def setattr(self, obj, name, v):
        if isinstance(obj, Phi):
            self.split(obj.c, lambda: self.setattr(obj.a, name, v) or NONE, lambda: self.setattr(obj.b, name, v) or NONE)
            return
        if isinstance(obj, Ref):
            c = self.heap[obj.id]
            if isinstance(c, InstC):
                cv = self.lookup_cls(c.cls, name)
                if isinstance(cv, Prop):
                    if cv.fset is None:
                        self.raise_("AttributeError", msg="can't set attribute %s" % name)
                        return
                    self.call(cv.fset, [obj, v], {})
                    return
                sa = self.lookup_cls(c.cls, "__setattr__")
                if sa is not None:
                    self.call(Bound(sa, obj), [Const(name), v], {})
                    return
                self.setattr_raw(obj, name, v)
                return
        if isinstance(obj, Func):
            if obj.attrs not in self.heap:
                obj.attrs = self.alloc(FrameC({}, None, "attrs"))
            self.setvar_raw(obj.attrs, name, v)
            return
        if isinstance(obj, (Memo, Bound, Native, Prop)):
            return
        if isinstance(obj, Cls):
            self.setvar_raw(obj.frame, name, v)
            return
        if isinstance(obj, Mod):
            self.setvar_raw(obj.frame, name, v)
            return
        if isinstance(obj, Opq):
            self.events.append(Event(self.pc, obj.t, "%set:" + name, [v], {}, self.loc, NONE))
            return
        if isinstance(obj, Arr) and name == "shape":
            self.unsupported("setting shape")
        self.unsupported("attribute assignment on %r" % (obj,))

    def setattr_raw(self, obj, name, v):
        c = self.heap[obj.id]
        if c.origin is not None:
            self.note_write((c.origin, name), "attribute assignment")
        attrs = dict(c.attrs)
        attrs[name] = v
        self.heap[obj.id] = InstC(c.cls, attrs, c.origin)

    def ext_attr(self, o, name, default=None):
        from . import models
        return models.ext_attr(self, o, name, default)

    def call_ext(self, f, args, kwargs):
        from . import models
        return models.call_ext(self, f, args, kwargs)

    # --- items ----------------------------------------------------------

    def getitem(self, obj, idx):
        def f(o):
            if isinstance(o, Arr) or isinstance(o, Seq):
                return self.liftidx(idx, lambda i: self.getitem1(o, i))
            return self.lift(idx, lambda i: self.getitem1(o, i))
        return self.lift(obj, f)

    def liftidx(self, idx, f):
        """Lift over gated indices, also inside index tuples."""
        if isinstance(idx, Phi):
            return self.split(idx.c, lambda: self.liftidx(idx.a, f), lambda: self.liftidx(idx.b, f), True)
        if isinstance(idx, Tup) and any(isinstance(x, Phi) for x in idx.items):
            return self.liftn(idx.items, lambda *xs: f(Tup(xs)))
        return f(idx)

    def getitem1(self, o, i):
        from . import arrays, models
        if isinstance(o, Arr):
            return arrays.getitem(self, o, i)
        if isinstance(o, Tup):
            return self.seq_getitem(list(o.items), i, Tup)
        if isinstance(o, Seq):
            return models.seq_index(self, o, i)
        if isinstance(o, Opq):
            return Opq(atom("item", o.t, self.reify(i)))
        if isinstance(o, Const) and isinstance(o.v, str):
            if isinstance(i, Num) and i.p.const() is not None:
                try:
                    return Const(o.v[int(i.p.const())])
                except IndexError:
                    self.raise_("IndexError")
                    return Opq(atom("dead"))
            if isinstance(i, Slc):
                f = lambda x: None if is_none(x) else int(x.p.const())
                return Const(o.v[slice(f(i.start), f(i.stop), f(i.step))])
        if isinstance(o, Ref):
            c = self.heap[o.id]
            if isinstance(c, PhiC):
                return self.with_content(o, lambda c: self.getitem1(o, i))
            if isinstance(c, ListC):
                return self.seq_getitem(list(c.items), i, self.new_list)
            if isinstance(c, DictC):
                return self.dict_get(o, c, i)
            if isinstance(c, InstC):
                m = self.lookup_cls(c.cls, "__getitem__")
                if m is not None:
                    return self.call(self.bind(m, o, c.cls), [i], {})
        if isinstance(o, (Cls, Ext)):
            return o        # generic alias
        if isinstance(o, Num) and o.dt == "o":
            return Opq(atom("item", self.reify(o), self.reify(i)))
        if isinstance(o, Num) and not o.weak and isinstance(i, Tup) and not i.items:
            return o
        self.raise_("TypeError", msg="object is not subscriptable: %r" % (o,))
        return Opq(atom("dead"))

    def dict_get(self, o, c, i, default=None):
        rest = None
        for k, v in reversed(c.items):
            e = self.truth(self.compare("Eq", k, i)) if not self.same(k, i) else ONE
            if e is ONE:
                if rest is None:
                    return v
                return self.wrap_alts(rest, v)
            if e is not ZERO:
                rest = (rest or []) + [(e, v)]
        if rest is not None:
            # key may or may not be present
            if default is None:
                cond = ONE
                for e, _ in rest:
                    cond = AND(cond, NOT(e))
                self.raise_if(cond, "KeyError")
                alts, last = rest[:-1], rest[-1][1]
                return self.wrap_alts(alts, last)
            return self.wrap_alts(rest, default)
        if default is not None:
            return default
        self.raise_("KeyError", msg=repr(i))
        return Opq(atom("dead"))

    def wrap_alts(self, alts, last):
        v = last
        for e, x in reversed(alts):
            v = self.phi(e, x, v)
        return v

    def seq_getitem(self, items, i, make):
        if any(isinstance(x, Seg) for x in items):
            if len(items) == 1:
                from . import models
                return models.seq_index(self, items[0].v, i)
            if isinstance(i, Num) and i.p.const() is not None:
                k = int(i.p.const())
                rng = items if k >= 0 else items[::-1]
                j = k if k >= 0 else -k - 1
                if not any(isinstance(x, Seg) for x in rng[:j + 1]):
                    return rng[j]
            return Opq(atom("item", self.reify(self.new_list(items)), self.reify(i)))
        if isinstance(i, Slc):
            f = lambda x: None if is_none(x) else (int(x.p.const()) if isinstance(x, Num) and x.p.const() is not None
                                                  else self.unsupported("symbolic slice of a list"))
            return make(items[slice(f(i.start), f(i.stop), f(i.step))])
        if isinstance(i, Num) and i.p.const() is not None and i.dt in ("i", "b"):
            k = int(i.p.const())
            if -len(items) <= k < len(items):
                return items[k]
            self.raise_("IndexError", msg="index %d out of range" % k)
            return Opq(atom("dead"))
        if isinstance(i, Num) and i.dt in ("i", "b"):
            # symbolic index: select
            v = None
            n = len(items)
            inb = ZERO
            for k, x in enumerate(items):
                e = OR(P.eq(i.p, P.const(k)), P.eq(i.p, P.const(k - n)))
                inb = OR(inb, e)
                v = x if v is None else self.phi(e, x, v)
            self.raise_if(NOT(inb), "IndexError")
            if v is None:
                return Opq(atom("dead"))
            return v
        if isinstance(i, Opq):
            return Opq(atom("item", self.reify(Tup(items)), i.t))
        self.raise_("TypeError", msg="bad index")
        return Opq(atom("dead"))

    def setitem(self, obj, idx, v):
        if isinstance(obj, Phi):
            self.split(obj.c, lambda: self.setitem(obj.a, idx, v) or NONE, lambda: self.setitem(obj.b, idx, v) or NONE)
            return
        if isinstance(idx, Phi):
            self.split(idx.c, lambda: self.setitem(obj, idx.a, v) or NONE, lambda: self.setitem(obj, idx.b, v) or NONE)
            return
        if isinstance(idx, Tup) and isinstance(obj, Arr):
            for k, x in enumerate(idx.items):
                if isinstance(x, Phi):
                    alt = lambda y: Tup(idx.items[:k] + (y,) + idx.items[k + 1:])
                    self.split(x.c, lambda: self.setitem(obj, alt(x.a), v) or NONE,
                               lambda: self.setitem(obj, alt(x.b), v) or NONE)
                    return
        if isinstance(obj, Arr):
            from . import arrays
            arrays.setitem(self, obj, idx, v)
            return
        if isinstance(obj, Ref):
            c = self.heap[obj.id]
            if isinstance(c, PhiC):
                self.with_content(obj, lambda c: self.setitem(obj, idx, v) or NONE)
                return
            if isinstance(c, DictC):
                self.note_write(c.origin, "dict update")
                self.dict_set(obj, idx, v)
                return
            if isinstance(c, ListC):
                if isinstance(idx, Num) and idx.p.const() is not None and not any(isinstance(x, Seg) for x in c.items):
                    k = int(idx.p.const())
                    items = list(c.items)
                    if not -len(items) <= k < len(items):
                        self.raise_("IndexError")
                        return
                    items[k] = v
                    self.set_list(obj, c, items)
                    return
                if isinstance(idx, Num) and not any(isinstance(x, Seg) for x in c.items):
                    items = [self.phi(P.eq(idx.p, P.const(k)), v, x) for k, x in enumerate(c.items)]
                    self.set_list(obj, c, items)
                    return
                if isinstance(idx, Num) and len(c.items) == 1 and isinstance(c.items[0], Seg):
                    s = c.items[0].v
                    if isinstance(s, Seq):
                        e = P.eq(topoly(s.var), idx.p)
                        self.set_list(obj, c, [Seg(Seq(s.n, s.var, self.phi(e, v, s.elem, True)))])
                        return
            if isinstance(c, InstC):
                m = self.lookup_cls(c.cls, "__setitem__")
                if m is not None:
                    self.call(self.bind(m, obj, c.cls), [idx, v], {})
                    return
        if isinstance(obj, Opq):
            self.events.append(Event(self.pc, obj.t, "%setitem", [idx, v], {}, self.loc, NONE))
            return
        if isinstance(obj, Seq) and obj.obj:
            self.unsupported("store into an object array")
        self.raise_("TypeError", msg="object does not support item assignment: %r" % (obj,))

    def dict_set(self, d, k, v):
        c = self.heap[d.id]
        if isinstance(c, ViewC):
            if not (isinstance(k, Const) and isinstance(k.v, str)):
                self.unsupported("update of __dict__ with a key that is no name")
            self.setattr_raw(c.target, k.v, v)
            return
        items = list(c.items)

        def put(j):
            self.heap[d.id] = DictC(items[:j] + [(items[j][0], v)] + items[j + 1:], c.origin)

        def scan(j):
            for j in range(j, len(items)):
                kk = items[j][0]
                if self.same(kk, k):
                    return put(j)
                if isinstance(kk, Const) and isinstance(k, Const):
                    continue
                e = self.truth(self.compare("Eq", kk, k))
                if e is ONE:
                    return put(j)
                if e is not ZERO:
                    self.split(e, lambda: put(j), lambda: scan(j + 1))
                    return
            self.heap[d.id] = DictC(items + [(k, v)], c.origin)
        scan(0)

    # --- iteration ------------------------------------------------------

    def iterate(self, v):
        """A Python list of values (with Seg parts) or a Seq."""
        from . import models
        return models.iterate(self, v)

    def list_segments(self, v):
        if isinstance(v, Phi):
            a, b = self.list_segments(v.a), self.list_segments(v.b)
            if len(a) != len(b) or any(isinstance(x, Seg) for x in a + b):
                self.unsupported("gated sequence in star expression")
            return [self.phi(v.c, x, y) for x, y in zip(a, b)]
        it = self.iterate(v)
        if isinstance(it, list):
            return it
        return [Seg(it)]

    # --- operators (see ops.py) -----------------------------------------

    def truth(self, v):
        from . import ops
        return ops.truth(self, v)

    def binop(self, op, a, b):
        from . import ops
        return ops.binop(self, op, a, b)

    def unop(self, op, a):
        from . import ops
        return ops.unop(self, op, a)

    def compare(self, op, a, b):
        from . import ops
        return ops.compare(self, op, a, b)

    def read(self, a):
        from . import arrays
        return arrays.read(self, a)

    def store_into(self, a, v, how):
        from . import arrays
        return arrays.store_into(self, a, v, how)

    def reify(self, v):
        from . import reify
        return reify.reify(self, v)

    def vsubst(self, v, mp):
        from . import reify
        return reify.vsubst(self, v, mp)


def own_nodes(fn):
    """Nodes of a function body, not descending into nested functions."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef,
                                  ast.GeneratorExp, ast.ListComp)):
                todo.append(c)


_NUMERIC = {"b": 0, "i": 1, "f4": 2, "f8": 3, "c8": 4, "c16": 5}
