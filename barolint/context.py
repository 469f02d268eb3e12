"""Analysis contexts: symbolic grids, states and arguments."""

import ast
import os
import textwrap
from fractions import Fraction

from . import arrays, models, npmodels, poly as P
from .desugar import desugar
from .interp import Fx, Interp, Unsupported
from .poly import ONE, ZERO, AND, OR, NOT, ite, atom, topoly
from .reify import Renaming, reify, vsubst
from .values import *
from .values import Num, Const

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BAROLINT_REPO", "/repo")

N = P.sym("N", "i")
RS = P.sym("rsphere")
OM = P.sym("omega")
for _p in (RS,):
    P.declare_positive(_p)


def linop2(I, op, a, out, dt, *extra):
    """Opaque linear operator on an array with result shape `out`."""
    a = npmodels.to_array(I, a)
    if isinstance(a, Phi):
        return I.lift(a, lambda x: linop2(I, op, x, out, dt, *extra), True)
    c = arrays.read(I, a)
    osz = [x.p for x in out.items]
    oix = tuple(topoly(P.ix(len(osz) - 1 - j, osz[j])) for j in range(len(osz)))
    vs = [P.fresh_var(n) for n in c.sizes]
    body = P.subst(c.body, {arrays.vix(c.sizes, j).id: topoly(v) for j, v in enumerate(vs)})
    ids = {v.id for v in vs}
    real = c.dt not in ("c8", "c16")
    ex = tuple(reify(I, e) for e in extra)
    r = ZERO
    for m, k in body.terms.items():
        dep, ind = [], []
        for i, e in m:
            # real-valued operators are linear with respect to real factors
            (dep if (P.ATOMS[i].leaves & ids) or dt.v[0] == "f" and not npmodels.is_real_atom(i) else ind).append((i, e))
        d = P.mk({tuple(dep): Fraction(1)}) if dep else ONE
        t = planetary(op, d, osz, oix) or topoly(atom(op.v, P.lam(list(c.sizes), d, vs), oix, *ex))
        r = P.padd(r, P.pmul(P.mk({tuple(ind): k}) if ind else P.const(k), t))
    return arrays.mk(I, osz, r, dt.v)


def planetary(op, d, osz, oix):
    """The sine of latitude is band-limited: a harmonic of degree 1 that both transforms preserve."""
    a = P.single(d, "grdtospec") if op.v == "spectogrd" else None
    if a is None or len(osz) != 2 or not isinstance(a.args[0], P.Atom) or a.args[0].op != "lam":
        return None
    sizes = a.args[0].args[0]
    if tuple(sizes) != tuple(osz):
        return None
    r = P.lam_apply(a.args[0], oix)
    c = P.single(r, "cos")
    n = P.padd(osz[0], P.const(-1))
    return r if c is not None and c.args[0] is P.pmul(P.pmul(P.PI, P.pinv(n)), oix[0]) else None


def triangle(I, n):
    return Num(P.pscale(P.pmul(n.p + 1, n.p + 2), Fraction(1, 2)), "i")


def specindx(I, kind, n):
    size = triangle(I, n).p
    return arrays.mk(I, [size], specn(kind.v, topoly(P.ix(0, size))), "i")


def specn(kind, p):
    # the first coefficient is the global mean (m = n = 0)
    if p is ZERO:
        return ZERO
    return topoly(atom("specindex", kind, p))


P.REBUILD["specindex"] = specn


def is_dates(I, x):
    return TRUE if isinstance(x, (Num, Arr)) and npmodels.dtag_of(I, x) == "T" else FALSE


def unknown(I, name):
    """A number that depends on the name only."""
    p = P.sym(name.v)
    if name.v.startswith("frequency"):
        P.declare_positive(p)
    return Num(p, "f8")


def zerodim(I, x):
    """Value of a zero-dimensional array as xarray returns it."""
    if isinstance(x, Phi):
        return I.lift(x, lambda y: zerodim(I, y), True)
    if isinstance(x, Num):
        x = arrays.mk(I, [], x.p, x.dt)
    c = arrays.read(I, x)
    if c.dt in ("M", "m"):
        return Num(c.body, c.dt, False)
    return x


def label_index(I, labels, value):
    """Position of a value among unique labels."""
    if isinstance(value, (Arr, Num)) is False:
        I.unsupported("selection by %r" % (value,))
    c = arrays.read(I, labels)
    v = arrays.read(I, value).body if isinstance(value, Arr) else value.p
    if isinstance(value, Arr) and value.sizes:
        I.unsupported("selection of several labels")
    t = arrays.vix(c.sizes, 0)
    a, b = (P.single(p, "data") for p in (c.body, v))
    if a is not None and b is not None and a.args[:2] == b.args[:2] and len(a.args[2]) == 1 and a.args[2][0] is topoly(t):
        return Num(b.args[2][0], "i")
    n = c.sizes[0].const()
    if n is not None and n <= 8:
        r = P.const(int(n) - 1)
        for i in range(int(n) - 2, -1, -1):
            r = ite(P.eq(P.subst(c.body, {t.id: P.const(i)}), v), P.const(i), r)
        return Num(r, "i")
    lin = P.linear_in(c.body, t)
    if lin is not None:
        k, r = lin
        return Num(P.pmul(P.padd(v, P.pscale(r, Fraction(-1))), P.pinv(k)), "i")
    I.unsupported("selection by label")


class Ctx:
    """An interpreter with the package loaded and a symbolic grid."""

    def __init__(self, extra_stubs=(), missing=(), size=None):
        self.N = n = N if size is None else P.const(size)
        self.nspec = P.pscale(P.pmul(n + 1, n + 2), Fraction(1, 2))
        stubs = {"spharm": os.path.join(HERE, "stubs", "spharm.py"), "abcmix": os.path.join(HERE, "stubs", "abcmix.py")}
        for name in ("spec",):
            p = os.path.join(HERE, "specs", name + ".py")
            if os.path.exists(p):
                stubs[name] = p
        for name, path in extra_stubs:
            stubs[name] = os.path.join(HERE, path)
        self.I = I = Interp(os.path.join(REPO, "src"), stubs=stubs)
        I.missing_modules = missing
        I.module("abcmix")
        I.builtins["_linop"] = Native(linop2, "_linop")
        I.builtins["_triangle"] = Native(triangle, "_triangle")
        I.builtins["_specindx"] = Native(specindx, "_specindx")
        I.builtins["_is_dates"] = Native(is_dates, "_is_dates")
        I.builtins["_unknown"] = Native(unknown, "_unknown")
        I.builtins["_zerodim"] = Native(zerodim, "_zerodim")
        I.builtins["_label_index"] = Native(label_index, "_label_index")
        I.reify_hooks["State"] = state_term
        I.reify_hooks["Grid"] = grid_term
        I.reify_hooks["StateList"] = statelist_term
        I.mu_hooks["State"] = (state_parts, state_make)
        self.pkg = I.module("barotropic")
        if "spec" in stubs:
            I.module("spec")
        self.env = {}
        I.builtins["field_of"] = Native(self.field_of, "field_of")
        I.builtins["eq_time_kind"] = Native(lambda I, x: Const(getattr(x, "dt", None)), "eq_time_kind")
        self.snips = I.alloc(FrameC({"bt": self.pkg, "np": Ext("numpy"), "spec": I.modules.get("spec", NONE),
                                     "__name__": Const("obligation")}, None, "module"))
        self.snip_mod = Mod("obligation", self.snips, "<obligation>")
        I.modules["obligation"] = self.snip_mod

    def mod(self, name):
        return self.I.module("barotropic." + name if name else "barotropic")

    def attr(self, path):
        """Value of a dotted path below the package, e.g. grid.Grid"""
        parts = path.split(".")
        m = self.mod(parts[0])
        if m is None:
            raise Missing("module barotropic.%s" % parts[0])
        v = m
        for p in parts[1:]:
            n = len(self.I.raises)
            v = self.I.getattr(v, p)
            if len(self.I.raises) > n:
                raise Missing("%s in barotropic.%s" % (p, parts[0]))
        return v

    def spec(self, name):
        m = self.I.module("spec")
        vars = self.I.heap[m.frame].vars
        return vars[name]

    def let(self, **vars):
        """Bind names for obligation snippets."""
        self.env.update(vars)

    def code(self, src, **vars):
        """A callable that evaluates the snippet (its last expression is the result)."""
        tree = desugar(ast.parse(textwrap.dedent(src).strip(), "<obligation>"))
        if isinstance(tree.body[-1], ast.Expr):
            tree.body[-1] = ast.copy_location(ast.Return(tree.body[-1].value), tree.body[-1])
        fn = ast.FunctionDef("obligation", ast.arguments([], [], None, [], [], None, []), tree.body, [], None, None)
        fn.type_params = []
        fn.lineno, fn.col_offset = 1, 0
        ast.fix_missing_locations(fn)

        def run(I, other=None):
            env = {**self.env, **vars}
            if other is not None:
                # evaluation with other values of the arguments
                names = sorted(env)
                env = dict(zip(names, vsubst(I, Tup([env[k] for k in names]), other, True).items))
            fid = I.alloc(FrameC(env, self.snips, "func"))
            fx = Fx(fid)
            fx.module = self.snip_mod
            f = I.make_func(fn, fx)
            return I.call(f, [], {})
        run.env = lambda: {**self.env, **vars}
        return run

    def field_of(self, I, grid, name, *deps):
        """An arbitrary field on the grid that may depend on `deps`."""
        key = tuple(reify(I, d) for d in deps)
        sh = I.getattr(grid, "shape")
        sz = tuple(x.p for x in sh.items)
        idx = tuple(topoly(arrays.vix(sz, j)) for j in range(len(sz)))
        return arrays.mk(I, sz, topoly(atom("app", name.v, *key, idx)), "f8")

    # symbols

    def num(self, name, dt="f8", positive=False):
        p = P.sym(name, "i" if dt == "i" else "f")
        if positive:
            P.declare_positive(p)
        return Num(p, dt, True)

    def time(self, name):
        return Num(P.sym(name, "T"), "T")

    def delta(self, name):
        return Num(P.sym(name, "D"), "D")

    def array(self, name, sizes, dt="f8", origin=None):
        sizes = tuple(sizes)
        idx = tuple(topoly(arrays.vix(sizes, j)) for j in range(len(sizes)))
        return arrays.mk(self.I, sizes, topoly(atom("data", name, dt, idx)), dt, origin)

    def field(self, name, dt="f8", origin=None):
        return self.array(name, (self.N + 1, 2 * self.N), dt, origin)

    def profile(self, name, dt="f8", origin=None):
        return self.array(name, (self.N + 1,), dt, origin)

    def zonal(self, name, dt="f8", origin=None):
        return self.array(name, (2 * self.N,), dt, origin)

    def spectral(self, name, origin=None):
        return self.array(name, (self.nspec,), "c8", origin)

    def grid(self, ntrunc=None, **kw):
        G = self.attr("grid.Grid")
        I = self.I
        kw.setdefault("rsphere", Num(RS))
        kw.setdefault("omega", Num(OM))
        if ntrunc is not None:
            kw["ntrunc"] = ntrunc
        res = kw.pop("resolution", None) or Num(P.pmul(P.const(180), P.pinv(self.N)))
        g = I.call(G, [res], kw)
        if isinstance(g, Phi) or not isinstance(g, Ref):
            raise Unsupported("grid construction")
        return g

    def state(self, grid, name, time=None, origin=None):
        S = self.attr("state.State")
        pvs = self.array(name + ".pv_spectral", (self.nspec,), "c8", origin)
        s = self.I.call(S, [grid, time if time is not None else self.num(name + ".time")], {"pv_spectral": pvs})
        return s


def warm_ups(env, heap):
    """Other values of the arguments, which share part of them with the original ones."""
    sizes = set()
    for v in env.values():
        if isinstance(v, Arr):
            for p in v.sizes:
                sizes |= {P.ATOMS[i].args[0] for i in p.leaves if P.ATOMS[i].op == "sym"}
    fixed = sizes | {"N", "rsphere", "omega"}

    def data(kind, name):
        return "w." + name if kind == "data" else None

    def numbers(kind, name):
        return "w." + name if kind != "data" and name not in fixed else None

    def both(kind, name):
        if kind == "data":
            return "w." + name
        if kind in ("T", "i") or name in fixed or name.split(".")[-1] in ("t", "time"):
            return None
        return "w." + name
    return [("other fields and numbers at the same time", Renaming(both), ONE),
            ("other fields", Renaming(data), ONE),
            ("other numbers", Renaming(numbers), ONE),
            ("another planet", {P.single(RS, "sym").id: P.pscale(RS, Fraction(2)), P.single(OM, "sym").id: P.pscale(OM, Fraction(3))},
             PLANET)]


class Missing(Exception):
    pass


# --- extensional terms of instances -----------------------------------------------

def quiet(I, f):
    """Evaluate without recording exceptions or effects of the evaluation."""
    n = len(I.raises), len(I.effects), len(I.events)
    pc, loc = I.pc, I.loc
    I.pc = ONE
    try:
        return f()
    finally:
        I.pc, I.loc = pc, loc
        del I.raises[n[0]:]
        del I.effects[n[1]:]
        del I.events[n[2]:]


def state_parts(I, s):
    return quiet(I, lambda: [I.getattr(s, "grid"), I.getattr(s, "time"), I.getattr(s, "pv_spectral")])


def state_make(I, cls, parts):
    return quiet(I, lambda: I.call(cls, [parts[0], parts[1]], {"pv_spectral": parts[2]}))


def state_term(I, v, c, seen):
    h = I.heap[v.id]
    if h is not c:
        return None
    return atom("state", *[reify(I, x, seen) for x in state_parts(I, v)])


def grid_term(I, v, c, seen):
    key = c.attrs
    if not all(k in key for k in ("rsphere", "omega", "nlon", "nlat")):
        return None
    out = [reify(I, key[k], seen) for k in ("nlon", "nlat", "rsphere", "omega")]
    return atom("grid", *out, *[reify(I, key[k], seen) for k in ("_ntrunc",) if k in key])


def statelist_term(I, v, c, seen):
    its = quiet(I, lambda: I.iterate(v))
    if isinstance(its, list):
        return atom("statelist", tuple(atom("seg", reify(I, x.v, seen)) if isinstance(x, Seg) else reify(I, x, seen)
                                       for x in its))
    return atom("statelist", (atom("seg", reify(I, its, seen)),))


# planets large and fast enough that the comparison of grids, which has a tolerance, tells one from its double
PLANET = AND(P.lt(P.const(Fraction(1, 1000)), RS), P.lt(P.const(Fraction(1, 10**6)), OM))
