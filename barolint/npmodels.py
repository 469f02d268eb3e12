"""Models of the numpy (and scipy) functions used by the analysed code."""

from fractions import Fraction

from . import arrays, ops, poly as P
from .arrays import mk, read, vix
from .poly import ONE, ZERO, AND, OR, NOT, ite, atom, topoly
from .values import *
from .values import Num, Const

TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def npm(*names):
    return model(*["numpy." + n for n in names])


# --- helpers -----------------------------------------------------------------

def lift_args(*which):
    """Evaluate a model per alternative of gated arguments."""
    def deco(f):
        def g(I, *args, **kwargs):
            keys = list(kwargs)
            vals = list(args) + [kwargs[k] for k in keys]
            if any(isinstance(v, Phi) or is_gated(I, v) for v in vals):
                def run(*vs):
                    return I.liftn([resolve(I, v) for v in vs],
                                   lambda *ws: f(I, *ws[:len(args)], **dict(zip(keys, ws[len(args):]))))
                for k, v in enumerate(vals):
                    if is_gated(I, v):
                        return I.with_content(v, lambda c: g(I, *args, **kwargs))
                return I.liftn(vals, lambda *ws: f(I, *ws[:len(args)], **dict(zip(keys, ws[len(args):]))))
            return f(I, *args, **kwargs)
        return g
    return deco


def is_gated(I, v):
    return isinstance(v, Ref) and type(I.heap[v.id]).__name__ == "PhiC"


def resolve(I, v):
    return v


def isint(v):
    return isinstance(v, Num) and v.dt in ("i", "b")


DTYPES = {"float": "f8", "int": "i", "bool": "b", "complex": "c16", "float64": "f8", "float32": "f4", "f8": "f8",
          "f4": "f4", "f": "f4", "d": "f8", "complex64": "c8", "complex128": "c16", "i": "i", "int64": "i", "i8": "i",
          "int32": "i", "i4": "i", "intp": "i", "int_": "i", "bool_": "b", "?": "b", "double": "f8", "float_": "f8",
          "single": "f4", "csingle": "c8", "cdouble": "c16", "c8": "c8", "c16": "c16", "F": "c8", "D": "c16",
          "object": "o", "object_": "o", "O": "o", "M8[ns]": "M", "datetime64[ns]": "M", "M8[us]": "M",
          "datetime64[us]": "M"}


def dtag(I, v):
    """dtype tag denoted by a dtype argument"""
    if v is None or is_none(v):
        return None
    if isinstance(v, Const) and isinstance(v.v, str):
        n = v.v.lstrip("=<")
    elif isinstance(v, Ext):
        n = v.path.split(".")[-1]
    elif isinstance(v, Native):
        n = v.name
    elif isinstance(v, Opq) and v.t.op == "dtype":
        return v.t.args[0]
    else:
        n = None
    if n not in DTYPES:
        I.unsupported("dtype %r" % (v,))
    return DTYPES[n]


def dtag_of(I, x):
    return x.dt if isinstance(x, Num) else I.heap[x.id].dt


def as_operand(I, v):
    """Num, Arr or object Seq for elementwise functions."""
    if isinstance(v, (Num, Arr)):
        return v
    if isinstance(v, Seq) and v.obj:
        return v
    if isinstance(v, Opq):
        return Num(topoly(v.t), "o")
    return to_array(I, v)


def to_array(I, v, dt=None):
    """Convert lists and sequences to arrays (Num and Arr pass through)."""
    if isinstance(v, Phi):
        return I.lift(v, lambda x: to_array(I, x, dt), True)
    if isinstance(v, Arr):
        return v
    if isinstance(v, Num):
        return v
    if isinstance(v, Opq):
        return Num(topoly(v.t), "o")
    if isinstance(v, Const):
        return Num(topoly(atom("pyconst", repr(v.v))), "o")
    if isinstance(v, Ref):
        c = I.heap[v.id]
        if type(c).__name__ == "PhiC":
            return I.with_content(v, lambda c: to_array(I, v, dt))
        if isinstance(c, ListC):
            return items_to_array(I, list(c.items), v)
        if isinstance(c, InstC):
            m = I.lookup_cls(c.cls, "__array__")
            if m is not None:
                return to_array(I, I.call(I.bind(m, v, c.cls), [], {}))
    if isinstance(v, Tup):
        return items_to_array(I, list(v.items), v)
    if isinstance(v, Seq):
        return seq_to_array(I, v)
    I.unsupported("conversion of %r to an array" % (v,))


def seq_to_array(I, s, off=None):
    e = to_array(I, s.elem)
    e = unphi(I, e)
    if isinstance(e, Num):
        return mk(I, [s.n], P.subst(e.p, {s.var.id: topoly(P.ix(0, s.n))}), e.dt)
    if isinstance(e, Arr):
        c = read(I, e)
        nd = len(c.sizes)
        return mk(I, (s.n,) + c.sizes, P.subst(c.body, {s.var.id: topoly(P.ix(nd, s.n))}), c.dt)
    I.unsupported("array of %r" % (e,))


def unphi(I, e):
    if isinstance(e, Phi):
        a, b = unphi(I, e.a), unphi(I, e.b)
        r = I.phi(e.c, a, b, True)
        return r
    return e


def items_to_array(I, items, v):
    if any(isinstance(x, Seg) for x in items):
        if len(items) == 1:
            return seq_to_array(I, items[0].v) if isinstance(items[0].v, Seq) else I.unsupported("opaque sequence")
        parts = []
        for x in items:
            parts.append(to_array(I, x.v) if isinstance(x, Seg) else to_array(I, I.new_list([x])))
        return concatenate(I, Tup(parts))
    if not items:
        return I.new_arr([ZERO], ZERO, "f8")
    els = [unphi(I, to_array(I, x)) for x in items]
    return stack_items(I, els, 0)


def stack_items(I, els, axis):
    shapes = [e.sizes if isinstance(e, Arr) else () for e in els]
    s0 = shapes[0]
    for s in shapes[1:]:
        if not I.sizes_same(s, s0):
            if len(s) != len(s0):
                I.raise_("ValueError", msg="inhomogeneous shape")
                return Opq(atom("dead"))
            c = ONE
            for x, y in zip(s, s0):
                c = AND(c, P.eq(x, y))
            I.raise_if(NOT(c), "ValueError", msg="all input arrays must have the same shape")
            if not I.pc.terms:
                return Opq(atom("dead"))
    n = P.const(len(els))
    nd = len(s0)
    if axis < 0:
        axis += nd + 1
    sizes = list(s0[:axis]) + [n] + list(s0[axis:])
    right = nd - axis          # axis position from the right
    dt, w = None, True
    body = ZERO
    k_ix = topoly(P.ix(right, n))
    for k, e in enumerate(els):
        if isinstance(e, Arr):
            c = read(I, e)
            b = c.body
            # axes left of the new one move
            mp = {}
            for j, sz in enumerate(c.sizes):
                r = len(c.sizes) - 1 - j
                if r >= right:
                    mp[P.ix(r, sz).id] = topoly(P.ix(r + 1, s0[j]))
                elif sz is not s0[j]:
                    mp[P.ix(r, sz).id] = topoly(P.ix(r, s0[j]))
            b = P.subst(b, mp) if mp else b
            d, ww = c.dt, False
        else:
            b, d, ww = e.p, e.dt, e.weak
        dt, w = (d, ww) if dt is None else promote(dt, w, d, ww)
        body = b if k == 0 else ite(P.eq(k_ix, P.const(k)), b, body)
    return mk(I, sizes, body, dt)


def norm_axis(I, axis, nd):
    if isinstance(axis, int):
        k = axis
    else:
        k = axis.p.const() if isinstance(axis, Num) else None
        if k is None:
            I.unsupported("axis %r" % (axis,))
        k = int(k)
    if not -nd <= k < nd:
        I.raise_("AxisError", msg="axis %d out of bounds" % k)
        return None
    return k % nd


def shape_arg(I, shape):
    if isinstance(shape, Num):
        return [shape.p]
    out = []
    for x in I.iterate(shape):
        if not isinstance(x, Num):
            I.unsupported("shape %r" % (x,))
        if x.dt not in ("i", "b", "o"):
            I.raise_("TypeError", msg="non-integer shape")
        out.append(x.p)
    return out


# --- linear operators on index functions ------------------------------------

def linear(op, body, var, extra=(), real_only=False):
    """Opaque linear operator along one axis, in normal form.

    Factors independent of the axis variable are moved out; every monomial is
    transformed separately (linearity).
    """
    r = ZERO
    for m, c in body.terms.items():
        dep, indep = [], []
        for i, e in m:
            a = P.ATOMS[i]
            (dep if var.id in a.leaves or (real_only and a.op == "I") else indep).append((i, e))
        d = P.mk({tuple(dep): Fraction(1)}) if dep else ONE
        t = topoly(atom(op, P.lam([var.args[1]], d, [var])) if not extra else
                   atom(op, P.lam([var.args[1]], d, [var]), *extra))
        r = P.padd(r, P.pmul(P.mk({tuple(indep): c}) if indep else P.const(c), t))
    return r


# --- creation ------------------------------------------------------------------

@npm("array")
@lift_args()
def array(I, object, dtype=None, copy=None, order=None, ndmin=None, subok=None):
    a = to_array(I, object)
    dt = dtag(I, dtype)
    if isinstance(a, Num):
        return Num(arrays.cast(I, a.p, a.dt, dt or a.dt), dt or a.dt, False)
    if isinstance(object, Arr):
        if copy is not None and isinstance(copy, Num) and copy.p is ZERO:
            return asarray(I, object, dtype)
        c = read(I, a)
        return I.new_arr(c.sizes, arrays.cast(I, c.body, c.dt, dt or c.dt), dt or c.dt)
    if dt and dt != I.heap[a.id].dt:
        c = read(I, a)
        return I.new_arr(c.sizes, arrays.cast(I, c.body, c.dt, dt), dt)
    return a


@npm("asarray", "asanyarray", "ascontiguousarray", "require", "asfortranarray")
@lift_args()
def asarray(I, a, dtype=None, requirements=None, order=None, copy=None):
    dt = dtag(I, dtype)
    r = to_array(I, a)
    if isinstance(r, Num):
        return Num(arrays.cast(I, r.p, r.dt, dt or r.dt), dt or r.dt, False)
    c = I.heap[r.id]
    if dt and dt != c.dt:
        c = read(I, r)
        return I.new_arr(c.sizes, arrays.cast(I, c.body, c.dt, dt), dt)
    return r


@npm("copy")
@lift_args()
def np_copy(I, a, order=None, subok=None):
    return array(I, a)


@npm("zeros", "empty")
@lift_args()
def zeros(I, shape, dtype=None, order=None):
    return I.new_arr(shape_arg(I, shape), ZERO, dtag(I, dtype) or "f8")


@npm("ones")
@lift_args()
def ones(I, shape, dtype=None, order=None):
    return I.new_arr(shape_arg(I, shape), ONE, dtag(I, dtype) or "f8")


@npm("full")
@lift_args()
def full(I, shape, fill_value, dtype=None, order=None):
    v = to_array(I, fill_value)
    dt = dtag(I, dtype) or (v.dt if isinstance(v, Num) else I.heap[v.id].dt)
    r = I.new_arr(shape_arg(I, shape), ZERO, dt)
    arrays.store_into(I, r, v)
    return r


def sizes_of(I, a):
    a = to_array(I, a)
    return a.sizes if isinstance(a, Arr) else ()


def like(I, a, value, dtype, shape=None):
    a = to_array(I, a)
    if isinstance(a, Num):
        return Num(value, dtag(I, dtype) or a.dt, False)
    if shape is not None and not is_none(shape):
        return I.new_arr(shape_arg(I, shape), value, dtag(I, dtype) or I.heap[a.id].dt)
    return I.new_arr(a.sizes, value, dtag(I, dtype) or I.heap[a.id].dt)


@npm("zeros_like", "empty_like")
@lift_args()
def zeros_like(I, a, dtype=None, order=None, subok=None, shape=None):
    return like(I, a, ZERO, dtype, shape)


@npm("ones_like")
@lift_args()
def ones_like(I, a, dtype=None, order=None, subok=None, shape=None):
    return like(I, a, ONE, dtype, shape)


@npm("full_like")
@lift_args()
def full_like(I, a, fill_value, dtype=None, order=None, subok=None, shape=None):
    v = as_operand(I, fill_value)
    if isinstance(v, Num):
        d = dtag(I, dtype)
        r = like(I, a, ZERO, dtype, shape)
        arrays.store_into(I, r, v)
        return r
    I.unsupported("full_like")


def ceil(p):
    return -P.ffloor(-p)


@npm("arange")
@lift_args()
def arange(I, start, stop=None, step=None, dtype=None):
    if stop is None or is_none(stop):
        start, stop = num(0), start
    step = num(1) if step is None or is_none(step) else step
    start, stop, step = [as_operand(I, x) for x in (start, stop, step)]
    dt = dtag(I, dtype) or ("i" if all(x.dt in ("i", "b") for x in (start, stop, step)) else "f8")
    n = P.padd(stop.p, -start.p)
    if step.p is not ONE:
        n = ceil(P.pmul(n, P.pinv(step.p)))
    elif not P.poly_isint(n):
        n = ceil(n)
    lo = P._lin_bounds(n, True)
    if lo is None or lo < 0:
        n = P.fmax(n, ZERO)
    return mk(I, [n], P.padd(start.p, P.pmul(step.p, topoly(P.ix(0, n)))), dt)


@npm("linspace")
@lift_args()
def linspace(I, start, stop, num=None, endpoint=None, retstep=None, dtype=None, axis=None):
    a, b = as_operand(I, start), as_operand(I, stop)
    n = P.const(50) if num is None else as_operand(I, num).p
    if num is not None and as_operand(I, num).dt not in ("i", "b", "o"):
        I.raise_("TypeError", msg="number of samples is not an integer")
        return Opq(atom("dead"))
    ep = True
    if endpoint is not None:
        k = I.truth(endpoint).const()
        if k is None:
            I.unsupported("symbolic endpoint")
        ep = bool(k)
    if not isinstance(a, Num) or not isinstance(b, Num):
        I.unsupported("linspace of arrays")
    div = P.padd(n, P.const(-1)) if ep else n
    step = P.pmul(P.padd(b.p, -a.p), P.pinv(div)) if n is not ONE else ZERO
    body = P.padd(a.p, P.pmul(step, topoly(P.ix(0, n))))
    r = mk(I, [n], body, dtag(I, dtype) or "f8")
    if retstep is not None and I.truth(retstep) is ONE:
        return Tup([r, Num(step, "f8", False)])
    return r


@npm("meshgrid")
@lift_args()
def meshgrid(I, *xi, indexing=None, sparse=None, copy=None):
    xs = [to_array(I, x) for x in xi]
    idx = indexing.v if indexing is not None else "xy"
    sp = sparse is not None and I.truth(sparse) is ONE
    order = list(range(len(xs)))
    if idx == "xy" and len(xs) >= 2:
        order[0], order[1] = 1, 0
    sizes = [None] * len(xs)
    xs1 = []
    for k, x in enumerate(xs):
        if isinstance(x, Num):
            x = mk(I, [ONE], x.p, x.dt)
        if len(x.sizes) != 1:
            I.unsupported("meshgrid of multi-dimensional arrays")
        sizes[order[k]] = x.sizes[0]
        xs1.append(x)
    out = []
    for k, x in enumerate(xs1):
        c = read(I, x)
        ax = order[k]
        right = len(xs) - 1 - ax
        body = P.subst(c.body, {vix(c.sizes, 0).id: topoly(P.ix(right, c.sizes[0]))})
        out.append(mk(I, sizes if not sp else [n if j == ax else ONE for j, n in enumerate(sizes)], body, c.dt))
    return I.new_list(out)


@npm("indices")
@lift_args()
def indices(I, dimensions, dtype=None, sparse=None):
    sizes = shape_arg(I, dimensions)
    return Tup([mk(I, sizes, topoly(vix(sizes, j)), "i") for j in range(len(sizes))]) if sparse is None \
        else I.unsupported("sparse indices")


@npm("eye", "identity")
@lift_args()
def eye(I, N, M=None, k=None, dtype=None):
    n = N.p
    return mk(I, [n, n], P.eq(topoly(P.ix(0, n)), topoly(P.ix(1, n))), dtag(I, dtype) or "f8")


# --- elementwise ------------------------------------------------------------------

def ufunc(names, f, dtf, nin):
    def run(I, *args, out=None, where=None, dtype=None, casting=None):
        if where is not None and not (isinstance(where, Num) and where.p is ONE):
            I.unsupported("where argument of %s" % names[0])
        if len(args) == nin + 1:
            out = args[-1]
            args = args[:-1]
        if len(args) != nin:
            I.raise_("TypeError", msg="wrong number of arguments for %s" % names[0])
            return Opq(atom("dead"))
        args = [as_operand(I, unphi(I, a)) for a in args]
        r = arrays.elementwise(I, f, dtf, *args)
        d = dtag(I, dtype)
        if d:
            r = astype(I, r, d)
        if out is not None and not is_none(out):
            if isinstance(out, Tup):
                out = out.items[0]
            arrays.store_into(I, out, r, "out argument")
            return out
        if isinstance(r, Num):
            r = Num(r.p, r.dt, False if r.dt not in ("o", "T", "D", "M", "m") else r.weak)
        return r
    g = lift_args()(run)
    for n in names:
        TABLE["numpy." + n] = g
    return g


def astype(I, r, d):
    if isinstance(r, Num):
        return Num(arrays.cast(I, r.p, r.dt, d), d, False)
    c = read(I, r)
    return I.new_arr(c.sizes, arrays.cast(I, c.body, c.dt, d), d)


def real_dt(*d):
    t, w = ops.same_dt(*d)
    return {"c8": "f4", "c16": "f8"}.get(t, t), w


def int_keep(*d):
    return ops.same_dt(*d)


def fcomplex(name, dt):
    return lambda p: p


def f_real(p):
    return real_part(p, 0)


def f_imag(p):
    return real_part(p, 1)


REAL_OPS = {"sym", "ix", "fv", "bv", "pi", "sin", "cos", "lt0", "gt0", "eqc", "nth", "rank", "isinf", "isnan", "floor",
            "round", "exp", "mod", "grp", "pow", "inf"}


def is_real_atom(i):
    a = P.ATOMS[i]
    if a.op == "sym":
        return len(a.args) < 2 or a.args[1] != "c"
    if a.ind:
        return True
    if a.op == "pow" and not nonnegative(a.args[0]):
        # the root of a negative number is imaginary
        return False
    if a.op in ("sin", "cos", "exp", "grp", "pow", "floor", "round", "mod", "trunc"):
        return all(all_real(x) for x in a.args if isinstance(x, P.Poly))
    if a.op in ("I", "c_"):
        return False
    if a.op == "data":
        return a.args[1] in ("f8", "f4", "i", "b")
    if a.op == "arr":
        return a.args[1] not in ("c8", "c16")
    return a.op in REAL_OPS or a.op in ("realfn",)


def nonnegative(p):
    c = p.const()
    if c is not None:
        return c >= 0
    return len(p.terms) == 1 and all(v > 0 and all(e % 2 == 0 and is_real_atom(i) or i in P.POSITIVE or P.ATOMS[i].op in ("pi", "inf", "exp")
                                                   for i, e in m) for m, v in p.terms.items())


def all_real(p):
    return all(is_real_atom(i) for i in p.atoms())


def real_part(p, which):
    r = ZERO
    rest = {}
    for m, c in p.terms.items():
        real, cplx = [], []
        has_i = False
        for i, e in m:
            if P.ATOMS[i].op == "I":
                has_i = True
            elif is_real_atom(i):
                real.append((i, e))
            else:
                cplx.append((i, e))
        rm = P.mk({tuple(real): c}) if real else P.const(c)
        if not cplx:
            part = 1 if has_i else 0
            if part == which:
                r = P.padd(r, rm)
            continue
        cm = P.mk({tuple(cplx): Fraction(1)})
        # Re(i z) = -Im z, Im(i z) = Re z
        if has_i:
            t = P.pscale(topoly(atom("fn", "imag", cm)), Fraction(-1)) if which == 0 else topoly(atom("fn", "real", cm))
        else:
            t = topoly(atom("fn", "imag" if which else "real", cm))
        r = P.padd(r, P.pmul(rm, t))
    return r


DEG = P.pmul(P.PI, P.const(Fraction(1, 180)))
RAD = P.pmul(P.const(180), P.pinv(P.PI))


def fn(name):
    return lambda p: P.unary(name, p)


def fsqrt(p):
    return P.power(p, P.const(Fraction(1, 2)))


def fsign(p):
    return P.padd(P.lt0(-p), P.pscale(P.lt0(p), Fraction(-1))) if False else P.padd(P.lt0(-p), -P.lt0(p))


def fisclose(I, a, b, rtol, atol):
    d = P.fabs(P.padd(a, -b))
    return NOT(P.lt(P.padd(atol, P.pmul(rtol, P.fabs(b))), d))


def _abs(I, x, out=None, where=None):
    pass


U = ufunc
U(["sin"], P.fsin, ops.float_dt, 1)
U(["cos"], P.fcos, ops.float_dt, 1)
U(["tan"], lambda p: P.pmul(P.fsin(p), P.pinv(P.fcos(p))), ops.float_dt, 1)
U(["arcsin", "asin"], P.farcsin, ops.float_dt, 1)
U(["arccos", "acos"], lambda p: P.padd(P.pscale(P.PI, Fraction(1, 2)), -P.farcsin(p)), ops.float_dt, 1)
U(["arctan", "atan"], fn("arctan"), ops.float_dt, 1)
U(["arctan2", "atan2"], lambda a, b: topoly(atom("fn", "arctan2", a, b)), ops.float_dt, 2)
U(["sinh"], fn("sinh"), ops.float_dt, 1)
U(["cosh"], fn("cosh"), ops.float_dt, 1)
U(["tanh"], fn("tanh"), ops.float_dt, 1)
U(["exp"], P.fexp, ops.float_dt, 1)
U(["log"], fn("log"), ops.float_dt, 1)
U(["log2"], fn("log2"), ops.float_dt, 1)
U(["log10"], fn("log10"), ops.float_dt, 1)
U(["sqrt"], fsqrt, ops.float_dt, 1)
U(["square"], lambda p: P.pmul(p, p), ops.same_dt, 1)
U(["deg2rad", "radians"], lambda p: P.pmul(p, DEG), ops.float_dt, 1)
U(["rad2deg", "degrees"], lambda p: P.pmul(p, RAD), ops.float_dt, 1)
U(["floor"], P.ffloor, ops.float_dt, 1)
U(["ceil"], ceil, ops.float_dt, 1)
U(["rint"], P.fround, ops.float_dt, 1)
U(["trunc", "fix"], P.ftrunc, ops.float_dt, 1)
U(["sign"], fsign, ops.same_dt, 1)
U(["isinf"], P.isinf, ops.bool_dt, 1)
U(["isnan"], P.isnan, ops.bool_dt, 1)
U(["isfinite"], lambda p: AND(NOT(P.isinf(p)), NOT(P.isnan(p))), ops.bool_dt, 1)
U(["negative"], lambda p: -p, ops.same_dt, 1)
U(["positive"], lambda p: p, ops.same_dt, 1)
U(["reciprocal"], P.pinv, ops.float_dt, 1)
U(["add"], P.padd, ops.dt_arith("Add"), 2)
U(["subtract"], ops.f_sub, ops.dt_arith("Sub"), 2)
U(["multiply"], P.pmul, ops.dt_arith("Mult"), 2)
U(["divide", "true_divide"], ops.f_div, ops.dt_arith("Div"), 2)
U(["floor_divide"], ops.f_floordiv, ops.dt_arith("FloorDiv"), 2)
U(["mod", "remainder"], P.fmod, ops.dt_arith("Mod"), 2)
U(["power", "pow", "float_power"], P.power, ops.dt_arith("Pow"), 2)
U(["maximum", "fmax"], P.fmax, ops.same_dt, 2)
U(["minimum", "fmin"], P.fmin, ops.same_dt, 2)
U(["hypot"], lambda a, b: fsqrt(P.padd(P.pmul(a, a), P.pmul(b, b))), ops.float_dt, 2)
U(["equal"], P.eq, ops.bool_dt, 2)
U(["not_equal"], lambda a, b: NOT(P.eq(a, b)), ops.bool_dt, 2)
U(["less"], P.lt, ops.bool_dt, 2)
U(["less_equal"], P.le, ops.bool_dt, 2)
U(["greater"], lambda a, b: P.lt(b, a), ops.bool_dt, 2)
U(["greater_equal"], lambda a, b: P.le(b, a), ops.bool_dt, 2)


def tb(p):
    """truth value of a numeric element"""
    if is_bool(p):
        return p
    return NOT(P.eq(p, ZERO))


def is_bool(p):
    # sums of products of indicators are only boolean by construction
    return all(all(P.ATOMS[i].ind for i, _ in m) for m in p.terms)


U(["logical_and"], lambda a, b: AND(tb(a), tb(b)), ops.bool_dt, 2)
U(["logical_or"], lambda a, b: OR(tb(a), tb(b)), ops.bool_dt, 2)
U(["logical_xor"], lambda a, b: ops.f_xor(tb(a), tb(b)), ops.bool_dt, 2)
U(["logical_not"], lambda a: NOT(tb(a)), ops.bool_dt, 1)
U(["bitwise_and"], AND, ops.bool_dt, 2)
U(["bitwise_or"], ops.f_or, ops.bool_dt, 2)


@npm("invert", "bitwise_not")
def np_invert(I, x):
    return I.unop("Invert", x)


@npm("abs", "absolute", "fabs")
@lift_args()
def np_abs(I, x, out=None, where=None):
    x = as_operand(I, x)
    d = ops.dt_of(I, x)
    if d in ("c8", "c16"):
        r = arrays.elementwise(I, f_cabs, real_dt, x)
    else:
        r = arrays.elementwise(I, P.fabs, ops.same_dt, x)
    if out is not None and not is_none(out):
        arrays.store_into(I, out, r, "out argument")
        return out
    return r


def f_cabs(p):
    return P.unary("cabs", p)


@npm("real")
@lift_args()
def np_real(I, val):
    x = as_operand(I, val)
    if ops.dt_of(I, x) in ("c8", "c16", "o"):
        return arrays.elementwise(I, f_real, real_dt, x)
    return x


@npm("imag")
@lift_args()
def np_imag(I, val):
    x = as_operand(I, val)
    if ops.dt_of(I, x) in ("c8", "c16", "o"):
        return arrays.elementwise(I, f_imag, real_dt, x)
    return arrays.elementwise(I, lambda p: ZERO, ops.same_dt, x)


@npm("conj", "conjugate")
@lift_args()
def np_conj(I, x):
    x = as_operand(I, x)
    return arrays.elementwise(I, lambda p: P.padd(f_real(p), P.pscale(P.pmul(P.I, f_imag(p)), Fraction(-1))),
                              ops.same_dt, x)


@npm("angle")
@lift_args()
def np_angle(I, z, deg=None):
    return arrays.elementwise(I, fn("angle"), real_dt, as_operand(I, z))


def round_to(p, d):
    """Rounding to decimals. Many decimals (removal of noise) have no model."""
    k = d.const()
    if k is None or k.denominator != 1 or not -6 <= k <= 6:
        return topoly(atom("fn", "round", p, d))
    s = Fraction(10)**int(k)
    return P.pscale(P.fround(P.pscale(p, s)), 1/s)


@npm("round", "around")
@lift_args()
def np_round(I, a, decimals=None, out=None):
    if decimals is not None and not (isinstance(decimals, Num) and decimals.p is ZERO):
        return arrays.elementwise(I, round_to, lambda d, _: d, as_operand(I, a),
                                  as_operand(I, decimals))
    return arrays.elementwise(I, P.fround, ops.same_dt, as_operand(I, a))


@npm("where")
@lift_args()
def where(I, condition, x=None, y=None):
    c = as_operand(I, condition)
    if x is None:
        return nonzero(I, c)
    x, y = as_operand(I, x), as_operand(I, y)
    return arrays.elementwise(I, lambda c, a, b: ite(tb(c), a, b), lambda c, a, b: ops.same_dt(a, b), c, x, y)


@npm("clip")
@lift_args()
def clip(I, a, a_min=None, a_max=None, out=None, min=None, max=None):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = as_operand(I, a)
    if lo is not None and not is_none(lo):
        r = arrays.elementwise(I, P.fmax, ops.same_dt, r, as_operand(I, lo))
    if hi is not None and not is_none(hi):
        r = arrays.elementwise(I, P.fmin, ops.same_dt, r, as_operand(I, hi))
    if out is not None and not is_none(out):
        arrays.store_into(I, out, r, "out argument")
        return out
    return r


@npm("isclose")
@lift_args()
def isclose(I, a, b, rtol=None, atol=None, equal_nan=None):
    rt = rtol if rtol is not None else num(1e-05)
    at = atol if atol is not None else num(1e-08)
    return arrays.elementwise(I, lambda a, b, r, t: fisclose(I, a, b, r, t), ops.bool_dt,
                              *[as_operand(I, x) for x in (a, b, rt, at)])


@npm("allclose")
@lift_args()
def allclose(I, a, b, rtol=None, atol=None, equal_nan=None):
    return reduce_(I, isclose(I, a, b, rtol, atol), "all")


@npm("array_equal")
@lift_args()
def array_equal(I, a1, a2, equal_nan=None):
    a, b = to_array(I, a1), to_array(I, a2)
    sa, sb = sizes_of(I, a), sizes_of(I, b)
    if len(sa) != len(sb):
        return FALSE
    c = ONE
    for x, y in zip(sa, sb):
        c = AND(c, P.eq(x, y))
    if c is ZERO:
        return FALSE
    if c is not ONE:
        I.unsupported("array_equal of arrays with possibly different shapes")
    return reduce_(I, arrays.elementwise(I, P.eq, ops.bool_dt, a, b), "all")


@npm("interp")
@lift_args()
def interp(I, x, xp, fp, left=None, right=None, period=None):
    x = as_operand(I, x)
    xp, fp = to_array(I, xp), to_array(I, fp)
    cx, cf = read(I, xp), read(I, fp)
    lx = P.lam(cx.sizes, cx.body, [vix(cx.sizes, 0)])
    extra = tuple(I.reify(v) if v is not None else None for v in (left, right, period))
    v = P.fresh_var(cf.sizes[0])
    body = P.subst(cf.body, {vix(cf.sizes, 0).id: topoly(v)})
    # interpolation in decreasing coordinates: one of the two equivalent forms
    back = lambda b, i: P.subst(b, {i.id: P.padd(P.padd(i.args[1], P.const(-1)), -topoly(i))})
    i = vix(cx.sizes, 0)
    ly = P.lam(cx.sizes, -back(cx.body, i), [i])

    def lead(p):
        return 1 if p.terms and p.terms[max(p.terms, key=P._mkey)] > 0 else 0

    def at(p):
        if extra[2] is None and (lead(ly.args[2]), lead(-p)) > (lead(lx.args[2]), lead(p)):
            return linear("interp", back(body, v), v, (ly, -p, extra[1], extra[0], None), True)
        return linear("interp", body, v, (lx, p) + extra, True)
    return arrays.elementwise(I, at, ops.float_dt, x)


@npm("diff")
@lift_args()
def diff(I, a, n=None, axis=None):
    a = to_array(I, a)
    k = norm_axis(I, num(-1) if axis is None else axis, len(a.sizes))
    if n is not None and not (isinstance(n, Num) and n.p is ONE):
        I.unsupported("diff of higher order")
    full = Slc(NONE, NONE, NONE)
    hi = [full] * len(a.sizes)
    lo = list(hi)
    hi[k] = Slc(num(1), NONE, NONE)
    lo[k] = Slc(NONE, num(-1), NONE)
    return I.binop("Sub", arrays.getitem(I, a, Tup(hi)), arrays.getitem(I, a, Tup(lo)))


@npm("gradient")
def np_gradient(I, *a, **k):
    I.unsupported("np.gradient")


# --- reductions --------------------------------------------------------------------

def closed_lead(l):
    """Leading coefficient in terms of the bound variables (canonical)."""
    b = l.args[2]
    return b.terms[max(b.terms, key=P._mkey)]


def unique_of(d, variables):
    """The sequence whose distinct elements d enumerates, if the variable ranges over all of them."""
    if len(d.terms) == 1 and len(variables) == 1:
        (m, k), = d.terms.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and P.ATOMS[m[0][0]].op == "uniq":
            l, i = P.ATOMS[m[0][0]].args
            v = variables[0]
            if i is topoly(v) and P.equal(v.args[1], topoly(atom("nunique", l))):
                return l
    return None


def ratio(a, b):
    """k with a = k*b"""
    if len(a.terms) != len(b.terms) or not b.terms:
        return None
    m = next(iter(b.terms))
    if m not in a.terms:
        return None
    k = Fraction(a.terms[m]) / b.terms[m]
    return k if all(a.terms.get(n) == k * c for n, c in b.terms.items()) else None


def pick_extremum(I, body, variables, kind):
    """max over the variables in normal form; kind "max" or "min"."""
    if kind == "min":
        r = pick_extremum(I, -body, variables, "max")
        return -r
    ids = {v.id for v in variables}
    indep, dep = {}, {}
    for m, c in body.terms.items():
        if any(P.ATOMS[i].leaves & ids for i, _ in m):
            dep[m] = c
        else:
            indep[m] = c
    off = P.mk(indep)
    if not dep:
        return off
    d = P.mk(dep)
    u = unique_of(d, variables)
    if u is not None:
        # the extreme value among the distinct ones is the extreme value
        v = P.fresh_var(u.args[0][0])
        return P.padd(off, pick_extremum(I, P.lam_apply(u, [topoly(v)]), [v], kind))
    # positive common factors
    scale = ONE
    common = None
    for m in d.terms:
        mm = {i: e for i, e in m if not (P.ATOMS[i].leaves & ids) and
              (i in P.POSITIVE or P.ATOMS[i].op in ("exp", "pi"))}
        common = mm if common is None else {i: e for i, e in common.items() if mm.get(i) == e}
    if common:
        scale = P.mk({tuple(sorted(common.items())): Fraction(1)})
        d = P.pmul(d, P.pinv(scale))
    # the largest magnitude
    for i in sorted({i for m in d.terms for i, _ in m}) if off is ZERO else ():
        at = P.ATOMS[i]
        if at.op == "lt0" and at.leaves & ids:
            q = at.args[0]
            for k in (1, -1):
                x = P.pscale(q, Fraction(k))
                a = P.fabs(x)
                r = ratio(d, a)
                if r is not None and r > 0:
                    return P.pmul(P.pscale(scale, r), P.fmax(P.fabs(pick_extremum(I, x, variables, "min")), P.fabs(pick_extremum(I, x, variables, "max"))))
    vs = sorted(variables, key=lambda a: a.args[1].uid)
    sizes = [a.args[1] for a in vs]
    lead = closed_lead(P.lam(sizes, d, vs))
    d = P.pscale(d, 1 / abs(lead))
    scale = P.pscale(scale, abs(lead))
    if lead < 0:
        t = P.pscale(topoly(atom("amin", P.lam(sizes, -d, vs))), Fraction(-1))
    else:
        t = topoly(atom("amax", P.lam(sizes, d, vs)))
    return P.padd(off, P.pmul(scale, t))


def _rebuild_ext(kind):
    def f(l):
        a = l
        if isinstance(l, P.Poly):
            (m, c), = l.terms.items()
            a = P.ATOMS[m[0][0]]
        sizes = a.args[0]
        fr = [P.fresh_var(s) for s in sizes]
        body = P.lam_apply(a, [topoly(x) for x in fr])
        return pick_extremum(None, body, fr, kind)
    return f


def _rebuild_arg(l):
    (m, c), = l.terms.items() if isinstance(l, P.Poly) else (((((l.id, 1),), 1)),)
    a = P.ATOMS[m[0][0]]
    v = P.fresh_var(a.args[0][0])
    return arg_extremum(P.lam_apply(a, [topoly(v)]), v, "max")


P.REBUILD["argmax"] = _rebuild_arg
P.REBUILD["amax"] = _rebuild_ext("max")
P.REBUILD["amin"] = _rebuild_ext("min")


def arg_extremum(body, var, kind):
    if kind == "min":
        return arg_extremum(-body, var, "max")
    dep = P.mk({m: c for m, c in body.terms.items() if any(var.id in P.ATOMS[i].leaves for i, _ in m)})
    if not dep.terms:
        return ZERO
    common = None
    for m in dep.terms:
        mm = {i: e for i, e in m if var.id not in P.ATOMS[i].leaves and
              (i in P.POSITIVE or P.ATOMS[i].op in ("exp", "pi"))}
        common = mm if common is None else {i: e for i, e in common.items() if mm.get(i) == e}
    if common:
        dep = P.pmul(dep, P.pinv(P.mk({tuple(sorted(common.items())): Fraction(1)})))
    dep = P.pscale(dep, 1 / abs(closed_lead(P.lam([var.args[1]], dep, [var]))))
    return topoly(atom("argmax", P.lam([var.args[1]], dep, [var])))


def reduce_(I, a, kind, axis=None, keepdims=None, where=None, dtype=None, initial=None):
    a = as_operand(I, a)
    kd = keepdims is not None and not is_none(keepdims) and I.truth(keepdims) is ONE
    if isinstance(a, Num):
        if where is not None and not (isinstance(where, Num) and where.p is ONE):
            I.unsupported("where in scalar reduction")
        if kind in ("any", "all"):
            return Num(tb(a.p), "b", False)
        if kind == "count_nonzero":
            return Num(tb(a.p), "i", False)
        if kind in ("argmax", "argmin"):
            return num(0)
        if kind in ("std", "var"):
            return num(0.)
        return a
    if isinstance(a, Seq):
        a = seq_to_array(I, a)
    c = read(I, a)
    nd = len(c.sizes)
    if axis is None or is_none(axis):
        axes = list(range(nd))
        if kind in ("argmax", "argmin") and nd > 1:
            a = ravel(I, a)
            c = read(I, a)
            nd = 1
            axes = [0]
    else:
        lst = I.iterate(axis) if isinstance(axis, Tup) else [axis]
        axes = []
        for x in lst:
            k = norm_axis(I, x, nd)
            if k is None:
                return Opq(atom("dead"))
            axes.append(k)
    body, dt = c.body, c.dt
    sizes = c.sizes
    cond = None
    if where is not None and not is_none(where):
        w = as_operand(I, where)
        if isinstance(w, Num):
            cond = tb(w.p)
        else:
            wc = read(I, w)
            bs = arrays.broadcast_sizes(I, [sizes, wc.sizes])
            cond = tb(arrays.in_shape(sizes, wc.sizes, wc.body))
        if cond is ONE:
            cond = None
    variables = []
    mp = {}
    cnt = ONE
    for k in axes:
        v = P.fresh_var(sizes[k])
        variables.append(v)
        mp[vix(sizes, k).id] = ZERO if sizes[k] is ONE else topoly(v)
        cnt = P.pmul(cnt, sizes[k])
    b = P.subst(body, mp)
    if cond is not None:
        cond = P.subst(cond, mp)

    def total(x):
        for v in variables:
            x = P.psum(x, v)
        return x
    if kind == "sum":
        dt = "i" if dt == "b" else dt
        r = total(b if cond is None else P.pmul(cond, b))
    elif kind == "mean":
        dt = "f8" if dt in ("b", "i") else dt
        if cond is None:
            r = P.pmul(total(b), P.pinv(cnt))
        else:
            r = P.pmul(total(P.pmul(cond, b)), P.pinv(total(cond)))
    elif kind in ("var", "std"):
        dt = "f8" if dt in ("b", "i") else dt
        m = P.pmul(total(b), P.pinv(cnt))
        d = P.padd(b, -m)
        r = P.pmul(total(P.pmul(d, d)), P.pinv(cnt))
        if kind == "std":
            r = fsqrt(r)
    elif kind == "any":
        b = tb(b)
        r = NOT(P.lt(total(b if cond is None else AND(cond, b)), ONE))
        dt = "b"
    elif kind == "all":
        b = NOT(tb(b))
        r = P.lt(total(b if cond is None else AND(cond, b)), ONE)
        dt = "b"
    elif kind == "count_nonzero":
        r = total(tb(b))
        dt = "i"
    elif kind in ("max", "min"):
        if cond is not None:
            I.unsupported("where in max")
        r = pick_extremum(I, b, variables, kind)
    elif kind in ("argmax", "argmin"):
        r = arg_extremum(b, variables[0], kind[3:])
        dt = "i"
    elif kind == "prod":
        r = topoly(atom("prod", P.lam([v.args[1] for v in variables], b, variables)))
    else:
        I.unsupported("reduction " + kind)
    if initial is not None and kind == "sum":
        r = P.padd(r, as_operand(I, initial).p)
    out = []
    keep = [k for k in range(nd) if k not in axes]
    if kd:
        return mk(I, [ONE if k in axes else sizes[k] for k in range(nd)], r, dt)
    mp = {}
    for pos, k in enumerate(keep):
        o, n = nd - 1 - k, len(keep) - 1 - pos
        if o != n:
            mp[P.ix(o, sizes[k]).id] = topoly(P.ix(n, sizes[k]))
    r = P.subst(r, mp) if mp else r
    if not keep:
        return Num(r, dt, False)
    return mk(I, [sizes[k] for k in keep], r, dt)


def red(names, kind):
    @lift_args()
    def f(I, a, axis=None, dtype=None, out=None, keepdims=None, where=None, initial=None, ddof=None):
        r = reduce_(I, a, kind, axis, keepdims, where, None, initial)
        d = dtag(I, dtype)
        if d:
            r = astype(I, r, d)
        if out is not None and not is_none(out):
            arrays.store_into(I, out, r, "out argument")
            return out
        return r

    @lift_args()
    def g(I, a, axis=None, out=None, keepdims=None, where=None, initial=None):
        return reduce_(I, a, kind, axis, keepdims, where, None, initial)
    for n in names:
        TABLE["numpy." + n] = f if kind in ("sum", "mean", "std", "var", "prod") else g


red(["sum", "nansum"], "sum")
red(["mean"], "mean")
red(["std"], "std")
red(["var"], "var")
red(["prod"], "prod")
red(["any"], "any")
red(["all"], "all")
red(["max", "amax"], "max")
red(["min", "amin"], "min")
red(["argmax"], "argmax")
red(["argmin"], "argmin")


@npm("count_nonzero")
@lift_args()
def count_nonzero(I, a, axis=None, keepdims=None):
    return reduce_(I, a, "count_nonzero", axis, keepdims)


@npm("ptp")
@lift_args()
def ptp(I, a, axis=None):
    return I.binop("Sub", reduce_(I, a, "max", axis), reduce_(I, a, "min", axis))


@npm("average")
@lift_args()
def average(I, a, axis=None, weights=None, returned=None, keepdims=None):
    if weights is None or is_none(weights):
        return reduce_(I, a, "mean", axis, keepdims)
    a, w = to_array(I, a), to_array(I, weights)
    if isinstance(w, Arr) and isinstance(a, Arr) and len(w.sizes) == 1 and len(a.sizes) > 1:
        k = norm_axis(I, axis, len(a.sizes))
        wc = read(I, w)
        r = len(a.sizes) - 1 - k
        sz = [wc.sizes[0] if j == k else ONE for j in range(len(a.sizes))]
        w = mk(I, sz, P.subst(wc.body, {vix(wc.sizes, 0).id: topoly(P.ix(r, wc.sizes[0]))}), wc.dt)
        den = reduce_(I, w, "sum", axis, keepdims)
    else:
        den = reduce_(I, w, "sum", axis, keepdims)
    return I.binop("Div", reduce_(I, I.binop("Mult", a, w), "sum", axis, keepdims), den)


@model("numpy.linalg.norm")
@lift_args()
def norm(I, x, ord=None, axis=None, keepdims=None):
    if ord is not None and not is_none(ord):
        I.unsupported("norm of this order")
    x = as_operand(I, x)
    if ops.dt_of(I, x) in ("c8", "c16"):
        x = np_abs(I, x)
    r = reduce_(I, I.binop("Mult", x, x), "sum", axis, keepdims)
    return arrays.elementwise(I, fsqrt, ops.float_dt, r)


@npm("cumsum")
@lift_args()
def cumsum(I, a, axis=None, dtype=None, out=None):
    a = to_array(I, a)
    c = read(I, a)
    if axis is None or is_none(axis):
        if len(c.sizes) != 1:
            a = ravel(I, a)
            c = read(I, a)
        k = 0
    else:
        k = norm_axis(I, axis, len(c.sizes))
    x = vix(c.sizes, k)
    v = P.fresh_var(c.sizes[k])
    b = P.subst(c.body, {x.id: topoly(v)})
    cond = P.le(topoly(v), topoly(x))
    return mk(I, c.sizes, P.psum(P.pmul(cond, b), v), "i" if c.dt == "b" else c.dt)


@npm("trapezoid", "trapz")
@lift_args()
def trapezoid(I, y, x=None, dx=None, axis=None):
    y = to_array(I, y)
    ax = num(-1) if axis is None else axis
    k = norm_axis(I, ax, len(y.sizes))
    full = Slc(NONE, NONE, NONE)
    hi = [full] * len(y.sizes)
    lo = list(hi)
    hi[k] = Slc(num(1), NONE, NONE)
    lo[k] = Slc(NONE, num(-1), NONE)
    m = I.binop("Mult", num(0.5), I.binop("Add", arrays.getitem(I, y, Tup(hi)), arrays.getitem(I, y, Tup(lo))))
    if x is not None and not is_none(x):
        d = diff(I, x, axis=num(-1))
    else:
        d = dx if dx is not None else num(1.)
    return reduce_(I, I.binop("Mult", m, d), "sum", ax)


# --- manipulation ---------------------------------------------------------------------

@npm("shape")
@lift_args()
def np_shape(I, a):
    return Tup([Num(n, "i") for n in sizes_of(I, a)])


@npm("ndim")
@lift_args()
def np_ndim(I, a):
    return num(len(sizes_of(I, a)))


@npm("size")
@lift_args()
def np_size(I, a, axis=None):
    s = sizes_of(I, a)
    if axis is not None and not is_none(axis):
        return Num(s[norm_axis(I, axis, len(s))], "i")
    r = ONE
    for n in s:
        r = P.pmul(r, n)
    return Num(r, "i")


@npm("isscalar")
@lift_args()
def np_isscalar(I, element):
    return boolv(ONE if isinstance(element, Num) or isinstance(element, Const) and isinstance(element.v, str) else ZERO)


def ravel(I, a):
    return reshape(I, a, num(-1))


@npm("ravel")
@lift_args()
def np_ravel(I, a, order=None):
    return ravel(I, a)


def prod(xs):
    r = ONE
    for x in xs:
        r = P.pmul(r, x)
    return r


@npm("reshape")
@lift_args()
def reshape(I, a, shape=None, order=None, newshape=None, copy=None):
    a = to_array(I, a)
    shape = shape if shape is not None else newshape
    if isinstance(a, Num):
        a = I.new_arr([], a.p, a.dt)
    new = shape_arg(I, shape)
    c = read(I, a)
    tot = prod(c.sizes)
    unk = [k for k, n in enumerate(new) if n.const() == -1]
    if unk:
        k = unk[0]
        rest = prod(n for j, n in enumerate(new) if j != k)
        new[k] = P.pmul(tot, P.pinv(rest)) if tot is not rest else ONE
    nt = prod(new)
    if not P.equal(nt, tot):
        I.raise_if(NOT(P.eq(nt, tot)), "ValueError", msg="cannot reshape")
        if not I.pc.terms:
            return Opq(atom("dead"))
    if I.sizes_same(new, c.sizes):
        return Arr(a.id, a.sizes, a.view)
    old1 = [k for k, n in enumerate(c.sizes) if n is not ONE]
    new1 = [k for k, n in enumerate(new) if n is not ONE]
    if len(old1) == len(new1) and all(P.equal(c.sizes[x], new[y]) for x, y in zip(old1, new1)):
        # only unit axes change: a view
        if a.view is None:
            maps = [("aff", k, ZERO, ONE) for k in range(len(a.sizes))]
        else:
            maps = a.view.maps
        old_to_new = dict(zip(old1, new1))
        out = []
        for m in maps:
            if m[0] == "aff":
                if m[1] in old_to_new:
                    m = ("aff", old_to_new[m[1]], m[2], m[3])
                else:
                    m = ("fix", m[2])
            out.append(m)
        return Arr(a.id, tuple(new), View(out))
    # general case: copy through the linear index
    lin = ZERO
    for j, n in enumerate(new):
        i = ZERO if n is ONE else topoly(vix(new, j))
        lin = P.padd(P.pmul(lin, n), i)
    mp = {}
    tags = {}
    rem = lin
    for j in range(len(c.sizes) - 1, -1, -1):
        n = c.sizes[j]
        if j == 0:
            q = rem
        else:
            q = P.fmod(rem, n)
            rem = P.ffloor(P.pmul(P.padd(rem, -q), P.pinv(n)))
        # the substituted axis keeps its identity through a placeholder
        mp[vix(c.sizes, j).id] = q
    return mk(I, new, P.subst(c.body, mp), c.dt)


@npm("transpose", "permute_dims")
@lift_args()
def transpose(I, a, axes=None):
    a = to_array(I, a)
    if isinstance(a, Num):
        return a
    nd = len(a.sizes)
    if axes is None or is_none(axes):
        order = list(range(nd))[::-1]
    else:
        order = [norm_axis(I, x, nd) for x in I.iterate(axes)]
    maps = a.view.maps if a.view is not None else [("aff", k, ZERO, ONE) for k in range(nd)]
    inv = {o: k for k, o in enumerate(order)}
    out = [("aff", inv[m[1]], m[2], m[3]) if m[0] == "aff" else m for m in maps]
    return Arr(a.id, tuple(a.sizes[o] for o in order), View(out))


@npm("swapaxes")
@lift_args()
def swapaxes(I, a, axis1, axis2):
    a = to_array(I, a)
    nd = len(a.sizes)
    x, y = norm_axis(I, axis1, nd), norm_axis(I, axis2, nd)
    order = list(range(nd))
    order[x], order[y] = order[y], order[x]
    return transpose(I, a, Tup([num(k) for k in order]))


@npm("moveaxis")
@lift_args()
def moveaxis(I, a, source, destination):
    a = to_array(I, a)
    nd = len(a.sizes)
    s, d = norm_axis(I, source, nd), norm_axis(I, destination, nd)
    order = [k for k in range(nd) if k != s]
    order.insert(d, s)
    return transpose(I, a, Tup([num(k) for k in order]))


@npm("squeeze")
@lift_args()
def squeeze(I, a, axis=None):
    a = to_array(I, a)
    if isinstance(a, Num):
        return a
    if axis is not None and not is_none(axis):
        k = norm_axis(I, axis, len(a.sizes))
        items = [num(0) if j == k else Slc(NONE, NONE, NONE) for j in range(len(a.sizes))]
    else:
        items = [num(0) if n is ONE else Slc(NONE, NONE, NONE) for n in a.sizes]
    return arrays.view_of(I, a, items)


@npm("expand_dims")
@lift_args()
def expand_dims(I, a, axis):
    a = to_array(I, a)
    nd = len(a.sizes) + 1
    k = norm_axis(I, axis, nd)
    items = [Slc(NONE, NONE, NONE)] * (nd - 1)
    items.insert(k, NONE)
    return arrays.view_of(I, a, items)


@npm("atleast_1d")
@lift_args()
def atleast_1d(I, a):
    a = to_array(I, a)
    if isinstance(a, Num):
        return mk(I, [ONE], a.p, a.dt)
    return a


@npm("atleast_2d")
@lift_args()
def atleast_2d(I, a):
    a = atleast_1d(I, a)
    return expand_dims(I, a, num(0)) if len(a.sizes) == 1 else a


@npm("broadcast_to")
@lift_args()
def broadcast_to(I, array, shape, subok=None):
    a = to_array(I, array)
    s = shape_arg(I, shape)
    if isinstance(a, Num):
        return mk(I, s, a.p, a.dt)
    c = read(I, a)
    b = arrays.broadcast_sizes(I, [c.sizes, tuple(s)])
    return mk(I, s, arrays.in_shape(s, c.sizes, c.body), c.dt)


@npm("broadcast_arrays")
@lift_args()
def broadcast_arrays(I, *args):
    xs = [to_array(I, a) for a in args]
    b = arrays.broadcast_sizes(I, [x.sizes if isinstance(x, Arr) else () for x in xs])
    return Tup([broadcast_to(I, x, Tup([Num(n, "i") for n in b])) for x in xs])


@npm("stack")
@lift_args()
def stack(I, arrays, axis=None, out=None):
    k = 0 if axis is None else int(axis.p.const())
    v = arrays
    if isinstance(v, Seq) or (isinstance(v, Ref) and isinstance(I.heap[v.id], ListC)
                              and any(isinstance(x, Seg) for x in I.heap[v.id].items)):
        a = to_array(I, v)
        return moveaxis(I, a, num(0), num(k)) if k else a
    if isinstance(v, Arr):
        items = []
        if v.sizes[0].const() is None:
            return moveaxis(I, v, num(0), num(k)) if k else array(I, v)
    items = I.iterate(v)
    if isinstance(items, Seq):
        return moveaxis(I, seq_to_array(I, items), num(0), num(k)) if k else seq_to_array(I, items)
    if not items:
        I.raise_("ValueError", msg="need at least one array to stack")
        return Opq(atom("dead"))
    return stack_items(I, [unphi(I, to_array(I, x)) for x in items], k)


@npm("concatenate", "concat")
@lift_args()
def concatenate(I, arrays, axis=None, out=None, dtype=None):
    from . import arrays as A
    items = I.iterate(arrays)
    if isinstance(items, Seq) or any(isinstance(x, Seg) for x in items):
        I.unsupported("concatenation of a symbolic number of arrays")
    xs = [unphi(I, to_array(I, x)) for x in items]
    if any(not isinstance(x, Arr) for x in xs):
        I.raise_("ValueError", msg="zero-dimensional arrays cannot be concatenated")
        return Opq(atom("dead"))
    nd = len(xs[0].sizes)
    k = norm_axis(I, num(0) if axis is None else axis, nd)
    tot = ZERO
    for x in xs:
        tot = P.padd(tot, x.sizes[k])
        for j in range(nd):
            if j != k and not P.equal(x.sizes[j], xs[0].sizes[j]):
                I.raise_if(NOT(P.eq(x.sizes[j], xs[0].sizes[j])), "ValueError")
                if not I.pc.terms:
                    return Opq(atom("dead"))
    sizes = [tot if j == k else n for j, n in enumerate(xs[0].sizes)]
    i = topoly(vix(sizes, k))
    off = ZERO
    body = None
    dt, w = None, False
    parts = []
    for x in xs:
        c = read(I, x)
        mp = {}
        for j in range(nd):
            if j == k:
                mp[vix(c.sizes, j).id] = P.padd(i, -off)
            elif c.sizes[j] is not sizes[j]:
                mp[vix(c.sizes, j).id] = topoly(vix(sizes, j))
        parts.append((off, P.subst(c.body, mp)))
        off = P.padd(off, c.sizes[k])
        dt = c.dt if dt is None else promote(dt, False, c.dt, False)[0]
    for o, b in parts:
        body = b if body is None else ite(P.lt(i, o), body, b)
    return mk(I, sizes, body, dt)


@npm("hstack")
@lift_args()
def hstack(I, tup):
    items = I.iterate(tup)
    if isinstance(items, list) and items and not isinstance(items[0], Seg):
        x = to_array(I, items[0])
        ax = num(0) if isinstance(x, Arr) and len(x.sizes) == 1 else num(1)
        return concatenate(I, tup, ax)
    I.unsupported("hstack of a symbolic sequence")


@npm("vstack")
@lift_args()
def vstack(I, tup):
    items = I.iterate(tup)
    if isinstance(items, Seq):
        return seq_to_array(I, items)
    xs = [atleast_2d(I, x) for x in items]
    return concatenate(I, Tup(xs), num(0))


@npm("append")
@lift_args()
def np_append(I, arr, values, axis=None):
    a, b = to_array(I, arr), to_array(I, values)
    if axis is None or is_none(axis):
        a, b = ravel(I, a), ravel(I, atleast_1d(I, b))
        axis = num(0)
    return concatenate(I, Tup([a, b]), axis)


@npm("tile")
@lift_args()
def tile(I, A, reps):
    a = atleast_1d(I, A)
    r = [reps.p] if isinstance(reps, Num) else shape_arg(I, reps)
    c = read(I, a)
    sz = list(c.sizes)
    while len(sz) < len(r):
        sz.insert(0, ONE)
    while len(r) < len(sz):
        r.insert(0, ONE)
    new = [P.pmul(n, k) for n, k in zip(sz, r)]
    mp = {}
    off = len(sz) - len(c.sizes)
    for j, n in enumerate(c.sizes):
        if n is ONE:
            continue
        mp[vix(c.sizes, j).id] = P.fmod(topoly(vix(new, j + off)), n)
    return mk(I, new, P.subst(c.body, mp), c.dt)


@npm("repeat")
@lift_args()
def repeat(I, a, repeats, axis=None):
    a = atleast_1d(I, a)
    if not isinstance(repeats, Num):
        I.unsupported("repeat with an array of counts")
    if axis is None or is_none(axis):
        if len(a.sizes) > 1:
            a = ravel(I, a)
        k = 0
    else:
        k = norm_axis(I, axis, len(a.sizes))
    c = read(I, a)
    new = list(c.sizes)
    new[k] = P.pmul(new[k], repeats.p)
    q = P.ffloor(P.pmul(topoly(vix(new, k)), P.pinv(repeats.p)))
    if c.sizes[k] is ONE:
        q = ZERO
    return mk(I, new, P.subst(c.body, {vix(c.sizes, k).id: q}), c.dt)


@npm("roll")
@lift_args()
def roll(I, a, shift, axis=None):
    a = to_array(I, a)
    c = read(I, a)
    if axis is None or is_none(axis):
        if len(c.sizes) != 1:
            flat = ravel(I, a)
            r = roll(I, flat, shift)
            return reshape(I, r, Tup([Num(n, "i") for n in c.sizes]))
        axes = [0]
    else:
        axes = [norm_axis(I, x, len(c.sizes)) for x in (I.iterate(axis) if isinstance(axis, Tup) else [axis])]
    sh = I.iterate(shift) if isinstance(shift, Tup) else [shift] * len(axes)
    mp = {}
    for k, s in zip(axes, sh):
        s = as_operand(I, s)
        i = vix(c.sizes, k)
        mp[i.id] = P.fmod(P.padd(topoly(i), -s.p), c.sizes[k])
    return mk(I, c.sizes, P.subst(c.body, mp), c.dt)


@npm("flip")
@lift_args()
def flip(I, m, axis=None):
    a = to_array(I, m)
    if axis is None or is_none(axis):
        axes = range(len(a.sizes))
    else:
        axes = [norm_axis(I, x, len(a.sizes)) for x in (I.iterate(axis) if isinstance(axis, Tup) else [axis])]
    items = [Slc(NONE, NONE, num(-1)) if k in axes else Slc(NONE, NONE, NONE) for k in range(len(a.sizes))]
    return arrays.view_of(I, a, items)


@npm("flipud")
@lift_args()
def flipud(I, m):
    return flip(I, m, num(0))


@npm("fliplr")
@lift_args()
def fliplr(I, m):
    return flip(I, m, num(1))


@npm("pad")
@lift_args()
def pad(I, array, pad_width, mode=None, constant_values=None, **kw):
    a = to_array(I, array)
    c = read(I, a)
    nd = len(c.sizes)

    def pairs(v, default):
        if v is None:
            return [default] * nd
        if isinstance(v, Num):
            return [(v, v)] * nd
        items = I.iterate(v)
        if all(isinstance(x, Num) for x in items):
            if len(items) == 1:
                return [(items[0], items[0])] * nd
            return [(items[0], items[1])] * nd
        out = []
        for x in items:
            y = I.iterate(x)
            out.append((y[0], y[1] if len(y) > 1 else y[0]))
        return out * nd if len(out) == 1 else out
    pw = pairs(pad_width, None)
    md = mode.v if mode is not None else "constant"
    cv = pairs(constant_values, (num(0), num(0)))
    new = [P.padd(P.padd(n, x[0].p), x[1].p) for n, x in zip(c.sizes, pw)]
    mp = {}
    for j, n in enumerate(c.sizes):
        i = P.padd(topoly(vix(new, j)), -pw[j][0].p)
        if md == "constant":
            mp[vix(c.sizes, j).id] = i
        elif md == "wrap":
            mp[vix(c.sizes, j).id] = P.fmod(i, n)
        elif md == "edge":
            mp[vix(c.sizes, j).id] = P.fmax(ZERO, P.fmin(i, P.padd(n, P.const(-1))))
        else:
            I.unsupported("pad mode %s" % md)
    body = P.subst(c.body, mp)
    if md == "constant":
        for j, n in enumerate(c.sizes):
            i = topoly(vix(new, j))
            lo, hi = pw[j]
            if lo.p is not ZERO:
                body = ite(P.lt(i, lo.p), as_operand(I, cv[j][0]).p, body)
            if hi.p is not ZERO:
                body = ite(P.lt(i, P.padd(n, lo.p)), body, as_operand(I, cv[j][1]).p)
    return mk(I, new, body, c.dt)


@npm("nonzero", "flatnonzero")
@lift_args()
def nonzero(I, a):
    a = to_array(I, a)
    c = read(I, a)
    m = P.lam(list(c.sizes), tb(c.body), [vix(c.sizes, j) for j in range(len(c.sizes))])
    cnt = P.count_of(m)
    return Tup([mk(I, [cnt], P.nth(m, k, topoly(P.ix(0, cnt))), "i") for k in range(len(c.sizes))])


@npm("flatnonzero")
@lift_args()
def flatnonzero(I, a):
    return nonzero(I, ravel(I, a)).items[0]


@npm("argwhere")
@lift_args()
def argwhere(I, a):
    r = nonzero(I, a)
    return stack_items(I, list(r.items), -1)


@npm("ix_")
@lift_args()
def ix_(I, *args):
    out = []
    nd = len(args)
    for k, x in enumerate(args):
        x = to_array(I, x)
        c = read(I, x)
        if c.dt == "b":
            x = nonzero(I, x).items[0]
            c = read(I, x)
        if len(c.sizes) != 1:
            I.raise_("ValueError", msg="Cross index must be 1 dimensional")
            return Opq(atom("dead"))
        sizes = [ONE] * nd
        sizes[k] = c.sizes[0]
        body = P.subst(c.body, {vix(c.sizes, 0).id: topoly(P.ix(nd - 1 - k, c.sizes[0]))})
        out.append(mk(I, sizes, body, c.dt))
    return Tup(out)


@npm("take")
@lift_args()
def take(I, a, indices, axis=None, out=None, mode=None):
    a = to_array(I, a)
    if axis is None or is_none(axis):
        return I.getitem(ravel(I, a), indices)
    k = norm_axis(I, axis, len(a.sizes))
    items = [Slc(NONE, NONE, NONE)] * len(a.sizes)
    items[k] = indices
    return I.getitem(a, Tup(items))


@npm("take_along_axis")
@lift_args()
def take_along_axis(I, arr, indices, axis=None):
    a, x = to_array(I, arr), to_array(I, indices)
    c, xc = read(I, a), read(I, x)
    k = norm_axis(I, num(-1) if axis is None else axis, len(c.sizes))
    body = P.subst(c.body, {vix(c.sizes, k).id: arrays.wrap_negative(xc.body, c.sizes[k])})
    return mk(I, xc.sizes, body, c.dt)


@npm("apply_along_axis")
@lift_args()
def apply_along_axis(I, func1d, axis, arr, *args, **kwargs):
    a = to_array(I, arr)
    c = read(I, a)
    nd = len(c.sizes)
    k = norm_axis(I, axis, nd)
    if k is None:
        return Opq(atom("dead"))
    mp = {}
    back = {}
    for j, n in enumerate(c.sizes):
        if j == k:
            mp[vix(c.sizes, j).id] = topoly(P.ix(0, n))
        else:
            f = P.fresh_var(n)
            mp[vix(c.sizes, j).id] = topoly(f)
            back[j] = f
    line = I.new_arr([c.sizes[k]], P.subst(c.body, mp), c.dt)
    r = unphi(I, to_array(I, I.call(func1d, [line] + list(args), kwargs)))
    if isinstance(r, Num):
        sizes = [n for j, n in enumerate(c.sizes) if j != k]
        keep = [j for j in range(nd) if j != k]
        mp = {back[j].id: topoly(vix(sizes, p)) for p, j in enumerate(keep)}
        if not sizes:
            return r
        return mk(I, sizes, P.subst(r.p, mp), r.dt)
    rc = read(I, r)
    m = len(rc.sizes)
    sizes = list(c.sizes[:k]) + list(rc.sizes) + list(c.sizes[k + 1:])
    mp = {}
    for j in range(nd):
        if j == k:
            continue
        pos = j if j < k else j + m - 1
        mp[back[j].id] = topoly(vix(sizes, pos))
    for p, n in enumerate(rc.sizes):
        mp[vix(rc.sizes, p).id] = topoly(vix(sizes, k + p))
    return mk(I, sizes, P.subst(rc.body, mp), rc.dt)


def vector_call(I, f, args, kwargs, obj):
    if any(isinstance(a, Phi) for a in args):
        return I.liftn(list(args), lambda *xs: vector_call(I, f, list(xs), kwargs, obj))
    xs = [unphi(I, to_array(I, a)) for a in args]
    if not any(isinstance(x, Arr) for x in xs):
        xs = [Num(x.p, x.dt, False) for x in xs]
        return I.call(f, xs, kwargs)
    sizes = arrays.broadcast_sizes(I, [x.sizes for x in xs if isinstance(x, Arr)])
    if sizes is None:
        return Opq(atom("dead"))
    fr = [P.fresh_var(n) for n in sizes]
    sub = {vix(sizes, j).id: topoly(v) for j, v in enumerate(fr)}
    el = []
    for x in xs:
        if isinstance(x, Arr):
            c = read(I, x)
            b = P.subst(arrays.in_shape(sizes, c.sizes, c.body), sub)
            el.append(Num(b, c.dt, False))
        else:
            el.append(x)
    r = unphi(I, I.call(f, el, kwargs))
    if isinstance(r, Opq):
        r = Num(topoly(r.t), "o")
    if isinstance(r, Num):
        back = {v.id: topoly(vix(sizes, j)) for j, v in enumerate(fr)}
        return mk(I, sizes, P.subst(r.p, back), r.dt)
    if isinstance(r, Tup):
        back = {v.id: topoly(vix(sizes, j)) for j, v in enumerate(fr)}
        return Tup([mk(I, sizes, P.subst(to_array(I, x).p, back), to_array(I, x).dt) for x in r.items])
    if isinstance(r, Arr) and obj and len(sizes) == 1:
        return Seq(sizes[0], fr[0], r, True)
    I.unsupported("vectorized function returning %r" % (r,))


@npm("vectorize")
def vectorize(I, pyfunc, otypes=None, doc=None, excluded=None, cache=None, signature=None):
    if signature is not None:
        I.unsupported("vectorize with signature")
    return Native(lambda I, *a, **k: vector_call(I, pyfunc, a, k, False), "vectorized")


@npm("frompyfunc")
def frompyfunc(I, func, nin, nout):
    return Native(lambda I, *a, **k: vector_call(I, func, a, k, True), "frompyfunc")


@npm("fromiter")
@lift_args()
def fromiter(I, iter, dtype=None, count=None):
    return array(I, I.new_list(I.list_segments(iter)), dtype)


@npm("matmul", "dot")
@lift_args()
def matmul(I, a, b):
    a, b = as_operand(I, a), as_operand(I, b)
    if isinstance(a, Num) or isinstance(b, Num):
        return I.binop("Mult", a, b)
    ca, cb = read(I, a), read(I, b)
    n = ca.sizes[-1]
    v = P.fresh_var(n)
    if len(cb.sizes) > 2 or len(ca.sizes) > 2:
        I.unsupported("matmul of stacks")
    k = 0 if len(cb.sizes) == 1 else len(cb.sizes) - 2
    sizes = list(ca.sizes[:-1]) + [s for j, s in enumerate(cb.sizes) if j != k]
    out1 = len(cb.sizes) - 1
    fa = {vix(ca.sizes, len(ca.sizes) - 1).id: topoly(v)}
    if len(ca.sizes) == 2:
        t = P.fresh_var(ca.sizes[0])
        fa[vix(ca.sizes, 0).id] = topoly(P.ix(out1, ca.sizes[0]))
    fb = {vix(cb.sizes, k).id: topoly(v)}
    body = P.psum(P.pmul(P.subst(ca.body, fa), P.subst(cb.body, fb)), v)
    dt = promote(ca.dt, False, cb.dt, False)[0]
    return mk(I, sizes, body, dt) if sizes else Num(body, dt, False)


@npm("outer")
@lift_args()
def outer(I, a, b):
    a, b = ravel(I, to_array(I, a)), ravel(I, to_array(I, b))
    return I.binop("Mult", expand_dims(I, a, num(1)), b)


@npm("unique")
@lift_args()
def unique(I, ar, return_index=None, return_inverse=None, return_counts=None, axis=None):
    if any(x is not None and I.truth(x) is not ZERO for x in (return_index, return_inverse, return_counts)):
        I.unsupported("np.unique with additional output")
    a = to_array(I, ar)
    if isinstance(a, Num):
        return mk(I, [ONE], a.p, a.dt)
    c = read(I, ravel_any(I, a))
    l = P.lam(c.sizes, c.body, [vix(c.sizes, 0)])
    n = topoly(atom("nunique", l))
    return I.new_arr([n], topoly(atom("uniq", l, topoly(P.ix(0, n)))), c.dt)


def un_unique(I, a):
    """An array with the same set of elements: what np.unique was applied to, or the array."""
    c = read(I, a)
    if len(c.sizes) == 1 and len(c.body.terms) == 1:
        (m, k), = c.body.terms.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and P.ATOMS[m[0][0]].op == "uniq":
            l, i = P.ATOMS[m[0][0]].args
            if i is topoly(vix(c.sizes, 0)):
                return mk(I, l.args[0], P.lam_apply(l, [topoly(vix(l.args[0], 0))]), c.dt)
    return a


def ravel_any(I, a):
    """Elements in any order: drop nothing, only flatten."""
    return ravel(I, a) if len(a.sizes) != 1 else a


@npm("sort")
@lift_args()
def np_sort(I, a, axis=None, kind=None):
    a = to_array(I, a)
    c = read(I, a)
    k = norm_axis(I, num(-1) if axis is None else axis, len(c.sizes))
    v = P.fresh_var(c.sizes[k])
    l = P.lam([c.sizes[k]], P.subst(c.body, {vix(c.sizes, k).id: topoly(v)}), [v])
    return mk(I, c.sizes, topoly(atom("sorted", l, topoly(vix(c.sizes, k)))), c.dt)


@npm("argsort")
@lift_args()
def argsort(I, a, axis=None, kind=None):
    a = to_array(I, a)
    c = read(I, a)
    k = norm_axis(I, num(-1) if axis is None else axis, len(c.sizes))
    v = P.fresh_var(c.sizes[k])
    l = P.lam([c.sizes[k]], P.subst(c.body, {vix(c.sizes, k).id: topoly(v)}), [v])
    return mk(I, c.sizes, topoly(atom("argsort", l, topoly(vix(c.sizes, k)))), "i")


@npm("searchsorted", "digitize")
@lift_args()
def searchsorted(I, a, v, side=None, sorter=None):
    a = to_array(I, a)
    c = read(I, a)
    l = P.lam(c.sizes, c.body, [vix(c.sizes, 0)])
    s = side.v if side is not None else "left"
    return arrays.elementwise(I, lambda p: topoly(atom("searchsorted", l, p, s)), lambda d: ("i", False),
                              as_operand(I, v))


@npm("iscomplexobj")
@lift_args()
def iscomplexobj(I, x):
    return boolv(ONE if ops.dt_of(I, to_array(I, x)) in ("c8", "c16") else ZERO)


@npm("result_type", "common_type")
def result_type(I, *a):
    return Opq(atom("dtype", "f8"), "dtype")


@npm("nan_to_num")
@lift_args()
def nan_to_num(I, x, copy=None, nan=None):
    v = as_operand(I, nan) if nan is not None else num(0.)
    return arrays.elementwise(I, lambda p, q: ite(P.isnan(p), q, p), lambda a, b: a, as_operand(I, x), v)


@npm("may_share_memory", "shares_memory")
def share(I, a, b):
    return boolv(ONE if isinstance(a, Arr) and isinstance(b, Arr) and a.id == b.id else ZERO)


def scalar_type(tag):
    @lift_args()
    def f(I, x=None, *rest):
        if x is None:
            return Num(ZERO, tag, False)
        a = as_operand(I, x)
        return astype(I, a, tag) if isinstance(a, Arr) else Num(arrays.cast(I, a.p, a.dt, tag), tag, False)
    return f


for _n, _t in (("float64", "f8"), ("float32", "f4"), ("int64", "i"), ("int32", "i"), ("intp", "i"), ("int_", "i"),
               ("bool_", "b"), ("complex64", "c8"), ("complex128", "c16"), ("double", "f8"), ("single", "f4")):
    TABLE["numpy." + _n] = scalar_type(_t)


@npm("finfo")
@lift_args()
def finfo(I, dtype=None):
    """Constants of a floating point type."""
    name = dtype.path if isinstance(dtype, Ext) else None
    if dtype is None or name in ("float", "builtins.float", "numpy.float64", "numpy.double"):
        return Ext("numpy.finfo64")
    if name in ("numpy.float32", "numpy.single"):
        return Ext("numpy.finfo32")
    if isinstance(dtype, (Num, Arr)):
        dt = read(I, dtype).dt if isinstance(dtype, Arr) else dtype.dt
        return Ext("numpy.finfo32" if dt in ("f4", "c8") else "numpy.finfo64")
    return Opq(atom("finfo"))


# --- fft and signal processing ----------------------------------------------------------

def along(I, a, axis, f, n2, dt):
    """Apply a linear line operator f(body, var, outindex) along an axis."""
    c = read(I, a)
    k = norm_axis(I, axis, len(c.sizes))
    if k is None:
        return Opq(atom("dead"))
    v = P.fresh_var(c.sizes[k])
    b = P.subst(c.body, {vix(c.sizes, k).id: topoly(v)})
    sizes = list(c.sizes)
    sizes[k] = n2(c.sizes[k])
    body = f(b, v, topoly(vix(sizes, k)), sizes[k])
    return mk(I, sizes, body, dt(c.dt))


def half(n):
    return P.padd(P.ffloor(P.pscale(n, Fraction(1, 2))), ONE)


@model("numpy.fft.rfft", "scipy.fft.rfft")
@lift_args()
def rfft(I, a, n=None, axis=None, norm=None):
    if n is not None and not is_none(n) or norm is not None and not is_none(norm):
        I.unsupported("rfft with n/norm")
    a = to_array(I, a)
    return along(I, a, num(-1) if axis is None else axis,
                 lambda b, v, o, m: linear("rfft", b, v, (o,)), half, lambda d: "c16")


@model("numpy.fft.irfft", "scipy.fft.irfft")
@lift_args()
def irfft(I, a, n=None, axis=None, norm=None):
    if norm is not None and not is_none(norm):
        I.unsupported("irfft with norm")
    a = to_array(I, a)
    given = n is not None and not is_none(n)

    def n2(m):
        return as_operand(I, n).p if given else P.pscale(P.padd(m, P.const(-1)), Fraction(2))
    return along(I, a, num(-1) if axis is None else axis,
                 lambda b, v, o, m: linear("irfft", b, v, (m, o), True), n2, lambda d: "f8")


@model("numpy.fft.fft", "scipy.fft.fft")
@lift_args()
def fft(I, a, n=None, axis=None, norm=None):
    if n is not None and not is_none(n) or norm is not None and not is_none(norm):
        I.unsupported("fft with n/norm")
    return along(I, to_array(I, a), num(-1) if axis is None else axis,
                 lambda b, v, o, m: linear("fft", b, v, (o,)), lambda m: m, lambda d: "c16")


@model("numpy.fft.ifft", "scipy.fft.ifft")
@lift_args()
def ifft(I, a, n=None, axis=None, norm=None):
    if n is not None and not is_none(n) or norm is not None and not is_none(norm):
        I.unsupported("ifft with n/norm")
    return along(I, to_array(I, a), num(-1) if axis is None else axis,
                 lambda b, v, o, m: linear("ifft", b, v, (o,)), lambda m: m, lambda d: "c16")


@model("scipy.signal.hilbert")
@lift_args()
def hilbert(I, x, N=None, axis=None):
    x = to_array(I, x)
    if N is not None and not is_none(N):
        k = len(x.sizes) - 1 if axis is None else int(axis.p.const()) % len(x.sizes)
        d = P.padd(N.p, P.pscale(x.sizes[k], -1))
        if P.NOT(P.lt0(P.pscale(d, -1))) is not ONE:
            I.split(P.lt0(P.pscale(d, -1)), lambda: I.unsupported("hilbert with padding"), lambda: None)
        if d is not ZERO:
            x = I.getitem(x, Tup([Slc(NONE, NONE, NONE)]*k + [Slc(NONE, N, NONE)]))
    return along(I, x, num(-1) if axis is None else axis,
                 lambda b, v, o, m: linear("hilbert", b, v, (o,), True), lambda m: m, lambda d: "c16")


def window_atom(I, name, n, sym, i):
    return topoly(atom("window", name, sym, n, i))


@model("scipy.signal.get_window")
@lift_args()
def get_window(I, window, Nx, fftbins=None):
    n = as_operand(I, Nx).p
    sym = True
    if fftbins is None or I.truth(fftbins) is ONE:
        sym = False
    elif I.truth(fftbins) is not ZERO:
        I.unsupported("symbolic fftbins")
    w = window.v if isinstance(window, Const) else I.reify(window)
    return mk(I, [n], window_atom(I, w, n, sym, topoly(P.ix(0, n))), "f8")


def win(name):
    @lift_args()
    def f(I, M, sym=None):
        s = True if sym is None or I.truth(sym) is ONE else False
        n = as_operand(I, M).p
        return mk(I, [n], window_atom(I, name, n, s, topoly(P.ix(0, n))), "f8")
    TABLE["scipy.signal.windows." + name] = f


for _n in ("hann", "hamming", "boxcar", "blackman", "bartlett", "triang", "cosine", "parzen", "bohman", "nuttall"):
    win(_n)


def full_lam(c):
    return P.lam(list(c.sizes), c.body, [vix(c.sizes, j) for j in range(len(c.sizes))])


@model("scipy.ndimage.convolve")
@lift_args()
def nd_convolve(I, input, weights, output=None, mode=None, cval=None, origin=None):
    a, w = to_array(I, input), to_array(I, weights)
    ca, cw = read(I, a), read(I, w)
    if len(ca.sizes) != len(cw.sizes):
        I.raise_("RuntimeError", msg="filter weights array has incorrect shape")
        return Opq(atom("dead"))
    m = mode.v if mode is not None else "reflect"
    # axes with a unit-sized window are not mixed
    axes = [j for j, n in enumerate(cw.sizes) if n is not ONE]
    mp, vs = {}, []
    for j in axes:
        v = P.fresh_var(ca.sizes[j])
        mp[vix(ca.sizes, j).id] = topoly(v)
        vs.append(v)
    b = P.subst(ca.body, mp)
    extra = ()
    if m == "constant":
        extra = (as_operand(I, cval).p if cval is not None else ZERO,)
    o = ZERO if origin is None else I.reify(origin)
    rt = ZERO
    lw_body = cw.body
    idx = tuple(topoly(vix(ca.sizes, j)) for j in axes)
    if not axes:
        return mk(I, ca.sizes, P.pmul(ca.body, cw.body), "f8")
    # linear in the window: independent factors out
    wv = [vix(cw.sizes, j) for j in axes]
    for mm, c in lw_body.terms.items():
        ids = {x.id for x in wv}
        dep = [(i, e) for i, e in mm if P.ATOMS[i].leaves & ids]
        ind = [(i, e) for i, e in mm if not (P.ATOMS[i].leaves & ids)]
        lw = P.lam([cw.sizes[j] for j in axes], P.mk({tuple(dep): Fraction(1)}) if dep else ONE, wv)
        t = atom("convolve", P.lam([ca.sizes[j] for j in axes], b, vs), lw, m, o, extra, idx)
        rt = P.padd(rt, P.pmul(P.mk({tuple(ind): c}) if ind else P.const(c), topoly(t)))
    dt = ca.dt
    return mk(I, ca.sizes, rt, dt)


@model("scipy.ndimage.convolve1d")
@lift_args()
def nd_convolve1d(I, input, weights, axis=None, output=None, mode=None, cval=None, origin=None):
    a, w = to_array(I, input), to_array(I, weights)
    k = norm_axis(I, num(-1) if axis is None else axis, len(a.sizes))
    items = [Slc(NONE, NONE, NONE) if j == k else NONE for j in range(len(a.sizes))]
    return nd_convolve(I, a, arrays.view_of(I, w, items), output, mode, cval, origin)


@model("scipy.signal.convolve2d")
@lift_args()
def convolve2d(I, in1, in2, mode=None, boundary=None, fillvalue=None):
    a, w = to_array(I, in1), to_array(I, in2)
    ca, cw = read(I, a), read(I, w)
    m = mode.v if mode is not None else "full"
    b = boundary.v if boundary is not None else "fill"
    if m != "same":
        I.unsupported("convolve2d mode %s" % m)
    fv = as_operand(I, fillvalue).p if fillvalue is not None and b == "fill" else ZERO
    rt = ZERO
    axes = [j for j, n in enumerate(cw.sizes) if n is not ONE]
    # unit-sized window axes do not mix rows
    mp, vs = {}, []
    for j in axes:
        v = P.fresh_var(ca.sizes[j])
        mp[vix(ca.sizes, j).id] = topoly(v)
        vs.append(v)
    ab = P.subst(ca.body, mp)
    wv = [vix(cw.sizes, j) for j in axes]
    idx = tuple(topoly(vix(ca.sizes, j)) for j in axes)
    ids = {x.id for x in wv}
    for mm, c in cw.body.terms.items():
        dep = [(i, e) for i, e in mm if P.ATOMS[i].leaves & ids]
        ind = [(i, e) for i, e in mm if not (P.ATOMS[i].leaves & ids)]
        lw = P.lam([cw.sizes[j] for j in axes], P.mk({tuple(dep): Fraction(1)}) if dep else ONE, wv)
        t = atom("convolve2d", P.lam([ca.sizes[j] for j in axes], ab, vs), lw, b, fv, idx)
        rt = P.padd(rt, P.pmul(P.mk({tuple(ind): c}) if ind else P.const(c), topoly(t)))
    return mk(I, ca.sizes, rt, "f8")


@model("scipy.interpolate.interp1d")
@lift_args()
def interp1d(I, x, y, kind=None, axis=None, copy=None, bounds_error=None, fill_value=None, assume_sorted=None):
    xa, ya = to_array(I, x), to_array(I, y)
    cx, cy = read(I, xa), read(I, ya)
    k = norm_axis(I, num(-1) if axis is None else axis, len(cy.sizes))
    if not P.equal(cx.sizes[0], cy.sizes[k]):
        I.raise_if(NOT(P.eq(cx.sizes[0], cy.sizes[k])), "ValueError",
                   msg="x and y arrays must be equal in length along interpolation axis")
        if not I.pc.terms:
            return Opq(atom("dead"))
    kd = "linear" if kind is None else (kind.v if isinstance(kind, Const) else I.reify(kind))
    lx = P.lam(cx.sizes, cx.body, [vix(cx.sizes, 0)])
    extra = (kd,) + tuple(I.reify(v) if v is not None else None for v in (bounds_error, fill_value, assume_sorted))
    v = P.fresh_var(cy.sizes[k])

    def call(I, xq):
        def go(xq):
            q = as_operand(I, xq)
            if isinstance(q, Num):
                qs, qb = (), q.p
            else:
                c = read(I, q)
                qs, qb = c.sizes, c.body
            sizes = list(cy.sizes[:k]) + list(qs) + list(cy.sizes[k + 1:])
            m = len(qs)
            mp = {}
            for j in range(len(cy.sizes)):
                if j == k:
                    mp[vix(cy.sizes, j).id] = topoly(v)
                else:
                    pos = j if j < k else j + m - 1
                    mp[vix(cy.sizes, j).id] = topoly(vix(sizes, pos))
            yb = P.subst(cy.body, mp)
            qm = {vix(qs, j).id: topoly(vix(sizes, k + j)) for j in range(m)}
            xb = P.subst(qb, qm)
            body = linear("interp1d", yb, v, (lx, xb) + extra, True)
            return mk(I, sizes, body, "f8") if sizes else Num(body, "f8", False)
        return I.lift(xq, go, True)
    return Native(call, "interp1d")


@npm("histogram")
def histogram(I, a, bins=None, range=None, density=None, weights=None):
    a = to_array(I, a)
    if isinstance(a, Phi):
        return I.lift(a, lambda x: histogram(I, x, bins, range, density, weights), True)
    if density is not None or weights is not None:
        I.unsupported("weighted histogram")
    if bins is None or isinstance(bins, Num):
        if range is None:
            I.unsupported("histogram over the range of the data")
        bins = bins or num(10)
        bins = TABLE["numpy.linspace"](I, range.items[0], range.items[1], Num(bins.p + 1, "i"))
    e = read(I, to_array(I, bins))
    if len(e.sizes) != 1:
        I.raise_("ValueError", msg="bins must be one-dimensional")
        return Opq(atom("dead"))
    c = read(I, ravel(I, a))
    v = P.fresh_var(c.sizes[0])
    x = P.subst(c.body, {arrays.vix(c.sizes, 0).id: topoly(v)})
    nb = P.padd(e.sizes[0], P.const(-1))
    t = arrays.vix(e.sizes, 0)
    k = topoly(P.ix(0, nb))
    lo, hi = (P.subst(e.body, {t.id: q}) for q in (k, k + 1))
    last = P.AND(P.eq(k, P.padd(nb, P.const(-1))), P.eq(x, hi))
    inside = P.AND(P.le(lo, x), P.OR(P.lt(x, hi), last))
    return Tup([mk(I, [nb], P.psum(inside, v), "i"), to_array(I, bins)])
