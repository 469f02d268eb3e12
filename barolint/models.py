"""Models of builtins, standard library types and third-party names."""

import ast
import builtins as _bi
import importlib
import inspect
from fractions import Fraction

from . import arrays, npmodels, ops, poly as P
from .arrays import read, vix
from .poly import ONE, ZERO, AND, OR, NOT, ite, atom, topoly
from .values import *
from .values import Num, Const

npm = npmodels


def build(I):
    return npmodels.TABLE


# --- third-party facts ----------------------------------------------------------

_OBJ = {}
_MISSING = object()


def real_object(path):
    """The third-party (or standard library) object behind a dotted path."""
    if path in _OBJ:
        return _OBJ[path]
    parts = path.split(".")
    if parts[0] == "barotropic":
        raise RuntimeError("the analysed package is never imported")
    obj = _MISSING
    try:
        obj = importlib.import_module(parts[0])
    except Exception:
        _OBJ[path] = None
        return None         # not installed: nothing is known
    for k, n in enumerate(parts[1:]):
        if hasattr(obj, n):
            obj = getattr(obj, n)
            continue
        try:
            obj = importlib.import_module(".".join(parts[:k + 2]))
        except Exception:
            obj = _MISSING
            break
    _OBJ[path] = obj
    return obj


FINFO = {64: {"eps": Fraction(1, 2**52), "tiny": Fraction(1, 2**1022), "smallest_normal": Fraction(1, 2**1022), "resolution": Fraction(1, 10**15),
              "max": Fraction(2**1024 - 2**971), "min": -Fraction(2**1024 - 2**971)},
         32: {"eps": Fraction(1, 2**23), "tiny": Fraction(1, 2**126), "smallest_normal": Fraction(1, 2**126), "resolution": Fraction(1, 10**6),
              "max": Fraction(2**128 - 2**104), "min": -Fraction(2**128 - 2**104)}}

CONSTANTS = {
    **{"numpy.finfo%d.%s" % (n, k): (lambda x=x: num(P.const(x))) for n, c in FINFO.items() for k, x in c.items()},
    "numpy.pi": lambda: num(P.PI), "math.pi": lambda: num(P.PI),
    "numpy.inf": lambda: num(P.INF), "math.inf": lambda: num(P.INF), "numpy.infty": lambda: num(P.INF),
    "numpy.nan": lambda: num(topoly(atom("nan"))), "math.nan": lambda: num(topoly(atom("nan"))),
    "numpy.newaxis": lambda: NONE,
    "numpy.e": lambda: num(P.fexp(ONE)), "math.e": lambda: num(P.fexp(ONE)),
}

OPAQUE_ROOTS = {"matplotlib", "mpl_toolkits"}


def ext_attr(I, o, name, default=None):
    path = o.path + "." + name
    if path in CONSTANTS:
        return CONSTANTS[path]()
    m = I.module(path)
    if m is not None:
        return m
    if path in npmodels.TABLE or path in EXT:
        return Ext(path)
    if name.startswith("__") and name.endswith("__"):
        if name in ("__name__", "__qualname__"):
            return Const(o.path.split(".")[-1])
        if name == "__version__":
            return Opq(atom("version", o.path), "str")
    if path in I.missing_modules:
        I.raise_("ImportError", msg=path)
        return Opq(atom("unbound", name))
    obj = real_object(path)
    if obj is _MISSING:
        if default is not None:
            return default
        I.raise_("AttributeError", msg="%s does not exist in the installed version" % path)
        return Opq(atom("unbound", path))
    if isinstance(obj, (bool, int, float)) and not inspect.ismodule(obj):
        return num(obj)
    if isinstance(obj, str):
        return Const(obj)
    return Ext(path)


def canonical(path):
    obj = real_object(path)
    if obj is None or obj is _MISSING:
        return path
    n = getattr(obj, "__name__", None)
    m = getattr(obj, "__module__", None)
    if n and m and "<" not in n:
        for cand in (m + "." + n, m.split(".")[0] + "." + n):
            if cand in npmodels.TABLE or cand in EXT:
                if real_object(cand) is obj:
                    return cand
    return path


def call_ext(I, f, args, kwargs):
    path = f.path
    fn = npmodels.TABLE.get(path) or EXT.get(path)
    if fn is None:
        c = canonical(path)
        fn = npmodels.TABLE.get(c) or EXT.get(c)
    if fn is not None:
        try:
            return fn(I, *args, **kwargs)
        except TypeError as e:
            if "argument" in str(e):
                return bad_call(I, path, args, kwargs, e)
            raise
    return opaque_ext(I, path, args, kwargs)


def bad_call(I, path, args, kwargs, e):
    """Signature mismatch: consult the installed signature."""
    obj = real_object(path)
    if obj is not None and obj is not _MISSING:
        try:
            inspect.signature(obj).bind(*args, **kwargs)
        except TypeError:
            I.raise_("TypeError", msg="%s: %s" % (path, e))
            return Opq(atom("dead"))
        except ValueError:
            pass
    I.unsupported("call of %s: %s" % (path, e))


def opaque_ext(I, path, args, kwargs):
    """Call of an unmodelled external function: an uninterpreted term."""
    obj = real_object(path)
    if path.startswith("builtins.") and isinstance(obj, type) and issubclass(obj, BaseException):
        return Opq(atom("exc", obj.__name__), "exc:" + obj.__name__)
    bound = None
    if obj is not None and obj is not _MISSING:
        try:
            sig = inspect.signature(obj)
        except (TypeError, ValueError):
            sig = None
        if sig is not None:
            try:
                bound = sig.bind(*args, **kwargs)
            except TypeError as e:
                I.raise_("TypeError", msg="%s: %s" % (path, e))
                return Opq(atom("dead"))
    pos, kw = [], {}
    if bound is not None:
        for n, p in sig.parameters.items():
            if n not in bound.arguments:
                continue
            v = bound.arguments[n]
            if p.kind == p.VAR_POSITIONAL:
                pos += list(v)
            elif p.kind == p.VAR_KEYWORD:
                kw.update(v)
            else:
                if p.default is not p.empty and is_default(v, p.default):
                    continue
                kw[n] = v
    else:
        pos, kw = list(args), dict(kwargs)
    t = atom("call", path, tuple(I.reify(a) for a in pos), tuple((k, I.reify(kw[k])) for k in sorted(kw)))
    r = Opq(t)
    from .interp import Event
    I.events.append(Event(I.pc, None, path, args, kwargs, I.loc, r))
    return r


def is_default(v, d):
    if isinstance(v, Const):
        return v.v == d and type(v.v) is type(d)
    if isinstance(v, Num) and isinstance(d, (bool, int, float)) and v.p.const() is not None:
        try:
            return v.p.const() == Fraction(repr(d)) if not isinstance(d, bool) else \
                (v.dt == "b" and v.p.const() == int(d))
        except ValueError:
            return False
    return False


# --- iteration -----------------------------------------------------------------------

def iterate(I, v):
    if isinstance(v, Phi):
        # gates around sequences of equal length are moved inside
        a, b = iterate(I, v.a), iterate(I, v.b)
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and \
                not any(isinstance(x, Seg) for x in a + b):
            return [I.phi(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Seq) and isinstance(b, Seq) and P.equal(a.n, b.n):
            return Seq(a.n, a.var, I.phi(v.c, a.elem, I.vsubst(b.elem, {b.var.id: topoly(a.var)})))
        I.unsupported("iteration over a gated sequence")
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Seq):
        return v
    if isinstance(v, Arr):
        if not v.sizes:
            I.raise_("TypeError", msg="iteration over a 0-d array")
            return []
        n = v.sizes[0]
        k = n.const()
        if k is not None and k <= 64:
            return [arrays.getitem(I, v, num(j)) for j in range(int(k))]
        var = P.fresh_var(n)
        return Seq(n, var, arrays.getitem(I, v, Num(topoly(var), "i")))
    if isinstance(v, Const) and isinstance(v.v, str):
        return [Const(c) for c in v.v]
    if isinstance(v, Ref):
        c = I.heap[v.id]
        if type(c).__name__ == "PhiC":
            a = gated_items(I, v, c)
            if a is not None:
                return a
            I.unsupported("iteration over a list with gated content")
        if isinstance(c, ListC):
            return list(c.items)
        if isinstance(c, SetC):
            return list(c.items)
        if isinstance(c, DictC):
            return [k for k, _ in c.items]
        if isinstance(c, InstC):
            m = I.lookup_cls(c.cls, "__iter__")
            if m is not None:
                return iterate(I, I.call(I.bind(m, v, c.cls), [], {}))
            if I.lookup_cls(c.cls, "__getitem__") is not None:
                n = ops.length(I, v)
                if n is None:
                    I.unsupported("iteration by __getitem__")
                return from_getitem(I, v, n)
    if isinstance(v, Opq):
        n = topoly(atom("len", v.t))
        var = P.fresh_var(n)
        return Seq(n, var, Opq(atom("elem", v.t, topoly(var))))
    if isinstance(v, Num) and v.dt == "o":
        t = I.reify(v)
        n = topoly(atom("len", t))
        var = P.fresh_var(n)
        return Seq(n, var, Opq(atom("elem", t, topoly(var))))
    I.raise_("TypeError", msg="object is not iterable: %r" % (v,))
    return []


def from_getitem(I, v, n):
    k = n.const()
    if k is not None:
        return [I.getitem(v, num(j)) for j in range(int(k))]
    var = P.fresh_var(n)
    return Seq(n, var, I.getitem(v, Num(topoly(var), "i")))


def gated_items(I, v, c):
    save = I.heap[v.id]
    out = []
    for x in (c.a, c.b):
        I.heap[v.id] = x
        out.append(iterate(I, v))
        I.heap[v.id] = save
    a, b = out
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and not any(isinstance(x, Seg) for x in a + b):
        return [I.phi(c.c, x, y) for x, y in zip(a, b)]
    return None


def seq_index(I, s, i):
    if isinstance(s, Opq):
        return Opq(atom("item", s.t, I.reify(i)))
    if isinstance(i, Slc):
        start, step, size = arrays.resolve_slice(I, i, s.n)
        var = P.fresh_var(size)
        e = I.vsubst(s.elem, {s.var.id: P.padd(start, P.pmul(step, topoly(var)))})
        r = Seq(size, var, e, s.obj)
        return r if s.obj else I.new_list([Seg(r)])
    if isinstance(i, Num):
        p = arrays.resolve_int(I, i.p, s.n)
        return I.vsubst(s.elem, {s.var.id: p})
    if s.obj:
        return I.getitem(npmodels.to_array(I, s), i)
    I.unsupported("index of a sequence")


# --- builtins ------------------------------------------------------------------------

B = {}


def builtin(*names):
    def deco(f):
        for n in names:
            B[n] = f
        return f
    return deco


def builtins_table(I):
    return {n: Native(f, n) for n, f in B.items()}


@builtin("len")
def b_len(I, x):
    def f(x):
        if isinstance(x, Ref) and type(I.heap[x.id]).__name__ == "PhiC":
            return I.with_content(x, lambda c: f(x))
        n = ops.length(I, x)
        if n is None:
            I.raise_("TypeError", msg="object has no len()")
            return num(0)
        return Num(n, "i")
    return I.lift(x, f)


@builtin("range")
def b_range(I, a, b=None, c=None):
    if b is None:
        a, b = num(0), a
    c = num(1) if c is None else c

    def f(a, b, c):
        for x in (a, b, c):
            if not isinstance(x, Num) or x.dt not in ("i", "b", "o"):
                I.raise_("TypeError", msg="range argument is not an integer")
                return Tup([])
        k = [x.p.const() for x in (a, b, c)]
        if all(x is not None for x in k):
            return Tup([num(j) for j in range(*[int(x) for x in k])])
        n = P.padd(b.p, -a.p)
        if c.p is not ONE:
            n = npmodels.ceil(P.pmul(n, P.pinv(c.p)))
        lo = P._lin_bounds(n, True)
        if lo is None or lo < 0:
            n = P.fmax(n, ZERO)
        var = P.fresh_var(n)
        return Seq(n, var, Num(P.padd(a.p, P.pmul(c.p, topoly(var))), "i"))
    return I.liftn([a, b, c], f)


@builtin("abs")
def b_abs(I, x):
    return npmodels.np_abs(I, x)


def minmax(I, args, key, kind, default=None):
    if len(args) == 1:
        def f(v):
            if isinstance(v, Arr):
                return npmodels.reduce_(I, v, kind)
            items = iterate(I, v)
            if isinstance(items, list) and len(items) == 1 and isinstance(items[0], Seg):
                items = items[0].v
            if isinstance(items, Seq):
                return npmodels.reduce_(I, npmodels.seq_to_array(I, items), kind)
            if not items:
                if default is not None:
                    return default
                I.raise_("ValueError", msg="%s() of an empty sequence" % kind)
                return Opq(atom("dead"))
            return minmax(I, items, key, kind)
        if key is not None:
            I.unsupported("%s with key" % kind)
        return I.lift(args[0], f)
    r = args[0]
    for x in args[1:]:
        c = I.truth(I.compare("Lt" if kind == "min" else "Gt", x, r))
        r = I.phi(c, x, r)
    return r


@builtin("max")
def b_max(I, *args, key=None, default=None):
    return minmax(I, list(args), key, "max", default)


@builtin("min")
def b_min(I, *args, key=None, default=None):
    return minmax(I, list(args), key, "min", default)


@builtin("sum")
def b_sum(I, it, start=None):
    def f(v):
        items = iterate(I, v)
        r = start if start is not None else num(0)
        if isinstance(items, Seq):
            items = [Seg(items)]
        for x in items:
            if isinstance(x, Seg):
                s = npmodels.reduce_(I, npmodels.seq_to_array(I, x.v), "sum", num(0))
                r = I.binop("Add", r, s)
            else:
                r = I.binop("Add", r, x)
        return r
    return I.lift(it, f)


def quantify(I, it, isall):
    def f(v):
        items = iterate(I, v)
        if isinstance(items, Seq):
            items = [Seg(items)]
        c = ONE if isall else ZERO
        for x in items:
            if isinstance(x, Seg):
                s = x.v
                e = I.truth(s.elem)
                bad = NOT(e) if isall else e
                t = P.lt(P.psum(bad, s.var), ONE)      # none of them
                e = t if isall else NOT(t)
            else:
                e = I.truth(x)
            c = AND(c, e) if isall else OR(c, e)
        return boolv(c)
    return I.lift(it, f)


@builtin("all")
def b_all(I, it):
    return quantify(I, it, True)


@builtin("any")
def b_any(I, it):
    return quantify(I, it, False)


@builtin("round")
def b_round(I, x, ndigits=None):
    def f(x):
        if not isinstance(x, Num):
            if isinstance(x, Opq):
                x = Num(topoly(x.t), "o")
            else:
                return npmodels.np_round(I, x)
        if x.dt == "o":
            return Num(topoly(atom("round", x.p)), "i")
        if ndigits is None or is_none(ndigits):
            return Num(P.fround(x.p), "i")
        return Num(npmodels.round_to(x.p, ndigits.p), x.dt)
    return I.lift(x, f)


@builtin("divmod")
def b_divmod(I, a, b):
    return Tup([I.binop("FloorDiv", a, b), I.binop("Mod", a, b)])


@builtin("pow")
def b_pow(I, a, b, mod=None):
    return I.binop("Pow", a, b)


@builtin("hash")
def b_hash(I, x):
    def f(x):
        if isinstance(x, Ref):
            c = I.heap[x.id]
            if isinstance(c, InstC):
                m = I.lookup_cls(c.cls, "__hash__")
                if m is not None and not is_none(m):
                    return I.call(I.bind(m, x, c.cls), [], {})
                if m is not None or I.lookup_cls(c.cls, "__eq__") is not None and \
                        "__hash__" not in own_hash(I, c.cls):
                    I.raise_("TypeError", msg="unhashable type")
                    return Opq(atom("dead"))
                return Opq(atom("idhash", x.id))
            I.raise_("TypeError", msg="unhashable type")
            return Opq(atom("dead"))
        if isinstance(x, Arr):
            I.raise_("TypeError", msg="unhashable type: numpy.ndarray")
            return Opq(atom("dead"))
        return Num(topoly(atom("hash", I.reify(x))), "i")
    return I.lift(x, f)


def own_hash(I, cls):
    return I.heap[cls.frame].vars


@builtin("id")
def b_id(I, x):
    if isinstance(x, (Ref, Arr)):
        k = x.id if isinstance(x, Ref) or not x.view else "%d %r" % (x.id, x.view.maps)
        if isinstance(k, str):
            return Num(topoly(atom("id", k)), "i")
        return Num(P.const(140 * 10**12 + 64*k), "i")
    return Num(topoly(atom("idof", I.reify(x))), "i")


@builtin("callable")
def b_callable(I, x):
    def f(x):
        if isinstance(x, (Func, Native, Bound, Partial, Cls, Memo)):
            return TRUE
        if isinstance(x, Ext):
            obj = real_object(x.path)
            return num(callable(obj))
        if isinstance(x, Ref):
            c = I.heap[x.id]
            if isinstance(c, InstC):
                return num(I.lookup_cls(c.cls, "__call__") is not None)
            return FALSE
        if isinstance(x, Opq):
            if x.tag == "str":
                return FALSE
            return boolv(topoly(atom("ind", "callable", x.t)))
        return FALSE
    return I.lift(x, f)


def kind_names(I, v):
    """Type names of a value (with base classes)."""
    if isinstance(v, Num):
        t = {"b": ["bool", "int", "Number", "Integral", "Real", "Hashable"], "i": ["int", "Number", "Integral", "Real", "Hashable"],
             "f4": ["Number", "Real", "floating", "Hashable"], "f8": ["float", "Number", "Real", "Hashable"],
             "c8": ["Number", "Complex", "Hashable"], "c16": ["complex", "Number", "Complex", "Hashable"],
             "T": ["datetime", "date", "Hashable"], "D": ["timedelta", "Hashable"],
             "M": ["datetime64", "generic", "Hashable"], "m": ["timedelta64", "generic", "Hashable"]}.get(v.dt)
        if t is None:
            return None
        if not v.weak and v.dt in ("i", "b"):
            # numpy scalars are not Python integers
            t = ["Number", "Integral", "Real", "integer", "generic", "Hashable"] if v.dt == "i" else ["bool_", "generic", "Hashable"]
        elif not v.weak and v.dt not in ("T", "D", "M", "m"):
            t = t + ["generic", "floating", "number"]
        return t + ["object"]
    if isinstance(v, Const):
        if v.v is None:
            return ["NoneType", "Hashable", "object"]
        t = type(v.v).__name__
        return [t, "object", "Hashable"] + (["Sequence", "Iterable", "Sized", "Container", "Collection"] if t == "str" else [])
    if isinstance(v, Tup):
        return ["tuple", "Sequence", "Iterable", "Sized", "Container", "Collection", "Hashable", "object"]
    if isinstance(v, Arr):
        return ["ndarray", "Iterable", "Sized", "Container", "Collection", "object"]
    if isinstance(v, Seq):
        return (["ndarray"] if v.obj else ["generator", "Iterator"]) + ["Iterable", "object"]
    if isinstance(v, Slc):
        return ["slice", "object"]
    if isinstance(v, (Func, Bound, Native, Partial, Memo)):
        return ["function", "Callable", "object", "partial" if isinstance(v, Partial) else "FunctionType"]
    if isinstance(v, Cls):
        return ["type", "Callable", "object"]
    if isinstance(v, Mod):
        return ["module", "ModuleType", "object"]
    if isinstance(v, Ref):
        c = I.heap[v.id]
        if isinstance(c, ListC):
            return ["list", "Sequence", "MutableSequence", "Iterable", "Sized", "Container", "Collection", "object"]
        if isinstance(c, DictC):
            return ["dict", "Mapping", "MutableMapping", "Iterable", "Sized", "Container", "Collection", "object"]
        if isinstance(c, SetC):
            return ["set", "Set", "Iterable", "Sized", "Container", "Collection", "object"]
        if isinstance(c, InstC):
            out = ["object"]
            for k in c.cls.mro:
                if isinstance(k, Ext):
                    out.append(k.path.split(".")[-1])
            for m, n in (("__call__", "Callable"), ("__iter__", "Iterable"), ("__len__", "Sized"), ("__hash__", "Hashable")):
                if I.lookup_cls(c.cls, m) is not None:
                    out.append(n)
            if "Sequence" in out:
                out += ["Iterable", "Sized", "Container", "Collection"]
            return out
    if isinstance(v, Opq) and v.tag == "str":
        return ["str", "object", "Sequence", "Iterable", "Hashable", "Sized"]
    if isinstance(v, Opq) and v.tag:
        return v.tag.split("|") + ["object"]
    return None


def isinstance_(I, x, t):
    """Indicator polynomial"""
    if isinstance(t, Tup):
        c = ZERO
        for y in t.items:
            c = OR(c, isinstance_(I, x, y))
        return c
    if isinstance(t, Phi):
        return ops.truth(I, I.lift(t, lambda y: boolv(isinstance_(I, x, y))))
    if isinstance(x, Ref):
        c = I.heap[x.id]
        if type(c).__name__ == "PhiC":
            return ops.truth(I, I.with_content(x, lambda c: boolv(isinstance_(I, x, t))))
    if isinstance(t, Cls):
        if isinstance(x, Ref):
            c = I.heap[x.id]
            if isinstance(c, InstC):
                return ONE if t in c.cls.mro else ZERO
            return ZERO
        if isinstance(x, Opq) and x.tag is None:
            return topoly(atom("ind", "isinstance", x.t, t.name))
        if isinstance(x, Num) and x.dt == "o":
            return topoly(atom("ind", "isinstance", I.reify(x), t.name))
        return ZERO
    if is_none(t):
        return ONE if is_none(x) else ZERO
    if isinstance(t, Native):
        name = t.name
    elif isinstance(t, Ext):
        name = t.path.split(".")[-1]
        name = {"float64": "float"}.get(name, name)
    else:
        I.unsupported("isinstance with %r" % (t,))
    ks = kind_names(I, x)
    if ks is None:
        return topoly(atom("ind", "isinstance", I.reify(x), name))
    if name == "number" or name == "inexact":
        name = "generic"
    return ONE if name in ks else ZERO


@builtin("isinstance")
def b_isinstance(I, x, t):
    return I.lift(x, lambda x: boolv(isinstance_(I, x, t)))


@builtin("issubclass")
def b_issubclass(I, c, t):
    if isinstance(c, Cls):
        ts = t.items if isinstance(t, Tup) else [t]
        return num(any(x in c.mro for x in ts))
    I.unsupported("issubclass")


@builtin("type")
def b_type(I, x):
    def f(x):
        c = I.class_of(x)
        if c is not None:
            return c
        ks = kind_names(I, x)
        if ks is None:
            return Opq(atom("type", I.reify(x)), "type")
        if isinstance(x, Num) and (not x.weak or x.dt in ("f4", "c8")):
            n = {"b": "bool_", "i": "int64", "f4": "float32", "f8": "float64", "c8": "complex64", "c16": "complex128"}.get(x.dt)
            if n is not None:
                return Ext("numpy." + n)
        return Ext("builtins." + ks[0])
    return I.lift(x, f)


@builtin("hasattr")
def b_hasattr(I, x, name):
    miss = Const("%missing")

    def f(x):
        if isinstance(x, Opq):
            return boolv(topoly(atom("exists", x.t, name.v)))
        if isinstance(x, Num) and x.dt == "o":
            return boolv(topoly(atom("exists", I.reify(x), name.v)))
        r = I.getattr(x, name.v, miss)
        return I.lift(r, lambda r: FALSE if r is miss else TRUE)
    return I.lift(x, f)


@builtin("getattr")
def b_getattr(I, x, name, default=None):
    def f(n):
        if not isinstance(n, Const):
            I.unsupported("getattr with a computed name")
        return I.getattr(x, n.v, default)
    return I.lift(name, f)


@builtin("setattr")
def b_setattr(I, x, name, v):
    if not isinstance(name, Const):
        I.unsupported("setattr with a computed name")
    I.setattr(x, name.v, v)
    return NONE


@builtin("delattr")
def b_delattr(I, x, name):
    I.setattr(x, name.v, UNDEF)
    return NONE


@builtin("int")
def b_int(I, x=None, base=None):
    if x is None:
        return num(0)

    def f(x):
        if isinstance(x, Num):
            if x.dt in ("i", "b"):
                return Num(x.p, "i")
            return Num(P.ftrunc(x.p), "i")
        if isinstance(x, Arr):
            c = read(I, x)
            mp = {vix(c.sizes, j).id: ZERO for j in range(len(c.sizes))}
            return Num(P.ftrunc(P.subst(c.body, mp)), "i")
        if isinstance(x, Const) and isinstance(x.v, str):
            try:
                return num(int(x.v))
            except ValueError:
                I.raise_("ValueError")
                return num(0)
        return Num(P.ftrunc(topoly(I.reify(x))), "i")
    return I.lift(x, f)


@builtin("float")
def b_float(I, x=None):
    if x is None:
        return num(0.)

    def f(x):
        if isinstance(x, Num):
            if x.dt in ("c8", "c16"):
                I.raise_("TypeError", msg="can't convert complex to float")
                return num(0.)
            return Num(x.p, "f8" if x.dt != "o" else "o")
        if isinstance(x, Arr):
            c = read(I, x)
            if all(n is ONE for n in c.sizes):
                return Num(c.body, "f8")
            I.raise_("TypeError", msg="only length-1 arrays can be converted")
            return num(0.)
        if isinstance(x, Const) and isinstance(x.v, str):
            try:
                return num(float(x.v))
            except ValueError:
                I.raise_("ValueError")
                return num(0.)
        return Num(topoly(I.reify(x)), "o")
    return I.lift(x, f)


@builtin("complex")
def b_complex(I, re=None, im=None):
    r = re.p if re is not None else ZERO
    if im is not None:
        r = P.padd(r, P.pmul(P.I, im.p))
    return Num(r, "c16")


@builtin("bool")
def b_bool(I, x=None):
    return FALSE if x is None else boolv(I.truth(x))


@builtin("str")
def b_str(I, x=None):
    if x is None:
        return Const("")

    def f(x):
        if isinstance(x, Const) and isinstance(x.v, str):
            return x
        if isinstance(x, Num) and x.dt == "i" and x.p.const() is not None:
            return Const(str(int(x.p.const())))
        if is_none(x):
            return Const("None")
        c = I.class_of(x)
        if c is not None:
            m = I.lookup_cls(c, "__str__") or I.lookup_cls(c, "__repr__")
            if m is not None:
                return I.call(I.bind(m, x, c), [], {})
        return mkstr(fmt_parts(I, x))
    return I.lift(x, f)


@builtin("repr", "ascii")
def b_repr(I, x):
    def f(x):
        c = I.class_of(x)
        if c is not None:
            m = I.lookup_cls(c, "__repr__")
            if m is not None:
                return I.call(I.bind(m, x, c), [], {})
        return mkstr(fmt_parts(I, x, ord("r")))
    return I.lift(x, f)


@builtin("format")
def b_format(I, x, spec=None):
    return I.lift(x, lambda x: mkstr(fmt_parts(I, x, -1, (spec.v if isinstance(spec, Const) else I.reify(spec)) if spec is not None else None)))


@builtin("tuple")
def b_tuple(I, x=None):
    if x is None:
        return Tup([])

    def f(x):
        items = iterate(I, x)
        if isinstance(items, Seq):
            return items
        if any(isinstance(y, Seg) for y in items):
            if len(items) == 1:
                return items[0].v
            return I.new_list(items)
        return Tup(items)
    if isinstance(x, Ref):
        return I.with_content(x, lambda c: f(x)) if type(I.heap[x.id]).__name__ == "PhiC" else f(x)
    return I.lift(x, f)


@builtin("list")
def b_list(I, x=None):
    if x is None:
        return I.new_list([])

    def f(x):
        items = iterate(I, x)
        return I.new_list([Seg(items)] if isinstance(items, Seq) else items)
    if isinstance(x, Ref) and type(I.heap[x.id]).__name__ == "PhiC":
        return I.with_content(x, lambda c: f(x))
    return I.lift(x, f)


@builtin("set", "frozenset")
def b_set(I, x=None):
    if x is None:
        return I.new_set([])
    items = iterate(I, x)
    if isinstance(items, Seq) or any(isinstance(y, Seg) for y in items):
        if isinstance(x, Arr):
            # a set of array elements: iterate in (unspecified) array order
            if isinstance(items, Seq):
                return I.new_list([Seg(items)])
        return Opq(atom("set", I.reify(x)))
    out = []
    for y in items:
        if not any(I.same(y, z) for z in out):
            out.append(y)
    return I.new_set(out)


@builtin("dict")
def b_dict(I, x=None, **kw):
    d = I.new_dict([])
    if x is not None:
        if isinstance(x, Ref) and isinstance(I.heap[x.id], DictC):
            for k, v in I.heap[x.id].items:
                I.dict_set(d, k, v)
        elif isinstance(x, Opq):
            return Opq(atom("dict", x.t))
        else:
            for t in iterate(I, x):
                k, v = I.unpack_items(t, 2)
                I.dict_set(d, k, v)
    for k, v in kw.items():
        I.dict_set(d, Const(k), v)
    return d


def as_list(I, v):
    items = iterate(I, v)
    if isinstance(items, list) and len(items) == 1 and isinstance(items[0], Seg):
        return items[0].v if isinstance(items[0].v, Seq) else items
    return items


@builtin("zip")
def b_zip(I, *its, strict=None):
    def f(*its):
        ls = [as_list(I, x) for x in its]
        if not ls:
            return Tup([])
        if all(isinstance(l, list) and not any(isinstance(y, Seg) for y in l) for l in ls):
            return Tup([Tup(t) for t in zip(*ls)])
        n = None
        fin = [len(l) for l in ls if isinstance(l, list)]
        if fin:
            # a finite list bounds the length if the sequences are longer
            k = min(fin)
            ok = True
            for l in ls:
                if isinstance(l, Seq):
                    lo = P._lin_bounds(P.padd(l.n, P.const(-k)), True)
                    if lo is None or lo < 0:
                        ok = False
            if not ok or any(isinstance(y, Seg) for l in ls if isinstance(l, list) for y in l):
                I.unsupported("zip of sequences of different kind")
            cols = [[I.vsubst(l.elem, {l.var.id: P.const(j)}) for j in range(k)] if isinstance(l, Seq) else l[:k]
                    for l in ls]
            return Tup([Tup(t) for t in zip(*cols)])
        n = ls[0].n
        for l in ls[1:]:
            if not P.equal(l.n, n):
                n = P.fmin(n, l.n)
        var = P.fresh_var(n)
        return Seq(n, var, Tup([I.vsubst(l.elem, {l.var.id: topoly(var)}) for l in ls]))
    return I.liftn(list(its), f, False) if any(isinstance(x, Phi) for x in its) else f(*its)


@builtin("enumerate")
def b_enumerate(I, it, start=None):
    s = start.p if start is not None else ZERO
    l = as_list(I, it)
    if isinstance(l, Seq):
        return Seq(l.n, l.var, Tup([Num(P.padd(topoly(l.var), s), "i"), l.elem]))
    out = []
    for x in l:
        if isinstance(x, Seg):
            seq = x.v
            n = ops.length(I, I.new_list([x]))
            if isinstance(seq, Opq):
                v = P.fresh_var(n)
                seq = Seq(n, v, Opq(atom("elem", seq.t, topoly(v))))
            if not isinstance(seq, Seq):
                I.unsupported("enumerate of a partially symbolic list")
            out.append(Seg(Seq(seq.n, seq.var, Tup([Num(P.padd(topoly(seq.var), s), "i"), seq.elem]))))
            s = P.padd(s, n)
        else:
            out.append(Tup([Num(s, "i"), x]))
            s = P.padd(s, ONE)
    return I.new_list(out) if any(isinstance(x, Seg) for x in out) else Tup(out)


@builtin("map")
def b_map(I, f, *its):
    l = b_zip(I, *its)
    if isinstance(l, Phi):
        I.unsupported("map over gated sequences")
    if isinstance(l, Seq):
        return Seq(l.n, l.var, I.call(f, list(l.elem.items), {}))
    return Tup([I.call(f, list(t.items), {}) for t in l.items])


@builtin("filter")
def b_filter(I, f, it):
    out = I.new_list([])
    l = iterate(I, it)
    if isinstance(l, Seq) or any(isinstance(x, Seg) for x in l):
        I.unsupported("filter over a symbolic sequence")
    for x in l:
        c = I.truth(x if is_none(f) else I.call(f, [x], {}))
        I.split(c, lambda: I.call(I.getattr(out, "append"), [x], {}), lambda: NONE)
    return out


@builtin("reversed")
def b_reversed(I, it):
    l = as_list(I, it)
    if isinstance(l, Seq):
        var = P.fresh_var(l.n)
        return Seq(l.n, var, I.vsubst(l.elem, {l.var.id: P.padd(P.padd(l.n, P.const(-1)), -topoly(var))}))
    return Tup([Seg(b_reversed(I, x.v)) if isinstance(x, Seg) else x for x in reversed(l)])


@builtin("sorted")
def b_sorted(I, it, key=None, reverse=None):
    if isinstance(it, Phi):
        return I.lift(it, lambda x: b_sorted(I, x, key, reverse))
    if isinstance(key, Const) and key.v is None:
        key = None
    rev = I.truth(reverse) if reverse is not None else ZERO
    if not isinstance(it, Opq) and rev in (ZERO, ONE):
        l = as_list(I, it)
        if isinstance(l, list) and not any(isinstance(x, Seg) for x in l):
            keys = [I.call(key, [x], {}) for x in l] if key is not None else list(l)
            if all(isinstance(x, Const) for x in keys) and len({type(x.v) for x in keys}) <= 1:
                order = sorted(range(len(l)), key=lambda k: keys[k].v, reverse=rev is ONE)
                return I.new_list([l[k] for k in order])
            if all(isinstance(x, Num) and x.p.const() is not None for x in keys):
                order = sorted(range(len(l)), key=lambda k: keys[k].p.const(), reverse=rev is ONE)
                return I.new_list([l[k] for k in order])
            if len(l) <= 4 and all(isinstance(x, Num) and x.dt != "o" for x in keys):
                return I.new_list(sort_network(I, l, [x.p for x in keys], rev is ONE))
    elif isinstance(it, Opq) and key is None and reverse is None:
        return Opq(atom("sorted_list", I.reify(it), None))
    return Opq(atom("sorted_list", I.reify(it), I.reify(key) if key is not None else None, *([I.reify(reverse)] if reverse is not None else [])))


def sort_network(I, items, keys, reverse):
    """Stable insertion sort, every exchange depending on the comparison of the keys."""
    items, keys = list(items), list(keys)
    for n in range(1, len(items)):
        for k in range(n, 0, -1):
            a, b = keys[k - 1], keys[k]
            c = P.lt(a, b) if reverse else P.lt(b, a)
            if c is ZERO:
                continue
            items[k - 1], items[k] = I.phi(c, items[k], items[k - 1], True), I.phi(c, items[k - 1], items[k], True)
            keys[k - 1], keys[k] = P.ite(c, b, a), P.ite(c, a, b)
    return items


@builtin("iter")
def b_iter(I, it):
    if isinstance(it, Opq):
        return it
    l = iterate(I, it)
    return l if isinstance(l, Seq) else (Tup(l) if not any(isinstance(x, Seg) for x in l) else I.new_list(l))


@builtin("next")
def b_next(I, it, default=None):
    l = as_list(I, it)
    if isinstance(l, list) and l and not isinstance(l[0], Seg):
        return l[0]
    if isinstance(l, list) and not l and default is not None:
        return default
    I.unsupported("next of a symbolic iterator")


@builtin("slice")
def b_slice(I, a, b=None, c=None):
    if b is None and c is None:
        return Slc(NONE, a, NONE)
    return Slc(a, b, c if c is not None else NONE)


@builtin("print")
def b_print(I, *a, **k):
    return NONE


@builtin("property")
def b_property(I, fget=None, fset=None, fdel=None, doc=None):
    return Prop(fget, fset)


@builtin("classmethod")
def b_classmethod(I, f):
    return ClsMeth(f)


@builtin("staticmethod")
def b_staticmethod(I, f):
    return StaticMeth(f)


@builtin("object")
def b_object(I):
    return Opq(atom("object", I.nextid))


@builtin("vars")
def b_vars(I, x):
    return I.getattr(x, "__dict__")


B["NotImplemented"] = None
B["Ellipsis"] = None
del B["NotImplemented"], B["Ellipsis"]


# --- standard library and other externals ---------------------------------------------

EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


for _n, _f in list(B.items()):
    EXT["builtins." + _n] = _f


@ext("functools.partial")
def partial(I, f, *a, **k):
    return Partial(f, a, k)


@ext("functools.lru_cache", "functools.cache")
def lru_cache(I, f=None, maxsize=None, typed=None):
    if isinstance(f, (Func, Memo, Bound)):
        return Memo(f, I.alloc(MemoC(())))
    return Native(lambda I, g: Memo(g, I.alloc(MemoC(()))), "lru_cache")


@ext("functools.wraps")
def wraps(I, f, *a, **k):
    return Native(lambda I, g: g, "wraps")


@ext("functools.cached_property")
def cached_property(I, f):
    return CProp(f)


@ext("functools.total_ordering")
def total_ordering(I, c):
    return c


@ext("functools.reduce")
def reduce(I, f, it, init=None):
    l = iterate(I, it)
    if isinstance(l, Seq) or any(isinstance(x, Seg) for x in l):
        I.unsupported("reduce over a symbolic sequence")
    if init is not None:
        l = [init] + l
    if not l:
        I.raise_("TypeError")
        return Opq(atom("dead"))
    r = l[0]
    for x in l[1:]:
        r = I.call(f, [r, x], {})
    return r


@ext("itertools.chain")
def chain(I, *its):
    out = []
    for x in its:
        l = iterate(I, x)
        out += [Seg(l)] if isinstance(l, Seq) else l
    return I.new_list(out) if any(isinstance(x, Seg) for x in out) else Tup(out)


@ext("itertools.chain.from_iterable")
def chain_from(I, it):
    return chain(I, *iterate(I, it))


@ext("itertools.product")
def product(I, *its, repeat=None):
    out = [[]]
    for x in its:
        l = iterate(I, x)
        if isinstance(l, Seq) or any(isinstance(y, Seg) for y in l):
            if len(its) == 1:
                s = l if isinstance(l, Seq) else l[0].v
                return Seq(s.n, s.var, Tup([s.elem]))
            return product_seq(I, [iterate(I, y) for y in its])
        out = [t + [y] for t in out for y in l]
    return Tup([Tup(t) for t in out])


def product_seq(I, ls):
    """Product of sequences, the last varies fastest."""
    segs = []
    for l in ls:
        if isinstance(l, list):
            if len(l) == 1 and isinstance(l[0], Seg):
                l = l[0].v
            elif not any(isinstance(x, Seg) for x in l):
                v = P.fresh_var(P.const(len(l)))
                l = Seq(P.const(len(l)), v, seq_index(I, Tup(l), topoly(v)) if l else NONE)
        if not isinstance(l, Seq):
            I.unsupported("product of mixed sequences")
        segs.append(l)
    n = ONE
    for l in segs:
        n = P.pmul(n, l.n)
    var = P.fresh_var(n)
    k, out = topoly(var), []
    for l in reversed(segs):
        q = P.ffloor(P.pmul(k, P.pinv(l.n)))
        out.append(I.vsubst(l.elem, {l.var.id: P.padd(k, P.pscale(P.pmul(q, l.n), Fraction(-1)))}))
        k = q
    return Seq(n, var, Tup(out[::-1]))


@ext("itertools.islice")
def islice(I, it, *a):
    l = iterate(I, it)
    if isinstance(l, Seq):
        I.unsupported("islice")
    k = [None if is_none(x) else int(x.p.const()) for x in a]
    return Tup(l[slice(*k)])


@ext("itertools.repeat")
def it_repeat(I, x, n=None):
    if n is None:
        I.unsupported("infinite repeat")
    v = P.fresh_var(n.p)
    return Seq(n.p, v, x)


@ext("operator.attrgetter")
def attrgetter(I, *names):
    def get(I, o):
        r = []
        for n in names:
            x = o
            for p in n.v.split("."):
                x = I.getattr(x, p)
            r.append(x)
        return r[0] if len(r) == 1 else Tup(r)
    return Native(get, "attrgetter")


@ext("operator.itemgetter")
def itemgetter(I, *keys):
    def get(I, o):
        r = [I.getitem(o, k) for k in keys]
        return r[0] if len(r) == 1 else Tup(r)
    return Native(get, "itemgetter")


for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("pow", "Pow"), ("mod", "Mod")):
    EXT["operator." + _n] = (lambda o: lambda I, a, b: I.binop(o, a, b))(_o)


for _n in ("sin", "cos", "tan", "exp", "sqrt", "floor", "ceil", "asin", "acos", "atan", "sinh", "cosh", "tanh",
           "trunc", "isnan", "isinf", "isfinite", "degrees", "radians", "hypot", "atan2", "fabs"):
    def _mk(n):
        def f(I, *a):
            r = npmodels.TABLE["numpy." + n](I, *a)
            if isinstance(r, Num):
                return Num(r.p, "i" if n in ("floor", "ceil", "trunc") else r.dt, True)
            return r
        return f
    EXT["math." + _n] = _mk(_n)
EXT["math.log"] = npmodels.TABLE["numpy.log"]
EXT["math.isclose"] = None
del EXT["math.isclose"]


@ext("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings")
def warn(I, *a, **k):
    return NONE


@ext("copy.copy")
def copy_copy(I, x):
    if isinstance(x, Arr):
        return arrays.copy(I, x)
    if isinstance(x, Ref):
        c = I.heap[x.id]
        if isinstance(c, ListC):
            return I.new_list(c.items)
        if isinstance(c, DictC):
            return I.new_dict(c.items)
        if isinstance(c, InstC):
            return I.new_inst(c.cls, dict(c.attrs))
    if isinstance(x, (Num, Const, Tup)):
        return x
    I.unsupported("copy of %r" % (x,))


# datetime: times are terms of type T, time differences of type D; seconds of a
# difference are its coefficient (one unit is one second)

SEC = P.sym("second", "f")
P.declare_positive(SEC)


@ext("datetime.timedelta")
def timedelta(I, days=None, seconds=None, microseconds=None, milliseconds=None, minutes=None, hours=None, weeks=None):
    tot = ZERO
    for v, k in ((days, 86400), (seconds, 1), (microseconds, Fraction(1, 10 ** 6)), (milliseconds, Fraction(1, 1000)),
                 (minutes, 60), (hours, 3600), (weeks, 604800)):
        if v is not None:
            v = npmodels.as_operand(I, v)
            if v.dt in ("T", "D"):
                I.raise_("TypeError", msg="unsupported type for timedelta")
                return Opq(atom("dead"))
            tot = P.padd(tot, P.pscale(v.p, Fraction(k)))
    return Num(P.pmul(tot, SEC), "D")


EPOCH = P.sym("epoch", "T")
UNITS = {"ns": Fraction(1, 10 ** 9), "us": Fraction(1, 10 ** 6), "ms": Fraction(1, 1000), "s": 1, "m": 60, "h": 3600,
         "D": 86400, "W": 604800}


def is_utc(x):
    return isinstance(x, Ext) and x.path in ("datetime.timezone.utc", "datetime.UTC")


@ext("datetime.datetime.fromtimestamp")
def fromtimestamp(I, x, tz=None):
    x = npmodels.as_operand(I, x)
    if isinstance(x, Arr) or x.dt in ("T", "D", "M", "m"):
        I.raise_("TypeError", msg="timestamp is not a number")
        return Opq(atom("dead"))
    t = P.padd(EPOCH, P.pmul(x.p, SEC))
    if is_utc(tz):
        return Num(topoly(atom("aware", t)), "T")
    return Num(topoly(atom("localtime", t, I.reify(tz) if tz is not None else 0)), "T")


@ext("datetime.datetime.utcfromtimestamp")
def utcfromtimestamp(I, x):
    return Num(P.padd(EPOCH, P.pmul(npmodels.as_operand(I, x).p, SEC)), "T")


@ext("numpy.datetime64")
def datetime64(I, x, unit=None):
    if isinstance(x, Num) and x.dt in ("T", "M"):
        return Num(x.p, "M", False)
    if isinstance(x, Num) and isinstance(unit, Const) and unit.v in UNITS:
        return Num(P.padd(EPOCH, P.pmul(P.pscale(x.p, Fraction(UNITS[unit.v])), SEC)), "M", False)
    if isinstance(x, Const) and isinstance(x.v, str) and x.v.startswith("1970-01-01") and not x.v[10:].strip("T0:.Z"):
        return Num(EPOCH, "M", False)
    return Num(topoly(atom("call", "numpy.datetime64", I.reify(x), I.reify(unit) if unit is not None else 0)), "M", False)


@ext("numpy.timedelta64")
def timedelta64(I, x, unit=None):
    if isinstance(x, Num) and x.dt in ("D", "m"):
        return Num(x.p, "m", False)
    if isinstance(x, Num) and isinstance(unit, Const) and unit.v in UNITS:
        return Num(P.pmul(P.pscale(x.p, Fraction(UNITS[unit.v])), SEC), "m", False)
    I.unsupported("timedelta64")


@ext("datetime.datetime")
def datetime_(I, *a, **k):
    if not k and len(a) >= 3:
        c = [x.p.const() if isinstance(x, Num) else None for x in a]
        if c[:3] == [1970, 1, 1] and not any(z is None or z != 0 for z in c[3:]):
            return Num(EPOCH, "T")
    return Num(topoly(atom("call", "datetime.datetime", tuple(I.reify(x) for x in a),
                           tuple((n, I.reify(k[n])) for n in sorted(k)))), "T")


def seconds_of(p):
    return P.pmul(p, P.pinv(SEC))


# --- attributes of values -----------------------------------------------------------------

def method(f, name):
    return Native(f, name)


def value_attr(I, o, name):
    if isinstance(o, Arr):
        return arr_attr(I, o, name)
    if isinstance(o, Num):
        return num_attr(I, o, name)
    if isinstance(o, Const) and isinstance(o.v, str):
        return str_attr(I, o, name)
    if isinstance(o, Opq):
        if o.tag == "str":
            return str_attr(I, o, name)
        return None
    if isinstance(o, Tup):
        return tup_attr(I, o, name)
    if isinstance(o, Seq):
        return seq_attr(I, o, name)
    if isinstance(o, Ref):
        c = I.heap[o.id]
        if type(c).__name__ == "PhiC":
            while type(c).__name__ == "PhiC":
                c = c.a
        if isinstance(c, ListC):
            return list_attr(I, o, name)
        if isinstance(c, DictC):
            return dict_attr(I, o, name)
        if isinstance(c, SetC):
            return set_attr(I, o, name)
    if name == "__doc__":
        return NONE
    if isinstance(o, Native) and name in ("__name__", "__qualname__"):
        return Const(o.name)
    if name == "__class__":
        return b_type(I, o)
    return None


_METHODS = {"sum": "sum", "mean": "mean", "min": "min", "max": "max", "any": "any", "all": "all", "argmax": "argmax",
            "argmin": "argmin", "std": "std", "var": "var", "prod": "prod", "cumsum": "cumsum", "ravel": "ravel",
            "repeat": "repeat", "squeeze": "squeeze", "round": "round", "clip": "clip", "conj": "conj",
            "conjugate": "conj", "nonzero": "nonzero", "dot": "dot", "swapaxes": "swapaxes", "take": "take",
            "argsort": "argsort", "searchsorted": "searchsorted"}


def arr_attr(I, o, name):
    if name == "shape":
        return Tup([Num(n, "i") for n in o.sizes])
    if name == "ndim":
        return num(len(o.sizes))
    if name == "size":
        return npmodels.np_size(I, o)
    if name == "T":
        return npmodels.transpose(I, o)
    if name == "dtype":
        return Opq(atom("dtype", I.heap[o.id].dt), "dtype")
    if name == "real":
        return npmodels.np_real(I, o)
    if name == "imag":
        return npmodels.np_imag(I, o)
    if name == "nbytes":
        return Num(topoly(atom("nbytes", I.reify(o))), "i")
    if name == "flat":
        return npmodels.ravel(I, o)
    if name == "flags":
        return Opq(atom("flags", o.id))
    if name in _METHODS:
        f = npmodels.TABLE["numpy." + _METHODS[name]]
        return method(lambda I, *a, **k: f(I, o, *a, **k), "ndarray." + name)
    if name == "copy":
        return method(lambda I, order=None: arrays.copy(I, o), "ndarray.copy")
    if name == "astype":
        def astype(I, dtype, order=None, casting=None, subok=None, copy=None):
            d = npmodels.dtag(I, dtype)
            return npmodels.astype(I, o, d)
        return method(astype, "ndarray.astype")
    if name == "reshape":
        def reshape(I, *s, order=None):
            return npmodels.reshape(I, o, s[0] if len(s) == 1 else Tup(s))
        return method(reshape, "ndarray.reshape")
    if name == "flatten":
        return method(lambda I, order=None: arrays.copy(I, npmodels.ravel(I, o)), "ndarray.flatten")
    if name == "transpose":
        def transpose(I, *ax):
            if not ax:
                return npmodels.transpose(I, o)
            return npmodels.transpose(I, o, ax[0] if len(ax) == 1 and not isinstance(ax[0], Num) else Tup(ax))
        return method(transpose, "ndarray.transpose")
    if name == "fill":
        return method(lambda I, v: arrays.store_into(I, o, v, "fill") or NONE, "ndarray.fill")
    if name == "sort":
        def sort(I, axis=None, kind=None):
            arrays.store_into(I, o, npmodels.np_sort(I, o, axis), "sort")
            return NONE
        return method(sort, "ndarray.sort")
    if name == "item":
        def item(I, *a):
            if a:
                r = I.getitem(o, a[0] if len(a) == 1 else Tup(a))
                return Num(r.p, r.dt, True)
            c = read(I, o)
            if any(n is not ONE for n in c.sizes):
                I.raise_("ValueError", msg="can only convert an array of size 1")
                return num(0)
            return Num(c.body, c.dt, True)
        return method(item, "ndarray.item")
    if name == "tolist":
        return method(lambda I: I.new_list(I.list_segments(o)), "ndarray.tolist")
    if name in ("__len__", "__getitem__", "__setitem__", "__array__", "__iter__"):
        return {"__len__": method(lambda I: b_len(I, o), name),
                "__getitem__": method(lambda I, i: I.getitem(o, i), name),
                "__setitem__": method(lambda I, i, v: I.setitem(o, i, v) or NONE, name),
                "__array__": method(lambda I, *a: o, name),
                "__iter__": method(lambda I: b_iter(I, o), name)}[name]
    return None


def num_attr(I, o, name):
    if o.dt == "o":
        return I.opaque_attr(Opq(I.reify(o)), name)
    if name == "real":
        return npmodels.np_real(I, o)
    if name == "imag":
        return npmodels.np_imag(I, o)
    if o.dt == "D":
        if name == "total_seconds":
            return method(lambda I: Num(seconds_of(o.p), "f8"), name)
        if name in ("days", "seconds", "microseconds"):
            s = seconds_of(o.p)
            d = P.ffloor(P.pscale(s, Fraction(1, 86400)))
            if name == "days":
                return Num(d, "i")
            r = P.padd(s, P.pscale(d, Fraction(-86400)))
            if name == "seconds":
                return Num(P.ffloor(r), "i")
            return Num(topoly(atom("fn", "microseconds", s)), "i")
    if o.dt in ("M", "m") and name in ("astype", "item", "tolist"):
        # resolution of a microsecond (or finer) is kept by conversions to datetime
        def mconv(I, dtype=None, **k):
            if name != "astype":
                if o.weak:
                    return Num(o.p, {"M": "T", "m": "D"}[o.dt])
                return Num(topoly(atom("fn", "ticks", o.p)), "i")
            if isinstance(dtype, Const) and dtype.v in ("datetime64[us]", "M8[us]", "timedelta64[us]", "m8[us]"):
                return Num(o.p, o.dt, True)
            if isinstance(dtype, Const) and isinstance(dtype.v, str) and dtype.v[-2:] in ("s]", "m]", "h]"):
                u = UNITS.get(dtype.v.split("[")[1][:-1])
                if u is not None and u >= Fraction(1, 1000):
                    e = P.padd(o.p, P.pscale(EPOCH, Fraction(-1))) if o.dt == "M" else o.p
                    e = P.pmul(P.pscale(P.ffloor(P.pscale(seconds_of(e), 1 / Fraction(u))), Fraction(u)), SEC)
                    return Num(P.padd(e, EPOCH) if o.dt == "M" else e, o.dt, True)
            if dtype is not None and npmodels.dtag(I, dtype) == "o" and o.weak:
                return Num(o.p, {"M": "T", "m": "D"}[o.dt])
            I.unsupported("conversion of datetime64")
        return method(mconv, name)
    if o.dt == "T":
        if name == "replace" and P.single(o.p, "aware"):
            def naive(I, *a, **k):
                if not a and list(k) == ["tzinfo"] and is_none(k["tzinfo"]):
                    return Num(P.single(o.p, "aware").args[0], "T")
                return tmeth(I, *a, **k)
            return method(naive, name)

        def tmeth(I, *a, **k):
            ts = ("replace", "astimezone", "to_pydatetime")
            t = atom("tmeth", name, o.p, tuple(I.reify(x) for x in a), tuple((n, I.reify(k[n])) for n in sorted(k)))
            if name in ts:
                return Num(topoly(t), "T")
            return Opq(t, "str" if name in ("isoformat", "strftime", "ctime") else None)
        if name in ("isoformat", "strftime", "ctime", "replace", "timestamp", "date", "timetuple", "astimezone",
                    "utctimetuple", "weekday"):
            return method(tmeth, name)
        if name in ("year", "month", "day", "hour", "minute", "second", "microsecond"):
            return Num(topoly(atom("tattr", name, o.p)), "i")
        if name == "tzinfo":
            return Opq(atom("tattr", name, o.p))
        return None
    if name == "__index__" and o.dt == "i":
        return method(lambda I: o, name)
    if name in ("is_integer",) and o.dt in ("f8", "f4", "i"):
        return method(lambda I: boolv(P.eq(o.p, P.ffloor(o.p))), name)
    if o.weak:
        if name == "conjugate":
            return method(lambda I: npmodels.np_conj(I, o), name)
        if name in ("numerator", "denominator") and o.dt in ("i", "b"):
            return o if name == "numerator" else num(1)
        return None
    # numpy scalar
    if name == "shape":
        return Tup([])
    if name == "ndim":
        return num(0)
    if name == "size":
        return num(1)
    if name == "T":
        return o
    if name == "dtype":
        return Opq(atom("dtype", o.dt), "dtype")
    if name == "item":
        return method(lambda I: Num(o.p, o.dt, True), name)
    if name == "astype":
        return method(lambda I, dtype, **k: npmodels.astype(I, o, npmodels.dtag(I, dtype)), name)
    if name == "copy":
        return method(lambda I: o, name)
    if name == "flatten":
        return method(lambda I: npmodels.atleast_1d(I, o), name)
    if name in _METHODS:
        f = npmodels.TABLE["numpy." + _METHODS[name]]
        return method(lambda I, *a, **k: f(I, o, *a, **k), name)
    if name == "reshape":
        return method(lambda I, *s: npmodels.reshape(I, o, s[0] if len(s) == 1 else Tup(s)), name)
    return None


def str_maketrans(I, x, y=None, z=None):
    if all(isinstance(a, Const) and isinstance(a.v, str) for a in (x, y, z) if a is not None) and y is not None:
        if len(x.v) != len(y.v):
            I.raise_("ValueError", msg="the first two maketrans arguments must have equal length")
            return Opq(atom("dead"))
        t = str.maketrans(*[a.v for a in (x, y, z) if a is not None])
        return I.new_dict([(num(k), Const(None) if v is None else num(v)) for k, v in t.items()])
    return x if y is None else Opq(atom("maketrans", I.reify(x), I.reify(y)))


EXT["builtins.str.maketrans"] = str_maketrans


def str_attr(I, o, name):
    const = isinstance(o, Const)
    real = getattr(str, name, None)
    if real is None:
        return None

    def f(I, *a, **k):
        def go(*a):
            if const and all(isinstance(x, Const) for x in a) and all(isinstance(x, Const) for x in k.values()):
                try:
                    r = getattr(o.v, name)(*[x.v for x in a], **{n: x.v for n, x in k.items()})
                except ValueError:
                    I.raise_("ValueError")
                    return Opq(atom("dead"))
                except (TypeError, LookupError, AttributeError):
                    I.raise_("TypeError", msg="str.%s" % name)
                    return Opq(atom("dead"))
                return wrap(I, r)
            if name == "translate" and const and len(a) == 1:
                c = ops.content(I, a[0])
                if isinstance(c, DictC) and all(isinstance(x, Num) and x.p.const() is not None or isinstance(x, Const) and isinstance(x.v, str)
                                                for x, _ in c.items) \
                        and all(isinstance(x, Const) or isinstance(x, Num) and x.p.const() is not None for _, x in c.items):
                    def raw(x):
                        return int(x.p.const()) if isinstance(x, Num) else x.v
                    return Const(o.v.translate({raw(x) if isinstance(x, Num) else ord(x.v): raw(y) for x, y in c.items}))
            if name == "format":
                return str_format(I, o, a, k)
            if name == "join" and const and len(a) == 1:
                items = iterate(I, a[0])
                if isinstance(items, list) and all(isinstance(x, Const) and isinstance(x.v, str) for x in items):
                    return Const(o.v.join(x.v for x in items))
                if isinstance(items, list) and not any(isinstance(x, Seg) for x in items):
                    parts = []
                    for j, x in enumerate(items):
                        if j and o.v:
                            parts.append(o.v)
                        parts += str_parts(I, x)
                    return mkstr(parts)
            t = atom("smeth", name, I.reify(o), tuple(I.reify(x) for x in a),
                     tuple((n, I.reify(k[n])) for n in sorted(k)))
            if name in ("startswith", "endswith", "isdigit", "isalpha"):
                return boolv(topoly(atom("ind", "str", t)))
            if name in ("split", "rsplit", "splitlines", "partition"):
                return Opq(t)
            if name in ("find", "index", "count", "rfind"):
                return Num(topoly(t), "i")
            return Opq(t, "str")
        return I.liftn(list(a), go, False) if any(isinstance(x, Phi) for x in a) else go(*a)
    return method(f, "str." + name)


def str_parts(I, x):
    if isinstance(x, Const) and isinstance(x.v, str):
        return [x.v]
    if isinstance(x, Phi):
        a, b = (text_atom(y) for y in (x.a, x.b))
        if a is not None and b is not None:
            return str_parts(I, Num(ite(x.c, a, b), "o"))
        a, b = (I.reify(mkstr(str_parts(I, y))) for y in (x.a, x.b))
        return [a if a is b else atom("phi", x.c, a, b)]
    if isinstance(x, Num) and x.dt == "o":
        a = P.single(x.p, "pyconst")
        return [ast.literal_eval(a.args[0])] if a is not None else [x.p]
    if isinstance(x, Opq) and x.t.op == "str":
        return list(x.t.args[0]) if len(x.t.args) == 1 and isinstance(x.t.args[0], tuple) else [x.t]
    if isinstance(x, Opq) and x.tag == "str":
        return [x.t]
    return fmt_parts(I, x)


def text_of(x):
    """The text of a term, if it is constant."""
    if isinstance(x, Const) and isinstance(x.v, str):
        return x.v
    if isinstance(x, Num) and x.dt == "o":
        a = P.single(x.p, "pyconst")
        if a is not None:
            v = ast.literal_eval(a.args[0])
            return v if isinstance(v, str) else None
    return None


def fmt_parts(I, x, conv=-1, spec=None):
    """The parts of the text that an object is formatted as."""
    if isinstance(x, Arr):
        from . import arrays
        c = arrays.read(I, x)
        if not c.sizes:
            x = Num(c.body, c.dt)
    spec = spec or None
    if isinstance(spec, (str, type(None))):
        v = text_of(x)
        if v is None and isinstance(x, Const):
            v = x.v
        elif v is None and isinstance(x, Num) and x.dt in ("i", "b", "f8") and x.p.const() is not None:
            v = {"i": int, "b": bool, "f8": float}[x.dt](x.p.const())
        if isinstance(v, (str, int, float)) or v is None and isinstance(x, Const):
            v = repr(v) if conv == ord("r") else ascii(v) if conv == ord("a") else str(v) if conv == ord("s") else v
            try:
                return [format(v, spec or "")]
            except (ValueError, TypeError):
                I.raise_("ValueError", msg="invalid format specification")
                return [""]
    if conv in (-1, ord("s")) and spec is None:
        if isinstance(x, (Opq, Phi)) and (isinstance(x, Phi) or x.tag == "str"):
            return str_parts(I, x)
        if isinstance(x, Num) and x.dt == "o" and text_like(x.p):
            return [x.p]
        c = I.class_of(x)
        if c is not None:
            m = (conv == -1 and I.lookup_cls(c, "__format__")) or I.lookup_cls(c, "__str__") or I.lookup_cls(c, "__repr__")
            if m is not None:
                r = I.call(I.bind(m, x, c), [Const("")] if conv == -1 and I.lookup_cls(c, "__format__") else [], {})
                return str_parts(I, r)
    if conv == ord("r"):
        c = I.class_of(x)
        m = c is not None and I.lookup_cls(c, "__repr__")
        if m:
            return str_parts(I, I.call(I.bind(m, x, c), [], {}))
    if isinstance(x, Tup) and spec is None:
        out = ["("]
        for k, y in enumerate(x.items):
            if k:
                out.append(", ")
            out += fmt_parts(I, y, ord("r"))
        return out + [",)" if len(x.items) == 1 else ")"]
    kind = (x.dt[0] if isinstance(x.dt, str) else "") if isinstance(x, Num) else "t" if isinstance(x, Opq) and x.tag == "str" else ""
    if conv == ord("r") and kind in ("i", "f", "b"):
        conv = -1
    return [("fmt", I.reify(x), conv, spec, kind)]


def text_like(p):
    """Do all alternatives of the object term select text?"""
    for m, c in p.terms.items():
        rest = [(P.ATOMS[i], e) for i, e in m if not P.ATOMS[i].ind]
        if len(rest) != 1 or rest[0][1] != 1:
            return False
        a = rest[0][0]
        if not (a.op == "str" or a.op == "pyconst" and isinstance(ast.literal_eval(a.args[0]), str)):
            return False
    return bool(p.terms)


def text_atom(x):
    if isinstance(x, Const) and isinstance(x.v, str):
        return topoly(atom("pyconst", repr(x.v)))
    if isinstance(x, Num) and x.dt == "o":
        return x.p
    if isinstance(x, Phi):
        a, b = text_atom(x.a), text_atom(x.b)
        if a is not None and b is not None:
            return ite(x.c, a, b)
    return None


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    if not out:
        return Const("")
    if len(out) == 1 and isinstance(out[0], str):
        return Const(out[0])
    return Opq(atom("str", tuple(out)), "str")


def str_format(I, o, a, k):
    if not isinstance(o, Const):
        return Opq(atom("smeth", "format", o.t, tuple(I.reify(x) for x in a),
                        tuple((n, I.reify(k[n])) for n in sorted(k))), "str")
    import string
    parts = []
    auto = 0
    try:
        fields = list(string.Formatter().parse(o.v))
    except ValueError:
        I.raise_("ValueError", msg="bad format string")
        return Opq(atom("dead"))
    for lit, field, spec, conv in fields:
        if lit:
            parts.append(lit)
        if field is None:
            continue
        import re
        m = re.match(r"[^.\[]*", field)
        head, rest = m.group(0), field[m.end():]
        if head == "":
            key = auto
            auto += 1
        else:
            key = int(head) if head.isdigit() else head
        if isinstance(key, int):
            if key >= len(a):
                I.raise_("IndexError", msg="format argument missing")
                return Opq(atom("dead"))
            v = a[key]
        else:
            if key not in k:
                I.raise_("KeyError", msg="format argument missing")
                return Opq(atom("dead"))
            v = k[key]
        for p in re.findall(r"\.(\w+)|\[(\w+)\]", rest):
            v = I.getattr(v, p[0]) if p[0] else I.getitem(v, num(int(p[1])) if p[1].isdigit() else Const(p[1]))
        if spec and "{" in spec:
            I.unsupported("nested format specification")
        c = {None: -1, "r": ord("r"), "s": ord("s"), "a": ord("a")}[conv]
        if isinstance(v, Phi):
            v = I.lift(v, lambda y: mkstr(fmt_parts(I, y, c, spec or None)))
            parts += str_parts(I, v)
        else:
            parts += fmt_parts(I, v, c, spec or None)
    return mkstr(parts)


def wrap(I, r):
    if isinstance(r, (bool, int, float)):
        return num(r)
    if isinstance(r, str) or r is None:
        return Const(r)
    if isinstance(r, tuple):
        return Tup([wrap(I, x) for x in r])
    if isinstance(r, list):
        return I.new_list([wrap(I, x) for x in r])
    if isinstance(r, dict):
        return I.new_dict([(wrap(I, x), wrap(I, y)) for x, y in r.items()])
    return Const(r)


def tup_attr(I, o, name):
    if name == "index":
        def index(I, x):
            return list_index(I, list(o.items), x)
        return method(index, "tuple.index")
    if name == "count":
        return method(lambda I, x: list_count(I, list(o.items), x), "tuple.count")
    return None


def list_index(I, items, x):
    r = None
    any_ = ZERO
    for k, y in reversed(list(enumerate(items))):
        c = I.truth(I.compare("Eq", y, x))
        any_ = OR(any_, c)
        r = num(k) if r is None else I.phi(c, num(k), r)
    I.raise_if(NOT(any_), "ValueError", msg="value is not in list")
    return r if r is not None else num(0)


def list_count(I, items, x):
    n = ZERO
    for y in items:
        n = P.padd(n, I.truth(I.compare("Eq", y, x)))
    return Num(n, "i")


def seq_attr(I, o, name):
    if o.obj:
        a = npmodels.to_array(I, o)
        return arr_attr(I, a, name)
    return None


def list_attr(I, o, name):
    def mut(f):
        def g(I, *a, **k):
            return I.with_content(o, lambda c: f(I, c, *a, **k))
        return method(g, "list." + name)
    if name == "append":
        return mut(lambda I, c, x: I.set_list(o, c, c.items + (x,)) or NONE)
    if name == "extend":
        def extend(I, c, x):
            if isinstance(x, Phi):
                I.split(x.c, lambda: I.with_content(o, lambda c: extend(I, c, x.a)),
                        lambda: I.with_content(o, lambda c: extend(I, c, x.b)))
                return NONE
            if isinstance(x, Ref) and type(I.heap[x.id]).__name__ == "PhiC":
                return I.with_content(x, lambda c2: I.with_content(o, lambda c: extend(I, c, x)))
            I.set_list(o, c, c.items + tuple(I.list_segments(x)))
            return NONE
        return mut(extend)
    if name == "insert":
        def insert(I, c, k, x):
            k = k.p.const()
            if k is None or any(isinstance(y, Seg) for y in c.items):
                I.unsupported("list.insert")
            l = list(c.items)
            l.insert(int(k), x)
            I.set_list(o, c, l)
            return NONE
        return mut(insert)
    if name == "pop":
        def pop(I, c, k=None):
            l = list(c.items)
            if not l:
                I.raise_("IndexError", msg="pop from empty list")
                return NONE
            k = -1 if k is None else int(k.p.const())
            x = l[k]
            if isinstance(x, Seg) or (k != -1 and any(isinstance(y, Seg) for y in l)):
                I.unsupported("list.pop of a symbolic list")
            del l[k]
            I.set_list(o, c, l)
            return x
        return mut(pop)
    if name == "clear":
        return mut(lambda I, c: I.set_list(o, c, ()) or NONE)
    if name == "reverse":
        def rev(I, c):
            I.set_list(o, c, [Seg(b_reversed(I, x.v)) if isinstance(x, Seg) else x for x in reversed(c.items)])
            return NONE
        return mut(rev)
    if name == "copy":
        return mut(lambda I, c: I.new_list(c.items))
    if name == "index":
        return mut(lambda I, c, x: list_index(I, list(c.items), x))
    if name == "count":
        return mut(lambda I, c, x: list_count(I, list(c.items), x))
    if name == "sort":
        def sort(I, c, key=None, reverse=None):
            r = b_sorted(I, o, key, reverse)
            I.set_list(o, c, I.heap[r.id].items if isinstance(r, Ref) else [Seg(r)])
            return NONE
        return mut(sort)
    if name == "remove":
        I.unsupported("list.remove")
    if name in ("__len__", "__getitem__", "__iter__"):
        return {"__len__": method(lambda I: b_len(I, o), name),
                "__getitem__": method(lambda I, i: I.getitem(o, i), name),
                "__iter__": method(lambda I: b_iter(I, o), name)}[name]
    return None


def dict_attr(I, o, name):
    def m(f):
        def g(I, *a, **k):
            return I.with_content(o, lambda c: f(I, c, *a, **k))
        return method(g, "dict." + name)
    if name == "items":
        return m(lambda I, c: Tup([Tup(x) for x in c.items]))
    if name == "keys":
        return m(lambda I, c: Tup([k for k, _ in c.items]))
    if name == "values":
        return m(lambda I, c: Tup([v for _, v in c.items]))
    if name == "get":
        def get(I, c, k, d=None):
            return I.lift(k, lambda k: I.dict_get(o, c, k, d if d is not None else NONE))
        return m(get)
    if name == "pop":
        def pop(I, c, k, d=None):
            v = I.dict_get(o, c, k, d)
            I.note_write(c.origin, "dict.pop")
            if isinstance(c, ViewC):
                I.unsupported("removal of attributes through __dict__")
            I.heap[o.id] = DictC([(kk, vv) for kk, vv in c.items if not I.same(kk, k)], c.origin)
            return v
        return m(pop)
    if name == "setdefault":
        def setdefault(I, c, k, d=None):
            if any(I.same(kk, k) for kk, _ in c.items):
                return I.dict_get(o, c, k)
            d = NONE if d is None else d

            def absent():
                I.note_write(c.origin, "dict.setdefault")
                I.dict_set(o, k, d)
                return d
            e = ops.contains(I, k, o)
            if e is ZERO:
                return absent()
            return I.split(e, lambda: I.dict_get(o, c, k), absent)
        return m(setdefault)
    if name == "update":
        def update(I, c, other=None, **kw):
            I.note_write(c.origin, "dict.update")
            if other is not None:
                for k, v in I.dict_items(other):
                    I.dict_set(o, k, v)
            for k, v in kw.items():
                I.dict_set(o, Const(k), v)
            return NONE
        return m(update)
    if name == "copy":
        return m(lambda I, c: I.new_dict(c.items))
    if name == "clear":
        def clear(I, c):
            I.note_write(c.origin, "dict.clear")
            if isinstance(c, ViewC):
                I.unsupported("removal of attributes through __dict__")
            I.heap[o.id] = DictC((), c.origin)
            return NONE
        return m(clear)
    if name == "__contains__":
        return m(lambda I, c, k: boolv(ops.contains(I, k, o)))
    if name == "__getitem__":
        return m(lambda I, c, k: I.getitem(o, k))
    return None


def set_attr(I, o, name):
    if name == "add":
        def add(I, x):
            c = I.heap[o.id]
            if not any(I.same(x, y) for y in c.items):
                I.heap[o.id] = SetC(c.items + (x,), c.origin)
            return NONE
        return method(add, "set.add")
    if name in ("union", "intersection", "difference", "update", "discard", "remove", "issubset", "issuperset"):
        def f(I, *a):
            if name in ("update", "discard", "remove"):
                I.unsupported("set." + name)
            return Opq(atom("setmeth", name, I.reify(o), tuple(I.reify(x) for x in a)))
        return method(f, "set." + name)
    return None


def base_attr(I, b, o, name):
    """Attributes inherited from external base classes."""
    n = b.path.split(".")[-1]
    if n in ("Sequence", "MutableSequence"):
        if name == "__iter__":
            return method(lambda I: b_iter(I, o), name)
        if name == "__contains__":
            return method(lambda I, x: quantify(I, Tup([I.compare("Eq", y, x) for y in iterate(I, o)]), False), name)
        if name == "__reversed__":
            return method(lambda I: b_reversed(I, o), name)
        if name == "index":
            def index(I, x):
                return list_index(I, iterate(I, o), x)
            return method(index, name)
        if name == "count":
            return method(lambda I, x: list_count(I, iterate(I, o), x), name)
        return None
    if b.path == "builtins.object":
        return None
    return None
