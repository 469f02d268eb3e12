"""Abstract values of the value-graph analysis.

Everything mutable (frames, lists, dicts, instances, array buffers) lives in a
heap that maps cell ids to immutable contents, so control-flow joins are joins
of heaps.  Scalars and array elements are polynomials (see poly.py).
"""

from fractions import Fraction

from . import poly as P
from .poly import Poly, Atom


class V:
    __slots__ = ()


class Num(V):
    """A scalar: polynomial value, dtype tag and the 'Python scalar' flag.

    dtype tags: b i f4 f8 c8 c16, T (datetime), D (timedelta), o (unknown)
    """
    __slots__ = ("p", "dt", "weak")

    def __init__(self, p, dt="f8", weak=True):
        self.p = p if isinstance(p, Poly) else P.topoly(p)
        self.dt = dt
        self.weak = weak

    def __repr__(self):
        return "Num(%r:%s)" % (self.p, self.dt)


class Const(V):
    """None, strings, Ellipsis, NotImplemented, bytes"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Const(%r)" % (self.v,)


NONE = Const(None)
ELLIPSIS = Const(Ellipsis)
NOTIMPL = Const(NotImplemented)


class Tup(V):
    __slots__ = ("items", "name")

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Ref(V):
    """Reference to a heap cell holding ListC, DictC, SetC or InstC"""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return "Ref(%d)" % self.id


class Arr(V):
    """Reference to (a view of) an array buffer.

    view is None (whole buffer) or a View.
    """
    __slots__ = ("id", "sizes", "view")

    def __init__(self, id, sizes, view=None):
        self.id = id
        self.sizes = tuple(sizes)
        self.view = view

    def __repr__(self):
        return "Arr(%d, %s)" % (self.id, self.sizes)


class View:
    """maps: one entry per buffer axis: ("fix", Poly) or ("aff", vaxis, start, step)

    vaxis counts view axes from the left.
    """
    __slots__ = ("maps",)

    def __init__(self, maps):
        self.maps = tuple(maps)


class Func(V):
    __slots__ = ("node", "frame", "defaults", "kwdefaults", "name", "module", "cls", "attrs", "deco")

    def __init__(self, node, frame, defaults, kwdefaults, name, module, cls=None):
        self.node = node
        self.frame = frame          # heap id of the defining frame
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.module = module
        self.cls = cls
        self.attrs = None           # heap id of the function's attributes
        self.deco = None

    def __repr__(self):
        return "Func(%s)" % self.name


class Native(V):
    """A function modelled in Python: fn(interp, *args, **kwargs)"""
    __slots__ = ("fn", "name", "data")

    def __init__(self, fn, name, data=None):
        self.fn = fn
        self.name = name
        self.data = data

    def __repr__(self):
        return "Native(%s)" % self.name


class Bound(V):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return "Bound(%r, %r)" % (self.func, self.self)


class Partial(V):
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = tuple(args)
        self.kwargs = dict(kwargs)


class Prop(V):
    __slots__ = ("fget", "fset")

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class CProp(V):
    """functools.cached_property"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ClsMeth(V):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class StaticMeth(V):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Memo(V):
    """functools.lru_cache / cache wrapper; results live in a heap cell"""
    __slots__ = ("f", "cell")

    def __init__(self, f, cell):
        self.f = f
        self.cell = cell


class Cls(V):
    __slots__ = ("name", "bases", "frame", "module", "node", "mro")

    def __init__(self, name, bases, frame, module, node):
        self.name = name
        self.bases = bases
        self.frame = frame
        self.module = module
        self.node = node

    def __repr__(self):
        return "Cls(%s)" % self.name


class Mod(V):
    __slots__ = ("name", "frame", "path")

    def __init__(self, name, frame, path):
        self.name = name
        self.frame = frame
        self.path = path

    def __repr__(self):
        return "Mod(%s)" % self.name


class Ext(V):
    """Attribute of a third-party or standard library module"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path


class Super(V):
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class Opq(V):
    """Unknown value identified by a term; tag optionally names its type."""
    __slots__ = ("t", "tag")

    def __init__(self, t, tag=None):
        self.t = t
        self.tag = tag

    def __repr__(self):
        return "Opq(%s)" % P.show_atom(self.t)


class Phi(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return "Phi(%r, %r, %r)" % (self.c, self.a, self.b)


class Undef(V):
    __slots__ = ()

    def __repr__(self):
        return "Undef"


UNDEF = Undef()


class Slc(V):
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start = start
        self.stop = stop
        self.step = step


class Seq(V):
    """Sequence of symbolic length n with generic element elem(var).

    obj=True marks a one-dimensional numpy object array.
    """
    __slots__ = ("n", "var", "elem", "obj")

    def __init__(self, n, var, elem, obj=False):
        self.n = n
        self.var = var
        self.elem = elem
        self.obj = obj

    def __repr__(self):
        return "Seq(%r, %r: %r)" % (self.n, self.var, self.elem)


# --- heap contents ---------------------------------------------------------

class ArrC:
    __slots__ = ("sizes", "body", "dt", "origin")

    def __init__(self, sizes, body, dt, origin=None):
        self.sizes = tuple(sizes)
        self.body = body
        self.dt = dt
        self.origin = origin


class ListC:
    """items: values and Seq segments (wrapped in Seg)"""
    __slots__ = ("items", "origin")

    def __init__(self, items, origin=None):
        self.items = tuple(items)
        self.origin = origin


class Seg:
    """A sequence value spliced into a list"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class SetC:
    __slots__ = ("items", "origin")

    def __init__(self, items, origin=None):
        self.items = tuple(items)
        self.origin = origin


class DictC:
    __slots__ = ("items", "origin")

    def __init__(self, items, origin=None):
        self.items = tuple(items)      # ((key V, value V), ...)
        self.origin = origin


class ViewC(DictC):
    """Attributes of an instance as a dictionary (writes go to the instance)."""
    __slots__ = ("I", "target")

    def __init__(self, I, target):
        self.I, self.target = I, target
        self.origin = I.heap[target.id].origin

    @property
    def items(self):
        c = self.I.heap[self.target.id]
        if not isinstance(c, InstC):
            self.I.unsupported("__dict__ of an object whose attributes depend on conditions")
        for v in c.attrs.values():
            while isinstance(v, Phi):
                if v.a is UNDEF or v.b is UNDEF:
                    self.I.unsupported("__dict__ of an object with conditional attributes")
                v = v.b
        return tuple((Const(k), v) for k, v in c.attrs.items())


class MemoC:
    """Stored results of a cached function: (guard, arguments, keyword names, result)"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class InstC:
    __slots__ = ("cls", "attrs", "origin")

    def __init__(self, cls, attrs, origin=None):
        self.cls = cls
        self.attrs = attrs
        self.origin = origin


class FrameC:
    __slots__ = ("vars", "parent", "kind")

    def __init__(self, vars, parent, kind):
        self.vars = vars
        self.parent = parent
        self.kind = kind


def num(x, dt=None, weak=True):
    if isinstance(x, bool):
        return Num(P.const(int(x)), "b", weak)
    if isinstance(x, int):
        return Num(P.const(x), dt or "i", weak)
    if isinstance(x, float):
        if x != x:
            return Num(P.topoly(P.atom("nan")), "f8", weak)
        if x in (float("inf"), float("-inf")):
            return Num(P.INF if x > 0 else -P.INF, "f8", weak)
        return Num(P.const(Fraction(repr(x))), dt or "f8", weak)
    if isinstance(x, complex):
        return Num(P.const(Fraction(repr(x.real))) + P.I * P.const(Fraction(repr(x.imag))), "c16", weak)
    return Num(x, dt or "f8", weak)


TRUE = Num(P.ONE, "b")
FALSE = Num(P.ZERO, "b")


def boolv(p):
    return Num(p, "b")


def is_none(v):
    return isinstance(v, Const) and v.v is None


_RANK = {"b": 0, "i": 1, "f4": 2, "f8": 3, "c8": 4, "c16": 5}


def promote(d1, w1, d2, w2):
    """numpy 2 type promotion of (dtype, weak) pairs -> (dtype, weak)"""
    if d1 == "o" or d2 == "o":
        return "o", w1 and w2
    if d1 in ("T", "D", "M", "m") or d2 in ("T", "D", "M", "m"):
        return (d1 if d1 in ("T", "D", "M", "m") else d2), True
    if w1 == w2:
        if w1:
            d = d1 if _RANK[d1] >= _RANK[d2] else d2
            return d, True
        return _prom(d1, d2), False
    if w1:
        d1, w1, d2, w2 = d2, w2, d1, w1
    # d1 strong, d2 weak
    if d2 == "b":
        return d1, False
    if d2 == "i":
        return ("i" if d1 == "b" else d1), False
    if d2 in ("f4", "f8"):
        return ("f8" if d1 in ("b", "i") else d1), False
    return {"b": "c16", "i": "c16", "f4": "c8", "f8": "c16"}.get(d1, d1), False


def _prom(a, b):
    if a == b:
        return a
    if _RANK[a] > _RANK[b]:
        a, b = b, a
    # a lower
    if a in ("b",):
        return b
    if a == "i":
        return {"f4": "f8", "f8": "f8", "c8": "c16", "c16": "c16"}[b]
    if a == "f8" and b == "c8":
        return "c16"
    return b
