"""Operators of the abstract values."""

from fractions import Fraction

from . import arrays, poly as P
from .poly import ONE, ZERO, AND, OR, NOT, ite, atom, topoly
from .values import *
from .values import Num, Const

_NUM = ("b", "i", "f4", "f8", "c8", "c16", "o")


def content(I, v):
    return I.heap[v.id] if isinstance(v, Ref) else None


def truth(I, v):
    if isinstance(v, Phi):
        def f(x):
            return Num(truth(I, x), "b")
        r = I.split(v.c, lambda: f(v.a) if not isinstance(v.a, Phi) else f(v.a), lambda: f(v.b))
        return r.p if isinstance(r, Num) else topoly(atom("truth", I.reify(r)))
    if isinstance(v, Num):
        if v.dt == "b":
            return v.p
        if v.dt == "o":
            return truth_term(I, I.reify(v))
        return NOT(P.eq(v.p, ZERO))
    if isinstance(v, Const):
        return ONE if v.v else ZERO
    if isinstance(v, (Tup,)):
        return ONE if v.items else ZERO
    if isinstance(v, Arr):
        if all(n is ONE for n in v.sizes):
            c = arrays.read(I, v)
            return truth(I, Num(c.body, c.dt))
        if all(P.sign(P.padd(n, P.const(-1))) == 1 for n in v.sizes if n is not ONE):
            I.raise_("ValueError", msg="truth value of an array is ambiguous")
            return ZERO
        c = arrays.read(I, v)
        return topoly(atom("truth", I.reify(v)))
    if isinstance(v, Seq):
        return P.lt(ZERO, v.n)
    if isinstance(v, Opq):
        return truth_term(I, v.t)
    if isinstance(v, Ref):
        c = content(I, v)
        if type(c).__name__ == "PhiC":
            r = I.with_content(v, lambda c: Num(truth(I, v), "b"))
            return r.p
        if isinstance(c, (ListC, SetC, DictC)):
            n = length(I, v)
            return P.lt(ZERO, n)
        if isinstance(c, InstC):
            m = I.lookup_cls(c.cls, "__bool__")
            if m is not None:
                return truth(I, I.call(I.bind(m, v, c.cls), [], {}))
            m = I.lookup_cls(c.cls, "__len__")
            if m is not None:
                return truth(I, I.call(I.bind(m, v, c.cls), [], {}))
            return ONE
    return ONE


def truth_term(I, t):
    if isinstance(t, P.Poly):
        if len(t.terms) == 1:
            (m, c), = t.terms.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return topoly(atom("truth", P.ATOMS[m[0][0]]))
        return topoly(atom("truth", t))
    return topoly(atom("truth", t))


def length(I, v):
    """Length as a polynomial (None if it has none)."""
    if isinstance(v, Tup):
        return P.const(len(v.items))
    if isinstance(v, Const) and isinstance(v.v, str):
        return P.const(len(v.v))
    if isinstance(v, Seq):
        return v.n
    if isinstance(v, Arr):
        if not v.sizes:
            return None
        return v.sizes[0]
    if isinstance(v, Opq):
        return topoly(atom("len", v.t))
    if isinstance(v, Ref):
        c = content(I, v)
        if isinstance(c, (ListC, SetC)):
            n = P.const(sum(1 for x in c.items if not isinstance(x, Seg)))
            for x in c.items:
                if isinstance(x, Seg):
                    n = P.padd(n, length(I, x.v))
            return n
        if isinstance(c, DictC):
            return P.const(len(c.items))
        if isinstance(c, InstC):
            m = I.lookup_cls(c.cls, "__len__")
            if m is not None:
                r = I.call(I.bind(m, v, c.cls), [], {})
                return r.p if isinstance(r, Num) else topoly(I.reify(r))
    return None


# --- arithmetic ------------------------------------------------------------

def dt_arith(op):
    def f(*dts):
        if len(dts) == 1:
            return dts[0]
        (d1, w1), (d2, w2) = dts
        d, w = promote(d1, w1, d2, w2)
        if d == "b" and op in ("Add", "Sub", "Mult", "Pow", "FloorDiv", "Mod"):
            if w or op in ("Pow", "FloorDiv", "Mod"):
                d = "i"
        if op == "Div":
            if d in ("b", "i"):
                d = "f8"
        if op == "Pow" and d == "i":
            pass
        return d, w
    return f


def same_dt(*dts):
    d, w = dts[0]
    for d2, w2 in dts[1:]:
        d, w = promote(d, w, d2, w2)
    return d, w


def float_dt(*dts):
    d, w = same_dt(*dts)
    return ("f8" if d in ("b", "i") else d), False


def bool_dt(*dts):
    return "b", all(w for _, w in dts)


def f_add(a, b):
    return P.padd(a, b)


def f_sub(a, b):
    return P.padd(a, P.pscale(b, Fraction(-1)))


def f_mul(a, b):
    if P.inf_split(a)[0].terms or P.inf_split(b)[0].terms:
        return P.inf_mul(a, b)
    return P.pmul(a, b)


def f_div(a, b):
    return f_mul(a, P.pinv(b))


def f_floordiv(a, b):
    return P.ffloor(f_div(a, b))


def f_or(a, b):
    return OR(a, b)


def f_xor(a, b):
    return P.padd(P.padd(a, b), P.pscale(P.pmul(a, b), Fraction(-2)))


FUN = {"Add": f_add, "Sub": f_sub, "Mult": f_mul, "Div": f_div, "FloorDiv": f_floordiv,
       "Mod": P.fmod, "Pow": P.power}

DUNDER = {"Add": ("__add__", "__radd__"), "Sub": ("__sub__", "__rsub__"), "Mult": ("__mul__", "__rmul__"),
          "Div": ("__truediv__", "__rtruediv__"), "FloorDiv": ("__floordiv__", "__rfloordiv__"),
          "Mod": ("__mod__", "__rmod__"), "Pow": ("__pow__", "__rpow__"), "MatMult": ("__matmul__", "__rmatmul__"),
          "BitAnd": ("__and__", "__rand__"), "BitOr": ("__or__", "__ror__"), "BitXor": ("__xor__", "__rxor__")}


def numeric(I, v):
    """View a value as an operand of arithmetic, or None."""
    if isinstance(v, (Num, Arr)):
        return v
    if isinstance(v, Seq) and v.obj:
        return v
    if isinstance(v, Opq):
        if v.tag == "str":
            return None
        return Num(topoly(v.t), "o")
    return None


def dt_of(I, v):
    if isinstance(v, Num):
        return v.dt
    if isinstance(v, Arr):
        return I.heap[v.id].dt
    return "o"


def binop(I, op, a, b):
    if isinstance(a, Phi) or isinstance(b, Phi):
        return I.lift2(a, b, lambda x, y: binop(I, op, x, y))
    for v in (a, b):
        if isinstance(v, Ref) and type(content(I, v)).__name__ == "PhiC":
            return I.with_content(v, lambda c: binop(I, op, a, b))
    ca, cb = content(I, a), content(I, b)
    # overloaded operators
    if isinstance(ca, InstC) or isinstance(cb, InstC):
        return overloaded(I, op, a, b, ca, cb)
    if op == "BitOr" and (isinstance(a, (Cls, Ext)) and isinstance(b, (Cls, Ext, Const))):
        return Tup([a, b])      # union type
    x, y = numeric(I, a), numeric(I, b)
    # lists and objects converted by numpy in mixed operations
    if isinstance(x, (Arr, Seq)) and isinstance(cb, ListC):
        from . import npmodels
        y = npmodels.to_array(I, b)
    if isinstance(y, (Arr, Seq)) and isinstance(ca, ListC):
        from . import npmodels
        x = npmodels.to_array(I, a)
    if isinstance(x, Arr) and isinstance(b, Tup):
        from . import npmodels
        y = npmodels.to_array(I, b)
    if isinstance(y, Arr) and isinstance(a, Tup):
        from . import npmodels
        x = npmodels.to_array(I, a)
    if x is not None and y is not None:
        return num_binop(I, op, x, y)
    # sequences and strings
    if op == "Add":
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(ca, ListC) and isinstance(cb, ListC):
            return I.new_list(ca.items + cb.items)
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(a.v, str) and isinstance(b.v, str):
            return Const(a.v + b.v)
        if is_str(a) and is_str(b):
            from . import models
            return models.mkstr(models.str_parts(I, a) + models.str_parts(I, b))
    if op == "Mult":
        for s, n in ((a, b), (b, a)):
            cs = content(I, s)
            if isinstance(n, Num) and n.dt in ("i", "b"):
                k = n.p.const()
                if isinstance(s, Const) and isinstance(s.v, str) and k is not None:
                    return Const(s.v * int(k))
                if isinstance(s, Tup) and k is not None:
                    return Tup(s.items * max(0, int(k)))
                if isinstance(cs, ListC):
                    if k is not None:
                        return I.new_list(cs.items * max(0, int(k)))
                    if len(cs.items) == 1 and not isinstance(cs.items[0], Seg):
                        v = P.fresh_var(n.p)
                        return I.new_list([Seg(Seq(n.p, v, cs.items[0]))])
                    return I.new_list([Seg(Opq(atom("replicate", I.reify(s), n.p)))])
    if op == "Mod" and is_str(a):
        return Opq(atom("str", (I.reify(a), "%", I.reify(b))), "str")
    if isinstance(ca, SetC) and isinstance(cb, SetC):
        return Opq(atom("setop", op, I.reify(a), I.reify(b)))
    if isinstance(ca, DictC) and isinstance(cb, DictC) and op == "BitOr":
        r = I.new_dict(ca.items)
        for k, v in cb.items:
            I.dict_set(r, k, v)
        return r
    if isinstance(a, Opq) or isinstance(b, Opq):
        return Opq(atom("binop", op, I.reify(a), I.reify(b)))
    I.raise_("TypeError", msg="unsupported operand types for %s: %r, %r" % (op, a, b))
    return Opq(atom("dead"))


def is_str(v):
    return isinstance(v, Const) and isinstance(v.v, str) or isinstance(v, Opq) and v.tag == "str"


def overloaded(I, op, a, b, ca, cb):
    names = DUNDER.get(op)
    if names is None:
        I.raise_("TypeError")
        return Opq(atom("dead"))

    def reflected():
        if isinstance(cb, InstC):
            m = I.lookup_cls(cb.cls, names[1])
            if m is not None:
                r = I.call(I.bind(m, b, cb.cls), [a], {})
                if not (isinstance(r, Const) and r.v is NotImplemented):
                    return r
        I.raise_("TypeError", msg="unsupported operand types for %s" % op)
        return Opq(atom("dead"))
    if isinstance(ca, InstC):
        m = I.lookup_cls(ca.cls, names[0])
        if m is not None:
            r = I.call(I.bind(m, a, ca.cls), [b], {})

            def fin(r):
                if isinstance(r, Const) and r.v is NotImplemented:
                    return reflected()
                return r
            return I.lift(r, fin)
    return reflected()


def num_binop(I, op, x, y):
    dx, dy = dt_of(I, x), dt_of(I, y)
    if dx in _TIMES or dy in _TIMES:
        return time_binop(I, op, x, y, dx, dy)
    if op in FUN:
        f = FUN[op]
        if op in ("Mod", "FloorDiv") and ("c8" in (dx, dy) or "c16" in (dx, dy)):
            I.raise_("TypeError", msg="complex %s" % op)
            return Opq(atom("dead"))
        if op == "Sub" and dx == "b" and dy == "b" and (isinstance(x, Arr) or isinstance(y, Arr)):
            I.raise_("TypeError", msg="numpy boolean subtract")
            return Opq(atom("dead"))
        if op == "Add" and dx == "b" and dy == "b" and (isinstance(x, Arr) or isinstance(y, Arr)):
            return arrays.elementwise(I, f_or, bool_dt, x, y)
        if op == "Mult" and dx == "b" and dy == "b" and (isinstance(x, Arr) or isinstance(y, Arr)):
            return arrays.elementwise(I, f_mul, bool_dt, x, y)
        if op == "Pow":
            note_power(I, x, y, dx, dy)
        if op in ("Div", "FloorDiv", "Mod") and isinstance(x, Num) and isinstance(y, Num) and x.weak and y.weak \
                and y.p is ZERO:
            I.raise_("ZeroDivisionError")
            return Opq(atom("dead"))
        return arrays.elementwise(I, f, dt_arith(op), x, y)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if dx == "b" and dy == "b":
            f = {"BitAnd": AND, "BitOr": f_or, "BitXor": f_xor}[op]
            return arrays.elementwise(I, f, bool_dt, x, y)
        if "o" in (dx, dy):
            if dx in ("b", "o") and dy in ("b", "o"):
                return Opq(atom("binop", op, I.reify(x), I.reify(y)))
        if dx in ("b", "i") and dy in ("b", "i"):
            return arrays.elementwise(I, lambda p, q: topoly(atom("fn", op, *sorted((p, q), key=lambda z: z.uid))),
                                      same_dt, x, y)
        I.raise_("TypeError", msg="bit operation on non-integers")
        return Opq(atom("dead"))
    if op == "MatMult":
        from . import npmodels
        return npmodels.matmul(I, x, y)
    return arrays.elementwise(I, lambda p, q: topoly(atom("fn", op, p, q)), same_dt, x, y)


def note_power(I, x, y, dx, dy):
    """Record powers evaluated in single precision (range analysis)."""
    if dx in ("c8", "f4"):
        I.narrow_powers.append((I.pc, dx, I.reify(y) if isinstance(y, Num) else None, I.loc))


# datetime, timedelta and their numpy counterparts
_TIMES = ("T", "D", "M", "m")


def time_binop(I, op, x, y, dx, dy):
    ok = None
    if dx in ("M", "m") or dy in ("M", "m"):
        up = {"T": "M", "D": "m"}
        r = time_binop_dt(op, {"M": "T", "m": "D"}.get(dx, dx), {"M": "T", "m": "D"}.get(dy, dy))
        ok = up.get(r, r)
    else:
        ok = time_binop_dt(op, dx, dy)
    if ok is None:
        I.raise_("TypeError", msg="unsupported operand types for %s: %s, %s" % (op, tname(dx), tname(dy)))
        return Opq(atom("dead"))
    return arrays.elementwise(I, FUN[op], lambda *d: (ok, True), x, y)


def time_binop_dt(op, dx, dy):
    ok = None
    if op == "Add":
        ok = {("T", "D"): "T", ("D", "T"): "T", ("D", "D"): "D"}.get((dx, dy))
    elif op == "Sub":
        ok = {("T", "T"): "D", ("T", "D"): "T", ("D", "D"): "D"}.get((dx, dy))
    elif op == "Mult":
        if dx == "D" and dy in _NUM[:4]:
            ok = "D"
        if dy == "D" and dx in _NUM[:4]:
            ok = "D"
    elif op == "Div":
        if dx == "D" and dy in _NUM[:4]:
            ok = "D"
        if dx == "D" and dy == "D":
            ok = "f8"
    elif op in ("FloorDiv", "Mod"):
        if dx == "D" and dy == "D":
            ok = "D" if op == "Mod" else "i"
    if "o" in (dx, dy):
        ok = "o"
    return ok


def tname(d):
    return {"T": "datetime", "D": "timedelta", "M": "datetime64", "m": "timedelta64"}.get(d, "number")


def unop(I, op, a):
    if isinstance(a, Phi):
        return I.lift(a, lambda x: unop(I, op, x), True)
    c = content(I, a)
    if isinstance(c, InstC):
        nm = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
        m = I.lookup_cls(c.cls, nm)
        if m is not None:
            return I.call(I.bind(m, a, c.cls), [], {})
    if isinstance(c, ListC):
        I.raise_("TypeError", msg="bad operand type for unary %s" % op)
        return Opq(atom("dead"))
    x = numeric(I, a)
    if x is None:
        I.raise_("TypeError", msg="bad operand type for unary %s: %r" % (op, a))
        return Opq(atom("dead"))
    if op == "USub":
        return arrays.elementwise(I, lambda p: -p, lambda d: (("i" if d[0] == "b" else d[0]), d[1]), x)
    if op == "UAdd":
        return arrays.elementwise(I, lambda p: p, lambda d: d, x)
    d = dt_of(I, x)
    if d == "b" and not (isinstance(x, Num) and x.weak):
        return arrays.elementwise(I, NOT, lambda d: d, x)
    if d in ("b", "i"):
        return arrays.elementwise(I, lambda p: -p - 1, lambda d: ("i", d[1]), x)
    return arrays.elementwise(I, lambda p: topoly(atom("fn", "invert", p)), lambda d: d, x)


# --- comparison ------------------------------------------------------------

def compare(I, op, a, b):
    if isinstance(a, Phi) or isinstance(b, Phi):
        return I.lift2(a, b, lambda x, y: compare(I, op, x, y))
    for v in (a, b):
        if isinstance(v, Ref) and type(content(I, v)).__name__ == "PhiC" and op not in ("Is", "IsNot"):
            return I.with_content(v, lambda c: compare(I, op, a, b))
    if op in ("Is", "IsNot"):
        c = identity(I, a, b)
        return boolv(c if op == "Is" else NOT(c))
    if op in ("In", "NotIn"):
        c = contains(I, a, b)
        if op == "NotIn":
            return boolv(NOT(c))
        return boolv(c)
    if op in ("Eq", "NotEq"):
        r = equality(I, a, b)
        if op == "NotEq":
            ca = content(I, a)
            if isinstance(ca, InstC):
                m = I.lookup_cls(ca.cls, "__ne__")
                if m is not None:
                    return I.call(I.bind(m, a, ca.cls), [b], {})
            if isinstance(r, Num) or isinstance(r, Arr):
                return arrays.elementwise(I, NOT, bool_dt, r if not isinstance(r, Num) or r.dt == "b" else boolv(truth(I, r)))
            return boolv(NOT(truth(I, r)))
        return r
    return ordering(I, op, a, b)


def identity(I, a, b):
    if isinstance(a, Const) and isinstance(b, Const):
        return ONE if a.v is b.v or (a.v == b.v and type(a.v) is type(b.v)) else ZERO
    if I.same(a, b):
        return ONE
    if isinstance(a, Opq) and isinstance(b, Const):
        return opq_const(I, a, b)
    if isinstance(b, Opq) and isinstance(a, Const):
        return opq_const(I, b, a)
    if isinstance(a, Num) and a.dt == "o" and isinstance(b, Const):
        return topoly(atom("eqc", I.reify(a), repr(b.v)))
    if isinstance(b, Num) and b.dt == "o" and isinstance(a, Const):
        return topoly(atom("eqc", I.reify(b), repr(a.v)))
    if isinstance(a, Opq) or isinstance(b, Opq):
        x, y = I.reify(a), I.reify(b)
        return topoly(atom("ind", "is", tuple(sorted((x, y), key=key_id))))
    if isinstance(a, Num) and isinstance(b, Num):
        if a.dt == "b" and b.dt == "b":
            return P.eq(a.p, b.p)
        return P.eq(a.p, b.p) if a.p.const() is not None and b.p.const() is not None and a.dt == b.dt else ZERO
    return ZERO


def key_id(x):
    return (0, x.id) if isinstance(x, P.Atom) else (1, x.uid)


def opq_const(I, o, c):
    if o.tag == "str" and not isinstance(c.v, str):
        return ZERO
    return P.eqc(o.t, repr(c.v))


def equality(I, a, b):
    ca, cb = content(I, a), content(I, b)
    if isinstance(ca, InstC) or isinstance(cb, InstC):
        return inst_eq(I, a, b, ca, cb)
    if isinstance(a, Const) or isinstance(b, Const):
        if isinstance(a, Const) and isinstance(b, Const):
            return boolv(ONE if a.v == b.v else ZERO)
        o, c = (a, b) if isinstance(b, Const) else (b, a)
        if isinstance(o, Opq):
            return boolv(opq_const(I, o, c))
        if isinstance(o, Num) and o.dt == "o":
            return boolv(topoly(atom("eqc", I.reify(o), repr(c.v))))
        return boolv(ZERO)
    x, y = numeric(I, a), numeric(I, b)
    if isinstance(a, Opq) and isinstance(b, Opq):
        if a.t is b.t:
            return boolv(ONE)
    if x is not None and y is not None:
        dx, dy = dt_of(I, x), dt_of(I, y)
        if (dx in _TIMES or dy in _TIMES) and dx != dy and "o" not in (dx, dy):
            return boolv(ZERO)
        if "o" in (dx, dy) and isinstance(x, Num) and isinstance(y, Num):
            return boolv(P.eq(x.p, y.p))
        return arrays.elementwise(I, P.eq, bool_dt, x, y)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return boolv(ZERO)
        c = ONE
        for p, q in zip(a.items, b.items):
            c = AND(c, truth(I, compare(I, "Eq", p, q)))
        return boolv(c)
    if isinstance(ca, ListC) and isinstance(cb, ListC):
        return equality(I, Tup(ca.items), Tup(cb.items)) if not any(isinstance(x, Seg) for x in ca.items + cb.items) \
            else boolv(topoly(atom("ind", "listeq", I.reify(a), I.reify(b))))
    if isinstance(a, Arr) and isinstance(cb, ListC) or isinstance(b, Arr) and isinstance(ca, ListC):
        from . import npmodels
        return equality(I, npmodels.to_array(I, a), npmodels.to_array(I, b))
    if isinstance(a, Opq) or isinstance(b, Opq):
        p, q = I.reify(a), I.reify(b)
        return boolv(topoly(atom("ind", "eq", tuple(sorted((p, q), key=key_id)))))
    return boolv(ONE if I.same(a, b) else ZERO)


def inst_eq(I, a, b, ca, cb):
    def ident():
        return boolv(ONE if I.same(a, b) else ZERO)

    def refl():
        if isinstance(cb, InstC):
            m = I.lookup_cls(cb.cls, "__eq__")
            if m is not None:
                r = I.call(I.bind(m, b, cb.cls), [a], {})
                return I.lift(r, lambda r: ident() if isinstance(r, Const) and r.v is NotImplemented else r)
        if isinstance(a, Opq) or isinstance(b, Opq):
            return boolv(topoly(atom("ind", "eq", tuple(sorted((I.reify(a), I.reify(b)), key=key_id)))))
        return ident()
    if isinstance(ca, InstC):
        m = I.lookup_cls(ca.cls, "__eq__")
        if m is not None:
            r = I.call(I.bind(m, a, ca.cls), [b], {})
            return I.lift(r, lambda r: refl() if isinstance(r, Const) and r.v is NotImplemented else r)
    return refl()


_REFL = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}
_ORD = {"Lt": P.lt, "LtE": P.le, "Gt": lambda a, b: P.lt(b, a), "GtE": lambda a, b: P.le(b, a)}


def ordering(I, op, a, b):
    ca, cb = content(I, a), content(I, b)
    nm = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
    if isinstance(ca, InstC):
        m = I.lookup_cls(ca.cls, nm[op])
        if m is not None:
            return I.call(I.bind(m, a, ca.cls), [b], {})
    if isinstance(cb, InstC):
        m = I.lookup_cls(cb.cls, nm[_REFL[op]])
        if m is not None:
            return I.call(I.bind(m, b, cb.cls), [a], {})
    if isinstance(a, Const) and isinstance(b, Const) and type(a.v) is type(b.v) and isinstance(a.v, str):
        return boolv(P.const(int({"Lt": a.v < b.v, "LtE": a.v <= b.v, "Gt": a.v > b.v, "GtE": a.v >= b.v}[op])))
    x, y = numeric(I, a), numeric(I, b)
    if isinstance(x, Arr) and isinstance(cb, ListC):
        from . import npmodels
        y = npmodels.to_array(I, b)
    if x is not None and y is not None:
        dx, dy = dt_of(I, x), dt_of(I, y)
        if (dx in _TIMES or dy in _TIMES) and dx != dy and "o" not in (dx, dy):
            I.raise_("TypeError", msg="'%s' not supported between %s and %s" % (op, tname(dx), tname(dy)))
            return FALSE
        if isinstance(x, Num) and isinstance(y, Num) and ({dx, dy} & {"c16", "c8"}) and x.weak and y.weak:
            I.raise_("TypeError", msg="ordering of complex numbers")
            return FALSE
        if isinstance(x, Num) and isinstance(y, Num) and "o" in (dx, dy):
            return boolv(_ORD[op](x.p, y.p))
        return arrays.elementwise(I, _ORD[op], bool_dt, x, y)
    if isinstance(a, Opq) or isinstance(b, Opq):
        return boolv(topoly(atom("ind", op, I.reify(a), I.reify(b))))
    I.raise_("TypeError", msg="'%s' not supported between %r and %r" % (op, a, b))
    return FALSE


def in_array(I, x, b, cb):
    """A number among the elements of an array or numeric sequences: any of them equals it."""
    from . import npmodels
    if isinstance(b, Arr):
        arrs = [b]
    else:
        arrs = []
        for s in cb.items:
            a = npmodels.seq_to_array(I, s.v) if isinstance(s, Seg) and isinstance(s.v, Seq) else None
            if not isinstance(a, Arr):
                return None
            arrs.append(a)
    r = ZERO
    for a in arrs:
        r = OR(r, truth(I, npmodels.reduce_(I, compare(I, "Eq", npmodels.un_unique(I, a), x), "any")))
    return r


def contains(I, a, b):
    """a in b"""
    cb = content(I, b)
    if isinstance(b, Const) and isinstance(b.v, str) and isinstance(a, Const) and isinstance(a.v, str):
        return ONE if a.v in b.v else ZERO
    if isinstance(cb, InstC):
        m = I.lookup_cls(cb.cls, "__contains__")
        if m is not None:
            return truth(I, I.call(I.bind(m, b, cb.cls), [a], {}))
    if isinstance(cb, DictC):
        items = [k for k, _ in cb.items]
    elif isinstance(b, Tup):
        items = b.items
    elif isinstance(cb, (ListC, SetC)) and not any(isinstance(x, Seg) for x in cb.items):
        items = cb.items
    elif isinstance(b, Opq):
        return topoly(atom("ind", "in", I.reify(a), b.t))
    else:
        x = numeric(I, a)
        r = in_array(I, x, b, cb) if isinstance(x, Num) else None
        if r is not None:
            return r
        return topoly(atom("ind", "in", I.reify(a), I.reify(b)))
    c = ZERO
    for x in items:
        e = ONE if I.same(a, x) else truth(I, compare(I, "Eq", a, x))
        c = OR(c, e)
    return c
