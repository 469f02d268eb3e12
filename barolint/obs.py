"""Observable results of an abstract evaluation, detached from the heap, and
their comparison by normal form."""

from . import arrays, poly as P
from .poly import ONE, ZERO, AND, NOT, OR, ite, atom, topoly
from .reify import reify, as_atom
from .values import *
from .values import Num, Const


class Node:
    """kind: num (p, timekind) | arr (sizes, body) | term (atom) | seqof [nodes] with a tag |
    map [(key node, node)] | phi (c, a, b) | seq (n, var, node) | undef"""
    __slots__ = ("kind", "a")

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def __repr__(self):
        return "%s%r" % (self.kind, self.a)


def observe(I, v, depth=0):
    if depth > 12:
        return Node("term", reify(I, v))
    o = lambda x: observe(I, x, depth + 1)
    if isinstance(v, Num):
        return Node("num", v.p, timekind(v.dt))
    if isinstance(v, Arr):
        c = arrays.read(I, v)
        if not c.sizes:
            return Node("num", c.body, timekind(c.dt))
        return Node("arr", tuple(c.sizes), c.body, timekind(c.dt))
    if isinstance(v, Phi):
        return Node("phi", v.c, o(v.a), o(v.b))
    if isinstance(v, Tup):
        return Node("items", "tuple", [o(x) for x in v.items])
    if isinstance(v, Undef):
        return Node("term", atom("undef"))
    if isinstance(v, Seq):
        return Node("seq", v.n, v.var, o(v.elem))
    if isinstance(v, Ref):
        return observe_content(I, v, I.heap[v.id], depth)
    t = reify(I, v)
    if isinstance(t, P.Poly):
        return Node("num", t)
    return Node("term", t)


def timekind(dt):
    """Dates and intervals (of either library) are not numbers."""
    return dt if dt in ("T", "D", "M", "m") else ""


def kind_of(n):
    return n.a[-1] if isinstance(n.a[-1], str) else ""


def observe_content(I, v, c, depth):
    o = lambda x: observe(I, x, depth + 1)
    if type(c).__name__ == "PhiC":
        h = I.heap
        out = []
        for part in (c.a, c.b):
            I.heap = dict(h)
            I.heap[v.id] = part
            try:
                out.append(observe_content(I, v, part, depth))
            finally:
                I.heap = h
        return Node("phi", c.c, out[0], out[1])
    if isinstance(c, ListC):
        if len(c.items) == 1 and isinstance(c.items[0], Seg) and isinstance(c.items[0].v, Seq):
            return o(c.items[0].v)
        return Node("items", "list", [Node("seg", o(x.v)) if isinstance(x, Seg) else o(x) for x in c.items])
    if isinstance(c, SetC):
        return Node("items", "set", sorted([o(x) for x in c.items], key=repr))
    if isinstance(c, DictC):
        return Node("map", "dict", [(reify(I, k), o(x)) for k, x in c.items])
    if isinstance(c, InstC):
        hook = I.mu_hooks.get(c.cls.name)
        if hook is not None:
            return Node("items", c.cls.name, [o(x) for x in hook[0](I, v)])
        if c.cls.name in I.reify_hooks:
            t = reify(I, v)
            if isinstance(t, Atom_) and t.op == "grid":
                return Node("map", c.cls.name, [(atom("const", repr(k)), Node("num", topoly(x)))
                                                for k, x in zip(("nlon", "nlat", "rsphere", "omega", "ntrunc"), t.args)])
            if c.cls.name == "StateList":
                from .context import quiet
                its = quiet(I, lambda: I.iterate(v))
                if isinstance(its, list):
                    return Node("items", "StateList", [Node("seg", o(x.v)) if isinstance(x, Seg) else o(x) for x in its])
                return o(its)
            if c.cls.name == "State" and "time" in c.attrs:
                return Node("items", "State", [Node("term", t), o(c.attrs["time"])])
            return Node("term", t)
        return Node("map", c.cls.name, [(atom("const", repr(k)), o(c.attrs[k])) for k in sorted(c.attrs)
                                        if c.attrs[k] is not UNDEF])
    return Node("term", reify(I, v))


Atom_ = P.Atom


def diff(a, b, cond, path="", out=None):
    """Leaves at which the normal forms are not identical: [(path, cond, a, b)]."""
    if out is None:
        out = []
    if cond is ZERO or a is b:
        return out
    if a.kind == "phi":
        diff(a.a[1], b, AND(cond, a.a[0]), path, out)
        diff(a.a[2], b, AND(cond, NOT(a.a[0])), path, out)
        return out
    if b.kind == "phi":
        diff(a, b.a[1], AND(cond, b.a[0]), path, out)
        diff(a, b.a[2], AND(cond, NOT(b.a[0])), path, out)
        return out
    ka, kb = a.kind, b.kind
    if ka == "num" and kb == "num":
        if not same_poly(a.a[0], b.a[0], cond) or kind_of(a) != kind_of(b):
            out.append((path, cond, a, b))
        return out
    if ka == "arr" and kb == "arr":
        sa, sb = a.a[0], b.a[0]
        if len(sa) != len(sb):
            out.append((path + ".ndim", cond, a, b))
            return out
        ok = all(same_poly(x, y, cond) for x, y in zip(sa, sb))
        bb = b.a[1]
        if ok and any(x is not y for x, y in zip(sa, sb)):
            bb = P.subst(bb, {arrays.vix(sb, j).id: topoly(arrays.vix(sa, j)) for j in range(len(sa))})
        if not ok or not same_poly(a.a[1], bb, cond) or kind_of(a) != kind_of(b):
            out.append((path, cond, a, b))
        return out
    if ka == "term" and kb == "term":
        if a.a[0] is not b.a[0]:
            out.append((path, cond, a, b))
        return out
    if ka == "items" and kb == "items":
        if a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]):
            out.append((path, cond, a, b))
            return out
        for k, (x, y) in enumerate(zip(a.a[1], b.a[1])):
            diff(x, y, cond, "%s[%d]" % (path, k), out)
        return out
    if ka == "seg" and kb == "seg":
        return diff(a.a[0], b.a[0], cond, path + "[*]", out)
    if ka == "map" and kb == "map":
        ma, mb = dict(a.a[1]), dict(b.a[1])
        if a.a[0] != b.a[0] or set(ma) != set(mb):
            out.append((path, cond, a, b))
            return out
        for k in ma:
            diff(ma[k], mb[k], cond, "%s.%s" % (path, P.show_atom(k) if isinstance(k, Atom_) else k), out)
        return out
    if ka == "seq" and kb == "seq":
        n1, v1, e1 = a.a
        n2, v2, e2 = b.a
        if not same_poly(n1, n2, cond):
            out.append((path + ".len", cond, Node("num", n1), Node("num", n2)))
            out.append((path, cond, a, b))
            return out
        sub = []
        diff(e1, subst_node(e2, {v2.id: topoly(v1)}), cond, path + "[*]", sub)
        if sub:
            out.append((path + "[*]", cond, a, b))
        return out
    out.append((path, cond, a, b))
    return out


def subst_node(n, mp):
    k = n.kind
    s = lambda p: P.subst(p, mp) if isinstance(p, P.Poly) else p
    if k == "num":
        return Node("num", s(n.a[0]), *n.a[1:])
    if k == "arr":
        return Node("arr", tuple(s(x) for x in n.a[0]), s(n.a[1]), *n.a[2:])
    if k == "term":
        t = P.subst(topoly(n.a[0]), mp)
        at = as_atom(t)
        return Node("term", at) if at is not None else Node("num", t)
    if k == "items":
        return Node("items", n.a[0], [subst_node(x, mp) for x in n.a[1]])
    if k == "map":
        return Node("map", n.a[0], [(kk, subst_node(x, mp)) for kk, x in n.a[1]])
    if k == "phi":
        return Node("phi", s(n.a[0]), subst_node(n.a[1], mp), subst_node(n.a[2], mp))
    if k == "seg":
        return Node("seg", subst_node(n.a[0], mp))
    if k == "seq":
        return Node("seq", s(n.a[0]), n.a[1], subst_node(n.a[2], mp))
    return n


def same_poly(p, q, cond):
    if p is q:
        return True
    if P.equal(p, q):
        return True
    if cond is ONE:
        return False
    if P.pmul(cond, p) is P.pmul(cond, q):
        return True
    return P.is_zero(P.pmul(cond, P.padd(p, P.pscale(q, -1))))


KINDS = {"T": "datetime ", "D": "timedelta ", "M": "datetime64 ", "m": "timedelta64 "}


def show_node(n, width=300):
    k = n.kind
    if k == "num":
        s = KINDS.get(kind_of(n), "") + P.show(n.a[0])
    elif k == "arr":
        s = KINDS.get(kind_of(n), "") + "array(%s): %s" % (", ".join(P.show(x) for x in n.a[0]), P.show(n.a[1]))
    elif k == "term":
        s = P.show_atom(n.a[0])
    elif k == "items":
        s = "%s(%s)" % (n.a[0], ", ".join(show_node(x, 100) for x in n.a[1]))
    elif k == "map":
        s = "%s{%s}" % (n.a[0], ", ".join("%s: %s" % (P.show_atom(kk) if isinstance(kk, Atom_) else kk, show_node(x, 100))
                                          for kk, x in n.a[1]))
    elif k == "phi":
        s = "(%s if %s else %s)" % (show_node(n.a[1]), P.show(n.a[0]), show_node(n.a[2]))
    elif k == "seq":
        s = "[%s for %s < %s]" % (show_node(n.a[2]), P.show_atom(n.a[1]), P.show(n.a[0]))
    elif k == "seg":
        s = "*" + show_node(n.a[0])
    else:
        s = repr(n)
    return s if len(s) <= width else s[:width] + "…"
