"""Loops of symbolic length as recurrences.

The body of a loop is analysed once for a generic iteration k with symbols
(mu) for all locations it modifies.  Recurrences that have a closed form are
solved (sums, appends, element-wise stores, values of the last iteration); the
remaining ones form a loop term that is identified by its update functions.
"""

from fractions import Fraction

from . import poly as P
from . import arrays
from .poly import Poly, Atom, ONE, ZERO, AND, OR, NOT, ite, atom, topoly
from .values import *
from .values import Num, Const
from .reify import as_atom, reify, vsubst

_N = [0]


def keeps_pc(f):
    """An analysis that gives up inside of a loop leaves the path condition of the entry."""
    def g(I, *args):
        pc = I.pc
        try:
            return f(I, *args)
        except Exception:
            I.pc = pc
            raise
    return g


def mu_atom():
    _N[0] += 1
    return atom("mu", "t", _N[0])


class Loc:
    """A modified location with its generic value"""

    def __init__(self, key, init):
        self.key = key
        self.init = init
        self.mus = []           # mu atoms (components)
        self.val = None         # generic value/content placed in the heap
        self.kind = None
        self.sizes = None
        self.dt = None

    def __repr__(self):
        return "Loc%r" % (self.key,)


def get(I, heap, key):
    kind = key[0]
    if kind == "var":
        return heap[key[1]].vars.get(key[2], UNDEF)
    if kind == "attr":
        return heap[key[1]].attrs.get(key[2], UNDEF)
    return heap[key[1]]


def put(I, key, v):
    kind = key[0]
    c = I.heap[key[1]]
    if kind == "var":
        vars = dict(c.vars)
        vars[key[2]] = v
        I.heap[key[1]] = FrameC(vars, c.parent, c.kind)
    elif kind == "attr":
        attrs = dict(c.attrs)
        attrs[key[2]] = v
        I.heap[key[1]] = InstC(c.cls, attrs, c.origin)
    else:
        I.heap[key[1]] = v


def modified(I, h0, h1):
    """Keys of the locations that differ"""
    out = []
    for i, x in h0.items():
        y = h1.get(i)
        if y is x or y is None:
            continue
        if isinstance(x, FrameC) and isinstance(y, FrameC):
            for n in sorted(set(x.vars) | set(y.vars)):
                a, b = x.vars.get(n, UNDEF), y.vars.get(n, UNDEF)
                if a is not b and n != "%decl" and not I.same(a, b):
                    out.append(("var", i, n))
        elif isinstance(x, InstC) and isinstance(y, InstC):
            for n in sorted(set(x.attrs) | set(y.attrs)):
                a, b = x.attrs.get(n, UNDEF), y.attrs.get(n, UNDEF)
                if a is not b and not I.same(a, b):
                    out.append(("attr", i, n))
        else:
            out.append(("cell", i))
    return out


def generalise(I, loc, new):
    """Generic value for a location from its initial and updated values."""
    if isinstance(loc.init, Phi):
        loc.init = strip_undef(I, loc.init)
    x = loc.init
    kind = loc.key[0]
    if kind == "cell":
        if isinstance(x, ArrC) and isinstance(new, ArrC):
            m = mu_atom()
            loc.mus = [m]
            loc.kind = "arr"
            loc.sizes, loc.dt = x.sizes, x.dt
            idx = [topoly(arrays.vix(x.sizes, j)) for j in range(len(x.sizes))]
            loc.val = ArrC(x.sizes, topoly(atom("muarr", m, tuple(idx))), x.dt, x.origin)
            return
        if isinstance(x, (ListC,)):
            m = mu_atom()
            loc.mus = [m]
            loc.kind = "list"
            loc.val = ListC((Seg(Opq(m)),), x.origin)
            return
        I.unsupported("loop modifies %s" % type(x).__name__)
    if x is UNDEF:
        loc.kind = "temp"
        loc.val = UNDEF
        return
    loc.kind = "value"
    loc.val = gen_value(I, loc, x, new)


def strip_undef(I, v):
    """The defined alternatives (reads of the others are exceptions)."""
    if isinstance(v, Phi):
        a, b = strip_undef(I, v.a), strip_undef(I, v.b)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return v if a is v.a and b is v.b else I.phi(v.c, a, b)
    return v


def gen_value(I, loc, x, y):
    x, y = strip_undef(I, x), strip_undef(I, y)
    if isinstance(y, Phi):
        y = pick(I, y, x)
    if isinstance(x, Phi):
        x = pick(I, x, y)
    if isinstance(x, Num) and isinstance(y, (Num, Opq)):
        dt = x.dt
        if isinstance(y, Num) and y.dt != x.dt:
            dt = promote(x.dt, False, y.dt, False)[0]
        m = mu_atom()
        loc.mus.append(m)
        if dt == "b":
            return Num(P.lt(ZERO, topoly(m)), dt, x.weak)
        return Num(topoly(m), dt, x.weak and (not isinstance(y, Num) or y.weak))
    if isinstance(x, Arr) and isinstance(y, Arr) and I.sizes_same(x.sizes, y.sizes):
        m = mu_atom()
        loc.mus.append(m)
        idx = [topoly(arrays.vix(x.sizes, j)) for j in range(len(x.sizes))]
        dt = promote(arrays.read(I, x).dt, False, arrays.read(I, y).dt, False)[0]
        return I.new_arr(x.sizes, topoly(atom("muarr", m, tuple(idx))), dt)
    if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
        return Tup([gen_value(I, loc, a, b) for a, b in zip(x.items, y.items)])
    if I.same(x, y):
        return x
    if isinstance(x, Ref) and isinstance(y, Ref):
        cx, cy = I.heap.get(x.id), I.heap.get(y.id)
        if isinstance(cx, InstC) and isinstance(cy, InstC) and cx.cls is cy.cls:
            h = I.mu_hooks.get(cx.cls.name)
            if h is not None:
                parts = h[0](I, x)
                new = h[0](I, y)
                return h[1](I, cx.cls, [gen_value(I, loc, a, b) for a, b in zip(parts, new)])
    if isinstance(x, Opq) or isinstance(y, Opq) or isinstance(x, Const) or isinstance(y, Const):
        m = mu_atom()
        loc.mus.append(m)
        return Opq(m)
    I.unsupported("loop-carried value %r / %r" % (x, y))


def pick(I, p, like):
    """A representative alternative of a gated value"""
    opts = []

    def go(v):
        if isinstance(v, Phi):
            go(v.a)
            go(v.b)
        else:
            opts.append(v)
    go(p)
    for o in opts:
        if type(o) is type(like):
            return o
    return opts[0]


def parts_of(I, loc, v):
    """Component terms of a value with the structure of loc.val"""
    out = []
    comp(I, loc.val, v, out)
    return out


def comp(I, shape, v, out):
    if isinstance(v, Phi) and not isinstance(shape, (Num, Opq)):
        a, b = [], []
        comp(I, shape, v.a, a)
        comp(I, shape, v.b, b)
        for p, q in zip(a, b):
            out.append(p if p is q else (ite(v.c, p, q) if isinstance(p, Poly) and isinstance(q, Poly)
                                         else atom("phi", v.c, p, q)))
        return
    if isinstance(shape, Num):
        t = reify(I, v)
        out.append(t if isinstance(t, Poly) else topoly(t))
    elif isinstance(shape, Arr):
        if not isinstance(v, Arr) or not I.sizes_same(v.sizes, shape.sizes):
            I.unsupported("loop-carried array changes its shape")
        c = arrays.read(I, v)
        out.append(c.body)
    elif isinstance(shape, Tup):
        if not isinstance(v, Tup) or len(v.items) != len(shape.items):
            I.unsupported("loop-carried tuple changes its length")
        for a, b in zip(shape.items, v.items):
            comp(I, a, b, out)
    elif isinstance(shape, Ref) and isinstance(v, Ref) and not I.same(shape, v):
        h = I.mu_hooks.get(I.heap[shape.id].cls.name)
        for a, b in zip(h[0](I, shape), h[0](I, v)):
            comp(I, a, b, out)
    elif isinstance(shape, Opq):
        if shape.t.op == "mu":
            out.append(reify(I, v))
        elif not I.same(shape, v):
            I.unsupported("loop-carried value %r" % (v,))
    elif not I.same(shape, v):
        I.unsupported("loop-carried value %r" % (v,))


def rebuild(I, shape, parts):
    """Value of the structure of `shape` from component terms (consumed)"""
    if isinstance(shape, Num):
        p = parts.pop(0)
        return Num(P.lt(ZERO, p) if shape.dt == "b" else p, shape.dt, shape.weak)
    if isinstance(shape, Arr):
        return I.new_arr(shape.sizes, parts.pop(0), I.heap[shape.id].dt)
    if isinstance(shape, Tup):
        return Tup([rebuild(I, x, parts) for x in shape.items])
    if isinstance(shape, Opq) and shape.t.op == "mu":
        t = parts.pop(0)
        if isinstance(t, Poly):
            a = as_atom(t)
            return Opq(a) if a is not None else Num(t, "o")
        return Opq(t)
    if isinstance(shape, Ref) and isinstance(I.heap.get(shape.id), InstC):
        c = I.heap[shape.id]
        h = I.mu_hooks.get(c.cls.name)
        if h is None:
            return shape
        return h[1](I, c.cls, [rebuild(I, x, parts) for x in h[0](I, shape)])
    return shape


def memo_only(I, key, hs):
    """Attribute of an object whose identifying parts did not change."""
    if key[0] != "attr":
        return False
    c = I.heap[key[1]]
    h = I.mu_hooks.get(c.cls.name)
    if h is None:
        return False
    new = h[0](I, Ref(key[1]))
    hb = I.heap
    I.heap = dict(hs)
    try:
        old = h[0](I, Ref(key[1]))
        same = all(I.same(a, b) for a, b in zip(old, new))
    finally:
        I.heap = hb
    return same


class Body:
    """Result of the analysis of one generic iteration"""


def analyse(I, fx, run, k):
    """Fixpoint of the modified locations; run() executes one iteration."""
    st0 = I.save()
    h0 = dict(I.heap)
    live0 = fx.live
    locs = {}
    for rnd in range(8):
        I.restore(st0)
        I.heap = dict(h0)
        fx.live = live0
        for l in locs.values():
            put(I, l.key, l.val)
        hs = dict(I.heap)
        marks = len(I.raises), len(I.effects), len(I.events)
        I.abstract += 1
        try:
            run()
        finally:
            I.abstract -= 1
        keys = [key for key in modified(I, hs, I.heap) if not memo_only(I, key, hs)]
        fresh = [key for key in keys if key not in locs]
        changed = False
        if any(key[0] == "var" for key in fresh):
            # objects bound to generalised variables change: heap cells later
            fresh = [key for key in fresh if key[0] == "var"]
        if fresh:
            hb = I.heap
            new = {}
            for key in fresh:
                l = Loc(key, get(I, h0, key))
                generalise(I, l, get(I, hb, key))
                new[key] = l
            # cells allocated for generic values must survive
            extra = {i: c for i, c in I.heap.items() if i not in hb}
            for l in new.values():
                collect(I, l.val, hb, h0)
            locs.update(new)
            continue
        # dtype widening
        for l in locs.values():
            if l.kind == "value" and isinstance(l.val, Num):
                v = get(I, I.heap, l.key)
                if isinstance(v, Num) and v.dt != l.val.dt and v.dt in _R and l.val.dt in _R:
                    d = promote(l.val.dt, False, v.dt, False)[0]
                    if d != l.val.dt:
                        l.val = Num(l.val.p, d, l.val.weak and v.weak)
                        changed = True
        if changed:
            continue
        b = Body()
        b.locs = list(locs.values())
        b.heap = I.heap
        b.start = hs
        b.pc = I.pc
        b.live = fx.live
        b.raises = I.raises[marks[0]:]
        b.effects = I.effects[marks[1]:]
        b.events = I.events[marks[2]:]
        b.marks = marks
        b.st0, b.h0, b.live0 = st0, h0, live0
        return b
    I.unsupported("loop analysis does not stabilise")


_R = ("b", "i", "f4", "f8", "c8", "c16")


def collect(I, v, hb, h0):
    """Copy the heap cells of a generic value into the base heap."""
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if isinstance(x, (Ref, Arr)):
            if x.id in seen or x.id in h0:
                continue
            seen.add(x.id)
            c = I.heap.get(x.id) or hb.get(x.id)
            h0[x.id] = c
            todo.append(c)
        elif isinstance(x, Tup):
            todo += list(x.items)
        elif isinstance(x, Phi):
            todo += [x.a, x.b]
        elif isinstance(x, (ListC, SetC)):
            todo += [y.v if isinstance(y, Seg) else y for y in x.items]
        elif isinstance(x, InstC):
            todo += list(x.attrs.values())
        elif isinstance(x, DictC):
            todo += [z for y in x.items for z in y]
        elif isinstance(x, Seq):
            todo.append(x.elem)


@keeps_pc
def for_symbolic(I, seq, s, fx):
    if I.unroll:
        pass
    if isinstance(seq, Opq):
        n = topoly(atom("len", seq.t))
        v = P.fresh_var(n)
        seq = Seq(n, v, Opq(atom("elem", seq.t, topoly(v))))
    k = P.fresh_var(seq.n)
    elem = vsubst(I, seq.elem, {seq.var.id: topoly(k)})
    do_for(I, seq.n, k, lambda: I.assign(s.target, elem, fx), s, fx)


def exec_iter(I, s, fx, pre, frame):
    from .interp import LoopCtx
    lc = LoopCtx()
    nr = len(fx.rets)
    fx.loops.append(lc)
    try:
        pre()
        I.exec_block(s.body, fx)
        I.join_exits(lc.conts, fx)
        lc.conts = []
    finally:
        fx.loops.pop()
    frame["breaks"] = lc.breaks
    frame["rets"] = fx.rets[nr:]
    del fx.rets[nr:]


def do_for(I, n, k, pre, s, fx):
    exits = {}
    body = analyse(I, fx, lambda: exec_iter(I, s, fx, pre, exits), k)
    if exits["rets"] or exits["breaks"]:
        find_first(I, body, exits, n, k, s, fx)
        return
    finish(I, body, n, k, fx, None)
    if s.orelse:
        I.exec_block(s.orelse, fx)


def mentions(x, ids):
    if isinstance(x, (Poly, Atom)):
        return bool(x.leaves & ids)
    return False


def finish(I, body, n, k, fx, exitc):
    """Solve the recurrences and set the state after the loop.

    exitc: loop condition of a while loop (None for loops with n iterations)
    """
    heap1 = body.heap
    locs = body.locs
    I.heap = heap1
    upd = {}
    for l in locs:
        v = get(I, heap1, l.key)
        if l.kind == "value":
            try:
                upd[l] = parts_of(I, l, v)
            except KeyError:
                I.unsupported("loop-carried value")
        elif l.kind == "arr":
            if not isinstance(v, ArrC):
                I.unsupported("gated array cell in a loop")
            upd[l] = [v.body]
        elif l.kind == "list":
            upd[l] = list_update(I, l, v)
        else:
            upd[l] = [v]
    muids = {}
    for l in locs:
        for j, m in enumerate(l.mus):
            muids[m.id] = (l, j)
    guards = [r.guard for r in body.raises]
    # dependence of everything on the mus
    deps = {}
    for l in locs:
        d = set()
        for u in upd[l]:
            d |= free_mus(I, u, muids)
        deps[l] = d
    gdeps = set()
    for g in guards + ([exitc] if exitc is not None else []):
        gdeps |= {i for i in g.leaves if i in muids}
    used = set(gdeps)
    for l in locs:
        used |= {i for i in deps[l] if muids[i][0] is not l}
    solved = {}         # mu id -> value before iteration k (Poly over k), scalar/arr body
    final = {}          # loc -> callable producing final value
    pending = [l for l in locs]
    kp = topoly(k) if k is not None else None
    if exitc is None:
        progress = True
        while progress and pending:
            progress = False
            for l in list(pending):
                r = solve(I, l, upd[l], deps[l], muids, solved, n, k, used)
                if r is not None:
                    vals, fin = r
                    for m, v in zip(l.mus, vals):
                        if v is not None:
                            solved[m.id] = v
                    final[l] = fin
                    pending.remove(l)
                    progress = True
    # the rest: loop term
    apply = lambda t: subst_mu(I, t, solved)
    L = None
    if pending or exitc is not None:
        carry = [l for l in pending if not (l.kind == "temp")]
        L = loop_term(I, carry, upd, apply, n, k, exitc)
    # heap after the loop
    I.heap = dict(body.h0)
    for i, c in heap1.items():
        if i not in I.heap:
            I.heap[i] = c
    zero_trip = ZERO if n is not None and P.sign(n) == 1 else None
    for l in locs:
        if l in final:
            put(I, l.key, final[l]())
        elif l.kind == "temp":
            v = upd[l][0]
            put(I, l.key, Opq(atom("looplast", L.whole(), mu_text(I, v, muids))) if L is not None else UNDEF)
        else:
            put(I, l.key, loop_value(I, l, L))
    # exceptions and effects of the body
    I.pc = body.st0[1]
    fx.live = body.live0
    del I.raises[body.marks[0]:]
    del I.effects[body.marks[1]:]
    del I.events[body.marks[2]:]
    pc0 = I.pc
    for r in body.raises:
        g = apply(r.guard)
        g = subst_loop_exit(g, muids, L)
        if k is not None:
            if n is not None:
                g = any_over(I, g, k, n)
        c = relative(pc0, g)
        r2 = type(r)(AND(I.pc, c), r.exc, r.loc, r.msg)
        if r2.guard.terms:
            I.raises.append(r2)
            I.pc = AND(I.pc, NOT(c))
    for e in body.effects:
        I.effects.append(e)
    for e in body.events:
        I.events.append(e)


def relative(pc, g):
    return g


def subst_loop_exit(g, muids, L):
    """Guards on unsolved loop-carried values"""
    ids = {i for i in g.leaves if i in muids}
    if ids:
        return topoly(atom("ind", "inloop", L.whole() if L is not None else 0, P.subst(g, {
            i: topoly(atom("mu", "x", 0)) for i in ids})))
    return g


def any_over(I, g, k, n):
    if k.id not in g.leaves:
        return AND(P.lt(ZERO, n), g)
    return NOT(P.lt(P.psum(g, k), ONE))


def free_mus(I, u, muids):
    if isinstance(u, (Poly, Atom)):
        return {i for i in u.leaves if i in muids}
    if isinstance(u, Append):
        d = set()
        for c, e in u.items:
            d |= {i for i in c.leaves if i in muids}
            t = reify(I, e)
            d |= {i for i in t.leaves if i in muids}
        return d
    if isinstance(u, V):
        if u is UNDEF:
            return set()
        t = reify(I, u)
        return {i for i in t.leaves if i in muids}
    return set()


class Append:
    """Elements appended in one iteration: (condition, value)"""

    def __init__(self, items):
        self.items = items


def list_update(I, l, v):
    m = l.mus[0]

    def strip(c):
        if type(c).__name__ == "PhiC":
            a, b = strip(c.a), strip(c.b)
            out = []
            for (ca, ea) in a:
                out.append((AND(c.c, ca), ea))
            for (cb, eb) in b:
                out.append((AND(NOT(c.c), cb), eb))
            return out
        if not isinstance(c, ListC) or not c.items or not isinstance(c.items[0], Seg) or \
                not isinstance(c.items[0].v, Opq) or c.items[0].v.t is not m:
            I.unsupported("loop changes a list other than by appending")
        for x in c.items[1:]:
            if isinstance(x, Seg):
                I.unsupported("loop extends a list by a symbolic sequence")
        return [(ONE, x) for x in c.items[1:]]
    return [Append(strip(v))]


def subst_mu(I, t, solved):
    mp = {i: v for i, v in solved.items() if isinstance(v, Poly)}
    if isinstance(t, Poly):
        t = P.subst(t, mp) if mp else t
        arrs = {i: v for i, v in solved.items() if not isinstance(v, Poly)}
        if arrs:
            t = subst_muarr(t, arrs)
        return t
    if isinstance(t, Atom):
        r = subst_mu(I, topoly(t), solved)
        a = as_atom(r)
        return a if a is not None else r
    if isinstance(t, Append):
        return Append([(subst_mu(I, c, solved), vsubst(I, e, mp)) for c, e in t.items])
    if isinstance(t, V):
        return vsubst(I, t, mp)
    return t


def subst_muarr(p, arrs):
    """Replace muarr(m, idx) by the solved array functions (sizes, body)."""
    mp = {}

    def walk(q):
        for i in q.atoms():
            a = P.ATOMS[i]
            if not (a.leaves & set(arrs)):
                continue
            if a.op == "muarr" and a.args[0].id in arrs:
                f = arrs[a.args[0].id]
                mp[a.id] = f(a.args[1])
            else:
                for x in a.args:
                    if isinstance(x, Poly):
                        walk(x)
                    elif isinstance(x, Atom):
                        walk(topoly(x))
                    elif isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, Poly):
                                walk(y)
                            elif isinstance(y, Atom):
                                walk(topoly(y))
    walk(p)
    return P.subst_atoms(p, mp) if mp else p


def solve(I, l, upd, deps, muids, solved, n, k, used):
    """Closed form of one location, or None."""
    others = {i for i in deps if i not in solved and muids[i][0] is not l}
    if others:
        return None
    upd = [subst_mu(I, u, solved) for u in upd]
    own = {m.id for m in l.mus}
    kp = topoly(k)
    last = {k.id: n - 1}
    some = P.lt(ZERO, n)
    if l.kind == "temp":
        v = upd[0]
        if has_undef(v):
            return [], lambda: UNDEF
        if deps & own:
            return None
        return [], lambda: I.phi(some, vsubst(I, v, last), l.init)
    if l.kind == "list":
        ap = upd[0]
        if deps & own or any(m.id in used for m in l.mus):
            return None
        init = l.init
        if any(c is not ONE for c, _ in ap.items) and len(ap.items) > 1:
            total = ZERO
            for c, _ in ap.items:
                total = P.padd(total, c)
            if not P.equal(total, ONE):
                return None
            # alternatives of which exactly one is taken
            e = ap.items[-1][1]
            for c, x in ap.items[-2::-1]:
                e = I.phi(c, x, e)
            ap = Append([(ONE, e)])

        def fin():
            items = list(init.items)
            if len(ap.items) == 1:
                c, e = ap.items[0]
                if c is ONE:
                    items.append(Seg(Seq(n, k, e)))
                elif k.id not in c.leaves:
                    from .interp import PhiC
                    return PhiC(c, ListC(items + [Seg(Seq(n, k, e))], init.origin), ListC(items, init.origin))
                else:
                    m = P.lam([n], c, [k])
                    n2 = P.count_of(m)
                    v2 = P.fresh_var(n2)
                    items.append(Seg(Seq(n2, v2, vsubst(I, e, {k.id: P.nth(m, 0, topoly(v2))}))))
            elif ap.items:
                q = P.fresh_var(n * len(ap.items))
                cnt = len(ap.items)
                base = P.ffloor(P.pscale(topoly(q), Fraction(1, cnt)))
                off = P.fmod(topoly(q), P.const(cnt))
                e = None
                for j, (_, x) in enumerate(ap.items):
                    y = vsubst(I, x, {k.id: base})
                    e = y if e is None else I.phi(P.eq(off, P.const(j)), y, e)
                items.append(Seg(Seq(n * cnt, q, e)))
            return ListC(items, init.origin)
        return [None], fin
    # numeric components
    if l.kind == "arr":
        inits = [l.init.body]
        shapes = [l.init.sizes]
    else:
        inits = parts_of(I, l, l.init)
        shapes = comp_shapes(I, l.val)
    vals, fins = [], []
    for m, u, x0, sizes in zip(l.mus, upd, inits, shapes):
        r = solve1(I, m, u, x0, sizes, own, n, k)
        if r is None:
            return None
        vals.append(r[0])
        fins.append(r[1])
    if l.kind == "arr":
        return vals, lambda: ArrC(l.init.sizes, fins[0], l.init.dt, l.init.origin)
    return vals, lambda: rebuild(I, l.val, list(fins))


def comp_shapes(I, shape):
    out = []

    def go(s):
        if isinstance(s, Num):
            out.append(None)
        elif isinstance(s, Arr):
            out.append(s.sizes)
        elif isinstance(s, Tup):
            for x in s.items:
                go(x)
        elif isinstance(s, Opq) and s.t.op == "mu":
            out.append(None)
        elif isinstance(s, Ref) and isinstance(I.heap.get(s.id), InstC):
            h = I.mu_hooks.get(I.heap[s.id].cls.name)
            for x in h[0](I, s) if h is not None else ():
                go(x)
    go(shape)
    return out


def has_undef(v):
    return v is UNDEF or isinstance(v, Phi) and (has_undef(v.a) or has_undef(v.b))


def solve1(I, m, u, x0, sizes, own, n, k):
    """(value before iteration k, final value) of one numeric component"""
    some = P.lt(ZERO, n)
    if not isinstance(u, Poly) or not isinstance(x0, Poly):
        if isinstance(u, Atom) and not (u.leaves & own) and k.id not in u.leaves:
            return None
        return None
    if sizes is None:
        self_ = topoly(m)
        if P.lt(ZERO, self_).leaves & u.leaves and as_atom(P.lt(ZERO, self_)).id in u.atoms():
            self_ = P.lt(ZERO, self_)
        make = lambda body: body
    else:
        idx = tuple(topoly(arrays.vix(sizes, j)) for j in range(len(sizes)))
        self_ = topoly(atom("muarr", m, idx))

        def make(body):
            def f(args):
                return P.subst(body, {arrays.vix(sizes, j).id: args[j] for j in range(len(sizes))})
            return f
    rest = P.padd(u, -self_)
    if not (rest.leaves & own):
        # accumulation
        j = P.fresh_var(topoly(k))
        before = x0 + P.psum(P.subst(rest, {k.id: topoly(j)}), j) if k.id in rest.leaves else x0 + P.pmul(topoly(k), rest)
        return make(before), x0 + P.psum(rest, k)
    if not (u.leaves & own):
        # value of the previous iteration
        before = ite(P.lt(ZERO, topoly(k)), P.subst(u, {k.id: topoly(k) - 1}), x0)
        return make(before), ite(some, P.subst(u, {k.id: n - 1}), x0)
    # guarded update: u = A + B*self with indicator B = not(cond)
    sid = as_atom(self_).id
    A, B = {}, {}
    for mono, c in u.terms.items():
        d = dict(mono)
        if d.get(sid) == 1:
            del d[sid]
            B[tuple(sorted(d.items()))] = c
        else:
            A[mono] = c
    A, B = P.mk(A), P.mk(B)
    if (A.leaves & own) or (B.leaves & own):
        return None
    cond = NOT(B)
    if not P.equal(P.pmul(cond, cond), cond):
        return None
    # cond determines k uniquely
    for i in cond_atoms(cond):
        a = P.ATOMS[i]
        if a.op not in ("lt0", "gt0", "eqc"):
            continue
        arg = a.args[0]
        if not isinstance(arg, Poly):
            continue
        co = arg.terms.get(((k.id, 1),))
        if not co:
            continue
        g0 = P.padd(arg, P.pscale(topoly(k), -co))
        if k.id in g0.leaves:
            continue
        for off in (0, 1, -1):
            g = P.pscale(P.padd(g0, P.const(off)), -1 / co)
            if P.AND(cond, NOT(P.eq(topoly(k), g))) is ZERO:
                hit = AND(arrays.in_range(g, n), P.subst(cond, {k.id: g}))
                if not P.poly_isint(g):
                    hit = AND(hit, P.eq(g, P.ffloor(g)))
                fin = ite(hit, P.subst(A, {k.id: g}), x0)
                hitb = AND(hit, P.lt(g, topoly(k)))
                return make(ite(hitb, P.subst(A, {k.id: g}), x0)), fin
    if k.id not in cond.leaves and k.id not in A.leaves:
        fin = ite(AND(cond, some), A, x0)
        return make(ite(AND(cond, P.lt(ZERO, topoly(k))), A, x0)), fin
    return None


def cond_atoms(p):
    return sorted(p.atoms())


# --- loop terms -----------------------------------------------------------------

def loop_term(I, carry, upd, apply, n, k, exitc):
    comps = []          # (loc, j, init term, update term)
    for l in carry:
        if l.kind == "value":
            inits = parts_of(I, l, l.init)
        elif l.kind == "arr":
            inits = [l.init.body]
        elif l.kind == "list":
            inits = [None]
        shapes = [l.init.sizes] if l.kind == "arr" else ([None] if l.kind == "list" else comp_shapes(I, l.val))
        for j, (m, x0, u) in enumerate(zip(l.mus, inits, upd[l])):
            u = apply(u)
            if isinstance(u, Append):
                l.appended = u
                t = atom("append", tuple((c, reify(I, e)) for c, e in u.items))
                x0 = atom("base")
            else:
                t = u if isinstance(u, (Poly, Atom)) else reify(I, u)
                if not isinstance(x0, (Poly, Atom)):
                    x0 = reify(I, x0)
            sizes = shapes[j]
            if sizes:
                vs = [arrays.vix(sizes, q) for q in range(len(sizes))]
                t = P.lam(list(sizes), topoly(t) if isinstance(t, Atom) else t, vs)
                x0 = P.lam(list(sizes), topoly(x0) if isinstance(x0, Atom) else x0, vs)
            comps.append([l, j, m, x0, t])
    ec = apply(exitc) if exitc is not None else None
    return LoopTerms(comps, ec, n, k)


class LoopTerms:
    """Loop terms restricted to the components that a value depends on."""

    def __init__(self, comps, ec, n, k):
        self.comps, self.ec, self.n, self.k = comps, ec, n, k
        self.ids = {c[2].id: q for q, c in enumerate(comps)}
        self.deps = [self.dep(c[4]) for c in comps]
        self.cache = {}

    def dep(self, t):
        return {self.ids[i] for i in t.leaves if i in self.ids}

    def closure(self, qs):
        todo = list(qs)
        if self.ec is not None:
            todo += self.dep(self.ec)
        out = set()
        while todo:
            q = todo.pop()
            if q in out:
                continue
            out.add(q)
            todo += self.deps[q]
        return frozenset(out)

    def whole(self):
        return self.term(frozenset(range(len(self.comps))))[0]

    def of(self, l, j):
        q = next(q for q, c in enumerate(self.comps) if c[0] is l and c[1] == j)
        L, pos = self.term(self.closure([q]))
        return L, pos[q]

    def term(self, qs):
        if qs in self.cache:
            return self.cache[qs]
        ec, n, k = self.ec, self.n, self.k
        sel = sorted(qs)
        comps = [self.comps[q] for q in sel]
        lvl = 0
        for c in comps:
            lvl = max(lvl, mu_level(c[4]) + 1, mu_level(c[3]) + 1)
        if ec is not None:
            lvl = max(lvl, mu_level(ec) + 1)
        order = canonical_order(comps, ec)
        mp = {}
        pos = {}
        for p, i in enumerate(order):
            mp[comps[i][2].id] = topoly(atom("mu", lvl, p))
            pos[sel[i]] = p
        comps = [comps[i] for i in order]

        def close(t):
            r = P.subst(topoly(t) if isinstance(t, Atom) else t, mp)
            if k is not None:
                r = topoly(P.lam([n], r, [k]))
            return r
        L = atom("loop", lvl, n if n is not None else 0, close(ec) if ec is not None else 0,
                 tuple(topoly(c[3]) if isinstance(c[3], Atom) else c[3] for c in comps),
                 tuple(close(c[4]) for c in comps))
        self.cache[qs] = (L, pos)
        return L, pos


def mu_level(t):
    if not isinstance(t, (Poly, Atom)):
        return -1
    return max([P.ATOMS[i].args[0] for i in t.leaves if P.ATOMS[i].op == "mu" and isinstance(P.ATOMS[i].args[0], int)] + [-1])


def canonical_order(comps, ec):
    """Order components by name-independent structure (colour refinement)."""
    n = len(comps)
    col = [0] * n
    base = {c[2].id: q for q, c in enumerate(comps)}
    for rnd in range(4):
        mp = {c[2].id: topoly(atom("mu", "c", rnd * 1000 + col[q])) for q, c in enumerate(comps)}
        sig = []
        for q, c in enumerate(comps):
            own = dict(mp)
            own[c[2].id] = topoly(atom("mu", "self", rnd * 1000 + col[q]))
            u = P.subst(topoly(c[4]) if isinstance(c[4], Atom) else c[4], own)
            e = -1
            if ec is not None:
                e = P.subst(ec, own).uid
            x0 = topoly(c[3]) if isinstance(c[3], Atom) else c[3]
            sig.append((col[q], text(x0), text(u), 0 if ec is None else text(P.subst(ec, own))))
        rank_ = {s: r for r, s in enumerate(sorted(set(sig)))}
        new = [rank_[s] for s in sig]
        if new == col:
            break
        col = new
    return sorted(range(n), key=lambda q: (col[q], q))


_TEXT = {}


def text(p):
    """Deterministic text of a term that is independent of atom numbering."""
    import hashlib
    if isinstance(p, Poly):
        r = _TEXT.get(("p", p.uid))
        if r is None:
            parts = sorted("%s*%s" % (c, ",".join(sorted("%s^%s" % (text(P.ATOMS[i]), e) for i, e in m)))
                           for m, c in p.terms.items())
            r = hashlib.md5("+".join(parts).encode()).hexdigest()
            _TEXT[("p", p.uid)] = r
        return r
    if isinstance(p, Atom):
        r = _TEXT.get(("a", p.id))
        if r is None:
            if p.op == "fv":
                r = "fv:" + text(p.args[1])
            else:
                r = p.op + "(" + ";".join(text(x) for x in p.args) + ")"
            r = hashlib.md5(r.encode()).hexdigest()
            _TEXT[("a", p.id)] = r
        return r
    if isinstance(p, tuple):
        return "(" + ";".join(text(x) for x in p) + ")"
    return repr(p)


def mu_text(I, v, muids):
    try:
        return text(reify(I, v))
    except TypeError:
        return "?"


def loop_value(I, l, terms):
    def val(j, sizes):
        L, q = terms.of(l, j)
        if sizes:
            idx = tuple(topoly(arrays.vix(sizes, r)) for r in range(len(sizes)))
            return topoly(atom("loopval", L, q, idx))
        return topoly(atom("loopval", L, q, ()))
    if l.kind == "arr":
        return ArrC(l.init.sizes, val(0, l.init.sizes), l.init.dt, l.init.origin)
    if l.kind == "list":
        L, q = terms.of(l, 0)
        return ListC(tuple(l.init.items) + (Seg(appended(I, l, L, q)),), l.init.origin)
    shapes = comp_shapes(I, l.val)
    return rebuild(I, l.val, [val(j, s) for j, s in enumerate(shapes)])


def appended(I, l, L, q):
    """The elements appended to a list in a loop."""
    vals = [e for _, e in l.appended.items]
    n = topoly(atom("loopcount", L, q))
    v = P.fresh_var(n)
    x = vals[0]
    if isinstance(x, Ref) and isinstance(I.heap.get(x.id), InstC):
        cls = I.heap[x.id].cls
        h = I.mu_hooks.get(cls.name)
        if h is not None and all(isinstance(y, Ref) and isinstance(I.heap.get(y.id), InstC) and I.heap[y.id].cls is cls
                                 for y in vals):
            parts = []
            for j, y in enumerate(h[0](I, x)):
                if isinstance(y, Num):
                    parts.append(Num(topoly(atom("loopelem", L, q, j, topoly(v), ())), y.dt, y.weak))
                elif isinstance(y, Arr):
                    idx = tuple(topoly(arrays.vix(y.sizes, r)) for r in range(len(y.sizes)))
                    parts.append(I.new_arr(y.sizes, topoly(atom("loopelem", L, q, j, topoly(v), idx)), arrays.read(I, y).dt))
                elif isinstance(y, Ref) and all(I.same(h[0](I, z)[j], y) for z in vals):
                    parts.append(y)
                else:
                    parts.append(Opq(atom("loopelem", L, q, j, topoly(v), ())))
            return Seq(n, v, h[1](I, cls, parts), True)
    if all(isinstance(y, Num) for y in vals):
        return Seq(n, v, Num(topoly(atom("loopelem", L, q, -1, topoly(v), ())), x.dt, x.weak))
    return Opq(atom("loopseq", L, q))


# --- early exits -----------------------------------------------------------------

def find_first(I, body, exits, n, k, s, fx):
    """for ...: if c(k): return/break, without loop-carried values."""
    locs = [l for l in body.locs if l.kind != "temp" and not is_target(l, s)]
    if locs:
        I.unsupported("loop with early exit and loop-carried values")
    I.unsupported("loop with early exit")


def is_target(l, s):
    return False


# --- while loops -------------------------------------------------------------------

@keeps_pc
def while_symbolic(I, s, fx, c):
    exits = {}
    conds = {}
    st = I.save()
    live = fx.live
    flag = "%%brk%d" % s.lineno

    def brk():
        v = I.heap[fx.frame].vars.get(flag)
        return v.p if isinstance(v, Num) else ZERO

    def run(joined=False):
        cc = I.cond(s.test, fx)
        if joined:
            cc = AND(cc, P.lt(brk(), ONE))
        conds["c"] = cc
        u = I.under(cc)
        if u is ZERO:
            I.unsupported("loop condition")
        if u is not ONE:
            I.pc = AND(I.pc, cc)
        exec_iter(I, s, fx, lambda: None, exits)
        if joined:
            out = []
            for g, h, pc in exits["breaks"]:
                cur, I.heap = I.heap, dict(h)
                I.setvar_raw(fx.frame, flag, Num(ONE, "i"))
                out.append((g, I.heap, pc))
                I.heap = cur
            I.join_exits(out, fx)
            exits["breaks"] = []
    body = analyse(I, fx, run, None)
    if exits["rets"]:
        I.unsupported("while loop with early return")
    if exits["breaks"]:
        if s.orelse:
            I.unsupported("while-else with break")
        if all(not [k for k in modified(I, body.start, h) if not memo_only(I, k, body.start)] for _, h, _ in exits["breaks"]):
            # exit before anything changed: part of the loop condition
            conds["c"] = AND(conds["c"], *[NOT(g) for g, _, _ in exits["breaks"]])
        else:
            I.restore(st)
            fx.live = live
            I.setvar_raw(fx.frame, flag, Num(ZERO, "i"))
            body = analyse(I, fx, lambda: run(True), None)
    ec = conds["c"]
    # counting loop
    for l in body.locs:
        if l.kind == "value" and isinstance(l.val, Num) and len(l.mus) == 1:
            v = get(I, body.heap, l.key)
            if not isinstance(v, Num):
                continue
            step = P.padd(v.p, -topoly(l.mus[0]))
            sc = step.const()
            if sc is None or sc == 0 or not isinstance(l.init, Num):
                continue
            allm = {m.id for q in body.locs for m in q.mus}
            if (ec.leaves & allm) != {l.mus[0].id}:
                continue
            # condition mu < bound or mu > bound
            mu = topoly(l.mus[0])
            r = bound_of(ec, l.mus[0], sc)
            if r is None:
                continue
            dist = P.pscale(P.padd(r, -l.init.p), Fraction(1) / sc)
            n = -P.ffloor(-dist)
            n = P.fmax(n, ZERO) if P.sign(n) is None else n
            k = P.fresh_var(n)
            finish(I, body, n, k, fx, None)
            if s.orelse:
                I.exec_block(s.orelse, fx)
            return
    finish(I, body, None, None, fx, ec)
    if s.orelse:
        I.exec_block(s.orelse, fx)


def bound_of(ec, mu, sc):
    """bound b with (mu < b) == ec (or mu > b for negative steps)"""
    for i in ec.atoms():
        a = P.ATOMS[i]
        if a.op in ("lt0", "gt0"):
            arg = a.args[0]
            co = arg.terms.get(((mu.id, 1),))
            if not co:
                continue
            rest = P.padd(arg, P.pscale(topoly(mu), -co))
            if mu.id in rest.leaves:
                continue
            b = P.pscale(rest, -1 / co)
            for off in (0, 1, -1):
                bb = P.padd(b, P.const(off))
                if P.equal(ec, P.lt(topoly(mu), bb) if sc > 0 else P.lt(bb, topoly(mu))):
                    return bb
    return None
