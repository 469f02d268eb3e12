"""numpy arrays as index functions: views, indexing, stores, broadcasting."""

from fractions import Fraction

from . import poly as P
from .poly import ONE, ZERO, AND, OR, NOT, ite, atom, topoly
from .values import *
from .values import Num, Const


def vix(sizes, j):
    """Index atom of axis j (from the left) of an array of the given sizes."""
    return P.ix(len(sizes) - 1 - j, sizes[j])


def mk(I, sizes, body, dt="f8", origin=None):
    """New array; indices of unit axes are zero."""
    sizes = tuple(sizes)
    mp = {}
    for j, n in enumerate(sizes):
        if n is ONE:
            a = vix(sizes, j)
            if a.id in body.leaves:
                mp[a.id] = ZERO
    if mp:
        body = P.subst(body, mp)
    return I.new_arr(sizes, body, dt, origin)


def read(I, a):
    """ArrC of the array value (in its own index variables)."""
    c = I.heap[a.id]
    if a.view is None:
        return c
    mp = {}
    nb = len(c.sizes)
    for j, m in enumerate(a.view.maps):
        b = vix(c.sizes, j)
        if m[0] == "fix":
            mp[b.id] = m[1]
        else:
            _, va, start, step = m
            mp[b.id] = P.padd(start, P.pmul(step, topoly(vix(a.sizes, va))))
    body = P.subst(c.body, mp)
    mp = {}
    for j, n in enumerate(a.sizes):
        if n is ONE:
            mp[vix(a.sizes, j).id] = ZERO
    if mp:
        body = P.subst(body, mp)
    return ArrC(a.sizes, body, c.dt, c.origin)


def copy(I, a, dt=None):
    c = read(I, a)
    return I.new_arr(c.sizes, c.body, dt or c.dt)


def const_or_none(x):
    return None if is_none(x) else x


def index_poly(I, x, what="index"):
    """Integer polynomial of an index value."""
    if isinstance(x, Num):
        if x.dt not in ("i", "b", "o"):
            I.raise_("TypeError", msg="non-integer %s" % what)
            return x.p
        return x.p
    if isinstance(x, Opq):
        return topoly(x.t)
    if isinstance(x, Arr) and not x.sizes:
        return read(I, x).body
    I.unsupported("%s %r" % (what, x))


def norm_bound(p, n, neg_default=False):
    """Resolve a slice bound (negative from the end, clamped to [0, n])."""
    neg = P.lt0(p)
    q = ite(neg, P.padd(p, n), p)
    q = P.fmax(q, ZERO)
    return P.fmin(q, n)


def resolve_slice(I, s, n):
    """(start, step, size) of a slice applied to an axis of size n."""
    step = ONE if is_none(s.step) else index_poly(I, s.step, "slice step")
    k = step.const()
    if k is None:
        sg = P.sign(step)
        if sg is None or sg > 0:
            k = None
            positive = True
        else:
            positive = False
    else:
        if k == 0:
            I.raise_("ValueError", msg="slice step cannot be zero")
            return ZERO, ONE, ZERO
        positive = k > 0
    if positive:
        start = ZERO if is_none(s.start) else norm_bound(index_poly(I, s.start, "slice start"), n)
        stop = n if is_none(s.stop) else norm_bound(index_poly(I, s.stop, "slice stop"), n)
        ext = P.padd(stop, -start)
        if k == 1:
            size = ext
        else:
            size = P.ffloor(P.pmul(P.padd(P.padd(ext, step), P.const(-1)), P.pinv(step)))
        if P.sign(size) is None or P.sign(size) < 0:
            lo = P._lin_bounds(size, True)
            if lo is None or lo < 0:
                size = P.fmax(size, ZERO)
        return start, step, size
    last = P.padd(n, P.const(-1))

    def nb(p):
        q = ite(P.lt0(p), P.padd(p, n), p)
        return P.fmin(P.fmax(q, P.const(-1)), last)
    start = last if is_none(s.start) else nb(index_poly(I, s.start, "slice start"))
    stop = P.const(-1) if is_none(s.stop) else nb(index_poly(I, s.stop, "slice stop"))
    ext = P.padd(start, -stop)
    if k == -1:
        size = ext
    else:
        size = P.ffloor(P.pmul(P.padd(P.padd(ext, -step), P.const(-1)), P.pinv(-step)))
    lo = P._lin_bounds(size, True)
    if lo is None or lo < 0:
        size = P.fmax(size, ZERO)
    return start, step, size


def resolve_int(I, p, n):
    """Index polynomial for an integer index with bounds check."""
    c = p.const()
    neg = P.lt0(p)
    q = ite(neg, P.padd(p, n), p)
    bad = OR(P.lt0(q), NOT(P.lt(q, n)))
    if bad is not ZERO:
        if P.sign(q) is None and bad is not ONE:
            # only data-independent bounds are checked precisely
            if not any(P.ATOMS[i].op in ("nth", "argmax", "argmin", "rank") for i in p.atoms()):
                I.raise_if(bad, "IndexError", msg="index out of bounds")
        else:
            I.raise_if(bad, "IndexError", msg="index out of bounds")
    return q


def split_index(I, a, idx):
    """Expand the index into one entry per axis."""
    items = list(idx.items) if isinstance(idx, Tup) else [idx]
    nd = len(a.sizes)
    out = []
    used = 0
    for x in items:
        x = norm_item(I, x)
        if isinstance(x, Const) and x.v is None:
            continue
        if isinstance(x, Const) and x.v is Ellipsis:
            continue
        used += index_rank(I, x)
    if used > nd:
        I.raise_("IndexError", msg="too many indices for array")
        return None
    full = Slc(NONE, NONE, NONE)
    seen = False
    for x in items:
        x = norm_item(I, x)
        if isinstance(x, Const) and x.v is Ellipsis:
            if not seen:
                out += [full] * (nd - used)
                seen = True
            continue
        out.append(x)
    have = sum(index_rank(I, x) for x in out if not is_none(x))
    out += [full] * (nd - have)
    return out


def norm_item(I, x):
    if isinstance(x, Ref) and isinstance(I.heap[x.id], ListC):
        from . import npmodels
        return npmodels.to_array(I, x)
    if isinstance(x, Seq):
        from . import npmodels
        return npmodels.to_array(I, x)
    return x


def index_rank(I, x):
    if isinstance(x, Arr):
        c = read(I, x)
        if c.dt == "b":
            return len(x.sizes)
        return 1
    return 1


def is_basic(I, x):
    if isinstance(x, Arr):
        return not x.sizes and read(I, x).dt != "b"
    if isinstance(x, Num) and x.dt == "b":
        return False
    return isinstance(x, (Num, Slc, Const, Opq))


def view_of(I, a, items):
    """Apply basic indices: Arr view or scalar Num."""
    desc = []       # per old axis
    sizes = []
    ax = 0
    for x in items:
        if is_none(x):
            sizes.append(ONE)
            continue
        n = a.sizes[ax]
        if isinstance(x, Slc):
            start, step, size = resolve_slice(I, x, n)
            desc.append(("aff", len(sizes), start, step))
            sizes.append(size)
        else:
            p = index_poly(I, x)
            desc.append(("fix", resolve_int(I, p, n)))
        ax += 1
    c = I.heap[a.id]
    if a.view is None:
        maps = desc
    else:
        maps = []
        for m in a.view.maps:
            if m[0] == "fix":
                maps.append(m)
                continue
            _, va, s, t = m
            d = desc[va]
            if d[0] == "fix":
                maps.append(("fix", P.padd(s, P.pmul(t, d[1]))))
            else:
                maps.append(("aff", d[1], P.padd(s, P.pmul(t, d[2])), P.pmul(t, d[3])))
    # unit axes need no index
    maps = [("aff", m[1], m[2], m[3]) if m[0] == "aff" else m for m in maps]
    return Arr(a.id, sizes, View(maps))


def scalar(I, v):
    """0-d view -> numpy scalar"""
    c = read(I, v)
    return Num(c.body, c.dt, weak=False)


def getitem(I, a, idx):
    items = split_index(I, a, idx)
    if items is None:
        return Opq(atom("dead"))
    if all(is_basic(I, x) for x in items):
        v = view_of(I, a, items)
        if not v.sizes and not (isinstance(idx, Const) and idx.v is Ellipsis):
            return scalar(I, v)
        return v
    r = advanced(I, a, items)
    if r is None:
        return Opq(atom("dead"))
    sizes, mp, c = r
    return mk(I, sizes, P.subst(c.body, mp), c.dt)


def mask_lam(I, m):
    c = read(I, m)
    return P.lam(list(c.sizes), c.body, [vix(c.sizes, j) for j in range(len(c.sizes))])


def advanced(I, a, items):
    """Advanced indexing: (result sizes, index map onto a's axes, ArrC of a)"""
    c = read(I, a)
    ax = 0
    plan = []           # ("adv", [(axis, ArrC|Poly)]) / ("slc", axis, start, step, size) / ("new",)
    advs = []           # (axis, sizes, body)
    for x in items:
        if is_none(x):
            plan.append(("new",))
            continue
        if isinstance(x, Slc):
            start, step, size = resolve_slice(I, x, c.sizes[ax])
            plan.append(("slc", ax, start, step, size))
            ax += 1
            continue
        if isinstance(x, Num) and x.dt == "b":
            I.unsupported("scalar boolean index")
        if isinstance(x, Arr):
            xc = read(I, x)
            if xc.dt == "b":
                for k, n in enumerate(xc.sizes):
                    if not P.equal(n, c.sizes[ax + k]):
                        cond = NOT(P.eq(n, c.sizes[ax + k]))
                        I.raise_if(cond, "IndexError", msg="boolean index did not match")
                        if not I.pc.terms:
                            return None
                m = mask_lam(I, x)
                cnt = P.count_of(m)
                for k in range(len(xc.sizes)):
                    body = P.nth(m, k, topoly(P.ix(0, cnt)))
                    advs.append((ax, (cnt,), body))
                    plan.append(("adv",))
                    ax += 1
                continue
            if xc.dt not in ("i", "o"):
                I.raise_("IndexError", msg="arrays used as indices must be of integer type")
                return None
            body = xc.body
            body = wrap_negative(body, c.sizes[ax])
            advs.append((ax, xc.sizes, body))
            plan.append(("adv",))
            ax += 1
            continue
        p = resolve_int(I, index_poly(I, x), c.sizes[ax])
        advs.append((ax, (), p))
        plan.append(("adv",))
        ax += 1
    # broadcast the index arrays
    bs = broadcast_sizes(I, [s for _, s, _ in advs])
    if bs is None:
        return None
    # position of the advanced block
    pos = [k for k, p in enumerate(plan) if p[0] == "adv"]
    contiguous = pos == list(range(pos[0], pos[-1] + 1))
    sizes = []
    slots = []
    if not contiguous:
        sizes += bs
        slots.append(("block", 0))
    for k, p in enumerate(plan):
        if p[0] == "adv":
            if contiguous and k == pos[0]:
                slots.append(("block", len(sizes)))
                sizes += bs
        elif p[0] == "new":
            sizes.append(ONE)
        else:
            slots.append(("slc", len(sizes), p))
            sizes.append(p[4])
    nd = len(sizes)
    mp = {}
    b0 = [s for s in slots if s[0] == "block"][0][1]
    # the index arrays' axes: rename ix(k, size) -> ix of result
    shift = nd - (b0 + len(bs))
    for axis, s, body in advs:
        sub = {}
        for j, n in enumerate(s):
            k = len(s) - 1 - j
            sub[P.ix(k, n).id] = ZERO if n is ONE else topoly(P.ix(k + shift, bs[len(bs) - 1 - k]))
        mp[vix(c.sizes, axis).id] = P.subst(body, sub)
    for s in slots:
        if s[0] == "slc":
            _, j, p = s
            mp[vix(c.sizes, p[1]).id] = P.padd(p[2], P.pmul(p[3], topoly(P.ix(nd - 1 - j, p[4]))))
    return sizes, mp, c


def wrap_negative(body, n):
    """numpy wraps negative indices of index arrays"""
    neg = P.shannon(P._lt0, body)
    if neg is None or neg is ZERO:
        return body
    if any(P.ATOMS[i].op in ("nth", "argmax", "argmin") for i in body.atoms()):
        # positions within an axis are not negative
        if all(P.ATOMS[i].op in ("nth", "argmax", "argmin", "ix") for i in body.atoms()) and \
                all(c > 0 for c in body.terms.values()):
            return body
    return ite(neg, P.padd(body, n), body)


def broadcast_sizes(I, shapes):
    nd = max([len(s) for s in shapes] + [0])
    out = []
    for k in range(nd):         # from the right
        n = None
        for s in shapes:
            if k >= len(s):
                continue
            m = s[len(s) - 1 - k]
            if n is None or n is ONE:
                n = m
            elif m is ONE or m is n:
                continue
            elif P.equal(m, n):
                continue
            else:
                e = P.eq(m, n)
                # one of the operands may also be of unit size
                ok = OR(e, OR(P.eq(m, ONE), P.eq(n, ONE)))
                I.raise_if(NOT(ok), "ValueError", msg="operands could not be broadcast together")
                if not I.pc.terms:
                    return None
                if len(m.terms) < len(n.terms):
                    pass
        out.append(n)
    return out[::-1]


def in_shape(sizes, s, body, shift=0):
    """Body of an operand of shape s in the index variables of `sizes`."""
    mp = {}
    nd = len(sizes)
    for j, n in enumerate(s):
        k = len(s) - 1 - j
        a = P.ix(k, n)
        if a.id not in body.leaves:
            continue
        m = sizes[nd - 1 - k]
        if n is ONE:
            mp[a.id] = ZERO
        elif m is not n:
            mp[a.id] = topoly(P.ix(k, m))
    return P.subst(body, mp) if mp else body


def elementwise(I, f, dtf, *args):
    """Apply the scalar function f to broadcast operands (Num, Arr or Seq)."""
    if any(isinstance(a, Seq) for a in args):
        return seq_elementwise(I, f, dtf, args)
    arrs = [(a.sizes, read(I, a)) if isinstance(a, Arr) else None for a in args]
    dts = [(c[1].dt, False) if c is not None else (a.dt, a.weak) for c, a in zip(arrs, args)]
    dt, weak = dtf(*dts)
    if all(c is None for c in arrs):
        return Num(f(*[a.p for a in args]), dt, weak)
    sizes = broadcast_sizes(I, [c[0] for c in arrs if c is not None])
    if sizes is None:
        return Opq(atom("dead"))
    polys = [in_shape(sizes, c[0], c[1].body) if c is not None else a.p for c, a in zip(arrs, args)]
    body = f(*polys)
    if not sizes:
        return Num(body, dt, False)
    return mk(I, sizes, body, dt)


def seq_elementwise(I, f, dtf, args):
    s0 = next(a for a in args if isinstance(a, Seq))
    v = P.fresh_var(s0.n)
    elems = []
    for a in args:
        if isinstance(a, Seq):
            if not P.equal(a.n, s0.n):
                I.unsupported("object arrays of different length")
            elems.append(I.vsubst(a.elem, {a.var.id: topoly(v)}))
        elif isinstance(a, Arr):
            if len(a.sizes) != 1 or not P.equal(a.sizes[0], s0.n):
                I.unsupported("broadcast with object array")
            c = read(I, a)
            elems.append(Num(P.subst(c.body, {vix(c.sizes, 0).id: topoly(v)}), c.dt, False))
        else:
            elems.append(a)
    from . import ops
    r = I.liftn(elems, lambda *xs: elementwise(I, f, dtf, *xs))
    return Seq(s0.n, v, r, True)


def fits(sizes, target):
    return len(sizes) <= len(target)


def store_into(I, a, v, how="store"):
    """a[...] = v for an array (view) value a"""
    if isinstance(v, Phi):
        I.split(v.c, lambda: store_into(I, a, v.a, how) or NONE, lambda: store_into(I, a, v.b, how) or NONE)
        return
    c = I.heap[a.id]
    I.note_write(c.origin, how)
    if isinstance(v, (Ref, Tup, Seq)):
        from . import npmodels
        v = npmodels.to_array(I, v)
    if isinstance(v, Opq):
        v = Num(topoly(v.t), "o")
    if isinstance(v, Num):
        body, vdt = v.p, v.dt
    elif isinstance(v, Arr):
        vc = read(I, v)
        vs = list(vc.sizes)
        body = vc.body
        while len(vs) > len(a.sizes) and vs[0] is ONE:
            vs = vs[1:]
        if len(vs) > len(a.sizes):
            I.raise_("ValueError", msg="could not broadcast into shape")
            return
        b = broadcast_sizes(I, [tuple(vs), a.sizes])
        if b is None:
            return
        # target must not be extended
        for x, t in zip(b, a.sizes):
            if t is ONE and x is not ONE:
                I.raise_if(NOT(P.eq(x, ONE)), "ValueError", msg="could not broadcast into shape")
                if not I.pc.terms:
                    return
        body = in_shape(a.sizes, tuple(vs), body)
        vdt = vc.dt
    else:
        I.raise_("TypeError", msg="cannot store %r" % (v,))
        return
    body = cast(I, body, vdt, c.dt, how)
    if body is None:
        return
    if a.view is None:
        new = body
    else:
        cond = ONE
        mp = {}
        for j, m in enumerate(a.view.maps):
            b = topoly(vix(c.sizes, j))
            if m[0] == "fix":
                cond = AND(cond, P.eq(b, m[1]))
                continue
            _, va, start, step = m
            n = a.sizes[va]
            k = step.const()
            d = P.padd(b, -start)
            if k == 1:
                q = d
            elif k == -1:
                q = -d
            else:
                q = P.pmul(d, P.pinv(step))
                cond = AND(cond, P.eq(P.fmod(d, step), ZERO))
            cond = AND(cond, in_range(q, n))
            mp[vix(a.sizes, va).id] = q
        for j, n in enumerate(a.sizes):
            mp.setdefault(vix(a.sizes, j).id, ZERO)
        new = ite(cond, P.subst(body, mp), c.body)
    I.heap[a.id] = ArrC(c.sizes, new, c.dt, c.origin)


def in_range(q, n):
    """0 <= q < n"""
    return AND(NOT(P.lt0(q)), P.lt(q, n))


def cast(I, body, src, dst, how=""):
    if src == dst or src == "o" or dst == "o":
        return body
    if dst == "b":
        return NOT(P.eq(body, ZERO))
    if dst == "i":
        if src == "b":
            return body
        if how.startswith("in-place"):
            I.raise_("UFuncTypeError", msg="cannot cast float result into integer array")
            return None
        return P.ftrunc(body)
    if dst in ("f4", "f8") and src in ("c8", "c16"):
        if how.startswith("in-place"):
            I.raise_("UFuncTypeError", msg="cannot cast complex result into real array")
            return None
        return P.unary("real", body)
    return body


def setitem(I, a, idx, v):
    items = split_index(I, a, idx)
    if items is None:
        return
    if all(is_basic(I, x) for x in items):
        store_into(I, view_of(I, a, items), v)
        return
    if isinstance(v, Phi):
        I.split(v.c, lambda: setitem(I, a, idx, v.a) or NONE, lambda: setitem(I, a, idx, v.b) or NONE)
        return
    c0 = I.heap[a.id]
    I.note_write(c0.origin, "store")
    c = read(I, a)
    masks = [x for x in items if isinstance(x, Arr) and read(I, x).dt == "b"]
    ints = [x for x in items if isinstance(x, Arr) and read(I, x).dt != "b"]
    if isinstance(v, (Ref, Tup, Seq)):
        from . import npmodels
        v = npmodels.to_array(I, v)
    if len(masks) == 1 and not ints and all(isinstance(x, Slc) or x in masks for x in items):
        # position of the mask among the axes
        ax = 0
        cond = ONE
        m = masks[0]
        mc = read(I, m)
        ml = mask_lam(I, m)
        idxs = None
        rest = []
        for x in items:
            if x is m:
                axes = list(range(ax, ax + len(mc.sizes)))
                for k, j in enumerate(axes):
                    if not P.equal(mc.sizes[k], c.sizes[j]):
                        I.raise_if(NOT(P.eq(mc.sizes[k], c.sizes[j])), "IndexError")
                        if not I.pc.terms:
                            return
                idxs = [topoly(vix(c.sizes, j)) for j in axes]
                cond = AND(cond, P.lam_apply(ml, idxs))
                pos = ax
                ax += len(mc.sizes)
            else:
                start, step, size = resolve_slice(I, x, c.sizes[ax])
                if not (start is ZERO and step is ONE and P.equal(size, c.sizes[ax])):
                    I.unsupported("masked store with a partial slice")
                rest.append(ax)
                ax += 1
        if isinstance(v, Opq):
            v = Num(topoly(v.t), "o")
        if isinstance(v, Num):
            val = v.p
            vdt = v.dt
        else:
            vc = read(I, v)
            vdt = vc.dt
            cnt = P.count_of(ml)
            rsizes = []
            for j in range(len(c.sizes)):
                if j == pos:
                    rsizes.append(cnt)
                if j in rest:
                    rsizes.append(c.sizes[j])
            if pos == len(c.sizes):
                rsizes.append(cnt)
            b = broadcast_sizes(I, [vc.sizes, tuple(rsizes)])
            if b is None:
                return
            body = in_shape(rsizes, vc.sizes, vc.body)
            mp = {}
            k = 0
            for j in range(len(c.sizes)):
                if j == pos:
                    mp[vix(rsizes, k).id] = P.rank(ml, idxs)
                    k += 1
                if j in rest:
                    mp[vix(rsizes, k).id] = topoly(vix(c.sizes, j))
                    k += 1
            val = P.subst(body, mp)
            # numpy requires the number of values to match
        val = cast(I, val, vdt, c.dt)
        new = ite(cond, val, c.body)
    elif ints and not masks:
        if not isinstance(v, Num):
            I.unsupported("store of an array through index arrays")
        cond = ONE
        ax = 0
        for x in items:
            b = topoly(vix(c.sizes, ax))
            if isinstance(x, Arr):
                cond = AND(cond, member(I, x, b, c.sizes[ax]))
            elif isinstance(x, Slc):
                start, step, size = resolve_slice(I, x, c.sizes[ax])
                if step is not ONE:
                    I.unsupported("strided store")
                cond = AND(cond, in_range(P.padd(b, -start), size))
            else:
                cond = AND(cond, P.eq(b, resolve_int(I, index_poly(I, x), c.sizes[ax])))
            ax += 1
        # index arrays must vary along different axes (np.ix_) or be single
        if len(ints) > 1:
            used = [frozenset(j for j, n in enumerate(x.sizes) if n is not ONE) for x in ints]
            nd = max(len(x.sizes) for x in ints)
            used = [frozenset(nd - len(x.sizes) + j for j in u) for x, u in zip(ints, used)]
            if len(used) > 1 and any(used[p] & used[q] for p in range(len(used)) for q in range(p)):
                I.unsupported("store through paired index arrays")
        new = ite(cond, cast(I, v.p, v.dt, c.dt), c.body)
    else:
        I.unsupported("store with this index")
    full = Arr(a.id, a.sizes, a.view)
    tmp = I.new_arr(c.sizes, new, c.dt)
    if a.view is None:
        I.heap[a.id] = ArrC(c0.sizes, new, c0.dt, c0.origin)
    else:
        ne = len(I.effects)
        store_into(I, full, tmp)
        del I.effects[ne:]


def member(I, x, b, n):
    """Indicator that index b occurs in the index array x."""
    c = read(I, x)
    ax = [j for j, s in enumerate(c.sizes) if s is not ONE]
    if not ax:
        return P.eq(b, wrap_negative(c.body, n))
    if len(ax) == 1:
        j = ax[0]
        var = vix(c.sizes, j)
        body = c.body
        # image of a mask
        if len(body.terms) == 1:
            (m, k), = body.terms.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1:
                at = P.ATOMS[m[0][0]]
                if at.op == "nth" and at.args[2] is topoly(var):
                    return P.lam_apply(at.args[0], [b]) if len(at.args[0].args[0]) == 1 else \
                        topoly(atom("member", P.lam([c.sizes[j]], body, [var]), b))
                if at.op == "nth":
                    # permutation of the selected elements (roll)
                    al = at.args[2]
                    if is_rotation(al, var) and len(at.args[0].args[0]) == 1:
                        return P.lam_apply(at.args[0], [b])
        # affine image
        co = body.terms.get(((var.id, 1),))
        if co is not None and co in (1, -1):
            rest = P.padd(body, P.pscale(topoly(var), -co))
            if var.id not in rest.leaves:
                q = P.pscale(P.padd(b, -rest), Fraction(1) / co)
                return in_range(q, c.sizes[j])
        return topoly(atom("member", P.lam([c.sizes[j]], body, [var]), b))
    I.unsupported("membership in multi-dimensional index array")


def is_rotation(al, var):
    """Does al(var) = (var - shift) mod n cover every index once?"""
    n = var.args[1]
    if len(al.terms) == 1:
        (m, k), = al.terms.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1:
            at = P.ATOMS[m[0][0]]
            if at.op == "mod" and at.args[1] is n:
                co = at.args[0].terms.get(((var.id, 1),))
                rest = P.padd(at.args[0], P.pscale(topoly(var), -1)) if co == 1 else None
                return rest is not None and var.id not in rest.leaves
    return False
