"""Canonical algebraic normal forms for the scalar part of the value graph.

A scalar is a polynomial with rational coefficients over hash-consed atoms.
Gates of the gated value graph (phi nodes of branches, masks, piecewise array
definitions) are encoded with idempotent *indicator* atoms [c] (c a condition),
so that a merge of the values a (if c) and b (otherwise) is b + [c]*(a - b).
Conditions are polynomials over the same indicators (values 0 and 1), which
makes the representation canonical for boolean functions.

All arithmetic is exact arithmetic over the reals: rounding is not modelled.
"""

from fractions import Fraction
from math import gcd

ATOMS = []          # id -> Atom
_ATOM_TABLE = {}
_POLY_TABLE = {}

# lower bound of the grid size symbol (see Sym N); used to decide index order
SIZE_LOWER = 12


class Atom:
    __slots__ = ("op", "args", "id", "ind", "isint", "leaves", "bvl", "special", "_inds")

    def __repr__(self):
        return show_atom(self)


LEAF_OPS = {"sym", "ix", "fv", "bv", "mu", "const"}


def atom(op, *args):
    key = (op, args)
    a = _ATOM_TABLE.get(key)
    if a is not None:
        return a
    a = Atom()
    a.op = op
    a.args = args
    a.id = len(ATOMS)
    a.ind = op in ("lt0", "gt0", "eqc", "ind", "isinf", "isnan", "member", "truth", "exists", "isT")
    a.isint = op in ("ix", "fv", "bv", "floor", "round", "trunc", "nth", "rank", "argmax", "argmin", "intsym", "len", "loopcount") \
        or (op == "sym" and len(args) > 1 and args[1] == "i") \
        or (op == "mod" and poly_isint(args[0]) and poly_isint(args[1]))
    # special atoms need the slow multiplication path
    a.special = a.ind or op in ("grp", "pow", "exp", "I", "nan")
    lv = set()
    bvl = -1
    if op in LEAF_OPS:
        lv.add(a.id)
        if op == "bv":
            bvl = args[0]
    for x in args:
        l, b = _leaves(x)
        lv |= l
        bvl = max(bvl, b)
    if op == "lam" or op == "sum":
        # own bound variables are not free
        lo, hi = args[1], args[1] + len(args[0])
        lv = {i for i in lv if ATOMS[i].op != "bv" or not lo <= ATOMS[i].args[0] < hi}
    a.leaves = frozenset(lv)
    a.bvl = bvl
    ATOMS.append(a)
    _ATOM_TABLE[key] = a
    return a


def _leaves(x):
    if isinstance(x, Poly):
        return x.leaves, x.bvl
    if isinstance(x, Atom):
        return x.leaves, x.bvl
    if isinstance(x, tuple):
        lv = frozenset()
        b = -1
        for y in x:
            l, bb = _leaves(y)
            lv = lv | l
            b = max(b, bb)
        return lv, b
    return frozenset(), -1


class Poly:
    __slots__ = ("terms", "leaves", "bvl", "_hash", "uid")
    _n = 0

    def __repr__(self):
        return show(self)

    # arithmetic
    def __add__(self, o):
        return padd(self, topoly(o))
    __radd__ = __add__

    def __sub__(self, o):
        return padd(self, pscale(topoly(o), Fraction(-1)))

    def __rsub__(self, o):
        return padd(topoly(o), pscale(self, Fraction(-1)))

    def __neg__(self):
        return pscale(self, Fraction(-1))

    def __mul__(self, o):
        return pmul(self, topoly(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return pmul(self, pinv(topoly(o)))

    def const(self):
        """Return the Fraction if constant, else None."""
        t = self.terms
        if not t:
            return Fraction(0)
        if len(t) == 1 and () in t:
            return t[()]
        return None

    def atoms(self):
        return {i for m in self.terms for i, _ in m}


def mk(terms):
    key = frozenset(terms.items())
    p = _POLY_TABLE.get(key)
    if p is not None:
        return p
    p = Poly()
    p.terms = terms
    lv = frozenset()
    b = -1
    seen = set()
    for m in terms:
        for i, _ in m:
            if i not in seen:
                seen.add(i)
                a = ATOMS[i]
                lv = lv | a.leaves
                if a.bvl > b:
                    b = a.bvl
    p.leaves = lv
    p.bvl = b
    p._hash = hash(key)
    p.uid = Poly._n
    Poly._n += 1
    _POLY_TABLE[key] = p
    return p


def const(c):
    c = Fraction(c)
    return mk({(): c}) if c else mk({})


ZERO = const(0)
ONE = const(1)


def topoly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return mk({((x.id, 1),): Fraction(1)})
    return const(x)


def P(a):
    return topoly(a)


def sym(name, kind="f"):
    return topoly(atom("sym", name, kind))


def padd(p, q):
    if not p.terms:
        return q
    if not q.terms:
        return p
    if len(p.terms) < len(q.terms):
        p, q = q, p
    t = dict(p.terms)
    for m, c in q.terms.items():
        s = t.get(m)
        if s is None:
            t[m] = c
        else:
            s = s + c
            if s:
                t[m] = s
            else:
                del t[m]
    return mk(t)


def pscale(p, c):
    if not c:
        return ZERO
    if c == 1:
        return p
    return mk({m: k * c for m, k in p.terms.items()})


_MUL_MEMO = {}
MAX_PRODUCT = 60000


class TooLarge(Exception):
    """A normal form exceeds the size the analysis is prepared to handle."""
    loc = None


def pmul(p, q):
    if not p.terms or not q.terms:
        return ZERO
    pc = p.const()
    if pc is not None:
        return pscale(q, pc)
    qc = q.const()
    if qc is not None:
        return pscale(p, qc)
    key = (p.uid, q.uid) if p.uid <= q.uid else (q.uid, p.uid)
    r = _MUL_MEMO.get(key)
    if r is not None:
        return r
    if len(p.terms) * len(q.terms) > MAX_PRODUCT:
        raise TooLarge("product of %d and %d terms" % (len(p.terms), len(q.terms)))
    acc = {}
    extra = []
    for m1, c1 in p.terms.items():
        for m2, c2 in q.terms.items():
            m, slow = mono_mul(m1, m2)
            if slow is not None:
                if slow.terms:
                    extra.append(pscale(slow, c1 * c2))
                continue
            c = c1 * c2
            s = acc.get(m)
            if s is None:
                acc[m] = c
            else:
                s += c
                if s:
                    acc[m] = s
                else:
                    del acc[m]
    r = mk(acc)
    if extra:
        # balanced summation
        acc = dict(r.terms)
        for e in extra:
            for m, c in e.terms.items():
                s = acc.get(m)
                if s is None:
                    acc[m] = c
                else:
                    s += c
                    if s:
                        acc[m] = s
                    else:
                        del acc[m]
        r = mk(acc)
    r = reduce_grp(r)
    _MUL_MEMO[key] = r
    return r


def mono_mul(m1, m2):
    """Product of two monomials: (monomial, None) or (None, Poly)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    special = False
    for i, e in m2:
        if i in d:
            d[i] += e
        else:
            d[i] = e
    for i in d:
        if ATOMS[i].special:
            special = True
            break
    if not special:
        return tuple(sorted((i, e) for i, e in d.items() if e)), None
    return _mono_special(d)


def _mono_special(d):
    out = {}
    order = []
    extra = []          # polys to multiply with
    expo = None
    nexp = 0
    coef = Fraction(1)
    for i, e in d.items():
        if not e:
            continue
        a = ATOMS[i]
        if not a.special:
            out[i] = e
        elif a.ind:
            if a.op in ("lt0", "gt0", "eqc"):
                order.append(i)
            else:
                out[i] = 1
        elif a.op == "grp":
            if e > 0:
                for _ in range(int(e)):
                    extra.append(a.args[0])
                if e != int(e):
                    out[i] = e - int(e)
            else:
                out[i] = e
        elif a.op == "pow":
            base, ex = a.args
            tot = ex * e
            if tot.denominator == 1:
                extra.append(ppow(base, int(tot)))
            else:
                whole = tot.numerator // tot.denominator
                frac = tot - whole
                if whole and not (len(d) == 1 and e == 1):
                    extra.append(ppow(base, whole))
                    b = powfrac(base, frac)
                    extra.append(b)
                else:
                    out[i] = e
        elif a.op == "exp":
            nexp += 1
            x = pscale(a.args[0], Fraction(e))
            expo = x if expo is None else padd(expo, x)
            if e != 1:
                nexp += 1
        elif a.op == "I":
            k = int(e) % 4
            if k in (2, 3):
                coef = -coef
            if k in (1, 3):
                out[i] = 1
        else:
            out[i] = 1
    if order:
        if len(order) > 1:
            order = reduce_order(order)
            if order is None:
                return None, ZERO
        for i in order:
            out[i] = 1
    if expo is not None:
        if nexp == 1:
            for i, e in d.items():
                if ATOMS[i].op == "exp":
                    out[i] = 1
        else:
            extra.append(fexp(expo))
    m = tuple(sorted(out.items()))
    if not extra and coef == 1:
        return m, None
    r = mk({m: coef}) if m else const(coef)
    for x in extra:
        r = pmul(r, x)
    return None, r


def reduce_order(ids):
    """Simplify a conjunction of ordering indicators (None: contradiction)."""
    ids = list(ids)
    changed = True
    while changed:
        changed = False
        for x in range(len(ids)):
            for y in range(x + 1, len(ids)):
                r = _pair(ids[x], ids[y])
                if r == 0:
                    continue
                if r == "contra":
                    return None
                if r == 1:      # first implies second: drop second
                    del ids[y]
                else:
                    del ids[x]
                changed = True
                break
            if changed:
                break
    return ids


_PAIR_MEMO = {}


def _pair(i, j):
    key = (i, j)
    r = _PAIR_MEMO.get(key)
    if r is None:
        r = _pair_raw(i, j)
        _PAIR_MEMO[key] = r
    return r


def _pair_raw(i, j):
    a, b = ATOMS[i], ATOMS[j]
    if a.op == "eqc" or b.op == "eqc":
        if a.op == b.op and a.args[0] is b.args[0] and a.args[1] != b.args[1]:
            return "contra"
        return 0
    neg = Fraction(-1)
    pa = a.args[0] if a.op == "lt0" else pscale(a.args[0], neg)     # holds where pa < 0
    pb = b.args[0] if b.op == "lt0" else pscale(b.args[0], neg)
    d = padd(pb, pscale(pa, neg))
    if len(d.terms) <= 3:
        s = sign(d)
        if s is not None:
            return -1 if s > 0 else 1
    d = padd(pa, pb)
    if len(d.terms) <= 3:
        s = sign(d)
        if s is not None and s >= 0:
            return "contra"
    return 0


# --- sign and bounds ------------------------------------------------------

POSITIVE = set()    # ids of atoms known to be strictly positive


def declare_positive(p):
    (m, c), = p.terms.items()
    ((i, e),) = m
    POSITIVE.add(i)


def _lin_bounds(p, want_low, depth=0):
    """Lower (upper) bound of p as a Fraction, or None if unknown."""
    # eliminate index variables, innermost sizes first
    for _ in range(8):
        ixs = [ATOMS[i] for i in p.atoms() if ATOMS[i].op in ("ix", "fv", "bv")]
        if not ixs:
            break
        a = ixs[0]
        size = a.args[1] if a.op != "ix" else a.args[1]
        c = None
        rest = {}
        for m, k in p.terms.items():
            if any(i == a.id for i, _ in m):
                if len(m) != 1 or m[0][1] != 1:
                    return None
                c = k
            else:
                rest[m] = k
        rest = mk(rest)
        low = (c > 0) == want_low
        if low:
            p = rest
        else:
            if size is None:
                return None
            p = padd(rest, pscale(padd(size, const(-1)), c))
    # now linear in size symbols with known lower bound
    tot = Fraction(0)
    for m, k in p.terms.items():
        if m == ():
            tot += k
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].op == "sym" and ATOMS[m[0][0]].args[0] in SIZE_SYMS:
            if (k > 0) == want_low:
                tot += k * SIZE_SYMS[ATOMS[m[0][0]].args[0]]
            else:
                return None
        elif all(_nonneg(i, e) for i, e in m):
            if (k > 0) != want_low:
                return None
        else:
            return None
    return tot


def _nonneg(i, e):
    a = ATOMS[i]
    return i in POSITIVE or a.ind or a.op in ("exp", "pi") or (e == int(e) and int(e) % 2 == 0) \
        or a.op in ("count", "len", "loopcount") or (a.op in ("nth", "rank", "argmax", "argmin") and e > 0)


SIZE_SYMS = {"N": SIZE_LOWER}


def sign(p):
    """1 / -1 / 0 if the sign of p is known, else None.

    1 means p > 0, -1 means p < 0, 0 means p == 0.
    """
    c = p.const()
    if c is not None:
        return (c > 0) - (c < 0)
    # single monomial of positive atoms
    if len(p.terms) == 1:
        (m, k), = p.terms.items()
        if all((i in POSITIVE or ATOMS[i].op in ("exp", "pi")
                or (ATOMS[i].op == "sym" and ATOMS[i].args[0] in SIZE_SYMS)) for i, _ in m):
            return 1 if k > 0 else -1
    lo = _lin_bounds(p, True)
    if lo is not None and lo > 0:
        return 1
    hi = _lin_bounds(p, False)
    if hi is not None and hi < 0:
        return -1
    return None


def poly_isint(p):
    if not isinstance(p, Poly):
        return isinstance(p, int)
    for m, c in p.terms.items():
        if c.denominator != 1:
            return False
        for i, e in m:
            if e < 0 or e != int(e):
                return False
            a = ATOMS[i]
            if not (a.isint or a.ind or (a.op == "sum" and poly_isint(a.args[2]))):
                return False
    return True


# --- indicators -----------------------------------------------------------

MAX_SHANNON = 9


def indicators(p):
    return sorted({i for m in p.terms for i, _ in m if ATOMS[i].ind})


def cofactors(p, i):
    """(p given [i]=1, p given [i]=0)"""
    a = topoly(ATOMS[i])
    ap = pmul(a, p)
    t1 = {}
    for m, c in ap.terms.items():
        m2 = tuple(x for x in m if x[0] != i)
        s = t1.get(m2, 0) + c
        if s:
            t1[m2] = s
        else:
            t1.pop(m2, None)
    d = padd(p, pscale(ap, Fraction(-1)))
    t0 = {m: c for m, c in d.terms.items() if not any(x[0] == i for x in m)}
    return mk(t1), mk(t0)


def shannon(f, p, *rest):
    """f(p) with the indicators of p moved out of the function."""
    inds = indicators(p)
    if not inds:
        return f(p, *rest)
    if len(inds) > MAX_SHANNON:
        return None
    i = inds[0]
    p1, p0 = cofactors(p, i)
    a = topoly(ATOMS[i])
    r1 = shannon(f, p1, *rest)
    r0 = shannon(f, p0, *rest)
    if r1 is None or r0 is None:
        return None
    if r1 is r0:
        return r1
    return padd(r0, pmul(a, padd(r1, pscale(r0, Fraction(-1)))))


def ite(c, a, b):
    if a is b:
        return a
    k = c.const()
    if k is not None:
        return a if k == 1 else b
    return padd(b, pmul(c, padd(a, pscale(b, Fraction(-1)))))


def NOT(c):
    return padd(ONE, pscale(c, Fraction(-1)))


def AND(*cs):
    r = ONE
    for c in cs:
        r = pmul(r, c)
    return r


def OR(*cs):
    r = ZERO
    for c in cs:
        r = padd(r, padd(c, pscale(pmul(r, c), Fraction(-1))))
    return r


def _lead(p):
    """Leading (non-constant) monomial, by a canonical order."""
    return max((m for m in p.terms if m), key=_mkey)


def _mkey(m):
    return tuple(sorted(m))


def inf_split(p):
    """p = q*inf + r (q is ZERO for finite terms)"""
    r = _INF_MEMO.get(p.uid)
    if r is None:
        q, rest = {}, {}
        for m, c in p.terms.items():
            d = dict(m)
            if d.pop(INF_ID, 0) > 0:
                q[tuple(sorted(d.items()))] = c
            else:
                rest[m] = c
        r = (mk(q), mk(rest)) if q else (ZERO, p)
        _INF_MEMO[p.uid] = r
    return r


_INF_MEMO = {}


def inf_mul(a, b):
    """Product with infinite alternatives: infinite with the product of the signs, undefined for zero."""
    ca, ra = inf_split(a)
    cb, rb = inf_split(b)
    neg = lambda x: pscale(x, Fraction(-1))
    pa, na, pb, nb = lt0(neg(ca)), lt0(ca), lt0(neg(cb)), lt0(cb)
    ia, ib = padd(pa, na), padd(pb, nb)
    # signs of the factors
    sa = padd(padd(pa, neg(na)), pmul(NOT(ia), padd(lt0(neg(ra)), neg(lt0(ra)))))
    sb = padd(padd(pb, neg(nb)), pmul(NOT(ib), padd(lt0(neg(rb)), neg(lt0(rb)))))
    anyinf = OR(ia, ib)
    s = pmul(anyinf, pmul(sa, sb))
    zero = AND(anyinf, NOT(pmul(pmul(sa, sa), pmul(sb, sb))))
    fin = pmul(pmul(NOT(ia), ra), pmul(NOT(ib), rb))
    return padd(padd(pmul(INF, s), pmul(topoly(atom("nan")), zero)), fin)


def _lt0(p):
    c = p.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    q = inf_split(p)[0]
    if q.terms:
        return lt0(q)
    s = sign(p)
    if s is not None:
        return ONE if s < 0 else ZERO
    lo = _lin_bounds(p, True)
    if lo is not None and lo >= 0:
        return ZERO
    # strip positive common factors
    p = strip_positive(p)
    lead = _lead(p)
    k = p.terms[lead]
    if poly_isint_up_to_scale(p):
        # p = k0*(sum of integer terms) + const < 0
        g = 0
        den = 1
        for m, c in p.terms.items():
            if m:
                den = den * c.denominator // gcd(den, c.denominator)
        for m, c in p.terms.items():
            if m:
                g = gcd(g, int(c * den))
        sc = Fraction(den, g)
        q = pscale(p, sc)
        c0 = q.terms.get((), Fraction(0))
        v = padd(q, const(-c0))         # integer valued; v < -c0
        # v < -c0  <=>  v <= ceil(-c0) - 1  <=> v - ceil(-c0) < 0
        b = -((c0.numerator) // c0.denominator)     # ceil(-c0) = -floor(c0)
        if v.terms[_lead(v)] > 0:
            return topoly(atom("lt0", padd(v, const(-b))))
        # -w < b  <=> w > -b <=> not (w < -b + 1)
        w = pscale(v, Fraction(-1))
        return NOT(_lt0_int(padd(w, const(b - 1))))
    p = pscale(p, 1 / abs(k))
    if k > 0:
        return topoly(atom("lt0", p))
    return topoly(atom("gt0", pscale(p, Fraction(-1))))


def _lt0_int(p):
    c = p.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    s = sign(p)
    if s is not None:
        return ONE if s < 0 else ZERO
    lo = _lin_bounds(p, True)
    if lo is not None and lo >= 0:
        return ZERO
    return topoly(atom("lt0", p))


def strip_positive(p):
    common = None
    for m in p.terms:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {i: min(e, d[i]) if (e > 0) == (d[i] > 0) else 0
                      for i, e in common.items() if i in d}
            common = {i: (e if e > 0 else max(common[i], d.get(i, 0))) for i, e in common.items() if e}
    if not common:
        return p
    div = []
    for i, e in common.items():
        a = ATOMS[i]
        if i in POSITIVE or a.op in ("exp", "pi") or (a.op == "sym" and a.args[0] in SIZE_SYMS):
            div.append((i, -e))
        elif a.op not in ("I",) and not a.ind and e == int(e) and False:
            pass
    if not div:
        return p
    r = p
    return pmul(r, mk({tuple(sorted(div)): Fraction(1)}))


def poly_isint_up_to_scale(p):
    for m, c in p.terms.items():
        for i, e in m:
            if e < 0 or e != int(e):
                return False
            a = ATOMS[i]
            if not (a.isint or a.ind or (a.op == "sum" and poly_isint(a.args[2]))):
                return False
    return True


def lt0(p):
    r = shannon(_lt0, p)
    if r is None:
        r = topoly(atom("ind", "lt0", p))
    return r


def lt(a, b):
    return lt0(padd(a, pscale(b, Fraction(-1))))


def le(a, b):
    return NOT(lt(b, a))


def eq(a, b):
    if a is b:
        return ONE
    d = padd(a, pscale(b, Fraction(-1)))
    if is_zero(d):
        return ONE
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    # d == 0  <=>  not (d<0) and not (d>0)
    l, g = lt0(d), lt0(pscale(d, Fraction(-1)))
    return padd(ONE, pscale(padd(l, g), Fraction(-1)))


def eqc(key, c):
    """Indicator: opaque value (Atom) equals the python constant c."""
    return topoly(atom("eqc", key, c))


# --- powers, inverses -----------------------------------------------------

def ppow(p, n):
    if n < 0:
        return pinv(ppow(p, -n))
    r = ONE
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def content(p):
    """Split p = c * m * q with monomial m, primitive q (leading coeff 1)."""
    common = None
    for m in p.terms:
        d = {i: e for i, e in m}
        if common is None:
            common = d
        else:
            nc = {}
            for i in set(common) | set(d):
                e1, e2 = common.get(i, 0), d.get(i, 0)
                e = min(e1, e2)
                if e:
                    nc[i] = e
            common = nc
    common = {i: e for i, e in common.items() if not ATOMS[i].ind and ATOMS[i].op not in ("exp", "I")}
    mono = tuple(sorted(common.items()))
    inv = tuple((i, -e) for i, e in mono)
    q = p
    if inv:
        t = {}
        for m, c in p.terms.items():
            d = dict(m)
            for i, e in inv:
                d[i] = d.get(i, 0) + e
            t[tuple(sorted((i, e) for i, e in d.items() if e))] = c
        q = mk(t)
    lead = max(q.terms, key=_mkey)
    c = q.terms[lead]
    q = pscale(q, 1 / c)
    return c, mono, q


def _pinv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return topoly(atom("zerodiv"))
        return const(1 / c)
    if inf_split(p)[0].terms:
        return ZERO
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        r = const(1 / c)
        rest = []
        for i, e in m:
            a = ATOMS[i]
            if a.op == "exp":
                r = pmul(r, fexp(pscale(a.args[0], Fraction(-e))))
            elif a.op == "I":
                r = pmul(r, ppow(pscale(topoly(a), Fraction(-1)), int(e)))
            elif a.special and a.op == "grp":
                r = pmul(r, ppow(a.args[0], int(-e))) if e < 0 else pmul(r, mk({((i, -e),): Fraction(1)}))
            else:
                rest.append((i, -e))
        if rest:
            r = pmul(r, mk({tuple(rest): Fraction(1)}))
        return r
    c, mono, q = content(p)
    r = const(1 / c)
    if mono:
        r = pmul(r, _pinv(mk({mono: Fraction(1)})))
    if q.const() is not None:
        return pscale(r, 1 / q.const())
    g = atom("grp", q)
    return pmul(r, mk({((g.id, -1),): Fraction(1)}))


def linear_in(p, a):
    """(k, r) with p = k*a + r and k, r free of the atom a"""
    k, r = ZERO, ZERO
    for m, c in p.terms.items():
        d = dict(m)
        e = d.pop(a.id, 0)
        rest = mk({tuple(x for x in m if x[0] != a.id): c})
        if any(a.id in ATOMS[i].leaves for i in d):
            return None
        if e == 0:
            r = padd(r, rest)
        elif e == 1:
            k = padd(k, rest)
        else:
            return None
    return (k, r) if k is not ZERO else None


def single(p, op):
    """The atom that p consists of, if it is one of this kind."""
    if len(p.terms) == 1:
        (m, k), = p.terms.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].op == op:
            return ATOMS[m[0][0]]
    return None


def pinv(p):
    r = shannon(_pinv, p)
    if r is None:
        g = atom("grp", p)
        r = mk({((g.id, -1),): Fraction(1)})
    return r


def powfrac(p, e):
    """p ** e for a non-integer rational e."""
    c = p.const()
    if c is not None and c == 0 and e > 0:
        return ZERO
    if c is not None and c == 1:
        return ONE

    def f(q):
        c = q.const()
        if c is not None:
            if c in (0, 1):
                return const(c) if e > 0 or c == 1 else topoly(atom("zerodiv"))
            if e.denominator == 2 and c > 0:
                from math import isqrt
                n, d = isqrt(c.numerator), isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return ppow(const(Fraction(n, d)), e.numerator)
            return topoly(atom("pow", q, e))
        # factor out positive atoms and rational squares
        k, mono, prim = content(q)
        out = ONE
        inner = []
        for i, ex in mono:
            if ATOMS[i].op == "inf" and ex > 0 and e > 0:
                out = pmul(out, mono_pow(i, 1))
            elif i in POSITIVE or ATOMS[i].op == "pi" or (ATOMS[i].op == "sym" and ATOMS[i].args[0] in SIZE_SYMS):
                out = pmul(out, mono_pow(i, ex * e))
            else:
                inner.append((i, ex))
        base = pmul(mk({tuple(inner): Fraction(1)}), prim) if inner else prim
        if k > 0:
            kk = f(const(k))
            bc = base.const()
            if bc is not None and bc == 1:
                return pmul(out, kk)
            return pmul(pmul(out, kk), topoly(atom("pow", base, e)))
        return pmul(out, topoly(atom("pow", pscale(base, k), e)))
    r = shannon(f, p)
    if r is None:
        r = topoly(atom("pow", p, e))
    return r


def mono_pow(i, e):
    if e == int(e):
        return mk({((i, int(e)),): Fraction(1)})
    return topoly(atom("pow", topoly(ATOMS[i]), Fraction(e)))


def power(p, q):
    """p ** q"""
    c = q.const()
    if c is not None:
        if c.denominator == 1 and abs(c) <= 64:
            if not indicators(p) or c > 0 and c <= 3:
                return ppow(p, int(c))
            r = shannon(lambda x: ppow(x, int(c)), p)
            return r if r is not None else ppow(p, int(c))
        if c.denominator != 1:
            return powfrac(p, c)
    pc = p.const()
    if pc is not None and pc == 1:
        return ONE

    def f(b):
        bc = b.const()
        if bc is not None and bc == 1:
            return ONE
        return topoly(atom("powv", b, q))
    r = shannon(f, p)
    return r if r is not None else f(p)


# --- grp reduction --------------------------------------------------------

def reduce_grp(p):
    """Divide numerators by denominators where the quotient is not trivial."""
    grps = {i for m in p.terms for i, e in m if ATOMS[i].op == "grp" and e < 0}
    if not grps:
        return p
    for g in sorted(grps):
        Q = ATOMS[g].args[0]
        if len(Q.terms) > 40:
            continue
        lead = max(Q.terms, key=_mkey)
        lc = Q.terms[lead]
        ld = dict(lead)
        # group by exponent of g
        for _round in range(50):
            target = None
            byexp = {}
            for m, c in p.terms.items():
                e = dict(m).get(g, 0)
                if e < 0:
                    byexp.setdefault(e, []).append((m, c))
            done = True
            for e in sorted(byexp):
                for m, c in byexp[e]:
                    d = dict(m)
                    d.pop(g)
                    if all(d.get(i, 0) >= x for i, x in ld.items()):
                        # m = q * lead
                        qd = {i: x for i, x in d.items()}
                        for i, x in ld.items():
                            qd[i] -= x
                        qm = tuple(sorted((i, x) for i, x in qd.items() if x))
                        target = (m, c, e, qm)
                        break
                if target:
                    break
            if not target:
                break
            m, c, e, qm = target
            # c*qm*lead*g^e = c/lc*qm*g^(e+1) - c/lc*qm*(Q-lc*lead)*g^e
            new = dict(p.terms)
            del new[m]
            p = mk(new)
            k = c / lc
            t1 = mk({qm: k})
            if e + 1:
                t1 = _rawmul(t1, mk({((g, e + 1),): Fraction(1)}))
            p = padd(p, t1)
            rest = mk({mm: cc for mm, cc in Q.terms.items() if mm != lead})
            t2 = _rawmul(mk({qm: k}), rest)
            t2 = _rawmul(t2, mk({((g, e),): Fraction(1)}))
            p = padd(p, pscale(t2, Fraction(-1)))
    return p


def _rawmul(p, q):
    acc = ZERO
    for m1, c1 in p.terms.items():
        for m2, c2 in q.terms.items():
            m, slow = mono_mul(m1, m2)
            acc = padd(acc, pscale(slow, c1 * c2) if slow is not None else mk({m: c1 * c2}))
    return acc


def is_zero(p):
    """Decide whether a polynomial is identically zero (clears denominators)."""
    if not p.terms:
        return True
    for _ in range(6):
        grps = {}
        for m in p.terms:
            for i, e in m:
                if ATOMS[i].op == "grp" and e < 0:
                    grps[i] = min(grps.get(i, 0), e)
        if not grps:
            return not p.terms
        g = min(grps)
        e = -grps[g]
        Q = ATOMS[g].args[0]
        acc = ZERO
        for m, c in p.terms.items():
            d = dict(m)
            k = d.pop(g, 0) + e
            t = mk({tuple(sorted(d.items())): c})
            acc = padd(acc, pmul_noreduce(t, ppow(Q, int(k))))
        p = acc
    return not p.terms


def pmul_noreduce(p, q):
    return _rawmul(p, q)


def equal(p, q):
    return p is q or is_zero(padd(p, pscale(q, Fraction(-1))))


# --- elementary functions -------------------------------------------------

PI = topoly(atom("pi"))
INF = topoly(atom("inf"))
I = topoly(atom("I"))
INF_ID = atom("inf").id
POSITIVE.add(INF_ID)


def _signnorm(p):
    """(sign, p') with a canonical sign of the leading coefficient."""
    lead = max(p.terms, key=_mkey)
    if p.terms[lead] < 0:
        return -1, pscale(p, Fraction(-1))
    return 1, p


def _pi_multiple(p):
    """Fraction c if p == c*pi, else None"""
    if not p.terms:
        return Fraction(0)
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if m == ((atom("pi").id, 1),):
            return c
    return None


def _fsin(p):
    c = _pi_multiple(p)
    if c is not None:
        c = c % 2
        t = {Fraction(0): 0, Fraction(1, 2): 1, Fraction(1): 0, Fraction(3, 2): -1,
             Fraction(1, 6): Fraction(1, 2), Fraction(5, 6): Fraction(1, 2),
             Fraction(7, 6): Fraction(-1, 2), Fraction(11, 6): Fraction(-1, 2)}
        if c in t:
            return const(t[c])
    s, q = _signnorm(p)
    return pscale(topoly(atom("sin", q)), Fraction(s))


def _fcos(p):
    c = _pi_multiple(p)
    if c is not None:
        c = c % 2
        t = {Fraction(0): 1, Fraction(1, 2): 0, Fraction(1): -1, Fraction(3, 2): 0,
             Fraction(1, 3): Fraction(1, 2), Fraction(2, 3): Fraction(-1, 2),
             Fraction(4, 3): Fraction(-1, 2), Fraction(5, 3): Fraction(1, 2)}
        if c in t:
            return const(t[c])
    s, q = _signnorm(p)
    return topoly(atom("cos", q))


def fsin(p):
    # sin(x + pi/2 * k) normalisation
    k = p.terms.get(((atom("pi").id, 1),))
    if k is not None and len(p.terms) > 1 and (2 * k).denominator == 1 and not indicators(p):
        rest = padd(p, pscale(PI, -k))
        n = int(2 * k) % 4
        return [_fsin(rest), _fcos(rest), -_fsin(rest), -_fcos(rest)][n]
    r = shannon(fsin if indicators(p) else _fsin, p)
    return r if r is not None else topoly(atom("sin", p))


def fcos(p):
    k = p.terms.get(((atom("pi").id, 1),))
    if k is not None and len(p.terms) > 1 and (2 * k).denominator == 1 and not indicators(p):
        rest = padd(p, pscale(PI, -k))
        n = int(2 * k) % 4
        return [_fcos(rest), -_fsin(rest), -_fcos(rest), _fsin(rest)][n]
    r = shannon(fcos if indicators(p) else _fcos, p)
    return r if r is not None else topoly(atom("cos", p))


def fexp(p):
    def f(q):
        if not q.terms:
            return ONE
        return topoly(atom("exp", q))
    r = shannon(f, p)
    return r if r is not None else f(p)


def fabs(p):
    return ite(lt0(p), -p, p)


def fmax(a, b):
    return ite(lt(a, b), b, a)


def fmin(a, b):
    return ite(lt(b, a), b, a)


def ffloor(p):
    def f(q):
        ip = {}
        rest = {}
        for m, c in q.terms.items():
            t = mk({m: c})
            if poly_isint(t):
                ip[m] = c
            elif m == ():
                fl = c.numerator // c.denominator
                if fl:
                    ip[m] = Fraction(fl)
                if c - fl:
                    rest[m] = c - fl
            else:
                rest[m] = c
        ip, rest = mk(ip), mk(rest)
        c = rest.const()
        if c is not None:
            return padd(ip, const(c.numerator // c.denominator))
        # 0 <= rest < 1 by the ranges of the index variables
        den = {}
        for m in rest.terms:
            for i, e in m:
                if e < 0 and ATOMS[i].op == "sym" and ATOMS[i].args[0] in SIZE_SYMS:
                    den[i] = max(den.get(i, 0), -e)
        D = mk({tuple(sorted(den.items())): Fraction(1)}) if den else ONE
        num = pmul(rest, D)
        lo = _lin_bounds(num, True)
        hi = _lin_bounds(padd(num, pscale(D, Fraction(-1))), False)
        if lo is not None and lo >= 0 and hi is not None and hi < 0:
            return ip
        return padd(ip, topoly(atom("floor", rest)))
    r = shannon(f, p)
    return r if r is not None else f(p)


def fround(p):
    def f(q):
        if poly_isint(q):
            return q
        c = q.const()
        if c is not None:
            return const(round(c))
        return topoly(atom("round", q))
    r = shannon(f, p)
    return r if r is not None else f(p)


def ftrunc(p):
    def f(q):
        if poly_isint(q):
            return q
        c = q.const()
        if c is not None:
            return const(int(c))
        return topoly(atom("trunc", q))
    r = shannon(f, p)
    return r if r is not None else f(p)


def fmod(p, q):
    """Python modulo p % q"""
    def f(x):
        c, k = x.const(), q.const()
        if c is not None and k is not None and k != 0:
            return const(c - k * ((c / k).numerator // (c / k).denominator))
        if not x.terms:
            return ZERO
        # 0 <= x < q
        lo = _lin_bounds(x, True)
        hi = _lin_bounds(padd(x, pscale(q, Fraction(-1))), False)
        if lo is not None and lo >= 0 and hi is not None and hi < 0:
            return x
        # -q <= x < 0
        if hi is not None:
            lo2 = _lin_bounds(padd(x, q), True)
            hi2 = _lin_bounds(x, False)
            if lo2 is not None and lo2 >= 0 and hi2 is not None and hi2 < 0:
                return padd(x, q)
        # drop integer multiples of q
        if len(q.terms) == 1 and poly_isint(q) and (k is None or k > 0):
            qi = pinv(q)
            keep = {m: c for m, c in x.terms.items() if not poly_isint(pmul(mk({m: c}), qi))}
            if len(keep) < len(x.terms):
                return f(mk(keep))
        if k is not None and k != 0:
            c0 = x.terms.get((), Fraction(0))
            n = (c0 / k).numerator // (c0 / k).denominator
            x = padd(x, const(-n * k))
        else:
            (ml, cl), = q.terms.items() if len(q.terms) == 1 else ((None, None),)
            if ml is not None and ml in x.terms:
                r = x.terms[ml] / cl
                n = r.numerator // r.denominator
                if n:
                    x = padd(x, pscale(q, Fraction(-n)))
                    return f(x)
        if k == 1 and poly_isint(x):
            return ZERO
        return topoly(atom("mod", x, q))
    r = shannon(f, p)
    return r if r is not None else f(p)


def app(name, *args):
    """Opaque function application (not normalised any further)."""
    return topoly(atom(name, *args))


UNARY = {}


def unary(name, p):
    """Uninterpreted scalar function."""
    def f(q):
        return topoly(atom("fn", name, q))
    r = shannon(f, p)
    return r if r is not None else f(p)


def farcsin(p):
    c = p.const()
    if c is not None and c in (0, 1, -1):
        return pscale(PI, c / 2)

    def f(q):
        c = q.const()
        if c is not None and c in (0, 1, -1):
            return pscale(PI, c / 2)
        s, q = _signnorm(q)
        return pscale(topoly(atom("fn", "arcsin", q)), Fraction(s))
    r = shannon(f, p)
    return r if r is not None else f(p)


def isinf(p):
    def f(q):
        c = q.const()
        if c is not None:
            return ZERO
        if len(q.terms) == 1:
            (m, c), = q.terms.items()
            if m == ((INF_ID, 1),):
                return ONE
        ci = inf_split(q)[0].const()
        if ci:
            return ONE
        s, q = _signnorm(q)
        return topoly(atom("isinf", q))
    r = shannon(f, p)
    return r if r is not None else f(p)


def isnan(p):
    def f(q):
        if q.const() is not None:
            return ZERO
        s, q = _signnorm(q)
        return topoly(atom("isnan", q))
    r = shannon(f, p)
    return r if r is not None else f(p)


# --- binders --------------------------------------------------------------

def close(polys, variables):
    """Replace variables (Atoms) by bound variables; returns (level, polys)."""
    lvl = max([p.bvl for p in polys] + [-1]) + 1
    mp = {}
    for k, v in enumerate(variables):
        size = v.args[1]
        mp[v.id] = topoly(atom("bv", lvl + k, size))
    return lvl, [subst(p, mp) for p in polys]


def psum(body, var):
    """Sum of body over the index variable var (Atom with size in args[1])."""
    size = var.args[1]
    # sum over the elements selected by a mask: sum over all elements
    cm = count_mask(size)
    if cm is not None:
        r = sum_over_mask(body, var, cm)
        if r is not None:
            return r
    total = ZERO
    for m, c in body.terms.items():
        indep = []
        dep = []
        for i, e in m:
            (dep if var.id in ATOMS[i].leaves else indep).append((i, e))
        if not dep:
            total = padd(total, pmul(mk({m: c}), size))
            continue
        # range conditions on the variable: keep (canonical by construction)
        dp = mk({tuple(dep): Fraction(1)})
        ip = mk({tuple(indep): c})
        total = padd(total, pmul(ip, _sumatom(dp, [var])))
    return total


def _sumatom(dp, variables):
    # polynomial summand in the index only: power sums
    v = variables[0]
    if len(variables) == 1 and len(dp.terms) == 1:
        (m, c), = dp.terms.items()
        # nested sum over an independent variable: flatten
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].op == "sum":
            inner = ATOMS[m[0][0]]
            sizes, _, body = inner.args
            # open the inner sum with fresh variables
            fresh = [fresh_var(s) for s in sizes]
            mp = {}
            lv = inner_levels(inner)
            for a, l, s in zip(fresh, lv, sizes):
                mp[atom("bv", l, s).id] = topoly(a)
            return _sumatom(subst(body, mp), fresh + [v])
        if len(m) == 1 and m[0][0] == v.id and m[0][1] in (1, 2):
            n = v.args[1]
            if m[0][1] == 1:
                return pscale(pmul(n, padd(n, const(-1))), c / 2)
    vs = sorted(variables, key=lambda a: a.args[1].uid)
    lvl, (b,) = close([dp], vs)
    sizes = tuple(subst(a.args[1], {}) for a in vs)
    return topoly(atom("sum", sizes, lvl, b))


def inner_levels(a):
    return [a.args[1] + k for k in range(len(a.args[0]))]


_FRESH = [0]


def fresh_var(size, tag="v"):
    _FRESH[0] += 1
    return atom("fv", tag + str(_FRESH[0]), size)


def ix(axis, size):
    return atom("ix", axis, size)


def lam(sizes, body, variables):
    """Closed array term (hashable, alpha-canonical)."""
    lvl, (b,) = close([body], variables)
    return atom("lam", tuple(sizes), lvl, b)


def lam_levels(a):
    sizes, lvl, b = a.args
    return [lvl + k for k in range(len(sizes))]


def lam_apply(a, args):
    sizes, lvl, b = a.args
    mp = {}
    for k, (s, x) in enumerate(zip(sizes, args)):
        mp[atom("bv", lvl + k, s).id] = x
    return subst(b, mp)


# masks: count(mask) = number of selected elements; the alpha-th selected
# element has index nth(mask, axis, alpha); rank(mask, i...) is its inverse

def count_of(mask_lam):
    sizes, lvl, b = mask_lam.args
    fresh = [fresh_var(s) for s in sizes]
    body = lam_apply(mask_lam, [topoly(f) for f in fresh])
    r = body
    for f in fresh:
        r = psum(r, f)
    c = r.const()
    if c is not None or b.const() is not None:
        return r
    COUNTS[r.uid] = mask_lam
    return r


COUNTS = {}


def count_mask(size):
    return COUNTS.get(size.uid)


def sum_over_mask(body, var, mask):
    sizes = mask.args[0]
    fresh = [fresh_var(s) for s in sizes]
    mp = {}
    for k in range(len(sizes)):
        mp[atom("nth", mask, k, topoly(var)).id] = topoly(fresh[k])
    b = subst_atoms(body, mp)
    if var.id in b.leaves:
        return None
    r = pmul(lam_apply(mask, [topoly(f) for f in fresh]), b)
    for f in fresh:
        r = psum(r, f)
    return r


def nth(mask, axis, alpha):
    # every element is selected
    if mask.args[2] is ONE and len(mask.args[0]) == 1:
        return alpha
    # nth(mask, k, rank(mask, i...)) = i_k
    if len(alpha.terms) == 1:
        (m, c), = alpha.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if a.op == "rank" and a.args[0] is mask:
                return a.args[1][axis]
    return topoly(atom("nth", mask, axis, alpha))


def rank(mask, idx):
    return topoly(atom("rank", mask, tuple(idx)))


# --- substitution ---------------------------------------------------------

def subst(p, mp):
    """Simultaneous substitution of leaf atoms (ids) by polynomials."""
    if not mp:
        return p
    keys = frozenset(mp)
    memo = {}
    return _subst(p, mp, keys, memo)


def _subst(p, mp, keys, memo):
    if not (p.leaves & keys):
        return p
    r = memo.get(p.uid)
    if r is not None:
        return r
    acc = ZERO
    for m, c in p.terms.items():
        t = None
        plain = []
        for i, e in m:
            a = ATOMS[i]
            if a.leaves & keys:
                b = _subst_atom(a, mp, keys, memo)
                if b is None:
                    plain.append((i, e))
                    continue
                if e == int(e):
                    b = ppow(b, int(e)) if e > 0 else pinv(ppow(b, int(-e)))
                else:
                    b = powfrac(b, Fraction(e))
                t = b if t is None else pmul(t, b)
                if not t.terms:
                    break
            else:
                plain.append((i, e))
        if t is not None and not t.terms:
            continue
        q = mk({tuple(plain): c}) if plain else const(c)
        acc = padd(acc, q if t is None else pmul(q, t))
    acc = reduce_grp(acc)
    memo[p.uid] = acc
    return acc


def _subst_atom(a, mp, keys, memo):
    if a.id in mp:
        return mp[a.id]
    k = ("a", a.id)
    r = memo.get(k)
    if r is not None:
        return r
    if a.op in ("lam", "sum"):
        r = _subst_binder(a, mp, keys, memo)
    else:
        args = tuple(_subst_arg(x, mp, keys, memo) for x in a.args)
        r = rebuild(a.op, args)
    memo[k] = r
    return r


def _subst_binder(a, mp, keys, memo):
    """Open the binder before its body is substituted: what is substituted may contain bound variables."""
    sizes, lvl, body = a.args
    sizes = _subst_arg(sizes, mp, keys, memo)
    fresh = [fresh_var(s) for s in sizes]
    own = {}
    for i in body.leaves:
        at = ATOMS[i]
        if at.op == "bv" and lvl <= at.args[0] < lvl + len(sizes):
            own[i] = topoly(fresh[at.args[0] - lvl])
    if own:
        m2 = {i: v for i, v in mp.items() if i not in own}
        m2.update(own)
        b = _subst(body, m2, frozenset(m2), {})
    else:
        b = _subst(body, mp, keys, memo)
    if a.op == "lam":
        return topoly(lam(sizes, b, fresh))
    for f in fresh:
        b = psum(b, f)
    return b


def _subst_arg(x, mp, keys, memo):
    if isinstance(x, Poly):
        return _subst(x, mp, keys, memo)
    if isinstance(x, Atom):
        if not (x.leaves & keys):
            return x
        r = _subst_atom(x, mp, keys, memo)
        if isinstance(r, Poly) and len(r.terms) == 1:
            (m, c), = r.terms.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return r
    if isinstance(x, tuple):
        return tuple(_subst_arg(y, mp, keys, memo) for y in x)
    return x


def subst_atoms(p, mp):
    """Substitute arbitrary (compound) atoms by polynomials."""
    memo = {}
    # atoms below a binder are given with its variables: leave the binder closed
    bound = any(ATOMS[j].op == "bv" for i in mp for j in ATOMS[i].leaves)

    def go(q):
        r = memo.get(q.uid)
        if r is not None:
            return r
        acc = ZERO
        for m, c in q.terms.items():
            t = const(c)
            for i, e in m:
                b = goatom(ATOMS[i])
                if e == int(e):
                    b = ppow(b, int(e)) if e > 0 else pinv(ppow(b, int(-e)))
                else:
                    b = powfrac(b, Fraction(e))
                t = pmul(t, b)
            acc = padd(acc, t)
        memo[q.uid] = acc
        return acc

    def goatom(a):
        if a.id in mp:
            return mp[a.id]
        if a.op in LEAF_OPS or not a.args:
            return topoly(a)
        k = ("a", a.id)
        if k in memo:
            return memo[k]
        if a.op in ("lam", "sum") and not bound:
            # substitute in the opened body
            sizes = tuple(goarg(x) for x in a.args[0])
            fresh = [fresh_var(s) for s in sizes]
            own = {}
            for i in a.args[2].leaves:
                at = ATOMS[i]
                if at.op == "bv" and a.args[1] <= at.args[0] < a.args[1] + len(sizes):
                    own[i] = topoly(fresh[at.args[0] - a.args[1]])
            b0 = subst(a.args[2], own) if own else a.args[2]
            b = go(b0)
            if b is b0 and sizes == a.args[0]:
                r = topoly(a)
            elif a.op == "lam":
                r = topoly(lam(sizes, b, fresh))
            else:
                for f in fresh:
                    b = psum(b, f)
                r = b
        else:
            args = tuple(goarg(x) for x in a.args)
            r = topoly(a) if args == a.args else rebuild(a.op, args)
        memo[k] = r
        return r

    def goarg(x):
        if isinstance(x, Poly):
            return go(x)
        if isinstance(x, Atom):
            r = goatom(x)
            if len(r.terms) == 1:
                (m, c), = r.terms.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    return ATOMS[m[0][0]]
            return r
        if isinstance(x, tuple):
            return tuple(goarg(y) for y in x)
        return x
    return go(p)


REBUILD = {}


def _rebuild_ind(kind, *a):
    if kind == "lt0":
        return lt0(a[0])
    if kind in ("eq", "is") and len(a) == 1 and isinstance(a[0], tuple) and len(a[0]) == 2:
        x, y = a[0]
        if x is y:
            return ONE
        if kind == "eq" and isinstance(x, Poly) and isinstance(y, Poly) and equal(x, y):
            return ONE
        a = (tuple(sorted((x, y), key=lambda t: (isinstance(t, Poly), t.uid if isinstance(t, Poly) else t.id))),) \
            if all(isinstance(t, (Poly, Atom)) for t in (x, y)) else a
    return topoly(atom("ind", kind, *a))


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return topoly(atom(op, *args))


REBUILD.update({
    "lt0": lambda p: lt0(p),
    "gt0": lambda p: lt0(pscale(p, Fraction(-1))),
    "sin": fsin,
    "cos": fcos,
    "exp": fexp,
    "floor": ffloor,
    "round": fround,
    "trunc": ftrunc,
    "mod": fmod,
    "grp": lambda p: p,
    "pow": powfrac,
    "powv": power,
    "isinf": isinf,
    "isnan": isnan,
    "nth": nth,
    "fn": lambda name, *a: (farcsin(a[0]) if name == "arcsin" else unary(name, a[0])) if len(a) == 1 else topoly(atom("fn", name, *a)),
    "ind": lambda kind, *a: _rebuild_ind(kind, *a),
})


def _rebuild_sum(sizes, lvl, body):
    # re-normalise by reopening; sizes may have changed
    fresh = [fresh_var(s) for s in sizes]
    mp = {}
    for i in body.leaves:
        at = ATOMS[i]
        if at.op == "bv" and lvl <= at.args[0] < lvl + len(sizes):
            mp[i] = topoly(fresh[at.args[0] - lvl])
    r = subst(body, mp)
    for f in fresh:
        r = psum(r, f)
    return r


REBUILD["sum"] = _rebuild_sum


def _rebuild_lam(sizes, lvl, body):
    fresh = [fresh_var(s) for s in sizes]
    mp = {}
    for i in body.leaves:
        at = ATOMS[i]
        if at.op == "bv" and lvl <= at.args[0] < lvl + len(sizes):
            mp[i] = topoly(fresh[at.args[0] - lvl])
    return topoly(lam(sizes, subst(body, mp), fresh))


REBUILD["lam"] = _rebuild_lam


# --- display --------------------------------------------------------------

def show(p, depth=0):
    if not p.terms:
        return "0"
    parts = []
    for m, c in list(p.terms.items())[:40]:
        fs = []
        for i, e in m:
            s = show_atom(ATOMS[i], depth + 1)
            fs.append(s if e == 1 else "%s^%s" % (s, e))
        if c == 1 and fs:
            parts.append("*".join(fs))
        elif c == -1 and fs:
            parts.append("-" + "*".join(fs))
        else:
            parts.append("*".join([str(c)] + fs))
    if len(p.terms) > 40:
        parts.append("... (%d terms)" % len(p.terms))
    return " + ".join(parts).replace("+ -", "- ")


def _show_arg(x, depth):
    if isinstance(x, Poly):
        return show(x, depth)
    if isinstance(x, Atom):
        return show_atom(x, depth)
    if isinstance(x, tuple):
        return "(" + ", ".join(_show_arg(y, depth) for y in x) + ")"
    return repr(x) if isinstance(x, str) else str(x)


def show_atom(a, depth=0):
    if depth > 9:
        return "…"
    op, args = a.op, a.args
    if op == "sym":
        return args[0]
    if op == "ix":
        return "ijkl"[args[0]] if args[0] < 4 else "i%d" % args[0]
    if op == "fv":
        return args[0]
    if op == "bv":
        return "b%d" % args[0]
    if op == "lt0":
        return "[%s < 0]" % show(args[0], depth)
    if op == "gt0":
        return "[%s > 0]" % show(args[0], depth)
    if op == "eqc":
        return "[%s == %r]" % (_show_arg(args[0], depth), args[1])
    if op == "grp":
        return "(%s)" % show(args[0], depth)
    if op == "pow":
        return "(%s)^(%s)" % (show(args[0], depth), args[1])
    if op == "fn":
        return "%s(%s)" % (args[0], ", ".join(_show_arg(x, depth) for x in args[1:]))
    if op == "lam":
        return "λ{%s}" % show(args[2], depth)
    if op == "sum":
        return "Σ{%s}" % show(args[2], depth)
    if not args:
        return op
    return "%s(%s)" % (op, ", ".join(_show_arg(x, depth) for x in args))
