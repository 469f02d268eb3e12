"""Random interpretation of terms (Gulwani & Necula, POPL 2003).

Terms with different normal forms are told apart by evaluating both in random
models: symbols and input data are random numbers, uninterpreted functions are
random (but congruent) functions, linear operators are random linear maps.
Only terms are evaluated; no code of the analysed package is involved."""

import ast
import hashlib
import itertools
import os
import warnings
from fractions import Fraction

import numpy as np

from . import transforms
from .transforms import EvalError
from . import poly as P
from .obs import kind_of, KINDS
from .poly import ATOMS, Atom, Poly, topoly


STRICT = True



M64 = np.uint64(0xFFFFFFFFFFFFFFFF)


def seed_of(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "little")


def mix(h):
    with np.errstate(over="ignore"):
        h = (h ^ (h >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        h = (h ^ (h >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        return h ^ (h >> np.uint64(31))


def hrand(seed, *ints):
    """Pseudo-random numbers in (-1, 1) determined by integers."""
    h = np.uint64(seed)
    with np.errstate(over="ignore", invalid="ignore"):
        for k, x in enumerate(ints):
            x = np.asarray(x)
            if x.dtype.kind == "f":
                x = np.rint(np.nan_to_num(x, nan=123457.0, posinf=1e15, neginf=-1e15) * 1024)
            elif x.dtype.kind == "c":
                h = mix(np.asarray(h ^ np.rint(np.nan_to_num(x.imag) * 1024).astype(np.int64).astype(np.uint64)))
                x = np.rint(np.nan_to_num(x.real) * 1024)
            x = x.astype(np.int64).astype(np.uint64)
            h = mix(np.asarray(h ^ (x + np.uint64(0x9E3779B97F4A7C15) * np.uint64(k + 1))))
        h = mix(np.asarray(h))
    return (h >> np.uint64(11)).astype(float) / float(1 << 53) * 2 - 1


class Vectorised(EvalError):
    pass


def text_number(s):
    return np.asarray(float(hrand(seed_of("text", s))))


class Env:
    """Scope of bound variables."""

    def __init__(self, vars=None, depth=0, parent=None):
        self.vars = vars or {}
        self.depth = depth
        self.parent = parent
        self.memo = {}
        self.keys = frozenset(self.vars)

    def home(self, leaves):
        e = self
        while e.parent is not None and not (e.keys & leaves):
            e = e.parent
        return e

    def get(self, i):
        e = self
        while e is not None:
            if i in e.vars:
                return e.vars[i]
            e = e.parent
        raise EvalError("unbound variable %r" % ATOMS[i])


class Model:
    """A random model; `lattice` draws small integers so that ties occur."""

    MAXDIM = 4000000
    failed = False
    pin = {}
    elements = {}

    def __init__(self, seed, n=12, lattice=False, fixed=None, consts=None):
        self.seed = seed
        self.n = n
        self.lattice = lattice
        self.fixed = fixed or {}
        self.consts = consts or {}
        self.root = Env()
        self.budget = 400
        self.budget_values = 100000

    # values of symbols

    def uniform(self, *key):
        return float(hrand(seed_of(self.seed, *key)))

    def sym(self, a):
        name = a.args[0]
        if name in self.fixed:
            f = self.fixed[name]
            return f(self) if callable(f) else f
        if name in P.SIZE_SYMS:
            return self.n
        u = self.uniform("sym", name)
        kind = a.args[1] if len(a.args) > 1 else "f"
        if a.id in P.POSITIVE:
            if kind == "i":
                return int(1 + (u + 1) * 2.5)
            if self.wide:
                return (1.3 + u) * self.scale(name)
            return float(1 + int((u + 1) * 2)) if self.lattice else 1.3 + u
        if kind == "i":
            return int(np.floor((u + 1) * 5)) - 2
        if kind in ("T", "D"):
            return float(int(u * 6)) if self.lattice else u * 6
        if self.wide:
            u *= self.scale(name)
        return float(int(u * 4)) if self.lattice else u * 2.5

    def scale(self, name):
        if self.wide == 2:
            return 10 ** (1 + 2 * self.uniform("scale", name))
        return (1.0, 8.0, 40.0, 1e-3)[int((self.uniform("scale", name) + 1) * 2) % 4]

    flat = None
    wide = False        # symbols of different orders of magnitude

    def data(self, key, idx, scaled=True):
        if self.flat is not None:
            return np.full(np.broadcast_shapes(*[np.shape(i) for i in idx]) if len(idx) else (), self.flat)
        r = hrand(seed_of(self.seed, "data", key), *idx)
        if self.wide and scaled:
            r = r * (1.0, 30.0, 1e-3)[int((self.uniform("data scale", key) + 1) * 1.5) % 3]
        return np.trunc(r * 3.5) if self.lattice else r * 2

    # polynomials

    def poly(self, p, env=None):
        env = env or self.root
        env = env.home(p.leaves)
        k = ("p", p.uid)
        if k in env.memo:
            return env.memo[k]
        # coefficients of equal factors are summed before they are applied: a
        # factor may be undefined or infinite where its alternatives are not taken
        coef = {}
        for m, c in p.terms.items():
            gate = None
            rest = []
            for i, e in m:
                if ATOMS[i].ind and e == 1:
                    g = self.atom(ATOMS[i], env)
                    gate = g if gate is None else gate * g
                else:
                    rest.append((i, e))
            if gate is not None and not np.any(gate):
                continue
            rest = tuple(rest)
            t = np.asarray(float(c)) if gate is None else float(c) * (gate != 0)
            if rest in coef:
                coef[rest] = coef[rest] + t
            else:
                coef[rest] = t
        total = np.zeros(())
        mag = 0.0
        groups = {}
        for rest, c in coef.items():
            on = np.abs(c) > 1e-13
            if not np.any(on):
                continue
            t = c
            special = None
            for i, e in rest:
                if ATOMS[i].op in ("inf", "nan", "zerodiv") and e > 0:
                    special = "inf" if ATOMS[i].op == "inf" and special in (None, "inf") else "nan"
                    continue
                x = self.atom(ATOMS[i], env)
                if e < 0:
                    # quotients by zero occur in alternatives that are not taken
                    x = np.where(x == 0, 1234.5678, x)
                if e != 1:
                    if e == int(e):
                        x = np.asarray(x, dtype=complex if np.iscomplexobj(x) else float) ** int(e)
                    else:
                        x = np.power(np.asarray(x, dtype=complex if np.iscomplexobj(x) else float), float(e))
                t = t * x
            if not np.all(on):
                t = np.where(on, t, 0.0)
            if special is None:
                total = total + t
                mag = mag + np.abs(t)
            else:
                groups[special] = groups.get(special, 0.0) + t
        if len(p.terms) > 1:
            # cancellation leaves zero, not a rounding error
            total = np.where(np.abs(total) <= 1e-13 * mag, 0.0, total)
        for special, t in groups.items():
            on = np.abs(t) > 1e-9
            with np.errstate(all="ignore"):
                total = total + np.where(on, np.where(on, t, 1.0) * (np.inf if special == "inf" else np.nan), 0.0)
        env.memo[k] = total
        return total

    def real(self, p, env):
        x = self.poly(p, env)
        return x.real if np.iscomplexobj(x) else x

    def size(self, p, env):
        x = np.asarray(self.real(p, env))
        n = int(np.rint(x.max())) if x.size else 0
        if n < 0:
            n = 0
        if n > 20000:
            raise EvalError("size")
        return n, (x if x.size > 1 else None)

    # atoms

    def atom(self, a, env):
        env = env.home(a.leaves)
        k = a.id
        r = env.memo.get(k)
        if r is not None:
            return r
        if k in env.vars:
            return env.vars[k]
        r = self.pin[k] if k in self.pin else self.atom_(a, env)
        if not isinstance(r, np.ndarray):
            r = np.asarray(r)
        env.memo[k] = r
        return r

    def atom_(self, a, env):
        op, args = a.op, a.args
        f = getattr(self, "op_" + op, None)
        if f is not None:
            return f(a, env, *args)
        if a.ind:
            return self.boolean(a, env)
        return self.generic(a, env)

    def op_sym(self, a, env, *r):
        return self.sym(a)

    def op_pi(self, a, env):
        return np.pi

    def op_I(self, a, env):
        return 1j

    def op_inf(self, a, env):
        return np.inf

    def op_nan(self, a, env):
        return np.nan

    def op_zerodiv(self, a, env):
        return np.nan

    def op_ix(self, a, env, *r):
        return env.get(a.id)
    op_fv = op_bv = op_ix

    def op_mu(self, a, env, *r):
        try:
            return env.get(a.id)
        except EvalError:
            return self.generic(a, env)

    def op_muarr(self, a, env, m, idx):
        e = env
        while e is not None:
            if m.id in e.vars:
                arr = e.vars[m.id]
                ii = tuple(np.asarray(np.rint(self.real(x, env)), dtype=int) for x in idx)
                ii = tuple(np.clip(i, 0, n - 1) for i, n in zip(ii, arr.shape))
                return arr[ii]
            e = e.parent
        return self.generic(a, env)

    def op_grp(self, a, env, p):
        return self.poly(p, env)

    def op_pow(self, a, env, p, e):
        x = self.poly(p, env)
        if not np.iscomplexobj(x) and np.any(x < 0):
            x = np.asarray(x, dtype=complex)
        if float(e) == 0.5:
            return np.sqrt(x)
        return np.power(x, float(e))

    def op_powv(self, a, env, p, q):
        x, y = self.poly(p, env), self.poly(q, env)
        if not np.iscomplexobj(x) and np.any(x < 0):
            x = np.asarray(x, dtype=complex)
        r = np.power(np.asarray(x, dtype=complex if np.iscomplexobj(x) else float), y)
        if np.iscomplexobj(r) and np.allclose(r.imag, 0, atol=1e-12):
            r = r.real
        return r

    def op_sin(self, a, env, p):
        return exact_zero(np.sin(self.poly(p, env)))

    def op_cos(self, a, env, p):
        return exact_zero(np.cos(self.poly(p, env)))

    def op_exp(self, a, env, p):
        return np.exp(self.poly(p, env))

    def op_floor(self, a, env, p):
        return np.floor(snap(self.real(p, env)))

    def op_trunc(self, a, env, p):
        return np.trunc(snap(self.real(p, env)))

    def op_round(self, a, env, p):
        return np.rint(self.real(p, env))

    def op_mod(self, a, env, p, q):
        return np.mod(snap(self.real(p, env)), self.real(q, env))

    FN = {"arcsin": np.arcsin, "arccos": np.arccos, "arctan": np.arctan, "tan": np.tan, "log": np.log,
          "sinh": np.sinh, "cosh": np.cosh, "tanh": np.tanh, "arctan2": np.arctan2}

    def op_fn(self, a, env, name, *xs):
        f = self.FN.get(name)
        vals = [self.poly(x, env) if isinstance(x, Poly) else self.number(x, env) for x in xs]
        if name == "cabs":
            return np.abs(vals[0])
        if name in ("real", "imag"):
            return getattr(np, name)(vals[0])
        if name in ("conj", "conjugate"):
            return np.conj(vals[0])
        if f is not None:
            if name in ("arcsin", "arccos", "log") and not np.iscomplexobj(vals[0]):
                x = vals[0]
                if name != "log":
                    x = np.where((np.abs(x) > 1) & (np.abs(x) < 1 + 1e-6), np.sign(x), x)
                with np.errstate(invalid="ignore"):
                    return f(x)
            return f(*vals)
        return self.generic(a, env)

    def op_lt0(self, a, env, p):
        return (self.tol(self.real(p, env)) < 0).astype(float)

    def op_gt0(self, a, env, p):
        return (self.tol(self.real(p, env)) > 0).astype(float)

    def tol(self, x):
        return np.where(np.abs(x) < 1e-9, 0.0, x)

    def op_ind(self, a, env, kind, *xs):
        if kind == "lt0":
            return (self.tol(self.real(xs[0], env)) < 0).astype(float)
        return self.boolean(a, env)

    def op_isinf(self, a, env, p):
        return np.isinf(self.poly(p, env)).astype(float)

    def op_isnan(self, a, env, p):
        return np.isnan(self.poly(p, env)).astype(float)

    def op_eqc(self, a, env, key, c):
        pool = sorted(self.consts.get(key, ()), key=repr)
        if c not in pool:
            pool.append(c)
        x = self.number(key, env)
        h = hrand(seed_of(self.seed, "pool"), x)
        j = np.floor((h + 1) / 2 * (len(pool) + 1))
        return (j == pool.index(c)).astype(float)

    def boolean(self, a, env):
        if a.op == "ind" and a.args[0] == "inloop":
            raise EvalError("exception in a loop")
        return (hrand(seed_of(self.seed, "bool", a.op), *[self.number(x, env) for x in a.args]) > 0).astype(float)

    def op_data(self, a, env, name, dt, idx):
        ii = [self.real(x, env) for x in idx]
        r = self.data(name, ii, dt != "i")
        if dt in ("c8", "c16"):
            r = r + 1j * self.data(name + ".imag", ii)
        elif dt == "b":
            r = (r > 0).astype(float)
        elif dt == "i":
            r = np.rint(r * 3)
        for at, x in self.elements.get(name, ()):
            hit = np.asarray(True)
            for i, j in zip(ii, at):
                hit = hit & (np.abs(i - j) < 0.5)
            r = np.where(hit, x, r)
        return r

    def op_specindex(self, a, env, kind, p):
        i = self.real(p, env)
        return np.where(i == 0, 0, np.rint((hrand(seed_of(kind), i) + 1) * 4) + 1)

    def op_phi(self, a, env, c, x, y):
        cv = self.poly(c, env)
        return np.where(cv != 0, self.number(x, env), self.number(y, env))

    # text

    def op_str(self, a, env, *parts):
        try:
            t = self.text(a, env)
        except Vectorised:
            return self.generic(a, env)
        return text_number(t)

    def op_pyconst(self, a, env, s):
        v = ast.literal_eval(s)
        return text_number(v) if isinstance(v, str) else self.generic(a, env)
    op_const = op_pyconst

    def text(self, x, env):
        """The text that a term is in this model."""
        if isinstance(x, str):
            return x
        if isinstance(x, tuple) and x and x[0] == "fmt":
            t, conv, spec, kind = x[1:]
            if conv != -1 or kind in ("", "t") or not isinstance(spec, (str, type(None))):
                t = self.text(t, env) if kind == "t" else "%.9g" % self.scalar(self.number(t, env))
                return "<%s:%s:%s>" % (t, conv, spec if isinstance(spec, (str, type(None))) else self.scalar(self.number(spec, env)))
            v = self.scalar(self.number(t, env))
            v = {"i": lambda: int(round(v.real)), "b": lambda: bool(v)}.get(kind, lambda: float("%.9g" % v) if not isinstance(v, complex) else v)()
            try:
                return format(v, spec or "")
            except (ValueError, TypeError):
                return "<invalid %s>" % spec
        if isinstance(x, Poly):
            on = []
            for m, c in x.terms.items():
                g, rest = True, []
                for i, e in m:
                    if ATOMS[i].ind:
                        g = g and self.scalar(self.atom(ATOMS[i], env)) != 0
                    else:
                        rest.append((i, e))
                if g:
                    on.append((tuple(rest), c))
            net = {}
            for r, c in on:
                net[r] = net.get(r, 0) + c
            net = [(r, c) for r, c in net.items() if c]
            if len(net) == 1 and net[0][1] == 1 and len(net[0][0]) == 1 and net[0][0][0][1] == 1:
                return self.text(ATOMS[net[0][0][0][0]], env)
            return "<%.9g>" % self.scalar(self.poly(x, env))
        if isinstance(x, Atom):
            if x.op in ("const", "pyconst"):
                v = ast.literal_eval(x.args[0])
                if isinstance(v, str):
                    return v
            elif x.op == "str":
                ps = x.args[0] if len(x.args) == 1 and isinstance(x.args[0], tuple) else x.args
                return "".join(self.text(p, env) for p in ps)
            elif x.op == "phi":
                return self.text(x.args[1] if self.scalar(self.poly(x.args[0], env)) != 0 else x.args[2], env)
            return "<%.9g>" % self.scalar(self.atom(x, env))
        return "<%.9g>" % self.scalar(self.number(x, env))

    def scalar(self, x):
        x = np.asarray(x)
        if x.size != 1:
            raise Vectorised("text")
        return x.reshape(()).item()

    # binders

    def bind(self, env, ids, sizes):
        """Child environment with fresh axes; returns it, the extents and masks."""
        vars = {}
        d = env.depth
        masks = []
        total = 1
        for i, s in zip(ids, sizes):
            n, per = self.size(s, env)
            total *= max(n, 1)
            v = np.arange(n, dtype=float).reshape((n,) + (1,) * d)
            for j in (i if isinstance(i, (list, tuple)) else [i]):
                vars[j] = v
            if per is not None:
                masks.append((v, per))
            d += 1
        if total > self.MAXDIM:
            raise EvalError("too large")
        return Env(vars, d, env), masks

    def reduce(self, x, env, new, masks, fold):
        """Sum over the axes added in `new`."""
        k = new.depth - env.depth
        shape = []
        for ax in range(new.depth):
            shape.append(1)
        for i, v in new.vars.items():
            for ax, n in enumerate(v.shape):
                if n != 1 or v.ndim - ax > env.depth:
                    pos = v.ndim - ax - 1
                    if pos >= env.depth:
                        shape[new.depth - 1 - pos] = n
        for v, per in masks:
            x = np.where(v < per, x, 0.0)
        full = np.broadcast_shapes(np.shape(x), tuple(shape))
        if int(np.prod(full)) > self.MAXDIM:
            raise EvalError("too large")
        x = np.broadcast_to(x, full)
        return fold(x, tuple(range(x.ndim - new.depth, x.ndim - env.depth)) if x.ndim >= new.depth else ())

    def op_sum(self, a, env, sizes, lvl, body):
        lv = P.inner_levels(a)
        ids = bound_ids(body, lv)
        new, masks = self.bind(env, ids, sizes)
        x = self.poly(body, new)
        return self.reduce(x, env, new, masks, lambda y, ax: y.sum(axis=ax))

    def lam_open(self, l, env):
        sizes, lvl, body = l.args
        ids = bound_ids(body, [lvl + k for k in range(len(sizes))])
        # the first index varies slowest: bind in reverse so that axes are in order
        new, masks = self.bind(env, ids[::-1], sizes[::-1])
        return new, masks, body

    def lam_array(self, l, env):
        """Closed lam as a concrete array (requires no outer axes)."""
        e = env.home(l.leaves)
        key = ("arr", l.id)
        if key in e.memo:
            return e.memo[key]
        new, masks, body = self.lam_open(l, e)
        x = self.poly(body, new)
        if e.depth:
            if x.ndim > e.depth and any(n != 1 for n in x.shape[x.ndim - e.depth:]) or \
                    x.ndim <= e.depth and x.size > 1:
                raise EvalError("open array")
            x = x.reshape(x.shape[:x.ndim - e.depth]) if x.ndim > e.depth else x.reshape(())
        shape = tuple(self.size(s, e)[0] for s in l.args[0])
        if masks:
            raise EvalError("ragged array")
        x = np.broadcast_to(x, shape)
        e.memo[key] = x
        return x

    def op_lam(self, a, env, sizes, lvl, body):
        return self.functional(a, env, "lam")

    def functional(self, l, env, seed, out=(), linear=False):
        """Random functional of an array."""
        new, masks, body = self.lam_open(l, env)
        x = self.poly(body, new)
        if not linear:
            x = squash(x)
        ind = [new.vars[i] for i in new.vars]
        # distinct axes only
        seen, axes = set(), []
        for v in ind:
            if v.shape not in seen or v.size == 1:
                seen.add(v.shape)
                axes.append(v)
        w = hrand(seed_of(self.seed, "w", seed), *axes, *out)
        if linear:
            w = w * 0.1
            if linear in self.SPECTRAL or np.iscomplexobj(x):
                w = w + 0.1j * hrand(seed_of(self.seed, "wi", seed), *axes, *out)
        r = self.reduce(w * x, env, new, masks, lambda y, ax: y.sum(axis=ax))
        return r.real if linear and linear not in self.SPECTRAL and np.iscomplexobj(r) else r

    # results in spectral space are complex, others are real
    SPECTRAL = {"grdtospec", "vrt_u", "vrt_v", "div_u", "div_v"}

    LINEAR = {"grdtospec", "spectogrd", "vrt_u", "vrt_v", "div_u", "div_v", "u_vrt", "u_div", "v_vrt", "v_div",
              "grad_x", "grad_y"}

    def number(self, x, env):
        """Any term argument as a number."""
        if isinstance(x, Poly):
            return self.poly(x, env)
        if isinstance(x, Atom):
            return self.atom(x, env)
        if isinstance(x, tuple):
            if not x:
                return np.asarray(0.37)
            return self.combine("tup%d" % len(x), [self.number(y, env) for y in x])
        if isinstance(x, (bool, int, float)):
            return np.asarray(float(x))
        return np.asarray(float(hrand(seed_of("lit", repr(x)))))

    def combine(self, seed, vals):
        s = seed_of(self.seed, "f", seed)
        vals = [v if np.all(np.isfinite(v)) else np.nan_to_num(v, nan=0.7777, posinf=3e6, neginf=-2e6) for v in vals]
        t = np.asarray(float(hrand(s, 0)))
        for k, v in enumerate(vals):
            u = float(hrand(s, k + 1))
            u = u + np.sign(u) * 0.3
            if np.iscomplexobj(v):
                t = t + u * np.arcsinh(v.real) + float(hrand(s, k + 1001)) * np.arcsinh(v.imag)
            else:
                t = t + u * np.arcsinh(v)
        return t + 0.4 * np.sin(2.3 * t)

    def generic(self, a, env):
        op, args = a.op, a.args
        if op in ("loop", "loopseq", "looplast", "append", "base"):
            raise EvalError("loop term")
        lit = tuple(x for x in args if not isinstance(x, (Poly, Atom, tuple)))
        if op in self.LINEAR and isinstance(args[0], Atom) and args[0].op == "lam":
            out = [self.number(x, env) for x in (args[1] if isinstance(args[1], tuple) else (args[1],))]
            ex = [float(np.sum(self.number(x, env))) for x in args[2:]]
            r = self.functional(args[0], env, (op, lit, tuple(ex)), out, linear=op)
            return r
        if op in ("id", "idof", "object"):
            return float(hrand(seed_of(op, repr(lit))))
        vals = [self.number(x, env) for x in args if isinstance(x, (Poly, Atom, tuple))]
        return self.combine((op, lit), vals)

    # masks

    def mask_indices(self, m, env):
        arr = self.lam_array(m, env)
        return np.nonzero(arr)

    def op_nth(self, a, env, mask, axis, alpha):
        try:
            nz = self.mask_indices(mask, env)[axis]
        except EvalError:
            return np.floor((self.generic(a, env) % 1) * self.n)
        if not len(nz):
            return np.asarray(0.0)
        i = np.clip(np.rint(self.real(alpha, env)).astype(int), 0, len(nz) - 1)
        return nz[i].astype(float)

    def op_rank(self, a, env, mask, idx):
        try:
            arr = self.lam_array(mask, env) != 0
        except EvalError:
            return np.floor((self.generic(a, env) % 1) * self.n)
        r = np.cumsum(arr.ravel()).reshape(arr.shape) - 1
        ii = tuple(np.clip(np.rint(self.real(x, env)).astype(int), 0, n - 1) for x, n in zip(idx, arr.shape))
        return r[ii].astype(float)

    def closed(self, a, env, l, f):
        """A function of an array; arrays that depend on bound variables for one value at a time.

        f takes the array and the environment."""
        try:
            return self.by_value(env, l.leaves, lambda e: f(self.lam_array(l, e), e))
        except EvalError:
            return self.generic(a, env)

    def by_value(self, env, leaves, f):
        ids = []
        for i in sorted(leaves):
            if ATOMS[i].op in ("ix", "fv", "bv"):
                try:
                    v = env.get(i)
                except EvalError:
                    continue
                if np.size(v) > 1:
                    ids.append((i, np.asarray(v)))
        if not ids:
            return f(env)
        total = 1
        for i, v in ids:
            total *= v.size
        self.budget_values -= total
        if total > 3000 or self.budget_values < 0:
            raise EvalError("too many values")
        out = None
        parts = {}
        for ks in itertools.product(*[range(v.size) for i, v in ids]):
            e = Env({i: np.asarray(v.ravel()[k]) for (i, v), k in zip(ids, ks)}, env.depth, env)
            parts[ks] = np.asarray(f(e))
        nd = max([v.ndim for i, v in ids] + [x.ndim for x in parts.values()])
        shape = np.broadcast_shapes(*[x.shape for x in parts.values()])
        shape = [1] * (nd - len(shape)) + list(shape)
        for i, v in ids:
            if shape[nd - v.ndim] != 1:
                raise EvalError("axes")
            shape[nd - v.ndim] = v.size
        out = np.zeros(shape, np.result_type(*parts.values()))
        for ks, x in parts.items():
            sl = [slice(None)] * nd
            for (i, v), k in zip(ids, ks):
                sl[nd - v.ndim] = slice(k, k + 1)
            out[tuple(sl)] = x
        return out

    def op_amax(self, a, env, l, *r):
        new, masks, body = self.lam_open(l, env)
        x = self.poly(body, new)
        if masks:
            raise EvalError("masked maximum")
        return self.reduce(x, env, new, masks, lambda y, ax: y.max(axis=ax))

    def op_amin(self, a, env, l, *r):
        new, masks, body = self.lam_open(l, env)
        x = self.poly(body, new)
        if masks:
            raise EvalError("masked minimum")
        return self.reduce(x, env, new, masks, lambda y, ax: y.min(axis=ax))

    def op_argmin(self, a, env, l, *r):
        return self.closed(a, env, l, lambda x, e: float(np.argmin(x.real)))

    def op_argmax(self, a, env, l, *r):
        return self.closed(a, env, l, lambda x, e: float(np.argmax(x.real)))

    def op_prod(self, a, env, l, *r):
        return self.closed(a, env, l, lambda x, e: np.prod(x))

    def op_sorted(self, a, env, l, i):
        ii = lambda e: np.rint(self.real(i, e)).astype(int)
        return self.closed(a, env, l, lambda x, e: np.sort(x.ravel())[np.clip(ii(e), 0, x.size - 1)])

    def op_argsort(self, a, env, l, i):
        ii = lambda e: np.rint(self.real(i, e)).astype(int)
        return self.closed(a, env, l,
                           lambda x, e: np.argsort(x.ravel(), kind="stable")[np.clip(ii(e), 0, x.size - 1)].astype(float))

    def op_uniq(self, a, env, l, i):
        def f(x, e):
            ii = np.rint(self.real(i, e)).astype(int)
            u = np.unique(np.round(x.ravel(), 9))
            return u[np.clip(ii, 0, u.size - 1)]
        return self.closed(a, env, l, f)

    def op_nunique(self, a, env, l):
        return self.closed(a, env, l, lambda x, e: np.asarray(float(np.unique(np.round(x.ravel(), 9)).size)))

    def op_searchsorted(self, a, env, l, q, side):
        def f(x, e):
            if np.any(np.diff(x.real) < 0):
                raise EvalError("unsorted")
            return np.searchsorted(x.real, self.real(q, e), side=side).astype(float)
        return self.closed(a, env, l, f)

    # transforms and filters along one axis

    def transformed(self, env, l, weights, fold=None):
        """Weighted sum over the elements of the array; the weights are a function of the index."""
        if len(l.args[0]) != 1:
            raise EvalError("axes")
        new, masks, body = self.lam_open(l, env)
        if masks:
            raise EvalError("ragged array")
        n = self.size(l.args[0][0], env)[0]
        if not n:
            raise EvalError("empty")
        x = self.poly(body, new)
        v = next(iter(new.vars.values()))
        r = self.reduce(weights(n, v, x) * x, env, new, masks, lambda y, ax: y.sum(axis=ax))
        return r if fold is None else fold(r)

    def attempt(self, a, env, *args):
        try:
            return self.transformed(env, *args)
        except EvalError:
            return self.generic(a, env)

    def op_rfft(self, a, env, l, o):
        o = np.rint(self.real(o, env))
        return self.attempt(a, env, l, lambda n, v, x: transforms.dft(n, v, o, -1))
    op_fft = op_rfft

    def op_ifft(self, a, env, l, o):
        o = np.rint(self.real(o, env))
        return self.attempt(a, env, l, lambda n, v, x: transforms.dft(n, v, o, 1) / n)

    def op_irfft(self, a, env, l, m, o):
        o, m = np.rint(self.real(o, env)), np.rint(self.real(m, env))
        if np.any(m < 1):
            return self.generic(a, env)
        return self.attempt(a, env, l, lambda n, v, x: transforms.irfft(m, v, o), np.real)

    def op_hilbert(self, a, env, l, o):
        o = np.rint(self.real(o, env)).astype(int)

        def weights(n, v, x):
            if np.iscomplexobj(x):
                raise EvalError("complex input")
            return transforms.spectrum(n)[np.mod(o - np.rint(v).astype(int), n)]
        return self.attempt(a, env, l, weights)

    def op_window(self, a, env, name, sym, n, i):
        n, i = np.rint(self.real(n, env)).astype(int), np.rint(self.real(i, env)).astype(int)
        if not isinstance(name, str) or n.size > 1000 or np.any(n > 2000):
            return self.generic(a, env)
        import scipy.signal
        out = np.zeros(np.broadcast_shapes(n.shape, i.shape))
        nn, ii = np.broadcast_arrays(n, i)
        for m in np.unique(nn):
            if m < 1:
                continue
            try:
                w = scipy.signal.get_window(name, int(m), fftbins=not sym)
            except ValueError:
                return self.generic(a, env)
            k = nn == m
            out[k] = w[np.clip(ii[k], 0, m - 1)]
        return out

    def filtered(self, a, env, l, w, mode, idx, outside, shift):
        if len(idx) != 1:
            return self.generic(a, env)
        def f(ww, e):
            o = np.rint(self.real(idx[0], e)).astype(int)
            outs = []

            def weights(n, v, x):
                if not ww.size or np.any(o >= n) or np.any(o < 0):
                    raise EvalError("window")
                K, out = transforms.convolution(ww.ravel(), n, shift(ww.size), mode)
                outs.append(out[o])
                return K[o, np.rint(v).astype(int)]
            c = self.number(outside, e) if outside is not None else 0.0
            return self.transformed(e, l, weights, lambda r: r + c * outs[0])
        return self.closed(a, env, w, f)

    def op_convolve(self, a, env, l, w, mode, origin, extra, idx):
        if isinstance(mode, (Poly, Atom)) or not (isinstance(origin, Poly) and not origin.terms):
            return self.generic(a, env)
        return self.filtered(a, env, l, w, mode, idx, extra[0] if extra else None, lambda m: m // 2)

    def op_convolve2d(self, a, env, l, w, boundary, fv, idx):
        return self.filtered(a, env, l, w, boundary, idx, fv, lambda m: (m - 1) // 2)

    def op_interp(self, a, env, l, xs, q, left, right, period):
        if left is not None or right is not None or period is not None:
            return self.generic(a, env)
        def f(x, e):
            if np.iscomplexobj(x) or np.any(np.diff(x) <= 0):
                raise EvalError("unsorted")
            y = self.real(q, e)
            return self.transformed(e, l, lambda n, v, _: transforms.interpolation(x, y, left, right)(np.rint(v).astype(int)))
        return self.closed(a, env, xs, f)

    def op_member(self, a, env, l, b):
        y = self.poly(b, env)
        new, masks, body = self.lam_open(l, env)
        x = self.poly(body, new)
        return self.reduce((np.abs(x - y) < 1e-9).astype(float), env, new, masks, lambda z, ax: z.max(axis=ax))

    # loops

    def run_loop(self, L, env):
        e = env.home(L.leaves)
        key = ("loop", L.id)
        if key in e.memo:
            return e.memo[key]
        lvl, n, ec, inits, ups = L.args
        if e.depth and any(ATOMS[i].op in ("ix", "fv", "bv") and np.size(e.get(i)) > 1 for i in L.leaves):
            raise EvalError("open loop")
        state = [self.component(x, e) for x in inits]
        trace = [state]
        limit = 60
        steps = limit
        if isinstance(n, Poly):
            steps = self.size(n, e)[0]
        it = 0
        while it < steps:
            vars = {P.atom("mu", lvl, q).id: state[q] for q in range(len(state))}
            sub = Env(vars, e.depth, e)
            self.budget -= 1
            if self.budget < 0:
                raise EvalError("loop budget")
            if not (isinstance(ec, int)):
                if not np.all(self.iterate_term(ec, sub, it)):
                    break
            if isinstance(n, Poly):
                state = [self.component_it(*self.at_iteration(u, sub, it), it, old) for u, old in zip(ups, state)]
            else:
                state = [self.component_it(u, sub, it, old) for u, old in zip(ups, state)]
            trace.append(state)
            it += 1
            if it >= limit:
                raise EvalError("loop bound")
        e.memo[key] = (state, trace)
        return state, trace

    def at_iteration(self, u, env, it):
        """Body of an update of a counted loop, and the environment of the iteration."""
        a = single(u) if isinstance(u, Poly) else u
        sizes, lvl, body = a.args
        ids = bound_ids(body, [lvl])
        x = np.asarray(float(it))
        vars = {}
        for i in ids:
            for j in (i if isinstance(i, (list, tuple)) else [i]):
                vars[j] = x
        return body, Env(vars, env.depth, env)

    def iterate_term(self, t, env, it):
        t = P.topoly(t) if isinstance(t, Atom) else t
        return self.poly(t, env)

    def component(self, x, env):
        if isinstance(x, Atom) and x.op == "base" or isinstance(x, Poly) and single(x) is not None and single(x).op == "base":
            return []
        x = topoly(x) if isinstance(x, Atom) else x
        a = single(x)
        if a is not None and a.op == "lam":
            return self.lam_array(a, env)
        return self.poly(x, env)

    def component_it(self, u, env, it, old):
        a = single(u) if isinstance(u, Poly) else u
        if a is not None and a.op == "append":
            out = list(old)
            for c, e in a.args[0]:
                if np.all(self.poly(c, env)):
                    out.append((e, env))
            return out
        return self.component(u, env)

    def op_loopcount(self, a, env, L, q):
        return float(len(self.run_loop(L, env)[0][q]))

    def op_loopelem(self, a, env, L, q, j, v, idx):
        items = self.run_loop(L, env)[0][q]
        k = np.rint(self.real(v, env))
        if k.size != 1:
            raise EvalError("loop elements at once")
        k = int(k.reshape(()))
        if not 0 <= k < len(items):
            return 0.0
        t, e = items[k]
        if j >= 0:
            if not (isinstance(t, Atom) and t.op == "state"):
                raise EvalError("loop element")
            t = t.args[j]
        if isinstance(t, Atom) and t.op == "lam":
            x = self.lam_array(t, e)
            ii = tuple(np.clip(np.rint(self.real(i, env)).astype(int), 0, max(n - 1, 0)) for i, n in zip(idx, x.shape))
            return x[ii]
        return np.asarray(self.number(t, e)).reshape(())

    def op_loopval(self, a, env, L, q, idx):
        state, _ = self.run_loop(L, env)
        v = state[q]
        if idx:
            ii = tuple(np.clip(np.rint(self.real(x, env)).astype(int), 0, max(n - 1, 0)) for x, n in zip(idx, v.shape))
            return v[ii]
        return v


def single(p):
    if isinstance(p, Atom):
        return p
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return ATOMS[m[0][0]]
    return None


def exact_zero(x):
    """Zeros of the trigonometric functions are zeros."""
    return np.where(np.abs(x) < 1e-12, 0.0, x)


def squash(x):
    if not np.all(np.isfinite(x)):
        x = np.nan_to_num(x, nan=0.7777, posinf=3e6, neginf=-2e6)
    if np.iscomplexobj(x):
        return np.arcsinh(x.real) + 0.7 * np.arcsinh(x.imag) + 0.3 * np.sin(x.real)
    return np.arcsinh(x) + 0.3 * np.sin(x)


def snap(x):
    r = np.rint(x)
    return np.where(np.abs(x - r) < 1e-9, r, x)


def bound_ids(body, levels):
    out = [[] for _ in levels]
    for i in body.leaves:
        at = ATOMS[i]
        if at.op == "bv" and at.args[0] in levels:
            out[levels.index(at.args[0])].append(i)
    for k, l in enumerate(levels):
        if not out[k]:
            out[k] = [-1 - l]
    return out


# --- nodes ------------------------------------------------------------------------

class Different(Exception):
    def __init__(self, path, a, b):
        self.path, self.a, self.b = path, a, b


def close_to(x, y):
    x, y = np.asarray(x), np.asarray(y)
    try:
        x, y = np.broadcast_arrays(x, y)
    except ValueError:
        return False
    fx, fy = np.isfinite(x), np.isfinite(y)
    both = fx & fy
    if STRICT:
        if np.any(np.isnan(x) != np.isnan(y)):
            return False
        if not np.iscomplexobj(x) and not np.iscomplexobj(y):
            ix, iy = np.isinf(x), np.isinf(y)
            if np.any(ix != iy) or np.any(x[ix] != y[ix]):
                return False
    if not both.any():
        return True
    s = max(1e-300, float(np.abs(x[both]).max()), float(np.abs(y[both]).max()))
    return bool(np.all(np.abs(x[both] - y[both]) <= 1e-6 * s))


def compare(M, a, b, env=None, path=""):
    """Raise Different if the nodes differ in model M."""
    env = env or M.root
    if a.kind == "phi":
        return compare(M, a.a[1] if np.all(M.poly(a.a[0], env)) else a.a[2], b, env, path)
    if b.kind == "phi":
        return compare(M, a, b.a[1] if np.all(M.poly(b.a[0], env)) else b.a[2], env, path)
    ka, kb = a.kind, b.kind
    if ka in ("num", "arr") and kb in ("num", "arr") and kind_of(a) != kind_of(b):
        raise Different(path, KINDS.get(kind_of(a), "number"), KINDS.get(kind_of(b), "number"))
    if "val" in (ka, kb):
        if ka != kb:
            raise EvalError("elements of different form")
        if not close_to(a.a[0], b.a[0]):
            raise Different(path, a.a[0], b.a[0])
        return
    if ka in ("num", "term") and kb in ("num", "term") and not loopy(a) and not loopy(b):
        x = M.poly(a.a[0], env) if ka == "num" else M.number(a.a[0], env)
        y = M.poly(b.a[0], env) if kb == "num" else M.number(b.a[0], env)
        if not close_to(x, y):
            raise Different(path, x, y)
        return
    if ka == "arr" and kb == "arr":
        x, y = arr_value(M, a, env), arr_value(M, b, env)
        if x.shape != y.shape:
            raise Different(path + ".shape", x.shape, y.shape)
        if not close_to(x, y):
            raise Different(path, x, y)
        return
    if ka == "items" and kb == "items" and not any(x.kind == "seg" for x in a.a[1] + b.a[1]):
        if a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]):
            raise Different(path, "%s of %d" % (a.a[0], len(a.a[1])), "%s of %d" % (b.a[0], len(b.a[1])))
        for k, (x, y) in enumerate(zip(a.a[1], b.a[1])):
            compare(M, x, y, env, "%s[%d]" % (path, k))
        return
    if ka == "map" and kb == "map":
        ma, mb = dict(a.a[1]), dict(b.a[1])
        if a.a[0] != b.a[0] or set(ma) != set(mb):
            raise Different(path, show_keys(a), show_keys(b))
        for k in ma:
            compare(M, ma[k], mb[k], env, "%s.%s" % (path, P.show_atom(k) if isinstance(k, Atom) else k))
        return
    if ka == "seq" and kb == "seq":
        n1, _ = M.size(a.a[0], env)
        n2, _ = M.size(b.a[0], env)
        if n1 != n2:
            raise Different(path + ".len", n1, n2)
        for k in range(min(n1, 12)):
            e = Env({a.a[1].id: np.asarray(float(k)), b.a[1].id: np.asarray(float(k))}, env.depth, env)
            compare(M, a.a[2], b.a[2], e, "%s[%d]" % (path, k))
        return
    if loopy(a) or loopy(b) or "seg" in (ka, kb) or any(n.kind == "items" and any(x.kind == "seg" for x in n.a[1]) for n in (a, b)) or \
            "seq" in (ka, kb):
        xs, ys = elements(M, a, env), elements(M, b, env)
        if len(xs) != len(ys):
            raise Different(path + ".len", len(xs), len(ys))
        for k, (x, y) in enumerate(zip(xs, ys)):
            compare(M, x[0], y[0], Env({**x[1], **y[1]}, env.depth, env), "%s[%d]" % (path, k))
        return
    raise Different(path, describe(a), describe(b))


def loopy(n):
    return n.kind == "term" and n.a[0].op == "loopseq"


def elements(M, n, env):
    if n.kind == "seg":
        return elements(M, n.a[0], env)
    if n.kind == "phi":
        return elements(M, n.a[1] if np.all(M.poly(n.a[0], env)) else n.a[2], env)
    if n.kind == "items":
        out = []
        for x in n.a[1]:
            out += elements(M, x, env) if x.kind == "seg" else [(x, {})]
        return out
    if n.kind == "seq":
        k, _ = M.size(n.a[0], env)
        return [(n.a[2], {n.a[1].id: np.asarray(float(j))}) for j in range(min(k, 12))]
    if n.kind == "term" and n.a[0].op == "loopseq":
        L, q = n.a[0].args
        state, _ = M.run_loop(L, env)
        return [(Num_(np.asarray(M.number(t, e)).reshape(())), {}) for t, e in state[q]]
    if n.kind == "arr":
        raise EvalError("array as sequence")
    raise EvalError("sequence term")


class Num_:
    """An evaluated element."""
    kind = "val"

    def __init__(self, x):
        self.a = (x,)


def describe(n):
    return "%s(%s)" % (n.kind, n.a[0] if n.kind in ("items", "map") else "")


def show_keys(n):
    return "%s{%s}" % (n.a[0], ", ".join(P.show_atom(k) if isinstance(k, Atom) else str(k) for k, _ in n.a[1]))


def arr_value(M, n, env):
    sizes, body = n.a[:2]
    k = len(sizes)
    dims = [M.size(s, env)[0] for s in sizes]
    base = env
    vars = {}
    for j in range(k):
        at = P.ix(k - 1 - j, sizes[j])
        vars[at.id] = np.arange(dims[j], dtype=float).reshape((dims[j],) + (1,) * (k - 1 - j + env.depth))
    e = Env(vars, env.depth + k, env)
    x = M.poly(body, e)
    full = tuple(dims) + (1,) * env.depth
    x = np.broadcast_to(x, full) if x.ndim <= len(full) else x
    return x


# operations of the language and of numpy without a meaning in the models above
UNMODELLED = {"binop", "setop", "item", "elem", "replicate", "sorted_list", "set", "dict", "setmeth", "maketrans",
              "type", "idhash", "smeth", "pyconst"}
MODELLED = {"cabs", "real", "imag", "conj", "conjugate", "microseconds", "ticks"}
LIBRARIES = ("numpy", "scipy", "math", "itertools", "functools", "operator", "collections", "builtins", "re",
             "copy", "numbers", "contextlib", "dataclasses", "types", "typing")


def unmodelled(nodes):
    """Operations in the nodes that the models only treat as unknown functions."""
    out = set()
    seen = set()
    stack = list(nodes)
    while stack:
        x = stack.pop()
        if isinstance(x, Poly):
            if x.uid not in seen:
                seen.add(x.uid)
                stack += [ATOMS[i] for m in x.terms for i, _ in m]
        elif isinstance(x, Atom):
            if ("a", x.id) in seen:
                continue
            seen.add(("a", x.id))
            if x.op in UNMODELLED:
                out.add((x.op,) + tuple(str(y) for y in x.args if not isinstance(y, (Poly, Atom, tuple))))
            elif x.op == "fn" and x.args[0] not in Model.FN and x.args[0] not in MODELLED:
                out.add(("fn", str(x.args[0])))
            elif x.op == "call" and isinstance(x.args[0], str) and x.args[0].split(".")[0] in LIBRARIES:
                out.add(("call", x.args[0]))
            stack += x.args
        elif isinstance(x, (tuple, list)):
            stack += x
        elif hasattr(x, "kind"):
            stack += x.a
    return out


def collect_consts(nodes, polys=()):
    """Constants that opaque values are compared with."""
    out = {}
    seen = set()

    def walk(x):
        if isinstance(x, Poly):
            if ("p", x.uid) in seen:
                return
            seen.add(("p", x.uid))
            for m in x.terms:
                for i, _ in m:
                    walk(ATOMS[i])
        elif isinstance(x, Atom):
            if x.id in seen:
                return
            seen.add(x.id)
            if x.op == "eqc":
                out.setdefault(x.args[0], set()).add(x.args[1])
            for y in x.args:
                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
        elif hasattr(x, "kind"):
            for y in x.a:
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for n in nodes:
        walk(n)
    for p in polys:
        walk(p)
    return out


def thresholds(leaves):
    """Comparisons that a scalar symbol enters linearly: {symbol id: [(coefficient, rest)]}"""
    out = {}
    seen = set()

    def cond(p):
        for i in p.leaves:
            at = ATOMS[i]
            if at.op != "sym" or at.args[0] in P.SIZE_SYMS:
                continue
            if len(at.args) > 1 and at.args[1] == "i" and any(ATOMS[j].op != "lt0" and ATOMS[j].op != "gt0" and j != i for j in p.leaves):
                continue
            co, rest = {}, {}
            for m, c in p.terms.items():
                e = [x for x in m if x[0] == i]
                others = tuple(x for x in m if x[0] != i)
                if any(i in ATOMS[j].leaves for j, _ in others) or (e and e[0][1] != 1):
                    break
                (co if e else rest)[others if e else m] = c
            else:
                if co:
                    out.setdefault(i, []).append((P.mk(co), P.mk(rest)))

    def walk(x):
        if isinstance(x, Poly):
            if ("p", x.uid) in seen:
                return
            seen.add(("p", x.uid))
            for m in x.terms:
                for i, _ in m:
                    walk(ATOMS[i])
        elif isinstance(x, Atom):
            if x.id in seen:
                return
            seen.add(x.id)
            if x.op in ("lt0", "gt0"):
                cond(x.args[0])
            for y in x.args:
                walk(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
        elif hasattr(x, "kind"):
            walk(x.a)
    for _, c, a, b in leaves:
        walk(c)
        walk(a)
        walk(b)
    return out


def boundary_models(leaves, count, seed, fixed, consts):
    """Models in which scalars lie on (or close to) a threshold they are compared with."""
    th = thresholds(leaves)
    if not th:
        return
    for s in range(count):
        n = 12 + s % 2
        fx = dict(fixed or {})
        for r, i in enumerate(sorted(th)):
            name = ATOMS[i].args[0]
            if name in fx:
                continue
            u = [(float(hrand(seed_of("boundary", seed, s, r, k))) + 1) / 2 for k in range(8)]
            if u[0] < 0.2:
                continue
            co, rest = th[i][int(u[1] * len(th[i]))]
            M = Model(seed * 1000 + s, n, s % 3 == 0, fx, consts)
            M.wide = s % 4 == 1
            try:
                vars = {}
                for k, j in enumerate(sorted(co.leaves | rest.leaves)):
                    at = ATOMS[j]
                    if at.op in ("ix", "bv", "fv"):
                        m, _ = M.size(at.args[1], M.root)
                        w = (float(hrand(seed_of("index", seed, s, r, k))) + 1) / 2
                        vars[j] = np.asarray(float(min(int(w * m), m - 1)))
                e = Env(vars, 0, M.root)
                c, q = np.asarray(M.real(co, e)), np.asarray(M.real(rest, e))
                if c.size != 1 or q.size != 1 or abs(float(c.reshape(()))) < 1e-12:
                    continue
                x = float(-q.reshape(()) / c.reshape(()))
            except (EvalError, RecursionError, MemoryError, ValueError, TypeError, IndexError, OverflowError, KeyError):
                continue
            if not np.isfinite(x):
                continue
            x += (0.0, 0.0, 0.4, -0.4, 0.083 * abs(x), -0.061 * abs(x))[int(u[2] * 6)]
            if len(ATOMS[i].args) > 1 and ATOMS[i].args[1] == "i":
                x = int(np.floor(x)) + int(u[3] * 2)
            if i in P.POSITIVE and x <= 0:
                continue
            fx[name] = x
        M = Model(seed * 1000 + s, n, s % 3 == 0, fx, consts)
        M.wide = s % 4 == 1
        yield M


def element_models(leaves, seed, fixed, consts, most=12):
    """Models in which elements of arrays lie on a threshold that occurs on one side only."""
    mine = comparisons([x for l in leaves for x in (l[1], l[2])])
    theirs = comparisons([l[3] for l in leaves])
    for k, i in enumerate(sorted(set(mine) ^ set(theirs))[:most]):
        a = mine.get(i) or theirs[i]
        p = a.args[-1]
        if not isinstance(p, Poly):
            continue
        data = elements_of(p)
        for s in range(4):
            if not data:
                break
            d = data[int((float(hrand(seed_of("element", seed, k, s))) + 1) / 2 * len(data))]
            lattice = s % 2 == 0
            M = Model(seed * 1000 + 8000 + s, 12 + s % 2, lattice, fixed, consts)
            try:
                vars = {}
                for r, j in enumerate(sorted(a.leaves)):
                    at = ATOMS[j]
                    if at.op in ("ix", "bv", "fv"):
                        m, _ = M.size(at.args[1], M.root)
                        w = (float(hrand(seed_of("index", seed, s, r, k))) + 1) / 2
                        vars[j] = np.asarray(float(min(int(w * m), m - 1)))
                idx = [float(np.asarray(M.real(x, Env(vars, 0, M.root))).reshape(())) for x in d.args[2]]

                def value(x):
                    Q = Model(seed * 1000 + 8000 + s, 12 + s % 2, lattice, fixed, consts)
                    Q.elements = {d.args[0]: [(idx, x)]}
                    return float(np.asarray(Q.real(p, Env(dict(vars), 0, Q.root))).reshape(())), Q
                f0, f1 = value(0.0)[0], value(1.0)[0]
                if abs(f1 - f0) < 1e-12 or not np.isfinite(f1 - f0):
                    continue
                x = -f0 / (f1 - f0)
                if d.args[1] == "i" and abs(x - round(x)) > 1e-9:
                    continue
                M.elements = {d.args[0]: [(idx, x)]}
                M = Model(seed * 1000 + 8000 + s, 12 + s % 2, lattice, fixed, consts)
                M.elements = {d.args[0]: [(idx, x)]}
                yield M
            except (EvalError, RecursionError, MemoryError, ValueError, TypeError, IndexError, OverflowError, KeyError):
                continue


def elements_of(p):
    """Array elements that a term depends on."""
    out, seen, stack = [], set(), [p]
    while stack and len(seen) < 2000:
        x = stack.pop()
        if isinstance(x, Poly):
            if x.uid not in seen:
                seen.add(x.uid)
                stack += [ATOMS[i] for m in x.terms for i, _ in m]
        elif isinstance(x, Atom):
            if ("a", x.id) not in seen:
                seen.add(("a", x.id))
                if x.op == "data" and x.args[1] in ("f4", "f8", "i"):
                    out.append(x)
                stack += x.args
        elif isinstance(x, (tuple, list)):
            stack += x
    return sorted(out, key=lambda x: x.id)


SIZES = tuple(range(12, 33)) + (36, 40, 45, 48, 60, 64, 72, 73, 80, 90, 91, 96, 100, 101, 120, 128, 144, 180, 181, 200, 240, 256, 360, 400, 512, 720)


def size_models(leaves, seed, fixed, consts):
    """Models of grids large enough to take alternatives that depend on the size of the grid only."""
    mine = comparisons([x for l in leaves for x in (l[1], l[2])], sizes=True)
    theirs = comparisons([l[3] for l in leaves], sizes=True)
    for i in sorted(set(mine) ^ set(theirs)):
        a = mine.get(i) or theirs[i]
        seen = set()
        for n in SIZES:
            M = Model(seed * 1000 + 9000, n, False, fixed, consts)
            try:
                x = bool(np.any(M.atom(a, Env({}, 0, M.root))))
            except (EvalError, RecursionError, MemoryError, ValueError, TypeError, IndexError, OverflowError, KeyError):
                break
            if x not in seen and n > 13:
                yield M
                if M.failed:
                    # too large to be evaluated: the same alternative on a coarse grid
                    both = dict(mine)
                    both.update(theirs)
                    pin = {j: M.atom(b, Env({}, 0, M.root)) for j, b in both.items()}
                    for s in range(2):
                        C = Model(seed * 1000 + 9001 + s, 12 + s, False, fixed, consts)
                        C.pin = pin
                        yield C
            seen.add(x)
            if len(seen) == 2:
                break


def comparisons(nodes, sizes=False):
    """Atoms lt0(p), gt0(p) that occur in the nodes (of sizes only)."""
    out = {}
    seen = set()
    stack = list(nodes)
    while stack:
        x = stack.pop()
        if isinstance(x, Poly):
            if x.uid not in seen:
                seen.add(x.uid)
                stack += [ATOMS[i] for m in x.terms for i, _ in m]
        elif isinstance(x, Atom):
            if ("a", x.id) not in seen:
                seen.add(("a", x.id))
                if sizes:
                    if x.ind and x.leaves and all(ATOMS[j].op == "sym" and ATOMS[j].args[0] in P.SIZE_SYMS for j in x.leaves):
                        out[x.id] = x
                elif x.op in ("lt0", "gt0") or x.op == "ind" and x.args[0] == "lt0":
                    out[x.id] = x
                stack += x.args
        elif isinstance(x, (tuple, list)):
            stack += x
        elif hasattr(x, "kind"):
            stack += x.a
    return out


def alternative_models(leaves, seed, fixed, consts, most=16, tries=60):
    """Models in which the quantities compared on one side only have either sign."""
    mine = comparisons([x for l in leaves for x in (l[1], l[2])])
    theirs = comparisons([l[3] for l in leaves])
    only = sorted(set(mine) ^ set(theirs))[:most]
    for k, i in enumerate(only):
        a = mine.get(i) or theirs[i]
        seen = {}
        for s in range(tries):
            M = Model(seed * 1000 + 7000 + s, 12 + s % 2, False, fixed, consts)
            M.wide = 2
            try:
                vars = {}
                for r, j in enumerate(sorted(a.leaves)):
                    at = ATOMS[j]
                    if at.op in ("ix", "bv", "fv"):
                        m, _ = M.size(at.args[1], M.root)
                        w = (float(hrand(seed_of("index", seed, s, r, k))) + 1) / 2
                        vars[j] = np.asarray(float(min(int(w * m), m - 1)))
                x = np.atleast_1d(M.real(a.args[-1], Env(vars, 0, M.root)))
                v = int(np.sign(x[np.nanargmax(np.abs(x))])) if np.any(np.abs(x) > 1e-3) else 0
            except (EvalError, RecursionError, MemoryError, ValueError, TypeError, IndexError, OverflowError, KeyError):
                break
            seen[v] = seen.get(v, 0) + 1
            if seen[v] <= 2:
                yield M
            if min(seen.get(-1, 0), seen.get(1, 0)) >= 2:
                break


def distinguish(leaves, seeds=10, fixed=None, base=0, guard=None):
    """leaves: [(path, cond, a, b)].  Returns (verdict, info):
    "different" with a witness, "equal" (indistinguishable), or "unknown"."""
    consts = collect_consts([l[2] for l in leaves] + [l[3] for l in leaves], [l[1] for l in leaves])
    unknown = None
    n_eval = 0
    status = {}
    large = []

    def models():
        for s in range(seeds):
            for lattice in (False, True):
                yield Model(base * 1000 + s, 12 + s % 2, lattice, fixed, consts)
            if s % 2:
                M = Model(base * 1000 + 500 + s, 12 + s % 2, False, fixed, consts)
                M.wide = True
                yield M
        yield from boundary_models(leaves, 4 * seeds, base, fixed, consts)
        yield from alternative_models(leaves, base, fixed, consts)
        yield from element_models(leaves, base, fixed, consts)
        for M in size_models(leaves, base, fixed, consts):
            yield M
            if M.failed and not M.pin:
                large.append(M.n)

    def degenerate():
        # uniform and vanishing fields, for alternatives that no other model takes
        if len(status) < len(leaves):
            for s in range(2):
                for x in (0.0, 1.5):
                    M = Model(base * 1000 + s, 12 + s % 2, False, fixed, consts)
                    M.flat = x
                    yield M
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for M in itertools.chain(models(), degenerate()):
            for k, (path, cond, a, b) in enumerate(leaves):
                try:
                    c = M.poly(cond)
                    if not np.any(c):
                        continue
                    compare(M, a, b, None, path)
                    n_eval += 1
                    status[k] = status.get(k, 0) + 1
                except Different as d:
                    if os.environ.get("BAROLINT_DEBUG"):
                        print("DIFF", path, d.path, "\n", d.a, "\n", d.b)
                        if os.environ.get("BAROLINT_DEBUG") == "2": print("A", a, "\nB", b)
                    return "different", (path, d, a, b, cond)
                except (EvalError, RecursionError, MemoryError, ValueError, TypeError, IndexError, OverflowError, KeyError) as e:
                    unknown = "%s: %s" % (type(e).__name__, e)
                    status.setdefault(k, 0)
                    M.failed = True
    if large:
        return "unknown", "alternative of a grid of %d latitude intervals: %s" % (large[-1], unknown)
    if unknown is not None and any(v == 0 for v in status.values()):
        return "unknown", unknown
    if len(status) < len(leaves):
        return "unreached", "the gates of %d difference(s) were satisfied in no model" % (len(leaves) - len(status))
    return "equal", n_eval
