"""States and collections of states."""

from . import prop
from ..values import Num, Const, Tup
from .. import arrays, poly as P
from ..poly import atom, topoly
from ..reify import reify
from ..context import Ctx
from .grid import setup as grid_setup


def setup(ck, **kw):
    C = grid_setup(ck, **kw)
    g = C.env["g"]
    C.let(s=C.state(g, "s"), s2=C.state(g, "s2"), s3=C.state(g, "s3"), t=C.num("t"), k=C.num("k"))
    return C


def with_stubs(ck, stubs=(), missing=()):
    """The usual symbols, with interface models of optional packages."""
    base = ck.ctx
    ck.ctx = lambda **kw: Ctx(extra_stubs=stubs, missing=missing, size=ck.size, **kw)
    try:
        return setup(ck)
    finally:
        ck.ctx = base


@prop("C07")
def constructors(ck):
    C = setup(ck)
    A = "state.State"
    C.let(T=C.time("T"))
    show = "(x.grid is g, x.time, x.pv_spectral, x.pv)"
    exp = "q = %s\n(True, t, q, g.to_grid(q))"
    for lab, code, q in (
            ("from PV", "x = bt.State(g, t, f)", "g.to_spectral(f)"),
            ("from PV, keyword", "x = bt.State(g, t, pv=f)", "g.to_spectral(f)"),
            ("from spectral PV", "x = bt.State(g, t, pv_spectral=sp)", "sp"),
            ("all keywords", "x = bt.State(grid=g, time=t, pv_spectral=sp)", "sp"),
            ("from vorticity", "x = bt.State.from_vorticity(g, t, f)", "g.to_spectral(g.fcor2 + f)"),
            ("from vorticity, keywords", "x = bt.State.from_vorticity(grid=g, time=t, vorticity=f)", "g.to_spectral(g.fcor2 + f)"),
            ("from wind", "x = bt.State.from_wind(g, t, u, v)", "g.to_spectral(g.fcor2 + g.vorticity(u, v))"),
            ("from wind, keywords", "x = bt.State.from_wind(grid=g, time=t, u=u, v=v)", "g.to_spectral(g.fcor2 + g.vorticity(u, v))")):
        ck.eq(C, "state %s" % lab, A, code + "\n" + show, exp % q)
    ck.eq(C, "time of any type is kept", A, "bt.State(g, T, f).time, bt.State.from_wind(g, T, u, v).time, bt.State.from_vorticity(g, T, f).time",
          "T, T, T")
    ck.eq(C, "PV in both representations is rejected", A, "bt.State(g, t, pv=f, pv_spectral=sp)", "raise AssertionError", may_fail=True)
    B = "state.State.add_wind"
    wind = "q = g.to_spectral(g.fcor2 + g.vorticity(s.u + %s, s.v + %s))\n(True, s.time, q, g.to_grid(q))"
    ck.eq(C, "wind of another state added", B, "x = s.add_wind(s2)\n" + show, wind % ("s2.u", "s2.v"))
    ck.eq(C, "wind given as tuple added", B, "x = s.add_wind((u, v))\n" + show, wind % ("u", "v"))
    ck.eq(C, "wind given as list added", B, "x = s.add_wind([u, v])\n" + show, wind % ("u", "v"))
    ck.eq(C, "own wind added", B, "x = s.add_wind(s)\n" + show, wind % ("s.u", "s.v"))
    ck.eq(C, "no wind added", B, "s.add_wind((np.zeros(g.shape), np.zeros(g.shape))).pv_spectral",
          "g.to_spectral(g.fcor2 + g.vorticity(s.u, s.v))")
    ck.eq(C, "adding wind twice", B, "s.add_wind((u, v)).add_wind(s2).pv_spectral",
          "a = bt.State.from_wind(g, s.time, s.u + u, s.v + v)\nbt.State.from_wind(g, s.time, a.u + s2.u, a.v + s2.v).pv_spectral")
    D = "state.State.add_vorticity"
    ck.eq(C, "vorticity of another state added", D, "x = s.add_vorticity(s2)\n" + show, exp.replace("t,", "s.time,") % "g.to_spectral(s.pv + s2.pv - g.fcor2)")
    ck.eq(C, "vorticity field added", D, "x = s.add_vorticity(f)\n" + show, exp.replace("t,", "s.time,") % "g.to_spectral(s.pv + f)")
    ck.eq(C, "own vorticity added", D, "x = s.add_vorticity(s)\n" + show, exp.replace("t,", "s.time,") % "g.to_spectral(2*s.pv - g.fcor2)")
    ck.eq(C, "planetary vorticity is counted once", D, "s.add_vorticity(s2).vorticity",
          "g.to_grid(g.to_spectral(s.vorticity + s2.vorticity + g.fcor2)) - g.fcor2")
    ck.eq(C, "adding a motionless state", D, "bt.init.motionless(g).pv, s.add_vorticity(bt.init.motionless(g)).pv_spectral",
          "g.to_grid(g.fcor2_spectral), g.to_spectral(s.pv + g.to_grid(g.fcor2_spectral) - g.fcor2)")
    ck.eq(C, "operands unchanged", A, "s.add_wind(s2)\ns.add_vorticity(s2)\ns.add_wind((u, v))\ns.add_vorticity(f)\n"
          "bt.State.from_wind(g, t, u, v)\nbt.State.from_vorticity(g, t, f)\nbt.State(g, t, f)\n"
          "(s.pv, s.u, s.pv_spectral, s2.pv, s2.u, u, v, f, g.fcor2)", "(s.pv, s.u, s.pv_spectral, s2.pv, s2.u, u, v, f, g.fcor2)")
    for m in ("add_wind", "add_vorticity"):
        ck.eq(C, "%s: states on other grids are rejected" % m, "state.State." + m,
              "o = bt.Grid(2*res, R, OM)\ns.%s(bt.init.motionless(o))" % m, "raise AssertionError", may_fail=True)
    for m, bad in (("add_wind", "(u[1:], v)"), ("add_wind", "(u, v[1:])"), ("add_wind", "(u, v[:,1:])"), ("add_vorticity", "f[1:]"), ("add_vorticity", "f[:,1:]")):
        ck.eq(C, "%s: %s is rejected" % (m, bad), "state.State." + m, "s.%s(%s)" % (m, bad), "raise AssertionError", may_fail=True)


def opaque(C, *names):
    """Diagnostics as unknown functions of their arguments (their definitions have obligations of their own)."""
    I = C.I

    def summary(name):
        def f(I, func, args, kwargs):
            v = I.bind_args(func, args, kwargs)
            if v is None:
                return Const(None)
            a = {k: v[k] for k in v if k != "grid"}
            first = next(iter(v))
            x, grid = v[first], v.get("grid")
            c = I.class_of(x)
            if c is not None and c.name == "State":
                grid = I.getattr(x, "grid")
                x = I.getattr(x, {"stationary_wavenumber": "u", "extract_ks_waveguides": "stationary_wavenumber"}.get(name, "pv"))
                a[first] = x
            key = [reify(I, a[k]) for k in sorted(a)]
            sz = (C.N + 1,) if name in ("dominant_wavenumber_fourier", "stationary_wavenumber", "fawa", "extract_ks_waveguides") else (C.N + 1, 2*C.N)
            idx = tuple(topoly(arrays.vix(sz, j)) for j in range(len(sz)))
            r = arrays.mk(I, sz, topoly(atom("app", name, *key, idx)), "f8")
            return I.new_list([r]) if name == "extract_ks_waveguides" else r
        return f
    for n in names:
        I.overrides["barotropic.diagnostics:" + n] = summary(n)


FIELDS = [
    ("pv", "g.to_grid(Q)"),
    ("avo", "g.to_grid(Q)"),
    ("pv_spectral", "Q"),
    ("vorticity", "g.to_grid(Q) - g.fcor2"),
    ("vo", "g.to_grid(Q) - g.fcor2"),
    ("vorticity_spectral", "Q - g.fcor2_spectral"),
    ("u", "g.wind(Q - g.fcor2_spectral, np.zeros(Q.shape, dtype=complex))[0]"),
    ("v", "g.wind(Q - g.fcor2_spectral, np.zeros(Q.shape, dtype=complex))[1]"),
    ("streamfunction", "g.to_grid(g.solve_poisson_spectral(Q - g.fcor2_spectral))"),
    ("pv_flux_spectral", "a, b = g.wind(Q - g.fcor2_spectral, np.zeros(Q.shape, dtype=complex))\n"
                         "g.divergence_spectral(g.to_grid(Q)*a, g.to_grid(Q)*b)"),
    ("enstrophy", "g.to_grid(Q)**2/2"),
    ("eddy_enstrophy", "p = g.to_grid(Q)\n(p - (np.sum(p, axis=1)/g.nlon)[:,None])**2/2"),
    ("energy", "a, b = g.wind(Q - g.fcor2_spectral, np.zeros(Q.shape, dtype=complex))\n(a**2 + b**2)/2"),
]


@prop("C08")
def fields(ck):
    C = setup(ck)
    for name, spec in FIELDS:
        ck.eq(C, "%s of a state from spectral PV" % name, "state.State." + name, "bt.State(g, t, pv_spectral=sp)." + name, "Q = sp\n" + spec)
        ck.eq(C, "%s of a state from PV" % name, "state.State." + name, "bt.State(g, t, f)." + name, "Q = g.to_spectral(f)\n" + spec)
    ck.eq(C, "wind and streamfunction of a motionless state", "state.State", "m = bt.init.motionless(g)\n(m.u, m.v, m.streamfunction)",
          "z = np.zeros(g.shape)\n(z, z, z)")
    ck.eq(C, "wind is linear in the vorticity", "state.State.u",
          "a = bt.State(g, t, pv_spectral=g.fcor2_spectral + sp + 2*sp2)\n(a.u, a.v)",
          "b, c = [bt.State(g, t, pv_spectral=g.fcor2_spectral + q) for q in (sp, sp2)]\n(b.u + 2*c.u, b.v + 2*c.v)")
    C2 = setup(ck, ntrunc=C.num("nt", "i"))
    pre = P.lt0(-P.sym("nt", "i"))
    C2.let(sp=C2.array("sq", (P.pscale((P.sym("nt", "i") + 1) * (P.sym("nt", "i") + 2), P.Fraction(1, 2)),), "c8"))
    for name, spec in FIELDS:
        ck.eq(C2, "%s with truncation" % name, "state.State." + name, "bt.State(g, t, pv_spectral=sp)." + name, "Q = sp\n" + spec, pre=pre)


LIGHT = ["pv", "avo", "pv_spectral", "u", "v", "streamfunction", "pv_flux_spectral", "vorticity", "vo", "vorticity_spectral",
         "enstrophy", "eddy_enstrophy", "energy", "stationary_wavenumber", "v_envelope_hilbert"]
HEAVY = ["pv_zonalized", "falwa", "fawa", "falwa_filtered"]


@prop("C09")
def memo(ck):
    C = setup(ck)
    new = "x = bt.State(g, t, pv_spectral=sp)\n"
    read = "".join("x.%s\n" % a for a in LIGHT)
    back = "".join("x.%s\n" % a for a in reversed(LIGHT))
    allL = "(" + ", ".join("x." + a for a in LIGHT) + ")"
    fresh = "(" + ", ".join("bt.State(g, t, pv_spectral=sp).%s" % a for a in LIGHT) + ")"
    A = "state.State"
    ck.eq(C, "all fields in order", A, new + allL, fresh)
    ck.eq(C, "all fields after reading all in order", A, new + read + allL, fresh)
    ck.eq(C, "all fields after reading all in reverse order", A, new + back + allL, fresh)
    ck.eq(C, "all fields read twice in both orders", A, new + read + back + read + allL, fresh)
    for a in LIGHT:
        ck.eq(C, "all fields after reading %s" % a, "state.State." + a, new + "x.%s\nx.%s\n" % (a, a) + allL, fresh)
    gnew = "x = bt.State(g, t, f)\n"
    gfresh = fresh.replace("pv_spectral=sp", "f")
    ck.eq(C, "all fields of a state from PV after reading all", A, gnew + read + back + allL, gfresh)
    ck.eq(C, "pv_zonalized after reading all fields", "state.State.pv_zonalized", new + read + "x.pv_zonalized", "bt.State(g, t, pv_spectral=sp).pv_zonalized")
    for a in ("pv_zonalized", "falwa", "x.extract_ks_waveguides(k)"):
        ck.eq(C, "fields after reading %s" % a, "state.State", new + ("x.%s\n" % a if a[1] != "." else a + "\n") + allL, fresh)
    D = setup(ck)
    opaque(D, "falwa", "fawa", "filter_by_wavenumber", "dominant_wavenumber_fourier", "envelope_hilbert", "stationary_wavenumber",
           "extract_ks_waveguides")
    allH = "(" + ", ".join("x." + a for a in LIGHT + HEAVY) + ")"
    freshH = "(" + ", ".join("bt.State(g, t, pv_spectral=sp).%s" % a for a in LIGHT + HEAVY) + ")"
    for a in HEAVY:
        ck.eq(D, "everything after reading %s twice" % a, "state.State." + a, new + "x.%s\nx.%s\n" % (a, a) + allH, freshH)
        for b in HEAVY:
            if a != b:
                ck.eq(D, "everything after reading %s and %s" % (a, b), "state.State." + b, new + "x.%s\nx.%s\n" % (a, b) + allH, freshH)
    readH = "".join("x.%s\n" % a for a in LIGHT + HEAVY)
    backH = "".join("x.%s\n" % a for a in reversed(LIGHT + HEAVY))
    ck.eq(D, "everything after reading everything", A, new + readH + allH, freshH)
    ck.eq(D, "everything after reading everything in reverse order", A, new + backH + allH, freshH)
    ck.eq(D, "everything after reading everything of another state", A, "y = bt.State(g, t, pv_spectral=sp2)\n" + new
          + readH.replace("x.", "y.") + allH, freshH)
    ck.eq(D, "everything after reading everything of another state with the same PV", A, "y = bt.State(g, t + 1, pv_spectral=sp)\n" + new
          + readH.replace("x.", "y.") + allH + ", x.time", freshH + ", t")
    two = "y = bt.State(g, t, pv_spectral=sp2)\n" + new
    ready = read.replace("x.", "y.")
    ck.eq(C, "fields independent of another state of the grid", A, two + ready + allL, fresh)
    ck.eq(C, "fields independent of a state of another grid", A,
          "y = bt.State(bt.Grid(10.), t, np.zeros((19, 36)))\n" + new + "y.u\ny.pv\ny.streamfunction\ny.enstrophy\n" + allL, fresh)
    ck.eq(C, "fields unaffected by methods", A, new + "x.add_wind(s)\nx.add_vorticity(s)\nx.add_wind((u, v))\nx.extract_ks_waveguides(k)\n"
          "bt.BarotropicModel().euler(x, dt)\n" + allL, fresh)


@prop("C10")
def shortcuts(ck):
    from .model import run_domain
    C = setup(ck)
    D = setup(ck)
    opaque(D, "falwa", "filter_by_wavenumber", "dominant_wavenumber_fourier", "envelope_hilbert", "stationary_wavenumber",
           "extract_ks_waveguides")
    C.let(rhs=C.code("lambda s: field_of(s.grid, 'rhs', s)")(C.I), save=C.num("save"), tend=C.num("tend"))
    D.let(rhs=C.env["rhs"])
    for name, code, spec in (
            ("pv_zonalized", "s.pv_zonalized", "g.zonalize(s.pv)"),
            ("falwa", "s.falwa", "bt.diagnostics.falwa(s)"),
            ("falwa", "s.falwa", "bt.diagnostics.falwa(s.pv, g, levels=None, interpolate=True, quad='sptrapz')"),
            ("fawa", "s.fawa", "np.sum(bt.diagnostics.falwa(s), axis=1)/g.nlon"),
            ("falwa_filtered", "s.falwa_filtered",
             "bt.diagnostics.filter_by_wavenumber(bt.diagnostics.falwa(s), 2*bt.diagnostics.dominant_wavenumber_fourier(s.v, g))"),
            ("v_envelope_hilbert", "s.v_envelope_hilbert", "bt.diagnostics.envelope_hilbert(s.v, (2, 10))"),
            ("v_envelope_hilbert", "s.v_envelope_hilbert", "bt.diagnostics.envelope_hilbert(s.v)"),
            ("stationary_wavenumber", "s.stationary_wavenumber", "bt.diagnostics.stationary_wavenumber(s)"),
            ("stationary_wavenumber", "s.stationary_wavenumber",
             "bt.diagnostics.stationary_wavenumber(s, None, order=4, min_u=0.001, kind='complex')"),
            ("extract_ks_waveguides", "s.extract_ks_waveguides(k)", "bt.diagnostics.extract_ks_waveguides(s, k)"),
            ("extract_ks_waveguides", "s.extract_ks_waveguides(k=k)", "bt.diagnostics.extract_ks_waveguides(s.stationary_wavenumber, k, grid=g)"),
            ("run", "s.run(bt.BarotropicModel(rhs), dt, tend)", "bt.BarotropicModel(rhs).run(s, dt, tend)"),
            ("run", "s.run(bt.BarotropicModel(rhs), dt, tend=tend, save_every=save)", "bt.BarotropicModel(rhs).run(s, dt, tend, save)")):
        for E, how in ((D, "unknown diagnostics"), (C, "")):
            if how and (name == "run" or name == "fawa") or not how and name in ("falwa_filtered", "extract_ks_waveguides"):
                continue
            ck.eq(E, "%s%s: %s" % (name, how and ", " + how, " ".join(spec.split()[:6])[:60]), "state.State." + name, code, spec,
                  fixed=run_domain() if name == "run" else None)


@prop("C12")
def lists(ck):
    C = setup(ck)
    D = setup(ck)
    opaque(D, "extract_ks_waveguides", "stationary_wavenumber")
    A = "state.StateList"
    L = "l = bt.StateList([s, s2, s3])\n"
    ck.eq(C, "sequence", A, L + "(len(l), l[0], l[1], l[2], l[-1], list(l), [x.time for x in l])",
          "(3, s, s2, s3, s3, [s, s2, s3], [s.time, s2.time, s3.time])")
    ck.eq(C, "from any iterable", A, "bt.StateList(x for x in (s, s2)), bt.StateList((s,)), bt.StateList([])",
          "bt.StateList([s, s2]), bt.StateList([s]), bt.StateList(())")
    ck.eq(C, "empty", A, "l = bt.StateList([])\n(len(l), list(l), l.grid, bool(l))", "0, [], None, False")
    ck.eq(C, "concatenation", A, "a = bt.StateList([s, s2])\nb = a + bt.StateList([s3])\n(b, isinstance(b, bt.StateList), a, a + [s3], a + (s,))",
          "bt.StateList([s, s2, s3]), True, bt.StateList([s, s2]), bt.StateList([s, s2, s3]), bt.StateList([s, s2, s])")
    ck.eq(C, "index out of range", A, L + "l[3]", "raise IndexError", may_fail=True)
    ck.eq(C, "membership and order", A, L + "(s in l, l.index(s2), list(reversed(l)))", "True, 1, [s3, s2, s]")
    ck.eq(C, "grid", A, L + "l.grid is g", "True")
    ck.eq(C, "objects other than states are rejected", A, "bt.StateList([s, 1])", "raise TypeError", may_fail=True)
    ck.eq(C, "fields are rejected", A, "bt.StateList([f])", "raise TypeError", may_fail=True)
    ck.eq(C, "states of unequal grids are rejected", A, "bt.StateList([s, bt.init.motionless(bt.Grid(2*res, R, OM))])",
          "raise AssertionError", may_fail=True)
    for lab, e, ok in (("radius", "res, 2*R + 1, OM", "False"), ("rotation", "res, R, OM + 1", "np.isclose(OM, OM + 1)"), ("truncation", "res, R, OM, ntrunc=3", "False")):
        ck.eq(C, "states of grids of other %s are rejected" % lab, A, "len(bt.StateList([s, bt.init.motionless(bt.Grid(%s))]))" % e,
              "if not %s:\n    raise AssertionError\n2" % ok, may_fail=True)
        ck.eq(C, "concatenation with states of grids of other %s is rejected" % lab, A,
              "len(bt.StateList([s]) + bt.StateList([bt.init.motionless(bt.Grid(%s))]))" % e, "if not %s:\n    raise AssertionError\n2" % ok, may_fail=True)
    ck.eq(C, "states of equal grids are accepted", A, "h = bt.Grid(res, R, OM)\nx = bt.State(h, t, pv_spectral=sp)\nlen(bt.StateList([s, x]))", "2")
    ck.eq(C, "list is independent of the sequence it was made from", A, "q = [s, s2]\nl = bt.StateList(q)\nq.append(s3)\nq[0] = s3\nl",
          "bt.StateList([s, s2])")
    for a in ("pv", "avo", "u", "v", "streamfunction", "vorticity", "vo", "energy", "enstrophy", "eddy_enstrophy", "pv_spectral",
              "vorticity_spectral", "pv_flux_spectral", "stationary_wavenumber", "v_envelope_hilbert", "pv_zonalized", "time"):
        ck.eq(C, "attribute %s" % a, A, L + "l." + a, "np.stack([s.%s, s2.%s, s3.%s])" % (a, a, a) if a != "time" else
              "np.array([s.time, s2.time, s3.time])")
        ck.eq(C, "attribute %s of one state" % a, A, "bt.StateList([s2]).%s" % a, "np.stack([s2.%s])" % a if a != "time" else "np.array([s2.time])")
    ck.eq(C, "dates are returned as a list", A, "bt.StateList([bt.State(g, T, sp, None), bt.State(g, T2, sp, None)]).time", "[T, T2]",
          vars={"T": C.time("T"), "T2": C.time("T2"), "sp": C.field("q")})
    ck.eq(C, "times of different kinds", A, "z = bt.init.motionless(g).pv_spectral\n"
          "m = lambda *q: bt.StateList([bt.State(g, i, pv_spectral=z) for i in q])\n(m(0, 0.5, 1.5).time, m(0.5, 2).time, m(0, 3).time, m(1, 2.75).map(lambda x: x.time))",
          "np.array([0, 0.5, 1.5]), np.array([0.5, 2.]), np.array([0, 3]), np.array([1, 2.75])")
    ck.eq(C, "attribute that states do not have", A, L + "l.no_such_field", "raise AttributeError", may_fail=True)
    for a in ("__len_hint__", "_pv", "_private", "__copy__"):
        ck.eq(C, "%s is not broadcast" % a, A, L + "l.%s" % a, "raise AttributeError", may_fail=True)
    ck.eq(C, "private names are not looked up before initialisation", A,
          "x = bt.StateList.__new__(bt.StateList)\nx.__deepcopy__", "raise AttributeError", may_fail=True)
    for m, args, one in (
            ("add_wind", "s2", "bt.StateList"), ("add_vorticity", "f", "bt.StateList"), ("add_wind", "(u, v)", "bt.StateList"),
            ("extract_ks_waveguides", "k", "list"), ("add_vorticity", "other=s2", "bt.StateList")):
        ck.eq(D if m[0] == "e" else C, "method %s(%s)" % (m, args), A, L + "l.%s(%s)" % (m, args), "%s([s.%s(%s), s2.%s(%s), s3.%s(%s)])" % (one, m, args, m, args, m, args))
    for lab, fn, args, spec in (
            ("states", "lambda x: bt.State(g, x.time + 1, x.pv)", "", "bt.StateList([F(s), F(s2), F(s3)])"),
            ("fields", "lambda x: x.pv - x.u", "", "np.stack([F(s), F(s2), F(s3)])"),
            ("profiles", "lambda x: x.u.mean(axis=-1)", "", "np.stack([F(s), F(s2), F(s3)])"),
            ("numbers", "lambda x: x.time*2", "", "np.array([F(s), F(s2), F(s3)])"),
            ("other objects", "lambda x: (x.time, x.pv)", "", "[F(s), F(s2), F(s3)]"),
            ("positional and keyword arguments", "lambda x, a, b=1: x.pv*a + b", ", y, b=x", "np.stack([F(s, y, x), F(s2, y, x), F(s3, y, x)])"),
            ("complex numbers", "lambda x: x.pv_spectral[1]", "", "np.array([F(s), F(s2), F(s3)])"),
            ("integers", "lambda x: x.pv.ndim", "", "np.array([2, 2, 2])"),
            ("counts", "lambda x: int((x.pv > 0).sum())", "", "np.array([F(s), F(s2), F(s3)])"),
            ("truth values", "lambda x: bool(x.time > 0)", "", "np.array([F(s), F(s2), F(s3)])"),
            ("spectral fields", "lambda x: x.pv_spectral*2", "", "np.stack([F(s), F(s2), F(s3)])"),
            ("states and nothing", "lambda x: x if x is s2 else None", "", "[F(s), F(s2), F(s3)]"),
            ("fields and nothing", "lambda x: None if x is s2 else x.pv", "", "[F(s), F(s2), F(s3)]"),
            ("numbers and nothing", "lambda x: None if x is s2 else x.time", "", "[F(s), F(s2), F(s3)]"),
            ("states and fields", "lambda x: x if x is s2 else x.pv", "", "[F(s), F(s2), F(s3)]"),
            ("text", "lambda x: 'a'", "", "['a', 'a', 'a']")):
        ck.eq(C, "map to %s" % lab, "state.StateList.map", L + "F = %s\nl.map(F%s)" % (fn, args), "F = %s\n%s" % (fn, spec))
    from .model import run_domain
    M = "m = bt.BarotropicModel(None, order, coeff)\n"
    C.let(tend=C.num("tend"), save=C.num("save"))
    ck.eq(C, "run", "state.StateList.run", M + "l = bt.StateList([s, s2])\nl.run(m, dt, tend)",
          M + "a, b = m.run(s, dt, tend), m.run(s2, dt, tend)\n(bt.StateList([a[0], b[0]]), [a[1], b[1]])", fixed=run_domain())
    ck.eq(C, "run with saving", "state.StateList.run", M + "l = bt.StateList([s])\nl.run(m, dt, tend=tend, save_every=save)",
          M + "a = m.run(s, dt, tend, save)\n(bt.StateList([a[0]]), [a[1]])", fixed=dict(run_domain(), save=run_domain()["save_every"]))
    R = "class M:\n    def run(self, s, dt, tend, save_every=None, **kw):\n        return (bt.State(s.grid, s.time + tend, pv_spectral=dt*s.pv_spectral), (s.time, dt, tend, save_every, kw)%s)\nm = M()\n"
    for lab, call, one in (("positional arguments", "dt, tend, save", "dt, tend, save"), ("keyword arguments", "dt, save_every=save, tend=tend", "dt, tend, save"),
                           ("no saving interval", "tend=tend, dt=dt", "dt, tend"), ("options of other models", "dt, tend, foo=save", "dt, tend, foo=save")):
        ck.eq(C, "run with " + lab, "state.StateList.run", R % "" + "l = bt.StateList([s, s2, s3])\nl.run(m, %s)" % call,
              R % "" + "r = [m.run(x, %s) for x in (s, s2, s3)]\n(bt.StateList([x[0] for x in r]), [x[1] for x in r])" % one)
    R = R.replace("(s.time, dt, tend, save_every, kw)%s", "bt.StateList([s, bt.State(s.grid, tend, pv_spectral=2*s.pv_spectral)])")
    ck.eq(C, "trajectories of all states", "state.StateList.run", R + "l = bt.StateList([s, s2, s3])\nl.run(m, dt, tend=tend, save_every=save)",
          R + "r = [m.run(x, dt, tend, save) for x in (s, s2, s3)]\n(bt.StateList([x[0] for x in r]), [x[1] for x in r])")
    ck.eq(C, "run leaves the list unchanged", "state.StateList.run", R + "l = bt.StateList([s, s2])\nl.run(m, dt, tend)\n(len(l), l[0], l[1], l)", "s, s2 = (s, s2)\n(2, s, s2, bt.StateList([s, s2]))")
    ck.eq(C, "run of no states", "state.StateList.run", M + "bt.StateList([]).run(m, dt, tend)", "bt.StateList([]), []")
    ck.eq(C, "export", "state.StateList.as_dataset", L + "l.as_dataset", L + "l.as_dataset") if False else None
    # any number of states
    many(ck, C)


def many(ck, C):
    """Lists of symbolic length."""
    L = "l = bt.StateList([bt.State(g, x, pv_spectral=w*sp) for x, w in zip(ts, ws)])\n"
    K = P.sym("K", "i")
    P.declare_positive(K)
    v = {"ts": C.array("ts", (K,)), "ws": C.array("ws", (K,)), "j": C.num("j", "i")}
    A = "state.StateList"
    pre = P.AND(P.le(P.ZERO, P.sym("j", "i")), P.lt(P.sym("j", "i"), K))
    mk = "bt.State(g, ts[j], pv_spectral=ws[j]*sp)"
    ck.eq(C, "length of any list", A, L + "len(l)", "ts.size", vars=v)
    ck.eq(C, "element of any list", A, L + "l[j]", mk, vars=v, pre=pre)
    for a in ("pv", "u", "time", "streamfunction"):
        ck.eq(C, "attribute %s of any list" % a, A, L + "l.%s[j]" % a, "(%s).%s" % (mk, a), vars=v, pre=pre)
    ck.eq(C, "map over any list", "state.StateList.map", L + "l.map(lambda s, c: c*s.v, y)[j]", "y*(%s).v" % mk, vars=v, pre=pre)


@prop("C37")
def hn2016(ck):
    from ..context import Ctx
    base = ck.ctx
    ck.ctx = lambda **kw: Ctx(extra_stubs=(("falwa.barotropic_field", "stubs/falwa.py"), ("falwa", "stubs/falwa_pkg.py")), size=ck.size, **kw)
    try:
        C = setup(ck)
    finally:
        ck.ctx = base
    A = "state.State.as_hn2016"
    ck.eq(C, "export", A, "b = s.as_hn2016()\n(b.xlon, b.ylat, b.pv_field, b.kwargs)", "(g.lon, g.lat[::-1], s.pv[::-1], {})")
    ck.eq(C, "keyword arguments", A, "b = s.as_hn2016(area=x, n_partitions=5)\n(b.xlon, b.ylat, b.pv_field, b.kwargs)",
          "(g.lon, g.lat[::-1], s.pv[::-1], {'area': x, 'n_partitions': 5})")
    ck.eq(C, "keyword arguments without value", A, "b = s.as_hn2016(area=None, n_partitions=0)\n(b.pv_field, b.kwargs)", "s.pv[::-1], {'area': None, 'n_partitions': 0}")
    ck.eq(C, "state and grid unchanged", A, "s.as_hn2016()\n(s.pv, g.lat, g.lon, s.pv_spectral)", "(s.pv, g.lat, g.lon, s.pv_spectral)")
    B = "state.State.from_hn2016"
    mkb = ("from falwa.barotropic_field import BarotropicField\n"
           "b = BarotropicField(g.lon, g.lat[::-1], pv_field=f)\n")
    ck.eq(C, "import", B, mkb + "x = bt.State.from_hn2016(g, t, b)\n(x.grid is g, x.time, x.pv_spectral)",
          "True, t, g.to_spectral(f[::-1])")
    ck.eq(C, "import on a matching new grid", B, mkb + "x = bt.State.from_hn2016(None, t, b)\n(x.grid.shape, x.grid.lat, x.grid.lon, x.time, x.grid.dlat)",
          "g.shape, g.lat, g.lon, t, g.dlat")
    ck.eq(C, "PV on a matching new grid", B, mkb + "bt.State.from_hn2016(None, t, b).pv_spectral",
          "bt.Grid(res).to_spectral(f[::-1])")
    ck.eq(C, "missing values", B, mkb.replace("pv_field=f", "pv_field=np.where(f > x, np.nan, f)") + "bt.State.from_hn2016(g, t, b).pv_spectral",
          "g.to_spectral(np.where(f > x, np.nan, f)[::-1])")
    ck.eq(C, "there and back", B, "bt.State.from_hn2016(g, t, s.as_hn2016()).pv_spectral", "g.to_spectral(s.pv)")
    ck.eq(C, "fields of other size are rejected", B, mkb + "bt.State.from_hn2016(bt.Grid(2*res, R, OM), t, b)", "raise AssertionError", may_fail=True)
    ck.eq(C, "coarser fields are rejected", B, "from falwa.barotropic_field import BarotropicField\nh = bt.Grid(2*res, R, OM)\n"
          "b = BarotropicField(h.lon, h.lat[::-1], pv_field=bt.init.motionless(h).pv)\nbt.State.from_hn2016(g, t, b)", "raise AssertionError", may_fail=True)
    for lab, lon, lat in (("other longitudes", "np.concatenate([g.lon, g.lon + 360])", "g.lat"), ("fewer longitudes", "g.lon[::2]", "g.lat"),
                          ("other latitudes", "g.lon", "np.concatenate([g.lat, g.lat])"), ("fewer latitudes", "g.lon", "g.lat[1:-1]")):
        ck.eq(C, "fields with %s are rejected" % lab, B, "from falwa.barotropic_field import BarotropicField\nlon, lat = %s, %s\n"
              "b = BarotropicField(lon, lat[::-1], pv_field=np.ones((lat.size, lon.size)))\nbt.State.from_hn2016(g, t, b)" % (lon, lat), "raise AssertionError", may_fail=True)
