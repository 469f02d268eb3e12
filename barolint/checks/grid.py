"""Grid geometry, operators, regions, filters."""

from . import prop
from ..values import Num, Const, Tup
from ..poly import const
from .. import poly as P


def setup(ck, **kw):
    C = ck.ctx()
    g = C.grid(**kw)
    C.let(g=g, f=C.field("f"), f2=C.field("f2"), p=C.profile("p"), p2=C.profile("p2"), zf=C.zonal("zf"),
          u=C.field("u"), v=C.field("v"), sp=C.spectral("sp"), sp2=C.spectral("sp2"), x=C.num("x"), y=C.num("y"),
          dt=C.num("dt"), coeff=C.num("coeff"), order=C.num("order", "i"),
          n=Num(C.N, "i"), res=Num(P.pmul(P.const(180), P.pinv(C.N))),
          R=Num(P.sym("rsphere")), OM=Num(P.sym("omega")))
    return C


@prop("C13")
def coordinates(ck):
    C = setup(ck)
    A = "grid.Grid"
    for name, spec in (
            ("nlon", "2*n"), ("nlat", "n + 1"), ("shape", "(n + 1, 2*n)"), ("dlon", "res"), ("dlat", "-res"),
            ("lon", "np.arange(2*n)*res"), ("lat", "90 - np.arange(n + 1)*res"),
            ("lon2", "np.ones((n + 1, 1))*(np.arange(2*n)*res)[None,:]"),
            ("lat2", "(90 - np.arange(n + 1)*res)[:,None]*np.ones((1, 2*n))"),
            ("dlam", "res*np.pi/180"), ("dphi", "-res*np.pi/180"),
            ("lam", "np.arange(2*n)*res*np.pi/180"), ("phi", "(90 - np.arange(n + 1)*res)*np.pi/180"),
            ("lam2", "np.ones((n + 1, 1))*(np.arange(2*n)*res)[None,:]*np.pi/180"),
            ("phi2", "(90 - np.arange(n + 1)*res)[:,None]*np.ones((1, 2*n))*np.pi/180"),
            ("rsphere", "R"), ("omega", "OM"),
            ("fcor", "2*OM*np.sin((90 - np.arange(n + 1)*res)*np.pi/180)"),
            ("fcor2", "2*OM*np.sin((90 - np.arange(n + 1)*res)*np.pi/180)[:,None]*np.ones((1, 2*n))"),
            ("fcor2_spectral", "g.to_spectral(g.fcor2)")):
        ck.eq(C, "attribute %s" % name, A, "g.%s" % name, spec)
    ck.eq(C, "other rotation", A, "q = bt.Grid(res, R, om)\n(q.omega, q.fcor, q.fcor2, q.coriolis(q.lat), q.fcor2_spectral)",
          "(om, om/OM*g.fcor, om/OM*g.fcor2, om/OM*g.fcor, g.to_spectral(om/OM*g.fcor2))", vars={"om": C.num("om")})
    ck.eq(C, "no rotation", A, "q = bt.Grid(res, R, 0.)\n(q.omega, q.fcor, q.fcor2)", "(0., 0*g.fcor, 0*g.fcor2)")
    ck.eq(C, "default planet", A, "q = bt.Grid(res)\nq.rsphere, q.omega, q.lat, q.fcor2",
          "6371.2e3, 7.292e-5, g.lat, 2*7.292e-5*np.sin(g.phi2)")
    ck.eq(C, "default resolution", A, "q = bt.Grid()\nq.shape, q.dlon, q.dlat", "(73, 144), 2.5, -2.5")
    ck.eq(C, "positional and keyword arguments", A, "bt.Grid(res, R, OM)", "bt.Grid(resolution=res, omega=OM, rsphere=R)")
    ck.eq(C, "circumference", "grid.Grid.circumference", "g.circumference(x), g.circumference(g.lat)",
          "2*np.pi*R*np.cos(x*np.pi/180), 2*np.pi*R*np.cos(g.phi)")
    ck.eq(C, "Coriolis parameter", "grid.Grid.coriolis", "g.coriolis(x), g.coriolis(g.lat)",
          "2*OM*np.sin(x*np.pi/180), g.fcor")
    if ck.size is None:
        ck.eq(C, "coordinates of a fine grid", A, "g.lon, g.lat, g.lam, g.phi, g.fcor, g.shape, g.dlon, g.dlat",
              "np.arange(2*n)*res, 90 - np.arange(n + 1)*res, np.arange(2*n)*res*np.pi/180, (90 - np.arange(n + 1)*res)*np.pi/180, "
              "2*OM*np.sin((90 - np.arange(n + 1)*res)*np.pi/180), (n + 1, 2*n), res, -res", fixed={"N": 720})
    ck.eq(C, "coordinates not changed by use", A,
          "g.gridpoint_area\ng.mean(f)\ng.quad(f)\ng.derivative_meridional(f)\ng.region[300:50,:].lon_mono\n"
          "g.region[:,'N'].mean(f)\ng.zonalize(f, interpolate=False)\n(g.lon, g.lat, g.lon2, g.lat2, g.lam, g.phi, g.fcor, g.fcor2)",
          "(g.lon, g.lat, g.lon2, g.lat2, g.lam, g.phi, g.fcor, g.fcor2)")


@prop("C13")
def rounding(ck):
    """The resolution is a floating point number: the number of gridpoints must not depend on how it is rounded."""
    C = setup(ck)
    C.let(res=Num(P.pmul(P.const(180), P.pinv(C.N + C.num("eps").p))))
    ck.eq(C, "number of gridpoints does not depend on rounding", "grid.Grid", "q = bt.Grid(res)\n(q.nlon, q.nlat)", "(2*n, n + 1)",
          fixed={"eps": lambda M: M.uniform("eps")*1e-9},
          rule="value numbering with a resolution within rounding of 180/n: no jump of a truncation lies at its exact value")


ODD = ("7.1", "13.", "50.", "11.3, 3., 1e-5")


@prop("C13")
def uneven(ck):
    """Resolutions that do not divide the circle"""
    C = setup(ck)
    for e in ODD:
        ck.eq(C, "coordinates of a grid of resolution %s in radians" % e, "grid.Grid", "q = bt.Grid(%s)\n(q.lam, q.phi, q.lam2, q.phi2)" % e,
              "q = bt.Grid(%s)\na, b = q.lon*np.pi/180, q.lat*np.pi/180\n(a, b, np.ones((q.nlat, 1))*a[None,:], b[:,None]*np.ones((1, q.nlon)))" % e)
        ck.eq(C, "shape and spacing of a grid of resolution %s" % e, "grid.Grid",
              "q = bt.Grid(%s)\n(q.lon[0], q.lat[0], q.lat[-1], q.lon.shape, q.lat.shape, q.shape, np.diff(q.lon), np.diff(q.lat))" % e,
              "q = bt.Grid(%s)\n(0., 90., -90., (q.nlon,), (q.nlat,), (q.nlat, q.nlon), np.full(q.nlon - 1, 360/q.nlon), np.full(q.nlat - 1, -180/(q.nlat - 1)))" % e)
        ck.eq(C, "Coriolis parameter on a grid of resolution %s" % e, "grid.Grid", "q = bt.Grid(%s)\n(q.fcor, q.fcor2)" % e,
              "q = bt.Grid(%s)\na = 2*q.omega*np.sin(q.lat*np.pi/180)\n(a, a[:,None]*np.ones((1, q.nlon)))" % e)


@prop("C14")
def uneven_area(ck):
    C = setup(ck)
    for e in ODD:
        ck.eq(C, "area on a grid of resolution %s" % e, "grid.Grid.gridpoint_area", "bt.Grid(%s).gridpoint_area" % e,
              "q = bt.Grid(%s)\nb = q.lat*np.pi/180\nm = np.concatenate([np.array([np.pi/2]), (b[1:] + b[:-1])/2, np.array([-np.pi/2])])\n"
              "q.rsphere**2*q.dlam*(np.sin(m[:-1]) - np.sin(m[1:]))" % e)


@prop("C14")
def area(ck):
    C = setup(ck)
    ck.eq(C, "area of every latitude", "grid.Grid.gridpoint_area", "g.gridpoint_area", "spec.gridpoint_area(g)")
    ck.eq(C, "areas of all gridpoints sum to the sphere", "grid.Grid.gridpoint_area",
          "np.sum(g.gridpoint_area)*g.nlon", "4*np.pi*R**2")
    ck.eq(C, "areas of a symmetric pair of latitudes agree", "grid.Grid.gridpoint_area",
          "a = g.gridpoint_area\na - a[::-1]", "np.zeros(g.nlat)")


@prop("C15")
def mean(ck):
    C = setup(ck)
    A = "grid.Grid.mean"
    w = "a = spec.gridpoint_area(g)[:,None]\n"
    ck.eq(C, "global mean", A, "g.mean(f)", w + "(f*a).sum()/(a.sum()*g.nlon)")
    for ax in ("None", "0", "-2", "'meridional'", "1", "-1", "'zonal'"):
        s = "(f*a).sum()/(a.sum()*g.nlon)" if ax == "None" else (
            "(f*a).sum(axis=0)/a.sum()" if ax in ("0", "-2", "'meridional'") else "f.mean(axis=1)")
        ck.eq(C, "mean over axis %s" % ax, A, "g.mean(f, axis=%s)" % ax, w + s)
    ck.eq(C, "mean of a constant", A, "g.mean(np.full(g.shape, x)), g.mean(np.full(g.shape, x), axis='meridional')",
          "x, np.full(g.nlon, x)")
    for bad in ("2", "'lat'"):
        ck.eq(C, "axis %s is rejected" % bad, A, "g.mean(f, axis=%s)" % bad, "raise ValueError", may_fail=True)
    ck.eq(C, "fields of another shape are rejected", A, "g.mean(f[1:])", "raise AssertionError", may_fail=True)
    # regions
    reg = "r = spec.Region(g, ii, jj)\n"
    v = region_vars(C)
    ra = "r = bt.grid.GridRegion(g, ii, jj)\n"
    ar = "a = spec.gridpoint_area(g)[ii][:,None]\nF = f[np.ix_(ii, jj)]\n"
    ck.eq(C, "mean in a region", A, ra + "g.mean(f, region=r)", ar + "(F*a).sum()/(a.sum()*len(jj))", vars=v)
    ck.eq(C, "region method", "grid.GridRegion.mean", ra + "r.mean(f)", ar + "(F*a).sum()/(a.sum()*len(jj))", vars=v)
    ck.eq(C, "meridional mean in a region", A, ra + "g.mean(f, axis='meridional', region=r)",
          ar + "(F*a).sum(axis=0)/a.sum()", vars=v)
    ck.eq(C, "zonal mean in a region", A, ra + "g.mean(f, axis='zonal', region=r)", ar + "F.mean(axis=1)", vars=v)
    ck.eq(C, "mean of an extracted field", A, ra + "g.mean(f[np.ix_(ii, jj)], region=r)",
          ar + "(F*a).sum()/(a.sum()*len(jj))", vars=v)
    ck.eq(C, "field unchanged", A, "g.mean(f)\ng.mean(f, axis=0)\nf", "f")
    vi = {"fi": C.array("fi", (C.N + 1, P.pscale(C.N, 2)), "i")}
    for ax in ("None", "0", "1"):
        ck.eq(C, "mean of integers over axis %s" % ax, A, "g.mean(fi, axis=%s)" % ax, "g.mean(1.*fi, axis=%s)" % ax, vars=vi)
    ck.eq(C, "mean of integers in a region", A, ra + "g.mean(fi, region=r), r.mean(fi)", ra + "g.mean(1.*fi, region=r), r.mean(1.*fi)", vars=dict(v, **vi))
    # regions that share one or both dimensions with the grid
    every = {"all latitudes": "np.arange(g.nlat), jj", "all longitudes": "ii, np.arange(g.nlon)", "the whole grid": "np.arange(g.nlat), np.arange(g.nlon)",
             "one latitude": "np.array([2]), jj", "one pole": "np.array([0]), jj", "both poles": "np.array([0, g.nlat - 1]), jj", "one longitude": "ii, jj[:1]",
             "the whole globe from another longitude": "np.arange(g.nlat), (np.arange(g.nlon) + 3) % g.nlon",
             "the whole globe in other directions": "np.arange(g.nlat)[::-1], np.arange(g.nlon)[::-1]"}
    for lab, e in every.items():
        sel = "ii, jj = %s\n" % e
        rows = ar + "m = len(jj)\n"
        ck.eq(C, "mean over %s" % lab, A, sel + ra + "g.mean(f, region=r), r.mean(f)", sel + rows + "q = (F*a).sum()/(a.sum()*m)\n(q, q)", vars=v)
        ck.eq(C, "means along axes over %s" % lab, A, sel + ra + "g.mean(f, axis=0, region=r), g.mean(f, axis=1, region=r)",
              sel + rows + "(F*a).sum(axis=0)/a.sum(), F.sum(axis=1)/m", vars=v)
        ck.eq(C, "mean of a field extracted from %s" % lab, A, sel + ra + "F = f[np.ix_(ii, jj)]\ng.mean(F, region=r)",
              sel + rows + "(F*a).sum()/(a.sum()*m)", vars=v)


def region_vars(C):
    """Index arrays of arbitrary rectangular regions."""
    from .. import arrays
    I = C.I
    out = {}
    if C.N.const() is not None:
        # a small grid: its inner latitudes, four longitudes across the 0 degree meridian
        for name, size, first, period in (("ii", C.N - 1, P.ONE, C.N + 1), ("jj", P.const(4), 2 * C.N - 2, 2 * C.N)):
            i = P.topoly(arrays.vix((size,), 0)) + first
            out[name] = arrays.mk(I, (size,), P.ite(P.lt(i, period), i, i - period), "i")
        return out
    for name, count, size in (("ii", "rlat", P.padd(C.N, P.ONE)), ("jj", "rlon", P.pscale(C.N, 2))):
        k = P.sym(count, "i")
        P.declare_positive(k)
        idx = (P.topoly(arrays.vix((k,), 0)),)
        out[name] = arrays.mk(I, (k,), P.topoly(P.atom("data", name, "i", idx)), "i")
    return out


@prop("C16")
def quadrature(ck):
    C = setup(ck)
    v = {"z": C.field("z"), "ys": C.array("ys", (C.N + 1, P.sym("M", "i"))), "zs": C.array("zs", (C.N + 1, P.sym("M", "i")))}
    Q, A = "grid.Grid.quad_meridional", "grid.Grid.quad"
    ck.eq(C, "boxcounting", Q, "g.quad_meridional(f, method='boxcount')", "spec.boxcount(g, f, None)")
    ck.eq(C, "boxcounting in a domain", Q, "g.quad_meridional(f, z, method='boxcount')", "spec.boxcount(g, f, z)", vars=v)
    ck.eq(C, "trapezoidal rule", Q, "g.quad_meridional(f)", "spec.sptrapz(g, f, None)")
    ck.eq(C, "trapezoidal rule in a domain", Q, "g.quad_meridional(f, z)", "spec.sptrapz(g, f, z)", vars=v)
    ck.eq(C, "trapezoidal rule named", Q, "g.quad_meridional(f, z=z, method='sptrapz')", "spec.sptrapz(g, f, z)", vars=v)
    S = "ys = ys[:,:] if False else ys\n"
    ck.eq(C, "sector, boxcounting", Q, "g.quad_meridional(ys, zs, 'boxcount')", "spec.boxcount(g, ys, zs)", vars=v,
          pre=sector(C))
    ck.eq(C, "sector, trapezoidal", Q, "g.quad_meridional(ys, zs)", "spec.sptrapz(g, ys, zs)", vars=v, pre=sector(C))
    for m, s in (("'boxcount'", "boxcount"), ("'sptrapz'", "sptrapz")):
        ck.eq(C, "surface integral, %s" % s, A, "g.quad(f, method=%s)" % m,
              "R*g.dlam*np.sum(spec.%s(g, f, None))" % s)
        ck.eq(C, "surface integral in a domain, %s" % s, A, "g.quad(f, z, %s)" % m,
              "R*g.dlam*np.sum(spec.%s(g, f, z))" % s, vars=v)
        ck.eq(C, "constant over the sphere, %s" % s, A, "g.quad(np.ones(g.shape), method=%s)" % m, "4*np.pi*R**2")
        ck.eq(C, "linear in the integrand, %s" % s, A, "g.quad(x*f + y*f2, z, %s)" % m,
              "x*g.quad(f, z, %s) + y*g.quad(f2, z, %s)" % (m, m), vars=v)
        ck.eq(C, "empty domain, %s" % s, A, "g.quad(f, np.full(g.shape, -1.), %s)" % m, "0.")
        ck.eq(C, "complete domain, %s" % s, A, "g.quad(f, np.full(g.shape, 1.), %s)" % m, "g.quad(f, None, %s)" % m)
        vi = dict(v, fi=C.array("fi", (C.N + 1, P.pscale(C.N, 2)), "i"), zi=C.array("zi", (C.N + 1, P.pscale(C.N, 2)), "i"))
        ck.eq(C, "integer integrand, %s" % s, A, "g.quad(fi, z, %s), g.quad(fi, None, %s)" % (m, m), "g.quad(1.*fi, z, %s), g.quad(1.*fi, None, %s)" % (m, m), vars=vi)
        ck.eq(C, "integer domain, %s" % s, A, "g.quad(f, zi, %s)" % m, "g.quad(f, 1.*zi, %s)" % m, vars=vi)
    ck.eq(C, "default method", A, "g.quad(f, z)", "g.quad(f, z, method='sptrapz')", vars=v)
    ck.eq(C, "arguments unchanged", A, "g.quad(f, z)\ng.quad(f, z, 'boxcount')\n(f, z, g.phi2)", "(f, z, g.phi2)", vars=v)
    ck.eq(C, "unknown method is rejected", Q, "g.quad_meridional(f, method='simpson')", "raise ValueError", may_fail=True)
    ck.eq(C, "mismatched latitudes are rejected", Q, "g.quad_meridional(f[1:])", "raise AssertionError", may_fail=True)
    ck.eq(C, "profiles are rejected", Q, "g.quad_meridional(p)", "raise AssertionError", may_fail=True)


def sector(C):
    """Sectors have between 1 and nlon columns"""
    M = P.sym("M", "i")
    P.declare_positive(M)
    return P.NOT(P.lt0(P.pscale(C.N, 2) - M))


@prop("C17")
def derivative(ck):
    C = setup(ck)
    A = "grid.Grid.derivative_meridional"
    for o in (2, 4):
        ck.eq(C, "field, order %d" % o, A, "g.derivative_meridional(f, order=%d)" % o, "spec.derivative(g, f, %d, False)" % o)
        ck.eq(C, "profile, order %d" % o, A, "g.derivative_meridional(p, %d)" % o, "spec.derivative(g, p, %d, True)" % o)
        for k in range(o + 1):
            ck.eq(C, "order %d exact for degree %d" % (o, k), A, "g.derivative_meridional(g.phi2**%d, %d)" % (k, o),
                  "%d*g.phi2**%d" % (k, max(k - 1, 0)))
            ck.eq(C, "profile, order %d exact for degree %d" % (o, k), A,
                  "g.derivative_meridional(g.phi**%d, %d)[1:-1]" % (k, o), "%d*g.phi[1:-1]**%d" % (k, max(k - 1, 0)))
        ck.eq(C, "profile poles, order %d" % o, A, "d = g.derivative_meridional(p, %d)\nd[0], d[-1]" % o, "0., 0.")
    ck.eq(C, "default order", A, "g.derivative_meridional(f)", "spec.derivative(g, f, 4, False)")
    ck.eq(C, "field of one longitude", A, "g.derivative_meridional(f[:,:1]), g.derivative_meridional(f[:,:1], 2)",
          "g.derivative_meridional(f)[:,:1], g.derivative_meridional(f, 2)[:,:1]")
    ck.eq(C, "field unchanged", A, "g.derivative_meridional(f)\ng.derivative_meridional(p)\n(f, p)", "(f, p)")
    ck.eq(C, "other orders are rejected", A, "g.derivative_meridional(f, 3)", "raise NotImplementedError", may_fail=True)


@prop("C18")
def spectral(ck):
    for label, nt in (("default truncation", None), ("truncation given", "nt")):
        C = ck.ctx()
        NT = P.sym("nt", "i")
        if nt is None:
            g = C.grid()
            ns = C.nspec
        else:
            P.declare_positive(NT)
            g = C.grid(ntrunc=Num(NT, "i"))
            ns = P.pscale(P.pmul(NT + 1, NT + 2), P.Fraction(1, 2))
        pre = P.ONE if nt is None else P.NOT(P.lt0(C.N - NT))
        C.let(g=g, f=C.field("f"), u=C.field("u"), v=C.field("v"), sp=C.array("sp", (ns,), "c8"),
              sp2=C.array("sp2", (ns,), "c8"), x=C.num("x"), c=C.num("c"), dt=C.num("dt"), coeff=C.num("coeff"),
              order=C.num("order", "i"), R=Num(P.sym("rsphere")), nt=Num(NT, "i") if nt else Const(None))
        T = "t, k = spec.transform(g, nt)\n"
        for lab, anchor, code, spec in (
                ("to spectral space", "to_spectral", "g.to_spectral(f)", "t.grdtospec(f, k)"),
                ("to the grid", "to_grid", "g.to_grid(sp)", "t.spectogrd(sp)"),
                ("vorticity and divergence", "vorticity_divergence_spectral", "g.vorticity_divergence_spectral(u, v)",
                 "t.getvrtdivspec(u, v, k)"),
                ("vorticity", "vorticity_spectral", "g.vorticity_spectral(u, v)", "t.getvrtdivspec(u, v, k)[0]"),
                ("divergence", "divergence_spectral", "g.divergence_spectral(u, v)", "t.getvrtdivspec(u, v, k)[1]"),
                ("gridded vorticity", "vorticity", "g.vorticity(u, v)", "t.spectogrd(t.getvrtdivspec(u, v, k)[0])"),
                ("gridded divergence", "divergence", "g.divergence(u, v)", "t.spectogrd(t.getvrtdivspec(u, v, k)[1])"),
                ("gridded vorticity and divergence", "vorticity_divergence", "g.vorticity_divergence(u, v)",
                 "a, b = t.getvrtdivspec(u, v, k)\n(t.spectogrd(a), t.spectogrd(b))"),
                ("wind from spectral fields", "wind", "g.wind(sp, sp2)", "t.getuv(sp, sp2)"),
                ("wind from gridded fields", "wind", "g.wind(f, u)", "t.getuv(t.grdtospec(f, k), t.grdtospec(u, k))"),
                ("wind from mixed fields", "wind", "g.wind(f, sp)", "t.getuv(t.grdtospec(f, k), sp)"),
                ("wind from mixed fields (2)", "wind", "g.wind(sp, f)", "t.getuv(sp, t.grdtospec(f, k))"),
                ("gradient", "gradient", "g.gradient(f)", "t.getgrad(t.grdtospec(f, k))"),
                ("Laplacian, spectral", "laplace_spectral", "g.laplace_spectral(sp)", "-sp*spec.eigenvalues(g, nt)"),
                ("Laplacian", "laplace", "g.laplace(f)", "t.spectogrd(-t.grdtospec(f, k)*spec.eigenvalues(g, nt))"),
                ("Poisson equation, spectral", "solve_poisson_spectral", "g.solve_poisson_spectral(sp)",
                 "spec.poisson(g, sp, 0., nt)"),
                ("Poisson equation with a term, spectral", "solve_poisson_spectral", "g.solve_poisson_spectral(sp, c)",
                 "spec.poisson(g, sp, c, nt)"),
                ("Poisson equation", "solve_poisson", "g.solve_poisson(f)",
                 "t.spectogrd(spec.poisson(g, t.grdtospec(f, k), 0., nt))"),
                ("Poisson equation with a term", "solve_poisson", "g.solve_poisson(f, op_add=c)",
                 "t.spectogrd(spec.poisson(g, t.grdtospec(f, k), c, nt))"),
                ("arguments unchanged", "wind", "g.wind(f, sp)\ng.laplace(f)\ng.solve_poisson_spectral(sp)\n"
                 "g.solve_poisson_spectral(sp, c)\ng.gradient(f)\n(f, sp)", "(f, sp)"),
        ):
            ck.eq(C, "%s, %s" % (lab, label), "grid.Grid." + anchor, code, T + spec, pre=pre)
        ck.eq(C, "Poisson solver inverts the Laplacian, %s" % label, "grid.Grid.solve_poisson_spectral",
              "g.laplace_spectral(g.solve_poisson_spectral(sp))[1:]", "sp[1:]", pre=pre)
        ck.eq(C, "Poisson solver inverts the operator, %s" % label, "grid.Grid.solve_poisson_spectral",
              "w = g.solve_poisson_spectral(sp, 1. + c*c)\ng.laplace_spectral(w) - (1. + c*c)*w", "sp", pre=pre)
        ck.eq(C, "operators independent of earlier use, %s" % label, "grid.Grid",
              "g.laplace_spectral(sp)\ng.solve_poisson_spectral(sp, c)\ng.solve_diffusion_spectral(sp, coeff, dt, 2)\n"
              "(g.laplace_spectral(sp2), g.solve_poisson_spectral(sp2), g.solve_diffusion_spectral(sp2, coeff, dt, 2))",
              "(g.laplace_spectral(sp2), g.solve_poisson_spectral(sp2), g.solve_diffusion_spectral(sp2, coeff, dt, 2))",
              pre=pre)


@prop("C04")
def diffusion(ck):
    C = setup(ck)
    A = "grid.Grid.solve_diffusion_spectral"
    ck.eq(C, "implicit step, any order", A, "g.solve_diffusion_spectral(sp, coeff, dt, order)",
          "sp/(1 + dt*coeff*spec.eigenvalues(g)**order)")
    for o in (1, 2, 3, 4):
        ck.eq(C, "implicit step, order %d" % o, A, "g.solve_diffusion_spectral(sp, coeff, dt, order=%d)" % o,
              "sp/(1 + dt*coeff*spec.eigenvalues(g)**%d)" % o)
    ck.eq(C, "default order", A, "g.solve_diffusion_spectral(sp, coeff=coeff, dt=dt)", "sp/(1 + dt*coeff*spec.eigenvalues(g))")
    ck.eq(C, "gridded", "grid.Grid.solve_diffusion", "g.solve_diffusion(f, coeff, dt, order)",
          "g.to_grid(g.to_spectral(f)/(1 + dt*coeff*spec.eigenvalues(g)**order))")
    ck.eq(C, "gridded, default order", "grid.Grid.solve_diffusion", "g.solve_diffusion(f, coeff=coeff, dt=dt)",
          "g.to_grid(g.to_spectral(f)/(1 + dt*coeff*spec.eigenvalues(g)))")
    ck.eq(C, "no diffusion", A, "g.solve_diffusion_spectral(sp, 0., dt, order)", "sp")
    ck.eq(C, "global mean unaffected", A, "g.solve_diffusion_spectral(sp, coeff, dt, 2)[0]", "sp[0]")
    ck.eq(C, "linear", A, "g.solve_diffusion_spectral(x*sp + y*sp2, coeff, dt, order)",
          "x*g.solve_diffusion_spectral(sp, coeff, dt, order) + y*g.solve_diffusion_spectral(sp2, coeff, dt, order)")
    ck.eq(C, "model diffuses with its coefficient and order", "model.BarotropicModel",
          "s = bt.init.motionless(g)\nbt.BarotropicModel(None, order, coeff).euler(s, dt).pv_spectral",
          "s = bt.init.motionless(g)\n(s.pv_spectral - dt*s.pv_flux_spectral)/(1 + dt*coeff*spec.eigenvalues(g)**order)")
    ck.eq(C, "background is not diffused", "model.BarotropicModel",
          "s = bt.State(g, 0., pv=f)\nq = s.pv_spectral - dt*s.pv_flux_spectral\n"
          "bt.BarotropicModel(None, order, coeff, g.to_grid(q)).euler(s, dt).pv_spectral",
          "s = bt.State(g, 0., pv=f)\nq = s.pv_spectral - dt*s.pv_flux_spectral\n"
          "b = g.to_spectral(g.to_grid(q))\n(q - b)/(1 + dt*coeff*spec.eigenvalues(g)**order) + b")
    ck.eq(C, "argument unchanged", A, "g.solve_diffusion_spectral(sp, coeff, dt, 2)\nsp", "sp")
    precision(ck, C)


def precision(ck, C):
    """Powers of the eigenvalues must not be formed in single precision: for larger orders they leave its range."""
    def run():
        I = C.I
        o = ck.add("powers of the eigenvalues in double precision",
                   "dtype inference: no power or product chain of order >= 3 of the eigenvalues in single precision")
        o.where = ck.where(C, "grid.Grid.solve_diffusion_spectral")
        n = len(I.narrow_powers)
        from ..check import Run, loc
        r = Run(C, C.code("g.solve_diffusion_spectral(sp, coeff, dt, order)\ng.solve_diffusion_spectral(sp, coeff, dt, 4)"))
        ck.note_run(r)
        bad = I.narrow_powers[n:]
        o.status = "violated" if bad else "proved"
        o.detail = "; ".join(sorted({"%s power at %s" % (b[1], loc(b[3])) for b in bad})) or "no single precision power"
    ck.guarded("powers of the eigenvalues in double precision", run)


@prop("C19")
def zonalize(ck):
    C = setup(ck)
    A = "grid.Grid.zonalize"
    v = {"q": C.array("q", (P.sym("K", "i"),)), "fs": C.array("fs", (C.N + 1, P.sym("M", "i"))), "k": C.num("k", "i")}
    P.declare_positive(P.sym("K", "i"))
    ck.eq(C, "equivalent latitude", "grid.Grid.equivalent_latitude", "g.equivalent_latitude(q), g.equivalent_latitude(x)",
          "spec.equivalent_latitude(g, q), spec.equivalent_latitude(g, x)", vars=v)
    ck.eq(C, "equivalent latitude of no area, a hemisphere and the sphere", "grid.Grid.equivalent_latitude",
          "g.equivalent_latitude(0.), g.equivalent_latitude(2*np.pi*R**2), g.equivalent_latitude(4*np.pi*R**2)", "90., 0., -90.")
    ck.eq(C, "areas beyond the sphere", "grid.Grid.equivalent_latitude",
          "g.equivalent_latitude(5*np.pi*R**2), g.equivalent_latitude(-R**2)", "-90., 90.")
    for m in ("sptrapz", "boxcount"):
        ck.eq(C, "given levels, %s" % m, A, "g.zonalize(f, q, interpolate=False, quad='%s')" % m,
              "q, spec.zonalize(g, f, q, '%s')" % m, vars=v)
        ck.eq(C, "number of levels, %s" % m, A, "g.zonalize(f, 7, interpolate=False, quad='%s')" % m,
              "w = spec.levels(f, 7)\nw, spec.zonalize(g, f, w, '%s')" % m, vars=v)
        ck.eq(C, "default levels, %s" % m, A, "g.zonalize(f, interpolate=False, quad='%s')" % m,
              "w = spec.levels(f, g.nlat*%d)\nw, spec.zonalize(g, f, w, '%s')" % (1 + (m == "boxcount"), m), vars=v)
        ck.eq(C, "sector, %s" % m, A, "g.zonalize(fs, q, interpolate=False, quad='%s')" % m,
              "q, spec.zonalize(g, fs, q, '%s')" % m, vars=v, pre=sector(C))
        ck.eq(C, "interpolated, %s" % m, A, "g.zonalize(f, q, quad='%s')" % m,
              "spec.interpolator(g, q, spec.zonalize(g, f, q, '%s'), (np.max(f), np.min(f)), 'linear')(g.lat)" % m, vars=v)
    vi = dict(v, fi=C.array("fi", (C.N + 1, P.pscale(C.N, 2)), "i"), qi=C.array("qi", (P.sym("K", "i"),), "i"))
    for m in ("sptrapz", "boxcount"):
        ck.eq(C, "field of integers, %s" % m, A, "g.zonalize(fi, q, interpolate=False, quad='%s')" % m,
              "g.zonalize(1.*fi, q, interpolate=False, quad='%s')" % m, vars=vi)
        ck.eq(C, "levels of integers, %s" % m, A, "g.zonalize(f, qi, interpolate=False, quad='%s')" % m,
              "g.zonalize(f, 1.*qi, interpolate=False, quad='%s')" % m, vars=vi)
        ck.eq(C, "field and levels of integers, %s" % m, A, "g.zonalize(fi, qi, interpolate=False, quad='%s')" % m,
              "g.zonalize(1.*fi, 1.*qi, interpolate=False, quad='%s')" % m, vars=vi)
        ck.eq(C, "field of integers and number of levels, %s" % m, A, "g.zonalize(fi, 7, interpolate=False, quad='%s')" % m,
              "g.zonalize(1.*fi, 7, interpolate=False, quad='%s')" % m, vars=vi)
    ck.eq(C, "default method and interpolation", A, "g.zonalize(f)",
          "g.zonalize(f, levels=None, interpolate=True, quad='sptrapz')")
    ck.eq(C, "field and levels unchanged", A, "g.zonalize(f, q)\ng.zonalize(f, q, quad='boxcount', interpolate=False)\n(f, q)",
          "(f, q)", vars=v)


@prop("C20")
def regions(ck):
    C = setup(ck)
    A = "grid.GridRegionIndexer"
    v = {"a": C.num("a"), "b": C.num("b"), "c": C.num("c"), "d": C.num("d")}
    v.update(region_vars(C))
    al = "r = g.region[%s]\nspec.show(r, f, p, zf)"
    for ls, l in (("a:b", "a, b"), ("a:", "a, None"), (":b", "None, b"), (":", "None, None")):
        for ts, t in (("c:d", "c, d"), ("c:", "c, None"), (":d", "None, d"), (":", "None, None")):
            if ls != ":" and ts not in (":", "c:d") or ts == "c:d" and ls not in ("a:b", ":"):
                continue
            ck.eq(C, "selection [%s,%s]" % (ls, ts), A, "r = g.region[%s,%s]\nspec.show(r, f)" % (ls, ts),
                  "spec.expect(g, spec.lat_indices(g, %s), spec.lon_indices(g, %s), f)" % (t, l), vars=v)
    ck.eq(C, "longitudes only", A, "r = g.region[a:b]\nspec.show(r, f)",
          "spec.expect(g, np.arange(g.nlat), spec.lon_indices(g, a, b), f)", vars=v)
    for h, lo, hi in (("N", 0, 90), ("S", -90, 0)):
        ck.eq(C, "hemisphere %s" % h, A, "r = g.region[:,'%s']\nspec.show(r, f)" % h,
              "spec.expect(g, spec.lat_indices(g, %d, %d), np.arange(g.nlon), f)" % (lo, hi), vars=v)
    ck.eq(C, "single longitude on the grid", A, "g.region[a,:].extract(f)",
          "i = np.argwhere(np.isclose(g.lon, a)).flatten()\nif i.size != 1:\n    raise IndexError\nf[:,i]", vars=v)
    ck.eq(C, "single latitude on the grid", A, "g.region[:,a].extract(f)",
          "i = np.argwhere(np.isclose(g.lat, a)).flatten()\nif i.size != 1:\n    raise IndexError\nf[i]", vars=v)
    for bad in ("a:b:2,:", ":,a:b:2", "a:b,c:d,a:b", "'x':b", ":,'x':b", "a:'x',:", ":,b:'x'", "'E',:", ":,'E'"):
        ck.eq(C, "selection [%s] is rejected" % bad, A, "g.region[%s]" % bad, "raise IndexError", vars=v, may_fail=True)
    # extraction from arbitrary rectangular index sets
    mk = "r = bt.grid.GridRegion(g, ii, jj)\n"
    pre = region_pre()
    for lab, code, spec in (
            ("two-dimensional field", "r.extract(f)", "f[ii][:,jj]"),
            ("meridional profile", "r.extract(p)", "p[ii]"), ("zonal profile", "r.extract(zf)", "zf[jj]"),
            ("several fields", "r.extract(f, p, zf)", "(f[ii][:,jj], p[ii], zf[jj])"),
            ("a field twice", "r.extract(f, f, p, p, f)", "(f[ii][:,jj], f[ii][:,jj], p[ii], p[ii], f[ii][:,jj])"),
            ("equal fields", "r.extract(p, p.copy(), 1*p)", "(p[ii], p[ii], p[ii])"),
            ("coordinates", "r.lat, r.lon", "g.lat[ii], g.lon[jj]"), ("shape", "r.shape", "len(ii), len(jj)"),
            ("gridpoint areas", "r.gridpoint_area", "spec.gridpoint_area(g)[ii]"),
            ("mask", "r.mask", "spec.mask(g, ii, jj)")):
        ck.eq(C, "extraction: %s" % lab, "grid.GridRegion", mk + code, spec, vars=v, pre=pre)
    for lab, e in (("repeated", "[2, 5, 2], [1, 2, 1]"), ("unsorted", "[5, 2, 3], [4, 1, 0]"), ("repeated latitudes", "[2, 2], [0, 3, 6]"),
                   ("repeated longitudes", "[0, 3], [4, 4, 4]")):
        ck.eq(C, "extraction of %s indices" % lab, "grid.GridRegion", "ii, jj = %s\n" % e + mk + "r.shape, r.extract(f), r.extract(p), r.extract(zf), r.lat, r.lon, r.gridpoint_area",
              "ii, jj = np.array(%s), np.array(%s)\n(len(ii), len(jj)), f[ii][:,jj], p[ii], zf[jj], g.lat[ii], g.lon[jj], spec.gridpoint_area(g)[ii]" % tuple(x + ("" if x.endswith("]") else "]") for x in e.split("], ")), vars=v, pre=pre)
    ck.eq(C, "extraction of nothing is rejected", "grid.GridRegion", mk + "r.extract()", "raise ValueError", vars=v,
          may_fail=True)
    ck.eq(C, "extraction of fields of another grid is rejected", "grid.GridRegion", mk + "r.extract(f[1:])", "raise ValueError",
          vars=v, may_fail=True)
    for lab, e in (("profiles", "p[1:]"), ("zonal profiles", "zf[1:]"), ("transposed fields", "f.T"), ("stacked fields", "f[None,:,:]"),
                   ("extracted fields", "f[ii][:,jj[:-1]]"), ("fields among others", "f, p, zf[:-1]")):
        ck.eq(C, "extraction of %s of other shape is rejected" % lab, "grid.GridRegion", mk + "r.extract(%s)" % e, "raise ValueError",
              vars=v, pre=pre, may_fail=True)
    for ls, l in (("a:b", "a, b"), ("a:", "a, None"), (":b", "None, b"), (":", "None, None")):
        ck.eq(C, "monotonic longitudes of [%s]" % ls, "grid.GridRegion", "g.region[%s].lon_mono" % ls,
              "spec.lon_mono(g, %s)" % l, vars=v)
        if ck.size is None and ls != "a:b":
            ck.eq(C, "monotonic longitudes of [%s], fine grid" % ls, "grid.GridRegion", "g.region[%s].lon_mono" % ls,
                  "spec.lon_mono(g, %s)" % l, vars=v, fixed={"N": 240, "a": lambda M: 180 + 179*M.uniform("a"), "b": lambda M: 180 + 179*M.uniform("b")})
    ck.eq(C, "monotonic longitudes leave the region unchanged", "grid.GridRegion",
          "r = g.region[a:b]\nr.lon_mono\n(r.lon, g.lon, r.lon_mono)", "r = g.region[a:b]\n(r.lon, g.lon, r.lon_mono)", vars=v)


def region_pre():
    return P.ONE


@prop("C21")
def filters(ck):
    C = setup(ck)
    v = {"w": C.array("w", (P.sym("K", "i"),)), "width": C.num("width", positive=True), "kind": Const("hann")}
    P.declare_positive(P.sym("K", "i"))
    ck.eq(C, "window", "grid.Grid.get_filter_window", "g.get_filter_window(kind, width)", "spec.window(g, kind, width)", vars=v)
    ck.eq(C, "windows are normalised", "grid.Grid.get_filter_window", "np.sum(g.get_filter_window(kind, width))", "1.", vars=v)
    ck.eq(C, "windows have an odd number of gridpoints", "grid.Grid.get_filter_window",
          "g.get_filter_window(kind, width).size % 2", "1", vars=v)
    ck.eq(C, "window after use of another grid", "grid.Grid.get_filter_window",
          "q = bt.Grid(2*res, R, OM)\nq.get_filter_window(kind, width)\nw = g.get_filter_window(kind, width)\n(w, q.get_filter_window(kind, width))",
          "(spec.window(g, kind, width), spec.window(bt.Grid(2*res, R, OM), kind, width))", vars=v)
    ck.eq(C, "window after another width", "grid.Grid.get_filter_window", "a = g.get_filter_window(kind, 2*width)\n(a, g.get_filter_window(kind, width), g.get_filter_window('boxcar', width))",
          "(spec.window(g, kind, 2*width), spec.window(g, kind, width), spec.window(g, 'boxcar', width))", vars=v)
    for ax, n, mode, sh in (("meridional", "nlat", "reflect", "[:,None]"), ("zonal", "nlon", "wrap", "[None,:]")):
        A = "grid.Grid.filter_%s" % ax
        one = "p" if ax == "meridional" else "zf"
        cv = "scipy_convolve"
        ck.eq(C, "%s filter of a field" % ax, A, "g.filter_%s(f, kind, width)" % ax,
              "spec.convolve(f, spec.window(g, kind, width)%s, '%s')" % (sh, mode), vars=v)
        ck.eq(C, "%s filter of a profile" % ax, A, "g.filter_%s(%s, kind, width)" % (ax, one),
              "spec.convolve(%s, spec.window(g, kind, width), '%s')" % (one, mode), vars=v)
        ck.eq(C, "%s filter with a gridded window" % ax, A, "g.filter_%s(f, w)" % ax,
              "spec.convolve(f, w%s, '%s')" % (sh, mode), vars=v)
        ck.eq(C, "%s filter of a profile with a gridded window" % ax, A, "g.filter_%s(%s, w)" % (ax, one),
              "spec.convolve(%s, w, '%s')" % (one, mode), vars=v)
        ck.eq(C, "%s filter: arguments unchanged" % ax, A, "g.filter_%s(f, w)\ng.filter_%s(f, kind, width)\n(f, w)" % (ax, ax),
              "(f, w)", vars=v)
        ck.eq(C, "%s filter: other shapes are rejected" % ax, A,
              "g.filter_%s(%s, w)" % (ax, "f[1:]" if ax == "meridional" else "f[:,1:]"), "raise AssertionError", vars=v, may_fail=True)
        ck.eq(C, "%s filter: other dimensions are rejected" % ax, A, "g.filter_%s(f[None], w)" % ax, "raise ValueError", vars=v,
              may_fail=True)


@prop("C22")
def equality(ck):
    C = setup(ck)
    A = "grid.Grid.__eq__"
    v = {"R2": C.num("R2", positive=True), "OM2": C.num("OM2", positive=True), "nt": C.num("nt", "i"), "nt2": C.num("nt2", "i")}
    mk = "a = bt.Grid(res, R, OM)\n"
    ck.eq(C, "same parameters", A, mk + "b = bt.Grid(res, R, OM)\n(a == b, not (a != b), hash(a) == hash(b), a == a)",
          "True, True, True, True")
    ck.eq(C, "radius", A, mk + "a == bt.Grid(res, R2, OM)", "bool(np.isclose(R, R2))", vars=v)
    ck.eq(C, "angular velocity", A, mk + "a == bt.Grid(res, R, OM2)", "bool(np.isclose(OM, OM2))", vars=v)
    w = {"om": C.num("om"), "om2": C.num("om2"), "r": C.num("r", positive=True)}
    ck.eq(C, "any direction of rotation", A, "bt.Grid(res, r, om) == bt.Grid(res, r, om2)", "bool(np.isclose(om, om2))", vars=w)
    ck.eq(C, "opposite rotation", A, "bt.Grid(res, r, om) == bt.Grid(res, r, -om)", "bool(np.isclose(om, -om))", vars=w)
    ck.eq(C, "no rotation", A, mk + "b = bt.Grid(res, R, 0.)\n(b == b, b == bt.Grid(res, R, 0.), b == a, a == b)",
          "(True, True, bool(np.isclose(0., OM)), bool(np.isclose(OM, 0.)))")
    ck.eq(C, "both parameters", A, mk + "a == bt.Grid(res, R2, OM2)", "bool(np.isclose(R, R2) and np.isclose(OM, OM2))", vars=v)
    ck.eq(C, "resolution", A, mk + "a == bt.Grid(2*res, R, OM)", "False")
    ck.eq(C, "truncation", A, "bt.Grid(10., ntrunc=5) == bt.Grid(10., ntrunc=6), bt.Grid(10., ntrunc=5) == bt.Grid(10., ntrunc=5)",
          "False, True")
    ck.eq(C, "inequality", A, mk + "a != bt.Grid(res, R2, OM)", "not np.isclose(R, R2)", vars=v)
    ck.eq(C, "equal grids have equal hashes", A,
          mk + "b = bt.Grid(res, R2, OM2)\nhash(a) == hash(b) if a == b else True", "True", vars=v)
    for e, e2 in (("10.", "10.01"), ("2.5", "2.4999"), ("30.", "29.9, 6371200.0"), ("5., 6371200.0, 7.292e-5", "5., 6371200.01, 7.2920001e-5"), ("4., 2., 0.", "4., 2., 1e-9")):
        ck.eq(C, "grids of %s and %s" % (e, e2), A, "a, b = bt.Grid(%s), bt.Grid(%s)\n(a == b, b == a, hash(a) == hash(b), len({a: 1, b: 2}))" % (e, e2),
              "a, b = bt.Grid(%s), bt.Grid(%s)\nq = a.shape == b.shape and bool(np.isclose(a.rsphere, b.rsphere)) and bool(np.isclose(a.omega, b.omega))\n"
              "(q, q, True, 1) if q else (q, q, False, 2)" % (e, e2))
    ck.eq(C, "mode of Legendre functions", A, "a, b = bt.Grid(30.), bt.Grid(30., legfunc='computed')\n(a == b, b == a, hash(a) == hash(b), len({a: 1, b: 2}))", "True, True, True, 1")
    ck.eq(C, "other objects", A, mk + "(a == 1, a == None, a == 'Grid', a != 1)", "False, False, False, True")
    ck.eq(C, "other objects decide themselves", A, mk + "a.__eq__(1)", "NotImplemented")
    ck.eq(C, "usable as dictionary key", A, mk + "d = {a: 1}\nd[bt.Grid(res, R, OM)]", "1")
