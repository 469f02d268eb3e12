"""Exchange of datasets (xarray is represented by an interface model)."""

from . import prop
from .. import poly as P
from .state import with_stubs

XR = (("xarray", "stubs/xarray.py"),)


def io_setup(ck):
    C = with_stubs(ck, XR)
    # numbers of labels (a dimension of one element is squeezed)
    J, K = (P.padd(P.sym(n, "i"), P.ONE) for n in ("J", "K"))
    for n in ("J", "K"):
        P.declare_positive(P.sym(n, "i"))
    C.J, C.K = J, K
    M = C.N + 1
    L = 2 * C.N
    for n in ("U", "V", "Q"):
        C.let(**{n + "1": C.array(n + "1", (J, M, L)), n + "2": C.array(n + "2", (J, K, M, L)),
                 n + "s": C.array(n + "s", (P.ONE, M, L))})
    C.let(ta=C.array("ta", (J,), "M"), tn=C.array("tn", (J,)), tk=C.array("tk", (K,), "M"), te=C.array("te", (P.ONE,), "M"),
          lev=C.array("lev", (K,)), levj=C.array("levj", (J,)), T=C.time("T"), T2=C.time("T2"), j=C.num("j", "i"), k=C.num("k", "i"),
          fill=C.num("fill"), tz=C.num("tz"))
    return C


@prop("C31")
def importing(ck):
    C = io_setup(ck)
    A = "io.from_dataset"
    X = "import xarray as xr\n"
    J, K = C.J, C.K
    j, k = P.sym("j", "i"), P.sym("k", "i")
    pj = P.AND(P.le(P.ZERO, j), P.lt(j, J))
    pk = P.AND(P.le(P.ZERO, k), P.lt(k, K))
    show = "(len(x), x[j].time, x[j].pv_spectral, isinstance(x, bt.StateList), x.grid.lat, x.grid.lon, x.grid.shape)"

    def ds(vars, coords, lat="latitude", lon="longitude"):
        return "xr.Dataset({%s}, {%s})" % (
            ", ".join("'%s': (%r, %s)" % (n, tuple(d) + (lat, lon), a) for n, d, a in vars),
            ", ".join(["'%s': g.lat" % lat, "'%s': g.lon" % lon] + ["'%s': %s" % c for c in coords]))

    def one(lab, dset, call, n, time, q, pre=pj, extra=""):
        ck.eq(C, lab, A, X + extra + "ds = %s\nx = bt.io.from_dataset(%s)\n%s" % (dset, call, show),
              extra + "h = bt.Grid(g.dlon)\n(%s, %s, %s, True, g.lat, g.lon, g.shape)" % (n, time, q), pre=pre)

    wind = "h.to_spectral(h.fcor2 + h.vorticity(%s, %s))"
    vort = "h.to_spectral(h.fcor2 + %s)"
    pv = "h.to_spectral(%s)"
    date = "np.array(ta)[j].astype('datetime64[us]').item()"
    tj = (("time", "ta"),)
    # fields of every kind under every documented name
    for u in ("u", "ugrd", "eastward_wind"):
        for v in ("v", "vgrd", "northward_wind"):
            one("wind %s, %s" % (u, v), ds([(u, ["time"], "U1"), (v, ["time"], "V1")], tj), "ds", "ta.size", date, wind % ("U1[j]", "V1[j]"))
    for n in ("vo", "relv", "vorticity", "relative_vorticity"):
        one("relative vorticity " + n, ds([(n, ["time"], "Q1")], tj), "ds", "ta.size", date, vort % "Q1[j]")
        one("relative vorticity DataArray " + n, ds([(n, ["time"], "Q1")], tj) + "['%s']" % n, "ds", "ta.size", date, vort % "Q1[j]")
    for n in ("avo", "absv", "absolute_vorticity", "pv"):
        one("absolute vorticity " + n, ds([(n, ["time"], "Q1")], tj), "ds", "ta.size", date, pv % "Q1[j]")
    # precedence
    three = [("avo", ["time"], "Q1"), ("vo", ["time"], "U1"), ("u", ["time"], "V1"), ("v", ["time"], "W1")]
    C.let(W1=C.array("W1", (J, C.N + 1, 2 * C.N)))
    one("wind takes precedence", ds(three, tj), "ds", "ta.size", date, wind % ("V1[j]", "W1[j]"))
    one("relative before absolute vorticity", ds(three[:3], tj), "ds", "ta.size", date, vort % "U1[j]")
    one("relative before absolute vorticity, meridional wind only", ds(three[:2] + three[3:], tj), "ds", "ta.size", date, vort % "U1[j]")
    one("explicit names of absolute vorticity before PV", ds([("pv", ["time"], "U1"), ("absv", ["time"], "Q1")], tj), "ds", "ta.size", date, pv % "Q1[j]")
    one("order of names", ds([("relative_vorticity", ["time"], "U1"), ("vo", ["time"], "Q1")], tj), "ds", "ta.size", date, vort % "Q1[j]")
    # coordinates
    one("short coordinate names", ds([("vo", ["time"], "Q1")], tj, "lat", "lon"), "ds", "ta.size", date, vort % "Q1[j]")
    one("names given", ds([("a", ["t"], "U1"), ("b", ["t"], "V1")], (("t", "ta"),), "phi", "lam"),
        "ds, {'u': 'a', 'v': 'b', 'lat': 'phi', 'lon': 'lam', 'time': 't'}", "ta.size", date, wind % ("U1[j]", "V1[j]"))
    one("names given override the detected", ds([("vo", ["time"], "U1"), ("b", ["time"], "Q1")], tj), "ds, names={'vo': 'b'}", "ta.size", date, vort % "Q1[j]")
    two = (("step", "levj"), ("valid", "('step', tn)"), ("time", "('step', levj)"))
    one("time name given overrides the detected", ds([("vo", ["step"], "Q1")], two), "ds, {'time': 'valid'}", "tn.size", "tn[j]", vort % "Q1[j]")
    one("time name given overrides the detected dimension", ds([("vo", ["time"], "Q1")], (("time", "levj"), ("valid", "('time', ta)"))),
        "ds, {'time': 'valid'}", "ta.size", date, vort % "Q1[j]")
    one("common time of given name overrides the detected", ds([("vo", ["time"], "Q1")], (("time", "levj"), ("ref", "tz"))),
        "ds, {'time': 'ref'}", "levj.size", "tz", vort % "Q1[j]")
    for n, e in (("latitude", ("lat", "latitude", "phi")), ("longitude", ("lon", "longitude", "lam"))):
        a, b, c = e
        q = "xr.Dataset({'vo': (('step', '%s', '%s'), Q1)}, {'step': levj, 'lat': g.lat, 'lon': g.lon, 'phi': g.lat, 'lam': g.lon, '%s': tz})"
        one(n + " name given overrides the detected", q % (("phi", "lon", b) if a == "lat" else ("lat", "lam", b)), "ds, {'%s': '%s'}" % (a, c),
            "levj.size", "0", vort % "Q1[j]")
        one(n + " of the first name is used", (q % ("lat", "lon", "other")).replace("'%s'" % a, "'%s'" % b), "ds", "levj.size", "0", vort % "Q1[j]")
    uv = [("u", ["time"], "U1"), ("v", ["time"], "V1"), ("ua", ["time"], "Q1"), ("va", ["time"], "W1")]
    one("wind names given override the detected", ds(uv, tj), "ds, {'v': 'va', 'u': 'ua'}", "ta.size", date, wind % ("Q1[j]", "W1[j]"))
    one("zonal wind name given", ds(uv, tj), "ds, names={'u': 'ua'}", "ta.size", date, wind % ("Q1[j]", "V1[j]"))
    one("meridional wind name given", ds(uv[:1] + uv[3:], tj), "ds, names={'v': 'va'}", "ta.size", date, wind % ("U1[j]", "W1[j]"))
    one("absolute vorticity name given overrides the detected", ds([("avo", ["time"], "U1"), ("b", ["time"], "Q1")], tj), "ds, names={'avo': 'b'}",
        "ta.size", date, pv % "Q1[j]")
    one("names without effect", ds([("vo", ["time"], "Q1"), ("time2", [], "f")], tj), "ds, names={'foo': 'time2'}", "ta.size", date, vort % "Q1[j]")
    ck.eq(C, "names and grid arguments unchanged", A, X + "ds = %s\nn, k = {'u': 'ua'}, {'rsphere': R}\nbt.io.from_dataset(ds, n, k)\n(n, k)" % ds(uv, tj),
          "({'u': 'ua'}, {'rsphere': R})")
    one("relative vorticity name given", ds([("b", ["time"], "Q1")], tj), "ds, names={'vo': 'b'}", "ta.size", date, vort % "Q1[j]")
    one("absolute vorticity name given", ds([("b", ["time"], "Q1")], tj), "ds, names={'avo': 'b'}", "ta.size", date, pv % "Q1[j]")
    # times
    one("numeric times", ds([("vo", ["time"], "Q1")], (("time", "tn"),)), "ds", "tn.size", "tn[j]", vort % "Q1[j]")
    ck.eq(C, "numeric times are plain numbers", A, X + "ds = %s\nx = bt.io.from_dataset(ds)\nisinstance(x[0].time, float)" %
          ds([("vo", ["time"], "Q1")], (("time", "tn"),)), "True")
    one("fill value", ds([("vo", ["level"], "Q1")], (("level", "levj"),)), "ds, time_fill=fill", "levj.size", "fill", vort % "Q1[j]")
    one("date as fill value", ds([("vo", ["level"], "Q1")], (("level", "levj"),)), "ds, time_fill=T", "levj.size", "T", vort % "Q1[j]")
    one("default fill value", ds([("vo", ["level"], "Q1")], (("level", "levj"),)), "ds", "levj.size", "0", vort % "Q1[j]")
    one("fill value is not used if times exist", ds([("vo", ["time"], "Q1")], tj), "ds, time_fill=fill", "ta.size", date, vort % "Q1[j]")
    one("common valid time", ds([("vo", ["level"], "Q1")], (("level", "levj"), ("time", "tz"))), "ds", "levj.size", "tz", vort % "Q1[j]")
    one("common date", ds([("vo", ["level"], "Q1")], (("level", "levj"), ("time", "np.datetime64(T)"))), "ds", "levj.size", "T", vort % "Q1[j]")
    one("times along another dimension", ds([("vo", ["step"], "Q1")], (("step", "levj"), ("time", "('step', ta)"))), "ds", "ta.size", date, vort % "Q1[j]")
    one("times of another name", ds([("vo", ["step"], "Q1")], (("step", "levj"), ("valid", "('step', tn)"))), "ds, names={'time': 'valid'}",
        "tn.size", "tn[j]", vort % "Q1[j]")
    # dimensions
    sq = "x = bt.io.from_dataset(%s)\n(len(x), x[0].time, x[0].pv_spectral)"
    for lab, vs, q in (("wind", [("u", [], "u"), ("v", [], "v")], wind % ("u", "v")), ("vorticity", [("vo", [], "f")], vort % "f"), ("PV", [("pv", [], "f")], pv % "f")):
        ck.eq(C, "single %s field" % lab, A, X + sq % ds(vs, [("time", "tz")]), "h = bt.Grid(g.dlon)\n(1, tz, %s)" % q)
        ck.eq(C, "single %s field without time" % lab, A, X + sq % (ds(vs, []) + ", time_fill=T"), "h = bt.Grid(g.dlon)\n(1, T, %s)" % q)
    ck.eq(C, "dimension of one element", A, X + sq % ds([("vo", ["time"], "Qs")], [("time", "te")]),
          "h = bt.Grid(g.dlon)\n(1, np.array(te)[0].astype('datetime64[us]').item(), %s)" % (vort % "Qs[0]"))
    ck.eq(C, "wind on a dimension of one element", A, X + sq % ds([("u", ["time"], "Us"), ("v", ["time"], "Vs")], [("time", "te")]),
          "h = bt.Grid(g.dlon)\n(1, np.array(te)[0].astype('datetime64[us]').item(), %s)" % (wind % ("Us[0]", "Vs[0]")))
    show2 = show.replace("[j]", "[i]")
    pre2 = P.AND(pj, pk)
    for lab, vs, q in (("wind", [("u", None, "U2"), ("v", None, "V2")], wind % ("U2[j,k]", "V2[j,k]")),
                       ("vorticity", [("vo", None, "Q2")], vort % "Q2[j,k]"), ("PV", [("pv", None, "Q2")], pv % "Q2[j,k]")):
        for dims, co, t in ((["time", "level"], (("time", "ta"), ("level", "lev")), date),
                            (["level", "time"], (("level", "levj"), ("time", "tk")), "np.array(tk)[k].astype('datetime64[us]').item()"),
                            (["member", "level"], (("level", "lev"),), "fill")):
            ck.eq(C, "%s on %s" % (lab, " and ".join(dims)), A,
                  X + "ds = %s\nx = bt.io.from_dataset(ds, time_fill=fill)\ni = j*lev.size + k\n%s" % (ds([(n, dims, a) for n, _, a in vs], co), show2),
                  "h = bt.Grid(g.dlon)\n(ta.size*lev.size, %s, %s, True, g.lat, g.lon, g.shape)" % (t, q), pre=pre2)
    for lab, vs, q in (("wind", [("u", ["member"], "U1"), ("v", ["member"], "V1")], wind % ("U1[j]", "V1[j]")),
                       ("vorticity", [("vo", ["member"], "Q1")], vort % "Q1[j]")):
        one("%s on a dimension without coordinate" % lab, ds(vs, ()), "ds, time_fill=fill", "ta.size", "fill", q)
    # grid arguments
    ck.eq(C, "arguments of the grid", A, X + "x = bt.io.from_dataset(%s, grid_kwargs={'rsphere': R, 'omega': OM})\n"
          "(x.grid.rsphere, x.grid.omega, x[0].pv_spectral, x[0].u)" % ds([("u", [], "u"), ("v", [], "v")], []),
          "y = bt.State.from_wind(g, 0, u, v)\n(R, OM, y.pv_spectral, y.u)")
    # rejected datasets
    q = "bt.io.from_dataset(%s)"
    base = "ds = xr.Dataset({'vo': (('latitude', 'longitude'), %s)}, {'latitude': %s, 'longitude': %s})\nbt.io.from_dataset(ds)"
    for lab, f, la, lo in (
            ("longitudes starting elsewhere", "f", "g.lat", "g.lon + g.dlon"),
            ("longitudes from -180", "f", "g.lat", "g.lon - 180"),
            ("decreasing longitudes", "f", "g.lat", "g.lon[::-1]"),
            ("westward longitudes", "f", "g.lat", "-g.lon"),
            ("increasing latitudes", "f", "g.lat[::-1]", "g.lon"),
            ("half the longitudes", "f[:,:g.nlat-1]", "g.lat", "g.lon[:g.nlat-1]"),
            ("every second longitude", "f[:,::2]", "g.lat", "g.lon[::2]"),
            ("compressed longitudes", "f", "g.lat", "0.5*g.lon"),
            ("compressed latitudes", "f", "0.5*g.lat", "g.lon"),
            ("shifted latitudes", "f", "g.lat - g.dlat", "g.lon"),
            ("without the North pole", "f[1:]", "g.lat[1:]", "g.lon"),
            ("without the South pole", "f[:-1]", "g.lat[:-1]", "g.lon"),
            ("without the last longitude", "f[:,:-1]", "g.lat", "g.lon[:-1]"),
            ("repeated meridian", "np.zeros((g.nlat, g.nlon + 1))", "g.lat", "np.arange(g.nlon + 1)*g.dlon"),
            ("irregular longitudes", "f", "g.lat", "g.lon + np.where(g.lon == 180, 0.3*g.dlon, 0)"),
            ("irregular latitudes", "f", "g.lat + np.where(g.lat == 90 + g.dlat, 0.3*g.dlat, 0)", "g.lon"),
            ("one longitude out of place", "f", "g.lat", "g.lon + np.where(g.lon == 2*g.dlon, 0.3*g.dlon, 0)"),
            ("one latitude out of place", "f", "g.lat + np.where(g.lat == 90 + 2*g.dlat, 0.3*g.dlat, 0)", "g.lon"),
            ("stretched latitudes", "f", "90*np.sin(g.phi)", "g.lon"),
            ("irregular last longitude", "f", "g.lat", "g.lon + np.where(g.lon == 360 - g.dlon, 0.3*g.dlon, 0)"),
            ("one meridian too far south", "f", "g.lat + np.where(g.lat == -90, 0.3*g.dlat, 0)", "g.lon"),
            ("two-dimensional longitudes", "f", "g.lat", "(('latitude', 'longitude'), g.lon2)"),
            ("two-dimensional latitudes", "f", "(('latitude', 'longitude'), g.lat2)", "g.lon")):
        ck.eq(C, lab + " rejected", A, X + base % (f, la, lo), "raise AssertionError", may_fail=True)
    for lab, vs, co, la, lo, err in (
            ("latitude missing", [("vo", ["time"], "Q1")], tj, "y", "lon", "ValueError"),
            ("longitude missing", [("vo", ["time"], "Q1")], tj, "lat", "x", "ValueError"),
            ("no fields", [("q", ["time"], "Q1")], tj, "lat", "lon", "ValueError"),
            ("zonal wind only", [("u", ["time"], "Q1")], tj, "lat", "lon", "ValueError"),
            ("meridional wind only", [("v", ["time"], "Q1")], tj, "lat", "lon", "ValueError"),
            ("wind components of different dimensions", [("u", ["time"], "U1"), ("v", [], "v")], tj, "lat", "lon", "AssertionError")):
        ck.eq(C, lab + " rejected", A, X + q % ds(vs, co, la, lo), "raise " + err, may_fail=True)
    for lab, d, a in (("longitude before latitude", "('longitude', 'latitude')", "f.T"), ("dimension between", "('latitude', 'time', 'longitude')", "np.zeros((g.nlat, 2, g.nlon))"),
                      ("dimension at the end", "('latitude', 'longitude', 'time')", "np.zeros((g.nlat, g.nlon, 2))")):
        ck.eq(C, lab + " rejected", A, X + q % ("xr.Dataset({'vo': (%s, %s)}, {'latitude': g.lat, 'longitude': g.lon})" % (d, a)),
              "raise AssertionError", may_fail=True)
    ck.eq(C, "coordinates of other dimensions rejected", A,
          X + q % "xr.Dataset({'vo': (('y', 'x'), f)}, {'latitude': ('y', g.lat), 'longitude': ('x', g.lon)})", "raise AssertionError", may_fail=True)
    ck.eq(C, "dataset unchanged", A, X + "ds = %s\nbt.io.from_dataset(ds)\n(spec.shown(ds), U1, V1, ta)" % ds([("u", ["time"], "U1"), ("v", ["time"], "V1")], tj),
          X + "ds = %s\n(spec.shown(ds), U1, V1, ta)" % ds([("u", ["time"], "U1"), ("v", ["time"], "V1")], tj))
    ck.eq(C, "there and back", "io.as_dataset", X + "x = bt.io.from_dataset(bt.io.as_dataset([s, s2], 'pv'))\n(len(x), x[0].time, x[1].time, x[0].pv_spectral, x[1].pv_spectral)",
          "h = bt.Grid(g.dlon)\n(2, s.time, s2.time, h.to_spectral(s.pv), h.to_spectral(s2.pv))",
          pre=P.NOT(P.eq(P.sym("s.time"), P.sym("s2.time"))))


@prop("C32")
def exporting(ck):
    C = io_setup(ck)
    A = "io.as_dataset"
    X = "import xarray as xr\n"
    st = "[s, s2, s3]"
    ev = "spec.shown(%s)"
    cy = "[('latitude', ('latitude',), g.lat, {'units': 'degrees_north'}), ('longitude', ('longitude',), g.lon, {'units': 'degrees_east'}), " \
         "('time', ('time',), np.array([%s]), {'units': 's'})]"
    three = cy % "s.time, s2.time, s3.time"
    lev = "('time', 'latitude', 'longitude')"

    def stack(e, names=("s", "s2", "s3")):
        return "np.stack([%s])" % ", ".join(e.replace("x.", n + ".") for n in names)

    for lab, call in (("as_dataset", "bt.io.as_dataset([s, s2, s3]%s)"), ("list", "bt.io.as_dataset(bt.StateList([s, s2, s3])%s)"),
                      ("method", "bt.StateList([s, s2, s3]).as_dataset(%s)")):
        def arg(a):
            return call % (a if lab == "method" else a and ", " + a)
        ck.eq(C, lab + ": wind by default", A, X + ev % arg(""), "([('u', %s, %s), ('v', %s, %s)], %s)" % (lev, stack("x.u"), lev, stack("x.v"), three))
        for f, dims in (("pv", lev), ("streamfunction", lev), ("energy", None), ("stationary_wavenumber", "('time', 'latitude')"), ("time", None)):
            if dims is None:
                continue
            ck.eq(C, "%s: field %s" % (lab, f), A, X + ev % arg("'%s'" % f), "([('%s', %s, %s)], %s)" % (f, dims, stack("x." + f), three))
        ck.eq(C, lab + ": list of fields", A, X + ev % arg("['vorticity', 'pv']"), "([('pv', %s, %s), ('vorticity', %s, %s)], %s)" %
              (lev, stack("x.pv"), lev, stack("x.vorticity"), three))
        ck.eq(C, lab + ": named fields", A, X + ev % arg("fields={'b': 'v', 'a': lambda x: x.u*k, 'c': lambda x: x.u.mean(axis=bt.ZONAL), "
              "'d': lambda x: x.v.mean(axis=bt.MERIDIONAL), 'e': lambda x: x.u.max()}"),
              "([('a', %s, %s), ('b', %s, %s), ('c', ('time', 'latitude'), %s), ('d', ('time', 'longitude'), %s), ('e', ('time',), np.array([s.u.max(), s2.u.max(), s3.u.max()]))], %s)" %
              (lev, stack("x.u*k"), lev, stack("x.v"), stack("x.u.mean(axis=bt.ZONAL)"), stack("x.v.mean(axis=bt.MERIDIONAL)"), three))
    ck.eq(C, "generator of fields", A, X + ev % "bt.io.as_dataset([s, s2, s3], (x for x in ('u', 'pv')))",
          "([('pv', %s, %s), ('u', %s, %s)], %s)" % (lev, stack("x.pv"), lev, stack("x.u"), three))
    ck.eq(C, "any iterable of states", A, X + ev % "bt.io.as_dataset(x for x in (s, s2))",
          "([('u', %s, %s), ('v', %s, %s)], %s)" % (lev, stack("x.u", ("s", "s2")), lev, stack("x.v", ("s", "s2")), cy % "s.time, s2.time"))
    ck.eq(C, "single state", A, X + ev % "bt.io.as_dataset(s, 'pv')", "([('pv', %s, %s)], %s)" % (lev, stack("x.pv", ("s",)), cy % "s.time"))
    ck.eq(C, "dates", A, X + ev % "bt.io.as_dataset([bt.State(g, T, f), bt.State(g, T2, f)], 'pv')",
          "a = bt.State(g, T, f)\n([('pv', %s, np.stack([a.pv, a.pv]))], %s)" %
          (lev, (cy % "T, T2").replace("{'units': 's'}", "{}").replace("np.array([T, T2])", "np.array([T, T2]).astype('datetime64[ns]')")))
    ck.eq(C, "integer times", A, X + ev % "bt.io.as_dataset([bt.State(g, k, f), bt.State(g, j, f)], 'pv')",
          "a = bt.State(g, k, f)\n([('pv', %s, np.stack([a.pv, a.pv]))], %s)" % (lev, cy % "k, j"))
    ck.eq(C, "no states", A, X + "[spec.shown(bt.io.as_dataset(x)) for x in ([], (), bt.StateList([]))]", "[([], []), ([], []), ([], [])]")
    ck.eq(C, "no states, method", A, X + "spec.shown(bt.StateList([]).as_dataset('u'))", "[], []")
    lat, lon = (cy % "").split(", ('time'")[0][1:], None
    nt = "([%s], [" + "('latitude', ('latitude',), g.lat, {'units': 'degrees_north'}), ('longitude', ('longitude',), g.lon, {'units': 'degrees_east'}), "
    tm = "('time', ('time',), np.array([s.time, s2.time, s3.time]), {'units': 's'})"
    ck.eq(C, "other index dimension without values", A, X + ev % "bt.io.as_dataset([s, s2, s3], 'pv', 'number')",
          (nt % ("('pv', ('number', 'latitude', 'longitude'), %s)" % stack("x.pv"))) + "('number', ('number',), np.arange(3), {}), %s])" % tm)
    ck.eq(C, "other index dimension", A, X + "for i, x in enumerate([s, s2, s3]):\n    x.number = (i + 1)*k\n" + ev % "bt.io.as_dataset([s, s2, s3], {'q': 'pv', 'p': lambda x: x.u.mean(axis=1), 'o': lambda x: x.u.min()}, concat_dim='number')",
          (nt % ("('o', ('number',), np.array([s.u.min(), s2.u.min(), s3.u.min()])), ('p', ('number', 'latitude'), %s), ('q', ('number', 'latitude', 'longitude'), %s)" %
                 (stack("x.u.mean(axis=1)"), stack("x.pv")))) + "('number', ('number',), np.array([k, 2*k, 3*k]), {}), %s])" % tm)
    ck.eq(C, "one state and other index dimension without values", A, X + ev % "bt.io.as_dataset([s], 'pv', 'number')",
          (nt % "('pv', ('number', 'latitude', 'longitude'), np.stack([s.pv]))") + "('number', ('number',), np.arange(1), {}), ('time', ('time',), np.array([s.time]), {'units': 's'})])")
    ck.eq(C, "fields of other shapes are rejected", A, X + "bt.io.as_dataset([s, s2], {'a': lambda x: x.u[1:-1,0]})", "raise NotImplementedError", may_fail=True)
    ck.eq(C, "fields that do not exist are rejected", A, X + "bt.io.as_dataset([s, s2], 'foo')", "raise AttributeError", may_fail=True)
    ck.eq(C, "states on different grids are rejected", A, X + "bt.io.as_dataset([s, bt.init.motionless(bt.Grid(2*res, R, OM))])", "raise AssertionError", may_fail=True)
    ck.eq(C, "states unchanged", A, X + "l = [s, s2]\nbt.io.as_dataset(l, ['u', 'pv'])\n(l[0].pv, l[0].u, l[1].v, s.time, g.lat, g.lon, len(l))",
          "(s.pv, s.u, s2.v, s.time, g.lat, g.lon, 2)")
    ck.eq(C, "source is noted", A, X + "sorted(bt.io.as_dataset([s]).attrs)", "['package']")
    # any number of states
    Kp = P.sym("Ks", "i")
    P.declare_positive(Kp)
    v = {"ts": C.array("ts", (Kp,)), "ws": C.array("ws", (Kp,)), "j": C.num("j", "i")}
    pre = P.AND(P.le(P.ZERO, P.sym("j", "i")), P.lt(P.sym("j", "i"), Kp))
    L = "l = bt.StateList([bt.State(g, x, pv_spectral=w*sp) for x, w in zip(ts, ws)])\n"
    mk = "x = bt.State(g, ts[j], pv_spectral=ws[j]*sp)\n"
    ck.eq(C, "any number of states", A, X + L + "d = bt.io.as_dataset(l, {'a': 'pv', 'b': lambda x: x.u.mean(axis=1)})\n"
          "(d['a'].dims, d['b'].dims, d['a'].shape, d['a'].values[j], d['b'].values[j], d.coords['time'].values[j])",
          mk + "(('time', 'latitude', 'longitude'), ('time', 'latitude'), (ts.size, g.nlat, g.nlon), x.pv, x.u.mean(axis=1), ts[j])", vars=v, pre=pre)
