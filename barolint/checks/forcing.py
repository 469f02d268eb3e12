"""Orographic forcing and initial conditions."""

from . import prop
from .. import poly as P
from ..context import PLANET
from .state import setup


def orog_setup(ck):
    C = setup(ck)
    L, M = P.sym("L", "i"), P.sym("M", "i")
    for q in (L, M):
        P.declare_positive(q)
    C.let(olon=C.array("olon", (L,)), olat=C.array("olat", (M,)), oh=C.array("oh", (M, L)),
          w=C.num("w"), H=C.num("H", positive=True), f0=C.num("f0"), c1=C.num("c1"), c2=C.num("c2"),
          s1=C.num("s1", positive=True), s4=C.num("s4", positive=True), hm=C.num("hm"), wn=C.num("wn", "i"))
    return C


WINDS = {
    "act": "(w*s.u, w*s.v)",
    "zon": "((w*s.u.mean(axis=1))[:,None]*np.ones(g.shape), np.zeros(g.shape))",
    "sbr": "(w*np.cos(g.phi2), np.zeros(g.shape))",
}


@prop("C29")
def orography(ck):
    C = orog_setup(ck)
    A = "rhs.Orography"
    lin = "spec.bilinear(g, olon, olat, oh)"
    gauss = "spec.gaussian_mountain(g, hm, (c1, c2), s1, s4)"
    sine = "spec.sine_mountains(g, hm, c2, s4, wn)"
    r = "spec.orographic(s, %s, %s, H, %s)"
    for name, wind in WINDS.items():
        for f, fc in (("", "g.fcor2"), ("f0", "f0")):
            lab = "%s wind, %s Coriolis parameter" % (name, "given" if f else "grid")
            arg = "scale_height=H, wind=('%s', w)%s" % (name, ", fcor_ref=f0" if f else "")
            ck.eq(C, "gridded orography, " + lab, A, "bt.rhs.Orography(olon, olat, oh, %s)(s)" % arg, r % (lin, wind, fc))
            ck.eq(C, "Gaussian mountain, " + lab, "rhs.GaussianMountain",
                  "bt.rhs.GaussianMountain(hm, (c1, c2), (s1, s4), %s)(s)" % arg, r % (gauss, wind, fc))
            ck.eq(C, "sine mountains, " + lab, "rhs.ZonalSineMountains",
                  "bt.rhs.ZonalSineMountains(hm, c2, s4, wn, %s)(s)" % arg, r % (sine, wind, fc))
    d = "spec.orographic(s, %s, (s.u, s.v), 10000., g.fcor2)"
    ck.eq(C, "gridded orography, defaults", A, "bt.rhs.Orography(olon, olat, oh)(s)", d % lin)
    ck.eq(C, "Gaussian mountain, defaults", "rhs.GaussianMountain", "bt.rhs.GaussianMountain()(s)",
          d % "spec.gaussian_mountain(g, 1500, (30., 45.), 7.5, 20.)")
    ck.eq(C, "sine mountains, defaults", "rhs.ZonalSineMountains", "bt.rhs.ZonalSineMountains()(s)",
          d % "spec.sine_mountains(g, 1500, 45., 10., 4)")
    ck.eq(C, "gridded orography on the grid", A, "bt.rhs.Orography(olon, olat, oh).orography(g)", lin)
    ck.eq(C, "Gaussian mountain shape", "rhs.GaussianMountain", "bt.rhs.GaussianMountain(hm, center=(c1, c2), stdev=(s1, s4)).orography(g)", gauss)
    ck.eq(C, "round Gaussian mountain", "rhs.GaussianMountain", "bt.rhs.GaussianMountain(height=hm, center=(c1, c2), stdev=s1).orography(g)",
          "spec.gaussian_mountain(g, hm, (c1, c2), s1, s1)")
    ck.eq(C, "round Gaussian mountain of integer width", "rhs.GaussianMountain", "bt.rhs.GaussianMountain(stdev=7).orography(g)",
          "spec.gaussian_mountain(g, 1500, (30., 45.), 7., 7.)")
    ck.eq(C, "Gaussian mountain across the periodic boundary", "rhs.GaussianMountain",
          "bt.rhs.GaussianMountain(hm, (c1 + 360, c2), (s1, s4)).orography(g), bt.rhs.GaussianMountain(hm, (c1 - 360, c2), (s1, s4)).orography(g)",
          "a = bt.rhs.GaussianMountain(hm, (c1, c2), (s1, s4)).orography(g)\n(a, a)")
    ck.eq(C, "Gaussian mountain at the date line", "rhs.GaussianMountain",
          "bt.rhs.GaussianMountain(hm, (0., c2), (s1, s4)).orography(g)[:,1]", "bt.rhs.GaussianMountain(hm, (0., c2), (s1, s4)).orography(g)[:,-1]")
    ck.eq(C, "sine mountain shape", "rhs.ZonalSineMountains",
          "bt.rhs.ZonalSineMountains(height=hm, center_lat=c2, stdev_lat=s4, wavenumber=wn).orography(g)", sine)
    ck.eq(C, "derived orography", A,
          "class O(bt.rhs.Orography):\n    def __init__(self):\n        super().__init__(None, None, None, H, ('act', w), f0)\n"
          "    def orography(self, grid):\n        return grid.fcor2*grid.lon2\nO()(s)", r % ("g.fcor2*g.lon2", WINDS["act"], "f0"))
    ck.eq(C, "solid body rotation forcing does not depend on the state", A,
          "o = bt.rhs.Orography(olon, olat, oh, wind=('sbr', w))\no(s) - o(s2)", "np.zeros(g.shape)")
    ck.eq(C, "flat orography exerts no forcing", A, "bt.rhs.Orography(olon, olat, np.zeros(oh.shape))(s)", "np.zeros(g.shape)")
    ck.eq(C, "forcing on the grid of the state", A,
          "g2 = bt.Grid(g.dlon, rsphere=2.*g.rsphere, omega=3*g.omega)\nx = bt.State(g2, s.time, pv_spectral=s.pv_spectral)\n"
          "o = bt.rhs.Orography(olon, olat, oh, H)\no(s)\no(x)",
          "g2 = bt.Grid(g.dlon, rsphere=2.*g.rsphere, omega=3*g.omega)\nx = bt.State(g2, s.time, pv_spectral=s.pv_spectral)\n"
          "spec.orographic(x, spec.bilinear(g2, olon, olat, oh), (x.u, x.v), H, g2.fcor2)", pre=PLANET)
    ck.eq(C, "unknown winds are rejected", A, "bt.rhs.Orography(olon, olat, oh, wind=('geo', 1.))", "raise ValueError", may_fail=True)
    ck.eq(C, "arguments unchanged", A, "o = bt.rhs.Orography(olon, olat, oh)\no(s)\no(s)\n(olon, olat, oh, s.u, s.v, s.pv, g.lat, g.lon)",
          "(olon, olat, oh, s.u, s.v, s.pv, g.lat, g.lon)")


@prop("C05", "C29")
def forcings_reused(ck):
    C = orog_setup(ck)
    A = "rhs.Orography"
    # one forcing serves every state of a run, of several runs and of several grids
    two = "x = bt.State(g, s.time, pv_spectral=s2.pv_spectral)\n"
    grid2 = "g2 = bt.Grid(g.dlon, rsphere=2.*g.rsphere, omega=3*g.omega)\nx = bt.State(g2, s.time, pv_spectral=s2.pv_spectral)\n"
    for name, wind in WINDS.items():
        for kind, make, field in (("gridded orography", "bt.rhs.Orography(olon, olat, oh, %s)", "spec.bilinear(%s, olon, olat, oh)"),
                                  ("Gaussian mountain", "bt.rhs.GaussianMountain(hm, (c1, c2), (s1, s4), %s)", "spec.gaussian_mountain(%s, hm, (c1, c2), s1, s4)"),
                                  ("sine mountains", "bt.rhs.ZonalSineMountains(hm, c2, s4, wn, %s)", "spec.sine_mountains(%s, hm, c2, s4, wn)")):
            o = "o = %s\n" % (make % ("scale_height=H, wind=('%s', w)" % name))
            for lab, pre, gr in (("state of the same time", two, "g"), ("grid", grid2, "g2")):
                ck.eq(C, "%s, %s wind, for another %s" % (kind, name, lab), A, pre + o + "o(s)\ny = o(x)\n(y, o(s))",
                      pre + "(%s, %s)" % (
                          "spec.orographic(x, %s, %s, H, %s.fcor2)" % (field % gr, wind.replace("s.u", "x.u").replace("s.v", "x.v").replace("g.", gr + "."), gr),
                          "spec.orographic(s, %s, %s, H, g.fcor2)" % (field % "g", wind)), pre=PLANET)


@prop("C30")
def presets(ck):
    C = setup(ck)
    C.let(a=C.num("a"), b=C.num("b"), c=C.num("c"), T=C.time("T"), sd=C.num("sd", positive=True))
    show = "(x.grid is g, x.time, x.pv_spectral, x.pv)"
    wind = "u = %s\nq = g.to_spectral(g.fcor2 + g.vorticity(u, np.zeros(g.shape)))\n(True, %s, q, g.to_grid(q))"
    pv = "q = g.to_spectral(%s)\n(True, %s, q, g.to_grid(q))"
    row = "%s[:,None]*np.ones(g.shape)"
    for t, arg in (("t", ", t"), ("T", ", time=T"), ("0.", "")):
        lab = {"t": "", "T": " with date", "0.": " at default time"}[t]
        for name, call, code in (
                ("motionless", "motionless(g%s)", pv % ("g.fcor2", t)),
                ("given wind", "zonally_symmetric(g%s, u=p)", wind % (row % "p", t)),
                ("given PV", "zonally_symmetric(g%s, pv=p)", pv % (row % "p", t)),
                ("solid body rotation", "solid_body_rotation(g%s, amplitude=a)", wind % ("a*np.cos(g.phi2)", t)),
                ("Gaussian jet", "gaussian_jet(g%s, amplitude=a, center_lat=b, stdev_lat=sd)", wind % (row % "spec.jet(g, a, b, sd)", t)),
                ("Held 1985", "held_1985(g%s, A=a, B=b, C=c)", wind % (row % "spec.held(g, a, b, c)", t))):
            ck.eq(C, name + lab, "init." + call.split("(")[0], "x = bt.init." + call % arg + "\n" + show, code)
    ck.eq(C, "positional arguments", "init", "[x.pv for x in (bt.init.zonally_symmetric(g, t, p), bt.init.solid_body_rotation(g, t, a), "
          "bt.init.gaussian_jet(g, t, a, b, sd), bt.init.held_1985(g, t, a, b, c))]",
          "[bt.State.from_wind(g, t, y[:,None]*np.ones(g.shape), np.zeros(g.shape)).pv for y in (p, a*np.cos(g.phi), spec.jet(g, a, b, sd), spec.held(g, a, b, c))]")
    ck.eq(C, "default parameters", "init", "[x.pv for x in (bt.init.solid_body_rotation(g), bt.init.gaussian_jet(g), bt.init.held_1985(g))]",
          "[bt.State.from_wind(g, 0., y[:,None]*np.ones(g.shape), np.zeros(g.shape)).pv for y in (15*np.cos(g.phi), spec.jet(g, 20, 45, 5), spec.held(g, 25, 30, 300))]")
    ck.eq(C, "jet vanishes at the poles", "init.gaussian_jet", "j = spec.jet(g, a, b, sd)\n(j[0], j[-1])", "0., 0.")
    ck.eq(C, "profile given as list", "init.zonally_symmetric", "bt.init.zonally_symmetric(g, t, u=[p[i] for i in range(g.nlat)]).pv_spectral",
          "bt.init.zonally_symmetric(g, t, u=p).pv_spectral")
    ck.eq(C, "integer profiles", "init.zonally_symmetric",
          "[bt.init.zonally_symmetric(g, t, u=ip).pv_spectral, bt.init.zonally_symmetric(g, t, pv=ip).pv_spectral]",
          "[bt.init.zonally_symmetric(g, t, u=1.*ip).pv_spectral, bt.init.zonally_symmetric(g, t, pv=1.*ip).pv_spectral]",
          vars={"ip": C.array("ip", (C.N + 1,), "i")})
    A = "init.zonally_symmetric"
    for lab, arg, e in (("both profiles", "u=p, pv=p2", "ValueError"), ("no profile", "", "ValueError"),
                        ("wind of wrong length", "u=p[1:]", "AssertionError"), ("PV of wrong length", "pv=p[1:]", "AssertionError"),
                        ("two-dimensional wind", "u=f", "AssertionError"), ("two-dimensional PV", "pv=f", "AssertionError")):
        ck.eq(C, lab + " is rejected", A, "bt.init.zonally_symmetric(g, t, %s)" % arg, "raise " + e, may_fail=True)
    ck.eq(C, "arguments unchanged", "init", "bt.init.zonally_symmetric(g, u=p)\nbt.init.zonally_symmetric(g, pv=p)\nbt.init.gaussian_jet(g)\n"
          "bt.init.held_1985(g)\nbt.init.solid_body_rotation(g)\nbt.init.motionless(g)\n(p, g.lat, g.phi, g.fcor, g.fcor2, g.lat2)",
          "(p, g.lat, g.phi, g.fcor, g.fcor2, g.lat2)")
