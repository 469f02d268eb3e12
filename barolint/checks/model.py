"""Time integration and forcing terms."""

from . import prop
from ..values import Num, Const, Tup
from ..poly import const
from ..context import PLANET


def times(M, k):
    return int((M.uniform("fix", k) + 1) / 2 * 1e6)


def run_domain(scale=1.):
    """Time steps, end times and saving intervals that reach every branch of the integration loop."""
    return {
        "dt": lambda M: [1., .5, 2.][times(M, 1) % 3],
        "tend": lambda M: times(M, 5) % 3 + times(M, 2) % 9 - 1 + [0, .5, .25][times(M, 3) % 3],
        "save_every": lambda M: [1.5, .75, 2.5, 3.25, 1., .5, 2., 0., -1.][times(M, 4) % 9],
        "s.time": lambda M: float(times(M, 5) % 3),
        "t0": lambda M: float(times(M, 5) % 3),
    }


def setup(ck, **kw):
    C = ck.ctx()
    g = C.grid()
    C.let(g=g, s=C.state(g, "s"), s2=C.state(g, "s2"), s3=C.state(g, "s3"), bg=C.field("bg"), coeff=C.num("coeff"),
          order=C.num("order", "i"), dt=C.num("dt"), alpha=C.num("alpha"), tend=C.num("tend"),
          save_every=C.num("save_every"), ff=C.field("ff"), t1=C.num("t1"))
    C.let(rhs=C.code("lambda s: field_of(s.grid, 'rhs', s)")(C.I))
    return C


CONFIGS = [
    ("forced, background", "bt.BarotropicModel(rhs, order, coeff, bg)", "rhs, order, coeff, bg"),
    ("forced", "bt.BarotropicModel(rhs, order, coeff)", "rhs, order, coeff, None"),
    ("unforced", "bt.BarotropicModel(None, order, coeff)", "None, order, coeff, None"),
    ("keywords", "bt.BarotropicModel(rhs=rhs, diffusion_order=order, diffusion_coeff=coeff, diffusion_bg=bg)",
     "rhs, order, coeff, bg"),
    ("defaults", "bt.BarotropicModel()", "None, 2, 1.e15, None"),
]


@prop("C01")
def euler(ck):
    C = setup(ck)
    for label, m, a in CONFIGS:
        ck.eq(C, "Euler step, %s" % label, "model.BarotropicModel.euler",
              "%s.euler(s, dt)" % m, "spec.euler(%s, s, dt, dt)" % a)
    ck.eq(C, "tendency enters with the forcing of the current state", "model.BarotropicModel.euler",
          "m = bt.BarotropicModel(rhs, 1, 0.)\nm.euler(s, dt).pv_spectral",
          "s.pv_spectral + dt*(g.to_spectral(field_of(g, 'rhs', s)) - g.divergence_spectral(s.pv*s.u, s.pv*s.v))")


@prop("C02")
def leapfrog(ck):
    C = setup(ck)
    for label, m, a in CONFIGS:
        ck.eq(C, "leapfrog step, %s" % label, "model.BarotropicModel.leapfrog",
              "%s.leapfrog(s, s2, alpha)" % m,
              "d = s2.time - s.time\nspec.leapfrog(%s, s, s2, d, d, alpha)" % a)
    ck.eq(C, "default filter parameter", "model.BarotropicModel.leapfrog",
          "bt.BarotropicModel(rhs, order, coeff, bg).leapfrog(s, s2)",
          "d = s2.time - s.time\nspec.leapfrog(rhs, order, coeff, bg, s, s2, d, d, 0.2)")
    ck.eq(C, "no filtering leaves the current state unchanged", "model.BarotropicModel.leapfrog",
          "bt.BarotropicModel(rhs, order, coeff, bg).leapfrog(s, s2, 0.)[0]", "s2")


@prop("C03")
def run(ck):
    C = setup(ck)
    f = run_domain()
    m = "m = bt.BarotropicModel(rhs, order, coeff, bg)\n"
    ck.eq(C, "integration with saving", "model.BarotropicModel.run",
          m + "m.run(s, dt, tend, save_every)", m + "spec.run(m, s, dt, tend, save_every)", fixed=f)
    ck.eq(C, "integration without saving", "model.BarotropicModel.run",
          m + "m.run(s, dt, tend)", m + "spec.run_nosave(m, s, dt, tend)", fixed=f)
    ck.eq(C, "keyword arguments", "model.BarotropicModel.run",
          m + "m.run(state_init=s, dt=dt, tend=tend, save_every=save_every)",
          m + "spec.run(m, s, dt, tend, save_every)", fixed=f)
    ck.eq(C, "State shortcut", "state.State.run",
          m + "s.run(m, dt, tend, save_every=save_every)", m + "m.run(s, dt, tend, save_every)", fixed=f)
    ck.eq(C, "end time before the initial time", "model.BarotropicModel.run",
          m + "m.run(s, dt, s.time - 1., save_every)", "s, bt.StateList([s])")
    ck.eq(C, "end time at the initial time", "model.BarotropicModel.run",
          m + "m.run(s, dt, s.time, save_every)", "s, bt.StateList([s])")


@prop("C05")
def stateless(ck):
    C = setup(ck)
    f = run_domain()
    mk = "m = bt.BarotropicModel(rhs, order, coeff, bg)\n"
    for first, a in (("an Euler step", "m.euler(s3, dt)\n"), ("a leapfrog step", "m.leapfrog(s, s2)\n"),
                     ("a leapfrog step with another filter", "m.leapfrog(s, s2, alpha)\n"),
                     ("printing", "repr(m)\n"),
                     ("an Euler step with another time step", "m.euler(s, 2*dt + 1)\n")):
        for second, b in (("Euler", "m.euler(s, dt)"), ("leapfrog", "m.leapfrog(s, s2)")):
            ck.eq(C, "%s after %s" % (second, first), "model.BarotropicModel", mk + a + b, mk + b)
    for lab, x in REUSED:
        for first in ("m.euler(x, dt)\n", "m.leapfrog(x, bt.State(x.grid, x.time + dt, pv=ff))\n"):
            for second in ("m.euler(s, dt)", "m.leapfrog(s, s2)"):
                ck.eq(C, "%s after %s of %s" % (second[2:7], first[2:7], lab), "model.BarotropicModel", mk + x + first + second, mk + second, pre=PLANET)
    ck.eq(C, "Euler after a complete integration", "model.BarotropicModel",
          mk + "m.run(s3, dt, tend, save_every)\nm.euler(s, dt)", mk + "m.euler(s, dt)")
    ck.eq(C, "leapfrog after a complete integration", "model.BarotropicModel",
          mk + "m.run(s3, dt, tend, save_every)\nm.leapfrog(s, s2)", mk + "m.leapfrog(s, s2)")
    ck.eq(C, "integration repeated from the same state", "model.BarotropicModel",
          mk + "m.run(s, dt, tend, save_every)\nm.run(s, dt, tend, save_every)",
          mk + "m.run(s, dt, tend, save_every)", fixed=f)
    ck.eq(C, "two models do not interfere", "model.BarotropicModel",
          mk + "o = bt.BarotropicModel(None, 1, 5.)\no.euler(s, dt)\no.leapfrog(s, s2)\nm.euler(s, dt)", mk + "m.euler(s, dt)")
    ck.eq(C, "initial state unchanged by an integration", "model.BarotropicModel.run",
          mk + "m.run(s, dt, tend, save_every)\ns, s.u, s.v, s.pv", "s, s.u, s.v, s.pv")
    ck.eq(C, "states unchanged by a leapfrog step", "model.BarotropicModel.leapfrog",
          mk + "m.leapfrog(s, s2)\ns, s2, s2.u, s2.pv, s2.pv_spectral, bg", "s, s2, s2.u, s2.pv, s2.pv_spectral, bg")
    ck.eq(C, "configuration readable after steps", "model.BarotropicModel",
          mk + "m.euler(s, dt)\nm.leapfrog(s, s2)\nm.diffusion_order, m.diffusion_coeff", "order, coeff")
    for name, r in FORCINGS:
        two = "r = %s\nx = bt.State(g2, 7., pv_spectral=s.pv_spectral[:6])\n" % r
        ck.eq(C, "%s reused for another state" % name, "rhs",
              "r = %s\nr(s2)\nr(s)" % r, "r = %s\nr(s)" % r, vars={"lon": C.zonal("lon"), "lat": C.profile("lat"),
                                                                  "h": C.field("h")})
        for lab, x in REUSED:
            ck.eq(C, "%s after evaluation for %s" % (name, lab), "rhs", x + "r = %s\nr(x)\nr(s)" % r, "r = %s\nr(s)" % r,
                  vars={"lon": C.zonal("lon"), "lat": C.profile("lat"), "h": C.field("h")}, pre=PLANET)
        ck.eq(C, "%s reused on another grid" % name, "rhs",
              "r = %s\ng2 = bt.Grid(g.dlon, rsphere=2.*g.rsphere, omega=g.omega)\n"
              "x = bt.State(g2, s3.time, pv_spectral=s3.pv_spectral)\nr(x)\nr(s)" % r,
              "r = %s\nr(s)" % r, vars={"lon": C.zonal("lon"), "lat": C.profile("lat"), "h": C.field("h")}, pre=PLANET)


# states whose evaluation must not affect that of others
REUSED = [
    ("another state at the same time", "x = bt.State(g, s.time, pv=ff)\n"),
    ("the same fields at another time", "x = bt.State(g, s.time + t1, pv_spectral=s.pv_spectral)\n"),
    ("another planet", "x = bt.State(bt.Grid(g.dlon, 2.*g.rsphere, 3.*g.omega), s.time, pv_spectral=s.pv_spectral)\n"),
    ("a planet of another rotation", "x = bt.State(bt.Grid(g.dlon, g.rsphere, 3.*g.omega), s.time, pv_spectral=s.pv_spectral)\n"),
    ("a planet of another radius", "x = bt.State(bt.Grid(g.dlon, 2.*g.rsphere, g.omega), s.time, pv_spectral=s.pv_spectral)\n"),
    ("another truncation", "x = bt.State(bt.Grid(g.dlon, g.rsphere, g.omega, ntrunc=g.nlat - 3), s.time, pv=ff)\n"),
    ("another kind of transform", "x = bt.State(bt.Grid(g.dlon, g.rsphere, g.omega, legfunc='computed'), s.time, pv=ff)\n"),
]

FORCINGS = [
    ("relaxation", "bt.rhs.LinearRelaxation(coeff, bg)"),
    ("time switch", "bt.rhs.TimedOffSwitch(tend)"),
    ("Gaussian mountain", "bt.rhs.GaussianMountain()"),
    ("sine mountains", "bt.rhs.ZonalSineMountains()"),
    ("gridded orography", "bt.rhs.Orography(lon, lat, h)"),
    ("product and sum", "bt.rhs.TimedOffSwitch(tend)*bt.rhs.LinearRelaxation(coeff, bg) + bt.rhs.GaussianMountain()"),
]


@prop("C06")
def time_kinds(ck):
    C = setup(ck)
    g = C.env["g"]
    d = dict(d=C.delta("dt"), T=C.time("tend"), s=C.state(g, "s", C.time("t0")), s2=None)
    s2 = C.code("bt.State(g, s.time + d, pv_spectral=q)", q=C.spectral("q2"), **d)(C.I)
    d["s2"] = s2
    m = "m = bt.BarotropicModel(rhs, order, coeff, bg)\n"
    f = run_domain()
    ck.eq(C, "Euler step with dates", "model.BarotropicModel.euler",
          m + "m.euler(s, d)", "spec.euler(rhs, order, coeff, bg, s, d, d.total_seconds())", vars=d)
    ck.eq(C, "leapfrog step with dates", "model.BarotropicModel.leapfrog",
          m + "m.leapfrog(s, s2, alpha)",
          "spec.leapfrog(rhs, order, coeff, bg, s, s2, d, d.total_seconds(), alpha)", vars=d)
    ck.eq(C, "integration with dates", "model.BarotropicModel.run",
          m + "m.run(s, d, T)", m + "spec.run_nosave(m, s, d, T)", vars=d, fixed=f)
    ck.eq(C, "fields of a dated step equal those of the numeric step", "model.BarotropicModel.euler",
          "m = bt.BarotropicModel(None, order, coeff, bg)\nm.euler(s, d).pv_spectral",
          "m = bt.BarotropicModel(None, order, coeff, bg)\nx = bt.State(g, 0., pv_spectral=s.pv_spectral)\n"
          "m.euler(x, d.total_seconds()).pv_spectral", vars=d)
    ck.eq(C, "time of a dated step", "model.BarotropicModel.euler",
          "m = bt.BarotropicModel(None, order, coeff, bg)\nm.euler(s, d).time", "s.time + d", vars=d)
    # seconds may be any kind of number
    from .. import poly as P
    from ..values import Num
    P.declare_positive(P.sym("idt", "i"))
    kinds = {"integer": C.num("idt", "i"), "numpy integer": Num(P.sym("idt", "i"), "i", False), "numpy float": Num(P.sym("fdt"), "f8", False),
             "single precision": Num(P.sym("sdt"), "f4", False)}
    for lab, x in kinds.items():
        v = dict(x=x)
        ck.eq(C, "Euler step of %s seconds" % lab, "model.BarotropicModel.euler",
              m + "y = m.euler(s, x)\n(y.pv_spectral, y.time)", m + "y = m.euler(s, 1.*x)\n(y.pv_spectral, s.time + x)", vars=dict(v, s=C.state(g, "s")))
        ck.eq(C, "leapfrog step of %s seconds" % lab, "model.BarotropicModel.leapfrog",
              m + "a = bt.State(g, x, pv_spectral=s.pv_spectral)\nb = bt.State(g, x + x, pv_spectral=q)\ny = m.leapfrog(a, b, alpha)\n[z.pv_spectral for z in y]",
              m + "a = bt.State(g, 1.*x, pv_spectral=s.pv_spectral)\nb = bt.State(g, 2.*x, pv_spectral=q)\ny = m.leapfrog(a, b, alpha)\n[z.pv_spectral for z in y]",
              vars=dict(v, q=C.spectral("q2")))
    ck.eq(C, "time switch with dates", "rhs.TimedOffSwitch",
          "bt.rhs.TimedOffSwitch(T)(s)", "1 if s.time <= T else 0", vars=d)


@prop("C28")
def algebra(ck):
    C = setup(ck)
    g = C.env["g"]
    cls = ("class F(bt.rhs.RHS):\n    def __init__(self, n):\n        self.n = n\n    def __call__(self, s):\n"
           "        return field_of(s.grid, self.n, s)\n"
           "a, b, c = F('a'), F('b'), F('c')\nA, B, C = a(s), b(s), c(s)\n")
    for e in ("a + b", "a * b", "a + b + c", "(a + b) * c", "a * (b + c)", "a * b * c", "a + b * c", "a * b + b * c",
              "(a + b) * (b + c)", "a + a", "a * a", "a + b + a", "(a + a) * a", "a * a * a", "(a + b) * (a + b)"):
        ck.eq(C, "forcing %s" % e, "rhs.RHS", cls + "(%s)(s)" % e, cls + e.upper())
    # plain callables on either side
    fn = cls + "f = lambda s: field_of(s.grid, 'f', s)\nF0 = f(s)\n"
    ck.eq(C, "callable on the right of a sum", "rhs.RHS", fn + "(a + f)(s)", fn + "A + F0")
    ck.eq(C, "callable on the left of a sum", "rhs.RHS", fn + "(f + a)(s)", fn + "F0 + A")
    ck.eq(C, "callable on the right of a product", "rhs.RHS", fn + "(a * f)(s)", fn + "A * F0")
    ck.eq(C, "callable on the left of a product", "rhs.RHS", fn + "(f * a)(s)", fn + "F0 * A")
    ck.eq(C, "operands unchanged by combination", "rhs.RHS", cls + "d = a + b\ne = a * b\nd(s)\ne(s)\n(a(s), b(s), d(s))",
          cls + "(A, B, A + B)")
    ck.eq(C, "operands evaluated at the given state", "rhs.RHS", cls + "d = a + b*c\nd(s)\nd(s2)",
          cls + "a(s2) + b(s2)*c(s2)")
    ck.eq(C, "switch before, at and after the switch-off time", "rhs.TimedOffSwitch",
          "bt.rhs.TimedOffSwitch(tend)(s)", "1 if s.time <= tend else 0")
    ck.eq(C, "switch exactly at the switch-off time", "rhs.TimedOffSwitch", "bt.rhs.TimedOffSwitch(s.time)(s)", "1")
    ck.eq(C, "switched forcing", "rhs.TimedOffSwitch", cls + "(bt.rhs.TimedOffSwitch(tend) * a)(s)",
          cls + "A if s.time <= tend else np.zeros(g.shape)")
    ck.eq(C, "switch does not remember earlier evaluations", "rhs.TimedOffSwitch",
          "w = bt.rhs.TimedOffSwitch(tend)\nw(s2)\nw(s)", "1 if s.time <= tend else 0")
    ck.eq(C, "relaxation", "rhs.LinearRelaxation", "bt.rhs.LinearRelaxation(coeff, bg)(s)", "coeff * (bg - s.pv)")
    ck.eq(C, "relaxation with a mask", "rhs.LinearRelaxation", "bt.rhs.LinearRelaxation(coeff, bg, f)(s), bt.rhs.LinearRelaxation(coeff, bg, mask=f > 0)(s)",
          "coeff * (bg - s.pv), coeff * (bg - s.pv)", vars={"f": C.field("f")})
    ck.eq(C, "same operand on both sides", "rhs.RHS", cls + "d = a + b\n((d + d)(s), (d * d)(s), (d + a*d)(s))", cls + "(2*(A + B), (A + B)**2, (A + B) + A*(A + B))")
    ck.eq(C, "relaxation at the reference", "rhs.LinearRelaxation", "bt.rhs.LinearRelaxation(coeff, s.pv)(s)",
          "np.zeros(g.shape)")
    ck.eq(C, "relaxation leaves state and reference unchanged", "rhs.LinearRelaxation",
          "r = bt.rhs.LinearRelaxation(coeff, bg)\nr(s)\n(bg, s.pv, s.pv_spectral, r(s))",
          "(bg, s.pv, s.pv_spectral, coeff * (bg - s.pv))")
    ck.eq(C, "forcing of the model is the combined forcing", "model.BarotropicModel",
          cls + "bt.BarotropicModel(a*b + c, order, coeff).euler(s, dt)",
          cls + "bt.BarotropicModel(lambda s: a(s)*b(s) + c(s), order, coeff).euler(s, dt)")
    for name, e in (("sum", "a + b"), ("product", "a * b"), ("nested", "(a + b) * c")):
        ck.eq(C, "combined forcing is a forcing term (%s)" % name, "rhs.RHS",
              cls + "isinstance(%s, bt.rhs.RHS)" % e, "True")
