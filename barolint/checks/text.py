"""Text representations."""

from . import prop
from .. import poly as P
from ..values import Num, Const
from .state import setup


@prop("C36")
def text(ck):
    C = setup(ck)
    C.let(T=C.time("T"), kappa=C.num("kappa"), lo=C.num("lo"), hi=C.num("hi"), we=C.num("we"), ea=C.num("ea"), it=C.num("it", "i"))
    A = "formatting.format_time"
    F = "bt.formatting.format_time"
    ck.eq(C, "times of any length", A, F + "(t)", "spec.time_text(t)")
    ck.eq(C, "integer times", A, F + "(it)", "spec.time_text(it)")
    for v, e in ((0, "0.0 s"), (119.94, "119.9 s"), (120, "120.0 s"), (121, "2.0 min"), (150., "2.5 min"), (7200, "120.0 min"), (7230, "2.0 h"), (864000, "240.0 h"),
                 (950400, "11.0 d"), (-864001, "-864001.0 s")):
        ck.eq(C, "time %s s" % v, A, F + "(%r)" % v, "'t = %s'" % e)
    for e in ("np.float64(t)", "np.float32(t)", "np.array([t])[0]", "np.int64(it)"):
        ck.eq(C, "numpy number " + e, A, F + "(%s)" % e, "spec.time_text(%s)" % e)
    ck.eq(C, "dates", A, F + "(T)", "T.isoformat()")
    ck.eq(C, "state", "state.State.__repr__", "repr(s)", "'<barotropic.State {}>'.format(spec.time_text(s.time))")
    ck.eq(C, "state with date", "state.State.__repr__", "repr(bt.State(g, T, f))", "'<barotropic.State {}>'.format(T.isoformat())")
    ck.eq(C, "state list", "state.StateList.__repr__", "repr(bt.StateList([s, s2])), repr(bt.StateList([])), repr(bt.StateList([s, s2, s3]))",
          "'<StateList with 2 states>', '<StateList with 0 states>', '<StateList with 3 states>'")
    B = "grid.Grid.__repr__"
    ck.eq(C, "grid", B, "repr(g)", "spec.grid_text(g, g.nlat - 1)")
    ck.eq(C, "grid with truncation", B, "repr(bt.Grid(res, R, OM, ntrunc=it))",
          "spec.grid_text(g, it)", pre=P.AND(P.lt(P.ZERO, P.sym("it", "i")), P.le(P.sym("it", "i"), C.N)))
    ck.eq(C, "grid with computed Legendre functions", B, "repr(bt.Grid(res, R, OM, legfunc='computed'))", "spec.grid_text(g, g.nlat - 1, 'computed')")
    M = "model.BarotropicModel.__repr__"
    body = "'<barotropic.BarotropicModel> integrating\\n    ∂q/∂t = -∇(u·q) - κ∇%sq + RHS \\n    where κ   = {:.5e} m%ss⁻¹\\n    and   RHS = {}'.format(kappa, repr(%s))"
    for o, e in ((1, "²"), (2, "⁴"), (3, "⁶"), (4, "⁸"), (5, "¹⁰"), (6, "¹²"), (8, "¹⁶"), (60, "¹²⁰"), (192, "³⁸⁴"), (35, "⁷⁰")):
        ck.eq(C, "model with diffusion order %d" % o, M, "repr(bt.BarotropicModel(None, %d, kappa))" % o, (body % (e, e, "None")))
    ck.eq(C, "model with forcing", M, "r = lambda s: s.pv\nrepr(bt.BarotropicModel(r, 2, kappa))", "r = lambda s: s.pv\n" + (body % ("⁴", "⁴", "r")))
    R_ = "rhs"
    ck.eq(C, "sum of forcing terms", "rhs.RHS", "a = bt.rhs.LinearRelaxation(t, f)\nb = bt.rhs.TimedOffSwitch(x)\nrepr(a + b), repr(a * b), repr((a + b)*a)",
          "a = bt.rhs.LinearRelaxation(t, f)\nb = bt.rhs.TimedOffSwitch(x)\np, q = repr(a), repr(b)\n"
          "'({} + {})'.format(p, q), '({} * {})'.format(p, q), '(({} + {}) * {})'.format(p, q, p)")
    G = "grid.GridRegion.__repr__"
    pre = P.AND(P.le(P.const(0), P.sym("we")), P.lt(P.sym("ea"), P.const(360)))
    for sel, how in ((":,:", None), (":,'N'", None), (":,'S'", None), ("we:ea,lo:hi", pre), ("x:y,:", None), (":,lo:hi", None), ("we:,:hi", None), (":ea,lo:", None),
                     ("350:20,:", None), ("0,:", None), ("180,90", None), (":,33:33.001", None), ("0:0,0:0", None), ("340:350,-90:-80", None), ("30:20,-10:10", None)):
        ck.eq(C, "region [%s]" % sel, G, "r = g.region[%s]\nrepr(r)" % sel, "r = g.region[%s]\nspec.region_text(r, g, g.nlat - 1)" % sel, pre=how if how is not None else P.ONE)
    ck.eq(C, "objects unchanged", G, "r = g.region[300:50,'N']\nrepr(r)\nrepr(g)\nrepr(s)\nm = bt.BarotropicModel(None, order, kappa)\nrepr(m)\n"
          "(r.lat, r.lon, r.shape, g.lat, g.lon, g.shape, s.time, m.diffusion_order, m.diffusion_coeff, m.rhs)",
          "r = g.region[300:50,'N']\n(r.lat, r.lon, r.shape, g.lat, g.lon, g.shape, s.time, order, kappa, None)")
