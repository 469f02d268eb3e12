"""Figures (matplotlib is represented by an interface model that keeps the plotted data)."""

from . import prop
from .. import poly as P
from ..poly import topoly, atom
from ..values import Num, Tup
from .state import opaque, with_stubs

MPL = (("matplotlib", "stubs/mpl.py"), ("matplotlib.pyplot", "stubs/mpl_pyplot.py"), ("matplotlib.ticker", "stubs/mpl_ticker.py"))


def plot_setup(ck):
    return with_stubs(ck, MPL)


@prop("C33")
def helpers(ck):
    C = plot_setup(ck)
    C.let(c=C.num("c"), ny=C.num("ny", "i"), n=C.num("n", "i"), e=C.num("e"), off=C.num("off"))
    A = "plot.roll_lon"
    ck.eq(C, "fields are shifted by whole gridpoints", A, "roll, conf = bt.plot.roll_lon(g.lon, c)\nroll(f)", "spec.shifted(g, c)[0](f)")
    ck.eq(C, "labels match the shift", A,
          "import matplotlib.pyplot as plt\nroll, conf = bt.plot.roll_lon(g.lon, c)\nfig, ax = plt.subplots()\nconf(ax)\n(ax.xticks, ax.xticklabels)",
          "roll, ticks, labels = spec.shifted(g, c)\n(ticks, labels)")
    ck.eq(C, "default center", A, "roll, conf = bt.plot.roll_lon(g.lon)\nroll(f)", "f")
    for lab, k in (("180", "180"), ("0", "0"), ("360", "0"), ("-90", "270"), ("540", "180")):
        ck.eq(C, "center %s" % lab, A, "bt.plot.roll_lon(g.lon, %s)[0](f)" % lab, "spec.shifted(g, %s)[0](f)" % k)
    B = "plot.configure_lon_x"
    ck.eq(C, "labels without offset", B, "import matplotlib.pyplot as plt\nfig, ax = plt.subplots()\nbt.plot.configure_lon_x(ax)\n(ax.xticks, ax.xticklabels)",
          "t = np.arange(0, 360, 30)\nt, ['{:.0f}°'.format(x % 360) for x in t]")
    ck.eq(C, "labels with offset", B, "import matplotlib.pyplot as plt\nfig, ax = plt.subplots()\nbt.plot.configure_lon_x(ax, offset=off)\n(ax.xticks, ax.xticklabels)",
          "t = np.arange(0, 360, 30)\nt, ['{:.0f}°'.format((x - off) % 360) for x in t]")
    for h in ("'N'", "'S'", "'both'", "None"):
        ck.eq(C, "latitude range %s" % h, "plot.configure_lat_y", "import matplotlib.pyplot as plt\nfig, ax = plt.subplots()\nbt.plot.configure_lat_y(ax, %s)\nax.ylim, ax.yaxis.formatter.fmt" % h,
              "spec.extent(%s), '{x:.0f}°'" % h)
    D = "plot.reduce_vectors"
    v = {"xx": C.array("xx", (P.sym("A", "i"), P.sym("B", "i"))), "yy": C.array("yy", (P.sym("A", "i"), P.sym("B", "i"))),
         "uu": C.array("uu", (P.sym("A", "i"), P.sym("B", "i"))), "vv": C.array("vv", (P.sym("A", "i"), P.sym("B", "i")))}
    for z in ("A", "B"):
        P.declare_positive(P.sym(z, "i"))
    pos = P.lt(P.ZERO, P.sym("ny", "i"))
    ck.eq(C, "vectors are thinned with their coordinates", D, "bt.plot.reduce_vectors(xx, yy, uu, vv, ny)",
          "d = max(yy.shape[0]//ny, 1)\nz = slice(d//2, None, d)\nxx[z,z], yy[z,z], uu[z,z], vv[z,z]", vars=v, pre=pos)
    E = "plot.symmetric_levels"
    ck.eq(C, "symmetric levels", E, "bt.plot.symmetric_levels(f, n)", "spec.symmetric(f, n)", pre=P.lt(P.ONE, P.sym("n", "i")))
    ck.eq(C, "symmetric levels, default number", E, "bt.plot.symmetric_levels(f)", "spec.symmetric(f, 10)")
    ck.eq(C, "symmetric levels, fixed extent", E, "bt.plot.symmetric_levels(f, n, e)", "spec.symmetric(f, n, e)", pre=P.lt(P.ONE, P.sym("n", "i")))
    H = "plot.hovmoellerify"
    w = {"st": C.states(C.env["g"], "st", P.sym("J", "i")) if hasattr(C, "states") else None}
    if w["st"] is None:
        w = {}
        st = "st = [s, s2, s3]\n"
    else:
        P.declare_positive(P.sym("J", "i"))
        st = ""
    ck.eq(C, "zonal profiles: time on the y-axis", H, st + "bt.plot.hovmoellerify(st, lambda x: x.pv.mean(axis=0))",
          st + "g.lon, np.array([x.time for x in st]), np.array([x.pv.mean(axis=0) for x in st])", vars=w)
    ck.eq(C, "meridional profiles: time on the x-axis", H, st + "bt.plot.hovmoellerify(st, lambda x: x.pv.mean(axis=1))",
          st + "np.array([x.time for x in st]), g.lat, np.array([x.pv.mean(axis=1) for x in st]).T", vars=w)
    ck.eq(C, "zonal profiles of a state list", H, "bt.plot.hovmoellerify(bt.StateList([s, s2, s3]), lambda x: x.v[5])",
          "g.lon, np.array([s.time, s2.time, s3.time]), np.array([s.v[5], s2.v[5], s3.v[5]])")
    ck.eq(C, "other profiles are rejected", H, "bt.plot.hovmoellerify([s, s2], lambda x: x.pv[1:, 0])", "raise ValueError", may_fail=True)
    ck.eq(C, "no states", H, "bt.plot.hovmoellerify([], lambda x: x.pv)", "raise ValueError", may_fail=True)


@prop("C33")
def presets(ck):
    C = plot_setup(ck)
    opaque(C, "falwa", "fawa", "zonalize_eqlat", "envelope_hilbert", "dominant_wavenumber_wavelet", "filter_by_wavenumber", "stationary_wavenumber")
    C.let(c=C.num("c"), pm=C.num("pm"), vm=C.num("vm"))
    F = "\nspec.seen(fig)"
    for h in ("both", "N", "S"):
        ck.eq(C, "summary, %s" % h, "plot.summary", "fig = bt.plot.summary(s, hemisphere=%r, center_lon=c)" % h + F, "spec.summary(s, %r, c, None, None)" % h)
        ck.eq(C, "wave activity, %s" % h, "plot.wave_activity", "fig = bt.plot.wave_activity(s, hemisphere=%r, center_lon=c)" % h + F, "spec.wave_activity(s, %r, c)" % h)
        ck.eq(C, "wave packets, %s" % h, "plot.rwp_diagnostics", "fig = bt.plot.rwp_diagnostics(s, hemisphere=%r, center_lon=c)" % h + F,
              "spec.rwp(s, bt.diagnostics, %r, c, None, None)" % h)
    ck.eq(C, "summary, defaults", "plot.summary", "fig = bt.plot.summary(s)" + F, "spec.summary(s, 'both', 180, None, None)")
    for lab, zu, zv in (("meridional", "", "0*"), ("zonal", "0*", ""), ("any", "0*", "0*")):
        like = "class X:\n    pass\nx = X()\nx.grid, x.time, x.pv, x.vorticity, x.streamfunction, x.u, x.v = g, t, f, f2, f - f2, %su, %sv\n" % (zu, zv)
        ck.eq(C, "summary without %s wind" % lab, "plot.summary", like + "fig = bt.plot.summary(x)" + F, like + "spec.summary(x, 'both', 180, None, None)")
    ck.eq(C, "summary, given ranges", "plot.summary", "fig = bt.plot.summary(s, (5, 5), 'both', 180, 'viridis', pm, vm)" + F, "spec.summary(s, 'both', 180, pm, vm)")
    ck.eq(C, "wave activity, defaults", "plot.wave_activity", "fig = bt.plot.wave_activity(s)" + F, "spec.wave_activity(s, 'both', 180)")
    ck.eq(C, "wave packets, defaults", "plot.rwp_diagnostics", "fig = bt.plot.rwp_diagnostics(s)" + F, "spec.rwp(s, bt.diagnostics, 'both', 180, None, None)")
    ck.eq(C, "wave packets, given ranges", "plot.rwp_diagnostics", "fig = bt.plot.rwp_diagnostics(s, v_max=vm, rwp_max=pm)" + F,
          "spec.rwp(s, bt.diagnostics, 'both', 180, vm, pm)")


@prop("C33")
def guides(ck):
    C = plot_setup(ck)
    opaque(C, "stationary_wavenumber")

    def bounds(I, func, args, kwargs):
        v = I.bind_args(func, args, kwargs)
        k = v["k"].p
        return I.new_list([Tup([Num(topoly(atom("guide", P.const(2*i + j), k)), "f8") for j in (0, 1)]) for i in (0, 1)])
    C.I.overrides["barotropic.diagnostics:extract_ks_waveguides"] = bounds
    C.let(k1=C.num("k1", "i"), k2=C.num("k2"), a=C.num("a"), b=C.num("b"))
    A = "plot.waveguides"
    F = "\nspec.guides_seen(fig)"
    w = "bt.diagnostics.extract_ks_waveguides(s.stationary_wavenumber, %s, grid=g)"
    for h in ("both", "N", "S"):
        ck.eq(C, "no waveguides, %s" % h, A, "fig = bt.plot.waveguides(s, hemisphere=%r)" % h + F, "spec.waveguide_panels(s, [], %r)" % h)
    ck.eq(C, "waveguides of a wavenumber", A, "fig = bt.plot.waveguides(s, k1)" + F, "spec.waveguide_panels(s, [(k1, %s)], 'both')" % (w % "k1"))
    for o, e in (("[%s]", ""), ("(%s)", ""), ("np.array([%s])", "float")):
        ck.eq(C, "waveguides of several wavenumbers, " + o % "...", A, "fig = bt.plot.waveguides(s, %s, legend_loc='best')" % (o % "k1, k2") + F,
              "spec.waveguide_panels(s, [(%s(k1), %s), (k2, %s)], 'both')" % (e, w % "k1", w % "k2"))
    ck.eq(C, "limits of the wavenumber axis", A, "fig = bt.plot.waveguides(s, klim_bounds=(a, b))\nx = fig.axes[1]\nx.xlim",
          "import matplotlib.pyplot as plt\nfig, ax = plt.subplots()\nl, r = ax.get_xlim()\n(max(a, l), min(b, r))")


@prop("C33")
def plotter(ck):
    C = plot_setup(ck)
    C.let(c=C.num("c"))
    I = C.I

    def note(I, func, args, kwargs):
        # the list given as figure size (selected wavenumbers) records the call
        v = I.bind_args(func, args, kwargs)
        where = "figsize" if "figsize" in v else "k_waveguides"
        I.call(I.getattr(v[where], "append"), [Tup([v[n] for n in sorted(v) if n != where])], {})
        return v[where]
    for n in ("summary", "wave_activity", "rwp_diagnostics", "waveguides"):
        I.overrides["barotropic.plot:" + n] = note
    for n, key, kw in (("summary", "figsize", "'N', c, pv_cmap='a', pv_max=c, v_max=2*c"), ("wave_activity", "figsize", "'S', center_lon=c, falwa_cmap='x'"),
                       ("rwp_diagnostics", "figsize", "'N', c, v_max=c, rwp_max=2*c"), ("waveguides", "k_waveguides", "'S', (1, 2), legend_loc='best'")):
        code = "l = []\n%s(%s%s=l, hemisphere='N')\nl"
        ck.eq(C, "plotter: " + n, "state.StatePlotter", code % ("s.plot." + n, "", key), code % ("bt.plot." + n, "s, ", key))
        ck.eq(C, "plotter with arguments: " + n, "state.StatePlotter", "l = []\ns.plot.%s(l, %s)\nl" % (n, kw), "l = []\nbt.plot.%s(s, l, %s)\nl" % (n, kw))
