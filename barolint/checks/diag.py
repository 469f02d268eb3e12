"""Diagnostics."""

from . import prop
from ..values import Num, Const, Tup
from .. import arrays, npmodels, poly as P
from ..context import linop2
from .state import setup, with_stubs


@prop("C23")
def falwa(ck):
    C = setup(ck)
    A, B = "diagnostics.falwa", "diagnostics.fawa"
    v = {"q": C.array("q", (P.sym("K", "i"),))}
    P.declare_positive(P.sym("K", "i"))
    D = "bt.diagnostics."
    for m in ("sptrapz", "boxcount"):
        ck.eq(C, "FALWA on equivalent latitudes, %s" % m, A, D + "falwa(f, g, q, interpolate=False, quad='%s')" % m,
              "spec.falwa_levels(g, f, q, '%s')" % m, vars=v)
        ck.eq(C, "FALWA, %s" % m, A, D + "falwa(f, g, q, quad='%s')" % m, "spec.falwa(g, f, q, '%s')" % m, vars=v)
        ck.eq(C, "FALWA of a state, %s" % m, A, D + "falwa(s, None, q, True, '%s')" % m, "spec.falwa(g, s.pv, q, '%s')" % m, vars=v)
        ck.eq(C, "FAWA on equivalent latitudes, %s" % m, B, D + "fawa(f, g, q, interpolate=False, quad='%s')" % m,
              "a, y = spec.falwa_levels(g, f, q, '%s')\n(a.mean(axis=1), y)" % m, vars=v)
        ck.eq(C, "FAWA, %s" % m, B, D + "fawa(f, g, q, quad='%s')" % m,
              "a, y = spec.falwa_levels(g, f, q, '%s')\nspec.interpolator(g, a.mean(axis=1), y, (0., 0.), 'linear')(g.lat)" % m, vars=v)
    ck.eq(C, "default levels and method", A, D + "falwa(f, g)", D + "falwa(f, g, None, True, 'sptrapz')")
    ck.eq(C, "FAWA, default levels and method", B, D + "fawa(f, g)", D + "fawa(f, g, None, True, 'sptrapz')")
    ck.eq(C, "arguments unchanged", A, D + "falwa(f, g, q, interpolate=False)\n" + D + "fawa(f, g, q, quad='boxcount')\n(f, q, g.lat, g.lat2)",
          "(f, q, g.lat, g.lat2)", vars=v)


def linear_gradient(C):
    """Grid.derivative_meridional as an unknown linear operator (C17 decides its definition)."""
    def summary(I, func, args, kwargs):
        v = I.bind_args(func, args, kwargs)
        if v is None:
            return Const(None)
        names = [a for a in v if a != "self"]
        f, order = v[names[0]], v[names[1]]
        c = arrays.read(I, npmodels.to_array(I, f))
        out = Tup([Num(n, "i") for n in c.sizes])
        return linop2(I, Const("gradient"), f, out, Const("f8"), order)
    C.I.overrides["barotropic.grid:derivative_meridional"] = summary
    C.I.overrides["barotropic.grid:Grid.derivative_meridional"] = summary


@prop("C24")
def stationary(ck):
    C = setup(ck)
    linear_gradient(C)
    A = "diagnostics.stationary_wavenumber"
    D = "bt.diagnostics.stationary_wavenumber"
    v = {"m": C.num("m", positive=True)}
    base = "U, Q = s.u.mean(axis=1), s.pv.mean(axis=1)\nk2 = spec.ks_squared(g, U, Q, %s, %s)\n"
    for o in (2, 4):
        ck.eq(C, "squared, order %d" % o, A, D + "(s, None, %d, m, 'squared')" % o, base % (o, "m") + "k2", vars=v)
        ck.eq(C, "complex, order %d" % o, A, D + "(s, order=%d, min_u=m)" % o, base % (o, "m") + "np.sqrt(k2.astype(complex))", vars=v)
        ck.eq(C, "real, order %d" % o, A, D + "(s, order=%d, min_u=m, kind='real')" % o,
              base % (o, "m") + "np.real(np.sqrt(k2.astype(complex))) - np.imag(np.sqrt(k2.astype(complex)))", vars=v)
        w = "Q = g.fcor - g.derivative_meridional(%s*np.cos(g.phi), order={0})/(R*np.cos(g.phi))\nspec.ks_squared(g, %s, Q, {0}, m)".format(o)
        ck.eq(C, "from a wind profile, order %d" % o, A, D + "(p, g, %d, m, 'squared')" % o, w % ("p", "p"), vars=v)
        ck.eq(C, "from a wind field, order %d" % o, A, D + "(f, g, %d, m, 'squared')" % o, "U = f.mean(axis=1)\n" + w % ("U", "U"), vars=v)
    ck.eq(C, "defaults", A, D + "(s)", D + "(s, None, 4, 0.001, 'complex')")
    ck.eq(C, "never NaN", A, "k2 = " + D + "(s, None, 2, m, 'squared')\nnp.any(np.isnan(k2))", "False", vars=v)
    ck.eq(C, "arguments unchanged", A, D + "(p, g)\n" + D + "(f, g, kind='real')\n" + D + "(s, kind='squared')\n(p, f, s.u, s.pv, g.phi, g.fcor)",
          "(p, f, s.u, s.pv, g.phi, g.fcor)")
    ck.eq(C, "unknown kinds are rejected", A, D + "(s, kind='abs')", "raise ValueError", may_fail=True)


@prop("C25")
def waveguides(ck):
    C = setup(ck)
    A = "diagnostics.extract_ks_waveguides"
    D = "bt.diagnostics.extract_ks_waveguides"
    v = {"ks": C.array("ks", (C.N + 1,), "c16")}
    ck.eq(C, "profile", A, D + "(ks, k, g)", "spec.waveguides(g, ks, k)", vars=v)
    ck.eq(C, "complex wavenumber", A, D + "(ks, x + 1j*y, g), " + D + "(p, 1j*y, g)", "spec.waveguides(g, ks, x - y), spec.waveguides(g, p, -y)", vars=v)
    ck.eq(C, "wavenumber from a profile", A, D + "(ks, ks[1], g)", "spec.waveguides(g, ks, np.real(ks[1]) - np.imag(ks[1]))", vars=v)
    ck.eq(C, "real profile", A, D + "(p, k, g)", "spec.waveguides(g, p, k)", vars=v)
    ck.eq(C, "profile with infinities", A, D + "(np.where(p2 > 0, np.where(p2 > 1, np.inf, p), -np.inf), k, grid=g)",
          "spec.waveguides(g, np.where(p2 > 0, np.where(p2 > 1, np.inf, p), -np.inf), k)")
    ck.eq(C, "profile unchanged", A, D + "(ks, k, g)\n(ks, g.lat)", "(ks, g.lat)", vars=v)
    ck.eq(C, "one waveguide from pole to pole", A, D + "(np.full(g.nlat, x + 1), x, g)", "[(90., -90.)]")
    ck.eq(C, "no waveguide", A, D + "(np.full(g.nlat, x - 1), x, g)", "[]")


@prop("C26")
def fourier(ck):
    C = setup(ck)
    D = "bt.diagnostics."
    v = {"a": C.num("a", "i"), "b": C.num("b", "i"), "h": C.array("h", (P.sym("L", "i"), P.sym("M", "i")))}
    for q in ("L", "M"):
        P.declare_positive(P.sym(q, "i"))
    pre = P.AND(P.le(P.ZERO, P.sym("a", "i")), P.AND(P.le(P.sym("a", "i"), P.sym("b", "i")), P.le(P.sym("b", "i"), C.N)))
    A = "diagnostics.dominant_wavenumber_fourier"
    ck.eq(C, "dominant wavenumber", A, D + "dominant_wavenumber_fourier(f, g, None, (a, b))", "spec.dominant(f, a, b)", vars=v, pre=pre)
    ck.eq(C, "dominant wavenumber, default range", A, D + "dominant_wavenumber_fourier(f, g, smooth=None)", "spec.dominant(f, 1, 20)")
    ck.eq(C, "smoothed dominant wavenumber", A, D + "dominant_wavenumber_fourier(f, g, ('hann', x), (a, b))",
          "g.filter_meridional(spec.dominant(f, a, b), 'hann', x)", vars=v, pre=pre)
    ck.eq(C, "dominant wavenumber, defaults", A, D + "dominant_wavenumber_fourier(f, g)",
          "g.filter_meridional(spec.dominant(f, 1, 20), 'boxcar', 10)")
    ck.eq(C, "wavenumber range needs two limits", A, D + "dominant_wavenumber_fourier(f, g, None, (1, 2, 3))", "raise AssertionError", may_fail=True)
    B = "diagnostics.envelope_hilbert"
    ck.eq(C, "envelope", B, D + "envelope_hilbert(f, (a, b))", "spec.envelope(f, a, b)", vars=v, pre=pre)
    ck.eq(C, "envelope, default range", B, D + "envelope_hilbert(f)", "spec.envelope(f, 2, 10)")
    ck.eq(C, "envelope for any number of longitudes", B, D + "envelope_hilbert(h, wavenumber_range=(a, b))", "spec.envelope(h, a, b)", vars=v,
          pre=P.AND(P.le(P.ZERO, P.sym("a", "i")), P.le(P.sym("a", "i"), P.sym("b", "i"))))
    ck.eq(C, "envelope of 37 longitudes", B, D + "envelope_hilbert(h)", "spec.envelope(h, 2, 10)", vars={"h": C.array("h37", (P.const(19), P.const(37)))})
    ck.eq(C, "envelope has the longitudes of the field", B, D + "envelope_hilbert(h).shape", "h.shape", vars=v)
    ck.eq(C, "envelope needs two limits", B, D + "envelope_hilbert(f, (2,))", "raise AssertionError", may_fail=True)
    ck.eq(C, "fields unchanged", B, D + "envelope_hilbert(f)\n" + D + "dominant_wavenumber_fourier(f, g)\nf", "f")


@prop("C26")
def wavelet(ck):
    C = with_stubs(ck, (("pywt", "stubs/pywt.py"),))
    A = "diagnostics.dominant_wavenumber_wavelet"
    D = "bt.diagnostics.dominant_wavenumber_wavelet"
    I = "import pywt\n"
    ck.eq(C, "wavelet-based dominant wavenumber", A, D + "(f, g, None)", I + "spec.wavelet(f, pywt)")
    ck.eq(C, "smoothed wavelet-based dominant wavenumber", A, D + "(f, g, smooth=('hann', x, y))",
          I + "g.filter_zonal(g.filter_meridional(spec.wavelet(f, pywt), 'hann', y), 'hann', x)")
    ck.eq(C, "wavelet-based dominant wavenumber, default smoothing", A, D + "(f, g)", D + "(f, g, ('hann', 40, 10))")


@prop("C27")
def hann(ck):
    C = setup(ck)
    A = "diagnostics.filter_by_wavenumber"
    D = "bt.diagnostics.filter_by_wavenumber"
    ck.eq(C, "wavenumber field", A, D + "(f, f2)", "spec.hann_smooth(f, f2)")
    ck.eq(C, "wavenumber profile", A, D + "(f, p)", "spec.hann_smooth(f, p[:,None]*np.ones(g.shape))")
    vi = {"fi": C.array("fi", (C.N + 1, P.pscale(C.N, 2)), "i")}
    ck.eq(C, "field of integers", A, D + "(fi, f2)", D + "(1.*fi, f2)", vars=vi)
    ck.eq(C, "wavenumbers of integers", A, D + "(f, fi)", D + "(f, 1.*fi)", vars=vi)
    ck.eq(C, "profile of wrong length is rejected", A, D + "(f, p[1:])", "raise AssertionError", may_fail=True)
    ck.eq(C, "arguments unchanged", A, D + "(f, f2)\n" + D + "(f, p)\n(f, f2, p)", "(f, f2, p)")
