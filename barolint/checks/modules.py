"""Imports."""

import os
import sys

from . import prop
from .. import poly as P
from ..poly import ONE
from ..check import Run
from ..context import REPO
from ..names import Program
from .io import XR
from .plot import MPL
from .state import opaque, with_stubs

REQUIRED = {"numpy", "scipy", "spharm", "barotropic", "spec", "abcmix", "obligation"}


class Others:
    """Every package that is neither required nor in the standard library, with exceptions."""

    def __init__(self, *present):
        self.present = REQUIRED | set(present)

    def __contains__(self, name):
        top = name.split(".")[0]
        return not (top in self.present or top in sys.stdlib_module_names)


@prop("C34")
def imports(ck):
    C = with_stubs(ck, missing=Others())
    I = C.I
    ok = "no path through the module's import statements raises when only the required packages exist"
    for name in sorted(I.loaded):
        if name == "barotropic" or name.startswith("barotropic."):
            pc = I.loaded[name]
            ck.holds(C, "import of %s without optional packages" % name, None, pc is ONE if pc is ONE or not pc.terms else None, ok,
                     "import fails" if not pc.terms else "", where=I.modules[name].path.split("/src/")[-1])
    run(ck, C, "without optional packages", None)


FEATURES = (
    ("grid.Grid", "(bt.Grid(res, R, OM).lat, g.vorticity(u, v), g.derivative_meridional(f), g.region[10:50,'N'].mean(f), repr(g))"),
    ("grid.Grid.zonalize", "g.zonalize(f, interpolate=False)"),
    ("grid.Grid.filter_zonal", "(g.filter_zonal(f, 'hann', x), g.filter_meridional(f, 'boxcar', x))"),
    ("state.State", "(s.u, s.vorticity, s.pv_flux_spectral, s.streamfunction, repr(s), s.enstrophy)"),
    ("state.State", "(s.fawa, s.falwa, s.v_envelope_hilbert, s.stationary_wavenumber, s.pv_zonalized)"),
    ("state.StateList", "x = bt.StateList([s, s2])\n(x.pv, x.add_wind((u, v)), x[1:], repr(x))"),
    ("state.State.from_hn2016", "b = lambda: None\nb.nlon, b.nlat, b.pv_field, b.dphi = g.nlon, g.nlat, f, np.full(g.nlat - 1, res*np.pi/180)\n"
                                "bt.State.from_hn2016(g, t, b).pv_spectral"),
    ("model.BarotropicModel", "repr(bt.BarotropicModel(bt.rhs.TimedOffSwitch(x), order, coeff))"),
    ("model.BarotropicModel.run", "bt.BarotropicModel(None, 1, coeff).run(s, 1., s.time)"),
    ("init.motionless", "bt.init.solid_body_rotation(g).pv, bt.init.motionless(g).pv, bt.init.gaussian_jet(g).pv, bt.init.held_1985(g).pv"),
    ("rhs.LinearRelaxation", "bt.rhs.LinearRelaxation(t, f)(s), bt.rhs.GaussianMountain()(s)"),
    ("plot.reduce_vectors", "bt.plot.reduce_vectors(g.lon2, g.lat2, f, f, 10)"),
    ("plot.hovmoellerify", "bt.plot.hovmoellerify([s, s2], lambda x: x.pv.mean(axis=1))"),
    ("plot.roll_lon", "bt.plot.roll_lon(g.lon, x)[0](f)"),
    ("plot.symmetric_levels", "bt.plot.symmetric_levels(f)"),
    ("formatting.format_time", "bt.formatting.format_time(t)"),
)


def run(ck, C, lab, only):
    opaque(C, "falwa", "fawa", "envelope_hilbert", "stationary_wavenumber")
    rule = "no path of the feature reaches the import of a package that is not installed"
    for anchor, code in FEATURES:
        feature(ck, C, "%s %s" % (anchor, lab), anchor, code, rule)


def feature(ck, C, label, anchor, code, rule):
    def f():
        r = Run(C, C.code(code))
        ck.note_run(r)
        bad = [x for x in r.raises if x.exc in ("ImportError", "ModuleNotFoundError", "NameError", "AttributeError")]
        return ck.holds(C, label, anchor, not bad, rule, "; ".join(sorted({"%s: %s at %s" % (x.exc, x.msg, x.loc) for x in bad})))
    ck.guarded(label, f)


@prop("C34")
def one_at_a_time(ck):
    rule = "no path of the feature reaches the import of a package that it is not documented to need"
    C = with_stubs(ck, MPL, Others("matplotlib"))
    opaque(C, "falwa", "fawa", "zonalize_eqlat", "envelope_hilbert", "stationary_wavenumber", "extract_ks_waveguides")
    for n in ("summary", "wave_activity", "waveguides"):
        feature(ck, C, "plot.%s with matplotlib only" % n, "plot." + n, "bt.plot.%s(s)" % n, rule)
    C = with_stubs(ck, MPL + (("pywt", "stubs/pywt.py"),), Others("matplotlib", "pywt"))
    opaque(C, "falwa", "filter_by_wavenumber", "envelope_hilbert")
    feature(ck, C, "plot.rwp_diagnostics with matplotlib and PyWavelets only", "plot.rwp_diagnostics", "bt.plot.rwp_diagnostics(s)", rule)
    C = with_stubs(ck, (("pywt", "stubs/pywt.py"),), Others("pywt"))
    feature(ck, C, "dominant_wavenumber_wavelet with PyWavelets only", "diagnostics.dominant_wavenumber_wavelet",
            "bt.diagnostics.dominant_wavenumber_wavelet(f, g)", rule)
    C = with_stubs(ck, XR, Others("xarray"))
    opaque(C, "falwa", "fawa", "envelope_hilbert")
    feature(ck, C, "as_dataset with xarray only", "io.as_dataset", "bt.io.as_dataset([s, s2])", rule)
    feature(ck, C, "from_dataset with xarray only", "io.from_dataset",
            "import xarray as xr\nds = xr.Dataset({'pv': (('latitude', 'longitude'), f)}, {'latitude': g.lat, 'longitude': g.lon})\nbt.io.from_dataset(ds)", rule)
    C = with_stubs(ck, (("falwa", "stubs/falwa_pkg.py"), ("falwa.barotropic_field", "stubs/falwa.py")), Others("falwa"))
    feature(ck, C, "exchange with falwa only", "state.State.as_hn2016", "bt.State.from_hn2016(g, t, s.as_hn2016())", rule)


@prop("C35")
def names(ck):
    prog = Program(os.path.join(REPO, "src"), "barotropic")
    prog.run()
    rule = "every name is bound, every import and attribute exists, every call fits the signature of the function it resolves to"
    for m in prog.modules.values():
        bad = [p for p in prog.problems if p[0].startswith(m.rel + ":")]
        ck.holds(None, m.name, None, not bad, rule, "; ".join("%s: %s" % p for p in bad), where=m.rel)
        ck.functions |= {"%s:%s" % (m.name, s.node.name) for s in m.scopes.values() if s.kind == "function"}
    ck.sites += sum(prog.checked.values())
    ck.holds(None, "analysed %(names)d uses of names, %(attributes)d attributes, %(calls)d calls, %(imports)d imports" % prog.checked,
             None, True if prog.modules else None, "extent of the analysis", where="src/barotropic")
