"""Arguments are never written to."""

from . import prop
from .. import poly as P
from ..values import Tup
from .io import XR
from .plot import MPL
from .model import FORCINGS
from .state import opaque, with_stubs

# (public function, calls that involve every array argument it takes)
GRID = (
    ("grid.Grid.to_spectral", "g.to_spectral(f)"),
    ("grid.Grid.to_grid", "g.to_grid(sp)"),
    ("grid.Grid.wind", "g.wind(f, f2)\ng.wind(sp, sp2)\ng.wind(f, sp)\ng.wind(sp, f)"),
    ("grid.Grid.vorticity", "g.vorticity(u, v)"),
    ("grid.Grid.vorticity_spectral", "g.vorticity_spectral(u, v)"),
    ("grid.Grid.divergence", "g.divergence(u, v)"),
    ("grid.Grid.divergence_spectral", "g.divergence_spectral(u, v)"),
    ("grid.Grid.vorticity_divergence", "g.vorticity_divergence(u, v)"),
    ("grid.Grid.vorticity_divergence_spectral", "g.vorticity_divergence_spectral(u, v)"),
    ("grid.Grid.gradient", "g.gradient(f)"),
    ("grid.Grid.derivative_meridional", "g.derivative_meridional(f)\ng.derivative_meridional(f, order=2)\ng.derivative_meridional(p)\n"
                                        "g.derivative_meridional(p, order=2)\ng.derivative_meridional(g.fcor)\ng.derivative_meridional(g.phi)"),
    ("grid.Grid.laplace", "g.laplace(f)\ng.laplace_spectral(sp)"),
    ("grid.Grid.solve_poisson", "g.solve_poisson(f)\ng.solve_poisson(f, x)\ng.solve_poisson_spectral(sp)\ng.solve_poisson_spectral(sp, x)"),
    ("grid.Grid.solve_diffusion", "g.solve_diffusion(f, coeff, dt)\ng.solve_diffusion(f, coeff, dt, 2)\n"
                                  "g.solve_diffusion_spectral(sp, coeff, dt)\ng.solve_diffusion_spectral(sp, coeff, dt, order)"),
    ("grid.Grid.coriolis", "g.coriolis(p)\ng.circumference(p)\ng.coriolis(g.lat)\ng.circumference(g.lat)"),
    ("grid.Grid.gridpoint_area", "g.gridpoint_area\ng.mean(f)\ng.gridpoint_area"),
    ("grid.Grid.mean", "g.mean(f)\ng.mean(f, axis='meridional')\ng.mean(f, axis='zonal')\ng.mean(f, axis=0)\ng.mean(f, axis=-1)"),
    ("grid.Grid.mean", "g.mean(f, region=g.region[300:50,'N'])\nr = g.region[300:50,'N']\ng.mean(f, axis=0, region=r)\ng.mean(r.extract(f), region=r)"),
    ("grid.Grid.quad", "g.quad(f)\ng.quad(f, f2)\ng.quad(f, f2, 'boxcount')\ng.quad(f, z=g.lat2)"),
    ("grid.Grid.quad_meridional", "g.quad_meridional(f)\ng.quad_meridional(f, f2)\ng.quad_meridional(p[:,None], p2[:,None])\ng.quad_meridional(p[:,None], p2[:,None], 'boxcount')\n"
                                  "g.quad_meridional(f, g.phi2)\ng.quad_meridional(f, f2, 'boxcount')"),
    ("grid.Grid.equivalent_latitude", "g.equivalent_latitude(p)\ng.equivalent_latitude(x)"),
    ("grid.Grid.zonalize", "g.zonalize(f, q)\ng.zonalize(f, q, interpolate=False)"),
    ("grid.Grid.zonalize", "g.zonalize(f, q, quad='boxcount')\ng.zonalize(f, 30, interpolate=False)"),
    ("grid.Grid.zonalize", "g.zonalize(f, interpolate=False)"),
    ("grid.Grid.interp1d_meridional", "ip = g.interp1d_meridional(p, g.lat, (x, y))\nip(p2)\nip(g.lat)\ng.interpolate_meridional(p, g.lat, (x, y))"),
    ("grid.Grid.get_filter_window", "g.get_filter_window('hann', width=x)\ng.get_filter_window('boxcar', 30)"),
    ("grid.Grid.filter_meridional", "g.filter_meridional(f, w)\ng.filter_meridional(p, w)\ng.filter_meridional(f, 'hann', 10)"),
    ("grid.Grid.filter_zonal", "g.filter_zonal(f, w)\ng.filter_zonal(zf, w)\ng.filter_zonal(f, 'hann', 10)"),
    ("grid.GridRegion", "r = g.region[300:50,'N']\nr.extract(f)\nr.extract(f, f2, p, zf)\nr.mean(f)\nr.mask\nr.lat\nr.lon\nr.lon_mono\nr.gridpoint_area\nrepr(r)"),
    ("grid.GridRegion", "r = g.region[:,:]\nr.extract(f)\nr.extract(f, f2)\nr.mean(f)\nr.mask\nr.lon_mono\nr.gridpoint_area"),
    ("grid.Grid", "repr(g)\ng == bt.Grid(res, R, OM)\nhash(g)"),
)
DIAG = (
    ("diagnostics.falwa", "bt.diagnostics.falwa(f, g, q, interpolate=False)\nbt.diagnostics.falwa(f, g, q, False, 'boxcount')"),
    ("diagnostics.falwa", "bt.diagnostics.falwa(s, levels=q, interpolate=False)"),
    ("diagnostics.fawa", "bt.diagnostics.fawa(f, g, q, interpolate=False)\nbt.diagnostics.fawa(s, levels=q, interpolate=False)"),
    ("diagnostics.dominant_wavenumber_fourier", "bt.diagnostics.dominant_wavenumber_fourier(f, g)\nbt.diagnostics.dominant_wavenumber_fourier(f, g, None, (2, 8))"),
    ("diagnostics.filter_by_wavenumber", "bt.diagnostics.filter_by_wavenumber(f, f2)\nbt.diagnostics.filter_by_wavenumber(f, p)"),
    ("diagnostics.envelope_hilbert", "bt.diagnostics.envelope_hilbert(f)\nbt.diagnostics.envelope_hilbert(f, (2, 8))"),
    ("diagnostics.stationary_wavenumber", "bt.diagnostics.stationary_wavenumber(f, g)"),
    ("diagnostics.stationary_wavenumber", "bt.diagnostics.stationary_wavenumber(p, g, kind='real')"),
    ("diagnostics.stationary_wavenumber", "bt.diagnostics.stationary_wavenumber(p, g, order=2, kind='squared')"),
    ("diagnostics.stationary_wavenumber", "bt.diagnostics.stationary_wavenumber(s)\nbt.diagnostics.stationary_wavenumber(s, kind='squared')"),
    ("diagnostics.extract_ks_waveguides", "bt.diagnostics.extract_ks_waveguides(p, k, g)\nbt.diagnostics.extract_ks_waveguides(pc, k, g)"),
    ("diagnostics.extract_ks_waveguides", "bt.diagnostics.extract_ks_waveguides(s, k)"),
)
STATE = (
    ("state.State", "a = bt.State(g, t, f)\n(a.u, a.v, a.pv, a.avo, a.vorticity, a.vo, a.energy, a.enstrophy, a.eddy_enstrophy, a.streamfunction, a.pv_flux_spectral)"),
    ("state.State", "a = bt.State(g, t, pv_spectral=sp)\n(a.u, a.v, a.pv, a.avo, a.vorticity, a.vo, a.energy, a.enstrophy, a.eddy_enstrophy, a.streamfunction)"),
    ("state.State.from_wind", "a = bt.State.from_wind(g, t, u, v)\n(a.u, a.v, a.pv, a.pv_spectral)"),
    ("state.State.from_vorticity", "a = bt.State.from_vorticity(g, t, f)\n(a.u, a.v, a.pv, a.pv_spectral)"),
    ("state.State.add_wind", "s.add_wind(s2)\ns.add_wind((u, v))\ns2.add_wind(s).u"),
    ("state.State.add_vorticity", "s.add_vorticity(s2)\ns.add_vorticity(f)"),
    ("state.State", "(s.u, s.v, s.pv, s.avo, s.vorticity, s.vo, s.energy, s.enstrophy, s.eddy_enstrophy, s.streamfunction, s.pv_flux_spectral, s.vorticity_spectral)"),
    ("state.State", "(s.stationary_wavenumber, s.v_envelope_hilbert, repr(s))"),
    ("state.StateList", "l = [s, s2]\nL = bt.StateList(l)\nL.pv\nL.add_wind((u, v))\nL.add_vorticity(f)\nL.map(lambda x: x.pv)\nL + L\nL + l\nL[0]\nL[1:]\nassert len(l) == 2"),
    ("state.StateList", "L = bt.StateList([s, s2])\n(L.u, L.v, L.vorticity, L.energy, L.stationary_wavenumber)"),
    ("state.State.from_hn2016", "class B:\n    nlon, nlat, pv_field, dphi = g.nlon, g.nlat, f, np.full(g.nlat - 1, res*np.pi/180)\nbt.State.from_hn2016(g, t, B()).pv"),
)
SLOW = (
    ("state.State.pv_zonalized", "s.pv_zonalized"),
    ("state.State.fawa", "s.fawa"),
    ("state.State.falwa", "(s.falwa, s.falwa_filtered, s.v_envelope_hilbert)"),
)
FORCE = tuple(("rhs", "r = %s\nr(s)\nr(s2)\nr(s)" % r) for _, r in FORCINGS if "class" not in r) + (
    ("rhs.Orography", "o = bt.rhs.Orography(olon, olat, oh, wind=('sbr', x))\no.orography(g)\no(s)"),
    ("rhs.Orography", "o = bt.rhs.Orography(olon, olat, oh, wind=('zon', x), fcor_ref=y)\no(s)"),
    ("rhs.LinearRelaxation", "r = bt.rhs.LinearRelaxation(x, f, mask=f2)\nr(s)\nr(s)"),
    ("rhs.LinearRelaxation", "r = bt.rhs.LinearRelaxation(f2, f, mask=mask)\nr(s)\nr(s)"),
    ("rhs.RHS", "a = bt.rhs.LinearRelaxation(x, f)\nb = bt.rhs.GaussianMountain()\nc = a + b\nd = a * b\n(c(s), d(s), c(s))"),
    ("init", "bt.init.zonally_symmetric(g, t, u=p).pv\nbt.init.zonally_symmetric(g, t, pv=p).pv"),
    ("init", "(bt.init.motionless(g).pv, bt.init.solid_body_rotation(g).u, bt.init.gaussian_jet(g).v, bt.init.held_1985(g).u)"),
)
RUNS = (
    ("model.BarotropicModel.euler", "m.euler(s, dt)"),
    ("model.BarotropicModel.leapfrog", "a, b = m.leapfrog(s, s2)\n(a.pv, b.pv)"),
    ("model.BarotropicModel.leapfrog", "a, b = m.leapfrog(s, s2, alpha)\n(a.pv, b.pv)\na, b = m.leapfrog(a, b, alpha)\n(a.pv, b.pv)"),
    ("model.BarotropicModel.run", "a, b = m.run(s, dt, tend, dt)\n(a.pv, a.u)"),
    ("model.BarotropicModel.run", "a, b = m.run(s, dt, tend)\n(a.pv, a.u)\nrepr(m)"),
    ("state.State.run", "s.run(m, dt, tend)"),
)
DATA = (
    ("io.as_dataset", "l = [s, s2]\nfl = ['u', 'pv']\nbt.io.as_dataset(l, fl)\nassert len(l) == 2 and fl == ['u', 'pv']"),
    ("io.as_dataset", "bt.StateList([s, s2]).as_dataset(['v', 'vorticity'])\nbt.io.as_dataset(s)"),
    ("io.from_dataset", "ds = xr.Dataset({'pv': (('latitude', 'longitude'), f)}, {'latitude': g.lat, 'longitude': g.lon})\nbt.io.from_dataset(ds)\nds['pv'].values"),
    ("io.from_dataset", "ds = xr.Dataset({'a': (('latitude', 'longitude'), u), 'b': (('latitude', 'longitude'), v)}, {'latitude': g.lat, 'longitude': g.lon})\n"
                        "nm = {'u': 'a', 'v': 'b'}\nkw = {'rsphere': R, 'omega': OM}\nx = bt.io.from_dataset(ds, names=nm, grid_kwargs=kw)\n(x[0].u, x[0].pv)\n"
                        "assert len(nm) == 2 and nm['u'] == 'a' and nm['v'] == 'b' and len(kw) == 2 and kw['rsphere'] == R and kw['omega'] == OM"),
)
FIGS = (
    ("plot.summary", "bt.plot.summary(s)\nbt.plot.summary(s, center_lon=x, hemisphere='N')"),
    ("plot.wave_activity", "bt.plot.wave_activity(s)\nbt.plot.wave_activity(s, center_lon=x)"),
    ("plot.waveguides", "bt.plot.waveguides(s)\nbt.plot.waveguides(s, k_waveguides=[4, 5, 6])"),
    ("plot.rwp_diagnostics", "bt.plot.rwp_diagnostics(s)\nbt.plot.rwp_diagnostics(s, center_lon=x, v_max=y)"),
    ("state.StatePlotter", "s.plot.summary()\ns.plot.wave_activity()"),
    ("plot.roll_lon", "a, b = bt.plot.roll_lon(g.lon, 90)\na(f)\na(g.lon)\na(g.lat2)"),
    ("plot.reduce_vectors", "bt.plot.reduce_vectors(g.lon2, g.lat2, f, f2, 10)"),
    ("plot.hovmoellerify", "l = [s, s2]\nbt.plot.hovmoellerify(l, lambda x: x.pv[3])\nbt.plot.hovmoellerify(l, lambda x: x.pv[:,3])\nassert len(l) == 2"),
    ("plot.symmetric_levels", "bt.plot.symmetric_levels(f)\nbt.plot.symmetric_levels(f, 5, x)"),
)

ARRAYS = "(f, f2, u, v, p, p2, pc, zf, q, w, mask, sp, sp2, olon, olat, oh, bg, lon, lat, h)"
COORDS = "(g.lon, g.lat, g.lon2, g.lat2, g.lam, g.phi, g.lam2, g.phi2, g.fcor, g.fcor2, g.fcor2_spectral, g.gridpoint_area)"
FIELDS = "(s.pv, s.pv_spectral, s.u, s.v, s.vorticity, s.streamfunction, s2.pv, s2.pv_spectral, s2.u, s2.v)"
RULE = "value numbering: every array and object reachable by the caller has the same value after the call"


def prepare(C):
    K, L = P.sym("K", "i"), P.sym("L", "i")
    A, B = P.sym("A", "i"), P.sym("B", "i")
    for z in (K, L, A, B):
        P.declare_positive(z)
    g = C.env["g"]
    C.let(q=C.array("q", (K,)), w=C.array("w", (2 * L + 1,)), pc=C.profile("pc", "c16"), mask=C.array("mask", (C.N + 1, 2 * C.N), "b"),
          olon=C.array("olon", (A,)), olat=C.array("olat", (B,)), oh=C.array("oh", (B, A)), bg=C.field("bg"), lon=C.zonal("lon"),
          lat=C.profile("lat"), h=C.field("h"), tend=C.num("tend"), alpha=C.num("alpha"), k=C.num("k"))


def untouched(ck, C, table, pre="", label=""):
    tail = "%s, %s, %s" % (ARRAYS, COORDS, FIELDS)
    for n, (anchor, code) in enumerate(table):
        lab = "%s%s (%d)" % (anchor, label, n) if [a for a, _ in table].count(anchor) > 1 else anchor + label
        # the fields are read before the call as well: stored copies are at the disposal of the call
        ck.eq(C, lab, anchor, "%s%s\n%s\n%s" % (pre, tail, code, tail), tail, raises=False, rule=RULE)


@prop("C11")
def grid(ck):
    C = with_stubs(ck)
    prepare(C)
    untouched(ck, C, GRID)


@prop("C11")
def diagnostics(ck):
    C = with_stubs(ck)
    prepare(C)
    untouched(ck, C, DIAG)


@prop("C11")
def states(ck):
    C = with_stubs(ck)
    prepare(C)
    untouched(ck, C, STATE)
    untouched(ck, C, FORCE)


@prop("C11")
def wave_activity(ck):
    C = with_stubs(ck)
    prepare(C)
    opaque(C, "falwa", "fawa", "envelope_hilbert", "zonalize_eqlat")
    untouched(ck, C, SLOW)


@prop("C11")
def models(ck):
    C = with_stubs(ck)
    prepare(C)
    for lab, m in (("", "m = bt.BarotropicModel(bt.rhs.LinearRelaxation(x, f, f2), order, coeff, bg)\n"),
                   (" without forcing", "m = bt.BarotropicModel(None, order, coeff)\n"),
                   (" with orography", "m = bt.BarotropicModel(bt.rhs.Orography(olon, olat, oh) + bt.rhs.LinearRelaxation(x, bg), order, coeff, bg)\n")):
        untouched(ck, C, RUNS, m, lab)


@prop("C11")
def datasets(ck):
    C = with_stubs(ck, XR)
    prepare(C)
    untouched(ck, C, DATA, "import xarray as xr\n")


@prop("C11")
def figures(ck):
    C = with_stubs(ck, MPL + (("pywt", "stubs/pywt.py"),))
    prepare(C)
    opaque(C, "falwa", "fawa", "filter_by_wavenumber", "envelope_hilbert", "stationary_wavenumber")
    untouched(ck, C, FIGS)
