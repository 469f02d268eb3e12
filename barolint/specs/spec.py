# Specified behaviour, written against the public interface of the package.
# Analysed by the same value-graph analysis as the package; never executed.

import numpy as np
from barotropic.state import State, StateList


# --- time stepping -------------------------------------------------------------

def tendency(rhs, state):
    t = -state.pv_flux_spectral
    if rhs is not None:
        t = t + state.grid.to_spectral(rhs(state))
    return t


def diffuse(grid, pvs, dts, coeff, order, bg):
    if bg is None:
        return grid.solve_diffusion_spectral(pvs, dts, coeff, order)
    b = grid.to_spectral(bg)
    return grid.solve_diffusion_spectral(pvs - b, dts, coeff, order) + b


def euler(rhs, order, coeff, bg, state, dt, dts):
    pvs = diffuse(state.grid, state.pv_spectral + dts * tendency(rhs, state), dts, coeff, order, bg)
    return State(state.grid, state.time + dt, pv_spectral=pvs)


def leapfrog(rhs, order, coeff, bg, old, now, dt, dts, alpha):
    pvs = old.pv_spectral + 2 * dts * tendency(rhs, now)
    pvs = diffuse(now.grid, pvs, 2 * dts, coeff, order, bg)
    new = State(now.grid, now.time + dt, pv_spectral=pvs)
    filtered = now.pv_spectral + alpha * (old.pv_spectral - 2 * now.pv_spectral + pvs)
    return State(now.grid, now.time, pv_spectral=filtered), new


def run(model, start, dt, tend, save_every):
    if tend < start.time:
        return start, StateList([start])
    a = start
    b = model.euler(start, dt)
    saved = [start]
    due = start.time + save_every
    while a.time < tend:
        a, b = model.leapfrog(a, b)
        if save_every > 0 and a.time >= due:
            saved.append(a)
            due = due + save_every
    return a, StateList(saved)


def run_nosave(model, start, dt, tend):
    if tend < start.time:
        return start, StateList([start])
    a = start
    b = model.euler(start, dt)
    while a.time < tend:
        a, b = model.leapfrog(a, b)
    return a, StateList([start])


# --- grid ------------------------------------------------------------------------

import scipy.interpolate
import scipy.ndimage
import scipy.signal
import spharm


def gridpoint_area(g):
    """r² dλ (sin φ_n - sin φ_s) between the latitudes half way to the neighbours (or the pole)"""
    edge = np.concatenate([np.array([np.pi / 2]), (g.phi[:-1] + g.phi[1:]) / 2, np.array([-np.pi / 2])])
    return g.rsphere * g.rsphere * g.dlam * (np.sin(edge[:-1]) - np.sin(edge[1:]))


def boxcount(g, y, z):
    inside = np.ones_like(y) if z is None else np.where(z >= 0, 1., 0.)
    return np.sum(gridpoint_area(g)[:, None] * y * inside, axis=0) / (g.rsphere * g.dlam)


def sptrapz(g, y, z):
    x0, x1 = g.phi[:-1, None], g.phi[1:, None]
    y0, y1 = y[:-1], y[1:]
    a = (y1 - y0) / (x1 - x0)
    b = y0 - a * x0
    if z is None:
        north, south, on = x0, x1, True
    else:
        z0, z1 = z[:-1], z[1:]
        in0, in1 = z0 >= 0, z1 >= 0
        root = x0 + (x1 - x0) * z0 / (z0 - z1)
        north = np.where(in0, x0, root)
        south = np.where(in1, x1, root)
        on = in0 | in1
    F = lambda x: a * np.cos(x) + (a * x + b) * np.sin(x)
    part = g.rsphere * (F(north) - F(south))
    return np.sum(np.where(on, part, 0.), axis=0)


def derivative(g, f, order, profile):
    """Finite differences on a regular latitude grid (positive towards the north pole)."""
    h = -g.dphi      # distance to the next latitude in southward direction
    j = np.arange(g.nlat)
    at = lambda k: f[np.clip(j + k, 0, g.nlat - 1)]
    col = (lambda m: m) if profile else (lambda m: m[:, None])
    sel = lambda m, a, b: np.where(col(m), a, b)
    if order == 2:
        d = (at(-1) - at(1)) / (2 * h)
        if profile:
            d = sel((j == 0) | (j == g.nlat - 1), 0. * f, d)
        else:
            d = sel(j == 0, (3 * at(0) - 4 * at(1) + at(2)) / (2 * h), d)
            d = sel(j == g.nlat - 1, (-3 * at(0) + 4 * at(-1) - at(-2)) / (2 * h), d)
        return d
    d = (-at(-2) + 8 * at(-1) - 8 * at(1) + at(2)) / (12 * h)
    d = sel(j == 1, (3 * at(-1) + 10 * at(0) - 18 * at(1) + 6 * at(2) - at(3)) / (12 * h), d)
    d = sel(j == g.nlat - 2, (-3 * at(1) - 10 * at(0) + 18 * at(-1) - 6 * at(-2) + at(-3)) / (12 * h), d)
    if profile:
        return sel((j == 0) | (j == g.nlat - 1), 0. * f, d)
    d = sel(j == 0, (25 * at(0) - 48 * at(1) + 36 * at(2) - 16 * at(3) + 3 * at(4)) / (12 * h), d)
    d = sel(j == g.nlat - 1, (-25 * at(0) + 48 * at(-1) - 36 * at(-2) + 16 * at(-3) - 3 * at(-4)) / (12 * h), d)
    return d


def transform(g, ntrunc=None):
    s = spharm.Spharmt(g.nlon, g.nlat, g.rsphere, gridtype="regular", legfunc="stored")
    return s, (g.nlat - 1 if ntrunc is None else ntrunc)


def eigenvalues(g, ntrunc=None):
    """Eigenvalues n(n+1)/r² of the (negative) Laplacian"""
    n = spharm.getspecindx(g.nlat - 1 if ntrunc is None else ntrunc)[1]
    return n * (n + 1.) / (g.rsphere * g.rsphere)


def poisson(g, f, c, ntrunc=None):
    """Spectral solution of (Δ - c) x = f; without global mean if it is undetermined"""
    ev = eigenvalues(g, ntrunc)
    x = -f / (ev + c)
    if c == 0.:
        return np.where(np.arange(f.size) == 0, 0., x)
    return x


def equivalent_latitude(g, area):
    s = 1 - area / (2 * np.pi * g.rsphere ** 2)
    return np.arcsin(np.maximum(-1., np.minimum(1., s))) * 180 / np.pi


def zonalize(g, f, q, method):
    one = np.ones_like(f)
    area = np.vectorize(lambda c: g.quad(one, z=f - c, method=method))(q)
    return equivalent_latitude(g, area * g.nlon / f.shape[1])


def levels(f, n):
    lo, hi = np.min(f), np.max(f)
    s = np.sin(-np.pi / 2 + np.pi * (np.arange(n) + 1) / (n + 1))
    return lo + (hi - lo) * (1 + s) / 2


def with_poles(values, north, south):
    return np.concatenate([np.array([north]), values, np.array([south])])


def interpolator(g, f, lat, poles, kind):
    x = with_poles(lat, 90., -90.)
    if f.ndim == 1:
        return scipy.interpolate.interp1d(x, with_poles(f, poles[0], poles[1]), axis=-1, kind=kind)
    row = np.ones((1, f.shape[1]))
    y = np.concatenate([poles[0] * row, f, poles[1] * row], axis=0)
    return scipy.interpolate.interp1d(x, y, axis=-2, kind=kind)


def window_size(g, width):
    n = round(width / g.dlon)
    return n if n % 2 == 1 else n + 1


def window(g, kind, width):
    w = scipy.signal.get_window(kind, window_size(g, width), fftbins=False)
    return w / np.sum(w)


def between(x, lo, hi):
    i = np.arange(x.size)
    if lo is None and hi is None:
        return i
    if lo is None:
        return i[x <= hi]
    if hi is None:
        return i[x >= lo]
    return i[(x >= lo) & (x <= hi)]


def lat_indices(g, lo, hi):
    if lo is not None and hi is not None and hi < lo:
        lo, hi = hi, lo
    return between(g.lat, lo, hi)


def lon_indices(g, lo, hi):
    if lo is not None and hi is not None and hi < lo:
        i = np.arange(g.nlon)
        return np.concatenate([i[g.lon >= lo], i[g.lon <= hi]])
    return between(g.lon, lo, hi)


def convolve(f, w, mode):
    return scipy.ndimage.convolve(f, w, mode=mode)


def show(r, f):
    return r.lat, r.lon, r.extract(f), r.shape


def expect(g, i, j, f):
    return g.lat[i], g.lon[j], f[i][:, j], (i.size, j.size)


def mask(g, i, j):
    m = np.zeros(g.shape)
    m[np.ix_(i, j)] = 1
    return m > 0.5


def lon_mono(g, lo, hi):
    """Longitudes of the selection; those west of 0° reduced by 360°"""
    if lo is not None and hi is not None and hi < lo:
        west, east = g.lon[g.lon >= lo], g.lon[g.lon <= hi]
        if west.size > 0 and east.size > 0:
            return np.concatenate([west - 360., east])
        return np.concatenate([west, east])
    return g.lon[between(g.lon, lo, hi)]


# --- diagnostics -------------------------------------------------------------------

def falwa_levels(g, pv, levels, quad):
    """FALWA on the equivalent latitudes and these latitudes"""
    q, y = g.zonalize(pv, levels, interpolate=False, quad=quad)
    if quad == "boxcount":
        between = interpolator(g, q, y, (np.max(pv), np.min(pv)), "linear")
        y = g.lat[1:] + (g.lat[:-1] - g.lat[1:]) / 2
        q = between(y)
    rows = []
    for Q, Y in zip(q, y):
        d = pv - Q
        inside = g.quad_meridional(d, d, method=quad)
        north = g.quad_meridional(d, g.lat2 - Y, method=quad)
        rows.append((inside - north) / np.cos(Y * np.pi / 180))
    return np.stack(rows), y


def falwa(g, pv, levels, quad):
    a, y = falwa_levels(g, pv, levels, quad)
    return interpolator(g, a, y, (0., 0.), "linear")(g.lat)


def ks_squared(g, u, pv, order, min_u):
    """Squared stationary wavenumber for profiles of wind and PV"""
    grad = g.rsphere * np.cos(g.phi) ** 2 * g.derivative_meridional(pv, order=order)
    small = np.abs(u) <= min_u
    # division by one where the wind is small
    value = grad / np.where(small, 1., u)
    return np.where(small, np.where(grad == 0., 0., np.where(grad > 0., np.inf, -np.inf)), value)


def real_ks(k):
    return np.real(k) - np.imag(k)


def crossing(g, lat, a, b, k):
    """Latitude between lat (value a) and the next one to the south (value b) at which k is reached"""
    return lat + g.dlat * (k - a) / (b - a)


def waveguides(g, ks, k):
    ks = real_ks(ks)
    k = real_ks(k)
    inside = ks[0] >= k
    start = g.lat[0]
    out = []
    for lat, a, b in zip(g.lat[:-1], ks[:-1], ks[1:]):
        if inside:
            if b < k:
                end = lat + g.dlat if np.isinf(a) else crossing(g, lat, a, b, k)
                out.append((start, end))
                inside = False
        else:
            if b > k:
                start = lat if np.isinf(b) else (lat + g.dlat if np.isinf(a) else crossing(g, lat, a, b, k))
                inside = True
    if inside:
        out.append((start, g.lat[-1]))
    return out


def restrict(f, kmin, kmax):
    s = np.fft.rfft(f, axis=1)
    k = np.arange(s.shape[1])
    s = np.where((k >= kmin) & (k <= kmax), s, 0.)
    return np.fft.irfft(s, f.shape[1], axis=1)


def envelope(f, kmin, kmax):
    return np.abs(scipy.signal.hilbert(restrict(f, kmin, kmax), axis=1))


def dominant(f, kmin, kmax):
    s = np.abs(np.fft.rfft(f, axis=1))**2
    return kmin + 1. * np.argmax(s[:, kmin:kmax + 1], axis=1)


def wavelet(f, pywt):
    """Wavenumber of the largest wavelet power of the field continued periodically"""
    x = restrict(f, 0, 20)
    n = f.shape[1]
    scales = 3*2**np.linspace(0, 6, 120)
    w = pywt.ContinuousWavelet("cmor1.0-1.0")
    c = pywt.cwt(np.concatenate([x, x, x], axis=1), scales, w, axis=1)[0]
    k = n*pywt.scale2frequency(w, scales)
    return k[np.argmax(np.abs(c[:,:,n:2*n])**2, axis=0)]


def hann_smooth(f, k):
    """Every gridpoint smoothed zonally with its own Hann window"""
    nlon = f.shape[1]
    out = np.zeros(f.shape)
    k = np.minimum(np.maximum(k, 1.), nlon / 2)
    half = (nlon // k).astype(int)
    for m in range(0, nlon + 1):
        w = scipy.signal.windows.hann(2 * m + 1)
        smooth = scipy.signal.convolve2d(f, (w / np.sum(w))[None, :], mode="same", boundary="wrap")
        out = np.where(half == m, smooth, out)
    return out


# --- orography and initial conditions

def orographic(s, h, wind, scale_height, fcor):
    """-f/H times the wind dotted with the gradient of the orography"""
    gx, gy = s.grid.gradient(h)
    return -(fcor * (wind[0] * gx + wind[1] * gy)) / scale_height


def bilinear(g, lon, lat, h):
    """Linear interpolation in latitude, then in longitude"""
    rows = np.stack([np.interp(-g.lat, -lat, h[:, j]) for j in range(h.shape[1])], axis=1)
    return np.stack([np.interp(g.lon, lon, rows[i, :]) for i in range(g.nlat)])


def gaussian_mountain(g, height, center, slon, slat):
    dlon = (g.lon - center[0]) % 360
    dlon = np.where(dlon >= 180, dlon - 360, dlon)
    x = np.exp(-(dlon / slon) ** 2 / 2)
    y = np.exp(-((g.lat - center[1]) / slat) ** 2 / 2)
    return height * y[:, None] * x[None, :]


def sine_mountains(g, height, lat, slat, k):
    x = (1 + np.cos(k * g.lam)) / 2
    y = np.exp(-((g.lat - lat) / slat) ** 2 / 2)
    return height * y[:, None] * x[None, :]


def jet(g, amplitude, lat, stdev):
    u = amplitude * np.exp(-((g.lat - lat) / stdev) ** 2 / 2)
    # linear function of latitude through the values at the poles
    return u - (u[-1] + (u[0] - u[-1]) * (g.lat + 90) / 180)


def held(g, a, b, c):
    return a * np.cos(g.phi) - b * np.cos(g.phi) ** 3 + c * np.cos(g.phi) ** 6 * np.sin(g.phi) ** 2


# --- datasets ----------------------------------------------------------------------

def shown(ds):
    """Everything observable about a dataset."""
    return ([(k, ds[k].dims, ds[k].values) for k in sorted(ds.data_vars)],
            [(k, ds.coords[k].dims, ds.coords[k].values, ds.coords[k].attrs) for k in sorted(ds.coords)])


# --- text ------------------------------------------------------------------------------

def time_text(t):
    if t <= 120:
        return "t = {:.1f} s".format(t)
    if t <= 7200:
        return "t = {:.1f} min".format(t/60)
    if t <= 864000:
        return "t = {:.1f} h".format(t/3600)
    return "t = {:.1f} d".format(t/86400)


def grid_text(g, ntrunc, legfunc="stored"):
    return ("<barotropic.Grid> with\n"
            "    (nlat, nlon) = {}\n    resolution   = {}°\n    rsphere      = {} m\n    omega        = {} s⁻¹\n"
            "    ntrunc       = {}\n    legfunc      = {}").format((g.nlat, g.nlon), g.dlon, g.rsphere, g.omega, ntrunc, legfunc)


def region_map(r):
    rows = []
    for i in range(9):
        north = 90 - 20*i
        row = np.any((north - 20 <= r.lat) & ((r.lat < north) | (r.lat == north) & (north == 90)))
        text = "    "
        for j in range(36):
            col = np.any((10*j <= r.lon) & (r.lon < 10*j + 10))
            text = "".join([text, "X" if row and col else "·"])
        rows.append(text)
    return rows


def region_text(r, grid, ntrunc):
    m = region_map(r)
    nlat, nlon = r.lat.size, r.lon.size
    lat = "empty" if nlat == 0 else "{:6.2f} to {:6.2f} °N".format(r.lat[-1], r.lat[0])
    lon = "empty" if nlon == 0 else "{:6.2f} to {:6.2f} °E".format(r.lon[0], r.lon[-1])
    return "\n".join(["Region {} (nlat = {})".format(lat, nlat), "       {} (nlon = {})".format(lon, nlon), "",
                      m[0] + " 90°N", *m[1:4], m[4] + " EQ", *m[5:8], m[8] + " 90°S", "    0°E              180°E", "",
                      "of {}".format(grid_text(grid, ntrunc))])


# --- figures ---------------------------------------------------------------------------

def seen(fig):
    """What the panels of a figure show."""
    return [(ax.fills, ax.contours, ax.vectors, ax.lines, ax.ylim, ax.xticks, ax.xticklabels,
             ax.titles.get("right"), ax.yaxis.formatter.fmt) for ax in fig.axes]


def shifted(grid, center):
    """Field shifting function and labels of the longitude axis for a center longitude."""
    near = np.argmin(np.abs(grid.lon - center % 360))
    shift = grid.nlon//2 - near
    ticks = np.arange(0, 360, 30)
    # A gridpoint drawn at longitude x shows the value from shift points further west
    labels = ["{:.0f}°".format((x - shift*grid.dlon) % 360) for x in ticks]
    return (lambda f: np.roll(f, shift, axis=1)), ticks, labels


def extent(hemisphere):
    return (0 if hemisphere == "N" else -90), (0 if hemisphere == "S" else 90)


def drawn(grid, z, levels):
    x = np.ones(grid.shape) * grid.lon
    y = np.ones(grid.shape) * grid.lat[:,None]
    return (x, y, z), levels


def symmetric(x, n, ext=None):
    if ext is None:
        ext = np.max(np.abs(x))
    if ext == 0.:
        return np.array([-1., 1.])
    return np.linspace(-ext, ext, n)


def inner_contours(x, hemisphere):
    """Contours between the extrema."""
    return np.linspace(np.min(x), np.max(x), 10 if hemisphere == "both" else 14)


def map_panel(grid, fills, contours, vectors, hemisphere, center, time):
    roll, ticks, labels = shifted(grid, center)
    return (fills, contours, vectors, [], extent(hemisphere), ticks, labels, time_title(time), "{x:.0f}°")


def line_panel(lines, hemisphere):
    return ([], [], [], lines, extent(hemisphere), None, None, None, "{x:.0f}°")


def time_title(time):
    return time_text(time)


def streamfunction_contours(roll, state, hemisphere):
    psi = state.streamfunction
    levels = inner_contours(psi, hemisphere)
    return [drawn(state.grid, roll(psi), levels)] if np.min(psi) != np.max(psi) else []


def summary(s, hemisphere, center, pv_max, v_max):
    g = s.grid
    roll = shifted(g, center)[0]
    q = s.pv * 10000
    n = 13 if hemisphere == "both" else 21
    step = max(g.nlat//n, 1)
    thin = slice(step//2, None, step), slice(step//2, None, step)
    lines = [(10000*g.fcor, g.lat, "pla."), (np.mean(10000*s.vorticity, axis=1), g.lat, "rel."), (q.mean(axis=1), g.lat, "pot.")]
    wind = []
    if np.linalg.norm(s.u) != 0 or np.linalg.norm(s.v) != 0:
        wind.append((g.lon2[thin], g.lat2[thin], roll(s.u)[thin], roll(s.v)[thin]))
    pv = drawn(g, roll(q), symmetric(q, 11 if hemisphere == "both" else 17, None if pv_max is None else 10000*pv_max))
    v = drawn(g, roll(s.v), symmetric(s.v, 10, v_max))
    return [line_panel(lines, hemisphere),
            map_panel(g, [pv], [], wind, hemisphere, center, s.time),
            line_panel([(s.u.mean(axis=1), g.lat, None)], hemisphere),
            map_panel(g, [v], streamfunction_contours(roll, s, hemisphere), [], hemisphere, center, s.time)]


def wave_activity(s, hemisphere, center):
    g = s.grid
    roll = shifted(g, center)[0]
    q = s.pv * 10000
    z = s.pv_zonalized * 10000
    levels = inner_contours(q, hemisphere)[1:-1]
    anom = q - z[:,None]
    pv = [drawn(g, roll(q), levels)]
    return [line_panel([(z, g.lat, "equiv. lat."), (q.mean(axis=1), g.lat, "mean")], hemisphere),
            map_panel(g, [drawn(g, roll(anom), symmetric(anom, 10))], pv, [], hemisphere, center, s.time),
            line_panel([(s.fawa, g.lat, None)], hemisphere),
            map_panel(g, [drawn(g, roll(s.falwa), None)], pv, [], hemisphere, center, s.time)]


def rwp(s, diagnostics, hemisphere, center, v_max, rwp_max):
    g = s.grid
    roll = shifted(g, center)[0]
    k = diagnostics.dominant_wavenumber_wavelet(s.v, g)
    env = s.v_envelope_hilbert
    act = diagnostics.filter_by_wavenumber(s.falwa, 2*k)
    top = max(env.max(), act.max()) if rwp_max is None else rwp_max
    levels = np.linspace(0, top, 6)
    number = [drawn(g, roll(k), np.arange(1, 11))] if np.min(k) != np.max(k) else []
    pv = [drawn(g, roll(s.pv), inner_contours(s.pv, hemisphere)[1:-1])]
    return [map_panel(g, [drawn(g, roll(s.v), symmetric(s.v, 10, v_max))], number, [], hemisphere, center, s.time),
            map_panel(g, [drawn(g, roll(env), levels)], streamfunction_contours(roll, s, hemisphere), [], hemisphere, center, s.time),
            map_panel(g, [drawn(g, roll(act), levels)], pv, [], hemisphere, center, s.time)]


def waveguide_panels(s, guides, hemisphere):
    """guides: wavenumbers with the boundaries of their waveguides"""
    g = s.grid
    ks = s.stationary_wavenumber
    lines = []
    for k, bounds in guides:
        y = []
        for a, b in bounds:
            y = y + [np.nan, a, b]
        lines.append(([k]*len(y), y, "k={}".format(k)))
    return [([], [], [], [(s.u.mean(axis=1), g.lat, None)], extent(hemisphere), None, None, "{x:.0f}°"),
            ([], [], [], lines + [(np.real(ks) - np.imag(ks), g.lat, None)], extent(hemisphere), None, None, "{x:.0f}°")]


def guides_seen(fig):
    return [(ax.fills, ax.contours, ax.vectors, ax.lines, ax.ylim, ax.xticklabels, ax.titles.get("right"), ax.yaxis.formatter.fmt) for ax in fig.axes]
