"""Writes properties.jsonl and MANIFEST.json (the statements live here; checks come from the registry)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
S = "src/barotropic/"
PROPS = []


def p(id, title, statement, over, text, why, files, mech, observe=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=list(observe), na=na))


p("C01", "The Euler step advances the barotropic PV equation by one time step",
  "For every state and time step, the first-order forward step returns a state on the same grid, valid one time step later, whose "
  "spectral PV is the PV of the given state plus the time step times the tendency (minus the divergence of the PV flux by the actual wind, plus "
  "the spectral transform of the forcing evaluated on the given state, if there is a forcing), followed by one implicit diffusion step over the "
  "same time interval. If a diffusion background is configured, it is removed before and restored after the diffusion step, and only then.",
  ["inputs", "configurations"],
  "every PV field, grid, time (number or datetime), step, forcing (any callable), diffusion order, coefficient and background",
  "The tests run two or three particular flows (steady rotation, Rossby-Haurwitz) for which a wrong forcing sign, interval or background treatment is invisible.",
  [S + "model.py", S + "state.py", S + "grid.py"],
  [("BarotropicModel.euler", S + "model.py"), ("tendency and diffusion helpers of the model", S + "model.py")],
  ["barotropic.BarotropicModel.euler"])
p("C02", "The leapfrog step is leapfrog plus Robert-Asselin filter over the right interval",
  "For every pair of consecutive states the leapfrog step returns the filtered current state and the next state: the next state is the old PV advanced "
  "over twice the time difference of the pair with the tendency of the current state, with implicit diffusion over the same doubled interval, and is valid one time difference after the current state. "
  "The filtered state keeps its valid time and has PV (1-2a) times current plus a times the sum of old and next PV, with a the filter parameter (0.2 if not given).",
  ["inputs", "configurations"],
  "every pair of states, filter parameter, forcing, diffusion configuration and time type",
  "Existing tests integrate smooth flows for a few hundred steps and compare with loose tolerances; the filter weights or the interval used for diffusion can be wrong without being seen.",
  [S + "model.py", S + "state.py", S + "grid.py"],
  [("BarotropicModel.leapfrog", S + "model.py")], ["barotropic.BarotropicModel.leapfrog"])
p("C03", "A model run stops at the requested time and saves the states it promises",
  "A run starts with one Euler step followed by leapfrog steps and returns the first filtered state whose time is not before the requested end, or the given initial state if the end is not after its start. "
  "The second result is always a list of states that begins with the initial state; with a positive save interval it contains, in order, the filtered state of each step that reaches or passes the next save time, where save times advance by the interval "
  "from the initial time, and with no save interval nothing else.",
  ["inputs", "histories"],
  "every initial state and time, step size, end time and save interval (multiples of the step or not), any number of steps",
  "The number of loop iterations and the relation of save interval to step size are unbounded; the tests only check one run with a save interval that divides evenly.",
  [S + "model.py", S + "state.py"], [("BarotropicModel.run", S + "model.py")], ["barotropic.BarotropicModel.run", "State.run"])
p("C04", "Numerical diffusion is the exact implicit scaling of every wavenumber",
  "One diffusion step divides every spectral coefficient of total wavenumber n by 1 + dt * coeff * (n(n+1)/r^2)^order, for all orders, coefficients and intervals, leaving the global mean unchanged, and is the same for the gridded and the spectral interface. "
  "No intermediate quantity overflows single precision (which would turn coefficients into NaN) for orders and resolutions of practical use.",
  ["inputs", "configurations"],
  "every field, grid size, sphere radius, truncation, diffusion order, coefficient and time step",
  "Tests check one order and coefficient on one grid; overflow of reduced precision depends on the order, radius and truncation.",
  [S + "grid.py"], [("Grid.solve_diffusion, Grid.solve_diffusion_spectral", S + "grid.py")], ["Grid.solve_diffusion", "Grid.solve_diffusion_spectral"])
p("C05", "Models and forcings carry no state from one use to the next",
  "Running, stepping or evaluating a model or forcing term any number of times, on any states and grids in any order, changes neither its attributes nor the result of any later use: "
  "a reused object gives exactly what a freshly constructed one would. States passed in are not modified.",
  ["histories", "inputs"],
  "every sequence of uses of one model or forcing object, with different states and different (also unequal) grids",
  "Call histories are unbounded; no test reuses a model or forcing across grids or compares with a fresh one.",
  [S + "model.py", S + "rhs.py", S + "state.py"],
  [("BarotropicModel (attributes only written by the constructor)", S + "model.py"), ("Orography gradient cache keyed by object and grid", S + "rhs.py")],
  ["BarotropicModel.run", "BarotropicModel.euler", "BarotropicModel.leapfrog", "rhs.*"])
p("C06", "Datetime and numeric time give the same integration",
  "An integration with a datetime valid time and a timedelta step produces the same PV fields, the same number of steps and correspondingly shifted valid times as one with "
  "numeric seconds, for Euler steps, leapfrog steps, full runs and time-switched forcings.",
  ["inputs", "configurations"],
  "every initial datetime, timedelta (including fractions of a second and more than a day) and end time",
  "Tests use a single datetime example; conversions that lose days or microseconds agree on most round numbers.",
  [S + "model.py", S + "rhs.py"], [("conversion of intervals to seconds", S + "model.py")], ["BarotropicModel.run", "BarotropicModel.euler", "BarotropicModel.leapfrog"])
p("C07", "State constructors and arithmetic act on the physical fields they name",
  "A state built from PV has that PV (passed once through spectral space); built from vorticity its PV is the vorticity plus the Coriolis parameter; built from wind its PV is the vorticity of that wind plus the Coriolis parameter. "
  "Adding wind or vorticity, as fields or from another state, adds them to the state's own wind or vorticity with planetary vorticity counted once. "
  "The result keeps grid and time, mismatched grids or shapes and simultaneous gridded and spectral PV are rejected.",
  ["inputs"], "every grid, time, PV, vorticity and wind field, and every pair of states",
  "The tests add special states only (a tuple-form wind addition discarded the own wind unnoticed).",
  [S + "state.py", S + "grid.py"], [("State constructors, add_wind, add_vorticity", S + "state.py")],
  ["State(...)", "State.from_wind", "State.from_vorticity", "State.add_wind", "State.add_vorticity"])
p("C08", "Wind, streamfunction, vorticity and energy are consistent with the PV of a state",
  "For every state the wind is the non-divergent wind whose vorticity is PV minus Coriolis parameter, the streamfunction is the inverse Laplacian of that vorticity, the spectral PV flux divergence is that of PV times this wind, "
  "vorticity is PV minus Coriolis parameter (in grid and in spectral space), enstrophy is half of the squared PV, eddy enstrophy half of the squared deviation from the zonal mean, and energy half of the squared wind speed.",
  ["inputs"], "every grid and every PV field, whether the state was created from gridded or spectral PV",
  "The identities hold for all fields, tests compare a few analytic flows.",
  [S + "state.py", S + "grid.py"], [("State field accessors", S + "state.py")], ["State.pv, u, v, streamfunction, vorticity, enstrophy, eddy_enstrophy, energy, pv_flux_spectral"])
p("C09", "Reading attributes of a state never changes what other attributes return",
  "The value of every field and diagnostic of a state is independent of which other attributes were read before, how often and in which order, and of other states of the same grid. "
  "Memoized fields equal freshly computed ones.",
  ["histories", "inputs"], "every access sequence over the attributes and diagnostics of one or several states",
  "The number of access orders is unbounded; tests read each attribute on a fresh state.",
  [S + "state.py"], [("memoized properties of State", S + "state.py")], ["all State properties"])
p("C10", "Diagnostic shortcuts of a state equal the functions they document",
  "The diagnostic attributes and methods of a state (zonalized PV, FALWA, FAWA, filtered FALWA, Hilbert envelope, stationary wavenumber, waveguides, run) return what the documented function returns for the fields and grid of that state with its default or given arguments. "
  "FAWA is the zonal mean of FALWA, the filtered FALWA uses twice the dominant Fourier wavenumber of v and the envelope is that of v for wavenumbers 2 to 10.",
  ["inputs", "configurations"], "every state and every set of forwarded arguments",
  "Tests touch few shortcuts and with default arguments only.",
  [S + "state.py", S + "diagnostics.py"], [("State shortcuts", S + "state.py")], ["State.*"])
p("C11", "Arrays and objects supplied by the caller are never modified",
  "No function or method of the package writes into an array, list, dictionary or state passed to it, nor do results it returns share memory with the grid's coordinate arrays or with "
  "a state's stored fields in a way the package itself later writes to.",
  ["inputs", "histories"], "every public function and method, every argument array, including the coordinate arrays of a grid and the fields of a state",
  "Tests rarely compare arguments before and after the call, and aliasing depends on the argument being a view or already of the right type.",
  [S + "grid.py", S + "diagnostics.py", S + "state.py", S + "init.py", S + "rhs.py", S + "io.py", S + "plot.py", S + "model.py"],
  [("in-place operations only on freshly allocated arrays", S + "grid.py, " + S + "diagnostics.py")], ["public API"])
p("C12", "A state list broadcasts every attribute and method over its states in order",
  "A list of states is an immutable ordered sequence of states on one grid (anything else is rejected) with length, indexing, iteration and concatenation. "
  "Accessing an attribute or calling a method of State on it, or mapping a function, gives the results of all states in order: stacked into an array for arrays and numbers, a list of states for states, a plain list otherwise. "
  "Running a model returns the list of final states and the list of their saved states, special and private names are not broadcast.",
  ["inputs", "histories"], "every number of states (including none), every attribute, method and mapped function with any arguments",
  "Tests use one list of a few states and few attributes.",
  [S + "state.py"], [("StateList", S + "state.py")], ["StateList"])
p("C13", "Grid coordinates, spacings and the Coriolis parameter are consistent",
  "For every resolution that divides 180 degrees the grid has 360/resolution longitudes starting at 0 degrees, 180/resolution+1 latitudes from 90 to -90 degrees, matching 2D and radian coordinates, and spacings with the sign of the coordinate direction. "
  "The Coriolis parameter is 2*omega*sin(latitude) everywhere, circumference is 2*pi*r*cos(latitude), and no use of the grid changes its coordinates. "
  "The number of gridpoints is exact even if the division by the resolution is subject to rounding.",
  ["inputs", "configurations"], "every resolution, radius, rotation rate, and every call sequence on the grid",
  "Tests construct a handful of resolutions for which the floating point division is exact.",
  [S + "grid.py"], [("Grid constructor", S + "grid.py")], ["Grid attributes", "Grid.coriolis", "Grid.circumference"])
p("C14", "Gridpoint areas tile the sphere",
  "The area associated with a gridpoint is that of the spherical grid box around its latitude, bounded by the midpoints between neighbouring latitudes and the poles. "
  "Times the number of longitudes, areas sum to the surface of the sphere and are symmetric about the equator.",
  ["inputs", "configurations"], "every resolution and radius", "Tests check the sum for some grids, which does not determine the distribution.",
  [S + "grid.py"], [("Grid.gridpoint_area", S + "grid.py")], ["Grid.gridpoint_area"])
p("C15", "Means are area-weighted over exactly the selected points",
  "The mean of a field is the gridpoint-area-weighted mean over the whole grid, along the requested axis (meridional: area-weighted, zonal: arithmetic), or over the selected region, whichever way axis and region are specified. "
  "Constants are preserved and invalid axes or shapes are rejected.",
  ["inputs", "configurations"], "every field, region and axis specification", "Tests average a few fields over a few regions.",
  [S + "grid.py"], [("Grid.mean", S + "grid.py"), ("GridRegion.mean", S + "grid.py")], ["Grid.mean", "GridRegion.mean"])
p("C16", "Surface and meridional quadrature follow the documented rules",
  "The surface integral of a field over the sphere or over the domain where a second field is positive equals the documented rule, boxcounting (area-weighted sum of the selected points) or spherical trapezoid (exact integration of piecewise linear integrand times cosine, with the domain boundary interpolated linearly), "
  "and the surface integral is the sum of the meridional integrals times the zonal spacing. Unknown rules and mismatched shapes are rejected.",
  ["inputs", "configurations"], "every integrand, domain field, and grid", "Tests integrate fields with known integrals, with tolerances that hide errors at sign changes and boundaries.",
  [S + "grid.py"], [("Grid.quad, Grid.quad_meridional", S + "grid.py")], ["Grid.quad", "Grid.quad_meridional"])
p("C17", "Meridional derivative stencils have their order everywhere",
  "The finite difference meridional derivative is exact, at every latitude including those next to and on the poles, for all polynomials in latitude up to the degree of the chosen order, with sign and spacing of latitude from north to south; "
  "profiles have zero derivative at the poles, every column of a 2D field is treated separately and unsupported orders are rejected.",
  ["inputs", "configurations"], "every profile or field, both orders, every grid",
  "Tests compare with an analytic derivative to a tolerance on one grid.",
  [S + "grid.py"], [("Grid.derivative_meridional", S + "grid.py")], ["Grid.derivative_meridional"])
p("C18", "Spectral operators act with the right eigenvalues, signs and inputs",
  "Transforms, wind, vorticity, divergence, gradient, Laplacian and Poisson solver pass the right fields in the right order and truncation to the spectral transforms, accept gridded and spectral input where documented, and are consistent between their gridded and spectral versions. "
  "The Laplacian multiplies by -n(n+1)/r^2; the Poisson solver divides by -(n(n+1)/r^2 + constant), keeps the global mean where the operator is invertible and sets it to zero otherwise, and inverts the Laplacian.",
  ["inputs", "configurations"], "every field, grid, truncation, radius and additive constant",
  "Tests invert a few fields without additive constant and do not exercise every variant (vorticity_divergence raised NameError unnoticed).",
  [S + "grid.py"], [("spectral methods of Grid", S + "grid.py")], ["Grid.to_spectral .. Grid.solve_poisson_spectral"])
p("C19", "Zonalization yields the area-conserving equivalent-latitude profile",
  "For every field and set of contour values, the zonalized profile assigns to each contour the equivalent latitude of the cap that has the area where the field exceeds the contour (scaled to the globe for sectors and subregions as documented), using the chosen quadrature, and interpolation onto the grid latitudes includes the poles with the field's extremes. "
  "Contour values default to the documented selection, and meridional interpolation pads the poles with the given values.",
  ["inputs", "configurations"], "every field, level specification, quadrature rule, interpolation flag and sector width",
  "Tests zonalize a few monotonic or simple fields.",
  [S + "grid.py"], [("Grid.zonalize, Grid.equivalent_latitude, Grid.interp1d_meridional", S + "grid.py")],
  ["Grid.zonalize", "Grid.equivalent_latitude", "Grid.interp1d_meridional", "Grid.interpolate_meridional"])
p("C20", "Region selection picks exactly the requested points in the right order",
  "A region contains exactly the grid points inside the inclusive coordinate ranges, with latitude bounds in any order, hemispheres by name, single values only if on the grid, and longitude ranges with start above stop crossing the periodic boundary as one connected piece. "
  "Extraction of profiles and fields, mask, shape, coordinates, gridpoint areas and monotonic longitudes all refer to these points in the same order, and invalid selections are rejected.",
  ["inputs", "configurations"], "every selection (slices with any or no bounds, numbers, keywords) and every field",
  "Selections are an infinite input space; tests list about a dozen.",
  [S + "grid.py"], [("GridRegionIndexer, GridRegion", S + "grid.py")], ["Grid.region", "GridRegion"])
p("C21", "Smoothing filters are normalized, centered and have the right boundaries",
  "Filter windows have the requested width in degrees rounded to an odd number of gridpoints and sum to one. Meridional filtering convolves every column with reflection at the poles, zonal filtering every row with periodic boundaries; both preserve constants "
  "and accept precomputed windows or window names with a width.",
  ["inputs", "configurations"], "every window, width, field and grid", "Tests filter few fields with few windows.",
  [S + "grid.py"], [("Grid.get_filter_window, filter_meridional, filter_zonal", S + "grid.py")],
  ["Grid.get_filter_window", "Grid.filter_meridional", "Grid.filter_zonal"])
p("C22", "Equality of grids is an equivalence on shape, planet and truncation",
  "Two grids are equal exactly if they agree in shape, planet radius and rotation rate (to rounding) and truncation; equal grids have equal hashes, so that anything cached per grid is shared, and comparison with any other object is false instead of an error.",
  ["inputs"], "every pair of grids and other objects", "Pairs of configurations are an infinite space.",
  [S + "grid.py"], [("Grid equality and hash", S + "grid.py")], ["Grid.__eq__", "Grid.__hash__"])
p("C23", "FALWA and FAWA are the documented wave activity integrals",
  "For every PV field, the finite-amplitude local wave activity at each longitude is the difference of the meridional integrals of the PV anomaly from the zonalized background over the area of larger PV and over the area north of the equivalent latitude, divided by the cosine of latitude, on the equivalent latitudes (or for boxcounting on the mid-latitudes) "
  "or interpolated to the grid with zero at the poles. The finite-amplitude wave activity is its zonal mean, and given states or arrays with a grid agree.",
  ["inputs", "configurations"], "every PV field, level specification, quadrature rule and interpolation flag", "Tests compare one flow with a reference within tolerance.",
  [S + "diagnostics.py", S + "grid.py", S + "state.py"], [("diagnostics.falwa, diagnostics.fawa", S + "diagnostics.py")], ["diagnostics.falwa", "diagnostics.fawa", "State.falwa", "State.fawa"])
p("C24", "The stationary wavenumber follows its definition, including small winds",
  "The squared stationary wavenumber is radius times cos^2(latitude) times the meridional gradient of zonal-mean PV, divided by the zonal-mean zonal wind, where the wind exceeds the threshold; elsewhere it is infinite with the sign of the PV gradient, or zero where the gradient vanishes, and never NaN. "
  "The complex, real and squared variants agree, and PV is derived from the wind profile if only the wind is given.",
  ["inputs", "configurations"], "every wind and PV field or profile, threshold, derivative order and output kind", "Tests use a few flows; thresholds and signs of small wind are special inputs.",
  [S + "diagnostics.py"], [("diagnostics.stationary_wavenumber", S + "diagnostics.py")], ["diagnostics.stationary_wavenumber", "State.stationary_wavenumber"])
p("C25", "Waveguide extraction returns exactly the latitude bands that trap a wavenumber",
  "Scanning from the north to the south pole, the returned waveguides are the ordered, non-overlapping latitude bands in which the stationary wavenumber is at least the given wavenumber, with linearly interpolated boundaries between latitudes (boundaries at infinite values are placed at the adjacent latitude), open bands ending at the poles. "
  "Boundaries are never NaN.",
  ["inputs"], "every stationary wavenumber profile (complex, with infinities) and wavenumber", "Profiles are unbounded and the scan is a loop with state; the tests sample three.",
  [S + "diagnostics.py"], [("diagnostics.extract_ks_waveguides", S + "diagnostics.py")], ["diagnostics.extract_ks_waveguides", "State.extract_ks_waveguides"])
p("C26", "Fourier-based diagnostics use exactly the requested wavenumber range",
  "The dominant wavenumber is the wavenumber of largest Fourier power within the inclusive requested range at each latitude (not relative to its start), smoothed meridionally if requested. "
  "The wavelet-based dominant wavenumber at each gridpoint is the one of largest wavelet power of the field, restricted to zonal wavenumbers 0 to 20 and continued periodically. "
  "The wave packet envelope is the modulus of the analytic signal of the field restricted to the inclusive wavenumber range, on the same longitudes for even and odd numbers of longitudes.",
  ["inputs", "configurations"], "every field, wavenumber range and number of longitudes", "Tests use ranges that start at the default and fields with a single wave.",
  [S + "diagnostics.py"], [("diagnostics.dominant_wavenumber_fourier, envelope_hilbert", S + "diagnostics.py")],
  ["diagnostics.dominant_wavenumber_fourier", "diagnostics.envelope_hilbert", "diagnostics.dominant_wavenumber_wavelet"])
p("C27", "Wavenumber-dependent smoothing applies each gridpoint's own window",
  "At every gridpoint the result is the periodic zonal convolution of its latitude circle with the normalized Hann window of odd width 2*floor(nlon/k)+1, where k is the wavenumber given for that point (or its latitude), limited to the range from 1 to nlon/2. "
  "Profiles of wavenumbers must have the length of the latitudes.",
  ["inputs"], "every field and wavenumber field or profile", "Tests check one constant and one simple wavenumber profile.",
  [S + "diagnostics.py"], [("diagnostics.filter_by_wavenumber", S + "diagnostics.py")], ["diagnostics.filter_by_wavenumber"])
p("C28", "Forcing terms combine like the functions they stand for",
  "The sum and product of forcing terms, in any nesting and order and with arbitrary callables on either side, evaluate to the sum and product of the values of their operands on the same state. "
  "A time switch is one up to and including its time and zero afterwards, and linear relaxation is its rate times the difference of reference PV and PV of the state.",
  ["inputs", "programs"], "every expression of forcing terms and every state", "Expressions of forcing terms are unbounded; tests try one or two.",
  [S + "rhs.py"], [("RHS operators and terms", S + "rhs.py")], ["rhs.RHS", "rhs.TimedOffSwitch", "rhs.LinearRelaxation"])
p("C29", "Orographic forcing is -f/H times wind dotted with the gradient of the orography",
  "Every orographic forcing evaluates to minus Coriolis parameter (of the grid, or the given constant) over scale height times the scalar product of the selected wind (actual, zonal-mean, or solid body rotation, with its factor) and the gradient of the orography on the grid of the state. "
  "Gridded orography is interpolated linearly in latitude and longitude; the preset mountains have the documented shape, with longitude distances measured across the periodic boundary.",
  ["inputs", "configurations"], "every state and grid, orography, wind option, scale height, reference Coriolis parameter, mountain parameter",
  "Tests evaluate a few configurations on one grid.",
  [S + "rhs.py", S + "grid.py"], [("Orography, GaussianMountain, ZonalSineMountains", S + "rhs.py")], ["rhs.Orography", "rhs.GaussianMountain", "rhs.ZonalSineMountains"])
p("C30", "Initial condition presets produce the documented wind or PV profiles",
  "Every preset returns a state on the given grid and time with the documented profile: planetary vorticity only, given profile of wind or PV repeated on all longitudes, cosine wind, Gaussian jet with a linear profile subtracted such that the wind vanishes at both poles, and the Held (1985) profile, with zero meridional wind. "
  "Exactly one of wind and PV, of the right length, must be given where both are accepted.",
  ["inputs", "configurations"], "every grid, time and set of parameters", "Tests try default parameters.",
  [S + "init.py", S + "state.py"], [("init functions", S + "init.py")], ["init.*"])
p("C31", "Datasets are turned into the states they contain, in order, or rejected",
  "Every state created from a dataset has the fields found at one combination of the non-horizontal coordinates, in order and complete, on a grid that matches the dataset's coordinates, with the valid time of that combination (a plain number or datetime) or the fill value. "
  "Wind takes precedence over vorticity over absolute vorticity, names are detected or overridden as documented, and coordinates that do not describe the supported global grid are rejected.",
  ["inputs", "configurations"], "every dataset (any extra dimensions, names, coordinate values, time types)",
  "Datasets are an unbounded input space; the tests build a few.",
  [S + "io.py", S + "state.py"], [("io.from_dataset", S + "io.py")], ["io.from_dataset"])
p("C32", "Exported datasets hold every requested field with its name and coordinates",
  "Exporting states yields one variable per requested field, named and obtained as requested (attribute, list, mapping, callable), with the values of all states in order along the index dimension and latitude and longitude dimensions according to its shape, together with the coordinates of the grid and the valid times. "
  "Nothing is exported for no states, single states are accepted.",
  ["inputs", "configurations"], "every collection of states, field specification and index dimension", "Tests export a few fields of one list.",
  [S + "io.py"], [("io.as_dataset", S + "io.py")], ["io.as_dataset", "StateList.as_dataset"])
p("C33", "Plots show every field at the right place for every center longitude",
  "In all plot presets every longitude-latitude field, line and vector is drawn against the matching coordinates, with all fields of a panel and the longitude labels shifted consistently for any center longitude, and zonal means and profiles drawn against latitude. "
  "The data helpers return matching coordinates and values: Hovmoeller data with time on the documented axis, vectors thinned together with their coordinates, and contour levels symmetric about zero.",
  ["inputs", "configurations"], "every state, center longitude, hemisphere and option", "No test looks at what is drawn.",
  [S + "plot.py", S + "diagnostics.py"], [("plot presets and data helpers", S + "plot.py")], ["plot.*"])
p("C34", "Optional dependencies are only needed by the features that use them",
  "Importing the package and using any feature not documented to need an optional dependency never imports xarray, PyWavelets, falwa or matplotlib unconditionally: the package imports without them, with at most a warning. "
  "Only the required dependencies are imported at module level without protection.",
  ["configurations"], "every installation of optional packages", "Tests run in one environment where everything needed is installed.",
  [S + "__init__.py", S + "io.py", S + "plot.py", S + "state.py", S + "diagnostics.py"], [("imports inside functions or guarded", S + "plot.py, io.py, state.py, diagnostics.py")], ["import barotropic"])
p("C35", "Every name and external function the code refers to exists",
  "On no execution path does the package refer to a name that is not defined or to an attribute of its own modules, of its own classes or of the installed scientific libraries that does not exist, and its internal calls fit the signatures of the functions they call.",
  ["inputs", "histories"], "every path through every function", "Rare branches (error paths, optional variants) are never executed by the tests: two such errors were present.",
  ["src/barotropic"], [("all modules", "src/barotropic")], ["public API"])
p("C36", "Text representations describe the object they stand for",
  "The representation of times, states, grids, regions and models reports the actual values with the right units and exponents, for every value: times are shown in seconds, minutes, hours or days without changing their length and datetimes in ISO format, regions show their bounds and a map that marks selected sectors, models show twice the diffusion order as exponent. "
  "Producing it never fails or changes the object.",
  ["inputs"], "every time, grid, region and model", "Tests print a few objects or none.",
  [S + "formatting.py"], [("formatting functions", S + "formatting.py")], ["repr of Grid, GridRegion, State, BarotropicModel", "formatting.format_time"])
p("C37", "Exchange with falwa flips latitude exactly once in each direction",
  "The object handed to falwa has the longitudes of the grid, latitudes from south to north and the PV field flipped accordingly, with keyword arguments forwarded; a state created from a falwa object has its PV flipped back, on the given or a matching new grid, and objects of a different size are rejected. "
  "Converting there and back gives the original PV.",
  ["inputs"], "every state and every keyword argument", "falwa is not installed in the test environment.",
  [S + "state.py"], [("State.as_hn2016, State.from_hn2016", S + "state.py")], ["State.as_hn2016", "State.from_hn2016"])

NA = [
 ("C90", "Integrations conserve energy, enstrophy and global mean PV within bounds",
  "Unforced, undiffused integrations keep the total kinetic energy, the total enstrophy and the global mean PV of the flow within a small relative bound for every initial state and length of integration.",
  ["inputs", "histories"], "every initial state, step size and integration length", "Tests integrate one flow.",
  [S + "model.py"], [("BarotropicModel.run", S + "model.py")],
  "Accuracy of a nonlinear time-stepping scheme over a run depends on the runtime values of the fields and of the step size; no sound static argument bounds it. The update formula itself is decided by C01-C04."),
 ("C91", "Grid-spectral transforms reproduce fields to working precision",
  "Transforming a truncated field to spectral space and back returns the field to single precision for every resolution.",
  ["inputs", "configurations"], "every resolution and field", "Tests try one resolution.",
  [S + "grid.py"], [("spharm", "third-party Fortran library")],
  "The transforms are compiled Fortran code of a third party outside the repository; rounding error is a runtime quantity. The analyses treat them as uninterpreted linear operators."),
 ("C92", "Integrations remain numerically stable for admissible time steps",
  "With the default diffusion, integrations at or below the documented step sizes stay finite.",
  ["inputs", "histories"], "every state and step size", "Tests run short integrations.",
  [S + "model.py"], [("BarotropicModel", S + "model.py")],
  "Stability depends on the wind speed reached at run time; it is not a property of the source text."),
 ("C93", "Rendered figures look as documented",
  "The pixels of the preset figures show contour lines, labels and colours legibly for every state.",
  ["inputs"], "every state", "No image comparison exists.",
  [S + "plot.py"], [("matplotlib", "third party")],
  "Rendering happens in matplotlib; only the calls and the data passed to them are in the source and these are covered by C33."),
]


def main():
    from barolint import checks
    out = []
    for q in PROPS:
        out.append({"id": q["id"], "title": q["title"], "statement": q["statement"],
                    "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                    "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                                "observe_at": q["observe"]}})
        assert len(q["title"]) <= 80, q["id"]
    for (id, title, st, over, text, why, files, mech, reason) in NA:
        out.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                    "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})
        assert len(title) <= 80, id
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for o in out:
            f.write(json.dumps(o, ensure_ascii=False) + "\n")
    TECH = json.load(open(os.path.join(HERE, "tools", "technique.json")))
    cs, na = [], []
    for q in PROPS:
        if q["id"] in checks.PROPS:
            t = TECH.get(q["id"], TECH["default"])
            cs.append({"property": q["id"], "quick_cmd": "/opt/venv/bin/python -m barolint %s" % q["id"],
                       "thorough_cmd": "/opt/venv/bin/python -m barolint %s --tier thorough" % q["id"],
                       "technique": t[0], "level": "other", "level_note": t[1]})
        else:
            na.append({"property": q["id"], "reason": "no check has been built yet"})
    for n in NA:
        na.append({"property": n[0], "reason": n[-1]})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m compileall -q barolint", "checks": cs, "not_applicable": na,
         "notes": "No hooks in /repo. All checks parse /repo/src/barotropic on every run and execute none of it."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
