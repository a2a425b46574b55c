"""Per property: what is specified, how it is bound to the code, bounds, why tests cannot settle it."""
D = {
"C01": ("`Lifecycle.tla` (calls run/step/step-to-end on a model with N dates; refused calls are stuttering steps), invariants InOrder, RunCompletes, action properties RefusalIsNoOp, Monotone; `Calendar.tla` for the axis.",
        "All call sequences up to the bound (N dates, calls after the end, double runs) are emitted and replayed over 12 time axes; every call's outcome, error class, date, forcing requests, state digest and output records are compared.",
        "Tests run one call order each; the property is about every order and every axis."),
"C02": ("`Calendar.tla`: proleptic Gregorian calendar in minutes, day/month/year boundaries, strict and non-strict flags; round trip and flag invariants on thousands of days.",
        "Real runs over month/year/leap boundaries with 15 step lengths, flags of every step compared.",
        "Boundaries depend on step length, start offset and leap years together."),
"C03": ("`PointOutput.tla`: buffer, chunk instants, first/last chunk, stale files; invariants Complete, NoStale, AtEnd, Durable.",
        "Runs with every format x write frequency x variable set x point layout, files of earlier runs present; values compared as float32 bit patterns with the state of the cell recorded after every step.",
        "Loss happens only for particular run length / write frequency combinations."),
"C04": ("`GridOutput.tla`: schedules of frequencies and lists, windows, bounds; invariants RecordsFollowSchedule, Tiling, MonthPure, BoundsTile, OncePerMonth.",
        "Runs with many frequencies, starts not at midnight, mid-month, over year ends; times, bounds and file names read back.",
        "Calendar arithmetic over all alignments."),
"C05": ("`GridOutput.tla` (StepsOf a window, sum/mean over exactly those steps).",
        "Same runs, all formats and layouts, values of every cell compared with the recorded states; combinations of fields.",
        "Interaction of fields, formats, windows."),
"C06": ("`Forcing.tla`: records, windows (lo, hi], daily windows, sums/means/vector mean/maximum, refusal of irregular records; invariants Disjoint, Tiles, Conserved, Complete, Local, CoarserRefused.",
        "TLC emits record axis / step / gap layouts; turned into station data sets (NetCDF, CSV, in memory), the initialized model's data compared value by value.",
        "Alignment of windows for all offsets and gaps."),
"C07": ("`Forcing.tla` (InBounds, Selected, Kept, Chosen, Contributing, Failing).",
        "Station networks on bounds' edges, filters at limits, different periods and variables, CSV/NetCDF, numeric IDs.",
        "Edge inclusion, station alignment."),
"C08": ("`Interp.tla`: availability, IDW weights, regression/fixed/fractional trend, limits; invariants WeightsSumToOne, NearerWeighsMore, Exact, Linear, Translation, NoData.",
        "Station layouts emitted by TLC, real runs with gaps, each cell of each field compared with `Field`.",
        "Holds for every network and gap pattern."),
"C09": ("`Precip.tla`: phase, no-snow-below-rain, corrections (constant, WMO, Kochendorfer, redistribution); invariants Closes, NonNeg, NoSnowBelowRain, Monotone...",
        "Temperature offset patterns from TLC placed around thresholds (air and wet-bulb), all gauges.",
        "Values exactly at range limits, gaps, combinations."),
"C10": ("`Snowpack.tla`: layers with ice and liquid, Accumulate/MeltFrom/TakeIce/Percolate/Refreeze/Relayer, LedgerOK; invariants Conserved, BarePasses, NonNegative.",
        "Weather words enumerated by TLC (all sequences up to the bound over an alphabet of weather), one per cell, for all snow models / melt methods / steps; ledger of every cell and step.",
        "Mass leaks occur in particular layer configurations reached by particular histories."),
"C11": ("`Snowpack.tla` (Layering, Cap).", "Same runs, structural clauses on every cell and step.", "Reachable-state invariant."),
"C12": ("`CryoLayers.tla`: four classes, merge, transitions, firn step; invariants Conserved, NewIsLight, FirnGrowsOnlyThen, IceOnlyGrows, OldGone.",
        "Words with densities driven to thresholds, runs over the firn month with axes without midnight steps.", "Order of transitions and calendar."),
"C13": ("`Canopy.tla`: LAI seasons, capacity, interception, unloading, below-canopy weather; invariants Conserved, Bounded. `CanopySub.tla`: sublimation of ice particles (Liston and Elder 2006) and longwave radiation below the canopy; `MCCanopySub`: drier, sunnier, darker, windier air takes more, never more than the load, smaller loads lose larger shares. (The saturation vapour pressure used is the one the model derived above the canopy.)",
        "Pairs of forest/open cells under the same words, compared with a canopy-free twin run.", "Balance per step for every load history."),
"C14": ("`SoilWater.tla` (FAO-56 dual coefficient: Kr, Ke, Ks, depletion, percolation, crop stages).",
        "TLC-enumerated wet/dry/snow words for all land cover kinds, soil textures and growing cycles.", "Bounds must hold for every sequence."),
"C15": ("`Glacier.tla`: mass balance year, delta-h distribution with terminus limit; invariants Conserves, NonNeg, OnlyThick, CompleteYears, NoYearMissed.",
        "Runs over year ends with twin runs without the glacier model to isolate the update.", "Geometry cases (flat, tiny, thin glaciers), incomplete years."),
"C16": ("`Cells.tla`: grid of independent cells, region, wiping; invariants OutsideNeverMatters, RegionNeverMatters, WipingNeverMatters (non-interference as self-composition).",
        "Twin runs differing only outside / in the region / in resetting, digests of states compared.", "Non-interference is a 2-safety property."),
"C17": ("`Config.tla`: acceptance and normalisation; invariants Idempotent, OldMeansNew, UserKept, LastStep; pinned list of documented settings (`harness/data/config_schema.json`).",
        "Configurations emitted by TLC plus every leaf of the schema varied; parse, re-parse, write/read.", "Space of configurations."),
"C18": ("`Clouds.tla`: source chain, sun windows, emissivity mix; invariants NeverWithout, FirstApplicable, OnlyOffered.",
        "Availability words (which sources have data when) replayed on station networks in three seasons.", "Every gap pattern x configuration."),
"C19": ("`Rasters.tla`: extents, alignment, cover; loader as state machine; invariants ReadyMeansFaultless, FaultIsReported, ReadyMeansOneGrid.",
        "Combinations of deviating rasters emitted by TLC written as files; outcome and placement of values compared.", "Combinations of faults."),
"C20": ("`Host.tla`: loggers, handlers, threads, several models and the application interleaved; properties HandsOff, SettledAfterFirst.",
        "Interleavings emitted by TLC replayed in forked processes.", "Histories of the process."),
"C21": ("`Runs.tla`: results as a function of configuration and data (a leak constant shows the invariant can fail).",
        "Words of run/step/copy/pickle/drop/other model replayed; digests compared; thread part with compiled kernels 1..8 threads.", "2-safety over histories and schedules."),
"C22": ("`Albedo.tla` (exponential ageing, binary/continuous refresh); invariants InBounds, Decays, MeltingFaster, SplitInvariant.",
        "Weather words x albedo configurations x step lengths.", "Every history."),
"C23": ("`DegreeDay.tla`; invariants Balance, TopFirst, ZeroBelow, Monotone, Splits.",
        "Weather words, temperatures at the threshold, all step lengths.", "Every history."),
"C24": ("`Energy.tla`, `Humid.tla`: laws of every flux, of exchange and stability, in fixed point; `MCEnergy.tla`: surplus and deficit distributed over layers (invariants Conserved, Mass, Sane; steps NoWaste, TopDown, ColdFirst), monotonicity of the balance in the surface temperature.",
        "Weather words enumerated by `MCSnow` drive both snow schemes over 24 cells; every step's recorded fluxes are judged by `TraceEnergy.tla`: each law, and the sum against the melt reported, with the error of the linearisation derived from the recorded temperatures.", "Every history of weather and snow cover, all scheme settings; the stable tests run no energy balance."),
"C25": ("`MCHeat.tla`: heat passing through a stack in any order (Conserved, Bounded, OneSided); `Energy.tla`: conductance and heat content.",
        "Every stack of `MCHeat` is computed by the real scheme (both versions) and judged layer by layer by `TraceStack.tla`; whole runs by `TraceHeat.tla` (soil layers, ground flux, enthalpy of the snowpack).", "Every profile and history; layer rearrangement included."),
"C26": ("`Humid.tla`: the laws of moist air in fixed point (logarithm, exponential, sine included); `MCHumid.tla`: grid of temperatures, humidities, elevations with invariants (dew point below wet bulb below air temperature, monotone, continuous at the freezing point, inverses).",
        "Every combination emitted by `MCHumid` is evaluated by the real functions (scalars, arrays, shapes, NaN); the same laws judge the fields of real runs (`TraceHumid.tla`).", "Laws must hold on the whole domain; the wet bulb is the zero of a balance, checked by its sign on both sides."),
"C27": ("`Terrain.tla`, `Trig.tla`: finite differences, rays, horizon angles on integer elevation models; `MCTerrain.tla`: small elevation models (all assignments of heights) with invariants (rotation, reflection, inversion, summit, monotone shadows).",
        "Elevation models emitted by `MCTerrain` and random larger ones: the real slope, aspect, normals, curvature, shadow (exact in eight directions, bracketed by one cell for any azimuth), sky view and openness fields are recomputed cell by cell in `TraceTerrain.tla`; models with and without extended grid.", "Edges, plateaus, pits and sun positions combine."),
"C28": ("`Wind.tla`: slope in the wind, scaling, weights, diversion; `MCWind.tla`: three slopes under wind from every direction (Limits, Windward, Isotropic, Diverted, Flat).",
        "Words of `MCWind` choose directions; every real run is made twice, over terrain and on level ground: the level run is the interpolated vector (IDW weights of `Interp.tla`), the other must be its weighted and turned image (`TraceWind.tla`).", "Depends on the extremes over the whole region, on every station gap and direction."),
"C29": ("`Sun.tla`: astronomy, transmittances, diffuse and reflected radiation, longwave in fixed point; `MCSun.tla`: days of the sun over latitudes and seasons (Unit, RiseAndSet, Mirror, Antipode, PolarDay, Seasons) and skies (LowerSunLess, HazeDims, VapourDims, OzoneDims, HigherClearer, NotMore, SkyView, LongWave).",
        "Days and skies emitted by `MCSun` become calls of `sun_parameters` and real runs (map projections centred on any place, time zones, extended grids, coarse shadows, all radiation parameters); `TraceSun.tla` recomputes every cell.", "Every place, season, clock and atmosphere; three defects of the formulas were invisible to the tests."),
"C30": ("`RefET.tla`: net radiation, ground heat, FAO-56 reference rate, wind profile, aerodynamic conductance and latent heat flux of sealed surfaces; `MCRefET.tla`: demands over temperatures, radiation, deficits, winds, heights (NeverNegative, SunnierMore, DrierMore, WindierMore, EnergyLimit, WithinStore, LongerMore, SlopeRises, ProfileFalls).",
        "Real runs over all settings with forcing that goes missing; `TraceRefET.tla` recomputes the demand of every cell and step and follows the store of sealed cells.", "No test runs this module; the demand depends on every meteorological input at once."),
"C31": ("`Settle.tla`: growth of density under load, temperature and wetness, empirical approach to limits, fresh density, taking ice off the top, firn; `MCSettle.tla`: stacks of layers through sequences of snowfall, settling, compaction and removal (NoNegative, SettlingKeepsMass, NeverUnsettles, CompactLimit, FallsOnTop, TakenFromTop, Fresh, Faster).",
        "Real runs of both snow models over all settings with gaps; `TraceProper.tla` (part depth) recomputes the depth of every layer from the layers before, the recorded snowfall, melt, refreezing and sublimation. Where the multilayer model melts inside the pack (not booked by layer) the depth is only bounded; multilayer runs use steps up to 6 h (day steps make its explicit soil scheme diverge).", "Depth is what users see and feeds cover, albedo, energy balance and densities; it depends on all steps before."),
"C32": ("`Ground.tla`: texture laws, freezing-point depression, apparent heat capacity, conductivities, cover, mixing, surface layer; `MCGround.tla`: textures x moistures x temperatures x depths (Textures, SandDries, ColderLessLiquid, ThawedAllLiquid, HeatIsStored: the capacity is the derivative of the stored heat, FreezingDelays, Conducts, Covering, Opens, LayerBetween).",
        "Real runs over textures (pure sand, pure clay, dry soil), soil layers, moistures; `TraceProper.tla` (part ground) recomputes every property from the recorded temperatures and depths before. HeatIsStored exposed that the code took K for degrees C in the latent heat term (repaired).", "Errors here only shift temperatures a little and no test compares them; the design invariant ties the capacity to the energy it must store."),
}
