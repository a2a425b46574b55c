#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/make_properties.py)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = False
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})


NODATA = ("The stable tests contain no complete model run with forcing data (the test data set is "
          "downloaded), so ")

prop("C01", "A run visits every configured date once, in order; bad calls are refused",
     "A simulation processes exactly the dates start, start + step, ..., end, each one once and in order, whether "
     "it is driven by the single-run call, by the single-step call or by stepping to the end. "
     "Running twice, running after single-stepping has begun, and stepping past the end are refused with the "
     "package's runtime error, and a refused call changes neither the current date nor the model state, the forcing "
     "requests or the outputs.",
     ["histories", "configurations"],
     "Every sequence of run / step calls (bounded length) on models with any start, end and time step.",
     NODATA + "no stable test drives even one complete run; call sequences are not enumerated at all.",
     ["openamundsen/model.py", "openamundsen/conf.py"],
     [("run/run_single driver", "openamundsen/model.py: OpenAmundsen.run, run_single"),
      ("time axis", "openamundsen/model.py: _prepare_time_steps")],
     ["current date and date index", "meteo callback invocations", "in-memory outputs", "raised errors"])

prop("C02", "Calendar flags of a time step are exact",
     "At every time step the exposed first/last-of-run/day/month/year flags are right: a strict first (last) flag is true "
     "exactly when the date one step earlier (later) lies in a different day, month or year, and the non-strict flag is "
     "true exactly when the strict one is true or the step is the first (last) of the run.",
     ["configurations", "histories"],
     "Every date of every run period and every time step length up to one day, across month ends, leap days and year ends.",
     "Tests look at about ten hand-picked dates with one time step length (and need the downloaded data set).",
     ["openamundsen/model.py"], [("timestep properties", "openamundsen/model.py: OpenAmundsen.timestep_props")],
     ["timestep_props of the model after every step"])

prop("C03", "Time series output is complete, faithful and independent of chunking",
     "After a run, the time series output holds for every requested point and variable exactly one record per model date, "
     "equal (to single precision) to that variable's state in the grid cell containing the point at the end of that time "
     "step, with one column per layer for layered variables. "
     "The content is the same for the NetCDF, CSV and in-memory formats and for every write frequency, and files left in "
     "the results directory by an earlier run do not leak into it.",
     ["configurations", "histories", "inputs"],
     "Every combination of output format, write frequency, run length, time step, variables and points.",
     "Tests (not among the stable ones) compare one or two write frequencies on one data set; chunk boundaries are an unbounded family.",
     ["openamundsen/fileio/pointoutput.py"],
     [("chunk table / flush", "openamundsen/fileio/pointoutput.py: PointOutputManager.update, _write_data"),
      ("write dates", "openamundsen/fileio/pointoutput.py: PointOutputManager.__init__"),
      ("point-to-pixel mapping", "openamundsen/fileio/pointoutput.py: _prepare_point_coords")],
     ["output files / in-memory dataset", "model state after each step"])

prop("C04", "Gridded output is written on exactly the configured dates",
     "For every configured grid variable the set of output times is exactly the one its frequency or explicit date list "
     "denotes within the run period. Hour- and day-based frequencies divide the run from its first date: an instantaneous "
     "field is written at the first step of each interval, an aggregated field at its last step. Month- and year-end "
     "output, and every monthly or yearly aggregate, is written at the last model step of each month or year that ends "
     "within the run; month- and year-start output on the first day at the run's time of day. An incomplete last "
     "window is not written, time bounds and file names of aggregated fields tile the run without gap or overlap, "
     "frequencies that are not multiples of the step are refused, and a field without any date in the run period is "
     "dropped while every other one is written once per date.",
     ["configurations"],
     "Every run period, time step, frequency (hours, days, month and year ends), explicit date list and aggregation.",
     "test_freq_write_dates checks a few dozen literal combinations of the date helper and no written output.",
     ["openamundsen/fileio/griddedoutput.py", "openamundsen/util.py"],
     [("write date calculation", "openamundsen/fileio/griddedoutput.py: _freq_write_dates, GriddedOutputManager.__init__"),
      ("aggregation windows", "openamundsen/fileio/griddedoutput.py: time bounds in _create_dataset / update")],
     ["time and time-bounds coordinates of the written output", "names of raster files"])

prop("C05", "Gridded output values are faithful in every format and layout",
     "Every written grid holds, for every cell of the region of interest, the variable's state at that time, or for an "
     "aggregated field the sum or mean of the states at exactly the model steps inside its time window, and (for "
     "floating-point variables) no data outside the region of interest. "
     "The values do not depend on the output format (NetCDF with or without appending, ASCII, GeoTIFF, in-memory) or on "
     "the layout (full grid or region-of-interest pixels), nor on which other fields are written.",
     ["configurations", "inputs"],
     "Every combination of variables (2-D and layered), aggregations, frequencies, formats and layouts.",
     "Tests (not among the stable ones) compare a few formats on one period; interactions between fields with different schedules are not sampled.",
     ["openamundsen/fileio/griddedoutput.py", "openamundsen/util.py"],
     [("aggregation", "openamundsen/fileio/griddedoutput.py: GriddedOutputManager.update"),
      ("layout conversion", "openamundsen/util.py: convert_roi_pixel_dataset_to_grid")],
     ["written files / in-memory dataset", "model state after each step"])

prop("C06", "Forcing is resampled to the model step without loss or shift",
     "When station records are finer than the model step, the precipitation of a model step is the sum of exactly the "
     "records in its window (the step's end included, its beginning excluded; a whole calendar day for daily steps) and is missing if any of "
     "them is missing, so that the total over the run is conserved. "
     "Other variables are the record at the step's time stamp, or, if aggregation is enabled, the mean over the same "
     "window (wind direction as vector mean, gusts as maximum); a step before a station's first or after its last record is "
     "missing for that station. A run in which a model date lies between two records of a station without a record at that date is refused.",
     ["inputs", "configurations"],
     "Every station series (gaps, offsets of start and end), record interval, model step and run period.",
     "Tests (not among the stable ones) resample one recorded data set at two or three steps.",
     ["openamundsen/fileio/meteo.py"],
     [("resampling", "openamundsen/fileio/meteo.py: _slice_and_resample_dataset, resample"),],
     ["station forcing table of the initialized model"])

prop("C07", "Exactly the configured stations and plausible values enter the run",
     "A station is used exactly when it lies in the configured bounds (lower edges included, upper edges excluded) and is not "
     "excluded, or is explicitly included; values outside the configured filter range of their variable, and only those, "
     "become missing while range limits themselves are kept. "
     "Stations with gaps, different periods or different variable sets are aligned on the model dates with missing values "
     "and never shifted or mixed; when no station or no data for the run period is left, initialization fails with the "
     "package's forcing error instead of running.",
     ["inputs", "configurations"],
     "Every set of stations, positions, bounds, include/exclude lists, filter limits and data periods, in CSV and NetCDF.",
     "Tests (not among the stable ones) sample a handful of rules on three stations.",
     ["openamundsen/fileio/meteo.py", "openamundsen/forcing.py", "openamundsen/model.py"],
     [("station rules", "openamundsen/fileio/meteo.py: read_meteo_data, _apply_station_rules"),
      ("filters", "openamundsen/fileio/meteo.py: _apply_filters"),
      ("merging", "openamundsen/forcing.py: combine_point_datasets")],
     ["station forcing table of the initialized model", "raised errors"])

prop("C08", "Interpolated fields follow trend plus inverse-distance weighting",
     "At every step and cell of the region of interest the interpolated field equals the elevation trend (regression or the "
     "month's fixed lapse rate) at the cell plus the inverse-squared-distance mean of the station residuals, using only "
     "the stations that have a value then; if no station has one, precipitation is zero and the other fields are missing. "
     "Stations at fewer than two elevations give no trend. Temperature and precipitation are never negative, relative humidity stays within 0 and 100 %, wind speed is at least 0.1 m/s, "
     "and with extrapolation off the field stays within the range of the station values.",
     ["inputs", "configurations"],
     "Every number and position of stations, values (with gaps), elevations, months and interpolation settings.",
     "Stable tests do not interpolate at all; the others compare with stored results of one data set.",
     ["openamundsen/meteo/interpolation.py", "openamundsen/interpolation.py"],
     [("parameter interpolation", "openamundsen/meteo/interpolation.py: interpolate_param, interpolate_station_data"),
      ("IDW kernel", "openamundsen/interpolation.py: idw")],
     ["meteorological state fields after each step"])

prop("C09", "Precipitation is partitioned into snow and rain without gain or loss",
     "In every cell and step snowfall and rainfall are non-negative and add up to precipitation, and the snow fraction is 1 "
     "below, 0 above and linear within the configured temperature range around the threshold (air or wet-bulb "
     "temperature), with the no-snow-below-rain option turning all snowfall at or below the highest all-rain elevation to rain. "
     "Snow corrections change only the snow part: a constant correction factor multiplies the solid part of the station "
     "precipitation and a redistribution factor multiplies snowfall cell by cell, rainfall staying unchanged; gauge-specific "
     "wind corrections multiply the station precipitation by their transfer function (the WMO ones for solid and mixed precipitation only).",
     ["inputs", "configurations"],
     "Every temperature, humidity, precipitation, threshold, range, elevation pattern and correction setting.",
     NODATA + "only the scalar phase function is tested at a few temperatures.",
     ["openamundsen/model.py", "openamundsen/meteo/atmosphere.py", "openamundsen/meteo/precipcorr.py"],
     [("phase separation", "openamundsen/model.py: _process_meteo_data"),
      ("phase function", "openamundsen/meteo/atmosphere.py: precipitation_phase"),
      ("station correction", "openamundsen/meteo/precipcorr.py")],
     ["precipitation, snowfall and rainfall state fields", "corrected station table"])

prop("C10", "Snowpack mass balance closes in every cell and step",
     "For both snow models and every melt method, the change of snow water equivalent in a cell over a step equals "
     "snowfall (plus rain caught in the pack) minus runoff from the pack minus net sublimation, so that no water is "
     "created or lost by accumulation, compaction, melt, refreezing, re-layering or layer transitions. "
     "Without snow and snowfall, rain passes through as runoff, and snow never turns negative.",
     ["histories", "inputs", "configurations"],
     "Every weather sequence (snow, rain on snow, melt, refreeze, drought, wind), snow model, layer setup, melt method and time step.",
     NODATA + "no stable test runs a snow model; conservation is a property of whole histories.",
     ["openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/cryolayermodel.py", "openamundsen/modules/snow/snow.py"],
     [("multilayer process steps", "openamundsen/modules/snow/multilayermodel.py"),
      ("cryo layer process steps", "openamundsen/modules/snow/cryolayermodel.py")],
     ["snow state fields before and after every step", "precipitation fields"])

prop("C11", "Snow state stays physically consistent in every reachable state",
     "After every step, in every cell: layer thicknesses, ice and liquid contents are non-negative; snow depth and water "
     "equivalent are the sums over the layers; layers are filled from the top without holes, the layer count matches and "
     "each layer respects the configured thicknesses; layer densities lie between zero and that of ice (water for saturated "
     "slush); layer temperatures never exceed the melting point and liquid water does not exceed the holding capacity; "
     "a cell without snow has zero depth, no layers and no snow cover fraction.",
     ["histories", "inputs", "configurations"],
     "Every weather sequence, layer setup and time step for both snow models.",
     NODATA + "no stable test ever reaches a state with snow.",
     ["openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/cryolayermodel.py", "openamundsen/modules/snow/snow.py"],
     [("layer update", "openamundsen/modules/snow/multilayermodel.py: _update_layers"),
      ("bulk properties", "openamundsen/modules/snow/snow.py: snow_properties")],
     ["snow state fields after every step"])

prop("C12", "Cryospheric layers change class only by the configured transition rules",
     "In the cryospheric layer model new snow becomes old snow exactly in the step in which its density reaches the configured "
     "threshold, old snow becomes firn only in the first step of the configured month, firn becomes ice when it reaches the "
     "configured density, and ice never turns back. "
     "A transition moves the whole layer into the next class without changing the total water, the density of a layer it merges "
     "with becoming the mass-weighted mean.",
     ["histories", "configurations"],
     "Every weather history, transition month, density thresholds, start date and time step.",
     NODATA + "transitions are never exercised; the firn rule depends on the calendar and the step length.",
     ["openamundsen/modules/snow/cryolayermodel.py"],
     [("layer transitions", "openamundsen/modules/snow/cryolayermodel.py: update_layers / transition")],
     ["layer state fields before and after every step"])

prop("C13", "Canopy interception conserves snow",
     "In forest cells the intercepted snow load changes in each step exactly by the snow intercepted minus the snow that "
     "sublimates from the canopy and the snow that melts off it, never becomes negative and never takes up more than the "
     "configured capacity; snowfall reaching the ground is reduced by the interception and increased by the unloaded "
     "meltwater, rain passes unchanged. Sublimation from the canopy is that of ice particles that lose vapour to the air below the canopy "
     "(temperature, humidity, wind) and are warmed by the sunlight they absorb, for the exposed share of the load. Longwave radiation below "
     "the canopy is the mix of the sky's and the canopy's. Below the canopy shortwave radiation and wind are attenuated exponentially with the effective leaf "
     "area index, which follows the growing season of the land cover class, and temperature is damped towards its 24-hour mean. "
     "Weather and precipitation of cells without forest are unaffected by the canopy.",
     ["histories", "inputs", "configurations"],
     "Every weather history, leaf area index, land cover layout and canopy parameter.",
     NODATA + "the canopy module is never run by a stable test.",
     ["openamundsen/modules/canopy/canopy.py", "openamundsen/landcover.py"],
     [("interception", "openamundsen/modules/canopy/canopy.py: CanopyModel.snow")],
     ["canopy state fields, precipitation fields before and after"])

prop("C14", "Soil-water balance of evapotranspiration closes and stays bounded",
     "With evapotranspiration enabled, in every soil cell the root-zone depletion changes in each step by evapotranspiration plus "
     "deep percolation minus rain and the evaporation-layer depletion of snow-free cells by evaporation (per exposed soil fraction) plus percolation minus "
     "rain, both limited to between zero and the available water, and percolation occurs only as far as rain exceeds the depletion. "
     "Evapotranspiration is never negative, is the sum of evaporation and transpiration and is zero under snow (except for water "
     "bodies); transpiration (evaporation) declines linearly to zero once the readily available (evaporable) water is used up. Sealed surfaces evaporate only what "
     "they intercepted, up to their configured storage, the rest running off.",
     ["histories", "inputs", "configurations"],
     "Every weather history, soil texture, land cover class, growth stage and time step.",
     NODATA + "the evapotranspiration module is never run by a stable test.",
     ["openamundsen/modules/evapotranspiration/evapotranspiration.py"],
     [("water balance", "openamundsen/modules/evapotranspiration/evapotranspiration.py")],
     ["evapotranspiration state fields"])

prop("C15", "Glacier geometry changes only at the mass-balance year end and conserves mass",
     "With the glacier model enabled the ice redistribution happens only at the boundary of a complete mass-balance "
     "year as configured, never in between and never for an incomplete year; it applies per glacier, does not change the total ice "
     "mass of that glacier, never makes ice negative and leaves cells outside glaciers and cells with less than 10 m of ice alone. "
     "The year's loss is distributed by the delta-h curve of the glacier's area over normalised elevation, limited to the "
     "lowest mass balance at the terminus with the surplus going to the higher cells; a gain is distributed evenly.",
     ["histories", "configurations"],
     "Every run period, time step, mass-balance month, glacier layout and mass balance history.",
     "There is no test of the glacier module at all.",
     ["openamundsen/modules/glacier/glaciermodel.py"],
     [("mass balance year", "openamundsen/modules/glacier/glaciermodel.py: GlacierModel.update"),
      ("delta-h distribution", "openamundsen/modules/glacier/glaciermodel.py")],
     ["ice content fields before and after every step"])

prop("C16", "Computation is confined to the region of interest and cell by cell",
     "Cells outside the region of interest stay bare: steps leave them as no data, zero or with the bare-ground albedo and "
     "roughness, and they never influence results, even if their forcing is filled in, their rasters differ or values are put into their state. Which other "
     "cells belong to the region of interest does not change the snow evolution of a cell under the same weather and "
     "radiation (the clear-sky radiation uses the mean albedo of the region). With state resetting enabled every variable not declared persistent starts each step as no data, while "
     "persistent variables and the results of the run are the same as without resetting.",
     ["configurations", "inputs", "histories"],
     "Every region of interest mask, grid shape, weather pattern and reset setting.",
     NODATA + "no stable test runs on a grid with a partial region of interest.",
     ["openamundsen/statevars.py", "openamundsen/model.py", "openamundsen/util.py"],
     [("state reset", "openamundsen/statevars.py: StateVariableManager.reset"),
      ("ROI indexing", "openamundsen/util.py: ModelGrid")],
     ["all state fields after every step"])

prop("C17", "Configuration is completed, normalised and rejected consistently",
     "A configuration is accepted exactly when its dates, step, coordinate system, write frequency and module combination are "
     "compatible; accepted ones are completed with the documented defaults, a date-only end means one step before the following midnight (steps shorter than a day), "
     "deprecated names and units mean the same as their replacements, and parsing an already complete "
     "configuration again, also after writing it out and reading it in, changes nothing. Unknown, missing or ill-typed settings are rejected, user settings are never silently dropped or overwritten by defaults, and land cover parameters of one class do not alter another.",
     ["configurations"],
     "Every combination of the listed settings, in old and new spelling.",
     "Tests check a few dozen literal configurations; combinations are not enumerated.",
     ["openamundsen/conf.py", "openamundsen/data/configschema.yml", "openamundsen/util.py"],
     [("parsing and validation", "openamundsen/conf.py: parse_config, validate_config, _parse_end_date, _merge_land_cover_params")],
     ["effective configuration of the model", "raised errors"])

prop("C18", "Cloudiness follows the configured fallback chain and bounds radiation",
     "At every step of a run on station data, cloudiness comes from the first applicable source of the configured chain: prescribed observations; "
     "by day the ratio of measured to clear-sky radiation at the stations for which clear-sky radiation is known; the configured night method when the sun is down; "
     "humidity; and the previous step's value (0.75 if there is none). Without fallback, a source with no data gives no cloudiness. Cloud factor and cloud "
     "fraction stay within 0 and 1 and belong to each other. The sun is up or down by the clock of the simulation time zone. "
     "Incoming shortwave is the clear-sky radiation times the cloud factor; clear-sky radiation is the sum of non-negative direct and diffuse parts "
     "and is zero when the sun is below the horizon. Where the sky is unobstructed, incoming longwave is that of the clear sky and, weighted with the squared "
     "cloud fraction, that of clouds with the configured emissivity.",
     ["histories", "inputs", "configurations"],
     "Every availability pattern of station variables over time, day and night, and every cloudiness setting.",
     NODATA + "no stable test computes cloudiness.",
     ["openamundsen/modules/radiation/irradiance.py", "openamundsen/modules/radiation/clearsky.py"],
     [("cloudiness selection", "openamundsen/modules/radiation/irradiance.py: shortwave_irradiance")],
     ["cloud and shortwave state fields"])

prop("C19", "Input rasters are used only if they match the model grid",
     "Initialization succeeds exactly if the terrain raster has square cells of the configured resolution, every other input raster in use has the same "
     "extent, cell size and shape, an extended terrain raster is aligned with the grid and covers it, and an extended sky view raster matches it; otherwise it fails "
     "with the package's raster error, or a file error if a required raster is missing, and writes no results. "
     "The region of interest is exactly the set of cells marked in its raster (all cells without one) that have a terrain "
     "elevation, plus station cells if that option is on, and every raster value is placed in the cell it belongs to (no data: not in the region, class 0, unknown).",
     ["inputs", "configurations"],
     "Every set of input rasters with any extent, cell size, no-data pattern and options.",
     "test_raster_input covers a few mismatches of the file reader; the combination in a model setup is not tested.",
     ["openamundsen/model.py", "openamundsen/fileio/raster.py", "openamundsen/util.py"],
     [("raster reading", "openamundsen/fileio/raster.py"), ("input reading", "openamundsen/model.py: _initialize_grid, _read_input_data")],
     ["grid, region of interest and raster-backed state fields after initialization", "raised errors"])

prop("C20", "A model leaves its host process and inputs as it found them",
     "A model sets logging up once per process, when it is first initialized or stepped there: there is never more than one default log handler, it is installed with "
     "the configured level only if default logging is enabled and the application has attached no handler of its own to the package logger, and in that case handlers and "
     "level of the application are left as they are; the root logger is never touched, and later steps change nothing. "
     "The configured number of threads of the numerical library is in effect during a step, and the count is the same after every call, completed or failed, as before it. "
     "The caller's configuration and forcing data and other settings of the process are never modified.",
     ["histories", "configurations"],
     "Every interleaving of model creations, initializations, steps and logger reconfigurations in a process.",
     "test_logging checks single scenarios; interleavings and failing steps are not covered.",
     ["openamundsen/model.py", "openamundsen/logformat.py"],
     [("logger set-up", "openamundsen/model.py: configure_logger, _ensure_logger_configured"),
      ("thread count", "openamundsen/model.py: run_single")],
     ["handlers and level of the package logger", "numba thread count", "caller-owned dictionaries and datasets"])

prop("C21", "Equivalent ways to run a simulation give identical results",
     "The results of a run are a function of configuration and data only: repeating it (also when the first run computed and saved the sky view factor), "
     "changing the number of threads, running in one call or step by step, running, copying or dropping other models in between, continuing with a pickled copy, requesting other outputs, "
     "and supplying the same configuration as dictionary or file or the same forcing as CSV, NetCDF or in-memory data all give the same states and outputs. "
     "Terrain parameters (openness, sky view, shadows) do not depend on the number of threads.",
     ["configurations", "schedules", "histories"],
     "Every pair of equivalent ways to run the same simulation, including interleaved models in one process.",
     NODATA + "equivalence of whole runs is not tested by the stable tests.",
     ["openamundsen/model.py", "openamundsen/fileio/meteo.py", "openamundsen/modules/snow/multilayermodel.py"],
     [("run driver", "openamundsen/model.py"), ("parallel kernels", "openamundsen/modules/snow/*.py, soil.py, interpolation.py")],
     ["final state and outputs of the two runs"])

prop("C22", "Snow albedo ages and is refreshed by the configured rule",
     "Snow albedo always stays between its configured minimum and maximum; without fresh snow it decays exponentially "
     "towards the minimum with the time scale for cold or melting conditions, and snowfall raises it, to the maximum "
     "when it reaches the configured amount (binary refresh) or in proportion to it (continuous refresh), independent of the step length's unit. "
     "Firn and ice surfaces have their configured albedos, and the surface albedo is that of the ground where there is no snow.",
     ["histories", "configurations", "inputs"],
     "Every weather history, albedo parameter set, time step and snow model.",
     NODATA + "albedo is never computed by a stable test.",
     ["openamundsen/modules/snow/snow.py", "openamundsen/modules/snow/cryolayermodel.py", "openamundsen/surface.py"],
     [("albedo", "openamundsen/modules/snow/snow.py: albedo")],
     ["albedo state fields before and after every step"])

prop("C23", "Temperature-index melt is the degree-day amount, limited by the snow present",
     "With a temperature-index method, melt in a cell and step is the degree-day factor times the excess of air temperature "
     "over the threshold (plus the albedo factor times absorbed shortwave radiation in the enhanced method), scaled to the step length, zero at or below the threshold, and taken from the "
     "layers from the surface downwards, never more than they contain.",
     ["histories", "inputs", "configurations"],
     "Every temperature, radiation, factor, time step and layer state.",
     NODATA + "temperature-index melt is never run by a stable test.",
     ["openamundsen/modules/snow/cryolayermodel.py"],
     [("temperature index", "openamundsen/modules/snow/cryolayermodel.py: temperature_index, melt")],
     ["melt and layer state fields"])

prop("C24", "The surface energy balance closes",
     "In every cell and step with complete meteorology, the fluxes reported for the surface obey their laws (reflection by the albedo, "
     "emission by the surface temperature, sensible and latent heat by the exchange coefficient over the logarithmic profile and its stability "
     "adjustment, the latent heat of ice over snow and frozen ground, heat advected by precipitation) and sum up: over bare ground to zero, over snow to the energy of the melt reported, "
     "within the linearisation of the scheme. Snow is never warmer than the melting point; in the cryolayer scheme the surface of freezing snow "
     "has the temperature that closes the balance, a surplus is spent on cold content and then on melt from the top down, a deficit on refreezing and cold content "
     "up to what the snow can hold, and the moisture flux of the balance is the mass that sublimates.",
     ["histories", "inputs", "configurations"],
     "Every weather history, snow scheme, step length, emissivity, surface heat flux, stability setting, holding capacity and refreezing factor.",
     NODATA + "no stable test looks at an energy flux.",
     ["openamundsen/surface.py", "openamundsen/modules/snow/cryolayermodel.py", "openamundsen/modules/snow/multilayermodel.py"],
     [("balance", "openamundsen/surface.py: multilayer_energy_balance, cryo_layer_energy_balance, solve_energy_balance, iterate_surface_temperature"),
      ("exchange", "openamundsen/surface.py: calc_turbulent_exchange_coefficient, stability_factor, calc_turbulent_fluxes, calc_latent_heat")],
     ["surface flux fields", "snow melt, refreezing, sublimation"])

prop("C25", "Heat conduction in snow and soil conserves energy",
     "In the multi-layer scheme heat is neither created nor lost below the surface: each soil layer's change in temperature times its heat capacity is the "
     "heat conducted in from above less that conducted on, at the conductance of the two half layers; bare ground takes up the surface heat flux and snow-covered ground the heat that leaves the snowpack; "
     "the heat the snowpack gains (surface flux plus surplus at the melting point less what goes to the ground) is what warms it and melts it, less refreezing, up to the heat moved with mass that comes and goes, "
     "also when layers are rearranged; without a surface flux no layer leaves the range of temperatures there were; snow layers stay at or below the melting point.",
     ["histories", "inputs", "configurations"],
     "Every weather history, layering of snow and soil, step length, and every profile of temperatures, conductivities, thicknesses and capacities.",
     NODATA + "no stable test looks at a snow or soil temperature.",
     ["openamundsen/heatconduction.py", "openamundsen/tridiag.py", "openamundsen/modules/soil/soil.py", "openamundsen/modules/snow/multilayermodel.py"],
     [("scheme", "openamundsen/heatconduction.py: temp_change, temp_change_array"),
      ("soil", "openamundsen/modules/soil/soil.py: soil_heat_flux, soil_temperature"),
      ("snow", "openamundsen/modules/snow/multilayermodel.py: heat_conduction, melt, runoff, update_layers")],
     ["snow and soil layer temperatures", "soil heat flux"])

prop("C26", "Derived meteorology follows the laws of moist air",
     "For every air temperature, humidity, elevation and wind, alone or in arrays, and in every cell of every step of a run: atmospheric pressure follows the barometric formula; "
     "saturation vapour pressure the Magnus formula (over water from 0 degC, over ice below); vapour pressure, specific and absolute humidity, specific heat, latent heat, psychrometric constant, "
     "precipitable water and air density their definitions; the wet-bulb temperature balances the psychrometric equation and lies between dew point and air temperature up to the numerical tolerance; "
     "the dew point is where the air saturates; inverse functions lead back; the snow fraction falls from 1 to 0 over the configured range around the threshold; wind components and wind speed/direction convert into "
     "each other (direction of origin, 0 to 360 degrees) and wind profiles are logarithmic. Inputs are left as they were and missing stays missing.",
     ["inputs", "histories"],
     "Every combination of temperature, humidity, elevation, and every wind vector, including saturation, the freezing point and calm.",
     "Stable tests sample a few values of a few of these functions; " + NODATA,
     ["openamundsen/meteo/atmosphere.py", "openamundsen/model.py"],
     [("functions", "openamundsen/meteo/atmosphere.py"), ("fields of the model", "openamundsen/model.py: _process_meteo_data")],
     ["derived variables of the meteorological state"])
prop("C27", "Slope, aspect, curvature, shadows and sky view belong to the terrain",
     "For every elevation model: slope and aspect are those of the third-order finite differences of the eight neighbours (the edge of the grid counts as continued; aspect clockwise from north), the normal vector "
     "is the upward unit normal, curvature is the mean excess over opposite neighbours at the length scale, scaled curvature runs from -0.5 to 0.5. A cell is in cast shadow exactly if terrain "
     "on the ray towards the sun (main directions) rises above it, for other directions up to the width of a cell; the highest cell is never shaded. The sky view factor is the mean squared cosine of the horizon elevation, between 0 "
     "and 1, and 1 on the highest cell; openness is the mean over the eight directions of the zenith (nadir) angle of the horizon within the radius. The model's base fields are these of its own grid, also "
     "if cut out of an extended grid. Inputs are left untouched.",
     ["inputs"],
     "Every elevation model, resolution, sun position and sweep/azimuth setting.",
     "Stable tests check a few properties on single surfaces.",
     ["openamundsen/terrain.py", "openamundsen/modules/radiation/shadows.py", "openamundsen/model.py", "openamundsen/util.py"],
     [("terrain parameters", "openamundsen/terrain.py: slope_aspect, normal_vector, curvature, sky_view_factor, openness"),
      ("shadows", "openamundsen/modules/radiation/shadows.py: shadows"), ("base fields", "openamundsen/model.py: _calculate_terrain_parameters, _read_input_data")],
     ["base state variables", "functions of openamundsen.terrain"])
prop("C28", "Wind over terrain speeds up, slows down and turns with slope and curvature",
     "With the Liston method, wind speed and direction of every cell are those of the interpolated wind vector (of the stations that report both speed and direction, and gusts likewise) weighted by "
     "1 + slope weight x slope in the direction of the wind + curvature weight x curvature, both scaled to -0.5..0.5 over the region, and turned by half the scaled slope times the sine of twice the angle between wind and fall line (radians). On level ground it is the interpolated wind "
     "itself; speed stays within the share the weights allow and at or above the lower limit; direction within 0..360 degrees. Fields are missing exactly if no station reports speed and direction, and a grid of any size works.",
     ["inputs", "configurations"],
     "Every terrain, wind, station network with gaps, and every pair of weights.",
     NODATA + "no stable test looks at the values of the interpolated wind over terrain.",
     ["openamundsen/meteo/interpolation.py", "openamundsen/util.py", "openamundsen/model.py"],
     [("wind", "openamundsen/meteo/interpolation.py: interpolate_station_data, _liston_wind_correction"), ("scaling", "openamundsen/util.py: normalize_array")],
     ["wind speed, gusts and wind direction fields"])
prop("C29", "Sun position, clear-sky and longwave radiation follow place, clock and terrain",
     "For every place, date and clock: day angle, equation of time (Spencer), declination (Bourges), hour angle on the meridian of the time zone, the unit vector to the sun (east, south, up) and zenith angle are the "
     "astronomical ones, and the sun is up exactly if it stands above the horizon. In every cell and step of a run, potential direct radiation is the solar constant (corrected for the distance) times the cosine of incidence on the slope, "
     "zero in shadow or behind the slope, times the clear-sky transmittance after Corripio (air mass limited, Rayleigh, ozone, gases, vapour, aerosols, elevation); diffuse radiation is the Rayleigh and aerosol scattered "
     "and multiply reflected part as far as the sky is visible plus reflection from slopes with the mean albedo before the step (soil albedo if unknown); their sum is the clear-sky radiation; all is zero at night. Shadows come from the "
     "extended grid if there is one, coarsened as configured; stations outside the grid but on the extended one are compared with the clear-sky radiation of their own cell. Incoming longwave is that of the sky (clear and clouds) as far as visible plus that of "
     "surrounding snow and rock, by their share of the region.",
     ["inputs", "histories", "configurations"],
     "Every latitude, time zone, day of year, terrain, atmosphere and radiation setting.",
     NODATA + "stable tests sample single sun positions.",
     ["openamundsen/modules/radiation/sunparams.py", "openamundsen/modules/radiation/clearsky.py", "openamundsen/modules/radiation/irradiance.py"],
     [("sun", "openamundsen/modules/radiation/sunparams.py"), ("clear sky", "openamundsen/modules/radiation/clearsky.py"),
      ("terrain and longwave", "openamundsen/modules/radiation/irradiance.py")],
     ["sun_parameters", "clear-sky and longwave radiation fields", "cloud factor"])

prop("C30", "Reference and sealed-surface evaporation follow Penman-Monteith",
     "In every cell and step, net radiation is absorbed shortwave plus incoming minus emitted longwave radiation of the recorded surface; a tenth of it by day and half by night goes into the ground; "
     "reference evapotranspiration is the FAO-56 Penman-Monteith rate of the cell's temperature, vapour pressure deficit, psychrometric constant and wind at 2 m (log profile from the measurement height), "
     "for the length of the step, never negative. Sealed surfaces without snow evaporate what Penman-Monteith with the aerodynamic conductance of the class's vegetation height and no surface resistance demands, never more than they store; "
     "under snow they evaporate nothing and keep their water. Missing meteorology gives a missing demand and no change of the stores.",
     ["inputs", "histories", "configurations"],
     "Every temperature, humidity, wind, radiation, measurement height, class and step length, steps with missing forcing included.",
     NODATA + "no stable test runs evapotranspiration.",
     ["openamundsen/modules/evapotranspiration/evapotranspiration.py"],
     [("Penman-Monteith", "openamundsen/modules/evapotranspiration/evapotranspiration.py")],
     ["net radiation, et_0, evaporation and surface storage of sealed cells"])

prop("C31", "Snow settles, falls and melts away from depth as its layers' densities say",
     "In every cell and step, the depth of every snow layer follows from the layer's depth before by settling (Anderson: compaction under the load of overlying snow and destructive metamorphism, faster when warm or wet; "
     "or empirical: approach to the cold or melting density limit over the configured time scale), by fresh snow added on top at the density of its wet-bulb temperature, and by melt and sublimation that take ice from the top down at unchanged density; "
     "firn of the cryolayers model densifies towards ice, ice keeps its density. Settling never changes mass nor makes a layer thicker; snow depth is the sum of the layers, the snow cover fraction tanh of the depth over the configured scale, "
     "and a layer's heat capacity that of its ice and water.",
     ["inputs", "histories", "configurations"],
     "Every sequence of snowfall, frost, melt, rain and gaps, every compaction method and limit, both snow models and step lengths.",
     "The stable tests look at masses; no test states depth or density.",
     ["openamundsen/modules/snow"],
     [("multilayer", "openamundsen/modules/snow/multilayermodel.py"),
      ("cryolayers", "openamundsen/modules/snow/cryolayermodel.py"), ("snow model", "openamundsen/modules/snow/snow.py")],
     ["depth, density, ice of every layer, cover fraction and heat capacity after every step"])

prop("C32", "Soil and ground follow texture, moisture, frost and the snow on top",
     "Saturated moisture, suction, exponent, critical moisture, dry heat capacity and conductivity of the soil follow from sand and clay, its moisture from the configured share. In every cell, layer and step, "
     "water stays liquid up to the capacity the freezing-point depression leaves at the layer's temperature, the rest is ice; heat capacity is that of minerals, water and ice plus the latent heat released per degree, conductivity that of the mixture; "
     "albedo and roughness length of the ground are mixed by the snow cover fraction, the surface conductance opens with the liquid moisture of the top layer, and the layer that exchanges heat with the air takes thickness, temperature and "
     "conductivity from snow and soil by the depth of the snow. Dry soil has defined properties too.",
     ["inputs", "configurations", "histories"],
     "Every texture, moisture, initial temperature, set of soil layers, roughness, conductance, cover scale and snow depth.",
     "The stable tests run the multilayer model on one soil and compare no soil property.",
     ["openamundsen/modules/soil/soil.py", "openamundsen/surface.py"],
     [("soil properties", "openamundsen/modules/soil/soil.py"), ("surface properties", "openamundsen/surface.py")],
     ["soil moisture, heat capacity, conductivity, surface albedo, roughness, conductance, surface layer"])

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P), "properties")
