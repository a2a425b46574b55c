"""Per property: which specification modules are model-checked, which drivers run the real code,
and which trace specification validates what they record."""
NOJIT = {"NUMBA_DISABLE_JIT": "1"}
JIT = {}

SNOWWORDS = {"module": "MCSnowpack", "cfg": "MCSnowpack.cfg", "thorough_cfg": "MCSnowpack_thorough.cfg",
             "emit": "words.ndjson", "workers": 1}

PLANS = {
    "C01": {
        "design": [
            {"module": "MCLifecycle", "cfg": "MCLifecycle.cfg", "thorough_cfg": "MCLifecycle_thorough.cfg",
             "emit": "lifecycle.ndjson", "workers": 1},
            {"module": "MCCalendar", "cfg": "MCCalendar.cfg", "thorough_cfg": "MCCalendar_thorough.cfg"},
        ],
        "drivers": [{"script": "drv_c01.py", "shards": 6, "env": NOJIT, "trace": "TraceLifecycle"}],
        "min_cases": 100,
    },
    "C02": {
        "design": [{"module": "MCCalendar", "cfg": "MCCalendar.cfg", "thorough_cfg": "MCCalendar_thorough.cfg"}],
        "drivers": [{"script": "drv_c02.py", "shards": 6, "env": NOJIT, "trace": "TraceFlags"}],
        "min_cases": 20,
    },
    "C03": {
        "design": [{"module": "MCPointOutput", "cfg": "MCPointOutput.cfg", "thorough_cfg": "MCPointOutput_thorough.cfg"}],
        "drivers": [{"script": "drv_c03.py", "shards": 6, "env": NOJIT, "trace": "TracePointOutput"}],
        "min_cases": 60,
    },
    "C04": {
        "design": [{"module": "MCGridOutput", "cfg": "MCGridOutput.cfg", "thorough_cfg": "MCGridOutput_thorough.cfg"}],
        "drivers": [{"script": "drv_c04.py", "part": "c04", "shards": 6, "env": NOJIT, "trace": "TraceGridOutput"}],
        "min_cases": 30,
    },
    "C05": {
        "design": [{"module": "MCGridOutput", "cfg": "MCGridOutput.cfg", "thorough_cfg": "MCGridOutput_thorough.cfg"}],
        "drivers": [{"script": "drv_c04.py", "part": "c05", "shards": 6, "env": NOJIT, "trace": "TraceGridOutput"}],
        "min_cases": 40,
    },
    "C06": {
        "design": [{"module": "MCForcing", "cfg": "MCForcing.cfg", "thorough_cfg": "MCForcing_thorough.cfg", "emit": "forcing.ndjson", "workers": 1}],
        "drivers": [{"script": "drv_forcing.py", "part": "resample", "shards": 7, "env": NOJIT, "trace": "TraceForcing"}],
        "min_cases": 100,
    },
    "C07": {
        "design": [{"module": "MCForcing", "cfg": "MCForcing.cfg", "thorough_cfg": "MCForcing_thorough.cfg", "emit": "forcing.ndjson", "workers": 1}],
        "drivers": [{"script": "drv_forcing.py", "part": "stations", "shards": 7, "env": NOJIT, "trace": "TraceForcing"}],
        "min_cases": 100,
    },
    "C08": {
        "design": [{"module": "MCInterp", "cfg": "MCInterp.cfg", "thorough_cfg": "MCInterp_thorough.cfg", "emit": "interp.ndjson", "workers": 4}],
        "drivers": [{"script": "drv_interp.py", "shards": 7, "env": NOJIT, "trace": "TraceInterp"}],
        "min_cases": 100,
    },
    "C09": {
        "design": [{"module": "MCPrecip", "cfg": "MCPrecip.cfg", "thorough_cfg": "MCPrecip_thorough.cfg", "emit": "precip.ndjson", "workers": 1}],
        "drivers": [{"script": "drv_precip.py", "shards": 7, "env": NOJIT, "trace": "TracePrecip"}],
        "min_cases": 30,
    },
    "C10": {
        "design": [SNOWWORDS],
        "drivers": [{"script": "drv_snow.py", "part": "mass", "shards": 7, "env": NOJIT, "trace": "TraceSnow"}],
        "min_cases": 20,
    },
    "C11": {
        "design": [SNOWWORDS],
        "drivers": [{"script": "drv_snow.py", "part": "state", "shards": 7, "env": NOJIT, "trace": "TraceSnow"}],
        "min_cases": 20,
    },
    "C12": {
        "design": [SNOWWORDS, {"module": "MCCryo", "cfg": "MCCryo.cfg", "thorough_cfg": "MCCryo_thorough.cfg"}],
        "drivers": [{"script": "drv_cryo.py", "shards": 7, "env": NOJIT, "trace": "TraceCryo"}],
        "min_cases": 20,
    },
    "C13": {
        "design": [SNOWWORDS, {"module": "MCCanopy", "cfg": "MCCanopy.cfg", "thorough_cfg": "MCCanopy_thorough.cfg"},
                   {"module": "MCCanopySub", "cfg": "MCCanopySub.cfg", "thorough_cfg": "MCCanopySub_thorough.cfg"}],
        "drivers": [{"script": "drv_canopy.py", "shards": 7, "env": NOJIT, "trace": "TraceCanopy"}],
        "min_cases": 20,
    },
    "C14": {
        "design": [{"module": "MCSoilWater", "cfg": "MCSoilWater.cfg", "thorough_cfg": "MCSoilWater_thorough.cfg",
                    "emit": "soilwords.ndjson", "workers": 4}],
        "drivers": [{"script": "drv_soilwater.py", "shards": 7, "env": NOJIT, "trace": "TraceSoilWater"}],
        "min_cases": 20,
    },
    "C15": {
        "design": [{"module": "MCGlacier", "cfg": "MCGlacier.cfg", "thorough_cfg": "MCGlacier_thorough.cfg"}],
        "drivers": [{"script": "drv_glacier.py", "shards": 7, "env": NOJIT, "trace": "TraceGlacier"}],
        "min_cases": 15,
    },
    "C16": {
        "design": [SNOWWORDS, {"module": "MCCells", "cfg": "MCCells.cfg", "thorough_cfg": "MCCells_thorough.cfg"}],
        "drivers": [{"script": "drv_cells.py", "shards": 7, "env": NOJIT, "trace": "TraceCells"}],
        "min_cases": 20,
    },
    "C17": {
        "design": [{"module": "MCConfig", "cfg": "MCConfig.cfg", "thorough_cfg": "MCConfig_thorough.cfg", "emit": "configs.ndjson", "workers": 1}],
        "drivers": [{"script": "drv_config.py", "shards": 7, "env": NOJIT, "trace": "TraceConfig"}],
        "min_cases": 1000,
    },
    "C18": {
        "design": [{"module": "MCClouds", "cfg": "MCClouds.cfg", "thorough_cfg": "MCClouds_thorough.cfg", "emit": "clouds.ndjson", "workers": 1}],
        "drivers": [{"script": "drv_clouds.py", "shards": 7, "env": NOJIT, "trace": "TraceClouds"}],
        "min_cases": 50,
    },
    "C19": {
        "design": [{"module": "MCRasters", "cfg": "MCRasters.cfg", "thorough_cfg": "MCRasters_thorough.cfg", "emit": "rasters.ndjson", "workers": 1}],
        "drivers": [{"script": "drv_rasters.py", "shards": 7, "env": NOJIT, "trace": "TraceRasters"}],
        "min_cases": 300,
    },
    "C20": {
        "design": [{"module": "MCHost", "cfg": "MCHost.cfg", "thorough_cfg": "MCHost_thorough.cfg", "emit": "host.ndjson", "workers": 1}],
        "drivers": [{"script": "drv_host.py", "shards": 7, "env": NOJIT, "trace": "TraceHost"}],
        "min_cases": 150,
    },
    "C21": {
        "design": [{"module": "MCRuns", "cfg": "MCRuns.cfg", "thorough_cfg": "MCRuns_thorough.cfg", "emit": "runs.ndjson", "workers": 1}],
        "drivers": [{"script": "drv_runs.py", "shards": 6, "env": NOJIT, "trace": "TraceRuns"},
                    {"script": "drv_runs.py", "part": "threads", "shards": 1, "env": JIT, "trace": "TraceRuns"}],
        "min_cases": 40,
    },
    "C22": {
        "design": [SNOWWORDS, {"module": "MCAlbedo", "cfg": "MCAlbedo.cfg", "thorough_cfg": "MCAlbedo_thorough.cfg"}],
        "drivers": [{"script": "drv_albedo.py", "shards": 7, "env": NOJIT, "trace": "TraceAlbedo"}],
        "min_cases": 20,
    },
    "C23": {
        "design": [SNOWWORDS, {"module": "MCDegreeDay", "cfg": "MCDegreeDay.cfg", "thorough_cfg": "MCDegreeDay_thorough.cfg"}],
        "drivers": [{"script": "drv_dd.py", "shards": 7, "env": NOJIT, "trace": "TraceDegreeDay"}],
        "min_cases": 20,
    },
    "C24": {
        "design": [SNOWWORDS, {"module": "MCEnergy", "cfg": "MCEnergy.cfg", "thorough_cfg": "MCEnergyT.cfg"}],
        "drivers": [{"script": "drv_energy.py", "shards": 7, "env": NOJIT, "trace": "TraceEnergy"}],
        "min_cases": 30,
    },
    "C25": {
        "design": [SNOWWORDS, {"module": "MCHeat", "cfg": "MCHeat.cfg", "thorough_cfg": "MCHeat_thorough.cfg", "emit": "heat.ndjson", "workers": 4}],
        "drivers": [{"script": "drv_energy.py", "shards": 7, "env": NOJIT, "trace": "TraceHeat"},
                    {"script": "drv_conduct.py", "shards": 4, "env": NOJIT, "trace": "TraceStack"}],
        "min_cases": 30,
    },
    "C26": {
        "design": [{"module": "MCHumid", "cfg": "MCHumid.cfg", "thorough_cfg": "MCHumid_thorough.cfg", "emit": "humid.ndjson", "workers": 4}],
        "drivers": [{"script": "drv_humid.py", "shards": 6, "env": NOJIT, "trace": "TraceHumid"}],
        "min_cases": 60,
    },
    "C27": {
        "design": [{"module": "MCTerrain", "cfg": "MCTerrain.cfg", "thorough_cfg": "MCTerrain_thorough.cfg", "emit": "terrain.ndjson", "workers": 6}],
        "drivers": [{"script": "drv_terrain.py", "shards": 7, "env": NOJIT, "trace": "TraceTerrain"}],
        "min_cases": 100,
    },
    "C28": {
        "design": [{"module": "MCWind", "cfg": "MCWind.cfg", "thorough_cfg": "MCWind_thorough.cfg", "emit": "wind.ndjson", "workers": 6}],
        "drivers": [{"script": "drv_wind.py", "shards": 7, "env": NOJIT, "trace": "TraceWind"}],
        "min_cases": 40,
    },
    "C29": {
        "design": [{"module": "MCSun", "cfg": "MCSun.cfg", "thorough_cfg": "MCSun_thorough.cfg", "emit": "sun.ndjson", "workers": 6}],
        "drivers": [{"script": "drv_sun.py", "shards": 7, "env": NOJIT, "trace": "TraceSun"}],
        "min_cases": 300,
    },
    "C30": {
        "design": [{"module": "MCRefET", "cfg": "MCRefET.cfg", "thorough_cfg": "MCRefET_thorough.cfg"}],
        "drivers": [{"script": "drv_refet.py", "shards": 7, "env": NOJIT, "trace": "TraceRefET"}],
        "min_cases": 20,
    },
    "C31": {
        "design": [SNOWWORDS, {"module": "MCSettle", "cfg": "MCSettle.cfg", "thorough_cfg": "MCSettle_thorough.cfg"}],
        "drivers": [{"script": "drv_proper.py", "part": "depth", "shards": 7, "env": NOJIT, "trace": "TraceProper"}],
        "min_cases": 20,
    },
    "C32": {
        "design": [SNOWWORDS, {"module": "MCGround", "cfg": "MCGround.cfg", "thorough_cfg": "MCGround_thorough.cfg"}],
        "drivers": [{"script": "drv_proper.py", "part": "ground", "shards": 7, "env": NOJIT, "trace": "TraceProper"}],
        "min_cases": 20,
    },
}

NOT_APPLICABLE = {}
