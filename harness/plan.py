"""Which specification modules decide which property."""
CLIM = {"driver": "d_climatology", "models": ["MC_Climatology"], "trace": "T_Climatology"}
TIME = dict(CLIM, models=["MC_Time", "MC_Climatology"])
VERT = {"driver": "d_vertical", "models": ["MC_Vertical"], "trace": "T_Vertical"}
METEO = {"driver": "d_meteo", "models": ["MC_Meteo"], "trace": "T_Meteo"}
PLAN = {
    "C01": CLIM, "C02": TIME, "C03": CLIM, "C04": CLIM, "C05": CLIM, "C06": dict(CLIM, models=["MC_Time", "MC_Seasons"]), "C07": dict(CLIM, models=["MC_Climatology", "MC_Spacing"]),
    "C08": dict(CLIM, models=["MC_Climatology", "MC_Chunks"]),
    "V01": dict(VERT, models=["MC_Hybrid"]), "V02": dict(VERT, models=["MC_Hybrid"]), "V03": VERT, "V04": VERT, "V05": dict(VERT, models=["MC_Chunks"]), "V06": dict(VERT, models=["MC_Hybrid", "MC_Vertical"]), "M01": VERT, "M09": VERT,
    "M02": METEO, "M03": dict(METEO, models=["MC_SatTable"]), "M04": METEO, "M05": METEO, "M06": METEO,
    "M07": dict(METEO, models=["MC_Daylight"]), "M08": METEO, "M10": METEO,
    "M11": {"driver": "d_lookup", "models": ["MC_Lookup"], "trace": "T_Lookup"},
    "V07": {"driver": "d_multi", "models": ["MC_MultiInterp"], "trace": "T_MultiInterp"},
    "F01": {"driver": "d_fourier", "models": ["MC_Fourier"], "trace": "T_Fourier"},
    "F02": {"driver": "d_fourier", "models": ["MC_Fourier"], "trace": "T_Fourier"},
    "G01": {"driver": "d_gradient", "models": ["MC_Gradient"], "trace": "T_Gradient"},
    "S01": {"driver": "d_spherical", "models": ["MC_Spherical"], "trace": "T_Spherical"},
    "S02": {"driver": "d_spherical", "models": ["MC_Voronoi"], "trace": "T_Spherical"},
    "E01": {"driver": "d_stats", "models": ["MC_Eof"], "trace": "T_Stats"},
    "E02": {"driver": "d_stats", "models": ["MC_Eof"], "trace": "T_Stats"},
    "P01": {"driver": "d_stats", "models": ["MC_Stats"], "trace": "T_Stats"},
    "P02": {"driver": "d_stats", "models": ["MC_Stats"], "trace": "T_Stats"},
    "L01": {"driver": "d_library", "models": ["MC_Library"], "trace": "T_Library"},
    "L02": {"driver": "d_library", "models": ["MC_OldNames"], "trace": "T_Library"},
}
# quick checks generate this many independent samples
ROUNDS = {"C01": 2, "C02": 2, "C03": 3, "C04": 3, "C05": 2, "C06": 3, "C07": 2, "C08": 2,
          "V01": 4, "V02": 4, "V03": 4, "V04": 4, "V05": 3, "V06": 5, "V07": 2,
          "M01": 2, "M02": 3, "M03": 3, "M04": 3, "M05": 3, "M06": 3, "M07": 3, "M08": 2, "M09": 2, "M10": 4,
          "F01": 2, "F02": 2, "S01": 2, "S02": 2, "E01": 2, "E02": 2, "L02": 1}
