"""Which harness decides which property, and from which sources of /repo it is built."""
CHECKS = {
    "P01": {"src": ["p01.cpp"], "groups": ["facts", "hrit"]},
    "P02": {"src": ["p02.cpp"], "groups": ["facts"]},
    "P03": {"src": ["p03.cpp"], "groups": ["facts"]},
    "P04": {"src": ["p04.cpp"], "groups": ["facts", "hrit"]},
    "P05": {"src": ["p05.cpp"], "groups": ["facts", "hrit"]},
    "P06": {"src": ["p06.cpp"], "groups": ["facts", "hrit"]},
    "P07": {"src": ["p07.cpp"], "groups": ["facts", "hrit", "drivers"]},
    "P08": {"src": ["p08.cpp"], "groups": ["facts", "hrit"]},
    "P09": {"src": ["p09.cpp"], "groups": ["facts", "hrit", "drivers"]},
    "P10": {"src": ["p10.cpp"], "groups": ["facts", "hrit", "drivers"]},
    "P11": {"src": ["p11.cpp"], "groups": ["facts", "hrit", "drivers"]},
    "P12": {"src": ["p12.cpp"], "groups": ["facts", "hrit", "drivers"]},
    "P13": {"src": ["p13.cpp"], "groups": ["facts", "hrit", "drivers"]},
    "P14": {"src": ["p14.cpp"], "groups": ["facts", "hrit", "drivers"]},
    "P15": {"src": ["p15.cpp"], "groups": ["facts", "hrit", "native"], "tools": ["nativedump", "native2Image"]},
    "P16": {"src": ["p16.cpp"], "groups": ["facts", "omtp"], "tools": ["OpenMTP-IDS_debug", "OpenMTP-IDS_write", "OpenMTP-IDS_to_pgm", "OpenMTP-IDS_sector"]},
    "P17": {"src": ["p17.cpp"], "groups": ["facts", "hri"]},
    "P18": {"src": ["p18.cpp"], "groups": ["facts", "hrit"]},
    "P19": {"src": ["p19.cpp"], "groups": ["facts", "hrit", "drivers", "image"], "tools": ["msat"]},
    "P20": {"src": ["p20.cpp"], "groups": ["utils"]},
    "P21": {"src": ["p21.cpp"], "groups": ["iniparser"]},
    "P22": {"src": ["p22.cpp"], "groups": ["utils"]},
    "P23": {"src": ["p23.cpp"], "groups": ["facts", "hrit", "drivers", "hri", "netcdf"], "tools": ["XRIT2NetCDF", "HRI2NetCDF"]},
    "P24": {"src": ["p24.cpp"], "groups": ["facts", "hrit"]},
    "P25": {"src": ["p25.cpp"], "groups": ["facts"], "tools": ["xritdump", "XRIT2Image"]},
    "P26": {"src": ["p26.cpp"], "groups": ["utils"]},
    "P27": {"src": ["p27.cpp"], "groups": ["openmtp"], "tools": ["OpenMTP_info", "OpenMTP_to_NetCDF"]},
    "P28": {"src": ["p28.cpp"], "groups": ["thornsds", "iniparser"], "tools": ["db1_to_netcdf", "db1_to_image"]},
    "P30": {"src": ["p30.cpp"], "groups": ["facts", "hrit", "drivers", "netcdf", "plugin"]},
    # cases of the other harnesses again, to see that nothing is kept
    "P29": {"release": {
        "P07": {"scale": 0.03}, "P09": {"scale": 0.15}, "P10": {"scale": 0.03, "cxx": "damaged files"}, "P11": {"scale": 0.02},
        "P13": {"scale": 0.02}, "P14": {"scale": 0.01}, "P15": {"scale": 0.1}, "P16": {"scale": 0.1}, "P17": {"scale": 0.1},
        "P21": {"scale": 0.1}, "P22": {"scale": 0.1}, "P23": {"scale": 0.1, "cxx": "damaged files"}, "P24": {"scale": 0.05}, "P26": {"scale": 0.2},
        "P27": {"scale": 0.1}, "P28": {"scale": 0.2}, "P08": {"scale": 0.1}, "P04": {"scale": 0.02}, "P05": {"scale": 0.01},
        "P06": {"scale": 0.01}, "P12": {"scale": 0.01}, "P18": {"scale": 0.005}, "P20": {"scale": 0.01}}},
}
