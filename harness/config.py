# How much each check runs. "plain" and "asan" are numbers of random cases, run
# after the enumerated ones; the quick tier is sized for 10 to 20 seconds.
CONFIG = {
    "U01": {"quick": {"plain": 1500000, "asan": 150000}, "thorough": {"plain": 80000000, "asan": 8000000}},
    "U02": {"quick": {"plain": 1500000, "asan": 150000}, "thorough": {"plain": 80000000, "asan": 8000000}},
    "U03": {"builds": ["plain", "asan0"], "quick": {"plain": 1500000, "asan0": 100000}, "thorough": {"plain": 80000000, "asan0": 3000000}},
    "U04": {"quick": {"plain": 1500000, "asan": 150000}, "thorough": {"plain": 80000000, "asan": 8000000}},
    "U05": {"quick": {"plain": 200000, "asan": 15000}, "thorough": {"plain": 15000000, "asan": 1500000}},
    "S01": {"quick": {"plain": 1500000, "asan": 150000}, "thorough": {"plain": 50000000, "asan": 4000000}},
    "S02": {"quick": {"plain": 400000, "asan": 50000}, "thorough": {"plain": 15000000, "asan": 1500000}},
    "B01": {"quick": {"plain": 6000000, "asan": 1500000}, "thorough": {"plain": 200000000, "asan": 40000000}},
    "B02": {"quick": {"plain": 6000000, "asan": 1500000}, "thorough": {"plain": 200000000, "asan": 40000000}},
    "B03": {"quick": {"plain": 150000, "asan": 50000}, "thorough": {"plain": 5000000, "asan": 2000000}},
    "S03": {"quick": {"plain": 1500000, "asan": 150000}, "thorough": {"plain": 100000000, "asan": 8000000}},
    "V01": {"quick": {"plain": 150000, "asan": 12000}, "thorough": {"plain": 10000000, "asan": 800000}},
    "G01": {"enum_asan": False, "quick": {"plain": 500000, "asan": 50000}, "thorough": {"plain": 40000000, "asan": 4000000}},
    "G02": {"quick": {"plain": 200000, "asan": 30000}, "thorough": {"plain": 12000000, "asan": 1500000}},
    "G03": {"quick": {"plain": 150000, "asan": 30000}, "thorough": {"plain": 10000000, "asan": 1500000}},
    "G04": {"quick": {"plain": 200000, "asan": 20000}, "thorough": {"plain": 10000000, "asan": 1200000}},
    "P01": {"quick": {"plain": 6000000, "asan": 500000}, "thorough": {"plain": 400000000, "asan": 20000000}, "fuzz": False},
    "P02": {"quick": {"plain": 3000000, "asan": 300000}, "thorough": {"plain": 200000000, "asan": 20000000}, "fuzz": False},
    "P03": {"quick": {"plain": 3000000, "asan": 300000}, "thorough": {"plain": 200000000, "asan": 10000000}, "fuzz": False},
    "P04": {"quick": {"plain": 3000000, "asan": 300000}, "thorough": {"plain": 200000000, "asan": 10000000}, "fuzz": False},
    "P05": {"enum_asan": False, "quick": {"plain": 3000000, "asan": 300000}, "thorough": {"plain": 300000000, "asan": 20000000}, "fuzz": False},
    "N01": {"enum_asan": False, "quick": {"plain": 150000, "asan": 15000}, "thorough": {"plain": 10000000, "asan": 1000000}},
    "N02": {"enum_asan": False, "quick": {"plain": 150000, "asan": 15000}, "thorough": {"plain": 10000000, "asan": 1000000}},
    "N03": {"enum_asan": False, "quick": {"plain": 150000, "asan": 15000}, "thorough": {"plain": 10000000, "asan": 1000000}},
    "N04": {"enum_asan": False, "quick": {"plain": 150000, "asan": 15000}, "thorough": {"plain": 10000000, "asan": 1000000}},
    "N05": {"enum_asan": False, "quick": {"plain": 100000, "asan": 10000}, "thorough": {"plain": 6000000, "asan": 600000}},
    "N06": {"enum_asan": False, "quick": {"plain": 25000, "asan": 2500}, "thorough": {"plain": 2500000, "asan": 250000}},
    "N07": {"enum_asan": False, "quick": {"plain": 1000000, "asan": 100000}, "thorough": {"plain": 80000000, "asan": 8000000}},
    "E01": {"enum_asan": False, "quick": {"plain": 30000, "asan": 4000}, "thorough": {"plain": 2000000, "asan": 250000}},
    "E02": {"enum_asan": False, "quick": {"plain": 15000, "asan": 1500}, "thorough": {"plain": 1500000, "asan": 150000}},
    "F01": {"quick": {"plain": 250000, "asan": 20000}, "thorough": {"plain": 20000000, "asan": 1500000}},
    "T01": {"builds": ["plain", "tsan"], "enum_tsan": False, "fuzz": False, "cold": ("tsan", 16),
            "quick": {"plain": 30000, "tsan": 5000}, "thorough": {"plain": 2500000, "tsan": 400000}},
    "Q01": {"quick": {"plain": 200000, "asan": 20000}, "thorough": {"plain": 20000000, "asan": 2000000}},
    "H01": {"builds": ["plain"], "fuzz": False, "quick": {"plain": 10000}, "thorough": {"plain": 2000000}},
    "T02": {"enum_asan": False, "quick": {"plain": 6000, "asan": 600}, "thorough": {"plain": 1000000, "asan": 60000}},
    "X02": {"examples": True, "fuzz": False, "enum_asan": False, "quick": {"plain": 6000, "asan": 300}, "thorough": {"plain": 400000, "asan": 30000}},
    "I01": {"early": True, "builds": ["plain", "asan", "O0-pattern", "clang-O0-zero"], "fuzz": False, "enum_asan": False,
            "quick": {"plain": 20000, "asan": 2000, "O0-pattern": 1000, "clang-O0-zero": 1000},
            "thorough": {"plain": 1500000, "asan": 150000, "O0-pattern": 100000, "clang-O0-zero": 100000}},
    "L01": {"quick": {"plain": 8000, "asan": 500}, "thorough": {"plain": 1000000, "asan": 100000}},
    "L03": {"quick": {"plain": 20000, "asan": 2000}, "thorough": {"plain": 3000000, "asan": 300000}},
    "L02": {"builds": ["plain", "O0-pattern"], "enum_O0-pattern": False, "fuzz": False, "quick": {"plain": 3000, "O0-pattern": 400}, "thorough": {"plain": 600000, "O0-pattern": 50000}},
    "M01": {"quick": {"plain": 20000, "asan": 2000}, "thorough": {"plain": 2000000, "asan": 200000}},
    "R01": {"quick": {"plain": 40000, "asan": 4000}, "thorough": {"plain": 5000000, "asan": 500000}},
    "K01": {"builds": ["uchar", "clang-uchar", "O0-pattern", "clang-O0-zero", "O3", "clang-O3", "Os-zero", "clang-O1-pattern", "native", "clang-native", "checks"], "fuzz": False,
            "quick": {k: 5000 for k in ("uchar", "clang-uchar", "O0-pattern", "clang-O0-zero", "O3", "clang-O3", "Os-zero", "clang-O1-pattern", "native", "clang-native", "checks")},
            "thorough": {k: 800000 for k in ("uchar", "clang-uchar", "O0-pattern", "clang-O0-zero", "O3", "clang-O3", "Os-zero", "clang-O1-pattern", "native", "clang-native", "checks")}},
    "K02": {"builds": ["plain"], "fuzz": False, "quick": {"plain": 12000}, "thorough": {"plain": 3000000}},
    "C01": {"module": "c01", "quick": {"g++": 700, "clang++": 250}, "thorough": {"g++": 40000, "clang++": 15000},
            "note": "Bounded: every rule over every pair of six text types, then random programs of up to 10 statements in 7 contexts; g++ and clang++."},
    "C02": {"module": "c02", "quick": {"programs": 120}, "thorough": {"programs": 8000},
            "note": "Bounded: every public header alone and all together in both orders, then random programs of up to 3 units; g++ and clang++."},
    "X01": {"module": "x01", "quick": {"databases": 1000, "compiled_every": 100}, "thorough": {"databases": 30000, "compiled_every": 40},
            "note": "Bounded: databases of up to some 1,500 characters and 150 break ranges; the shipped one against the committed tables."},
    "X03": {"module": "x03", "quick": {"databases": 60, "faults": 9}, "thorough": {"databases": 3000, "faults": 30},
            "note": "Bounded: faults in the files a generator reads and writes, one at a time; reading fails as it does for programs that read through the C library's read()."},
}
