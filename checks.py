"""What each check builds and runs."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))

LIBS = {
    "eo": ["eo/src/*.cpp", "eo/src/utils/*.cpp"],
    "cma": ["eo/src/es/CMAParams.cpp", "eo/src/es/CMAState.cpp", "eo/src/es/eig.cpp"],
    "moeo": ["moeo/src/core/*.cpp"],
    "smp": ["smp/src/notifier.cpp"] + ["smp/src/topology/%s.cpp" % t for t in ("complete", "star", "ring", "hypercubic", "mesh", "customBooleanTopology", "customStochasticTopology")],
    "edo": ["edo/src/utils/*.cpp"],
    "dtlz": ["problems/DTLZ/src/*.cpp"],
    "make_ga": ["eo/src/ga/make_*.cpp"],
    "make_es": ["eo/src/es/make_op_*.cpp", "eo/src/es/make_genotype_*.cpp"],
    "mpi": ["eo/src/mpi/*.cpp", "eo/src/serial/*.cpp"],
}
DEFAULTS = {"flavors": ["asan"], "libs": ["eo"]}
RULE = ("A case is generated from (seed, unit, case number); it counts as distinct and non-trivial when a monitor evaluated its "
        "oracle on it and the hash of the observed inputs and outcome was not seen before in this run.")
ASSUMPTIONS = ["the harness oracle for the property is correct", "g++ 13 sanitizer runtimes report what they observe",
               "workloads are sampled, not exhaustive, unless a unit says it enumerates"]
CHECKS = {
    "C01": {"src": ["c01.cpp", "c01_b.cpp", "c01_c.cpp", "c01_d.cpp", "c01_e.cpp"]},
    "C02": {"src": ["c02.cpp"]},
    "C03": {"src": ["c03.cpp"]},
    "C04": {"src": ["c04.cpp"]},
    "C05": {"src": ["c05.cpp"]},
    "C06": {"src": ["c06.cpp"]},
    "C07": {"src": ["c07.cpp", "c07_b.cpp", "c01.cpp", "c01_b.cpp", "c01_c.cpp", "c01_d.cpp", "c01_e.cpp"], "libs": ["eo", "moeo"], "reproduce": True,
            "only_keys": "not-reproducible|restore|reseed"},
    "C08": {"src": ["c08.cpp"]},
    "C09": {"src": ["c09.cpp"]},
    "C10": {"src": ["c10.cpp"]},
    "C11": {"src": ["c11.cpp", "c11_b.cpp"]},
    "C12": {"src": ["c12.cpp", "c12_b.cpp"], "libs": ["eo", "moeo"]},
    "C13": {"src": ["c13.cpp"]},
    "C14": {"src": ["c14.cpp", "c14_b.cpp"]},
    "C15": {"src": ["c15.cpp", "c15_b.cpp"]},
    "C16": {"src": ["c16.cpp", "c16_std.cpp", "c16_vl.cpp"]},
    "C17": {"src": ["c17.cpp"]},
    "C18": {"src": ["c18.cpp"]},
    "C19": {"src": ["c19.cpp"]},
    "C20": {"src": ["c20.cpp"]},
    "C21": {"src": ["c21.cpp", "c21_b.cpp"]},
    "C22": {"src": ["c22.cpp"], "libs": ["eo", "moeo"]},
    "C23": {"src": ["c23.cpp"], "libs": ["eo", "moeo"]},
    "C24": {"src": ["c24.cpp", "c24_b.cpp"], "libs": ["eo", "moeo"]},
    "C25": {"src": ["c25.cpp", "c25_b.cpp"], "libs": ["eo", "moeo"]},
    "C26": {"src": ["c26.cpp", "c26_b.cpp", "c26_c.cpp", "c26_d.cpp"], "libs": ["eo", "moeo"]},
    "C27": {"src": ["c27.cpp", "c27_multi.cpp", "c27_algo.cpp"], "libs": ["eo", "edo"], "flags": ["-DWITH_EIGEN", "-isystem", "/usr/include/eigen3"]},
    "C28": {"src": ["c28.cpp"], "libs": ["eo", "smp"], "flavors": ["asan", "tsan"], "shards": 4, "parallel": 3},
    "C29": {"src": ["c29.cpp"], "libs": ["eo", "smp"], "flavors": ["asan", "tsan"], "shards": 4, "parallel": 3},
    "C30": {"src": ["c30.cpp"], "libs": ["eo", "smp"]},
    "C31": {"src": ["c31.cpp"], "libs": ["eo", "moeo", "dtlz"]},
    "C34": {"src": ["c34.cpp"], "libs": ["eo"]},
    "C32": {"src": ["c32.cpp", "c32_b.cpp", "fakempi/world.cpp"], "libs": ["eo", "mpi"], "flags": ["-DWITH_MPI", "-I" + os.path.join(HERE, "harness", "fakempi")]},
    "C36": {"src": ["c36.cpp", "fakempi/world.cpp"], "libs": ["eo", "mpi"], "flags": ["-DWITH_MPI", "-I" + os.path.join(HERE, "harness", "fakempi")]},
    "C37": {"src": ["c37.cpp"], "libs": ["eo"]},
    "C35": {"src": ["c35.cpp", "c35_real.cpp", "c35_moeo.cpp"], "libs": ["eo", "moeo", "make_ga", "make_es"]},
    "C38": {"src": ["c38.cpp"], "libs": ["eo", "cma"], "flags": ["-I" + os.path.join(os.environ.get("VERIF_REPO", "/repo"), "eo/src/es")]},
}
NOT_CLAIMED = {}

# C33 repeats a part of every other workload and judges nothing but memory, undefined behaviour and termination
CHECKS["C33"] = {
    "technique": "sanitizers (ASan, UBSan, libstdc++ assertions) and valgrind memcheck over the workloads of all other checks",
    "only_sanitizer": True, "ignore_needs": True,
    "parts": [dict({k: v for k, v in c.items() if k in ("src", "libs", "flags", "ldflags", "launch", "env")}, flavors=["asan"], scale={"asan": 0.1}, shards=2)
              for i, c in sorted(CHECKS.items()) if i not in ("C07",)]
    + [dict({k: v for k, v in c.items() if k in ("src", "libs", "flags", "ldflags", "env")}, flavors=["plain"], scale={"plain": 0.01}, shards=2,
            launch=["valgrind", "-q", "--error-exitcode=77", "--undef-value-errors=yes", "--leak-check=no", "--num-callers=25"])
       for i, c in sorted(CHECKS.items()) if i not in ("C07", "C28", "C29")],
}
