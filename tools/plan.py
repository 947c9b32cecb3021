"""Which engines decide which property, with case counts (quick, thorough)."""
ENGINE_SOURCES = {
    "text": ["values.cpp"], "value": ["values.cpp"], "options": ["options.cpp"], "report": ["report.cpp"],
    "tx": ["sim.cpp", "simrun.cpp"], "cluster": ["sim.cpp", "simrun.cpp"],
    "iso": ["iso.cpp"], "apply": ["apply.cpp"], "srv": ["srv.cpp"],
}
# property -> [(engine, variant, quick cases, thorough cases)]
PLAN = {
    "C27": [("text", "debug", 2000000, 40000000), ("text", "release", 6000000, 100000000)],
    "C28": [("value", "debug", 2000000, 40000000), ("value", "release", 6000000, 100000000)],
    "C29": [("options", "debug", 800000, 20000000), ("options", "release", 3000000, 60000000)],
    "C30": [("report", "debug", 40000, 1000000), ("report", "release", 100000, 2000000)],
}
SIM = [("tx", "debug", 40000, 3000000), ("tx", "release", 120000, 10000000), ("cluster", "debug", 30000, 2000000), ("cluster", "release", 80000, 6000000)]
CLUSTER = [("cluster", "debug", 50000, 3000000), ("cluster", "release", 200000, 12000000)]
for _p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C26".split():
    PLAN[_p] = list(SIM)
for _p in "C23 C24 C25".split():
    PLAN[_p] = list(CLUSTER)
ISO = [("iso", "debug", 300000, 20000000), ("iso", "release", 2000000, 100000000)]
for _p in "C15 C16 C17".split():
    PLAN[_p] = list(ISO)
PLAN["C14"] = PLAN["C14"] + [("iso", "debug", 100000, 8000000), ("iso", "release", 600000, 40000000)]
APPLY = [("apply", "debug", 250000, 15000000), ("apply", "release", 1500000, 80000000)]
for _p in "C18 C19".split():
    PLAN[_p] = list(APPLY)
for _p in "C23 C24".split():
    PLAN[_p] = PLAN[_p] + [("apply", "debug", 100000, 6000000), ("apply", "release", 500000, 30000000)]
for _p in "C15 C16".split():
    PLAN[_p] = PLAN[_p] + [("apply", "debug", 50000, 2000000), ("apply", "release", 200000, 10000000)]
PLAN["C18"] = PLAN["C18"] + [("cluster", "debug", 15000, 1500000), ("cluster", "release", 50000, 5000000)]
SRV = [("srv", "debug", 200000, 20000000), ("srv", "release", 900000, 80000000)]
for _p in "C20 C21 C22".split():
    PLAN[_p] = list(SRV)
for _p in "C24 C26".split():
    PLAN[_p] = PLAN[_p] + [("srv", "debug", 40000, 4000000), ("srv", "release", 150000, 20000000)]
COMMON_ASSUMPTIONS = [
    "library sources of /repo's working tree compiled with clang++ 18 (asserts+ASan+UBSan build and NDEBUG build); the v26 provider loader and the *_service_v1 adapters need headers that are not in this sandbox and are replaced by stand-ins",
]
_SIM_A = "the DBMS, the replication provider and the group are models written for these checks; they follow the documented service interfaces and Galera's documented behaviour (DESIGN.md lists the modelling decisions)"
ASSUMPTIONS = {p: [_SIM_A] for p in PLAN if any(e[0] in ("tx", "cluster") for e in PLAN[p])}
