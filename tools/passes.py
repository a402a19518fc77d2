"""What each check runs: passes over the same explored space under different builds and monitors."""

REL = {"name": "release", "kind": "release",
       "what": "optimised build, as users run it; checking allocator"}
CHK = {"name": "checked", "kind": "checked",
       "what": "the same space with rowan's debug assertions and overflow checks compiled in"}

COMMON = [
    "the standard library, hashbrown, text-size, countme and rustc behave as documented",
    "nothing is claimed beyond the stated bounds on trees, histories and values",
]

ASAN = {"name": "asan", "kind": "asan",
        "what": "the same space under AddressSanitizer"}
ASAN_SMALL = dict(ASAN, env={"MC_SMALL": "1"}, what="a reduced space (see DESIGN.md) under AddressSanitizer")

CHK_SMALL = dict(CHK, env={"MC_SMALL": "1"},
                 what="a reduced space (see DESIGN.md) with rowan's debug assertions and overflow checks compiled in")

PASSES = {
    "C01": [REL, CHK],
    "C02": [REL, CHK],
    "C03": [REL, CHK],
    "C04": [REL, CHK],
    "C05": [REL, CHK],
    "C06": [REL, CHK],
    "C07": [REL, CHK],
    "C08": [REL, CHK],
    "C09": [REL, CHK],
    "C10": [REL, CHK],
    "C11": [REL, CHK_SMALL],
    "C12": [REL, CHK_SMALL],
    "C13": [REL, CHK_SMALL],
    "C14": [REL, CHK_SMALL, dict(ASAN_SMALL, tiers=("quick",)), dict(ASAN, tiers=("thorough",)),
            {"name": "miri", "kind": "miri", "procs": 8, "bin": "c14", "tiers": ("thorough",),
             "what": "a small space under Miri, which also sees reads of uninitialised memory and invalid values"}],
    "C15": [REL, CHK_SMALL, ASAN_SMALL],
    "C16": [{"name": "loom", "kind": "loom", "procs": 8, "instrumented": True, "bin": "c16",
             "what": "rowan's sources compiled over loom's atomics (C11 memory model), with a race detector on the contents of green elements"},
            {"name": "races", "kind": "miri", "procs": 8, "bin": "c16m",
             "what": "programs of two threads run under Miri, whose happens-before race detector judges every memory access"}],
    "C17": [REL, CHK_SMALL],
    "C18": [REL, CHK],
    "C19": [REL, CHK],
    "C20": [REL, CHK],
}
NOTES = {k: list(COMMON) for k in PASSES}

EXPLORE = "explicit-state model checking: exhaustive bounded exploration of the real code against a reference model"
TECH = {k: EXPLORE for k in PASSES}
TECH["C16"] = ("stateless model checking: all interleavings and C11 weak-memory behaviours of the real code "
               "under loom (dynamic partial-order reduction), exhaustive within the stated scenarios; plus an exhaustive "
               "set of thread programs under Miri's happens-before race detector")
NOTE = ("Every case within the bounds stated in DESIGN.md and in the evidence is executed on the real code "
        "and compared with an independent model; nothing is sampled. Trusts the model, the compiler and the "
        "standard library; says nothing beyond the bounds.")
LEVEL_NOTE = {k: NOTE for k in PASSES}
NOT_APPLICABLE = {}
