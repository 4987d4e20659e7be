"""What each check runs. A stage is one harness binary (see vbuild.py) and a fixed number of cases."""

GEN = ("each case is a generated program plus generated memory timing, fetch timing and prediction outcomes, "
       "run in lock step against the independent model; non-trivial: ")
SYS_ASSUME = ["the independent model in golden/ is the specification",
              "the AXI interconnect and DDR submodules are not in the sandbox and are replaced by standin/",
              "implementation-defined corners listed in DESIGN.md are outside the generated domain"]


def sys_check(rule, quick, thorough, **kw):
    # different programs per harness, unless the same program has to run on all of them
    st = lambda l: [dict(bin=b, cases=n, first=0 if kw.get("same") else 1000000 * i, args=kw.get("args", [])) for i, (b, n) in enumerate(l)]
    return dict(stages=dict(quick=st(quick), thorough=st(thorough)), rule=GEN + rule, assumptions=SYS_ASSUME, **kw)


CHECKS = {
    "C01": sys_check("at least 40 commits with more than 30 ALU and 3 multiply/divide instructions",
                     [("be", 6000), ("full", 1500)], [("be", 60000), ("full", 15000), ("be-large", 10000)]),
    "C02": sys_check("at least 40 commits, more than 5 branches and more than 1 misprediction",
                     [("be", 1500), ("full", 500)], [("be", 20000), ("full", 6000), ("be-large", 4000)]),
    "C03": sys_check("at least 40 commits, more than 10 loads, 8 stores and 4 memory reads on the bus",
                     [("be", 4000), ("full", 700)], [("be", 40000), ("full", 8000), ("be-large", 6000)]),
    "C04": sys_check("at least 40 commits and more than 1 trap",
                     [("be", 1500), ("full", 300)], [("be", 15000), ("full", 4000), ("be-large", 3000)]),
    "C05": sys_check("at least 40 commits, more than 60 page-table walks by the model and a page fault or two translation fences",
                     [("be", 2000), ("full", 400)], [("be", 20000), ("full", 5000), ("be-large", 4000)]),
    "C06": sys_check("at least 40 commits and more than 4 atomic instructions",
                     [("be", 2000), ("full", 400)], [("be", 20000), ("full", 5000), ("be-large", 4000)]),
    "C07": sys_check("at least 40 commits and an interrupt taken",
                     [("be", 2500), ("full", 500)], [("be", 25000), ("full", 6000), ("be-large", 4000)]),
    "C08": sys_check("at least 40 commits, a fence.i and more than 1 store",
                     [("be", 800), ("full", 500)], [("be", 8000), ("full", 8000), ("large", 1500)]),
    "C09": sys_check("at least 40 commits and more than 3 device accesses",
                     [("be", 2500), ("full", 500)], [("be", 25000), ("full", 6000), ("be-large", 4000)]),
    "C10": sys_check("at least 40 commits, more than 2 branches, 2 loads and 2 stores",
                     [("be", 2000), ("full", 600)], [("be", 20000), ("full", 8000), ("be-large", 4000)]),
    "C11": sys_check("at least 40 commits and more than 8 floating-point instructions",
                     [("be", 6000), ("full", 1000)], [("be", 60000), ("full", 10000), ("be-large", 8000)]),
    "C12": sys_check("at least 40 commits and more than 12 CSR instructions",
                     [("be", 4000), ("full", 800)], [("be", 40000), ("full", 8000), ("be-large", 6000)]),
    "C13": sys_check("at least 40 commits, more than 2 branches, 2 loads and 2 stores",
                     [("be", 800), ("be-medium", 800), ("be-large", 800), ("be-default", 800), ("full", 300)],
                     [("be", 8000), ("be-medium", 8000), ("be-large", 8000), ("be-default", 8000), ("full", 3000), ("medium", 3000), ("large", 2000), ("default", 3000)], same=True),
}

REF_GEN = ("each case is a generated program interpreted in lock step with the independent model, every register, CSR and report compared after "
           "each instruction; non-trivial: at least 40 instructions ")


def ref_check(rule, quick, thorough):
    st = lambda l: [dict(bin=b, cases=n, first=1000000 * i) for i, (b, n) in enumerate(l)]
    return dict(stages=dict(quick=st(quick), thorough=st(thorough)), rule=REF_GEN + rule,
                assumptions=["the independent model in golden/ is the specification", "misaligned data accesses and writes to misa are outside the generated domain"],
                technique="random program generation, lock-step comparison of the interpreter with an independent model",
                level_note="Property-based testing: a fixed number of generated programs per run, every instruction compared. Trusts the independent model in golden/.")


CHECKS.update({
    "R01": ref_check("and more than 30 ALU instructions", [("ref", 150000)], [("ref", 3000000)]),
    "R02": ref_check("and more than 15 memory accesses", [("ref", 120000)], [("ref", 2000000)]),
    "R03": ref_check("and two traps, an interrupt or more than 12 CSR instructions", [("ref", 100000)], [("ref", 2000000)]),
    "R04": ref_check("more than 60 page-table walks and a page fault or two translation fences", [("ref", 60000)], [("ref", 1000000)]),
    "R05": ref_check("and more than 20 floating-point instructions", [("ref", 150000)], [("ref", 3000000)]),
    "R06": ref_check("and more than 2 device accesses or an interrupt", [("ref", 80000)], [("ref", 1500000)]),
    "R07": ref_check("(built with address and undefined-behaviour sanitizers and assertions)", [("ref-san", 12000)], [("ref-san", 200000)]),
})
CHECKS.update({
    "D01": sys_check("at least 40 commits, all of them shown to the built-in checker", [("diff", 5000)], [("diff", 60000)]),
    "D02": sys_check("more than 2 altered commits shown to the built-in checker", [("diff", 4000)], [("diff", 50000)]),
})
for p in ("D01", "D02"):
    CHECKS[p]["assumptions"] = CHECKS[p]["assumptions"] + ["the prebuilt reference library is not in the sandbox; diff/ref.cpp behind standin/refcpu_shim.cpp takes its place"]
CHECKS["D02"]["technique"] = "random program generation with injected single divergences; the built-in checker must stop at each"
CHECKS.update({
    "X01": sys_check("at least 40 instructions executed by the run", [("main", 700)], [("main", 12000)], args=["--jobs", "6"]),
    "X02": sys_check("at least 40 instructions executed by the run", [("main", 240)], [("main", 5000)], args=["--jobs", "6"]),
})
CHECKS["P01"] = sys_check("at least 40 instructions executed by the run", [("main", 600)], [("main", 12000)], args=["--jobs", "6"])
CHECKS["X03"] = sys_check("the command line or file was refused, or at least 40 instructions ran", [("main", 900)], [("main", 15000)], args=["--jobs", "6"])
CHECKS["X04"] = sys_check("at least 40 instructions executed by the run", [("main-oracle", 900)], [("main-oracle", 15000)], args=["--jobs", "6"])
CHECKS["P02"] = sys_check("at least 40 instructions executed by each of the two runs", [("main", 500)], [("main", 8000)], args=["--jobs", "6"])
for p in ("X01", "X02", "X03", "X04", "P01", "P02"):
    CHECKS[p]["assumptions"] = CHECKS["D01"]["assumptions"] + ["timer and interrupt-source state set before the switch from reference to core is not carried over and is outside the generated domain"]
    CHECKS[p]["technique"] = "random programs and command lines given to the simulator's own main(), lock-step comparison of every phase with an independent model"
CHECKS["P01"]["technique"] = "random programs and command lines given to the simulator's own main(); the printed report is checked against counts kept by an independent model and against its own sums"
STEADY = "each case is a generated loop run in lock step against the independent model, its later passes measured; non-trivial: "
for p, rule, quick, thorough, tech in (
        ("T01", "at least 18 measured passes of instructions whose cost is stated", [("be", 6000), ("full", 1500), ("be-large", 1000)], [("be", 60000), ("full", 12000), ("be-large", 12000), ("medium", 3000), ("large", 3000)],
         "random loops of dependent and independent operations; measured cycles against the dependence graph of the executed instructions"),
        ("T02", "every transfer of the loop went one way throughout (or is one of two branches that repeat) and no more than two share a table place", [("full", 1500), ("large", 500)], [("full", 12000), ("large", 5000), ("medium", 5000)],
         "random loops of branches, jumps, calls and returns with fixed outcomes; mispredictions of the second half counted"),
        ("T03", "all lines and pages of the loop fit the caches and no more than two transfers share a table place", [("be", 2500), ("full", 800)], [("be", 20000), ("full", 6000), ("large", 3000), ("be-large", 6000), ("medium", 3000)],
         "random loops over a working set that fits; memory requests of the second half matched with the lines the model touched")):
    CHECKS[p] = sys_check(rule, quick, thorough)
    CHECKS[p]["rule"] = STEADY + rule
    CHECKS[p]["technique"] = tech
    CHECKS[p]["level_note"] = "random search over loops; cost bounds carry a small tolerance, so differences below it are not seen"
UNIT_LIMITS = ["the harness hands the units decoded operations the way the decoder does; decoding itself is checked by C01 and C11"]
CHECKS["F01"] = dict(rule="operations of at least 4 of the 5 kinds of unit (distinct operation lists of 120 operations)", stages={"quick": [dict(bin="fu", cases=500000)], "thorough": [dict(bin="fu", cases=3000000)]},
                     level_note="random search directed at operand boundaries; samples operand pairs, does not enumerate them", assumptions=UNIT_LIMITS,
                     technique="random operation and boundary-directed operand generation, comparison with an independent exact-arithmetic model")
CHECKS["F02"] = dict(rule="more than 5 operations delivered and more than 2 resolved-branch bits removed from waiting operations", stages={"quick": [dict(bin="fu", cases=400000)], "thorough": [dict(bin="fu", cases=2500000)]},
                     level_note="random search over streams of up to 260 cycles", assumptions=UNIT_LIMITS,
                     technique="random streams of operations, squashes, resolutions and back-pressure against a queue model")
CHECKS["P02"]["technique"] = "random programs and command lines run twice by the simulator's own main() with different garbage in fresh memory, addresses and clock; the two reports must be equal"
for p, rule, tech in (("U01", "more than 10 entries delivered and the queue full, cleared while holding entries, or passed through while empty", "random cycle-by-cycle streams of writes, reads, redirects and resets against a queue model, every field compared"),
                      ("U02", "more than 10 control transfers, more than 2 restarts and a sequential group (60 groups per case)", "random fetch groups with encoding- and offset-directed instruction words against an independent decoder")):
    CHECKS[p] = dict(rule=rule, stages={"quick": [dict(bin="front", cases=400000), dict(bin="front-large", cases=200000)], "thorough": [dict(bin="front", cases=4000000), dict(bin="front-large", cases=2000000)]},
                     level_note="random search; samples the histories and words, does not enumerate them", technique=tech,
                     assumptions=["the queues' writer checks for space before writing, as the fetch unit does"] if p == "U01" else [])
NOT_APPLICABLE = {}
