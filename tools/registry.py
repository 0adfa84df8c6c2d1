"""What each check is made of."""
RULE_MC = ("Every schedule of the scenario's worker threads whose total deviation cost (preemptions, reordered wake-ups, work-dispatch switches, "
  "runtime choices) stays within the bound is executed on the real code; one execution = one distinct schedule; distinct_nontrivial counts distinct "
  "observed outcomes (work distribution / results) over all scenarios.")
RULE_SEQ = ("Every case of each finite family (cases) is executed on the real code and compared with an independent reference; evaluations counts the "
  "compared calls of the code under test inside the cases, distinct_nontrivial the distinct observed states (hash of the observed result or reached state).")
A_MC = ["interleavings are sequentially consistent at plain-access granularity; weaker behaviours are caught as data races by the happens-before detector",
        "the OpenMP and oneTBB runtimes are replaced by a controlled runtime with the same ABI contract (task stealing, chunk dispatch, barriers, waits)"]
A_SEQ = ["bounded domains as listed per family; values outside are not explored"]

def mc(name, **k): return dict(name=name, kind="mc", src=["mc/%s.cpp" % name], **k)
def seq(name, **k): return dict(name=name, kind="seq", src=["seq/%s.cpp" % name], **k)

RH = "/repo/src/small_gicp/registration/registration_helper.cpp"
MC = dict(level="model_checking", rule=RULE_MC, assumptions=A_MC, time=dict(quick=300, thorough=1800))
def wide(name): return dict(mc(name), name=name + "_wide", share=0.3, flags=["-DMCRT_MAXT=72"])
def mcc(name, tech, **k): return dict(MC, bins=[mc(name, **k)] + ([wide(name)] if name != "c06" else []), technique="stateless model checking: " + tech)

CHECKS = {
 "C01": mcc("c01", "every bounded schedule of the real OpenMP/TBB reductions under a controlled scheduler with happens-before race detection, against the serial reduction"),
 "C02": mcc("c02", "every bounded schedule of the real OpenMP/TBB k-d tree builders under a controlled scheduler with race detection, queries against brute force"),
 "C03": mcc("c03", "every bounded schedule of the real OpenMP/TBB voxel-grid downsampling with race detection; outputs decoded into a partition of the input points"),
 "C04": mcc("c04", "every bounded schedule of the real parallel sorts with race detection; result compared with the sorted multiset"),
 "C05": mcc("c05", "every bounded schedule of the real OpenMP/TBB estimators with race detection, attributes against the serial estimator"),
 "C06": mcc("c06", "every bounded interleaving of concurrent queries and alignments on shared objects with race detection, results against the same call running alone"),
}
CHECKS["C06"]["bins"][0]["src"].append(RH)
def sq(tech, *bins, level="exploration", **k):
    d = dict(level=level, rule=RULE_SEQ, assumptions=A_SEQ, time=dict(quick=150, thorough=1800), technique=tech, bins=list(bins))
    d.update(k)
    return d
CHECKS["C07"] = sq("bounded exhaustive enumeration of clouds, queries, k and builder settings on the real k-d trees against brute force; exhaustive push sequences of the result container", seq("c07"))
CHECKS["C08"] = sq("explicit-state exploration of all insertion histories up to a depth on the real voxel maps against a reference model of the map", seq("c08"), level="model_checking")
CHECKS["C09"] = sq("bounded exhaustive enumeration of map contents, queries and neighbourhood-setting histories on the real voxel maps against brute force over cells", seq("c09"), level="model_checking")
PCL = ["-I/usr/include/pcl-1.14"]
CHECKS["C10"] = sq("bounded exhaustive enumeration of point sequences on and around voxel and range borders, container types and scripted random engines, on the real samplers against an exact per-voxel reference", seq("c10", flags=PCL))
CHECKS["C11"] = sq("bounded exhaustive enumeration of lattice subsets, answer counts and clouds on the real estimators against an independent PCA", seq("c11", flags=PCL))
CHECKS["C12"] = sq("explicit-state exploration of all correspondence histories of the real factors, and exhaustive pose/attribute grids, against an independent reference and numeric differentiation", seq("c12"))
CHECKS["C13"] = sq("bounded exhaustive enumeration of kernels, widths, residuals, factors and all 64 restriction masks on the real classes against reference formulas", seq("c13"))
CHECKS["C14"] = sq("explicit-state exploration of every scripted environment (linear systems, trial errors) up to a depth on the real optimizers, trace compared with a reference protocol automaton", seq("c14"), level="model_checking")
CHECKS["C15"] = sq("exhaustive perturbation grid x base poses x factor/reduction/optimizer/search-structure combinations on the real registration", *[dict(seq("c15", flags=["-DPART=%d" % q], link=["-ltbb"]), name="c15_%d" % q, share=0.25) for q in (1, 2, 3, 4)])
CHECKS["C16"] = sq("explicit-state exploration of all operation histories (settings, inputs, swaps, clears, alignments) up to a depth on the real PCL wrapper, every observation compared with the explicitly assembled pipeline", seq("c16", flags=PCL, link="-lpcl_common -lpcl_kdtree -lpcl_search -llz4".split()), level="model_checking")
CHECKS["C17"] = sq("bounded exhaustive enumeration of registration settings, overloads and clouds on the real helpers against the explicitly assembled pipeline; thread counts and call parameters observed", dict(seq("c17", link=["-Wl,--wrap=GOMP_parallel"]), src=["seq/c17.cpp", RH]))
CHECKS["C18"] = sq("bounded exhaustive enumeration of input forms, entry points, parameters and voxel-map operation histories on the real Python module against the C++ library called directly and brute force", dict(name="c18", kind="py", src=["seq/c18.py"]))
SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern".split()
CHECKS["C19"] = sq("bounded exhaustive enumeration of degenerate inputs (alone and in pairs) x public operations x backends on the real code under AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer with poisoned memory, answers checked against brute force",
  *([dict(seq("c19", flags=SAN + ["-DPART=%d" % q], link=["-ltbb"]), name="c19_%d" % q, share=0.3, src=["seq/c19.cpp"] + ([RH] if q == 1 else [])) for q in (1, 2, 3, 4, 5)]
    + [dict(seq("c19", flags=SAN + PCL + ["-DPCLPART"], link="-ltbb -lpcl_common -lpcl_kdtree -lpcl_search -llz4".split()), name="c19_pcl", share=0.3),
       dict(seq("c19", flags="-fsanitize=memory -fsanitize-memory-track-origins=0 -D_GLIBCXX_EXTERN_TEMPLATE=0 -DMSANPART".split(), cxx="clang++", omp=False), name="c19_msan", share=0.3)]))
CHECKS["C20"] = sq("exhaustive grid of axes x angles (every neighbourhood of the series switch-overs) x translations on the real functions against an extended-precision exponential; group laws", seq("c20"))
CHECKS["C21"] = sq("exhaustive enumeration of truncation points: every byte position of every small file layout is a fault point, read by the real readers in a child process under AddressSanitizer", seq("c21", flags="-fsanitize=address,undefined -fno-sanitize-recover=all".split()), level="fault_enumeration")
CHECKS["C22"] = sq("bounded exhaustive enumeration of clouds x image sizes x windows x border modes x queries x k on the real search against brute force over the window's pixels", seq("c22", flags=["-D_GLIBCXX_ASSERTIONS"]))
CHECKS["C23"] = sq("explicit-state exploration of every operation sequence up to a depth on every point container against a reference model of its contents", seq("c23", flags=PCL + ["-D_GLIBCXX_ASSERTIONS"]), level="model_checking")
CHECKS["C24"] = sq("explicit-state exploration of all call histories up to a depth over an alphabet of library calls on reused and fresh objects, each history in a process of its own, every result compared with the same call in a fresh process", dict(seq("c24", link=["-ltbb"]), src=["seq/c24.cpp", RH]), level="model_checking")
CHECKS["C25"] = sq("explicit-state exploration of all motion sequences up to a depth through the real odometry pipeline in a simulated scene, trajectory and map compared with the truth after every scan", dict(seq("c25", link=["-ltbb"]), src=["seq/c25.cpp", RH]), level="model_checking")
CHECKS["C26"] = sq("bounded exhaustive enumeration of container types (supported and user-defined) x algorithms x back ends x clouds, of all accept/reject outcomes of a user-defined rejector and of user-defined searches, priors and voxels with monitored call protocol, against the library cloud", *[dict(seq("c26", flags=PCL + ["-DPART=%d" % q], link=["-ltbb"]), name="c26_%d" % q, share=0.33) for q in (1, 2, 3)])
CHECKS["C27"] = sq("explicit-state exploration of all ownership histories up to a depth on the owning structures and the PCL wrapper under AddressSanitizer and with allocation counting; balance of all call histories; every allocation of every serial call is a fault point",
  dict(seq("c27", flags=["-DCOUNT"], link=["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc", "-ltbb"]), src=["seq/c27.cpp", RH], share=0.5),
  dict(seq("c27", flags=SAN, link=["-ltbb"]), name="c27_asan", src=["seq/c27.cpp", RH], share=0.5),
  dict(seq("c27", flags=SAN + PCL + ["-DPCLPART"], link="-ltbb -lpcl_common -lpcl_kdtree -lpcl_search -llz4".split()), name="c27_pcl", src=["seq/c27.cpp", RH], share=0.5),
  level="model_checking", time=dict(quick=240, thorough=1800))
NOTES = {
 "model_checking": "exhaustive enumeration of the stated bounded space on the real code; bounds are listed per scenario in the evidence file",
 "exploration": "exhaustive enumeration of finite input families on the real code against an independent reference; bounds are listed per family in the evidence file",
 "fault_enumeration": "every fault point of the stated histories is enumerated on the real code; bounds are listed per family in the evidence file",
}
NOT_APPLICABLE = {}
