# What each property's check runs.  mask: which kinds of violation the run looks for (rt/rt.h Kind).
MEM, LIN, PROGRESS, CRASH, SIZE, SCAN, LIFE, PROP, SHAPE, RACE, DUMP, STATS, NOWAIT, GROW, TWIN = [1 << i for i in range(15)]
SEQ_EXPLAIN = ("Explicit-state search on the real container: a transition is one public operation (or a macro of operations), a state is the "
               "canonicalised heap graph of the container; 'states' counts distinct states reached, 'transitions' operations executed from a state, "
               "'traces_validated_against_impl' the operation sequences executed on the implementation from scratch and compared in full with the reference.")
CONC_EXPLAIN = ("Stateless exploration of all schedules of small client programs on the real code up to a preemption bound: 'traces_validated_against_impl' "
                "is the number of complete schedules executed, 'states' the number of distinct scheduling decision points, 'transitions' the scheduling steps executed.")
BM = dict(harness="btree_map.cpp", parts=15, opt="-O2")
CA = dict(harness="conc_art.cpp", tsan=True)
CAL = dict(CA, defs=["LIFETIME"])
CH = dict(harness="conc_hash.cpp", tsan=True)
CHL = dict(harness="conc_hash.cpp", tsan=True, defs=["LIFETIME"])
CE = dict(harness="conc_epoch.cpp", tsan=True)
CB = dict(harness="conc_btree.cpp", tsan=True)
CBS = dict(CB, defs=["SCANS"])
CBL = dict(CB, defs=["LIFETIME", "NSIZE=176"])
RESTART = "INDEXES_VERIF_MAX_RESTARTS=1"
CBZ = dict(CB, defs=["WITH_STATS=true"])
def wide(run, **kw):  # values which take several accesses to copy
    return dict(run, defs=run.get("defs", []) + ["WIDE", "NSIZE=224"], **kw)
STATELESS = "stateless model checking: exhaustive enumeration of the real code's schedules under a controlled scheduler, with preemption bound and sleep sets"
CHECKS = {
 "C01": dict(explain=SEQ_EXPLAIN, runs=[dict(BM, mask=LIN)]),
 "C02": dict(explain=SEQ_EXPLAIN, runs=[dict(BM, mask=SCAN)]),
 "C03": dict(explain=SEQ_EXPLAIN, runs=[dict(BM, mask=PROP)]),
 "C04": dict(explain="Exhaustive enumeration of all keys of 1 to 3 components over 5-value component domains and of up to 6 (thorough: 7) components over 2- to 4-value domains: 'states' are keys, 'transitions' ordered pairs on which all six operators "
      "are compared with an independent lexicographic oracle, 'traces_validated_against_impl' pairs plus triples checked for the order axioms on the implementation's answers.",
      runs=[dict(harness="compound_key.cpp", opt="-O2", mask=PROP)]),
 "C05": dict(explain=SEQ_EXPLAIN, runs=[dict(harness="btree_map.cpp", parts=6, tsan=True, defs=["LIFETIME"], mask=LIFE | MEM)]),
 "C06": dict(explain=SEQ_EXPLAIN, runs=[dict(harness="art.cpp", opt="-O2", mask=LIN)]),
 "C07": dict(explain=SEQ_EXPLAIN, runs=[dict(harness="art.cpp", tsan=True, defs=["LIFETIME"], mask=LIFE | MEM)]),
 "C08": dict(explain=SEQ_EXPLAIN, runs=[dict(harness="art.cpp", tsan=True, defs=["CONC"], mask=LIN | LIFE | MEM | SIZE)]),
 "C09": dict(explain=CONC_EXPLAIN, runs=[dict(CA, mask=LIN, deepen=25), dict(wide(CA), mask=LIN, deepen=8), dict(CAL, mask=LIN, deepen=5)]),
 "C10": dict(explain=CONC_EXPLAIN, runs=[dict(CA, mask=MEM, deepen=20), dict(CAL, mask=MEM | LIFE, deepen=20)]),
 "C11": dict(explain=CONC_EXPLAIN, runs=[dict(CA, mask=PROGRESS)]),
 "C12": dict(explain=SEQ_EXPLAIN, runs=[dict(harness="cbtree.cpp", parts=6, opt="-O2", mask=LIN)]),
 "C13": dict(explain=SEQ_EXPLAIN, runs=[dict(harness="cbtree.cpp", parts=6, opt="-O2", mask=SCAN)]),
 "C14": dict(explain=CONC_EXPLAIN, runs=[dict(CB, mask=LIN), dict(CB, mask=LIN, defs=[RESTART], deepen=15), dict(wide(CB), mask=LIN, deepen=10), dict(CBL, mask=LIN, deepen=5)]),
 "C15": dict(explain=CONC_EXPLAIN, runs=[dict(CBS, mask=SCAN), dict(CB, mask=SCAN, defs=["SCANS", RESTART], deepen=15), dict(wide(CBS), mask=SCAN, deepen=8), dict(CB, mask=SCAN, defs=["SCANS", "LIFETIME", "NSIZE=176"], deepen=5),
            dict(CB, mask=SCAN, defs=["SCANS", "WIDE", "NSIZE=224", "KNOWN"], deepen=0),
      dict(harness="cbiter.cpp", tsan=True, mask=SCAN | LIN, deepen=10)], technique=STATELESS + "; explicit-state search for iterators held by the modifying thread"),
 "C16": dict(explain=CONC_EXPLAIN + " The last run explores the container used by one thread.", technique=STATELESS + "; explicit-state search for the one-thread part",
      runs=[dict(CBL, mask=MEM | LIFE, deepen=20), dict(CB, mask=MEM | LIFE, defs=["LIFETIME", "NSIZE=176", RESTART], deepen=10), dict(CB, mask=MEM | LIFE, defs=["SCANS", "LIFETIME", "NSIZE=176"], deepen=15),
            dict(CB, mask=MEM | LIFE, defs=["SCANS", "LIFETIME", "NSIZE=176", "KNOWN"], deepen=0), dict(harness="cbtree.cpp", parts=3, tsan=True, defs=["LIFETIME"], mask=MEM | LIFE, deepen=15),
            dict(harness="cbiter.cpp", tsan=True, defs=["LIFETIME"], mask=MEM | LIFE, deepen=10)]),
 "C17": dict(explain=CONC_EXPLAIN, runs=[dict(CB, mask=PROGRESS, deepen=25), dict(CB, mask=PROGRESS, defs=[RESTART], deepen=15), dict(CBS, mask=PROGRESS, deepen=15)]),
 "C18": dict(explain=SEQ_EXPLAIN, runs=[dict(harness="hash.cpp", opt="-O2", mask=LIN), dict(harness="hash.cpp", opt="-O2", mask=LIN, defs=["KNOWN"])]),
 "C19": dict(explain=CONC_EXPLAIN, runs=[dict(CH, mask=LIN, deepen=25), dict(wide(CH), mask=LIN, deepen=8), dict(CHL, mask=LIN, deepen=5)]),
 "C20": dict(explain=CONC_EXPLAIN + " The second run explores the container used by one thread.", technique=STATELESS + "; explicit-state search for the one-thread part",
      runs=[dict(CHL, mask=MEM | LIFE), dict(harness="hash.cpp", tsan=True, defs=["LIFETIME"], mask=MEM | LIFE)]),
 "C21": dict(explain=CONC_EXPLAIN, runs=[dict(CH, mask=PROGRESS)]),
 "C22": dict(explain=CONC_EXPLAIN, runs=[dict(CH, mask=SIZE, deepen=15), dict(CA, mask=SIZE, deepen=15), dict(CBZ, mask=SIZE, deepen=15)]),
 "C23": dict(explain=CONC_EXPLAIN, runs=[dict(CE, mask=MEM)]),
 "C24": dict(explain=CONC_EXPLAIN, runs=[dict(CE, mask=LIFE | PROP)]),
 "C25": dict(explain=SEQ_EXPLAIN + " The last run adds schedules of concurrent programs.", technique="explicit-state search over operation sequences of the real containers, the shape of every state read off the nodes lookups pass; stateless model checking for the concurrent part",
      runs=[dict(harness="btree_map.cpp", parts=15, tsan=True, mask=SHAPE, deepen=15), dict(harness="cbtree.cpp", parts=6, tsan=True, mask=SHAPE, deepen=15), dict(CB, mask=SHAPE, deepen=15)]),
 "C26": dict(explain=CONC_EXPLAIN + " On every schedule, happens-before is computed with vector clocks from the memory order of each atomic operation, fence and mutex, "
      "and every access to the heap is compared with the latest conflicting access of each other thread to each byte.",
      technique=STATELESS + "; happens-before race detection on every schedule",
      runs=[dict(CAL, mask=RACE, deepen=15), dict(CHL, mask=RACE, deepen=15), dict(CE, mask=RACE, deepen=10), dict(CBL, mask=RACE, deepen=15), dict(CBS, mask=RACE, deepen=10),
            dict(wide(CA), mask=RACE, deepen=5), dict(wide(CH), mask=RACE, deepen=5)]),
 "C27": dict(explain=SEQ_EXPLAIN + " In every state the text of dump() is parsed and compared with the contents. The last runs do so at the end of every schedule of concurrent programs.",
      technique="explicit-state search over operation sequences of the real containers, the dump of every state parsed and compared with its contents; stateless model checking for the concurrent part",
      runs=[dict(harness="btree_map.cpp", parts=5, opt="-O2", defs=["DUMPS"], mask=DUMP, deepen=5), dict(harness="cbtree.cpp", parts=3, opt="-O2", defs=["DUMPS"], mask=DUMP, deepen=5),
            dict(harness="art.cpp", opt="-O2", defs=["DUMPS"], mask=DUMP, deepen=5), dict(harness="art.cpp", tsan=True, defs=["DUMPS", "CONC"], mask=DUMP, deepen=5), dict(CB, mask=DUMP, defs=["DUMPS"], deepen=5)]),
 "C28": dict(explain=SEQ_EXPLAIN + " In every state the statistics are compared with the nodes which dump() prints. The last runs do so at the end of every schedule of concurrent programs.",
      technique="explicit-state search over operation sequences of the real containers, the counters of every state compared with its nodes; stateless model checking for the concurrent part",
      runs=[dict(harness="btree_map.cpp", parts=5, opt="-O2", defs=["DUMPS"], mask=STATS, deepen=5), dict(harness="cbtree.cpp", parts=3, opt="-O2", defs=["DUMPS"], mask=STATS, deepen=5),
            dict(CB, mask=STATS, defs=["DUMPS"], deepen=10), dict(CB, mask=STATS, defs=["DUMPS", RESTART], deepen=10)]),
 "C29": dict(explain=CONC_EXPLAIN + " A search, a size query or an operation of the epoch manager that blocks, sleeps or goes on for long while the other threads stand still is a violation.",
      runs=[dict(CA, mask=NOWAIT, deepen=15), dict(CH, mask=NOWAIT, deepen=15), dict(CE, mask=NOWAIT, deepen=5), dict(CBZ, mask=NOWAIT, deepen=5)]),
 "C30": dict(explain=SEQ_EXPLAIN + " From every state, cycles of operations which restore its contents are repeated 30 to several thousand times. The last runs do so at the end of every schedule of concurrent programs.",
      technique="explicit-state search over operation sequences of the real containers, the memory held watched along cycles from every state; stateless model checking for the concurrent part",
      runs=[dict(harness="btree_map.cpp", parts=4, opt="-O2", defs=["DUMPS", "GROWTH"], mask=GROW, deepen=5), dict(harness="cbtree.cpp", parts=2, opt="-O2", defs=["DUMPS", "GROWTH"], mask=GROW, deepen=5),
            dict(harness="art.cpp", opt="-O2", defs=["GROWTH"], mask=GROW, deepen=5), dict(harness="art.cpp", opt="-O2", defs=["GROWTH", "CONC"], mask=GROW, deepen=5),
            dict(harness="hash.cpp", opt="-O2", defs=["GROWTH"], mask=GROW, deepen=5),
            dict(CA, mask=GROW, deepen=5), dict(CB, mask=GROW, deepen=5), dict(CH, mask=GROW, deepen=5)]),
 "C31": dict(explain=SEQ_EXPLAIN + " In every state, other containers of the same type are created, changed, iterated over and destroyed next to it, and all of them are compared with their own references. "
      "The last runs explore the schedules of threads which each use a container of their own, or two epoch managers.",
      technique="explicit-state search over operation sequences of the real containers, other instances used next to every state; stateless model checking for the concurrent part",
      runs=[dict(BM, defs=["TWINS"], mask=TWIN, deepen=5), dict(harness="cbtree.cpp", parts=6, opt="-O2", defs=["TWINS"], mask=TWIN, deepen=5),
            dict(harness="cbtree.cpp", parts=2, tsan=True, defs=["TWINS", "LIFETIME"], mask=TWIN | MEM, deepen=5),
            dict(harness="art.cpp", opt="-O2", defs=["TWINS"], mask=TWIN, deepen=5), dict(harness="art.cpp", opt="-O2", defs=["TWINS", "CONC"], mask=TWIN, deepen=5),
            dict(harness="hash.cpp", opt="-O2", defs=["TWINS"], mask=TWIN, deepen=5)]
           + [dict(c, defs=["TWINS"], mask=TWIN | MEM | RACE | NOWAIT, deepen=5) for c in (CA, CB, CH)] + [dict(CE, defs=["TWINS"], mask=TWIN | MEM | LIFE | PROP, deepen=5)]),
}
for _c in CHECKS.values():
    if _c["explain"].startswith(CONC_EXPLAIN):
        _c.setdefault("technique", STATELESS)
