"""Which check decides which property, and what its answer is worth."""

CHECKS = {
    "P01": ("dst.worlds.hier", "P01"), "P02": ("dst.worlds.hier", "P02"), "P03": ("dst.worlds.hier", "P03"),
    "P04": ("dst.worlds.hier", "P04"), "P05": ("dst.worlds.hier", "P05"),
    "P06": ("dst.worlds.bulk", "P06"), "P07": ("dst.worlds.hier", "P07"),
    "P08": ("dst.worlds.incidence", "P08"), "P09": ("dst.worlds.incidence", "P09"), "P10": ("dst.worlds.incidence", "P10"),
    "P11": ("dst.worlds.readers", "P11"), "P12": ("dst.worlds.readers", "P12"),
    "P13": ("dst.worlds.readers", "P13"),
    "P14": ("dst.worlds.mix", "P14"),
    "P20": ("dst.worlds.codec", "P20"),
    "P21": ("dst.worlds.codec", "P21"),
    "P22": ("dst.worlds.values", "P22"),
    "P15": ("dst.worlds.isolation", "P15"),
    "P23": ("dst.worlds.describe", "P23"), "P24": ("dst.worlds.describe", "P24"),
    "P25": ("dst.worlds.convert", "P25"),
    "P16": ("dst.worlds.matrix", "P16"), "P17": ("dst.worlds.matrix", "P17"), "P18": ("dst.worlds.matrix", "P18"),
    "P19": ("dst.worlds.matrix", "P19"),
}

_GEN = ("Seeded search, not exhaustive: holds on every simulated execution that was run. Trusts the reference model in "
        "dst/ and the Python runtime. ")

NOTES = {
    "P01": ("random histories with refused and half-consumed operations against a forest model",
            _GEN + "Histories of up to 200 operations on up to a few hundred elements; hierarchies up to 1100 levels deep."),
    "P02": ("random histories with subtree moves against a forest model",
            _GEN + "Names and depths of all elements after each operation (sampled in graphs above 120 elements)."),
    "P03": ("random histories and random paths against a forest model",
            _GEN + "Names containing '/' are excluded from lookups (a path separator cannot be told from a name)."),
    "P04": ("operations that must be refused at random points of random histories, before/after comparison of all observables",
            _GEN + "Asynchronous and factory-level refusals are judged by P06 and P10."),
    "P05": ("random histories against a counter model", _GEN),
    "P06": ("concurrent bulk calls on a simulated event loop with cancellation and failing members, checked against one-by-one orders",
            _GEN + "Bulk calls run on one event loop; the library offers no cross-thread guarantee."),
    "P07": ("random histories under stalled, coarse, jumping and backward clocks",
            _GEN + "The clock is the injected MetaClock; LocalClock itself is exercised with the time functions replaced."),
    "P08": ("creation histories under stalled and jumping clocks, several factory instances and processes",
            _GEN + "Collisions are judged on the elements actually made, not on the hash function."),
    "P09": ("random connect/disconnect/remove histories against an incidence model", _GEN),
    "P10": ("random connector requests with faults injected at a chosen endpoint, against an incidence model", _GEN),
    "P11": ("traversals on a simulated event loop between and during mutations, aborts and cancellations, against a reference traversal",
            _GEN + "Graphs are not changed while a traversal that is being judged runs."),
    "P12": ("searches on a simulated event loop between mutations, re-used and aborted search objects, against a reference search",
            _GEN),
    "P13": ("engine executions under seeded task scheduling with failing predicates, against a reference query", _GEN),
    "P14": ("concurrent readers under seeded scheduling with extra suspension points, cancellation and failures, against solo runs",
            _GEN),
    "P15": ("programs on separate graphs in baton-passed threads and tasks, against the same programs run alone",
            _GEN + "Threads switch at source lines of the library, not inside one line."),
    "P16": ("random graphs with cycles and mutations between calls, seeded scheduling, against a direct definition", _GEN),
    "P17": ("random mutation histories with recomputation between them, against a direct definition", _GEN),
    "P18": ("random mutation histories with recomputation between them, against a direct definition", _GEN),
    "P19": ("random histories of computations, aborts and single entries with quantities read in drawn orders, against the formulas entry by entry",
            _GEN + "The formulas themselves are taken from the code and its tests; what is searched for is dependence on history and order."),
    "P20": ("simulated snapshot exchange with codec re-use, mutation in between, damaged and truncated messages",
            _GEN + "cbor2 is real; damage that still decodes to a well-formed message is outside the claim."),
    "P21": ("simulated lossy, duplicating, reordering, delaying and damaging channel with receiver restarts", _GEN),
    "P22": ("random write histories with caller-side aliasing against a list model", _GEN),
    "P23": ("generated descriptions read one after another and interleaved, under simulated clocks, against a description model",
            _GEN + "The ANTLR runtime and the generated parser are not installed: an interpreter of the repository's own .g4 "
                   "grammar stands in for them and drives the real listener."),
    "P24": ("exports of generated models under seeded scheduling, clocks and interleavings, against a description model",
            _GEN + "Same parser stand-in as P23; lxml is real."),
    "P25": ("invocations of the program on a simulated disk with failing, short or cut-off calls, against what an undisturbed run leaves",
            _GEN + "Same parser stand-in as P23. Native file access (such as lxml's own) would pass by the simulated disk; the program has none."),
}


NOT_APPLICABLE = {}
