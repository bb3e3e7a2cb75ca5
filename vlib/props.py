"""The stages of every check: which workload, on which build, how many cases per tier."""
from .driver import Stage as S
from . import cli

GEN = ("Cases are drawn from VERIF_SEED: a matrix family (uniform sparse/dense, planted rank, triangular, block, banded, "
       "degenerate shapes, duplicated/zero rows and columns ...), a modulus (3 to 2^32-5, edge primes over-weighted), options and a thread count. ")
COMMON = ["the reference arithmetic and elimination in /verif/src/ref.hpp (128-bit integers, written independently of the library)",
          "compilers, libc, OpenBLAS/LAPACK and Givaro behave as specified"]
def huge(mode, quick=True, variant="plain", **k):
    return S(variant, 1 if quick else 0, 1, prop="HUGE", mode=mode, jobs=1, timeout=400, minimum=0.5, **k)
def large(mode, q, t, variant="plain", **k):
    return S(variant, q, t, prop="LARGE", mode=mode, timeout=k.pop("timeout", 240), minimum=k.pop("minimum", 0.5), **k)
LG = " A further stage runs the same operation on large sparse matrices of known rank (up to 8000 rows or columns, thorough 20000), where identities are tested on random combinations (a wrong answer escapes with probability at most 2^-40)."
LP = " A further stage uses large patterns (up to 40000 rows and columns, components up to 200000 nodes)."
OC = ("oracle", "crash", "hang")

P = {}
def prop(pid, rule, stages, technique="runtime monitoring: independent reference oracle over randomised executions", note="", assumptions=(), run=None):
    P[pid] = dict(rule=rule, stages=stages, technique=technique, note=note, assumptions=COMMON + list(assumptions), run=run)

prop("C01", "Random primes and edge operands (0, +-1, +-(p-1)/2, int64 extremes, products near rounding limits) through add/sub/mul/axpy/inverse/set; stage with mode 1 enumerates all triples of small primes. Non-trivial: at least one operation was compared with 128-bit arithmetic.",
     [S("plain", 60000, 900000), S("plain", 40, 60, mode=1), S("asan", 20000, 200000)],
     note="Held on the operand tuples evaluated; all primes below about 20 exhaustively. Trusts 128-bit integer arithmetic of the compiler.")
prop("C02", GEN + "Non-trivial: reference rank at least 1 and the library's answer compared with it. Mode 1: planted ranks on larger matrices (rank known by construction).",
     [S("plain", 150000, 2000000), S("plain", 700, 8000, mode=1), S("asan", 15000, 200000), huge(5), huge(12, quick=False)],
     note="Rank compared with an independent exact elimination on every generated case.")
prop("C03", GEN + "Non-trivial: rank at least 1; U is checked row by row (pivot first and 1, maps, duplicates, order) and its row space against the reference RREF." + LG,
     [S("plain", 150000, 2000000), S("plain", 1500, 15000, mode=1), S("asan", 15000, 200000), large(0, 300, 2500)],
     note="Structure and row space of every returned factor checked by an independent monitor.")
prop("C04", GEN + "L requested. Non-trivial: rank at least 1; L*U recomputed in 128-bit arithmetic and compared with the pivotal (or all) rows." + LG,
     [S("plain", 150000, 2000000), S("asan", 15000, 200000), large(0, 300, 2500), large(0, 40, 400, variant="asan")],
     note="L*U recomputed and compared on every case; lower-triangularity through the row pivot map.")
prop("C05", GEN + "Non-trivial: the kernel has at least one row; each row is multiplied by the matrix and its shape checked." + LG,
     [S("plain", 120000, 1500000), S("asan", 15000, 200000), large(1, 400, 4000), large(1, 40, 400, variant="asan")],
     note="Every returned kernel vector multiplied with the original matrix; count, independence and normal form checked.")
prop("C06", GEN + "Non-trivial: rank at least 1; RREF compared with the reference RREF, its kernel with the reference kernel." + LG,
     [S("plain", 120000, 1500000), S("asan", 15000, 200000), huge(7), huge(12), large(2, 250, 2500), large(2, 30, 300, variant="asan")],
     note="RREF is unique, so it is compared entry by entry with an independent one.")
prop("C07", GEN + "Right-hand sides inside and outside the row space, one or several. Non-trivial: at least one solve was decided by the reference." + LG,
     [S("plain", 120000, 1500000), S("asan", 15000, 200000), large(3, 250, 2500), large(3, 30, 300, variant="asan")],
     note="Solvability decided by reference elimination; returned vectors multiplied back.")
prop("C08", GEN + "Create, verify, save, load, compare, verify again. Non-trivial: rank at least 1." + LG,
     [S("plain", 120000, 1500000), S("asan", 15000, 200000), huge(11, quick=False), large(4, 250, 2500), large(4, 30, 300, variant="asan")],
     note="The certificate must be accepted in every history explored, and survive a file round trip unchanged.")
prop("C09", GEN + "Valid certificates altered in one or more fields, given to another matrix, or their files truncated/garbled; an independent implementation of the protocol decides what must be refused. Non-trivial: an altered certificate was decided." + LG,
     [S("plain", 120000, 1500000), S("asan", 15000, 200000), large(9, 250, 2500)],
     note="Rejection demanded exactly where an independent verifier finds the equations violated; soundness error about 1/p, so tiny moduli are decided by the reference verifier rather than assumed.")
prop("C10", GEN + "Structural pivots, row subsets, size estimates; sparse, dense and randomised complements. Non-trivial: at least one row of a Schur complement was compared." + LG,
     [S("plain", 120000, 1500000), S("asan", 15000, 200000), huge(6), large(5, 1500, 15000), large(5, 150, 1500, variant="asan")],
     note="Every produced row compared with exact elimination of the original row (or of the stated combination).")
prop("C11", GEN + "Permuted triangular systems, repeated solves on one workspace, matrix-vector products. Non-trivial: at least one solve was compared.",
     [S("plain", 250000, 3000000), S("asan", 25000, 300000), huge(0), huge(10)],
     note="Solutions multiplied back, patterns compared with graph reachability.")
prop("C12", GEN + "Mode 1: more than 2000 rows with up to 8 threads so that the chunks of the speculative search overlap. The same under the seeded scheduler, with loop chunks made small. Non-trivial: at least one pivot was found.",
     [S("plain", 120000, 1500000), S("plain", 900, 12000, mode=1), S("asan", 12000, 150000), huge(4),
      S("chaos", 20000, 400000, flags=["--chaos"], minimum=0.02), S("chaos", 80, 3000, mode=1, flags=["--chaos"], minimum=0.02)],
     note="Pivot maps, acyclicity of the pivotal submatrix and order of the rows of U checked after every search.")
prop("C13", "Random patterns of any shape. Non-trivial: the matching has at least one edge; its size is compared with an independent maximum matching." + LP,
     [S("plain", 400000, 4000000), S("asan", 40000, 400000), huge(8), S("plain", 600, 8000, mode=1), S("asan", 60, 800, mode=1)],
     note="Maximality decided by an independent augmenting-path matching (Koenig cover).")
prop("C14", "Random patterns of any shape, with planted coarse and fine blocks. Non-trivial: at least one entry; the canonical coarse sizes are computed independently." + LP,
     [S("plain", 300000, 3000000), S("asan", 40000, 400000), S("plain", 500, 8000, mode=1), S("asan", 60, 800, mode=1)],
     note="Coarse sizes compared with an independent decomposition, block structure checked entry by entry.")
prop("C15", "Random digraphs (sparse, dense, cycles, planted components). Non-trivial: at least one arc; components compared with an independent reachability computation." + LP,
     [S("plain", 400000, 4000000), S("asan", 40000, 400000), huge(3), S("plain", 1500, 20000, mode=1), S("asan", 150, 2000, mode=1)],
     note="Components compared as sets with an independent algorithm, order checked entry by entry.")
prop("C16", "Well-formed SMS/MatrixMarket texts from a grammar. Non-trivial: the file describes at least one entry. Mode 1: large files.",
     [S("plain", 120000, 1200000), S("plain", 150, 1500, mode=1), S("asan", 25000, 250000)],
     note="Parsed independently; the digest compared with an independent SHA-256.")
prop("C17", "Mutated, truncated, mis-declared and random files, each loaded in a forked child. Non-trivial: an independent parser decided that the file must be refused.",
     [S("plain", 9000, 100000), S("asan", 3500, 50000), S("valgrind", 150, 2500, flags=["--slow"])],
     note="Files whose status is not clear-cut are classed OPEN by the oracle and only required not to crash.")
prop("C18", GEN + "Non-trivial: at least one entry went through the round trip." + " A further stage uses matrices of up to 300000 rows and columns.",
     [S("plain", 200000, 2000000), S("asan", 25000, 250000), large(8, 1000, 12000), large(8, 100, 1200, variant="asan")],
     note="Entry-by-entry comparison after save and load.")
prop("C19", "Random sequences of triplets with duplicates and cancellations. Non-trivial: at least one duplicate." + " A further stage uses up to about a million triplets.",
     [S("plain", 600000, 6000000), S("asan", 100000, 1000000), huge(2), huge(2, variant="asan"), large(7, 1500, 15000), large(7, 150, 1500, variant="asan")],
     note="Compared with a map that sums in 128-bit arithmetic.")
prop("C20", GEN + "Non-trivial: at least one entry was moved." + " A further stage uses matrices of up to 300000 rows and columns and permutations of up to 3000000 elements.",
     [S("plain", 600000, 6000000), S("asan", 100000, 1000000), huge(1), huge(9), large(6, 600, 6000), large(6, 80, 800, variant="asan")],
     note="Compared entry by entry with the definition.")
prop("C21", "Message lengths around block boundaries, random update splits; generator streams replayed by an independent SHA-256. Mode 1: messages beyond 2^29 bytes. Non-trivial: a digest or at least one field element was compared.",
     [S("plain", 60000, 600000), S("plain", 4, 16, mode=1), S("asan", 12000, 120000)],
     note="Independent SHA-256 and counter-mode generator.")
prop("C28", "Random dense matrices, leading dimensions, moduli for each element type. Mode 1: larger matrices. Non-trivial: rank at least 1.",
     [S("plain", 150000, 1500000), S("plain", 1500, 12000, mode=1), S("asan", 15000, 150000)],
     note="RREF/PLUQ factors multiplied back with 128-bit arithmetic.")
prop("C33", "Random matrices, image sizes and modes through the image writer. Non-trivial: at least one pixel compared.",
     [S("plain", 150000, 1500000), S("asan", 25000, 250000), S("plain", 160, 2400, mode=1, timeout=120, minimum=0.3), S("asan", 24, 300, mode=1, timeout=120, minimum=0.3),
      S("plain", 16, 60, mode=2)],
     note="Every pixel recomputed from the entries of the matrix.", run=cli.runner("C33", ["bitmap", "dm"], 1500, 20000))

# ---- properties over the whole library --------------------------------------------------------------
CR = ("crash",)
VG = dict(OPENBLAS_CORETYPE="Haswell")
prop("C22", GEN + "Every public operation, in random combinations on one input, and the workloads of the other properties (hostile shapes, options, files), under AddressSanitizer + UndefinedBehaviorSanitizer (with float-cast-overflow, stack-use-after-return) and under memcheck. Only crashes, assertion failures, sanitizer reports and an unterminated progress text count here. Non-trivial: the matrix has at least one entry (or what the borrowed workload calls non-trivial).",
     [S("asan", 6000, 120000, kinds=CR + ("oracle",))]
     + [S("asan", q, t, prop=p, kinds=CR, minimum=0.02) for p, q, t in
        (("C02", 3000, 60000), ("C03", 4000, 80000), ("C04", 3000, 60000), ("C05", 2500, 60000), ("C06", 2500, 60000), ("C07", 2500, 60000), ("C08", 2500, 60000), ("C09", 2500, 60000),
         ("C10", 4000, 80000), ("C11", 4000, 80000), ("C12", 3000, 60000), ("C13", 4000, 80000), ("C14", 6000, 100000), ("C15", 4000, 80000), ("C16", 4000, 80000), ("C17", 700, 15000),
         ("C18", 4000, 80000), ("C19", 10000, 200000), ("C20", 10000, 200000), ("C21", 2000, 40000), ("C28", 3000, 60000), ("C32", 4000, 80000), ("C33", 4000, 80000))]
     + [huge(m, variant="asan", kinds=CR) for m in (1, 3, 6, 8)] + [huge(12, quick=False, variant="asan", kinds=CR)]
     + [large(m, q, t, variant="asan", kinds=CR) for m, q, t in ((0, 30, 400), (1, 30, 400), (2, 20, 300), (3, 20, 300), (5, 150, 2000), (6, 40, 400), (7, 80, 800))]
     + [S("asan", 60, 1500, prop="C12", mode=1, kinds=CR), S("plain", 20000, 300000, kinds=CR + ("oracle",))]
     + [S("valgrind", 500, 12000, kinds=CR, maxthreads=2, flags=["--slow"], env=VG, timeout=400)]
     + [S("valgrind", q, t, prop=p, kinds=CR, maxthreads=2, flags=["--slow"], env=VG, timeout=400, minimum=0.02) for p, q, t in
        (("C03", 120, 3000), ("C04", 120, 3000), ("C10", 120, 3000), ("C12", 120, 3000), ("C14", 200, 4000), ("C16", 100, 2000), ("C28", 80, 2000), ("C33", 200, 4000))],
     technique="AddressSanitizer + UBSan + valgrind memcheck over randomised whole-API workloads",
     note="Held on the executions observed. Dependencies (BLAS, Givaro) are not instrumented except by memcheck.")

RK = ("race", "crash", "hang", "oracle")
prop("C23", GEN + "Every parallel operation with 2 to 8 threads on instrumented code and an OpenMP runtime whose locks and barriers the race detector understands. Reports other than the documented speculative reads of the pivot search and progress counters are violations. Non-trivial: as in the borrowed workload; race-reports counters show what was seen and allowed.",
     [S("tsan", q, t, prop=p, mode=m, kinds=("race",), flags=["--slow"], minimum=0.02) for p, m, q, t in
      (("C10", 0, 12000, 200000), ("C05", 0, 6000, 100000), ("C06", 0, 6000, 100000), ("C03", 0, 6000, 100000), ("C04", 0, 4000, 80000), ("C07", 0, 3000, 60000), ("C12", 0, 8000, 120000), ("C12", 1, 250, 6000), ("C22", 0, 4000, 80000),
       ("LARGE", 1, 150, 3000), ("LARGE", 2, 150, 3000), ("LARGE", 3, 100, 2000), ("LARGE", 5, 300, 6000))],
     technique="ThreadSanitizer with an instrumented OpenMP runtime, reports judged against the documented exceptions",
     note="Happens-before race detection on the schedules that occurred; the C++ dense kernels (sequential here) are not instrumented.")
prop("C24", GEN + "The oracles of the parallel operations under a seeded scheduler that runs one thread at a time and switches at memory accesses (uniform, priority-based and stalling strategies), and under real threads with more threads than processors. Non-trivial: as in the borrowed workload; distinct:schedules counts different interleavings.",
     [S("chaos", q, t, prop=p, mode=m, flags=["--chaos"], minimum=0.02) for p, m, q, t in
      (("C10", 0, 40000, 500000), ("C05", 0, 20000, 300000), ("C06", 0, 20000, 300000), ("C03", 0, 15000, 300000), ("C04", 0, 10000, 200000), ("C07", 0, 6000, 100000), ("C12", 0, 10000, 300000), ("C12", 1, 300, 8000), ("C31", 0, 1500, 30000),
       ("LARGE", 1, 300, 6000), ("LARGE", 2, 200, 4000), ("LARGE", 3, 100, 2000), ("LARGE", 5, 600, 10000))]
     + [S("plain", q, t, prop=p, mode=m, jobs=16, minimum=0.02) for p, m, q, t in
        (("C10", 0, 15000, 300000), ("C05", 0, 10000, 200000), ("C06", 0, 10000, 200000), ("C12", 1, 150, 4000), ("C31", 0, 3000, 60000))]
     + [large(m, q, t) for m, q, t in ((0, 60, 1000), (1, 200, 3000), (2, 120, 2000), (3, 60, 1000), (5, 500, 6000))],
     technique="seeded serialising scheduler + reference oracles; real threads oversubscribed",
     note="Every explored interleaving is replayable from its seed. Memory is sequentially consistent under the scheduler; weak-memory effects are left to the race detector (C23).")
prop("C29", GEN + "Each public operation on each finishing path; the library's allocation functions are redirected to a ledger and every block must be gone after the release functions. Mode 1: the whole heap (C++ parts included) must not grow over repetitions. Non-trivial: the matrix has at least one entry.",
     [S("fail", 60000, 900000), S("plain", 4000, 80000, mode=1, env=dict(GLIBC_TUNABLES="glibc.malloc.tcache_count=0"))],
     technique="allocation ledger around every operation; heap-growth monitor",
     note="Balance of the ledger checked after every operation.")
prop("C30", GEN + "The k-th allocation of an operation fails, for every k (small operations) or a sample including the first and last; each run is a child process. Non-trivial: at least one failure was injected.",
     [S("fail", 3500, 40000)],
     technique="allocation fault injection in child processes",
     note="The child must exit non-zero with a message, or finish with the same result.")
prop("C31", GEN + "Random histories of public calls on one input with unrelated calls in between; inputs are fingerprinted before and after each call, repeated calls compared with their first result. Non-trivial: the matrix has at least one entry.",
     [S("plain", 25000, 400000), S("asan", 1500, 30000), S("chaos", 1500, 30000, flags=["--chaos"])],
     technique="history checker: input fingerprints and repeat digests over random call sequences",
     note="Bit-equality demanded of operations that are deterministic with one thread, equality of meaning otherwise.")
HK = ("hang", "budget")
prop("C32", GEN + "Hostile option settings and tiny fields (random combinations often fail), real threads under a watchdog and the serialising scheduler with a budget of memory accesses 25 times what the workloads need. Non-trivial: the matrix has at least one entry.",
     [S("plain", 40000, 600000, kinds=HK, timeout=60), S("chaos", 8000, 120000, kinds=HK, flags=["--chaos"], timeout=200)]
     + [S("chaos", q, t, prop=p, mode=m, kinds=HK, flags=["--chaos"], minimum=0.02, timeout=200) for p, m, q, t in (("C10", 0, 10000, 100000), ("C05", 0, 6000, 100000), ("C06", 0, 6000, 100000), ("C12", 0, 3000, 60000), ("C12", 1, 60, 1500))]
     + [S("plain", q, t, prop=p, kinds=HK, minimum=0.02, timeout=60) for p, q, t in (("C13", 10000, 100000), ("C14", 10000, 100000), ("C17", 1500, 20000))],
     technique="watchdog and step-budget monitor over hostile options and schedules",
     note="Termination is observed, not proved: a case that exceeds the budget or, alone, twice the time limit is a violation.")

# ---- command-line programs ----------------------------------------------------------------------------
CLI = "Generated matrix files (SMS and MatrixMarket, any representatives, shapes from empty to tall and wide, moduli 3 to 2^32-5) given to the built programs by file, standard input or pipe, with random documented options and thread counts, plain and sanitizer builds. "
CT = "black-box monitoring of the programs against independent oracles"
prop("C25", CLI + "Exact rank, kernel basis, solutions and warnings, echelon forms recomputed in Python; unreadable or ill-fitting inputs must be refused. Non-trivial: rank at least 1, or a refusal was demanded.",
     [], technique=CT, note="Outputs of every run recomputed.", run=cli.runner("C25", ["rank", "kernel", "solve", "echelonize"], 3000, 40000))
prop("C26", CLI + "rank -c then check_cert, unchanged and after alterations decided by an independent verifier. Non-trivial: the matrix is not zero.",
     [], technique=CT, note="Every alteration judged by an independent implementation of the protocol.", run=cli.runner("C26", ["rank", "check_cert"], 1500, 20000))
prop("C27", CLI + "Output files compared with the definition; Dulmage-Mendelsohn reports with an independent decomposition, permutations recovered from distinct coefficients. Non-trivial: the matrix is not zero.",
     [], technique=CT, note="Exact comparison.", run=cli.runner("C27", ["transpose", "stack", "vertical_swap", "dm"], 4000, 50000))
prop("C34", CLI + "Each program writes to a full device, a closed stream, an unwritable path, and to files limited to k bytes for k below the size of the output. Non-trivial: at least one fault was injected.",
     [], technique="write-fault injection (RLIMIT_FSIZE, /dev/full, closed streams) on the programs", note="Success may only be reported when everything was written.",
     run=cli.runner("C34", ["rank", "kernel", "solve", "echelonize", "transpose", "stack", "vertical_swap", "dm", "bitmap"], 700, 10000))

NOT_APPLICABLE = {}
