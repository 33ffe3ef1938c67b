# Which harness, build variants and case counts decide each property.
PROPS = {}
def P(pid, harness, rule, jobs, **kw):
    PROPS[pid] = dict(harness=harness, rule=rule, jobs=jobs, **kw)
def J(variant, count, procs=4, **kw):
    return dict(variant=variant, count=count, procs=procs, **kw)

P("C11", "transpose.cpp",
  "seeded random matrices of 9 shape families plus occasional 20k-60k row ones, base, values/diagonal pointers, two team sizes per case; distinct = pattern hash x base x team x values, non-trivial = at least one entry",
  [J("asan", (2400, 20000)), J("rel", (4500, 40000)), J("cov", (1000, 10000), procs=2, perturb=True)])
P("C12", "permute.cpp",
  "seeded matrices (9 families, optional non-local tail, diagonal pointers, pattern-only) x entry point x arbitrary row/column permutations x sort x base x team; distinct = pattern x operation x options, non-trivial = at least one entry",
  [J("asan", (4500, 30000)), J("rel", (7500, 60000)), J("cov", (1000, 10000), procs=2, perturb=True)])
P("C13", "spmv.cpp",
  "seeded matrices (9 families, duplicates, empty shapes, pattern-only) x scalars from {0,1,-1,general} x aliasing (w=x, w=y) x base x team; exact integer data compared with ==, real data against long double with a rounding bound; distinct = matrix x scalars x aliasing x team, non-trivial = at least one entry",
  [J("asan", (4500, 30000), mode="spmv"), J("rel", (12000, 80000), mode="spmv"), J("cov", (800, 8000), procs=2, mode="spmv", perturb=True)])
P("C14", "spmv.cpp",
  "as C13 with dense blocks of width 1..70 and independent row/column strides of the three operands, gaps filled with canaries; distinct = matrix x scalars x strides x team",
  [J("asan", (4500, 30000), mode="spmm"), J("rel", (9000, 60000), mode="spmm"), J("cov", (800, 8000), procs=2, mode="spmm", perturb=True)])
P("C15", "symgs.cpp",
  "seeded square matrices with full diagonal (9 families, optional non-local tail, duplicates, unsorted rows) x base x team; distinct = matrix x base x team x tail, non-trivial = an off-diagonal entry exists",
  [J("asan", (4500, 30000), mode="split"), J("rel", (7500, 60000), mode="split"), J("cov", (1500, 15000), procs=2, mode="split", perturb=True)])
P("C16", "symgs.cpp",
  "seeded sorted square patterns with full diagonal: 16 graph families made one-sided at 0..n places, plus unstructured ones, optional non-local tail x base x team; distinct = pattern x base x team x tail",
  [J("asan", (4500, 30000), mode="sym"), J("rel", (7500, 60000), mode="sym"), J("cov", (1500, 15000), procs=2, mode="sym", perturb=True)])
P("C22", "queries.cpp",
  "seeded square graphs with at most one planted deviation (missing partner, value mismatch, zero or absent diagonal; also at first/last row) and general rectangular matrices x base x two teams; plus equality against a copy with one difference; distinct = matrix x base x difference, non-trivial = at least one entry",
  [J("asan", (4500, 30000), mode="q"), J("rel", (9000, 60000), mode="q"), J("cov", (1200, 4000), mode="q")])
P("C23", "queries.cpp",
  "every extent triple up to 7 (thorough: 14) in both bases, then random triples up to 60x30x20, via all three entry points; distinct = triple x base",
  [J("asan", (1100, 8000), mode="lap"), J("rel", (1400, 9000), mode="lap"), J("cov", (250, 2500), procs=2, mode="lap", perturb=True)], exhaustive=False)
P("C01", "sched.cpp",
  "seeded structurally symmetric graphs of 16 families (relabelled 25%, lower/upper parts shuffled 50%, non-local tail 25%) x base x team x useBarrier/transitiveReduction/fuseSpMV/aggregation/memory pool x 5 entry overloads x 6 cost functions (incl. free rows); distinct = pattern x options, non-trivial = at least one cross-thread dependence",
  [J("asan", (4000, 60000), procs=1, mode="graph"), J("rel", (12000, 200000), procs=1, mode="graph"), J("cov", (3000, 60000), procs=1, mode="graph")], parallel=1)
P("C03", "sched.cpp",
  "as C01, each input built three times (reduced, reduced again under other timing, unreduced); distinct = pattern x base x team x options, non-trivial = at least one wait was removed",
  [J("asan", (3200, 30000), procs=1, mode="reduce"), J("rel", (12000, 120000), procs=1, mode="reduce"), J("cov", (3200, 40000), procs=1, mode="reduce")], parallel=1)
P("C04", "sched.cpp",
  "as C01 with the fused schedule, judged by the happens-before closure and by executing sweep+product twice with stalls; distinct = pattern x base x team x options, non-trivial = more than one task",
  [J("asan", (4500, 30000), procs=1, mode="fused"), J("rel", (12000, 120000), procs=1, mode="fused"), J("cov", (3000, 40000), procs=1, mode="fused")], parallel=1)
P("C02", "exec.cpp",
  "seeded schedules (as C01) x 5 kernels x p2p/barrier x original/reordered matrix x stall level, 3 repetitions each; every row start/end is an event with a global sequence number; distinct = pattern x observed row interleaving x kernel, non-trivial = more than one row and thread",
  [J("rel", (4500, 60000), procs=1, mode="exec"), J("cov", (1800, 30000), procs=1, mode="exec"), J("asan", (1200, 12000), procs=1, mode="exec")],
  parallel=1)
P("C05", "barrier.cpp",
  "seeded team shapes (1..17 cores x 1..4 threads per core, up to 20 threads) x private/shared instance creation path x up to 120 rounds x stall level x per-block stalls inside the barrier; distinct = shape x rounds x stall x path, non-trivial = more than one thread",
  [J("rel", (600, 6000), procs=1, mode="bar"), J("cov", (600, 6000), procs=1, mode="bar"), J("asan", (320, 2000), procs=1, mode="bar")],
  parallel=1)
P("C06", "barrier.cpp",
  "seeded team shapes as C05 x 8 reduction functions over three types plus the load-imbalance barrier x up to 3x120 calls x stall level x per-block stalls inside the (header-only) barrier; distinct = shape x rounds x stall x function",
  [J("rel", (300, 6000), procs=1, mode="red"), J("covh", (400, 6000), procs=1, mode="red"), J("asan", (160, 2000), procs=1, mode="red")],
  parallel=1)
P("C07", "reorder.cpp",
  "seeded structurally symmetric graphs (17 families up to 1200 nodes, 9 families around and beyond the 65536-node parallel limit, empty) x diagonal none/all/some x sorted or shuffled rows x base x team x source selection, plus four fixed paths at the limit; distinct = pattern x base x team x selection, non-trivial = more than one node",
  [J("asan", (350, 6000), procs=1, mode="rcm"), J("rel", (600, 20000), procs=1, mode="rcm"), J("cov", (250, 8000), procs=1, mode="rcm")], parallel=1)
P("C08", "reorder.cpp",
  "as C07 with the breadth-first ordering",
  [J("asan", (350, 6000), procs=1, mode="bfs"), J("rel", (600, 20000), procs=1, mode="bfs"), J("cov", (250, 8000), procs=1, mode="bfs")], parallel=1)
P("C09", "reorder.cpp",
  "seeded graphs (17 families, merge-heavy forests, empty) with and without excluded components x base x team x per-block stall rate, 6-25 searches per graph; distinct = pattern x base x team, non-trivial = an edge exists",
  [J("asan", (600, 8000), mode="cc"), J("rel", (1200, 20000), mode="cc"), J("cov", (1000, 20000), mode="cc")], parallel=3)
P("C10", "reorder.cpp",
  "seeded rectangular matrices (9 families, full rows/columns, duplicates, empty shapes) with exact transpose x base x team; distinct = pattern x base x team",
  [J("asan", (2000, 12000), procs=1, mode="bip"), J("rel", (3600, 30000), procs=1, mode="bip"), J("cov", (1600, 12000), procs=1, mode="bip")], parallel=1)
P("C17", "textio.cpp",
  "seeded files over the format's grammar (general/symmetric, real/integer/pattern, 0/1-based, comments, blank lines, letter case, number formats, any entry order, one or both triangles, duplicates) x forced symmetry x transposed x padding x reused COO; matrices of 9 families with arbitrary finite values written by four writers and reloaded; vector files; distinct = entries x options, non-trivial = at least one entry",
  [J("asan", (3000, 30000), mode="rt"), J("rel", (8000, 80000), mode="rt")])
P("C18", "textio.cpp",
  "seeded well-formed files with 1-4 mutations (bytes, tokens from a hostile dictionary, counts off by a few, truncation, surplus entries, over-long tokens and lines, header swaps) presented to six readers; distinct = file bytes x options",
  [J("asan", (8000, 150000), mode="fuzz", watchdog=10, env=dict(ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=512")), J("rel", (12000, 300000), mode="fuzz", watchdog=10)])
FUZZENV = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=512")
P("C19", "convert.cpp",
  "seeded matrices (9 families, duplicates, arbitrary values, pattern-only) x stored base x requested base x 4 ways to load x unwritable paths; and files with a truncation at any byte, hostile header words, row counts, columns or random bytes loaded into fresh and used objects; distinct = matrix x options, or file bytes",
  [J("asan", (3000, 30000), mode="bin"), J("rel", (6000, 60000), mode="bin"), J("asan", (8000, 150000), mode="binfuzz", env=FUZZENV), J("rel", (10000, 200000), mode="binfuzz")])
P("C20", "convert.cpp",
  "seeded triples (9 families, duplicates, 4 orders) x sort x base x diagonal arrays x two entry points x team; distinct = matrix x options, non-trivial = at least one entry",
  [J("asan", (4500, 40000), mode="coo"), J("rel", (9000, 80000), mode="coo"), J("cov", (1000, 10000), procs=2, mode="coo", perturb=True)])
P("C21", "convert.cpp",
  "seeded histories of 3-14 base switches, copies, diagonal constructions, value updates and releases over up to 8 matrices with and without optional arrays, every live matrix compared with its model after every step; releases of matrices over user arrays; distinct = pattern x operation history",
  [J("asan", (4500, 40000), mode="copy"), J("rel", (9000, 80000), mode="copy"), J("cov", (800, 8000), procs=2, mode="copy", perturb=True)])
P("C24", "utils.cpp",
  "seeded item counts (0, small, up to INT_MAX) and weight arrays (zeros, spikes, totals next to INT_MAX) x team sizes 1..24; collective prefix sums of 0..9 components over 1..20 rounds with stalls; distinct = arguments x team",
  [J("asan", (3000, 30000), procs=2, mode="part"), J("rel", (6000, 60000), procs=2, mode="part"), J("cov", (1500, 10000), procs=1, mode="part")], parallel=2)
P("C25", "utils.cpp",
  "seeded permutations, lengths around cache lines and thread counts, null permutations, arrays that are not permutations, byte ranges with offsets (and one beyond 2 GiB), vectors with one deviation on a known side of the tolerance; distinct = inputs",
  [J("asan", (4500, 40000), mode="vec"), J("rel", (9000, 80000), mode="vec"), J("cov", (1000, 10000), procs=2, mode="vec", perturb=True)])
P("C26", "utils.cpp",
  "seeded histories of 5-60 allocations at both ends, head and tail moves, full releases and membership queries within capacity, block contents tagged and re-read; sizes off and on the alignment; distinct = history",
  [J("asan", (6000, 60000), mode="pool"), J("rel", (9000, 90000), mode="pool")])

def TS(mode, harness, q, t, **kw): return dict(variant="tsan", count=(q, t), procs=1, mode=mode, harness=harness, maxthreads=6, watchdog=120, **kw)
P("C27", None,
  "the workloads of the other checks (their oracles too) run under ThreadSanitizer with an instrumented OpenMP runtime: fork/join, team barriers, library barriers and volatile completion flags are the only orderings known to the detector; distinct = as in the respective check",
  [TS("", "transpose.cpp", 120, 2000), TS("", "permute.cpp", 200, 3000), TS("split", "symgs.cpp", 200, 3000), TS("sym", "symgs.cpp", 200, 3000),
   TS("spmv", "spmv.cpp", 200, 3000), TS("spmm", "spmv.cpp", 200, 3000), TS("q", "queries.cpp", 200, 3000), TS("lap", "queries.cpp", 120, 1500),
   TS("graph", "sched.cpp", 200, 3000), TS("reduce", "sched.cpp", 200, 3000), TS("fused", "sched.cpp", 200, 3000), TS("exec", "exec.cpp", 200, 3000),
   TS("part", "utils.cpp", 200, 3000), TS("vec", "utils.cpp", 200, 3000), TS("coo", "convert.cpp", 200, 3000), TS("copy", "convert.cpp", 200, 3000),
   TS("bar", "barrier.cpp", 120, 2000), TS("red", "barrier.cpp", 120, 2000),
   TS("bfs", "reorder.cpp", 120, 1500), TS("cc", "reorder.cpp", 120, 1500), TS("bip", "reorder.cpp", 120, 1500),
   TS("", "program.cpp", 300, 5000)],
  parallel=2, require=["parallel regions seen by the race detector"])
P("C28", "program.cpp",
  "seeded programs of 6-30 (thorough: 60) calls drawn from 20 operations over up to 7 live matrices that come from files, the generator, user fills, and earlier operations, team size changed before every call; every live matrix compared with its model after every call; distinct = operation and team sequence",
  [J("asan", (1500, 30000), procs=1), J("rel", (5000, 120000), procs=1), J("cov", (1000, 20000), procs=1)], parallel=1,
  require=["operation permute", "operation sweep", "operation splitLU", "operation bin", "operation symmetrise"])

def LK(mode, harness, q, t, **kw): return dict(variant="asann", count=(q, t), procs=1, mode=mode, harness=harness, maxthreads=5, leaks=True, watchdog=90, **kw)
P("C29", None,
  "the workloads of the other checks with a search for unreachable memory after every case; distinct = as in the respective check",
  [LK("", "transpose.cpp", 60, 1500), LK("", "permute.cpp", 400, 6000), LK("split", "symgs.cpp", 100, 2000), LK("sym", "symgs.cpp", 150, 3000),
   LK("spmv", "spmv.cpp", 60, 1000), LK("spmm", "spmv.cpp", 60, 1000), LK("q", "queries.cpp", 60, 1000), LK("lap", "queries.cpp", 40, 500),
   LK("graph", "sched.cpp", 400, 6000), LK("reduce", "sched.cpp", 100, 2000), LK("fused", "sched.cpp", 150, 3000), LK("exec", "exec.cpp", 60, 1000),
   LK("part", "utils.cpp", 60, 1000), LK("vec", "utils.cpp", 100, 2000), LK("coo", "convert.cpp", 400, 6000), LK("copy", "convert.cpp", 250, 5000),
   LK("bin", "convert.cpp", 200, 4000), LK("binfuzz", "convert.cpp", 300, 8000, env=FUZZENV), LK("rt", "textio.cpp", 250, 5000), LK("fuzz", "textio.cpp", 400, 10000, env=FUZZENV),
   LK("bar", "barrier.cpp", 60, 1000), LK("red", "barrier.cpp", 60, 1000),
   LK("rcm", "reorder.cpp", 60, 1000), LK("bfs", "reorder.cpp", 60, 1000), LK("cc", "reorder.cpp", 60, 1000), LK("bip", "reorder.cpp", 60, 1000),
   LK("", "pool.cpp", 100, 2000), LK("", "program.cpp", 100, 3000), LK("", "concurrent.cpp", 40, 1000)],
  parallel=2, judges=("leak", "crash"), require=["leak searches"])
P("C30", "pool.cpp",
  "seeded pool states (empty, earlier blocks at either end, near the wrap point) x 1-3 pooled schedules compared with heap ones, or 1-4 operations on a pooled matrix; free space overwritten before results are read again; distinct = pattern x options x position in the sequence",
  [J("asan", (1800, 40000), procs=1), J("rel", (12000, 200000), procs=1), J("cov", (1200, 30000), procs=1)], parallel=1,
  require=["pooled schedules", "schedules that start over at the beginning of the pool", "pooled patterns completed"])
P("C31", "concurrent.cpp",
  "2-5 callers at once (own threads, or members of a parallel region) x random programs on matrices of their own, or random read-only operations on shared ones; every result compared with the sequential model; distinct = operation and team sequence x kind of group",
  [J("asan", (700, 15000), procs=1), J("rel", (3000, 60000), procs=1), J("cov", (500, 10000), procs=1), TS("", "concurrent.cpp", 800, 10000)], parallel=1,
  require=["groups inside a parallel region", "groups of user threads", "concurrent read-only operations", "parallel regions seen by the race detector"])
P("C32", "sched.cpp",
  "as C01, with costs up to the largest int added; distinct = pattern x options, non-trivial = at least one level is shared by several threads",
  [J("asan", (2500, 60000), procs=1, mode="balance"), J("rel", (15000, 300000), procs=1, mode="balance"), J("cov", (2000, 50000), procs=1, mode="balance")], parallel=1,
  require=["thread shares weighed", "levels shared by several threads"])

def VG(mode, harness, q, t, **kw): return dict(variant="vg", count=(q, t), procs=1, mode=mode, harness=harness, maxthreads=3, watchdog=120, **kw)
P("C33", None,
  "the workloads of the other checks, up to 3 threads, under a checker that follows every never-written bit to the branch, address, system call or compared result it reaches; distinct = as in the respective check",
  [VG("", "transpose.cpp", 400, 6000), VG("", "permute.cpp", 400, 6000), VG("split", "symgs.cpp", 400, 6000), VG("sym", "symgs.cpp", 400, 6000),
   VG("spmv", "spmv.cpp", 400, 6000), VG("spmm", "spmv.cpp", 400, 6000), VG("q", "queries.cpp", 400, 6000), VG("lap", "queries.cpp", 30, 500),
   VG("graph", "sched.cpp", 300, 4000), VG("reduce", "sched.cpp", 40, 1000), VG("fused", "sched.cpp", 300, 4000), VG("exec", "exec.cpp", 80, 600),
   VG("part", "utils.cpp", 400, 6000), VG("vec", "utils.cpp", 400, 6000), VG("pool", "utils.cpp", 400, 6000), VG("coo", "convert.cpp", 400, 6000), VG("copy", "convert.cpp", 400, 6000),
   VG("bin", "convert.cpp", 400, 6000), VG("binfuzz", "convert.cpp", 600, 10000), VG("rt", "textio.cpp", 400, 6000), VG("fuzz", "textio.cpp", 1200, 20000),
   VG("bar", "barrier.cpp", 20, 200), VG("red", "barrier.cpp", 20, 200),
   VG("rcm", "reorder.cpp", 80, 600), VG("bfs", "reorder.cpp", 30, 600), VG("cc", "reorder.cpp", 100, 600), VG("bip", "reorder.cpp", 100, 600),
   VG("", "pool.cpp", 300, 1500), VG("", "program.cpp", 120, 3000), VG("", "concurrent.cpp", 40, 800)],
  parallel=6, judges=("memcheck", "crash"), require=["cases judged by the memory checker"])
