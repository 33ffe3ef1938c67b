NA = {}
A = " Assurance: no violation in the executions listed in the evidence file; nothing is claimed for inputs or interleavings not visited. Trusts the compiler, libgomp and the harness's reference model."
def T(i, t, n): TECH[i] = t; NOTE[i] = n + A
SAN = "ASan+UBSan builds with library asserts on, -O3 builds, "
T("C01", "offline checker over constructed schedules: vector-clock closure, ASan/UBSan, per-basic-block schedule perturbation", SAN + "and builds that stall threads at random basic blocks; every published field of the schedule is checked against the definition.")
T("C02", "execution monitor: row start/end event log, bit-exact comparison with the sequential sweep, injected stalls", "Kernels run under the real wait/notify protocol with stalls injected between protocol steps; termination judged by a progress watchdog (hang confirmed alone twice).")
T("C03", "differential monitor of reduced and unreduced schedules (vector-clock closure)", "Each input built three times; orders compared exactly.")
T("C04", "vector-clock closure over fused schedules plus executed sweep+product with stalls", "Every product operand must be final by the closure; executions compared bit for bit.")
T("C05", "online barrier monitor over enter/leave events under injected stalls", "Stalls in the callers and at random basic blocks inside the barrier.")
T("C06", "online reduction monitor under injected stalls", "Every value returned to every thread is compared with the fold of the team's contributions.")
T("C11", "differential oracle on randomised inputs under ASan/UBSan", SAN + "exact comparison with a naive model.")
T("C12", "differential oracle on randomised inputs under ASan/UBSan", SAN + "exact comparison with a naive model.")
T("C13", "differential oracle on randomised inputs under ASan/UBSan", SAN + "integer data compared exactly, real data within a rounding bound.")
T("C14", "differential oracle with canaries on randomised inputs under ASan/UBSan", SAN + "canaries in every gap between strided elements.")
T("C15", "differential oracle on randomised inputs under ASan/UBSan", SAN + "exact comparison with a naive model.")
T("C16", "differential oracle on randomised inputs under ASan/UBSan", SAN + "exact comparison with a naive model.")
T("C22", "differential oracle with planted deviations under ASan/UBSan and schedule perturbation", SAN + "answers compared with definitions.")
T("C23", "differential oracle over all small grids under ASan/UBSan", SAN + "all small extents exhaustively, larger ones sampled.")
T("C07", "oracle replaying Cuthill-McKee over the returned numbering, under ASan/UBSan and schedule perturbation", "Whole-numbering check (contiguity, breadth-first order, siblings, degrees) including components beyond the parallel limit.")
T("C08", "breadth-first distance oracle over the returned numbering, under ASan/UBSan and schedule perturbation", "Includes graphs beyond the parallel limit.")
T("C09", "differential oracle against a sequential search under per-basic-block schedule perturbation", "Each graph searched repeatedly with stalls at random basic blocks of the union phase.")
T("C10", "differential oracle on both numberings under ASan/UBSan and schedule perturbation", "Also checks component contiguity and breadth-first order of rows.")
T("C17", "write/read round-trip and reference-parser oracle over generated files, under ASan/UBSan, with an open-descriptor count", SAN + "loaded entries compared exactly with the generator's own list; descriptors counted before and after each call. Complex, skew-symmetric and Hermitian files are not claimed.")
T("C18", "mutation fuzzing of all readers under ASan/UBSan with index-range oracle, descriptor count and progress watchdog", "Declared sizes beyond the allocation cap are treated as out of memory. The low-level mm_read_mtx_crd returns indices as written; only memory safety and termination are judged for it.")
T("C19", "round-trip oracle (bit for bit) and damaged-file fuzzing under ASan/UBSan", SAN + "pattern-only matrices are stored with ones; a damaged file must give an empty matrix or one whose arrays are consistent.")
T("C20", "differential oracle on randomised triples under ASan/UBSan", SAN + "rows compared as multisets, exactly in order when sorted.")
T("C21", "model-based history checker under ASan/UBSan", SAN + "every live matrix is compared with its model after every step; a release of one is followed by re-reading the others.")
T("C24", "range and exclusive-sum oracle inside real teams under UBSan and injected stalls", "Partitions judged for tiling, range and balance; sums with per-thread stalls between rounds.")
T("C25", "differential oracle with canaries under ASan/UBSan", SAN + "byte-exact images before and after, one probe beyond 2 GiB.")
T("C26", "online interval monitor over allocation histories with tagged block contents", SAN + "overlap, alignment, membership and contents are judged after every operation.")
T("C27", "ThreadSanitizer with an instrumented OpenMP runtime and volatile flags modelled as acquire/release", "Workloads and oracles of the other checks; the runtime delays threads at random. RCM's level search, which queues a node from several threads by design, is outside the property.")
T("C28", "model-based random program execution under ASan/UBSan and schedule perturbation", "20 operations composed at random, every live matrix compared with its model after every call.")
T("C29", "LeakSanitizer reachability search after every case of every workload", "All workloads of the other checks, their oracles on; a leak counts when its allocation happened inside the library, and is keyed by that function.")
T("C30", "differential heap/pool oracle with tagged neighbour blocks and pool offset monitors under ASan/UBSan", "Pool placed empty, behind earlier blocks or at the wrap point; free space is overwritten by later users before the results are re-read.")
T("C31", "model-based concurrent programs, ASan/UBSan and ThreadSanitizer across several root threads", "2-5 callers at once, from threads of their own or inside a parallel region; every result judged by the sequential model.")
T("C32", "share and level oracle over constructed schedules under UBSan", "Costs recomputed by the harness in 64 bits, including free rows and totals beyond 32 bits.")
T("C33", "valgrind memcheck (definedness tracking) over all workloads, with explicit definedness requests on results and pool space forgotten between users", "Workloads of all other checks with up to 3 threads; gcc -O1 build.")
