M.update({
"concurrent unions of components":("C09","a union was lost when the compare-and-swap of another thread won in between"),
"connected components of an empty set":("C09","component search over no nodes wrote compSizes[0]"),
"prefix sums over zero components":("C09","component search over no nodes summed uninitialised memory"),
"prefix sums of the last thread overflowed":("C07","heap overflow for paths of more than 65529 nodes handled by the last thread"),
"source candidates overflowed":("C07","heap overflow of source candidates when several threads queue the same last-level nodes"),
"BFS ordering of matrices with no or one row":("C08","BFS ordering of an empty or 1x1 matrix accessed out of bounds"),
"bipartite BFS prefix sums":("C10","per-thread prefix sums overflowed when one thread finds all columns"),
})
M.update({
"flags signalled to barrier partners were not volatile":("C05","synk::Barrier and ReducingBarrier spun on and wrote their partners' flags through non-volatile pointers (data race)"),
"LoadImba::init did not wait for all threads":("C06","a thread could leave LoadImba::init and use the barrier before the others had set up their part"),
"every thread wrote the end of the transposed row pointers":("C27","unsynchronised writes of rowptr[m] in transpose"),
"threads without rows wrote the end of the permuted row pointers":("C27","unsynchronised writes of rowptr[m] in permuteRowPtr"),
"concurrent splices of component trees could lose a union":("C09","a plain splice write could overwrite a concurrent union, leaving one component split in two"),
"two threads wrote the same component size":("C27","sizes of components shared by neighbouring threads were written unsynchronised"),
"bit vector read without synchronisation":("C27","BitVector::get and set raced with atomic operations on the same word"),
})
M.update({
"connected components search leaked":("C29","the union-find array of findConnectedComponents was never freed"),
"RCM and BFS orderings leaked":("C29","component lists of getRCMPermutation and getBFSPermutation were never freed"),
"type names of matrix files were leaked":("C29","mm_typecode_to_str copies were never freed by the writers"),
"arrays of rejected matrix files":("C29","arrays allocated for a rejected matrix file were never freed"),
"task adjacency leaked":("C29","task adjacency arrays were never freed without transitive reduction"),
"LoadImba leaked":("C29","the load-imbalance barrier's per-thread structures were never freed"),
"fused schedules leaked":("C29","fused schedules in the memory pool left heap arrays behind"),
"total cost of a level overflowed":("C32","cost totals beyond int overflowed: rows of a level went to one thread"),
"constructing a schedule again":("C29","constructing a schedule object again leaked its arrays, and freed pool memory if these were in the pool"),
"matrices from transpose, permute, splitLU":("C29","arrays of matrices made by transpose, permute, splitLU and the generator were never freed by their destructor"),
})
M.update({"debug check of symmetric patterns":("C16","the debug check of getSymmetricNnzPattern read an extptr result that is not set without external columns")})
M.update({"CSR::print handles":("C22","CSR::print dereferenced the absent value array of a pattern matrix"),
"printLoadImbalance wrapped":("C06","the printed load imbalance was about 1.8e19/threads whenever the barrier time exceeded the waiting time")})
M.update({"arrays per level were one level short":("C07","RCM of a path of at least 65536 nodes wrote one element past its per-level arrays (found by the memory checker of C33)")})
M.update({"size line without its numbers":("C18","a damaged size line was skipped and the first entry line taken for the size: a different matrix was loaded silently")})
