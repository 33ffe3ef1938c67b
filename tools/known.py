import subprocess
log=subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()
M={ # subject fragment -> (property, what failed)
"transpose of a matrix without columns":("C11","transpose of a matrix without columns returned NULL row pointers"),
"permuteRows on 1-based":("C12","permuteRows of a 1-based matrix read row offsets as 0-based"),
"permuteColsInPlace on pattern-only":("C12","permuteColsInPlace crashed on pattern-only and mis-sized on rectangular matrices"),
"sorted permute of pattern-only":("C12","permute(sort=true) dereferenced NULL values of pattern-only matrices"),
"in-place SpMV":("C13","w aliasing x: only part of x was copied before w was written (rectangular matrices)"),
"strided dense-block product on 1-based":("C14","strided dense-block product ignored base 1"),
"dense-block product with pattern-only":("C14","dense-block product dereferenced NULL values of pattern-only matrices"),
"getSymmetricNnzPattern on 1-based":("C16","getSymmetricNnzPattern wrong on 1-based matrices"),
"base switches also shift":("C21","make0/1BasedIndexing left extptr unshifted"),
"27-point Laplacian":("C23","Laplacian with an extent of one had wrong row sizes"),
"isSymmetric ignored the last column":("C22","isSymmetric ignored the last column of 1-based matrices"),
"isSymmetric compared values":("C22","isSymmetric(true) dereferenced NULL values of pattern-only matrices"),
"hasZeroDiag":("C22","hasZeroDiag wrong on 1-based, crashed on pattern-only matrices"),
"bandwidth of a matrix without entries":("C22","getBandwidth of an empty matrix was INT_MIN"),
"equals on pattern-only":("C22","equals dereferenced NULL values of pattern-only matrices"),
"misaligned pointer tables":("C01","misaligned pointer accesses in level construction (UBSan)"),
"rows of zero cost":("C01","rows of zero cost at the end of a level were left out of the schedule"),
"memory-pool block freed":("C01","block of the memory pool passed to free() when building without transitive reduction"),
"overlapping parent lists":("C04","parent lists of the fused schedule overlapped, losing waits"),
"wait lists of empty tasks":("C03","wait list of an empty task overlapped that of the next task (barrier mode)"),
"per-thread queues overflowed":("C01","per-thread queues overflowed when few rows release many others"),
"reducing barrier values overwritten":("C06","a fast thread's next-call value overwrote the one its partner still had to read"),
"reducing barrier of one core":("C06","a reducing barrier of one core reduced its value with itself (sum doubled)"),
"LoadImba::deleteInstance":("C05","LoadImba::deleteInstance was defined as Barrier::deleteInstance, so neither could be linked together nor used"),
}
M.update({
"loading a general matrix into a COO":("C17","a COO that had held a symmetric matrix mirrored the entries of the general one loaded next"),
"padding of symmetric and 0-based":("C17","padded rows of symmetric and 0-based files overflowed the arrays or had wrong diagonals"),
"out-of-range and surplus entries":("C18","out-of-range indices and surplus entries of matrix files overflowed heap arrays"),
"storeMatrixMarket left the file open":("C17","COO::storeMatrixMarket never closed its file"),
"values lost their last digit":("C17","values written with 15 or 16 digits did not read back bit for bit"),
"writing pattern-only matrices":("C17","writing a pattern-only matrix dereferenced NULL values"),
"header writers reported failure":("C17","header writers returned an error after succeeding"),
"long tokens of matrix file banners":("C18","banner tokens longer than 64 characters overflowed stack buffers"),
"endless loop on non-numeric":("C18","non-numeric size lines made the readers loop forever"),
"mm_read_mtx_crd on integer":("C18","mm_read_mtx_crd left values unset for integer files, leaked and crashed on bad counts"),
"mm_read_unsymmetric_sparse on bad counts":("C18","mm_read_unsymmetric_sparse used uninitialised entries of truncated files"),
"array sizes of vector files":("C18","vector files with negative or overflowing sizes wrote outside their arrays"),
"matrix of undefined shape":("C18","a rejected file left a matrix of undefined shape"),
"mm_read_unsymmetric_sparse accepted":("C18","mm_read_unsymmetric_sparse returned out-of-range indices as success"),
"copies of a matrix lost":("C21","copying dropped extptr"),
"external-column pointers of the user freed":("C21","extptr given by the user was freed when the object loaded a new matrix"),
"storeBin changed the base":("C19","storeBin left the matrix in another base when the file cannot be opened"),
"storeBin of pattern-only":("C19","storeBin dereferenced NULL values of pattern-only matrices"),
"memory damage by truncated or inconsistent binary":("C19","loadBin used truncated or inconsistent files unchecked"),
"assigned matrices shared":("C21","assigning a CSR shared its arrays and freed them twice"),
"thread partitions overflowed":("C24","partitions overflowed int for sizes or totals near INT_MAX"),
"parMemset and parMemcpy":("C25","parMemset/parMemcpy of 2 GiB and more overflowed int"),
"isPerm accepted arrays":("C25","isPerm accepted arrays without duplicates but with out-of-range entries"),
"isInversePerm read outside":("C25","isInversePerm read outside its array for out-of-range entries"),
"correctnessCheck accepted NaN":("C25","correctnessCheck accepted NaN results"),
"alignment of memory-pool":("C26","pool blocks were misaligned after blocks of other alignments or in pools of odd size"),
})
exec(open('/verif/tools/known_more.py').read()) if __import__('os').path.exists('/verif/tools/known_more.py') else None
f=open('/verif/known-findings.txt').read().splitlines()
f=[l for l in f if not l.startswith('fixed:')]
for l in reversed(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    k=[v for a,v in M.items() if a in s]
    if not k: print("UNMAPPED",l); continue
    f.append("fixed: property=%s %s %s"%(k[0][0],h,k[0][1]))
open('/verif/known-findings.txt','w').write("\n".join(f)+"\n")
