// C28: random programs over the public interface, every live matrix compared
// with a plain model after every step; scheduling, reordering and products are
// run on whatever matrices the program has produced so far.
#include "common.hpp"
#include "LevelSchedule.hpp"
#include "synk/barrier.hpp"
#include <dirent.h>
using namespace hv;
using namespace SpMP;
using std::vector;
extern "C" void bfsBipartite(CSR &A, CSR &AT, int *rowPerm, int *rowInversePerm, int *colPerm, int *colInversePerm);

extern int hv_perturb;
// set while several programs run at once (concurrent.cpp): no operation that uses
// the process-wide barrier, no process-wide observations
static bool g_conc = false;
namespace {
const double UNKNOWN = -1.0e300;
struct Obj {
  CSR *A; bool owned; Mat M; int base; bool vals;
  bool hasDp; vector<int> dcol;          // column (zero based) each diagonal pointer denotes, -1: not specified
  bool hasIdiag, hasDiag; vector<double> idiag, diag;   // UNKNOWN: not specified
};
// arrays from getSymmetricNnzPattern are the caller's to free
void release(Obj &o) {
  if (!o.A) return;
  if (!o.owned) {
    int *r = o.A->rowptr, *c = o.A->colidx, *e = o.A->extptr; double *v = o.A->values;
    o.A->rowptr = o.A->colidx = o.A->extptr = NULL; o.A->values = NULL; delete o.A;
    FREE(r); FREE(c); FREE(e); FREE(v);
  } else delete o.A;
  o.A = NULL;
}
bool hasDiagEntry(const Mat &M, int i) { for (auto &p : M.rows[i]) if (p.first == i) return true; return false; }
bool fullDiag(const Mat &M) { if (M.m != M.n) return false; for (int i = 0; i < M.m; ++i) if (!hasDiagEntry(M, i)) return false; return true; }
// lower entries, the diagonal, upper entries in every row
bool parted(const Mat &M) {
  if (M.m != M.n) return false;
  for (int i = 0; i < M.m; ++i) { int st = 0; for (auto &p : M.rows[i]) { int k = p.first < i ? 0 : p.first == i ? 1 : 2; if (k < st || (k == 1 && st == 1)) return false; st = k; } if (!hasDiagEntry(M, i)) return false; }
  return true;
}
// diagonal pointers, if any, denote the diagonal
bool dpOnDiag(const Obj &o) { if (o.hasDp) for (int i = 0; i < o.M.m; ++i) if (o.dcol[i] != i) return false; return true; }
bool sortedRows(const Mat &M) { for (auto &r : M.rows) for (size_t q = 1; q < r.size(); ++q) if (r[q - 1].first > r[q].first) return false; return true; }
bool symPattern(const Mat &M) {
  if (M.m != M.n) return false; std::set<std::pair<int,int>> s;
  for (int i = 0; i < M.m; ++i) for (auto &p : M.rows[i]) s.insert(std::make_pair(i, p.first));
  for (auto &p : s) if (!s.count(std::make_pair(p.second, p.first))) return false;
  return true;
}
double valOf(const Mat &M, int i, int c) { for (auto &p : M.rows[i]) if (p.first == c) return p.second; return UNKNOWN; }
void verify(const Obj &o, const std::string &what) {
  const CSR *A = o.A; const char *w = what.c_str();
  Mat g = readCSR(A, w, o.base, o.M.m, o.M.n, o.vals); Mat ref = o.M; if (!o.vals) for (auto &r : ref.rows) for (auto &p : r) p.second = 1.0;
  compareRowsExact(ref, g, "entries", w);
  HV_CHECK(A->extptr == NULL, "extptr", "%s: external-column pointers appeared", w);
  HV_CHECK((A->values != NULL) == o.vals || o.M.nnz() == 0, "values", "%s: values array %s", w, A->values ? "appeared" : "vanished");
  HV_CHECK((A->diagptr != NULL) == o.hasDp || o.M.m == 0, "diagptr", "%s: diagonal pointers %s", w, A->diagptr ? "appeared" : "vanished");
  if (o.hasDp) for (int i = 0; i < o.M.m; ++i) if (o.dcol[i] >= 0) {
    int d = A->diagptr[i];
    HV_CHECK(d >= A->rowptr[i] && d < A->rowptr[i + 1] && A->colidx[d - o.base] - o.base == o.dcol[i], "diagptr", "%s: diagptr[%d]=%d (row %d..%d) does not denote column %d", w, i, d, A->rowptr[i], A->rowptr[i + 1], o.dcol[i]);
  }
  if (o.hasIdiag) { HV_CHECK(A->idiag || !o.M.m, "idiag", "%s: no inverse diagonal", w); for (int i = 0; i < o.M.m; ++i) if (o.idiag[i] != UNKNOWN) HV_CHECK(!memcmp(&A->idiag[i], &o.idiag[i], 8), "idiag", "%s: idiag[%d]=%.17g, expected %.17g", w, i, A->idiag[i], o.idiag[i]); }
  if (o.hasDiag) { HV_CHECK(A->diag || !o.M.m, "diag", "%s: no diagonal", w); for (int i = 0; i < o.M.m; ++i) if (o.diag[i] != UNKNOWN) HV_CHECK(!memcmp(&A->diag[i], &o.diag[i], 8), "diag", "%s: diag[%d]=%.17g, expected %.17g", w, i, A->diag[i], o.diag[i]); }
  HV_CHECK(A->getNnz() == o.M.nnz() && A->getBase() == o.base, "nnz", "%s: nnz %d base %d", w, A->getNnz(), A->getBase());
}
void libDiags(Obj &o) {  // what loading and generating construct
  o.hasDp = o.hasIdiag = o.hasDiag = true; o.dcol.assign(o.M.m, -1); o.idiag.assign(o.M.m, UNKNOWN); o.diag.assign(o.M.m, UNKNOWN);
  for (int i = 0; i < o.M.m; ++i) if (i < o.M.n && hasDiagEntry(o.M, i)) { o.dcol[i] = i; o.diag[i] = valOf(o.M, i, i); o.idiag[i] = 1 / o.diag[i]; }
}
int openFds() { int k = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++k; closedir(d); return k; }
struct Pool {
  vector<Obj> v;
  ~Pool() { for (auto &o : v) release(o); }
};
Mat laplacian(int nx, int ny, int nz) {
  Mat M(nx * ny * nz, nx * ny * nz); int row = 0;
  for (int z = 0; z < nz; ++z) for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x, ++row)
    for (int Z = std::max(0, z - 1); Z <= std::min(nz - 1, z + 1); ++Z) for (int Y = std::max(0, y - 1); Y <= std::min(ny - 1, y + 1); ++Y) for (int X = std::max(0, x - 1); X <= std::min(nx - 1, x + 1); ++X) { int col = (Z * ny + Y) * nx + X; M.rows[row].push_back(std::make_pair(col, col == row ? 26.0 : -1.0)); }
  return M;
}
Mat genMat(Rng &r, int cap) {
  if (r.chance(60)) { std::string k; auto adj = genGraph(r, cap, k); if (adj.empty()) adj.resize(1); return symMat(r, adj, r.chance(20), r.chance(90), r.chance(50)); }
  GenOpt o; o.cap = cap; o.allowEmpty = false; o.square = r.chance(60); o.fullDiag = o.square && r.chance(60); return genGeneral(r, o);
}
std::string writeMM(Rng &r, const std::string &f, const Mat &M) {
  FILE *p = fopen(f.c_str(), "w"); if (!p) { perror("scratch"); _exit(9); }
  fprintf(p, "%%%%MatrixMarket matrix coordinate real general\n%d %d %ld\n", M.m, M.n, M.nnz());
  auto e = M.entries(); r.shuffle(e); for (auto &x : e) fprintf(p, "%d %d %.17g\n", x.r + 1, x.c + 1, x.v);
  fclose(p); return f;
}
// sequential and scheduled Gauss-Seidel/forward solve, bit for bit
void runSchedule(Ctx &c, const Obj &o, LevelSchedule &L, int T, bool permuted, const CSR *A, bool fwd) {
  int n = o.M.m, base = o.base; vector<double> b(n), x(n, 0), xr(n, 0); for (auto &q : b) q = c.rng.range(-40, 40) / 4.0;
  vector<int> dp(n); for (int i = 0; i < n; ++i) for (int j = A->rowptr[i] - base; j < A->rowptr[i + 1] - base; ++j) if (A->colidx[j] - base == i) dp[i] = j;
  auto row = [&](int i, double *v) { double s = b[i]; for (int j = A->rowptr[i] - base; j < A->rowptr[i + 1] - base; ++j) s -= A->values[j] * v[A->colidx[j] - base]; v[i] += s / A->values[dp[i]]; };
  // row order of the sequential sweep: original numbering
  const int *toOrig = L.threadContToOrigPerm, *toCont = L.origToThreadContPerm;
  for (int q = 0; q < n; ++q) { int i = fwd ? q : n - 1 - q; row(permuted ? toCont[i] : i, xr.data()); }
  synk::Barrier::deleteInstance();
#pragma omp parallel num_threads(T)
  {
    int tid = omp_get_thread_num(), nthreads = omp_get_num_threads(); Rng r(mix(n, tid));
    const short *nparents = fwd ? L.nparentsForward : L.nparentsBackward; int **parents = fwd ? L.parentsForward : L.parentsBackward;
    volatile int *taskFinished = L.taskFinished; synk::Barrier *bar = synk::Barrier::getInstance();
    int per = (L.ntasks + nthreads - 1) / nthreads, kb = std::min(per * tid, L.ntasks), ke = std::min(kb + per, L.ntasks);
    for (int k = kb; k < ke; ++k) taskFinished[k] = 0;
    bar->wait(tid);
    int first = fwd ? L.threadBoundaries[tid] : L.threadBoundaries[tid + 1] - 1, last = fwd ? L.threadBoundaries[tid + 1] : L.threadBoundaries[tid] - 1, step = fwd ? 1 : -1;
    for (int task = first; task != last; task += step) {
      SPMP_LEVEL_SCHEDULE_WAIT;
      int rb = L.taskBoundaries[task], re = L.taskBoundaries[task + 1];
      for (int q = fwd ? rb : re - 1; fwd ? q < re : q >= rb; q += step) { stall(r, 1); row(permuted ? q : toOrig[q], x.data()); }
      SPMP_LEVEL_SCHEDULE_NOTIFY;
    }
  }
  synk::Barrier::deleteInstance();
  for (int i = 0; i < n; ++i) HV_CHECK(!memcmp(&x[i], &xr[i], 8), "solve", "%s sweep%s: x[%d]=%.17g, sequentially %.17g", fwd ? "forward" : "backward", permuted ? " on the reordered matrix" : "", i, x[i], xr[i]);
  c.count("sweeps compared");
}
const char *permName[] = {"random", "rcm", "bfs", "schedule"};
}

void run_case(Ctx &c) {
  Rng &r = c.rng; Pool pool; int cap = r.chance(8) ? 700 : r.chance(50) ? 30 : 90;
  std::string log = "program:"; c.describe(log);
  int steps = r.range(6, c.thorough ? 60 : 30); uint64_t sg = r.next(); int fds = g_conc ? 0 : openFds(); bool any = false; uint64_t sig = 1;
  auto note = [&](const std::string &s) { log += " " + s + ";"; if (log.size() > 3500) log = "..." + log.substr(log.size() - 3000); c.describe(log); };
  auto pick = [&]() -> int { vector<int> l; for (size_t k = 0; k < pool.v.size(); ++k) if (pool.v[k].A) l.push_back((int)k); return l.empty() ? -1 : l[r.below((int)l.size())]; };
  auto add = [&](const Obj &o) { pool.v.push_back(o); any = true; return (int)pool.v.size() - 1; };
  auto live = [&]() { int k = 0; for (auto &o : pool.v) k += o.A != NULL; return k; };
  std::map<std::string, int> ops;
  (void)sg;
  for (int s = 0; s < steps; ++s) {
    int t = c.threads(); if (!g_conc) synk::Barrier::deleteInstance();
    int k = pick(); int op = k < 0 ? r.below(3) : r.below(30);
    if (g_conc && op >= 25 && op <= 28) op = 9 + (op - 25) * 5;
    if (live() > 6) op = 7;
    sig = mix(sig, op * 8 + t);
    std::string name;
    { bool on = r.chance(30); int lv = 1 << r.below(10); if (!g_conc) hv_perturb = on ? lv : 0; }
    switch (op) {
    case 0: { Mat M = genMat(r, cap); int base = r.below(2); std::string f = writeMM(r, c.scratch + "/p.mtx", M); name = "load"; note(fmt("%zu=load(%dx%d,%ld,base%d)/%d", pool.v.size(), M.m, M.n, M.nnz(), base, t));
      Obj o; o.M = M; o.M.sortRows(); o.base = base; o.vals = true; o.owned = true; libDiags(o); o.A = new CSR(f.c_str(), base); add(o); break; }
    case 1: { int nx = r.range(1, 6), ny = r.range(1, 5), nz = r.range(1, 4), base = r.below(2); name = "laplacian"; note(fmt("%zu=laplacian(%d,%d,%d,base%d)/%d", pool.v.size(), nx, ny, nz, base, t));
      Obj o; o.base = base; o.vals = true; 
      if (r.chance(30)) { nx = r.range(1, 5); o.M = laplacian(nx, nx, nx); libDiags(o); o.owned = true; o.A = new CSR(fmt("%d", nx).c_str(), base); }
      else { o.M = laplacian(nx, ny, nz); libDiags(o); o.owned = true; o.A = new CSR(); generate3D27PtLaplacian(o.A, nx, ny, nz, base); }
      add(o); break; }
    case 2: { // arrays filled by the user of an object the library allocated
      Mat M = genMat(r, cap); int base = r.below(2); name = "fill"; note(fmt("%zu=filled(%dx%d,%ld,base%d)/%d", pool.v.size(), M.m, M.n, M.nnz(), base, t));
      Obj o; o.M = M; o.base = base; o.vals = true; o.owned = true; libDiags(o); o.A = new CSR(M.m, M.n, (int)M.nnz()); int z = 0;
      for (int i = 0; i < M.m; ++i) { o.A->rowptr[i] = z + base; o.A->diagptr[i] = 0; o.A->diag[i] = o.A->idiag[i] = 0; for (auto &p : M.rows[i]) { o.A->colidx[z] = p.first + base; o.A->values[z] = p.second; if (p.first == i) { o.A->diagptr[i] = z + base; o.A->diag[i] = p.second; o.A->idiag[i] = 1 / p.second; } ++z; } }
      o.A->rowptr[M.m] = z + base; add(o); break; }
    case 3: case 4: { Obj o = pool.v[k]; name = "copy"; note(fmt("%zu=copy(%d)/%d", pool.v.size(), k, t)); o.owned = true; o.A = new CSR(*pool.v[k].A); add(o); break; }
    case 5: { int q = pick(); if (q == k || !pool.v[q].owned) break; name = "assign"; note(fmt("%d:=%d/%d", q, k, t)); *pool.v[q].A = *pool.v[k].A; CSR *A = pool.v[q].A; pool.v[q] = pool.v[k]; pool.v[q].A = A; pool.v[q].owned = true; break; }
    case 6: name = "to0"; note(fmt("%d.to0/%d", k, t)); pool.v[k].A->make0BasedIndexing(); pool.v[k].base = 0; break;
    case 7: name = "delete"; note(fmt("delete %d", k)); release(pool.v[k]); break;
    case 8: name = "to1"; note(fmt("%d.to1/%d", k, t)); pool.v[k].A->make1BasedIndexing(); pool.v[k].base = 1; break;
    case 9: case 10: { Obj &a = pool.v[k]; name = "transpose"; note(fmt("%zu=transpose(%d)/%d", pool.v.size(), k, t));
      Obj o; o.M = Mat(a.M.n, a.M.m); for (int i = 0; i < a.M.m; ++i) for (auto &p : a.M.rows[i]) o.M.rows[p.first].push_back(std::make_pair(i, p.second));
      o.base = a.base; o.vals = a.vals; o.owned = true; o.hasDp = a.hasDp; o.hasIdiag = o.hasDiag = false; o.dcol.assign(o.M.m, -1); for (int i = 0; i < o.M.m; ++i) if (i < o.M.n && hasDiagEntry(o.M, i)) o.dcol[i] = i;
      o.A = a.A->transpose(); add(o); break; }
    case 11: case 12: case 13: { // symmetric reordering by a permutation of some origin, or a general one
      Obj &a = pool.v[k]; int n = a.M.m; if (a.M.m != a.M.n || !n) break; if (a.hasDp && !fullDiag(a.M)) break;
      vector<int> perm(n), inv(n); int how = g_conc ? 0 : r.below(4); bool sp = symPattern(a.M);
      if ((how == 1 || how == 2) && !sp) how = 0;
      if (how == 3 && !(sp && parted(a.M) && dpOnDiag(a))) how = 0;
      bool sort = r.chance(50); name = "permute"; note(fmt("%zu=permute(%d,%s,sort%d)/%d", pool.v.size(), k, permName[how], sort, t));
      if (how == 0) { inv = randPerm(r, n); for (int i = 0; i < n; ++i) perm[inv[i]] = i; if (!a.hasDp && r.chance(30)) perm = randPerm(r, n); }
      else if (how == 1) { a.A->getRCMPermutation(perm.data(), inv.data(), r.chance(50)); }
      else if (how == 2) { a.A->getBFSPermutation(perm.data(), inv.data()); }
      else { LevelSchedule L; L.constructTaskGraph(*a.A); a.hasDp = true; a.dcol.resize(n); for (int i = 0; i < n; ++i) a.dcol[i] = i; std::copy(L.origToThreadContPerm, L.origToThreadContPerm + n, perm.begin()); std::copy(L.threadContToOrigPerm, L.threadContToOrigPerm + n, inv.begin()); }
      { vector<char> seen(n, 0); for (int i = 0; i < n; ++i) { HV_CHECK(inv[i] >= 0 && inv[i] < n && !seen[inv[i]], "perm", "%s ordering of matrix %d is not a permutation at %d", permName[how], k, i); seen[inv[i]] = 1; } if (how) for (int i = 0; i < n; ++i) HV_CHECK(perm[inv[i]] == i, "perm", "%s ordering of matrix %d: the arrays are not inverse at %d", permName[how], k, i); }
      Obj o; o.M = Mat(n, n); for (int i = 0; i < n; ++i) for (auto &p : a.M.rows[inv[i]]) o.M.rows[i].push_back(std::make_pair(perm[p.first], p.second));
      if (sort) o.M.sortRows();
      o.base = a.base; o.vals = a.vals; o.owned = true; o.hasDp = a.hasDp; if (o.hasDp) { o.dcol.resize(n); for (int i = 0; i < n; ++i) o.dcol[i] = perm[inv[i]]; }
      o.hasIdiag = a.hasIdiag; if (o.hasIdiag) { o.idiag.resize(n); for (int i = 0; i < n; ++i) o.idiag[i] = a.idiag[inv[i]]; } o.hasDiag = false;
      o.A = a.A->permute(perm.data(), inv.data(), sort); add(o); break; }
    case 14: { Obj &a = pool.v[k]; int m = a.M.m; vector<int> inv = randPerm(r, m); if (!m) break; name = "permuteRows"; note(fmt("%zu=permuteRows(%d)/%d", pool.v.size(), k, t));
      Obj o; o.M = Mat(m, a.M.n); for (int i = 0; i < m; ++i) o.M.rows[i] = a.M.rows[inv[i]]; o.base = a.base; o.vals = a.vals; o.owned = true; o.hasDp = a.hasDp; if (o.hasDp) { o.dcol.resize(m); for (int i = 0; i < m; ++i) o.dcol[i] = a.dcol[inv[i]]; }
      o.hasIdiag = a.hasIdiag; if (o.hasIdiag) { o.idiag.resize(m); for (int i = 0; i < m; ++i) o.idiag[i] = a.idiag[inv[i]]; } o.hasDiag = false; o.A = a.A->permuteRows(inv.data()); add(o); break; }
    case 15: { Obj &a = pool.v[k]; int n = a.M.n; if (a.hasDp && !fullDiag(a.M)) break; vector<int> perm = randPerm(r, n); name = "permuteCols"; note(fmt("%d.permuteColsInPlace/%d", k, t));
      a.A->permuteColsInPlace(perm.data());
      auto less = [](const std::pair<int,double> &x, const std::pair<int,double> &y) { return x.first < y.first; };
      for (int i = 0; i < a.M.m; ++i) { int d = -1; auto &row = a.M.rows[i]; for (size_t q = 0; q < row.size(); ++q) { if (row[q].first == i) d = (int)q; row[q].first = perm[row[q].first]; }
        if (a.hasDp) { std::stable_sort(row.begin(), row.begin() + d, less); std::stable_sort(row.begin() + d + 1, row.end(), less); a.dcol[i] = perm[i]; } else std::stable_sort(row.begin(), row.end(), less); }
      break; }
    case 16: case 17: { // through a binary file, into a new object or one in use
      Obj &a = pool.v[k]; std::string f = c.scratch + "/p.bin"; int base = r.below(2); int q = pick(); bool into = r.chance(40) && pool.v[q].owned && q != k; name = "bin";
      note(fmt("%zu=bin(%d,base%d)/%d", into ? (size_t)q : pool.v.size(), k, base, t)); a.A->storeBin(f.c_str()); Obj o; o.M = a.M; if (!a.vals) for (auto &row : o.M.rows) for (auto &p : row) p.second = 1.0; o.base = base; o.vals = true; o.owned = true; libDiags(o);
      if (into) { pool.v[q].A->loadBin(f.c_str(), base); o.A = pool.v[q].A; pool.v[q] = o; } else { o.A = new CSR(f.c_str(), base); add(o); } break; }
    case 18: { Obj &a = pool.v[k]; if (!a.M.m || !a.M.n) break; std::string f = c.scratch + "/q.mtx"; int base = r.below(2); name = "mm"; note(fmt("%zu=mm(%d,base%d)/%d", pool.v.size(), k, base, t)); a.A->storeMatrixMarket(f.c_str()); Obj o; o.M = a.M; if (!a.vals) for (auto &row : o.M.rows) for (auto &p : row) p.second = 1.0; o.M.sortRows(); o.base = base; o.vals = true; o.owned = true; libDiags(o); o.A = new CSR(f.c_str(), base); add(o); break; }
    case 19: case 20: { Obj &a = pool.v[k]; if (!a.vals) break; name = "spmv"; note(fmt("spmv(%d)/%d", k, t)); vector<double> x(a.M.n), y(a.M.m), w(a.M.m, 7.5), w1(a.M.m, -3); for (auto &q : x) q = r.range(-30, 30) / 8.0; for (auto &q : y) q = r.range(-30, 30) / 8.0; double al = r.range(-2, 2), be = r.range(-2, 2), ga = r.range(-1, 1);
      a.A->multiplyWithVector(w.data(), al, x.data(), be, y.data(), ga); a.A->multiplyWithDenseMatrix(w1.data(), 1, x.data());
      for (int i = 0; i < a.M.m; ++i) { long double sm = 0, mag = 0; for (auto &p : a.M.rows[i]) { long double z = (long double)p.second * x[p.first]; sm += z; mag += fabsl(z); } long double want = al * sm + (long double)be * y[i] + ga; long double tol = (a.M.rows[i].size() + 8) * 4.6e-16L * (fabsl(al) * mag + fabsl((long double)be * y[i]) + fabsl(ga)) + 1e-300L;
        HV_CHECK(fabsl(w[i] - want) <= tol, "spmv", "spmv of matrix %d: element %d is %.17g, expected %.17g", k, i, w[i], (double)want); long double tol1 = (a.M.rows[i].size() + 8) * 4.6e-16L * mag + 1e-300L; HV_CHECK(fabsl(w1[i] - sm) <= tol1, "spmm", "dense product of matrix %d: element %d is %.17g, expected %.17g", k, i, w1[i], (double)sm); }
      c.count("product elements compared", a.M.m); break; }
    case 21: { Obj &a = pool.v[k]; name = "query"; note(fmt("query(%d)/%d", k, t)); bool sp = symPattern(a.M); bool sv = sp; if (sv && a.vals) for (int i = 0; i < a.M.m; ++i) for (auto &p : a.M.rows[i]) if (valOf(a.M, p.first, i) != p.second) sv = false;
      HV_CHECK(a.A->isSymmetric(false) == sp, "query", "isSymmetric(pattern) of matrix %d: truth %d", k, sp); if (a.vals) HV_CHECK(a.A->isSymmetric(true) == sv, "query", "isSymmetric(values) of matrix %d: truth %d", k, sv);
      int bw = 0, deg = 0; for (int i = 0; i < a.M.m; ++i) { deg = std::max(deg, (int)a.M.rows[i].size()); for (auto &p : a.M.rows[i]) bw = std::max(bw, std::abs(p.first - i)); }
      HV_CHECK(a.A->getBandwidth() == bw && a.A->getMaxDegree() == deg, "query", "matrix %d: bandwidth %d degree %d, truth %d %d", k, a.A->getBandwidth(), a.A->getMaxDegree(), bw, deg);
      int q = pick(); Obj &b = pool.v[q]; if (a.vals && b.vals) { bool eq = a.base == b.base && a.M.m == b.M.m && a.M.n == b.M.n && a.M.rows == b.M.rows; HV_CHECK(a.A->equals(*b.A) == eq, "query", "equals(%d,%d): truth %d", k, q, eq); } break; }
    case 22: { Obj &a = pool.v[k]; if (!a.vals || !parted(a.M)) break; if (!dpOnDiag(a)) break; name = "inverseDiag"; note(fmt("%d.inverseDiag/%d", k, t)); a.A->computeInverseDiag();
      if (!a.hasIdiag) { a.hasIdiag = true; a.idiag.resize(a.M.m); for (int i = 0; i < a.M.m; ++i) a.idiag[i] = 1 / valOf(a.M, i, i); } if (!a.hasDp) { a.hasDp = true; a.dcol.resize(a.M.m); for (int i = 0; i < a.M.m; ++i) a.dcol[i] = i; } break; }
    case 23: { Obj &a = pool.v[k]; if (!a.vals || !a.hasIdiag || a.M.m != a.M.n || !a.M.m || live() > 5) break; name = "splitLU"; note(fmt("%zu,%zu=splitLU(%d)/%d", pool.v.size(), pool.v.size() + 1, k, t)); Obj l, u; l.M = Mat(a.M.m, a.M.m); u.M = l.M;
      for (int i = 0; i < a.M.m; ++i) for (auto &p : a.M.rows[i]) if (p.first != i) (p.first < i ? l : u).M.rows[i].push_back(p);
      l.base = u.base = a.base; l.vals = u.vals = true; l.owned = u.owned = true; l.hasDp = u.hasDp = l.hasDiag = u.hasDiag = false; l.hasIdiag = u.hasIdiag = true; l.idiag = u.idiag = a.idiag; l.A = new CSR(); u.A = new CSR(); 
      add(l); add(u); splitLU(*pool.v[k].A, l.A, u.A); break; }
    case 24: { Obj &a = pool.v[k]; if (!fullDiag(a.M) || !sortedRows(a.M) || !a.M.m || live() > 6) break; name = "symmetrise"; note(fmt("symmetrise(%d)/%d", k, t)); int *rp = 0, *dp = 0, *ep = 0, *ci = 0; bool sy = symPattern(a.M); bool got = getSymmetricNnzPattern(a.A, &rp, &dp, &ep, &ci); HV_CHECK(got == sy, "symmetrise", "matrix %d reported symmetric=%d, truth %d", k, got, sy); if (got) break;
      vector<std::set<int>> w(a.M.m); for (int i = 0; i < a.M.m; ++i) for (auto &p : a.M.rows[i]) { w[i].insert(p.first); w[p.first].insert(i); }
      // the pattern becomes a matrix of the program
      Obj o; o.M = Mat(a.M.m, a.M.m); for (int i = 0; i < a.M.m; ++i) for (int j : w[i]) o.M.rows[i].push_back(std::make_pair(j, 1.0)); o.base = a.base; o.vals = false; o.owned = false; o.hasDp = true; o.dcol.resize(a.M.m); for (int i = 0; i < a.M.m; ++i) o.dcol[i] = i; o.hasIdiag = o.hasDiag = false;
      o.A = new CSR(a.M.m, a.M.m, rp, ci, NULL); o.A->diagptr = dp; add(o); break; }
    case 25: case 26: case 27: { Obj &a = pool.v[k]; if (!a.vals || !symPattern(a.M) || !parted(a.M)) break; if (!dpOnDiag(a)) break;
      bool perm = r.chance(40), red = r.chance(60); name = "sweep"; note(fmt("schedule+sweep(%d,reordered%d,reduce%d)/%d", k, perm, red, t)); LevelSchedule L; L.transitiveReduction = red; L.constructTaskGraph(*a.A); if (!a.hasDp) { a.hasDp = true; a.dcol.resize(a.M.m); for (int i = 0; i < a.M.m; ++i) a.dcol[i] = i; }
      if (!perm) { runSchedule(c, a, L, t, false, a.A, r.chance(50)); break; }
      { CSR *P = a.A->permute(L.origToThreadContPerm, L.threadContToOrigPerm, r.chance(30)); Obj o = a; o.A = P; o.owned = true; struct G { Obj &o; ~G() { release(o); } } g = {o}; runSchedule(c, o, L, t, true, P, r.chance(50)); } break; }
    case 28: { Obj &a = pool.v[k]; if (!a.M.m || !a.M.n) break; name = "bipartite"; note(fmt("bipartite(%d)/%d", k, t)); CSR *T = a.A->transpose(); Obj o; o.A = T; o.owned = true; struct G { Obj &o; ~G() { release(o); } } g = {o}; vector<int> rp(a.M.m), ri(a.M.m), cp(a.M.n), cj(a.M.n); synk::Barrier::deleteInstance(); bfsBipartite(*a.A, *T, rp.data(), ri.data(), cp.data(), cj.data());
      vector<char> s1(a.M.m, 0), s2(a.M.n, 0); for (int i = 0; i < a.M.m; ++i) { HV_CHECK(ri[i] >= 0 && ri[i] < a.M.m && !s1[ri[i]] && rp[ri[i]] == i, "perm", "bipartite row order of matrix %d wrong at %d", k, i); s1[ri[i]] = 1; } for (int i = 0; i < a.M.n; ++i) { HV_CHECK(cj[i] >= 0 && cj[i] < a.M.n && !s2[cj[i]] && cp[cj[i]] == i, "perm", "bipartite column order of matrix %d wrong at %d", k, i); s2[cj[i]] = 1; } break; }
    case 29: { // regenerate or empty an object that already holds a matrix
      Obj &a = pool.v[k]; if (!a.owned) break; int nx = r.range(1, 4), ny = r.range(1, 4), nz = r.range(1, 4), base = r.below(2); name = "regenerate"; note(fmt("%d.laplacian(%d,%d,%d,base%d)/%d", k, nx, ny, nz, base, t)); generate3D27PtLaplacian(a.A, nx, ny, nz, base); a.M = laplacian(nx, ny, nz); a.base = base; a.vals = true; libDiags(a); break; }
    }
    if (!g_conc) hv_perturb = 0;
    if (name.empty()) continue;
    c.count("operation " + name); c.count("operations");
    for (size_t q = 0; q < pool.v.size(); ++q) if (pool.v[q].A) { verify(pool.v[q], fmt("after step %d (%s), matrix %zu", s, name.c_str(), q)); c.count("matrices compared with the model"); }
    if (!g_conc) HV_CHECK(openFds() == fds, "file-left-open", "a file is left open after %s", name.c_str());
  }
  if (any) c.sig(sig);
}
