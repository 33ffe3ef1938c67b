// Common harness machinery: seeded cases, fault/crash attribution, matrix
// generators, a deliberately naive reference model, and the reporting protocol
// understood by check.py.
//
// A harness defines   void run_case(Ctx &c);   and optionally  void run_probe(...)
// Protocol on fd 3 / file given with --out: JSON lines.
#pragma once
#ifdef HV_VG
#include <valgrind/memcheck.h>
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <cmath>
#include <climits>
#include <cfloat>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <omp.h>

#include "CSR.hpp"
#include "COO.hpp"
#include "Utils.hpp"

namespace hv {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }  // inclusive
  bool chance(int pct) { return below(100) < pct; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> void shuffle(std::vector<T> &v) {
    for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[below(i + 1)]);
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below((int)v.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x2545F4914F6CDD1Dull + b + 0x1234567);
  r.next();
  return r.next();
}

struct Violation : std::runtime_error {
  std::string key;
  Violation(const std::string &k, const std::string &m) : std::runtime_error(m), key(k) {}
};

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
inline void fail(const std::string &key, const std::string &msg) { throw Violation(key, msg); }
#define HV_CHECK(cond, key, ...) do { if (!(cond)) hv::fail(key, hv::fmt(__VA_ARGS__)); } while (0)

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) o += fmt("\\u%04x", ch);
    else o += ch;
  }
  return o;
}

struct Ctx {
  Rng rng;
  uint64_t seed = 1;
  int idx = 0;
  bool thorough = false;
  std::string mode;      // --mode
  std::string scratch;   // private scratch directory
  int maxThreads = 8;
  std::string desc;      // description of the current case
  // shared stats
  std::map<std::string, long long> *cnt = nullptr;
  std::set<uint64_t> *sigs = nullptr;
  char *progress = nullptr;
  size_t progressLen = 0;

  void count(const std::string &k, long long d = 1) { (*cnt)[k] += d; }
  void maxi(const std::string &k, long long v) { long long &r = (*cnt)["max:" + k]; if (v > r) r = v; }
  // distinct, non-trivial case/state signature
  void sig(uint64_t s) { sigs->insert(s); }
  void describe(const std::string &d) {
    desc = d;
    for (auto &ch : desc) if (ch == '\n' || ch == '\r') ch = '|';
    if (progress) {
      snprintf(progress + 8, progressLen - 8, "%d %s", idx, desc.c_str());
      __sync_synchronize();
      ++*(volatile unsigned *)progress;
    }
  }
  void add(const std::string &d) { describe(desc.empty() ? d : desc + " " + d); }
  int threads() {  // pick a team size and install it
    static const int pref[] = {1, 2, 3, 4, 5, 7, 8, 2, 4, 8, 6};
    int t = pref[rng.below(11)];
    if (t > maxThreads) t = maxThreads;
    omp_set_num_threads(t);
    return t;
  }
};

// ---------------------------------------------------------------- reference
struct Ent { int r, c; double v; };
inline bool entLess(const Ent &a, const Ent &b) {
  if (a.r != b.r) return a.r < b.r;
  if (a.c != b.c) return a.c < b.c;
  uint64_t x, y;
  memcpy(&x, &a.v, 8); memcpy(&y, &b.v, 8);
  return x < y;
}
inline bool entEq(const Ent &a, const Ent &b) {
  return a.r == b.r && a.c == b.c && !memcmp(&a.v, &b.v, 8);
}

// Plain sparse matrix: rows in storage order, zero based.
struct Mat {
  int m = 0, n = 0;
  std::vector<std::vector<std::pair<int, double>>> rows;
  std::string kind;
  Mat() {}
  Mat(int m_, int n_) : m(m_), n(n_), rows(m_) {}
  long nnz() const { long s = 0; for (auto &r : rows) s += r.size(); return s; }
  std::vector<Ent> entries(bool sorted = true) const {
    std::vector<Ent> e;
    for (int i = 0; i < m; ++i) for (auto &p : rows[i]) e.push_back({i, p.first, p.second});
    if (sorted) std::sort(e.begin(), e.end(), entLess);
    return e;
  }
  void sortRows() {
    for (auto &r : rows) std::stable_sort(r.begin(), r.end(), [](const std::pair<int,double>&a, const std::pair<int,double>&b){return a.first<b.first;});
  }
  uint64_t hash() const {
    uint64_t h = mix(m, n);
    for (int i = 0; i < m; ++i) { h = mix(h, 0x77 + i); for (auto &p : rows[i]) { uint64_t b; memcpy(&b, &p.second, 8); h = mix(h ^ b, p.first); } }
    return h;
  }
  uint64_t patternHash() const {
    uint64_t h = mix(m, n);
    for (int i = 0; i < m; ++i) { h = mix(h, 0x77 + i); for (auto &p : rows[i]) h = mix(h, p.first); }
    return h;
  }
};

// A CSR whose arrays live in exactly sized malloc blocks (so ASan sees every
// one-off), released by this wrapper and not by the library.
struct HCSR {
  int *rowptr = nullptr, *colidx = nullptr, *diagptr = nullptr, *extptr = nullptr;
  double *values = nullptr, *idiag = nullptr, *diag = nullptr;
  SpMP::CSR *A = nullptr;
  int base = 0, m = 0, n = 0, nnz = 0;
  HCSR() {}
  HCSR(const HCSR &) = delete;
  HCSR &operator=(const HCSR &) = delete;
  ~HCSR() { release(); }
  void release() {
    if (A) {
      // detach everything we own, so that the library destructor frees nothing of ours
      A->rowptr = A->colidx = NULL; A->values = NULL;
      A->diagptr = NULL; A->extptr = NULL; A->idiag = NULL; A->diag = NULL;
      delete A; A = nullptr;
    }
    free(rowptr); free(colidx); free(values); free(diagptr); free(extptr); free(idiag); free(diag);
    rowptr = colidx = diagptr = extptr = nullptr; values = idiag = diag = nullptr;
  }
};
template <class T> inline T *xmalloc(size_t n) { return (T *)malloc(n * sizeof(T) ? n * sizeof(T) : 1); }

// withDiag: diagptr (+diag/idiag when also full) constructed by us, independent of the library
inline void build(HCSR &h, const Mat &M, int base, bool values = true, bool withDiagPtr = false, const std::vector<int> *ext = nullptr) {
  h.release();
  h.base = base; h.m = M.m; h.n = M.n; h.nnz = (int)M.nnz();
  h.rowptr = xmalloc<int>(M.m + 1);
  h.colidx = xmalloc<int>(h.nnz);
  if (values) h.values = xmalloc<double>(h.nnz);
  int k = 0;
  for (int i = 0; i < M.m; ++i) {
    h.rowptr[i] = k + base;
    for (auto &p : M.rows[i]) { h.colidx[k] = p.first + base; if (values) h.values[k] = p.second; ++k; }
  }
  h.rowptr[M.m] = k + base;
  h.A = new SpMP::CSR(M.m, M.n, h.rowptr, h.colidx, h.values);
  if (withDiagPtr) {
    h.diagptr = xmalloc<int>(M.m);
    for (int i = 0; i < M.m; ++i) {
      h.diagptr[i] = -1;
      for (int j = h.rowptr[i]; j < h.rowptr[i + 1]; ++j) if (h.colidx[j - base] - base == i) { h.diagptr[i] = j; break; }
    }
    h.A->diagptr = h.diagptr;
  }
  if (ext) {
    h.extptr = xmalloc<int>(M.m);
    for (int i = 0; i < M.m; ++i) h.extptr[i] = (*ext)[i] + h.rowptr[i];
    h.A->extptr = h.extptr;
  }
}

// what f prints on stdout
template <class F> inline std::string captureStdout(const std::string &file, F f) {
  fflush(stdout);
  int old = dup(1), fd = open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (old < 0 || fd < 0) { perror(file.c_str()); exit(3); }
  dup2(fd, 1); f(); fflush(stdout); dup2(old, 1); close(old);
  std::string s; char buf[4096]; ssize_t k; lseek(fd, 0, SEEK_SET);
  while ((k = read(fd, buf, sizeof buf)) > 0) s.append(buf, k);
  close(fd); unlink(file.c_str());
  return s;
}

inline std::string showMat(const Mat &M, int limit = 60) {
  std::string s = fmt("%dx%d nnz=%ld", M.m, M.n, M.nnz());
  if (M.nnz() <= limit) {
    s += " {";
    for (int i = 0; i < M.m; ++i) for (auto &p : M.rows[i]) s += fmt("(%d,%d:%g)", i, p.first, p.second);
    s += "}";
  }
  return s;
}

// under the memory checker: every byte of a result must have been written
#ifdef HV_VG
template<class T> inline void written(const T *p, size_t n) { if (p && n) (void)VALGRIND_CHECK_MEM_IS_DEFINED(p, n * sizeof(T)); }
inline void forget(void *p, size_t n) { (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n); }  // what it holds means nothing to the next user
#else
inline void forget(void *, size_t) {}
template<class T> inline void written(const T *, size_t) {}
#endif

// Read back a CSR without trusting it: structural checks first.
inline Mat readCSR(const SpMP::CSR *A, const char *what, int wantBase, int m, int n, bool values = true) {
  HV_CHECK(A->m == m && A->n == n, "shape", "%s: shape %dx%d, expected %dx%d", what, A->m, A->n, m, n);
  HV_CHECK(A->rowptr != NULL, "rowptr-null", "%s: no row pointers", what);
  HV_CHECK(A->rowptr[0] == wantBase, "base", "%s: rowptr[0]=%d expected base %d", what, A->rowptr[0], wantBase);
  written(A->rowptr, (size_t)m + 1);
  Mat M(m, n);
  for (int i = 0; i < m; ++i) {
    HV_CHECK(A->rowptr[i + 1] >= A->rowptr[i], "rowptr-order", "%s: rowptr[%d]=%d > rowptr[%d]=%d", what, i, A->rowptr[i], i + 1, A->rowptr[i + 1]);
    for (int j = A->rowptr[i] - wantBase; j < A->rowptr[i + 1] - wantBase; ++j) {
      int c = A->colidx[j] - wantBase;
      HV_CHECK(c >= 0 && c < n, "col-range", "%s: row %d has column %d outside 0..%d", what, i, c, n - 1);
      if (values) written(A->values ? A->values + j : A->values, 1);
      M.rows[i].push_back(std::make_pair(c, values && A->values ? A->values[j] : 1.0));
    }
  }
  return M;
}

inline void compareRowsExact(const Mat &want, const Mat &got, const std::string &key, const char *what) {
  HV_CHECK(want.m == got.m && want.n == got.n, key, "%s: shape", what);
  for (int i = 0; i < want.m; ++i) {
    HV_CHECK(want.rows[i].size() == got.rows[i].size(), key, "%s: row %d has %zu entries, expected %zu", what, i, got.rows[i].size(), want.rows[i].size());
    for (size_t k = 0; k < want.rows[i].size(); ++k)
      HV_CHECK(want.rows[i][k].first == got.rows[i][k].first && !memcmp(&want.rows[i][k].second, &got.rows[i][k].second, 8), key,
        "%s: row %d entry %zu is (%d,%.17g), expected (%d,%.17g)", what, i, k, got.rows[i][k].first, got.rows[i][k].second, want.rows[i][k].first, want.rows[i][k].second);
  }
}
inline void compareEntries(const Mat &want, const Mat &got, const std::string &key, const char *what) {
  std::vector<Ent> a = want.entries(), b = got.entries();
  size_t k = 0, e = std::min(a.size(), b.size());
  for (; k < e; ++k)
    HV_CHECK(entEq(a[k], b[k]), key, "%s: entry #%zu in sorted order is (%d,%d,%.17g), expected (%d,%d,%.17g)", what, k, b[k].r, b[k].c, b[k].v, a[k].r, a[k].c, a[k].v);
  HV_CHECK(a.size() == b.size(), key, "%s: %zu entries, expected %zu", what, b.size(), a.size());
}

// Bit-exact snapshot of all arrays of a CSR, to prove an operation left it alone.
struct Snapshot {
  int m, n; std::vector<int> rowptr, colidx, diagptr, extptr; std::vector<double> values, idiag, diag;
  const void *p[7];
  explicit Snapshot(const SpMP::CSR *A) {
    m = A->m; n = A->n;
    int nnz = A->rowptr ? A->rowptr[m] - A->rowptr[0] : 0;
    if (A->rowptr) rowptr.assign(A->rowptr, A->rowptr + m + 1);
    if (A->colidx) colidx.assign(A->colidx, A->colidx + nnz);
    if (A->values) values.assign(A->values, A->values + nnz);
    if (A->diagptr) diagptr.assign(A->diagptr, A->diagptr + m);
    if (A->extptr) extptr.assign(A->extptr, A->extptr + m);
    if (A->idiag) idiag.assign(A->idiag, A->idiag + m);
    if (A->diag) diag.assign(A->diag, A->diag + m);
    p[0]=A->rowptr;p[1]=A->colidx;p[2]=A->values;p[3]=A->diagptr;p[4]=A->extptr;p[5]=A->idiag;p[6]=A->diag;
  }
  static bool same(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * 8)); }
  void check(const SpMP::CSR *A, const std::string &key, const char *op) const {
    Snapshot s(A);
    HV_CHECK(s.m == m && s.n == n && s.rowptr == rowptr && s.colidx == colidx && same(s.values, values) && s.diagptr == diagptr && s.extptr == extptr && same(s.idiag, idiag) && same(s.diag, diag),
      key, "%s changed its input matrix", op);
    for (int i = 0; i < 7; ++i) HV_CHECK(s.p[i] == p[i], key, "%s replaced an array of its input matrix", op);
  }
};

// ---------------------------------------------------------------- generators
inline double genValue(Rng &r) {
  int k = r.below(40);
  if (k == 0) return 0.0;
  if (k == 1) return -0.0;
  if (k == 2) return 1.0;
  if (k == 3) return 1e-30;
  if (k == 4) return -1e30;
  double v = (double)(r.range(-64, 64)) / 8.0;
  return v == 0 ? 0.5 : v;
}
// small "exact" values: sums/products of moderately many stay exact in double
inline double genExact(Rng &r) { double v = r.range(-8, 8); return v == 0 ? 3 : v; }

inline int genSize(Rng &r, int cap) {
  int k = r.below(20);
  int v;
  if (k == 0) v = 1; else if (k == 1) v = 2; else if (k <= 4) v = r.range(3, 9);
  else if (k <= 12) v = r.range(10, 80); else if (k <= 17) v = r.range(80, 400); else v = r.range(400, 2000);
  return std::min(v, cap);
}

// general rectangular matrix; flags tell what it may contain
struct GenOpt { bool dup = false; bool sorted = false; bool fullDiag = false; bool square = false; bool exact = false; int cap = 2000; bool allowEmpty = true; };
inline Mat genGeneral(Rng &r, const GenOpt &o) {
  int m = genSize(r, o.cap), n = o.square || r.chance(30) ? m : genSize(r, o.cap);
  if (o.allowEmpty && r.chance(2)) { m = 0; if (o.square) n = 0; }
  if (o.allowEmpty && !o.square && r.chance(1)) n = 0;
  Mat M(m, n);
  if (m == 0 || n == 0) { M.kind = "empty"; return M; }
  auto val = [&]() { return o.exact ? genExact(r) : genValue(r); };
  int kind = r.below(9);
  static const char *names[] = {"uniform", "fewrows", "hubrow", "hubcol", "band", "blockempty", "dense", "diag-ish", "lastheavy"};
  M.kind = names[kind];
  std::vector<std::set<int>> used(m);
  auto put = [&](int i, int j) {
    if (i < 0 || j < 0 || i >= m || j >= n) return;
    if (!o.dup && !used[i].insert(j).second) return;
    M.rows[i].push_back(std::make_pair(j, val()));
  };
  long budget = std::min<long>(20000, (long)m * (1 + r.below(8)) + 1);
  switch (kind) {
  case 0: for (long k = 0; k < budget; ++k) put(r.below(m), r.below(n)); break;
  case 1: { int nr = 1 + r.below(3); for (int q = 0; q < nr; ++q) { int i = r.below(m); int cnt = r.below(std::min(n, 500)) + 1; for (int k = 0; k < cnt; ++k) put(i, r.below(n)); } break; }
  case 2: { int h = r.below(m); for (int j = 0; j < n; ++j) put(h, j); for (int k = 0; k < m; ++k) put(r.below(m), r.below(n)); break; }
  case 3: { int h = r.below(n); for (int i = 0; i < m; ++i) put(i, h); for (int k = 0; k < m; ++k) put(r.below(m), r.below(n)); break; }
  case 4: { int bw = 1 + r.below(6); for (int i = 0; i < m; ++i) for (int j = i - bw; j <= i + bw; ++j) if (r.chance(70)) put(i, j); break; }
  case 5: { int lo = r.below(m), hi = lo + r.below(m - lo); for (long k = 0; k < budget; ++k) { int i = r.below(m); if (i < lo || i > hi) put(i, r.below(n)); } break; }
  case 6: { if ((long)m * n <= 6000) { for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) put(i, j); } else for (long k = 0; k < budget; ++k) put(r.below(m), r.below(n)); break; }
  case 7: for (int i = 0; i < m; ++i) { put(i, i); if (r.chance(20)) put(i, r.below(n)); } break;
  case 8: { for (int j = 0; j < n; ++j) put(m - 1, j); for (int i = 0; i < m; ++i) put(i, n - 1); break; }
  }
  if (o.fullDiag) for (int i = 0; i < std::min(m, n); ++i) {
    bool has = false; for (auto &p : M.rows[i]) if (p.first == i) has = true;
    if (!has) M.rows[i].push_back(std::make_pair(i, o.exact ? 16.0 : 8.0 + r.below(8)));
  }
  if (o.sorted) M.sortRows();
  else if (r.chance(40)) M.sortRows();
  else if (r.chance(50)) for (auto &row : M.rows) r.shuffle(row);
  return M;
}

// rare large inputs (10^4..10^5 rows, up to 4*10^5 entries): size thresholds of
// parallel or blocked code paths lie out of reach of the ordinary ones
inline Mat genLarge(Rng &r, const GenOpt &o) {
  int kind = r.below(4), m, n; long nz;
  switch (kind) {
  case 0: m = r.range(10000, 70000); n = o.square || r.chance(50) ? m : r.range(10, 80000); nz = (long)m * r.below(5); break;
  case 1: m = r.range(2, 60); n = r.range(20000, 80000); if (o.square) m = n = r.range(3000, 9000); nz = r.range(100000, 400000); break;   // long rows
  case 2: m = r.range(20000, 80000); n = r.range(2, 60); if (o.square) m = n = r.range(3000, 9000); nz = r.range(60000, 300000); break;    // long columns
  default: m = r.range(300, 1200); n = o.square || r.chance(50) ? m : r.range(300, 1200); nz = r.range(100000, 250000); break;  // nearly dense
  }
  Mat M(m, n); static const char *names[] = {"large-sparse", "large-rows", "large-columns", "large-dense"}; M.kind = names[kind];
  std::vector<std::vector<int>> cols(m);
  for (long k = 0; k < nz; ++k) cols[r.below(m)].push_back(r.below(n));
  if (o.fullDiag) for (int i = 0; i < std::min(m, n); ++i) cols[i].push_back(i);
  int order = o.sorted ? 0 : r.below(3);
  for (int i = 0; i < m; ++i) {
    auto &v = cols[i]; std::sort(v.begin(), v.end());
    bool keepDup = o.dup && !o.fullDiag;
    if (!keepDup) v.erase(std::unique(v.begin(), v.end()), v.end());
    if (order == 1) r.shuffle(v);
    for (int j : v) M.rows[i].push_back(std::make_pair(j, o.fullDiag && i == j ? 8.0 + r.below(8) : o.exact ? genExact(r) : genValue(r)));
  }
  return M;
}

// undirected graph families, as adjacency sets; the workhorse for scheduling
// and reordering. Returns a structurally symmetric pattern, optional diagonal.
inline std::vector<std::vector<int>> genGraph(Rng &r, int cap, std::string &kind, int forceN = -1) {
  int n = forceN >= 0 ? forceN : genSize(r, cap);
  std::vector<std::vector<int>> adj(n);
  if (n == 0) { kind = "empty"; return adj; }
  std::set<std::pair<int, int>> seen;
  auto edge = [&](int a, int b) {
    if (a == b || a < 0 || b < 0 || a >= n || b >= n) return;
    if (a > b) std::swap(a, b);
    if (!seen.insert(std::make_pair(a, b)).second) return;
    adj[a].push_back(b); adj[b].push_back(a);
  };
  int k = r.below(17);
  static const char *names[] = {"random-sparse", "random-denser", "grid2d", "grid3d27", "path", "shuffled-path", "star", "multi-star", "forest", "isolated+few", "comb", "cliques", "band", "bipartite", "layers", "arrow", "hub-fan"};
  kind = names[k];
  switch (k) {
  case 0: { int e = n / 2 + r.below(n + 1); for (int i = 0; i < e; ++i) edge(r.below(n), r.below(n)); break; }
  case 1: { int e = n * (2 + r.below(5)); for (int i = 0; i < e; ++i) edge(r.below(n), r.below(n)); break; }
  case 2: { int w = std::max(1, (int)std::sqrt((double)n)); for (int i = 0; i < n; ++i) { if ((i + 1) % w) edge(i, i + 1); edge(i, i + w); } break; }
  case 3: { int w = std::max(1, (int)std::cbrt((double)n)); for (int i = 0; i < n; ++i) { int x = i % w, y = i / w % w, z = i / w / w; for (int dz = -1; dz <= 1; ++dz) for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { int X = x + dx, Y = y + dy, Z = z + dz; if (X >= 0 && X < w && Y >= 0 && Y < w && Z >= 0) edge(i, (Z * w + Y) * w + X); } } break; }
  case 4: for (int i = 0; i + 1 < n; ++i) edge(i, i + 1); break;
  case 5: { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p); for (int i = 0; i + 1 < n; ++i) edge(p[i], p[i + 1]); break; }
  case 6: { int h = r.chance(50) ? r.below(n) : (r.chance(50) ? 0 : n - 1); for (int i = 0; i < n; ++i) edge(h, i); if (r.chance(50)) for (int i = 0; i < n / 4; ++i) edge(r.below(n), r.below(n)); break; }
  case 7: { int s = 1 + r.below(20); for (int i = 0; i < n; ++i) edge(i, r.below(std::min(n, s)) * std::max(1, n / std::max(1, s)) % n); break; }
  case 8: { for (int i = 1; i < n; ++i) if (!r.chance(15)) edge(i, r.below(i)); break; }
  case 9: { for (int i = 0; i < std::min(n, 5); ++i) edge(r.below(n), r.below(n)); break; }
  case 10: { for (int i = 0; i + 2 < n; i += 2) edge(i, i + 2); for (int i = 0; i + 1 < n; i += 2) edge(i, i + 1); break; }
  case 11: { int i = 0; while (i < n) { int c = 1 + r.below(9); for (int a = i; a < std::min(n, i + c); ++a) for (int b = a + 1; b < std::min(n, i + c); ++b) edge(a, b); i += c; if (r.chance(40) && i < n && i > 0) edge(i - 1, i); } break; }
  case 12: { int bw = 1 + r.below(12); for (int i = 0; i < n; ++i) for (int j = i + 1; j <= std::min(n - 1, i + bw); ++j) if (r.chance(60)) edge(i, j); break; }
  case 13: { int h = n / 2; for (int i = 0; i < n; ++i) { int d = 1 + r.below(3); for (int q = 0; q < d && h > 0 && h < n; ++q) edge(r.below(h), h + r.below(n - h)); } break; }
  case 14: { int w = 1 + r.below(std::min(n, 40)); for (int i = w; i < n; ++i) { int d = 1 + r.below(3); for (int q = 0; q < d; ++q) edge(i, (i / w - 1) * w + r.below(w)); } break; }
  case 16: {  // many rows ready at once, a few of which release most of the rest
    int f = std::min(n, 64 + r.below(150)), hubs = 1 + r.below(3);
    for (int h = 0; h < hubs; ++h) { int a = r.below(f); for (int j = f; j < n; ++j) if (hubs == 1 || r.chance(60)) edge(a, j); }
    for (int i = 0; i < f; ++i) if (n > f && r.chance(50)) edge(i, f + r.below(n - f));
    break; }
  case 15: { for (int i = 0; i + 1 < n; ++i) { edge(i, n - 1); if (r.chance(50)) edge(i, i + 1); } break; }
  }
  if (r.chance(25) && n > 1) {  // relabel
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p);
    std::vector<std::vector<int>> b(n);
    for (int i = 0; i < n; ++i) for (int j : adj[i]) b[p[i]].push_back(p[j]);
    adj.swap(b); kind += "+relabel";
  }
  return adj;
}

// structurally symmetric square matrix with full diagonal, rows sorted or
// "partially sorted" (lower part shuffled, diagonal, upper part shuffled)
inline Mat symMat(Rng &r, const std::vector<std::vector<int>> &adj, bool shuffleParts, bool diag, bool symValues = false) {
  int n = (int)adj.size();
  Mat M(n, n);
  for (int i = 0; i < n; ++i) {
    std::vector<int> lo, up;
    for (int j : adj[i]) (j < i ? lo : up).push_back(j);
    std::sort(lo.begin(), lo.end()); std::sort(up.begin(), up.end());
    if (shuffleParts) { r.shuffle(lo); r.shuffle(up); }
    auto val = [&](int a, int b) { if (symValues) { uint64_t h = mix(std::min(a, b) * 1000003ull + 7, std::max(a, b)); return ((int)(h % 15) - 7 ? (int)(h % 15) - 7 : 3) / 8.0; } return ((r.below(15) - 7) ? 0.25 : -0.5) * (1 + r.below(4)) / 4; };
    for (int j : lo) M.rows[i].push_back(std::make_pair(j, val(i, j)));
    if (diag) M.rows[i].push_back(std::make_pair(i, 4.0 + (double)adj[i].size()));
    for (int j : up) M.rows[i].push_back(std::make_pair(j, val(i, j)));
  }
  return M;
}

inline std::vector<int> randPerm(Rng &r, int n) {
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  int k = r.below(5);
  if (k == 0) { /* identity */ }
  else if (k == 1) std::reverse(p.begin(), p.end());
  else if (k == 2 && n) std::rotate(p.begin(), p.begin() + r.below(n), p.end());
  else r.shuffle(p);
  return p;
}

// guard vector: exact-size malloc block plus explicit canaries for non-ASan builds
template <class T> struct Guarded {
  std::vector<T> buf; size_t n; T canary;
  Guarded(size_t n_, T init, T can) : buf(n_ + 32, can), n(n_), canary(can) { for (size_t i = 0; i < n; ++i) buf[16 + i] = init; }
  T *p() { return buf.data() + 16; }
  bool intact() const { for (int i = 0; i < 16; ++i) if (memcmp(&buf[i], &canary, sizeof(T)) || memcmp(&buf[16 + n + i], &canary, sizeof(T))) return false; return true; }
};

inline double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// short pseudo-random stall, used by user kernels to perturb schedules
inline void stall(Rng &r, int level) {
  if (level <= 0) return;
  int k = r.below(100);
  if (k < 60) return;
  if (k < 85) { int n = r.below(200 * level); for (volatile int i = 0; i < n; ++i) {} return; }
  if (k < 97) { sched_yield(); return; }
  timespec t = {0, (long)r.below(20000 * level) + 1000};
  nanosleep(&t, NULL);
}

} // namespace hv

void run_case(hv::Ctx &c);
// optional deterministic cases executed first, index -1, -2, ...
extern int hv_num_probes __attribute__((weak));
void run_probe(hv::Ctx &c, int k) __attribute__((weak));
