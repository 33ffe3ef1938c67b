// C17 Matrix Market files without loss (mode rt); C18 malformed text (mode fuzz)
#include "common.hpp"
#include "mm_io.h"
#include "Vector.hpp"
#include <dirent.h>
#include <sys/resource.h>
using namespace hv;
using SpMP::CSR; using SpMP::COO;

static int openFds() {
  int k = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1;
  while (readdir(d)) ++k;
  closedir(d); return k;
}
struct FdWatch {
  int before; FdWatch() : before(openFds()) {}
  void check(const char *what) { int a = openFds(); HV_CHECK(a == before, "file-left-open", "%s left a file open (%d descriptors before, %d after)", what, before, a); }
};
static void spit(const std::string &f, const std::string &s) { FILE *p = fopen(f.c_str(), "w"); if (!p || fwrite(s.data(), 1, s.size(), p) != s.size()) { perror("scratch"); _exit(9); } fclose(p); }
static std::string slurp(const std::string &f) { std::string s; FILE *p = fopen(f.c_str(), "r"); if (!p) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }

static double anyFinite(Rng &r) {
  switch (r.below(9)) {
  case 0: return genValue(r);
  case 1: { double v; do { uint64_t b = r.next(); memcpy(&v, &b, 8); } while (!std::isfinite(v)); return v; }
  case 2: return r.unit() * 2 - 1;
  case 3: return DBL_MAX; case 4: return -DBL_MIN; case 5: return 4.9406564584124654e-324 * r.range(1, 1000);
  case 6: return 0.1 * r.range(1, 100); case 7: return (double)r.range(-100000, 100000);
  default: return 1.0 / r.range(1, 1000);
  }
}
// text of a real number; the value it denotes is what strtod says
static std::string realText(Rng &r, double v) {
  static const char *f[] = {"%.17g", "%20.17g", "%.17e", "%g", "%.3f", "%+.17g", "%.0f", "%E"};
  int k = r.below(8); if (std::fabs(v) > 1e30 && (k == 4 || k == 6)) k = 0;
  std::string s = fmt(f[k], v);
  size_t a = s.find_first_not_of(' '); return s.substr(a);
}
enum Field { REAL, INTEGER, PATTERN };
struct FileSpec { int m, n; bool sym; Field field; int base; std::vector<Ent> e; std::string text; };
static std::string sep(Rng &r, bool plain) { static const char *s[] = {" ", "  ", "\t", " \t "}; return plain ? " " : s[r.below(4)]; }
static std::string casing(Rng &r, const std::string &s) { std::string o = s; int k = r.below(4); if (k == 1) for (auto &c : o) c = toupper(c); if (k == 2) o[0] = toupper(o[0]); if (k == 3) for (auto &c : o) if (r.chance(50)) c = toupper(c); return o; }

static FileSpec genFile(Rng &r, int cap, bool wild) {
  FileSpec f; f.sym = r.chance(40); f.field = r.chance(60) ? REAL : r.chance(50) ? INTEGER : PATTERN; f.base = r.chance(20) ? 0 : 1;
  Mat M; std::string kind;
  bool bothTriangles = f.sym && r.chance(15);
  if (f.sym) {
    auto adj = genGraph(r, cap, kind); M = symMat(r, adj, true, false);
    for (int i = 0; i < M.m; ++i) {
      std::vector<std::pair<int, double>> keep; for (auto &p : M.rows[i]) if (bothTriangles || p.first < i) keep.push_back(p);
      if (r.chance(60)) keep.push_back(std::make_pair(i, 1.0)); M.rows[i] = keep;
    }
    if (r.chance(20)) { std::vector<Ent> e; Mat U(M.m, M.m); for (int i = 0; i < M.m; ++i) for (auto &p : M.rows[i]) U.rows[p.first].push_back(std::make_pair(i, p.second)); M = U; }  // upper triangle
  } else { GenOpt o; o.cap = cap; o.dup = r.chance(20); M = genGeneral(r, o); }
  f.m = M.m; f.n = M.n;
  std::vector<Ent> e = M.entries(false); if (r.chance(60)) r.shuffle(e);
  bool zeroSeen = false; for (auto &x : e) if (x.r == 0 || x.c == 0) zeroSeen = true;
  if (!zeroSeen) f.base = 1;  // a 0-based file is only recognisable by an index 0
  static const char *fn[] = {"real", "integer", "pattern"};
  std::string t = "%%MatrixMarket"; t += sep(r, !wild) + (wild ? casing(r, "matrix") : "matrix") + sep(r, !wild) + (wild ? casing(r, "coordinate") : "coordinate") + sep(r, !wild) + (wild ? casing(r, fn[f.field]) : fn[f.field]) + sep(r, !wild) + (wild ? casing(r, f.sym ? "symmetric" : "general") : f.sym ? "symmetric" : "general");
  std::string nl = wild && r.chance(15) ? "\r\n" : "\n";
  t += nl;
  if (wild) for (int k = r.below(4); k > 0; --k) t += "%" + (r.chance(50) ? std::string(" comment 3 4 5") : std::string(r.below(900), 'x')) + nl;
  if (wild && r.chance(15)) for (int k = r.below(3); k > 0; --k) t += nl;
  t += fmt("%d", f.m) + sep(r, !wild) + fmt("%d", f.n) + sep(r, !wild) + fmt("%zu", e.size()) + nl;
  for (size_t k = 0; k < e.size(); ++k) {
    if (wild && r.chance(2)) t += "  ";
    t += fmt("%d", e[k].r + f.base) + sep(r, !wild) + fmt("%d", e[k].c + f.base);
    if (f.field == REAL) { std::string s = realText(r, anyFinite(r)); e[k].v = strtod(s.c_str(), 0); t += sep(r, !wild) + s; }
    else if (f.field == INTEGER) { long long v = r.chance(90) ? r.range(-1000, 1000) : (long long)(r.next() >> r.range(12, 60)); e[k].v = (double)v; t += sep(r, !wild) + fmt("%lld", v); }
    else e[k].v = 1;
    if (k + 1 < e.size() || !wild || r.chance(80)) t += nl;
    if (wild && r.chance(1)) t += nl;
  }
  f.e = e; f.text = t; return f;
}

// the entries the file denotes under the load options
static Mat denoted(const FileSpec &f, bool force, bool transpose, int pad, int &pm, int &pn) {
  std::vector<Ent> e = f.e; int m = f.m, n = f.n;
  if (transpose) { std::swap(m, n); for (auto &x : e) std::swap(x.r, x.c); }
  if (f.sym || force) {
    std::set<std::pair<int, int>> have; for (auto &x : e) have.insert(std::make_pair(x.r, x.c));
    size_t k = e.size(); for (size_t i = 0; i < k; ++i) if (e[i].r != e[i].c && !have.count(std::make_pair(e[i].c, e[i].r))) { Ent y = {e[i].c, e[i].r, e[i].v}; e.push_back(y); }
  }
  pm = (m + pad - 1) / pad * pad; pn = (n + pad - 1) / pad * pad;
  for (int i = std::min(m, n); i < std::min(pm, pn); ++i) { Ent y = {i, i, 1.0}; e.push_back(y); }
  Mat M(pm, pn); for (auto &x : e) M.rows[x.r].push_back(std::make_pair(x.c, x.v));
  return M;
}
static Mat cooMat(const COO &A, const char *what, bool strict = true) {
  HV_CHECK(A.m >= 0 && A.n >= 0 && A.nnz >= 0, "shape", "%s: shape %dx%d, %d entries", what, A.m, A.n, A.nnz);
  Mat M; M.m = A.m; M.n = A.n; if (strict) M.rows.resize(A.m);
  std::vector<Ent> e;
  for (int k = 0; k < A.nnz; ++k) {
    HV_CHECK(A.rowidx[k] >= 1 && A.rowidx[k] <= A.m && A.colidx[k] >= 1 && A.colidx[k] <= A.n, "index-range", "%s: entry %d is (%d,%d) in a %dx%d matrix", what, k, A.rowidx[k], A.colidx[k], A.m, A.n);
    volatile double v = A.values[k]; (void)v; written(A.values + k, 1);
    if (strict) M.rows[A.rowidx[k] - 1].push_back(std::make_pair(A.colidx[k] - 1, A.values[k]));
  }
  return M;
}
static void checkCsr(const CSR *A, int base, const Mat &want, const char *what) {
  Mat g = readCSR(A, what, base, want.m, want.n);
  compareEntries(want, g, "csr-entries", what);
  for (int i = 0; i < g.m; ++i) for (size_t q = 0; q < g.rows[i].size(); ++q) {
    HV_CHECK(!q || g.rows[i][q - 1].first <= g.rows[i][q].first, "csr-order", "%s: row %d not sorted", what, i);
    if (g.rows[i][q].first == i && A->diagptr) {
      int dp = A->diagptr[i];
      HV_CHECK(dp >= A->rowptr[i] && dp < A->rowptr[i + 1] && A->colidx[dp - base] - base == i, "csr-diag", "%s: diagptr[%d]=%d", what, i, dp);
      if (A->diag) { double v = A->values[dp - base], iv = 1 / v; HV_CHECK(!memcmp(&v, &A->diag[i], 8) && (!A->idiag || !memcmp(&iv, &A->idiag[i], 8)), "csr-diag", "%s: row %d diagonal data", what, i); }
    }
  }
}

static void readCase(Ctx &c) {
  Rng &r = c.rng; FileSpec f = genFile(r, 400, true);
  int pad = r.chance(60) ? 1 : r.range(2, 9), base = r.below(2), t = c.threads();
  bool force = r.chance(25) && f.m == f.n, tr = r.chance(25); if (tr) force = false;
  c.describe(fmt("read sym=%d field=%d file-base=%d pad=%d force=%d transpose=%d base=%d threads=%d %dx%d entries=%zu text:", f.sym, f.field, f.base, pad, force, tr, base, t, f.m, f.n, f.e.size()) + f.text.substr(0, 400));
  std::string fn = c.scratch + "/a.mtx"; spit(fn, f.text);
  int pm, pn; Mat want = denoted(f, force, tr, pad, pm, pn);
  FdWatch w;
  COO A; 
  if (r.chance(20)) {  // a COO that already holds something else
    FileSpec g = genFile(r, 40, false); spit(c.scratch + "/b.mtx", g.text);
    HV_CHECK(SpMP::loadMatrixMarket((c.scratch + "/b.mtx").c_str(), A, false, 1), "load-failed", "first load of a reused COO failed");
    c.add(g.sym ? "reused(sym)" : "reused(gen)");
  }
  bool ok = tr ? SpMP::loadMatrixMarketTransposed(fn.c_str(), A, pad) : SpMP::loadMatrixMarket(fn.c_str(), A, force, pad);
  HV_CHECK(ok, "load-failed", "well-formed file was refused");
  HV_CHECK(A.m == pm && A.n == pn && A.nnz == want.nnz(), "shape", "shape %dx%d with %d entries, expected %dx%d with %ld", A.m, A.n, A.nnz, pm, pn, want.nnz());
  Mat got = cooMat(A, "loaded matrix");
  compareEntries(want, got, "entries", "loaded matrix");
  HV_CHECK(A.isSymmetric == (f.sym || force), "symmetric-flag", "isSymmetric=%d", A.isSymmetric);
  w.check("loadMatrixMarket");
  if (!tr) {
    CSR *C = new CSR(fn.c_str(), base, force, pad);
    try { checkCsr(C, base, want, "CSR(file)"); } catch (...) { delete C; throw; }
    delete C; w.check("CSR(file)");
  }
  if (f.field == REAL && f.base == 1 && r.chance(30)) {  // the plain readers
    int M, N, nz, *I, *J; double *v; MM_typecode mc;
    if (mm_read_mtx_crd((char *)fn.c_str(), &M, &N, &nz, &I, &J, &v, &mc) != 0) fail("mm-read", "mm_read_mtx_crd refused a well-formed file");
    HV_CHECK(M == f.m && N == f.n && nz == (int)f.e.size(), "mm-read", "mm_read_mtx_crd: %dx%d %d", M, N, nz);
    for (int k = 0; k < nz; ++k) HV_CHECK(I[k] == f.e[k].r + 1 && J[k] == f.e[k].c + 1 && !memcmp(&v[k], &f.e[k].v, 8), "mm-read", "mm_read_mtx_crd entry %d", k);
    free(I); free(J); free(v);
    HV_CHECK(mm_read_unsymmetric_sparse(fn.c_str(), &M, &N, &nz, &v, &I, &J) == 0 && M == f.m && N == f.n && nz == (int)f.e.size(), "mm-read", "mm_read_unsymmetric_sparse");
    for (int k = 0; k < nz; ++k) HV_CHECK(I[k] == f.e[k].r && J[k] == f.e[k].c && !memcmp(&v[k], &f.e[k].v, 8), "mm-read", "mm_read_unsymmetric_sparse entry %d", k);
    free(I); free(J); free(v); w.check("mm_read"); c.count("low-level reads");
  }
  c.count(f.sym ? "symmetric files read" : "general files read"); c.count("entries compared", want.nnz());
  if (f.base == 0) c.count("0-based files"); if (pad > 1) c.count("padded loads"); if (force) c.count("forced symmetric"); if (tr) c.count("transposed loads");
  if (f.e.size()) c.sig(mix(want.hash(), f.field * 100 + pad * 8 + force * 4 + tr * 2 + f.base));
}
static void writeCase(Ctx &c) {
  Rng &r = c.rng; GenOpt o; o.cap = 500; o.dup = r.chance(15); Mat M = genGeneral(r, o);
  for (auto &row : M.rows) for (auto &p : row) p.second = anyFinite(r);
  int base = r.below(2), t = c.threads(), how = r.below(4); bool vals = r.chance(85);
  c.describe(fmt("write how=%d base=%d values=%d threads=%d ", how, base, vals, t) + showMat(M, 40));
  std::string fn = c.scratch + "/w.mtx"; FdWatch w;
  if (how == 0 || how == 1) {
    HCSR h; build(h, M, base, vals); Snapshot s(h.A);
    h.A->storeMatrixMarket(fn.c_str()); s.check(h.A, "input-changed", "storeMatrixMarket");
  } else {
    COO A; std::vector<Ent> e = M.entries(false); if (r.chance(50)) r.shuffle(e);
    A.m = M.m; A.n = M.n; A.nnz = (int)e.size(); A.rowidx = MALLOC(int, e.size()); A.colidx = MALLOC(int, e.size()); A.values = vals ? MALLOC(double, e.size()) : NULL;
    for (size_t k = 0; k < e.size(); ++k) { A.rowidx[k] = e[k].r + 1; A.colidx[k] = e[k].c + 1; if (vals) A.values[k] = e[k].v; }
    if (how == 2) A.storeMatrixMarket(fn.c_str());
    else {
      MM_typecode mc; mm_initialize_typecode(&mc); mm_set_matrix(&mc); mm_set_sparse(&mc); if (vals) mm_set_real(&mc); else mm_set_pattern(&mc); mm_set_general(&mc);
      FILE *p = fopen(fn.c_str(), "w");
      HV_CHECK(mm_write_banner(p, mc) == 0, "write-status", "mm_write_banner reports failure after writing");
      HV_CHECK(mm_write_mtx_crd_size(p, A.m, A.n, A.nnz) == 0, "write-status", "mm_write_mtx_crd_size reports failure after writing");
      fclose(p);
      std::string head = slurp(fn);
      HV_CHECK(mm_write_mtx_crd((char *)fn.c_str(), A.m, A.n, A.nnz, A.rowidx, A.colidx, A.values, mc) == 0, "write-status", "mm_write_mtx_crd failed");
      HV_CHECK(slurp(fn).substr(0, head.size()) == head, "write-header", "header by parts differs from header of the whole: %s", head.c_str());
    }
  }
  w.check("store");
  if (!vals) for (auto &row : M.rows) for (auto &p : row) p.second = 1.0;
  COO B; HV_CHECK(SpMP::loadMatrixMarket(fn.c_str(), B), "load-failed", "file just written was refused: %s", slurp(fn).substr(0, 300).c_str());
  // a matrix with entries is 1-based in the file; index 0 never occurs
  HV_CHECK(B.m == M.m && B.n == M.n && B.nnz == M.nnz(), "roundtrip-shape", "%dx%d/%d became %dx%d/%d", M.m, M.n, (int)M.nnz(), B.m, B.n, B.nnz);
  compareEntries(M, cooMat(B, "reloaded matrix"), "roundtrip", "reloaded matrix");
  int b2 = r.below(2); CSR *C = new CSR(fn.c_str(), b2);
  try { checkCsr(C, b2, M, "CSR(file)"); } catch (...) { delete C; throw; }
  delete C;
  c.count("matrices written and reloaded"); c.count("entries compared", M.nnz()); if (!vals) c.count("pattern-only matrices written");
  if (M.nnz()) c.sig(mix(M.hash(), how * 2 + vals));
}
static void vectorCase(Ctx &c) {
  Rng &r = c.rng; int m = r.chance(10) ? 0 : r.range(1, 300), n = r.chance(60) ? 1 : r.chance(10) ? 0 : r.range(2, 8);
  c.describe(fmt("vector file %dx%d", m, n));
  bool integer = r.chance(20); std::vector<double> v; std::string t = std::string("%%MatrixMarket matrix ") + (r.chance(30) ? casing(r, "array") : "array") + (integer ? " integer general\n" : " real general\n");
  for (int k = r.below(3); k > 0; --k) t += "% note\n";
  t += fmt("%d %d\n", m, n);
  for (int k = 0; k < m * n; ++k) { std::string s = integer ? fmt("%d", r.range(-999, 999)) : realText(r, anyFinite(r)); v.push_back(strtod(s.c_str(), 0)); t += s + (n > 1 && r.chance(50) ? " " : "\n"); }
  std::string fn = c.scratch + "/v.mtx"; spit(fn, t); FdWatch w;
  double *x = NULL; int M = -1, N = -1;
  HV_CHECK(SpMP::loadVectorMatrixMarket(fn.c_str(), &x, &M, &N), "vector-load", "well-formed vector refused");
  HV_CHECK(M == m && N == n, "vector-shape", "%dx%d expected %dx%d", M, N, m, n);
  for (int k = 0; k < m * n; ++k) HV_CHECK(!memcmp(&x[k], &v[k], 8), "vector-values", "element %d is %.17g expected %.17g", k, x[k], v[k]);
  FREE(x); w.check("loadVectorMatrixMarket"); c.count("vectors read");
  uint64_t h = mix(m, n); for (double d : v) { uint64_t b; memcpy(&b, &d, 8); h = mix(h, b); } if (m * n) c.sig(h);
}

// The low-level Matrix Market routines by themselves: type codes, array headers, complex and pattern coordinate files.
static void lowLevel(Ctx &c) {
  Rng &r = c.rng; FdWatch w;
  static const char storage[] = "CA", field[] = "RCPI", symmetry[] = "GSHK";
  static const char *storageName[] = {"coordinate", "array"}, *fieldName[] = {"real", "complex", "pattern", "integer"}, *symmetryName[] = {"general", "symmetric", "hermitian", "skew-symmetric"};
  int a = r.below(2), b = r.below(4), d = r.below(4);
  MM_typecode mc; mm_initialize_typecode(&mc); mc[0] = 'M'; mc[1] = storage[a]; mc[2] = field[b]; mc[3] = symmetry[d];
  int nz = r.below(60), M = r.range(0, 50), N = r.range(0, 50); std::string name = fmt("matrix %s %s %s", storageName[a], fieldName[b], symmetryName[d]);
  c.describe(fmt("low level type=%s %dx%d entries=%d", name.c_str(), M, N, nz));
  char *str = mm_typecode_to_str(mc); std::string got = str ? str : "(null)"; free(str);
  HV_CHECK(got == name, "typecode-name", "type code %.4s is called \"%s\"", mc, got.c_str());
  bool valid = !(a == 1 && b == 2) && !(b == 0 && d == 2) && !(b == 2 && d >= 2);
  HV_CHECK((mm_is_valid(mc) != 0) == valid, "typecode-valid", "%s: valid=%d, expected %d", name.c_str(), mm_is_valid(mc), valid);
  std::string fn = c.scratch + "/l.mtx";
  { FILE *p = fopen(fn.c_str(), "w"); HV_CHECK(p && mm_write_banner(p, mc) == 0, "write-status", "mm_write_banner"); fclose(p); p = fopen(fn.c_str(), "r"); MM_typecode back; int rc = mm_read_banner(p, &back); fclose(p); HV_CHECK(rc == 0 && !memcmp(back, mc, 4), "banner-roundtrip", "banner of %s read back with status %d as %.4s", name.c_str(), rc, back); }
  std::vector<int> I(nz + 1), J(nz + 1); std::vector<double> v(2 * nz + 2);
  for (int k = 0; k < nz; ++k) { I[k] = r.range(1, 50); J[k] = r.range(1, 50); v[2 * k] = anyFinite(r); v[2 * k + 1] = anyFinite(r); }
  if (a == 1 && b != 2) {  // array header by parts, values by hand, read as a vector
    FILE *p = fopen(fn.c_str(), "w"); mm_write_banner(p, mc); HV_CHECK(mm_write_mtx_array_size(p, M, N) == 0, "write-status", "mm_write_mtx_array_size reports failure after writing");
    int per = b == 1 ? 2 : 1; std::vector<double> x; for (int k = 0; k < M * N * per; ++k) { x.push_back(b == 3 ? (double)r.range(-99, 99) : anyFinite(r)); fprintf(p, "%.17g\n", x.back()); } fclose(p);
    if (valid && d == 0 && b != 1) { double *y = NULL; int m2, n2; HV_CHECK(SpMP::loadVectorMatrixMarket(fn.c_str(), &y, &m2, &n2) && m2 == M && n2 == N, "vector-load", "array written by parts was refused or changed shape"); for (int k = 0; k < M * N; ++k) HV_CHECK(!memcmp(&y[k], &x[k], 8), "vector-values", "element %d is %.17g expected %.17g", k, y[k], x[k]); FREE(y); }
  } else if (a == 0 && b == 3) {
    HV_CHECK(mm_write_mtx_crd((char *)fn.c_str(), 50, 50, nz, I.data(), J.data(), v.data(), mc) == MM_UNSUPPORTED_TYPE, "write-status", "mm_write_mtx_crd accepted an integer type code");
  } else if (a == 0) {
    bool toStdout = r.chance(20); int rc;
    auto write = [&](const char *f) { rc = mm_write_mtx_crd((char *)f, 50, 50, nz, I.data(), J.data(), v.data(), mc); };
    if (toStdout) { std::string t = captureStdout(c.scratch + "/so", [&]() { write("stdout"); }); spit(fn, t); } else write(fn.c_str());
    HV_CHECK(rc == 0, "write-status", "mm_write_mtx_crd failed with %d", rc);
    int m2, n2, nz2, *I2 = NULL, *J2 = NULL; double *v2 = NULL; MM_typecode back;
    rc = mm_read_mtx_crd((char *)fn.c_str(), &m2, &n2, &nz2, &I2, &J2, &v2, &back);
    bool ok = rc == 0 && m2 == 50 && n2 == 50 && nz2 == nz && !memcmp(back, mc, 4);
    if (valid) HV_CHECK(ok, "crd-roundtrip", "%s read back with status %d as %.4s %dx%d/%d", name.c_str(), rc, back, m2, n2, nz2);
    if (ok) for (int k = 0; k < nz; ++k) HV_CHECK(I2[k] == I[k] && J2[k] == J[k] && (b == 2 || (b == 1 ? !memcmp(&v2[2 * k], &v[2 * k], 16) : !memcmp(&v2[k], &v[k], 8))), "crd-roundtrip", "%s: entry %d changed", name.c_str(), k);
    if (rc == 0) { free(I2); free(J2); free(v2); }
    if (rc == 0 && nz) {  // the same entries one by one
      FILE *p = fopen(fn.c_str(), "r"); MM_typecode t; HV_CHECK(mm_read_banner(p, &t) == 0 && mm_read_mtx_crd_size(p, &m2, &n2, &nz2) == 0 && nz2 == nz, "crd-entry", "header refused on the second reading");
      for (int k = 0; k < nz; ++k) { int i = 0, j = 0; double re = 0, im = 0; HV_CHECK(mm_read_mtx_crd_entry(p, &i, &j, &re, &im, t) == 0 && i == I[k] && j == J[k], "crd-entry", "entry %d", k); if (b == 1) HV_CHECK(!memcmp(&re, &v[2 * k], 8) && !memcmp(&im, &v[2 * k + 1], 8), "crd-entry", "entry %d: value", k); if (b == 0) HV_CHECK(!memcmp(&re, &v[k], 8), "crd-entry", "entry %d: value", k); }
      int i, j; double re, im; HV_CHECK(mm_read_mtx_crd_entry(p, &i, &j, &re, &im, t) == MM_PREMATURE_EOF, "crd-entry", "an entry after the last one"); fclose(p);
    }
    if (toStdout) c.count("matrices written to standard output");
  }
  w.check("low-level routines"); c.count("low-level round trips"); c.count(std::string("low-level ") + storageName[a] + " " + fieldName[b]);
}

// ------------------------------------------------------------------- fuzzing
static std::string genVectorText(Rng &r) {
  int m = r.range(0, 20), n = r.range(1, 4); std::string t = "%%MatrixMarket matrix array real general\n" + fmt("%d %d\n", m, n);
  for (int k = 0; k < m * n; ++k) t += realText(r, anyFinite(r)) + "\n";
  return t;
}
static std::string hostileToken(Rng &r) {
  static const char *d[] = {"-1", "0", "1", "2147483647", "2147483648", "-2147483648", "4294967297", "99999999999999999999", "1e400", "nan", "inf", "-", "+", ".", "0x10", "%", "%%MatrixMarket", "symmetric", "skew-symmetric", "hermitian", "pattern", "complex", "integer", "real", "array", "coordinate", "general", "abc", "\xff\xfe", "1 1", "3.5", "1073741824", "536870912", "65536"};
  int k = r.below(38);
  if (k < 34) return d[k];
  if (k == 34) return std::string(r.range(60, 70), 'a');
  if (k == 35) return std::string(r.range(100, 1020), 'b');
  if (k == 36) return std::string(r.range(1020, 4000), r.chance(50) ? '7' : 'c');
  return std::string("\0\0", 2);
}
static std::string mutate(Rng &r, std::string t) {
  for (int k = 1 + r.below(4); k > 0; --k) {
    size_t n = t.size();
    // token boundaries
    std::vector<std::pair<size_t, size_t>> tok;
    for (size_t i = 0; i < n;) { while (i < n && isspace((unsigned char)t[i])) ++i; size_t b = i; while (i < n && !isspace((unsigned char)t[i])) ++i; if (i > b) tok.push_back(std::make_pair(b, i)); }
    auto pickTok = [&]() { size_t lim = r.chance(50) ? std::min<size_t>(tok.size(), 9) : tok.size(); return tok[r.below((int)lim)]; };
    int op = r.below(13);
    if (n == 0) { t = hostileToken(r); continue; }
    switch (op) {
    case 0: t[r.below((int)n)] = (char)r.below(256); break;
    case 1: t = t.substr(0, r.below((int)n)); break;
    case 2: { size_t a = r.below((int)n), l = 1 + r.below(20); t.erase(a, l); break; }
    case 3: { size_t a = r.below((int)n), l = 1 + r.below(40); t.insert(a, t.substr(a, l)); break; }
    case 4: case 5: case 6: if (!tok.empty()) { auto p = pickTok(); t.replace(p.first, p.second - p.first, hostileToken(r)); } break;
    case 7: if (!tok.empty()) { auto p = pickTok(); long v = atol(t.substr(p.first, p.second - p.first).c_str()); t.replace(p.first, p.second - p.first, fmt("%ld", v + (r.chance(50) ? 1 : -1) * r.range(1, 3))); } break;
    case 8: if (!tok.empty()) { auto p = pickTok(); t.insert(p.first, hostileToken(r) + " "); } break;
    case 9: { size_t a = t.rfind('\n', n - 2); if (a != std::string::npos) t += t.substr(a + 1); else t += "1 1 1\n"; break; }   // surplus entry
    case 10: for (int q = r.range(1, 60); q > 0; --q) t += "1 1 1\n"; break;
    case 11: { size_t a = t.find('\n'); if (a != std::string::npos) t.insert(a + 1, r.chance(50) ? "\n" : "%" + std::string(r.range(1000, 1100), 'z') + "\n"); break; }
    case 12: { size_t a = t.find('\n'); if (a != std::string::npos) { size_t p = t.find_first_not_of("%\n", a); (void)p; std::string head = t.substr(0, a); static const char *hs[] = {"%%MatrixMarket matrix coordinate complex general", "%%MatrixMarket matrix coordinate real symmetric", "%%MatrixMarket matrix coordinate pattern symmetric", "%%MatrixMarket matrix coordinate real skew-symmetric", "%%MatrixMarket matrix coordinate complex hermitian", "%%MatrixMarket matrix coordinate integer symmetric", "%%MatrixMarket matrix array real general", "%%MatrixMarket matrix array complex general"}; t = hs[r.below(8)] + t.substr(a); } break; }
    }
  }
  return t;
}
// small files with one damage that no reading can repair: the matrix they promise is not there
static void damaged(Ctx &c) {
  Rng &r = c.rng;
  bool sym = r.chance(30); int field = r.below(3); int m = r.range(1, 6), n = sym ? m : r.range(1, 6), nnz = r.chance(40) ? 1 : r.range(1, 5);
  static const char *fn[] = {"real", "integer", "pattern"}, *dn[] = {"last entry cut short", "not a number", "index out of range", "an entry less than promised", "an entry more than promised", "no number in the size line"};
  std::vector<std::vector<std::string>> e;
  for (int k = 0; k < nnz; ++k) { int i = r.range(1, m), j = sym ? r.range(1, i) : r.range(1, n); std::vector<std::string> l; l.push_back(fmt("%d", i)); l.push_back(fmt("%d", j)); if (field == 0) l.push_back(realText(r, anyFinite(r))); if (field == 1) l.push_back(fmt("%d", r.range(-50, 50))); e.push_back(l); }
  std::string size = fmt("%d %d %d", m, n, nnz);
  int d = r.below(6), w = r.below((int)e[0].size()), k = r.below(nnz);
  if (d == 0) { int keep = r.range(1, (int)e[0].size() - 1); e[nnz - 1].resize(keep); }
  if (d == 1) { static const char *bad[] = {"abc", "-", "x1", "%", "*", "&1"}; e[k][w] = bad[r.below(6)]; }
  if (d == 2) { bool row = r.chance(50); int lim = row ? m : n; e[k][row ? 0 : 1] = r.chance(30) ? fmt("%d", -r.range(1, 100)) : fmt("%d", lim + r.range(1, r.chance(50) ? 2 : 100000)); }
  if (d == 3) { e.pop_back(); }
  if (d == 4) { e.insert(e.begin() + r.below(nnz + 1), e[k]); }
  if (d == 5) { static const char *bad[] = {"abc", "-", "x1"}; int p = r.below(3); size = p == 0 ? fmt("%s %d %d", bad[r.below(3)], n, nnz) : p == 1 ? fmt("%d %s %d", m, bad[r.below(3)], nnz) : fmt("%d %d %s", m, n, bad[r.below(3)]); }
  std::string t = std::string("%%MatrixMarket matrix coordinate ") + fn[field] + (sym ? " symmetric\n" : " general\n") + size + "\n";
  for (auto &l : e) { for (size_t q = 0; q < l.size(); ++q) t += (q ? " " : "") + l[q]; t += "\n"; }
  if (r.chance(30)) t.resize(t.size() - 1);
  int pad = r.chance(70) ? 1 : r.range(2, 8), base = r.below(2), th = c.threads(); bool force = r.chance(20);
  std::string show; for (char ch : t) { if (ch == '\n') show += "\\n"; else show += ch; }
  c.describe(fmt("damaged (%s) pad=%d force=%d base=%d threads=%d text:", dn[d], pad, force, base, th) + show);
  std::string fx = c.scratch + "/d.mtx"; spit(fx, t); FdWatch fw;
  auto judge = [&](bool accepted, const COO *A, const char *who) {
    if (!accepted) return;
    if (A) cooMat(*A, who, false);  // reads all it was given: values that came from nowhere are reported here too
    hv::fail("accepted", hv::fmt("%s took a damaged file (%s) for a matrix", who, dn[d]));
  };
  { COO A; bool ok = SpMP::loadMatrixMarket(fx.c_str(), A, force, pad); judge(ok, &A, "loadMatrixMarket"); }
  fw.check("failed loadMatrixMarket");
  { COO A; bool ok = SpMP::loadMatrixMarketTransposed(fx.c_str(), A, pad); judge(ok, &A, "loadMatrixMarketTransposed"); }
  fw.check("failed loadMatrixMarketTransposed");
  { CSR C(fx.c_str(), base, force, pad); HV_CHECK(!C.rowptr || C.getNnz() == 0, "accepted", "CSR(file) made %d entries of a damaged file (%s)", C.getNnz(), dn[d]); }
  fw.check("failed CSR(file)");
  if (field == 0 && !sym && d != 4) {
    int M, N, nz, *I = NULL, *J = NULL; double *v = NULL;
    if (mm_read_unsymmetric_sparse(fx.c_str(), &M, &N, &nz, &v, &I, &J) == 0) { written(v, nz); free(I); free(J); free(v); hv::fail("accepted", hv::fmt("mm_read_unsymmetric_sparse took a damaged file (%s)", dn[d])); }
    fw.check("mm_read_unsymmetric_sparse");
  }
  c.count(std::string("files rejected: ") + dn[d]);
  uint64_t h = 1; for (unsigned char ch : t) h = h * 1099511628211ull + ch; c.sig(mix(h, pad * 2 + force));
}
static void damagedVector(Ctx &c) {
  Rng &r = c.rng; int m = r.range(1, 6), n = r.range(1, 3), d = r.below(3);
  static const char *dn[] = {"an element less than promised", "not a number", "no number in the size line"}, *bad[] = {"abc", "-", "x1", "%", "*"};
  std::vector<std::string> e; for (int k = 0; k < m * n; ++k) e.push_back(realText(r, anyFinite(r)));
  std::string size = fmt("%d %d", m, n);
  if (d == 0) e.resize(r.below((int)e.size()));
  if (d == 1) e[r.below((int)e.size())] = bad[r.below(5)];
  if (d == 2) size = r.chance(50) ? fmt("%s %d", bad[r.below(3)], n) : fmt("%d %s", m, bad[r.below(3)]);
  std::string t = "%%MatrixMarket matrix array real general\n" + size + "\n"; for (auto &x : e) t += x + "\n";
  std::string show; for (char ch : t) { if (ch == '\n') show += "\\n"; else show += ch; }
  c.describe(fmt("damaged vectors (%s) text:", dn[d]) + show);
  std::string fx = c.scratch + "/d.mtx"; spit(fx, t); FdWatch fw;
  double *v = NULL; int gm = 0, gn = 0;
  if (SpMP::loadVectorMatrixMarket(fx.c_str(), &v, &gm, &gn)) { written(v, (size_t)gm * gn); FREE(v); hv::fail("accepted", hv::fmt("loadVectorMatrixMarket took a damaged file (%s) for %dx%d numbers", dn[d], gm, gn)); }
  fw.check("failed loadVectorMatrixMarket");
  c.count(std::string("vector files rejected: ") + dn[d]);
  uint64_t h = 1; for (unsigned char ch : t) h = h * 1099511628211ull + ch; c.sig(h);
}
static void fuzz(Ctx &c) {
  Rng &r = c.rng;
#if !defined(__SANITIZE_ADDRESS__)
  static bool lim = false; if (!lim) { lim = true; rlimit l = {3ull << 30, 3ull << 30}; setrlimit(RLIMIT_AS, &l); }
#endif
  bool vec = r.chance(20);
  FileSpec f; std::string t;
  if (vec) t = genVectorText(r); else { f = genFile(r, 40, r.chance(30)); t = f.text; }
  if (t.size() > 20000) t = t.substr(0, 20000);
  if (r.chance(2)) { t.clear(); for (int k = r.below(300); k > 0; --k) t += (char)r.below(256); } else t = mutate(r, t);
  int pad = r.chance(75) ? 1 : r.range(2, 8), base = r.below(2), th = c.threads();
  bool force = r.chance(30);
  std::string show; for (unsigned char ch : t.substr(0, 500)) { if (ch == '\n') show += "\\n"; else if (ch < 32 || ch > 126) show += fmt("\\x%02x", ch); else show += ch; }
  c.describe(fmt("fuzz pad=%d force=%d base=%d threads=%d size=%zu text:", pad, force, base, th, t.size()) + show);
  std::string fn = c.scratch + "/f.mtx"; spit(fn, t); FdWatch w;
  int accepted = 0;
  { COO A; if (SpMP::loadMatrixMarket(fn.c_str(), A, force, pad)) { ++accepted; cooMat(A, "loadMatrixMarket", false);
      w.check("loadMatrixMarket");
      if (A.m <= 1000000) { CSR *C = new CSR(fn.c_str(), base, force, pad); int want = A.nnz; HV_CHECK(C->m == A.m && C->n == A.n && C->getNnz() == want, "csr-shape", "CSR(file) %dx%d/%d, COO %dx%d/%d", C->m, C->n, C->getNnz(), A.m, A.n, A.nnz); readCSR(C, "CSR(file)", base, A.m, A.n); delete C; }
    } else {
      w.check("failed loadMatrixMarket");
      // the constructor has no error return: it must leave an empty or in-range matrix
      CSR *C = new CSR(fn.c_str(), base, force, pad); HV_CHECK(C->m >= 0 && C->n >= 0, "csr-shape", "CSR(rejected file) has shape %dx%d", C->m, C->n); if (C->rowptr) readCSR(C, "CSR(rejected file)", base, C->m, C->n); delete C; } }
  { COO A; if (SpMP::loadMatrixMarketTransposed(fn.c_str(), A, pad)) { ++accepted; cooMat(A, "loadMatrixMarketTransposed", false); } }
  w.check("loader");
  { double *v = NULL; int m = 0, n = 0; if (SpMP::loadVectorMatrixMarket(fn.c_str(), &v, &m, &n)) { ++accepted; HV_CHECK(m >= 0 && n >= 0, "vector-shape", "%dx%d", m, n); double s = 0; written(v, (size_t)m * n); for (long k = 0; k < (long)m * n; ++k) s += v[k]; volatile double z = s; (void)z; FREE(v); } }
  w.check("vector loader");
  { int M, N, nz, *I = NULL, *J = NULL; double *v = NULL; MM_typecode mc;
    if (mm_read_mtx_crd((char *)fn.c_str(), &M, &N, &nz, &I, &J, &v, &mc) == 0) { ++accepted; long s = 0; for (int k = 0; k < nz; ++k) { s += I[k] + (long)J[k]; } volatile long z = s; (void)z; free(I); free(J); free(v); } }
  w.check("mm_read_mtx_crd");
  { int M, N, nz, *I = NULL, *J = NULL; double *v = NULL;
    if (mm_read_unsymmetric_sparse(fn.c_str(), &M, &N, &nz, &v, &I, &J) == 0) { ++accepted; for (int k = 0; k < nz; ++k) HV_CHECK(I[k] >= 0 && I[k] < M && J[k] >= 0 && J[k] < N, "index-range", "mm_read_unsymmetric_sparse entry %d is (%d,%d) in %dx%d", k, I[k], J[k], M, N); free(I); free(J); free(v); } }
  w.check("mm_read_unsymmetric_sparse");
  c.count("files presented"); c.count(accepted ? "files accepted by some reader" : "files rejected by all readers"); c.count("bytes presented", t.size());
  uint64_t h = 1; for (unsigned char ch : t) h = h * 1099511628211ull + ch; c.sig(mix(h, pad * 2 + force));
}
void run_case(Ctx &c) {
  if (c.mode == "fuzz") { if (c.rng.chance(25)) damaged(c); else if (c.rng.chance(5)) damagedVector(c); else fuzz(c); return; }
  int k = c.rng.below(11);
  if (k < 5) readCase(c); else if (k < 9) writeCase(c); else if (k < 10) vectorCase(c); else lowLevel(c);
}
