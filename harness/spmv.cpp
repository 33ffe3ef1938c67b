// C13 / C14: products against a long double reference, all scalar cases, all
// layouts, with canaries around and between written elements.
#include "common.hpp"
using namespace hv;
using SpMP::CSR;

static double scalar(Rng &r, bool exact) {
  int k = r.below(10);
  if (k < 3) return 1; if (k < 5) return 0; if (k < 7) return -1;
  return exact ? (double)r.range(-3, 3) / 2 : (r.unit() - 0.5) * 6;
}
static const double CAN = 1.2345678e77;

static void cmp(double got, long double want, long double mag, int terms, bool exact, const char *what, long i, long j) {
  if (exact) HV_CHECK((long double)got == want, "value", "%s: element (%ld,%ld) is %.17g, expected %.17g", what, i, j, got, (double)want);
  else {
    long double tol = (terms + 8) * 2.3e-16L * mag * 2 + 1e-300L;
    HV_CHECK(fabsl((long double)got - want) <= tol, "value", "%s: element (%ld,%ld) is %.17g, expected %.17g (tolerance %.3g)", what, i, j, got, (double)want, (double)tol);
  }
}

void spmv(Ctx &c, Mat &M, HCSR &h, bool vals, bool exact, int t) {
  Rng &r = c.rng; int m = M.m, n = M.n;
  auto rv = [&]() { return exact ? (double)r.range(-9, 9) : (r.unit() - 0.5) * 20; };
  double alpha = scalar(r, exact), beta = scalar(r, exact), gamma = scalar(r, exact);
  int preset = r.below(6);
  if (preset == 0) { alpha = 1; beta = 0; gamma = 0; }
  if (preset == 1) { alpha = -1; beta = 1; gamma = 0; }
  if (preset == 2) { alpha = 1; beta = 1; gamma = 0; }
  bool shortForm = r.chance(15); if (shortForm) { alpha = 1; beta = 0; gamma = 0; }
  int alias = r.below(4);   // 0,3 none; 1 w==x; 2 w==y
  if (shortForm && alias == 2) alias = 0;
  c.add(fmt("alpha=%g beta=%g gamma=%g short=%d alias=%d", alpha, beta, gamma, shortForm, alias));
  size_t len = alias == 1 ? std::max(m, n) : m;
  std::vector<double> x0(n), y0(m), w0(len);
  for (auto &v : x0) v = rv(); for (auto &v : y0) v = rv(); for (auto &v : w0) v = rv();
  if (alias == 1) for (int i = 0; i < n; ++i) w0[i] = x0[i];
  if (alias == 2) for (int i = 0; i < m; ++i) w0[i] = y0[i];
  double *w = xmalloc<double>(len), *x = xmalloc<double>(n), *y = xmalloc<double>(m);
  std::copy(w0.begin(), w0.end(), w); std::copy(x0.begin(), x0.end(), x); std::copy(y0.begin(), y0.end(), y);
  struct G { double *a, *b, *d; ~G() { free(a); free(b); free(d); } } g = {w, x, y};
  Snapshot snap(h.A);
  const double *px = alias == 1 ? w : x, *py = alias == 2 ? w : y;
  if (shortForm) h.A->multiplyWithVector(w, px);
  else h.A->multiplyWithVector(w, alpha, px, beta, py, gamma);
  snap.check(h.A, "input-changed", "multiplyWithVector");
  for (int i = 0; i < m; ++i) {
    long double s = 0, mag = 0;
    for (auto &p : M.rows[i]) { long double q = (long double)p.second * x0[p.first]; s += q; mag += fabsl(q); }
    long double want = alpha * s + (long double)beta * y0[i] + gamma;
    if (shortForm) want = s;
    mag = fabsl(alpha) * mag + fabsl((long double)beta * y0[i]) + fabsl(gamma);
    cmp(w[i], want, mag, (int)M.rows[i].size(), exact, "SpMV", i, 0);
  }
  for (size_t i = m; i < len; ++i) HV_CHECK(w[i] == w0[i], "tail-written", "w[%zu] beyond the rows changed", i);
  if (alias != 1) HV_CHECK(n == 0 || !memcmp(x, x0.data(), n * 8), "x-changed", "x was modified");
  if (alias != 2) HV_CHECK(m == 0 || !memcmp(y, y0.data(), m * 8), "y-changed", "y was modified");
  c.count("elements compared", m); c.count(alias == 1 ? "in place on x" : alias == 2 ? "in place on y" : "no aliasing");
  if (alias == 1 && n > m) c.count("in place with wide matrix");
  if (M.nnz()) c.sig(mix(M.hash() ^ (uint64_t)(alpha * 64) * 31 ^ (uint64_t)(beta * 64) * 1009 ^ (uint64_t)(gamma * 64) * 7, t * 10 + alias));
}

void spmm(Ctx &c, Mat &M, HCSR &h, bool vals, bool exact, int t) {
  Rng &r = c.rng; int m = M.m, n = M.n;
  auto rv = [&]() { return exact ? (double)r.range(-9, 9) : (r.unit() - 0.5) * 20; };
  int k = r.chance(20) ? 1 : r.range(1, 9); if (r.chance(5)) k = r.range(10, 70);
  double alpha = scalar(r, exact), beta = scalar(r, exact), gamma = scalar(r, exact);
  if (r.chance(35)) { alpha = 1; beta = 0; gamma = 0; }
  bool shortForm = r.chance(15);
  struct Lay { int rs, cs; size_t len; };
  auto layout = [&](int rows) { // column-major or row-major, possibly padded
    Lay l; bool cm = r.chance(50);
    int inner = r.chance(60) ? 1 : r.range(1, 3);
    if (cm) { l.rs = inner; l.cs = std::max(1, rows * inner) + (r.chance(50) ? 0 : r.below(5)); }
    else { l.cs = inner; l.rs = k * inner + (r.chance(50) ? 0 : r.below(5)); }
    l.len = rows == 0 ? 0 : (size_t)(rows - 1) * l.rs + (size_t)(k - 1) * l.cs + 1; return l; };
  Lay lw = layout(m), lx = layout(n), ly = layout(m);
  bool alias = r.chance(25);
  if (r.chance(30)) { lw.rs = lx.rs = ly.rs = 1; lw.cs = m + r.below(3); lx.cs = n + r.below(3); ly.cs = m + r.below(3); lw.len = m ? m - 1 + (size_t)(k - 1) * lw.cs + 1 : 0; lx.len = n ? n - 1 + (size_t)(k - 1) * lx.cs + 1 : 0; ly.len = m ? m - 1 + (size_t)(k - 1) * ly.cs + 1 : 0; }
  if (shortForm) { alpha = 1; beta = gamma = 0; alias = false; lw.rs = lx.rs = 1; lw.cs = m; lx.cs = n; lw.len = (size_t)m * k; lx.len = (size_t)n * k; }
  if (alias) ly = lw;
  c.add(fmt("k=%d W(%d,%d) X(%d,%d) Y(%d,%d) alpha=%g beta=%g gamma=%g short=%d W==Y:%d", k, lw.rs, lw.cs, lx.rs, lx.cs, ly.rs, ly.cs, alpha, beta, gamma, shortForm, alias));
  double *W = xmalloc<double>(lw.len), *X = xmalloc<double>(lx.len), *Y = xmalloc<double>(ly.len);
  struct G { double *a, *b, *d; ~G() { free(a); free(b); free(d); } } g = {W, X, Y};
  for (size_t i = 0; i < lw.len; ++i) W[i] = CAN;
  for (size_t i = 0; i < lx.len; ++i) X[i] = CAN;
  for (size_t i = 0; i < ly.len; ++i) Y[i] = CAN;
  for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) { W[(size_t)i * lw.rs + (size_t)j * lw.cs] = rv(); Y[(size_t)i * ly.rs + (size_t)j * ly.cs] = rv(); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) X[(size_t)i * lx.rs + (size_t)j * lx.cs] = rv();
  std::vector<double> X0(X, X + lx.len), W0(W, W + lw.len), Y0(alias ? W0 : std::vector<double>(Y, Y + ly.len));
  std::vector<char> written(lw.len, 0);
  Snapshot snap(h.A);
  if (shortForm) h.A->multiplyWithDenseMatrix(W, k, X);
  else h.A->multiplyWithDenseMatrix(W, k, lw.rs, lw.cs, alpha, X, lx.rs, lx.cs, beta, alias ? W : Y, ly.rs, ly.cs, gamma);
  snap.check(h.A, "input-changed", "multiplyWithDenseMatrix");
  for (int i = 0; i < m; ++i) for (int j = 0; j < k; ++j) {
    long double s = 0, mag = 0;
    for (auto &p : M.rows[i]) { long double q = (long double)p.second * X0[(size_t)p.first * lx.rs + (size_t)j * lx.cs]; s += q; mag += fabsl(q); }
    long double yv = Y0[(size_t)i * ly.rs + (size_t)j * ly.cs], want = alpha * s + beta * yv + gamma;
    mag = fabsl(alpha) * mag + fabsl(beta * yv) + fabsl(gamma);
    size_t o = (size_t)i * lw.rs + (size_t)j * lw.cs; written[o] = 1;
    cmp(W[o], want, mag, (int)M.rows[i].size(), exact, "SpMM", i, j);
  }
  for (size_t i = 0; i < lw.len; ++i) if (!written[i]) HV_CHECK(W[i] == W0[i], "gap-written", "W[%zu], between strided elements, changed", i);
  HV_CHECK(lx.len == 0 || !memcmp(X, X0.data(), lx.len * 8), "x-changed", "X was modified");
  if (!alias) HV_CHECK(ly.len == 0 || !memcmp(Y, Y0.data(), ly.len * 8), "y-changed", "Y was modified");
  c.count("elements compared", (long long)m * k); c.maxi("block width", k); if (lw.rs != 1 && h.base) c.count("strided and one-based");
  if (M.nnz()) c.sig(mix(M.hash() ^ (uint64_t)(alpha * 64) * 31 ^ (uint64_t)(beta * 64) * 1009, ((uint64_t)k << 32) + lw.rs * 77 + lx.rs * 7 + ly.rs + t * 100003));
}

void run_case(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o; o.dup = r.chance(20); o.exact = r.chance(60); o.cap = c.mode == "spmm" ? 500 : 2000;
  Mat M = genGeneral(r, o);
  if (r.below(c.mode == "spmm" ? 300 : 60) == 0) { M = genLarge(r, o); c.count("large inputs"); }
  // values like -1e30 would turn "exact" false; genExact never makes them
  int base = r.below(2); bool vals = r.chance(80); int t = c.threads();
  c.describe(fmt("kind=%s base=%d values=%d exact=%d threads=%d ", M.kind.c_str(), base, vals, o.exact, t) + showMat(M, 20));
  HCSR h; build(h, M, base, vals);
  if (!vals) for (auto &row : M.rows) for (auto &p : row) p.second = 1.0;
  if (c.mode == "spmm") spmm(c, M, h, vals, o.exact, t); else spmv(c, M, h, vals, o.exact, t);
  c.maxi("threads", t);
}
