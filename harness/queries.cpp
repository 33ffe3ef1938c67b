// C22 structural queries vs definitions; C23 Laplacian generator (mode lap)
#include "common.hpp"
using namespace hv;
using SpMP::CSR;

static void lap(Ctx &c) {
  Rng &r = c.rng;
  int nx, ny, nz; bool cube = false;
  if (c.idx < 1000 && !c.thorough) { int k = c.idx / 2; nx = k % 7 + 1; ny = k / 7 % 7 + 1; nz = k / 49 % 7 + 1; }       // all triples up to 7
  else if (c.idx < 5500 && c.thorough) { int k = c.idx / 2; nx = k % 14 + 1; ny = k / 14 % 14 + 1; nz = k / 196 % 14 + 1; }
  else { nx = r.range(1, 60); ny = r.range(1, 30); nz = r.range(1, 20); if (r.chance(30)) (r.chance(50) ? nx : r.chance(50) ? ny : nz) = 1; }
  int base = c.idx % 2; int t = c.threads();
  if (r.chance(10)) { cube = true; nx = ny = nz = r.range(1, 20); }
  c.describe(fmt("Laplacian %dx%dx%d base=%d cube-overload=%d threads=%d", nx, ny, nz, base, cube, t));
  CSR A;
  int form = cube ? r.below(2) : 0;
  CSR *pA = &A;
  if (cube && r.chance(50)) { pA = new CSR(fmt("%d", nx).c_str(), base); form = 2; }
  else if (cube) SpMP::generate3D27PtLaplacian(&A, nx, base);
  else SpMP::generate3D27PtLaplacian(&A, nx, ny, nz, base);
  long N = (long)nx * ny * nz;
  HV_CHECK(pA->m == N && pA->n == N, "shape", "shape %dx%d expected %ld", pA->m, pA->n, N);
  long k = base;
  HV_CHECK(pA->rowptr[0] == base, "base", "rowptr[0]=%d", pA->rowptr[0]);
  for (int z = 0; z < nz; ++z) for (int y = 0; y < ny; ++y) for (int x = 0; x < nx; ++x) {
    int row = (z * ny + y) * nx + x; bool dseen = false;
    HV_CHECK(pA->rowptr[row] == k, "rowptr", "rowptr[%d]=%d expected %ld", row, pA->rowptr[row], k);
    for (int Z = std::max(0, z - 1); Z <= std::min(nz - 1, z + 1); ++Z) for (int Y = std::max(0, y - 1); Y <= std::min(ny - 1, y + 1); ++Y) for (int X = std::max(0, x - 1); X <= std::min(nx - 1, x + 1); ++X, ++k) {
      int col = (Z * ny + Y) * nx + X;
      HV_CHECK(pA->colidx[k - base] == col + base, "entries", "row %d: column %d expected %d", row, pA->colidx[k - base] - base, col);
      HV_CHECK(pA->values[k - base] == (col == row ? 26.0 : -1.0), "values", "row %d column %d: %g", row, col, pA->values[k - base]);
      if (col == row) { dseen = true; HV_CHECK(pA->diagptr[row] == k && pA->diag[row] == 26.0 && pA->idiag[row] == 1 / 26.0, "diagonal", "row %d: diagptr %d (expected %ld) diag %g idiag %g", row, pA->diagptr[row], k, pA->diag[row], pA->idiag[row]); }
    }
    HV_CHECK(dseen, "oracle", "no diagonal");
  }
  HV_CHECK(pA->rowptr[N] == k, "rowptr", "rowptr[%ld]=%d expected %ld", N, pA->rowptr[N], k);
  HV_CHECK(pA->isSymmetric(true, false), "symmetric", "not symmetric");
  c.count("rows checked", N); c.count(form == 2 ? "by constructor" : form == 1 ? "cube overload" : "three extents");
  if (nx == 1 || ny == 1 || nz == 1) c.count("grids with an extent of 1");
  c.sig(((uint64_t)nx << 40) + ((uint64_t)ny << 20) + nz * 2 + base);
  if (pA != &A) delete pA;
  else { int *a = A.rowptr, *b = A.colidx; double *d = A.values; A.rowptr = NULL; A.colidx = NULL; A.values = NULL; FREE(a); FREE(b); FREE(d); }
}

static void queries(Ctx &c) {
  Rng &r = c.rng; Mat M; std::string kind; bool graph = r.chance(60);
  if (graph) {
    auto adj = genGraph(r, 1500, kind); M = symMat(r, adj, r.chance(30), r.chance(80), true); int n = M.m;
    // plant at most a few deviations anywhere, also at the first/last row/column
    int dev = r.below(5); auto who = [&]() { int k = r.below(6); return k == 0 ? 0 : k == 1 ? n - 1 : r.below(n); };
    if (n && dev == 1) { for (int q = 0; q < 4; ++q) { int i = who(); if (!M.rows[i].empty()) { int e = r.below((int)M.rows[i].size()); if (M.rows[i][e].first != i) { M.rows[i].erase(M.rows[i].begin() + e); kind += "+missing"; break; } } } }
    if (n && dev == 2) { for (int q = 0; q < 4; ++q) { int i = who(); if (!M.rows[i].empty()) { int e = r.below((int)M.rows[i].size()); if (M.rows[i][e].first != i) { M.rows[i][e].second += 1; kind += "+value"; break; } } } }
    if (n && dev == 3) { int i = who(); for (auto &p : M.rows[i]) if (p.first == i) { p.second = r.chance(50) ? 0.0 : -0.0; kind += "+zerodiag"; } }
    if (n && dev == 4) { int i = who(); for (size_t e = 0; e < M.rows[i].size(); ++e) if (M.rows[i][e].first == i) { M.rows[i].erase(M.rows[i].begin() + e); kind += "+nodiag"; break; } }
  } else { GenOpt o; o.cap = 1500; M = r.below(60) == 0 ? genLarge(r, o) : genGeneral(r, o); kind = M.kind; }
  // a part of a distributed matrix: columns m.. belong to other processes, extptr marks where each row's own part ends;
  // symmetry is a statement about the own part only
  std::vector<int> own(M.m); for (int i = 0; i < M.m; ++i) own[i] = (int)M.rows[i].size();
  bool ext = graph && M.m && r.chance(30);
  if (ext) {
    int k = 1 + r.below(40); M.n = M.m + k; kind += "+external";
    for (int i = 0; i < M.m; ++i) if (r.chance(60)) { std::set<int> s; for (int q = r.below(4); q > 0; --q) s.insert(M.m + r.below(k)); for (int j : s) M.rows[i].push_back(std::make_pair(j, genValue(r))); }
    if (r.chance(30)) { M.n = M.m; for (int i = 0; i < M.m; ++i) M.rows[i].resize(own[i]); kind += "-none"; }  // extptr present, nothing external
  }
  int m = M.m, n = M.n; int base = r.below(2), t = c.threads(); bool vals = r.chance(80);
  c.describe(fmt("queries kind=%s base=%d values=%d threads=%d ", kind.c_str(), base, vals, t) + showMat(M, 40));
  HCSR h; build(h, M, base, vals, false, ext ? &own : nullptr);
  if (!vals) for (auto &row : M.rows) for (auto &p : row) p.second = 1.0;
  Snapshot snap(h.A); CSR *A = h.A;
  std::vector<std::map<int, double>> R(m);
  bool sorted = true; int deg = 0; long bw = 0, width = 0; bool zero = false;
  for (int i = 0; i < m; ++i) {
    int mn = INT_MAX, mx = INT_MIN;
    for (size_t q = 0; q < M.rows[i].size(); ++q) { auto &p = M.rows[i][q]; R[i][p.first] = p.second; if (q && M.rows[i][q - 1].first > p.first) sorted = false; mn = std::min(mn, p.first); mx = std::max(mx, p.first); bw = std::max<long>(bw, std::abs(p.first - i)); }
    if (!M.rows[i].empty()) width += mx - mn;
    deg = std::max(deg, (int)M.rows[i].size());
    auto d = R[i].find(i); if (d == R[i].end() || d->second == 0) zero = true;
  }
  bool symP = m == n || ext, symV = symP;
  if (symP) for (int i = 0; i < m; ++i) for (auto &p : R[i]) if (p.first < m) { auto q = R[p.first].find(i); if (q == R[p.first].end()) symP = symV = false; else if (q->second != p.second) symV = false; }
  HV_CHECK(A->getNnz() == M.nnz() && A->getBase() == base, "nnz-base", "nnz %d base %d", A->getNnz(), A->getBase());
  for (int rep = 0; rep < 2; ++rep) {
    bool a = A->isSymmetric(false, false), b = A->isSymmetric(true, false), a2 = A->isSymmetric(false, true), b2 = A->isSymmetric(true, true);
    HV_CHECK(a == symP, "symmetric-pattern", "pattern symmetry %d, truth %d", a, symP);
    HV_CHECK(b == symV, "symmetric-value", "value symmetry %d, truth %d", b, symV);
    HV_CHECK(a2 == symP && b2 == symV, "symmetric-printing", "with diagnostics: %d %d, truth %d %d", a2, b2, symP, symV);
    HV_CHECK(A->hasZeroDiag() == zero, "zero-diag", "hasZeroDiag %d, truth %d", !zero, zero);
    HV_CHECK(A->getBandwidth() == bw, "bandwidth", "bandwidth %d, truth %ld", A->getBandwidth(), bw);
    if (m) {
      double w = (double)width / m;
      HV_CHECK(A->getAverageWidth() == w, "average-width", "average width %.17g, truth %.17g", A->getAverageWidth(), w);
      if (sorted) HV_CHECK(A->getAverageWidth(true) == w, "average-width-sorted", "average width (sorted) %.17g, truth %.17g", A->getAverageWidth(true), w);
    }
    HV_CHECK(A->getMaxDegree() == deg, "max-degree", "max degree %d, truth %d", A->getMaxDegree(), deg);
    t = c.threads();
  }
  if (m && M.nnz() <= 400 && r.chance(25)) {  // the printed form lists every stored entry, in order
    std::string got = captureStdout(c.scratch + "/printed", [&]() { A->print(); }), want;
    for (int i = 0; i < m; ++i) for (auto &p : M.rows[i]) want += vals ? fmt("%d %d %g\n", i + base, p.first + base, p.second) : fmt("%d %d\n", i + base, p.first + base);
    size_t at = 0; while (at < got.size() && at < want.size() && got[at] == want[at]) ++at;
    HV_CHECK(got == want, "printed", "printed matrix differs from byte %zu on: got \"%.40s\", expected \"%.40s\"", at, got.c_str() + at, want.c_str() + at);
    c.count("matrices printed"); if (!vals) c.count("patterns printed");
  }
  if (ext) c.count(fmt("with external columns, %s", symV ? "value-symmetric" : symP ? "pattern-symmetric" : "unsymmetric"));
  snap.check(A, "input-changed", "a query");
  c.count(symV ? "value-symmetric" : symP ? "pattern-symmetric" : "unsymmetric"); c.count(zero ? "zero diagonal" : "full diagonal"); c.count("queries", 22);
  // equality: identical, then with exactly one difference
  Mat B = M; int kindd = r.below(7); bool expect = true;
  long nz = M.nnz(); int base2 = base;
  if (kindd == 1 && nz) { int i; do i = r.below(m); while (B.rows[i].empty()); if (r.chance(40)) { for (i = m - 1; B.rows[i].empty(); --i); } auto &e = B.rows[i][r.chance(40) ? (int)B.rows[i].size() - 1 : r.below((int)B.rows[i].size())]; e.second += 1 + std::fabs(e.second); expect = !vals; }
  if (kindd == 2 && nz && n > 1) { int i; do i = r.below(m); while (B.rows[i].empty()); auto &e = B.rows[i][r.below((int)B.rows[i].size())]; e.first = (e.first + 1) % n; expect = false; }
  if (kindd == 3) { B = Mat(m + 1, n); for (int i = 0; i < m; ++i) B.rows[i] = M.rows[i]; expect = false; }
  if (kindd == 4) { B.n = n + 1; expect = false; }
  if (kindd == 5) { base2 = 1 - base; expect = false; }
  if (kindd == 6 && m > 1 && nz) { int i; do i = r.below(m); while (B.rows[i].empty()); int j = i ? i - 1 : i + 1; B.rows[j].push_back(B.rows[i].back()); B.rows[i].pop_back(); expect = false; }
  HCSR g; build(g, B, base2, vals);
  HV_CHECK(A->equals(*g.A) == expect && g.A->equals(*A) == expect, "equals", "equality says %d/%d, truth %d (difference kind %d)", A->equals(*g.A), g.A->equals(*A), expect, kindd);
  HV_CHECK(A->equals(*g.A, true) == expect, "equals-printing", "equality with diagnostics differs");
  if (nz) c.sig(mix(M.hash(), base * 10 + kindd));
}
void run_case(Ctx &c) { if (c.mode == "lap") lap(c); else queries(c); }
