// C15 splitLU / C16 getSymmetricNnzPattern
#include "common.hpp"
using namespace hv;
using SpMP::CSR;

static void addExternal(Rng &r, Mat &F, std::vector<int> &local, bool ext) {
  int m = F.m; local.resize(m);
  for (int i = 0; i < m; ++i) {
    local[i] = (int)F.rows[i].size();
    if (ext && r.chance(60)) { int k = r.below(4); std::set<int> s; while (k--) s.insert(m + r.below(40)); for (int j : s) F.rows[i].push_back(std::make_pair(j, genValue(r))); }
  }
}

void split(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o; o.square = true; o.fullDiag = true; o.cap = 1500; o.dup = r.chance(10);
  bool large = r.below(100) == 0; Mat F = large ? genLarge(r, o) : genGeneral(r, o); int m = F.m;
  if (large) c.count("large inputs");
  bool ext = r.chance(30) && m > 0; int base = r.below(2), t = c.threads();
  std::vector<int> local; addExternal(r, F, local, ext);
  c.describe(fmt("splitLU kind=%s base=%d ext=%d threads=%d ", F.kind.c_str(), base, ext, t) + showMat(F, 30));
  HCSR h; build(h, F, base, true, true, ext ? &local : nullptr);
  h.idiag = xmalloc<double>(m); for (int i = 0; i < m; ++i) h.idiag[i] = 0.5 + i; h.A->idiag = h.idiag;
  Snapshot snap(h.A);
  CSR L, U;
  bool reuse = r.chance(20);
  if (r.chance(15)) { L = *h.A; if (r.chance(50)) U = *h.A; }   // results replace former contents
  SpMP::splitLU(*h.A, &L, &U);
  if (reuse) { SpMP::splitLU(*h.A, &L, &U); }
  snap.check(h.A, "input-changed", "splitLU");
  HV_CHECK(L.m == m && U.m == m && L.n == m && U.n == m, "shape", "shapes %dx%d %dx%d", L.m, L.n, U.m, U.n);
  HV_CHECK(L.rowptr[0] == base && U.rowptr[0] == base, "base", "bases %d %d", L.rowptr[0], U.rowptr[0]);
  for (int i = 0; i < m; ++i) {
    std::vector<std::pair<int, double>> lo, up; int upLocal = 0;
    for (size_t q = 0; q < F.rows[i].size(); ++q) {
      auto &p = F.rows[i][q];
      if (p.first < i) lo.push_back(p); else if (p.first > i) { up.push_back(p); if ((int)q < local[i]) ++upLocal; }
    }
    auto chk = [&](CSR &T, std::vector<std::pair<int, double>> &w, const char *nm) {
      int b = T.rowptr[i] - base, e = T.rowptr[i + 1] - base;
      HV_CHECK(e - b == (int)w.size(), "row-size", "%s row %d has %d entries, expected %zu", nm, i, e - b, w.size());
      for (int j = b; j < e; ++j) HV_CHECK(T.colidx[j] - base == w[j - b].first && !memcmp(&T.values[j], &w[j - b].second, 8), "entries", "%s row %d entry %d is (%d,%g), expected (%d,%g)", nm, i, j - b, T.colidx[j] - base, T.values[j], w[j - b].first, w[j - b].second);
    };
    chk(L, lo, "lower"); chk(U, up, "upper");
    HV_CHECK(L.idiag && U.idiag && L.idiag[i] == h.idiag[i] && U.idiag[i] == h.idiag[i], "idiag", "row %d: inverse diagonals differ", i);
    if (ext) HV_CHECK(U.extptr && U.extptr[i] == U.rowptr[i] + upLocal, "extptr", "upper row %d: external part starts at %d, expected %d", i, U.extptr ? U.extptr[i] : -1, U.rowptr[i] + upLocal);
  }
  HV_CHECK(L.rowptr[m] - base + U.rowptr[m] - base + 0 <= F.nnz(), "row-size", "totals");
  c.count("entries", F.nnz()); c.maxi("rows", m); if (ext && base) c.count("one-based with external columns");
  if (F.nnz() > m) c.sig(mix(F.hash(), base * 100 + t * 2 + ext));
}

void symm(Ctx &c) {
  Rng &r = c.rng;
  Mat F; std::string kind;
  int how = r.below(4);
  if (how == 0) { GenOpt o; o.square = true; o.fullDiag = true; o.cap = 1200; F = genGeneral(r, o); kind = F.kind; }
  else { // symmetric graph with few or many one-sided removals
    auto adj = genGraph(r, 1200, kind);
    F = symMat(r, adj, false, true);
    if (how != 1) {
      int k = how == 2 ? 1 + r.below(3) : 1 + r.below(F.m + 1);
      while (k-- && F.m) { int i = r.below(F.m); if (r.chance(15)) i = r.chance(50) ? 0 : F.m - 1; if (F.rows[i].size() > 1) { int q = r.below((int)F.rows[i].size()); if (F.rows[i][q].first != i) F.rows[i].erase(F.rows[i].begin() + q); } }
    }
  }
  if (r.chance(2)) { auto adj = genGraph(r, 30000, kind, r.range(5000, 30000)); F = symMat(r, adj, false, true); for (int q = 0; q < 50; ++q) { int i = r.below(F.m); if (F.rows[i].size() > 1 && F.rows[i][0].first != i) F.rows[i].erase(F.rows[i].begin()); } }
  F.sortRows(); int m = F.m;
  bool ext = r.chance(30) && m > 0; int base = r.below(2), t = c.threads(); bool vals = r.chance(60);
  Mat Lc = F; std::vector<int> local; addExternal(r, F, local, ext);
  c.describe(fmt("symmetrise kind=%s how=%d base=%d ext=%d threads=%d ", kind.c_str(), how, base, ext, t) + showMat(F, 40));
  HCSR h; build(h, F, base, vals, false, ext ? &local : nullptr);
  std::vector<std::set<int>> want(m); bool sym = true;
  for (int i = 0; i < m; ++i) for (auto &p : Lc.rows[i]) { want[i].insert(p.first); want[p.first].insert(i); }
  for (int i = 0; i < m; ++i) if (want[i].size() != Lc.rows[i].size()) sym = false;
  Snapshot snap(h.A);
  int *junk = r.chance(50) ? (int *)64 : NULL, *rp = junk, *dp = junk, *ep = junk, *ci = junk; // results only, not read
  bool res = SpMP::getSymmetricNnzPattern(h.A, &rp, &dp, &ep, &ci);
  snap.check(h.A, "input-changed", "getSymmetricNnzPattern");
  HV_CHECK(res == sym, "answer", "reported symmetric=%d, truth %d", res, sym);
  c.count(sym ? "symmetric patterns" : "unsymmetric patterns");
  if (!sym) {
    HV_CHECK(rp && dp && ci && (!ext || ep), "missing-array", "some output array missing");
    long k = base;
    for (int i = 0; i < m; ++i) {
      HV_CHECK(rp[i] == k, "rowptr", "rowptr[%d]=%d expected %ld", i, rp[i], k);
      long kb = k - base;
      HV_CHECK(ci[kb + (want[i].size() - 1)] >= 0, "entries", "row %d", i);
      for (int j : want[i]) { HV_CHECK(ci[k - base] - base == j, "entries", "row %d: column %d, expected %d", i, ci[k - base] - base, j); if (j == i) HV_CHECK(dp[i] == k, "diagptr", "row %d: diagonal pointer %d, expected %ld", i, dp[i], k); ++k; }
      if (ext) HV_CHECK(ep[i] == k, "extptr", "row %d: external part starts at %d, expected %ld", i, ep[i], k);
      for (size_t q = local[i]; q < F.rows[i].size(); ++q) { HV_CHECK(ci[k - base] - base == F.rows[i][q].first, "external-entries", "row %d: external column %d expected %d", i, ci[k - base] - base, F.rows[i][q].first); ++k; }
    }
    HV_CHECK(rp[m] == k, "rowptr", "rowptr[%d]=%d expected %ld", m, rp[m], k);
    FREE(rp); FREE(dp); FREE(ci); if (ext) FREE(ep);
  }
  c.count("rows checked", m); c.maxi("rows", m);
  if (F.nnz() > m) c.sig(mix(F.patternHash(), base * 100 + t * 2 + ext));
}

void run_case(Ctx &c) { if (c.mode == "split") split(c); else symm(c); }
