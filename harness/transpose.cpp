// C11: transpose against the mirrored reference, on every shape/base/team size.
#include "common.hpp"
using namespace hv;
using SpMP::CSR;

static Mat mirror(const Mat &M) {
  Mat T(M.n, M.m);
  for (int i = 0; i < M.m; ++i) for (auto &p : M.rows[i]) T.rows[p.first].push_back(std::make_pair(i, p.second));
  return T;
}
static void freeT(CSR *T) {
  delete T;
}
static void checkDiagPtr(const CSR *T, const Mat &M, int base, bool has) {
  if (!has) return;
  HV_CHECK(T->diagptr != NULL, "diagptr-missing", "input has diagonal pointers, output has none");
  for (int i = 0; i < std::min(M.m, M.n); ++i) {
    bool hasd = false; for (auto &p : M.rows[i]) hasd |= p.first == i;
    if (!hasd) continue;
    int d = T->diagptr[i];
    HV_CHECK(d >= T->rowptr[i] && d < T->rowptr[i + 1] && T->colidx[d - base] == i + base, "diagptr",
      "row %d: diagonal pointer %d does not denote the diagonal (row range %d..%d)", i, d, T->rowptr[i], T->rowptr[i + 1]);
  }
}
void run_case(Ctx &c) {
  GenOpt o; o.dup = c.rng.chance(25); o.cap = c.thorough ? 6000 : 2000;
  bool diag = c.rng.chance(40);
  if (diag) { o.square = true; o.fullDiag = true; o.dup = false; }
  Mat M = genGeneral(c.rng, o);
  if (c.rng.below(70) == 0) { M = genLarge(c.rng, o); c.count("large inputs"); }
  int base = c.rng.below(2); bool vals = c.rng.chance(80);
  int t = c.threads();
  c.describe(fmt("transpose kind=%s base=%d values=%d diagptr=%d threads=%d ", M.kind.c_str(), base, vals, diag, t) + showMat(M, 30));
  if (M.n == 0 || M.m == 0) c.count("empty shapes");
  HCSR h; build(h, M, base, vals, diag);
  if (!vals) for (auto &r : M.rows) for (auto &p : r) p.second = 1.0;
  Snapshot snap(h.A);
  Mat want = mirror(M);
  CSR *T = h.A->transpose();
  snap.check(h.A, "input-changed", "transpose");
  Mat got = readCSR(T, "transpose", base, M.n, M.m, vals);
  HV_CHECK((T->values != NULL) == vals || M.n == 0, "values-presence", "values present %d -> %d", vals, T->values != NULL);
  compareRowsExact(want, got, "entries", "transpose");
  checkDiagPtr(T, M, base, diag);
  // other team sizes give the identical arrays
  int t2 = c.threads();
  CSR *T2 = h.A->transpose();
  Mat got2 = readCSR(T2, "transpose/other team", base, M.n, M.m, vals);
  compareRowsExact(got, got2, "thread-dependence", fmt("transpose with %d vs %d threads", t, t2).c_str());
  freeT(T2);
  // involution
  CSR *TT = T->transpose();
  Mat back = readCSR(TT, "double transpose", base, M.m, M.n, vals);
  Mat sorted = M; sorted.sortRows();
  compareRowsExact(sorted, back, "involution", "double transpose");
  checkDiagPtr(TT, want, base, diag);
  freeT(TT); freeT(T);
  c.count("entries compared", 3 * M.nnz()); c.count("transposes", 3); c.maxi("threads", t); c.maxi("rows", M.m);
  if (M.nnz() > 0) c.sig(mix(M.patternHash(), base * 100 + t * 2 + vals));
}
