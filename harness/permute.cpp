// C12: every permutation entry point against entry-wise relocation.
#include "common.hpp"
using namespace hv;
using SpMP::CSR;

static void freeP(CSR *T) {
  delete T;
}
static bool sortedRange(const int *a, int b, int e) { for (int j = b + 1; j < e; ++j) if (a[j - 1] > a[j]) return false; return true; }

void run_case(Ctx &c) {
  Rng &r = c.rng;
  GenOpt o; o.cap = 1200; o.allowEmpty = true;
  int op = r.below(6);   // 0,1 permute; 2 rows; 3 rowptr only; 4,5 cols in place
  bool ext = r.chance(25), diag = r.chance(45);
  if (diag || ext) { o.square = true; }
  if (diag) o.fullDiag = true;
  Mat M = genGeneral(r, o);
  if (r.below(90) == 0) { bool dup = o.dup; o.dup = false; M = genLarge(r, o); o.dup = dup; c.count("large inputs"); }
  if (M.m == 0 || M.n == 0) { ext = false; }
  int m = M.m, n = M.n;
  // non-local tail: column ids >= n (as the MPI layout has), kept in place by permutations
  std::vector<int> local(m);
  Mat F = M;
  for (int i = 0; i < m; ++i) {
    local[i] = (int)F.rows[i].size();
    if (ext && r.chance(50)) { int k = r.below(4); for (int q = 0; q < k; ++q) F.rows[i].push_back(std::make_pair(n + r.below(50), genValue(r))); }
  }
  int base = r.below(2); bool vals = r.chance(75), idiag = diag && vals && r.chance(50), sort = r.chance(50);
  int t = c.threads();
  static const char *ops[] = {"permute", "permute", "permuteRows", "permuteRowptr", "permuteColsInPlace", "permuteColsInPlace"};
  c.describe(fmt("%s kind=%s base=%d values=%d diagptr=%d idiag=%d ext=%d sort=%d threads=%d ", ops[op], M.kind.c_str(), base, vals, diag, idiag, ext, sort, t) + showMat(F, 25));
  HCSR h; build(h, F, base, vals, diag, ext ? &local : nullptr);
  if (idiag) { h.idiag = xmalloc<double>(m); for (int i = 0; i < m; ++i) h.idiag[i] = 1000.5 + i; h.A->idiag = h.idiag; }
  if (!vals) for (auto &row : F.rows) for (auto &p : row) p.second = 1.0;
  std::vector<int> rowInv = randPerm(r, m), colPerm = randPerm(r, n);
  bool symPerm = m == n && r.chance(50);
  if (symPerm) for (int i = 0; i < m; ++i) colPerm[rowInv[i]] = i;
  // exact-size heap copies, so ASan notices over-reads of the permutations
  int *ri = xmalloc<int>(m), *cp = xmalloc<int>(n);
  std::copy(rowInv.begin(), rowInv.end(), ri); std::copy(colPerm.begin(), colPerm.end(), cp);
  struct G { int *a, *b; ~G() { free(a); free(b); } } g = {ri, cp};
  bool nullRow = r.chance(12);
  if (nullRow) for (int i = 0; i < m; ++i) rowInv[i] = i;
  const int *riArg = nullRow ? NULL : ri;
  Snapshot snap(h.A);
  bool colsMove = op <= 1 || op >= 4, rowsMove = op <= 3;
  CSR *R = NULL;
  if (op <= 1) R = h.A->permute(cp, riArg, sort);
  else if (op == 2) R = h.A->permuteRows(riArg);
  else if (op == 3) R = h.A->permuteRowptr(riArg);
  else { h.A->permuteColsInPlace(cp); R = h.A; }
  if (op <= 3) snap.check(h.A, "input-changed", ops[op]);
  HV_CHECK(R->m == m && R->n == n, "shape", "shape %dx%d", R->m, R->n);
  HV_CHECK(R->rowptr[0] == base, "base", "rowptr[0]=%d", R->rowptr[0]);
  long k = base;
  for (int i = 0; i < m; ++i) {
    int row = rowsMove ? rowInv[i] : i;
    HV_CHECK(R->rowptr[i] == k, "rowptr", "%s: rowptr[%d]=%d expected %ld", ops[op], i, R->rowptr[i], k);
    if (ext) HV_CHECK(R->extptr && R->extptr[i] == k + local[row], "extptr", "%s: extptr[%d]=%d expected %ld", ops[op], i, R->extptr ? R->extptr[i] : -1, k + local[row]);
    k += F.rows[row].size();
  }
  HV_CHECK(R->rowptr[m] == k, "rowptr", "%s: rowptr[%d]=%d expected %ld", ops[op], m, R->rowptr[m], k);
  HV_CHECK((R->values != NULL) == vals, "values-presence", "values %d -> %d", vals, R->values != NULL);
  if (op != 3) for (int i = 0; i < m; ++i) {
    int row = rowsMove ? rowInv[i] : i;
    int b = R->rowptr[i] - base, e = R->rowptr[i + 1] - base, le = b + local[row];
    std::vector<Ent> want, got;
    for (int q = 0; q < local[row]; ++q) { auto &p = F.rows[row][q]; want.push_back({i, colsMove ? colPerm[p.first] : p.first, p.second}); }
    for (int j = b; j < le; ++j) got.push_back({i, R->colidx[j] - base, vals ? R->values[j] : 1.0});
    // in-order unless something asks for sorting
    bool mayReorder = (op <= 1 && sort) || op >= 4;
    if (mayReorder) { std::sort(want.begin(), want.end(), entLess); std::sort(got.begin(), got.end(), entLess); }
    for (size_t q = 0; q < want.size(); ++q)
      HV_CHECK(entEq(want[q], got[q]), "entries", "%s: row %d (was %d) local entry %zu is (%d,%.17g), expected (%d,%.17g)", ops[op], i, row, q, got[q].c, got[q].v, want[q].c, want[q].v);
    for (size_t q = local[row]; q < F.rows[row].size(); ++q) {
      auto &p = F.rows[row][q]; int j = b + (int)q;
      HV_CHECK(R->colidx[j] - base == p.first && (!vals || !memcmp(&R->values[j], &p.second, 8)), "external-entries", "%s: row %d non-local entry %zu changed", ops[op], i, q);
    }
    if (op <= 1 && sort) HV_CHECK(sortedRange(R->colidx, b, le), "sorted", "%s(sort): row %d not sorted", ops[op], i);
    if (op >= 4 && !diag) HV_CHECK(sortedRange(R->colidx, b, le), "sorted", "%s: row %d not sorted", ops[op], i);
    if (diag) {
      int d = R->diagptr[i] - base; int wantCol = colsMove ? colPerm[row] : row;
      HV_CHECK(d >= b && d < le && R->colidx[d] - base == wantCol, "diagptr", "%s: row %d (was %d): diagonal pointer %d (row %d..%d) does not denote the former diagonal entry, column %d", ops[op], i, row, d, b, le, wantCol);
      if (op >= 4) {
        int od = snap.diagptr[i] - base;
        HV_CHECK(d == od, "diag-separation", "%s: row %d: diagonal moved from %d to %d", ops[op], i, od, d);
        HV_CHECK(sortedRange(R->colidx, b, d) && sortedRange(R->colidx, d + 1, le), "sorted-parts", "%s: row %d: parts around the diagonal not sorted", ops[op], i);
        std::set<int> before; for (int j = b; j < od; ++j) before.insert(colPerm[F.rows[i][j - b].first]);
        for (int j = b; j < d; ++j) HV_CHECK(before.count(R->colidx[j] - base), "diag-separation", "%s: row %d: entry moved across the diagonal", ops[op], i);
      }
      if (op <= 2 && idiag) HV_CHECK(R->idiag && R->idiag[i] == 1000.5 + row, "idiag", "%s: row %d has inverse diagonal of another row", ops[op], i);
    }
    c.count("entries compared", F.rows[row].size());
  }
  c.count(ops[op]); c.maxi("rows", m); if (t > m) c.count("more threads than rows");
  if (F.nnz()) c.sig(mix(F.patternHash(), base * 1000 + op * 100 + t * 4 + vals * 2 + sort));
  if (op <= 3) freeP(R);
}
