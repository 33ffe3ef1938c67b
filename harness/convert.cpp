// C19 binary files (modes bin, binfuzz), C20 COO -> CSR (mode coo),
// C21 base switches, copies, releases (mode copy)
#include "common.hpp"
#include <dirent.h>
#include <sys/resource.h>
using namespace hv;
using SpMP::CSR; using SpMP::COO;

static int openFds() { int k = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++k; closedir(d); return k; }
static std::string slurp(const std::string &f) { std::string s; FILE *p = fopen(f.c_str(), "r"); if (!p) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
static void spit(const std::string &f, const std::string &s) { FILE *p = fopen(f.c_str(), "w"); if (!p || fwrite(s.data(), 1, s.size(), p) != s.size()) { perror("scratch"); _exit(9); } fclose(p); }

static void checkDiag(const CSR *A, int base, const char *what) {
  if (!A->diagptr) return;
  for (int i = 0; i < A->m; ++i) {
    bool has = false; for (int j = A->rowptr[i]; j < A->rowptr[i + 1]; ++j) has |= A->colidx[j - base] - base == i;
    if (!has) continue;
    int d = A->diagptr[i];
    HV_CHECK(d >= A->rowptr[i] && d < A->rowptr[i + 1] && A->colidx[d - base] - base == i, "diagptr", "%s: diagptr[%d]=%d (row %d..%d)", what, i, d, A->rowptr[i], A->rowptr[i + 1]);
    double v = A->values[d - base], iv = 1 / v;
    if (A->diag) HV_CHECK(!memcmp(&v, &A->diag[i], 8), "diag", "%s: diag[%d]=%.17g, entry %.17g", what, i, A->diag[i], v);
    if (A->idiag) HV_CHECK(!memcmp(&iv, &A->idiag[i], 8), "idiag", "%s: idiag[%d]=%.17g, 1/entry %.17g", what, i, A->idiag[i], iv);
  }
}
static Mat genAny(Rng &r, int cap) { GenOpt o; o.cap = cap; o.dup = r.chance(10); o.fullDiag = r.chance(40); Mat M = genGeneral(r, o); if (r.chance(30)) for (auto &row : M.rows) for (auto &p : row) { uint64_t b = r.next(); double v; memcpy(&v, &b, 8); if (std::isfinite(v)) p.second = v; } return M; }

// ------------------------------------------------------------ binary format
static void bin(Ctx &c) {
  Rng &r = c.rng; Mat M = genAny(r, 1200); int base = r.below(2), lbase = r.below(2), how = r.below(4); bool vals = r.chance(88), dp = r.chance(50);
  int t = c.threads(); bool failing = r.chance(5);
  c.describe(fmt("bin base=%d load-base=%d how=%d values=%d diagptr=%d threads=%d unwritable=%d ", base, lbase, how, vals, dp, t, failing) + showMat(M, 40));
  HCSR h; build(h, M, base, vals, dp); Snapshot s(h.A);
  std::string f = c.scratch + (failing ? "/no/such/dir/a.bin" : "/a.bin");
  int fd0 = openFds();
  h.A->storeBin(f.c_str()); s.check(h.A, "input-changed", "storeBin");
  HV_CHECK(openFds() == fd0, "file-left-open", "storeBin left a file open");
  if (failing) { c.count("stores to unwritable paths"); return; }
  if (!vals) for (auto &row : M.rows) for (auto &p : row) p.second = 1.0;
  t = c.threads();
  CSR *L = NULL; HCSR other;
  if (how == 0) L = new CSR(f.c_str(), lbase);
  else if (how == 1) { L = new CSR(); L->loadBin(f.c_str(), lbase); }
  else if (how == 2) { L = new CSR(3, 3, 4); L->rowptr[0] = L->rowptr[1] = L->rowptr[2] = L->rowptr[3] = 0; L->loadBin(f.c_str(), lbase); }  // replaces owned data
  else { L = new CSR(f.c_str(), 1 - lbase); L->loadBin(f.c_str(), lbase); }
  try {
    Mat g = readCSR(L, "loaded", lbase, M.m, M.n); compareRowsExact(M, g, "roundtrip", "loaded matrix");
    HV_CHECK(L->diagptr && L->diag && L->idiag, "diag-missing", "no diagonal arrays");
    checkDiag(L, lbase, "loaded");
    HV_CHECK(L->extptr == NULL || how > 1, "extptr", "loaded matrix has external columns");
    HV_CHECK(openFds() == fd0, "file-left-open", "loadBin left a file open");
    // a second generation must be the same file
    std::string f2 = c.scratch + "/b.bin"; L->storeBin(f2.c_str());
    HV_CHECK(slurp(f) == slurp(f2), "second-file", "storing the loaded matrix gives another file");
    HV_CHECK(L->getBase() == lbase, "base", "storeBin changed the base");
  } catch (...) { delete L; throw; }
  delete L;
  c.count("matrices stored and loaded"); c.count("entries compared", M.nnz()); if (base != lbase) c.count("base changed by the round trip"); if (!vals) c.count("pattern-only");
  if (M.nnz()) c.sig(mix(M.hash(), base * 8 + lbase * 4 + how));
}
static void binfuzz(Ctx &c) {
  Rng &r = c.rng;
#if !defined(__SANITIZE_ADDRESS__)
  static bool lim = false; if (!lim) { lim = true; rlimit l = {3ull << 30, 3ull << 30}; setrlimit(RLIMIT_AS, &l); }
#endif
  GenOpt o; o.cap = 30; Mat M = genGeneral(r, o);
  std::string b; auto put = [&](int v) { b.append((char *)&v, 4); };
  put(1211216); put(M.m); put(M.n); put((int)M.nnz());
  for (auto &row : M.rows) put((int)row.size());
  for (auto &row : M.rows) for (auto &p : row) put(p.first);
  for (auto &row : M.rows) for (auto &p : row) b.append((char *)&p.second, 8);
  std::string orig = b; std::string what; bool oneTrunc = r.chance(30); int nops = oneTrunc ? 1 : 1 + r.below(3);
  static const int hostile[] = {-1, 0, 1, 2, INT_MAX, INT_MIN, INT_MAX - 1, 1 << 30, 1 << 20, 65536, 1000000007};
  for (int k = 0; k < nops; ++k) {
    int op = oneTrunc ? 0 : r.below(6);
    switch (op) {
    case 0: { size_t n = b.empty() ? 0 : r.below((int)b.size()); b.resize(n); what += fmt(" truncate@%zu", n); break; }
    case 1: { int w = r.below(4); if (b.size() >= (size_t)w * 4 + 4) { int v = hostile[r.below(11)]; memcpy(&b[w * 4], &v, 4); what += fmt(" header%d=%d", w, v); } break; }
    case 2: { int w = r.below(4); if (b.size() >= (size_t)w * 4 + 4) { int v; memcpy(&v, &b[w * 4], 4); v += r.range(-2, 2); memcpy(&b[w * 4], &v, 4); what += fmt(" header%d:=%d", w, v); } break; }
    case 3: if (M.m && b.size() >= 16 + 4 * (size_t)M.m) { int i = r.below(M.m), v = r.chance(50) ? hostile[r.below(11)] : r.range(-3, 40); memcpy(&b[16 + 4 * i], &v, 4); what += fmt(" rowcount%d=%d", i, v); } break;
    case 4: { long nz = M.nnz(); size_t off = 16 + 4 * (size_t)M.m; if (nz && b.size() >= off + 4 * nz) { int i = r.below((int)nz), v = r.chance(50) ? hostile[r.below(11)] : M.n + r.range(-1, 2); memcpy(&b[off + 4 * i], &v, 4); what += fmt(" column%d=%d", i, v); } break; }
    case 5: if (!b.empty()) { int i = r.below((int)b.size()); b[i] = (char)r.below(256); what += fmt(" byte%d", i); } break;
    }
  }
  int base = r.below(2), t = c.threads(); bool pre = r.chance(30);
  c.describe(fmt("binfuzz base=%d threads=%d reused=%d %dx%d nnz=%ld file=%zu:", base, t, pre, M.m, M.n, M.nnz(), b.size()) + what);
  std::string f = c.scratch + "/f.bin"; spit(f, b); int fd0 = openFds();
  bool gone = r.chance(2); if (gone) unlink(f.c_str());
  CSR *A = pre ? new CSR(2, 2, 1) : r.chance(50) ? new CSR() : NULL;
  if (pre) { A->rowptr[0] = 0; A->rowptr[1] = A->rowptr[2] = 1; A->colidx[0] = 0; }
  if (A) A->loadBin(f.c_str(), base); else A = new CSR(f.c_str(), base);
  HV_CHECK(openFds() == fd0, "file-left-open", "loadBin left a file open");
  // either an empty result or one whose every index is inside its shape
  HV_CHECK(A->m >= 0 && A->n >= 0, "shape", "shape %dx%d", A->m, A->n);
  HV_CHECK(A->rowptr != NULL, "no-rows", "no row pointers after loading a damaged file (shape %dx%d)", A->m, A->n);
  Mat g = readCSR(A, "damaged file", base, A->m, A->n); checkDiag(A, base, "damaged file");
  bool same = b == orig && !gone; if (same) compareRowsExact(M, g, "roundtrip", "undamaged file");
  if (b.size() < orig.size() && oneTrunc) HV_CHECK(g.nnz() == 0, "truncated-accepted", "a truncated file gave %ld entries", g.nnz());
  c.count(same ? "undamaged files" : g.m || g.n ? "damaged files giving a consistent matrix" : "damaged files refused");
  delete A;
  uint64_t hh = 1; for (unsigned char ch : b) hh = hh * 1099511628211ull + ch; c.sig(mix(hh, base));
}

// --------------------------------------------------------------------- COO
static void coo(Ctx &c) {
  Rng &r = c.rng; GenOpt o; o.cap = 1500; o.dup = r.chance(40); o.fullDiag = r.chance(40); bool large = r.below(120) == 0; Mat M = large ? genLarge(r, o) : genGeneral(r, o);
  if (large) c.count("large inputs");
  std::vector<Ent> e = M.entries(false); int ord = r.below(4);
  if (ord == 0) r.shuffle(e); else if (ord == 1) std::reverse(e.begin(), e.end()); else if (ord == 2) std::stable_sort(e.begin(), e.end(), [](const Ent &a, const Ent &b) { return a.c < b.c; });
  int base = r.below(2), t = c.threads(), how = r.below(3); bool sort = r.chance(60), sep = r.chance(60), dp = r.chance(70);
  c.describe(fmt("coo how=%d sort=%d base=%d diagptr=%d separate=%d threads=%d order=%d ", how, sort, base, dp, sep, t, ord) + showMat(M, 40));
  size_t nz = e.size(); int *ri = xmalloc<int>(nz), *ci = xmalloc<int>(nz); double *v = xmalloc<double>(nz);
  for (size_t k = 0; k < nz; ++k) { ri[k] = e[k].r + 1; ci[k] = e[k].c + 1; v[k] = e[k].v; }
  if (how == 0) {
    int *rp = xmalloc<int>(M.m + 1), *cx = xmalloc<int>(nz); double *vv = xmalloc<double>(nz);
    SpMP::dcoo2csr(M.m, (int)nz, rp, cx, vv, ri, ci, v, sort, base);
    CSR A(M.m, M.n, rp, cx, vv);
    Mat g = readCSR(&A, "dcoo2csr", base, M.m, M.n); compareEntries(M, g, "entries", "dcoo2csr");
    if (sort) for (int i = 0; i < M.m; ++i) for (size_t q = 1; q < g.rows[i].size(); ++q) HV_CHECK(g.rows[i][q - 1].first <= g.rows[i][q].first, "order", "row %d not sorted", i);
    else { std::vector<std::vector<std::pair<int,double>>> w(M.m); for (auto &x : e) w[x.r].push_back(std::make_pair(x.c, x.v)); Mat W(M.m, M.n); W.rows = w; compareRowsExact(W, g, "input-order", "unsorted conversion"); }
    A.rowptr = A.colidx = NULL; A.values = NULL; free(rp); free(cx); free(vv);
  } else {
    COO C; C.m = M.m; C.n = M.n; C.nnz = (int)nz; C.rowidx = MALLOC(int, nz); C.colidx = MALLOC(int, nz); C.values = MALLOC(double, nz);
    for (size_t k = 0; k < nz; ++k) { C.rowidx[k] = ri[k]; C.colidx[k] = ci[k]; C.values[k] = v[k]; }
    CSR A; A.alloc(M.m, (int)nz, how == 1 && sep);
    if (!dp) FREE(A.diagptr);
    double canary = -77; if (A.diag && !sep) for (int i = 0; i < M.m; ++i) A.diag[i] = A.idiag[i] = canary;
    SpMP::dcoo2csr(&A, &C, base, sep);
    Mat g = readCSR(&A, "dcoo2csr(COO)", base, M.m, M.n); compareEntries(M, g, "entries", "dcoo2csr(COO)");
    for (int i = 0; i < M.m; ++i) for (size_t q = 1; q < g.rows[i].size(); ++q) HV_CHECK(g.rows[i][q - 1].first <= g.rows[i][q].first, "order", "row %d not sorted", i);
    if (dp) checkDiag(&A, base, "dcoo2csr(COO)");
    for (size_t k = 0; k < nz; ++k) HV_CHECK(C.rowidx[k] == ri[k] && C.colidx[k] == ci[k] && !memcmp(&C.values[k], &v[k], 8), "input-changed", "triple %zu changed", k);
  }
  for (size_t k = 0; k < nz; ++k) HV_CHECK(ri[k] == e[k].r + 1 && ci[k] == e[k].c + 1 && !memcmp(&v[k], &e[k].v, 8), "input-changed", "triple %zu changed", k);
  free(ri); free(ci); free(v);
  c.count("conversions"); c.count("entries compared", nz); if (o.dup) c.count("inputs that may hold duplicates");
  if (nz) c.sig(mix(M.hash(), ((how * 2 + sort) * 2 + base) * 4 + ord));
}

// ------------------------------------------- base switches, copies, releases
struct Model { Mat M; int base; bool vals; std::vector<int> dp; bool hasDp; std::vector<int> ext; bool hasExt; bool hasIdiag, hasDiag; };
static void verify(const CSR *A, const Model &m, const char *what) {
  Mat g = readCSR(A, what, m.base, m.M.m, m.M.n, m.vals); Mat w = m.M; if (!m.vals) for (auto &row : w.rows) for (auto &p : row) p.second = 1.0;
  compareRowsExact(w, g, "entries", what);
  HV_CHECK((A->values != NULL) == m.vals || m.M.nnz() == 0, "values", "%s: values array %s", what, A->values ? "appeared" : "vanished");
  HV_CHECK((A->diagptr != NULL) == m.hasDp || m.M.m == 0, "diagptr", "%s: diagonal pointers %s", what, A->diagptr ? "appeared" : "vanished");
  if (m.hasDp) for (int i = 0; i < m.M.m; ++i) if (m.dp[i] >= 0) HV_CHECK(A->diagptr[i] == m.dp[i] + m.base, "diagptr", "%s: diagptr[%d]=%d expected %d", what, i, A->diagptr[i], m.dp[i] + m.base);
  HV_CHECK((A->extptr != NULL) == m.hasExt || m.M.m == 0, "extptr", "%s: external-column pointers %s", what, A->extptr ? "appeared" : "vanished");
  if (m.hasExt) for (int i = 0; i < m.M.m; ++i) HV_CHECK(A->extptr[i] == m.ext[i] + m.base, "extptr", "%s: extptr[%d]=%d expected %d", what, i, A->extptr[i], m.ext[i] + m.base);
  HV_CHECK((A->idiag != NULL) == m.hasIdiag || m.M.m == 0, "idiag", "%s: inverse diagonal %s", what, A->idiag ? "appeared" : "vanished");
  if (m.hasIdiag) for (int i = 0; i < m.M.m; ++i) if (m.dp[i] >= 0) { double v = 0; int k = 0, s = 0; for (int q = 0; q < i; ++q) s += (int)m.M.rows[q].size(); k = m.dp[i] - s; v = 1 / m.M.rows[i][k].second; HV_CHECK(!memcmp(&v, &A->idiag[i], 8), "idiag", "%s: idiag[%d]=%.17g expected %.17g", what, i, A->idiag[i], v); }
  HV_CHECK(A->getNnz() == m.M.nnz() && A->getBase() == m.base, "nnz", "%s: nnz %d base %d", what, A->getNnz(), A->getBase());
}
static void copyHist(Ctx &c) {
  Rng &r = c.rng; GenOpt o; o.cap = 300; o.square = r.chance(70); o.fullDiag = o.square && r.chance(80); o.sorted = r.chance(75); Mat M = genGeneral(r, o);
  // diagonal construction requires lower part, diagonal, upper part in every row
  bool full = o.fullDiag; for (int i = 0; i < M.m && full; ++i) { bool has = false; for (auto &p : M.rows[i]) if (p.first >= i) { has = p.first == i; break; } full = has; }
  Model m0; m0.base = r.below(2); m0.vals = r.chance(85); m0.hasDp = r.chance(40) && full; m0.hasExt = r.chance(40); m0.hasIdiag = m0.hasDiag = false;
  m0.M = M; { int k = 0; for (int i = 0; i < M.m; ++i) { int d = -1; for (size_t q = 0; q < M.rows[i].size(); ++q) if (M.rows[i][q].first == i && d < 0) d = k + (int)q; m0.dp.push_back(d); m0.ext.push_back(k + r.below((int)M.rows[i].size() + 1)); k += (int)M.rows[i].size(); } }
  HCSR h; std::vector<int> rel; { int k = 0; for (int i = 0; i < M.m; ++i) { rel.push_back(m0.ext[i] - k); k += (int)M.rows[i].size(); } }
  build(h, M, m0.base, m0.vals, m0.hasDp, m0.hasExt ? &rel : NULL);
  std::string log = fmt("history base=%d values=%d diagptr=%d ext=%d full-diagonal=%d ", m0.base, m0.vals, m0.hasDp, m0.hasExt, full) + showMat(M, 30) + " ops:";
  struct Item { CSR *A; Model m; bool owner; };
  std::vector<Item> pool; Item it0 = {h.A, m0, false}; pool.push_back(it0);
  int steps = r.range(3, 14); c.describe(log); uint64_t sg = M.patternHash();
  std::vector<CSR *> toDelete; 
  struct Cleanup { std::vector<Item> &p; ~Cleanup() { for (size_t k = 1; k < p.size(); ++k) if (p[k].A) delete p[k].A; } } cl{pool};
  int *origP[4] = {h.rowptr, h.colidx, h.diagptr, h.extptr};
  for (int s = 0; s < steps; ++s) {
    size_t k = r.below((int)pool.size()); Item *it = &pool[k]; if (!it->A) continue;
    int t = c.threads(); int op = r.below(10); sg = mix(sg, op * 16 + k);
    switch (op) {
    case 0: case 1: it->A->make0BasedIndexing(); it->m.base = 0; log += fmt(" %zu.to0/%d", k, t); break;
    case 2: case 3: it->A->make1BasedIndexing(); it->m.base = 1; log += fmt(" %zu.to1/%d", k, t); break;
    case 4: case 5: { Item n = {new CSR(*it->A), it->m, true}; log += fmt(" %zu=copy(%zu)/%d", pool.size(), k, t); pool.push_back(n); c.count("copies"); break; }
    case 6: if (k) { delete it->A; it->A = NULL; log += fmt(" delete %zu", k); c.count("releases"); } break;
    case 7: if (full && it->m.vals) { log += fmt(" %zu.idiag/%d", k, t); c.describe(log); it->A->computeInverseDiag(); it->m.hasDp = true; it->m.hasIdiag = true; } break;
    case 8: if (k || pool.size() > 1) {  // overwrite one matrix's numbers: no other may notice
        if (it->m.M.nnz() && it->m.vals) { int i; do i = r.below(M.m); while (it->m.M.rows[i].empty()); int q = r.below((int)it->m.M.rows[i].size()), off = 0; for (int z = 0; z < i; ++z) off += (int)it->m.M.rows[z].size(); if (it->m.M.rows[i][q].first != i) { double v = genValue(r); it->m.M.rows[i][q].second = v; it->A->values[off + q] = v; log += fmt(" %zu.values[%d]=%g", k, off + q, v); } } }
      break;
    case 9: {  // assignment between matrices that own their arrays
      size_t k2 = r.below((int)pool.size());
      if (k && k2 && pool[k2].A) { *pool[k].A = *pool[k2].A; pool[k].m = pool[k2].m; log += fmt(" %zu:=%zu/%d", k, k2, t); c.count("assignments"); } break; }
    }
    c.describe(log);
    for (size_t q = 0; q < pool.size(); ++q) if (pool[q].A) verify(pool[q].A, pool[q].m, fmt("after step %d, matrix %zu", s, q).c_str());
    c.count("steps"); 
    if (pool.size() > 8) break;
  }
  HV_CHECK(h.A->rowptr == origP[0] && h.A->colidx == origP[1] && (!h.diagptr || h.A->diagptr == origP[2]) && (!h.extptr || h.A->extptr == origP[3]), "arrays-replaced", "user arrays were replaced");
  // diagonal arrays the library built for a matrix over user arrays belong to the library
  if (h.A->diagptr && !h.diagptr) { CSR *A = h.A; int *d = A->diagptr; double *id = A->idiag; A->diagptr = NULL; A->idiag = NULL; FREE(d); FREE(id); }
  else if (h.A->idiag) { double *id = h.A->idiag; h.A->idiag = NULL; FREE(id); }
  c.sig(sg);
}
// releasing a matrix over user arrays must leave them alone
static void userArrays(Ctx &c) {
  Rng &r = c.rng; GenOpt o; o.cap = 200; Mat M = genGeneral(r, o); int base = r.below(2), how = r.below(3), t = c.threads();
  c.describe(fmt("user arrays base=%d how=%d threads=%d ", base, how, t) + showMat(M, 30));
  HCSR h; build(h, M, base); std::vector<int> ext; for (int i = 0; i < M.m; ++i) ext.push_back(r.below((int)M.rows[i].size() + 1));
  int *xp = xmalloc<int>(M.m); for (int i = 0; i < M.m; ++i) xp[i] = ext[i] + h.rowptr[i];
  CSR *A = new CSR(M.m, M.n, h.rowptr, h.colidx, h.values); A->extptr = xp;
  Snapshot s(A);
  if (how == 0) delete A;
  else if (how == 1) { A->dealloc(); delete A; }
  else {  // the object is given new, owned contents; the old arrays stay the user's
    std::string f = c.scratch + "/u.bin"; A->storeBin(f.c_str()); A->loadBin(f.c_str(), base);
    HV_CHECK(A->rowptr != h.rowptr && A->colidx != h.colidx, "user-array-reused", "loadBin wrote into user arrays");
    Mat g = readCSR(A, "loaded", base, M.m, M.n); compareRowsExact(M, g, "roundtrip", "loaded"); delete A; }
  CSR *B = new CSR(M.m, M.n, h.rowptr, h.colidx, h.values); B->extptr = xp; s.check(B, "user-array-changed", "releasing a matrix");
  B->rowptr = B->colidx = B->extptr = NULL; B->values = NULL; delete B; free(xp);
  c.count("user-array releases"); if (M.nnz()) c.sig(mix(M.hash(), how + 7777));
}
void run_case(Ctx &c) {
  if (c.mode == "bin") bin(c);
  else if (c.mode == "binfuzz") binfuzz(c);
  else if (c.mode == "coo") coo(c);
  else if (c.rng.chance(85)) copyHist(c); else userArrays(c);
}
