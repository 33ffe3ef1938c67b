// C30: matrices and schedules whose arrays live in the shared memory pool.  The
// same operations are done on heap copies; the pool's bookkeeping, the blocks that
// were there before and the ones taken afterwards are watched.
#include "sched.hpp"
#include <set>
extern int hv_perturb;
int hv_num_probes = 0;
void run_probe(Ctx &, int) {}

namespace {
const size_t SIZE = 96u << 20;
MemoryPool *P; char *base0;
struct Blk { char *p; size_t len; unsigned char tag; std::string what; };

struct Watch {
  vector<Blk> live;
  void add(char *p, size_t len, const char *what, bool fillIt, unsigned char tag) {
    for (auto &b : live) HV_CHECK(p >= b.p + b.len || b.p >= p + len || !len || !b.len, "overlap", "%s (offset %ld, %zu bytes) overlaps %s (offset %ld, %zu bytes)", what, (long)(p - base0), len, b.what.c_str(), (long)(b.p - base0), b.len);
    HV_CHECK(p >= base0 && p + len <= base0 + SIZE, "outside", "%s lies outside the pool", what);
    if (fillIt) memset(p, tag, len);
    live.push_back(Blk{p, len, fillIt ? tag : (unsigned char)0, what});
  }
  void intact(const char *when) {
    for (auto &b : live) if (b.tag) for (size_t k = 0; k < b.len; ++k) if ((unsigned char)b.p[k] != b.tag) fail("clobbered", fmt("%s: byte %zu of %s (offset %ld, %zu bytes) was overwritten", when, k, b.what.c_str(), (long)(b.p - base0), b.len));
  }
  void contained(const char *when) { for (auto &b : live) if (b.len) HV_CHECK(P->contains(b.p) && P->contains(b.p + b.len - 1), "not-kept", "%s: %s (offset %ld, %zu bytes) is no longer part of the pool (head %zu, tail %zu)", when, b.what.c_str(), (long)(b.p - base0), b.len, P->getHead(), P->getTail()); }
};

// a place in the pool for the case: empty, behind earlier blocks, or so near the
// end that allocations start over at the beginning
size_t place(Ctx &c, Watch &w) {
  if (!P) { P = MemoryPool::getSingleton(); P->initialize(SIZE); base0 = (char *)P->allocate(0); }
  P->deallocateAll(); forget(base0, SIZE);
  Rng &r = c.rng; int how = r.below(4);
  if (how >= 2) {
    size_t head = (20u << 20) + 64 * r.below(1000), gap = how == 2 ? (size_t)(4u << 20) : 64 * (size_t)(1 + r.below(r.chance(50) ? 40 : 3000));
    char *q = (char *)P->allocate(SIZE - gap - 64 - SIZE % 64); (void)q; P->setHead(head);
    w.add(base0 + head, 4096, "the oldest block", true, 0x31);
    size_t t = P->getTail(); w.add(base0 + t - 4096, 4096, "the newest block", true, 0x32);
    c.add(fmt("head=%zu tail=%zu", head, t));
  } else if (how == 1) {
    for (int k = r.range(1, 4), q = 0; q < k; ++q) { size_t len = 64 * (1 + r.below(300)); w.add((char *)P->allocate(len), len, "an earlier block", true, 0x41 + q); }
    if (r.chance(40)) { size_t len = 64 * (1 + r.below(300)); w.add((char *)P->allocateFront(len), len, "an earlier front block", true, 0x51); }
    c.add(fmt("head=%zu tail=%zu", P->getHead(), P->getTail()));
  } else c.add("empty pool");
  return how;
}
template <class T> T *put(const T *src, size_t n) { T *p = P->allocate<T>(n); if (n) memcpy(p, src, n * sizeof(T)); return p; }

vector<vector<int>> waits(const LevelSchedule &L, bool fwd) {
  vector<vector<int>> w(L.ntasks);
  for (int k = 0; k < L.ntasks; ++k) { short n = fwd ? L.nparentsForward[k] : L.nparentsBackward[k]; int *p = (fwd ? L.parentsForward : L.parentsBackward)[k]; w[k].assign(p, p + n); std::sort(w[k].begin(), w[k].end()); }
  return w;
}
void same(const LevelSchedule &A, const LevelSchedule &B, int n, const char *when) {
  HV_CHECK(A.ntasks == B.ntasks && A.threadBoundaries == B.threadBoundaries && A.taskBoundaries == B.taskBoundaries && A.levIndices == B.levIndices, "differs", "%s: tasks differ from those of the schedule on the heap", when);
  for (int i = 0; i < n; ++i) HV_CHECK(A.threadContToOrigPerm[i] == B.threadContToOrigPerm[i] && A.origToThreadContPerm[i] == B.origToThreadContPerm[i], "differs", "%s: row order differs at %d", when, i);
  for (int d = 0; d < 2; ++d) HV_CHECK(waits(A, d) == waits(B, d), "differs", "%s: %s waits differ from those of the schedule on the heap", when, d ? "forward" : "backward");
  written(A.threadContToOrigPerm, n); written(A.origToThreadContPerm, n); written((int *)A.taskFinished, A.ntasks);
  for (int k = 0; k < A.ntasks; ++k) HV_CHECK(A.taskFinished[k] == 0, "differs", "%s: flag of task %d is %d", when, k, A.taskFinished[k]);
}
void junk(Ctx &c) {   // later users of the pool write over everything that is free
  for (int q = c.rng.range(1, 3); q > 0; --q) { size_t len = (1u << 16) + 64 * c.rng.below(20000); bool front = c.rng.chance(40); void *p = front ? P->allocateFront(len) : P->allocate(len); memset(p, 0xA5, len); forget(p, len); c.count("later blocks"); }
}
size_t up(size_t x) { return (x + 63) / 64 * 64; }

void schedules(Ctx &c) {
  Watch w; place(c, w);
  struct Keep { LevelSchedule *L, *H; int n; size_t mark; };
  vector<Keep> kept;
  struct Fin { vector<Keep> &k; ~Fin() { for (auto &x : k) { delete x.L; delete x.H; } freshBarrier(); } } fin = {kept};
  SchedCase s; size_t head0 = P->getHead(), tail0 = P->getTail();
  for (int q = c.rng.range(1, 3), k = 0; k < q; ++k) {
    s = SchedCase(); genSched(c, s, c.rng.chance(10) ? 2000 : c.rng.chance(30) ? 500 : 120);
    BuildOpt o = genOpt(c.rng, s.ext); o.fuse = c.rng.chance(20); c.add(show(o));
    hv_perturb = c.rng.chance(30) ? 1 << c.rng.below(8) : 0;
    Keep K; K.n = s.n; K.L = new LevelSchedule; K.H = new LevelSchedule; K.mark = P->getTail(); kept.push_back(K); HCSR h1, h2;
    BuildOpt oh = o; oh.pool = false; size_t hh = P->getHead(), tt = P->getTail();
    construct(*K.H, s, oh, h1);
    HV_CHECK(P->getHead() == hh && P->getTail() == tt, "heap-user", "a schedule on the heap moved the pool: head %zu -> %zu, tail %zu -> %zu", hh, P->getHead(), tt, P->getTail());
    o.pool = true; construct(*K.L, s, o, h2);
    hv_perturb = 0;
    HV_CHECK(P->getHead() == hh, "head", "constructing a schedule moved the head of the pool from %zu to %zu", hh, P->getHead());
    w.intact("after constructing a schedule");
    LevelSchedule &L = *K.L;
    checkShape(L, s, o); same(L, *K.H, s.n, "after construction");
    size_t cf = 0, cb = 0; for (int k = 0; k < L.ntasks; ++k) { cf += L.nparentsForward[k]; cb += L.nparentsBackward[k]; }
    w.add((char *)L.threadContToOrigPerm, s.n * 4, "the row order", false, 0); w.add((char *)L.origToThreadContPerm, s.n * 4, "the inverse row order", false, 0);
    w.add((char *)L.nparentsForward, L.ntasks * 2, "the forward wait counts", false, 0); w.add((char *)L.nparentsBackward, L.ntasks * 2, "the backward wait counts", false, 0);
    w.add((char *)L.parentsForward, L.ntasks * sizeof(int *), "the forward wait lists", false, 0); w.add((char *)L.parentsBackward, L.ntasks * sizeof(int *), "the backward wait lists", false, 0);
    w.add((char *)L.taskFinished, L.ntasks * 4, "the completion flags", false, 0);
    if (L.ntasks) { w.add((char *)L.parentsForward[0], cf * 4, "the forward waits", false, 0); w.add((char *)L.parentsBackward[0], cb * 4, "the backward waits", false, 0); }
    w.contained("after construction");
    // what stays taken: the published arrays, one array of rows, and without
    // reduction the task graph
    size_t tn = P->getTail();
    if (tn >= tt) {
      size_t nt = L.ntasks, nz = h2.nnz, need = 3 * up(4 * (s.n + 160)) + up(2 * nt) * 2 + up(sizeof(int *) * nt) * 2 + up(4 * nt) + up(4 * cf) + up(4 * cb);
      if (!o.reduce) need += 3 * up(4 * (nt + 1)) + 2 * up(4 * ((nz - s.n) / 2 + s.n + nt));
      HV_CHECK(tn - tt <= need + need / 4 + 16384, "scratch-kept", "constructing a schedule of %d rows and %zu tasks kept %zu bytes of the pool, its arrays need %zu", s.n, nt, tn - tt, need);
    } else c.count("schedules that start over at the beginning of the pool");
    c.count("pooled schedules"); c.sig(mix(s.M.patternHash() ^ mix(s.base, s.team), o.barrier + 2 * o.reduce + 4 * o.fuse + 8 * o.aggregate + 16 * k));
    if (c.rng.chance(30)) { size_t len = 64 * (1 + c.rng.below(200)); w.add((char *)P->allocate(len), len, "a block between", true, 0x61 + k); }
  }
  size_t th = P->getHead(), tt = P->getTail();
  junk(c);
  for (auto &K : kept) same(*K.L, *K.H, K.n, "after other users filled the pool");
  w.intact("after other users filled the pool");
  P->setTail(tt); P->setHead(th);
  // the newest schedule goes: the others stay as they are
  size_t a = P->getHead(), b = P->getTail();
  Keep last = kept.back(); kept.pop_back(); delete last.L; delete last.H;
  HV_CHECK(P->getHead() == a && P->getTail() == b, "destructor", "destroying a schedule moved the pool");
  w.intact("after destroying a schedule");
  P->setTail(last.mark); junk(c);
  for (auto &K : kept) same(*K.L, *K.H, K.n, "after the newest schedule was released");
  P->deallocateAll(); (void)head0; (void)tail0;
}

void matrices(Ctx &c) {
  Watch w; place(c, w); Rng &r = c.rng;
  std::string kind; auto adj = genGraph(r, r.chance(15) ? 1500 : 150, kind); Mat M = symMat(r, adj, false, true, r.chance(50));
  if (r.chance(60)) for (int q = r.below(M.m / 3 + 3); q > 0 && M.m; --q) { int i = r.below(M.m); if (M.rows[i].size() > 1) { int k = r.below((int)M.rows[i].size()); if (M.rows[i][k].first != i) M.rows[i].erase(M.rows[i].begin() + k); } }
  int m = M.m, base = r.below(2), t = c.threads(); vector<int> ext; bool hasExt = r.chance(30) && m;
  vector<std::set<int>> want(m); bool sym = true;
  for (int i = 0; i < m; ++i) for (auto &p : M.rows[i]) { want[i].insert(p.first); want[p.first].insert(i); }
  for (int i = 0; i < m; ++i) if (want[i].size() != M.rows[i].size()) sym = false;
  if (hasExt) { M.n = m + 5; for (int i = 0; i < m; ++i) { ext.push_back((int)M.rows[i].size()); if (r.chance(40)) M.rows[i].push_back(std::make_pair(m + r.below(5), 0.5)); } }
  c.add(fmt("%s m=%d nnz=%ld base=%d team=%d ext=%d", kind.c_str(), m, M.nnz(), base, t, hasExt));
  HCSR h; build(h, M, base, true, true, hasExt ? &ext : nullptr);
  CSR A(M.m, M.n, put(h.rowptr, m + 1), put(h.colidx, h.nnz), put(h.values, h.nnz));
  if (hasExt) A.extptr = put(h.extptr, m);
  w.add((char *)A.rowptr, 4 * (m + 1), "the row pointers", false, 0); w.add((char *)A.colidx, 4 * (size_t)h.nnz, "the columns", false, 0);
  for (int step = 0, e = r.range(1, 4); step < e; ++step) {
    size_t h0 = P->getHead(), t0 = P->getTail(); int op = r.below(5); c.add(fmt("op%d", op));
    if (op <= 1) {
      int *rp = 0, *dp = 0, *ep = 0, *ci = 0; bool got = getSymmetricNnzPattern(&A, &rp, &dp, &ep, &ci);
      HV_CHECK(got == sym, "answer", "symmetrising a pooled matrix: reported symmetric=%d, truth %d", got, sym);
      HV_CHECK(P->getHead() == h0, "head", "symmetrising moved the head of the pool");
      if (got) HV_CHECK(P->getTail() == t0, "scratch-kept", "symmetrising a symmetric matrix moved the tail of the pool from %zu to %zu", t0, P->getTail());
      else {
        bool in = P->contains(rp); if (in) w.add((char *)rp, 4 * (m + 1), "the new row pointers", false, 0);
        HV_CHECK(rp && dp && ci && (!hasExt || ep), "missing-array", "some output array is missing");
        long k = base;
        for (int i = 0; i < m; ++i) {
          HV_CHECK(rp[i] == k, "rowptr", "rowptr[%d]=%d, expected %ld", i, rp[i], k);
          for (int j : want[i]) { HV_CHECK(ci[k - base] - base == j, "entries", "row %d: column %d, expected %d", i, ci[k - base] - base, j); if (j == i) HV_CHECK(dp[i] == k, "diagptr", "row %d: %d, expected %ld", i, dp[i], k); ++k; }
          if (hasExt) { HV_CHECK(ep[i] == k, "extptr", "row %d: %d, expected %ld", i, ep[i], k); k += (long)M.rows[i].size() - ext[i]; }
        }
        HV_CHECK(rp[m] == k, "rowptr", "rowptr[%d]=%d, expected %ld", m, rp[m], k);
        if (!in) FREE(rp);
        if (!P->contains(dp)) FREE(dp);
        if (!P->contains(ci)) FREE(ci);
        if (ep && !P->contains(ep)) FREE(ep);
        c.count("pooled patterns completed");
      }
    } else if (op == 2) {
      if (hasExt) continue;   // (transpose is for purely local matrices)
      CSR *T = A.transpose(); vector<vector<std::pair<int, double>>> tr(M.n); for (int i = 0; i < m; ++i) for (auto &p : M.rows[i]) tr[p.first].push_back(std::make_pair(i, p.second));
      bool ok = T->m == M.n && T->n == m && T->getBase() == base; long k = 0;
      for (int i = 0; ok && i < M.n; ++i) for (auto &p : tr[i]) { ok = ok && T->colidx[k] - base == p.first && T->values[k] == p.second; ++k; }
      delete T; HV_CHECK(ok, "transpose", "transposing a pooled matrix went wrong"); c.count("pooled matrices transposed");
    } else if (op == 3) {
      if (base == A.getBase()) { if (base) A.make0BasedIndexing(); else A.make1BasedIndexing(); if (base) A.make1BasedIndexing(); else A.make0BasedIndexing(); }
      c.count("pooled matrices rebased");
    } else {
      CSR *B = new CSR(A); bool in = P->contains(B->rowptr) || P->contains(B->colidx) || P->contains(B->values), eq = B->equals(A, false);
      delete B; HV_CHECK(!in, "copy", "the copy of a pooled matrix shares the pool"); HV_CHECK(eq, "copy", "the copy of a pooled matrix differs"); c.count("pooled matrices copied");
    }
    if (op > 1) HV_CHECK(P->getHead() == h0 && P->getTail() == t0, "moved", "operation %d moved the pool: head %zu -> %zu, tail %zu -> %zu", op, h0, P->getHead(), t0, P->getTail());
    w.intact("after an operation"); w.contained("after an operation");
    bool in = true; for (int i = 0; i <= m; ++i) in = in && A.rowptr[i] == h.rowptr[i]; for (int k = 0; k < h.nnz; ++k) in = in && A.colidx[k] == h.colidx[k] && A.values[k] == h.values[k];
    HV_CHECK(in, "input-changed", "operation %d changed the pooled matrix", op);
  }
  // destroying a matrix over pool memory takes nothing from the pool and frees nothing of it
  size_t a = P->getHead(), b = P->getTail(); int *rp = A.rowptr; vector<int> copy(rp, rp + m + 1);
  A.dealloc();
  HV_CHECK(P->getHead() == a && P->getTail() == b && !memcmp(rp, copy.data(), 4 * (m + 1)), "destructor", "destroying a pooled matrix changed the pool");
  w.intact("after destroying a matrix");
  c.count("pooled matrices"); c.sig(mix(M.patternHash(), base * 100 + t * 2 + hasExt));
  P->deallocateAll();
}
}

void run_case(Ctx &c) { if (c.rng.chance(55)) schedules(c); else matrices(c); }
