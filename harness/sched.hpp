// Shared by the schedule harnesses: building schedules, and the happens-before
// oracle over the published tasks, threads and waits.
#pragma once
#include "common.hpp"
#include "LevelSchedule.hpp"
#include "synk/barrier.hpp"
using namespace hv;
using namespace SpMP;
using std::vector;

struct SchedCase {
  Mat M;                    // local part, zero based, rows lower|diag|upper (+ non-local tail)
  vector<vector<int>> adj;  // undirected local graph
  int n = 0, base = 0, team = 1;
  bool ext = false;
  vector<int> extOff;       // per row: number of local entries
  std::string kind;
};

// graph families with deep/shallow/wide levels, the scheduling workload
inline void genSched(Ctx &c, SchedCase &s, int cap) {
  s.adj = genGraph(c.rng, cap, s.kind);
  s.n = (int)s.adj.size();
  bool shuf = c.rng.chance(50);
  s.M = symMat(c.rng, s.adj, shuf, true);
  s.base = c.rng.below(2);
  s.team = c.threads();
  s.ext = c.rng.chance(25) && s.n > 0;
  if (s.ext) {
    int extra = 1 + c.rng.below(9);
    s.M.n = s.n + extra;
    for (int i = 0; i < s.n; ++i) {
      s.extOff.push_back((int)s.M.rows[i].size());
      if (c.rng.chance(40)) { int k = 1 + c.rng.below(3); for (int q = 0; q < k; ++q) s.M.rows[i].push_back(std::make_pair(s.n + c.rng.below(extra), 0.5)); }
    }
  }
  c.add(fmt("%s n=%d nnz=%ld base=%d team=%d%s%s", s.kind.c_str(), s.n, s.M.nnz(), s.base, s.team, s.ext ? " ext" : "", shuf ? " part-sorted" : ""));
}

struct VecCost : CostFunction { vector<int> v; int getCostOf(int r) const { return v[r]; } };

struct BuildOpt { bool barrier = false, reduce = true, fuse = false, aggregate = false, pool = false; int entry = 0, cost = 0; uint64_t costSeed = 0; };
inline std::string show(const BuildOpt &o) { return fmt("barrier=%d reduce=%d fuse=%d aggr=%d pool=%d entry=%d cost=%d", o.barrier, o.reduce, o.fuse, o.aggregate, o.pool, o.entry, o.cost); }
inline BuildOpt genOpt(Rng &r, bool ext) {
  BuildOpt o;
  o.barrier = r.chance(30); o.reduce = r.chance(65); o.aggregate = r.chance(25); o.pool = r.chance(15);
  o.entry = r.below(5);
  if (ext && (o.entry == 2 || o.entry == 3)) o.entry = 4;
  o.cost = r.below(6); o.costSeed = r.next();
  return o;
}

// cost of every row (2..6: as given by the user)
inline vector<int> costs(const SchedCase &s, const BuildOpt &o) {
  vector<int> v(s.n, 1); Rng r(o.costSeed);
  for (int i = 0; i < s.n; ++i) switch (o.entry == 0 ? 0 : o.cost) {
    case 0: v[i] = (int)s.M.rows[i].size(); break;
    case 1: v[i] = 1; break;
    case 2: v[i] = 1 + r.below(50); break;
    case 3: v[i] = r.chance(10) ? 5000 : 1; break;
    case 4: v[i] = r.chance(50) ? 0 : 1 + r.below(4); break;   // some rows are free
    case 6: v[i] = r.chance(20) ? INT_MAX : (int)(r.next() >> 33); break;
    default: v[i] = 0; break;                                   // all rows are free
  }
  return v;
}

// the shared library barrier has to be re-created for a new team size
inline void freshBarrier() { synk::Barrier::deleteInstance(); }

inline void construct(LevelSchedule &L, const SchedCase &s, const BuildOpt &o, HCSR &h, bool fresh = true) {
  if (fresh) freshBarrier();
  L.useBarrier = o.barrier; L.transitiveReduction = o.reduce; L.fuseSpMV = o.fuse;
  L.aggregateForVectorization = o.aggregate; L.useMemoryPool = o.pool;
  bool wantDiag = o.entry == 3 || o.entry == 4 || s.ext;
  build(h, s.M, s.base, true, wantDiag, s.ext ? &s.extOff : nullptr);
  VecCost vc; vc.v = costs(s, o);
  PrefixSumCostFunction pc(h.rowptr);
  CostFunction unit;
  const CostFunction &cf = o.cost == 0 ? (const CostFunction &)pc : o.cost == 1 ? (const CostFunction &)unit : (const CostFunction &)vc;
  switch (o.entry) {
    case 0: L.constructTaskGraph(*h.A); break;
    case 1: L.constructTaskGraph(*h.A, cf); break;
    case 2: L.constructTaskGraph(s.n, h.rowptr, h.colidx, cf); break;
    case 3: L.constructTaskGraph(s.n, h.rowptr, h.diagptr, h.colidx, cf); break;
    default: L.constructTaskGraph(s.n, h.rowptr, h.diagptr, h.extptr, h.colidx, cf); break;
  }
  // constructDiagPtr may have been attached by the library: keep it ours to free
  if (h.A->diagptr && h.A->diagptr != h.diagptr) { int *d = h.A->diagptr; h.A->diagptr = NULL; _mm_free(d); }
}

// per task clock: clk[task*T + t] = 1 + last task of thread t that is finished
// whenever 'task' starts its work after its waits (forward), or for the
// backward direction 1 + (reversed index).
struct Clocks {
  int T = 0, N = 0; vector<int> clk; vector<int> thr; vector<int> pos;  // position within its thread in execution order
  bool before(int a, int b) const { return a != b && clk[(size_t)b * T + thr[a]] > pos[a] + (thr[a] == thr[b] && 0); }
};

inline void checkShape(const LevelSchedule &L, const SchedCase &s, const BuildOpt &o) {
  int T = s.team, n = s.n;
  const vector<int> &tb = L.threadBoundaries, &kb = L.taskBoundaries;
  HV_CHECK((int)tb.size() == T + 1, "threads", "threadBoundaries has %zu entries for %d threads", tb.size(), T);
  HV_CHECK(tb[0] == 0, "threads", "first thread starts at task %d", tb[0]);
  for (int t = 0; t < T; ++t) HV_CHECK(tb[t] <= tb[t + 1], "threads", "thread %d has task range %d..%d", t, tb[t], tb[t + 1]);
  HV_CHECK(L.ntasks == tb[T], "threads", "ntasks %d but threads own %d", L.ntasks, tb[T]);
  HV_CHECK((int)kb.size() == L.ntasks + 1, "tasks", "taskBoundaries has %zu entries for %d tasks", kb.size(), L.ntasks);
  HV_CHECK(kb[L.ntasks] == n, "tasks", "the last task ends at row %d of %d", kb[L.ntasks], n);
  HV_CHECK(L.ntasks == 0 || kb[0] == 0, "tasks", "the first task starts at row %d", kb[0]);
  for (int k = 0; k < L.ntasks; ++k) HV_CHECK(kb[k] <= kb[k + 1], "tasks", "task %d covers rows %d..%d", k, kb[k], kb[k + 1]);
  vector<char> seen(n, 0);
  for (int i = 0; i < n; ++i) {
    int r = L.threadContToOrigPerm[i];
    HV_CHECK(r >= 0 && r < n && !seen[r], "perm", "published row order is not a permutation at %d: %d", i, r);
    seen[r] = 1;
  }
  for (int i = 0; i < n; ++i) HV_CHECK(L.origToThreadContPerm[L.threadContToOrigPerm[i]] == i, "inverse", "published inverse wrong at %d", i);
  if (o.barrier && T > 0) for (int t = 1; t < T; ++t) HV_CHECK(tb[t + 1] - tb[t] == tb[1] - tb[0], "barrier-count", "barrier mode: thread %d runs %d tasks, thread 0 runs %d", t, tb[t + 1] - tb[t], tb[1] - tb[0]);
}

// returns false on a cycle
inline bool clocks(const LevelSchedule &L, int T, bool fwd, Clocks &C, long long *waits = nullptr) {
  int N = L.ntasks;
  C.T = T; C.N = N; C.clk.assign((size_t)N * T, 0); C.thr.assign(N, 0); C.pos.assign(N, 0);
  for (int t = 0; t < T; ++t) for (int k = L.threadBoundaries[t]; k < L.threadBoundaries[t + 1]; ++k) { C.thr[k] = t; C.pos[k] = fwd ? k - L.threadBoundaries[t] : L.threadBoundaries[t + 1] - 1 - k; }
  const short *np = fwd ? L.nparentsForward : L.nparentsBackward;
  int **pa = fwd ? L.parentsForward : L.parentsBackward;
  vector<vector<int>> succ(N); vector<int> deg(N, 0);
  for (int k = 0; k < N; ++k) {
    HV_CHECK(np[k] >= 0, "wait-count", "task %d has %d %s waits", k, np[k], fwd ? "forward" : "backward");
    for (int j = 0; j < np[k]; ++j) {
      int p = pa[k][j];
      HV_CHECK(p >= 0 && p < N, "wait-range", "task %d waits for task %d of %d", k, p, N);
      succ[p].push_back(k); ++deg[k];
    }
    if (waits) *waits += np[k];
    int pred = fwd ? k - 1 : k + 1;
    if (pred >= L.threadBoundaries[C.thr[k]] && pred < L.threadBoundaries[C.thr[k] + 1]) { succ[pred].push_back(k); ++deg[k]; }
  }
  vector<int> q; for (int k = 0; k < N; ++k) if (!deg[k]) q.push_back(k);
  for (size_t h = 0; h < q.size(); ++h) {
    int k = q[h];
    int *me = &C.clk[(size_t)k * T];
    vector<int> done(me, me + T);
    done[C.thr[k]] = std::max(done[C.thr[k]], C.pos[k] + 1);
    for (int u : succ[k]) {
      int *o = &C.clk[(size_t)u * T];
      for (int t = 0; t < T; ++t) if (done[t] > o[t]) o[t] = done[t];
      if (--deg[u] == 0) q.push_back(u);
    }
  }
  return (int)q.size() == N;
}

inline vector<int> rowTasks(const LevelSchedule &L, int n) {
  vector<int> t(n, -1);
  for (int k = 0; k < L.ntasks; ++k) for (int i = L.taskBoundaries[k]; i < L.taskBoundaries[k + 1]; ++i) t[L.threadContToOrigPerm[i]] = k;
  return t;
}

// longest-chain levels of the lower triangle
inline vector<int> levelSizes(const SchedCase &s) {
  vector<int> lev(s.n, 0), cnt;
  for (int i = 0; i < s.n; ++i) { for (int j : s.adj[i]) if (j < i) lev[i] = std::max(lev[i], lev[j] + 1); if ((int)cnt.size() <= lev[i]) cnt.resize(lev[i] + 1, 0); ++cnt[lev[i]]; }
  return cnt;
}

inline long long checkOrder(const LevelSchedule &L, const SchedCase &s, const BuildOpt &o, Ctx &c) {
  vector<int> rt = rowTasks(L, s.n);
  long long deps = 0, cross = 0;
  for (int dir = 0; dir < 2; ++dir) {
    bool fwd = dir == 0;
    Clocks C;
    long long w = 0;
    bool ok = clocks(L, s.team, fwd, C, &w);
    c.count(fwd ? "forward waits seen" : "backward waits seen", w);
    if (!o.barrier) HV_CHECK(ok, "cycle", "%s waits are cyclic", fwd ? "forward" : "backward");
    for (int i = 0; i < s.n; ++i) for (int j : s.adj[i]) if (fwd ? j < i : j > i) {
      ++deps;
      int a = rt[j], b = rt[i];
      if (a == b) {
        int pj = L.origToThreadContPerm[j], pi = L.origToThreadContPerm[i];
        HV_CHECK(fwd ? pj < pi : pj > pi, "order-in-task", "%s: row %d must follow row %d in task %d", fwd ? "forward" : "backward", i, j, a);
        continue;
      }
      if (o.barrier) {
        HV_CHECK(C.pos[a] < C.pos[b], "order", "barrier mode %s: row %d (level %d) must follow row %d (level %d)", fwd ? "forward" : "backward", i, C.pos[b], j, C.pos[a]);
      } else
        HV_CHECK(C.clk[(size_t)b * C.T + C.thr[a]] > C.pos[a], "order", "%s: nothing orders row %d (task %d, thread %d) after row %d (task %d, thread %d)", fwd ? "forward" : "backward", i, b, C.thr[b], j, a, C.thr[a]);
      if (C.thr[a] != C.thr[b]) ++cross;
    }
  }
  c.count("row dependences checked", deps);
  c.count("cross-thread dependences checked", cross);
  return cross;
}
