// C01 (mode graph), C03 (mode reduce), C04 (mode fused): the published schedule
// judged by a happens-before oracle.
#include "sched.hpp"
#include <sys/wait.h>
extern int hv_perturb;
int hv_num_probes = 1;

static void initPool() { static bool done = false; if (!done) { MemoryPool::getSingleton()->initialize(96u << 20); done = true; } }
static int cap(Ctx &c) { return c.rng.chance(8) ? 2000 : c.rng.chance(30) ? 500 : 120; }

static void prep(Ctx &c, const BuildOpt &o) {
  if (o.pool) { initPool(); MemoryPool::getSingleton()->deallocateAll();
    forget(MemoryPool::getSingleton()->allocate(0), 96u << 20);
    // leave some space at both ends, as earlier allocations would
    MemoryPool::getSingleton()->allocate(64 * (1 + c.rng.below(100))); }
  hv_perturb = c.rng.chance(50) ? 1 << c.rng.below(10) : 0;
}

// a schedule object that has been constructed for another graph before
static bool earlier(Ctx &c, LevelSchedule &L, bool &pool) {
  if (!c.rng.chance(20)) return false;
  c.add("[built before for");
  SchedCase s; genSched(c, s, 60); BuildOpt o = genOpt(c.rng, s.ext); o.fuse = c.rng.chance(40); pool = o.pool; c.add(show(o) + "]");
  prep(c, o); HCSR h; construct(L, s, o, h); c.count("schedule objects constructed again");
  return true;
}

static void graph(Ctx &c) {
  LevelSchedule L; bool pooled = false, again = earlier(c, L, pooled);
  SchedCase s; genSched(c, s, cap(c));
  BuildOpt o = genOpt(c.rng, s.ext);
  o.fuse = c.rng.chance(20); if (again) o.pool = pooled;
  c.add(show(o));
  prep(c, o);
  HCSR h;
  construct(L, s, o, h);
  hv_perturb = 0;
  checkShape(L, s, o);
  vector<int> ls = levelSizes(s);
  HV_CHECK(L.levIndices.size() == ls.size() + 1, "levels", "%zu levels published, the longest chain has %zu", L.levIndices.size() - 1, ls.size());
  for (size_t k = 0; k < ls.size(); ++k) HV_CHECK(L.levIndices[k + 1] - L.levIndices[k] == ls[k], "levels", "level %zu has %d rows, expected %d", k, L.levIndices[k + 1] - L.levIndices[k], ls[k]);
  long long cross = checkOrder(L, s, o, c);
  for (int k = 0; k < L.ntasks; ++k) HV_CHECK(L.taskFinished[k] == 0, "flags", "completion flag of task %d starts as %d", k, L.taskFinished[k]);
  c.count("tasks", L.ntasks);
  c.maxi("levels in one schedule", ls.size());
  if (cross) c.sig(mix(s.M.patternHash() ^ mix(s.base, s.team), o.barrier + 2 * o.reduce + 4 * o.fuse + 8 * o.aggregate + 16 * o.pool + 32 * o.entry + 256 * o.cost));
  freshBarrier();
}

static vector<vector<int>> waitSets(const LevelSchedule &L, bool fwd) {
  vector<vector<int>> w(L.ntasks);
  for (int k = 0; k < L.ntasks; ++k) { short n = fwd ? L.nparentsForward[k] : L.nparentsBackward[k]; int *p = (fwd ? L.parentsForward : L.parentsBackward)[k]; w[k].assign(p, p + n); std::sort(w[k].begin(), w[k].end()); }
  return w;
}

static void reduceMode(Ctx &c) {
  SchedCase s; genSched(c, s, cap(c));
  BuildOpt o = genOpt(c.rng, s.ext); o.pool = false; if (c.rng.chance(80)) o.barrier = false;
  c.add(show(o));
  prep(c, o);
  LevelSchedule A, B, A2; HCSR h1, h2, h3;
  if (c.rng.chance(15)) { SchedCase s0; s0.adj.resize(7); s0.n = 7; Rng z(3); s0.M = symMat(z, s0.adj, false, true); s0.team = s.team; BuildOpt o0; o0.fuse = c.rng.chance(50); construct(A2, s0, o0, h3); h3.release(); c.count("schedule objects constructed again"); }
  o.reduce = true; construct(A, s, o, h1);
  hv_perturb = c.rng.chance(50) ? 1 << c.rng.below(10) : 0;
  construct(A2, s, o, h3);
  o.reduce = false; construct(B, s, o, h2);
  hv_perturb = 0;
  checkShape(A, s, o); checkShape(B, s, o); checkShape(A2, s, o);
  for (int z = 0; z < 2; ++z) {
    LevelSchedule &X = z ? A2 : B;
    HV_CHECK(A.threadBoundaries == X.threadBoundaries && A.taskBoundaries == X.taskBoundaries && A.levIndices == X.levIndices && A.ntasks == X.ntasks, z ? "rebuild-tasks" : "same-tasks", "tasks, levels or thread assignment differ");
    for (int i = 0; i < s.n; ++i) HV_CHECK(A.threadContToOrigPerm[i] == X.threadContToOrigPerm[i], z ? "rebuild-tasks" : "same-tasks", "row order differs at %d", i);
  }
  long long less = 0;
  for (int dir = 0; dir < 2; ++dir) {
    bool fwd = !dir; const char *d = fwd ? "forward" : "backward";
    vector<vector<int>> wa = waitSets(A, fwd), wb = waitSets(B, fwd), w2 = waitSets(A2, fwd);
    Clocks ca, cb; long long na = 0, nb = 0;
    bool oa = clocks(A, s.team, fwd, ca, &na), ob = clocks(B, s.team, fwd, cb, &nb);
    HV_CHECK(oa && ob, "cycle", "%s waits are cyclic", d);
    for (int k = 0; k < A.ntasks; ++k) {
      if (wa[k] != w2[k]) { std::string x, y; for (int v : wa[k]) x += fmt(" %d", v); for (int v : w2[k]) y += fmt(" %d", v); fail("rebuild-waits", fmt("%s waits of task %d differ between two builds:%s |%s", d, k, x.substr(0, 300).c_str(), y.substr(0, 300).c_str())); }
      HV_CHECK(wa[k].size() <= wb[k].size() && std::includes(wb[k].begin(), wb[k].end(), wa[k].begin(), wa[k].end()), "more-waits", "%s: task %d has a wait the unreduced schedule has not", d, k);
      for (int t = 0; t < s.team; ++t) HV_CHECK(ca.clk[(size_t)k * s.team + t] == cb.clk[(size_t)k * s.team + t], "order-lost", "%s: after reduction task %d is ordered after %d tasks of thread %d, before reduction after %d", d, k, ca.clk[(size_t)k * s.team + t], t, cb.clk[(size_t)k * s.team + t]);
    }
    HV_CHECK(na <= nb, "more-waits", "%s: %lld waits with reduction, %lld without", d, na, nb);
    less += nb - na;
    c.count("waits before reduction", nb); c.count("waits removed", nb - na);
    // no wait v -> u is left that a two-step path of waits/program order implies
    vector<std::set<int>> ch(A.ntasks);
    for (int u = 0; u < A.ntasks; ++u) for (int v : wa[u]) ch[v].insert(u);
    for (int u = 0; u < A.ntasks; ++u) for (int v : wa[u]) {
      int pu = fwd ? u - 1 : u + 1;  // program-order predecessor
      bool implied = false;
      for (int w : wa[u]) if (w != v && std::binary_search(wa[w].begin(), wa[w].end(), v)) implied = true;
      int nv = fwd ? v + 1 : v - 1;
      if (nv >= 0 && nv < A.ntasks && ca.thr[nv] == ca.thr[v] && std::binary_search(wa[u].begin(), wa[u].end(), nv)) implied = true;
      if (pu >= 0 && pu < A.ntasks && ca.thr[pu] == ca.thr[u] && std::binary_search(wa[pu].begin(), wa[pu].end(), v)) implied = true;
      HV_CHECK(!implied, "redundant-wait", "%s: the wait of task %d for task %d is implied by another one and should have been removed", d, u, v);
    }
  }
  if (less) c.sig(mix(s.M.patternHash() ^ mix(s.base, s.team), o.aggregate + 2 * o.barrier));
  freshBarrier();
}

static void fused(Ctx &c) {
  LevelSchedule L; bool pooled = false, again = earlier(c, L, pooled);
  SchedCase s; genSched(c, s, cap(c));
  BuildOpt o = genOpt(c.rng, s.ext); o.fuse = true; o.pool = c.rng.chance(10); o.barrier = false; if (again) o.pool = pooled;
  c.add(show(o));
  prep(c, o);
  HCSR h;
  construct(L, s, o, h);
  hv_perturb = 0;
  checkShape(L, s, o);
  Clocks C; HV_CHECK(clocks(L, s.team, false, C), "cycle", "backward waits are cyclic");
  FusedGSAndSpMVSchedule *F = L.fusedSchedule;
  HV_CHECK(F != NULL, "no-fused", "no fused schedule was built");
  vector<int> rt = rowTasks(L, s.n);
  long long dep = 0, waits = 0;
  for (int k = 0; k < L.ntasks; ++k) {
    vector<int> done(s.team, 0);
    HV_CHECK(F->nparents[k] >= 0, "wait-count", "task %d has %d fused waits", k, F->nparents[k]);
    for (int j = 0; j < F->nparents[k]; ++j) {
      int p = F->parents[k][j];
      HV_CHECK(p >= 0 && p < L.ntasks, "wait-range", "product task %d waits for task %d of %d", k, p, L.ntasks);
      ++waits;
      for (int t = 0; t < s.team; ++t) done[t] = std::max(done[t], C.clk[(size_t)p * s.team + t]);
      done[C.thr[p]] = std::max(done[C.thr[p]], C.pos[p] + 1);
    }
    for (int i = L.taskBoundaries[k]; i < L.taskBoundaries[k + 1]; ++i) {
      int row = L.threadContToOrigPerm[i];
      auto need = [&](int col) {
        int t = rt[col]; ++dep;
        HV_CHECK(done[C.thr[t]] > C.pos[t], "fused-order", "product of row %d (task %d, thread %d) may read column %d (task %d, thread %d) before the backward sweep has finished it", row, k, C.thr[k], col, t, C.thr[t]);
      };
      need(row);
      for (int j : s.adj[row]) need(j);
    }
  }
  c.count("product reads checked", dep); c.count("fused waits seen", waits);
  if (L.ntasks > 1) c.sig(mix(s.M.patternHash() ^ mix(s.base, s.team), o.reduce + 2 * o.aggregate + 4 * o.entry));
  // and run it, with stalls
  if (s.n && !s.ext) {
    int n = s.n, T = s.team; vector<double> b(n), y0(n), y(n), w(n), yr, wr(n);
    for (int i = 0; i < n; ++i) { b[i] = c.rng.range(-9, 9); y0[i] = c.rng.range(-9, 9); }
    yr = y0;
    for (int i = n - 1; i >= 0; --i) { double sum = b[i]; for (int j = (int)s.M.rows[i].size() - 1; j >= 0; --j) if (s.M.rows[i][j].first != i) sum -= s.M.rows[i][j].second * yr[s.M.rows[i][j].first]; yr[i] = sum / 4; }
    for (int i = 0; i < n; ++i) { double sum = 0; for (auto &p : s.M.rows[i]) sum += p.second * yr[p.first]; wr[i] = sum; }
    uint64_t seed = c.rng.next(); int lvl = c.rng.below(3);
    for (int rep = 0; rep < 2; ++rep) {
      y = y0; std::fill(w.begin(), w.end(), -77);
      for (int k = 0; k < L.ntasks; ++k) L.taskFinished[k] = 0;
#pragma omp parallel num_threads(T)
      {
        int tid = omp_get_thread_num(); Rng r(mix(seed, tid + 100 * rep));
        volatile int *taskFinished = L.taskFinished;
        {
          const short *nparents = L.nparentsBackward; int **parents = L.parentsBackward;
          for (int task = L.threadBoundaries[tid + 1] - 1; task >= L.threadBoundaries[tid]; --task) {
            SPMP_LEVEL_SCHEDULE_WAIT;
            stall(r, lvl);
            for (int q = L.taskBoundaries[task + 1] - 1; q >= L.taskBoundaries[task]; --q) {
              int i = L.threadContToOrigPerm[q]; double sum = b[i];
              for (int j = (int)s.M.rows[i].size() - 1; j >= 0; --j) if (s.M.rows[i][j].first != i) sum -= s.M.rows[i][j].second * y[s.M.rows[i][j].first];
              y[i] = sum / 4;
            }
            SPMP_LEVEL_SCHEDULE_NOTIFY;
          }
        }
        const short *nparents = F->nparents; int **parents = F->parents;
        for (int task = L.threadBoundaries[tid]; task < L.threadBoundaries[tid + 1]; ++task) {
          SPMP_LEVEL_SCHEDULE_WAIT;
          for (int q = L.taskBoundaries[task]; q < L.taskBoundaries[task + 1]; ++q) {
            int i = L.threadContToOrigPerm[q]; double sum = 0;
            for (auto &p : s.M.rows[i]) sum += p.second * y[p.first];
            w[i] = sum;
          }
        }
      }
      HV_CHECK(!memcmp(y.data(), yr.data(), n * 8), "fused-sweep", "fused run: swept vector differs from the sequential sweep");
      HV_CHECK(!memcmp(w.data(), wr.data(), n * 8), "fused-product", "fused run: product differs from sweep followed by product");
      c.count("fused executions compared");
    }
  }
  freshBarrier();
}

// how the rows of a level are shared out among the threads
static void balance(Ctx &c) {
  SchedCase s; genSched(c, s, cap(c));
  BuildOpt o = genOpt(c.rng, s.ext); o.pool = false; o.reduce = c.rng.chance(50); o.aggregate = c.rng.chance(40);
  if (c.rng.chance(25)) { o.cost = 6; if (!o.entry) o.entry = 1; }   // totals beyond 32 bits
  c.add(show(o));
  prep(c, o);
  LevelSchedule L; HCSR h;
  construct(L, s, o, h);
  hv_perturb = 0;
  checkShape(L, s, o);
  vector<int> lev(s.n, 0), size; int nl = 0, T = s.team; vector<long long> total, most;
  vector<int> cost = costs(s, o);
  for (int i = 0; i < s.n; ++i) {
    for (int j : s.adj[i]) if (j < i) lev[i] = std::max(lev[i], lev[j] + 1);
    if (lev[i] >= nl) { nl = lev[i] + 1; total.resize(nl, 0); most.resize(nl, 0); size.resize(nl, 0); }
    total[lev[i]] += cost[i]; most[lev[i]] = std::max<long long>(most[lev[i]], cost[i]); ++size[lev[i]];
  }
  vector<int> given(nl, 0), lastBusy(nl, -1);
  for (int t = 0; t < T; ++t) for (int k = L.threadBoundaries[t]; k < L.threadBoundaries[t + 1]; ++k) if (L.taskBoundaries[k] < L.taskBoundaries[k + 1]) lastBusy[lev[L.threadContToOrigPerm[L.taskBoundaries[k]]]] = t;
  int shared = 0;
  for (int t = 0; t < T; ++t) {
    int prev = -1;
    for (int k = L.threadBoundaries[t]; k < L.threadBoundaries[t + 1]; ++k) {
      int b = L.taskBoundaries[k], e = L.taskBoundaries[k + 1];
      if (o.barrier) HV_CHECK(L.threadBoundaries[t + 1] - L.threadBoundaries[t] == nl, "levels", "thread %d runs %d tasks, the graph has %d levels", t, L.threadBoundaries[t + 1] - L.threadBoundaries[t], nl);
      else HV_CHECK(b < e, "empty-task", "task %d of thread %d has no rows", k, t);
      if (b == e) continue;
      int l = lev[L.threadContToOrigPerm[b]]; long long sum = 0;
      for (int i = b; i < e; ++i) { int r = L.threadContToOrigPerm[i]; HV_CHECK(lev[r] == l, "mixed-levels", "task %d holds rows of levels %d and %d", k, l, lev[r]); sum += cost[r]; }
      HV_CHECK(l > prev, "level-order", "thread %d: a task of level %d follows one of level %d", t, l, prev);
      prev = l; given[l] += e - b; if (e - b < size[l]) ++shared;
      long long share = (total[l] + T - 1) / T, slack = (o.aggregate ? 8 : 1) * most[l];
      HV_CHECK(sum <= share + slack, "imbalance", "level %d (%d rows, total cost %lld): thread %d of %d got %lld, its share is %lld and the most expensive row costs %lld", l, size[l], total[l], t, T, sum, share, most[l]);
      if (o.aggregate && t != lastBusy[l]) HV_CHECK((e - b) % 8 == 0, "vector-length", "level %d: thread %d has %d rows, not a multiple of 8, although thread %d has rows too", l, t, e - b, lastBusy[l]);
      c.count("thread shares weighed");
    }
  }
  for (int l = 0; l < nl; ++l) HV_CHECK(given[l] == size[l], "lost-rows", "level %d: %d rows given out of %d", l, given[l], size[l]);
  c.maxi("levels in one schedule", nl); c.count("levels shared by several threads", shared > 0);
  if (shared) c.sig(mix(s.M.patternHash() ^ mix(s.base, s.team), o.barrier + 2 * o.aggregate + 32 * o.entry + 256 * o.cost));
  freshBarrier();
}

void run_case(Ctx &c) {
  if (c.mode == "balance") balance(c);
  else if (c.mode == "graph") graph(c); else if (c.mode == "reduce") reduceMode(c); else fused(c);
}
void run_probe(Ctx &c, int k) {
  if (c.mode != "graph") return;
  if (k == 0) {
    // one row depending on tens of thousands of mutually unimplied tasks of
    // another thread: the published wait count is a 16-bit number
    c.describe("wait count beyond 32767: two interleaved chains and a last row touching every second row of the second chain");
    SchedCase s; int lev = 70001; s.n = 2 * lev + 1; s.adj.resize(s.n); s.team = 2; omp_set_num_threads(2);
    auto e = [&](int a, int b) { s.adj[a].push_back(b); s.adj[b].push_back(a); };
    for (int k = 1; k < lev; ++k) { e(2 * k - 2, 2 * k); e(2 * k - 1, 2 * k + 1); }
    for (int k = 0; k < lev; k += 2) e(2 * k + 1, s.n - 1);
    Rng r(1); s.M = symMat(r, s.adj, false, true);
#if defined(__SANITIZE_ADDRESS__) || defined(HV_COV)
    return;
#endif
    // in a child process, because the failure is memory corruption
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(60);
      int rc = 0;
      try {
        BuildOpt o; o.entry = 1; o.cost = 1;
        LevelSchedule L; HCSR h; construct(L, s, o, h);
        checkShape(L, s, o); checkOrder(L, s, o, c);
      } catch (Violation &v) { rc = 2; }
      _exit(rc);
    }
    int st = 0; waitpid(pid, &st, 0);
    c.count("wait-count probe runs");
    HV_CHECK(st == 0, "wait-count-overflow", "schedule with 35001 waits in one task: child ended with status 0x%x", st);
    return;
  }
}
