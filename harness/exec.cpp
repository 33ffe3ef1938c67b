// C02: run the documented task protocol for triangular solves, Gauss-Seidel and
// incomplete factorisation under stalls, and compare bit for bit with the
// sequential row-by-row execution.  An online monitor also stamps every row's
// start and end with a global event counter and checks each dependence.
#include "sched.hpp"
extern int hv_perturb;

enum Kern { TRSV_F, TRSV_B, GS_F, GS_B, ILU, NK };
static const char *kn[] = {"forward solve", "backward solve", "forward Gauss-Seidel", "backward Gauss-Seidel", "incomplete LU"};

struct Prob { int n; vector<int> rp, ci, dp; vector<double> v, b, x0; };

static inline void rowWork(int kern, const Prob &P, int i, double *x, double *lu) {
  switch (kern) {
  case TRSV_F: { double s = P.b[i]; for (int j = P.rp[i]; j < P.dp[i]; ++j) s -= P.v[j] * x[P.ci[j]]; x[i] = s / P.v[P.dp[i]]; break; }
  case TRSV_B: { double s = P.b[i]; for (int j = P.rp[i + 1] - 1; j > P.dp[i]; --j) s -= P.v[j] * x[P.ci[j]]; x[i] = s / P.v[P.dp[i]]; break; }
  case GS_F: case GS_B: { double s = P.b[i]; for (int j = P.rp[i]; j < P.rp[i + 1]; ++j) s -= P.v[j] * x[P.ci[j]]; x[i] += s / P.v[P.dp[i]]; break; }
  case ILU:
    for (int j = P.rp[i]; j < P.rp[i + 1]; ++j) lu[j] = P.v[j];
    for (int j = P.rp[i]; j < P.dp[i]; ++j) {
      int c = P.ci[j]; double t = lu[j] /= lu[P.dp[c]];
      int k1 = j + 1, k2 = P.dp[c] + 1;
      while (k1 < P.rp[i + 1] && k2 < P.rp[c + 1]) {
        if (P.ci[k1] < P.ci[k2]) ++k1; else if (P.ci[k1] > P.ci[k2]) ++k2;
        else { lu[k1] -= t * lu[k2]; ++k1; ++k2; }
      }
    }
    break;
  }
}

static Prob flatten(const Mat &M, Rng &r) {
  Prob P; P.n = M.m; P.rp.push_back(0);
  for (int i = 0; i < M.m; ++i) {
    for (auto &e : M.rows[i]) { if (e.first == i) P.dp.push_back((int)P.ci.size()); if (e.first < M.m) { P.ci.push_back(e.first); P.v.push_back(e.second); } }
    P.rp.push_back((int)P.ci.size());
  }
  for (int i = 0; i < M.m; ++i) { P.b.push_back(r.range(-99, 99) / 8.0); P.x0.push_back(r.range(-99, 99) / 8.0); }
  return P;
}

static std::atomic<long long> tick;

void run_case(Ctx &c) {
  SchedCase s;
  genSched(c, s, c.rng.chance(8) ? 2000 : c.rng.chance(30) ? 500 : 120);
  BuildOpt o = genOpt(c.rng, s.ext); o.pool = false;
  bool sortedRows = true;
  for (int i = 0; i < s.n && sortedRows; ++i) { int e = s.ext ? s.extOff[i] : (int)s.M.rows[i].size(); for (int k = 1; k < e; ++k) if (s.M.rows[i][k].first < s.M.rows[i][k - 1].first) sortedRows = false; }
  c.add(show(o));
  LevelSchedule L; HCSR h;
  hv_perturb = c.rng.chance(50) ? 1 << c.rng.below(10) : 0;
  construct(L, s, o, h);
  hv_perturb = 0;
  checkShape(L, s, o);
  int n = s.n, T = s.team;
  vector<int> perm(L.threadContToOrigPerm, L.threadContToOrigPerm + n);
  Prob P = flatten(s.M, c.rng);
  // the reordered problem: rows in thread-contiguous order
  Mat R(n, n);
  for (int i = 0; i < n; ++i) { for (auto &e : s.M.rows[perm[i]]) if (e.first < n) R.rows[i].push_back(std::make_pair(L.origToThreadContPerm[e.first], e.second)); }
  int kern = c.rng.below(NK);
  if (kern == ILU && (!sortedRows || n > 600)) kern = c.rng.below(ILU);
  bool permuted = c.rng.chance(30) && kern <= GS_B;
  int sync = o.barrier ? 1 : 0;
  int lvl = c.rng.below(4), reps = c.thorough ? 6 : 3;
  c.add(fmt("%s %s%s stall=%d", kn[kern], sync ? "barrier" : "p2p", permuted ? " reordered" : "", lvl));
  // which kernels run forward
  bool fwd = kern == TRSV_F || kern == GS_F || kern == ILU;
  if (permuted) {
    // reordered matrix: same dependences, renumbered; entries keep their order
    // within each row, so sequential execution in original row order is the reference
    Prob Q; Q.n = n; Q.rp.push_back(0); Q.b.resize(n); Q.x0.resize(n);
    for (int i = 0; i < n; ++i) {
      int r = perm[i];
      for (int j = P.rp[r]; j < P.rp[r + 1]; ++j) { if (j == P.dp[r]) Q.dp.push_back((int)Q.ci.size()); Q.ci.push_back(L.origToThreadContPerm[P.ci[j]]); Q.v.push_back(P.v[j]); }
      Q.rp.push_back((int)Q.ci.size()); Q.b[i] = P.b[r]; Q.x0[i] = P.x0[r];
    }
    P = Q;
  }
  vector<double> xr = P.x0, lur(P.v.size(), 0);
  for (int q = 0; q < n; ++q) { int i = fwd ? q : n - 1 - q; rowWork(kern, P, permuted ? L.origToThreadContPerm[i] : i, xr.data(), lur.data()); }
  vector<double> x(n), lu(P.v.size());
  vector<long long> beg(n), fin(n);
  freshBarrier();
  omp_set_num_threads(T);
  std::set<uint64_t> orders;
  uint64_t seed = c.rng.next();
  // now and then one row that another thread waits for takes very long: a wait
  // that gives up after any plausible number of spins is then visible
  int slowRow = -1;
  if (c.idx % 400 == 123 && T > 1) {
    vector<int> thr(n, 0), cand;
    for (int t = 0; t < T; ++t) for (int k = L.threadBoundaries[t]; k < L.threadBoundaries[t + 1]; ++k) for (int q = L.taskBoundaries[k]; q < L.taskBoundaries[k + 1]; ++q) thr[perm[q]] = t;
    for (int i = 0; i < n; ++i) for (int j : s.adj[i]) if ((fwd ? j > i : j < i) && thr[i] != thr[j]) { cand.push_back(permuted ? L.origToThreadContPerm[i] : i); break; }
    if (!cand.empty()) { slowRow = cand[c.rng.below((int)cand.size())]; c.count("executions with a row held for a second"); }
  }
  for (int rep = 0; rep < reps; ++rep) {
    for (int i = 0; i < n; ++i) x[i] = (kern == TRSV_F || kern == TRSV_B) ? NAN : P.x0[i];
    std::fill(lu.begin(), lu.end(), NAN);
    std::fill(beg.begin(), beg.end(), -1); std::fill(fin.begin(), fin.end(), -1);
    tick = 0;
    std::atomic<int> twice(0);
    hv_perturb = c.rng.chance(50) ? 1 << c.rng.below(12) : 0;
#pragma omp parallel num_threads(T)
    {
      int tid = omp_get_thread_num(), nthreads = omp_get_num_threads();
      Rng r(mix(seed, tid + 1000 * rep));
      const short *nparents = fwd ? L.nparentsForward : L.nparentsBackward;
      int **parents = fwd ? L.parentsForward : L.parentsBackward;
      volatile int *taskFinished = L.taskFinished;
      synk::Barrier *bar = synk::Barrier::getInstance();
      if (!sync) {
        int per = (L.ntasks + nthreads - 1) / nthreads, b = std::min(per * tid, L.ntasks), e = std::min(b + per, L.ntasks);
        for (int k = b; k < e; ++k) taskFinished[k] = 0;
        stall(r, lvl);
        bar->wait(tid);
      }
      int first = fwd ? L.threadBoundaries[tid] : L.threadBoundaries[tid + 1] - 1;
      int last = fwd ? L.threadBoundaries[tid + 1] : L.threadBoundaries[tid] - 1, step = fwd ? 1 : -1;
      for (int task = first; task != last; task += step) {
        if (!sync) { SPMP_LEVEL_SCHEDULE_WAIT; }
        int rb = L.taskBoundaries[task], re = L.taskBoundaries[task + 1];
        for (int q = fwd ? rb : re - 1; fwd ? q < re : q >= rb; q += step) {
          int i = permuted ? q : perm[q];
          if (beg[i] >= 0) twice = 1;
          beg[i] = tick.fetch_add(1, std::memory_order_relaxed);
          stall(r, lvl);
          if (i == slowRow && rep == 0) { timespec t = {1, 0}; nanosleep(&t, NULL); }
          rowWork(kern, P, i, x.data(), lu.data());
          fin[i] = tick.fetch_add(1, std::memory_order_relaxed);
        }
        if (!sync) { SPMP_LEVEL_SCHEDULE_NOTIFY; }
        else bar->wait(tid);
      }
    }
    hv_perturb = 0;
    HV_CHECK(!twice, "row-twice", "%s executed a row twice", kn[kern]);
    for (int i = 0; i < n; ++i) HV_CHECK(fin[i] >= 0, "row-missing", "%s never executed row %d", kn[kern], i);
    long long dep = 0;
    for (int i = 0; i < n; ++i) for (int j : s.adj[i]) if (fwd ? j < i : j > i) {
      int a = permuted ? L.origToThreadContPerm[j] : j, b = permuted ? L.origToThreadContPerm[i] : i; ++dep;
      HV_CHECK(fin[a] < beg[b], "event-order", "%s: row %d started (event %lld) before row %d had finished (event %lld)", kn[kern], i, beg[b], j, fin[a]);
    }
    const double *got = kern == ILU ? lu.data() : x.data(), *want = kern == ILU ? lur.data() : xr.data();
    size_t len = kern == ILU ? lu.size() : (size_t)n;
    for (size_t i = 0; i < len; ++i) HV_CHECK(!memcmp(&got[i], &want[i], 8), "value", "%s: value %zu is %.17g, sequentially %.17g", kn[kern], i, got[i], want[i]);
    c.count("executions compared"); c.count("row start/end events", 2LL * n); c.count("dependences seen in order", dep);
    uint64_t oh = 0;
    { vector<std::pair<long long, int>> ev; for (int i = 0; i < n; ++i) ev.push_back(std::make_pair(beg[i], i)); std::sort(ev.begin(), ev.end()); for (auto &e : ev) oh = mix(oh, e.second); }
    orders.insert(oh);
    if (n > 1 && T > 1) c.sig(mix(s.M.patternHash(), oh) ^ kern);
  }
  c.count("distinct row interleavings seen", orders.size());
  freshBarrier();
}
