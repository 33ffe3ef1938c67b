// C05 (mode bar): the dissemination barrier; C06 (mode red): the reducing
// barrier.  Every thread logs enter/leave of every round in shared counters; an
// online monitor checks at each leave that the whole team has entered.
#include "common.hpp"
#include <x86intrin.h>
#include "synk/barrier.hpp"
#include "synk/reduce.hpp"
#include "synk/loadimba.hpp"
using namespace hv;
extern int hv_perturb;

struct Pad { std::atomic<int> v; char p[60]; };
static Pad entered[256];
static volatile long long plain[256 * 16];  // unsynchronised data handed over by the barrier

// team sizes: mostly within the cores, some beyond
static void shape(Ctx &c, int &cores, int &tpc) {
  for (;;) {
    tpc = c.rng.chance(55) ? 1 : c.rng.range(1, 4);
    cores = c.rng.chance(75) ? c.rng.range(1, 8) : c.rng.range(1, 17);
    if (cores * tpc <= (c.rng.chance(85) ? c.maxThreads : 20)) return;
  }
}

static int64_t fmax_(int64_t a, int64_t b) { return a > b ? a : b; }
static int64_t fmin_(int64_t a, int64_t b) { return a < b ? a : b; }
static int64_t fsum_(int64_t a, int64_t b) { return a + b; }
static int64_t fxor_(int64_t a, int64_t b) { return a ^ b; }
static int64_t for_(int64_t a, int64_t b) { return a | b; }
static uint64_t umax_(uint64_t a, uint64_t b) { return a > b ? a : b; }
static double dmax_(double a, double b) { return a > b ? a : b; }
static double dmin_(double a, double b) { return a < b ? a : b; }

template <class T> static void rounds(Ctx &c, int team, int n, int lvl, synk::Barrier *bar, synk::ReduceBarrier<T> *red, T (*f)(T, T), T zero, const std::vector<T> &vals) {
  for (int t = 0; t < team; ++t) { entered[t].v = 0; plain[t * 16] = -1; }
  std::atomic<int> early(-1), stale(-1), wrong(-1); std::atomic<long long> events(0);
  static T wr[256], ww[256];
  uint64_t seed = c.rng.next();
  // now and then one thread arrives very late
  int lateThread = -1, lateRound = 0;
  if (c.idx % 80 == 17) { lateThread = c.rng.below(team); lateRound = c.rng.below(n); c.count("waits entered a second late by one thread"); }
  int slow = c.rng.chance(40) ? c.rng.below(team) : -1;  // one thread much slower than the rest
  std::vector<T> want(n);
  if (red) for (int k = 0; k < n; ++k) { T x = vals[k * team]; for (int t = 1; t < team; ++t) x = f(x, vals[k * team + t]); want[k] = x; }
#pragma omp parallel num_threads(team)
  {
    int tid = omp_get_thread_num(); Rng r(mix(seed, tid)); long long ev = 0;
    for (int k = 0; k < n; ++k) {
      plain[tid * 16] = k;
      if (tid == slow || slow < 0) stall(r, lvl);
      if (tid == lateThread && k == lateRound) { timespec t = {1, 0}; nanosleep(&t, NULL); }
      entered[tid].v.fetch_add(1, std::memory_order_relaxed);
      if (red) { T got = red->wait(tid, zero, vals[k * team + tid], f); if (!(got == want[k]) && wrong.exchange(k) < 0) { wr[0] = got; ww[0] = want[k]; } }
      else bar->wait(tid);
      for (int u = 0; u < team; ++u) {
        if (entered[u].v.load(std::memory_order_relaxed) < k + 1) early = k;
        if (plain[u * 16] < k) stale = k;
      }
      ev += 2;
    }
    events.fetch_add(ev);
  }
  HV_CHECK(early < 0, "early-release", "a thread left wait %d before the whole team had entered it", early.load());
  HV_CHECK(stale < 0, "stale-data", "a value written before wait %d was not visible after it", stale.load());
  HV_CHECK(wrong < 0, "reduction", "call %d returned %.17g, the team's reduction is %.17g", wrong.load(), (double)wr[0], (double)ww[0]);
  c.count("enter/leave events", events.load()); c.count("rounds observed", n);
}

template <class T> static void redCase(Ctx &c, int cores, int tpc, int n, int lvl, T (*f)(T, T), T zero, int kind) {
  int team = cores * tpc;
  synk::ReduceBarrier<T> red(cores, tpc);
#pragma omp parallel num_threads(team)
  red.init(omp_get_thread_num());
  hv_perturb = c.rng.chance(60) ? 1 << c.rng.below(14) : 0;
  int parts = 1 + c.rng.below(3);
  for (int p = 0; p < parts; ++p) {
    std::vector<T> v((size_t)n * team);
    for (auto &x : v) { x = (T)c.rng.range(-1000, 1000); if (kind == 5) x = (T)(c.rng.next() >> 1); }
    if (c.rng.chance(30)) for (int k = 0; k < n; ++k) for (int t = 0; t < team; ++t) v[(size_t)k * team + t] = (T)(kind == 5 || f(1, 2) == 2 ? 100000 - k : k);  // monotone rounds expose a value of another round
    rounds<T>(c, team, n, lvl, NULL, &red, f, zero, v);
  }
  hv_perturb = 0;
}

// The load-imbalance barrier: a barrier, and its books: how often each thread waited at each place and for how long.
// The times are bounded by time stamps taken around every wait.
static void imbalance(Ctx &c, int cores, int tpc, int n, int lvl) {
  int team = cores * tpc, how = c.rng.below(4), uses = how == 3 ? c.rng.range(1, 5) : 1;
  c.describe(fmt("load-imbalance barrier cores=%d threadsPerCore=%d waits=%d stall=%d how=%d places=%d", cores, tpc, n, lvl, how, uses));
  synk::LoadImba::deleteInstance();
  synk::LoadImba *b = NULL;
  if (how == 1) synk::LoadImba::initializeInstance(cores, tpc);
  if (how == 2) {
#pragma omp parallel num_threads(team)
    if (c.idx & 1) synk::LoadImba::initializeInstance(cores, tpc); else synk::LoadImba::getInstance();
  }
  if (how == 3) {
    b = new synk::LoadImba(cores, tpc);
#pragma omp parallel num_threads(team)
    b->init(omp_get_thread_num(), uses);
  } else b = synk::LoadImba::getInstance();
  if (how < 3) HV_CHECK(b == synk::LoadImba::getInstance(), "singleton", "the shared instance is not stable");
  struct Acc { unsigned long long waits, spent; char pad[48]; };
  std::vector<Acc> acc(team * uses, Acc());
  std::vector<int> place(n); for (auto &p : place) p = c.rng.below(uses);
  for (int t = 0; t < team; ++t) entered[t].v = 0;
  std::atomic<int> early(-1); uint64_t seed = c.rng.next();
  hv_perturb = c.rng.chance(60) ? 1 << c.rng.below(14) : 0;
#pragma omp parallel num_threads(team)
  {
    int tid = omp_get_thread_num(); Rng r(mix(seed, tid));
    for (int k = 0; k < n; ++k) {
      stall(r, lvl); entered[tid].v.fetch_add(1);
      unsigned long long t0 = __rdtsc();
      if (uses == 1 && (k & 1)) b->wait(tid); else b->wait(tid, place[k]);
      unsigned long long t1 = __rdtsc();
      Acc &A = acc[tid * uses + place[k]]; A.waits++; A.spent += t1 - t0;
      for (int u = 0; u < team; ++u) if (entered[u].v.load() < k + 1) early = k;
    }
  }
  hv_perturb = 0;
  HV_CHECK(early < 0, "early-release", "a thread left instrumented wait %d early", early.load());
  unsigned long long slack = 1000000;  // time stamps of different cores need not agree to the cycle
  unsigned long long sum = 0, bars = 0;
  for (int t = 0; t < team; ++t) for (int j = 0; j < uses; ++j) {
    synk::ThreadLoadImba *l = b->limba[t]; Acc &A = acc[t * uses + j];
    HV_CHECK(l->cnt[j] == A.waits, "imba-count", "thread %d recorded %llu waits of %llu at place %d", t, (unsigned long long)l->cnt[j], A.waits, j);
    if (!A.waits) { HV_CHECK(l->tot[j] == 0 && l->bar[j] == 0 && l->max[j] == 0, "imba-times", "thread %d: times recorded at an unused place", t); continue; }
    HV_CHECK(l->min[j] <= l->max[j] && l->max[j] <= l->tot[j] && l->min[j] * A.waits <= l->tot[j] && (double)l->max[j] * A.waits + 1 >= (double)l->tot[j], "imba-times", "thread %d place %d: min %llu max %llu total %llu of %llu waits", t, j, (unsigned long long)l->min[j], (unsigned long long)l->max[j], (unsigned long long)l->tot[j], A.waits);
    HV_CHECK(l->tot[j] <= A.spent + slack * A.waits && (long long)l->bar[j] >= -(long long)(slack * A.waits) && (long long)l->bar[j] <= (long long)(A.spent + slack * A.waits), "imba-times", "thread %d place %d: total %llu barrier %llu, but all waits took %llu", t, j, (unsigned long long)l->tot[j], (unsigned long long)l->bar[j], A.spent);
    sum += l->tot[j]; bars += l->bar[j];
  }
  for (int pass = 0; pass < 2; ++pass) {  // the report says what is in the books, before and after a reset
    bool all = c.rng.chance(50);
    std::string t = captureStdout(c.scratch + "/imba", [&]() { b->print(all); }); size_t at = 0; int details = 0, places = 0;
    while (at < t.size()) {
      size_t e = t.find('\n', at); if (e == std::string::npos) e = t.size(); std::string line = t.substr(at, e - at); at = e + 1;
      unsigned long long f[9]; int got = sscanf(line.c_str(), "%llu, %llu, %llu, %llu, %llu, %llu, %llu, %llu, %llu", f, f + 1, f + 2, f + 3, f + 4, f + 5, f + 6, f + 7, f + 8);
      if (got != 9) continue;
      if (all && details < team * uses) {
        int j = details / team, th = details % team; ++details; synk::ThreadLoadImba *l = b->limba[th]; unsigned long long k = l->cnt[j];
        HV_CHECK(f[0] == (unsigned)j && f[1] == (unsigned)th && f[2] == l->min[j] && f[3] == l->max[j] && f[4] == l->tot[j] && f[5] == l->bar[j] && f[6] == k && f[7] == (k ? l->tot[j] / k : 0) && f[8] == (k ? l->bar[j] / k : 0), "imba-report", "detail line \"%s\" is not what thread %d recorded", line.c_str(), th);
      } else {
        int j = places++; HV_CHECK(j < uses, "imba-report", "surplus line"); unsigned long long mn = ~0ull, mx = 0, tot = 0, bar = 0, k = b->limba[0]->cnt[j];
        for (int th = 0; th < team; ++th) { synk::ThreadLoadImba *l = b->limba[th]; mn = std::min<unsigned long long>(mn, l->min[j]); mx = std::max<unsigned long long>(mx, l->max[j]); tot += l->tot[j]; bar += l->bar[j]; }
        tot /= team; bar /= team;
        HV_CHECK(f[0] == (unsigned)j && f[1] == (unsigned)team && f[2] == mn && f[3] == mx && f[4] == tot && f[5] == bar && f[6] == k && f[7] == (k ? tot / k : 0) && f[8] == (k ? bar / k : 0), "imba-report", "summary line \"%s\" is not the sum of the threads", line.c_str());
      }
    }
    HV_CHECK(places == uses && (!all || details == team * uses), "imba-report", "%d summary and %d detail lines", places, details);
    t = captureStdout(c.scratch + "/imba", [&]() { b->printLoadImbalance(1000); }); double x = NAN;
    double want = pass ? 0 : ((double)sum - (double)bars) / team / 1000;
    HV_CHECK(sscanf(t.c_str(), "Load imbalance = %lf", &x) == 1 && std::fabs(x - want) <= 1e-6 + 1e-9 * std::fabs(want), "imba-report", "printed \"%s\", expected %g", t.c_str(), want);
    if (!pass) b->reset();
    else for (int th = 0; th < team; ++th) for (int j = 0; j < uses; ++j) { synk::ThreadLoadImba *l = b->limba[th]; HV_CHECK(l->min[j] == ~0ull && !l->max[j] && !l->tot[j] && !l->cnt[j] && !l->bar[j], "imba-reset", "thread %d place %d keeps something after reset", th, j); }
  }
  if (how == 3) delete b; else synk::LoadImba::deleteInstance();
  c.count("enter/leave events", 2LL * n * team); c.count("rounds observed", n); c.count("load-imbalance reports checked", 2);
}

void run_case(Ctx &c) {
  int cores, tpc; shape(c, cores, tpc);
  int team = cores * tpc, n = team > 8 ? 12 : c.rng.range(1, c.thorough ? 400 : 120), lvl = c.rng.below(4);
  omp_set_num_threads(team);
  std::vector<int64_t> dummy;
  if (c.mode == "bar") {
    int how = c.rng.below(5);
    c.describe(fmt("barrier cores=%d threadsPerCore=%d rounds=%d stall=%d how=%d", cores, tpc, n, lvl, how));
    hv_perturb = c.rng.chance(60) ? 1 << c.rng.below(14) : 0;
    if (how == 0) {        // private instance
      synk::Barrier b(cores, tpc);
#pragma omp parallel num_threads(team)
      b.init(omp_get_thread_num());
      rounds<int64_t>(c, team, n, lvl, &b, NULL, NULL, 0, dummy);
    } else {
      synk::Barrier::deleteInstance();
      if (how == 1) { synk::Barrier::initializeInstance(cores, tpc); }
      else if (how == 2) {
#pragma omp parallel num_threads(team)
        synk::Barrier::initializeInstance(cores, tpc);
      } else if (how == 3) {
#pragma omp parallel num_threads(team)
        { synk::Barrier *b = synk::Barrier::getInstance(); b->wait(omp_get_thread_num()); }
      }
      synk::Barrier *b = synk::Barrier::getInstance();
      HV_CHECK(b && b == synk::Barrier::getInstance(), "singleton", "the shared instance is not stable");
      rounds<int64_t>(c, team, n, lvl, b, NULL, NULL, 0, dummy);
      rounds<int64_t>(c, team, 3, lvl, b, NULL, NULL, 0, dummy);
      synk::Barrier::deleteInstance();
    }
    hv_perturb = 0;
    if (team > 1) c.sig(mix(cores * 100 + tpc, mix(n * 8 + lvl, how)));
    return;
  }
  int kind = c.rng.below(9);
  c.describe(fmt("reducing barrier cores=%d threadsPerCore=%d rounds=%d stall=%d function=%d", cores, tpc, n, lvl, kind));
  switch (kind) {
  case 0: redCase<int64_t>(c, cores, tpc, n, lvl, fmax_, INT64_MIN, kind); break;
  case 1: redCase<int64_t>(c, cores, tpc, n, lvl, fmin_, INT64_MAX, kind); break;
  case 2: redCase<int64_t>(c, cores, tpc, n, lvl, fsum_, 0, kind); break;
  case 3: redCase<int64_t>(c, cores, tpc, n, lvl, fxor_, 0, kind); break;
  case 4: redCase<int64_t>(c, cores, tpc, n, lvl, for_, 0, kind); break;
  case 5: redCase<uint64_t>(c, cores, tpc, n, lvl, umax_, 0, kind); break;
  case 6: redCase<double>(c, cores, tpc, n, lvl, dmax_, -1e300, kind); break;
  case 7: redCase<double>(c, cores, tpc, n, lvl, dmin_, 1e300, kind); break;
  case 8: {  // the load-imbalance barrier built on it
    imbalance(c, cores, tpc, n, lvl);
    break; }
  }
  if (team > 1) c.sig(mix(cores * 100 + tpc, mix(n * 8 + lvl, kind)));
}
