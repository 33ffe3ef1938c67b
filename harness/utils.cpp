// C24 partitions and prefix sums (mode part); C25 vector reordering and bulk
// memory helpers (mode vec); C26 memory pool (mode pool)
#define NDEBUG   // correctnessCheck is a template: its answer is under test, not its assertion
#include "common.hpp"
#include "MemoryPool.hpp"
using namespace hv;
using namespace SpMP;

// ------------------------------------------------------------------ C24
static void part(Ctx &c) {
  Rng &r = c.rng; int t = c.threads(); if (r.chance(10)) { t = r.range(9, 24); omp_set_num_threads(t); }
  int what = r.below(4);
  if (what == 0) {
    static const int big[] = {INT_MAX, INT_MAX - 1, INT_MAX - 63, 1 << 30, 0, 1, 2};
    int n = r.chance(25) ? big[r.below(7)] : r.chance(50) ? r.below(200) : r.chance(50) ? (int)(r.next() >> 33) : INT_MAX - r.below(1000);
    c.describe(fmt("simple partition n=%d threads=%d", n, t));
    std::vector<int> b(t, -7), e(t, -7); int got = 0;
#pragma omp parallel
    { int tid = omp_get_thread_num(); if (tid == 0) got = omp_get_num_threads(); int x = -5, y = -5; getSimpleThreadPartition(&x, &y, n); if (tid < t) { b[tid] = x; e[tid] = y; } }
    HV_CHECK(got == t, "oracle", "team of %d instead of %d", got, t);
    long mx = ((long)n + t - 1) / t;
    for (int k = 0; k < t; ++k) {
      HV_CHECK(b[k] >= 0 && b[k] <= e[k] && e[k] <= n, "range", "thread %d: %d..%d of %d", k, b[k], e[k], n);
      HV_CHECK(b[k] == (k ? e[k - 1] : 0), "tile", "thread %d begins at %d, previous ended at %d", k, b[k], k ? e[k - 1] : 0);
      HV_CHECK((long)e[k] - b[k] <= mx, "fair", "thread %d has %d of %d items", k, e[k] - b[k], n);
    }
    HV_CHECK(e[t - 1] == n, "tile", "last range ends at %d of %d", e[t - 1], n);
    { int x = -1, y = -1; getSimpleThreadPartition(&x, &y, n); HV_CHECK(x == 0 && y == n, "serial", "outside a team: %d..%d", x, y); }
    c.count("simple partitions"); c.sig(mix(n, t));
  } else if (what == 1) {
    int n = r.chance(10) ? r.below(3) : r.below(600), base = r.below(2); std::vector<int> w(n); int kind = r.below(6); long tot = 0;
    for (int i = 0; i < n; ++i) w[i] = kind == 0 ? r.below(20) : kind == 1 ? (r.chance(5) ? 1000 : 0) : kind == 2 ? 1 : kind == 3 ? (i == n / 2 ? 100000 : r.below(2)) : kind == 4 ? r.below(4) * r.below(4) : 0;
    if (n && r.chance(25)) { long s = 0; for (int x : w) s += x; long room = (long)INT_MAX - base - s - r.below(3); w[r.below(n)] += (int)room; kind += 10; }   // total next to the integer limit
    else if (n && r.chance(15)) { int per = (INT_MAX - base) / n; for (auto &x : w) x = per - r.below(5); kind += 20; }
    int *p = xmalloc<int>(n + 1); long s = base; int mxw = 0; for (int i = 0; i < n; ++i) { p[i] = (int)s; s += w[i]; mxw = std::max(mxw, w[i]); } p[n] = (int)s; tot = s - base;
    c.describe(fmt("balanced partition n=%d kind=%d base=%d total=%ld threads=%d", n, kind, base, tot, t));
    std::vector<int> b(t, -7), e(t, -7);
#pragma omp parallel
    { int tid = omp_get_thread_num(), x = -5, y = -5; getLoadBalancedPartition(&x, &y, p, n); if (tid < t) { b[tid] = x; e[tid] = y; } }
    long share = (tot + t - 1) / t;
    for (int k = 0; k < t; ++k) {
      HV_CHECK(b[k] >= 0 && b[k] <= e[k] && e[k] <= n, "range", "thread %d: %d..%d of %d", k, b[k], e[k], n);
      HV_CHECK(b[k] == (k ? e[k - 1] : 0), "tile", "thread %d begins at %d, previous ended at %d", k, b[k], k ? e[k - 1] : 0);
      HV_CHECK((long)p[e[k]] - p[b[k]] <= share + mxw, "fair", "thread %d has weight %ld, share %ld, largest item %d", k, (long)p[e[k]] - p[b[k]], share, mxw);
    }
    HV_CHECK(e[t - 1] == n, "tile", "last range ends at %d of %d", e[t - 1], n);
    uint64_t h = mix(n, t); for (int i = 0; i < n; ++i) h = mix(h, w[i]); free(p);
    c.count("balanced partitions"); if (kind >= 10) c.count("totals next to the integer limit"); c.sig(h);
  } else {
    int width = what == 2 ? 1 : r.chance(8) ? 0 : r.range(1, 9), rounds = r.range(1, 20);
    c.describe(fmt("prefix sum width=%d rounds=%d threads=%d", width, rounds, t));
    std::vector<int> ws0((size_t)width * (t + 1) + 64, -12345); std::vector<std::vector<std::vector<int>>> in(rounds, std::vector<std::vector<int>>(t, std::vector<int>(width))), out = in; std::vector<std::vector<int>> sums(rounds, std::vector<int>(width + 1, -1)), seen(rounds, std::vector<int>(t, -1));
    bool neg = r.chance(20), hugev = r.chance(15); for (auto &x : in) for (auto &y : x) for (auto &z : y) z = hugev ? INT_MAX / t - r.below(100) : neg ? r.range(-50, 50) : r.below(100);
    out = in; int *ws = xmalloc<int>((size_t)width * (t + 1)); uint64_t sd = r.next(); int level = r.below(3);
#pragma omp parallel
    { int tid = omp_get_thread_num(); Rng q(mix(sd, tid));
      for (int k = 0; k < rounds; ++k) {
        stall(q, level);
        if (what == 2) SpMP::prefixSum(&out[k][tid][0], &sums[k][0], ws); else prefixSumMultiple(out[k][tid].data(), sums[k].data(), width, ws);
        seen[k][tid] = sums[k][0];   // the total is readable by every thread on return
#pragma omp barrier
      } }
    free(ws);
    for (int k = 0; k < rounds; ++k) for (int x = 0; x < width; ++x) { int s = 0; for (int q = 0; q < t; ++q) { HV_CHECK(out[k][q][x] == s, "exclusive-sum", "round %d thread %d component %d: %d expected %d", k, q, x, out[k][q][x], s); s += in[k][q][x]; } HV_CHECK(sums[k][x] == s, "total", "round %d component %d: total %d expected %d", k, x, sums[k][x], s); if (x == 0) for (int q = 0; q < t; ++q) HV_CHECK(seen[k][q] == s, "total-seen", "round %d thread %d read total %d expected %d", k, q, seen[k][q], s); }
    HV_CHECK(width || sums[0][0] == -1, "total", "sum of no components written");
    c.count("prefix-sum rounds", rounds); c.sig(mix(sd, width * 64 + t));
  }
}

// ------------------------------------------------------------------ C25
template <class T> static std::vector<T> vals(Rng &r, int n) { std::vector<T> v(n); for (auto &x : v) x = (T)(r.range(-100000, 100000)); return v; }
template <class T> static void reorderT(Ctx &c, const char *tn) {
  Rng &r = c.rng; int t = c.threads(), n = r.chance(15) ? r.below(3) : r.chance(70) ? r.below(700) : r.below(20000); bool null = r.chance(8);
  std::vector<int> p = randPerm(r, n), ip(n); p.reserve(1); ip.reserve(1); for (int i = 0; i < n; ++i) ip[p[i]] = i;
  c.describe(fmt("reorder %s n=%d null=%d threads=%d", tn, n, null, t));
  const int *pp = null ? NULL : p.data(), *pi = null ? NULL : ip.data();
  std::vector<T> v = vals<T>(r, n); Guarded<T> src(n, 0, (T)-99), d(n, (T)7, (T)-98); for (int i = 0; i < n; ++i) src.p()[i] = v[i];
  auto want = [&](int i) { return null ? v[i] : v[ip[i]]; };   // element i of perm(v)
  reorderVectorOutOfPlace(d.p(), src.p(), pp, n);
  for (int i = 0; i < n; ++i) HV_CHECK(d.p()[i] == want(i), "scatter", "element %d", i);
  HV_CHECK(d.intact() && src.intact(), "canary", "out-of-place reorder wrote outside"); for (int i = 0; i < n; ++i) HV_CHECK(src.p()[i] == v[i], "source", "source changed at %d", i);
  Guarded<T> d2(n, (T)7, (T)-98); reorderVectorOutOfPlaceWithInversePerm(d2.p(), src.p(), pi, n);
  for (int i = 0; i < n; ++i) HV_CHECK(d2.p()[i] == want(i), "gather", "element %d", i); HV_CHECK(d2.intact(), "canary", "gather wrote outside");
  Guarded<T> back(n, (T)7, (T)-98); reorderVectorOutOfPlace(back.p(), d.p(), pi, n);
  for (int i = 0; i < n; ++i) HV_CHECK(back.p()[i] == v[i], "inverse", "element %d not restored", i);
  std::vector<int> q(n + 2, -4); getInversePerm(q.data(), p.data(), n); for (int i = 0; i < n; ++i) HV_CHECK(q[i] == ip[i], "inverse-perm", "entry %d", i); HV_CHECK(q[n] == -4, "canary", "inverse written outside");
  HV_CHECK(isPerm(p.data(), n) && isInversePerm(p.data(), ip.data(), n), "is-perm", "permutation not recognised");
  c.count("vectors reordered", 3); if (n > 1) { uint64_t h = n; for (int x : p) h = mix(h, x); c.sig(h + sizeof(T)); }
}
static void reorderInPlace(Ctx &c) {
  Rng &r = c.rng; int t = c.threads(), n = r.chance(15) ? r.below(3) : r.below(3000); bool null = r.chance(10); std::vector<int> p = randPerm(r, n), ip(n); p.reserve(1); ip.reserve(1); for (int i = 0; i < n; ++i) ip[p[i]] = i;
  c.describe(fmt("reorder in place n=%d null=%d threads=%d", n, null, t)); const int *pp = null ? NULL : p.data(), *pi = null ? NULL : ip.data();
  std::vector<double> v = vals<double>(r, n); auto want = [&](int i) { return null ? v[i] : v[ip[i]]; };
  for (int form = 0; form < 6; ++form) {
    Guarded<double> x(n, 0, -99), tmp(n, 0, -98); for (int i = 0; i < n; ++i) x.p()[i] = v[i]; double *y = x.p(); double *own = NULL;
    if (form == 0) reorderVector(x.p(), tmp.p(), pp, n); else if (form == 1) reorderVectorWithInversePerm(x.p(), tmp.p(), pi, n);
    else if (form == 2) reorderVector(x.p(), pp, n); else if (form == 3) reorderVectorWithInversePerm(x.p(), pi, n);
    else if (form == 4) y = own = getReorderVector(x.p(), pp, n); else y = own = getReorderVectorWithInversePerm(x.p(), pi, n);
    for (int i = 0; i < n; ++i) HV_CHECK(!memcmp(&y[i], [&](double z) { static double s; s = z; return &s; }(want(i)), 8), "in-place", "form %d element %d is %g expected %g", form, i, y[i], want(i));
    if (own) for (int i = 0; i < n; ++i) HV_CHECK(x.p()[i] == v[i], "source", "form %d changed its source", form);
    HV_CHECK(x.intact() && tmp.intact(), "canary", "form %d wrote outside", form); if (own) FREE(own);
  }
  c.count("vectors reordered", 6); if (n > 1) { uint64_t h = n; for (int x : p) h = mix(h, x); c.sig(h + 1); }
}
static void permChecks(Ctx &c) {
  Rng &r = c.rng; int n = r.below(60) + 1; std::vector<int> p = randPerm(r, n), ip(n); p.reserve(1); ip.reserve(1); for (int i = 0; i < n; ++i) ip[p[i]] = i;
  int dev = r.below(6); bool okP = true, okI = true; std::vector<int> a = p, b = ip; static const int hostile[] = {-1, INT_MAX, INT_MIN, 1 << 20};
  int i = r.below(n), j = r.below(n);
  if (dev == 1) { a[i] = r.chance(50) ? n : hostile[r.below(4)]; okP = okI = false; }           // out of range
  if (dev == 2 && n > 1) { while (j == i) j = r.below(n); a[i] = a[j]; okP = okI = false; }      // duplicate
  if (dev == 3) { for (auto &x : a) x += 1; okP = okI = false; }                                 // shifted
  if (dev == 4 && n > 1) { while (j == i) j = r.below(n); std::swap(b[i], b[j]); okI = false; }  // wrong inverse
  if (dev == 5) { b[i] = r.chance(50) ? n : hostile[r.below(4)]; okI = false; }
  c.describe(fmt("permutation check n=%d deviation=%d at %d", n, dev, i));
  int *pa = xmalloc<int>(n), *pb = xmalloc<int>(n); memcpy(pa, a.data(), 4 * n); memcpy(pb, b.data(), 4 * n);
#if defined(__SANITIZE_ADDRESS__) && !defined(HV_LIB_NDEBUG)
  if (okP)   // the library asserts on a bad permutation in this build
#endif
  HV_CHECK(isPerm(pa, n) == okP, "is-perm", "isPerm says %d", !okP);
  HV_CHECK(isInversePerm(pa, pb, n) == okI, "is-inverse", "isInversePerm says %d", !okI);
  free(pa); free(pb); c.count(okP ? "valid permutations" : "invalid permutations"); uint64_t h = dev; for (int x : a) h = mix(h, x); for (int x : b) h = mix(h, x); c.sig(h);
}
static void bulk(Ctx &c) {
  Rng &r = c.rng; int t = c.threads(); if (r.chance(10)) { t = r.range(9, 20); omp_set_num_threads(t); }
  static const int edge[] = {0, 1, 63, 64, 65, 127, 128, 129, 64 * 7, 64 * 8, 64 * 8 + 1, 4096, 64 * 9 - 1}; size_t n = r.chance(50) ? edge[r.below(13)] : r.chance(80) ? r.below(5000) : r.below(400000); bool nested = r.chance(15); int off = r.below(70), ch = r.range(0, 255);
  c.describe(fmt("bulk n=%zu offset=%d nested=%d threads=%d", n, off, nested, t));
  std::vector<unsigned char> a(n + 200), b(n + 200), o; for (auto &x : a) x = r.below(256); for (auto &x : b) x = r.below(256); o = a;
  auto run = [&](const std::function<void()> &f) { if (!nested) f(); else {
#pragma omp parallel num_threads(2)
    { if (omp_get_thread_num() == 1 || omp_get_num_threads() == 1) f(); } } };
  run([&] { parMemset(&a[off], ch, n); });
  for (size_t i = 0; i < a.size(); ++i) HV_CHECK(a[i] == (i >= (size_t)off && i < off + n ? ch : o[i]), "fill", "byte %ld relative to the start is %d", (long)i - off, a[i]);
  std::vector<unsigned char> sb = b; o = a; run([&] { parMemcpy(&a[off], &b[17], n); });
  for (size_t i = 0; i < a.size(); ++i) HV_CHECK(a[i] == (i >= (size_t)off && i < off + n ? b[i - off + 17] : o[i]), "copy", "byte %ld relative to the start is %d", (long)i - off, a[i]);
  HV_CHECK(b == sb, "source", "copy changed its source");
  int len = (int)(n / 8); std::vector<double> s(len + 1), d(len + 2, -5); for (auto &x : s) x = r.unit(); copyVector(d.data() + 1, s.data(), len); HV_CHECK(d[0] == -5 && d[len + 1] == -5, "canary", "copyVector wrote outside"); for (int i = 0; i < len; ++i) HV_CHECK(d[i + 1] == s[i], "copyVector", "element %d", i);
  c.count("bulk operations", 3); c.count("bytes checked", 2 * a.size()); c.sig(mix(n, off * 64 + t * 2 + nested));
}
static void compare(Ctx &c) {
  Rng &r = c.rng; int n = r.below(50) + 1; std::vector<double> e(n), a(n); static const double tols[] = {1e-5, 1e-3, 1e-8, 0.5}; double tol = tols[r.below(4)], ign = r.chance(60) ? 0 : 1e-6;
  for (auto &x : e) x = r.chance(10) ? 0 : (r.unit() - 0.5) * (r.chance(20) ? 1e-9 : 100);
  a = e; int k = r.below(n), dev = r.below(9); double x = e[k];
  // deviations well on one side of the tolerance, so rounding cannot matter
  if (dev == 1) a[k] = x * (1 + tol * 0.5); if (dev == 2) a[k] = x * (1 + tol * 2); if (dev == 3) a[k] = NAN; if (dev == 4) a[k] = -x; if (dev == 5) e[k] = NAN; if (dev == 6) a[k] = INFINITY; if (dev == 7) a[k] = x + 1e-7; if (dev == 8) e[k] = a[k] = 0;
  bool want = true;
  for (int i = 0; i < n; ++i) {   // definition: equal, or relative error below tol, or both below the threshold
    if (e[i] == a[i]) continue;
    if (std::fabs(e[i] - a[i]) / std::fabs(e[i]) < tol) continue;
    if (std::fabs(e[i]) < ign && std::fabs(a[i]) < ign) continue;
    want = false;
  }
  c.describe(fmt("compare n=%d tol=%g ignore=%g deviation=%d at %d: %g vs %g", n, tol, ign, dev, k, e[k], a[k]));
  bool got = correctnessCheck(e.data(), a.data(), n, tol, ign);
  HV_CHECK(got == want, "comparison", "correctnessCheck says %d, definition %d", got, want);
  if (ign == 0) { std::vector<float> fe(e.begin(), e.end()), fa(a.begin(), a.end()); if (dev == 3) HV_CHECK(!correctnessCheck(fe.data(), fa.data(), n, tol), "comparison", "NaN accepted (float)"); }
  c.count(want ? "vectors within tolerance" : "vectors outside tolerance"); uint64_t h = dev; for (double z : a) { uint64_t q; memcpy(&q, &z, 8); h = mix(h, q); } c.sig(h);
}
static void vec(Ctx &c) {
  switch (c.rng.below(6)) { case 0: reorderT<double>(c, "double"); break; case 1: reorderT<int>(c, "int"); break; case 2: reorderInPlace(c); break; case 3: permChecks(c); break; case 4: bulk(c); break; default: compare(c); }
}

// ------------------------------------------------------------------ C26
static void pool(Ctx &c) {
  Rng &r = c.rng; bool single = r.chance(15); size_t size = r.chance(30) ? (size_t)r.range(200, 5000) : (size_t)r.range(4, 200) * 64; if (r.chance(10)) size = r.range(100000, 3000000);
  MemoryPool own; MemoryPool *P = single ? MemoryPool::getSingleton() : &own; std::string log;
  bool viaCtor = !single && r.chance(30); MemoryPool *heap = NULL; if (viaCtor) { heap = new MemoryPool(size); P = heap; } else P->initialize(size);
  struct Fin { MemoryPool *p; bool del; ~Fin() { p->finalize(); if (del) delete p; } } fin{P, viaCtor};
  bool oneAlign = r.chance(50); log = fmt("pool size=%zu singleton=%d one-alignment=%d ops:", size, single, oneAlign);
  // the pool starts at the first block of an empty pool
  char *base = (char *)P->allocate(0); HV_CHECK(base != NULL, "no-buffer", "no buffer"); P->deallocateAll();
  struct Blk { size_t off, len; unsigned char tag; }; std::vector<Blk> live; // from head to tail
  size_t head = 0, tail = 0; std::vector<size_t> marks; unsigned char tag = 1; int ops = r.range(5, 60), wraps = 0, refusedByCap = 0;
  auto fill = [&](const Blk &b) { memset(base + b.off, b.tag, b.len); };
  auto verify = [&](const char *w) { for (auto &b : live) for (size_t k = 0; k < b.len; ++k) HV_CHECK((unsigned char)base[b.off + k] == b.tag, "overlap", "%s: byte %zu of the block at %zu (length %zu) was overwritten", w, k, b.off, b.len); };
  c.describe(log);
  static const int aligns[] = {64, 8, 16, 128, 256, 4096, 1};
  for (int s = 0; s < ops; ++s) {
    int op = r.below(10);
    head = P->getHead(); tail = P->getTail();
    HV_CHECK(head < size && tail < size, "offsets", "head %zu tail %zu of %zu", head, tail, size);
    if (op < 6) {
      bool front = op >= 4; int al = oneAlign ? 64 : aligns[r.below(7)]; size_t len = r.chance(5) ? 0 : r.chance(50) ? r.below((int)std::min<size_t>(size, 300)) : r.below((int)(size / (1 + r.below(8)) + 1));
      // does it certainly fit, whatever the padding?  (rounded length plus alignment slack, strictly)
      size_t need = (len + al - 1) / al * al, slack = size % al == 0 && head % al == 0 && tail % al == 0 ? 0 : al;
      bool fits;
      if (tail >= head) { if (front) fits = head >= need + slack || (head < need && size >= need + slack && size - need - slack > tail); else fits = tail + need + slack < size || (tail + need >= size && need + slack < head); }
      else fits = tail + need + slack < head;
      if (!fits) { ++refusedByCap; continue; }
      log += fmt(" %s(%zu,%d)", front ? "front" : "alloc", len, al); c.describe(log);
      size_t h0 = head, t0 = tail;
      char *p = (char *)(front ? P->allocateFront(len, al) : P->allocate(len, al));
      HV_CHECK(p >= base && p + len <= base + size, "outside", "block of %zu at offset %ld of a pool of %zu", len, (long)(p - base), size);
      HV_CHECK((uintptr_t)p % al == 0, "alignment", "block at offset %ld is not aligned to %d", (long)(p - base), al);
      Blk b = {(size_t)(p - base), len, tag++}; if (!tag) tag = 1;
      for (auto &o : live) HV_CHECK(b.off >= o.off + o.len || o.off >= b.off + b.len || !b.len || !o.len, "overlap", "block %zu+%zu overlaps live block %zu+%zu", b.off, b.len, o.off, o.len);
      fill(b); if (front) live.insert(live.begin(), b); else live.push_back(b);
      if ((t0 >= h0) != (P->getTail() >= P->getHead())) ++wraps;
      c.count(front ? "front allocations" : "allocations");
    } else if (op == 6 && !live.empty()) {   // release some oldest blocks
      size_t k = r.below((int)live.size() + 1);
      size_t to = k == live.size() ? tail : live[k].off;
      log += fmt(" head->%zu", to); c.describe(log); P->setHead(to); live.erase(live.begin(), live.begin() + k); c.count("head moves");
    } else if (op == 7 && !live.empty()) {   // release some newest blocks
      size_t k = r.below((int)live.size() + 1);
      size_t to = k ? live[k - 1].off + live[k - 1].len : head;
      // the tail after block k-1 was its padded end; any offset between that and the next block is allowed
      if (k < live.size()) { if (k && live[k].off >= to) to = live[k].off; }
      else to = tail;
      if (k == 0) to = head;
      if (to >= size) to = 0;   // the next block would start over
      log += fmt(" tail->%zu", to); c.describe(log); P->setTail(to); live.resize(k); c.count("tail moves");
    } else if (op == 8 && r.chance(30)) { log += " all"; c.describe(log); P->deallocateAll(); live.clear(); c.count("full releases");
      size_t len = (size - 1) / 64 * 64; if (len) { if (r.chance(50)) { char *p = (char *)P->allocate(len); HV_CHECK(p == base || (p >= base && p + len <= base + size), "capacity", "full-size block at %ld", (long)(p - base)); memset(p, 77, len); HV_CHECK(P->contains(p) && P->contains(p + len - 1), "contains", "full-size block not contained"); P->deallocateAll(); } } }
    else if (op == 9) {
      for (auto &b : live) if (b.len) { HV_CHECK(P->contains(base + b.off) && P->contains(base + b.off + b.len - 1) && P->contains(base + b.off + r.below((int)b.len)), "contains", "live block %zu+%zu not contained (head %zu tail %zu)", b.off, b.len, head, tail); c.count("membership queries", 3); }
      for (int q = 0; q < 6; ++q) { size_t o = r.below((int)size); bool in = tail >= head ? o >= head && o < tail : o >= head || o < tail; HV_CHECK(P->contains(base + o) == in, "contains", "offset %zu: %d (head %zu tail %zu)", o, !in, head, tail); }
      int st; HV_CHECK(!P->contains(NULL) && !P->contains(&st) && !P->contains(base + size) && !P->contains(base - 1), "contains", "foreign address contained"); c.count("membership queries", 10);
    }
    verify("contents");
    if (live.empty() && P->getHead() == P->getTail()) HV_CHECK(!P->contains(base + P->getHead()), "contains", "empty pool contains its head");
  }
  P->deallocateAll(); HV_CHECK(P->getHead() == 0 && P->getTail() == 0, "release-all", "head %zu tail %zu", P->getHead(), P->getTail());
  c.count("pool histories"); c.count("wrap-arounds", wraps); c.sig(mix(std::hash<std::string>()(log), size));
}
// ranges beyond 2 GiB
int hv_num_probes = 1;
void run_probe(Ctx &c, int k) {
  if (c.mode != "vec") return;
#if !defined(__SANITIZE_ADDRESS__)
  omp_set_num_threads(4); size_t n = (size_t)INT_MAX + 1000003; c.describe("bulk operations on 2 GiB + 1000003 bytes");
  size_t len = n + 4096; unsigned char *p = (unsigned char *)mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *q = (unsigned char *)mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  HV_CHECK(p != MAP_FAILED && q != MAP_FAILED, "oracle", "no memory");
  parMemset(p, 5, n); parMemcpy(q, p, n);
  size_t bad = n; for (size_t i = 0; i < n && bad == n; i += i + 8 < n ? 8 : 1) if (i + 8 <= n ? *(uint64_t *)(p + i) != 0x0505050505050505ull || *(uint64_t *)(q + i) != 0x0505050505050505ull : p[i] != 5 || q[i] != 5) bad = i;
  bool tailOk = p[n] == 0 && q[n] == 0; munmap(p, len); munmap(q, len);
  HV_CHECK(bad == n, "bulk-2gib", "byte %zu not set", bad); HV_CHECK(tailOk, "bulk-2gib", "wrote past the end"); c.count("bulk operations beyond 2 GiB", 2); c.sig(n);
#endif
}
void run_case(Ctx &c) { if (c.mode == "part") part(c); else if (c.mode == "pool") pool(c); else vec(c); }
