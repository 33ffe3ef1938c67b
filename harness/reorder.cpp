// C07 rcm, C08 bfs, C09 cc (connected components), C10 bip (bipartite BFS).
#include "common.hpp"
#include "synk/barrier.hpp"
#include "reordering/BitVector.hpp"
using namespace hv;
using namespace SpMP;
using std::vector;
extern int hv_perturb;
namespace SpMP {
void findConnectedComponents(const CSR *A, int *num, int **compToRoot, int **compSizes, int **compSizePrefixSum, int **nodesSortedByComp);
void findConnectedComponentsWithBitVector(const CSR *A, int *num, int **compToRoot, int **compSizes, int **compSizePrefixSum, int **nodesSortedByComp, const BitVector *bv);
}
extern "C" void bfsBipartite(CSR &A, CSR &AT, int *rowPerm, int *rowInversePerm, int *colPerm, int *colInversePerm);

typedef vector<vector<int>> Adj;

// graphs around and beyond the size at which components are ordered in parallel
static Adj bigGraph(Rng &r, std::string &kind) {
  int n = 65536 + (r.chance(50) ? r.below(4) : r.below(3000));
  if (r.chance(35)) n -= 1 + r.below(12);   // just below the limit
  int extra = r.chance(40) ? r.below(200) : 0;
  int k = r.below(9);
#ifdef HV_VG
  if (k == 0) k = 5;   // tens of thousands of steps take minutes under the memory checker
#endif
  static const char *names[] = {"big-path", "big-grid", "big-star", "big-two-hubs", "big-caterpillar", "big-tree", "big-layers", "big-random", "two-big"};
  kind = names[k];
  if (k == 8) n = 2 * n;
  int N = n + extra;
  Adj a(N);
  auto e = [&](int x, int y) { if (x == y || x < 0 || y < 0 || x >= n || y >= n) return; a[x].push_back(y); a[y].push_back(x); };
  switch (k) {
  case 0: for (int i = 0; i + 1 < n; ++i) e(i, i + 1); break;
  case 1: { int w = 200 + r.below(100); for (int i = 0; i < n; ++i) { if ((i + 1) % w) e(i, i + 1); e(i, i + w); } break; }
  case 2: { int h = r.chance(50) ? 0 : n - 1; for (int i = 0; i < n; ++i) if (i != h) e(h, i); break; }
  case 3: { int h = 2 + r.below(3); for (int i = h; i < n; ++i) for (int q = 0; q < h; ++q) e(i, q); break; }
  case 4: { int len = 50 + r.below(2000); for (int i = 0; i + 1 < len; ++i) e(i, i + 1); for (int i = len; i < n; ++i) e(i, r.below(len)); break; }
  case 5: for (int i = 1; i < n; ++i) e(i, r.below(i)); break;
  case 6: { int w = 100 + r.below(5000); for (int i = w; i < n; ++i) { int b = (i / w - 1) * w, p = r.below(w), q = r.below(w); e(i, b + p); if (q != p) e(i, b + q); } for (int i = 1; i < w; ++i) e(0, i); break; }
  case 7: { for (int i = 1; i < n; ++i) e(i, i - 1 - r.below(std::min(i, 30))); break; }
  case 8: { int h = n / 2; for (int i = 1; i < h; ++i) e(i, r.below(i)); for (int i = h + 1; i < n; ++i) e(i, h + (i - h) / (2 + (int)(n % 3))); break; }
  }
  // small components before and after the large one(s)
  if (r.chance(60)) {
    Adj b; auto piece = [&]() { int m = r.chance(30) ? 1 : 2 + r.below(r.chance(20) ? 3000 : 60), o = (int)b.size(), st = r.below(3); b.resize(o + m); for (int i = 1; i < m; ++i) { int j = st == 0 ? i - 1 : st == 1 ? 0 : r.below(i); b[o + i].push_back(o + j); b[o + j].push_back(o + i); } };
    for (int q = r.below(5); q > 0; --q) piece();
    int o = (int)b.size(); b.resize(o + N); for (int i = 0; i < N; ++i) for (int j : a[i]) b[o + i].push_back(o + j);
    for (int q = r.below(4); q > 0; --q) piece();
    a.swap(b); N = (int)a.size(); kind += "+pieces";
  }
  if (r.chance(50)) { vector<int> p(N); for (int i = 0; i < N; ++i) p[i] = i; r.shuffle(p); Adj b(N); for (int i = 0; i < N; ++i) for (int j : a[i]) b[p[i]].push_back(p[j]); a.swap(b); kind += "+relabel"; }
  if (extra) kind += "+isolated";
  return a;
}
static Mat asMat(Rng &r, const Adj &a, bool small) {
  int n = (int)a.size(), diag = r.below(3);  // none, all, some
  Mat M(n, n);
  bool sorted = r.chance(60);
  for (int i = 0; i < n; ++i) {
    vector<int> c = a[i];
    if (diag == 1 || (diag == 2 && r.chance(50))) c.push_back(i);
    if (sorted) std::sort(c.begin(), c.end()); else if (small) r.shuffle(c);
    for (int j : c) M.rows[i].push_back(std::make_pair(j, 1.0 + (i * 7 + j * 7) % 5));
  }
  return M;
}
static vector<int> components(const Adj &a, int &n) {
  vector<int> c(a.size(), -1), st; n = 0;
  for (size_t i = 0; i < a.size(); ++i) if (c[i] < 0) { st.assign(1, (int)i); c[i] = n; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int v : a[u]) if (c[v] < 0) { c[v] = n; st.push_back(v); } } ++n; }
  return c;
}
static void checkPerm(const vector<int> &p, const vector<int> &ip, int n, const char *what) {
  vector<char> seen(n, 0);
  for (int i = 0; i < n; ++i) {
    HV_CHECK(ip[i] >= 0 && ip[i] < n, "perm-range", "%s: inverse[%d]=%d outside 0..%d", what, i, ip[i], n - 1);
    HV_CHECK(!seen[ip[i]], "perm-dup", "%s: %d appears twice in the inverse", what, ip[i]);
    seen[ip[i]] = 1;
  }
  for (int i = 0; i < n; ++i) HV_CHECK(p[i] >= 0 && p[i] < n && ip[p[i]] == i, "perm-inverse", "%s: perm[%d]=%d is not the inverse of the other array", what, i, p[i]);
}

static void orderMode(Ctx &c, bool rcm) {
  std::string kind; Adj a;
  // big graphs are rare and only in the builds without memory checker, except a few
#if defined(__SANITIZE_ADDRESS__) || defined(HV_VG)
  bool big = c.rng.chance(c.thorough ? 6 : 3);
#else
  bool big = c.rng.chance(6);
#endif
  if (!big && c.rng.chance(3)) { kind = "empty"; }
  else a = big ? bigGraph(c.rng, kind) : genGraph(c.rng, 1200, kind);
  int n = (int)a.size();
  Mat M = asMat(c.rng, a, !big);
  int base = c.rng.below(2), team = c.threads(); bool pseudo = c.rng.chance(70), vals = c.rng.chance(60);
  HCSR h; build(h, M, base, vals, false);
  Snapshot s(h.A);
  c.describe(fmt("%s %s n=%d nnz=%ld base=%d team=%d pseudo=%d", rcm ? "rcm" : "bfs", kind.c_str(), n, M.nnz(), base, team, pseudo));
  synk::Barrier::deleteInstance();
  int nc; vector<int> comp = components(a, nc); vector<int> csize(nc, 0); for (int x : comp) ++csize[x];
  int reps = big ? 1 : 2;
  for (int rep = 0; rep < reps; ++rep) {
    Guarded<int> P(n, -7, 0x5a5a5a5a), IP(n, -7, 0x5a5a5a5a);
    // a deep graph makes thousands of steps: keep the stall rate low there
    hv_perturb = c.rng.chance(60) ? (big ? 2 : 1 << c.rng.below(12)) : 0;
    if (rcm) h.A->getRCMPermutation(P.p(), IP.p(), pseudo); else h.A->getBFSPermutation(P.p(), IP.p());
    hv_perturb = 0;
    HV_CHECK(P.intact() && IP.intact(), "overrun", "written outside the permutation arrays");
    s.check(h.A, "input-changed", rcm ? "getRCMPermutation" : "getBFSPermutation");
    vector<int> p(P.p(), P.p() + n), ip(IP.p(), IP.p() + n);
    checkPerm(p, ip, n, rcm ? "RCM" : "BFS");
    vector<int> seq = ip; if (rcm) std::reverse(seq.begin(), seq.end());
    vector<int> pos(n); for (int i = 0; i < n; ++i) pos[seq[i]] = i;
    for (int k = 0; k < n;) {
      int cc = comp[seq[k]], end = k + csize[cc];
      for (int q = k; q < end; ++q) HV_CHECK(comp[seq[q]] == cc, "contiguous", "component of node %d is not contiguous at position %d", seq[k], q);
      if (rcm) {
        int next = k + 1;
        for (int q = k; q < end; ++q) {
          HV_CHECK(q < next, "breadth-first", "node %d at position %d has no earlier neighbour", seq[q], q);
          int u = seq[q], lo = next, cnt = 0;
          for (int v : a[u]) if (pos[v] >= lo) ++cnt;
          for (int v : a[u]) HV_CHECK(pos[v] < lo + cnt, "siblings", "neighbour %d of node %d (position %d) is at %d, its unnumbered neighbours belong at %d..%d", v, u, q, pos[v], lo, lo + cnt - 1);
          for (int z = lo + 1; z < lo + cnt; ++z) HV_CHECK(M.rows[seq[z - 1]].size() <= M.rows[seq[z]].size(), "degree-order", "children of node %d: degree %zu before %zu", u, M.rows[seq[z - 1]].size(), M.rows[seq[z]].size());
          next = lo + cnt;
        }
      } else {
        vector<int> q(1, seq[k]); vector<int> d(0);
        static thread_local vector<int> dist; if ((int)dist.size() < n) dist.resize(n);
        for (int z = k; z < end; ++z) dist[seq[z]] = -1;
        dist[seq[k]] = 0;
        for (size_t z = 0; z < q.size(); ++z) for (int v : a[q[z]]) if (dist[v] < 0) { dist[v] = dist[q[z]] + 1; q.push_back(v); }
        for (int z = k + 1; z < end; ++z) HV_CHECK(dist[seq[z]] >= dist[seq[z - 1]], "levels", "node %d at distance %d comes after node %d at distance %d", seq[z], dist[seq[z]], seq[z - 1], dist[seq[z - 1]]);
      }
      k = end;
    }
  }
  c.count("nodes ordered", n); c.count("components ordered", nc); if (big) c.count("graphs beyond the parallel limit");
  if (n > 1) c.sig(mix(M.patternHash(), base * 100 + team * 2 + pseudo));
}

static void ccMode(Ctx &c) {
  std::string kind; Adj a; int n;
  bool tiny = c.rng.chance(60);
  if (c.rng.chance(40)) {  // contention: many concurrent unions of few trees
    n = tiny ? c.rng.range(4, 60) : c.rng.range(60, 3000); a.resize(n); kind = "merge";
    auto e = [&](int x, int y) { if (x == y) return; for (int z : a[x]) if (z == y) return; a[x].push_back(y); a[y].push_back(x); };
    int groups = 1 + c.rng.below(3);
    for (int i = groups; i < n; ++i) { int g = i % groups; int d = 1 + c.rng.below(2); while (d--) { int j = g + groups * c.rng.below((i - g) / groups); if (c.rng.chance(90)) e(i, j); } }
    // descending chains make every union move a root
    if (c.rng.chance(50)) for (int i = 0; i + groups < n; i += groups) e(i, i + groups);
  } else { a = genGraph(c.rng, tiny ? 80 : 2500, kind); n = (int)a.size(); }
  if (c.rng.chance(2)) { a.clear(); n = 0; kind = "empty"; }
  Mat M = asMat(c.rng, a, true);
  int base = c.rng.below(2), team = c.threads();
  HCSR h; build(h, M, base, c.rng.chance(50), false);
  Snapshot s(h.A);
  int nc; vector<int> comp = components(a, nc);
  int reps = n < 100 ? 25 : 6;
  c.describe(fmt("components %s n=%d nnz=%ld base=%d team=%d x%d", kind.c_str(), n, M.nnz(), base, team, reps));
  for (int rep = 0; rep < reps; ++rep) {
    int num = -1, *root = NULL, *size = NULL, *pre = NULL, *nodes = NULL;
    struct Del { int *&a, *&b, *&c, *&d; ~Del() { delete[] a; delete[] b; delete[] c; delete[] d; } } del = {root, size, pre, nodes};
    bool wbv = c.rng.chance(25);
    vector<char> excl(n, 0); BitVector bv(n); int left = n;
    if (wbv) { vector<char> ex(nc); for (auto &x : ex) x = c.rng.chance(40); for (int i = 0; i < n; ++i) if (ex[comp[i]]) { excl[i] = 1; bv.set(i); --left; } }
    hv_perturb = c.rng.chance(75) ? 1 << (3 + c.rng.below(12)) : 0;
    if (wbv) findConnectedComponentsWithBitVector(h.A, &num, &root, &size, &pre, &nodes, &bv);
    else findConnectedComponents(h.A, &num, &root, &size, &pre, &nodes);
    hv_perturb = 0;
    s.check(h.A, "input-changed", "findConnectedComponents");
    // expected components in order of their smallest node
    vector<vector<int>> want; vector<int> slot(nc, -1);
    for (int i = 0; i < n; ++i) if (!excl[i]) { int &k = slot[comp[i]]; if (k < 0) { k = (int)want.size(); want.push_back(vector<int>()); } want[k].push_back(i); }
    HV_CHECK(num == (int)want.size(), "count", "%d components found, the graph has %zu", num, want.size());
    vector<char> seen(num + 1, 0); vector<char> covered(left + 1, 0);
    for (int k = 0; k < num; ++k) {
      HV_CHECK(root[k] >= 0 && root[k] < n && !excl[root[k]], "root-range", "component %d has root %d", k, root[k]);
      int w = slot[comp[root[k]]];
      HV_CHECK(!seen[w], "split", "two components share the tree of node %d", root[k]); seen[w] = 1;
      HV_CHECK(root[k] == want[w][0], "root", "root %d of its component is not its smallest node %d", root[k], want[w][0]);
      HV_CHECK(size[k] == (int)want[w].size(), "size", "component %d has size %d, expected %zu", k, size[k], want[w].size());
      HV_CHECK(pre[k] >= 0 && pre[k] + size[k] <= left, "offset", "component %d spans %d..%d of %d", k, pre[k], pre[k] + size[k], left);
      for (int q = 0; q < size[k]; ++q) {
        HV_CHECK(nodes[pre[k] + q] == want[w][q], "nodes", "component %d lists node %d at place %d, expected %d", k, nodes[pre[k] + q], q, want[w][q]);
        HV_CHECK(!covered[pre[k] + q], "overlap", "slots of two components overlap at %d", pre[k] + q); covered[pre[k] + q] = 1;
      }
    }
    c.count("component searches checked"); c.count("nodes classified", left);
  }
  if (n > 1 && nc < n) c.sig(mix(M.patternHash(), base * 100 + team));
}

static void bipMode(Ctx &c) {
  GenOpt o; o.cap = 1500; o.dup = c.rng.chance(20);
  Mat M = genGeneral(c.rng, o);
  if (c.rng.chance(12) && M.m && M.n) {   // a full row or column
    if (c.rng.chance(50)) { int i = c.rng.below(M.m); M.rows[i].clear(); for (int j = 0; j < M.n; ++j) M.rows[i].push_back(std::make_pair(j, 1.0)); }
    else { int j = c.rng.below(M.n); for (auto &r : M.rows) { bool has = false; for (auto &p : r) has |= p.first == j; if (!has) r.push_back(std::make_pair(j, 2.0)); } }
    M.kind += "+full";
  }
  Mat T(M.n, M.m); for (int i = 0; i < M.m; ++i) for (auto &p : M.rows[i]) T.rows[p.first].push_back(std::make_pair(i, p.second));
  int base = c.rng.below(2), team = c.threads();
  HCSR h, ht; bool vals = c.rng.chance(50); build(h, M, base, vals); build(ht, T, base, vals);
  Snapshot s(h.A), st(ht.A);
  c.describe(fmt("bipartite %s %dx%d nnz=%ld base=%d team=%d", M.kind.c_str(), M.m, M.n, M.nnz(), base, team));
  synk::Barrier::deleteInstance();
  Guarded<int> rp(M.m, -7, 0x5a5a5a5a), ri(M.m, -7, 0x5a5a5a5a), cp(M.n, -7, 0x5a5a5a5a), ci(M.n, -7, 0x5a5a5a5a);
  hv_perturb = c.rng.chance(60) ? 1 << c.rng.below(12) : 0;
  bfsBipartite(*h.A, *ht.A, rp.p(), ri.p(), cp.p(), ci.p());
  hv_perturb = 0;
  HV_CHECK(rp.intact() && ri.intact() && cp.intact() && ci.intact(), "overrun", "written outside the permutation arrays");
  s.check(h.A, "input-changed", "bfsBipartite"); st.check(ht.A, "input-changed", "bfsBipartite");
  vector<int> a(rp.p(), rp.p() + M.m), b(ri.p(), ri.p() + M.m), d(cp.p(), cp.p() + M.n), e(ci.p(), ci.p() + M.n);
  checkPerm(a, b, M.m, "rows"); checkPerm(d, e, M.n, "columns");
  // each component contiguous on both sides, in non-decreasing distance from its first row
  vector<int> dr(M.m, -1), dc(M.n, -1); int done = 0;
  for (int k = 0; k < M.m;) {
    int root = b[k], cnt = 1; vector<int> q(1, root); dr[root] = 0; vector<int> cols;
    for (size_t z = 0; z < q.size(); ++z) { int u = q[z]; for (auto &p : M.rows[u]) if (dc[p.first] < 0) { dc[p.first] = dr[u] + 1; cols.push_back(p.first); for (auto &t : T.rows[p.first]) if (dr[t.first] < 0) { dr[t.first] = dc[p.first] + 1; q.push_back(t.first); } } }
    cnt = (int)q.size();
    for (int z = k; z < k + cnt; ++z) HV_CHECK(z < M.m && dr[b[z]] >= 0 && (z == k || dr[b[z]] >= dr[b[z - 1]]), "row-levels", "row %d at position %d breaks the breadth-first order of the component of row %d", b[z], z, root);
    k += cnt; done += (int)cols.size();
  }
  c.count("rows and columns ordered", M.m + M.n);
  if (M.nnz()) c.sig(mix(M.patternHash(), base * 100 + team));
}

void run_case(Ctx &c) {
  if (c.mode == "rcm") orderMode(c, true); else if (c.mode == "bfs") orderMode(c, false);
  else if (c.mode == "cc") ccMode(c); else bipMode(c);
}
// deterministic corner shapes
int hv_num_probes = 7;
void run_probe(Ctx &c, int k) {
  if (c.mode != "rcm") return;
  if (k >= 4) {  // one path beyond the parallel limit: as many levels as nodes
    static const int team[] = {1, 2, 3}, size[] = {65537, 65536, 67895};
    int T = team[k - 4], N = size[k - 4]; omp_set_num_threads(T); synk::Barrier::deleteInstance();
    Mat M(N, N); for (int i = 0; i < N; ++i) { if (i) M.rows[i].push_back(std::make_pair(i - 1, 1.0)); if (i + 1 < N) M.rows[i].push_back(std::make_pair(i + 1, 1.0)); }
    HCSR h; build(h, M, 0); c.describe(fmt("path of %d nodes ordered by %d threads together", N, T));
    vector<int> p(N, -1), ip(N, -1); h.A->getRCMPermutation(p.data(), ip.data(), k == 5);
    checkPerm(p, ip, N, "RCM");
    for (int i = 0; i + 1 < N; ++i) HV_CHECK(std::abs(p[i] - p[i + 1]) == 1, "path", "neighbours %d and %d of a path are at %d and %d", i, i + 1, p[i], p[i + 1]);
    return;
  }
  // k: paths just below the parallel limit, ordered by the last thread of the team
  static const int team[] = {8, 8, 4, 3};
  int T = team[k], len = 65535 - k; omp_set_num_threads(T);
  int N = len + (T - 1) * 2; Adj a(N);
  // components are shared out in order of their smallest node: pairs first, the path last
  for (int i = 0; i < T - 1; ++i) { a[2 * i].push_back(2 * i + 1); a[2 * i + 1].push_back(2 * i); }
  for (int i = 2 * (T - 1); i + 1 < N; ++i) { a[i].push_back(i + 1); a[i + 1].push_back(i); }
  Mat M(N, N); for (int i = 0; i < N; ++i) for (int j : a[i]) M.rows[i].push_back(std::make_pair(j, 1.0));
  HCSR h; build(h, M, 0);
  c.describe(fmt("path of %d nodes handled by the last of %d threads", len, T));
  synk::Barrier::deleteInstance();
  vector<int> p(N, -1), ip(N, -1);
  h.A->getRCMPermutation(p.data(), ip.data(), true);
  checkPerm(p, ip, N, "RCM");
  for (int i = 2 * (T - 1); i + 1 < N; ++i) HV_CHECK(std::abs(p[i] - p[i + 1]) == 1, "path", "neighbours %d and %d of a path are at %d and %d", i, i + 1, p[i], p[i + 1]);
}
