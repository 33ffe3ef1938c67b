// C31: several threads of one process use the library at the same time, each
// with a team of its own (or from inside a parallel region, where inner teams have
// one thread): random programs on private matrices, and read-only operations on
// shared ones.  Every result is judged by the model of program.cpp.
#define run_case program_case
#include "program.cpp"
#undef run_case
#include <thread>
#include <mutex>
#include <unistd.h>

namespace {
struct Out { std::map<std::string, long long> cnt; std::set<uint64_t> sigs; std::string key, msg, desc; };
void sub(const Ctx &c, Ctx &d, Out &o, int k, uint64_t seed) {
  d.idx = c.idx; d.seed = c.seed; d.mode = c.mode; d.thorough = c.thorough; d.maxThreads = std::min(4, c.maxThreads);
  d.rng = Rng(mix(seed, k + 17)); d.cnt = &o.cnt; d.sigs = &o.sigs;
  d.scratch = c.scratch + fmt("/t%d", k); mkdir(d.scratch.c_str(), 0700);
}
template <class F> void guarded(Ctx &d, Out &o, F f) {
  try { f(d); }
  catch (Violation &v) { o.key = v.key; o.msg = v.what(); o.desc = d.desc; }
  catch (std::exception &e) { o.key = "exception"; o.msg = e.what(); o.desc = d.desc; }
}
// read-only operations on a matrix other threads are reading too
void reader(Ctx &d, const Obj &a, const Obj &b, const vector<int> &perm, const vector<int> &inv) {
  Rng &r = d.rng; int n = a.M.m; std::string log = "readers:"; CSR *A = a.A;
  vector<double> x(a.M.n); for (auto &q : x) q = r.range(-30, 30);
  for (int s = 0, e = r.range(4, 14); s < e; ++s) {
    int t = d.threads(), op = r.below(9); log += fmt(" %d/%d", op, t); d.describe(log);
    Obj o; o.A = NULL; o.base = a.base; o.vals = a.vals; o.owned = op != 6; o.hasDp = o.hasIdiag = o.hasDiag = false;
    struct G { Obj &o; ~G() { release(o); } } g = {o};
    switch (op) {
    case 0: { o.M = Mat(a.M.n, a.M.m); for (int i = 0; i < a.M.m; ++i) for (auto &p : a.M.rows[i]) o.M.rows[p.first].push_back(std::make_pair(i, p.second)); o.hasDp = a.hasDp; o.dcol.assign(o.M.m, -1); for (int i = 0; i < o.M.m && i < o.M.n; ++i) if (hasDiagEntry(o.M, i)) o.dcol[i] = i; o.A = A->transpose(); break; }
    case 1: { o.M = Mat(n, n); for (int i = 0; i < n; ++i) for (auto &p : a.M.rows[inv[i]]) o.M.rows[i].push_back(std::make_pair(perm[p.first], p.second)); o.hasDp = a.hasDp; o.dcol.resize(n); for (int i = 0; i < n; ++i) o.dcol[i] = perm[inv[i]]; bool so = r.chance(50); if (so) o.M.sortRows(); o.A = A->permute(perm.data(), inv.data(), so); break; }
    case 2: { o.M = Mat(n, n); for (int i = 0; i < n; ++i) o.M.rows[i] = a.M.rows[inv[i]]; o.hasDp = a.hasDp; o.dcol.resize(n); for (int i = 0; i < n; ++i) o.dcol[i] = a.dcol[inv[i]]; o.A = A->permuteRows(inv.data()); break; }
    case 3: { o = a; o.owned = true; o.A = new CSR(*A); break; }
    case 4: { vector<double> w(n, 3); A->multiplyWithVector(w.data(), x.data()); for (int i = 0; i < n; ++i) { long double sm = 0, mag = 0; for (auto &p : a.M.rows[i]) { sm += (long double)p.second * x[p.first]; mag += fabsl((long double)p.second * x[p.first]); } HV_CHECK(fabsl(w[i] - sm) <= (a.M.rows[i].size() + 8) * 4.6e-16L * mag, "spmv", "element %d is %.17g, expected %.17g", i, w[i], (double)sm); } break; }
    case 5: { bool sp = symPattern(a.M); HV_CHECK(A->isSymmetric(false) == sp, "query", "isSymmetric: truth %d", sp); int bw = 0, deg = 0; for (int i = 0; i < n; ++i) { deg = std::max(deg, (int)a.M.rows[i].size()); for (auto &p : a.M.rows[i]) bw = std::max(bw, std::abs(p.first - i)); } HV_CHECK(A->getBandwidth() == bw && A->getMaxDegree() == deg, "query", "bandwidth or degree"); HV_CHECK(A->equals(*b.A) && !A->hasZeroDiag(), "query", "equals or hasZeroDiag"); break; }
    case 6: { int *rp = 0, *dp = 0, *ep = 0, *ci = 0; bool sy = symPattern(a.M), got = getSymmetricNnzPattern(A, &rp, &dp, &ep, &ci); HV_CHECK(got == sy, "symmetrise", "reported symmetric=%d", got); if (!got) { vector<std::set<int>> w(n); for (int i = 0; i < n; ++i) for (auto &p : a.M.rows[i]) { w[i].insert(p.first); w[p.first].insert(i); } o.M = Mat(n, n); for (int i = 0; i < n; ++i) for (int j : w[i]) o.M.rows[i].push_back(std::make_pair(j, 1.0)); o.vals = false; o.hasDp = true; o.dcol.resize(n); for (int i = 0; i < n; ++i) o.dcol[i] = i; o.A = new CSR(n, n, rp, ci, NULL); o.A->diagptr = dp; } break; }
    case 7: { std::string f = d.scratch + "/s.mtx"; A->storeMatrixMarket(f.c_str()); o.M = a.M; o.M.sortRows(); o.base = r.below(2); o.owned = true; libDiags(o); o.A = new CSR(f.c_str(), o.base); break; }
    case 8: { int k = r.range(1, 6); vector<double> X((size_t)n * k), W((size_t)n * k, 9); for (auto &q : X) q = r.range(-20, 20); A->multiplyWithDenseMatrix(W.data(), k, X.data()); for (int q = 0; q < k; ++q) for (int i = 0; i < n; ++i) { long double sm = 0, mag = 0; for (auto &p : a.M.rows[i]) { long double z = (long double)p.second * X[(size_t)q * n + p.first]; sm += z; mag += fabsl(z); } double w = W[(size_t)q * n + i]; HV_CHECK(fabsl(w - sm) <= (a.M.rows[i].size() + 8) * 4.6e-16L * mag, "spmm", "element %d,%d is %.17g, expected %.17g", i, q, w, (double)sm); } break; }
    }
    if (o.A) verify(o, fmt("reader step %d (op %d)", s, op));
    d.count("concurrent read-only operations");
  }
  d.sig(mix(std::hash<std::string>()(log), a.M.hash()));
}
}

void run_case(Ctx &c) {
  Rng &r = c.rng; int K = r.range(2, 5); bool inside = r.chance(35), shared = r.chance(45); uint64_t seed = r.next();
  c.describe(fmt("%d threads %s, %s", K, inside ? "of a parallel region" : "of the process", shared ? "reading the same matrix" : "each running its own program"));
  vector<Out> out(K); vector<Ctx> ctx(K); for (int k = 0; k < K; ++k) sub(c, ctx[k], out[k], k, seed);
  Pool pool; vector<int> perm, inv;
  if (shared) {
    // square, full diagonal, sorted rows: every read-only operation applies
    std::string kind; auto adj = genGraph(r, r.chance(10) ? 900 : 120, kind); if (adj.empty()) adj.resize(1);
    Mat M = symMat(r, adj, false, true, r.chance(50)); int n = M.m;
    if (r.chance(50)) for (int q = r.below(6); q > 0; --q) { int i = r.below(n); if (M.rows[i].size() > 1 && M.rows[i][0].first != i) M.rows[i].erase(M.rows[i].begin()); }
    std::string f = writeMM(r, c.scratch + "/sh.mtx", M); omp_set_num_threads(2);
    for (int q = 0; q < 2; ++q) { Obj o; o.M = M; o.M.sortRows(); o.base = (int)(seed & 1); o.vals = true; o.owned = true; libDiags(o); o.A = new CSR(f.c_str(), o.base); pool.v.push_back(o); }
    inv = randPerm(r, n); perm.resize(n); for (int i = 0; i < n; ++i) perm[inv[i]] = i;
    c.add(fmt("n=%d nnz=%ld base=%d", n, M.nnz(), pool.v[0].base));
  }
  g_conc = true;
  auto work = [&](int k) { guarded(ctx[k], out[k], [&](Ctx &d) { if (shared) reader(d, pool.v[0], pool.v[1], perm, inv); else program_case(d); }); };
  if (inside) {
#pragma omp parallel num_threads(K)
    { int k = omp_get_thread_num(); work(k); }
  } else {
    vector<std::thread> th; for (int k = 0; k < K; ++k) th.emplace_back(work, k);
    for (auto &t : th) t.join();
  }
  g_conc = false;
  for (auto &o : out) { for (auto &kv : o.cnt) c.count(kv.first, kv.second); for (uint64_t x : o.sigs) c.sig(mix(x, K * 4 + inside * 2 + shared)); }
  if (shared) for (auto &o : pool.v) verify(o, "shared matrix afterwards");
  c.count(inside ? "groups inside a parallel region" : "groups of user threads"); c.maxi("threads using the library at once", K);
  for (auto &o : out) if (!o.key.empty()) { c.add(o.desc); fail(o.key, "one of the concurrent threads: " + o.msg); }
}
