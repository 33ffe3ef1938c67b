// Driver of one harness process. See common.hpp.
#include "common.hpp"
#include <exception>
#include <signal.h>
using namespace hv;

#ifdef HV_TSAN
extern "C" { long hv_regions(void); long hv_region_threads(void); }
#endif
#ifdef HV_VG
#include <valgrind/memcheck.h>
#endif
extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
static FILE *out;
static std::string g_mode;

#ifdef HV_COV
// -fsanitize-coverage=trace-pc: every basic block of the code under test calls
// this.  Used twice: (1) to count distinct blocks really executed, (2) to inject
// schedule perturbation at arbitrary points of the library, without hooks.
static unsigned char covmap[1 << 20];
int hv_perturb = 0;  // percent-like level, 0 = off
static thread_local uint64_t tls_state = 0;
static std::atomic<uint64_t> tls_seed(88172645463325252ull);
static std::atomic<long long> hv_perturbed(0);
static std::atomic<int> hv_long(0);  // one thread of this case is held for a long time
static std::atomic<long long> hv_longs(0);
__attribute__((no_sanitize_coverage))
static void cov_stall(uint64_t r) {
  hv_perturbed.fetch_add(1, std::memory_order_relaxed);
  unsigned k = (r >> 40) & 15;
  if (((r >> 50) & 7) == 0 && hv_long.load(std::memory_order_relaxed) && hv_long.exchange(0)) {
    timespec t = {0, 400000000}; nanosleep(&t, NULL);
    hv_longs.fetch_add(1, std::memory_order_relaxed);
    return;
  }
  if (k < 9) { for (volatile int i = 0, e = (int)((r >> 20) & 1023); i < e; i = i + 1) {} }
  else if (k < 14) sched_yield();
  else { timespec t = {0, (long)((r >> 16) & 0x7fff) + 500}; nanosleep(&t, NULL); }
}
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void) {
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  unsigned h = (unsigned)((pc * 0x9E3779B97F4A7C15ull) >> 44);
  if (!covmap[h]) covmap[h] = 1;
  if (!hv_perturb) return;
  uint64_t x = tls_state;
  if (!x) x = tls_seed.fetch_add(0x9E3779B97F4A7C15ull) | 1;
  x ^= x << 13; x ^= x >> 7; x ^= x << 17;
  tls_state = x;
  if ((unsigned)(x & 0xffff) < (unsigned)hv_perturb) cov_stall(x);
}
#else
int hv_perturb = 0;
#endif

static void emit(const std::string &s) { fputs(s.c_str(), out); fputc('\n', out); fflush(out); }

int main(int argc, char **argv) {
  uint64_t seed = 1; int from = 0, count = 1, stride = 1, only = INT_MIN, probes = 0;
  std::string outf = "/dev/stdout", prog, scratch = "/tmp"; bool thorough = false, perturb = false, leaks = false; int maxThreads = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i]; auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(v().c_str(), 0, 10);
    else if (a == "--from") from = atoi(v().c_str());
    else if (a == "--count") count = atoi(v().c_str());
    else if (a == "--stride") stride = atoi(v().c_str());
    else if (a == "--only") only = atoi(v().c_str());
    else if (a == "--probes") probes = 1;
    else if (a == "--out") outf = v();
    else if (a == "--progress") prog = v();
    else if (a == "--scratch") scratch = v();
    else if (a == "--mode") g_mode = v();
    else if (a == "--thorough") thorough = true;
    else if (a == "--perturb") perturb = true;  // the harness does not choose the perturbation itself
    else if (a == "--leaks") leaks = true;      // after every case: is any memory unreachable?
    else if (a == "--maxthreads") maxThreads = atoi(v().c_str());
  }
  out = fopen(outf.c_str(), "a");
  if (!out) { perror(outf.c_str()); return 3; }
  std::map<std::string, long long> cnt; std::set<uint64_t> sigs;
  char *pm = NULL; size_t plen = 4096;
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, plen)) { perror("progress"); return 3; }
    pm = (char *)mmap(NULL, plen, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (pm == MAP_FAILED) { perror("mmap"); return 3; }
    close(fd);
  }
  std::vector<std::string> samples; int fails = 0, run = 0;
  std::vector<int> todo;
  if (only != INT_MIN) todo.push_back(only);
  else {
    if (probes && &hv_num_probes) for (int k = 0; k < hv_num_probes; ++k) todo.push_back(-1 - k);
    for (int k = 0; k < count; ++k) todo.push_back(from + k * stride);
  }
  if (only < 0 && only != INT_MIN && (!&hv_num_probes || -1 - only >= hv_num_probes)) { fprintf(stderr, "no such probe\n"); return 5; }
  for (size_t q = 0; q < todo.size(); ++q) {
    Ctx c; c.idx = todo[q]; c.seed = seed; c.thorough = thorough; c.mode = g_mode; c.scratch = scratch; c.maxThreads = maxThreads;
    c.rng = Rng(mix(mix(seed, 0xABCDEF), (uint64_t)(int64_t)todo[q]));
    c.cnt = &cnt; c.sigs = &sigs; c.progress = pm; c.progressLen = plen;
#ifdef HV_COV
    tls_seed = mix(seed, todo[q] + 99) | 1;
    hv_long = mix(seed, todo[q] + 12345) % 97 == 5 ? 1 : 0;
    if (perturb) { Rng pr(mix(mix(seed, 0x9e77), (uint64_t)(int64_t)todo[q])); hv_perturb = pr.chance(75) ? 1 << pr.below(14) : 0; }
#endif
    c.describe("");
#ifdef HV_VG
    long vgErrors = VALGRIND_COUNT_ERRORS; fflush(stdout); fprintf(stderr, "memcheck case %d begins\n", todo[q]); fflush(stderr);
#endif
    try {
      if (todo[q] < 0) run_probe(c, -1 - todo[q]); else run_case(c);
    } catch (Violation &v) {
      ++fails;
      emit(fmt("{\"t\":\"fail\",\"idx\":%d,", todo[q]) + "\"key\":\"" + jesc(v.key) + "\",\"msg\":\"" + jesc(std::string(v.what()).substr(0, 1500)) + "\",\"desc\":\"" + jesc(c.desc) + "\"}");
    } catch (std::exception &e) {
      ++fails;
      emit(fmt("{\"t\":\"fail\",\"idx\":%d,", todo[q]) + "\"key\":\"exception\",\"msg\":\"" + jesc(std::string(e.what()).substr(0, 500)) + "\",\"desc\":\"" + jesc(c.desc) + "\"}");
    }
#ifdef HV_COV
    hv_perturb = 0; hv_long = 0;
#endif
    ++run;
#ifdef HV_VG
    if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "not under the memory checker\n"); return 3; }
    ++cnt["cases judged by the memory checker"];
    if ((long)VALGRIND_COUNT_ERRORS != vgErrors) { ++fails; emit(fmt("{\"t\":\"fail\",\"idx\":%d,\"key\":\"memcheck\",\"msg\":\"the memory checker made %ld reports in this case\",\"desc\":\"", todo[q], (long)VALGRIND_COUNT_ERRORS - vgErrors) + jesc(c.desc) + "\"}"); }
#endif
    if (leaks && fails) break;  // an abandoned case leaves its objects behind: nothing after it could be judged
    if (leaks && &__lsan_do_recoverable_leak_check) {
      fprintf(stderr, "leak check after case %d\n", todo[q]); fflush(stderr);
      if (__lsan_do_recoverable_leak_check()) { emit(fmt("{\"t\":\"fail\",\"idx\":%d,\"key\":\"leak\",\"msg\":\"memory unreachable after the case\",\"desc\":\"", todo[q]) + jesc(c.desc) + "\"}"); ++fails; break; }
      ++cnt["leak searches"];
    }
    if (samples.size() < 3 || (run % 97 == 0 && samples.size() < 6)) samples.push_back(fmt("#%d ", todo[q]) + c.desc.substr(0, 300));
    if (fails >= 25) break;
  }
#ifdef HV_COV
  { long long b = 0; for (size_t i = 0; i < sizeof covmap; ++i) b += covmap[i]; cnt["max:basic blocks of the code under test executed"] = b; cnt["injected stalls inside the library"] = hv_perturbed.load(); cnt["long stalls inside the library"] = hv_longs.load(); }
#endif
#ifdef HV_TSAN
  cnt["parallel regions seen by the race detector"] = hv_regions(); cnt["threads of those regions"] = hv_region_threads();
#endif
  std::string s = fmt("{\"t\":\"end\",\"run\":%d,\"cnt\":{", run);
  bool first = true;
  for (auto &kv : cnt) { s += fmt("%s\"%s\":%lld", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
  s += "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) s += std::string(i ? "," : "") + "\"" + jesc(samples[i]) + "\"";
  s += "],\"sigs\":[";
  first = true; int ns = 0;
  for (uint64_t x : sigs) { if (++ns > 400000) break; s += fmt("%s\"%llx\"", first ? "" : ",", (unsigned long long)(x & 0xffffffffffffull)); first = false; }
  s += "]}";
  emit(s);
  fclose(out);
  _exit(fails ? 1 : 0);
}
