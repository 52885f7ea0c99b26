// Property-based testing core: a choice-tape source of generated values, forked
// workers (so that crashes, sanitizer reports, std::terminate and endless loops
// are outcomes of a case and not of the run), tape shrinking and replay files.
//
// A case is fully determined by its tape: the list of the choices it drew.
// Random tapes come from (VERIF_SEED, sub-check name, case number).  Shrinking
// edits the tape and keeps an edit when the case still fails.
#pragma once
#include <climits>
#include <dirent.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <memory>
#include <array>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <time.h>
#include <new>
#include <execinfo.h>
#include <malloc.h>

// A request for memory that cannot be satisfied is a std::bad_alloc, as without the sanitizer
// (the sanitizer's own operator new ends the process instead).
inline long pbt_live = 0; // bytes held by operator new
inline void* pbt_alloc(std::size_t n) { void* p = malloc(n ? n : 1); if (p) __atomic_add_fetch(&pbt_live, (long)malloc_usable_size(p), __ATOMIC_RELAXED); return p; }
inline void pbt_free(void* p) { if (p) __atomic_sub_fetch(&pbt_live, (long)malloc_usable_size(p), __ATOMIC_RELAXED); free(p); }
#ifndef PBT_NO_NEW
void* operator new(std::size_t n) { void* p = pbt_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = pbt_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return pbt_alloc(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return pbt_alloc(n); }
void operator delete(void* p) noexcept { pbt_free(p); }
void operator delete[](void* p) noexcept { pbt_free(p); }
void operator delete(void* p, std::size_t) noexcept { pbt_free(p); }
void operator delete[](void* p, std::size_t) noexcept { pbt_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { pbt_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { pbt_free(p); }
#endif

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
extern "C" int __lsan_do_recoverable_leak_check() __attribute__((weak));
namespace pbt {
// Stands for a full disk: no file grows beyond a size while it lives
struct FullDisk {
  struct rlimit old; void (*sig)(int);
  explicit FullDisk(size_t size) { getrlimit(RLIMIT_FSIZE, &old); struct rlimit r = {size, old.rlim_max}; setrlimit(RLIMIT_FSIZE, &r); sig = signal(SIGXFSZ, SIG_IGN); }
  ~FullDisk() { setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, sig); }
};
} // namespace pbt

namespace pbt {

static const size_t TAPE_CAP = 1 << 17;
static const size_t MSG_CAP = 16384;
static const int EXIT_FAIL = 77;

// Per-worker block shared with the parent process
struct Shared {
  volatile int32_t sub;
  volatile int64_t idx;
  volatile int64_t chunk_first;
  volatile double started;
  volatile uint64_t ntape;
  volatile uint64_t evaluations;
  volatile uint64_t discarded;
  char msg[MSG_CAP];
  char desc[MSG_CAP];
  uint64_t tape[TAPE_CAP];
};

inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
inline uint64_t hashstr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}
inline double now() {
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Failure { std::string msg; };
struct Discard {};

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
};

struct Ctx {
  Shared* sh;
  bool replay = false;
  std::vector<uint64_t> in;   // replayed tape
  size_t pos = 0;
  Rng rng{0};
  bool nontriv = false;
  uint64_t h = 0;             // hash of the choices made
  std::vector<std::string> labels;
  std::string desc;
  std::string scratch;        // private empty directory (also the cwd); call dir() to use it
  bool usesdir = false;
  bool repeated = false;      // release mode: this case is run again and again in one process
  const std::set<std::string>* known = nullptr;
  std::set<std::string> known_seen;
  int thorough = 0;

  void record(uint64_t v) {
    h = mix64(h ^ (v + 0x1234567));
    if (sh->ntape < TAPE_CAP) { sh->tape[sh->ntape] = v; sh->ntape = sh->ntape + 1; }
  }
  // Uniform in [0, n); n == 0 means the full 64 bits.  0 is the simplest value.
  uint64_t below(uint64_t n) {
    uint64_t v;
    if (replay) {
      v = pos < in.size() ? in[pos] : 0; ++pos;
      if (n && v >= n) v = v % n;
    } else {
      v = rng.next();
      if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    }
    record(v);
    return v;
  }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
  bool flag() { return below(2) != 0; }
  // true with probability num/den
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  double unit() { return below(1ULL << 53) / (double)(1ULL << 53); }
  double real(double a, double b) { return a + (b - a) * unit(); }
  template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
  // Bulk data from one choice (0 gives all zeros)
  std::vector<uint8_t> bytes(size_t n) {
    uint64_t seed = below(1ULL << 32);
    std::vector<uint8_t> r(n, 0);
    if (seed) { Rng g(seed); for (auto& b : r) b = (uint8_t)(g.next() >> 33); }
    return r;
  }
  std::string chars(size_t n, const std::string& alphabet) {
    std::string s; for (size_t i = 0; i < n; ++i) s += alphabet[below(alphabet.size())]; return s;
  }
  // Integer with bias to boundaries in an n-bit unsigned field
  uint64_t ubits(unsigned n) {
    uint64_t max = n >= 64 ? ~0ULL : ((1ULL << n) - 1);
    switch (below(6)) {
      case 0: return below(8) & max;
      case 1: return (max - below(4)) & max;
      case 2: return (1ULL << below(n)) & max;
      case 3: { uint64_t k = below(n); return ((1ULL << k) - 1) & max; }
      default: return n >= 64 ? below(0) : below(max + 1);
    }
  }
  const std::string& dir() { usesdir = true; return scratch; }
  void label(const std::string& l) { labels.push_back(l); }
  void nontrivial() { nontriv = true; }
  void describe(const std::string& d) { desc += d; if (desc.size() > 2000) desc.resize(2000);
    size_t n = std::min(desc.size(), MSG_CAP - 1); memcpy(sh->desc, desc.data(), n); sh->desc[n] = 0; }
  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
  [[noreturn]] void discard() { throw Discard(); }
  // A disagreement that carries a name: when the committed known-findings file
  // lists this name for the property, it is noted instead of failing the case.
  void mismatch(const std::string& key, const std::string& m) {
    if (known && known->count(key)) { known_seen.insert(key); return; }
    fail("[" + key + "] " + m);
  }
};

struct Str {
  std::ostringstream o;
  template<class T> Str& operator<<(const T& t) { o << t; return *this; }
  operator std::string() const { return o.str(); }
};

#define PBT_CHECK(c, cond, msg) do { if (!(cond)) (c).fail(pbt::Str() << #cond << " is false: " << msg); } while (0)

struct Sub {
  std::string name;
  long quick, thorough;        // number of cases per tier
  int nfixed;                  // first nfixed case numbers enumerate a fixed space: idx is given to the body
  std::function<void(Ctx&, long idx)> body;
  int cpu_s = 60;              // CPU seconds one case may take
};

inline std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
inline std::function<void()>& init_hook() { static std::function<void()> f; return f; }
inline std::string& rule_text() { static std::string s; return s; }

struct Reg {
  Reg(const std::string& name, long q, long t, std::function<void(Ctx&)> f) {
    subs().push_back(Sub{name, q, t, 0, [f](Ctx& c, long) { f(c); }});
  }
};

inline std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

struct Runner {
  std::string prop, tier = "quick", replaydir = ".", stats, only;
  uint64_t seed = 1;
  double deadline = 240;      // wall seconds for generating cases
  int workers = 8;
  double scale = 1;
  std::set<std::string> known;
  std::string tmp;
  std::vector<Shared*> sh;

  Shared* newshared() {
    void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*)p;
  }
  static void cleandir(const std::string& d) {
    // d is always a directory this run created below /tmp
    if (d.compare(0, 5, "/tmp/") != 0 || d.find("/pbt.") == std::string::npos) return;
    std::string cmd = "chmod -R u+rwx '" + d + "' 2>/dev/null; rm -rf '" + d + "'";
    if (system(cmd.c_str())) {}
  }
  static void prepscratch(const std::string& d) {
    if (chdir("/tmp")) {}
    struct stat st; if (stat(d.c_str(), &st) == 0) cleandir(d);
    mkdir(d.c_str(), 0777);
    if (chdir(d.c_str())) {}
  }
  double armed = -10;
  static void cputimer(int s) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, 0);
  }
  // Runs one case in this process. Returns 0 ok, 1 failed, 2 discarded
  int runcase(const Sub& s, Ctx& c, long idx) {
    if (now() - armed > 1) { armed = now(); cputimer(s.cpu_s); }
    int r = 0;
    std::string m;
    try { s.body(c, idx); }
    catch (Failure& f) { r = 1; m = f.msg; }
    catch (Discard&) { r = 2; }
    catch (std::exception& e) {
      int st; char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
      r = 1; m = std::string("unexpected exception ") + (n ? n : "?") + ": " + e.what(); free(n);
    }
    catch (...) { r = 1; m = "unexpected exception of a non-standard type"; }
    if (r == 1) { size_t n = std::min(m.size(), MSG_CAP - 1); memcpy(c.sh->msg, m.data(), n); c.sh->msg[n] = 0; }
    return r;
  }
  // Release mode: the same case over and over in one process; what it keeps must not grow with every repetition
  bool release = false, cxxonly = false; std::string cxxsubs; // cxxsubs: where only operator new counts, because a library below loses memory
  struct Held { long bytes = 0, fds = 0, maps = 0; };
  static long count(const char* dir) { DIR* d = opendir(dir); long n = 0; if (!d) return 0; while (readdir(d)) ++n; closedir(d); return n; }
  Held held() const {
    Held h; if (cxxonly) h.bytes = pbt_live; else if (__sanitizer_get_current_allocated_bytes) h.bytes = (long)__sanitizer_get_current_allocated_bytes();
    h.fds = count("/proc/self/fd");
    FILE* f = fopen("/proc/self/maps", "r"); char line[1024]; if (f) { while (fgets(line, sizeof line, f)) if (strstr(line, tmp.c_str())) ++h.maps; fclose(f); }
    return h;
  }
  // PBT_TRACE: where the blocks came from that one repetition took and kept (for reading a replay by hand)
  struct Block { const void* p; size_t n; int depth; void* at[24]; };
  static Block* blocks() { static Block b[1 << 16]; return b; }
  static int& nblocks() { static int n = 0; return n; }
  static bool& tracing() { static bool t = false; return t; }
  static void took(const volatile void* p, size_t n) {
    static bool busy = false; if (!tracing() || busy || nblocks() == 1 << 16) return;
    busy = true; Block& b = blocks()[nblocks()++]; b.p = (const void*)p; b.n = n; b.depth = backtrace(b.at, 24); busy = false;
  }
  static void gave(const volatile void* p) { for (int i = nblocks(); p && i-- > 0; ) if (blocks()[i].p == p) { blocks()[i].p = nullptr; return; } }
  static void tracekept() {
    if (!getenv("PBT_TRACE")) return;
    tracing() = false; for (int i = 0; i < nblocks(); ++i) if (blocks()[i].p) { fprintf(stderr, "kept %zu bytes\n", blocks()[i].n); fflush(stderr); backtrace_symbols_fd(blocks()[i].at, blocks()[i].depth, 2); }
  }
  template<class Make> int runrelease(const Sub& s, Make make, long idx, const std::string& dir, Ctx& out) {
    cxxonly = (";" + cxxsubs + ";").find(";" + s.name + ";") != std::string::npos;
    std::vector<Held> hs; hs.reserve(32); char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return 0;
    for (int k = 0; k < 14; ++k) {
      int r; bool used;
      if (k == 12 && getenv("PBT_TRACE") && __sanitizer_install_malloc_and_free_hooks) { __sanitizer_install_malloc_and_free_hooks(took, gave); tracing() = true; }
      if (k == 13) tracing() = false;
      { Ctx c = make(); c.repeated = true; c.sh->ntape = 0; c.sh->desc[0] = 0; r = runcase(s, c, idx); used = c.usesdir; if (k == 0) out = c; }
      if (used) prepscratch(dir); else if (chdir(cwd)) {}
      if (r == 1) return 2;                 // the business of another property
      if (r == 2) return 2;
      hs.push_back(held());
      if (k < 3) continue;
      const Held &a = hs[k - 1], &b = hs[k];
      bool grow[3] = {b.bytes > a.bytes, b.fds > a.fds, b.maps > a.maps}, all[3] = {true, true, true};
      for (int j = 3; j <= k; ++j) { all[0] &= hs[j].bytes > hs[j - 1].bytes; all[1] &= hs[j].fds > hs[j - 1].fds; all[2] &= hs[j].maps > hs[j - 1].maps; }
      if (!((grow[0] && all[0]) || (grow[1] && all[1]) || (grow[2] && all[2]))) return 0;
      if (k == 13) {
        tracekept();
        std::string m = "repeating this history keeps, every time,";
        if (all[0]) { long lo = LONG_MAX; for (int j = 3; j <= k; ++j) lo = std::min(lo, hs[j].bytes - hs[j - 1].bytes); m += " at least " + std::to_string(lo) + " bytes of memory"; }
        if (all[1]) m += std::string(all[0] ? "," : "") + " " + std::to_string(b.fds - a.fds) + " descriptors";
        if (all[2]) m += std::string(all[0] || all[1] ? "," : "") + " " + std::to_string(b.maps - a.maps) + " mapped files";
        size_t n = std::min(m.size(), MSG_CAP - 1); memcpy(out.sh->msg, m.data(), n); out.sh->msg[n] = 0;
        return 1;
      }
    }
    return 0;
  }
  uint64_t caseseed(const Sub& s, long idx) const {
    return mix64(seed * 0x9E3779B97F4A7C15ULL ^ hashstr(s.name)) ^ mix64((uint64_t)idx + 77);
  }
  void silence(const std::string& log) {
    int fd = open(log.empty() ? "/dev/null" : log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
    int in = open("/dev/null", O_RDONLY);
    dup2(in, 0); dup2(fd, 1); dup2(fd, 2);
  }

  struct Outcome { int status = 0; bool failed = false; std::string msg, desc; std::vector<uint64_t> tape; std::string log; };

  std::string slurp(const std::string& p, size_t cap = 12000) {
    std::ifstream i(p, std::ios::binary); std::stringstream ss; ss << i.rdbuf();
    std::string s = ss.str(); if (s.size() > cap) s = s.substr(0, cap); return s;
  }
  static std::string crashname(int st) {
    if (WIFSIGNALED(st)) {
      int sg = WTERMSIG(st);
      if (sg == SIGPROF) return "did not terminate (CPU limit of the case, or blocked)";
      if (sg == SIGABRT) return "aborted (std::terminate or abort)";
      return std::string("killed by signal ") + strsignal(sg);
    }
    if (WIFEXITED(st)) return std::string("process ended with status ") + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or exit call)";
    return "ended abnormally";
  }
  static std::string asanline(const std::string& log) {
    for (const char* k : {"ERROR: AddressSanitizer", "runtime error:", "terminate called"}) {
      size_t p = log.find(k);
      if (p != std::string::npos) {
        size_t b = log.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1;
        size_t e = log.find('\n', p);
        std::string r = log.substr(b, e - b);
        // first frames in the sources under test
        size_t q = e; int n = 0;
        while (n < 3 && q != std::string::npos && (q = log.find("    #", q)) != std::string::npos) {
          size_t e2 = log.find('\n', q);
          std::string fr = log.substr(q + 4, e2 == std::string::npos ? std::string::npos : e2 - q - 4);
          if (fr.find("/repo/") != std::string::npos || fr.find("msat") != std::string::npos) { r += " | " + fr; ++n; }
          q = e2;
        }
        return r;
      }
    }
    return "";
  }

  // Runs one tape (or a sequence of generated cases) in a fresh process
  Outcome runtape(int subi, const std::vector<uint64_t>& tape, bool keeplog) {
    Shared* m = sh[0];
    m->ntape = 0; m->msg[0] = 0; m->desc[0] = 0;
    std::string log = tmp + "/replay.log";
    std::string dir = tmp + "/r";
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      silence(keeplog ? log : "");
      prepscratch(dir);
      Ctx c; c.sh = m; c.replay = true; c.in = tape; c.known = &known; c.scratch = dir; c.thorough = tier == "thorough";
      const Sub& s = subs()[subi];
      int r; if (release) { Ctx first; r = runrelease(s, [&] { return c; }, -1, dir, first); } else r = runcase(s, c, -1);
      if (getenv("PBT_LSAN") && __lsan_do_recoverable_leak_check) { c = Ctx(); __lsan_do_recoverable_leak_check(); r = 1; m->msg[0] = 0; }
      _exit(r == 1 ? EXIT_FAIL : 0);
    }
    Outcome o; o.status = waitpid_timeout(pid, 300);
    finish(o, m, keeplog ? log : "");
    return o;
  }
  // A case whose processes use almost no CPU for a long time is blocked: the CPU limit would never end it
  struct Watch { double t0 = 0, last = 0, cpu = 0; void start() { *this = Watch(); t0 = last = now(); } };
  static double cpuof(pid_t group, bool& disk) { // seconds used by the processes of a group and the children they waited for
    DIR* d = opendir("/proc"); double r = 0; disk = d == nullptr; if (!d) return 0;
    while (struct dirent* e = readdir(d)) {
      if (e->d_name[0] < '0' || e->d_name[0] > '9') continue;
      std::ifstream i(std::string("/proc/") + e->d_name + "/stat"); std::string line; std::getline(i, line);
      size_t q = line.rfind(')'); if (q == std::string::npos) continue;
      char state; int pp, pg; long t[4];
      if (sscanf(line.c_str() + q + 1, " %c %d %d %*d %*d %*d %*u %*u %*u %*u %*u %ld %ld %ld %ld", &state, &pp, &pg, t, t + 1, t + 2, t + 3) != 7 || pg != group) continue;
      if (state == 'D') disk = true;
      r += double(t[0] + t[1] + t[2] + t[3]) / sysconf(_SC_CLK_TCK);
    }
    closedir(d); return r;
  }
  static bool blocked(Watch& w, pid_t group, double limit) {
    double t = now(); if (t - w.last < 1) return false;
    bool disk; double c = cpuof(group, disk); w.last = t;
    if (disk || c > w.cpu + 0.04 * limit || c < w.cpu) { w.t0 = t; w.cpu = c; return false; }
    return t - w.t0 > limit;
  }
  int waitpid_timeout(pid_t pid, double t) {
    double end = now() + t; int st;
    useconds_t us = 200; Watch w; w.start();
    for (;;) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) { kill(-pid, SIGKILL); return st; }
      if (now() > end || blocked(w, pid, 30)) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); return SIGPROF; }
      usleep(us); if (us < 5000) us += us / 2;
    }
  }
  void finish(Outcome& o, Shared* m, const std::string& log) {
    o.tape.assign(m->tape, m->tape + m->ntape);
    o.desc = m->desc;
    if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0) return;
    if (release && !(WIFEXITED(o.status) && WEXITSTATUS(o.status) == EXIT_FAIL)) return;
    o.failed = true;
    if (!log.empty()) o.log = slurp(log, 60000);
    if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == EXIT_FAIL) o.msg = m->msg;
    else { o.msg = crashname(o.status); std::string a = asanline(o.log); if (!a.empty()) o.msg += ": " + a; }
  }
  Outcome runseq(const std::vector<std::pair<int,long>>& seq) {
    Shared* m = sh[0];
    std::string log = tmp + "/replay.log", dir = tmp + "/r";
    m->ntape = 0; m->msg[0] = 0; m->desc[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      silence(log);
      int r = 0;
      for (auto& p : seq) {
        prepscratch(dir);
        m->ntape = 0; m->desc[0] = 0;
        Ctx c; c.sh = m; c.rng = Rng(caseseed(subs()[p.first], p.second)); c.known = &known; c.scratch = dir; c.thorough = tier == "thorough";
        r = runcase(subs()[p.first], c, p.second);
        if (r == 1) break;
      }
      _exit(r == 1 ? EXIT_FAIL : 0);
    }
    Outcome o; o.status = waitpid_timeout(pid, 600);
    finish(o, m, log);
    return o;
  }

  // ---- generation
  struct HashSet {
    std::vector<uint64_t> v;
    void insert(uint64_t h) { v.push_back(h); }
    void finish() { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
    size_t size() const { return v.size(); }
  };
  struct Stats {
    uint64_t evaluations = 0, discarded = 0;
    HashSet nontrivial;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::set<std::string> known_seen;
    uint64_t bysub = 0;
  };

  struct Found { int sub; long idx; long first; std::vector<uint64_t> tape; std::string msg; };

  std::vector<std::vector<std::pair<int,long>>> plan; // chunks of cases

  bool parse_stats(const std::string& f, Stats& st, std::map<std::string, Stats>& persub) {
    std::ifstream i(f); std::string line; bool ok = false;
    while (std::getline(i, line)) {
      if (line.size() < 2) continue;
      std::string v = line.substr(2);
      switch (line[0]) {
        case 'n': { // sub hash
          size_t p = v.find(' '); uint64_t hh = strtoull(v.c_str(), 0, 16);
          st.nontrivial.insert(hh); persub[v.substr(p + 1)].nontrivial.insert(hh); break; }
        case 'e': { size_t p = v.find(' '); uint64_t n = strtoull(v.c_str(), 0, 10); st.evaluations += n; persub[v.substr(p + 1)].evaluations += n; break; }
        case 'd': st.discarded += strtoull(v.c_str(), 0, 10); break;
        case 'l': { size_t p = v.find(' '); st.labels[v.substr(p + 1)] += strtoull(v.c_str(), 0, 10); break; }
        case 's': { size_t p = v.find('\t'); auto& ps = persub[v.substr(0, p)]; if (ps.samples.size() < 3) ps.samples.push_back(v.substr(p + 1)); break; }
        case 'k': st.known_seen.insert(v); break;
        case '.': ok = true; break;
      }
    }
    return ok;
  }

  void worker(int w, size_t chunk, const std::string& statsfile) {
    silence(getenv("PBT_VERBOSE") ? "/tmp/pbt.verbose" : getenv("PBT_LSAN") ? getenv("PBT_LSAN") + std::to_string(chunk) : "");
    Shared* m = sh[w];
    std::string dir = tmp + "/w" + std::to_string(w);
    std::map<std::string, uint64_t> labels, evals;
    std::vector<std::pair<uint64_t, std::string>> nt;
    std::map<std::string, std::vector<std::string>> samples;
    std::set<std::string> ks;
    uint64_t disc = 0;
    m->chunk_first = 0;
    prepscratch(dir);
    for (auto& p : plan[chunk]) {
      const Sub& s = subs()[p.first];
      m->sub = p.first; m->idx = p.second; m->ntape = 0; m->msg[0] = 0; m->desc[0] = 0; m->started = now();
      // keep each case in an empty directory
      Ctx c; c.sh = m; c.rng = Rng(caseseed(s, p.second)); c.known = &known; c.scratch = dir; c.thorough = tier == "thorough";
      int r; if (release) { Ctx blank = c; r = runrelease(s, [&] { return blank; }, p.second, dir, c); } else r = runcase(s, c, p.second);
      if (r == 1) _exit(EXIT_FAIL);
      if (!c.usesdir) ;
      else if (rmdir(dir.c_str()) == 0 || errno != ENOTEMPTY) { mkdir(dir.c_str(), 0777); if (chdir(dir.c_str())) {} }
      else prepscratch(dir);
      if (r == 2) { ++disc; continue; }
      ++evals[s.name];
      for (auto& l : c.labels) ++labels[s.name + ": " + l];
      for (auto& k : c.known_seen) ks.insert(k);
      if (c.nontriv) {
        nt.push_back({c.h ^ hashstr(s.name), s.name});
        auto& v = samples[s.name];
        if (v.size() < 2 && !c.desc.empty()) v.push_back(c.desc);
      }
    }
    if (getenv("PBT_LSAN") && __lsan_do_recoverable_leak_check) __lsan_do_recoverable_leak_check(); // to find who keeps what
    std::ofstream o(statsfile);
    for (auto& p : nt) { char b[20]; snprintf(b, 20, "%016llx", (unsigned long long)p.first); o << "n " << b << " " << p.second << "\n"; }
    for (auto& p : evals) o << "e " << p.second << " " << p.first << "\n";
    o << "d " << disc << "\n";
    for (auto& p : labels) o << "l " << p.second << " " << p.first << "\n";
    for (auto& p : samples) for (auto& d : p.second) { std::string t = d; for (auto& ch : t) if (ch == '\n') ch = ' '; o << "s " << p.first << "\t" << t << "\n"; }
    for (auto& k : ks) o << "k " << k << "\n";
    o << ". end\n";
    o.close();
    _exit(0);
  }

  std::vector<uint64_t> shrink(int sub, std::vector<uint64_t> t, double budget, int& evals, std::string& msg) {
    double end = now() + budget;
    evals = 0;
    auto tryit = [&](const std::vector<uint64_t>& cand) -> bool {
      if (now() > end || evals > 3000) return false;
      ++evals;
      Outcome o = runtape(sub, cand, false);
      return o.failed;
    };
    bool progress = true;
    while (progress && now() < end) {
      progress = false;
      // shorter tails
      for (size_t k = t.size() / 2; k >= 1; k /= 2) {
        while (t.size() > k) {
          std::vector<uint64_t> c(t.begin(), t.end() - k);
          if (tryit(c)) { t = c; progress = true; } else break;
        }
        if (k == 1) break;
      }
      // delete / zero blocks
      for (size_t k = std::min<size_t>(64, t.size()); k >= 1; k /= 2) {
        for (size_t i = 0; i + k <= t.size();) {
          std::vector<uint64_t> c = t; c.erase(c.begin() + i, c.begin() + i + k);
          if (tryit(c)) { t = c; progress = true; continue; }
          bool allz = true; for (size_t j = i; j < i + k; ++j) if (t[j]) allz = false;
          if (!allz) {
            c = t; for (size_t j = i; j < i + k; ++j) c[j] = 0;
            if (tryit(c)) { t = c; progress = true; }
          }
          i += k;
          if (now() > end) break;
        }
        if (k == 1) break;
      }
      // lower single choices
      for (size_t i = 0; i < t.size() && now() < end; ++i) {
        if (!t[i]) continue;
        uint64_t lo = 0, hi = t[i]; // find small failing value by bisection
        for (int it = 0; it < 20 && lo < hi; ++it) {
          uint64_t mid = lo + (hi - lo) / 2;
          std::vector<uint64_t> c = t; c[i] = mid;
          if (tryit(c)) hi = mid; else lo = mid + 1;
        }
        if (hi < t[i]) { std::vector<uint64_t> c = t; c[i] = hi; if (tryit(c)) { t = c; progress = true; } }
      }
    }
    return t;
  }

  int run() {
    sh.clear();
    for (int i = 0; i <= workers; ++i) sh.push_back(newshared());
    // sh[0] is for replays; worker w uses sh[w+1]
    double t0 = now();
    // chunks: interleave sub-checks so that a deadline cuts all of them evenly
    std::vector<std::vector<std::vector<std::pair<int,long>>>> per(subs().size());
    size_t maxch = 0;
    for (size_t i = 0; i < subs().size(); ++i) {
      if (!only.empty() && subs()[i].name.find(only) == std::string::npos) continue;
      long n = tier == "thorough" ? subs()[i].thorough : subs()[i].quick;
      if (release) n = std::min(n, std::max((long)(n * scale), (long)(60 * std::min(1.0, scale * 100)))); else n = (long)(n * scale); if (n < 1) n = 1;
      if (subs()[i].nfixed && n < subs()[i].nfixed) n = subs()[i].nfixed;
      long csz = std::max(1L, std::min(2000L, n / 32 + 1));
      for (long a = 0; a < n; a += csz) {
        std::vector<std::pair<int,long>> ch;
        for (long k = a; k < n && k < a + csz; ++k) ch.push_back({(int)i, k});
        per[i].push_back(ch);
      }
      maxch = std::max(maxch, per[i].size());
    }
    for (size_t k = 0; k < maxch; ++k)
      for (auto& v : per) {
        if (v.empty()) continue;
        // spread v's chunks evenly over maxch rounds
        size_t a = k * v.size() / maxch, b = (k + 1) * v.size() / maxch;
        for (size_t j = a; j < b; ++j) plan.push_back(v[j]);
      }
    std::vector<pid_t> pids(workers, 0); std::vector<Watch> watch(workers); std::vector<double> wstart(workers, 0);
    std::vector<size_t> wchunk(workers, 0);
    size_t next = 0; bool stop = false, cut = false; long crashed = 0;
    std::vector<Found> found;
    Stats st; std::map<std::string, Stats> persub;
    std::vector<std::string> statfiles;
    for (;;) {
      int running = 0;
      for (int w = 0; w < workers; ++w) {
        if (pids[w]) {
          int s; pid_t r = waitpid(pids[w], &s, WNOHANG);
          Shared* m = sh[w + 1];
          double began = m->started; if (r == 0 && began != wstart[w]) { wstart[w] = began; watch[w].start(); }
          bool hung = r == 0 && began > 0 && (now() - began > 400 || (now() - began > 5 && blocked(watch[w], pids[w], 60)));
          if (hung) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &s, 0); s = SIGPROF; r = pids[w]; }
          if (r == 0) { ++running; continue; }
          kill(-pids[w], SIGKILL);
          // the statistics are read when all is done, to keep this process small and cheap to fork
          std::string sf = tmp + "/st" + std::to_string(wchunk[w]);
          bool ok = WIFEXITED(s) && WEXITSTATUS(s) == 0;
          if (ok) statfiles.push_back(sf);
          else if (release && !(WIFEXITED(s) && WEXITSTATUS(s) == EXIT_FAIL)) ++crashed; // the business of another property
          else {
            Found f; f.sub = m->sub; f.idx = m->idx; f.tape.assign(m->tape, m->tape + m->ntape);
            f.first = (long)wchunk[w];
            f.msg = WIFEXITED(s) && WEXITSTATUS(s) == EXIT_FAIL ? std::string(m->msg) : crashname(s);
            st.evaluations++;
            found.push_back(f); stop = true;
          }
          pids[w] = 0;
        }
        if (!pids[w] && !stop && next < plan.size()) {
          if (now() - t0 > deadline) { cut = true; stop = true; continue; }
          size_t ch = next++;
          wchunk[w] = ch;
          sh[w + 1]->started = 0;
          pid_t p = fork();
          if (p == 0) { setpgid(0, 0); std::swap(sh[w], sh[w + 1]); workerentry(w, ch); }
          pids[w] = p; ++running;
        }
      }
      if (!running && (stop || next >= plan.size())) break;
      usleep(1000);
    }
    std::sort(statfiles.begin(), statfiles.end(), [](const std::string& a, const std::string& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; });
    // ---- failures
    int violations = 0; std::string replayfile, vmsg; std::vector<std::string> unrepro;
    std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return a.tape.size() < b.tape.size(); });
    for (auto& f : found) {
      int bad = 0; Outcome last;
      for (int k = 0; k < 3 && !bad; ++k) { Outcome o = runtape(f.sub, f.tape, true); if (o.failed) { ++bad; last = o; } }
      if (bad == 0) {
        // does it need the cases that ran before it in the same process?
        std::vector<std::pair<int,long>> seq;
        for (auto& p : plan[f.first]) { seq.push_back(p); if (p.second == f.idx && p.first == f.sub) break; }
        int sb = 0; for (int k = 0; k < 2; ++k) { Outcome o = runseq(seq); if (o.failed) { ++sb; last = o; } }
        if (sb) {
          // halve from the front while it still fails
          size_t k = seq.size() / 2; double end = now() + 60;
          while (k >= 1 && now() < end) {
            bool any = false;
            for (size_t i = 0; i + k < seq.size() && now() < end;) {
              auto c = seq; c.erase(c.begin() + i, c.begin() + i + k);
              if (runseq(c).failed) { seq = c; any = true; } else i += k;
            }
            if (!any || k == 1) { if (k == 1) break; }
            k /= 2;
          }
          replayfile = replaydir + "/" + prop + ".replay";
          std::ofstream o(replayfile);
          o << "property " << prop << "\nsub " << subs()[f.sub].name << "\nkind sequence\nseed " << seed << "\ntier " << tier << "\ncases";
          for (auto& p : seq) o << " " << p.second;
          o << "\nmessage " << jstr(last.msg) << "\ncase " << jstr(last.desc) << "\n";
          vmsg = last.msg; violations++;
          break;
        }
        unrepro.push_back(subs()[f.sub].name + " case " + std::to_string(f.idx) + ": " + f.msg);
        continue;
      }
      int ev = 0; std::string m;
      std::vector<uint64_t> t = shrink(f.sub, f.tape, tier == "thorough" ? 120 : 60, ev, m);
      Outcome o; for (int k = 0; k < 5; ++k) { o = runtape(f.sub, t, true); if (o.failed) break; }
      if (!o.failed) { t = f.tape; o = last; }
      replayfile = replaydir + "/" + prop + ".replay";
      std::ofstream out(replayfile);
      out << "property " << prop << "\nsub " << subs()[f.sub].name << "\nkind tape\nseed " << seed << "\ntier " << tier << "\nindex " << f.idx << "\ntape";
      for (auto v : o.tape.size() && o.tape.size() <= t.size() ? o.tape : t) out << " " << v;
      out << "\nshrink-runs " << ev << "\nmessage " << jstr(o.msg) << "\ncase " << jstr(o.desc) << "\n";
      vmsg = subs()[f.sub].name + ": " + o.msg; violations++;
      break;
    }
    for (auto& sf : statfiles) { parse_stats(sf, st, persub); unlink(sf.c_str()); }
    st.nontrivial.finish(); for (auto& p : persub) p.second.nontrivial.finish();
    double wall = now() - t0;
    std::ofstream o(stats);
    o << "{\"property\":" << jstr(prop) << ",\"evaluations\":" << st.evaluations << ",\"discarded\":" << st.discarded
      << ",\"distinct_nontrivial\":" << st.nontrivial.size() << ",\"cut_by_deadline\":" << (cut ? "true" : "false")
      << ",\"violations\":" << violations << ",\"replay\":" << jstr(replayfile) << ",\"message\":" << jstr(vmsg)
      << ",\"rule\":" << jstr(rule_text()) << ",\"wall\":" << wall << ",\"labels\":{";
    bool first = true;
    for (auto& p : st.labels) { o << (first ? "" : ",") << jstr(p.first) << ":" << p.second; first = false; }
    o << "},\"subs\":{"; first = true;
    for (auto& p : persub) {
      o << (first ? "" : ",") << jstr(p.first) << ":{\"evaluations\":" << p.second.evaluations << ",\"distinct_nontrivial\":" << p.second.nontrivial.size() << ",\"samples\":[";
      bool f2 = true; for (auto& s : p.second.samples) { o << (f2 ? "" : ",") << jstr(s); f2 = false; }
      o << "]}"; first = false;
    }
    o << "},\"known_seen\":["; first = true;
    for (auto& k : st.known_seen) { o << (first ? "" : ",") << jstr(k); first = false; }
    o << "],\"unreproduced\":["; first = true;
    for (auto& k : unrepro) { o << (first ? "" : ",") << jstr(k); first = false; }
    o << "]}\n";
    o.close();
    return violations ? 1 : 0;
  }
  void workerentry(int w, size_t ch) {
    // sh[w] was swapped with the worker's own block
    Shared* mine = sh[w]; sh.assign(workers + 1, mine);
    worker(w, ch, tmp + "/st" + std::to_string(ch));
  }

  int replayfile(const std::string& f) {
    sh.assign(1, newshared());
    std::ifstream i(f); std::string line, sub, kind; std::vector<uint64_t> vals;
    while (std::getline(i, line)) {
      std::istringstream is(line); std::string k; is >> k;
      if (k == "sub") sub = line.substr(4);
      else if (k == "kind") is >> kind;
      else if (k == "seed") is >> seed;
      else if (k == "tier") is >> tier;
      else if (k == "tape" || k == "cases") { uint64_t v; while (is >> v) vals.push_back(v); }
    }
    int si = -1; for (size_t k = 0; k < subs().size(); ++k) if (subs()[k].name == sub) si = (int)k;
    if (si < 0) { std::cerr << "no sub-check " << sub << "\n"; return 2; }
    Outcome o;
    if (kind == "sequence") { std::vector<std::pair<int,long>> seq; for (auto v : vals) seq.push_back({si, (long)v}); o = runseq(seq); }
    else o = runtape(si, vals, true);
    std::cout << "case: " << o.desc << "\n";
    if (o.failed) { std::cout << "FAILS: " << o.msg << "\n"; if (!o.log.empty()) std::cout << "--- output of the case\n" << o.log << "\n"; return 1; }
    std::cout << "passes\n"; return 0;
  }
};

inline int main_(const char* prop, int argc, char** argv) {
  Runner r; r.prop = prop;
  std::string rep; bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") r.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") r.tier = val();
    else if (a == "--deadline") r.deadline = atof(val().c_str());
    else if (a == "--replaydir") r.replaydir = val();
    else if (a == "--stats") r.stats = val();
    else if (a == "--workers") r.workers = atoi(val().c_str());
    else if (a == "--scale") r.scale = atof(val().c_str());
    else if (a == "--only") r.only = val();
    else if (a == "--known") { std::istringstream is(val()); std::string k; while (std::getline(is, k, ',')) if (!k.empty()) r.known.insert(k); }
    else if (a == "--replay") rep = val();
    else if (a == "--list") list = true;
    else if (a == "--release") r.release = true;
    else if (a == "--release-cxx") r.cxxsubs = val();
  }
  if (list) { for (auto& s : subs()) std::cout << s.name << " " << s.quick << " " << s.thorough << "\n"; return 0; }
  char t[] = "/tmp/pbt.XXXXXX";
  if (!mkdtemp(t)) { perror("mkdtemp"); return 2; }
  r.tmp = t;
  if (r.stats.empty()) r.stats = "/dev/stdout";
  setenv("TZ", "UTC", 1); tzset();
  if (init_hook()) init_hook()();
  int rc = rep.empty() ? r.run() : r.replayfile(rep);
  if (chdir("/")) {}
  Runner::cleandir(r.tmp);
  return rc;
}
} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PBT_SUB("name", quick cases, thorough cases) { body using c }
#define PBT_SUB(name, q, t) \
  static void PBT_CAT(pbt_body_, __LINE__)(pbt::Ctx& c); \
  static pbt::Reg PBT_CAT(pbt_reg_, __LINE__)(name, q, t, PBT_CAT(pbt_body_, __LINE__)); \
  static void PBT_CAT(pbt_body_, __LINE__)(pbt::Ctx& c)

#define PBT_MAIN(prop, rule) \
  int main(int argc, char** argv) { pbt::rule_text() = rule; return pbt::main_(prop, argc, argv); }
