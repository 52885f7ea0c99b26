// P26: child processes.
// Signals sent by the code under test go through a stand-in, which lets through
// only those for the child of the case.
#include "pbt.h"
#include <msat/utils/subprocess.h>
#include <system_error>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sysexits.h>
#include <limits.h>
#include <dirent.h>
#include <functional>
#include <set>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using pbt::Ctx; using pbt::Str;
using namespace msat::subprocess;
typedef std::string S;
typedef std::vector<S> VS;

struct Guard { bool on = false; pid_t child = 0; bool strange = false; pid_t to = 0; bool nofork = false; } G;
extern "C" {
int kill(pid_t p, int s) noexcept { if (G.on && (p <= 0 || p != G.child)) { G.strange = true; G.to = p; errno = ESRCH; return -1; } return syscall(SYS_kill, p, s); }
pid_t fork() noexcept { if (G.nofork) { errno = EAGAIN; return -1; } static pid_t (*f)() = (pid_t (*)())dlsym(RTLD_NEXT, "fork"); return f(); }
}

struct Id { dev_t d = 0; ino_t i = 0; bool ok = false; bool operator==(const Id& o) const { return ok == o.ok && d == o.d && i == o.i; } };
static Id id(int fd) { struct stat s; Id r; if (fd >= 0 && !fstat(fd, &s)) { r.d = s.st_dev; r.i = s.st_ino; r.ok = true; } return r; }
static std::map<int, Id> fds() { std::map<int, Id> r; DIR* d = opendir("/proc/self/fd"); if (!d) throw std::runtime_error("harness: no /proc"); while (dirent* e = readdir(d)) { int n = atoi(e->d_name); if (e->d_name[0] != '.' && n != dirfd(d)) r[n] = id(n); } closedir(d); return r; }
static S slurp(const S& f) { S r; char b[4096]; int fd = open(f.c_str(), O_RDONLY); if (fd < 0) return r; for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) r.append(b, n); close(fd); return r; }
static S drain(int fd) { S r; char b[4096]; for (;;) { ssize_t n = read(fd, b, sizeof b); if (n < 0 && errno == EINTR) continue; if (n <= 0) return r; r.append(b, n); } }
static bool put(int fd, const S& s) { size_t k = 0; while (k < s.size()) { ssize_t n = write(fd, s.data() + k, s.size() - k); if (n < 0 && errno == EINTR) continue; if (n <= 0) return false; k += n; } return true; }
static void gone(pid_t p) { siginfo_t i; while (waitid(P_PID, p, &i, WEXITED | WNOWAIT) == -1 && errno == EINTR) ; }

// A child that runs a function
struct Fn : public Child { std::function<int()> f; int main() noexcept override { try { return f(); } catch (...) { return 99; } } ~Fn() { if (m_pid && !m_terminated) { syscall(SYS_kill, m_pid, SIGKILL); int s; waitpid(m_pid, &s, 0); } } };
struct Prog : public Popen { using Popen::Popen; ~Prog() { if (m_pid && !m_terminated) { syscall(SYS_kill, m_pid, SIGKILL); int s; waitpid(m_pid, &s, 0); } } };
struct Limit { rlimit old; Limit(rlim_t n) { getrlimit(RLIMIT_NOFILE, &old); rlimit r = {n, old.rlim_max}; setrlimit(RLIMIT_NOFILE, &r); } ~Limit() { setrlimit(RLIMIT_NOFILE, &old); } };
template<class F> static S why(F f) { try { f(); return ""; } catch (std::exception& e) { return Str() << "throws " << e.what(); } }

// ---- what a child gets: descriptors, directory, session
PBT_SUB("start", 500, 15000) {
  c.dir(); char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) c.fail("harness"); S root = cwd; mkdir("sub", 0755); mkdir("sub/dir with space", 0755); int top = c.chance(1, 4) ? 1024 : 256; Limit lim(top); c.nontrivial();
  std::map<int, Id> before;
  { int a = open("a", O_RDWR | O_CREAT | O_APPEND, 0644), b = open("b", O_RDWR | O_CREAT | O_APPEND, 0644); int hi = fcntl(a, F_DUPFD, 100 + c.below(top - 156)); std::vector<int> own{a, b, hi}; put(a, "first"); lseek(a, 0, SEEK_SET);
    before = fds();
    { Fn p; Redirect act[3]; int to[3] = {-1, -1, -1}; S d;
      for (int k = 0; k < 3; ++k) {
        auto set = [&](Redirect r) { act[k] = r; if (k == 0) p.set_stdin(r); else if (k == 1) p.set_stdout(r); else p.set_stderr(r); };
        auto setfd = [&](int fd) { act[k] = Redirect::FD; to[k] = fd; if (k == 0) p.set_stdin(fd); else if (k == 1) p.set_stdout(fd); else p.set_stderr(fd); };
        if (c.chance(1, 6)) { c.flag() ? setfd(c.pick(own)) : set(c.pick({Redirect::PIPE, Redirect::DEVNULL})); to[k] = -1; c.label("set again"); }
        switch (c.below(k == 2 ? 6 : 5)) {
          case 0: set(Redirect::PIPE); d += " pipe"; break; case 1: set(Redirect::DEVNULL); d += " null"; break;
          case 2: setfd(c.pick(own)); d += Str() << " fd" << to[k]; break;
          case 3: if (c.flag()) { setfd(k); d += " same"; c.label("its own descriptor"); } else if (k == 1) { setfd(2); d += " stderr"; c.label("to stderr"); } else if (k == 2 && act[1] == Redirect::UNCHANGED) { setfd(1); d += " stdout"; c.label("to stdout"); } else { set(Redirect::UNCHANGED); d += " same"; } break;
          case 4: set(Redirect::UNCHANGED); d += " unchanged"; break;
          default: set(Redirect::STDOUT); d += " as stdout"; c.label("stderr as stdout"); break; } }
      std::set<int> pass; p.close_fds = c.flag(); if (c.chance(1, 2)) { for (int n = 1 + c.below(3); n > 0; --n) pass.insert(c.pick(own)); p.pass_fds.assign(pass.begin(), pass.end()); for (size_t k = p.pass_fds.size(); k > 1; --k) std::swap(p.pass_fds[k - 1], p.pass_fds[c.below(k)]); if (c.chance(1, 6)) p.pass_fds.push_back(p.pass_fds[0]); c.label("passed descriptors"); } bool closing = p.close_fds || !pass.empty();
      S cd = c.pick<S>({"", "sub", "sub/dir with space", root + "/sub", ".", "missing", "a"}); p.cwd = cd; p.start_new_session = c.flag(); int code = c.pick({0, 1, 2, 77, 255, (int)c.below(256)}); c.describe(Str() << "in, out, err:" << d << " cwd '" << cd << "' close " << p.close_fds << " pass " << pass.size() << " session " << p.start_new_session << " code " << code);
      S rep = root + "/report", out; if (c.chance(1, 4)) out = c.chars(c.below(3000), "abc \n");
      p.f = [&] { auto m = fds(); char w[PATH_MAX]; S r = S("cwd ") + (getcwd(w, sizeof w) ? w : "?") + "\n"; r += Str() << "leader " << (getsid(0) == getpid()) << "\n"; for (auto& x : m) r += Str() << "fd " << x.first << " " << (unsigned long)x.second.d << " " << (unsigned long)x.second.i << "\n"; int fd = open(rep.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); put(fd, r); close(fd); put(1, "O:" + out); put(2, "E:" + out); if (act[0] == Redirect::PIPE) { S in = drain(0); put(1, "<" + in + ">"); } return code; };
      PBT_CHECK(c, !p.started() && p.pid() == 0 && !p.terminated(), "state before the start");
      p.fork(); PBT_CHECK(c, p.started() && p.pid() > 0 && !p.terminated(), "state after the start");
      PBT_CHECK(c, (p.get_stdin() >= 0) == (act[0] == Redirect::PIPE), "stdin pipe"); if (act[1] == Redirect::PIPE) PBT_CHECK(c, p.get_stdout() >= 0, "stdout pipe"); if (act[2] == Redirect::PIPE) PBT_CHECK(c, p.get_stderr() >= 0, "stderr pipe");
      for (auto f : {std::function<void()>([&] { p.set_stdin(Redirect::PIPE); }), std::function<void()>([&] { p.set_stdout(a); }), std::function<void()>([&] { p.set_stderr(Redirect::DEVNULL); })}) PBT_CHECK(c, why(f) != "", "redirection after the start is accepted");
      Id pin = id(p.get_stdin()), pout = act[1] == Redirect::PIPE ? id(p.get_stdout()) : Id(), perr = act[2] == Redirect::PIPE ? id(p.get_stderr()) : Id();
      { size_t pipes = (act[0] == Redirect::PIPE) + (act[1] == Redirect::PIPE) + (act[2] == Redirect::PIPE); PBT_CHECK(c, fds().size() == before.size() + pipes, "the parent has " << fds().size() << " descriptors instead of " << before.size() + pipes); }
      bool nodir = cd == "missing" || cd == "a"; S in = c.chars(c.below(2000), "xyz"); signal(SIGPIPE, SIG_IGN); if (act[0] == Redirect::PIPE) { bool w = put(p.get_stdin(), in); PBT_CHECK(c, w || nodir, "cannot write to the child"); p.close_stdin(); PBT_CHECK(c, p.get_stdin() == -1, "stdin is still there"); }
      S o, e; if (act[1] == Redirect::PIPE) { o = drain(p.get_stdout()); if (c.flag()) { p.close_stdout(); PBT_CHECK(c, p.get_stdout() == -1, "stdout is still there"); } } if (act[2] == Redirect::PIPE) { e = drain(p.get_stderr()); if (c.flag()) { p.close_stderr(); PBT_CHECK(c, p.get_stderr() == -1, "stderr is still there"); } }
      int r = p.wait(); PBT_CHECK(c, p.terminated() && p.wait() == r && p.poll() && p.returncode() == r, "state after the end");
      if (nodir) { PBT_CHECK(c, r == EX_OSERR, "exit code " << r << " when the directory is missing"); PBT_CHECK(c, slurp(rep).empty(), "the child ran although its directory is missing"); if (act[2] == Redirect::PIPE) PBT_CHECK(c, e.find("setup failed") != S::npos && e.find(cd) != S::npos, "no message about the directory: " << e); }
      else {
        PBT_CHECK(c, r == code && WIFEXITED(p.raw_returncode()) && WEXITSTATUS(p.raw_returncode()) == code, "exit code " << r << " instead of " << code);
        std::map<int, Id> m; S w; int leader = -1; std::istringstream is(slurp(rep)); for (S l; std::getline(is, l);) { if (l.compare(0, 4, "cwd ") == 0) w = l.substr(4); else if (l.compare(0, 7, "leader ") == 0) leader = atoi(l.c_str() + 7); else { int n; unsigned long x, y; if (sscanf(l.c_str(), "fd %d %lu %lu", &n, &x, &y) == 3) { m[n].d = x; m[n].i = y; m[n].ok = true; } } }
        S full = cd.empty() || cd == "." ? root : cd[0] == '/' ? cd : root + "/" + cd; PBT_CHECK(c, w == full, "the child is in '" << w << "' instead of '" << full << "'"); PBT_CHECK(c, leader == (p.start_new_session ? 1 : 0), "session leader " << leader);
        int nfd = open("/dev/null", O_RDWR); Id null = id(nfd); close(nfd); Id want[3]; for (int k = 0; k < 3; ++k) switch (act[k]) { case Redirect::PIPE: want[k] = k == 0 ? pin : k == 1 ? pout : perr; break; case Redirect::DEVNULL: want[k] = null; break; case Redirect::FD: want[k] = before[to[k]]; break; case Redirect::STDOUT: want[k] = want[1]; break; default: want[k] = before.count(k) ? before[k] : Id(); }
        for (int k = 0; k < 3; ++k) PBT_CHECK(c, (m.count(k) ? m[k] : Id()) == want[k], "descriptor " << k << " of the child is not what was asked for");
        for (int x : pass) PBT_CHECK(c, m.count(x) && m[x] == before[x], "descriptor " << x << " was not passed");
        if (closing) { for (auto& x : m) PBT_CHECK(c, x.first < 3 || pass.count(x.first), "descriptor " << x.first << " of the parent is open in the child"); }
        else { bool used[3] = {}; for (int k = 0; k < 3; ++k) for (int q = 0; q < 3; ++q) if (to[k] == own[q]) used[q] = true; for (int q = 0; q < 3; ++q) if (!used[q]) PBT_CHECK(c, m.count(own[q]) && m[own[q]] == before[own[q]], "descriptor " << own[q] << " was closed in the child"); }
        S in2 = act[0] == Redirect::PIPE ? "<" + in + ">" : S(); if (act[2] == Redirect::STDOUT && act[1] == Redirect::PIPE) PBT_CHECK(c, o == "O:" + out + "E:" + out + in2, "output"); else if (act[1] == Redirect::PIPE) PBT_CHECK(c, o == "O:" + out + in2, "output of the child is " << o.size() << " bytes"); if (act[2] == Redirect::PIPE) PBT_CHECK(c, e == "E:" + out, "errors of the child");
      }
    }
    PBT_CHECK(c, c.repeated || fds() == before, "descriptors of the parent after the child: " << fds().size() << " instead of " << before.size());
    close(a); close(b); close(hi); }
}

// ---- waiting and signals: histories against a model
static volatile int chld, alrm;
static void onchld(int) { ++chld; }
static void onalrm(int) { ++alrm; }
PBT_SUB("history", 350, 10000) {
  c.dir(); c.nontrivial(); Limit lim(64); S d; int kind = c.below(5), code = c.below(256), trap = c.chance(1, 3) ? (int)c.below(256) : -1; static const char* KIND[] = {"reads until the end of its input", "ends at once", "pauses", "kills itself", "ends soon"}; d = Str() << "a child that " << KIND[kind] << " code " << code << (trap >= 0 ? " and ends on SIGTERM" : "") << ":";
  bool storm = c.chance(1, 3); struct sigaction sa, was; memset(&sa, 0, sizeof sa); sa.sa_handler = onchld; sigaction(SIGCHLD, &sa, &was); sa.sa_handler = onalrm; sigaction(SIGALRM, &sa, nullptr);
  if (storm) { itimerval t = {{0, 3000}, {0, 3000}}; setitimer(ITIMER_REAL, &t, nullptr); c.label("interrupted by signals"); d += " (timer)"; }
  int selfsig = c.pick({SIGKILL, SIGTERM, SIGUSR1, SIGSEGV, SIGABRT});
  { Fn p; p.set_stdin(Redirect::PIPE); p.set_stdout(Redirect::PIPE); p.set_stderr(Redirect::DEVNULL); static volatile int gotterm; gotterm = 0;
    p.f = [&]() -> int { itimerval t = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &t, nullptr); rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); struct sigaction s; memset(&s, 0, sizeof s); s.sa_handler = SIG_DFL; for (int x : {SIGTERM, SIGUSR1, SIGSEGV, SIGABRT}) sigaction(x, &s, nullptr); if (trap >= 0) { static int tr; tr = trap; s.sa_handler = [](int) { _exit(tr); }; sigaction(SIGTERM, &s, nullptr); } put(1, "R");
      switch (kind) { case 0: drain(0); return code; case 1: return code; case 2: for (;;) pause(); case 3: syscall(SYS_kill, getpid(), selfsig); for (;;) pause(); default: usleep(1000 * (1 + code % 25)); return code; } };
    for (auto f : {std::function<void()>([&] { p.wait(); }), std::function<void()>([&] { p.wait(10); }), std::function<void()>([&] { p.poll(); })}) PBT_CHECK(c, why(f) != "", "waiting for a child that was not started is accepted");
    if (c.chance(1, 3)) { G.on = true; G.child = -1; int k = c.below(3); S w = why([&] { if (k == 0) p.send_signal(SIGUSR1); else if (k == 1) p.terminate(); else p.kill(); }); G.on = false; PBT_CHECK(c, !G.strange, "a signal for a child that was not started goes to process " << G.to); PBT_CHECK(c, w != "", "signalling a child that was not started is accepted"); c.label("signal before the start"); }
    p.fork(); G.child = p.pid(); char r; while (read(p.get_stdout(), &r, 1) == -1 && errno == EINTR) ; // the child has its handlers
    // model: 0 running, 1 ends by itself soon, 2 has ended with 'raw'
    bool ends = kind == 1 || kind == 3 || kind == 4; int raw = kind == 3 ? (selfsig == SIGTERM && trap >= 0 ? trap << 8 : selfsig) : code << 8; bool reaped = false, known = false; G.on = true;
    for (int n = 1 + c.below(7); n > 0; --n) {
      switch (c.below(8)) {
        case 0: { d += " poll"; c.describe(d); if (known) gone(p.pid()); bool t = false; S w = why([&] { t = p.poll(); }); PBT_CHECK(c, w == "", "poll " << w); if (known || reaped) PBT_CHECK(c, t, "poll says that a child that has ended is running"); if (!ends) PBT_CHECK(c, !t, "poll says that a running child has ended"); reaped |= t; break; }
        case 1: { int ms = c.pick({0, 1, 5, 12}); if (ends && c.flag()) ms = 20000; d += Str() << " wait(" << ms << ")"; c.describe(d); bool t = false; if (known && !reaped) gone(p.pid()); double t0 = pbt::now(); S w = why([&] { t = p.wait(ms); }); double dt = pbt::now() - t0; PBT_CHECK(c, w == "", "wait(" << ms << ") " << w); if (ms == 20000 || known || reaped) PBT_CHECK(c, t, "wait(" << ms << ") says that a child that has ended is running"); if (!ends) { PBT_CHECK(c, !t, "wait(" << ms << ") says that a running child has ended"); PBT_CHECK(c, dt >= ms / 1000.0 - 0.0005, "wait(" << ms << ") returns after " << dt << " s"); PBT_CHECK(c, dt < 10, "wait(" << ms << ") returns after " << dt << " s"); } reaped |= t; break; }
        case 2: if (ends) { d += " wait"; c.describe(d); int x = -1; S w = why([&] { x = p.wait(); }); PBT_CHECK(c, w == "", "wait " << w); reaped = true; if (WIFEXITED(raw)) PBT_CHECK(c, x == WEXITSTATUS(raw), "wait returns " << x << " instead of " << WEXITSTATUS(raw)); } break;
        case 3: if (!reaped) { d += " terminate"; c.describe(d); if (ends) { break; } S w = why([&] { p.terminate(); }); PBT_CHECK(c, w == "", "terminate " << w); ends = true; raw = trap >= 0 ? trap << 8 : SIGTERM; } break;
        case 4: if (!reaped && !ends) { d += " kill"; c.describe(d); S w = why([&] { p.kill(); }); PBT_CHECK(c, w == "", "kill " << w); ends = true; raw = SIGKILL; } break;
        case 5: if (kind == 0) { d += " close stdin"; c.describe(d); p.close_stdin(); if (!ends) { ends = true; raw = code << 8; } } break;
        case 6: if (!reaped && !ends) { int s = c.pick({SIGUSR1, 0, SIGSTOP, SIGCONT}); d += Str() << " signal " << s; c.describe(d); S w = why([&] { p.send_signal(s); if (s == SIGSTOP) p.send_signal(SIGCONT); }); PBT_CHECK(c, w == "", "send_signal " << w); if (s == SIGUSR1) { ends = true; raw = SIGUSR1; } } break;
        default: if (ends && !reaped) { gone(p.pid()); known = true; d += " (ended)"; } break;
      }
      if (reaped) { PBT_CHECK(c, p.terminated() && p.raw_returncode() == raw, "the status is " << p.raw_returncode() << " instead of " << raw); if (WIFEXITED(raw)) PBT_CHECK(c, p.returncode() == WEXITSTATUS(raw), "the exit code is " << p.returncode()); } else PBT_CHECK(c, !p.terminated(), "terminated before it was waited for");
      struct sigaction now; sigaction(SIGCHLD, nullptr, &now); PBT_CHECK(c, now.sa_handler == onchld, "the handler of SIGCHLD was replaced");
      PBT_CHECK(c, !G.strange, "a signal goes to process " << G.to);
    }
    c.describe(d); if (reaped) { S w = why([&] { p.terminate(); }); PBT_CHECK(c, !G.strange || true, ""); PBT_CHECK(c, w != "", "signalling a child that has been waited for is accepted"); }
    G.on = false; itimerval t = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &t, nullptr);
  }
}

// Waits that are interrupted all the time last as long as asked for
static volatile pid_t victim; static volatile int ticks;
PBT_SUB("timeouts", 6, 100) {
  c.nontrivial(); int ms = c.range(150, 400); c.describe(Str() << "wait(" << ms << ") with a signal each 2 ms"); Fn p; p.f = [] { itimerval t = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &t, nullptr); for (;;) pause(); return 0; }; p.fork();
  victim = p.pid(); ticks = 0; struct sigaction sa, was; memset(&sa, 0, sizeof sa); sa.sa_handler = [](int) { int e = errno; if (++ticks == 2500) syscall(SYS_kill, (pid_t)victim, SIGKILL); errno = e; }; sigaction(SIGALRM, &sa, &was);
  itimerval t = {{0, 2000}, {0, 2000}}; setitimer(ITIMER_REAL, &t, nullptr); double t0 = pbt::now(); bool r = p.wait(ms); double dt = pbt::now() - t0; t.it_value.tv_usec = t.it_interval.tv_usec = 0; setitimer(ITIMER_REAL, &t, nullptr); sigaction(SIGALRM, &was, nullptr);
  PBT_CHECK(c, !r, "wait(" << ms << ") has not returned after " << ticks << " signals"); PBT_CHECK(c, dt >= ms / 1000.0 - 0.0005, "wait(" << ms << ") returns after " << dt << " s"); p.kill(); PBT_CHECK(c, p.wait(20000), "a killed child does not end");
}
// ---- programs: arguments, environment, search path
PBT_SUB("programs", 400, 12000) {
  c.dir(); c.nontrivial(); Limit lim(64); char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) c.fail("harness");
  Prog p; S text = c.chance(1, 2) ? "abcd =xyz'\"\\$*\n\xc3\xa8" : "ab="; auto word = [&](size_t n) { return c.chars(c.below(n), text); };
  bool search = c.chance(1, 3), missing = c.chance(1, 6); S prog = "/bin/cat";
  if (search) { mkdir("bin", 0755); mkdir("bin2", 0755); if (!c.flag()) { mkdir("bin/prog", 0755); } if (symlink("/bin/cat", "bin2/prog")) c.fail("harness"); setenv("PATH", (S(cwd) + "/bin:" + cwd + "/bin2:/usr/bin:/bin").c_str(), 1); prog = "prog"; c.label("search path"); }
  if (missing) { prog = c.pick<S>({"missing-program", "./missing", "/nonexistent/x", S(cwd)}); c.label("missing program"); }
  bool own = c.flag(); VS args{own ? word(10) : prog, "--", "/proc/self/cmdline"}; bool wantenv = c.flag(); if (wantenv) args[2] = "/proc/self/environ"; for (int n = c.below(5); n > 0; --n) args.push_back(c.chance(1, 6) ? S() : c.chance(1, 20) ? S(5000, 'q') : "no such file " + word(12)); p.args = args; if (own) { p.executable = prog; c.label("another name"); }
  VS env; bool inherit = c.chance(1, 3); if (inherit) { if (c.flag()) { p.copy_env_from_parent(); for (char** s = environ; *s; ++s) env.push_back(*s); } }
  int sets = inherit && env.empty() ? 0 : 1 + c.below(8); if (!inherit && c.chance(1, 6)) { p.env = env = {"ab=1", "a=2", "abc=3"}; }
  for (int n = 0; n < sets; ++n) { S k = c.chance(1, 3) && !env.empty() ? c.pick(env) : "V" + c.chars(c.below(3), "abV"); k = k.substr(0, k.find('=')); if (c.chance(1, 8) && k.size() > 1) k.pop_back(); if (k.empty()) k = "K"; S v = word(20); p.setenv(k, v); bool f = false; for (auto& e : env) if (e.compare(0, k.size() + 1, k + "=") == 0) { e = k + "=" + v; f = true; break; } if (!f) env.push_back(k + "=" + v); }
  PBT_CHECK(c, p.env == env, "the environment has " << p.env.size() << " variables instead of " << env.size());
  if (env.empty()) for (char** s = environ; *s; ++s) env.push_back(*s);
  p.set_stdin(Redirect::DEVNULL); p.set_stdout(Redirect::PIPE); p.set_stderr(Redirect::PIPE); c.describe(Str() << prog << " with " << args.size() << " arguments and " << sets << " variables set" << (own ? ", another name" : "") << (wantenv ? ", environment" : ""));
  p.fork(); S o = drain(p.get_stdout()), e = drain(p.get_stderr()); int r = p.wait();
  if (missing) { PBT_CHECK(c, r == EX_OSERR && o.empty() && e.find("setup failed") != S::npos, "exit code " << r << " and message '" << e << "' for a program that is not there"); return; }
  S want; for (auto& x : wantenv ? env : args) want += x + S(1, 0); PBT_CHECK(c, o == want, (wantenv ? "the environment" : "the arguments") << " of the program differ (" << o.size() << " bytes instead of " << want.size() << "): " << e.substr(0, 200));
  PBT_CHECK(c, r == (args.size() > 3 ? 1 : 0), "exit code " << r);
}

// ---- children that cannot be started
PBT_SUB("no resources", 120, 3000) {
  c.dir(); c.nontrivial(); auto before = fds(); std::map<int, Id> during; bool nofork = c.chance(1, 3); int use[3], pipes = 0; S d;
  { Limit lim(before.rbegin()->first + 1 + 0); Fn p; p.f = [] { return 0; }; int holes = 0;
    for (int k = 0; k < 3; ++k) { use[k] = c.chance(3, 4); if (use[k]) { ++pipes; if (k == 0) p.set_stdin(Redirect::PIPE); else if (k == 1) p.set_stdout(Redirect::PIPE); else p.set_stderr(Redirect::PIPE); } }
    holes = c.below(7); { rlimit r; getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = before.rbegin()->first + 1 + holes; // descriptors below that are open, but for gaps
      int top = before.rbegin()->first + 1, gaps = 0; for (int i = 0; i < top; ++i) gaps += !before.count(i); setrlimit(RLIMIT_NOFILE, &r); holes += gaps; }
    bool can = !nofork && holes >= 2 * pipes; G.nofork = nofork; d = Str() << pipes << " pipes with " << holes << " free descriptors" << (nofork ? " and no processes" : ""); c.describe(d); S w = why([&] { p.fork(); }); G.nofork = false;
    if (can && holes >= 2 * pipes + 1) { PBT_CHECK(c, w == "" && p.started(), "cannot start: " << w); p.wait(); c.label("started"); } else if (!can) { PBT_CHECK(c, w != "" && !p.started(), "the failure is not reported"); c.label("refused"); } else if (w == "") p.wait();
  }
  PBT_CHECK(c, c.repeated || fds() == before, "descriptors are left open: " << fds().size() << " instead of " << before.size());
}

// ---- status in words
PBT_SUB("status", 300, 3000) {
  c.nontrivial(); int k = c.below(3), n = c.below(256), s = 1 + c.below(64); bool core = c.flag(); int raw = k == 0 ? 0 : k == 1 ? n << 8 : s | (core ? 128 : 0); c.describe(Str() << raw);
  S want = k < 2 && raw == 0 ? S("terminated successfully") : k == 1 ? S(Str() << "exited with code " << n) : S(Str() << "was interrupted, killed by signal " << s << (core ? " (core dumped)" : "")); S got = Child::format_raw_returncode(raw); PBT_CHECK(c, got == want, "'" << got << "' instead of '" << want << "'");
}
PBT_MAIN("P26", "a child process with generated redirections, descriptors, directory, arguments or environment, or a history of waits and signals on it, compared with what was asked for")
