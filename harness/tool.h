// Runs a command line tool of /repo in the current (scratch) directory
#pragma once
#include "pbt.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>
struct ToolRun { int status; std::string out, err; bool crashed; };
inline std::string slurp(const std::string& p) { std::ifstream i(p, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
// status: the exit status, or 1000 + signal
inline ToolRun runtool(const std::string& name, const std::vector<std::string>& args, int timeout = 40, long filesize = 64l << 20) {
  std::string exe = std::string(getenv("VERIF_BUILD")) + "/tool-" + name;
  pid_t p = fork();
  if (p < 0) throw std::runtime_error("harness: cannot fork");
  if (p == 0) {
    int o = open("tool.out", O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open("tool.err", O_CREAT | O_TRUNC | O_WRONLY, 0600), i = open("/dev/null", O_RDONLY);
    dup2(i, 0); dup2(o, 1); dup2(e, 2);
    alarm(timeout);
    if (filesize < 4096) signal(SIGXFSZ, SIG_IGN); struct rlimit r = {(rlim_t)filesize, (rlim_t)filesize}; setrlimit(RLIMIT_FSIZE, &r);
    std::vector<char*> a{(char*)exe.c_str()}; for (auto& x : args) a.push_back((char*)x.c_str()); a.push_back(nullptr);
    execv(exe.c_str(), a.data()); _exit(127);
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  ToolRun r; r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  if (r.status == 127) throw std::runtime_error("harness: " + exe + " cannot be run");
  r.out = slurp("tool.out"); r.err = slurp("tool.err");
  r.crashed = r.status >= 1000 || r.status == 99;
  return r;
}
inline std::string args(const std::vector<std::string>& a) { std::string s; for (auto& x : a) s += " " + x; return s; }
inline std::string why(const ToolRun& r) {
  size_t k = r.err.find("ERROR: AddressSanitizer"); if (k == std::string::npos) k = r.err.find("runtime error"); if (k == std::string::npos) k = r.err.find("terminate called");
  std::string t = k == std::string::npos ? (r.err.size() > 400 ? r.err.substr(r.err.size() - 400) : r.err) : r.err.substr(k, 700);
  return pbt::Str() << "ended with " << (r.status >= 1000 ? "signal " : "status ") << r.status % 1000 << ": " << t;
}
