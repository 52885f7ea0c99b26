// P22: file helpers.
// Cases run as an unprivileged user of their own, in a scratch directory, and the
// calls that remove or rename refuse what is outside of it.
#include "pbt.h"
#include <msat/utils/sys.h>
#include <system_error>
#include <dlfcn.h>
#include <utime.h>
#include <grp.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <signal.h>
#include <cmath>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using pbt::Ctx; using pbt::Str;
namespace sys = msat::sys;
typedef std::string S;
typedef std::vector<S> VS;

// ---- calls of the code under test
struct Hooks {
  S root; bool guard = false; int escapes = 0; S escape;   // what may be removed
  bool on = false;                                         // faults below are active
  int step = 0, crash = -1;                                // calls seen; end the process before this one
  int shortw = 0, shortr = 0;                              // most bytes a write or read takes
  long space = -1;                                         // bytes left on the disk
  int badclose = 0, badrename = 0, badchmod = 0;           // errors of these
  bool untyped = false;                                    // the file system does not tell types of entries
  std::function<void()> between;                           // called before each call
  std::map<int, int> closed;
} H;
template<class F> static F real(const char* n) { static std::map<S, void*> m; void*& p = m[n]; if (!p) p = dlsym(RTLD_NEXT, n); return (F)p; }
static void step() { if (!H.on) return; H.on = false; if (H.crash >= 0 && H.step == H.crash) _exit(77); ++H.step; if (H.between) H.between(); H.on = true; }
static bool inside(int dirfd, const char* p) {
  if (!H.guard) return true;
  S d; char b[PATH_MAX + 1], l[64];
  if (p[0] != '/' && dirfd != AT_FDCWD) { snprintf(l, 64, "/proc/self/fd/%d", dirfd); ssize_t n = readlink(l, b, PATH_MAX); if (n < 0) return true; d = S(b, n) + "/"; }
  d += p; while (d.size() > 1 && d.back() == '/') d.pop_back();
  size_t k = d.rfind('/'); S parent = k == S::npos ? "." : k ? d.substr(0, k) : "/", name = k == S::npos ? d : d.substr(k + 1);
  if (!realpath(parent.c_str(), b)) return true; // then the call fails too
  S r = b; if ((r == H.root || r.compare(0, H.root.size() + 1, H.root + "/") == 0) && name != ".." ) return true;
  ++H.escapes; H.escape = d; return false;
}
extern "C" {
int unlinkat(int fd, const char* p, int f) noexcept { if (!inside(fd, p)) { errno = EPERM; return -1; } return syscall(SYS_unlinkat, fd, p, f); }
int unlink(const char* p) noexcept { step(); if (!inside(AT_FDCWD, p)) { errno = EPERM; return -1; } return syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
int rmdir(const char* p) noexcept { if (!inside(AT_FDCWD, p)) { errno = EPERM; return -1; } return syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char* p) noexcept { step(); if (!inside(AT_FDCWD, p)) { errno = EPERM; return -1; } int r = syscall(SYS_unlinkat, AT_FDCWD, p, 0); if (r && (errno == EISDIR || errno == EPERM)) r = syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR); return r; }
int rename(const char* a, const char* b) noexcept { step(); if (!inside(AT_FDCWD, a) || !inside(AT_FDCWD, b)) { errno = EPERM; return -1; } if (H.on && H.badrename) { errno = H.badrename; return -1; } return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int fchmod(int fd, mode_t m) noexcept { step(); if (H.on && H.badchmod) { errno = H.badchmod; return -1; } return syscall(SYS_fchmod, fd, m); }
ssize_t write(int fd, const void* p, size_t n) {
  step();
  if (H.on) { if (H.shortw && n > (size_t)H.shortw) n = H.shortw; if (H.space >= 0) { if (n && !H.space) { errno = ENOSPC; return -1; } if (n > (size_t)H.space) n = H.space; H.space -= n; } }
  return real<ssize_t (*)(int, const void*, size_t)>("write")(fd, p, n); }
ssize_t read(int fd, void* p, size_t n) { if (H.on && H.shortr && n > (size_t)H.shortr) n = H.shortr; return real<ssize_t (*)(int, void*, size_t)>("read")(fd, p, n); }
int close(int fd) { step(); if (H.on) ++H.closed[fd]; int r = real<int (*)(int)>("close")(fd); if (H.on && H.badclose) { errno = H.badclose; return -1; } return r; }
struct dirent* readdir(DIR* d) { struct dirent* e = real<struct dirent* (*)(DIR*)>("readdir")(d); if (e && H.untyped) e->d_type = DT_UNKNOWN; return e; }
}

// ---- small tools that do not use the code under test
static S shown(const S& s) { S r = "'"; char b[8]; for (unsigned char ch : s.substr(0, 60)) { if (ch < 32 || ch > 126) { snprintf(b, 8, "<%02x>", ch); r += b; } else r += ch; } return r + (s.size() > 60 ? "'..." : "'"); }
static S get(const S& f) { S r; int fd = open(f.c_str(), O_RDONLY | O_NONBLOCK); if (fd < 0) return "?"; char b[8192]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n); close(fd); return n < 0 ? "?" : r; }
static int putf(const S& f, const S& d, mode_t m = 0666) { int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, m); if (fd < 0) return errno; size_t k = 0; while (k < d.size()) k += write(fd, d.data() + k, d.size() - k); close(fd); return 0; }
static VS list(const S& d) { VS r; DIR* h = opendir(d.c_str()); if (!h) return r; while (dirent* e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) r.push_back(e->d_name); closedir(h); std::sort(r.begin(), r.end()); return r; }
static void wipe(const S& d) { chmod(d.c_str(), 0700); for (auto& n : list(d)) { S p = d + "/" + n; struct stat s; if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) { wipe(p); syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), AT_REMOVEDIR); } else syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), 0); } }
static int fds() { int n = 0; for (int i = 0; i < 200; ++i) if (fcntl(i, F_GETFD) != -1) ++n; return n; }
static int cloned_fds = 0;

// one case: another user, an empty scratch directory, everything undone at the end
struct Case {
  Ctx& c; S root; bool user = false; mode_t mask; int nfd;
  Case(Ctx& c) : c(c) {
    root = c.dir(); mask = umask(022); umask(mask); nfd = fds(); H = Hooks();
    if (geteuid() == 0) {
      uid_t u = 200000 + getpid() % 500000; S up = root.substr(0, root.rfind('/')); chmod(up.c_str(), 0711);
      if (chown(root.c_str(), u, u) == 0) { gid_t g = u; static bool once = false; if (!once) { once = true; if (setgroups(1, &g)) {} } if (setegid(u) == 0 && seteuid(u) == 0) user = true; else if (setegid(0)) {} }
    }
    c.label(user ? "as another user" : "as this user");
    char b[PATH_MAX + 1]; H.root = realpath(root.c_str(), b) ? b : root.c_str(); H.guard = true;
  }
  void admin(bool on) { if (user) { if (seteuid(on ? 0 : 200000 + getpid() % 500000)) abort(); } }
  ~Case() {
    bool esc = H.escapes; S what = H.escape; H = Hooks(); if (chdir(root.c_str())) {}
    if (user) { if (seteuid(0) || setegid(0)) abort(); if (chown(root.c_str(), 0, 0)) {} }
    wipe(root); umask(mask); (void)esc;
  }
  void end() { // what holds after all cases
    if (H.escapes) c.fail("it removes or renames " + H.escape + ", outside of the scratch directory");
    int n = fds(); if (n != nfd && !c.repeated) c.fail(Str() << n << " file descriptors are open instead of " << nfd);
  }
};

// ---- trees
struct Node { char kind; S data; mode_t mode; }; // kind: d f l p s h(ard link)
typedef std::vector<std::pair<S, Node>> Tree;
static S content(Ctx& c) { size_t n = c.pick<size_t>({0, 1, 5, 100, 4095, 4096, 4097, 8192, 70000}); if (c.chance(1, 3)) n = c.below(300); auto b = c.bytes(n); return S(b.begin(), b.end()); }
static const char* NAMES[] = {"a", "b", "c", "dd", ".hid", "e e", "x\xe9", "..."};
static Tree gtree(Ctx& c, int n, bool perms) {
  Tree t; VS dirs = {""}, all;
  for (int i = 0; i < n; ++i) {
    S d = c.pick(dirs); if (std::count(d.begin(), d.end(), '/') > 5) d = "";
    S p = d + NAMES[c.below(8)]; if (c.chance(1, 10)) p += S(c.pick({20, 200}), 'n'); if (std::find(all.begin(), all.end(), p) != all.end()) continue;
    Node x; int k = c.below(12); x.mode = 0644;
    if (k < 4) { x.kind = 'd'; x.mode = perms && c.chance(1, 8) ? c.pick({0, 0500, 0300, 0600, 0100}) : c.pick({0755, 0700, 0777}); dirs.push_back(p + "/"); }
    else if (k < 7) { x.kind = 'f'; x.data = content(c); x.mode = perms && c.chance(1, 6) ? c.pick({0, 0200, 0444, 0222}) : c.pick({0644, 0600, 0755, 0666}); }
    else if (k < 10) { // links: within, up, nowhere, to themselves
      x.kind = 'l'; S up; for (int j = std::count(p.begin(), p.end(), '/'); j > 0; --j) up += "../";
      int w = c.below(6); x.data = w == 0 || all.empty() ? S("nowhere") : w == 1 ? p.substr(p.rfind('/') + 1) : w == 2 ? up + "out" : w == 3 ? up + "../outside" : w == 4 ? S(p.find('/') == S::npos ? "." : "..") : up + c.pick(all); }
    else if (k == 10) x.kind = c.pick({'p', 's'});
    else { VS f; for (auto& y : t) if (y.second.kind == 'f') f.push_back(y.first); if (f.empty()) continue; x.kind = 'h'; x.data = c.pick(f); }
    all.push_back(p); t.push_back({p, x});
  }
  return t;
}
static void build(const S& root, const Tree& t) {
  mkdir(root.c_str(), 0755);
  for (auto& i : t) { S p = root + "/" + i.first; const Node& x = i.second;
    switch (x.kind) { case 'd': mkdir(p.c_str(), 0755); break; case 'f': putf(p, x.data); break; case 'l': if (symlink(x.data.c_str(), p.c_str())) {} break;
      case 'p': mkfifo(p.c_str(), 0644); break; case 's': if (mknod(p.c_str(), S_IFSOCK | 0644, 0)) {} break; case 'h': if (link((root + "/" + x.data).c_str(), p.c_str())) {} break; } }
  for (auto i = t.rbegin(); i != t.rend(); ++i) if (i->second.kind == 'd' || i->second.kind == 'f') chmod((root + "/" + i->first).c_str(), i->second.mode);
}
static void snap(const S& p, const S& rel, std::map<S, S>& m) {
  struct stat s; if (lstat(p.c_str(), &s)) { m[rel] = "gone"; return; }
  Str o; o << std::oct << s.st_mode << std::dec;
  if (S_ISREG(s.st_mode)) o << " x" << s.st_nlink << " " << get(p);
  if (S_ISLNK(s.st_mode)) { char b[1000]; ssize_t n = readlink(p.c_str(), b, 1000); o << " " << S(b, n > 0 ? n : 0); }
  m[rel] = o; if (S_ISDIR(s.st_mode)) for (auto& n : list(p)) snap(p + "/" + n, rel + "/" + n, m);
}
static std::map<S, S> snapshot(Case& k, const S& p) { k.admin(true); bool u = H.untyped; H.untyped = false; std::map<S, S> m; snap(p, "", m); H.untyped = u; k.admin(false); return m; }
static S differ(const std::map<S, S>& a, const std::map<S, S>& b) { for (auto& i : a) { auto j = b.find(i.first); if (j == b.end()) return "only here " + shown(i.first); if (j->second != i.second) return shown(i.first) + " is " + shown(i.second) + " instead of " + shown(j->second); } for (auto& i : b) if (!a.count(i.first)) return "missing " + shown(i.first); return ""; }

struct Res { int err = 0; S val; };
static Res lib(Ctx& c, const std::function<S()>& f) {
  Res r;
  try { r.val = f(); }
  catch (std::system_error& e) { r.err = e.code().value(); if (!r.err) c.fail("the error carries no reason"); S w = e.what(); if (w.find(strerror(r.err)) == S::npos) c.fail("the message '" + w + "' does not tell the reason"); }
  return r;
}
static Res ref(bool ok, const S& v = "") { Res r; if (!ok) r.err = errno; r.val = v; return r; }
static S flagged(bool b) { return b ? "true" : "false"; }
// directories are entered to be read: both permissions are needed
static bool enter(const S& d) { int fd = open((d + "/.").c_str(), O_RDONLY | O_DIRECTORY); if (fd < 0) return false; close(fd); return true; }
static bool rrm(const S& d) { // recursive removal
  if (!enter(d)) return false;
  DIR* h = opendir(d.c_str()); if (!h) return false; VS n; while (dirent* e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(e->d_name); closedir(h);
  for (auto& x : n) { S p = d + "/" + x; struct stat s; if (lstat(p.c_str(), &s)) return false; if (S_ISDIR(s.st_mode) ? !rrm(p) : unlink(p.c_str())) return false; }
  return rmdir(d.c_str()) == 0;
}
// the path to the tree goes through a link that is in the tree
static bool throughself(const S& p) {
  char b[PATH_MAX + 1]; if (!realpath(p.c_str(), b)) return false; S top = S(b) + "/";
  for (size_t k = p.find('/', 1); k != S::npos; k = p.find('/', k + 1)) { S d = p.substr(0, k); struct stat s; if (lstat(d.c_str(), &s) || !S_ISLNK(s.st_mode)) continue; size_t z = d.rfind('/'); if (z != S::npos && realpath(d.substr(0, z).c_str(), b) && (S(b) + "/").compare(0, top.size(), top) == 0) return true; }
  return false;
}
static S rpath(Ctx& c, const Tree& t) { // a path, there or not
  int k = c.below(8); if (t.empty()) k = 0; S p = k == 0 ? S("none") : t[c.below(t.size())].first;
  if (k == 1) p += c.pick<S>({"/none", "/a", "/b/c", "/a/b"});
  if (k == 2) p = c.pick<S>({"", "./", "a/../a/"}) + p;
  return p;
}
static bool opens(const S& p, bool write) { struct stat s; (void)write; return stat(p.c_str(), &s) != 0 || !S_ISFIFO(s.st_mode); } // a pipe would wait

PBT_SUB("operations", 1200, 80000) {
  Case k(c); bool perms = c.chance(1, 2); Tree t = gtree(c, 2 + c.below(14), perms); mode_t um = c.pick({022, 0, 077, 027}); umask(022);
  S DA = "A", DB = "B"; for (int i = 0; ; ++i) { mkdir(DA.c_str(), 0755); mkdir(DB.c_str(), 0755); if (i == 8) break; DA += "/u"; DB += "/u"; } // links moved up stay in their tree
  for (S r : {DA, DB}) { build(r + "/t", t); putf(r + "/outside", "outside"); mkdir((r + "/keep").c_str(), 0755); putf(r + "/keep/it", "kept"); }
  H.untyped = c.chance(1, 3); if (H.untyped) c.label("entries without type"); umask(um);
  int n = 1 + c.below(12), changes = 0; S log; auto before = snapshot(k, "A");
  if (S d = differ(before, snapshot(k, "B")); !d.empty()) c.fail("harness: trees differ: " + d);
  for (int i = 0; i < n; ++i) {
    S q = rpath(c, t), q2 = rpath(c, t); S a = DA + "/t/" + q, b = DB + "/t/" + q, a2 = DA + "/t/" + q2, b2 = DB + "/t/" + q2; if (c.chance(1, 4)) { a2 = DA + "/" + q2.substr(q2.rfind('/') + 1); b2 = "B" + a2.substr(1); }
    if (c.chance(1, 8)) { a = k.root + "/" + a; b = k.root + "/" + b; }
    S what; Res l, r; bool codes = true, stop = false; struct stat st, st2;
    auto fs = [&] { return std::filesystem::path(a); };
    switch (c.below(17)) {
      case 0: { what = "read " + q; if (!opens(a, false)) break; bool dir = stat(a.c_str(), &st) == 0 && S_ISDIR(st.st_mode); int h = c.below(3); l = lib(c, [&] { return h == 0 ? sys::read_file(a) : h == 1 ? sys::read_file(a.c_str()) : sys::read_file(fs()); });
        int fd = open(b.c_str(), O_RDONLY); r = ref(fd >= 0); if (fd >= 0) { r.val = dir ? S() : get(b); close(fd); } if (dir) { if (fd >= 0) r = l; } break; }
      case 1: { what = "write " + q; if (!opens(a, true)) break; S d = content(c); mode_t m = c.pick({0777, 0644, 0600, 0400}); int h = c.below(5); l = lib(c, [&] { h == 0 ? sys::write_file(a, d, m) : h == 1 ? sys::write_file(a.c_str(), d, m) : h == 2 ? sys::write_file(fs(), d, m) : h == 3 ? sys::write_file(a.c_str(), d.data(), d.size(), m) : sys::write_file(fs(), d.data(), d.size(), m); return S(); });
        r.err = putf(b, d, m); break; }
      case 2: { what = "write atomically " + q; S d = content(c); mode_t m = c.pick({0777, 0644, 0600, 0444}); int h = c.below(4); l = lib(c, [&] { h == 0 ? sys::write_file_atomically(a, d, m) : h == 1 ? sys::write_file_atomically(a.c_str(), d, m) : h == 2 ? sys::write_file_atomically(fs(), d, m) : sys::write_file_atomically(fs(), d.data(), d.size(), m); return S(); });
        S tmp = b + "XXXXXX"; int fd = open(tmp.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0600); r = ref(fd >= 0); if (fd >= 0) { syscall(SYS_fchmod, fd, m & ~um); close(fd); k.admin(true); umask(0); putf(tmp, d); umask(um); k.admin(false); r = ref(rename(tmp.c_str(), b.c_str()) == 0); int e = r.err; if (e) unlink(tmp.c_str()); } break; }
      case 3: { what = "unlink " + q; l = lib(c, [&] { sys::unlink(a); return S(); }); r = ref(unlink(b.c_str()) == 0); break; }
      case 4: { what = "unlink if it exists " + q; int h = c.below(3); l = lib(c, [&] { return flagged(h == 0 ? sys::unlink_ifexists(a) : h == 1 ? sys::unlink_ifexists(a.c_str()) : sys::unlink_ifexists(fs())); }); if (unlink(b.c_str()) == 0) r.val = "true"; else if (errno == ENOENT) r.val = "false"; else r = ref(false); break; }
      case 5: { what = "rename " + q + " to " + a2.substr(DA.size() + 1); l = lib(c, [&] { sys::rename(a, a2); return S(); }); r = ref(rename(b.c_str(), b2.c_str()) == 0); break; }
      case 6: { what = "rename if it exists " + q + " to " + a2.substr(DA.size() + 1); l = lib(c, [&] { return flagged(sys::rename_ifexists(a, a2)); }); if (rename(b.c_str(), b2.c_str()) == 0) r.val = "true"; else if (errno == ENOENT && lstat(b.c_str(), &st) != 0) r.val = "false"; else if (errno == ENOENT || true) { errno = 0; if (rename(b.c_str(), b2.c_str())) r = ref(false); } break; }
      case 7: { what = "rmdir " + q; l = lib(c, [&] { sys::rmdir(a); return S(); }); r = ref(rmdir(b.c_str()) == 0); break; }
      case 8: case 9: { bool there = lstat(b.c_str(), &st) == 0; if (there && (S_ISLNK(st.st_mode) || throughself(b))) break; what = "remove the tree " + q; int h = c.below(5);
        l = lib(c, [&] { if (h == 0) { sys::rmtree(a); return S(); } if (h == 1) { sys::Path p(a); p.rmtree(); return S(); } return flagged(h == 2 ? sys::rmtree_ifexists(a) : h == 3 ? sys::rmtree_ifexists(a.c_str()) : sys::rmtree_ifexists(fs())); });
        r = ref(rrm(b)); if (!r.err && h > 1) r.val = "true"; if (r.err == ENOENT && h > 1) r = ref(true, "false"); codes = false; if (r.err && there && S_ISDIR(st.st_mode)) stop = true; c.label(r.err ? "tree not removed" : there ? "tree removed" : "no tree"); break; }
      case 10: { what = "mkdir " + q; l = lib(c, [&] { return flagged(sys::mkdir_ifmissing(a)); }); if (mkdir(b.c_str(), 0777) == 0) r.val = "true"; else { int e = errno; if (e == EEXIST && stat(b.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) r.val = "false"; else r.err = e; } codes = false; break; }
      case 11: { if (q.find("./") != S::npos) break; what = "mkdirs " + q; l = lib(c, [&] { return flagged(sys::makedirs(a)); }); bool made = false; for (size_t p = 1; p <= b.size() && !r.err; ++p) if (p == b.size() || b[p] == '/') { S s = b.substr(0, p); if (mkdir(s.c_str(), 0777) == 0) made = true; else { int e = errno; if (stat(s.c_str(), &st) || !S_ISDIR(st.st_mode)) r.err = e; } } if (!r.err) r.val = flagged(made); codes = false; if (r.err) stop = true; break; }
      case 12: { what = "touch " + q; time_t ts = c.below(2000000000); l = lib(c, [&] { sys::touch(a, ts); return S(); }); utimbuf u = {ts, ts}; r = ref(utime(b.c_str(), &u) == 0); if (!l.err) { if (stat(a.c_str(), &st) || st.st_mtime != ts || st.st_atime != ts) c.fail("touched " + shown(q) + " has another time"); PBT_CHECK(c, sys::timestamp(a) == ts && sys::timestamp(a, 5) == ts, "the time reported of " << shown(q)); } break; }
      case 13: { what = "stat " + q; // against the same tree
        bool ok = stat(a.c_str(), &st) == 0; int e = errno; auto eq = [](const struct stat& x, const struct stat& y) { return x.st_ino == y.st_ino && x.st_size == y.st_size && x.st_mode == y.st_mode && x.st_mtime == y.st_mtime && x.st_dev == y.st_dev && x.st_nlink == y.st_nlink; };
        int h = c.below(3); Res x = lib(c, [&] { auto p = h == 0 ? sys::stat(a) : h == 1 ? sys::stat(a.c_str()) : sys::stat(fs()); if (!p) return S("null"); return S(eq(*p, st) ? "same" : "other"); });
        PBT_CHECK(c, ok ? x.val == "same" : e == ENOENT ? x.val == "null" && !x.err : x.err == e, "stat of " << shown(q) << " gives " << x.val << " " << x.err << " instead of error " << e);
        x = lib(c, [&] { h == 0 ? sys::stat(a, st2) : h == 1 ? sys::stat(a.c_str(), st2) : sys::stat(fs(), st2); return S(eq(st2, st) ? "same" : "other"); }); PBT_CHECK(c, ok ? x.val == "same" : x.err == e, "stat of " << shown(q) << " gives " << x.val << " " << x.err);
        x = lib(c, [&] { return S(Str() << sys::timestamp(a) << " " << sys::size(a) << " " << sys::inode(a)); }); PBT_CHECK(c, ok ? x.val == S(Str() << st.st_mtime << " " << st.st_size << " " << st.st_ino) : x.err == e, "time, size and inode of " << shown(q) << " are " << x.val);
        x = lib(c, [&] { return S(Str() << sys::timestamp(a, 11) << " " << sys::size(a, 12) << " " << sys::inode(a, 13)); }); PBT_CHECK(c, ok ? x.val == S(Str() << st.st_mtime << " " << st.st_size << " " << st.st_ino) : e == ENOENT ? x.val == "11 12 13" : x.err == e, "time, size and inode of " << shown(q) << " with defaults are " << x.val);
        struct { const char* n; bool (*f)(const S&); mode_t m; } kinds[] = {{"directory", sys::isdir, S_IFDIR}, {"block device", sys::isblk, S_IFBLK}, {"character device", sys::ischr, S_IFCHR}, {"pipe", sys::isfifo, S_IFIFO}, {"link", sys::islnk, S_IFLNK}, {"file", sys::isreg, S_IFREG}, {"socket", sys::issock, S_IFSOCK}};
        bool lok = lstat(a.c_str(), &st2) == 0; int le = errno;
        for (auto& y : kinds) { bool L = y.m == S_IFLNK; x = lib(c, [&] { return flagged(y.f(a)); }); bool o = L ? lok : ok; int ee = L ? le : e; PBT_CHECK(c, o ? x.val == flagged(((L ? st2 : st).st_mode & S_IFMT) == y.m) : ee == ENOENT ? x.val == "false" : x.err == ee, shown(q) << " is a " << y.n << ": " << x.val << " error " << x.err); }
        x = lib(c, [&] { return flagged(sys::exists(a)); }); PBT_CHECK(c, ok ? x.val == "true" : e == ENOENT || e == ENOTDIR ? x.val == "false" : x.err == e, shown(q) << " exists: " << x.val << " error " << x.err);
        for (int m : {F_OK, R_OK, W_OK, X_OK, R_OK | W_OK}) PBT_CHECK(c, sys::access(a, m) == (access(a.c_str(), m) == 0), "access to " << shown(q));
        S abs = sys::abspath(a); PBT_CHECK(c, abs[0] == '/' && abs.find("/../") == S::npos && abs.find("/./") == S::npos, "absolute path " << abs); break; }
      case 14: { what = "list " + q; DIR* h = enter(a) ? opendir(a.c_str()) : nullptr; int e = errno; std::map<S, unsigned char> want, got; S bad; if (h) { while (dirent* d = readdir(h)) want[d->d_name] = 0; closedir(h); }
        Res x = lib(c, [&] { sys::Path p(a); int n = 0; for (auto j = p.begin(); j != p.end(); ++j) { S nm = j->d_name; ++got[nm]; PBT_CHECK(c, S((*j).d_name) == nm, "name"); ++n;
            struct stat s; if (lstat((a + "/" + nm).c_str(), &s)) continue; mode_t m = s.st_mode & S_IFMT;
            bool f[] = {j.isdir(), j.isblk(), j.ischr(), j.isfifo(), j.islnk(), j.isreg(), j.issock()}; mode_t w[] = {S_IFDIR, S_IFBLK, S_IFCHR, S_IFIFO, S_IFLNK, S_IFREG, S_IFSOCK};
            for (int z = 0; z < 7; ++z) if (f[z] != (m == w[z])) bad = Str() << shown(nm) << " of kind " << std::oct << m << (f[z] ? " is" : " is not") << " of kind " << w[z];
            if (m != S_IFLNK && c.chance(1, 4)) { sys::Path o = j.open_path(O_NOFOLLOW); struct stat s2; o.fstat(s2); if (s2.st_ino != s.st_ino) bad = "another entry is opened for " + nm; sys::Path::iterator mv(std::move(j)); if (mv.isdir() != (m == S_IFDIR)) bad = "the moved iterator differs"; return S(Str() << "moved"); } }
          return S(Str() << n); });
        PBT_CHECK(c, bad.empty(), "in the list of " << shown(q) << " " << bad); PBT_CHECK(c, h ? !x.err : x.err != 0, "the list of " << shown(q) << " gives error " << x.err << " instead of " << e); if (h && x.val != "moved") { for (auto& z : want) PBT_CHECK(c, got[z.first] == 1, "the list of " << shown(q) << " has " << shown(z.first) << " " << (int)got[z.first] << " times"); PBT_CHECK(c, got.size() == want.size(), "the list of " << shown(q) << " has " << got.size() << " entries instead of " << want.size()); }
        if (h && c.flag()) { sys::Path p(a); auto j = p.begin(); ++j; c.label("list left early"); } break; }
      case 15: { // relative to an open directory
        S nm = c.pick<S>({"a", "b", "c", "dd", "none", "a/b", "e e", "none/x"}); what = "in " + q + " "; int fd = open(b.c_str(), O_PATH), e = errno; if (fd < 0) { l = lib(c, [&] { sys::Path p(a); return S(); }); r.err = e; break; }
        sys::Path p(a); int h = c.below(10); mode_t m = c.pick({0777, 0700}); const char* N = nm.c_str(); struct stat s, s2; 
        auto stats = [&](int flags) { Res z; memset(&s2, 0, sizeof s2); z = ref(fstatat(fd, N, &s2, flags) == 0); if (!z.err) z.val = Str() << s2.st_mode << " " << (S_ISREG(s2.st_mode) ? (long)s2.st_size : 0L); return z; }; auto sv = [&] { return S(Str() << s.st_mode << " " << (S_ISREG(s.st_mode) ? (long)s.st_size : 0L)); };
        if (h == 0) { what += "mkdir "; l = lib(c, [&] { p.mkdirat(N, m); return S(); }); r = ref(mkdirat(fd, N, m) == 0); }
        else if (h == 1) { what += "rmdir "; l = lib(c, [&] { p.rmdirat(N); return S(); }); r = ref(unlinkat(fd, N, AT_REMOVEDIR) == 0); }
        else if (h == 2) { what += "unlink "; l = lib(c, [&] { p.unlinkat(N); return S(); }); r = ref(unlinkat(fd, N, 0) == 0); }
        else if (h == 3) { what += "symlink "; S tg = c.flag() ? "b" : S(c.pick({255, 256, 257, 511, 512, 1000}), 't'); l = lib(c, [&] { p.symlinkat(tg.c_str(), N); return S(); }); r = ref(symlinkat(tg.c_str(), fd, N) == 0); if (!l.err) PBT_CHECK(c, p.readlinkat(N) == tg, "the link reads as " << shown(p.readlinkat(N))); }
        else if (h == 4) { what += "readlink "; l = lib(c, [&] { return p.readlinkat(N); }); char bb[3000]; ssize_t z = readlinkat(fd, N, bb, 3000); r = ref(z >= 0, z >= 0 ? S(bb, z) : S()); }
        else if (h == 5) { what += "stat "; l = lib(c, [&] { p.fstatat(N, s); return sv(); }); r = stats(0); Res x = lib(c, [&] { return p.fstatat_ifexists(N, s) ? sv() : S("absent"); }); PBT_CHECK(c, r.err == ENOENT ? x.val == "absent" : x.err == r.err && x.val == r.val, "fstatat_ifexists of " << nm << " gives " << x.val << " " << x.err); }
        else if (h == 6) { what += "lstat "; l = lib(c, [&] { p.lstatat(N, s); return sv(); }); r = stats(AT_SYMLINK_NOFOLLOW); Res x = lib(c, [&] { return p.lstatat_ifexists(N, s) ? sv() : S("absent"); }); PBT_CHECK(c, r.err == ENOENT ? x.val == "absent" : x.err == r.err && x.val == r.val, "lstatat_ifexists of " << nm << " gives " << x.val << " " << x.err); }
        else if (h == 7) { what += "access "; l.val = flagged(p.faccessat(N, R_OK)); r.val = flagged(faccessat(fd, N, R_OK, 0) == 0); }
        else { what += "open "; bool ife = h == 8; int fl = c.pick({O_RDONLY, O_RDWR, O_WRONLY | O_CREAT, O_RDONLY | O_DIRECTORY}) | O_NONBLOCK; l = lib(c, [&] { int z = ife ? p.openat_ifexists(N, fl, 0640) : p.openat(N, fl, 0640); if (z == -1) return S("absent"); close(z); return S("open"); }); int z = openat(fd, N, fl, 0640); r = ref(z >= 0, z >= 0 ? "open" : ""); if (z >= 0) close(z); else if (ife && r.err == ENOENT) r = ref(true, "absent"); }
        what += nm; close(fd); break; }
      default: { what = "open " + q; int fl = c.pick({O_RDONLY, O_RDWR, O_WRONLY | O_CREAT, O_RDWR | O_CREAT | O_EXCL}) | O_NONBLOCK; int h = c.below(3); l = lib(c, [&] { if (h == 0) { sys::File f(a, fl, 0640); PBT_CHECK(c, f.is_open() && f.path() == a, "not open"); return S("open"); } sys::File f = c.flag() ? sys::File(a.c_str()) : sys::File(fs()); PBT_CHECK(c, !f.is_open(), "open too early"); if (h == 1) { f.open(fl, 0640); return S("open"); } return S(f.open_ifexists(fl, 0640) ? "open" : "absent"); });
        int z = open(b.c_str(), fl, 0640); r = ref(z >= 0, z >= 0 ? "open" : ""); if (z >= 0) close(z); else if (h == 2 && r.err == ENOENT) r = ref(true, "absent"); break; }
    }
    if (what.empty()) continue;
    log += (log.empty() ? "" : ", ") + what;
    c.describe(Str() << (i ? ", " : "") << what);
    PBT_CHECK(c, codes ? l.err == r.err : !l.err == !r.err, what << ": error " << l.err << " instead of " << r.err << " after " << log);
    if (!l.err) PBT_CHECK(c, l.val == r.val, what << ": gives " << shown(l.val) << " instead of " << shown(r.val) << " after " << log);
    if (l.err) c.label("error " + S(strerror(l.err)));
    auto sa = snapshot(k, "A"), sb = snapshot(k, "B"); if (sa != before) ++changes;
    if (stop) { // half of a tree may be gone, nothing else
      S base = DA.substr(1), top = base + (what.find("tree") != S::npos ? "/t/" + q : S("/t")); if (q.find("./") != S::npos) top = base + "/t";
      for (auto& x : before) {
        if (x.first == top || x.first.compare(0, top.size() + 1, top + "/") == 0) continue;
        auto y = sa.find(x.first); if (y == sa.end()) c.fail(what + " removes " + shown(x.first));
        S u = x.second, v = y->second; if (u.find(" x") != S::npos) { u.erase(0, u.find(' ', u.find(' ') + 1)); v.erase(0, v.find(' ', v.find(' ') + 1)); } // the number of links may be less
        if (u != v) c.fail(what + " changes " + shown(x.first));
      }
      break; }
    S d = differ(sa, sb); PBT_CHECK(c, d.empty(), what << ": then " << d << " after " << log);
    before = sa;
  }
  if (changes) c.nontrivial();
  k.end();
}

// writing while the disk, the system or another process interfere
PBT_SUB("atomic writes", 1500, 100000) {
  Case k(c); umask(c.pick({022, 077})); mkdir("d", 0755); bool old = c.chance(2, 3); S was = content(c), now = content(c); if (was == now) now += "x"; if (old) putf("d/f", was); bool dir = !old && c.chance(1, 6); if (dir) { mkdir("d/f", 0755); putf("d/f/x", "x"); }
  int fault = c.below(7); bool will = false; mode_t m = c.pick({0644, 0600, 0777}); auto files = list("d"); S target = "d/f";
  auto state = [&]() -> int { struct stat s; if (lstat("d/f", &s)) return old ? 9 : 0; if (S_ISDIR(s.st_mode)) return dir ? 0 : 9; S g = get("d/f"); return g == now ? 1 : old && g == was ? 0 : 9; };
  const char* names[] = {"no fault", "short writes", "full disk", "error at close", "error at rename", "error at chmod", "crash"};
  c.label(names[fault]); c.describe(Str() << names[fault] << ", " << (old ? "over " + std::to_string(was.size()) + " bytes" : dir ? S("over a directory") : S("new")) << ", " << now.size() << " bytes"); c.nontrivial();
  if (fault == 1) H.shortw = c.pick({1, 7, 1000, 4096}); if (H.shortw == 1 && now.size() > 5000) H.shortw = 100;
  if (fault == 2) { H.space = now.empty() ? 0 : c.below(now.size()); will = !now.empty(); }
  if (fault == 3) { H.badclose = c.pick({EIO, ENOSPC, EDQUOT}); will = true; } if (fault == 4) { H.badrename = c.pick({EIO, EACCES, EXDEV}); will = true; } if (fault == 5) { H.badchmod = EPERM; will = true; }
  if (fault == 6) {
    int at = c.below(8); pid_t p = fork();
    if (p == 0) { H.crash = at; H.on = true; try { sys::write_file_atomically(target, now, m); } catch (...) { _exit(1); } _exit(0); }
    int st; while (waitpid(p, &st, 0) != p); PBT_CHECK(c, WIFEXITED(st), "ended by a signal");
    int s = state(); PBT_CHECK(c, s != 9, "after a crash at call " << at << " the file is neither the old nor the new one"); c.label(WEXITSTATUS(st) == 77 ? s ? "crash after" : "crash before" : "no crash");
    k.end(); return; }
  int worst = 0, seen = 0; H.between = [&] { int s = state(); if (s > worst) worst = s; if (s < seen) worst = 8; seen = s; };
  H.on = true; bool failed = false; int err = 0;
  try { sys::write_file_atomically(target, now, m); } catch (std::system_error& e) { failed = true; err = e.code().value(); }
  H.on = false; int asked = fault == 3 ? H.badclose : fault == 4 ? H.badrename : fault == 5 ? H.badchmod : fault == 2 && !now.empty() ? ENOSPC : 0; for (auto& x : H.closed) PBT_CHECK(c, x.second == 1, "a file descriptor is closed " << x.second << " times");
  PBT_CHECK(c, worst < 2, "while it is written the file is neither the old nor the new one");
  if (dir) will = true;
  PBT_CHECK(c, failed == will, (failed ? "it fails" : "the failure is not reported")); if (asked && failed && !(dir && fault == 4)) PBT_CHECK(c, err == asked, "error " << err << " instead of " << asked);
  PBT_CHECK(c, state() == (failed ? 0 : 1), "then the file is not the " << (failed ? "old" : "new") << " one");
  std::set<S> want(files.begin(), files.end()); if (!failed) want.insert("f"); auto l = list("d"); PBT_CHECK(c, std::set<S>(l.begin(), l.end()) == want, "files are left: " << l.size() << " instead of " << want.size());
  if (!failed) { struct stat s; stat("d/f", &s); mode_t u = umask(0); umask(u); PBT_CHECK(c, (s.st_mode & 07777) == (m & ~u), "mode " << std::oct << s.st_mode); }
  k.end();
}

PBT_SUB("faulty writes and reads", 1500, 100000) {
  Case k(c); S d = content(c); if (d.empty()) d = "x"; c.describe(Str() << d.size() << " bytes"); c.nontrivial();
  { sys::File f("f", O_RDWR | O_CREAT, 0600); H.shortw = c.pick({0, 1, 10, 1000}); if (H.shortw == 1 && d.size() > 3000) H.shortw = 64; bool full = c.chance(1, 4); H.space = full ? (long)c.below(d.size()) : -1;
    int how = c.below(3); bool failed = false, part = false; size_t n = 0; H.on = true;
    try { if (how == 0) { if (c.flag()) f.write_all_or_retry(d.data(), d.size()); else f.write_all_or_retry(d); n = d.size(); } else if (how == 1) { if (c.flag()) f.write_all_or_throw(d); else f.write_all_or_throw(d.data(), d.size()); n = d.size(); } else n = c.flag() ? f.write(d) : f.write(d.data(), d.size()); }
    catch (std::system_error& e) { failed = true; PBT_CHECK(c, e.code().value() == ENOSPC, "error " << e.what()); } catch (std::runtime_error& e) { part = true; }
    H.on = false; S g = get("f"); PBT_CHECK(c, g == d.substr(0, g.size()), "other bytes are written");
    size_t once = H.shortw && (size_t)H.shortw < d.size() ? H.shortw : d.size(); if (full) once = std::min(once, (size_t)(H.space + (long)g.size()));
    if (how == 0) { PBT_CHECK(c, failed == full && !part, (full ? "a full disk is not reported" : "it fails")); if (!full) PBT_CHECK(c, g.size() == d.size(), g.size() << " bytes are written"); }
    else if (how == 1) { PBT_CHECK(c, (failed || part) == (once < d.size()), (failed || part ? "it fails" : "a partial write is not reported") << ", " << once << " of " << d.size()); if (!failed && !part) PBT_CHECK(c, g == d, g.size() << " bytes are written"); }
    else PBT_CHECK(c, failed ? once == 0 : n == g.size() && n == once, n << " bytes are reported, " << g.size() << " written"); c.label(failed ? "full disk" : part ? "partial write" : "written"); }
  putf("g", d); { sys::File f("g", O_RDWR); H.shortr = c.pick({0, 1, 10, 1000}); if (H.shortr == 1 && d.size() > 3000) H.shortr = 64;
    size_t ask = c.flag() ? d.size() : c.below(2 * d.size() + 2), pos = c.chance(1, 3) ? c.below(d.size() + 1) : 0; size_t left = d.size() - pos; PBT_CHECK(c, f.lseek(pos) == (off_t)pos, "seek"); std::vector<char> b(ask ? ask : 1); int how = c.below(3); H.on = true; int r = -1; size_t n = 0; bool part = false;
    try { if (how == 0) r = f.read_all_or_retry(b.data(), ask); else if (how == 1) { f.read_all_or_throw(b.data(), ask); r = 1; } else n = f.read(b.data(), ask); } catch (std::system_error& e) { H.on = false; c.fail(S("reading fails: ") + e.what()); } catch (std::runtime_error&) { part = true; }
    H.on = false; size_t once = std::min(std::min(ask, left), H.shortr ? (size_t)H.shortr : ask);
    if (how == 0) { bool whole = ask <= left; if (whole) PBT_CHECK(c, r == 1 && S(b.data(), ask) == d.substr(pos, ask), "all bytes are there and reading gives " << r); else if (left == 0) PBT_CHECK(c, r == 0 && !part, "at the end reading gives " << r); else PBT_CHECK(c, part, "a partial read is not reported"); }
    else if (how == 1) { PBT_CHECK(c, part == (once != ask), "a partial read of " << once << " of " << ask << (part ? " is reported" : " is not reported")); if (!part) PBT_CHECK(c, S(b.data(), ask) == d.substr(pos, ask), "other bytes are read"); }
    else PBT_CHECK(c, n == once && S(b.data(), n) == d.substr(pos, n), n << " bytes are read instead of " << once);
    // at positions, without moving
    off_t here = f.lseek(0, SEEK_CUR); size_t o = c.below(d.size() + 10); std::vector<char> q(50); n = f.pread(q.data(), 50, o); S e = o < d.size() ? d.substr(o, 50) : S(); PBT_CHECK(c, S(q.data(), n) == e, "at " << o << " are " << n << " bytes"); S w = content(c).substr(0, 100); n = c.flag() ? f.pwrite(w, o) : f.pwrite(w.data(), w.size(), o); PBT_CHECK(c, n == w.size(), "pwrite"); S model = d; if (!w.empty() && model.size() < o + w.size()) model.resize(o + w.size()); for (size_t i = 0; i < w.size(); ++i) model[o + i] = w[i]; PBT_CHECK(c, get("g") == model, "other bytes are written at " << o); PBT_CHECK(c, f.lseek(0, SEEK_CUR) == here, "the position moves");
    struct stat s; f.fstat(s); PBT_CHECK(c, s.st_size == (off_t)model.size() && f.lseek(0, SEEK_END) == s.st_size, "size");
    size_t tr = c.below(model.size() + 100); f.ftruncate(tr); model.resize(tr); PBT_CHECK(c, get("g") == model, "truncated to " << tr); f.fsync(); f.fdatasync(); f.fchmod(0640); f.fstat(s); PBT_CHECK(c, (s.st_mode & 07777) == 0640, "mode");
    if (tr) { sys::MMap m = f.mmap(tr, PROT_READ | PROT_WRITE, MAP_SHARED); PBT_CHECK(c, m.size() == tr && S((const char*)m, tr) == model, "the mapped file differs"); char* p = m; size_t at = c.below(tr); p[at] ^= 1; model[at] ^= 1; sys::MMap m2(std::move(m)); PBT_CHECK(c, m.size() == 0 && (char*)m2 == p, "moved map"); sys::MMap m3 = f.mmap(1, PROT_READ, MAP_SHARED); m3 = std::move(m2); PBT_CHECK(c, (char*)m3 == p && m3.size() == tr, "moved map"); PBT_CHECK(c, m2.size() == 0, "moved map"); m2 = std::move(m3); PBT_CHECK(c, (char*)m2 == p && p[at] == model[at], "the map moved back"); if (c.flag()) m2.munmap(); }
    PBT_CHECK(c, get("g") == model, "writing to the map does not change the file");
    int fl = f.getfl(); f.setfl(fl | O_APPEND); PBT_CHECK(c, f.getfl() & O_APPEND, "flags"); }
  k.end();
}

static volatile sig_atomic_t lock_fd, lock_left; static struct flock lock_rec;
static void on_alarm(int) { int e = errno; if (lock_left > 0) { lock_left = lock_left - 1; if (lock_left == 0) { struct flock l = lock_rec; l.l_pid = 0; fcntl(lock_fd, F_OFD_SETLK, &l); } } errno = e; }
PBT_SUB("descriptors and temporary files", 1500, 60000) {
  Case k(c); mkdir("d", 0755); c.nontrivial(); int how = c.below(8); c.label("part " + std::to_string(how));
  switch (how) {
    case 0: { // moving, closing once
      putf("a", "a"); putf("b", "b"); sys::File f("a", O_RDONLY), g("b", O_RDONLY); int fa = f, fb = g; H.on = true;
      { sys::File h(std::move(f)); PBT_CHECK(c, !f.is_open() && (int)h == fa && h.path() == "a", "moved"); PBT_CHECK(c, H.closed.empty(), "closed when moved"); h = std::move(g); PBT_CHECK(c, (int)h == fb && !g.is_open() && (c.repeated || H.closed[fa] == 1) && h.path() == "b", "moved over"); sys::File& same = h; h = std::move(same); PBT_CHECK(c, (int)h == fb, "moved to itself"); if (c.flag()) { h.close(); PBT_CHECK(c, !h.is_open(), "open after closing"); h.close(); } }
      H.on = false; PBT_CHECK(c, c.repeated || (H.closed[fa] == 1 && H.closed[fb] == 1), "closed " << H.closed[fa] << " and " << H.closed[fb] << " times"); break; }
    case 1: { // error at close
      putf("a", "a"); int fa; H.badclose = EIO; { sys::File f("a", O_RDONLY); fa = f; H.on = true; bool e = false; try { f.close(); } catch (std::system_error& x) { e = x.code().value() == EIO; } PBT_CHECK(c, e, "the error is not reported"); PBT_CHECK(c, !f.is_open(), "open after closing"); } H.on = false; PBT_CHECK(c, H.closed[fa] == 1, "closed " << H.closed[fa] << " times"); break; }
    case 2: { S p = c.flag() ? "d/tmp" : ""; S nm; bool keep = c.flag(), early = c.flag(); { std::unique_ptr<sys::Tempfile> t(p.empty() ? new sys::Tempfile : c.flag() ? new sys::Tempfile(p.c_str()) : c.flag() ? new sys::Tempfile(std::filesystem::path(p)) : new sys::Tempfile(p)); nm = t->path(); PBT_CHECK(c, nm.size() == p.size() + 6 && nm.compare(0, p.size(), p) == 0, "name " << nm); struct stat s; PBT_CHECK(c, stat(nm.c_str(), &s) == 0 && S_ISREG(s.st_mode) && (s.st_mode & 077) == 0 && s.st_size == 0, "no private empty file"); t->write_all_or_throw(S("data")); PBT_CHECK(c, get(nm) == "data", "data"); if (keep) t->unlink_on_exit(false); if (early) { t->unlink(); PBT_CHECK(c, access(nm.c_str(), F_OK), "not removed"); }
        if (!early && c.chance(1, 3)) { unlink(nm.c_str()); if (c.flag()) { mkdir(nm.c_str(), 0700); putf(nm + "/x", "x"); } early = true; keep = true; } }
      PBT_CHECK(c, (access(nm.c_str(), F_OK) == 0) == (keep && !early) || early, "the temporary file is " << (keep ? "removed" : "left")); break; }
    case 3: { S p = "d/dir", nm; bool keep = c.chance(1, 3); { std::unique_ptr<sys::Tempdir> t(c.flag() ? new sys::Tempdir(p.c_str()) : c.flag() ? new sys::Tempdir(std::filesystem::path(p)) : new sys::Tempdir(p)); nm = t->path(); struct stat s; PBT_CHECK(c, stat(nm.c_str(), &s) == 0 && S_ISDIR(s.st_mode) && (s.st_mode & 077) == 0, "no private directory"); putf("d/outside", "o"); build(nm + "/t", gtree(c, c.below(10), false)); if (symlink("../outside", (nm + "/l").c_str())) {} if (symlink("..", (nm + "/m").c_str())) {} H.untyped = c.flag(); if (keep) t->rmtree_on_exit(false); }
      H.untyped = false; PBT_CHECK(c, (access(nm.c_str(), F_OK) == 0) == keep, "the temporary directory is " << (keep ? "removed" : "left")); PBT_CHECK(c, get("d/outside") == "o", "a file outside is removed"); break; }
    case 4: { // many entries
      int n = c.pick({0, 1, 100, 400}); mkdir("d/m", 0755); std::set<S> want; for (int i = 0; i < n; ++i) { S f = "file number " + std::to_string(i); want.insert(f); if (i % 3) putf("d/m/" + f, ""); else mkdir(("d/m/" + f).c_str(), 0755); } sys::Path p("d/m"); std::multiset<S> got; for (auto i = p.begin(); i != p.end(); ++i) if (S(i->d_name) != "." && S(i->d_name) != "..") got.insert(i->d_name); PBT_CHECK(c, got.size() == want.size() && std::set<S>(got.begin(), got.end()) == want, got.size() << " entries instead of " << n); sys::rmtree("d/m"); PBT_CHECK(c, access("d/m", F_OK), "the tree is left"); break; }
    case 5: { // times are kept
      putf("a", "a"); struct timespec ts[2] = {{(time_t)c.below(2000000000), (long)c.below(1000000000)}, {(time_t)c.below(2000000000), (long)c.below(1000000000)}}; sys::File f("a", O_RDWR); f.futimens(ts); struct stat s; stat("a", &s); PBT_CHECK(c, s.st_mtim.tv_sec == ts[1].tv_sec && s.st_mtim.tv_nsec == ts[1].tv_nsec && s.st_atim.tv_sec == ts[0].tv_sec, "times"); { sys::PreserveFileTimes pt(f); f.write_all_or_throw(S("xyz")); char b[3]; f.lseek(0); f.read(b, 3); } stat("a", &s); PBT_CHECK(c, s.st_mtim.tv_sec == ts[1].tv_sec && s.st_mtim.tv_nsec == ts[1].tv_nsec && s.st_atim.tv_sec == ts[0].tv_sec && s.st_atim.tv_nsec == ts[0].tv_nsec, "the times are not kept"); break; }
    case 6: { // locks
      putf("a", S(100, 'a')); sys::File f("a", O_RDWR), g("a", O_RDWR); short ta = c.pick({F_RDLCK, F_WRLCK}), tb = c.pick({F_RDLCK, F_WRLCK}); off_t sa = c.below(50), sb = c.below(50), la = 1 + c.below(40), lb = 1 + c.below(40); bool clash = (ta == F_WRLCK || tb == F_WRLCK) && sa < sb + lb && sb < sa + la;
      struct flock A; memset(&A, 0, sizeof A); A.l_type = ta; A.l_whence = SEEK_SET; A.l_start = sa; A.l_len = la; struct flock B = A; B.l_type = tb; B.l_start = sb; B.l_len = lb; struct flock T = B;
      PBT_CHECK(c, f.ofd_setlk(A), "the first lock is refused"); PBT_CHECK(c, g.ofd_getlk(T) == !clash, "a lock is said to be " << (clash ? "free" : "taken")); PBT_CHECK(c, g.ofd_setlk(B) == !clash, "the second lock is " << (clash ? "given" : "refused")); 
      bool waited = clash && c.flag(), retry = c.flag(); if (waited) { // a timer interrupts the wait; the third signal gives the lock free
        lock_fd = f; lock_left = retry ? 3 : -1; lock_rec = A; lock_rec.l_type = F_UNLCK; struct sigaction sa0, sa1; memset(&sa1, 0, sizeof sa1); sa1.sa_handler = on_alarm; sigaction(SIGALRM, &sa1, &sa0); struct itimerval it = {{0, 1000}, {0, 1000}}, off = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &it, nullptr);
        bool ok; try { ok = g.ofd_setlkw(B, retry); } catch (...) { setitimer(ITIMER_REAL, &off, nullptr); throw; } setitimer(ITIMER_REAL, &off, nullptr); sigaction(SIGALRM, &sa0, nullptr); c.label(retry ? "waited for a lock" : "interrupted"); PBT_CHECK(c, ok == retry, "waiting for a lock gives " << ok); if (retry) PBT_CHECK(c, lock_left <= 0, "the lock is given while it is taken"); }
      A.l_type = F_UNLCK; PBT_CHECK(c, f.ofd_setlk(A), "not unlocked"); B.l_type = tb; if (!waited || !retry) PBT_CHECK(c, g.ofd_setlkw(B), "the lock is refused");
      A.l_type = ta; T = A; PBT_CHECK(c, f.ofd_getlk(T) == !clash, "the lock after waiting is not held"); PBT_CHECK(c, f.ofd_setlk(A) == !clash, "the lock after waiting is given twice"); break; }
    default: { // search path, times, limits
      const char* dirs[] = {"p", "q", "r"}; S path; for (int i = 0; i < 3; ++i) { mkdir(dirs[i], 0755); if (c.flag()) { S f = S(dirs[i]) + "/prog"; int z = c.below(4); if (z == 0) mkdir(f.c_str(), 0755); else putf(f, "#!", z == 1 ? 0644 : 0755), chmod(f.c_str(), z == 1 ? 0644 : 0755); } path += S(i ? ":" : "") + c.pick<S>({k.root + "/" + dirs[i], dirs[i], S(dirs[i]) + "/", ""}); }
      S keep = getenv("PATH") ? getenv("PATH") : ""; setenv("PATH", path.c_str(), 1); S got = sys::which("prog"), want = "prog"; setenv("PATH", keep.c_str(), 1); c.describe("search in " + path);
      for (size_t p = 0; p <= path.size();) { size_t e = path.find(':', p); if (e == S::npos) e = path.size(); S d = path.substr(p, e - p); p = e + 1; struct stat s; if (d.empty()) continue; S f = d + (d.back() == '/' ? "" : "/") + "prog"; if (stat(f.c_str(), &s) || !S_ISREG(s.st_mode) || access(f.c_str(), X_OK)) continue; want = f[0] == '/' ? f : k.root + "/" + f; break; }
      struct stat s1, s2; if (want == "prog") PBT_CHECK(c, got == want, "found " << got << " in " << path); else PBT_CHECK(c, got[0] == '/' && stat(got.c_str(), &s1) == 0 && stat(want.c_str(), &s2) == 0 && s1.st_ino == s2.st_ino, "found " << got << " instead of " << want);
      PBT_CHECK(c, S(sys::which("p/prog")) == k.root + "/p/prog", "a relative path gives " << S(sys::which("p/prog")));
      struct timespec x = {(time_t)c.below(2000000000), (long)c.below(1000000000)}, y = {(time_t)(c.flag() ? x.tv_sec + c.below(5) : c.below(2000000000)), (long)c.below(1000000000)}; __int128 dd = ((__int128)y.tv_sec - x.tv_sec) * 1000000000 + y.tv_nsec - x.tv_nsec; unsigned long long w = dd < 0 ? 0 : (unsigned long long)dd; PBT_CHECK(c, sys::timesec_elapsed(x, y) == w, "elapsed " << sys::timesec_elapsed(x, y) << " instead of " << w);
      sys::Clock ck(CLOCK_MONOTONIC); unsigned long long e1 = ck.elapsed(), e2 = ck.elapsed(); PBT_CHECK(c, e2 >= e1, "time runs back");
      struct rlimit r0, r1, r2; getrlimit(RLIMIT_CORE, &r0); { rlim_t v = r0.rlim_max == RLIM_INFINITY ? c.below(1000) : c.below(r0.rlim_max + 1); sys::OverrideRlimit o(RLIMIT_CORE, v); getrlimit(RLIMIT_CORE, &r1); PBT_CHECK(c, r1.rlim_cur == v && r1.rlim_max == r0.rlim_max, "limit"); } getrlimit(RLIMIT_CORE, &r2); PBT_CHECK(c, r2.rlim_cur == r0.rlim_cur && r2.rlim_max == r0.rlim_max, "the limit is not restored");
      S cw = sys::getcwd(); sys::chdir("p"); PBT_CHECK(c, sys::getcwd() == cw + "/p", "directory " << sys::getcwd()); sys::chdir(".."); PBT_CHECK(c, sys::getcwd() == cw, "directory"); bool e = false; try { sys::chdir("none"); } catch (std::system_error& z) { e = z.code().value() == ENOENT; } PBT_CHECK(c, e, "an absent directory is not reported");
      S suf = c.pick<S>({".tmp", "~", ""}), base = c.pick<S>({"p/prog", "x", "/a/b.c"}); PBT_CHECK(c, sys::with_suffix(base, suf).native() == base + suf, "suffix"); e = false; try { sys::with_suffix("p/", suf); } catch (std::invalid_argument&) { e = true; } PBT_CHECK(c, e, "a suffix to a directory"); }
  }
  k.end();
}

PBT_MAIN("P22", "histories that change the tree; every write, read, descriptor and temporary file case")
