// P30: drivers registered in any way, data sets open at the same time
#include "xritmodel.h"
#include "gdalgen.h"
#include <filesystem>
#include <netcdf.h>
#include <gdal/xrit/xrit.h>
#include <gdal/grib/grib.h>
#include <gdal/netcdf/netcdf.h>
#include <gdal/netcdf/netcdf24.h>
#include <cmath>
#include <dlfcn.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
using pbt::Str;
extern "C" { void GDALRegister_Meteosatlib(void); void GDALRegister_GTiff(void); void GDALRegister_VRT(void); }
static int dummy = (pbt::init_hook() = [] { CPLSetErrorHandler(gg::quiet); GDALRegister_MEM(); }, 0);

static const char* OURS[] = {"MsatXRIT", "MsatGRIB", "MsatNetCDF", "MsatNetCDF24"};
static void drop() { auto m = GetGDALDriverManager(); while (m->GetDriverCount()) { GDALDriver* d = m->GetDriver(m->GetDriverCount() - 1); m->DeregisterDriver(d); delete d; } }
static void reg(int k) {
  switch (k) { case 0: GDALRegister_MsatXRIT(); break; case 1: GDALRegister_MsatGRIB(); break; case 2: GDALRegister_MsatNetCDF(); break; case 3: GDALRegister_MsatNetCDF24(); break; case 4: GDALRegister_GTiff(); break;
    case 5: GDALRegister_MEM(); break; case 6: GDALRegister_VRT(); break; case 7: GDALRegister_Meteosatlib(); break; case 8: GDALAllRegister(); break;
    case 9: { static void (*own)(void) = (void (*)(void))dlsym(RTLD_NEXT, "GDALAllRegister"); own(); break; } }
}
static const char* REGNAMES[] = {"XRIT", "GRIB", "NetCDF", "NetCDF24", "GTiff", "MEM", "VRT", "all of meteosatlib", "all", "those of GDAL"};
static bool ours(GDALDataset* d) { return d->GetDriver() && !strncmp(d->GetDriver()->GetDescription(), "Msat", 4); }

struct Win { int band, x, y, w, h; std::vector<double> v; };
struct Src { int kind; std::string name; std::string facts; int w = 0, h = 0, bands = 0; std::vector<int> lines; std::vector<Win> wins; }; // kind as for reg(), or 9 for what is no image
static std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
static std::string facts(GDALDataset* d) {
  std::string s = Str() << d->GetDriver()->GetDescription() << " " << d->GetRasterXSize() << "x" << d->GetRasterYSize() << " " << d->GetRasterCount() << "\n"; double g[6] = {0}; s += std::to_string(d->GetGeoTransform(g)); for (double v : g) s += " " + num(v);
  s += std::string("\n") + (d->GetProjectionRef() ? d->GetProjectionRef() : "") + "\n"; auto md = [&](GDALMajorObject* o) { std::vector<std::string> l; for (char** m = o->GetMetadata(); m && *m; ++m) l.push_back(*m); std::sort(l.begin(), l.end()); for (auto& x : l) s += x + "\n"; }; md(d);
  for (int i = 1; i <= d->GetRasterCount(); ++i) { GDALRasterBand* b = d->GetRasterBand(i); int ok; s += Str() << b->GetDescription() << " " << GDALGetDataTypeName(b->GetRasterDataType()) << " " << b->GetUnitType(); double v = b->GetScale(&ok); s += " " + (ok ? num(v) : "-"); v = b->GetOffset(&ok); s += " " + (ok ? num(v) : "-"); v = b->GetNoDataValue(&ok); s += " " + (ok ? num(v) : "-") + "\n"; md(b); }
  return s;
}
static bool readwin(GDALDataset* d, const Win& w, std::vector<double>& v) { v.assign((size_t)w.w * w.h, -1e99); return d->GetRasterBand(w.band)->RasterIO(GF_Read, w.x, w.y, w.w, w.h, v.data(), w.w, w.h, GDT_Float64, 0, 0, nullptr) == CE_None; }
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static gg::DS open(pbt::Ctx& c, const std::string& n) { try { return gg::DS((GDALDataset*)GDALOpen(n.c_str(), GA_ReadOnly)); } catch (pbt::Failure&) { throw; } catch (std::exception& e) { c.fail(Str() << "an exception leaves the drivers on opening " << n << ": " << e.what()); } }
static std::map<std::string, std::string> files() { std::map<std::string, std::string> r; for (auto& e : std::filesystem::recursive_directory_iterator(".")) { std::string k = e.path().string(); r[k] = ""; if (e.is_regular_file()) { std::ifstream i(k, std::ios::binary); std::stringstream s; s << i.rdbuf(); r[k] = s.str(); } } return r; }

// images made so far in this case: others are made alike, but for the samples
static std::vector<gg::Img> imgs; static std::vector<Gen> gens;
static Src make(pbt::Ctx& c, int kind, int idx) {
  if (!idx) { imgs.clear(); gens.clear(); }
  Src s; s.kind = kind; std::string pre = "i" + std::to_string(idx);
  if (kind == 0) {
    bool hrv = c.chance(1, 4), alike = !gens.empty() && c.flag(); Gen g = alike ? gens[c.below(gens.size())] : gen(c, hrv); if (alike) { c.label("alike"); for (auto& s : g.im.seg) std::reverse(s.second.begin(), s.second.end()); } gens.push_back(g); xg::Image& im = g.im; int k = c.below(4); static const int HRIT[4] = {321, 322, 323, 324}; im.scid = HRIT[k]; im.prodid = "MSG" + std::to_string(k + 1); im.sat = xg::pad(im.prodid, 6);
    im.settime(2002 + idx, c.range(1, 12), c.range(1, 28), c.below(24), c.below(60)); im.hdrlon = im.lon = c.pick({0.0f, -3.4f, 9.5f, 41.5f}); for (int i = 0; i < 12; ++i) { im.slope[i] = c.real(0.001, 0.3); im.offset[i] = -51 * im.slope[i]; }
    std::string dir = c.flag() ? "." : pre; if (dir != ".") std::filesystem::create_directory(dir); im.save(dir); s.name = c.flag() ? (dir == "." ? "" : dir + "/") + im.name() : dir + "/" + im.segname(g.im.seg.begin()->first); int n = 0; for (auto& r : g.rows) { if (n++ < 3) s.lines.push_back((r.first - 1) * im.seglines + (r.second ? (int)c.below(r.second) : 0)); }
  } else if (kind <= 4) {
    bool alike = !imgs.empty() && c.flag(); gg::Img im = alike ? imgs[c.below(imgs.size())] : gg::gen(c, false); if (alike) { c.label("alike"); std::reverse(im.raw.begin(), im.raw.end()); std::reverse(im.missing.begin(), im.missing.end()); if (c.flag()) im.time[8] = im.time[8] == '1' ? '0' : '1', im.time[9] = '5'; } imgs.push_back(im); if (kind == 3) im.sat = gg::SATS[c.below(2)]; if (kind >= 2 && im.allmissing()) im.missing[0] = 0; static const char* EXT[] = {"", ".grb", ".nc", ".nc24", ".tif"}; s.name = pre + (c.flag() ? EXT[kind] : c.pick<std::string>({"", ".dat", ".nc", ".grb", ".tif"}));
    if (im.allmissing()) { im.missing[0] = 0; im.raw[0] = im.nd == 1 ? 2 : 1; }
    gg::DS src = im.mem(); GDALDriver* d = GetGDALDriverManager()->GetDriverByName(kind == 4 ? "GTiff" : OURS[kind]); gg::DS r; try { r.reset(d->CreateCopy(s.name.c_str(), src.get(), FALSE, nullptr, nullptr, nullptr)); } catch (std::exception& e) { c.fail(Str() << "an exception leaves the driver: " << e.what()); }
    if (!r) c.discard();
  } else {
    std::string any; switch (c.below(9)) {
      case 0: s.name = "nothere"; break; case 1: s.name = "."; break; case 2: s.name = pre; any = ""; xg::save(s.name, any); break;
      case 3: s.name = pre; { auto b = c.bytes(1 + c.below(400)); xg::save(s.name, std::string(b.begin(), b.end())); } break;
      case 4: s.name = pre; xg::save(s.name, c.pick<std::string>({"GRIB", "GRIB\0\0\0\1", "xxGRIB\xff\xff\xff\x02", "7777GRIB"}) + std::string(c.below(60), 'x')); break;
      case 5: s.name = pre; xg::save(s.name, c.pick<std::string>({"CDF\1", "CDF\2", "\x89HDF\r\n\x1a\n"}) + std::string(c.below(60), '\1')); break;
      case 6: { s.name = pre + ".nc"; int id, dim, v; nc_create(s.name.c_str(), NC_CLOBBER, &id); nc_def_dim(id, "x", 3, &dim); nc_def_var(id, "a", NC_INT, 1, &dim, &v); if (c.flag()) nc_put_att_text(id, NC_GLOBAL, "Conventions", 6, "CF-1.6"); if (c.flag()) nc_put_att_text(id, NC_GLOBAL, "satellite", 4, "MSG1"); nc_enddef(id); nc_close(id); break; }
      case 7: s.name = c.pick<std::string>({"H:MSG1:IR_108:201001010000", "H:MSG1:IR_039r:201001010000", "H-000-MSG1__-MSG1________-IR_108___-000001___-201001010000-__", "H-000-MSG1__-MSG1________-IR_108___-000001___-201001010000-C_", "a:b:c:d", ":::", "::::", "H:::", "-__", "-C_"}); break;
      default: s.name = pre + "/x"; std::filesystem::create_directory(pre); if (c.flag()) xg::save(s.name, "text"); break; }
  }
  return s;
}
// what a process that has never read another image sees
static std::string words(const std::string& f, const std::vector<Win>& w) { std::string r = f; r.push_back('\0'); for (auto& x : w) r.append((const char*)x.v.data(), x.v.size() * sizeof(double)); return r; }
static void put(int fd, const std::string& s) { size_t n = s.size(); if (write(fd, &n, sizeof n) != sizeof n) _exit(1); for (size_t o = 0; o < n;) { ssize_t k = write(fd, s.data() + o, n - o); if (k <= 0) _exit(1); o += k; } }
static bool get(int fd, std::string& s) { size_t n; size_t h = 0; while (h < sizeof n) { ssize_t k = read(fd, (char*)&n + h, sizeof n - h); if (k <= 0) return false; h += k; } s.resize(n); for (size_t o = 0; o < n;) { ssize_t k = read(fd, &s[o], n - o); if (k <= 0) return false; o += k; } return true; }
static int fresh_fd = -1; static pid_t fresh_owner = 0;
static std::string fresh(int kind, const std::string& name, const std::vector<Win>& wins) {
  if (fresh_fd < 0 || fresh_owner != getpid()) return "";
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return ""; std::string q = std::string(cwd) + '\n' + std::to_string(kind) + '\n' + name + '\n'; for (auto& w : wins) q += std::to_string(w.band) + " " + std::to_string(w.x) + " " + std::to_string(w.y) + " " + std::to_string(w.w) + " " + std::to_string(w.h) + "\n";
  put(fresh_fd, q); std::string a; if (!get(fresh_fd, a)) a = "no answer"; return a;
}
static void serve(int fd) {
  std::string q; while (get(fd, q)) {
    int p[2]; if (pipe(p)) _exit(1); pid_t k = fork();
    if (!k) { close(p[0]); std::stringstream i(q); std::string cwd, kind, name; std::getline(i, cwd); std::getline(i, kind); std::getline(i, name); std::vector<Win> wins; Win w; while (i >> w.band >> w.x >> w.y >> w.w >> w.h) wins.push_back(w);
      std::string a = "not opened"; if (!chdir(cwd.c_str())) try { drop(); reg(atoi(kind.c_str())); gg::DS d((GDALDataset*)GDALOpen(name.c_str(), GA_ReadOnly)); if (d) { std::string f = facts(d.get()); bool ok = true; for (auto& x : wins) ok = ok && readwin(d.get(), x, x.v); a = ok ? words(f, wins) : "not read"; } } catch (std::exception& e) { a = e.what(); }
      put(p[1], a); _exit(0); }
    close(p[1]); std::string a; if (!get(p[0], a)) a = "ended early"; close(p[0]); int st; waitpid(k, &st, 0); put(fd, a); }
  _exit(0);
}
static void start_fresh() { if (fresh_owner == getpid()) return; int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s)) return; pid_t k = fork(); if (!k) { close(s[0]); serve(s[1]); } close(s[1]); if (fresh_fd >= 0) close(fresh_fd); fresh_fd = s[0]; fresh_owner = getpid(); }

static void remember(pbt::Ctx& c, Src& s, GDALDataset* d) {
  s.facts = facts(d); s.w = d->GetRasterXSize(); s.h = d->GetRasterYSize(); s.bands = d->GetRasterCount(); PBT_CHECK(c, s.w > 0 && s.h > 0 && s.bands > 0, "an image without pixels");
  for (int k = 0; k < 3; ++k) { Win w; w.band = 1 + c.below(s.bands); w.x = c.below(s.w); w.w = 1 + c.below(std::min(60, s.w - w.x)); w.y = !s.lines.empty() ? std::min(s.h - 1, s.lines[c.below(s.lines.size())]) : (int)c.below(s.h); if (s.w > 100) { w.x = 0; w.w = s.w; } w.h = 1 + c.below(std::min(3, s.h - w.y)); PBT_CHECK(c, readwin(d, w, w.v), "window not read"); s.wins.push_back(w); }
}
PBT_SUB("drivers and data sets together", 700, 25000) {
  start_fresh(); c.dir(); drop(); for (int k : {0, 1, 2, 3, 4, 5}) reg(k); std::vector<Src> src; int n = 1 + c.below(5); for (int i = 0; i < n; ++i) { int k = c.pick({0, 1, 2, 3, 9, 1, 2, 3, 9, 4}); src.push_back(make(c, k, i)); c.label(k == 9 ? "no image" : REGNAMES[k]); }
  // each alone, with no other driver
  for (auto& s : src) { drop(); std::string kinds; if (s.kind == 9) { for (int k = 0; k < 4; ++k) reg(k); gg::DS d = open(c, s.name); PBT_CHECK(c, !d, s.name << " is opened as an image by " << d->GetDriver()->GetDescription()); continue; }
    reg(s.kind); gg::DS d = open(c, s.name); PBT_CHECK(c, d, s.name << " does not open with its driver alone: " << CPLGetLastErrorMsg()); remember(c, s, d.get()); d.reset();
    { std::string a = fresh(s.kind, s.name, s.wins), b = words(s.facts, s.wins); PBT_CHECK(c, a == b, s.name << " is not what a process sees that has opened nothing else: there it is\n" << a.substr(0, a.find('\0')) << "and here\n" << s.facts); }
    for (int k = 0; k < 4; ++k) if (k != s.kind) { drop(); reg(k); gg::DS e = open(c, s.name); PBT_CHECK(c, !e, s.name << " of the driver " << REGNAMES[s.kind] << " is opened by " << e->GetDriver()->GetDescription()); } }
  auto before = files();
  // any history of registrations
  drop(); std::string hist; std::set<int> done; auto doreg = [&](int k) { reg(k); hist += std::string(" ") + REGNAMES[k]; if (k == 7 || k == 8) for (int j = 0; j < 4; ++j) done.insert(j); if (k == 8) for (int j = 4; j < 7; ++j) done.insert(j); done.insert(k); };
  bool full = c.chance(1, 6); if (full) c.label("with the drivers of GDAL"); for (int m = c.below(8); m > 0; --m) doreg(c.below(8)); if (full) doreg(8); for (int m = c.below(4); m > 0; --m) doreg(c.below(full ? 9 : 8)); for (auto& s : src) if (s.kind < 9 && !done.count(s.kind)) doreg(s.kind);
  std::string t = hist + ";"; for (auto& s : src) t += " " + s.name + "(" + (s.kind == 9 ? "no image" : REGNAMES[s.kind]) + ")"; c.describe(t); c.nontrivial();
  auto drivers = [&] { auto m = GetGDALDriverManager(); for (int k = 0; k < 4; ++k) { int have = 0; for (int i = 0; i < m->GetDriverCount(); ++i) if (!strcmp(m->GetDriver(i)->GetDescription(), OURS[k])) ++have; PBT_CHECK(c, have == (int)done.count(k), have << " drivers are called " << OURS[k]);
      if (have) { GDALDriver* d = m->GetDriverByName(OURS[k]); PBT_CHECK(c, d && d->GetMetadataItem(GDAL_DMD_LONGNAME), "no long name"); PBT_CHECK(c, d->pfnOpen && (k == 0 ? !d->pfnCreateCopy : d->pfnCreateCopy != nullptr), "what the driver " << OURS[k] << " can do"); } } }; drivers();
  // data sets open at the same time, read in turns
  struct Open { int s; gg::DS d; }; std::vector<Open> op;
  int steps = 4 + c.below(20);
  for (int i = 0; i < steps; ++i) {
    int k = op.empty() ? 0 : c.below(6);
    if (k <= 1 && op.size() < 6) { int w = c.below(src.size()); Src& s = src[w]; if (full && s.kind == 9) continue; /* other drivers do what they like with it */ c.describe(" open " + s.name); gg::DS d = open(c, s.name);
      if (s.kind == 9) { PBT_CHECK(c, !d || !ours(d.get()), s.name << " is opened as an image by " << d->GetDriver()->GetDescription()); continue; }
      PBT_CHECK(c, d, s.name << " does not open: " << CPLGetLastErrorMsg()); std::string f = facts(d.get()); PBT_CHECK(c, f == s.facts, s.name << " is now\n" << f << "instead of\n" << s.facts); op.push_back({w, std::move(d)}); }
    else if (k == 5) { int w = c.below(op.size()); c.describe(" close " + src[op[w].s].name); op.erase(op.begin() + w); }
    else if (k == 4 && c.chance(1, 3)) { int r = c.below(8); doreg(r); c.describe(std::string(" register ") + REGNAMES[r]); drivers(); }
    else if (!op.empty()) { Open& o = op[c.below(op.size())]; Src& s = src[o.s]; Win& w = s.wins[c.below(s.wins.size())]; c.describe(" read " + s.name); std::vector<double> v; PBT_CHECK(c, readwin(o.d.get(), w, v), s.name << " cannot be read");
      for (size_t j = 0; j < v.size(); ++j) if (!same(v[j], w.v[j])) c.fail(Str() << "pixel " << w.x + j % w.w << "," << w.y + j / w.w << " of " << s.name << " is " << v[j] << " instead of " << w.v[j]); }
  }
  if (op.size() > 1) c.label("several open at the end");
  while (!op.empty()) { int w = c.below(op.size()); for (auto& o : op) { Src& s = src[o.s]; std::vector<double> v; PBT_CHECK(c, readwin(o.d.get(), s.wins[0], v) , s.name << " cannot be read"); for (size_t j = 0; j < v.size(); ++j) PBT_CHECK(c, same(v[j], s.wins[0].v[j]), "pixel of " << s.name << " after another data set was closed"); } op.erase(op.begin() + w); }
  { auto now = files(); for (auto& f : now) PBT_CHECK(c, before.count(f.first), "reading made the file " << f.first); for (auto& f : before) PBT_CHECK(c, now.count(f.first) && now[f.first] == f.second, "reading changed the file " << f.first); }
}

PBT_SUB("registrations", 150, 5000) {
  c.dir(); drop(); for (int k : {0, 1, 2, 3, 4, 5}) reg(k); std::vector<Src> src; for (int i = 0; i < 2; ++i) { Src s = make(c, c.below(4), i); drop(); reg(s.kind); gg::DS d = open(c, s.name); if (!d) c.discard(); remember(c, s, d.get()); src.push_back(s); d.reset(); drop(); for (int k : {0, 1, 2, 3, 4, 5}) reg(k); }
  drop(); std::set<int> done; std::string hist; c.nontrivial(); int m = 1 + c.below(8);
  for (int i = 0; i < m; ++i) { int r = c.below(10); reg(r); hist += std::string(" ") + REGNAMES[r]; c.label(REGNAMES[r]); if (r == 7 || r == 8) for (int j = 0; j < 4; ++j) done.insert(j); if (r < 4) done.insert(r);
    auto man = GetGDALDriverManager(); for (int k = 0; k < 4; ++k) { int have = 0; for (int j = 0; j < man->GetDriverCount(); ++j) if (!strcmp(man->GetDriver(j)->GetDescription(), OURS[k])) ++have; PBT_CHECK(c, have == (int)done.count(k), "after registering" << hist << " there are " << have << " drivers called " << OURS[k]); }
    std::set<std::string> names; for (int j = 0; j < man->GetDriverCount(); ++j) PBT_CHECK(c, names.insert(man->GetDriver(j)->GetDescription()).second, "after registering" << hist << " the driver " << man->GetDriver(j)->GetDescription() << " is there twice"); }
  c.describe(hist); const char* only[] = {OURS[0], OURS[1], OURS[2], OURS[3], nullptr};
  for (auto& s : src) { gg::DS d((GDALDataset*)GDALOpenEx(s.name.c_str(), GDAL_OF_RASTER, only, nullptr, nullptr)); PBT_CHECK(c, !!d == (done.count(s.kind) > 0), "after registering" << hist << " an image of the driver " << OURS[s.kind] << (d ? " is opened" : " is not opened")); if (!d) continue; std::string f = facts(d.get()); PBT_CHECK(c, f == s.facts, "after registering" << hist << " " << s.name << " is\n" << f << "instead of\n" << s.facts); std::vector<double> v; PBT_CHECK(c, readwin(d.get(), s.wins[0], v), "not read"); for (size_t j = 0; j < v.size(); ++j) PBT_CHECK(c, same(v[j], s.wins[0].v[j]), "pixel of " << s.name << " after registering" << hist); }
  // the drivers of this library come before those of GDAL when all are registered at once
  drop(); if (c.flag()) reg(7); reg(8); auto man = GetGDALDriverManager(); int last = -1, first = man->GetDriverCount(); for (int j = 0; j < man->GetDriverCount(); ++j) { std::string n = man->GetDriver(j)->GetDescription(); bool o = false; for (auto k : OURS) o = o || n == k; if (o) last = std::max(last, j); if (n == "GRIB" || n == "netCDF") first = std::min(first, j); } PBT_CHECK(c, last < first, "GDAL's own driver for the same files comes first");
}

PBT_MAIN("P30", "generated images of the four formats, files that are no images, a history of registrations, and data sets opened, read and closed in turns; every case is non-trivial")
