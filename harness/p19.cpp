// P19: the conversion tool and its grey images
#include "gdalgen.h"
#include "geosmodel.h"
#include "xritmodel.h"
#include "tool.h"
#include <gdal/grib/grib.h>
#include <gdal/xrit/xrit.h>
#include <dirent.h>
#include <sys/stat.h>
#include <iomanip>
#include "image.h"
#include <Magick++.h>
using pbt::Str;
static int dummy = (pbt::init_hook() = [] { CPLSetErrorHandler(gg::quiet); GDALRegister_MsatXRIT(); GDALRegister_MsatGRIB(); GDALAllRegister(); Magick::InitializeMagick(nullptr); }, 0);

// ---- grey images ----
static std::vector<int> greys(pbt::Ctx& c, const std::string& file, int w, int h) {
  try {
    Magick::Image i(file);
    PBT_CHECK(c, (int)i.columns() == w && (int)i.rows() == h, file << " is " << i.columns() << "x" << i.rows() << " instead of " << w << "x" << h);
    std::vector<uint8_t> b((size_t)w * h * 3); i.write(0, 0, w, h, "RGB", Magick::CharPixel, b.data());
    std::vector<int> r; for (size_t k = 0; k < b.size(); k += 3) { PBT_CHECK(c, b[k] == b[k + 1] && b[k] == b[k + 2], "a coloured pixel"); r.push_back(b[k]); }
    return r;
  } catch (Magick::Exception& e) { c.fail(Str() << file << " cannot be read: " << e.what()); }
}
// missing[i]: the pixel does not count. limits: given, or taken from the pixels
static void checkgrey(pbt::Ctx& c, const std::string& what, const std::vector<double>& v, const std::vector<char>& missing, bool given, double lo, double hi, const std::vector<int>& g, int w) {
  bool any = false;
  if (!given) for (size_t i = 0; i < v.size(); ++i) if (!missing[i]) { if (!any) lo = hi = v[i]; any = true; lo = std::min(lo, v[i]); hi = std::max(hi, v[i]); }
  if (!given && !any) return;
  std::vector<std::pair<double, int>> order;
  for (size_t i = 0; i < v.size(); ++i) {
    if (missing[i]) continue;
    order.push_back({v[i], g[i]});
    if (lo == hi) continue;
    double e = v[i] <= lo ? 0 : v[i] >= hi ? 255 : 255 * ((v[i] - lo) / (hi - lo));
    double tol = v[i] <= lo || v[i] >= hi ? 0 : 1.0;
    if (fabs(g[i] - e) > tol + 1e-3) c.fail(Str() << what << ": pixel " << i % w << "," << i / w << " of value " << std::setprecision(12) << v[i] << " between " << lo << " and " << hi << " is grey " << g[i] << " instead of " << e);
  }
  std::sort(order.begin(), order.end());
  for (size_t i = 1; i < order.size(); ++i) {
    if (order[i].second < order[i - 1].second) c.fail(Str() << what << ": value " << order[i].first << " is darker than value " << order[i - 1].first);
    if (order[i].first == order[i - 1].first && order[i].second != order[i - 1].second) c.fail(Str() << what << ": value " << order[i].first << " has two greys, " << order[i - 1].second << " and " << order[i].second);
  }
}

PBT_SUB("grey images", 3000, 100000) {
  int w = 1 + c.below(30), h = 1 + c.below(30); size_t n = (size_t)w * h;
  GDALDataType t = c.pick({GDT_Byte, GDT_UInt16, GDT_Float32, GDT_Int16, GDT_Int32, GDT_UInt32, GDT_Float64});
  bool fl = t == GDT_Float32 || t == GDT_Float64;
  double tlo = t == GDT_Byte || t == GDT_UInt16 || t == GDT_UInt32 ? 0 : t == GDT_Int16 ? -32768 : t == GDT_Int32 ? -2147483648.0 : -1e6;
  double thi = t == GDT_Byte ? 255 : t == GDT_UInt16 ? 65535 : t == GDT_Int16 ? 32767 : t == GDT_Int32 ? 2147483647.0 : t == GDT_UInt32 ? 4294967295.0 : 1e6;
  double lo, hi;
  switch (c.below(5)) {
    case 0: lo = tlo; hi = thi; break;
    case 1: lo = hi = c.real(tlo, thi); c.label("constant"); break;
    case 2: lo = c.real(tlo, thi); hi = std::min(thi, lo + c.pick({1.0, 2.0, 3.0, 10.0, 100.0})); break; // few values
    case 3: lo = std::max(tlo, fl ? 180.0 : 0.0); hi = std::min(thi, lo + c.pick({150.0, 1023.0})); break;
    default: lo = c.real(tlo, thi); hi = c.real(lo, thi);
  }
  bool nodata = c.flag(); double nd = fl ? c.pick({0.0, -9999.0, (double)(float)1e20, 200.0, (double)NAN}) : c.pick({0.0, 255.0, 7.0, std::floor(lo), std::floor(hi)});
  if (!fl && (nd < tlo || nd > thi)) nd = 0;
  unsigned mf = nodata ? c.pick({0, 1, 8, 31, 32}) : 0;
  auto noise = c.bytes(n * 5);
  std::vector<double> v(n); std::vector<char> miss(n, 0);
  for (size_t i = 0; i < n; ++i) {
    uint32_t r; memcpy(&r, &noise[i * 4], 4); double u = r / 4294967295.0;
    if ((noise[4 * n + i] & 7) == 0) u = 0; else if ((noise[4 * n + i] & 7) == 1) u = 1;
    double x = lo + (hi - lo) * u; if (!fl) x = nearbyint(x); else if (t == GDT_Float32) x = (float)x;
    if ((noise[4 * n + i] >> 3) < mf) x = nd;
    v[i] = x; miss[i] = (nodata && (x == nd || (std::isnan(nd) && std::isnan(x))));
  }
  if (fl && c.chance(1, 6)) { int k = 1 + c.below(3); while (k--) { size_t i = c.below(n); v[i] = NAN; miss[i] = 1; } c.label("not a number"); }
  msat::Stretch s; bool given = c.chance(1, 3); double slo = 0, shi = 0;
  if (given) {
    slo = lo + (hi - lo) * c.real(-0.3, 0.8); if (c.flag()) slo = nearbyint(slo); if (c.chance(1, 4)) slo = 0;
    shi = slo + std::max(1.0, (hi - lo) * c.real(0.1, 1.5)); if (c.flag()) shi = nearbyint(shi);
    if (c.chance(1, 6)) { slo = c.pick({-10.0, 0.0, 100.0}); shi = c.pick({300.0, 1000.0, 70000.0}); }
    s.min = slo; s.max = shi; s.compute = false;
  }
  c.describe(Str() << w << "x" << h << " " << GDALGetDataTypeName(t) << " values " << lo << " to " << hi << ", missing " << (nodata ? std::to_string(nd) : "none") << (given ? " stretch " + std::to_string(slo) + ":" + std::to_string(shi) : std::string()));
  size_t valid = std::count(miss.begin(), miss.end(), 0);
  if (valid > 1 && lo != hi) c.nontrivial();
  c.label(GDALGetDataTypeName(t)); if (given) c.label("given limits");
  gg::DS d(gg::mem()->Create("", w, h, 1, t, nullptr)); GDALRasterBand* b = d->GetRasterBand(1);
  if (b->RasterIO(GF_Write, 0, 0, w, h, v.data(), w, h, GDT_Float64, 0, 0, nullptr) != CE_None) throw std::runtime_error("harness: write");
  if (nodata) b->SetNoDataValue(nd);
  c.dir(); std::string f = c.flag() ? "grey.pgm" : "grey.png";
  bool ok; try { ok = msat::export_image(b, f, s); } catch (std::exception& e) { c.fail(Str() << "not exported: " << e.what()); }
  PBT_CHECK(c, ok, "not exported");
  checkgrey(c, "image", v, miss, given, slo, shi, greys(c, f, w, h), w);
}

// ---- the tool ----
struct Cwd { std::string old; Cwd(const std::string& d) { char b[4096]; if (!getcwd(b, sizeof b)) throw std::runtime_error("harness: cwd"); old = b; mkdir(d.c_str(), 0700); if (chdir(d.c_str())) throw std::runtime_error("harness: chdir"); } ~Cwd() { if (chdir(old.c_str())) abort(); } };
static std::map<std::string, std::string> files(const std::string& d) { // with their content
  std::map<std::string, std::string> r; DIR* p = opendir(d.c_str()); if (!p) return r;
  while (dirent* e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == ".." || n == "tool.out" || n == "tool.err") continue; struct stat st; if (stat((d + "/" + n).c_str(), &st) == 0 && S_ISREG(st.st_mode)) r[n] = slurp(d + "/" + n); else r[n] = "(not a file)"; }
  closedir(p); return r;
}
static std::string names(const std::map<std::string, std::string>& m) { std::string r; for (auto& k : m) r += (r.empty() ? "" : " ") + k.first; return r.empty() ? "(none)" : r; }

struct In { std::string file; gg::Img im; std::vector<gg::Img> b; bool meta = true; }; // a band per element, same geometry
static In gin(pbt::Ctx& c, bool small = true) {
  In r; r.im = gg::gen(c, false);
  if (r.im.type == GDT_Float32 && r.im.nd == (float)1e20) r.im.nd = -9999, r.im.fix();
  int n = c.chance(1, 2) ? 1 : 1 + c.below(3);
  for (int i = 0; i < n; ++i) {
    gg::Img m = r.im;
    if (i) { m.ch = gg::CHANS[(r.im.ch.id - 1 + i * 5) % 12]; size_t k = m.raw.size(), sh = i * 7 % k; std::rotate(m.raw.begin(), m.raw.begin() + sh, m.raw.end()); std::rotate(m.missing.begin(), m.missing.begin() + sh, m.missing.end()); }
    r.b.push_back(m);
  }
  r.meta = !c.chance(1, 10);
  return r;
}
static void save(In& in, const std::string& f) {
  in.file = f; const gg::Img& im = in.im;
  gg::DS d(gg::mem()->Create("", im.w, im.h, in.b.size(), im.type, nullptr));
  im.dress(d.get()); if (!in.meta) d->SetMetadata(nullptr);
  for (size_t i = 0; i < in.b.size(); ++i) {
    GDALRasterBand* b = d->GetRasterBand(i + 1); in.b[i].dressband(b);
    if (b->RasterIO(GF_Write, 0, 0, im.w, im.h, (void*)in.b[i].raw.data(), im.w, im.h, GDT_Float64, 0, 0, nullptr) != CE_None) throw std::runtime_error("harness: write");
  }
  gg::DS o(GetGDALDriverManager()->GetDriverByName("GTiff")->CreateCopy(f.c_str(), d.get(), TRUE, nullptr, nullptr, nullptr));
  if (!o) throw std::runtime_error(std::string("harness: cannot save the input: ") + CPLGetLastErrorMsg());
}
static std::string base(const In& md, int band) { // band: -1 for the whole
  std::string s = md.meta ? (std::string)md.im.sat.name + "_Seviri_" : std::string("unknown_unknown_");
  if (band >= 0) s += (std::string)(md.meta ? "1_5_" : "") + md.b[band].ch.name + "_";
  if (md.meta) { std::string t = md.im.time.substr(0, 16); for (char ch : t) if (ch == ' ') s += '_'; else if (ch != '-' && ch != ':') s += ch; }
  return s;
}
static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.9f", v); return b; }

// an area in degrees: the places of two corners. false: cannot be told
static bool degrees(pbt::Ctx& c, const gg::Img& im, bool around, std::string& arg, int* win, bool& inside) {
  double la[2], lo[2], m; 
  for (int k = 0; k < 2; ++k) {
    double x = im.gt[0] + im.gt[1] * c.real(0.05, im.w - 0.05), y = im.gt[3] + im.gt[5] * c.real(0.05, im.h - 0.05);
    if (!geosm::inverse(x, y, im.lon, la[k], lo[k], m) || m < 1e-3) return false;
  }
  if (la[0] > la[1]) std::swap(la[0], la[1]); if (lo[0] > lo[1]) std::swap(lo[0], lo[1]);
  if (lo[1] - lo[0] > 90 || lo[1] > 180 || lo[0] < -180) return false;
  if (around) { double h = la[1] - la[0], w = lo[1] - lo[0], cy = (la[0] + la[1]) / 2, cx = (lo[0] + lo[1]) / 2; arg = "--around=" + num(cy) + "," + num(cx) + "," + num(h) + "," + num(w); }
  else arg = "--Area=" + num(la[0]) + "," + num(la[1]) + "," + num(lo[0]) + "," + num(lo[1]);
  int x0 = 1 << 30, x1 = -(1 << 30), y0 = 1 << 30, y1 = -(1 << 30);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
    double X, Y, vis; geosm::forward(la[i], lo[j], im.lon, X, Y, vis); if (vis < 0.02) return false;
    double px = (X - im.gt[0]) / im.gt[1], py = (Y - im.gt[3]) / im.gt[5];
    for (double p : {px, py}) if (fabs(p - floor(p) - 0.5) < 2e-3) return false; // on the edge between two roundings
    int ix = lrint(px), iy = lrint(py);
    x0 = std::min(x0, ix); x1 = std::max(x1, ix); y0 = std::min(y0, iy); y1 = std::max(y1, iy);
  }
  win[0] = x0; win[1] = y0; win[2] = x1 - x0; win[3] = y1 - y0;
  inside = x0 >= 0 && y0 >= 0 && x1 <= im.w && y1 <= im.h && win[2] > 0 && win[3] > 0;
  return true;
}
struct Opt { std::vector<std::string> a; std::string act; int win[4]; bool inside = true; int ox, oy; bool resized = false; std::vector<int> bands; bool calib = false; bool window = false; double smin = 0, smax = 0; bool stretch = false; };
static Opt gopt(pbt::Ctx& c, const In& in, bool images) {
  Opt o; const gg::Img& im = in.im;
  o.win[0] = o.win[1] = 0; o.win[2] = im.w; o.win[3] = im.h;
  switch (c.below(6)) {
    case 0: case 1: break;
    case 2: { bool ar = c.flag(); std::string a; int w[4]; bool ins; if (degrees(c, im, ar, a, w, ins)) { memcpy(o.win, w, sizeof w); o.inside = ins; o.a.push_back(a); o.window = true; c.label(ar ? "around" : "Area"); } break; }
    default: o.win[2] = 1 + c.below(im.w); o.win[3] = 1 + c.below(im.h); o.win[0] = c.below(im.w - o.win[2] + 1); o.win[1] = c.below(im.h - o.win[3] + 1);
      o.a.push_back(Str() << "--area=" << o.win[0] << "," << o.win[2] << "," << o.win[1] << "," << o.win[3]); o.window = true; c.label("area");
  }
  o.ox = o.win[2]; o.oy = o.win[3];
  if (c.chance(1, 5)) {
    o.resized = true; c.label("resize");
    if (c.flag()) { o.ox = 1 + c.below(40); o.oy = 1 + c.below(40); o.a.push_back(Str() << "--resize=" << o.ox << "," << o.oy); }
    else { int p = c.pick({100, 200, 300, 50}), q = c.pick({100, 200, 400}); o.ox = p * o.win[2] / 100; o.oy = q * o.win[3] / 100; if (!o.ox || !o.oy) o.inside = false; o.a.push_back(Str() << "--resize=" << p << "%," << q << "%"); }
  }
  for (size_t i = 0; i < in.b.size(); ++i) o.bands.push_back(i);
  if (c.chance(1, 3)) {
    o.bands.clear(); int n = 1 + c.below(in.b.size()); c.label("bands");
    for (int i = 0; i < n; ++i) { int k = c.below(in.b.size()); o.bands.push_back(k); o.a.push_back("-b"); o.a.push_back(c.flag() ? std::to_string(k + 1) : c.flag() ? std::string(in.b[k].ch.name) : std::string("!") + in.b[k].ch.name); }
    if (c.chance(1, 4)) { o.a.push_back("--band=!nothing"); }
  }
  if (c.chance(1, 5)) { o.calib = true; o.a.push_back("--force-calibration"); c.label("calibrated"); }
  if (c.chance(1, 6)) o.a.push_back("-q");
  o.act = images ? c.pick<std::string>({"--png", "--jpg", "--png"}) : c.pick<std::string>({"-cGTiff", "--conv=GTiff", "--conv=MsatGRIB", "--view", "--viewmore", "", "--conv=GTiff", "--png", "--png"});
  if (!o.act.empty()) o.a.insert(o.a.begin() + c.below(o.a.size() + 1 > 1 && (o.a.size() && o.a[0] == "-b") ? 1 : 1), o.act);
  if ((o.act == "--png" || o.act == "--jpg") && c.chance(1, 3)) {
    o.stretch = true; o.smin = c.pick({0.0, 10.0, 200.0, 0.25, 180.75, -1.5}); o.smax = c.pick({250.0, 300.0, 1000.0, 200.5, 273.15});
    if (c.flag()) { // among the values
      double lo = 1e300, hi = -1e300; const gg::Img& b = in.b[o.bands[0]]; for (size_t i = 0; i < b.raw.size(); ++i) if (!b.missing[i]) { lo = std::min(lo, b.raw[i]); hi = std::max(hi, b.raw[i]); }
      if (lo < hi) { o.smin = lo > 0 && c.flag() ? 0 : std::round((lo + (hi - lo) * c.real(0, 0.4)) * 1024) / 1024; o.smax = std::round((o.smin + (hi - o.smin) * c.real(0.2, 0.9)) * 1024) / 1024; if (o.smax <= o.smin) o.smax = o.smin + 0.75; }
    }
    o.a.push_back(o.smin == 0 && c.flag() ? "--stretch=" + num(o.smax) : "--stretch=" + num(o.smin) + ":" + num(o.smax)); c.label("stretch");
  }
  return o;
}
static double pixel(const In& in, const Opt& o, int band, int x, int y, bool& missing) {
  const gg::Img& m = in.b[band]; size_t i = (size_t)(o.win[1] + y) * m.w + o.win[0] + x; missing = m.nodata && m.missing[i];
  return o.calib && m.type == GDT_UInt16 ? (float)(m.raw[i] * m.scale + m.offset) : m.raw[i];
}
static bool near(double a, double b) { return fabs(a - b) <= 1e-5 * (fabs(a) + fabs(b)) + 1e-9; }

PBT_SUB("single images", 500, 12000) {
  c.dir(); mkdir("in", 0700);
  In in = gin(c); save(in, "in/a.tif");
  Opt o = gopt(c, in, false);
  In md = in; bool copymd = c.chance(1, 5);
  if (copymd) { md = gin(c); save(md, "in/md.tif"); o.a.push_back("--copymd=../in/md.tif"); c.label("copymd"); }
  c.describe(Str() << in.im.text() << ", " << in.b.size() << " bands:" << args(o.a));
  c.label(o.act.empty() ? "(view)" : o.act);
  auto before = files("in");
  std::vector<std::string> a = o.a; a.push_back("../in/a.tif");
  ToolRun r; std::map<std::string, std::string> out;
  { Cwd d("out"); r = runtool("msat", a); } out = files("out");
  PBT_CHECK(c, !r.crashed, "the tool " << why(r));
  auto after = files("in");
  if (o.act == "--viewmore") for (auto& k : std::map<std::string, std::string>(after)) if (k.first.find(".aux.xml") != std::string::npos) after.erase(k.first); // the statistics are kept
  PBT_CHECK(c, after == before, "the input is changed, now there are " << names(after) << " instead of " << names(before));
  if (!o.inside) { PBT_CHECK(c, r.status != 0 && !r.err.empty(), "an area outside the image is not reported"); PBT_CHECK(c, out.empty(), "an area outside the image gives " << names(out)); c.label("outside"); return; }
  bool grib = o.act == "--conv=MsatGRIB";
  if (grib && r.status != 0) { c.label("not for GRIB"); return; } // what this format takes is another property
  c.nontrivial();
  PBT_CHECK(c, r.status == 0, "the tool " << why(r));
  // which metadata the result carries
  In res = in; res.b.clear(); for (int k : o.bands) res.b.push_back(in.b[k]);
  In id = res; if (copymd) { id.im.sat = md.im.sat; id.im.time = md.im.time; id.meta = md.meta; for (size_t i = 0; i < id.b.size() && i < md.b.size(); ++i) id.b[i].ch = md.b[i].ch; }
  if (o.act.find("conv") != std::string::npos || o.act.find("-c") == 0) {
    std::string want = base(id, id.b.size() == 1 ? 0 : -1) + (grib ? ".grb" : ".tif");
    if (grib) { PBT_CHECK(c, out.size() == 1 && out.begin()->first.compare(0, want.size() - 4, want, 0, want.size() - 4) == 0, "files " << names(out) << " instead of " << want); return; }
    out.erase(want + ".aux.xml");
    PBT_CHECK(c, out.size() == 1 && out.count(want), "files " << names(out) << " instead of " << want);
    gg::DS d((GDALDataset*)GDALOpen(("out/" + want).c_str(), GA_ReadOnly));
    PBT_CHECK(c, d, want << " cannot be opened");
    PBT_CHECK(c, d->GetRasterXSize() == o.ox && d->GetRasterYSize() == o.oy && d->GetRasterCount() == (int)res.b.size(), "an image of " << d->GetRasterXSize() << "x" << d->GetRasterYSize() << " with " << d->GetRasterCount() << " bands instead of " << o.ox << "x" << o.oy << " with " << res.b.size());
    double gt[6]; PBT_CHECK(c, d->GetGeoTransform(gt) == CE_None, "no georeferencing");
    double w[6] = {in.im.gt[0] + o.win[0] * in.im.gt[1], in.im.gt[1] * o.win[2] / o.ox, 0, in.im.gt[3] + o.win[1] * in.im.gt[5], 0, in.im.gt[5] * o.win[3] / o.oy};
    for (int i = 0; i < 6; ++i) PBT_CHECK(c, fabs(gt[i] - w[i]) < 1e-3, "georeferencing element " << i << " is " << gt[i] << " instead of " << w[i]);
    if (id.meta) PBT_CHECK(c, gg::meta(d.get(), "MSAT_DATETIME") == id.im.time && gg::meta(d.get(), "MSAT_SPACECRAFT") == id.im.sat.name && gg::meta(d.get(), "MSAT_SPACECRAFTID") == std::to_string(id.im.sat.wmo), "identity " << gg::meta(d.get(), "MSAT_SPACECRAFT") << " " << gg::meta(d.get(), "MSAT_DATETIME") << " instead of " << id.im.sat.name << " " << id.im.time);
    for (size_t i = 0; i < res.b.size(); ++i) {
      GDALRasterBand* b = d->GetRasterBand(i + 1); bool cal = o.calib && in.im.type == GDT_UInt16;
      PBT_CHECK(c, gg::meta(b, "MSAT_CHANNEL") == id.b[i].ch.name && std::string(b->GetDescription()) == id.b[i].ch.name, "band " << i + 1 << " is " << b->GetDescription() << " instead of " << id.b[i].ch.name);
      PBT_CHECK(c, b->GetRasterDataType() == (cal ? GDT_Float32 : in.im.type), "band " << i + 1 << " has type " << GDALGetDataTypeName(b->GetRasterDataType()));
      PBT_CHECK(c, near(b->GetScale(), cal || !in.im.scaled ? 1 : res.b[i].scale) && near(b->GetOffset(), cal || !in.im.scaled ? 0 : res.b[i].offset), "band " << i + 1 << " has calibration " << b->GetScale() << " " << b->GetOffset());
      if (o.ox != o.win[2] || o.oy != o.win[3]) continue;
      std::vector<double> v((size_t)o.ox * o.oy); PBT_CHECK(c, b->RasterIO(GF_Read, 0, 0, o.ox, o.oy, v.data(), o.ox, o.oy, GDT_Float64, 0, 0, nullptr) == CE_None, "pixels cannot be read");
      int has; double nd = b->GetNoDataValue(&has);
      for (int y = 0; y < o.oy; ++y) for (int x = 0; x < o.ox; ++x) {
        bool miss; double e = pixel(in, o, o.bands[i], x, y, miss), g = v[(size_t)y * o.ox + x];
        if (miss) { if (!has || g != nd) c.fail(Str() << "missing pixel " << x << "," << y << " of band " << i + 1 << " is " << g << ", the missing value " << nd); }
        else if (cal ? !near(g, e) : g != e) c.fail(Str() << "pixel " << x << "," << y << " of band " << i + 1 << " is " << g << " instead of " << e);
      }
    }
  } else if (o.act == "--png") {
    std::set<std::string> want; for (size_t i = 0; i < id.b.size(); ++i) want.insert(base(id, i) + ".png");
    std::set<std::string> got; for (auto& k : out) got.insert(k.first);
    PBT_CHECK(c, got == want, "files " << names(out) << " instead of " << want.size() << " like " << *want.begin());
    if (o.ox != o.win[2] || o.oy != o.win[3]) { for (auto& n : want) greys(c, "out/" + n, o.ox, o.oy); return; }
    for (size_t i = 0; i < id.b.size(); ++i) {
      bool later = false; for (size_t j = i + 1; j < id.b.size(); ++j) if (base(id, j) == base(id, i)) later = true; if (later) continue; // written over
      std::vector<double> v; std::vector<char> m;
      for (int y = 0; y < o.oy; ++y) for (int x = 0; x < o.ox; ++x) { bool miss; v.push_back(pixel(in, o, o.bands[i], x, y, miss)); m.push_back(miss); }
      bool cal = o.calib && in.im.type == GDT_UInt16;
      if (cal) { double lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end()); if (hi - lo < 1e-3 * fabs(hi)) continue; }
      checkgrey(c, base(id, i), v, m, o.stretch, o.smin, o.smax, greys(c, "out/" + base(id, i) + ".png", o.ox, o.oy), o.ox);
    }
  } else { // view
    PBT_CHECK(c, out.empty(), "viewing leaves " << names(out));
    std::ostringstream e; std::vector<std::string> lines;
    auto line = [&] { lines.push_back(e.str()); e.str(""); };
    e << "Size: " << o.ox << "x" << o.oy; line();
    double gt[6] = {in.im.gt[0] + o.win[0] * in.im.gt[1], in.im.gt[1] * o.win[2] / o.ox, 0, in.im.gt[3] + o.win[1] * in.im.gt[5], 0, in.im.gt[5] * o.win[3] / o.oy};
    { size_t k = r.out.find("Geotransform matrix:"); double g[6]; PBT_CHECK(c, k != std::string::npos && sscanf(r.out.c_str() + k + 20, " %lf, %lf, %lf %lf, %lf, %lf", g, g + 1, g + 2, g + 3, g + 4, g + 5) == 6, "no georeferencing in the view:\n" << r.out);
      for (int i = 0; i < 6; ++i) PBT_CHECK(c, near(g[i], gt[i]), "georeferencing element " << i << " is shown as " << g[i] << " instead of " << gt[i]); }
    if (id.meta) { e << "  MSAT_DATETIME=" << id.im.time; line(); }
    for (size_t i = 0; i < res.b.size(); ++i) {
      const gg::Img& b = res.b[i]; bool cal = o.calib && in.im.type == GDT_UInt16, sc = in.im.scaled && !cal;
      e << "Raster band " << i + 1 << "/" << res.b.size() << ": " << id.b[i].ch.name; line();
      e << "  Size: " << o.ox << "x" << o.oy; line();
      e << "  Type: GDT_" << GDALGetDataTypeName(cal ? GDT_Float32 : in.im.type); line();
      e << "  Offset: " << (sc ? b.offset : 0); line(); e << "  Scale: " << (sc ? b.scale : 1); line(); e << "  Unit: " << gg::unit(b.ch.id); line();
      e << "    MSAT_CHANNEL=" << id.b[i].ch.name; line();
      if (o.act == "--viewmore" && o.ox == o.win[2] && o.oy == o.win[3]) {
        double lo = 1e300, hi = -1e300; int valid = 0; for (int y = 0; y < o.oy; ++y) for (int x = 0; x < o.ox; ++x) { bool miss; double v = pixel(in, o, o.bands[i], x, y, miss); if (miss) continue; ++valid; lo = std::min(lo, v); hi = std::max(hi, v); }
        // GDAL 3.8 finds no valid pixel in a VRT with a single one
        if (lo <= hi && !cal && !(copymd && valid == 1)) { e << "  Pixel range: min " << lo << " max " << hi << " mean "; line(); }
      }
    }
    size_t p = 0;
    for (auto& l : lines) { size_t k = r.out.find(l, p); PBT_CHECK(c, k != std::string::npos && (k == 0 || r.out[k - 1] == '\n'), "the view has no '" << l << "' in its place:\n" << r.out); p = k + l.size(); }
  }
}

// a list of inputs gives what each of them gives alone
PBT_SUB("lists", 160, 4000) {
  c.dir(); mkdir("in", 0700);
  int n = 2 + c.below(3); std::vector<std::string> in; std::string d; In first; bool big = false, whole = false;
  for (int i = 0; i < n; ++i) {
    std::string f = Str() << "in/i" << i << ".tif"; int kind = c.below(10);
    if (kind == 0 && i) { // a transmission image
      std::string dir = Str() << "in/x" << i; mkdir(dir.c_str(), 0700);
      Gen g = gen(c, false); g.im.settime(c.range(2002, 2040), c.range(1, 12), c.range(1, 28), c.below(24), c.below(60)); g.im.save(dir); in.push_back("../" + dir + "/" + g.im.name()); d += " " + g.im.name(); c.label("transmission image"); whole = true; continue;
    }
    In x = gin(c);
    if (kind == 1) { // larger than what is shown at once
      x.b.resize(1); gg::Img& m = x.b[0]; int W = c.pick({1281, 1300, 1900, 2600}), H = c.pick({1, 2, 5}); if (c.flag()) std::swap(W, H);
      x.im.w = m.w = W; x.im.h = m.h = H; std::vector<double> raw(W * H); for (size_t k = 0; k < raw.size(); ++k) raw[k] = m.raw[k % m.raw.size()]; m.raw = x.im.raw = raw; m.missing.assign(raw.size(), 0); m.nodata = x.im.nodata = false; x.im.missing = m.missing; big = true; c.label("large");
    } else if (kind == 2) { for (size_t k = 0; k < x.b.size(); ++k) x.b[k].ch = gg::CHANS[(k + 3) % 12]; x.im.time = "2020-02-29 10:15:00"; x.im.sat = gg::SATS[1]; } // names that meet
    save(x, f); in.push_back("../" + f); d += " " + x.im.text(); if (first.b.empty()) first = x;
  }
  Opt o = first.b.empty() ? Opt() : gopt(c, first, c.chance(1, 3));
  if (whole && o.resized) c.discard(); // hundreds of megabytes
  if (c.chance(1, 6)) in.insert(in.begin() + c.below(in.size() + 1), "../in/absent.tif");
  c.describe(args(o.a) + " on" + d);
  std::vector<ToolRun> r; std::vector<std::map<std::string, std::string>> got;
  for (size_t i = 0; i < in.size(); ++i) {
    std::string dir = "one" + std::to_string(i); auto a = o.a; a.push_back(in[i]);
    { Cwd w(dir); r.push_back(runtool("msat", a)); } got.push_back(files(dir));
    PBT_CHECK(c, !r[i].crashed, "the tool alone on " << in[i] << " " << why(r[i]));
  }
  auto a = o.a; for (auto& x : in) a.push_back(x);
  ToolRun all; { Cwd w("all"); all = runtool("msat", a); } auto out = files("all");
  PBT_CHECK(c, !all.crashed, "the tool " << why(all));
  size_t bad = in.size(); for (size_t i = 0; i < in.size(); ++i) if (r[i].status != 0) { bad = i; break; }
  if (bad < in.size()) { c.label("with a failing input"); PBT_CHECK(c, all.status != 0, "input " << in[bad] << " fails alone, but in the list no failure is reported"); }
  else PBT_CHECK(c, all.status == 0, "every input works alone, but the list " << why(all));
  if (bad > 1) c.nontrivial();
  std::map<std::string, std::set<std::string>> may; std::map<std::string, std::string> last;
  for (size_t i = 0; i < in.size(); ++i) for (auto& k : got[i]) { may[k.first].insert(k.second); if (i < bad) last[k.first] = k.second; }
  for (auto& k : last) {
    PBT_CHECK(c, out.count(k.first), "the list does not give " << k.first << ", only " << names(out));
    if (bad == in.size()) PBT_CHECK(c, out[k.first] == k.second, k.first << " differs from the one of the input alone");
  }
  for (auto& k : out) PBT_CHECK(c, may.count(k.first) && may[k.first].count(k.second), k.first << (may.count(k.first) ? " differs from the one of the input alone" : " comes from no input"));
  if (o.act.empty() || o.act.find("view") != std::string::npos) { std::string cat; for (size_t i = 0; i < bad; ++i) cat += r[i].out;
    if (o.act != "--viewmore") PBT_CHECK(c, all.out.compare(0, cat.size(), cat) == 0 && (bad < in.size() || all.out == cat), "the views of the list differ from those of the inputs alone:\n" << all.out << "instead of\n" << cat); }
}

PBT_SUB("failures", 260, 6000) {
  c.dir(); mkdir("in", 0700);
  In good = gin(c), in = gin(c); good.meta = in.meta = true; save(good, "in/good.tif"); save(in, "in/a.tif");
  std::vector<std::string> a; std::string act = c.pick<std::string>({"--conv=GTiff", "--png", "--view", "--conv=GTiff"}), file = "../in/a.tif", what; bool first = true, anyact = true;
  std::vector<std::string> kinds = {"absent file", "not an image", "cut file", "area outside", "band outside", "unknown format", "no metadata file", "area text", "size text", "no georeferencing", "no input", "output taken", "unknown option", "degrees outside", "directory", "image taken", "no georeferencing"};
  what = kinds[c.below(kinds.size())]; int W = in.im.w, H = in.im.h;
  bool withgood = c.flag();
  if (what == "absent file") file = "../in/none.tif";
  else if (what == "not an image") { auto b = c.bytes(c.below(300)); xg::save("in/bad.tif", std::string(b.begin(), b.end())); file = "../in/bad.tif"; }
  else if (what == "cut file") { std::string s = slurp("in/a.tif"); s.resize(c.below(8)); xg::save("in/bad.tif", s); file = "../in/bad.tif"; }
  else if (what == "area outside") { int k = c.below(6); int x = 0, y = 0, w = 1, h = 1; if (k == 0) x = W; else if (k == 1) y = H; else if (k == 2) w = W + 1; else if (k == 3) h = H + 1 + c.below(5); else if (k == 4) x = -1; else { w = -1; } a.push_back(Str() << "--area=" << x << "," << w << "," << y << "," << h); withgood = false; }
  else if (what == "band outside") { a.push_back("-b"); a.push_back(c.pick<std::string>({"0", std::to_string(in.b.size() + 1), "99", "4294967297", "2147483648"})); withgood = false; }
  else if (what == "unknown format") { act = c.pick<std::string>({"--conv=Nothing", "--conv=", "-cgtif"}); withgood = false; }
  else if (what == "no metadata file") { a.push_back(c.flag() ? "--copymd=../in/none.tif" : "--copymd=../in"); withgood = false; }
  else if (what == "area text") { a.push_back(c.pick<std::string>({"--area=1,2,3", "--area=", "--area=a,b,c,d", "--Area=1,2,3", "--Area=x", "--around=1,2", "--around="})); withgood = false; }
  else if (what == "size text") { a.push_back(c.pick<std::string>({"--resize=10", "--resize=", "--resize=,", "--resize=5,", "--resize=,5", "--resize=0,0", "--resize=-3,4", "--resize=x,y", "--resize=0%,0%"})); withgood = false; }
  else if (what == "no georeferencing") { gg::DS d(GetGDALDriverManager()->GetDriverByName("GTiff")->Create("in/plain.tif", 5, 5, 1, GDT_Byte, nullptr)); d.reset(); file = "../in/plain.tif"; a.push_back(c.flag() ? "--Area=1,2,3,4" : "--around=45,10,5,5"); withgood = false; }
  else if (what == "no input") { file = ""; withgood = false; }
  else if (what == "output taken") { act = "--conv=GTiff"; std::string n = base(in, in.b.size() == 1 ? 0 : -1) + ".tif"; mkdir("out", 0700); mkdir(("out/" + n).c_str(), 0700); withgood = withgood && base(good, good.b.size() == 1 ? 0 : -1) + ".tif" != n; }
  else if (what == "image taken") { act = "--png"; std::string n = base(in, 0) + ".png"; mkdir("out", 0700); mkdir(("out/" + n).c_str(), 0700); withgood = false; }
  else if (what == "unknown option") { a.push_back(c.pick<std::string>({"--nothing", "-z", "--resize", "--conv"})); withgood = false; if (a.back() == "--resize" || a.back() == "--conv") { file = ""; } }
  else if (what == "degrees outside") { double la, lo, m; // a place far from the image
    double x = in.im.gt[0] + in.im.gt[1] * (W + 60), y = in.im.gt[3] + in.im.gt[5] * (H / 2.0); if (!geosm::inverse(x, y, in.im.lon, la, lo, m) || m < 1e-2) { la = in.im.lon > 0 ? 0.5 : -0.5; lo = in.im.lon + (in.im.lon > 0 ? -178 : 178); }
    a.push_back(c.flag() ? "--Area=" + num(la - 0.1) + "," + num(la + 0.1) + "," + num(lo - 0.1) + "," + num(lo + 0.1) : "--around=" + num(la) + "," + num(lo) + ",0.2,0.2"); withgood = false; }
  else file = "../in";
  a.insert(a.begin(), act); if (withgood) a.push_back("../in/good.tif"); if (!file.empty()) a.push_back(file);
  c.describe(what + ":" + args(a)); c.label(what); c.nontrivial();
  auto before = files("in"); auto taken = files("out");
  ToolRun r; { Cwd d("out"); r = runtool("msat", a); } auto out = files("out");
  PBT_CHECK(c, !r.crashed, "the tool " << why(r));
  PBT_CHECK(c, r.status != 0, "no failure is reported");
  PBT_CHECK(c, !r.err.empty(), "no reason is given");
  PBT_CHECK(c, files("in") == before, "the input is changed");
  if (withgood) {
    std::string n = act == "--conv=GTiff" ? base(good, good.b.size() == 1 ? 0 : -1) + ".tif" : act == "--png" ? base(good, 0) + ".png" : "";
    if (!n.empty()) PBT_CHECK(c, out.count(n) && out[n].size() > 8, "the good input before gives no " << n);
  } else PBT_CHECK(c, out == taken, "a failing input leaves " << names(out));
}

PBT_MAIN("P19", "an image with more than one distinct valid value; a tool run that is expected to succeed, a list with at least two working inputs, or a reported failure")
