// P09: xRIT images as GDAL rasters
#include "xritmodel.h"
#include <gdal/gdal_priv.h>
#include <gdal/ogr_spatialref.h>
#include <gdal/cpl_conv.h>
#include <gdal/xrit/xrit.h>
using pbt::Str;

struct Sat { int hrit, wmo; const char* name; };
static const Sat SATS[] = {{321, 55, "MSG1"}, {322, 56, "MSG2"}, {323, 57, "MSG3"}, {324, 70, "MSG4"}};
static const double NUC[8] = {2569.094, 1598.566, 1362.142, 1149.083, 1034.345, 930.659, 839.661, 752.381};
static const double AA[8] = {0.9959, 0.9963, 0.9991, 0.9996, 0.9999, 0.9983, 0.9988, 0.9981};
static const double BB[8] = {3.471, 2.2219, 0.485, 0.181, 0.060, 0.627, 0.397, 0.576};

static double temperature(int ch, double slope, double offset, unsigned count) {
  int k = ch - 4; double rad = slope * count + offset;
  double t = (1.43877 * NUC[k] / log(0.0000119104 * NUC[k] * NUC[k] * NUC[k] / rad + 1) - BB[k]) / AA[k];
  return std::isnan(t) || t < 0 ? 0 : t;
}

static void quiet(CPLErr, int, const char*) {}
static int dummy = (pbt::init_hook() = [] { CPLSetErrorHandler(quiet); GDALRegister_MsatXRIT(); }, 0);

struct Closer { void operator()(GDALDataset* d) const { GDALClose(d); } };
typedef std::unique_ptr<GDALDataset, Closer> DS;
static DS open(const std::string& n) { return DS((GDALDataset*)GDALOpen(n.c_str(), GA_ReadOnly)); }

// fills the identity of an image with anything valid
static void identity(pbt::Ctx& c, xg::Image& im, const Sat& sat) {
  im.scid = sat.hrit; im.prodid = std::string(sat.name) + (c.chance(1, 5) ? "_RSS" : ""); im.sat = xg::pad(sat.name, 6);
  im.settime(c.range(2002, 2040), c.range(1, 12), c.range(1, 28), c.below(24), c.flag() ? c.below(4) * 15 : c.below(60));
  im.hdrlon = c.flag() ? c.pick({0.0f, -3.4f, 9.5f, 41.5f, 45.5f, 57.0f, 63.0f}) : c.range(-1800, 1800) / 10.0f;
  im.lon = im.hdrlon;
  if (c.flag()) for (float* f : {&im.colstep, &im.linestep, &im.colstephrv, &im.linestephrv}) *f = c.real(0.5, 10) * (c.chance(1, 4) ? -1 : 1);
  for (int i = 0; i < 12; ++i) { im.slope[i] = c.chance(1, 4) ? c.real(-1, 1) : c.real(0.001, 0.3); im.offset[i] = c.flag() ? -51 * im.slope[i] : c.real(-20, 5); }
}
static std::string meta(GDALMajorObject* o, const char* k) { const char* v = o->GetMetadataItem(k); return v ? v : "(none)"; }

static void describe(pbt::Ctx& c, const Gen& g) {
  const xg::Image& im = g.im;
  c.describe(Str() << im.name() << " satellite " << im.scid << " longitude " << im.hdrlon << ", " << im.cols << " columns, segments of " << im.seglines << " lines, " << im.seg.size() << " of " << im.nsegs << " present");
}

static void checkmeta(pbt::Ctx& c, const Gen& g, const Sat& sat, GDALDataset* ds) {
  const xg::Image& im = g.im; bool hrv = im.chanid == 12; int size = hrv ? 11136 : 3712, ch = im.chanid;
  PBT_CHECK(c, ds->GetRasterXSize() == size && ds->GetRasterYSize() == size && ds->GetRasterCount() == 1, "raster of " << ds->GetRasterXSize() << "x" << ds->GetRasterYSize() << " with " << ds->GetRasterCount() << " bands");
  PBT_CHECK(c, meta(ds, "MSAT_SPACECRAFTID") == std::to_string(sat.wmo), "satellite number " << meta(ds, "MSAT_SPACECRAFTID"));
  PBT_CHECK(c, meta(ds, "MSAT_SPACECRAFT") == sat.name, "satellite " << meta(ds, "MSAT_SPACECRAFT"));
  char t[128]; snprintf(t, sizeof t, "%04d-%02d-%02d %02d:%02d:00", im.y, im.mo, im.d, im.h, im.mi);
  PBT_CHECK(c, meta(ds, "MSAT_DATETIME") == t, "time " << meta(ds, "MSAT_DATETIME") << " instead of " << t);
  const OGRSpatialReference* sr = ds->GetSpatialRef();
  PBT_CHECK(c, sr, "no projection");
  const char* pn = sr->GetAttrValue("PROJECTION");
  PBT_CHECK(c, pn && std::string(pn) == "Geostationary_Satellite", "projection " << (pn ? pn : "(none)"));
  PBT_CHECK(c, fabs(sr->GetProjParm("central_meridian", 999) - im.hdrlon) < 1e-4, "projection longitude " << sr->GetProjParm("central_meridian", 999) << " instead of " << im.hdrlon);
  PBT_CHECK(c, fabs(sr->GetProjParm("satellite_height", 0) - 35785831) < 1, "orbit height " << sr->GetProjParm("satellite_height", 0));
  PBT_CHECK(c, sr->GetSemiMajor() == 6378169 && fabs(sr->GetSemiMinor() - 6356583.8) < 0.1, "ellipsoid " << sr->GetSemiMajor() << ", " << sr->GetSemiMinor());
  PBT_CHECK(c, sr->GetProjParm("false_easting", 0) == 0 && sr->GetProjParm("false_northing", 0) == 0, "false origin");
  double gt[6]; PBT_CHECK(c, ds->GetGeoTransform(gt) == CE_None, "no georeferencing");
  double px = fabs(1000.0 * (hrv ? im.colstephrv : im.colstep)), py = fabs(1000.0 * (hrv ? im.linestephrv : im.linestep));
  double want[6] = {-size / 2 * px, px, 0, size / 2 * py, 0, -py};
  for (int i = 0; i < 6; ++i) PBT_CHECK(c, fabs(gt[i] - want[i]) <= 1e-6 * fabs(want[i]), "georeferencing element " << i << " is " << gt[i] << " instead of " << want[i]);
  GDALRasterBand* rb = ds->GetRasterBand(1);
  PBT_CHECK(c, meta(rb, "MSAT_CHANNELID") == std::to_string(ch), "channel number " << meta(rb, "MSAT_CHANNELID"));
  PBT_CHECK(c, meta(rb, "MSAT_CHANNEL") == im.chan && im.chan == rb->GetDescription(), "channel " << meta(rb, "MSAT_CHANNEL") << ", band " << rb->GetDescription());
  bool thermal = ch >= 4 && ch <= 11;
  PBT_CHECK(c, std::string(rb->GetUnitType()) == (thermal ? "K" : "mW m^-2 sr^-1 (cm^-1)^-1"), "unit " << rb->GetUnitType());
  int ok = 0;
  PBT_CHECK(c, rb->GetNoDataValue(&ok) == 0 && ok, "no-data value");
  double sl = rb->GetScale(&ok); PBT_CHECK(c, ok, "no scale"); double of = rb->GetOffset(&ok); PBT_CHECK(c, ok, "no offset");
  if (thermal) PBT_CHECK(c, sl == 1 && of == 0 && rb->GetRasterDataType() == GDT_Float32, "thermal band of type " << rb->GetRasterDataType() << " scale " << sl << " offset " << of);
  else PBT_CHECK(c, sl == im.slope[ch - 1] && of == im.offset[ch - 1] && rb->GetRasterDataType() == GDT_UInt16, "band of type " << rb->GetRasterDataType() << " scale " << sl << " offset " << of << " instead of " << im.slope[ch - 1] << ", " << im.offset[ch - 1]);
}
// expected pixels of a raster line; false when the line is in no window but holds samples
static bool wantpixels(const Gen& g, size_t line, std::vector<double>& out) {
  const xg::Image& im = g.im; bool hrv = im.chanid == 12; int size = hrv ? 11136 : 3712;
  std::vector<uint16_t> w; wantline(g, line, w);
  long st = wantstart(g, line, hrv);
  if (st < 0) { for (auto x : w) if (x) return false; st = 0; }
  bool thermal = im.chanid >= 4 && im.chanid <= 11;
  out.assign(size, 0);
  for (size_t x = 0; x < w.size() && st + x < out.size(); ++x) {
    double v = w[x];
    if (thermal) v = w[x] < (1u << im.bpp) ? temperature(im.chanid, im.slope[im.chanid - 1], im.offset[im.chanid - 1], w[x]) : 0;
    out[st + x] = v;
  }
  return true;
}
static bool near(double a, double b) { return fabs(a - b) <= 1e-5 * fabs(b) + 1e-9; }

static void rasters(pbt::Ctx& c, bool hrv) {
  Gen g = gen(c, hrv); xg::Image& im = g.im;
  int size = hrv ? 11136 : 3712;
  if (im.cols > size / (hrv ? 2 : 1)) { im.cols = 16; c.discard(); }
  if (c.chance(1, 8)) im.bpp = c.pick({8, 16, 12, 1});
  const Sat& sat = SATS[c.below(4)];
  identity(c, im, sat);
  describe(c, g);
  c.nontrivial();
  c.label(im.chan);
  c.dir(); im.save(".");
  std::string nm = c.flag() ? im.name() : c.flag() ? "./" + im.name() : im.segname(im.seg.begin()->first);
  DS ds = open(nm);
  PBT_CHECK(c, ds, "the image does not open: " << CPLGetLastErrorMsg());
  checkmeta(c, g, sat, ds.get());
  GDALRasterBand* rb = ds->GetRasterBand(1);
  int bx, by; rb->GetBlockSize(&bx, &by);
  PBT_CHECK(c, bx == size && by == 1, "blocks of " << bx << "x" << by);
  std::vector<double> w, buf;
  size_t n = 3 + c.below(10);
  std::vector<size_t> done;
  for (size_t k = 0; k < n; ++k) {
    size_t line = !done.empty() && c.chance(1, 5) ? done[c.below(done.size())] : someline(c, g);
    done.push_back(line);
    if (!wantpixels(g, line, w)) continue;
    if (c.flag()) { // a block in its own type
      std::vector<uint16_t> u(size, 7); std::vector<float> f(size, 7);
      bool thermal = im.chanid >= 4 && im.chanid <= 11;
      PBT_CHECK(c, rb->ReadBlock(0, line, thermal ? (void*)f.data() : (void*)u.data()) == CE_None, "line " << line << " cannot be read: " << CPLGetLastErrorMsg());
      for (int x = 0; x < size; ++x) { double v = thermal ? f[x] : u[x]; if (!near(v, w[x])) c.fail(Str() << "block of line " << line << ": pixel " << x << " is " << v << " instead of " << w[x]); }
    } else { // a window
      int x0 = c.below(size), nx = c.flag() ? size - x0 : 1 + c.below(size - x0);
      if (c.flag()) { x0 = 0; nx = size; }
      int ny = 1 + c.below(std::min<size_t>(3, size - line));
      buf.assign((size_t)nx * ny, -7);
      PBT_CHECK(c, rb->RasterIO(GF_Read, x0, line, nx, ny, buf.data(), nx, ny, GDT_Float64, 0, 0, nullptr) == CE_None, "window cannot be read: " << CPLGetLastErrorMsg());
      for (int y = 0; y < ny; ++y) {
        if (!wantpixels(g, line + y, w)) continue;
        for (int x = 0; x < nx; ++x) if (!near(buf[(size_t)y * nx + x], w[x0 + x])) c.fail(Str() << "window at " << x0 << "," << line << ": pixel " << x << "," << y << " is " << buf[(size_t)y * nx + x] << " instead of " << w[x0 + x]);
      }
    }
  }
}
PBT_SUB("standard rasters", 700, 25000) { rasters(c, false); }
PBT_SUB("high-resolution rasters", 500, 20000) { rasters(c, true); }

// Two images of the same directory open at the same time, read in turns
PBT_SUB("two images at once", 200, 8000) {
  Gen a = gen(c, false), b = gen(c, c.flag());
  const Sat& sat = SATS[c.below(4)]; const Sat& sat2 = SATS[c.below(4)];
  identity(c, a.im, sat); identity(c, b.im, sat2);
  if (a.im.cols > 3712 || b.im.cols > (b.im.chanid == 12 ? 5568 : 3712)) c.discard();
  if (c.flag()) { b.im.y = a.im.y; b.im.mo = a.im.mo; b.im.d = a.im.d; b.im.h = a.im.h; b.im.mi = a.im.mi; b.im.time = a.im.time; b.im.hdrlon = a.im.hdrlon; b.im.res = a.im.res; }
  bool shared = a.im.prodid == b.im.prodid && a.im.time == b.im.time && a.im.res == b.im.res;
  if (shared || a.im.name() == b.im.name()) { b.im.prodid = "MSG9"; }
  c.dir(); a.im.save("."); b.im.save(".");
  describe(c, a); c.describe("; "); describe(c, b);
  c.nontrivial();
  DS da = open(a.im.name()), db = open(b.im.name());
  PBT_CHECK(c, da && db, "an image does not open");
  checkmeta(c, a, sat, da.get()); checkmeta(c, b, sat2, db.get());
  std::vector<double> w, buf;
  for (int k = 0; k < 8; ++k) {
    bool second = c.flag(); const Gen& g = second ? b : a; GDALDataset* d = second ? db.get() : da.get();
    size_t line = someline(c, g); int size = d->GetRasterXSize();
    if (!wantpixels(g, line, w)) continue;
    buf.assign(size, -7);
    PBT_CHECK(c, d->GetRasterBand(1)->RasterIO(GF_Read, 0, line, size, 1, buf.data(), size, 1, GDT_Float64, 0, 0, nullptr) == CE_None, "line cannot be read");
    for (int x = 0; x < size; ++x) if (!near(buf[x], w[x])) c.fail(Str() << "image " << 1 + second << " line " << line << ": pixel " << x << " is " << buf[x] << " instead of " << w[x]);
  }
}

// What cannot be opened is refused, and names of other files are left to other drivers
PBT_SUB("refusals", 400, 15000) {
  Gen g = gen(c, c.chance(1, 3)); xg::Image& im = g.im;
  const Sat& sat = SATS[c.below(4)]; identity(c, im, sat);
  c.dir(); im.save(".");
  std::string nm = im.name();
  int what = c.below(8);
  switch (what) {
    case 0: unlink(im.proname().c_str()); c.label("no prologue"); break;
    case 1: unlink(im.epiname().c_str()); c.label("no epilogue"); break;
    case 2: for (auto& s : im.seg) unlink(im.segname(s.first).c_str()); c.label("no segment"); break;
    case 3: nm = c.pick<std::string>({"x", "H:MSG1", "/nonexistent/" + nm, "nodir/" + nm, nm + "0", ":::", "H:::", "", "-C_"}); c.label("other name"); break;
    case 4: if (truncate(im.proname().c_str(), c.below(400000)) == 0) c.label("short prologue"); break;
    case 5: { im.chanid = c.pick({0, 13, 255}); im.cols = 4; im.seglines = 4; im.seg.clear(); for (int i = 1; i < 30; ++i) unlink(im.segname(i).c_str()); for (auto& s : g.rows) unlink(im.segname(s.first).c_str()); im.seg[1] = std::vector<uint16_t>(16, 5); im.save("."); c.label("no such channel"); break; }
    case 6: im.prodid = "XYZ"; im.save("."); nm = im.name(); c.label("prologue of another kind"); break;
    default: xg::save(im.epiname(), xg::file(129, xg::rec_annot(im.annot("_________", "EPI", "__")), im.epidata().substr(0, c.below(xg::EPI_LEN)))); c.label("short epilogue"); break;
  }
  c.describe(Str() << "case " << what << " " << nm);
  c.nontrivial();
  DS ds = open(nm);
  PBT_CHECK(c, !ds, "an unusable image opens");
}

PBT_MAIN("P09", "an image set opened as a raster and compared, in metadata and pixels, with what was written into its files (or refused when it is unusable)")
