// P14: calibration
#include "pbt.h"
#include <gdal/gdal_priv.h>
#include <gdal/ogr_spatialref.h>
#include <msat/gdal/dataset.h>
#include <msat/hrit/MSG_data_RadiometricProc.h>
#include <gdal/xrit/xrit.h>
#include "xritmodel.h"
#include "gdalgen.h"
using pbt::Str;
static int dummy = (pbt::init_hook() = [] { CPLSetErrorHandler(gg::quiet); GDALRegister_MEM(); GDALRegister_GTiff(); GDALRegister_MsatXRIT(); }, 0);

static const double NUC[8] = {2569.094, 1598.566, 1362.142, 1149.083, 1034.345, 930.659, 839.661, 752.381};
static const double AA[8] = {0.9959, 0.9963, 0.9991, 0.9996, 0.9999, 0.9983, 0.9988, 0.9981};
static const double BB[8] = {3.471, 2.2219, 0.485, 0.181, 0.060, 0.627, 0.397, 0.576};
static double temperature(int ch, double rad) {
  int k = ch - 4; return (1.43877 * NUC[k] / log(1.19104e-5 * NUC[k] * NUC[k] * NUC[k] / rad + 1) - BB[k]) / AA[k];
}
static double radiance(int ch, double t) { int k = ch - 4; return 1.19104e-5 * NUC[k] * NUC[k] * NUC[k] / (exp(1.43877 * NUC[k] / (AA[k] * t + BB[k])) - 1); }
static bool thermal(int ch) { return ch >= 4 && ch <= 11; }
static bool near(double a, double b, double t = 1e-6) { return fabs(a - b) <= t * fabs(b) + 1e-9; }
struct Coef { double slope[12], offset[12]; };
static Coef coef(pbt::Ctx& c) {
  Coef k;
  for (int i = 0; i < 12; ++i) {
    k.slope[i] = c.chance(1, 6) ? c.real(-0.5, 0.5) : c.chance(1, 8) ? c.pick({0.0, 1.0, 1e-9, 30.0}) : c.real(0.0005, 0.5);
    k.offset[i] = c.chance(2, 3) ? -51 * k.slope[i] : c.chance(1, 4) ? 0.0 : c.real(-30, 30);
  }
  return k;
}

PBT_SUB("calibration tables", 20000, 600000) {
  Coef k = coef(c); int ch = 1 + c.below(12), bpp = c.chance(2, 3) ? 10 : (int)c.range(1, 16);
  auto p = std::unique_ptr<MSG_data_RadiometricProc>(new MSG_data_RadiometricProc);
  for (int i = 0; i < 12; ++i) { p->ImageCalibration[i].Cal_Slope = k.slope[i]; p->ImageCalibration[i].Cal_Offset = k.offset[i]; }
  double s = k.slope[ch - 1], o = k.offset[ch - 1];
  c.describe(Str() << "channel " << ch << " slope " << s << " offset " << o << " bits " << bpp);
  c.label(thermal(ch) ? "thermal" : "solar");
  std::unique_ptr<float[]> t(p->get_calibration(ch, bpp));
  double last = -1; int n = 1 << bpp; bool any = false;
  for (int i = 0; i < n; ++i) {
    double rad = s * i + o;
    if (!thermal(ch)) { PBT_CHECK(c, near(t[i], (float)rad), "count " << i << " is " << t[i] << " instead of " << rad); any = true; continue; }
    if (!(rad > 1e-7)) { PBT_CHECK(c, rad > 0 || !(t[i] > 0), "count " << i << " of radiance " << rad << " gives " << t[i] << " K"); continue; }
    any = true;
    double w = temperature(ch, rad);
    PBT_CHECK(c, near(t[i], w), "count " << i << " gives " << t[i] << " K instead of " << w);
    if (w > 50 && w < 400) PBT_CHECK(c, fabs(radiance(ch, t[i]) - rad) <= 2e-5 * rad, "count " << i << " at " << t[i] << " K radiates " << radiance(ch, t[i]) << " instead of " << rad);
    if (s > 0) { PBT_CHECK(c, t[i] >= last, "count " << i << " is colder (" << t[i] << ") than a darker one (" << last << ")"); last = t[i]; }
  }
  if (any) c.nontrivial();
  double sl, of; bool ints; p->get_slope_offset(ch, sl, of, ints);
  PBT_CHECK(c, ints == !thermal(ch), "integer scaling of channel " << ch << " is " << ints);
  if (!thermal(ch)) PBT_CHECK(c, sl == s && of == o, "slope " << sl << " offset " << of);
}

// Radiances to reflectances, against the formula and the sun's position series
PBT_SUB("reflectances of radiances", 60000, 2000000) {
  int ch = c.chance(1, 8) ? (int)c.range(-1, 14) : c.pick({1, 2, 3, 12});
  int y = c.range(2002, 2040), mo = c.range(1, 12), d, h = c.below(24), mi = c.below(60);
  static const int l[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int ml = l[mo - 1] + (mo == 2 && y % 4 == 0); d = c.chance(1, 5) ? ml : c.range(1, ml);
  int jd = d; for (int i = 0; i < mo - 1; ++i) jd += l[i]; if (mo > 2 && y % 4 == 0) ++jd;
  float lat = c.real(-90, 90), lon = c.real(-180, 180), rad = c.chance(1, 6) ? c.real(-5, 0) : c.real(0, 25);
  c.describe(Str() << "channel " << ch << " " << y << "-" << mo << "-" << d << " " << h << ":" << mi << " at " << lat << "," << lon << " radiance " << rad);
  bool solar = ch == 1 || ch == 2 || ch == 3 || ch == 12;
  float r; bool thrown = false;
  std::streambuf* old = std::cerr.rdbuf(nullptr);
  try { r = radiance_to_reflectance(ch, rad, y, mo, d, h, mi, lat, lon); } catch (std::exception&) { thrown = true; }
  std::cerr.rdbuf(old);
  PBT_CHECK(c, thrown == !solar, "channel " << ch << (thrown ? " refused" : " accepted"));
  if (!solar) { c.label("no reflectance"); return; }
  const double R = M_PI / 180;
  double t = 2 * M_PI * (jd - 1) / 365.242, noon = 12 + 0.123570 * sin(t) - 0.004289 * cos(t) + 0.153809 * sin(2 * t) + 0.060783 * cos(2 * t);
  double a = 279.9348 * R + t, q = a + R * (0.4087 * sin(a) + 1.8724 * cos(a) - 0.0182 * sin(2 * a) + 0.0083 * cos(2 * a));
  double sd = 0.3978 * sin(q), mu = sd * sin(lat * R) + sqrt(1 - sd * sd) * cos(lat * R) * cos(R * (15 * (h + mi / 60.0 - noon) + lon));
  double e = 1 - 0.0167 * cos(2 * M_PI * (jd - 3) / 365.0);
  double w = 100 * rad * e * e / (ch == 1 ? 20.76 : ch == 2 ? 23.24 : ch == 3 ? 19.85 : 25.11) / std::max(mu, cos(80 * R));
  c.nontrivial(); c.label(mu > cos(80 * R) ? "day" : "night");
  PBT_CHECK(c, near(r, w, 2e-5), "reflectance " << r << " instead of " << w);
}

static void readany(pbt::Ctx& c, GDALRasterBand* rb, const std::function<double(int, int)>& want, int pieces) {
  int W = rb->GetXSize(), H = rb->GetYSize();
  for (int i = 0; i < pieces; ++i) {
    if (c.chance(1, 4)) rb->FlushCache(false);
    bool all = i == 0 && W * H < 4000;
    int x = all ? 0 : c.below(W), y = all ? 0 : c.below(H), w = all ? W : 1 + c.below(W - x), h = all ? H : 1 + c.below(std::min(H - y, 40));
    std::vector<double> v((size_t)w * h, -77);
    PBT_CHECK(c, rb->RasterIO(GF_Read, x, y, w, h, v.data(), w, h, GDT_Float64, 0, 0, nullptr) == CE_None, "pixels cannot be read: " << CPLGetLastErrorMsg());
    for (int j = 0; j < h; ++j) for (int k = 0; k < w; ++k) {
      double e = want(x + k, y + j);
      if (!near(v[(size_t)j * w + k], e, 1e-5)) c.fail(Str() << "pixel " << x + k << "," << y + j << " is " << v[(size_t)j * w + k] << " instead of " << e);
    }
  }
}

PBT_SUB("calibrated views", 15000, 400000) {
  gg::Img im = gg::gen(c, false); int nb = 1 + c.below(3);
  std::vector<gg::Img> bands(nb, im);
  // Each band of its own type, which only some formats have
  std::vector<gg::DS> parts; int mixed = 0;
  for (auto& b : bands) { b.scale = 1; b.offset = 0; gg::values(c, b); if (c.chance(1, 5)) b.scale = b.scaled ? -b.scale : b.scale; b.ch = gg::CHANS[c.below(12)]; mixed += b.type == GDT_UInt16 && b.scaled; }
  c.describe(im.text()); for (auto& b : bands) c.describe(Str() << "; band " << b.ch.name << " " << GDALGetDataTypeName(b.type) << " scale " << b.scale << " offset " << b.offset << (b.nodata ? " missing " + std::to_string(b.nd) : ""));
  if (mixed) c.nontrivial();
  gg::DS src(gg::mem()->Create("", im.w, im.h, 0, GDT_Byte, nullptr)); im.dress(src.get());
  for (int i = 0; i < nb; ++i) {
    PBT_CHECK(c, src->AddBand(bands[i].type, nullptr) == CE_None, "harness");
    GDALRasterBand* rb = src->GetRasterBand(i + 1); bands[i].dressband(rb);
    PBT_CHECK(c, rb->RasterIO(GF_Write, 0, 0, im.w, im.h, bands[i].raw.data(), im.w, im.h, GDT_Float64, 0, 0, nullptr) == CE_None, "harness");
    if (c.flag()) { rb->SetStatistics(3, 40, 7, 2); bands[i].lat0 = 1; } else bands[i].lat0 = 0;
  }
  msat::dataset::CalibratedDataset cal(*src);
  PBT_CHECK(c, cal.GetRasterXSize() == im.w && cal.GetRasterYSize() == im.h && cal.GetRasterCount() == nb, "size " << cal.GetRasterXSize() << "x" << cal.GetRasterYSize() << "x" << cal.GetRasterCount());
  double gt[6]; PBT_CHECK(c, cal.GetGeoTransform(gt) == CE_None && !memcmp(gt, im.gt, sizeof gt), "georeferencing");
  PBT_CHECK(c, cal.GetSpatialRef() && cal.GetSpatialRef()->IsSame(src->GetSpatialRef()), "projection");
  for (const char* k : {"MSAT_DATETIME", "MSAT_SPACECRAFTID", "MSAT_SPACECRAFT"}) PBT_CHECK(c, gg::meta(&cal, k) == gg::meta(src.get(), k), k << " is " << gg::meta(&cal, k));
  for (int t = 0; t < nb; ++t) {
    int i = c.below(nb); gg::Img& b = bands[i]; GDALRasterBand* rb = cal.GetRasterBand(i + 1); GDALRasterBand* sb = src->GetRasterBand(i + 1);
    bool conv = b.type == GDT_UInt16; int ok = 0;
    c.label(conv ? "calibrated" : "as it is");
    PBT_CHECK(c, gg::meta(rb, "MSAT_CHANNELID") == std::to_string(b.ch.id) && gg::meta(rb, "MSAT_CHANNEL") == b.ch.name && rb->GetDescription() == std::string(b.ch.name), "channel of band " << i + 1);
    PBT_CHECK(c, std::string(rb->GetUnitType()) == sb->GetUnitType(), "unit " << rb->GetUnitType());
    PBT_CHECK(c, rb->GetRasterDataType() == (conv ? GDT_Float32 : b.type), "type " << GDALGetDataTypeName(rb->GetRasterDataType()));
    PBT_CHECK(c, rb->GetScale() == (conv ? 1 : b.scale) && rb->GetOffset() == (conv ? 0 : b.offset), "scale " << rb->GetScale() << " offset " << rb->GetOffset());
    double nd = rb->GetNoDataValue(&ok);
    if (conv) PBT_CHECK(c, ok && nd == 0, "missing value " << nd); else PBT_CHECK(c, (bool)ok == b.nodata && (!ok || nd == b.nd), "missing value " << nd);
    if (b.lat0) {
      double mn = rb->GetMinimum(&ok); PBT_CHECK(c, ok && near(mn, conv ? (b.scale < 0 ? 40 : 3) * b.scale + b.offset : 3), "minimum " << mn);
      double mx = rb->GetMaximum(&ok); PBT_CHECK(c, ok && near(mx, conv ? (b.scale < 0 ? 3 : 40) * b.scale + b.offset : 40), "maximum " << mx);
    } else { rb->GetMinimum(&ok); PBT_CHECK(c, !ok, "a minimum nobody computed"); }
    readany(c, rb, [&](int x, int y) { size_t k = (size_t)y * im.w + x; if (!conv) return b.raw[k]; return b.nodata && b.raw[k] == b.nd ? 0.0 : b.raw[k] * b.scale + b.offset; }, 1 + c.below(3));
  }
}

// Files are read in blocks of any size, also a single one for the whole image
PBT_SUB("blocks of files", 60, 1500) {
  int w = 1 + c.below(60), h = 1 + c.below(60), bw = 0, bh = 0; int kind = c.below(4);
  if (kind == 0) { w = 64 + c.below(2000); h = c.range(5000000, 20000000) / w; bh = h; c.label("one large block"); }
  else if (kind == 1) { bw = 16 * (1 + c.below(3)); bh = 16 * (1 + c.below(3)); c.label("tiles"); }
  else { bh = 1 + c.below(h); c.label("strips"); }
  double scale = c.real(0.001, 0.4), offset = c.real(-20, 20); bool nodata = c.flag(); unsigned step = 1 + c.below(5000);
  c.describe(Str() << w << "x" << h << " in blocks of " << (bw ? bw : w) << "x" << bh << " scale " << scale << " offset " << offset << (nodata ? " with missing" : "")); c.nontrivial();
  c.dir();
  std::vector<uint16_t> v((size_t)w * h); for (size_t i = 0; i < v.size(); ++i) v[i] = i * step % 1021;
  char** o = CSLSetNameValue(nullptr, "BLOCKYSIZE", std::to_string(bh).c_str()); if (bw) { o = CSLSetNameValue(o, "TILED", "YES"); o = CSLSetNameValue(o, "BLOCKXSIZE", std::to_string(bw).c_str()); }
  if (kind == 0) o = CSLSetNameValue(o, "COMPRESS", "LZW"); // or else GDAL cuts the block
  gg::DS d(GetGDALDriverManager()->GetDriverByName("GTiff")->Create("a.tif", w, h, 1, GDT_UInt16, o)); CSLDestroy(o);
  d->GetRasterBand(1)->SetScale(scale); d->GetRasterBand(1)->SetOffset(offset); if (nodata) d->GetRasterBand(1)->SetNoDataValue(0);
  if (d->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, w, h, v.data(), w, h, GDT_UInt16, 0, 0, nullptr) != CE_None) throw std::runtime_error("harness: write");
  d.reset(); d.reset((GDALDataset*)GDALOpen("a.tif", GA_ReadOnly)); if (!d) throw std::runtime_error("harness: open");
  msat::dataset::CalibratedDataset cal(*d);
  readany(c, cal.GetRasterBand(1), [&](int x, int y) { unsigned k = v[(size_t)y * w + x]; return nodata && !k ? 0.0 : k * scale + offset; }, 1 + c.below(3));
}

PBT_SUB("calibrated transmission images", 300, 10000) {
  Gen g = gen(c, c.chance(1, 4)); xg::Image& im = g.im; bool hrv = im.chanid == 12; int size = hrv ? 11136 : 3712, ch = im.chanid;
  if (im.cols > size / (hrv ? 2 : 1)) c.discard();
  Coef k = coef(c); memcpy(im.slope, k.slope, sizeof k.slope); memcpy(im.offset, k.offset, sizeof k.offset);
  im.scid = 322; im.hdrlon = im.lon = 0;
  c.describe(Str() << im.name() << " slope " << im.slope[ch - 1] << " offset " << im.offset[ch - 1]); c.nontrivial(); c.label(thermal(ch) ? "thermal" : "solar");
  c.dir(); im.save(".");
  gg::DS ds((GDALDataset*)GDALOpen(im.name().c_str(), GA_ReadOnly)); PBT_CHECK(c, ds, "the image does not open");
  msat::dataset::CalibratedDataset cal(*ds);
  for (int i = 0; i < 3; ++i) {
    size_t line = someline(c, g); std::vector<uint16_t> w; wantline(g, line, w); long st = wantstart(g, line, hrv);
    if (st < 0) { for (auto x : w) if (x) st = -2; if (st == -2) continue; st = 0; }
    std::vector<double> v(size, -7);
    PBT_CHECK(c, cal.GetRasterBand(1)->RasterIO(GF_Read, 0, line, size, 1, v.data(), size, 1, GDT_Float64, 0, 0, nullptr) == CE_None, "line cannot be read");
    for (int x = 0; x < size; ++x) {
      unsigned n = x >= st && x - st < (long)w.size() ? w[x - st] : 0; double e;
      double rad = im.slope[ch - 1] * n + im.offset[ch - 1];
      bool in = x >= st && x - st < (long)w.size() && n < (1u << im.bpp);
      if (thermal(ch)) { e = in ? temperature(ch, rad) : 0; if (!(e > 0)) e = 0; if (in && fabs(rad) < 1e-7) continue; } else e = n ? rad : 0;
      if (!near(v[x], e, 1e-5)) c.fail(Str() << "line " << line << " pixel " << x << " count " << n << " is " << v[x] << " instead of " << e);
    }
  }
}
PBT_MAIN("P14", "a set of calibration coefficients with a channel, counts and views, every entry compared with the formula; non-trivial when some entry is a calibrated physical value")
