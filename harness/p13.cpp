// P13: computed products
#include "pbt.h"
#include <gdal/gdal_priv.h>
#include <gdal/ogr_spatialref.h>
#include <gdal/cpl_string.h>
#include <gdal/grib/grib.h>
#include <gdal/reflectance/reflectance.h>
#include <gdal/reflectance/sat_za.h>
#include <gdal/reflectance/cos_sol_za.h>
#include <gdal/reflectance/jday.h>
#include "gdalgen.h"
#include "geosmodel.h"
#include "xritmodel.h"
#include <gdal/xrit/xrit.h>
using pbt::Str;
using namespace msat::utils;

static int dummy = (pbt::init_hook() = [] { CPLSetErrorHandler(gg::quiet); GDALRegister_MEM(); GDALRegister_GTiff(); GDALRegister_MsatGRIB(); GDALRegister_MsatXRIT(); }, 0);

static const double R = M_PI / 180;
// Day of the year and hour of a time
static void when(const std::string& t, int& jd, double& hour) {
  int y, m, d, h, mi, s; sscanf(t.c_str(), "%d-%d-%d %d:%d:%d", &y, &m, &d, &h, &mi, &s);
  static const int l[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  jd = d; for (int i = 0; i < m - 1; ++i) jd += l[i]; if (m > 2 && (y % 400 == 0 || (y % 4 == 0 && y % 100))) ++jd;
  hour = h + mi / 60.0;
}
static double sun(int jd, double hour, double lat, double lon) {
  double t = 2 * M_PI * (jd - 1) / 365.242;
  double noon = 12 + 0.123570 * sin(t) - 0.004289 * cos(t) + 0.153809 * sin(2 * t) + 0.060783 * cos(2 * t);
  double a = 279.9348 * R + t, s = a + R * (0.4087 * sin(a) + 1.8724 * cos(a) - 0.0182 * sin(2 * a) + 0.0083 * cos(2 * a));
  double sd = 0.3978 * sin(s), cd = sqrt(1 - sd * sd);
  return sd * sin(lat * R) + cd * cos(lat * R) * cos(R * (15 * (hour - noon) + lon));
}
// Angle at the place between the vertical and the satellite, on the sphere
static double zenith(double lat, double dlon) {
  double o[3] = {cos(lat * R) * cos(dlon * R), cos(lat * R) * sin(dlon * R), sin(lat * R)};
  double r = 42164.0 / 6378.1370; // geostationary radius over equatorial radius
  double v[3] = {r - o[0], -o[1], -o[2]};
  double dot = o[0] * v[0] + o[1] * v[1] + o[2] * v[2], n = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
  return acos(dot / n);
}
static double esd(int jd) { return 1 - 0.0167 * cos(2 * M_PI * (jd - 3) / 365.0); }
static double solar(int ch, int jd) { double e = esd(jd); return (ch == 1 ? 20.76 : ch == 2 ? 23.24 : ch == 3 ? 19.85 : 25.11) / (e * e); }
static double clamp(double v, double hi) { return std::isnan(v) ? 0 : std::min(std::max(v, 0.0), hi); }
static double refl(int ch, int jd, double rad, double coz) { return clamp(100 * rad / solar(ch, jd) / std::max(coz, cos(80 * R)), 100); }
static double planck(double t) { return 0.0000119104 * pow(2569.094, 3) / (exp(1.43877 * 2569.094 / (0.9959 * t + 3.471)) - 1); }
static double refl39(int jd, double t39, double t108, double t134, double coz, double sat) {
  double cold = t108 - (t108 - t134) / 4;
  double bt = pow(pow(t39, 4) + pow(t108, 4) - pow(cold, 4), 0.25);
  double co2 = pow(cold / t108, 4), tot = planck(bt) + 0.015, therm = planck(t108) * co2;
  coz = std::max(coz, cos(80 * R));
  double toa = 4.92 / (esd(jd) * esd(jd)) * pow(coz, 0.75) * exp(-(1 - co2) * coz) * exp(-(1 - co2) / cos(sat));
  if (tot <= therm) tot = therm + 1e-7;
  if (toa <= therm) toa = therm + 1e-7;
  return clamp(100 * (tot - therm) / toa, 100);
}

// One image, its places and several channels of it
struct Scene {
  gg::Img im; int jd; double hour; std::vector<int> ok; std::vector<double> lat, lon; // ok: 1 on Earth, 0 space, -1 limb
};
static Scene scene(pbt::Ctx& c, bool hrv) {
  Scene s; gg::Img& im = s.im;
  im.sat = gg::SATS[c.below(4)]; im.hrv = hrv; im.px = hrv ? gg::PXHRV : gg::PX; im.time = gg::anytime(c, false); im.lon = gg::anylon(c);
  int size = hrv ? 11136 : 3712;
  im.w = 1 + c.below(24); im.h = 1 + c.below(24); if (c.chance(1, 6)) { im.w += c.below(24); im.h += c.below(24); }
  if (c.chance(1, 60)) { im.w = 1 + c.below(3000); im.h = 1 + c.below(std::max(1, 12000 / im.w)); if (c.flag()) std::swap(im.w, im.h); c.label("large"); }
  switch (c.below(5)) {
    case 0: { double a = c.real(0, 2 * M_PI), r = 5430000 / im.px; im.x0 = size / 2 + (int)(r * cos(a)) - im.w / 2; im.y0 = size / 2 + (int)(r * sin(a)) - im.h / 2; c.label("at the limb"); break; }
    case 1: im.x0 = c.pick({0, size - im.w}); im.y0 = c.pick({0, size - im.h}); break;
    default: im.x0 = c.below(size - im.w); im.y0 = c.below(size - im.h);
  }
  im.x0 = std::max(0, std::min(im.x0, size - im.w)); im.y0 = std::max(0, std::min(im.y0, size - im.h));
  im.setgt();
  if (c.chance(1, 4)) { double f = c.range(2, 100); f = std::min(f, (double)size / std::max(im.w, im.h)); im.gt[1] *= f; im.gt[5] *= f; c.label("coarse pixels"); } // subsampled
  when(im.time, s.jd, s.hour);
  for (int y = 0; y < im.h; ++y) for (int x = 0; x < im.w; ++x) {
    double la = 0, lo = 0, m; bool e = geosm::inverse(im.gt[0] + x * im.gt[1], im.gt[3] + y * im.gt[5], im.lon, la, lo, m);
    s.ok.push_back(fabs(m) < 1e-8 ? -1 : e ? 1 : 0); s.lat.push_back(la); s.lon.push_back(lo);
  }
  return s;
}
// The values of one channel
static gg::Img channel(pbt::Ctx& c, const Scene& s, int id) {
  gg::Img im = s.im; im.ch = gg::CHANS[id - 1];
  size_t n = (size_t)im.w * im.h; auto r = c.bytes(n * 2);
  bool counts = c.chance(2, 3); int k = c.below(5);
  double lo, hi;
  if (gg::thermal(id)) { lo = c.pick({180.0, 220.0, 270.0}); hi = lo + c.pick({2.0, 40.0, 120.0}); } else { lo = c.pick({-1.0, 0.0, 5.0}); hi = lo + c.pick({1.0, 12.0, 40.0}); }
  im.raw.resize(n); im.missing.assign(n, 0); im.nodata = c.chance(4, 5);
  if (counts) { im.type = GDT_UInt16; im.scaled = true; im.scale = (hi - lo) / 1000; im.offset = lo - im.scale; im.nd = 0; }
  else { im.type = c.flag() ? GDT_Float32 : GDT_Float64; im.scaled = true; im.scale = 1; im.offset = 0; im.nd = c.pick({0.0, -1.5, -9999.0}); }
  for (size_t i = 0; i < n; ++i) {
    double f = (r[2 * i] | (r[2 * i + 1] & 3) << 8) / 1023.0; if (k == 0) f = 0.5;
    im.raw[i] = counts ? nearbyint(1 + f * 1000) : (double)(float)(lo + f * (hi - lo));
    if (!counts && im.raw[i] == im.nd) im.raw[i] += 0.25;
    im.missing[i] = im.nodata && (r[2 * i + 1] >> 2) < (k == 1 ? 20 : k == 2 ? 60 : 2);
  }
  im.fix();
  return im;
}
// The image as a dataset: in memory, or in a file cut in tiles or strips. GDAL's files are for c.dir()
static gg::DS stored(pbt::Ctx& c, const gg::Img& im, GDALDataset* made = nullptr, int k = -1) {
  gg::DS m; if (!made) { m = im.mem(); made = m.get(); }
  if (k < 0) k = c.below(5);
  int has1, has; double nd1 = made->GetRasterBand(1)->GetNoDataValue(&has1);
  for (int i = 2; i <= made->GetRasterCount(); ++i) { double nd = made->GetRasterBand(i)->GetNoDataValue(&has); if (has != has1 || nd != nd1) k = 9; } // a file has one missing value for all bands
  for (int i = 1; i <= made->GetRasterCount(); ++i) if (made->GetRasterBand(i)->GetScale() == 1 && made->GetRasterBand(i)->GetOffset() == 0) k = 9; // a file forgets such a calibration
  if (k > 1) { if (m) return m; return gg::DS(made); }
  static int serial = 0; std::string f = "s" + std::to_string(serial++) + ".tif";
  char** o = nullptr;
  if (k == 0) { o = CSLSetNameValue(o, "TILED", "YES"); o = CSLSetNameValue(o, "BLOCKXSIZE", "16"); o = CSLSetNameValue(o, "BLOCKYSIZE", "16"); }
  else o = CSLSetNameValue(o, "BLOCKYSIZE", std::to_string(c.range(2, 9)).c_str());
  gg::DS r(GetGDALDriverManager()->GetDriverByName("GTiff")->CreateCopy(f.c_str(), made, TRUE, o, nullptr, nullptr)); CSLDestroy(o);
  if (!r) throw std::runtime_error(std::string("harness: ") + CPLGetLastErrorMsg());
  c.label(k == 0 ? "tiles" : "strips"); if (!m) GDALClose(made);
  r.reset(); r.reset((GDALDataset*)GDALOpen(f.c_str(), GA_ReadOnly)); if (!r) throw std::runtime_error("harness: open");
  return r;
}
static std::vector<float> whole(pbt::Ctx& c, GDALDataset* d) {
  int w = d->GetRasterXSize(), h = d->GetRasterYSize(); std::vector<float> v((size_t)w * h, -77);
  if (d->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, w, h, v.data(), w, h, GDT_Float32, 0, 0, nullptr) != CE_None) c.fail(Str() << "pixels cannot be read: " << CPLGetLastErrorMsg());
  return v;
}
// Read in pieces of any order, before or instead of the whole
static void pieces(pbt::Ctx& c, GDALDataset* d, const std::function<void(int x, int y, double v)>& check) {
  int W = d->GetRasterXSize(), H = d->GetRasterYSize(); GDALRasterBand* rb = d->GetRasterBand(1);
  int n = 1 + c.below(4);
  for (int i = 0; i < n; ++i) {
    if (c.chance(1, 4)) d->FlushCache(false);
    if (c.chance(1, 3)) { // by blocks
      int bx, by; rb->GetBlockSize(&bx, &by); int nx = (W + bx - 1) / bx, ny = (H + by - 1) / by; int ix = c.below(nx), iy = c.below(ny);
      std::vector<double> buf((size_t)bx * by, -77); // big enough for any type
      if (rb->ReadBlock(ix, iy, buf.data()) != CE_None) c.fail("a block cannot be read");
      for (int y = 0; y < by && iy * by + y < H; ++y) for (int x = 0; x < bx && ix * bx + x < W; ++x) {
        size_t k = (size_t)y * bx + x; double v;
        switch (rb->GetRasterDataType()) { case GDT_Float32: v = ((float*)buf.data())[k]; break; case GDT_Float64: v = buf[k]; break; case GDT_Int16: v = ((int16_t*)buf.data())[k]; break; default: c.fail("unexpected type"); }
        check(ix * bx + x, iy * by + y, v);
      }
      continue;
    }
    int x = c.below(W), y = c.below(H), w = 1 + c.below(W - x), h = 1 + c.below(H - y);
    std::vector<double> v((size_t)w * h, -77);
    if (rb->RasterIO(GF_Read, x, y, w, h, v.data(), w, h, GDT_Float64, 0, 0, nullptr) != CE_None) c.fail("a window cannot be read");
    for (int j = 0; j < h; ++j) for (int k = 0; k < w; ++k) check(x + k, y + j, v[(size_t)j * w + k]);
  }
}
static void same(pbt::Ctx& c, const Scene& s, GDALDataset* d, const char* unit) {
  const gg::Img& im = s.im;
  PBT_CHECK(c, d->GetRasterXSize() == im.w && d->GetRasterYSize() == im.h && d->GetRasterCount() == 1, "size " << d->GetRasterXSize() << "x" << d->GetRasterYSize() << "x" << d->GetRasterCount());
  double gt[6]; d->GetGeoTransform(gt); for (int i = 0; i < 6; ++i) PBT_CHECK(c, fabs(gt[i] - im.gt[i]) < 1e-2, "georeferencing element " << i << " is " << gt[i]);
  OGRSpatialReference o; gg::geos(o, im.lon); const OGRSpatialReference* p = d->GetSpatialRef(); PBT_CHECK(c, p && fabs(p->GetProjParm("central_meridian", 999) - im.lon) < 1e-3, "projection");
  PBT_CHECK(c, gg::meta(d, "MSAT_DATETIME") == im.time && gg::meta(d, "MSAT_SPACECRAFTID") == std::to_string(im.sat.wmo), "time " << gg::meta(d, "MSAT_DATETIME") << " satellite " << gg::meta(d, "MSAT_SPACECRAFTID"));
  PBT_CHECK(c, std::string(d->GetRasterBand(1)->GetUnitType()) == unit, "unit " << d->GetRasterBand(1)->GetUnitType());
}
// expected(i): the value, or NaN when it cannot be told
static void verify(pbt::Ctx& c, const Scene& s, GDALDataset* d, double tol, const std::function<double(size_t)>& expected) {
  std::vector<double> e; for (size_t i = 0; i < s.ok.size(); ++i) e.push_back(expected(i));
  auto chk = [&](int x, int y, double v) {
    size_t i = (size_t)y * s.im.w + x;
    if (std::isnan(v)) c.fail(Str() << "pixel " << x << "," << y << " is not a number");
    if (s.ok[i] < 0 || std::isnan(e[i])) return;
    if (fabs(v - e[i]) > tol * std::max(1.0, fabs(e[i]))) c.fail(Str() << "pixel " << x << "," << y << " at " << s.lat[i] << "," << s.lon[i] << (s.ok[i] ? "" : " (space)") << " is " << v << " instead of " << e[i]);
  };
  if (c.flag()) pieces(c, d, chk);
  std::vector<float> w = whole(c, d);
  for (size_t i = 0; i < w.size(); ++i) chk(i % s.im.w, i / s.im.w, w[i]);
  if (c.flag()) pieces(c, d, [&](int x, int y, double v) { if ((float)v != w[(size_t)y * s.im.w + x]) c.fail(Str() << "pixel " << x << "," << y << " is " << v << " in one window and " << w[(size_t)y * s.im.w + x] << " in another"); });
}
static void labels(pbt::Ctx& c, const Scene& s) {
  bool day = false, night = false, space = false;
  for (size_t i = 0; i < s.ok.size(); ++i) { if (s.ok[i] == 0) space = true; if (s.ok[i] == 1) (sun(s.jd, s.hour, s.lat[i], s.lon[i]) > 0 ? day : night) = true; }
  if (day || night) c.nontrivial();
  c.label(day && night ? "terminator" : day ? "day" : night ? "night" : "only space"); if (space && (day || night)) c.label("limb");
}
static gg::DS grib(pbt::Ctx& c, gg::Img& im, const char* product, int& bits) {
  gg::DS src = im.mem();
  GDALDriver* d = GetGDALDriverManager()->GetDriverByName("MsatGRIB");
  gg::DS r(d->CreateCopy("i.grb", src.get(), FALSE, nullptr, nullptr, nullptr)); PBT_CHECK(c, r, "GRIB not written: " << CPLGetLastErrorMsg());
  std::vector<double> v((size_t)im.w * im.h); r->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, im.w, im.h, v.data(), im.w, im.h, GDT_Float64, 0, 0, nullptr);
  im.scale = 1; im.offset = 0; im.scaled = false; im.type = GDT_Float64; im.nd = r->GetRasterBand(1)->GetNoDataValue(); im.raw = v; // as stored
  for (size_t i = 0; i < v.size(); ++i) if (v[i] == im.nd) im.missing[i] = 1;
  r.reset();
  char** o = CSLSetNameValue(nullptr, "MSAT_COMPUTE", product);
  gg::DS p((GDALDataset*)GDALOpenEx("i.grb", GDAL_OF_RASTER, nullptr, o, nullptr)); CSLDestroy(o);
  return p;
}

PBT_SUB("reflectance", 3000, 100000) {
  int id = c.pick({1, 2, 3, 12});
  Scene s = scene(c, id == 12);
  gg::Img im = channel(c, s, id);
  c.describe(im.text()); labels(c, s); c.label(im.ch.name);
  bool viagrib = !im.allmissing() && fabs(s.im.gt[1] - s.im.px) < 1e-9 && c.chance(1, 6);
  gg::DS src, prod; int bits;
  c.dir();
  if (viagrib) { c.label("from GRIB"); prod = grib(c, im, "reflectance", bits); PBT_CHECK(c, prod, "not computed: " << CPLGetLastErrorMsg()); }
  else { src = stored(c, im); std::unique_ptr<ReflectanceDataset> r(new ReflectanceDataset(id)); bool own = c.flag(); r->add_source(own ? src.release() : src.get(), own); r->init_rasterband(); prod.reset(r.release()); }
  same(c, s, prod.get(), "%");
  int ok; PBT_CHECK(c, prod->GetRasterBand(1)->GetNoDataValue(&ok) == 0 && ok, "no missing value");
  PBT_CHECK(c, prod->GetRasterBand(1)->GetScale() == 1 && prod->GetRasterBand(1)->GetOffset() == 0, "scale");
  PBT_CHECK(c, gg::meta(prod->GetRasterBand(1), "MSAT_CHANNELID") == std::to_string(id), "channel " << gg::meta(prod->GetRasterBand(1), "MSAT_CHANNELID"));
  verify(c, s, prod.get(), 2e-5, [&](size_t i) { if (im.missing[i] || s.ok[i] == 0) return 0.0; return refl(id, s.jd, im.physical(i), sun(s.jd, s.hour, s.lat[i], s.lon[i])); });
}

PBT_SUB("reflectance of the 3.9 channel", 3000, 100000) {
  Scene s = scene(c, false);
  gg::Img a = channel(c, s, 4), b = channel(c, s, 9), d = channel(c, s, 11);
  c.describe(Str() << a.text() << "; " << b.text() << "; " << d.text()); labels(c, s);
  c.dir();
  std::unique_ptr<ReflectanceDataset> r(new ReflectanceDataset(4));
  gg::DS keep[4];
  if (c.flag()) { // three images, in any order
    gg::Img* o[3] = {&a, &b, &d}; std::swap(o[0], o[c.below(3)]); std::swap(o[1], o[1 + c.below(2)]);
    int k = c.below(5); for (auto i : o) if (i->scale == 1 && i->offset == 0) k = 9; // all stored the same way
    for (int i = 0; i < 3; ++i) { keep[i] = stored(c, *o[i], nullptr, k); bool own = c.flag(); r->add_source(own ? keep[i].release() : keep[i].get(), own); }
    c.label("three images");
  } else { // one image with all the channels
    gg::Img e = channel(c, s, 10); a.type = b.type = d.type = e.type = GDT_Float64;
    keep[3].reset(gg::mem()->Create("", s.im.w, s.im.h, 4, GDT_Float64, nullptr)); s.im.dress(keep[3].get());
    gg::Img* o[4] = {&e, &a, &d, &b};
    for (int i = 0; i < 4; ++i) { o[i]->dressband(keep[3]->GetRasterBand(i + 1)); if (keep[3]->GetRasterBand(i + 1)->RasterIO(GF_Write, 0, 0, s.im.w, s.im.h, o[i]->raw.data(), s.im.w, s.im.h, GDT_Float64, 0, 0, nullptr) != CE_None) c.fail("harness"); }
    keep[3] = stored(c, e, keep[3].release());
    bool own = c.flag(); r->add_source(own ? keep[3].release() : keep[3].get(), own); c.label("one image");
  }
  r->init_rasterband();
  gg::DS prod(r.release());
  same(c, s, prod.get(), "%");
  PBT_CHECK(c, gg::meta(prod->GetRasterBand(1), "MSAT_CHANNELID") == "4", "channel " << gg::meta(prod->GetRasterBand(1), "MSAT_CHANNELID"));
  verify(c, s, prod.get(), 1e-4, [&](size_t i) {
    if (a.missing[i] || b.missing[i] || d.missing[i]) return 0.0;
    if (s.ok[i] == 0) return 0.0;
    double z = zenith(s.lat[i], s.lon[i] - s.im.lon);
    if (z > 87 * R) return (double)NAN; // the formula has a pole at the horizon
    return refl39(s.jd, a.physical(i), b.physical(i), d.physical(i), sun(s.jd, s.hour, s.lat[i], s.lon[i]), z);
  });
}

PBT_SUB("angles and day", 5000, 150000) {
  Scene s = scene(c, c.chance(1, 4));
  gg::Img im = channel(c, s, s.im.hrv ? 12 : 1 + c.below(11));
  int k = c.below(3);
  const char* names[3] = {"cos_sol_za", "sat_za", "jday"};
  c.describe(Str() << names[k] << " of " << im.text()); labels(c, s); c.label(names[k]);
  gg::DS src, prod; int bits; c.dir();
  bool viagrib = !im.allmissing() && fabs(s.im.gt[1] - s.im.px) < 1e-9 && c.chance(1, 8);
  if (viagrib) { prod = grib(c, im, names[k], bits); PBT_CHECK(c, prod, "not computed: " << CPLGetLastErrorMsg()); c.label("from GRIB"); }
  else { src = stored(c, im); prod.reset(k == 0 ? (GDALDataset*)new CosSolZADataset(src.get()) : k == 1 ? (GDALDataset*)new SatZADataset(src.get()) : new JDayDataset(src.get())); if (c.flag()) src.reset(); }
  same(c, s, prod.get(), k == 2 ? "day" : "");
  if (k == 0) verify(c, s, prod.get(), 1e-6, [&](size_t i) { return s.ok[i] == 0 ? 0 : clamp(sun(s.jd, s.hour, s.lat[i], s.lon[i]), 1); });
  if (k == 1) verify(c, s, prod.get(), 1e-5, [&](size_t i) { return s.ok[i] == 0 ? 0 : clamp(zenith(s.lat[i], s.lon[i] - s.im.lon), 1); });
  if (k == 2) { for (auto& o : s.ok) o = 1; verify(c, s, prod.get(), 0, [&](size_t i) { return s.jd; }); }
}

// Products asked for with the name of a transmission image, or with the open option
static double temperature(int ch, double rad) {
  static const double NUC[8] = {2569.094, 1598.566, 1362.142, 1149.083, 1034.345, 930.659, 839.661, 752.381};
  static const double AA[8] = {0.9959, 0.9963, 0.9991, 0.9996, 0.9999, 0.9983, 0.9988, 0.9981}, BB[8] = {3.471, 2.2219, 0.485, 0.181, 0.060, 0.627, 0.397, 0.576};
  int k = ch - 4; double t = (1.43877 * NUC[k] / log(0.0000119104 * NUC[k] * NUC[k] * NUC[k] / rad + 1) - BB[k]) / AA[k];
  return std::isnan(t) || t < 0 ? 0 : (double)(float)t;
}
PBT_SUB("products of transmission images", 260, 8000) {
  int kind = c.below(8); // reflectances, sun by name, reflectance, sun, satellite, day by option
  bool byname = kind < 4, isrefl = kind < 3 || kind == 4;
  bool hrv = c.chance(1, 4); Gen g = gen(c, hrv); xg::Image& im = g.im; int size = hrv ? 11136 : 3712;
  bool r39 = !hrv && kind == 0;
  if (isrefl && !hrv) { const xg::Chan& ch = r39 ? xg::CHANS[3] : c.chance(1, 8) ? xg::CHANS[c.below(11)] : xg::CHANS[c.below(3)]; im.chan = ch.name; im.chanid = ch.id; r39 = byname && ch.id == 4; }
  if (im.cols > size / (hrv ? 2 : 1)) c.discard();
  static const int HRIT[4] = {321, 322, 323, 324}; int si = c.below(4); im.scid = HRIT[si]; im.prodid = "MSG" + std::to_string(si + 1); im.sat = xg::pad(im.prodid, 6);
  im.settime(c.range(2002, 2040), c.range(1, 12), c.range(1, 28), c.below(24), c.below(60));
  im.hdrlon = im.lon = c.flag() ? c.pick({0.0f, -3.4f, 9.5f, 41.5f}) : c.range(-1800, 1800) / 10.0f;
  for (int i = 0; i < 12; ++i) { static const double k[12] = {0.023, 0.029, 0.023, 0.0036, 0.0083, 0.0386, 0.126, 0.103, 0.205, 0.222, 0.157, 0.03}; im.slope[i] = k[i] * c.real(0.8, 1.2); im.offset[i] = -51 * im.slope[i]; }
  c.dir();
  std::vector<Gen> all(1, g);
  if (r39) for (int id : {9, 11}) { Gen o = g; o.im.chan = xg::CHANS[id - 1].name; o.im.chanid = id; for (auto& q : o.im.seg) std::rotate(q.second.begin(), q.second.begin() + (id * 7) % std::max<size_t>(1, q.second.size()), q.second.end()); if (c.chance(1, 4)) { auto it = o.im.seg.begin(); std::advance(it, c.below(o.im.seg.size())); if (o.im.seg.size() > 1) { o.rows.erase(it->first); o.im.seg.erase(it); } } all.push_back(o); }
  bool lacking = r39 && c.chance(1, 10); size_t lack = 1 + c.below(2);
  for (size_t i = 0; i < all.size(); ++i) if (!lacking || i != lack) all[i].im.save(".");
  const char* opt[] = {"reflectance", "cos_sol_za", "sat_za", "jday"};
  std::string name = im.name(); char** o = nullptr;
  int what = byname ? (isrefl ? 0 : 1) : kind - 4; // the product: reflectance, sun, satellite, day
  if (byname) name = im.res + ":" + im.prodid + ":" + im.chan + (isrefl ? "r" : "a") + ":" + im.time;
  else o = CSLSetNameValue(o, "MSAT_COMPUTE", opt[what]);
  c.describe(Str() << name << (byname ? std::string() : std::string(" with ") + opt[what]) << " satellite at " << im.hdrlon << " " << im.cols << " columns");
  c.label(byname ? "by name" : "by option"); c.label(opt[what]); c.nontrivial();
  gg::DS d((GDALDataset*)GDALOpenEx(name.c_str(), GDAL_OF_RASTER, nullptr, o, nullptr)); CSLDestroy(o);
  int ch = im.chanid; bool can = what || ch <= 3 || ch == 12 || (r39 && !lacking);
  PBT_CHECK(c, (bool)d == can, (d ? "a product that cannot be computed opens " : "not opened: ") << CPLGetLastErrorMsg());
  if (!d) { c.label("refused"); return; }
  char t[96]; snprintf(t, sizeof t, "%04d-%02d-%02d %02d:%02d:00", im.y, im.mo, im.d, im.h, im.mi); int jd; double hour; when(t, jd, hour);
  double px = 1000.0 * (hrv ? im.colstephrv : im.colstep), py = 1000.0 * (hrv ? im.linestephrv : im.linestep);
  PBT_CHECK(c, d->GetRasterXSize() == size && d->GetRasterYSize() == size && d->GetRasterCount() == 1, "size");
  double gt[6]; PBT_CHECK(c, d->GetGeoTransform(gt) == CE_None && fabs(gt[0] + size / 2 * px) < 1 && fabs(gt[1] - px) < 1e-3 && fabs(gt[3] - size / 2 * py) < 1 && fabs(gt[5] + py) < 1e-3, "georeferencing");
  PBT_CHECK(c, d->GetSpatialRef() && fabs(d->GetSpatialRef()->GetProjParm("central_meridian", 999) - im.hdrlon) < 1e-4, "projection");
  PBT_CHECK(c, gg::meta(d.get(), "MSAT_DATETIME") == t, "time " << gg::meta(d.get(), "MSAT_DATETIME"));
  PBT_CHECK(c, std::string(d->GetRasterBand(1)->GetUnitType()) == (what == 0 ? "%" : what == 3 ? "day" : ""), "unit " << d->GetRasterBand(1)->GetUnitType());
  int n = hrv ? 2 : 4;
  for (int k = 0; k < n; ++k) {
    size_t line = c.chance(2, 3) ? someline(c, g) : (size_t)c.range(size / 4, size * 3 / 4);
    std::vector<double> v(size, -77), T[3]; std::vector<char> miss(size, 0); std::vector<uint16_t> w; bool skip = false;
    for (size_t i = 0; i < all.size() && !what; ++i) {
      wantline(all[i], line, w); long st = wantstart(all[i], line, hrv); if (st < 0) { for (auto x : w) if (x) skip = true; st = 0; }
      T[i].assign(size, 0); int id = all[i].im.chanid; double sl = im.slope[id - 1], of = im.offset[id - 1];
      for (int x = 0; x < size; ++x) { bool in = x >= st && x - st < (long)w.size(); unsigned cnt = in ? w[x - st] : 0; double rad = cnt * sl + of;
        if (r39) { T[i][x] = in && cnt < 1024 ? temperature(id, rad) : 0; if (T[i][x] == 0) miss[x] = 1; } else { T[i][x] = rad; if (!cnt) miss[x] = 1; } }
    }
    if (skip) continue;
    PBT_CHECK(c, d->GetRasterBand(1)->RasterIO(GF_Read, 0, line, size, 1, v.data(), size, 1, GDT_Float64, 0, 0, nullptr) == CE_None, "line " << line << " cannot be read: " << CPLGetLastErrorMsg());
    for (int x = 0; x < size; ++x) {
      double la = 0, lo = 0, m, e; bool on = geosm::inverse(gt[0] + x * gt[1], gt[3] + (double)line * gt[5], im.hdrlon, la, lo, m);
      if (fabs(m) < 1e-8 && what != 3) continue;
      if (what == 3) e = jd; else if (!on) e = 0; else if (what == 1) e = clamp(sun(jd, hour, la, lo), 1); else if (what == 2) e = clamp(zenith(la, lo - im.hdrlon), 1);
      else if (miss[x]) e = 0;
      else if (!r39) e = refl(ch, jd, T[0][x], sun(jd, hour, la, lo));
      else { double z = zenith(la, lo - im.hdrlon); if (z > 85 * R || T[1][x] < 120 || T[2][x] < 120 || T[0][x] < 120) continue; e = refl39(jd, T[0][x], T[1][x], T[2][x], sun(jd, hour, la, lo), z); }
      double tol = what == 0 ? r39 ? 2e-3 : 3e-5 : 1e-5;
      if (std::isnan(v[x]) || fabs(v[x] - e) > tol * std::max(1.0, fabs(e))) c.fail(Str() << "line " << line << " pixel " << x << " at " << la << "," << lo << (on ? "" : " (space)") << " is " << v[x] << " instead of " << e);
    }
  }
}

// Images that do not go together, or cannot give the product
PBT_SUB("unsuitable images", 3000, 100000) {
  Scene s = scene(c, false);
  gg::Img a = channel(c, s, 4), b = channel(c, s, 9), d = channel(c, s, 11);
  int k = c.below(13); c.nontrivial(); c.label("case " + std::to_string(k));
  c.describe(Str() << "case " << k << " " << a.text());
  gg::DS x, y, z; bool thrown = false;
  try {
    int id = 4;
    gg::Img* odd = c.pick<gg::Img*>({&b, &d});
    if (k == 0) { odd->time = odd->time.substr(0, 11) + (odd->time.substr(11, 2) == "00" ? "01" : "00") + odd->time.substr(13); }
    if (k == 1) odd->lon += c.pick({1.0, -0.1, 9.5});
    if (k == 2) odd->gt[c.pick({0, 1, 3, 5})] *= 1.5 + 1e-3;
    if (k == 2 && !memcmp(odd->gt, a.gt, sizeof a.gt)) c.discard();
    if (k == 3) { odd->h++; odd->raw.resize((size_t)odd->w * odd->h); }
    if (k == 4) { odd->w++; odd->raw.resize((size_t)odd->w * odd->h); }
    if (k == 5) id = c.pick({5, 6, 7, 8, 9, 10, 11, 0, 13, -1});
    x = a.mem(); y = b.mem(); z = d.mem();
    if (k == 8) y->SetMetadataItem("MSAT_DATETIME", nullptr);
    if (k == 9) { x->SetMetadataItem("MSAT_DATETIME", "yesterday"); y->SetMetadataItem("MSAT_DATETIME", "yesterday"); z->SetMetadataItem("MSAT_DATETIME", "yesterday"); }
    ReflectanceDataset r(id);
    std::vector<GDALDataset*> add; if (k != 10) add.push_back(x.get()); if (k != 6) add.push_back(y.get()); if (k != 7) add.push_back(z.get());
    if (k >= 11) { // a solar product of images without its channel, or of none
      ReflectanceDataset q(c.pick({1, 2, 3, 12})); if (k == 11) for (auto* i : add) q.add_source(i); else if (c.flag()) q.add_source(add[c.below(3)]);
      q.init_rasterband(); PBT_CHECK(c, false, "accepted"); }
    while (!add.empty()) { size_t i = c.below(add.size()); r.add_source(add[i]); add.erase(add.begin() + i); }
    r.init_rasterband();
  } catch (pbt::Failure&) { throw; } catch (std::exception& e) { thrown = true; c.describe(Str() << "case " << k << ": " << e.what()); }
  PBT_CHECK(c, thrown, "accepted");
}

PBT_SUB("unknown products", 300, 5000) {
  Scene s = scene(c, false); s.im.gt[1] = gg::PX; s.im.gt[5] = -gg::PX; s.im.setgt();
  int id = c.range(4, 11); gg::Img im = channel(c, s, id); if (im.allmissing()) c.discard();
  const char* p = c.pick<const char*>({"reflectance", "", "sun", "jdays", "REFLECTANCE"}); int bits;
  c.describe(Str() << p << " of " << im.text()); c.nontrivial(); c.dir();
  bool thrown = false; std::string what;
  try { gg::DS r = grib(c, im, p, bits); PBT_CHECK(c, !r, "computed"); }
  catch (std::runtime_error& e) { thrown = true; what = e.what(); }
  if (thrown) c.fail(Str() << "an exception leaves the driver: " << what);
}

PBT_MAIN("P13", "a generated time, place, channel values and missing pixels, the product of which is compared with the formula at every pixel, in windows and blocks of any order; non-trivial when some pixel is on Earth")
