// Generated georeferenced images, as in-memory GDAL datasets
#pragma once
#include "pbt.h"
#include <gdal/gdal_priv.h>
#include <gdal/ogr_spatialref.h>

namespace gg {
inline void quiet(CPLErr, int, const char*) {}
struct Closer { void operator()(GDALDataset* d) const { GDALClose(d); } };
typedef std::unique_ptr<GDALDataset, Closer> DS;
inline GDALDriver* mem() { return GetGDALDriverManager()->GetDriverByName("MEM"); }
inline std::string meta(GDALMajorObject* o, const char* k) { const char* v = o->GetMetadataItem(k); return v ? v : "(none)"; }

struct Sat { int hrit, wmo; const char* name; };
static const Sat SATS[] = {{321, 55, "MSG1"}, {322, 56, "MSG2"}, {323, 57, "MSG3"}, {324, 70, "MSG4"}};
struct Chan { const char* name; int id; };
static const Chan CHANS[12] = {{"VIS006", 1}, {"VIS008", 2}, {"IR_016", 3}, {"IR_039", 4}, {"WV_062", 5}, {"WV_073", 6}, {"IR_087", 7}, {"IR_097", 8}, {"IR_108", 9}, {"IR_120", 10}, {"IR_134", 11}, {"HRV", 12}};
inline bool thermal(int ch) { return ch >= 4 && ch <= 11; }
inline const char* unit(int ch) { return thermal(ch) ? "K" : "mW m^-2 sr^-1 (cm^-1)^-1"; }

// The projection of the images, written down independently
inline void geos(OGRSpatialReference& o, double lon) {
  o.SetGEOS(lon, 35785831.0, 0, 0);
  o.SetGeogCS(nullptr, nullptr, nullptr, 6378169, 295.488065897, nullptr, 0, nullptr, 0);
}
static const double PX = 3000.40307617188, PXHRV = 1000.13433837891; // metres

struct Img {
  Sat sat; Chan ch; std::string time; double lon = 0; bool hrv = false;
  int x0 = 0, y0 = 0, w = 1, h = 1; double px = PX; double gt[6];
  GDALDataType type = GDT_Float32; double scale = 1, offset = 0, nd = 0; bool nodata = true, scaled = false;
  int lat0 = 0; // free use
  std::vector<double> raw; std::vector<char> missing;
  double physical(size_t i) const { return raw[i] * scale + offset; }
  bool allmissing() const { return std::find(missing.begin(), missing.end(), 0) == missing.end(); }
  void fix() { for (size_t i = 0; i < raw.size(); ++i) if (missing[i]) raw[i] = nd; }
  void setgt() { double half = hrv ? 5568 : 1856; gt[0] = -(half - x0) * px; gt[1] = px; gt[2] = 0; gt[3] = (half - y0) * px; gt[4] = 0; gt[5] = -px; }
  std::string text() const { return pbt::Str() << sat.name << " " << ch.name << " " << time << " longitude " << lon << ", " << w << "x" << h << " at " << x0 << "," << y0 << (hrv ? " of the high-resolution grid, " : ", ") << GDALGetDataTypeName(type) << " scale " << scale << " offset " << offset << ", missing " << (nodata ? std::to_string(std::count(missing.begin(), missing.end(), 1)) : "undefined"); }
  void dress(GDALDataset* d) const {
    OGRSpatialReference o; geos(o, lon); d->SetSpatialRef(&o);
    double g[6]; memcpy(g, gt, sizeof g); d->SetGeoTransform(g);
    d->SetMetadataItem("MSAT_DATETIME", time.c_str()); d->SetMetadataItem("MSAT_SPACECRAFTID", std::to_string(sat.wmo).c_str()); d->SetMetadataItem("MSAT_SPACECRAFT", sat.name);
  }
  void dressband(GDALRasterBand* b) const {
    b->SetMetadataItem("MSAT_CHANNELID", std::to_string(ch.id).c_str()); b->SetMetadataItem("MSAT_CHANNEL", ch.name); b->SetDescription(ch.name);
    if (scaled) { b->SetScale(scale); b->SetOffset(offset); }
    if (nodata) b->SetNoDataValue(nd);
    b->SetUnitType(unit(ch.id));
  }
  DS mem() const {
    DS d(gg::mem()->Create("", w, h, 1, type, nullptr));
    dress(d.get()); dressband(d->GetRasterBand(1));
    if (d->GetRasterBand(1)->RasterIO(GF_Write, 0, 0, w, h, (void*)raw.data(), w, h, GDT_Float64, 0, 0, nullptr) != CE_None) throw std::runtime_error("harness: cannot fill the image");
    return d;
  }
};
inline std::string anytime(pbt::Ctx& c, bool seconds) {
  char b[160];
  int y = c.chance(1, 6) ? c.pick({2000, 2004, 2010, 2099, 2100}) : c.range(2002, 2040), m = c.range(1, 12);
  static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int last = ml[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)));
  int d = c.chance(1, 5) ? last : c.range(1, last), h = c.chance(1, 6) ? c.pick({0, 23, 12}) : c.below(24), mi = c.flag() ? c.below(4) * 15 : c.below(60);
  snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", y, m, d, h, mi, seconds ? (int)c.below(60) : 0); return b;
}
inline double anylon(pbt::Ctx& c) { return c.flag() ? c.pick({0.0, -3.4, 9.5, 41.5, 45.5, 57.0, 63.0}) : c.range(-1800, 1800) / 10.0; }
// Values of a band of the given type; with a missing value when nodata is set
inline void values(pbt::Ctx& c, Img& im) {
  size_t n = (size_t)im.w * im.h;
  int kind = c.below(8);
  im.type = c.pick({GDT_UInt16, GDT_Float32, GDT_UInt16, GDT_Float64, GDT_Byte, GDT_Int16});
  bool integer = im.type == GDT_UInt16 || im.type == GDT_Byte || im.type == GDT_Int16;
  double lo, hi;
  if (integer) {
    im.scaled = c.chance(3, 4);
    if (im.scaled) { im.scale = c.real(0.001, 0.4); im.offset = c.flag() ? -51 * im.scale : c.real(-20, 20); }
    lo = im.type == GDT_Int16 ? -200 : 0; hi = im.type == GDT_Byte ? 255 : c.pick({1023, 4095, 30000});
    im.nd = c.chance(3, 4) ? 0 : c.pick({255.0, 77.0});
  } else {
    im.scaled = false;
    lo = c.pick({0.0, -30.0, 180.0}); hi = lo + c.pick({1.0, 0.01, 150.0, 1000.0});
    im.nd = c.chance(1, 2) ? 0 : c.pick({-9999.0, 1e20, -1.0});
  }
  if (kind == 0) hi = lo = lo + (integer ? (double)c.below(200) : c.real(0, 150)); // constant
  im.nodata = c.chance(3, 4);
  unsigned mf = im.nodata ? c.pick({0, 1, 4, 30, 31}) : 0;
  im.raw.assign(n, 0); im.missing.assign(n, 0);
  auto noise = c.bytes(n * 5);
  for (size_t i = 0; i < n; ++i) {
    uint32_t r; memcpy(&r, &noise[i * 4], 4);
    double v = lo + (hi - lo) * (r / 4294967295.0);
    if (integer) v = nearbyint(v); else if (im.type == GDT_Float32) v = (float)v;
    im.missing[i] = (noise[n * 4 + i] & 31) < mf;
    if (im.nodata && v == im.nd) v = integer ? (v > 0 ? v - 1 : v + 1) : v + 0.5;
    im.raw[i] = v;
  }
  if (im.type == GDT_Float32 && im.nd == 1e20) im.nd = (float)1e20;
  im.fix();
}
inline Img gen(pbt::Ctx& c, bool large) {
  Img im;
  im.sat = SATS[c.below(4)]; im.ch = CHANS[c.below(12)]; im.hrv = im.ch.id == 12 ? !c.chance(1, 8) : c.chance(1, 10);
  im.px = im.hrv ? PXHRV : PX;
  im.time = anytime(c, false); im.lon = anylon(c);
  int size = im.hrv ? 11136 : 3712;
  im.w = 1 + c.below(c.chance(1, 10) && large ? 300 : 30); im.h = 1 + c.below(c.chance(1, 10) && large ? 300 : 30);
  if (large && c.chance(1, 80)) { im.w = 1 + c.below(3712); im.h = 1 + c.below(std::max(1, 60000 / im.w)); if (c.flag()) std::swap(im.w, im.h); c.label("large"); }
  im.x0 = c.chance(1, 6) ? c.pick({0, size - im.w, size / 2}) : c.below(size - im.w + 1);
  im.y0 = c.chance(1, 6) ? c.pick({0, size - im.h, size / 2}) : c.below(size - im.h + 1);
  im.setgt();
  values(c, im);
  return im;
}
} // namespace gg
