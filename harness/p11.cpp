// P11: windows, sizes and bands of images, and their conversion to other formats
#include "pbt.h"
#include <gdal/gdal_priv.h>
#include <gdal/ogr_spatialref.h>
#include <gdal/cpl_conv.h>
#include <gdal/cpl_string.h>
#include <gdal/grib/grib.h>
#include <msat/gdal/dataset.h>
#include <msat/gdal/gdaltranslate.h>
#include "gdalgen.h"
using pbt::Str;

static int dummy = (pbt::init_hook() = [] { CPLSetErrorHandler(gg::quiet); CPLSetConfigOption("GDAL_PAM_ENABLED", "YES"); GDALRegister_MsatGRIB(); GDALAllRegister(); }, 0);

struct Band {
  GDALDataType type; std::vector<double> v; bool nodata = false, scaled = false; double nd = 0, scale = 1, offset = 0;
  std::string desc, unit; std::map<std::string, std::string> md;
};
struct Model {
  int w, h; bool hasgt = true, hassrs = true; double gt[6] = {0, 1, 0, 0, 0, 1}; double lon = 0;
  std::map<std::string, std::string> md;
  std::vector<Band> b;
  struct G { double px, ln, x, y; };
  std::vector<G> gcps;
};
static std::string word(pbt::Ctx& c) { return c.chars(1 + c.below(12), "abcXYZ019_.-"); }
static Model gen(pbt::Ctx& c) {
  Model m;
  m.w = 1 + c.below(c.chance(1, 8) ? 150 : 20); m.h = 1 + c.below(c.chance(1, 8) ? 150 : 20);
  int g = c.below(10);
  m.hasgt = g != 0; m.hassrs = g != 1;
  m.lon = gg::anylon(c);
  double px = c.pick({gg::PX, gg::PXHRV, 4500.0, 0.25});
  m.gt[0] = -px * c.range(-3000, 6000); m.gt[1] = px; m.gt[3] = px * c.range(-3000, 6000); m.gt[5] = c.chance(1, 8) ? px : -px * c.pick({1.0, 1.0, 0.5});
  if (c.chance(1, 8)) { m.gt[2] = c.real(-50, 50); m.gt[4] = c.real(-50, 50); c.label("rotated"); }
  m.md["MSAT_DATETIME"] = gg::anytime(c, true);
  int k = c.below(4); for (int i = 0; i < k; ++i) m.md["K" + std::to_string(i)] = word(c);
  int nb = c.chance(1, 3) ? 1 : 1 + c.below(4);
  for (int i = 0; i < nb; ++i) {
    Band b;
    b.type = c.pick({GDT_UInt16, GDT_Byte, GDT_Float32, GDT_Float64, GDT_Int16, GDT_Int32});
    b.v.resize((size_t)m.w * m.h);
    auto r = c.bytes(b.v.size() * 2);
    for (size_t j = 0; j < b.v.size(); ++j) {
      int n = r[2 * j] | r[2 * j + 1] << 8;
      b.v[j] = b.type == GDT_Byte ? n & 255 : b.type == GDT_Int16 ? (int16_t)n : b.type == GDT_Int32 ? n * 30011.0 - 9e8 : b.type == GDT_UInt16 ? n : (n - 30000) / 64.0;
    }
    b.nodata = c.flag(); if (b.nodata) b.nd = c.pick({0, 7, 255, 77});
    b.scaled = c.flag(); if (b.scaled) { b.scale = c.pick({0.25, 2.0, 0.0834, -1.5}); b.offset = c.pick({0.0, -51.0, 3.5}); }
    b.desc = word(c); if (c.flag()) b.unit = c.pick<std::string>({"K", "%", "mW m^-2 sr^-1 (cm^-1)^-1"});
    b.md["MSAT_CHANNELID"] = std::to_string(1 + c.below(12)); if (c.flag()) b.md["NOTE"] = word(c);
    m.b.push_back(b);
  }
  if (c.chance(1, 8)) { int n = 3 + c.below(3); for (int i = 0; i < n; ++i) m.gcps.push_back({c.range(0, 100) / 2.0, c.range(0, 100) / 2.0, c.real(-90, 90), c.real(-90, 90)}); c.label("ground control points"); }
  return m;
}
static gg::DS make(const Model& m) {
  gg::DS d(gg::mem()->Create("", m.w, m.h, 0, GDT_Byte, nullptr));
  if (m.hassrs) { OGRSpatialReference o; gg::geos(o, m.lon); d->SetSpatialRef(&o); }
  if (m.hasgt) { double g[6]; memcpy(g, m.gt, sizeof g); d->SetGeoTransform(g); }
  for (auto& kv : m.md) d->SetMetadataItem(kv.first.c_str(), kv.second.c_str());
  for (size_t i = 0; i < m.b.size(); ++i) {
    const Band& b = m.b[i];
    d->AddBand(b.type, nullptr);
    GDALRasterBand* rb = d->GetRasterBand(i + 1);
    if (rb->RasterIO(GF_Write, 0, 0, m.w, m.h, (void*)b.v.data(), m.w, m.h, GDT_Float64, 0, 0, nullptr) != CE_None) throw std::runtime_error("harness: write");
    if (b.nodata) rb->SetNoDataValue(b.nd);
    if (b.scaled) { rb->SetScale(b.scale); rb->SetOffset(b.offset); }
    rb->SetDescription(b.desc.c_str()); if (!b.unit.empty()) rb->SetUnitType(b.unit.c_str());
    for (auto& kv : b.md) rb->SetMetadataItem(kv.first.c_str(), kv.second.c_str());
  }
  if (!m.gcps.empty()) {
    std::vector<GDAL_GCP> g(m.gcps.size()); GDALInitGCPs(g.size(), g.data());
    for (size_t i = 0; i < g.size(); ++i) { g[i].dfGCPPixel = m.gcps[i].px; g[i].dfGCPLine = m.gcps[i].ln; g[i].dfGCPX = m.gcps[i].x; g[i].dfGCPY = m.gcps[i].y; }
    OGRSpatialReference o; gg::geos(o, m.lon);
    d->SetGCPs(g.size(), g.data(), &o); GDALDeinitGCPs(g.size(), g.data());
  }
  return d;
}
// What the image shall become: the window x,y,w,h with the given size, of the given bands
static Model crop(const Model& m, const int* win, int ox, int oy, const std::vector<int>& bands) {
  Model r = m; r.w = ox; r.h = oy; r.b.clear();
  r.gt[0] = m.gt[0] + win[0] * m.gt[1] + win[1] * m.gt[2]; r.gt[3] = m.gt[3] + win[0] * m.gt[4] + win[1] * m.gt[5];
  double fx = win[2] / (double)ox, fy = win[3] / (double)oy;
  r.gt[1] *= fx; r.gt[4] *= fx; r.gt[2] *= fy; r.gt[5] *= fy;
  for (auto& g : r.gcps) { g.px = (g.px - win[0]) / fx; g.ln = (g.ln - win[1]) / fy; }
  for (int i : bands) {
    Band b = m.b[i - 1]; const Band& s = m.b[i - 1];
    b.v.resize((size_t)ox * oy);
    for (int y = 0; y < oy; ++y) for (int x = 0; x < ox; ++x) {
      int sx = win[0] + std::min(win[2] - 1, (int)floor((x + 0.5) * fx)), sy = win[1] + std::min(win[3] - 1, (int)floor((y + 0.5) * fy));
      b.v[(size_t)y * ox + x] = s.v[(size_t)sy * m.w + sx];
    }
    r.b.push_back(b);
  }
  return r;
}
static bool close(double a, double b) { return fabs(a - b) <= 1e-9 * std::max(fabs(a), fabs(b)) + 1e-9; }
// samesize: resampling is not involved, so every pixel is exact
static void compare(pbt::Ctx& c, const std::string& what, const Model& m, GDALDataset* d, bool exact, bool file) {
  PBT_CHECK(c, d->GetRasterXSize() == m.w && d->GetRasterYSize() == m.h, what << ": size " << d->GetRasterXSize() << "x" << d->GetRasterYSize() << " instead of " << m.w << "x" << m.h);
  PBT_CHECK(c, d->GetRasterCount() == (int)m.b.size(), what << ": bands " << d->GetRasterCount() << " instead of " << m.b.size());
  double gt[6]; bool has = d->GetGeoTransform(gt) == CE_None;
  if (m.hasgt && (m.gcps.empty() || !file)) {
    PBT_CHECK(c, has, what << ": georeferencing is lost");
    for (int i = 0; i < 6; ++i) PBT_CHECK(c, close(gt[i], m.gt[i]), what << ": georeferencing element " << i << " is " << gt[i] << " instead of " << m.gt[i]);
  } else if (m.gcps.empty()) PBT_CHECK(c, !has || (gt[0] == 0 && gt[3] == 0), what << ": georeferencing out of nothing");
  const OGRSpatialReference* o = d->GetSpatialRef();
  if (m.hassrs && m.gcps.empty()) {
    PBT_CHECK(c, o, what << ": projection is lost");
    PBT_CHECK(c, close(o->GetProjParm("central_meridian", 999), m.lon) && close(o->GetProjParm("satellite_height", 0), 35785831), what << ": projection longitude " << o->GetProjParm("central_meridian", 999) << " instead of " << m.lon);
  }
  if (!file) {
    PBT_CHECK(c, d->GetGCPCount() == (int)m.gcps.size(), what << ": " << d->GetGCPCount() << " ground control points");
    for (size_t i = 0; i < m.gcps.size(); ++i) { const GDAL_GCP& g = d->GetGCPs()[i]; PBT_CHECK(c, close(g.dfGCPPixel, m.gcps[i].px) && close(g.dfGCPLine, m.gcps[i].ln) && close(g.dfGCPX, m.gcps[i].x) && close(g.dfGCPY, m.gcps[i].y), what << ": ground control point " << i << " at " << g.dfGCPPixel << "," << g.dfGCPLine << " instead of " << m.gcps[i].px << "," << m.gcps[i].ln); }
  }
  for (auto& kv : m.md) PBT_CHECK(c, gg::meta(d, kv.first.c_str()) == kv.second, what << ": metadata " << kv.first << " is " << gg::meta(d, kv.first.c_str()) << " instead of " << kv.second);
  for (size_t i = 0; i < m.b.size(); ++i) {
    const Band& b = m.b[i]; GDALRasterBand* rb = d->GetRasterBand(i + 1);
    std::string w = Str() << what << ": band " << i + 1;
    PBT_CHECK(c, rb->GetRasterDataType() == b.type, w << ": type " << GDALGetDataTypeName(rb->GetRasterDataType()) << " instead of " << GDALGetDataTypeName(b.type));
    int ok = 0; double nd = rb->GetNoDataValue(&ok);
    PBT_CHECK(c, (bool)ok == b.nodata && (!ok || nd == b.nd), w << ": missing value " << (ok ? std::to_string(nd) : "none") << " instead of " << (b.nodata ? std::to_string(b.nd) : "none"));
    PBT_CHECK(c, close(rb->GetScale(), b.scale) && close(rb->GetOffset(), b.offset), w << ": calibration " << rb->GetScale() << " " << rb->GetOffset() << " instead of " << b.scale << " " << b.offset);
    PBT_CHECK(c, b.desc == rb->GetDescription(), w << ": name " << rb->GetDescription() << " instead of " << b.desc);
    if (what != "MEM" && what != "ENVI") PBT_CHECK(c, b.unit == rb->GetUnitType(), w << ": unit " << rb->GetUnitType() << " instead of " << b.unit);
    for (auto& kv : b.md) PBT_CHECK(c, gg::meta(rb, kv.first.c_str()) == kv.second, w << ": metadata " << kv.first << " is " << gg::meta(rb, kv.first.c_str()) << " instead of " << kv.second);
    std::vector<double> v((size_t)m.w * m.h, -1);
    PBT_CHECK(c, rb->RasterIO(GF_Read, 0, 0, m.w, m.h, v.data(), m.w, m.h, GDT_Float64, 0, 0, nullptr) == CE_None, w << ": pixels cannot be read: " << CPLGetLastErrorMsg());
    if (exact) for (size_t j = 0; j < v.size(); ++j) if (v[j] != b.v[j]) c.fail(Str() << w << ": pixel " << j % m.w << "," << j / m.w << " is " << v[j] << " instead of " << b.v[j]);
  }
}
// With another size, every pixel is the one of the source it falls on
static void resampled(pbt::Ctx& c, const Model& src, const int* win, GDALDataset* d, const std::vector<int>& bands) {
  int ox = d->GetRasterXSize(), oy = d->GetRasterYSize();
  double fx = win[2] / (double)ox, fy = win[3] / (double)oy;
  for (size_t i = 0; i < bands.size(); ++i) {
    std::vector<double> v((size_t)ox * oy);
    if (d->GetRasterBand(i + 1)->RasterIO(GF_Read, 0, 0, ox, oy, v.data(), ox, oy, GDT_Float64, 0, 0, nullptr) != CE_None) c.fail("resized pixels cannot be read");
    const Band& b = src.b[bands[i] - 1];
    for (int y = 0; y < oy; ++y) for (int x = 0; x < ox; ++x) {
      bool found = false;
      // the source pixels that the pixel covers or touches
      int x0 = std::max(0, (int)floor(x * fx - 1e-6)), x1 = std::min(win[2] - 1, (int)floor((x + 1) * fx + 1e-6));
      int y0 = std::max(0, (int)floor(y * fy - 1e-6)), y1 = std::min(win[3] - 1, (int)floor((y + 1) * fy + 1e-6));
      for (int sy = y0; sy <= y1; ++sy) for (int sx = x0; sx <= x1; ++sx) if (b.v[(size_t)(win[1] + sy) * src.w + win[0] + sx] == v[(size_t)y * ox + x]) found = true;
      if (!found) c.fail(Str() << "resized from " << win[2] << "x" << win[3] << " to " << ox << "x" << oy << ": pixel " << x << "," << y << " is " << v[(size_t)y * ox + x] << ", which is no pixel of the source under it");
    }
  }
}
static void window(pbt::Ctx& c, int W, int H, int* win) {
  switch (c.below(6)) {
    case 0: win[0] = win[1] = 0; win[2] = W; win[3] = H; break;
    case 1: win[2] = win[3] = 1; win[0] = c.below(W); win[1] = c.below(H); break;
    case 2: win[2] = 1 + c.below(W); win[3] = 1 + c.below(H); win[0] = W - win[2]; win[1] = H - win[3]; break; // touching the far edge
    case 3: win[0] = win[1] = 0; win[2] = 1 + c.below(W); win[3] = 1 + c.below(H); break;
    default: win[2] = 1 + c.below(W); win[3] = 1 + c.below(H); win[0] = c.below(W - win[2] + 1); win[1] = c.below(H - win[3] + 1);
  }
}
static void setbands(GDALTranslate& t, const std::vector<int>& b, const Model& m) {
  t.panBandList = (int*)CPLMalloc(sizeof(int) * b.size()); for (size_t i = 0; i < b.size(); ++i) t.panBandList[i] = b[i];
  t.nBandCount = b.size(); t.bDefBands = TRUE;
  if (b.size() != m.b.size()) t.bDefBands = FALSE; else for (size_t i = 0; i < b.size(); ++i) if (b[i] != (int)i + 1) t.bDefBands = FALSE;
}
static std::string text(const int* w) { return Str() << w[0] << "," << w[1] << " " << w[2] << "x" << w[3]; }

PBT_SUB("windows", 20000, 600000) {
  Model m = gen(c);
  int win[4]; window(c, m.w, m.h, win);
  std::vector<int> all; for (size_t i = 0; i < m.b.size(); ++i) all.push_back(i + 1);
  std::vector<int> bands = all;
  bool pickbands = c.chance(1, 3);
  if (pickbands) { bands.clear(); int n = 1 + c.below(m.b.size() + 1); for (int i = 0; i < n; ++i) bands.push_back(1 + c.below(m.b.size())); c.label("chosen bands"); }
  int ox = win[2], oy = win[3]; std::string sx, sy;
  if (c.chance(1, 3)) {
    if (c.flag()) { ox = 1 + c.below(3 * win[2]); oy = 1 + c.below(3 * win[3]); sx = std::to_string(ox); sy = std::to_string(oy); }
    else { int px = c.range(10, 300), py = c.flag() ? px : c.range(10, 300); sx = std::to_string(px) + "%"; sy = std::to_string(py) + "%"; ox = (int)(px / 100.0 * win[2]); oy = (int)(py / 100.0 * win[3]); if (!ox || !oy) c.discard(); }
    c.label("resized");
  }
  bool md = c.chance(1, 5);
  c.describe(Str() << m.w << "x" << m.h << ", " << m.b.size() << " bands, window " << text(win) << " to " << ox << "x" << oy << (pickbands ? " bands " : "") << (pickbands ? std::to_string(bands.size()) : ""));
  if (win[2] < m.w || win[3] < m.h) c.nontrivial();
  gg::DS src = make(m);
  GDALTranslate t;
  bool whole = c.chance(1, 4) && win[2] == m.w && win[3] == m.h; // no window given at all
  if (!whole) for (int i = 0; i < 4; ++i) t.anSrcWin[i] = win[i];
  if (pickbands) setbands(t, bands, m);
  if (!sx.empty()) { t.pszOXSize = sx.c_str(); t.pszOYSize = sy.c_str(); }
  if (md) { t.papszMetadataOptions = CSLSetNameValue(nullptr, "ADDED", "yes"); t.papszMetadataOptions = CSLSetNameValue(t.papszMetadataOptions, "MSAT_DATETIME", "other"); c.label("metadata options"); }
  int rounds = 1 + c.below(2);
  for (int r = 0; r < rounds; ++r) { // the same options serve for several images
    Model cur = m; gg::DS s2; GDALDataset* s = src.get();
    int w2[4]; memcpy(w2, win, sizeof w2); int ox2 = ox, oy2 = oy; std::vector<int> b2 = bands;
    if (r) {
      cur = gen(c);
      if (whole) { w2[2] = cur.w; w2[3] = cur.h; if (sx.empty()) { ox2 = cur.w; oy2 = cur.h; } else if (sx.back() == '%') { ox2 = (int)(atoi(sx.c_str()) / 100.0 * cur.w); oy2 = (int)(atoi(sy.c_str()) / 100.0 * cur.h); } if (!ox2 || !oy2) continue; }
      if (!pickbands) { b2.clear(); for (size_t i = 0; i < cur.b.size(); ++i) b2.push_back(i + 1); }
      bool fits = w2[0] + w2[2] <= cur.w && w2[1] + w2[3] <= cur.h; for (int b : b2) if (b > (int)cur.b.size()) fits = false;
      s2 = make(cur); s = s2.get(); c.label("second image");
      if (pickbands) t.bDefBands = FALSE;
      GDALDataset* v = t.translate(s);
      if (!fits) { if (v && v != s) GDALClose(v); PBT_CHECK(c, !v, "the second image does not have the window or the bands, but is accepted"); continue; }
      PBT_CHECK(c, v, "the second image is refused: " << CPLGetLastErrorMsg());
      Model e = crop(cur, w2, ox2, oy2, b2); if (md) { e.md["ADDED"] = "yes"; e.md["MSAT_DATETIME"] = "other"; }
      gg::DS own; if (v != s) own.reset(v);
      compare(c, "second image", e, v, ox2 == w2[2] && oy2 == w2[3], false);
      continue;
    }
    GDALDataset* v = t.translate(s);
    PBT_CHECK(c, v, "refused: " << CPLGetLastErrorMsg());
    gg::DS own; if (v != s) own.reset(v);
    Model e = crop(cur, w2, ox, oy, b2); if (md) { e.md["ADDED"] = "yes"; e.md["MSAT_DATETIME"] = "other"; }
    bool exact = ox == win[2] && oy == win[3];
    compare(c, "window", e, v, exact, false);
    if (!exact) resampled(c, m, win, v, b2);
    else if (c.flag()) { // a window of the window is a window
      int w3[4]; window(c, e.w, e.h, w3);
      GDALTranslate t3; for (int i = 0; i < 4; ++i) t3.anSrcWin[i] = w3[i];
      GDALDataset* v3 = t3.translate(v); PBT_CHECK(c, v3, "window " << text(w3) << " of the window refused");
      gg::DS own3; if (v3 != v) own3.reset(v3);
      std::vector<int> a; for (size_t i = 0; i < e.b.size(); ++i) a.push_back(i + 1);
      compare(c, "window of the window", crop(e, w3, w3[2], w3[3], a), v3, true, false);
      int w4[4] = {win[0] + w3[0], win[1] + w3[1], w3[2], w3[3]};
      Model direct = crop(m, w4, w4[2], w4[3], bands); if (md) { direct.md["ADDED"] = "yes"; direct.md["MSAT_DATETIME"] = "other"; }
      compare(c, "window of the window, at once", direct, v3, true, false);
      c.label("window of a window");
    }
    PBT_CHECK(c, v != s || (bands == all && exact && !md && win[2] == m.w && win[3] == m.h), "the image itself is returned although it has to change");
  }
}

PBT_SUB("windows in projected coordinates", 5000, 150000) {
  Model m = gen(c); if (!m.hasgt) c.discard();
  int win[4]; window(c, m.w, m.h, win);
  bool rot = m.gt[2] != 0 || m.gt[4] != 0;
  GDALTranslate t;
  int dx = 0, dy = 0; bool outside = c.chance(1, 4);
  if (outside) { dx = c.pick({-m.w - 1, m.w, 0, -m.w - 3}); dy = dx == 0 ? c.pick({-m.h - 1, m.h, m.h + 5}) : 0; }
  t.dfULX = m.gt[0] + (win[0] + dx) * m.gt[1]; t.dfULY = m.gt[3] + (win[1] + dy) * m.gt[5];
  t.dfLRX = t.dfULX + win[2] * m.gt[1]; t.dfLRY = t.dfULY + win[3] * m.gt[5];
  c.describe(Str() << m.w << "x" << m.h << " window " << text(win) << (outside ? " moved outside" : ""));
  if (t.dfULX == 0 && t.dfULY == 0 && t.dfLRX == 0 && t.dfLRY == 0) c.discard();
  c.nontrivial();
  gg::DS src = make(m);
  GDALDataset* v = t.translate(src.get());
  gg::DS own; if (v != src.get()) own.reset(v);
  if (rot || outside) { PBT_CHECK(c, !v, (rot ? "a rotated image" : "a place outside the image") << " is accepted"); c.label("refused"); return; }
  PBT_CHECK(c, v, "refused: " << CPLGetLastErrorMsg());
  std::vector<int> all; for (size_t i = 0; i < m.b.size(); ++i) all.push_back(i + 1);
  compare(c, "projected window", crop(m, win, win[2], win[3], all), v, true, false);
}

// The other choices of a translator: type, rescaling, missing value, bounds, projection, control points, palette
static double clampto(GDALDataType t, double v) {
  switch (t) {
    case GDT_Byte: return std::min(255.0, std::max(0.0, v));
    case GDT_UInt16: return std::min(65535.0, std::max(0.0, v));
    case GDT_Int16: return std::min(32767.0, std::max(-32768.0, v));
    case GDT_UInt32: return std::min(4294967295.0, std::max(0.0, v));
    case GDT_Int32: return std::min(2147483647.0, std::max(-2147483648.0, v));
    default: return v;
  }
}
static bool integral(GDALDataType t) { return t != GDT_Float32 && t != GDT_Float64; }
PBT_SUB("options of a translator", 8000, 250000) {
  Model m = gen(c);
  int win[4]; window(c, m.w, m.h, win);
  int ox = win[2], oy = win[3]; std::string sx, sy;
  if (c.chance(1, 4)) { ox = 1 + c.below(3 * win[2]); oy = 1 + c.below(3 * win[3]); sx = std::to_string(ox); sy = std::to_string(oy); c.label("resized"); }
  bool exact = ox == win[2] && oy == win[3];
  GDALTranslate t;
  for (int i = 0; i < 4; ++i) t.anSrcWin[i] = win[i];
  if (!sx.empty()) { t.pszOXSize = sx.c_str(); t.pszOYSize = sy.c_str(); }
  std::string what;
  GDALDataType ot = GDT_Unknown;
  if (c.chance(1, 3)) { ot = t.eOutputType = c.pick({GDT_Byte, GDT_UInt16, GDT_Int16, GDT_Int32, GDT_UInt32, GDT_Float32, GDT_Float64}); what += " type"; c.label("type"); }
  bool nd = c.chance(1, 3); double ndv = c.pick({0.0, 3.0, 200.0, 255.0}); if (nd) { t.bSetNoData = TRUE; t.dfNoDataReal = ndv; what += " missing value"; c.label("missing value"); }
  bool bounds = c.chance(1, 4); double b4[4];
  if (bounds) { double x = c.range(-5000, 5000) * 1000.0, y = c.range(-5000, 5000) * 1000.0; b4[0] = x; b4[1] = y; b4[2] = x + (1 + c.below(5000)) * 1000.0; b4[3] = y - (1 + c.below(5000)) * 1000.0; memcpy(t.adfULLR, b4, sizeof b4); t.bGotBounds = TRUE; what += " bounds"; c.label("bounds"); }
  std::string srs; double newlon = 0;
  if (c.chance(1, 4)) { newlon = c.range(-170, 170); OGRSpatialReference o; gg::geos(o, newlon); char* w = nullptr; o.exportToWkt(&w); srs = w; CPLFree(w); t.pszOutputSRS = (char*)srs.c_str(); what += " projection"; c.label("projection"); }
  std::vector<Model::G> gcps;
  if (c.chance(1, 4)) {
    int n = 1 + c.below(5); for (int i = 0; i < n; ++i) gcps.push_back({c.range(0, 100) / 2.0, c.range(0, 100) / 2.0, c.real(-90, 90), c.real(-90, 90)});
    t.nGCPCount = n; t.pasGCPs = (GDAL_GCP*)CPLCalloc(n, sizeof(GDAL_GCP)); GDALInitGCPs(n, t.pasGCPs);
    for (int i = 0; i < n; ++i) { t.pasGCPs[i].dfGCPPixel = gcps[i].px; t.pasGCPs[i].dfGCPLine = gcps[i].ln; t.pasGCPs[i].dfGCPX = gcps[i].x; t.pasGCPs[i].dfGCPY = gcps[i].y; }
    what += " control points"; c.label("control points");
  }
  bool scale = c.chance(1, 3), given = false; double s0 = 0, s1 = 255, d0 = 0, d1 = 255;
  if (scale) {
    t.bScale = TRUE; given = c.flag(); what += " scale";
    if (given) { s0 = c.range(-200, 200); s1 = c.chance(1, 8) ? s0 : s0 + 1 + c.below(1000); t.bHaveScaleSrc = TRUE; t.dfScaleSrcMin = s0; t.dfScaleSrcMax = s1; }
    if (c.flag()) { d0 = c.range(-100, 300); d1 = c.chance(1, 8) ? d0 : c.range(-100, 3000); t.dfScaleDstMin = d0; t.dfScaleDstMax = d1; }
    c.label(given ? "scale" : "scale from the data");
  }
  bool md = c.chance(1, 6); if (md) { t.papszMetadataOptions = CSLSetNameValue(nullptr, "ADDED", "a=b c"); what += " metadata"; }
  c.describe(Str() << m.w << "x" << m.h << ", " << m.b.size() << " bands, window " << text(win) << " to " << ox << "x" << oy << what);
  if (!what.empty()) c.nontrivial();
  int rounds = c.chance(1, 2) ? 2 : 1;
  for (int r = 0; r < rounds; ++r) {
    if (r) { // another image, large enough for the window
      Model n = gen(c); if (win[0] + win[2] > n.w || win[1] + win[3] > n.h) { n = m; for (auto& b : n.b) { std::reverse(b.v.begin(), b.v.end()); b.desc += "2"; } }
      m = n; c.label("second image");
    }
    gg::DS src = make(m);
    GDALDataset* v = t.translate(src.get());
    std::string w = r ? "second image" : "options";
    PBT_CHECK(c, v, w << " refused: " << CPLGetLastErrorMsg());
    gg::DS own; if (v != src.get()) own.reset(v);
    std::vector<int> all; for (size_t i = 0; i < m.b.size(); ++i) all.push_back(i + 1);
    Model e = crop(m, win, ox, oy, all);
    if (md) e.md["ADDED"] = "a=b c";
    if (!gcps.empty()) { e.gcps = gcps; e.hasgt = bounds; }
    if (bounds) { e.hasgt = true; e.gt[0] = b4[0]; e.gt[3] = b4[1]; e.gt[1] = (b4[2] - b4[0]) / ox; e.gt[5] = (b4[3] - b4[1]) / oy; e.gt[2] = e.gt[4] = 0; }
    if (!srs.empty()) { e.lon = newlon; e.hassrs = true; }
    for (auto& b : e.b) { if (ot != GDT_Unknown) b.type = ot; if (nd) { b.nodata = true; b.nd = ndv; } }
    bool same = ot == GDT_Unknown && !scale;
    compare(c, w, e, v, exact && same, false);
    if (!gcps.empty()) {
      const OGRSpatialReference* o = v->GetGCPSpatialRef();
      if (!srs.empty() || !m.gcps.empty()) PBT_CHECK(c, o && close(o->GetProjParm("central_meridian", 999), srs.empty() ? m.lon : newlon), w << ": projection of the control points");
    } else if (!srs.empty()) PBT_CHECK(c, v->GetSpatialRef() && close(v->GetSpatialRef()->GetProjParm("central_meridian", 999), newlon), w << ": the projection given is not there");
    if (!exact) { if (same) resampled(c, m, win, v, all); continue; }
    if (same) continue;
    for (size_t i = 0; i < e.b.size(); ++i) { // the values, read as the type that was asked for
      const Band& b = e.b[i];
      double a0 = s0, a1 = s1, f = 1, off = 0;
      if (scale) {
        if (!given) { double mm[2] = {0, 0}; GDALComputeRasterMinMax(src->GetRasterBand(i + 1), TRUE, mm); a0 = mm[0]; a1 = mm[1]; }
        if (a0 == a1) a1 += 0.1;
        double e1 = d0 == d1 ? d1 + 0.1 : d1;
        f = (e1 - d0) / (a1 - a0); off = d0 - a0 * f;
      }
      std::vector<double> got((size_t)e.w * e.h);
      PBT_CHECK(c, v->GetRasterBand(i + 1)->RasterIO(GF_Read, 0, 0, e.w, e.h, got.data(), e.w, e.h, GDT_Float64, 0, 0, nullptr) == CE_None, w << ": pixels cannot be read: " << CPLGetLastErrorMsg());
      for (size_t j = 0; j < got.size(); ++j) {
        double raw = b.v[j] * f + off, x = clampto(b.type, raw);
        double tol = (integral(b.type) ? 0.501 : 0) + (scale || b.type == GDT_Float32 ? 1e-6 * (fabs(b.v[j] * f) + fabs(off)) : 1e-9);
        if (b.nodata && got[j] == b.nd) continue;
        if (b.nodata && fabs(x - b.nd) < 1.001) continue; // moved off the missing value
        if (fabs(got[j] - x) > tol) c.fail(Str() << w << ": band " << i + 1 << " pixel " << j % e.w << "," << j / e.w << " is " << got[j] << " instead of " << x << " (source " << b.v[j] << " x " << f << " + " << off << ", " << GDALGetDataTypeName(b.type) << ")");
      }
    }
    compare(c, "source after the translation", m, src.get(), true, false);
  }
}

PBT_SUB("palettes", 3000, 60000) {
  Model m = gen(c);
  for (auto& b : m.b) if (b.type != GDT_Byte) { b.type = GDT_Byte; for (auto& x : b.v) x = (int)fabs(x) % 256; }
  int win[4]; window(c, m.w, m.h, win);
  std::vector<int> bands; for (size_t i = 0; i < m.b.size(); ++i) bands.push_back(i + 1);
  GDALTranslate t; for (int i = 0; i < 4; ++i) t.anSrcWin[i] = win[i];
  if (c.chance(1, 2)) { bands.clear(); int n = 1 + c.below(m.b.size() + 2); for (int i = 0; i < n; ++i) bands.push_back(1 + c.below(m.b.size())); setbands(t, bands, m); c.label("chosen bands"); }
  t.nRGBExpand = c.pick({3, 4});
  bool with = !c.chance(1, 6);
  std::vector<GDALColorEntry> pal(256); for (auto& e : pal) { e.c1 = c.below(256); e.c2 = c.below(256); e.c3 = c.below(256); e.c4 = c.below(256); }
  c.describe(Str() << m.w << "x" << m.h << ", " << bands.size() << " bands, window " << text(win) << " expanded to " << t.nRGBExpand << (with ? "" : ", no palette"));
  c.nontrivial();
  gg::DS src = make(m);
  if (with) { GDALColorTable ct; for (int i = 0; i < 256; ++i) ct.SetColorEntry(i, &pal[i]); src->GetRasterBand(bands[0])->SetColorTable(&ct); }
  for (int r = 0; r < 2; ++r) {
    GDALDataset* v = t.translate(src.get());
    gg::DS own; if (v && v != src.get()) own.reset(v);
    if (!with) { PBT_CHECK(c, !v, "an image without palette is accepted"); continue; }
    PBT_CHECK(c, v, "refused: " << CPLGetLastErrorMsg());
    int want = bands.size() - 1 + t.nRGBExpand;
    PBT_CHECK(c, v->GetRasterCount() == want && v->GetRasterXSize() == win[2] && v->GetRasterYSize() == win[3], v->GetRasterCount() << " bands instead of " << want);
    for (int i = 0; i < want; ++i) {
      GDALRasterBand* rb = v->GetRasterBand(i + 1);
      const Band& s = m.b[bands[i < t.nRGBExpand ? 0 : i - t.nRGBExpand + 1] - 1];
      if (i < t.nRGBExpand) PBT_CHECK(c, rb->GetColorInterpretation() == GCI_RedBand + i, "band " << i + 1 << " has color " << GDALGetColorInterpretationName(rb->GetColorInterpretation()));
      else PBT_CHECK(c, s.desc == rb->GetDescription(), "band " << i + 1 << " is " << rb->GetDescription() << " instead of " << s.desc);
      std::vector<double> got((size_t)win[2] * win[3]);
      PBT_CHECK(c, rb->RasterIO(GF_Read, 0, 0, win[2], win[3], got.data(), win[2], win[3], GDT_Float64, 0, 0, nullptr) == CE_None, "pixels cannot be read: " << CPLGetLastErrorMsg());
      for (int y = 0; y < win[3]; ++y) for (int x = 0; x < win[2]; ++x) {
        double o = s.v[(size_t)(win[1] + y) * m.w + win[0] + x]; const GDALColorEntry& e = pal[(int)o];
        double w = i >= t.nRGBExpand ? o : i == 0 ? e.c1 : i == 1 ? e.c2 : i == 2 ? e.c3 : e.c4;
        if (got[(size_t)y * win[2] + x] != w) c.fail(Str() << "band " << i + 1 << " pixel " << x << "," << y << " is " << got[(size_t)y * win[2] + x] << " instead of " << w);
      }
    }
  }
}

PBT_SUB("impossible windows", 10000, 300000) {
  Model m = gen(c);
  int win[4]; window(c, m.w, m.h, win);
  GDALTranslate t;
  std::string sx, sy;
  int k = c.below(9); int big = c.pick({INT_MAX, INT_MAX - 1, 1 << 30, 65536, 4000});
  switch (k) {
    case 0: win[0] = -1 - c.below(5); break;
    case 1: win[1] = -1 - c.below(5); break;
    case 2: win[2] = c.pick({0, -1, -5, INT_MIN}); if (win[2] == 0 && win[3] == 0) win[3] = 1; break;
    case 3: win[3] = c.pick({0, -1, -5, INT_MIN}); break;
    case 4: win[0] = m.w - win[2] + 1 + c.below(3); break;
    case 5: win[1] = m.h - win[3] + 1 + c.below(3); break;
    case 6: win[c.below(4)] = big; break;
    case 7: setbands(t, {1, c.pick({0, -1, (int)m.b.size() + 1, INT_MAX})}, m); break;
    default: sx = c.pick<std::string>({"0", "-5", "0%", "", "x"}); sy = c.pick<std::string>({"5", "100%", "0"}); if (c.flag()) std::swap(sx, sy); t.pszOXSize = sx.c_str(); t.pszOYSize = sy.c_str();
  }
  for (int i = 0; i < 4; ++i) t.anSrcWin[i] = win[i];
  c.describe(Str() << "case " << k << ": " << m.w << "x" << m.h << " window " << text(win) << " " << sx << " " << sy);
  c.nontrivial();
  gg::DS src = make(m);
  GDALDataset* v = t.translate(src.get());
  gg::DS own; if (v != src.get()) own.reset(v);
  PBT_CHECK(c, !v, "accepted");
  if (k < 7) {
    msat::proj::ImageBox box(msat::proj::ImagePoint(win[0], win[1]), msat::proj::ImagePoint((long)win[0] + win[2], (long)win[1] + win[3]));
    if ((long)win[0] + win[2] < INT_MAX && (long)win[1] + win[3] < INT_MAX && win[2] > -1000 && win[3] > -1000 && win[0] < 100000 && win[1] < 100000) {
      gg::DS r(msat::dataset::recode(src.get(), box, "", gg::mem()));
      PBT_CHECK(c, !r, "accepted by the conversion");
    }
  }
}

PBT_SUB("conversion", 4000, 100000) {
  Model m = gen(c);
  if (!m.gcps.empty() && m.hasgt) m.gcps.clear(); // a file has one or the other
  GDALDataType t0 = m.b[0].type;
  std::string drv = c.pick<std::string>({"GTiff", "GTiff", "MEM", "ENVI"});
  { // most formats have one pixel type and one missing value
    for (auto& b : m.b) if (b.type != t0) { b.type = t0; for (auto& v : b.v) v = t0 == GDT_Byte ? (int)fabs(v) % 256 : t0 == GDT_UInt16 ? (int)fabs(v) % 65536 : t0 == GDT_Int16 ? (int)v % 32768 : t0 == GDT_Int32 ? (double)(int)v : (double)(float)v; }
    for (auto& b : m.b) { b.nodata = m.b[0].nodata; b.nd = m.b[0].nd; }
  }
  if (drv == "ENVI") { m.gcps.clear(); m.gt[2] = m.gt[4] = 0; m.gt[5] = -fabs(m.gt[5]); m.hassrs = false; m.hasgt = true; }
  int win[4]; window(c, m.w, m.h, win);
  int ox = win[2], oy = win[3]; bool resize = c.chance(1, 3);
  if (resize) { ox = 1 + c.below(2 * win[2]); oy = 1 + c.below(2 * win[3]); c.label("resized"); }
  bool full = win[2] == m.w && win[3] == m.h;
  c.describe(Str() << drv << " " << m.w << "x" << m.h << ", " << m.b.size() << " bands of " << GDALGetDataTypeName(t0) << ", window " << text(win) << " to " << ox << "x" << oy);
  c.nontrivial(); c.label(drv);
  c.dir();
  gg::DS src = make(m);
  std::string file = drv == "MEM" ? "" : "out.dat";
  GDALDriver* d = GetGDALDriverManager()->GetDriverByName(drv.c_str());
  PBT_CHECK(c, d, "harness: no driver " << drv);
  msat::proj::ImageBox box(msat::proj::ImagePoint(win[0], win[1]), msat::proj::ImagePoint(win[0] + win[2], win[1] + win[3]));
  // creation options of the format, in any of the three places
  static const char* OPTS[3] = {"COMPRESS=DEFLATE", "TILED=YES", "INTERLEAVE=BAND"}; std::string o[3]; bool asked[3] = {false, false, false}; if (drv == "GTiff") { int first = c.below(3), step = c.flag() ? 1 : 2; for (int i = 0; i < 3; ++i) if ((asked[i] = c.flag())) { o[(first + i * step) % 3] = OPTS[i]; c.label(OPTS[i]); } }
  gg::DS r;
  if (full && c.flag()) r.reset(msat::dataset::recode(src.get(), ox, oy, file, d, o[0], o[1], o[2]));
  else if (!resize) r.reset(msat::dataset::recode(src.get(), box, file, d, o[0], o[1], o[2]));
  else r.reset(msat::dataset::recode(src.get(), box, ox, oy, file, d, o[0], o[1], o[2]));
  PBT_CHECK(c, r, "not converted: " << CPLGetLastErrorMsg());
  if (drv != "MEM") { r.reset(); r.reset((GDALDataset*)GDALOpen(file.c_str(), GA_ReadOnly)); PBT_CHECK(c, r, "cannot be read back"); }
  if (drv == "GTiff") { auto meta = [&](const char* k) { const char* v = r->GetMetadataItem(k, "IMAGE_STRUCTURE"); return std::string(v ? v : ""); }; int bx, by; r->GetRasterBand(1)->GetBlockSize(&bx, &by);
    PBT_CHECK(c, (meta("COMPRESSION") == "DEFLATE") == asked[0], "compression " << meta("COMPRESSION") << " with options " << o[0] << " " << o[1] << " " << o[2]); PBT_CHECK(c, (bx == 256 && by == 256) == asked[1] || (bx == r->GetRasterXSize() && r->GetRasterXSize() == 256), "blocks of " << bx << "x" << by << " with options " << o[0] << " " << o[1] << " " << o[2]);
    PBT_CHECK(c, (meta("INTERLEAVE") == "BAND") == (asked[2] || m.b.size() == 1), "interleaving " << meta("INTERLEAVE") << " with options " << o[0] << " " << o[1] << " " << o[2]); }
  std::vector<int> all; for (size_t i = 0; i < m.b.size(); ++i) all.push_back(i + 1);
  bool exact = ox == win[2] && oy == win[3];
  compare(c, drv, crop(m, win, ox, oy, all), r.get(), exact, drv != "MEM");
  if (!exact) resampled(c, m, win, r.get(), all);
  // the source is left as it was
  compare(c, "source after the conversion", m, src.get(), true, false);
}

PBT_SUB("windows of GRIB images", 300, 10000) {
  gg::Img im = gg::gen(c, true); if (im.allmissing()) c.discard();
  int win[4]; window(c, im.w, im.h, win);
  gg::Img e = im; e.w = win[2]; e.h = win[3]; e.x0 += win[0]; e.y0 += win[1]; e.setgt(); e.raw.clear(); e.missing.clear();
  for (int y = 0; y < win[3]; ++y) for (int x = 0; x < win[2]; ++x) { size_t i = (size_t)(y + win[1]) * im.w + x + win[0]; e.raw.push_back(im.raw[i]); e.missing.push_back(im.missing[i]); }
  c.describe(Str() << im.text() << " window " << text(win));
  if (e.allmissing()) c.discard();
  c.nontrivial();
  c.dir();
  gg::DS src = im.mem();
  GDALDriver* d = GetGDALDriverManager()->GetDriverByName("MsatGRIB");
  msat::proj::ImageBox box(msat::proj::ImagePoint(win[0], win[1]), msat::proj::ImagePoint(win[0] + win[2], win[1] + win[3]));
  gg::DS r(msat::dataset::recode(src.get(), box, "o.grb", d, Str() << "TEMPLATE=" << c.pick<const char*>({"msat/wmo", "msat/ecmwf", "msat/msat"})));
  PBT_CHECK(c, r, "not written: " << CPLGetLastErrorMsg());
  PBT_CHECK(c, r->GetRasterXSize() == win[2] && r->GetRasterYSize() == win[3], "size " << r->GetRasterXSize() << "x" << r->GetRasterYSize());
  double gt[6]; r->GetGeoTransform(gt);
  for (int i = 0; i < 6; ++i) PBT_CHECK(c, fabs(gt[i] - e.gt[i]) < 1e-2, "georeferencing element " << i << " is " << gt[i] << " instead of " << e.gt[i]);
  PBT_CHECK(c, gg::meta(r.get(), "MSAT_DATETIME") == im.time && gg::meta(r->GetRasterBand(1), "MSAT_CHANNELID") == std::to_string(im.ch.id), "time or channel");
  std::vector<double> v(e.raw.size());
  PBT_CHECK(c, r->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, e.w, e.h, v.data(), e.w, e.h, GDT_Float64, 0, 0, nullptr) == CE_None, "pixels");
  double lo = 1e300, hi = -1e300; for (size_t i = 0; i < v.size(); ++i) if (!e.missing[i]) { lo = std::min(lo, e.physical(i)); hi = std::max(hi, e.physical(i)); }
  double nd = r->GetRasterBand(1)->GetNoDataValue(), err = (hi - lo) / 4095 + 2e-6 * std::max(fabs(lo), fabs(hi));
  for (size_t i = 0; i < v.size(); ++i) if (e.missing[i] ? v[i] != nd : fabs(v[i] - e.physical(i)) > err) c.fail(Str() << "pixel " << i << " is " << v[i] << (e.missing[i] ? " instead of missing" : " instead of ") << e.physical(i));
}

PBT_MAIN("P11", "an image of generated bands, types, metadata and georeferencing, cut, resized or converted with a generated window that is smaller than the image, or an impossible window")
