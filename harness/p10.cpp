// P10: GRIB written and read back
#include "pbt.h"
#include <gdal/gdal_priv.h>
#include <gdal/ogr_spatialref.h>
#include <gdal/cpl_conv.h>
#include <gdal/cpl_string.h>
#include <gdal/grib/grib.h>
#include <grib_api.h>
#include "gdalgen.h"
using pbt::Str;

static int dummy = (pbt::init_hook() = [] { CPLSetErrorHandler(gg::quiet); GDALRegister_MEM(); GDALRegister_MsatGRIB(); }, 0);

static const char* TEMPLATES[3] = {"msat/wmo", "msat/ecmwf", "msat/msat"};

static gg::DS write(const std::string& file, GDALDataset* src, const char* tmpl) {
  char** opts = nullptr; if (tmpl) opts = CSLSetNameValue(opts, "TEMPLATE", tmpl);
  GDALDriver* d = GetGDALDriverManager()->GetDriverByName("MsatGRIB");
  gg::DS r(d->CreateCopy(file.c_str(), src, FALSE, opts, nullptr, nullptr));
  CSLDestroy(opts);
  return r;
}
struct Stored { long edition, bits, count; bool bitmap; };
static Stored stored(pbt::Ctx& c, const std::string& file) {
  FILE* f = fopen(file.c_str(), "rb"); PBT_CHECK(c, f, "no file was written");
  int err; grib_handle* h = grib_handle_new_from_file(0, f, &err); PBT_CHECK(c, h, "not a GRIB message: " << grib_get_error_message(err));
  Stored s; grib_get_long(h, "editionNumber", &s.edition); grib_get_long(h, "bitsPerValue", &s.bits); long b = 0; grib_get_long(h, "bitmapPresent", &b); s.bitmap = b;
  grib_handle_delete(h);
  h = grib_handle_new_from_file(0, f, &err); s.count = h ? 2 : 1; if (h) grib_handle_delete(h);
  fclose(f); return s;
}

// Compares a GRIB with the image it was made of; err is the error that earlier steps may have made
// (the first edition has no seconds)
static std::string kept(const std::string& time, int tmpl) { return tmpl == 0 ? time : time.substr(0, 17) + "00"; }
static double check(pbt::Ctx& c, const gg::Img& im, GDALDataset* ds, const std::string& file, int tmpl, double olderr, std::string time = "") {
  if (time.empty()) time = im.time;
  time = kept(time, tmpl);
  const char* T = TEMPLATES[tmpl];
  Stored st = stored(c, file);
  PBT_CHECK(c, st.edition == (tmpl == 0 ? 2 : 1) && st.count == 1, T << ": edition " << st.edition << ", messages " << st.count);
  PBT_CHECK(c, ds->GetRasterXSize() == im.w && ds->GetRasterYSize() == im.h && ds->GetRasterCount() == 1, T << ": size " << ds->GetRasterXSize() << "x" << ds->GetRasterYSize() << "x" << ds->GetRasterCount());
  PBT_CHECK(c, gg::meta(ds, "MSAT_SPACECRAFTID") == std::to_string(im.sat.wmo) && gg::meta(ds, "MSAT_SPACECRAFT") == im.sat.name, T << ": satellite " << gg::meta(ds, "MSAT_SPACECRAFTID") << " " << gg::meta(ds, "MSAT_SPACECRAFT"));
  PBT_CHECK(c, gg::meta(ds, "MSAT_DATETIME") == time, T << ": time " << gg::meta(ds, "MSAT_DATETIME") << " instead of " << time);
  const OGRSpatialReference* sr = ds->GetSpatialRef(); PBT_CHECK(c, sr, "no projection");
  double lon = sr->GetProjParm("central_meridian", 999);
  PBT_CHECK(c, fabs(lon - im.lon) < 1e-3, T << ": projection longitude " << lon << " instead of " << im.lon);
  const char* pn = sr->GetAttrValue("PROJECTION");
  PBT_CHECK(c, pn && std::string(pn) == "Geostationary_Satellite" && fabs(sr->GetProjParm("satellite_height", 0) - 35785831) < 1, T << ": projection " << (pn ? pn : "none"));
  double gt[6]; PBT_CHECK(c, ds->GetGeoTransform(gt) == CE_None, T << ": no georeferencing");
  for (int i = 0; i < 6; ++i) PBT_CHECK(c, fabs(gt[i] - im.gt[i]) <= 1e-9 * fabs(im.gt[i]) + 1e-3, T << ": georeferencing element " << i << " is " << gt[i] << " instead of " << im.gt[i]);
  GDALRasterBand* rb = ds->GetRasterBand(1);
  PBT_CHECK(c, gg::meta(rb, "MSAT_CHANNELID") == std::to_string(im.ch.id) && gg::meta(rb, "MSAT_CHANNEL") == im.ch.name && std::string(im.ch.name) == rb->GetDescription(), T << ": channel " << gg::meta(rb, "MSAT_CHANNELID") << " " << gg::meta(rb, "MSAT_CHANNEL") << " " << rb->GetDescription());
  PBT_CHECK(c, std::string(rb->GetUnitType()) == gg::unit(im.ch.id), T << ": unit " << rb->GetUnitType());
  int ok = 0; double nd = rb->GetNoDataValue(&ok); PBT_CHECK(c, ok, T << ": no missing value");
  PBT_CHECK(c, rb->GetScale() == 1 && rb->GetOffset() == 0, T << ": scale " << rb->GetScale() << " offset " << rb->GetOffset());
  std::vector<double> v((size_t)im.w * im.h, -12345);
  PBT_CHECK(c, rb->RasterIO(GF_Read, 0, 0, im.w, im.h, v.data(), im.w, im.h, GDT_Float64, 0, 0, nullptr) == CE_None, T << ": pixels cannot be read");
  double lo = 1e300, hi = -1e300; size_t missing = 0;
  for (size_t i = 0; i < v.size(); ++i) if (im.missing[i]) ++missing; else { lo = std::min(lo, im.physical(i)); hi = std::max(hi, im.physical(i)); }
  PBT_CHECK(c, st.bitmap == (missing > 0), T << ": " << missing << " missing pixels, bitmap " << st.bitmap);
  if (hi > lo) PBT_CHECK(c, st.bits >= 12, T << ": only " << st.bits << " bits per value");
  double steps = st.bits > 0 ? ldexp(1, st.bits) - 1 : 1;
  double err = olderr + (hi > lo ? (hi - lo) / steps : 0) + 2e-6 * std::max(fabs(lo), fabs(hi));
  for (size_t i = 0; i < v.size(); ++i) {
    if (im.missing[i]) { if (v[i] != nd) c.fail(Str() << T << ": missing pixel " << i % im.w << "," << i / im.w << " reads " << v[i] << ", missing value " << nd); }
    else if (fabs(v[i] - im.physical(i)) > err) c.fail(Str() << T << ": pixel " << i % im.w << "," << i / im.w << " is " << v[i] << " instead of " << im.physical(i) << " (precision " << err << ", " << st.bits << " bits)");
  }
  return err;
}

PBT_SUB("round trip", 2500, 80000) {
  gg::Img im = gg::gen(c, true);
  if (c.flag()) im.time = gg::anytime(c, true);
  c.describe(im.text());
  if (im.allmissing()) c.discard();
  c.nontrivial(); c.label(im.ch.name);
  c.dir();
  gg::DS src = im.mem();
  double gt0[6]; bool have = false;
  for (int t = 0; t < 3; ++t) {
    std::string f = Str() << "o" << t << ".grb";
    bool usedefault = t == 0 && c.flag();
    { gg::DS r = write(f, src.get(), usedefault ? nullptr : TEMPLATES[t]);
      PBT_CHECK(c, r, TEMPLATES[t] << ": not written: " << CPLGetLastErrorMsg());
      if (c.flag()) check(c, im, r.get(), f, t, 0); }
    gg::DS r((GDALDataset*)GDALOpen(f.c_str(), GA_ReadOnly));
    PBT_CHECK(c, r, TEMPLATES[t] << ": does not open: " << CPLGetLastErrorMsg());
    double err = check(c, im, r.get(), f, t, 0);
    double gt[6]; r->GetGeoTransform(gt);
    if (have) { for (int i = 0; i < 6; ++i) PBT_CHECK(c, fabs(gt[i] - gt0[i]) < 1e-6, "templates differ in georeferencing element " << i << ": " << gt[i] << " and " << gt0[i]); }
    else { memcpy(gt0, gt, sizeof gt); have = true; }
    bool ambiguous = false; // a value that happens to be the missing value of the channel
    { std::vector<double> v((size_t)im.w * im.h); (void)!r->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, im.w, im.h, v.data(), im.w, im.h, GDT_Float64, 0, 0, nullptr);
      double nd = r->GetRasterBand(1)->GetNoDataValue(); for (size_t i = 0; i < v.size(); ++i) if (!im.missing[i] && v[i] == nd) ambiguous = true; }
    if (!ambiguous && c.chance(1, 3)) { // and once more, with any template
      int u = c.below(3);
      gg::DS q = write("again.grb", r.get(), TEMPLATES[u]);
      PBT_CHECK(c, q, "not written again with " << TEMPLATES[u] << ": " << CPLGetLastErrorMsg());
      c.label("second generation");
      check(c, im, q.get(), "again.grb", u, err, kept(im.time, t));
    }
  }
}

// The same image as another program may store it: other scales and packings, something before or after the message
PBT_SUB("stored differently", 600, 20000) {
  gg::Img im = gg::gen(c, true);
  if (im.allmissing()) c.discard();
  int t = c.below(3);
  c.describe(Str() << TEMPLATES[t] << " " << im.text());
  c.nontrivial();
  c.dir();
  { gg::DS src = im.mem(); gg::DS r = write("o.grb", src.get(), TEMPLATES[t]); PBT_CHECK(c, r, "not written: " << CPLGetLastErrorMsg()); }
  FILE* f = fopen("o.grb", "rb"); PBT_CHECK(c, f, "no file was written");
  int err; grib_handle* h = grib_handle_new_from_file(0, f, &err); fclose(f); PBT_CHECK(c, h, "not a GRIB message: " << grib_get_error_message(err));
  auto set = [&](const char* k, long v) { int e = grib_set_long(h, k, v); if (e) c.fail(Str() << "harness: " << k << " " << v << ": " << grib_get_error_message(e)); };
  if (t == 0) {
    long v = 0; grib_get_long(h, "scaledValueOfCentralWaveNumber", &v);
    int k = c.below(4); if (k) { for (int i = 0; i < k; ++i) v *= 10; set("scaleFactorOfCentralWaveNumber", k); set("scaledValueOfCentralWaveNumber", v); c.label("scaled wave number"); }
  }
  long bits = 0; grib_get_long(h, "bitsPerValue", &bits);
  if (bits && c.flag()) { // the values stored with more bits
    grib_set_double(h, "missingValue", -1e30); /* the usual 9999 can be a value */ size_t n = (size_t)im.w * im.h; std::vector<double> v(n); grib_get_double_array(h, "values", v.data(), &n);
    set("bitsPerValue", bits + c.below(25 - std::min(24L, bits))); if (grib_set_double_array(h, "values", v.data(), n)) c.fail("harness: values"); c.label("more bits");
  }
  const void* b; size_t n; grib_get_message(h, &b, &n); std::string msg((const char*)b, n); grib_handle_delete(h);
  if (c.flag()) { msg = c.chars(1 + c.below(60), "HIMA01 EDZW\r\n\x01\x03") + msg; c.label("something before"); }
  if (c.flag()) { msg += c.chars(1 + c.below(30), std::string("\r\n\x03\0x", 5)); c.label("something after"); }
  std::ofstream("p.grb", std::ios::binary) << msg;
  gg::DS r((GDALDataset*)GDALOpen("p.grb", GA_ReadOnly));
  PBT_CHECK(c, r, "does not open: " << CPLGetLastErrorMsg());
  check(c, im, r.get(), "p.grb", t, 0);
}

// What the format or the projection cannot express is refused, and nothing crashes
PBT_SUB("refusals", 600, 20000) {
  gg::Img im = gg::gen(c, false);
  const char* tmpl = TEMPLATES[c.below(3)];
  std::string out = "o.grb";
  gg::DS src;
  bool refuse = true;
  int k = c.below(9);
  c.dir();
  switch (k) {
    case 0: src = im.mem(); { gg::DS s2(gg::mem()->Create("", im.w, im.h, 1, GDT_Float32, nullptr)); s2->SetGeoTransform(im.gt); src = std::move(s2); } c.label("no projection"); break;
    case 1: { src = im.mem(); OGRSpatialReference o; o.SetWellKnownGeogCS("WGS84"); src->SetSpatialRef(&o); c.label("another projection"); break; }
    case 2: { im.gt[1] *= c.real(1.01, 2); src = im.mem(); c.label("another pixel size"); break; }
    case 3: { im.gt[c.pick({2, 4})] = c.real(0.1, 10); src = im.mem(); c.label("rotated"); break; }
    case 4: { im.gt[5] *= c.pick({-1.0, 1.5, 3.0}); src = im.mem(); c.label("another pixel height"); break; }
    case 5: { im.nodata = true; std::fill(im.missing.begin(), im.missing.end(), 1); im.fix(); src = im.mem(); c.label("all missing"); break; }
    case 6: src = im.mem(); tmpl = c.pick<const char*>({"", "wmo", "msat", "msat/WMO", "x/y"}); c.label("unknown template"); break;
    case 7: src = im.mem(); out = c.pick<std::string>({"nodir/o.grb", ".", "o.grb"}); c.label("unwritable"); break;
    default: { OGRSpatialReference o; o.SetGEOS(0, c.pick({35786000.0, 35785863.0, 1000.0}), 0, 0); src = im.mem(); src->SetSpatialRef(&o); c.label("another orbit"); break; }
  }
  if (im.allmissing() && k != 5) c.discard();
  c.describe(Str() << "case " << k << " " << tmpl << " " << im.text());
  c.nontrivial();
  gg::DS r; std::unique_ptr<pbt::FullDisk> full; if (k == 7 && out == "o.grb") { full.reset(new pbt::FullDisk(c.below(90))); c.label("full disk"); }
  try { r = write(out, src.get(), tmpl); }
  catch (std::exception& e) { c.fail(Str() << "an exception leaves the driver: " << e.what()); }
  PBT_CHECK(c, !r == refuse, (r ? "accepted" : "refused"));
}

// Files that only look like GRIB, or are damaged, are refused or give an error: nothing else
PBT_SUB("damaged files", 1200, 40000) {
  gg::Img im = gg::gen(c, false);
  if (im.allmissing()) c.discard();
  c.dir();
  { gg::DS src = im.mem(); gg::DS r = write("o.grb", src.get(), TEMPLATES[c.below(3)]); PBT_CHECK(c, r, "not written"); }
  std::ifstream in("o.grb", std::ios::binary); std::stringstream ss; ss << in.rdbuf(); std::string b = ss.str();
  int n = c.below(4);
  if (c.chance(1, 3)) { b.resize(c.below(b.size())); c.label("truncated"); }
  // only the sections before the data: the packed data is the library's matter
  for (int i = 0; i < n && b.size() > 8; ++i) { size_t p = 8 + c.below(std::min<size_t>(b.size() - 8, 240)); b[p] = c.below(256); c.label("byte changed"); }
  if (c.chance(1, 8)) { b = b.substr(0, 4) + c.chars(c.below(200), std::string("\0\1\2GRIB7", 8)); c.label("random"); }
  std::ofstream("d.grb", std::ios::binary) << b;
  c.describe(Str() << b.size() << " bytes, " << n << " changed, " << im.text());
  c.nontrivial();
  gg::DS r;
  r.reset((GDALDataset*)GDALOpen("d.grb", GA_ReadOnly));
  if (!r) { c.label("refused"); return; }
  c.label("opened");
  double gt[6]; r->GetGeoTransform(gt);
  long w = r->GetRasterXSize(), h = r->GetRasterYSize();
  if (w < 1 || h < 1 || w * h > 4000000) { c.label("implausible size"); return; }
  std::vector<double> v((size_t)w * h);
  CPLErr e = r->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, w, h, v.data(), w, h, GDT_Float64, 0, 0, nullptr);
  c.label(e == CE_None ? "read" : "read refused");
}

PBT_MAIN("P10", "an image with generated satellite, channel, time, area, values and missing pixels, written as GRIB and compared after reading back (or an unsuitable image or damaged file that is refused)")
