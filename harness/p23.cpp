// P23: NetCDF files written and read back
#include "xritmodel.h"
#include "tool.h"
#include "gdalgen.h"
#include "hrigen.h"
#include <filesystem>
#include <msat/hri/HRI.h>
#include <msat/hrit/MSG_HRIT.h>
#include <gdal/cpl_conv.h>
#include <gdal/netcdf/netcdf.h>
#include <gdal/netcdf/netcdf24.h>
#include <gdal/reflectance/reflectance.h>
#include <gdal/reflectance/sat_za.h>
#include <gdal/reflectance/cos_sol_za.h>
#include <gdal/reflectance/jday.h>
#include <netcdf.h>
#include "ncfile.h"
#include <cmath>
using pbt::Str;

static int dummy = (pbt::init_hook() = [] { CPLSetErrorHandler(gg::quiet); GDALRegister_MEM(); GDALRegister_MsatNetCDF(); GDALRegister_MsatNetCDF24(); }, 0);

// ---- images with several bands and any type
struct Band { gg::Chan ch; std::string name; GDALDataType type; double scale = 1, offset = 0, nd = 0; bool scaled = false, nodata = true; std::string unit; std::vector<double> v; };
struct Multi { gg::Img g; std::vector<Band> b; bool chans = true;
  std::string text() const { std::string s = Str() << g.sat.name << " " << g.time << " longitude " << g.lon << ", " << g.w << "x" << g.h << " at " << g.x0 << "," << g.y0 << " pixel " << g.px << ":"; for (auto& x : b) s += Str() << " " << x.name << " " << GDALGetDataTypeName(x.type) << " scale " << x.scale << " offset " << x.offset << (x.nodata ? " nodata " + std::to_string(x.nd) : std::string()); return s; }
  gg::DS mem() const {
    gg::DS d(gg::mem()->Create("", g.w, g.h, 0, GDT_Byte, nullptr)); g.dress(d.get());
    for (size_t i = 0; i < b.size(); ++i) {
      if (d->AddBand(b[i].type, nullptr) != CE_None) throw std::runtime_error("harness: no band");
      GDALRasterBand* r = d->GetRasterBand(i + 1); r->SetDescription(b[i].name.c_str());
      if (chans) { r->SetMetadataItem("MSAT_CHANNELID", std::to_string(b[i].ch.id).c_str()); r->SetMetadataItem("MSAT_CHANNEL", b[i].ch.name); }
      if (b[i].scaled) { r->SetScale(b[i].scale); r->SetOffset(b[i].offset); } if (b[i].nodata) r->SetNoDataValue(b[i].nd); if (!b[i].unit.empty()) r->SetUnitType(b[i].unit.c_str());
      if (r->RasterIO(GF_Write, 0, 0, g.w, g.h, (void*)b[i].v.data(), g.w, g.h, GDT_Float64, 0, 0, nullptr) != CE_None) throw std::runtime_error("harness: cannot fill the image");
    }
    return d;
  }
};
static void limits(GDALDataType t, double& lo, double& hi) {
  switch (t) { case GDT_Byte: lo = 0; hi = 255; break; case GDT_Int16: lo = -32768; hi = 32767; break; case GDT_UInt16: lo = 0; hi = 65535; break; case GDT_Int32: lo = -2147483648.; hi = 2147483647.; break; case GDT_UInt32: lo = 0; hi = 4294967295.; break; default: lo = -1e6; hi = 1e6; } }
static Multi multi(pbt::Ctx& c, bool v24) {
  Multi m; gg::Img& im = m.g;
  im.sat = gg::SATS[c.below(v24 ? 2 : 4)]; im.hrv = c.chance(1, 3); im.px = im.hrv ? gg::PXHRV : gg::PX; int size = im.hrv ? 11136 : 3712, half = im.hrv ? 5568 : 1856;
  if (!v24 && c.chance(1, 4)) { int k = c.pick({2, 3, 4, 8}); im.px = gg::PX * k; size = 3712 / k; half = 1856 / k; im.hrv = false; c.label("coarser pixels"); }
  im.time = gg::anytime(c, true); if (c.chance(1, 6)) im.time = std::to_string(c.range(1980, 1999)) + im.time.substr(4, 1) + "01-01" + im.time.substr(10);
  im.lon = gg::anylon(c); im.w = 1 + c.below(c.chance(1, 10) ? 300 : 25); im.h = 1 + c.below(c.chance(1, 10) ? 300 : 25);
  im.x0 = c.chance(1, 6) ? c.pick({0, size - im.w, half}) : c.below(std::max(1, size - im.w + 1)); im.y0 = c.chance(1, 6) ? c.pick({0, size - im.h, half}) : c.below(std::max(1, size - im.h + 1));
  im.gt[0] = -(half - im.x0) * im.px; im.gt[1] = im.px; im.gt[2] = im.gt[4] = 0; im.gt[3] = (half - im.y0) * im.px; im.gt[5] = -im.px;
  int n = c.chance(1, 3) ? 2 + c.below(3) : 1, first = c.below(12); m.chans = v24 || !c.chance(1, 8);
  for (int k = 0; k < n; ++k) {
    Band b; b.ch = gg::CHANS[(first + k * 5) % 12]; b.name = c.chance(3, 4) ? std::string(b.ch.name) : c.chars(1 + c.below(12), "abcXYZ_019") ; if (isdigit((unsigned char)b.name[0])) b.name = "v" + b.name; b.name += k ? "_" + std::to_string(k) : "";
    if (b.name == "time") b.name = "t";
    b.type = c.pick({GDT_Byte, GDT_UInt16, GDT_Int16, GDT_Int32, GDT_UInt32, GDT_Float32, GDT_Float64}); c.label(GDALGetDataTypeName(b.type));
    double lo, hi; limits(b.type, lo, hi); bool f = b.type == GDT_Float32 || b.type == GDT_Float64; if (f && c.flag()) { lo = 180; hi = 330; }
    if ((b.scaled = c.chance(2, 3))) { b.scale = c.real(-2, 2); if (b.scale == 0) b.scale = 1; b.offset = c.chance(1, 4) ? 1 : c.real(-300, 300); }
    if (c.flag()) b.unit = c.flag() ? gg::unit(b.ch.id) : c.chars(1 + c.below(8), "KWm%1/");
    b.nodata = c.chance(3, 4); b.nd = c.chance(1, 2) ? 0 : f ? c.pick({-9999.0, 1e10, -1.5}) : c.pick({lo, hi, nearbyint(lo + (hi - lo) * c.real(0, 1))}); if (b.type == GDT_Float32) b.nd = (float)b.nd;
    auto noise = c.bytes((size_t)im.w * im.h * 4); b.v.resize((size_t)im.w * im.h);
    for (size_t i = 0; i < b.v.size(); ++i) { uint32_t r; memcpy(&r, &noise[i * 4], 4); double v = r % 16 == 0 ? lo : r % 16 == 1 ? hi : r % 16 == 2 && b.nodata ? b.nd : lo + (hi - lo) * (r / 4294967295.0); if (!f) v = nearbyint(v); if (b.type == GDT_Float32) v = (float)v; b.v[i] = v; }
    m.b.push_back(b);
  }
  return m;
}
static gg::DS nccopy(const char* driver, const std::string& file, GDALDataset* src) { return gg::DS(GetGDALDriverManager()->GetDriverByName(driver)->CreateCopy(file.c_str(), src, FALSE, nullptr, nullptr, nullptr)); }
static gg::DS ncopen(const std::string& f) { return gg::DS((GDALDataset*)GDALOpen(f.c_str(), GA_ReadOnly)); }

// ---- the file as the C library shows it
static void check(pbt::Ctx& c, const Multi& m, GDALDataset* ds, const std::string& file, bool v24) {
  const gg::Img& im = m.g;
  PBT_CHECK(c, ds->GetRasterXSize() == im.w && ds->GetRasterYSize() == im.h && ds->GetRasterCount() == (int)m.b.size(), "size " << ds->GetRasterXSize() << "x" << ds->GetRasterYSize() << "x" << ds->GetRasterCount());
  PBT_CHECK(c, gg::meta(ds, "MSAT_SPACECRAFTID") == std::to_string(im.sat.wmo) && gg::meta(ds, "MSAT_SPACECRAFT") == im.sat.name, "satellite " << gg::meta(ds, "MSAT_SPACECRAFTID") << " " << gg::meta(ds, "MSAT_SPACECRAFT"));
  PBT_CHECK(c, gg::meta(ds, "MSAT_DATETIME") == im.time, "time " << gg::meta(ds, "MSAT_DATETIME") << " instead of " << im.time);
  const OGRSpatialReference* sr = ds->GetSpatialRef(); PBT_CHECK(c, sr, "no projection");
  double lon = sr->GetProjParm("central_meridian", 999); PBT_CHECK(c, fabs(lon - im.lon) < 1e-4, "projection longitude " << lon << " instead of " << im.lon);
  const char* pn = sr->GetAttrValue("PROJECTION"); PBT_CHECK(c, pn && std::string(pn) == "Geostationary_Satellite" && fabs(sr->GetProjParm("satellite_height", 0) - 35785831) < 1, "projection " << (pn ? pn : "none"));
  double gt[6]; PBT_CHECK(c, ds->GetGeoTransform(gt) == CE_None, "no georeferencing");
  for (int i = 0; i < 6; ++i) PBT_CHECK(c, fabs(gt[i] - im.gt[i]) <= 3e-7 * (im.px / gg::PX + 1) * fabs(im.gt[i]) + 1e-6, "georeferencing element " << i << " is " << gt[i] << " instead of " << im.gt[i]);
  for (size_t k = 0; k < m.b.size(); ++k) {
    const Band& b = m.b[k]; GDALRasterBand* rb = ds->GetRasterBand(k + 1); std::string B = Str() << "band " << k + 1 << " (" << GDALGetDataTypeName(b.type) << ") ";
    PBT_CHECK(c, b.name == rb->GetDescription(), B << "is called " << rb->GetDescription() << " instead of " << b.name);
    PBT_CHECK(c, rb->GetRasterDataType() == b.type, B << "has type " << GDALGetDataTypeName(rb->GetRasterDataType()));
    if (m.chans) PBT_CHECK(c, gg::meta(rb, "MSAT_CHANNELID") == std::to_string(b.ch.id) && gg::meta(rb, "MSAT_CHANNEL") == b.ch.name, B << "channel " << gg::meta(rb, "MSAT_CHANNELID") << " " << gg::meta(rb, "MSAT_CHANNEL"));
    PBT_CHECK(c, std::string(rb->GetUnitType()) == b.unit, B << "unit " << rb->GetUnitType() << " instead of " << b.unit);
    PBT_CHECK(c, rb->GetScale() == b.scale && rb->GetOffset() == b.offset, B << "scale " << rb->GetScale() << " offset " << rb->GetOffset() << " instead of " << b.scale << " " << b.offset);
    int ok = 0; double nd = rb->GetNoDataValue(&ok); if (b.nodata) PBT_CHECK(c, ok && nd == b.nd, B << "no-data value " << nd << " instead of " << b.nd);
    std::vector<double> v(b.v.size(), -12345); PBT_CHECK(c, rb->RasterIO(GF_Read, 0, 0, im.w, im.h, v.data(), im.w, im.h, GDT_Float64, 0, 0, nullptr) == CE_None, B << "cannot be read: " << CPLGetLastErrorMsg());
    for (size_t i = 0; i < v.size(); ++i) if (v[i] != b.v[i]) c.fail(Str() << B << "pixel " << i % im.w << "," << i / im.w << " is " << v[i] << " instead of " << b.v[i]);
    if (c.chance(1, 4)) { int x = c.below(im.w), y = c.below(im.h), w = 1 + c.below(im.w - x), h = 1 + c.below(im.h - y); std::vector<double> p(w * h); PBT_CHECK(c, rb->RasterIO(GF_Read, x, y, w, h, p.data(), w, h, GDT_Float64, 0, 0, nullptr) == CE_None, B << "window"); for (int i = 0; i < w * h; ++i) PBT_CHECK(c, p[i] == b.v[(size_t)(y + i / w) * im.w + x + i % w], B << "window of " << w << "x" << h << " at " << x << "," << y << " differs"); }
  }
  Nc n(c, file); auto t = n.values(n.var("time")); PBT_CHECK(c, t.size() == 1 && t[0] == since2000(im.time), "the time coordinate of " << im.time << " is " << (t.empty() ? -1 : t[0]) << " instead of " << since2000(im.time));
  PBT_CHECK(c, n.text("units", n.var("time")) == "seconds since 2000-01-01 00:00:00 UTC" && n.text("Time") == im.time + " UTC", "time written as " << n.text("Time"));
  PBT_CHECK(c, n.dim("line") == (size_t)im.h && n.dim("column") == (size_t)im.w, "dimensions");
  if (v24) PBT_CHECK(c, n.num("LevelType") == im.sat.wmo && n.num("GribEditionNumber") == 1 && n.num("Year") == atoi(im.time.c_str()), "attributes");
  else PBT_CHECK(c, n.num("Columns") == im.w && n.num("Lines") == im.h && n.text("Conventions") == "COARDS", "attributes");
}
static void roundtrip(pbt::Ctx& c, bool v24) {
  const char* drv = v24 ? "MsatNetCDF24" : "MsatNetCDF"; std::string f = v24 ? "o.nc24" : "o.nc";
  Multi m = multi(c, v24); c.describe(m.text()); c.nontrivial(); c.dir();
  std::string tz = c.pick<std::string>({"", "UTC", "Europe/Rome", "XXX5YYY", "JST-9"}); if (tz.empty()) unsetenv("TZ"); else setenv("TZ", tz.c_str(), 1); tzset();
  gg::DS src = m.mem();
  { gg::DS r; try { r = nccopy(drv, f, src.get()); } catch (std::exception& e) { c.fail(Str() << "an exception leaves the driver: " << e.what()); }
    PBT_CHECK(c, r, "not written: " << CPLGetLastErrorMsg()); PBT_CHECK(c, r->GetDriver() == GetGDALDriverManager()->GetDriverByName(drv), "opened by " << r->GetDriver()->GetDescription()); if (c.flag()) check(c, m, r.get(), f, v24); }
  PBT_CHECK(c, tz.empty() ? !getenv("TZ") : getenv("TZ") && tz == getenv("TZ"), "the time zone was changed"); unsetenv("TZ"); tzset();
  gg::DS r = ncopen(f); PBT_CHECK(c, r, "does not open: " << CPLGetLastErrorMsg()); check(c, m, r.get(), f, v24);
  if (c.chance(1, 3)) { bool other = m.chans && m.g.sat.wmo <= 56 && (m.g.px == gg::PX || m.g.px == gg::PXHRV) && c.flag(); if (other) v24 = !v24; std::string f2 = v24 ? "p.nc24" : "p.nc"; gg::DS q = nccopy(v24 ? "MsatNetCDF24" : "MsatNetCDF", f2, r.get()); PBT_CHECK(c, q, "not written again: " << CPLGetLastErrorMsg()); c.label("second generation"); check(c, m, q.get(), f2, v24); }
}
PBT_SUB("round trip", 700, 30000) { roundtrip(c, false); }
PBT_SUB("round trip 24", 500, 20000) { roundtrip(c, true); }

// Products of written files: those of the image itself, or a refusal
PBT_SUB("products", 300, 10000) {
  bool v24 = c.flag(); Multi m = multi(c, v24); std::string f = v24 ? "o.nc24" : "o.nc"; c.dir(); c.nontrivial(); std::string p = c.pick<std::string>({"reflectance", "cos_sol_za", "sat_za", "jday", "other"}); c.describe(p + " of " + m.text()); c.label(p);
  { gg::DS s = m.mem(); gg::DS r = nccopy(v24 ? "MsatNetCDF24" : "MsatNetCDF", f, s.get()); PBT_CHECK(c, r, "not written"); }
  gg::DS plain = ncopen(f); PBT_CHECK(c, plain, "does not open"); std::string id = gg::meta(plain->GetRasterBand(1), "MSAT_CHANNELID"); gg::DS want; std::string why; GDALDataset* s = plain.get();
  try {
    if (p == "reflectance") { if (id.empty() || id == "4") throw std::runtime_error("no channel"); auto r = new msat::utils::ReflectanceDataset(atoi(id.c_str())); want.reset(r); r->add_source(s, false); r->init_rasterband(); }
    else if (p == "cos_sol_za") want.reset(new msat::utils::CosSolZADataset(s)); else if (p == "sat_za") want.reset(new msat::utils::SatZADataset(s)); else if (p == "jday") want.reset(new msat::utils::JDayDataset(s)); else throw std::runtime_error("unknown");
  } catch (std::exception& e) { want.reset(); why = e.what(); }
  char** o = CSLSetNameValue(nullptr, "MSAT_COMPUTE", p.c_str()); gg::DS d; std::string thrown; try { d.reset((GDALDataset*)GDALOpenEx(f.c_str(), GDAL_OF_RASTER, nullptr, o, nullptr)); } catch (std::exception& e) { thrown = e.what(); } CSLDestroy(o);
  PBT_CHECK(c, thrown.empty(), "an exception leaves the driver: " << thrown); PBT_CHECK(c, (bool)d == (bool)want, (d ? "opened although " + why : std::string("not opened: ") + CPLGetLastErrorMsg()));
  if (!d) { c.label("refused"); return; }
  int w = d->GetRasterXSize(), h = d->GetRasterYSize(); PBT_CHECK(c, w == m.g.w && h == m.g.h && d->GetRasterCount() == 1, "size"); PBT_CHECK(c, gg::meta(d.get(), "MSAT_DATETIME") == m.g.time, "time " << gg::meta(d.get(), "MSAT_DATETIME"));
  std::vector<double> a(w * h, -1), b(w * h, -2); PBT_CHECK(c, d->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, w, h, a.data(), w, h, GDT_Float64, 0, 0, nullptr) == CE_None && want->GetRasterBand(1)->RasterIO(GF_Read, 0, 0, w, h, b.data(), w, h, GDT_Float64, 0, 0, nullptr) == CE_None, "not read");
  for (int i = 0; i < w * h; ++i) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) c.fail(Str() << "pixel " << i % w << "," << i / w << " is " << a[i] << " instead of " << b[i]);
}

// What the formats cannot express is refused, and nothing crashes
PBT_SUB("refusals", 500, 20000) {
  bool v24 = c.flag(); Multi m = multi(c, v24); std::string f = v24 ? "o.nc24" : "o.nc"; c.dir(); c.nontrivial(); bool may = false; std::unique_ptr<pbt::FullDisk> full;
  gg::DS src; GDALDataType cplx = c.pick({GDT_CInt16, GDT_CInt32, GDT_CFloat32, GDT_CFloat64});
  int k = c.chance(1, 5) ? 7 : c.below(13);
  switch (k) {
    case 0: { gg::DS s(gg::mem()->Create("", m.g.w, m.g.h, 1, GDT_Float32, nullptr)); s->SetGeoTransform(m.g.gt); s->SetMetadataItem("MSAT_DATETIME", m.g.time.c_str()); s->SetMetadataItem("MSAT_SPACECRAFTID", "55"); s->SetMetadataItem("MSAT_SPACECRAFT", "MSG1"); s->GetRasterBand(1)->SetDescription("x"); src = std::move(s); c.label("no projection"); break; }
    case 1: { src = m.mem(); OGRSpatialReference o; o.SetWellKnownGeogCS("WGS84"); o.SetUTM(32); src->SetSpatialRef(&o); c.label("another projection"); break; }
    case 2: { m.g.gt[c.pick({2, 4})] = c.real(0.1, 10); src = m.mem(); c.label("rotated"); break; }
    case 3: { src = m.mem(); OGRSpatialReference o; o.SetGEOS(0, c.pick({35786000.0, 1000.0}), 0, 0); src->SetSpatialRef(&o); c.label("another orbit"); break; }
    case 4: { if (!c.flag()) m.b.resize(1); m.b.back().type = cplx; m.b.back().nodata = false; src = m.mem(); c.label("complex"); break; }
    case 5: { m.b.push_back(m.b[0]); src = m.mem(); c.label("two bands of the same name"); break; }
    case 6: { m.b.back().name = c.pick<std::string>({"", "a/b", "line ", " "}); src = m.mem(); c.label("name that cannot be"); break; }
    case 7: src = m.mem(); f = c.pick<std::string>({"nodir/o.nc", ".", f}); if (f[0] == 'o') { if (c.repeated) c.discard(); /* libnetcdf keeps a file open that it cannot flush */ gg::DS ok = nccopy(v24 ? "MsatNetCDF24" : "MsatNetCDF", f, src.get()); PBT_CHECK(c, ok, "not written"); ok.reset(); size_t n = slurp(f).size(); unlink(f.c_str()); full.reset(new pbt::FullDisk(c.below(n))); c.label("full disk"); } c.label("unwritable"); break;
    case 8: { m.b.back().name = "time"; src = m.mem(); c.label("band called time"); break; }
    case 9: if (!v24) { src = m.mem(); may = true; src->SetMetadataItem("MSAT_DATETIME", c.pick<const char*>({"x", "2010-01-01", "", nullptr})); c.label("no time"); } else { src = m.mem(); src->SetMetadataItem("MSAT_DATETIME", "2010-01-01"); } break;
    case 10: src = m.mem(); may = !v24; src->SetMetadataItem("MSAT_SPACECRAFTID", v24 ? c.pick<const char*>({nullptr, "57", "70", "x"}) : c.pick<const char*>({nullptr, "x"})); c.label("satellite"); break;
    case 11: if (v24) m.g.gt[1] *= c.real(1.01, 2); else m.g.gt[2] = 1; src = m.mem(); c.label("another pixel size"); break;
    default: if (!v24) { m.g.gt[4] = 1; src = m.mem(); break; } else { m.g.gt[5] *= c.pick({-1.0, 1.5, 3.0}); src = m.mem(); c.label("another pixel height"); } break;
  }
  c.describe(Str() << "case " << k << " " << f << " " << m.text());
  gg::DS r; try { r = nccopy(v24 ? "MsatNetCDF24" : "MsatNetCDF", f, src.get()); } catch (std::exception& e) { c.fail(Str() << "an exception leaves the driver: " << e.what()); }
  if (!may) PBT_CHECK(c, !r, "accepted");
}

// An image in latitude and longitude: its grid is written
PBT_SUB("latitude and longitude", 200, 6000) {
  Multi m = multi(c, false); double step = c.pick({0.01, 0.05, 0.1, 0.027}), lon0 = c.real(-60, 60), lat0 = c.real(-20, 60); m.g.w = 1 + c.below(60); m.g.h = 1 + c.below(60); for (auto& b : m.b) b.v.assign((size_t)m.g.w * m.g.h, 7);
  double g[6] = {lon0, step, 0, lat0, 0, -step}; memcpy(m.g.gt, g, sizeof g); c.describe(Str() << m.g.w << "x" << m.g.h << " from " << lat0 << "," << lon0 << " step " << step); c.nontrivial(); c.dir();
  gg::DS src = m.mem(); OGRSpatialReference o; o.SetWellKnownGeogCS("WGS84"); src->SetSpatialRef(&o);
  try { nccopy("MsatNetCDF", "o.nc", src.get()); } catch (std::exception& e) { c.fail(Str() << "an exception leaves the driver: " << e.what()); }
  Nc n(c, "o.nc"); auto la = n.values(n.var("latitude")), lo = n.values(n.var("longitude")); PBT_CHECK(c, la.size() == (size_t)m.g.h && lo.size() == (size_t)m.g.w, "grid of " << lo.size() << "x" << la.size());
  for (int i = 0; i < m.g.h; ++i) PBT_CHECK(c, fabs(la[i] - (lat0 - i * step)) < 1e-5, "latitude " << i << " is " << la[i] << " instead of " << lat0 - i * step);
  for (int i = 0; i < m.g.w; ++i) PBT_CHECK(c, fabs(lo[i] - (lon0 + i * step)) < 1e-5, "longitude " << i << " is " << lo[i] << " instead of " << lon0 + i * step);
  for (auto& b : m.b) { auto v = n.values(n.var(b.name.c_str())); PBT_CHECK(c, v.size() == b.v.size() && std::count(v.begin(), v.end(), 7) == (long)v.size(), "values"); }
}

// Files that another program wrote, or that are damaged, are refused or give errors: nothing else
static void readall(GDALDataset* d) {
  double gt[6]; d->GetGeoTransform(gt); d->GetSpatialRef(); d->GetMetadata("MSAT");
  for (int i = 1; i <= d->GetRasterCount(); ++i) { GDALRasterBand* b = d->GetRasterBand(i); int ok; b->GetNoDataValue(&ok); b->GetScale(); b->GetOffset(); b->GetUnitType(); b->GetMetadata();
    int w = std::min(d->GetRasterXSize(), 400), h = std::min(d->GetRasterYSize(), 400); std::vector<double> v((size_t)w * h + 1); (void)!b->RasterIO(GF_Read, 0, 0, w, h, v.data(), w, h, GDT_Float64, 0, 0, nullptr); }
}
static void mutate(pbt::Ctx& c, const std::string& f) { // one change of the structure
  int id; if (nc_open(f.c_str(), NC_WRITE, &id) != NC_NOERR) return; nc_redef(id);
  int nv = 0; nc_inq_nvars(id, &nv); int v = c.chance(1, 2) ? NC_GLOBAL : (int)c.below(nv), na = 0; if (v == NC_GLOBAL) nc_inq_natts(id, &na); else nc_inq_varnatts(id, v, &na);
  char name[NC_MAX_NAME + 1] = "";
  if (na) nc_inq_attname(id, v, c.below(na), name);
  switch (c.below(5)) {
    case 0: if (na) nc_del_att(id, v, name); c.label("attribute removed"); break;
    case 1: if (na) { nc_put_att_text(id, v, name, 0, ""); c.label("empty text"); } break;
    case 2: if (na) { double d = c.pick({0.0, -1.0, 1e30, (double)NAN, 1e9, 57.0, 2.5}); nc_del_att(id, v, name); nc_put_att_double(id, v, name, NC_DOUBLE, c.below(3), &d); c.label("number"); } break;
    case 3: if (na) { std::string t = c.chars(c.below(40), "0123456789-: UTCMSGx%sn"); nc_del_att(id, v, name); nc_put_att_text(id, v, name, t.size(), t.c_str()); c.label("text"); } break;
    default: { char n2[NC_MAX_NAME + 1]; int u = c.below(nv); nc_inq_varname(id, u, n2); nc_rename_var(id, u, (std::string("z") + n2).substr(0, 20).c_str()); c.label("variable renamed"); break; }
  }
  nc_enddef(id); nc_close(id);
}
static void foreign(pbt::Ctx& c, const std::string& f, bool v24) { // a file with any variables
  int id; if (nc_create(f.c_str(), c.flag() ? NC_CLOBBER : NC_CLOBBER | c.pick({NC_64BIT_OFFSET, NC_NETCDF4}), &id) != NC_NOERR) throw std::runtime_error("harness: cannot create");
  auto num = [&](int v, const char* n, double d) { nc_put_att_double(id, v, n, c.pick({NC_DOUBLE, NC_INT, NC_FLOAT}), 1, &d); };
  if (v24) { num(NC_GLOBAL, "GribEditionNumber", 1); num(NC_GLOBAL, "LevelType", 55); if (c.flag()) num(NC_GLOBAL, "SatelliteID", c.pick({55, 1, 70})); } else { std::string s = c.pick<std::string>({"MSG1", "MSG2", "", "unknown", "METEOSAT7"}); nc_put_att_text(id, NC_GLOBAL, "Satellite", s.size(), s.c_str()); if (c.flag()) nc_put_att_text(id, NC_GLOBAL, "Time", 23, "2010-02-03 04:05:06 UTC"); if (c.flag()) { num(NC_GLOBAL, "AreaStartPix", c.range(-5, 5)); num(NC_GLOBAL, "AreaStartLin", 1); } }
  int nd = 1 + c.below(5), dims[5]; for (int i = 0; i < nd; ++i) { std::string n = Str() << "d" << i; size_t l = c.pick({0, 1, 1, 2, 7, 30}); nc_def_dim(id, n.c_str(), l, &dims[i]); }
  if (v24 && c.chance(3, 4)) { int v; nc_def_var(id, "Projection", NC_INT, 0, nullptr, &v); for (auto n : {"Lop", "Xp", "Yp", "X0", "Y0", "DX", "DY"}) if (!c.chance(1, 10)) num(v, n, c.pick({0, 1856, 3622, 1, 5568, -1})); }
  int nv = c.below(4); for (int i = 0; i < nv; ++i) { int ids[4], n = c.pick({3, 3, 3, 0, 1, 2, 4}), v; for (int k = 0; k < n; ++k) ids[k] = dims[c.below(nd)]; std::string name = c.chance(1, 6) ? std::string("time") : "v" + std::to_string(i); nc_type t = c.pick({NC_BYTE, NC_CHAR, NC_SHORT, NC_INT, NC_FLOAT, NC_DOUBLE, NC_UBYTE, NC_UINT, NC_INT64, NC_STRING}); if (nc_def_var(id, name.c_str(), t, n, ids, &v) != NC_NOERR) continue; if (c.flag()) num(v, c.pick<const char*>({"chnum", "L1"}), c.range(-1, 13)); if (c.flag()) num(v, "add_offset", 1); if (c.chance(1, 3)) nc_put_att_text(id, v, "_Unsigned", 4, "true"); if (c.chance(1, 3)) num(v, "missing_value", -1); }
  nc_close(id);
}
PBT_SUB("damaged files", 900, 30000) {
  bool v24 = c.flag(); c.dir(); std::string f = v24 ? "o.nc24" : "o.nc"; c.nontrivial();
  if (c.chance(1, 3)) { foreign(c, f, v24); c.label("foreign file"); }
  else { Multi m = multi(c, v24); { gg::DS s = m.mem(); gg::DS r = nccopy(v24 ? "MsatNetCDF24" : "MsatNetCDF", f, s.get()); PBT_CHECK(c, r, "not written"); }
    int n = c.below(4); for (int i = 0; i < n; ++i) mutate(c, f);
    if (c.chance(1, 4)) { std::string b = slurp(f); b.resize(c.below(b.size() + 1)); xg::save(f, b); c.label("truncated"); } }
  c.describe(f);
  gg::DS d; try { d = ncopen(f); if (d) { c.label("opened"); readall(d.get()); if (c.chance(1, 3)) nccopy(c.flag() ? "MsatNetCDF24" : "MsatNetCDF", "p.nc", d.get()); } } catch (std::exception& e) { c.fail(Str() << "an exception leaves the driver: " << e.what()); }
}

// ---- the tools
struct Xrit { xg::Image im; std::map<int, std::vector<uint16_t>> whole; };
static Xrit xrit(pbt::Ctx& c) {
  Xrit x; xg::Image& im = x.im; auto& ch = xg::CHANS[c.below(12)]; im.chan = ch.name; im.chanid = ch.id; im.settime(c.range(2002, 2037), c.range(1, 12), c.range(1, 28), c.below(24), c.below(60));
  int k = c.below(4); static const int SC[] = {321, 322, 323, 324}; im.scid = SC[k]; im.prodid = Str() << "MSG" << k + 1; im.sat = im.prodid + "__"; im.lon = im.hdrlon = (float)c.pick({0.0, -3.4, 9.5, 41.5, 45.5});
  if (c.chance(1, 5)) im.res = "L"; im.cols = 1 + c.below(30); im.seglines = 1 + c.below(12); im.nsegs = 1 + c.below(10); im.coff = c.range(-6000, 6000); im.loff = c.range(-6000, 6000); im.cfac = -(int)c.range(1, 40927014); im.lfac = -(int)c.range(1, 40927014);
  for (int i = 0; i < 12; ++i) { im.slope[i] = c.real(0.001, 0.3); im.offset[i] = -51 * im.slope[i]; }
  for (int n = 1 + c.below(im.nsegs); n > 0; --n) { int s = c.chance(1, 2) ? n : 1 + (int)c.below(im.nsegs); im.seg[s] = samples(c, im.cols * im.seglines); }
  return x;
}
static std::string text(const xg::Image& im) { std::string l; for (auto& s : im.seg) l += " " + std::to_string(s.first); return Str() << im.prodid << " " << im.chan << " " << im.time << ", " << im.cols << " columns, segments of " << im.seglines << " lines, present" << l << " of " << im.nsegs; }
static const double NUC[8] = {2569.094, 1598.566, 1362.142, 1149.083, 1034.345, 930.659, 839.661, 752.381};
static const double AA[8] = {0.9959, 0.9963, 0.9991, 0.9996, 0.9999, 0.9983, 0.9988, 0.9981};
static const double BB[8] = {3.471, 2.2219, 0.485, 0.181, 0.060, 0.627, 0.397, 0.576};
static double temperature(int ch, double rad) {
  int k = ch - 4; return (1.43877 * NUC[k] / log(1.19104e-5 * NUC[k] * NUC[k] * NUC[k] / rad + 1) - BB[k]) / AA[k];
}
PBT_SUB("XRIT2NetCDF", 250, 8000) {
  c.dir(); Xrit x = xrit(c); const xg::Image& im = x.im; std::string dir = c.flag() ? "images" : "."; if (dir != ".") std::filesystem::create_directory(dir); im.save(dir); int h = im.seglines * im.nsegs, w = im.cols;
  std::vector<std::string> a{"-r", im.res, "-s", im.prodid, "-c", im.chan, "-t", im.time}; if (dir != ".") { a.push_back("-d"); a.push_back(dir); }
  int l0 = 0, p0 = 0, nl = h, np = w; bool bad = false;
  if (c.chance(1, 2)) { nl = 1 + c.below(h); np = 1 + c.below(w); l0 = c.below(h - nl + 1); p0 = c.below(w - np + 1); if ((bad = c.chance(1, 5))) { switch (c.below(4)) { case 0: l0 = h - nl + 1 + c.below(3); break; case 1: p0 = w - np + 1 + c.below(3); break; case 2: nl = -(int)c.below(3); break; default: (c.flag() ? l0 : p0) = -1 - (int)c.below(3); } } a.push_back("-a"); a.push_back(Str() << l0 + 1 << "," << nl << "," << p0 + 1 << "," << np); c.label(bad ? "area outside" : "area"); }
  std::string tz = anytz(c); c.describe(text(im) + args(a) + " TZ=" + tz); c.nontrivial();
  ToolRun r = runtool("XRIT2NetCDF", a); utc(); if (r.crashed) c.fail("XRIT2NetCDF " + why(r));
  std::string ch = im.chan; char t[64]; snprintf(t, sizeof t, "_%04d%02d%02d_%02d%02d.nc", im.y, im.mo, im.d, im.h, im.mi); std::string f; for (auto& e : std::filesystem::directory_iterator(".")) if (e.path().extension() == ".nc") { PBT_CHECK(c, f.empty(), "several files are written"); f = e.path().filename().string(); }
  if (bad) { PBT_CHECK(c, r.status != 0 && f.empty(), "an area outside the image is accepted"); return; }
  PBT_CHECK(c, r.status == 0, why(r)); PBT_CHECK(c, f.size() > strlen(t) && f.substr(f.size() - strlen(t)) == t, "the file is called " << f << " instead of ..." << t);
  std::string name = f.substr(0, f.size() - strlen(t)); Nc n(c, f); PBT_CHECK(c, n.dim("line") == (size_t)nl && n.dim("column") == (size_t)np && n.dim("time") == 1 && n.dim("calibration") == 1024, "dimensions " << n.dim("column") << "x" << n.dim("line"));
  int v = n.var(name.c_str()); auto px = n.values(v); PBT_CHECK(c, px.size() == (size_t)nl * np, "samples");
  for (int y = 0; y < nl; ++y) for (int xx = 0; xx < np; ++xx) { int gy = y + l0, gx = xx + p0; auto s = im.seg.find(gy / im.seglines + 1); int want = s == im.seg.end() ? 0 : (int16_t)s->second[(size_t)(gy % im.seglines) * w + gx]; if (px[(size_t)y * np + xx] != want) c.fail(Str() << "sample " << xx << "," << y << " is " << px[(size_t)y * np + xx] << " instead of " << want); }
  PBT_CHECK(c, n.num("chnum", v) == im.chanid && n.num("add_offset", v) == 0 && n.num("scale_factor", v) == 1, "channel " << n.num("chnum", v));
  PBT_CHECK(c, n.text("Satellite") == im.prodid, "satellite " << n.text("Satellite")); char when[64]; snprintf(when, sizeof when, "%04d-%02d-%02d %02d:%02d:00", im.y, im.mo, im.d, im.h, im.mi); PBT_CHECK(c, n.text("Time") == std::string(when) + " UTC", "time " << n.text("Time"));
  auto tv = n.values(n.var("time")); PBT_CHECK(c, tv.size() == 1 && tv[0] == since2000(when), "the time coordinate is " << tv[0] << " instead of " << since2000(when));
  PBT_CHECK(c, n.num("Columns") == np && n.num("Lines") == nl, "size"); PBT_CHECK(c, n.num("AreaStartPix") == p0 + 1 && n.num("AreaStartLin") == l0 + 1, "the area starts at " << n.num("AreaStartPix") << "," << n.num("AreaStartLin") << " instead of " << p0 + 1 << "," << l0 + 1);
  PBT_CHECK(c, n.num("Column_Scale_Factor") == im.cfac && n.num("Line_Scale_Factor") == im.lfac && n.num("Column_Offset") == im.coff && n.num("Line_Offset") == im.loff, "scaling"); PBT_CHECK(c, fabs(n.num("Longitude") - im.hdrlon) < 1e-4, "longitude " << n.num("Longitude"));
  auto cal = n.values(n.var("calibration")); bool th = im.chanid > 3 && im.chanid < 12; PBT_CHECK(c, n.text("units", n.var("calibration")) == (th ? "K" : "mW m^-2 sr^-1 (cm^-1)^-1"), "unit");
  if (!th) for (int i = 52; i < 1024; i += 97) { double e = i * im.slope[im.chanid - 1] + im.offset[im.chanid - 1]; PBT_CHECK(c, fabs(cal[i] - e) <= 1e-5 * fabs(e) + 1e-6, "count " << i << " is " << cal[i] << " instead of " << e); }
  else for (int i = 52; i < 1024; i += 97) { double e = temperature(im.chanid, i * im.slope[im.chanid - 1] + im.offset[im.chanid - 1]); PBT_CHECK(c, fabs(cal[i] - e) <= 0.01, "count " << i << " is " << cal[i] << " instead of " << e << " K"); }
}
PBT_SUB("XRIT2NetCDF, damaged images", 250, 8000) {
  c.dir(); Xrit x = xrit(c); xg::Image& im = x.im; c.nontrivial(); std::string what; im.save(".");
  std::vector<std::string> files{im.proname()}; for (auto& s : im.seg) files.push_back(im.segname(s.first));
  for (int n = 1 + c.below(2); n > 0; --n) {
    std::string f = c.pick(files); std::string b = slurp(f);
    switch (c.below(6)) {
      case 0: b.resize(c.below(b.size() + 1)); what += " truncated"; break;
      case 1: if (b.size() > 40) { b[c.below(std::min<size_t>(b.size(), 200))] = c.below(256); } what += " byte"; break;
      case 2: unlink(f.c_str()); what += " removed"; continue;
      case 3: if (f != im.proname()) { int k = im.seg.begin()->first; b = xg::file(0, xg::rec_struct(im.bpp, im.cols, im.seglines, 0) + (c.flag() ? xg::rec_navig(im.lonname(), im.cfac, im.lfac, im.coff, im.loff) : "") + xg::rec_annot(f) + xg::rec_segid(im.scid, im.chanid, c.pick({0, k, 500, 65535}), 1, c.pick({0, 1, im.nsegs}), c.pick({0, 3, 1})), std::string(c.below(2000), 'x')); what += " segment header"; } break;
      case 4: if (f != im.proname()) { b = xg::file(0, xg::rec_annot(f), std::string(100, 'x')); what += " without records"; } break;
      default: if (f != im.proname()) { b = xg::file(0, xg::rec_struct(c.pick({10, 16, 8, 1, 31}), c.below(60), c.below(30), 0) + xg::rec_navig("GEOS(+000.0)", 1, 1, 1, 1) + xg::rec_annot(f) + xg::rec_segid(im.scid, c.pick({im.chanid, 0, 13, 200}), 1, 1, im.nsegs, 3), std::string(c.below(2000), 'x')); what += " another size"; } break;
    }
    xg::save(f, b);
  }
  std::vector<std::string> a{"-r", im.res, "-s", im.prodid, "-c", im.chan, "-t", im.time}; if (c.chance(1, 4)) { a.push_back("-a"); a.push_back(c.pick<std::string>({"1,1,1,1", "x", "", "1", "0,0,0,0", "1,2,1,2000000000", "-5,3,2,2"})); } c.describe(text(im) + what);
  ToolRun r = runtool("XRIT2NetCDF", a); if (r.crashed) c.fail("XRIT2NetCDF " + why(r));
}
PBT_SUB("HRI2NetCDF", 60, 1500) {
  c.dir(); hrig::File f = hrig::gen(c, c.chance(1, 6)); while (f.tec) f = hrig::gen(c, false); std::string b = f.bytes; bool cut = c.chance(1, 4); if (cut) b.resize(c.below(b.size())); xg::save("x.hri", b); c.nontrivial(); std::string tz = anytz(c); c.describe(hrig::text(f) + " TZ=" + tz);
  ToolRun r = runtool("HRI2NetCDF", {"x.hri"}); utc(); if (r.crashed) c.fail("HRI2NetCDF " + why(r)); PBT_CHECK(c, (r.status == 0) == !cut, "exit status " << r.status << " for a " << (cut ? "cut" : "whole") << " file: " << why(r)); if (cut) return;
  Hri h; { auto* o = std::cout.rdbuf(nullptr); h.readfrom((char*)"x.hri", false); std::cout.rdbuf(o); std::cout.clear(); }
  struct tm tm = *h.get_datetime(); char t[64], when[64]; snprintf(t, sizeof t, "_%4d%02d%02d_%02d%02d.nc", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min); snprintf(when, sizeof when, "%04d-%02d-%02d %02d:%02d:00", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min);
  for (int i = 0; i < h.nimages; ++i) {
    HRI_image& im = h.image[i]; Nc n(c, std::string(h.get_satellite_name()) + "_" + h.get_area_name() + "_" + im.name + t); int v = n.var(im.name.c_str()); auto px = n.values(v); const unsigned char* d = im.get_image(); size_t k = (size_t)im.npixels * im.nlines;
    PBT_CHECK(c, n.dim("line") == (size_t)im.nlines && n.dim("column") == (size_t)im.npixels && px.size() == k, "size"); for (size_t q = 0; q < k; ++q) if ((uint8_t)(int8_t)px[q] != d[q]) c.fail(Str() << im.name << ": sample " << q << " is " << (int)(uint8_t)(int8_t)px[q] << " instead of " << (int)d[q]);
    float* cal = im.get_calibration(); auto cv = n.values(n.var("calibration")); PBT_CHECK(c, cv.size() == (size_t)ldexp(1, h.get_bits_per_pixel()), "calibration of " << cv.size()); for (size_t q = 0; q < cv.size(); ++q) PBT_CHECK(c, cv[q] == cal[q] || cv[q] != cv[q], "calibration " << q); PBT_CHECK(c, n.text("units", n.var("calibration")) == im.units && n.num("chnum", v) == im.get_image_band(), "unit or channel");
    PBT_CHECK(c, n.text("Satellite") == h.get_satellite_name() && n.text("Time") == std::string(when) + " UTC" && n.num("Columns") == im.npixels && n.num("Lines") == im.nlines && n.num("Longitude") == h.get_satellite_longitude(), "attributes");
    geolocation* g = h.get_geolocation(); PBT_CHECK(c, n.num("Column_Scale_Factor") == g->CFAC && n.num("Line_Scale_Factor") == g->LFAC && n.num("Column_Offset") == g->COFF && n.num("Line_Offset") == g->LOFF, "geolocation");
    auto tv = n.values(n.var("time")); PBT_CHECK(c, tv.size() == 1 && tv[0] == since2000(when), "the time coordinate is " << tv[0] << " instead of " << since2000(when));
  }
}
PBT_MAIN("P23", "an image with generated satellite, time, area, bands, types and values, written as NetCDF and compared after reading back (or refused), or image files converted by the NetCDF tools and compared")
