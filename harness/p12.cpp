// P12: pixels and their places on Earth
#include "pbt.h"
#include <gdal/gdal_priv.h>
#include <gdal/ogr_spatialref.h>
#include <msat/gdal/dataset.h>
#include <msat/gdal/gdaltranslate.h>
#include <gdal/reflectance/pixeltolatlon.h>
#include "gdalgen.h"
#include "geosmodel.h"
using pbt::Str;
using namespace msat::dataset;

static int dummy = (pbt::init_hook() = [] { CPLSetErrorHandler(gg::quiet); GDALRegister_MEM(); }, 0);

struct Geo { double lon, gt[6]; int w, h; std::string text; };
static Geo gen(pbt::Ctx& c) {
  Geo g; g.lon = gg::anylon(c); g.w = 1 + c.below(40); g.h = 1 + c.below(40);
  double px = c.pick({gg::PX, gg::PXHRV, gg::PX * 3, 10000.0, 250000.0});
  int half = (int)(5568800 / px) + 40;
  if (c.chance(1, 25)) { g.w = 1 + c.below(3712); g.h = c.flag() ? std::max(1, 40000 / g.w) : 1 + (int)c.below(std::max(1, 40000 / g.w)); if (c.flag()) std::swap(g.w, g.h); g.w = std::min(g.w, 2 * half); g.h = std::min(g.h, 2 * half); c.label("large"); }
  int x0, y0; // where the image begins, in pixels from the sub-satellite point
  switch (c.below(5)) {
    case 0: x0 = -g.w / 2; y0 = -g.h / 2; break;
    case 1: { double a = c.real(0, 2 * M_PI), r = 5430000 / px; x0 = (int)(r * cos(a)) - g.w / 2; y0 = (int)(r * sin(a)) - g.h / 2; c.label("at the limb"); break; }
    case 2: x0 = c.pick({-half, half - g.w}); y0 = c.pick({-half, half - g.h}); c.label("in the corner"); break;
    default: x0 = c.range(-half, half - g.w); y0 = c.range(-half, half - g.h);
  }
  g.gt[0] = x0 * px; g.gt[1] = px; g.gt[2] = 0; g.gt[3] = -y0 * px; g.gt[4] = 0; g.gt[5] = -px;
  if (c.chance(1, 10)) { g.gt[5] = px; c.label("south to north"); }
  if (c.chance(1, 10)) { double a = c.real(-1, 1); g.gt[1] = px * cos(a); g.gt[2] = px * sin(a); g.gt[4] = px * sin(a); g.gt[5] = -px * cos(a); c.label("rotated"); }
  if (c.chance(1, 10)) { g.gt[5] *= 2; c.label("oblong pixels"); }
  g.text = Str() << g.w << "x" << g.h << " pixels of " << px << " m at " << x0 << "," << y0 << ", longitude " << g.lon;
  return g;
}
static gg::DS make(const Geo& g) {
  gg::DS d(gg::mem()->Create("", g.w, g.h, 1, GDT_Byte, nullptr));
  OGRSpatialReference o; gg::geos(o, g.lon); d->SetSpatialRef(&o);
  double t[6]; memcpy(t, g.gt, sizeof t); d->SetGeoTransform(t);
  return d;
}
// Where the pixel is. 1: there, 0: in space, -1: too close to the limb to tell
static int place(const Geo& g, double x, double y, double& lat, double& lon) {
  double X = g.gt[0] + x * g.gt[1] + y * g.gt[2], Y = g.gt[3] + x * g.gt[4] + y * g.gt[5], m;
  bool on = geosm::inverse(X, Y, g.lon, lat, lon, m);
  if (fabs(m) < 1e-9) return -1;
  return on ? 1 : 0;
}
static void same(pbt::Ctx& c, const std::string& what, double lat, double lon, double elat, double elon, double m) {
  double f = 1e-7; // the limb magnifies rounding
  if (!(fabs(lat - elat) < f) || !(geosm::londiff(lon, elon) * cos(elat / geosm::R2D) < f)) c.fail(Str() << what << " is at " << lat << "," << lon << " instead of " << elat << "," << elon);
  if (fabs(lon) > 180 + 1e-9 || fabs(lat) > 90) c.fail(Str() << what << " is at " << lat << "," << lon);
}

PBT_SUB("pixels to places and back", 5000, 150000) {
  Geo g = gen(c); c.describe(g.text);
  gg::DS d = make(g);
  GeoReferencer r; PBT_CHECK(c, r.init(d.get()) == CE_None, "georeferencing refused: " << CPLGetLastErrorMsg());
  for (int k = 0; k < 12; ++k) {
    int x = c.below(g.w + 2) - 1, y = c.below(g.h + 2) - 1;
    double lat, lon, elat, elon, px, py;
    int e = place(g, x, y, elat, elon);
    std::string what = Str() << "pixel " << x << "," << y;
    r.pixelToProjected(x, y, px, py);
    double epx = g.gt[0] + x * g.gt[1] + y * g.gt[2], epy = g.gt[3] + x * g.gt[4] + y * g.gt[5];
    PBT_CHECK(c, fabs(px - epx) < 1e-6 && fabs(py - epy) < 1e-6, what << ": projected to " << px << "," << py << " instead of " << epx << "," << epy);
    int bx, by; r.projectedToPixel(px, py, bx, by);
    PBT_CHECK(c, bx == x && by == y, what << ": projected and back is " << bx << "," << by);
    // up to half a pixel off it is still the same pixel
    double ux = c.real(-0.49, 0.49), uy = c.real(-0.49, 0.49);
    r.projectedToPixel(px + ux * g.gt[1] + uy * g.gt[2], py + ux * g.gt[4] + uy * g.gt[5], bx, by);
    PBT_CHECK(c, bx == x && by == y, what << ": " << ux << "," << uy << " beside it is " << bx << "," << by);
    if (e < 0) continue;
    CPLErr res = r.pixelToLatlon(x, y, lat, lon);
    if (e == 0) { c.label("in space"); PBT_CHECK(c, res != CE_None || !std::isfinite(lat) || !std::isfinite(lon), what << ": in space but given the place " << lat << "," << lon); continue; }
    c.label("on Earth"); c.nontrivial();
    PBT_CHECK(c, res == CE_None, what << ": no place, instead of " << elat << "," << elon);
    same(c, what, lat, lon, elat, elon, 0);
    PBT_CHECK(c, r.latlonToPixel(lat, lon, bx, by) == CE_None, what << ": its place " << lat << "," << lon << " has no pixel");
    PBT_CHECK(c, bx == x && by == y, what << ": at " << lat << "," << lon << ", which is said to be pixel " << bx << "," << by);
  }
}

PBT_SUB("places to pixels", 5000, 150000) {
  Geo g = gen(c);
  double lat = c.chance(1, 8) ? c.pick({0.0, 90.0, -90.0, 81.0}) : c.real(-90, 90), lon = g.lon + (c.chance(1, 8) ? c.pick({0.0, 180.0, 81.0, -81.0}) : c.real(-180, 180));
  if (lon > 180) lon -= 360; if (lon < -180) lon += 360;
  c.describe(Str() << g.text << ", place " << lat << "," << lon);
  gg::DS d = make(g);
  GeoReferencer r; PBT_CHECK(c, r.init(d.get()) == CE_None, "georeferencing refused");
  double X, Y, vis; geosm::forward(lat, lon, g.lon, X, Y, vis);
  if (fabs(vis) < 1e-6) c.discard();
  double px, py; CPLErr res = r.latlonToProjected(lat, lon, px, py);
  int x, y; CPLErr res2 = r.latlonToPixel(lat, lon, x, y);
  PBT_CHECK(c, res == res2, "the two conversions disagree");
  if (vis < 0) { c.label("hidden"); PBT_CHECK(c, res != CE_None || !std::isfinite(px), "a place on the other side of the Earth is projected to " << px << "," << py); return; }
  c.nontrivial(); c.label("visible");
  PBT_CHECK(c, res == CE_None, "a visible place cannot be projected: " << CPLGetLastErrorMsg());
  PBT_CHECK(c, fabs(px - X) < 0.01 && fabs(py - Y) < 0.01, "projected to " << px << "," << py << " instead of " << X << "," << Y);
  double det = g.gt[1] * g.gt[5] - g.gt[2] * g.gt[4];
  double fx = ((X - g.gt[0]) * g.gt[5] - (Y - g.gt[3]) * g.gt[2]) / det, fy = ((Y - g.gt[3]) * g.gt[1] - (X - g.gt[0]) * g.gt[4]) / det;
  PBT_CHECK(c, fabs(x - fx) <= 0.5 + 1e-4 && fabs(y - fy) <= 0.5 + 1e-4, "pixel " << x << "," << y << " instead of " << fx << "," << fy);
  double bl, bo; PBT_CHECK(c, r.projectedToLatlon(px, py, bl, bo) == CE_None, "not back");
  if (vis > 0.01) same(c, "the place, projected and back,", bl, bo, lat, lon, 0);
}

PBT_SUB("windows of pixels", 3000, 80000) {
  Geo g = gen(c);
  gg::DS d = make(g);
  int x = c.below(g.w), y = c.below(g.h), sx = 1 + c.below(g.w - x), sy = 1 + c.below(g.h - y);
  if (c.chance(1, 4)) { x = 0; sx = g.w; }
  if (g.w * g.h > 1600 && c.chance(3, 4)) { x = y = 0; sx = g.w; sy = g.h; }
  c.describe(Str() << g.text << ", window " << x << "," << y << " " << sx << "x" << sy);
  msat::utils::PixelToLatlon p(d.get());
  size_t n = (size_t)sx * sy;
  std::vector<double> lat(n), lon(n);
  p.compute(x, y, sx, sy, lat.data(), lon.data());
  for (size_t i = 0; i < n; ++i) {
    double elat, elon; int px = x + i % sx, py = y + i / sx;
    int e = place(g, px, py, elat, elon);
    if (e < 0) continue;
    std::string what = Str() << "pixel " << px << "," << py;
    if (e == 0) { c.label("in space"); PBT_CHECK(c, !std::isfinite(lat[i]) || !std::isfinite(lon[i]), what << ": in space but given the place " << lat[i] << "," << lon[i]); continue; }
    c.label("on Earth"); c.nontrivial();
    PBT_CHECK(c, std::isfinite(lat[i]) && std::isfinite(lon[i]), what << ": no place, instead of " << elat << "," << elon);
    same(c, what, lat[i], lon[i], elat, elon, 0);
  }
  // the same pixels in an image cut out of this one
  int win[4] = {(int)c.below(g.w), (int)c.below(g.h), 0, 0}; win[2] = 1 + c.below(g.w - win[0]); win[3] = 1 + c.below(g.h - win[1]);
  GDALTranslate t; memcpy(t.anSrcWin, win, sizeof win);
  GDALDataset* v = t.translate(d.get()); PBT_CHECK(c, v, "window refused"); gg::DS own; if (v != d.get()) own.reset(v);
  msat::utils::PixelToLatlon q(v);
  int ax = c.below(win[2]), ay = c.below(win[3]); double l1[1], o1[1], l2[1], o2[1];
  q.compute(ax, ay, 1, 1, l1, o1); p.compute(win[0] + ax, win[1] + ay, 1, 1, l2, o2);
  double elat, elon; int e = place(g, win[0] + ax, win[1] + ay, elat, elon);
  if (e == 1) PBT_CHECK(c, fabs(*l1 - *l2) < 1e-6 && geosm::londiff(*o1, *o2) < 1e-5, "pixel " << ax << "," << ay << " of the window " << win[0] << "," << win[1] << " is at " << *l1 << "," << *o1 << ", in the image it is at " << *l2 << "," << *o2);
}

PBT_SUB("transformations", 200000, 5000000) {
  double t[6], v[6];
  double s = pow(10, c.range(-4, 6));
  for (int i = 0; i < 6; ++i) t[i] = c.real(-1, 1) * (i % 3 ? s : 1e7);
  int k = c.below(6);
  if (k == 0) { t[2] = t[4] = 0; }
  if (k == 1) { t[4] = t[1] = 0; c.label("degenerate"); }
  if (k == 2) { t[1] = t[2] = t[4] = t[5] = 0; c.label("degenerate"); }
  if (k == 3) { t[4] = t[1] * 2; t[5] = t[2] * 2; c.label("degenerate"); }
  c.describe(Str() << t[0] << " " << t[1] << " " << t[2] << " " << t[3] << " " << t[4] << " " << t[5]);
  double det = t[1] * t[5] - t[2] * t[4];
  CPLErr res = invertGeoTransform(t, v);
  if (k >= 1 && k <= 3) { if (k != 3) PBT_CHECK(c, res != CE_None, "a transformation without inverse is inverted"); return; }
  if (fabs(det) < 1e-14 || fabs(det) < 1e-3 * s * s) c.discard();
  c.nontrivial();
  PBT_CHECK(c, res == CE_None, "not inverted, determinant " << det);
  double x = c.real(-5000, 5000), y = c.real(-5000, 5000);
  double X = t[0] + x * t[1] + y * t[2], Y = t[3] + x * t[4] + y * t[5];
  double bx = v[0] + X * v[1] + Y * v[2], by = v[3] + X * v[4] + Y * v[5];
  double tol = 1e-9 * (5000 + 1e7 / s) * s * s / fabs(det) * 10;
  PBT_CHECK(c, fabs(bx - x) < tol && fabs(by - y) < tol, "there and back from " << x << "," << y << " is " << bx << "," << by);
}

PBT_SUB("image origin", 5000, 100000) {
  bool hrv = c.flag(); double px = hrv ? gg::PXHRV : gg::PX; int size = hrv ? 11136 : 3712;
  int x0 = c.below(size), y0 = c.below(size);
  Geo g; g.lon = gg::anylon(c); g.w = g.h = 1; g.gt[0] = -(size / 2 - x0) * px; g.gt[1] = px; g.gt[2] = g.gt[4] = 0; g.gt[3] = (size / 2 - y0) * px; g.gt[5] = -px * c.pick({1.0, 1.0, 1.25});
  if (g.gt[5] != -px) g.gt[3] *= 1.25;
  c.describe(Str() << "first pixel " << x0 << "," << y0 << (hrv ? " of the high-resolution grid" : ""));
  c.nontrivial();
  gg::DS d = make(g);
  int xs, ys; double psx, psy; decodeGeotransform(d.get(), xs, ys, psx, psy);
  PBT_CHECK(c, xs == size / 2 - x0 && ys == size / 2 - y0, "the sub-satellite point is said to be at " << xs << "," << ys << " instead of " << size / 2 - x0 << "," << size / 2 - y0);
  PBT_CHECK(c, psx == px && psy == -g.gt[5], "pixel size " << psx << "," << psy);
  OGRSpatialReference a, b; set_spaceview(a, g.lon); gg::geos(b, g.lon);
  PBT_CHECK(c, a.IsSame(&b), "the projection is not the published one");
  OGRSpatialReference w; std::string wkt = spaceviewWKT(g.lon); PBT_CHECK(c, w.importFromWkt(wkt.c_str()) == OGRERR_NONE && w.IsSame(&b), "the text of the projection is not that of the projection");
}

PBT_SUB("boxes", 100000, 2000000) {
  using namespace msat::proj;
  long a = c.range(-20000, 20000), b = c.range(-20000, 20000), d = c.range(-20000, 20000), e = c.range(-20000, 20000);
  c.describe(Str() << a << "," << b << " - " << d << "," << e);
  if (a > d || b > e) c.nontrivial();
  int x, y, w, h; ImageBox(ImagePoint(a, b), ImagePoint(d, e)).boundingBox(x, y, w, h);
  PBT_CHECK(c, x == std::min(a, d) && y == std::min(b, e) && w == labs(a - d) && h == labs(b - e), "image box " << x << "," << y << " " << w << "x" << h);
  double X, Y, W, H; ProjectedBox(ProjectedPoint(a, b), ProjectedPoint(d, e)).boundingBox(X, Y, W, H);
  PBT_CHECK(c, X == x && Y == y && W == w && H == h, "projected box " << X << "," << Y << " " << W << "x" << H);
  double la, lb, lc, ld; MapBox(MapPoint(a, b), MapPoint(d, e)).boundingBox(la, lb, lc, ld);
  PBT_CHECK(c, la == std::min(a, d) && lb == std::max(a, d) && lc == std::min(b, e) && ld == std::max(b, e), "map box " << la << " " << lb << " " << lc << " " << ld);
}

PBT_SUB("images without georeferencing", 2000, 40000) {
  Geo g = gen(c);
  gg::DS d(gg::mem()->Create("", g.w, g.h, 1, GDT_Byte, nullptr));
  int k = c.below(4); OGRSpatialReference o; gg::geos(o, g.lon);
  c.describe(Str() << "case " << k); c.nontrivial();
  double z[6] = {0, 0, 0, 0, 0, 0};
  switch (k) {
    case 0: d->SetGeoTransform(g.gt); break; // no projection
    case 1: d->SetSpatialRef(&o); break; // no place
    case 2: { OGRSpatialReference l; l.SetLocalCS("local"); d->SetSpatialRef(&l); d->SetGeoTransform(g.gt); break; }
    default: d->SetSpatialRef(&o); d->SetGeoTransform(z);
  }
  GeoReferencer r; CPLErr res = r.init(d.get());
  PBT_CHECK(c, res != CE_None, "accepted");
  if (k == 3) return;
  bool thrown = false; try { msat::utils::PixelToLatlon p(d.get()); } catch (std::exception&) { thrown = true; }
  PBT_CHECK(c, thrown, "accepted for windows of pixels");
}

PBT_MAIN("P12", "generated georeferencing (longitude, pixel size, origin on the disc, at its limb or outside, rotations) and pixels, compared with projection formulas worked out independently; non-trivial when a pixel or place is on the visible Earth")
