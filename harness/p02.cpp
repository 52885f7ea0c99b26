// P02: scan geometry conversions
#include "pbt.h"
#include <msat/facts.h>
using namespace msat::facts;
using pbt::Str;

static const double K = exp2(-16);
static const double H = ORBIT_RADIUS - EARTH_RADIUS; // km
static const double ST = 13642337 * K, HR = 40927000 * K;

// true value of the pixel size, from the definition of the scaling factor
static long double ref_px(long double cfac) { return (long double)H * 1000.0L * tanl((long double)M_PIl / 180.0L / cfac); }
static double ref_dia(double cfac) { return asin(EARTH_RADIUS / ORBIT_RADIUS) * 2 * (180 / M_PI) * cfac; }

static double gencfac(pbt::Ctx& c) {
  double v;
  switch (c.below(6)) {
    case 0: v = ST; break;
    case 1: v = HR; break;
    case 2: v = ST + c.range(-2000, 2000) * K; break;
    case 3: v = HR + c.range(-2000, 2000) * K; break;
    case 4: v = c.range(1 << 20, 60000000) * K; break;
    default: v = c.real(20, 1000); break;
  }
  return c.flag() ? -v : v;
}
static bool nominal_cfac(double v, double n) { return lround(fabs(v) / K) == lround(n / K); }

PBT_SUB("pixel size", 400000, 20000000) {
  double cf = gencfac(c);
  c.describe(Str() << "scaling factor " << cf << " (" << cf / K << ")");
  double h = pixelHSizeFromCFAC(cf), v = pixelVSizeFromLFAC(cf);
  PBT_CHECK(c, h == v, "horizontal " << h << " and vertical " << v << " differ");
  PBT_CHECK(c, pixelHSizeFromCFAC(-cf) == -h && pixelVSizeFromLFAC(-cf) == -v, "sign is not kept");
  double e = (double)ref_px(cf);
  bool nom = false;
  if (nominal_cfac(cf, ST)) { nom = true; c.label("standard"); PBT_CHECK(c, fabs(h) == METEOSAT_PIXELSIZE_X && (h > 0) == (cf > 0), "nominal standard size is " << h); }
  else if (nominal_cfac(cf, HR)) { nom = true; c.label("high resolution"); PBT_CHECK(c, fabs(h) == METEOSAT_PIXELSIZE_X_HRV && (h > 0) == (cf > 0), "nominal high-resolution size is " << h); }
  // the nominal sizes are rounded constants, a few millimetres from the formula
  PBT_CHECK(c, fabs(h - e) <= fabs(e) * (nom ? 1e-5 : 1e-11), "pixel size " << h << ", expected " << e);
  double back = CFACFromPixelHSize(h), backv = LFACFromPixelVSize(v);
  PBT_CHECK(c, back == backv, "inverse differs between axes");
  // sizes within a millimetre of a nominal size are taken as that size
  bool snap = fabs(fabs(h) - METEOSAT_PIXELSIZE_X) < 0.001 || fabs(fabs(h) - METEOSAT_PIXELSIZE_X_HRV) < 0.001;
  PBT_CHECK(c, fabs(back - cf) <= fabs(cf) * (snap ? 4e-6 : 1e-10), "scaling factor comes back as " << back);
  if (nom) PBT_CHECK(c, fabs(back - cf) <= 0.51 * K, "nominal factor comes back as " << back);
  c.nontrivial();
}

PBT_SUB("scaling factor", 400000, 20000000) {
  double px;
  switch (c.below(5)) {
    case 0: px = METEOSAT_PIXELSIZE_X; break;
    case 1: px = METEOSAT_PIXELSIZE_X_HRV; break;
    case 2: px = METEOSAT_PIXELSIZE_X + c.real(-0.01, 0.01); break;
    case 3: px = METEOSAT_PIXELSIZE_X_HRV + c.real(-0.01, 0.01); break;
    default: px = c.real(500, 30000); break;
  }
  if (c.flag()) px = -px;
  c.describe(Str() << "pixel size " << px);
  double h = CFACFromPixelHSize(px), v = LFACFromPixelVSize(px);
  PBT_CHECK(c, h == v, "axes differ: " << h << ", " << v);
  PBT_CHECK(c, CFACFromPixelHSize(-px) == -h, "sign is not kept");
  double a = fabs(px);
  if (fabs(a - METEOSAT_PIXELSIZE_X) < 0.0009) PBT_CHECK(c, fabs(h) == ST, "nominal standard factor is " << h);
  else if (fabs(a - METEOSAT_PIXELSIZE_X_HRV) < 0.0009) PBT_CHECK(c, fabs(h) == HR, "nominal high-resolution factor is " << h);
  PBT_CHECK(c, (h > 0) == (px > 0), "sign is not kept");
  double back = pixelHSizeFromCFAC(h), backv = pixelVSizeFromLFAC(v);
  PBT_CHECK(c, back == backv, "axes differ on the way back");
  PBT_CHECK(c, fabs(back - px) <= 0.012, "pixel size comes back as " << back);
  if (!nominal_cfac(h, ST) && !nominal_cfac(h, HR)) PBT_CHECK(c, fabs(back - px) <= a * 1e-10, "pixel size comes back as " << back);
  c.nontrivial();
}

PBT_SUB("diameter", 300000, 15000000) {
  double cf = fabs(gencfac(c));
  c.describe(Str() << "scaling factor " << cf);
  double e = ref_dia(cf);
  int d[4] = { seviriDXFromColumnRes(cf), seviriDYFromLineRes(cf), seviriDXFromCFAC(cf), seviriDYFromLFAC(cf) };
  for (int i = 0; i < 4; ++i) {
    PBT_CHECK(c, fabs(d[i] - e) <= 0.5 + 1e-6, "diameter " << d[i] << " (form " << i << "), expected " << e);
    PBT_CHECK(c, d[i] == d[0], "forms 0 and " << i << " differ: " << d[0] << ", " << d[i]);
  }
  // standard grid is special
  double px = pixelHSizeFromCFAC(cf);
  int dx = seviriDXFromPixelHSize(px), dy = seviriDYFromPixelVSize(px);
  PBT_CHECK(c, dx == dy, "axes differ");
  if (fabs(px - METEOSAT_PIXELSIZE_X) < 0.0009) PBT_CHECK(c, dx == 3622, "standard grid has diameter " << dx);
  else if (fabs(px - METEOSAT_PIXELSIZE_X) > 0.0011) PBT_CHECK(c, fabs(dx - e) <= 0.52, "diameter from pixel size " << dx << ", expected " << e);
  c.nontrivial();
}

PBT_SUB("diameter back", 300000, 15000000) {
  int dx;
  switch (c.below(4)) {
    case 0: dx = c.pick({3608, 3622, 3623, 3621, 3607, 3609, 10824, 10866}); break;
    case 1: dx = (int)c.range(3500, 3700); break;
    default: dx = (int)c.range(200, 20000); break;
  }
  c.describe(Str() << "diameter " << dx);
  double r[4] = { columnResFromSeviriDX(dx), lineResFromSeviriDY(dx), CFACFromSeviriDX(dx), LFACFromSeviriDY(dx) };
  for (int i = 0; i < 4; ++i) {
    PBT_CHECK(c, fabs(r[i] - r[0]) <= 1e-12 * r[0], "forms differ");
    PBT_CHECK(c, fabs(ref_dia(r[i]) - dx) < 1e-6, "factor " << r[i] << " means diameter " << ref_dia(r[i]));
    PBT_CHECK(c, seviriDXFromCFAC(r[i]) == dx && seviriDYFromLFAC(r[i]) == dx && seviriDXFromColumnRes(r[i]) == dx && seviriDYFromLineRes(r[i]) == dx, "diameter does not come back");
  }
  double px = pixelHSizeFromSeviriDX(dx), py = pixelVSizeFromSeviriDY(dx);
  PBT_CHECK(c, px == py, "axes differ: " << px << ", " << py);
  if (dx == 3608 || dx == 3622) { c.label("standard diameter"); PBT_CHECK(c, px == METEOSAT_PIXELSIZE_X, "standard diameter has pixel size " << px); }
  else {
    double e = (double)ref_px(r[2]);
    PBT_CHECK(c, fabs(px - e) <= 1e-5 * e, "pixel size " << px << ", expected " << e);
    PBT_CHECK(c, seviriDXFromPixelHSize(px) == dx && seviriDYFromPixelVSize(py) == dx, "diameter comes back as " << seviriDXFromPixelHSize(px));
  }
  c.nontrivial();
}

PBT_SUB("monotone", 300000, 10000000) {
  double a = fabs(gencfac(c)), b = a * (1 + c.real(1e-4, 3));
  c.describe(Str() << "scaling factors " << a << " < " << b);
  PBT_CHECK(c, pixelHSizeFromCFAC(a) > pixelHSizeFromCFAC(b) && pixelVSizeFromLFAC(a) > pixelVSizeFromLFAC(b), "finer grid has no smaller pixel");
  PBT_CHECK(c, seviriDXFromCFAC(a) <= seviriDXFromCFAC(b), "finer grid has smaller diameter");
  double p = pixelHSizeFromCFAC(a), q = pixelHSizeFromCFAC(b);
  PBT_CHECK(c, CFACFromPixelHSize(p) < CFACFromPixelHSize(q) && LFACFromPixelVSize(p) < LFACFromPixelVSize(q), "smaller pixel has no larger factor");
  c.nontrivial();
}
PBT_MAIN("P02", "a scaling factor, pixel size or diameter over the range from the high-resolution grid to coarse grids, at and next to the nominal constants, both signs; every case exercises conversions and inverses and is non-trivial; distinct by the drawn values")
