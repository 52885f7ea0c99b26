// P03: sun and satellite angles, day of the year
#include "pbt.h"
#include <msat/facts.h>
using namespace msat::facts;
using pbt::Str;
static const double D = M_PI / 180;

struct Date { int y, m, d; };
static bool leap(int y) { return y % 400 == 0 || (y % 4 == 0 && y % 100 != 0); }
static int mdays(int y, int m) { static const int t[] = {31,28,31,30,31,30,31,31,30,31,30,31}; return t[m-1] + (m == 2 && leap(y)); }
// days since 1970-01-01, counted month by month
static long civil(int y, int m, int d) {
  long n = 0; 
  if (y >= 1970) for (int i = 1970; i < y; ++i) n += 365 + leap(i); else for (int i = y; i < 1970; ++i) n -= 365 + leap(i);
  for (int i = 1; i < m; ++i) n += mdays(y, i);
  return n + d - 1;
}
static Date gendate(pbt::Ctx& c, bool wide) {
  Date r;
  switch (c.below(wide ? 5 : 4)) {
    case 0: r.y = c.pick({2000, 2004, 2008, 2012}); break;
    case 4: r.y = c.pick({1600, 1700, 1800, 1900, 2100, 2200, 2300, 2400}); break;
    default: r.y = (int)c.range(1980, 2060); break;
  }
  r.m = (int)c.range(1, 12);
  switch (c.below(4)) { case 0: r.d = 1; break; case 1: r.d = mdays(r.y, r.m); break; default: r.d = (int)c.range(1, mdays(r.y, r.m)); }
  return r;
}
static double genlat(pbt::Ctx& c) { switch (c.below(5)) { case 0: return c.pick({0.0, 90.0, -90.0, 45.0, -45.0, 23.44, -66.5}); default: return c.real(-90, 90); } }
static double genlon(pbt::Ctx& c) { switch (c.below(5)) { case 0: return c.pick({0.0, 180.0, -180.0, 90.0, -90.0}); default: return c.real(-180, 180); } }

PBT_SUB("day of year", 400000, 12000000) {
  Date d = gendate(c, true);
  c.describe(Str() << d.y << "-" << d.m << "-" << d.d);
  if (leap(d.y)) c.label("leap year"); if (d.y % 100 == 0) c.label("century year");
  if (d.m > 2) c.nontrivial();
  long e = civil(d.y, d.m, d.d) - civil(d.y, 1, 1) + 1;
  int got = jday(d.y, d.m, d.d);
  PBT_CHECK(c, got == e, "day of the year is " << got << ", expected " << e);
  // next day follows
  int y2 = d.y, m2 = d.m, d2 = d.d + 1;
  if (d2 > mdays(y2, m2)) { d2 = 1; if (++m2 > 12) { m2 = 1; ++y2; } }
  int n = jday(y2, m2, d2);
  PBT_CHECK(c, y2 != d.y ? n == 1 : n == got + 1, "next day is " << n << " after " << got);
}

// Independent low-precision sun position (Astronomical Almanac, page C24), good
// to 0.01 degrees between 1950 and 2050
static double almanac_coz(long days1970, double hour, double lat, double lon) {
  double n = days1970 - 10957 - 0.5 + hour / 24; // days since J2000.0
  double L = 280.460 + 0.9856474 * n, g = (357.528 + 0.9856003 * n) * D;
  double lam = (L + 1.915 * sin(g) + 0.020 * sin(2 * g)) * D, eps = (23.439 - 4e-7 * n) * D;
  double ra = atan2(cos(eps) * sin(lam), cos(lam)), dec = asin(sin(eps) * sin(lam));
  double gmst = 6.697375 + 0.0657098242 * (std::floor(n + 0.5) - 0.5) + 1.00273790935 * hour; // hours, at 0h UT of the day plus time
  double ha = gmst * 15 * D + lon * D - ra;
  return sin(lat * D) * sin(dec) + cos(lat * D) * cos(dec) * cos(ha);
}
// The series documented for the computation, evaluated independently in
// extended precision
static double series_coz(int jd, double hour, double lat, double lon) {
  long double R = M_PIl / 180, t = 2 * M_PIl * (jd - 1) / 365.242L;
  long double noon = 12 + 0.123570L * sinl(t) - 0.004289L * cosl(t) + 0.153809L * sinl(2 * t) + 0.060783L * cosl(2 * t);
  long double a = 279.9348L * R + t;
  long double s = a + R * (0.4087L * sinl(a) + 1.8724L * cosl(a) - 0.0182L * sinl(2 * a) + 0.0083L * cosl(2 * a));
  long double sd = 0.3978L * sinl(s), cd = sqrtl(1 - sd * sd);
  return sd * sinl(lat * R) + cd * cosl(lat * R) * cosl(R * (15 * (hour - noon) + lon));
}

PBT_SUB("sun", 400000, 12000000) {
  Date d = gendate(c, false);
  int hh = (int)c.range(0, 23), mm = (int)c.range(0, 59);
  double lat = genlat(c), lon = genlon(c);
  c.describe(Str() << d.y << "-" << d.m << "-" << d.d << " " << hh << ":" << mm << " at " << lat << "," << lon);
  int jd = jday(d.y, d.m, d.d);
  double z = cos_sol_za(d.y, d.m, d.d, hh, mm, lat, lon);
  double z2 = cos_sol_za(jd, hh, mm, lat, lon), z3 = cos_sol_za(jd, hh + mm / 60.0, lat, lon);
  PBT_CHECK(c, fabs(z - z2) < 1e-12 && fabs(z - z3) < 1e-12, "forms of the call differ: " << z << ", " << z2 << ", " << z3);
  PBT_CHECK(c, z >= -1 - 1e-12 && z <= 1 + 1e-12, "cosine is " << z);
  double e = series_coz((int)(civil(d.y, d.m, d.d) - civil(d.y, 1, 1) + 1), hh + mm / 60.0, lat, lon);
  PBT_CHECK(c, fabs(z - e) < 1e-9, "cosine is " << z << ", the documented series gives " << e);
  double a = almanac_coz(civil(d.y, d.m, d.d), hh + mm / 60.0, lat, lon);
  PBT_CHECK(c, fabs(z - a) < 0.02, "cosine is " << z << ", the sun's position gives " << a);
  if (fabs(z) < 0.2) c.label("near the terminator"); else c.label(z > 0 ? "day" : "night");
  c.nontrivial();
}

PBT_SUB("satellite", 400000, 12000000) {
  double lat = genlat(c), lon = genlon(c);
  if (c.chance(1, 8)) { lat = 0; lon = 0; c.label("sub-satellite point"); }
  if (c.chance(1, 6)) { lat = c.real(-1, 1) * 1e-3; lon = c.real(-1, 1) * 1e-3; }
  c.describe(Str() << "at " << lat << "," << lon);
  double z = sat_za(lat, lon);
  // vectors: observer on the sphere, satellite on the equator at longitude 0
  double ox = cos(lat * D) * cos(lon * D), oy = cos(lat * D) * sin(lon * D), oz = sin(lat * D);
  double q = ORBIT_RADIUS / EARTH_RADIUS;
  double vx = q - ox, vy = -oy, vz = -oz;
  double dot = ox * vx + oy * vy + oz * vz;
  double cx = oy * vz - oz * vy, cy = oz * vx - ox * vz, cz = ox * vy - oy * vx;
  double e = atan2(sqrt(cx * cx + cy * cy + cz * cz), dot);
  PBT_CHECK(c, fabs(z - e) < 1e-6, "zenith angle is " << z << ", geometry gives " << e);
  PBT_CHECK(c, z >= -1e-9 && z <= M_PI + 1e-9, "zenith angle is " << z);
  PBT_CHECK(c, fabs(sat_za(-lat, lon) - z) < 1e-9 && fabs(sat_za(lat, -lon) - z) < 1e-9, "not symmetric");
  c.label(z < M_PI / 2 ? "visible" : "hidden");
  c.nontrivial();
}
PBT_MAIN("P03", "a date (month ends, leap and century years weighted), minute, latitude and longitude (poles, date line, sub-satellite point weighted); angles compared with an independent evaluation and an almanac; day-of-year cases are non-trivial after February, the others always")
