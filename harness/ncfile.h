// NetCDF files as the C library shows them, and time zones
#pragma once
#include "pbt.h"
#include "xritgen.h"
#include <netcdf.h>
inline long since2000(const std::string& t) { int y, mo, d, h, mi, s; sscanf(t.c_str(), "%d-%d-%d %d:%d:%d", &y, &mo, &d, &h, &mi, &s); return (long)(xg::days1958(y, mo, d) - xg::days1958(2000, 1, 1)) * 86400 + h * 3600 + mi * 60 + s; }
struct Nc { int id = -1; pbt::Ctx& c; std::string f;
  Nc(pbt::Ctx& c, const std::string& f) : c(c), f(f) { int e = nc_open(f.c_str(), NC_NOWRITE, &id); PBT_CHECK(c, e == NC_NOERR, f << " is not a NetCDF file: " << nc_strerror(e)); }
  ~Nc() { nc_close(id); }
  int var(const char* n) { int v; int e = nc_inq_varid(id, n, &v); PBT_CHECK(c, e == NC_NOERR, f << ": no variable " << n); return v; }
  std::string text(const char* n, int v = NC_GLOBAL) { size_t l; nc_type t; int e = nc_inq_att(id, v, n, &t, &l); PBT_CHECK(c, e == NC_NOERR && t == NC_CHAR, f << ": no text " << n); std::string s(l, 0); nc_get_att_text(id, v, n, &s[0]); return s; }
  double num(const char* n, int v = NC_GLOBAL) { size_t l; nc_type t; int e = nc_inq_att(id, v, n, &t, &l); PBT_CHECK(c, e == NC_NOERR && l == 1 && t != NC_CHAR, f << ": no number " << n); double d; nc_get_att_double(id, v, n, &d); return d; }
  size_t dim(const char* n) { int d; int e = nc_inq_dimid(id, n, &d); PBT_CHECK(c, e == NC_NOERR, f << ": no dimension " << n); size_t l; nc_inq_dimlen(id, d, &l); return l; }
  std::vector<double> values(int v) { int nd, ids[NC_MAX_VAR_DIMS]; nc_inq_varndims(id, v, &nd); nc_inq_vardimid(id, v, ids); size_t n = 1; for (int i = 0; i < nd; ++i) { size_t l; nc_inq_dimlen(id, ids[i], &l); n *= l; } std::vector<double> r(n); int e = nc_get_var_double(id, v, r.data()); PBT_CHECK(c, e == NC_NOERR, f << ": values: " << nc_strerror(e)); return r; }
};
inline std::string anytz(pbt::Ctx& c) { std::string tz = c.pick<std::string>({"UTC", "XXX5", "JST-9", "CET-1CEST,M3.5.0,M10.5.0/3", "AAA3BBB,J1/0,J365/23", "Europe/Moscow", "Pacific/Apia", "Europe/Lisbon"}); setenv("TZ", tz.c_str(), 1); tzset(); return tz; }
inline void utc() { setenv("TZ", "UTC", 1); tzset(); }
