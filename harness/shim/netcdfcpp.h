// The interface of the legacy NetCDF C++ library (netcdf-cxx 4.2) that /repo's NetCDF code uses, over
// the C library, with the semantics of the original: errors give objects that are not valid, null
// pointers or false, are remembered in NcError and, unless an NcError object says otherwise, end the program.
#pragma once
#include <netcdf.h>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
typedef const char* NcToken;
typedef unsigned int NcBool;
typedef signed char ncbyte;
enum NcType { ncNoType = 0, ncByte = NC_BYTE, ncChar = NC_CHAR, ncShort = NC_SHORT, ncInt = NC_INT, ncLong = ncInt, ncFloat = NC_FLOAT, ncDouble = NC_DOUBLE };
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif

class NcError {
public:
  enum Behavior { silent_nonfatal = 0, silent_fatal = 1, verbose_nonfatal = 2, verbose_fatal = 3 };
  NcError(Behavior b = verbose_fatal) : old(options()), olderr(error()) { options() = b; }
  virtual ~NcError() { options() = old; error() = olderr; }
  int get_err() { return error(); }
  const char* get_errmsg() { return nc_strerror(get_err()); }
  static int set_err(int err) {
    error() = err;
    if (err != NC_NOERR) { if (options() & verbose_nonfatal) std::cout << nc_strerror(err) << std::endl; if (options() & silent_fatal) exit(1); }
    return err;
  }
private:
  static int& options() { static int o = verbose_fatal; return o; }
  static int& error() { static int e = NC_NOERR; return e; }
  int old, olderr;
};

class NcFile;
class NcDim {
  friend class NcFile; friend class NcVar;
  NcFile* file; int theid; char thename[NC_MAX_NAME + 1];
  NcDim(NcFile* f, int id);
  NcDim(NcFile* f, NcToken name, long size);
public:
  NcToken name() const { return thename; }
  long size() const;
  NcBool is_valid() const;
  NcBool is_unlimited() const;
  int id() const { return theid; }
};

class NcAtt {
  friend class NcFile; friend class NcVar;
  int ncid, varid; std::string thename; bool valid; nc_type thetype = NC_NAT; size_t len = 0;
  NcAtt(int n, int v, NcToken nm) : ncid(n), varid(v), thename(nm ? nm : "") { valid = nm && NcError::set_err(nc_inq_att(ncid, varid, nm, &thetype, &len)) == NC_NOERR; }
  double number(long n) const {
    if (!valid || n < 0 || (size_t)n >= len) abort(); // the original reads outside its memory
    if (thetype == NC_CHAR) { std::vector<char> v(len); nc_get_att_text(ncid, varid, thename.c_str(), v.data()); return v[n]; }
    std::vector<double> v(len); NcError::set_err(nc_get_att_double(ncid, varid, thename.c_str(), v.data())); return v[n];
  }
  template<typename T> T as(long n, T bad, double lo, double hi) const { double v = number(n); return v < lo || v > hi || v != v ? bad : (T)v; }
public:
  NcToken name() const { return thename.c_str(); }
  NcType type() const { return (NcType)thetype; }
  NcBool is_valid() const { return valid; }
  long num_vals() const { return len; }
  ncbyte as_ncbyte(long n) const { return as<ncbyte>(n, NC_FILL_BYTE, -128, 255); }
  char as_char(long n) const { return as<char>(n, NC_FILL_CHAR, -128, 255); }
  short as_short(long n) const { return as<short>(n, NC_FILL_SHORT, -32768, 32767); }
  int as_int(long n) const { return as<int>(n, NC_FILL_INT, -2147483648., 2147483647.); }
  long as_long(long n) const { return as<long>(n, NC_FILL_INT, -2147483648., 2147483647.); }
  float as_float(long n) const { return (float)number(n); }
  double as_double(long n) const { return number(n); }
  char* as_string(long n) const {
    if (!valid) abort();
    if (thetype == NC_CHAR) { char* s = new char[len + 1]; memset(s, 0, len + 1); std::vector<char> v(len + 1); nc_get_att_text(ncid, varid, thename.c_str(), v.data()); if ((size_t)n < len) memcpy(s, v.data() + n, len - n); return s; }
    char* s = new char[32]; if ((size_t)n >= len) abort(); snprintf(s, 32, "%.15g", number(n)); return s;
  }
  NcBool remove() { return NcError::set_err(nc_del_att(ncid, varid, thename.c_str())) == NC_NOERR; }
};

class NcVar {
  friend class NcFile;
  NcFile* file; int theid; std::string thename; size_t cur[5] = {0, 0, 0, 0, 0};
  NcVar(NcFile* f, int id);
  int ncid() const; bool data() const; bool define() const;
  bool fits(const long* e, size_t* count) const { for (int i = 0; i < 5; ++i) count[i] = e[i]; for (int i = 0; i < 5; ++i) { if (!count[i]) break; if (num_dims() < i) return false; } return true; }
public:
  NcToken name() const { return thename.c_str(); }
  NcType type() const { nc_type t = NC_NAT; NcError::set_err(nc_inq_vartype(ncid(), theid, &t)); return (NcType)t; }
  NcBool is_valid() const;
  int num_dims() const { int n = 0; NcError::set_err(nc_inq_varndims(ncid(), theid, &n)); return n; }
  NcDim* get_dim(int i) const;
  int id() const { return theid; }
  NcAtt* get_att(NcToken n) const { NcAtt* a = new NcAtt(ncid(), theid, n); if (a->is_valid()) return a; delete a; return nullptr; }
  NcBool add_att(NcToken n, const char* v) { return define() && NcError::set_err(nc_put_att_text(ncid(), theid, n, strlen(v), v)) == NC_NOERR; }
  NcBool add_att(NcToken n, char v) { return define() && NcError::set_err(nc_put_att_text(ncid(), theid, n, 1, &v)) == NC_NOERR; }
  NcBool add_att(NcToken n, ncbyte v) { return define() && NcError::set_err(nc_put_att_schar(ncid(), theid, n, NC_BYTE, 1, &v)) == NC_NOERR; }
  NcBool add_att(NcToken n, short v) { return define() && NcError::set_err(nc_put_att_short(ncid(), theid, n, NC_SHORT, 1, &v)) == NC_NOERR; }
  NcBool add_att(NcToken n, int v) { return define() && NcError::set_err(nc_put_att_int(ncid(), theid, n, NC_INT, 1, &v)) == NC_NOERR; }
  NcBool add_att(NcToken n, long v) { return define() && NcError::set_err(nc_put_att_long(ncid(), theid, n, NC_INT, 1, &v)) == NC_NOERR; }
  NcBool add_att(NcToken n, float v) { return define() && NcError::set_err(nc_put_att_float(ncid(), theid, n, NC_FLOAT, 1, &v)) == NC_NOERR; }
  NcBool add_att(NcToken n, double v) { return define() && NcError::set_err(nc_put_att_double(ncid(), theid, n, NC_DOUBLE, 1, &v)) == NC_NOERR; }
#define NC_SHIM_IO(T, N) \
  NcBool put(const T* v, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0) { long l[5] = {a, b, c, d, e}; size_t n[5]; return data() && fits(l, n) && NcError::set_err(nc_put_vara_##N(ncid(), theid, cur, n, v)) == NC_NOERR; } \
  NcBool get(T* v, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0) const { long l[5] = {a, b, c, d, e}; size_t n[5]; return data() && fits(l, n) && NcError::set_err(nc_get_vara_##N(ncid(), theid, cur, n, v)) == NC_NOERR; }
  NC_SHIM_IO(ncbyte, schar) NC_SHIM_IO(char, text) NC_SHIM_IO(short, short) NC_SHIM_IO(int, int) NC_SHIM_IO(long, long) NC_SHIM_IO(float, float) NC_SHIM_IO(double, double)
#undef NC_SHIM_IO
};

class NcFile {
  friend class NcDim; friend class NcVar;
  int theid = -1; bool indefine = false; std::vector<NcDim*> dims; std::vector<NcVar*> vars;
  NcFile(const NcFile&) = delete; NcFile& operator=(const NcFile&) = delete;
public:
  enum FileMode { ReadOnly, Write, Replace, New };
  enum FillMode { Fill = NC_FILL, NoFill = NC_NOFILL, Bad };
  enum FileFormat { Classic, Offset64Bits, Netcdf4, Netcdf4Classic, BadFormat };
  NcFile(const char* path, FileMode m = ReadOnly, size_t* = nullptr, size_t = 0, FileFormat = Classic) {
    NcError err(NcError::silent_nonfatal); int st;
    if (m == ReadOnly || m == Write) st = nc_open(path, m == Write ? NC_WRITE : NC_NOWRITE, &theid); else st = nc_create(path, m == Replace ? NC_CLOBBER : NC_NOCLOBBER, &theid), indefine = true;
    if (NcError::set_err(st) != NC_NOERR) { theid = -1; return; }
    if (m == ReadOnly || m == Write) { int nd = 0, nv = 0; nc_inq_ndims(theid, &nd); nc_inq_nvars(theid, &nv); for (int i = 0; i < nd; ++i) dims.push_back(new NcDim(this, i)); for (int i = 0; i < nv; ++i) vars.push_back(new NcVar(this, i)); }
  }
  virtual ~NcFile() { (void)close(); }
  NcBool is_valid() const { return theid != -1; }
  int id() const { return theid; }
  NcBool close() {
    if (theid == -1) return FALSE;
    for (auto d : dims) delete d; for (auto v : vars) delete v; dims.clear(); vars.clear();
    int n = theid; theid = -1; return NcError::set_err(nc_close(n)) == NC_NOERR;
  }
  NcBool define_mode() { if (!is_valid()) return FALSE; if (indefine) return TRUE; if (NcError::set_err(nc_redef(theid)) != NC_NOERR) return FALSE; indefine = true; return TRUE; }
  NcBool data_mode() { if (!is_valid()) return FALSE; if (!indefine) return TRUE; if (NcError::set_err(nc_enddef(theid)) != NC_NOERR) return FALSE; indefine = false; return TRUE; }
  NcBool sync() { return data_mode() && NcError::set_err(nc_sync(theid)) == NC_NOERR; }
  NcBool set_fill(FillMode m) { int prev; return NcError::set_err(nc_set_fill(theid, m, &prev)) == NC_NOERR; }
  int num_dims() const { return dims.size(); }
  int num_vars() const { return vars.size(); }
  NcDim* get_dim(int i) const { return is_valid() && i >= 0 && i < num_dims() ? dims[i] : nullptr; }
  NcVar* get_var(int i) const { return is_valid() && i >= 0 && i < num_vars() ? vars[i] : nullptr; }
  NcVar* get_var(NcToken n) const { int v; return NcError::set_err(nc_inq_varid(theid, n, &v)) == NC_NOERR ? get_var(v) : nullptr; }
  NcAtt* get_att(NcToken n) const { if (!is_valid()) return nullptr; NcAtt* a = new NcAtt(theid, NC_GLOBAL, n); if (a->is_valid()) return a; delete a; return nullptr; }
  NcDim* add_dim(NcToken n, long size) { if (!is_valid() || !define_mode()) return nullptr; dims.push_back(new NcDim(this, n, size)); return dims.back(); }
  NcDim* add_dim(NcToken n) { return add_dim(n, NC_UNLIMITED); }
  NcVar* add_var(NcToken n, NcType t, const NcDim* a = nullptr, const NcDim* b = nullptr, const NcDim* c = nullptr, const NcDim* d = nullptr, const NcDim* e = nullptr) {
    if (!is_valid() || !define_mode()) return nullptr;
    const NcDim* l[5] = {a, b, c, d, e}; int ids[5], k = 0, v; for (auto x : l) { if (!x) break; ids[k++] = x->id(); }
    if (NcError::set_err(nc_def_var(theid, n, (nc_type)t, k, ids, &v)) != NC_NOERR) return nullptr;
    vars.push_back(new NcVar(this, v)); return vars.back();
  }
  template<typename V> NcBool add_att(NcToken n, V v) { if (!is_valid()) return FALSE; NcVar g(this, NC_GLOBAL); return g.add_att(n, v); }
};
inline NcDim::NcDim(NcFile* f, int id) : file(f), theid(id) { thename[0] = 0; NcError::set_err(nc_inq_dimname(f->id(), id, thename)); }
inline NcDim::NcDim(NcFile* f, NcToken n, long size) : file(f), theid(-1) { snprintf(thename, sizeof thename, "%s", n); if (NcError::set_err(nc_def_dim(f->id(), n, size, &theid)) != NC_NOERR) theid = -1; }
inline long NcDim::size() const { size_t s = 0; NcError::set_err(nc_inq_dimlen(file->id(), theid, &s)); return s; }
inline NcBool NcDim::is_valid() const { return file->is_valid() && theid != -1; }
inline NcBool NcDim::is_unlimited() const { int r = -1; NcError::set_err(nc_inq_unlimdim(file->id(), &r)); return r == theid; }
inline NcVar::NcVar(NcFile* f, int id) : file(f), theid(id) { if (id != NC_GLOBAL) { char n[NC_MAX_NAME + 1] = ""; NcError::set_err(nc_inq_varname(f->id(), id, n)); thename = n; } }
inline int NcVar::ncid() const { return file->id(); }
inline bool NcVar::data() const { return file->data_mode(); }
inline bool NcVar::define() const { return file->define_mode(); }
inline NcBool NcVar::is_valid() const { return file->is_valid() && theid >= 0; }
inline NcDim* NcVar::get_dim(int i) const { int n = num_dims(); std::vector<int> d(n + 1); if (i < 0 || i >= n || NcError::set_err(nc_inq_vardimid(ncid(), theid, d.data())) != NC_NOERR) return nullptr; return file->get_dim(d[i]); }
