// Independent writer of xRIT files (transmission header records, prologue, epilogue, image segments)
#pragma once
#include "pbt.h"

namespace xg {

struct W {
  std::string b;
  W& u1(uint64_t v) { b += (char)v; return *this; }
  W& u2(uint64_t v) { b += (char)(v >> 8); b += (char)v; return *this; }
  W& u4(uint64_t v) { u2((v >> 16) & 0xffff); return u2(v & 0xffff); }
  W& u8(uint64_t v) { u4(v >> 32); return u4(v & 0xffffffffu); }
  W& i4(int64_t v) { return u4((uint32_t)(int32_t)v); }
  W& r4(float f) { uint32_t v; memcpy(&v, &f, 4); return u4(v); }
  W& r8(double f) { uint64_t v; memcpy(&v, &f, 8); return u8(v); }
  W& s(const std::string& t, size_t n, char fill = 0) { std::string x = t.substr(0, n); x.resize(n, fill); b += x; return *this; }
  W& raw(const std::string& t) { b += t; return *this; }
  W& cds(unsigned day, uint32_t ms) { u2(day); return u4(ms); }
};
// Big-endian store into an existing buffer
inline void put(std::string& b, size_t at, const std::string& v) { b.replace(at, v.size(), v); }
inline std::string be_r8(double v) { return W().r8(v).b; }
inline std::string be_r4(float v) { return W().r4(v).b; }
inline std::string be_u4(uint32_t v) { return W().u4(v).b; }
inline std::string be_u2(uint16_t v) { return W().u2(v).b; }

inline std::string rec(int type, const std::string& body) { return W().u1(type).u2(body.size() + 3).raw(body).b; }
inline std::string rec_struct(int bpp, int cols, int lines, int compr) { return rec(1, W().u1(bpp).u2(cols).u2(lines).u1(compr).b); }
inline std::string rec_navig(const std::string& name, int32_t cfac, int32_t lfac, int32_t coff, int32_t loff) { return rec(2, W().s(name, 32).i4(cfac).i4(lfac).i4(coff).i4(loff).b); }
inline std::string rec_annot(const std::string& t) { return rec(4, W().s(t, 61, '_').b); }
inline std::string rec_time(unsigned day, uint32_t ms) { return rec(5, W().u1(64).cds(day, ms).b); }
inline std::string rec_segid(int sc, int chan, int seq, int start, int end, int fmt) { return rec(128, W().u2(sc).u1(chan).u2(seq).u2(start).u2(end).u1(fmt).b); }

inline std::string file(int type, const std::string& recs, const std::string& data, int64_t bits = -1) {
  return W().u1(0).u2(16).u1(type).u4(16 + recs.size()).u8(bits < 0 ? data.size() * 8 : bits).raw(recs).raw(data).b;
}
inline void save(const std::string& path, const std::string& b) { std::ofstream o(path, std::ios::binary); o.write(b.data(), b.size()); if (!o) throw std::runtime_error("cannot write " + path); }

inline std::string pad(std::string s, size_t n) { while (s.size() < n) s += '_'; return s; }

// Days since 1958-01-01 of a calendar date
inline int days1958(int y, int m, int d) {
  auto dc = [](int y, int m, int d) { y -= m <= 2; int era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = y - era * 400; unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int)doe; };
  return dc(y, m, d) - dc(1958, 1, 1);
}

// places inside the prologue (from the start of its data field)
enum { PRO_LEN = 425461, PRO_ACQ = 60134, PRO_CEL = 60834, PRO_DESC = 386892, PRO_RAD = 386993, PRO_GEO = 407808,
       // within the image description
       PRO_LONSSP = PRO_DESC + 1, PRO_GRID = PRO_DESC + 5, PRO_GRIDHRV = PRO_GRID + 17,
       PRO_CAL = PRO_RAD + 72,
       EPI_LEN = 380325, EPI_COV = 1 + 2 + 14 + 12 + 192 + 72, EPI_COVHRV = EPI_COV + 16 };

struct Image {
  std::string res = "H", sat = "MSG2__", prodid = "MSG2", chan = "IR_108", time = "200807150900";
  int y = 2008, mo = 7, d = 15, h = 9, mi = 0;
  int scid = 322, chanid = 9;
  float lon = 0, hdrlon = 0;
  int bpp = 10, cols = 3712, seglines = 464, nsegs = 8;
  int32_t cfac = -13642337, lfac = -13642337, coff = 1856, loff = 1856;
  float colstep = 3.000403f, linestep = 3.000403f, colstephrv = 1.000134f, linestephrv = 1.000134f;
  double slope[12], offset[12];
  int cov[8] = {1, 8064, 2401, 7968, 8065, 11136, 1400, 6967}; // LowerSouth, N, E, W, Upper S, N, E, W
  std::map<int, std::vector<uint16_t>> seg; // sequence number (from 1) -> samples
  Image() { for (int i = 0; i < 12; ++i) { slope[i] = 0.01 * (i + 1); offset[i] = -0.5 * (i + 1); } }
  int days() const { return days1958(y, mo, d); }
  uint32_t msec() const { return (h * 3600u + mi * 60u) * 1000u; }
  std::string annot(const std::string& p2, const std::string& p3, const std::string& end) const {
    return res + "-000-" + sat + "-" + pad(prodid, 12) + "-" + pad(p2, 9) + "-" + pad(p3, 9) + "-" + time + "-" + end;
  }
  std::string prodata() const {
    static std::string zero(PRO_LEN, 0);
    std::string p = zero;
    put(p, 0, W().u2(scid).r4(lon).u1(1).b);
    put(p, PRO_ACQ, W().cds(days(), msec()).u2(0).u2(0).b);
    put(p, PRO_DESC, W().u1(1).r4(lon).b);
    put(p, PRO_GRID, W().i4(3712).i4(3712).r4(linestep).r4(colstep).u1(2).b);
    put(p, PRO_GRIDHRV, W().i4(11136).i4(11136).r4(linestephrv).r4(colstephrv).u1(2).b);
    for (int i = 0; i < 12; ++i) put(p, PRO_CAL + i * 16, W().r8(slope[i]).r8(offset[i]).b);
    return p;
  }
  std::string epidata() const {
    static std::string zero(EPI_LEN, 0);
    std::string p = zero;
    put(p, 1, be_u2(scid));
    put(p, EPI_COV, W().i4(1).i4(3712).i4(1).i4(3712).b);
    W w; for (int i = 0; i < 8; ++i) w.i4(cov[i]);
    put(p, EPI_COVHRV, w.b);
    return p;
  }
  std::string profile() const { return file(128, rec_annot(annot("_________", "PRO", "__")) + rec_time(days(), msec()), prodata()); }
  std::string epifile() const { return file(129, rec_annot(annot("_________", "EPI", "__")) + rec_time(days(), msec()), epidata()); }
  std::string lonname() const { char b[64]; snprintf(b, sizeof b, "GEOS(%+06.1f)", hdrlon); return b; }
  std::string segfile(int n, const std::vector<uint16_t>& v) const {
    std::string data((const char*)v.data(), v.size() * 2);
    char num[16]; snprintf(num, sizeof num, "%06d", n);
    std::string recs = rec_struct(bpp, cols, seglines, 0) + rec_navig(lonname(), cfac, lfac, coff, loff) +
      rec_annot(annot(chan, num, "C_")) + rec_time(days(), msec()) + rec_segid(scid, chanid, n, 1, nsegs, 3);
    return file(0, recs, data);
  }
  std::string segname(int n) const { char num[16]; snprintf(num, sizeof num, "%06d", n); return annot(chan, num, "C_"); }
  std::string proname() const { return annot("_________", "PRO", "__"); }
  std::string epiname() const { return annot("_________", "EPI", "__"); }
  std::string name() const { return res + ":" + prodid + ":" + chan + ":" + time; }
  void settime(int Y, int M, int D, int H, int MI) { y = Y; mo = M; d = D; h = H; mi = MI; char b[96]; snprintf(b, sizeof b, "%04d%02d%02d%02d%02d", y, mo, d, h, mi); time = b; }
  void save(const std::string& dir) const {
    xg::save(dir + "/" + proname(), profile());
    xg::save(dir + "/" + epiname(), epifile());
    for (auto& s : seg) xg::save(dir + "/" + segname(s.first), segfile(s.first, s.second));
  }
};

struct Chan { const char* name; int id; };
static const Chan CHANS[12] = {{"VIS006", 1}, {"VIS008", 2}, {"IR_016", 3}, {"IR_039", 4}, {"WV_062", 5}, {"WV_073", 6}, {"IR_087", 7}, {"IR_097", 8}, {"IR_108", 9}, {"IR_120", 10}, {"IR_134", 11}, {"HRV", 12}};
} // namespace xg
