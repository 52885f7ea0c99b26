// P15: native-format images
#include "xritgen.h"
#include "tool.h"
#include <msat/msg-native/MSG_native.h>
using pbt::Str;
using xg::W;

static const int IMPF_LEN = 19786;
static std::string packet(pbt::Ctx& c, size_t size) { // header of a packet with size bytes after it
  std::string b(38, 0); auto r = c.bytes(38);
  for (int i = 0; i < 38; ++i) b[i] = (char)r[i];
  if (c.chance(1, 3)) for (int i : {16, 30, 36}) b[i] = 0;
  xg::put(b, 18, xg::be_u4(size + 15)); xg::put(b, 32, xg::be_u4((r[32] << 24 | r[33] << 16 | r[34] << 8 | r[35]) % 86400000u));
  return b;
}
// The packet header says what its bytes say, and prints it
static void checkpkt(pbt::Ctx& c, const std::string& b, IMPF_Packet_Header& h, const std::string& whose) {
  auto be = [&](int at, int n) { unsigned long v = 0; while (n--) v = v << 8 | (uint8_t)b[at++]; return v; };
  auto& g = h.gp_packet_header; auto& s = h.gp_packet_subheader; bool text = c.chance(1, 4); std::string t;
  if (text) { std::ostringstream o; o << h; t = "\n" + o.str(); }
  auto one = [&](const char* name, unsigned long got, unsigned long want, bool print = true) {
    PBT_CHECK(c, got == want, name << " of the packet of " << whose << " is " << got << " instead of " << want);
    if (!text || !print) return;
    std::string k = std::string("\n") + name; k.resize(29, ' '); k += Str() << ": " << want << "\n";
    PBT_CHECK(c, t.find(k) != std::string::npos, name << " of the packet of " << whose << " is not printed as " << want);
  };
  auto four = [&](const char* name, const unsigned char* got, int at) {
    std::string w; for (int i = 0; i < 4; ++i) { one(name, got[i], be(at + i, 1), false); w += (i ? " " : "") + std::to_string(be(at + i, 1)); }
    std::string k = std::string("\n") + name; k.resize(29, ' '); if (text) PBT_CHECK(c, t.find(k + ": " + w + "\n") != std::string::npos, name << " is not printed as " << w);
  };
  one("HeaderVersionNo", g.HeaderVersionNo, be(0, 1)); one("PacketType", g.PacketType, be(1, 1)); one("SubHeaderType", g.SubHeaderType, be(2, 1)); one("SourceFacilityId", g.SourceFacilityId, be(3, 1));
  one("SourceEnvId", g.SourceEnvId, be(4, 1)); one("SourceInstanceId", g.SourceInstanceId, be(5, 1)); one("SourceSUId", g.SourceSUId, be(6, 4)); four("SourceCPUId", g.SourceCPUId, 10);
  one("DestFacilityId", g.DestFacilityId, be(14, 1)); one("DestEnvId", g.DestEnvId, be(15, 1)); one("SequenceCount", g.SequenceCount, be(16, 2)); one("PacketLength", g.PacketLength, be(18, 4));
  one("SubHeaderVersionNo", s.SubHeaderVersionNo, be(22, 1)); one("ChecksumFlag", s.ChecksumFlag, be(23, 1)); four("Acknowledgement", s.Acknowledgement, 24); one("ServiceType", s.ServiceType, be(28, 1)); one("ServiceSubtype", s.ServiceSubtype, be(29, 1));
  one("PacketTime", s.PacketTime.get_day_from_epoch(), be(30, 2), false); one("PacketTime", s.PacketTime.get_msec_in_day(), be(32, 4), false); one("SpacecraftId", s.SpacecraftId, be(36, 2));
}
struct Line { std::string pkt; int ver, sat; unsigned cday, cms, cus, cns; int grid, chan, validity, rad, geo; unsigned day; uint32_t ms; std::string data; std::vector<uint16_t> v; };
struct Nat {
  bool sel[12]; int lines, cols, hlines, hcols, south, north, east, west;
  std::string pro, impf, epi, hpkt, tpkt, umarf, bytes; std::vector<Line> recs; size_t datapos, trailerpos;
  std::vector<const Line*> of(int ch) const { std::vector<const Line*> r; for (auto& l : recs) if (l.chan == ch + 1) r.push_back(&l); return r; }
};
static std::string txt(const std::string& name, const std::string& value, bool nl, size_t width = 50) {
  std::string n = name; n.resize(28, ' '); n += ": "; std::string v = value + (nl ? "\n" : ""); v.resize(width, 0); return n + v;
}
// Ten-bit samples in their bit order, written without regard to how they are read
static std::string pack(const std::vector<uint16_t>& v) {
  std::string s((v.size() * 10 + 7) / 8, 0);
  for (size_t i = 0; i < v.size(); ++i) for (int b = 0; b < 10; ++b) if (v[i] >> (9 - b) & 1) { size_t k = i * 10 + b; s[k / 8] |= 128 >> (k % 8); }
  return s;
}
static Line line(pbt::Ctx& c, int ch, int grid, int cols) {
  Line l; auto r = c.bytes(8 + cols * 2 + 8);
  l.chan = ch + 1; l.grid = grid; l.validity = r[0] % 6; l.rad = r[1] % 6; l.geo = r[2] % 6; l.day = 14000 + r[3] * 30; l.ms = (r[4] << 16 | r[5] << 8 | r[6]) % 86400000;
  int n = (cols + 3) / 4 * 4; if (c.chance(1, 12)) n = cols;
  for (int i = 0; i < n; ++i) l.v.push_back(i < cols ? (r[8 + 2 * i] | r[9 + 2 * i] << 8) & 1023 : 0);
  if (c.chance(1, 5)) for (auto& x : l.v) x = c.pick({0, 1023, 512, 341});
  l.data = pack(l.v);
  return l;
}
static Nat gen(pbt::Ctx& c, bool fill) {
  Nat n; bool any = false;
  for (bool& s : n.sel) { s = c.flag(); any |= s; }
  if (c.chance(1, 8)) for (bool& s : n.sel) s = true;
  if (!any && !c.chance(1, 4)) n.sel[c.below(12)] = true;
  n.lines = c.chance(1, 10) ? 0 : (int)c.range(1, c.chance(1, 10) ? 20 : 4); n.cols = c.chance(1, 10) ? 0 : c.chance(1, 8) ? (int)c.range(1, 400) : (int)c.range(1, 24);
  n.hlines = n.lines * 3; n.hcols = c.flag() ? n.cols * 3 : n.cols;
  n.south = c.range(1, 3712 - n.lines); n.north = n.south + n.lines - 1; n.east = c.range(1, 3000); n.west = n.east + n.cols - 1;
  xg::Image im; im.scid = c.pick({321, 322, 323, 324}); im.lon = c.real(-60, 60); im.settime(c.range(2002, 2030), c.range(1, 12), c.range(1, 28), c.below(24), c.below(60));
  for (int i = 0; i < 12; ++i) { im.slope[i] = c.real(0.001, 1); im.offset[i] = c.real(-20, 20); }
  n.pro = im.prodata(); n.epi = im.epidata(); n.impf = std::string(IMPF_LEN, 0);
  // the packets carry a version byte, then the record without it in the trailer's case
  if (fill) { auto r = c.bytes(4000); for (int i = 0; i < 2000; ++i) { size_t at = (r[2 * i] << 8 | r[2 * i + 1]) * 12 % (n.impf.size() + n.epi.size()); if (at < n.impf.size()) n.impf[at] = r[i] & 0x3f; } }
  if (fill) { pbt::Rng g(c.below(1 << 30)); for (int i = 0; i < 3000; ++i) { size_t at = g.next() % n.pro.size(); if (at < 2 || (at >= (size_t)xg::PRO_DESC && at < (size_t)xg::PRO_DESC + 101) || (at >= (size_t)xg::PRO_CAL && at < (size_t)xg::PRO_CAL + 192)) continue; n.pro[at] = g.next() >> 60; }
    for (int i = 0; i < 4000; ++i) { size_t at = 1 + (i % 4 ? g.next() % (340 + 5680) : g.next() % (n.epi.size() - 1)); if (i % 16 == 1) at = n.epi.size() - 1 - g.next() % (2916 + 132); n.epi[at] = g.next() >> 59; } }
  bool nl = true; std::string u;
  for (const char* k : {"FormatName", "FormatDocumentName", "FormatDocumentMajorVersion", "FormatDocumentMinorVersion", "CreationDateTime", "CreatingCentre"}) u += txt(k, "NATIVE", nl);
  struct { const char* name; size_t size, at; } ds[27] = {}; 
  std::string body; for (int il = 0; il < n.lines; ++il) for (int ic = 0; ic < 12; ++ic) if (n.sel[ic]) for (int k = 0; k < (ic == 11 ? 3 : 1); ++k) {
    n.recs.push_back(line(c, ic, ic == 11 ? (n.south - 1 + il) * 3 + k + 1 : n.south + il, ic == 11 ? n.hcols : n.cols)); Line& l = n.recs.back();
    l.pkt = packet(c, 27 + l.data.size()); auto r = c.bytes(12); l.ver = r[0]; l.sat = r[1] << 8 | r[2]; l.cday = r[3] << 8 | r[4]; l.cms = (r[5] << 16 | r[6] << 8 | r[7]) % 86400000; l.cus = (r[8] << 8 | r[9]) % 1000; l.cns = (r[10] << 8 | r[11]) % 1000;
    body += l.pkt + W().u1(l.ver).u2(l.sat).cds(l.cday, l.cms).u2(l.cus).u2(l.cns).u4(l.grid).u1(l.chan).cds(l.day, l.ms).u1(l.validity).u1(l.rad).u1(l.geo).raw(l.data).b;
  }
  size_t gap = c.chance(1, 4) ? c.below(100) : 0;
  size_t head = 5114, hsize = 38 + 445248; n.datapos = head + hsize + gap; bool swapped = c.chance(1, 8);
  n.trailerpos = n.datapos + body.size() + (c.chance(1, 4) ? c.below(50) : 0);
  if (swapped) { n.trailerpos = head + hsize + gap; n.datapos = n.trailerpos + 38 + 380325; } // places are as the header says
  ds[0] = {"MPH", 80, 0}; ds[1] = {"SPH", 80, 100}; ds[2] = {"15HEADER", hsize, head}; ds[3] = {"15DATA", body.size(), n.datapos}; ds[4] = {"15TRAILER", 38 + 380325, n.trailerpos};
  for (auto& d : ds) { std::string k = d.name ? d.name : "DUMMY"; k.resize(28, ' '); char a[64], b[64]; snprintf(a, sizeof a, c.flag() ? "%15zu" : "%-15zu", d.size); snprintf(b, sizeof b, " %zu\n", d.at); std::string x = k + ": " + a; x.resize(46, 0); std::string y = b; y.resize(16, 0); u += x + y; }
  u.resize(2154, 0);
  for (int i = 0; i < 19; ++i) u += txt(Str() << "MAIN" << i, "value", nl);
  for (int i = 0; i < 9; ++i) u += txt(Str() << "SECONDARY" << i, "OK", nl);
  std::string bands; for (bool s : n.sel) bands += s ? 'X' : '-'; if (c.flag()) bands += "---";
  u += txt("SelectedBandIDs", bands, nl);
  u += txt("SouthLineSelectedRectangle", std::to_string(n.south), nl) + txt("NorthLineSelectedRectangle", std::to_string(n.north), nl) + txt("EastColumnSelectedRectangle", std::to_string(n.east), nl) + txt("WestColumnSelectedRectangle", std::to_string(n.west), nl);
  u += txt("NumberLinesVISIR", std::to_string(n.lines), nl) + txt("NumberColumnsVISIR", std::to_string(n.cols), nl) + txt("NumberLinesHRV", std::to_string(n.hlines), nl) + txt("NumberColumnsHRV", std::to_string(n.hcols), nl);
  if (u.size() != 5114) c.fail("harness: U-MARF header of the wrong size");
  n.umarf = u;
  n.bytes = u + (n.hpkt = packet(c, 445248)) + std::string(1, 1) + n.pro + n.impf;
  if (n.bytes.size() != head + hsize) c.fail("harness: header of the wrong size");
  std::string tr = (n.tpkt = packet(c, 380325)) + n.epi;
  size_t total = std::max(n.datapos + body.size(), n.trailerpos + tr.size()); n.bytes.resize(total, 0);
  xg::put(n.bytes, n.datapos, body); xg::put(n.bytes, n.trailerpos, tr);
  return n;
}
static std::string text(const Nat& n) { std::string b; for (bool s : n.sel) b += s ? 'X' : '-'; return Str() << b << " " << n.lines << " lines of " << n.cols << " columns (" << n.hcols << " high-resolution)"; }

static void verify(pbt::Ctx& c, const Nat& n, MSG_native& m) {
  for (int ic = 0; ic < 12; ++ic) {
    auto w = n.of(ic); bool hrv = ic == 11; int cols = hrv ? n.hcols : n.cols, lines = hrv ? n.hlines : n.lines;
    PBT_CHECK(c, m.lines(ic) == (n.sel[ic] ? lines : 0) && m.pixels(ic) == (n.sel[ic] ? cols : 0), "channel " << ic + 1 << " of " << m.lines(ic) << " lines, " << m.pixels(ic) << " columns");
    PBT_CHECK(c, m.line[ic].size() == w.size(), "channel " << ic + 1 << " has " << m.line[ic].size() << " lines instead of " << w.size());
    size_t k = 0;
    for (auto& l : m.line[ic]) {
      const Line& e = *w[k++];
      PBT_CHECK(c, (int)l.header.LineNumberInGrid == e.grid && l.header.ChannelId == e.chan, "line " << k << " of channel " << ic + 1 << " is line " << l.header.LineNumberInGrid << " of channel " << (int)l.header.ChannelId);
      PBT_CHECK(c, l.header.LineValidity.value == e.validity && l.header.LineRadiometricQuality.value == e.rad && l.header.LineGeometricQuality.value == e.geo, "quality of line " << k << " of channel " << ic + 1);
      PBT_CHECK(c, l.header.L10LineMeanAcquisitionTime.get_day_from_epoch() == e.day && l.header.L10LineMeanAcquisitionTime.get_msec_in_day() == e.ms, "time of line " << k << " of channel " << ic + 1);
      auto& rc = l.header.TrueRepeatCycleStart;
      PBT_CHECK(c, rc.get_day_from_epoch() == e.cday && rc.get_msec_in_day() == e.cms && rc.get_microsecs() == e.cus && rc.get_nanosecs() == e.cns, "repeat cycle start of line " << k);
      PBT_CHECK(c, l.header.LINE1_5Version == e.ver && l.header.SatelliteId == e.sat, "version " << (int)l.header.LINE1_5Version << ", satellite " << l.header.SatelliteId << " of line " << k);
      checkpkt(c, e.pkt, l.pkh, Str() << "line " << k);
      if (c.chance(1, 4)) {
        std::ostringstream o; o << l.header; std::string t = "\n" + o.str();
        static const char* V[] = {"Not derived.", "Nominal.", "Based on missing data.", "Based on corrupted data.", "Based on replaced or interpolated data.", "Unknown."};
        static const char* Q[] = {"Not derived.", "Nominal.", "Usable.", "Suspect.", "Do not use.", "Unknown."};
        auto one = [&](const char* name, const std::string& want) {
          std::string q = std::string("\n") + name; q.resize(29, ' '); q += ": "; size_t p = t.find(q); PBT_CHECK(c, p != std::string::npos, name << " is not printed"); p += q.size();
          std::string got = t.substr(p, t.find('\n', p) - p); PBT_CHECK(c, strcasecmp(got.c_str(), want.c_str()) == 0, name << " is printed as " << got << " instead of " << want);
        };
        one("LINE1_5Version", std::to_string(e.ver)); one("SatelliteId", std::to_string(e.sat)); one("LineNumberInGrid", std::to_string(e.grid)); one("ChannelId", std::to_string(e.chan));
        one("LineValidity", V[e.validity]); one("LineRadiometricQuality", Q[e.rad]); one("LineGeometricQuality", Q[e.geo]);
      }
      unsigned short* s = nullptr; long ns = -1;
      if (c.chance(1, 3)) { s = new unsigned short[e.v.size() + 1]; s[e.v.size()] = 0xbeef; }
      bool mine = s; l.data.to_sample(&s, &ns); std::unique_ptr<unsigned short[]> own(s);
      PBT_CHECK(c, ns == (long)(e.data.size() * 8 / 10), "line " << k << " of channel " << ic + 1 << " has " << ns << " samples instead of " << e.v.size());
      for (long i = 0; i < std::min<long>(ns, e.v.size()); ++i) PBT_CHECK(c, s[i] == e.v[i], "sample " << i << " of line " << k << " of channel " << ic + 1 << " is " << s[i] << " instead of " << e.v[i]);
      if (mine) PBT_CHECK(c, s[e.v.size()] == 0xbeef, "samples written after the end of the line");
    }
    std::unique_ptr<unsigned short[]> d(m.data(ic));
    PBT_CHECK(c, (bool)d == n.sel[ic], "channel " << ic + 1 << (d ? " has data" : " has no data"));
    if (d) for (size_t y = 0; y < w.size(); ++y) for (int x = 0; x < cols; ++x) PBT_CHECK(c, d[y * cols + x] == w[y]->v[x], "pixel " << x << "," << y << " of channel " << ic + 1 << " is " << d[y * cols + x] << " instead of " << w[y]->v[x]);
  }
  for (int bad : {-1, 12, 1000}) PBT_CHECK(c, m.lines(bad) == 0 && m.pixels(bad) == 0 && !m.data(bad), "channel " << bad << " exists");
}
// a record of the header or trailer is what its bytes decode to (P06 decides what that is)
template<class T> static void part(pbt::Ctx& c, T& have, const std::string& bytes, size_t at, const char* what) {
  std::unique_ptr<T> d(new T); std::string b = bytes.substr(at); d->read_from((unsigned char*)&b[0]); std::ostringstream x, y; x << have; y << *d; PBT_CHECK(c, x.str() == y.str(), what << " is not what its bytes say"); c.label(what);
}
static void checkhead(pbt::Ctx& c, const Nat& n, MSG_native& m) {
  // Texts as they are, and the records as the transmission files hold them
  size_t at[48]; for (int i = 0; i < 6; ++i) at[i] = i * 80; for (int i = 6; i < 11; ++i) at[i] = 480 + (i - 6) * 62; for (int i = 11; i < 48; ++i) at[i] = 2154 + (i - 11) * 80;
  for (int i = 0; i < 48; ++i) {
    std::string w = n.umarf.c_str() + at[i]; if (i >= 6 && i < 11) w += n.umarf.c_str() + at[i] + 46;
    PBT_CHECK(c, m.header.mph_sph_header.mphinfo[i] == w, "record " << i << " of the main header is " << m.header.mph_sph_header.mphinfo[i] << " instead of " << w);
  }
  checkpkt(c, n.hpkt, m.header.impf_packet_header, "the header"); checkpkt(c, n.tpkt, m.trailer.impf_packet_header, "the trailer");
  auto& h = m.header.l15;
  for (int i = 0; i < 12; ++i) {
    double s, o; std::string b = n.pro.substr(xg::PRO_CAL + 16 * i, 16); uint64_t x = 0, y = 0; for (int k = 0; k < 8; ++k) { x = x << 8 | (uint8_t)b[k]; y = y << 8 | (uint8_t)b[8 + k]; } memcpy(&s, &x, 8); memcpy(&o, &y, 8);
    PBT_CHECK(c, h.radiometric_proc.ImageCalibration[i].Cal_Slope == s && h.radiometric_proc.ImageCalibration[i].Cal_Offset == o, "calibration of channel " << i + 1);
  }
  PBT_CHECK(c, (int)h.sat_status.SatelliteDefinition.SatelliteId == ((uint8_t)n.pro[0] << 8 | (uint8_t)n.pro[1]), "satellite " << h.sat_status.SatelliteDefinition.SatelliteId);
  part(c, h.IMPF_config, n.impf, 0, "IMPF configuration"); part(c, h.image_description, n.pro, xg::PRO_DESC, "image description"); part(c, h.sat_status.SatelliteDefinition, n.pro, 0, "satellite definition");
  auto& e = m.trailer.l15; part(c, e.product_stats, n.epi, 1, "image production statistics"); part(c, e.timelin_comple, n.epi, 1 + 340 + 5680 + 371256 + 2916, "timeliness and completeness");
  switch (c.below(8)) {
    case 0: part(c, h.sat_status, n.pro, 0, "satellite status"); break;
    case 1: part(c, h.image_acquisition, n.pro, xg::PRO_ACQ, "image acquisition"); break;
    case 2: if (c.chance(1, 3)) part(c, h.celestial_events, n.pro, xg::PRO_CEL, "celestial events"); break;
    case 3: part(c, h.radiometric_proc, n.pro, xg::PRO_RAD, "radiometric processing"); break;
    case 4: part(c, h.geometric_proc, n.pro, xg::PRO_GEO, "geometric processing"); break;
    case 5: part(c, e.navig_result, n.epi, 1 + 340, "navigation extraction results"); break;
    case 6: if (c.chance(1, 3)) part(c, e.radiometric_qlty, n.epi, 1 + 340 + 5680, "radiometric quality"); break;
    case 7: part(c, e.geometric_qlty, n.epi, 1 + 340 + 5680 + 371256, "geometric quality"); break;
  }
}
static void pgm(pbt::Ctx& c, const Nat& n, MSG_native& m) {
  int ic = c.range(-1, 12);
  bool ok = m.pgmdump(ic, (char*)"x.pgm");
  PBT_CHECK(c, ok == (ic >= 0 && ic < 12 && n.sel[ic]), "channel " << ic << (ok ? " written" : " not written"));
  if (!ok) return;
  std::string f = slurp("x.pgm"); size_t p = 0; auto next = [&] { size_t e = f.find('\n', p); if (e == std::string::npos) c.fail("the PGM file is cut"); std::string l = f.substr(p, e - p); p = e + 1; return l; };
  std::string l = next(); PBT_CHECK(c, l == "P5", "PGM starts with " << l);
  while ((l = next())[0] == '#') {}
  int cols = ic == 11 ? n.hcols : n.cols, lines = ic == 11 ? n.hlines : n.lines;
  PBT_CHECK(c, l == (std::string)(Str() << cols << " " << lines), "PGM of " << l);
  PBT_CHECK(c, atoi(next().c_str()) >= 1023, "PGM grey levels");
  auto w = n.of(ic);
  PBT_CHECK(c, f.size() - p == (size_t)2 * cols * lines, "PGM with " << f.size() - p << " bytes of pixels");
  for (int y = 0; y < lines; ++y) for (int x = 0; x < cols; ++x) { unsigned v = (uint8_t)f[p + 2 * (y * cols + x)] << 8 | (uint8_t)f[p + 2 * (y * cols + x) + 1]; PBT_CHECK(c, v == w[y]->v[x], "PGM pixel " << x << "," << y << " is " << v); }
}

PBT_SUB("native images", 1500, 40000) {
  Nat n = gen(c, true); c.describe(text(n)); if (n.recs.size() && n.cols) c.nontrivial(); if (n.sel[11]) c.label("high resolution");
  c.dir(); xg::save("x.nat", n.bytes);
  MSG_native m; PBT_CHECK(c, m.open((char*)"x.nat"), "not opened");
  m.read();
  checkhead(c, n, m); verify(c, n, m); if (c.flag()) pgm(c, n, m);
  if (c.flag()) verify(c, n, m);
}

// Reuse of one reader, copies of lines that outlive it
PBT_SUB("histories", 600, 15000) {
  c.dir(); std::vector<Nat> files; int k = 1 + c.below(3);
  for (int i = 0; i < k; ++i) { files.push_back(gen(c, false)); xg::save(Str() << i << ".nat", files[i].bytes); c.describe(text(files[i]) + "; "); }
  std::unique_ptr<MSG_native> m(new MSG_native); c.nontrivial();
  std::vector<std::pair<MSG_native_line, const Line*>> kept; std::string ops;
  for (int step = 0, ns = 2 + c.below(5); step < ns; ++step) {
    int f = c.below(k);
    switch (c.below(5)) {
      case 0: { // a file that ends too early
        std::string cut = files[f].bytes.substr(0, c.below(files[f].bytes.size())); xg::save("cut.nat", cut); ops += " cut";
        bool thrown = false;
        if (m->open((char*)"cut.nat")) try { m->read(); } catch (std::exception&) { thrown = true; }
        m->close();
        if (cut.size() < files[f].trailerpos) PBT_CHECK(c, thrown, "a file without trailer is read");
        break;
      }
      case 1: ops += " missing"; { std::streambuf* o = std::cerr.rdbuf(nullptr); bool r = m->open((char*)"none.nat"); std::cerr.rdbuf(o); PBT_CHECK(c, !r, "a missing file opens"); } break;
      case 2: if (c.flag()) { m.reset(new MSG_native); ops += " new"; } // fall through
      default: {
        ops += Str() << " read" << f;
        PBT_CHECK(c, m->open((char*)(std::to_string(f) + ".nat").c_str()), "after" << ops << ": not opened");
        m->read(); verify(c, files[f], *m);
        for (int ic = 0; ic < 12; ++ic) { auto w = files[f].of(ic); size_t i = 0; for (auto& l : m->line[ic]) { if (c.chance(1, 6)) kept.push_back({l, w[i]}); ++i; } }
        if (kept.size() > 1 && c.flag()) { auto a = kept[c.below(kept.size())]; kept[c.below(kept.size())] = a; }
        if (c.flag() && kept.size()) { auto& a = kept[c.below(kept.size())]; auto& b = a; a = b; }
        m->close();
        for (int ic = 0; ic < 12; ++ic) PBT_CHECK(c, m->lines(ic) == 0 && m->line[ic].empty() && !m->data(ic), "channel " << ic + 1 << " after closing");
      }
    }
  }
  m.reset(); c.describe(ops);
  for (auto& x : kept) { unsigned short* s = nullptr; long ns; x.first.data.to_sample(&s, &ns); std::unique_ptr<unsigned short[]> own(s); for (size_t i = 0; i < x.second->v.size() && i < (size_t)ns; ++i) PBT_CHECK(c, s[i] == x.second->v[i], "a kept line changed"); }
}

static std::string damage(pbt::Ctx& c, const Nat& n) {
  std::string b = n.bytes;
  switch (c.below(6)) {
    case 0: b.resize(c.chance(1, 3) ? c.below(b.size()) : c.chance(1, 2) ? n.datapos + c.below(std::max<size_t>(1, b.size() - std::min(b.size(), n.datapos))) : c.below(5300)); c.label("cut"); break;
    case 1: { // a number of the main header
      int k = c.pick({30 + 9, 40, 41, 42, 43, 44, 44, 45, 45, 46, 46, 47, 47}); size_t at = 2154 + (k - 11) * 80 + 30;
      std::string v = c.pick<std::string>({"", "0", "-1", "99999", "1", "2", "7", "2147483647", "4294967296", "99999999999999999999", "x", "XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX", "XX", "-----------X", "X X X"}); v.resize(50, c.chance(1, 4) ? 'X' : 0); xg::put(b, at, v); c.label("header number"); break;
    }
    case 2: { size_t at = 604 + 62 * c.below(3) + (c.flag() ? 30 : 46); std::string v = c.pick<std::string>({"", "-1", "0", "5113", "99999999999", "abc", std::string(16, '9')}); v.resize(16, c.flag() ? ' ' : 0); xg::put(b, at, v); c.label("record place"); break; }
    case 3: { // a packet length
      size_t at = n.datapos; int k = n.recs.empty() ? 0 : c.below(n.recs.size()); for (int i = 0; i < k; ++i) at += 38 + 27 + n.recs[i].data.size();
      if (c.chance(1, 4)) at = c.flag() ? 5114 : n.trailerpos;
      if (at + 38 <= b.size()) xg::put(b, at + 18, xg::be_u4(c.pick({0u, 14u, 15u, 41u, 42u, 43u, 46u, 47u, 48u, 100u, 1000000u, 0x7fffffffu, 0xffffffffu, (uint32_t)c.below(200)}))); c.label("packet length"); break;
    }
    case 4: { auto r = c.bytes(200); int k = 1 + c.below(40); size_t lim = c.flag() ? 5114 : b.size(); for (int i = 0; i < k; ++i) b[(r[4 * i] << 16 | r[4 * i + 1] << 8 | r[4 * i + 2]) % lim] = r[4 * i + 3]; c.label("bytes"); break; }
    default: { size_t a = c.below(5114), l = c.below(3000); for (size_t i = a; i < std::min<size_t>(a + l, 5114); ++i) b[i] = c.pick({'A', ' ', '1'}); c.label("no end of text"); break; }
  }
  return b;
}
PBT_SUB("damaged files", 2500, 60000) {
  Nat n = gen(c, false); c.describe(text(n)); std::string b = damage(c, n); c.nontrivial();
  c.dir(); xg::save("x.nat", b);
  std::unique_ptr<MSG_native> m(new MSG_native); if (!m->open((char*)"x.nat")) return;
  try {
    m->read(); c.label("read");
    for (int ic = 0; ic < 12; ++ic) if ((long)m->lines(ic) * m->pixels(ic) < 50000000) { std::unique_ptr<unsigned short[]> d(m->data(ic)); if (c.chance(1, 6) && (long)m->lines(ic) * m->pixels(ic) < 1000000) m->pgmdump(ic, (char*)"x.pgm"); }
  } catch (std::exception& e) { c.describe(Str() << " refused: " << e.what()); c.label("refused"); }
}
PBT_SUB("dump tool", 80, 3000) {
  Nat n = gen(c, false); bool bad = c.flag(); c.describe(text(n)); std::string b = bad ? damage(c, n) : n.bytes; c.nontrivial();
  c.dir(); xg::save("x.nat", b);
  ToolRun r = runtool("nativedump", {"x.nat"});
  if (r.crashed) c.fail("nativedump " + why(r));
  if (bad) { PBT_CHECK(c, r.status == 0 || r.err.size(), "no error is reported"); return; }
  PBT_CHECK(c, r.status == 0, why(r));
  std::string want;
  for (int ic = 0; ic < 12; ++ic) for (auto l : n.of(ic)) {
    size_t k = r.out.find(Str() << "Got " << l->data.size() * 8 / 10 << " samples from channel " << ic + 1 << ", line count " << l->grid << "\n");
    PBT_CHECK(c, k != std::string::npos, "line " << l->grid << " of channel " << ic + 1 << " is not printed");
    k = r.out.find('\n', k) + 1; for (auto v : l->v) { size_t e = r.out.find('\n', k); PBT_CHECK(c, r.out.substr(k, e - k) == std::to_string(v), "a sample of line " << l->grid << " is printed as " << r.out.substr(k, e - k)); k = e + 1; }
  }
}
PBT_SUB("image tool", 60, 2000) {
  Nat n = gen(c, false); int ic = c.chance(1, 6) ? (int)c.range(-1, 13) : (int)c.below(12); bool bad = c.chance(1, 4); c.describe(Str() << text(n) << " channel " << ic); std::string b = bad ? damage(c, n) : n.bytes; c.nontrivial();
  c.dir(); xg::save("x.nat", b); const char* f = c.pick({"1", "1", "2", "0.5"});
  ToolRun r = runtool("native2Image", {"x.nat", std::to_string(ic), "pgm", f});
  if (r.crashed) c.fail("native2Image " + why(r));
  if (bad) return;
  bool has = ic >= 0 && ic < 12 && n.sel[ic] && n.cols && n.lines; PBT_CHECK(c, (r.status == 0) == has, "channel " << ic << ": " << why(r));
  if (!has) return;
  std::string g = slurp("MSG1.pgm"); int w, h, mx, used; PBT_CHECK(c, sscanf(g.c_str(), "P5 %d %d %d%n", &w, &h, &mx, &used) == 3, "no PGM written"); ++used;
  int cols = ic == 11 ? n.hcols : n.cols, lines = ic == 11 ? n.hlines : n.lines; double s = atof(f);
  if (s >= 1) PBT_CHECK(c, w == cols * s && h == lines * s, "image of " << w << "x" << h);
  if (s != 1) return;
  int by = mx > 255 ? 2 : 1; auto px = [&](int x, int y) { size_t k = used + (size_t)by * ((h - 1 - y) * w + (w - 1 - x)); return by == 2 ? (uint8_t)g[k] << 8 | (uint8_t)g[k + 1] : (int)(uint8_t)g[k]; };
  auto l = n.of(ic); std::vector<std::pair<int, int>> o; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) o.push_back({l[y]->v[x], px(x, y)});
  std::sort(o.begin(), o.end()); for (size_t i = 1; i < o.size(); ++i) if (o[i].first != o[i - 1].first) PBT_CHECK(c, o[i].second >= o[i - 1].second, "sample " << o[i].first << " is darker than " << o[i - 1].first);
}
PBT_MAIN("P15", "a generated native file read back sample by sample, or a damaged one; non-trivial when it has lines and columns, or is damaged")
