// P16: OpenMTP-IDS images
#include "xritgen.h"
#include "tool.h"
#include <msat/omtp-ids/OpenMTP-IDS.hh>
#include "msat/omtp-ids/ByteSex.hh"
using pbt::Str;
using xg::W;

// The numbers of the file header in the order they are in the file: 13 before the name, 12 after it
static const char* FH[25] = {"no_records", "year", "julian_day", "hour", "minute", "process_year", "process_julian_day", "process_hour", "process_minute", "no_channels", "vis_id", "wv_id", "ir_id",
  "satellite_id", "record_length", "no_vis_average", "no_wv_average", "no_ir_average", "averaging_type", "sample_interval", "ir_calibration", "wv_calibration", "fine_adjustment", "ir_space_count", "wv_space_count"};
struct ML { int h[8]; std::string px; }; // length, line, start, pixels, channel, quality, two pads
struct MR { std::string fortran; int h[4]; std::vector<ML> lines; };
struct MF { std::string fortran, sat; int h[25]; std::vector<MR> recs; };
enum { LEN, LINE, START, NPIX, CHAN, QUAL };

static std::string enc(const ML& l) { W w; for (int x : l.h) w.u2(x); std::string s = w.b + l.px; size_t n = std::max<size_t>(s.size(), l.h[LEN]); s.resize(n, 0); return s; }
static std::string enc(const MR& r) { W w; w.raw(r.fortran); for (int x : r.h) w.u2(x); std::string s = w.b; for (auto& l : r.lines) s += enc(l); return s; }
static std::string enchead(const MF& f) { W w; w.raw(f.fortran); for (int i = 0; i < 13; ++i) w.u2(f.h[i]); w.raw(f.sat); for (int i = 13; i < 25; ++i) w.u2(f.h[i]); std::string s = w.b; size_t n = std::max<size_t>(60, f.h[14] + 2); s.resize(n, 0); return s; }
static std::string enc(const MF& f) { std::string s = enchead(f); for (auto& r : f.recs) s += enc(r); return s; }

static std::string fort(pbt::Ctx& c) { if (!c.chance(1, 5)) return std::string("\0\1", 2); auto b = c.bytes(2); return std::string((char*)b.data(), 2); }
static int u16(pbt::Ctx& c) { return c.chance(1, 4) ? c.pick({0, 1, 255, 256, 32767, 32768, 65535}) : (int)c.below(c.flag() ? 400 : 65536); }
static ML genline(pbt::Ctx& c, int no, int start, int npix, int chan) {
  ML l; l.h[LINE] = no; l.h[START] = start; l.h[NPIX] = npix; l.h[CHAN] = chan; l.h[QUAL] = u16(c); l.h[6] = u16(c); l.h[7] = u16(c);
  auto b = c.bytes(npix); l.px.assign((char*)b.data(), b.size()); if (c.chance(1, 10)) for (auto& x : l.px) x = (char)255;
  l.h[LEN] = 16 + npix + (c.chance(1, 4) ? c.below(20) : 0);
  return l;
}
static MF gen(pbt::Ctx& c) {
  MF f; f.fortran = fort(c); for (int& x : f.h) x = u16(c);
  f.sat = "METEOSAT"; if (c.chance(1, 3)) { f.sat = c.pick<std::string>({"MTP-1", "x", "", "M E T 77"}); f.sat.resize(8, 0); } else if (c.chance(1, 6)) { f.sat = c.chars(8, "abc019 _\xff"); }
  f.h[10] = c.pick({0, 1, 2, 3, 8, 9, 10, 11, 12}); f.h[12] = c.pick({0, 4, 5}); f.h[11] = c.pick({0, 6, 7});
  std::vector<int> ch; for (int i : {10, 12, 11}) if (f.h[i]) ch.push_back(f.h[i]);
  if (c.chance(1, 12)) ch.push_back(c.below(20));
  int nr = c.chance(1, 10) ? 0 : (int)c.range(1, 5), npix = c.chance(1, 12) ? 0 : c.chance(1, 12) ? (int)c.range(400, 1300) : (int)c.range(1, 30), no = c.range(1, 60000), ln = c.range(0, 6);
  bool ragged = c.chance(1, 10); int lines = 0;
  for (int i = 0; i < nr; ++i) {
    MR r; r.fortran = fort(c); int n = c.chance(1, 6) ? (int)c.below(8) : ln;
    for (int k = 0; k < n; ++k, ++lines) r.lines.push_back(genline(c, no + lines / 3, u16(c), ragged ? (int)c.below(20) : npix, ch.empty() ? 0 : c.chance(1, 8) ? ch[c.below(ch.size())] : ch[lines % ch.size()]));
    r.h[0] = c.chance(1, 6) ? u16(c) : 8; r.h[1] = n; size_t len = 8; for (auto& l : r.lines) len += enc(l).size(); r.h[2] = len & 65535; r.h[3] = c.chance(1, 6) ? u16(c) : 0;
    f.recs.push_back(r);
  }
  f.h[0] = nr + 1; f.h[14] = 58 + (c.flag() ? 0 : c.below(c.chance(1, 6) ? 20000 : 200)); if (nr && f.recs[0].h[2] >= 58 && c.flag()) f.h[14] = f.recs[0].h[2];
  return f;
}
static std::string text(const MF& f) { Str s; s << f.recs.size() << " records:"; for (auto& r : f.recs) { s << " " << r.lines.size() << "x"; if (r.lines.size()) s << r.lines[0].px.size(); } return s; }
static int lines(const MF& f) { int n = 0; for (auto& r : f.recs) n += r.lines.size(); return n; }

static int num(const FileHeader& h, int i) {
  switch (i) {
    case 0: return h.no_records(); case 1: return h.year(); case 2: return h.julian_day(); case 3: return h.hour(); case 4: return h.minute();
    case 5: return h.process_year(); case 6: return h.process_julian_day(); case 7: return h.process_hour(); case 8: return h.process_minute();
    case 9: return h.no_channels(); case 10: return h.vis_id(); case 11: return h.wv_id(); case 12: return h.ir_id(); case 13: return h.satellite_id(); case 14: return h.record_length();
    case 15: return h.no_vis_average(); case 16: return h.no_wv_average(); case 17: return h.no_ir_average(); case 18: return h.averaging_type(); case 19: return h.sample_interval();
    case 20: return h.ir_calibration(); case 21: return h.wv_calibration(); case 22: return h.fine_adjustment(); case 23: return h.ir_space_count(); default: return h.wv_space_count();
  }
}
static void setnum(FileHeader& h, int i, int v) {
  switch (i) {
    case 0: h.no_records(v); break; case 1: h.year(v); break; case 2: h.julian_day(v); break; case 3: h.hour(v); break; case 4: h.minute(v); break;
    case 5: h.process_year(v); break; case 6: h.process_julian_day(v); break; case 7: h.process_hour(v); break; case 8: h.process_minute(v); break;
    case 9: h.no_channels(v); break; case 10: h.vis_id(v); break; case 11: h.wv_id(v); break; case 12: h.ir_id(v); break; case 13: h.satellite_id(v); break; case 14: h.record_length(v); break;
    case 15: h.no_vis_average(v); break; case 16: h.no_wv_average(v); break; case 17: h.no_ir_average(v); break; case 18: h.averaging_type(v); break; case 19: h.sample_interval(v); break;
    case 20: h.ir_calibration(v); break; case 21: h.wv_calibration(v); break; case 22: h.fine_adjustment(v); break; case 23: h.ir_space_count(v); break; default: h.wv_space_count(v);
  }
}
static void sameline(pbt::Ctx& c, const ML& w, const ScanLine& s, const std::string& what) {
  const LineHeader& l = s.lineheader(); int g[8] = {l.length(), l.line(), l.start(), l.no_pixels(), l.channel_id(), l.quality(), l.pad()[0], l.pad()[1]};
  const char* n[8] = {"length", "line", "start", "no_pixels", "channel_id", "quality", "pad 0", "pad 1"};
  for (int i = 0; i < 8; ++i) PBT_CHECK(c, g[i] == w.h[i], what << ": " << n[i] << " is " << g[i] << " instead of " << w.h[i]);
  PBT_CHECK(c, s.linepixel().size() == w.px.size(), what << " has " << s.linepixel().size() << " samples instead of " << w.px.size());
  for (size_t i = 0; i < w.px.size(); ++i) PBT_CHECK(c, s[i] == (uint8_t)w.px[i], what << ": sample " << i << " is " << s[i] << " instead of " << (int)(uint8_t)w.px[i]);
}
static void samehead(pbt::Ctx& c, const MF& f, const FileHeader& h) {
  for (int i = 0; i < 25; ++i) PBT_CHECK(c, num(h, i) == f.h[i], FH[i] << " is " << num(h, i) << " instead of " << f.h[i]);
  PBT_CHECK(c, !memcmp(h.fortran(), f.fortran.data(), 2), "fortran bytes of the file header");
  PBT_CHECK(c, std::string(h.satellite()) == f.sat.c_str(), "satellite is " << h.satellite() << " instead of " << f.sat);
}
static void same(pbt::Ctx& c, const MF& f, const OpenMTP_IDS& o) {
  samehead(c, f, o.fileheader());
  PBT_CHECK(c, o.record().size() == f.recs.size(), o.record().size() << " records instead of " << f.recs.size());
  for (size_t i = 0; i < f.recs.size(); ++i) {
    auto& w = f.recs[i]; const Record& r = o.record()[i]; const RecordHeader& h = r.recordheader(); std::string what = Str() << "record " << i;
    PBT_CHECK(c, !memcmp(h.fortran(), w.fortran.data(), 2), what << ": fortran bytes");
    int g[4] = {h.record_header_length(), h.no_scanlines(), h.record_length(), h.zero()}; for (int k = 0; k < 4; ++k) PBT_CHECK(c, g[k] == w.h[k], what << ": number " << k << " is " << g[k] << " instead of " << w.h[k]);
    PBT_CHECK(c, r.scanline().size() == w.lines.size(), what << " has " << r.scanline().size() << " lines instead of " << w.lines.size());
    for (size_t k = 0; k < w.lines.size(); ++k) sameline(c, w.lines[k], r[k], Str() << what << " line " << k);
  }
}
static OpenMTP_IDS build(pbt::Ctx& c, const MF& f) {
  OpenMTP_IDS o; FileHeader h; if (c.flag()) h.satellite("ABCDEFGH");
  std::vector<int> order; for (int i = 0; i < 25; ++i) order.push_back(i);
  if (c.flag()) std::reverse(order.begin(), order.end());
  for (int i : order) setnum(h, i, f.h[i]);
  h.fortran(f.fortran.data()); h.satellite(f.sat.c_str());
  bool inplace = c.flag(); if (inplace) o.fileheader() = h; else o.fileheader(h);
  std::vector<Record> recs;
  for (auto& w : f.recs) {
    Record r; RecordHeader rh; rh.fortran(w.fortran.data()); rh.record_header_length(w.h[0]); rh.no_scanlines(w.h[1]); rh.record_length(w.h[2]); rh.zero(w.h[3]);
    std::vector<ScanLine> ls;
    for (auto& x : w.lines) {
      ScanLine s; LineHeader l; l.length(x.h[0]); l.line(x.h[1]); l.start(x.h[2]); l.no_pixels(x.h[3]); l.channel_id(x.h[4]); l.quality(x.h[5]); l.pad(x.h + 6);
      std::vector<unsigned char> px(x.px.begin(), x.px.end());
      if (inplace) { s.lineheader() = l; s.linepixel() = px; } else { s.lineheader(l); s.linepixel(px); }
      ls.push_back(s);
    }
    if (inplace) { r.recordheader() = rh; r.scanline() = ls; } else { r.recordheader(rh); r.scanline(ls); }
    recs.push_back(r);
  }
  if (inplace) o.record() = recs; else o.record(recs);
  return o;
}
static void slices(pbt::Ctx& c, const MF& f, const OpenMTP_IDS& o) {
  std::vector<const ML*> all; for (auto& r : f.recs) for (auto& l : r.lines) all.push_back(&l);
  int n = all.size();
  auto cmp = [&](const std::vector<ScanLine>& g, int a, int b, const std::string& what) {
    a = std::min(a, n); b = std::max(a, std::min(b, n));
    PBT_CHECK(c, (int)g.size() == b - a, what << " of " << n << " has " << g.size() << " lines instead of " << b - a);
    for (int i = a; i < b; ++i) sameline(c, *all[i], g[i - a], Str() << what << " line " << i - a);
  };
  cmp(o.scanline(), 0, n, "all of the lines");
  for (int k = 0; k < 4; ++k) {
    int a = c.below(n + 3), b = c.below(n + 3); c.describe(Str() << " [" << a << "," << b << ")");
    cmp(o.scanline(a, b), a, b, Str() << "lines " << a << " to " << b); cmp(o.scanline(a), a, a + 1, Str() << "line " << a);
  }
}

PBT_SUB("round trips", 2500, 80000) {
  MF f = gen(c); c.describe(text(f)); if (lines(f)) c.nontrivial(); if (f.recs.size() > 1) c.label("several records");
  std::string b = enc(f); c.dir(); std::string tail = c.chance(1, 6) ? c.chars(c.range(1, 20), "ab") : ""; xg::save("x.ids", b + tail);
  OpenMTP_IDS o; if (c.flag()) o = OpenMTP_IDS("x.ids"); else PBT_CHECK(c, o.read("x.ids"), "not read");
  same(c, f, o); slices(c, f, o);
  OpenMTP_IDS p = c.flag() ? OpenMTP_IDS(o) : build(c, f); same(c, f, p);
  PBT_CHECK(c, p.write("y.ids"), "not written");
  std::string w = slurp("y.ids"); PBT_CHECK(c, w.size() == b.size(), "written file of " << w.size() << " bytes instead of " << b.size());
  for (size_t i = 0; i < b.size(); ++i) PBT_CHECK(c, w[i] == b[i], "byte " << i << " written is " << (int)(uint8_t)w[i] << " instead of " << (int)(uint8_t)b[i]);
  std::ostringstream os; os << o; PBT_CHECK(c, os.str() == b, "streamed file differs");
}

// One object read over and over, edited and written: nothing of what it held before shows up
PBT_SUB("histories", 800, 25000) {
  c.dir(); OpenMTP_IDS o; MF cur; bool have = false; std::string ops; c.nontrivial();
  for (int i = 0, n = 2 + c.below(6); i < n; ++i) {
    switch (have ? c.below(6) : 0) {
      default: { cur = gen(c); ops += Str() << " read(" << text(cur) << ")"; xg::save("x.ids", enc(cur)); o.read("x.ids"); have = true; break; }
      case 1: { // drop or repeat a record
        ops += " records"; if (cur.recs.empty()) break;
        size_t k = c.below(cur.recs.size()); if (c.flag()) { cur.recs.erase(cur.recs.begin() + k); o.record().erase(o.record().begin() + k); } else { cur.recs.push_back(cur.recs[k]); o.record().push_back(Record(o.record()[k])); }
        cur.h[0] = cur.recs.size() + 1; bool threw = false; std::ostringstream s;
        if (o.fileheader().no_records() != cur.h[0]) { try { s << o; } catch (std::exception&) { threw = true; } PBT_CHECK(c, threw, "written with a number of records that is not right"); }
        o.fileheader().no_records(cur.h[0]); break;
      }
      case 2: { // narrow every line
        ops += " narrow"; for (size_t r = 0; r < cur.recs.size(); ++r) for (size_t l = 0; l < cur.recs[r].lines.size(); ++l) {
          ML& m = cur.recs[r].lines[l]; ScanLine& s = o.record()[r][l]; size_t a = m.px.size() / 3, b = a + m.px.size() / 2;
          m.px = m.px.substr(a, b - a); m.h[START] = a; m.h[NPIX] = b - a; m.h[LEN] = 16 + b - a;
          std::vector<unsigned char> v(s.linepixel().begin() + a, s.linepixel().begin() + b); s.linepixel(v); s.lineheader().start(a); s.lineheader().no_pixels(b - a); s.lineheader().length(16 + b - a);
        } break;
      }
      case 3: { ops += " lines"; std::vector<ScanLine> v = o.scanline(); if (cur.recs.empty()) break; MR r = cur.recs[0]; r.lines.clear(); for (auto& x : cur.recs) r.lines.insert(r.lines.end(), x.lines.begin(), x.lines.end()); r.h[1] = r.lines.size(); cur.recs = {r}; cur.h[0] = 2;
        Record n = o.record()[0]; n.scanline(v); n.recordheader().no_scanlines(v.size()); o.record(std::vector<Record>(1, n)); o.fileheader().no_records(2); break; }
      case 4: { ops += " cut"; std::string b = enc(gen(c)); OpenMTP_IDS keep(o); xg::save("cut.ids", b.substr(0, c.below(b.size()))); bool t = false; try { o.read("cut.ids"); } catch (std::exception&) { t = true; } PBT_CHECK(c, t, "a cut file is read"); o = keep; break; }
      case 5: { ops += " write"; o.write("z.ids"); std::string w = slurp("z.ids"); PBT_CHECK(c, w == enc(cur), "written file differs after" << ops); o.read("z.ids"); break; }
    }
    same(c, cur, o); slices(c, cur, o);
  }
  c.describe(ops);
}

// What a reader of the format finds in any bytes: the bytes the image takes, or nothing if they are not one
static bool parse(const std::string& b, MF& f, size_t& p) {
  p = 0; auto need = [&](size_t n) { return b.size() - p >= n; };
  auto u2 = [&](int& v) { if (!need(2)) return false; v = (uint8_t)b[p] << 8 | (uint8_t)b[p + 1]; p += 2; return true; };
  auto raw = [&](std::string& s, size_t n) { if (!need(n)) return false; s = b.substr(p, n); p += n; return true; };
  if (!raw(f.fortran, 2)) return false;
  for (int i = 0; i < 25; ++i) { if (i == 13 && !raw(f.sat, 8)) return false; if (!u2(f.h[i])) return false; }
  if (f.h[14] < 58 || f.h[0] < 1) return false;
  std::string skip; if (!raw(skip, f.h[14] - 58)) return false;
  for (int i = 1; i < f.h[0]; ++i) {
    MR r; if (!raw(r.fortran, 2)) return false; for (int& x : r.h) if (!u2(x)) return false;
    for (int k = 0; k < r.h[1]; ++k) { ML l; for (int& x : l.h) if (!u2(x)) return false; if (l.h[LEN] < l.h[NPIX] + 16) return false; if (!raw(l.px, l.h[NPIX]) || !raw(skip, l.h[LEN] - l.h[NPIX] - 16)) return false; r.lines.push_back(l); }
    f.recs.push_back(r);
  }
  return true;
}
static std::string damage(pbt::Ctx& c, const MF& f) {
  std::string b = enc(f); size_t at = enchead(f).size();
  std::vector<size_t> counts{2, 38}; for (auto& r : f.recs) { counts.push_back(at + 4); size_t q = at + 10; for (auto& l : r.lines) { counts.push_back(q); counts.push_back(q + 6); q += enc(l).size(); } at = q; }
  switch (c.below(4)) {
    case 0: b.resize(c.chance(1, 4) ? c.below(b.size()) : b.size() - std::min<size_t>(b.size(), c.below(50))); c.label("cut"); break;
    case 1: { size_t k = counts[c.below(counts.size())]; int o = (uint8_t)b[k] << 8 | (uint8_t)b[k + 1], v = c.chance(1, 2) ? o + (int)c.range(-3, 3) : c.pick({0, 1, 15, 16, 17, 57, 58, 255, 32767, 32768, 65535}); xg::put(b, k, W().u2(v).b); c.label("count"); break; }
    case 2: { auto r = c.bytes(40); for (int i = 0; i < 1 + (int)c.below(10); ++i) b[(r[3 * i] << 8 | r[3 * i + 1]) % b.size()] = r[3 * i + 2]; c.label("bytes"); break; }
    default: { size_t k = c.below(b.size()), n = c.below(30); if (c.flag()) b.erase(k, n); else b.insert(k, std::string(n, (char)c.below(256))); c.label("shifted"); break; }
  }
  return b;
}
PBT_SUB("damaged files", 4000, 150000) {
  MF f = gen(c); std::string b = damage(c, f); c.describe(text(f) + ", damaged"); c.nontrivial();
  MF w; size_t used; bool ok = parse(b, w, used); c.label(ok ? "readable" : "unreadable");
  c.dir(); xg::save("x.ids", b); OpenMTP_IDS o; bool thrown = false; std::string e;
  try { bool r = o.read("x.ids"); PBT_CHECK(c, r, "false instead of an exception"); } catch (std::exception& x) { thrown = true; e = x.what(); }
  PBT_CHECK(c, thrown == !ok, (ok ? "refused: " + e : std::string("a file that is too short or inconsistent is read")));
  if (ok) { same(c, w, o); slices(c, w, o); std::ostringstream s; s << o; PBT_CHECK(c, s.str() == enc(w), "written file differs"); }
  if (c.chance(1, 20)) { auto r = runtool(c.pick<std::string>({"OpenMTP-IDS_debug", "OpenMTP-IDS_write", "OpenMTP-IDS_to_pgm", "OpenMTP-IDS_sector"}), {"x.ids"}); PBT_CHECK(c, !r.crashed, "a tool " << why(r)); if (!ok) PBT_CHECK(c, r.status != 0, "a tool reports success for an unreadable file"); c.label("tool"); }
}

PBT_SUB("write failures", 300, 4000) {
  MF f = gen(c); c.describe(text(f)); c.nontrivial(); c.dir(); OpenMTP_IDS o = build(c, f); std::string to = c.pick<std::string>({"x.ids", "none/x.ids", "."});
  bool t = false; try { std::unique_ptr<pbt::FullDisk> full; if (to == "x.ids") { full.reset(new pbt::FullDisk(c.below(enc(f).size()))); c.label("full disk"); } o.write(to.c_str()); } catch (std::exception&) { t = true; } PBT_CHECK(c, t, "writing to " << to << " reports success");
  t = false; try { OpenMTP_IDS p(c.flag() ? "none.ids" : "/dev/null"); } catch (std::exception& e) { t = true; PBT_CHECK(c, std::string(e.what()).size() > 3, "no message"); } PBT_CHECK(c, t, "a missing file is read");
}

PBT_SUB("byte orders", 1500, 30000) {
  c.nontrivial(); uint64_t v = c.ubits(32); int n = c.below(5); bool big = c.flag(), two = c.flag(); if (two) n = std::min(n, 2);
  c.describe(Str() << v << " in " << n << " bytes, " << (big ? "big" : "little") << (two ? " 2" : " 4"));
  uint64_t low = n == 0 ? 0 : v & ((n == 4 ? 0x100000000ull : 1ull << 8 * n) - 1); std::string w; for (int i = 0; i < n; ++i) w += (char)(low >> 8 * (big ? n - 1 - i : i));
  std::ostringstream o; if (big) two ? ByteSex::big::write2(o, v, n) : ByteSex::big::write4(o, v, n); else two ? ByteSex::little::write2(o, v, n) : ByteSex::little::write4(o, v, n);
  PBT_CHECK(c, o.str().size() == (size_t)n && (big || n < 2 || true) && o.str() == w, "written differently");
  std::istringstream i(w + "x"); uint64_t g = big ? two ? ByteSex::big::read2(i, n) : ByteSex::big::read4(i, n) : two ? ByteSex::little::read2(i, n) : ByteSex::little::read4(i, n);
  PBT_CHECK(c, g == low && i.get() == 'x', "read as " << g);
}

static std::string squeeze(const std::string& s) { std::string r; bool sp = false; for (char ch : s) { if (ch == ' ') { sp = true; continue; } if (sp && !r.empty()) r += ' '; sp = false; r += ch; } return r; }
PBT_SUB("tools", 120, 3000) {
  MF f = gen(c); c.describe(text(f)); if (lines(f)) c.nontrivial(); c.dir(); std::string b = enc(f); xg::save("x.ids", b);
  auto r = runtool("OpenMTP-IDS_write", {"x.ids"}); PBT_CHECK(c, r.status == 0, "OpenMTP-IDS_write " << why(r)); PBT_CHECK(c, slurp("test.omtp-ids") == b, "OpenMTP-IDS_write writes another file");
  r = runtool("OpenMTP-IDS_debug", {"x.ids"}); PBT_CHECK(c, r.status == 0, "OpenMTP-IDS_debug " << why(r));
  { // the values in the order of the file, each after its name
    std::vector<std::pair<std::string, int>> want{{"number of records", f.h[0]}, {"year", f.h[1]}, {"julian_day", f.h[2]}, {"hour", f.h[3]}, {"minute", f.h[4]}, {"satellite id", f.h[13]}, {"record length", f.h[14]}};
    for (auto& x : f.recs) { want.push_back({"number of scanlines", x.h[1]}); want.push_back({"record length", x.h[2]}); for (auto& l : x.lines) for (auto& k : std::vector<std::pair<std::string, int>>{{"number of linepixels", (int)l.px.size()}, {"length", l.h[0]}, {"line", l.h[1]}, {"start", l.h[2]}, {"channel_id", l.h[4]}, {"quality", l.h[5]}}) want.push_back(k); }
    std::istringstream i(r.out); std::string l; size_t k = 0; while (k < want.size() && std::getline(i, l)) if (squeeze(l) == (std::string)(Str() << want[k].first << " : " << want[k].second)) ++k;
    PBT_CHECK(c, k == want.size(), "OpenMTP-IDS_debug does not print " << want[k].first << " : " << want[k].second << " (" << k << ")");
  }
  bool full = c.chance(1, 6);
  r = runtool("OpenMTP-IDS_to_pgm", {"x.ids"}, 40, full ? 0 : 64l << 20); PBT_CHECK(c, !r.crashed, "OpenMTP-IDS_to_pgm " << why(r));
  bool any = false; const char* names[3] = {"vis.pgm", "ir.pgm", "wv.pgm"}; int idx[3] = {10, 12, 11};
  for (int k = 0; k < 3; ++k) {
    int id = f.h[idx[k]]; std::vector<const ML*> ls; bool even = true; if (id) for (auto& x : f.recs) for (auto& l : x.lines) if (l.h[CHAN] == id) { ls.push_back(&l); even &= l.px.size() == ls[0]->px.size(); }
    bool ok = !ls.empty() && ls[0]->px.size() && even && !full; any |= ok; if (!ok || full) continue;
    std::string g = slurp(names[k]), want = Str() << "P5\n" << ls[0]->px.size() << " " << ls.size() << "\n255\n"; for (auto l : ls) want += l->px;
    PBT_CHECK(c, g == want, names[k] << " differs: " << g.size() << " bytes instead of " << want.size());
  }
  PBT_CHECK(c, (r.status == 0) == any, "OpenMTP-IDS_to_pgm exits with " << r.status << (any ? " but writes images" : " but writes none")); c.label(any ? "images" : "no images");
}

PBT_SUB("sector", 12, 200) {
  MF f = gen(c); f.recs.clear(); int n = c.pick({2655, 2656, 2657, 3164, 3165, 3166, 3756, (int)c.range(2600, 3300), 10}), px = c.pick({802, 803, 801, 1248, (int)c.range(803, 1300)}), per = c.range(1, 60);
  c.describe(Str() << n << " lines of " << px << ", " << per << " in a record"); auto r = c.bytes(64);
  for (int i = 0; i < n; ++i) {
    if (i % per == 0) { MR m; m.fortran = std::string("\0\1", 2); m.h[0] = 8; m.h[1] = std::min(per, n - i); m.h[2] = (m.h[1] * (px + 16) + 8) & 65535; m.h[3] = 0; f.recs.push_back(m); }
    ML l; l.h[LEN] = px + 16; l.h[LINE] = i / 3; l.h[START] = 0; l.h[NPIX] = px; l.h[CHAN] = i % 3 + 1; l.h[QUAL] = i % 7; l.h[6] = l.h[7] = i % 5; l.px.resize(px); for (int k = 0; k < px; ++k) l.px[k] = (char)(r[i % 64] + k * (r[(i / 64) % 64] | 1) + (k >> 8) * 3);
    f.recs.back().lines.push_back(l);
  }
  f.h[0] = f.recs.size() + 1; f.h[14] = 1000; c.dir(); xg::save("x.ids", enc(f));
  auto t = runtool("OpenMTP-IDS_sector", {"x.ids"}); PBT_CHECK(c, !t.crashed, "OpenMTP-IDS_sector " << why(t));
  int last = std::min(n, 3165); bool ok = n > 2655 && px >= 802; if (ok) c.nontrivial();
  PBT_CHECK(c, (t.status == 0) == ok, "OpenMTP-IDS_sector exits with " << t.status << ": " << t.out); if (!ok) return;
  MF g; size_t used; std::string b = slurp("omtp-ids-sector.ids"); PBT_CHECK(c, parse(b, g, used) && used == b.size(), "the sector is not a whole file"); 
  PBT_CHECK(c, g.h[14] == g.recs[0].h[2] && g.fortran == f.fortran && g.sat == f.sat, "header of the sector");
  for (int i = 0; i < 25; ++i) if (i != 0 && i != 14) PBT_CHECK(c, g.h[i] == f.h[i], FH[i] << " of the sector is " << g.h[i] << " instead of " << f.h[i]);
  int i = 2655; for (auto& m : g.recs) {
    PBT_CHECK(c, m.h[0] == 8 && m.h[1] == (int)m.lines.size() && m.h[1] == g.recs[0].h[1] && m.h[2] == m.h[1] * (256 + 16) + 8, "record header of the sector");
    for (auto& l : m.lines) {
      PBT_CHECK(c, l.px.size() == 256 && l.h[LEN] == 272, "sector line of " << l.px.size()); if (i >= last) { PBT_CHECK(c, l.px == std::string(256, 0) && l.h[CHAN] == 0, "more lines than there are in the sector"); continue; }
      const ML& o = f.recs[i / per].lines[i % per]; PBT_CHECK(c, l.px == o.px.substr(546, 256) && l.h[START] == 546 && l.h[LINE] == o.h[LINE] && l.h[CHAN] == o.h[CHAN] && l.h[QUAL] == o.h[QUAL] && l.h[6] == o.h[6] && l.h[7] == o.h[7], "line " << i << " of the sector differs"); ++i;
    }
  }
  PBT_CHECK(c, i == last, "the sector ends at line " << i << " instead of " << last);
}
PBT_MAIN("P16", "the image has at least one scan line (tools and whole reads), or a sequence of operations, damage or an injected failure was run on it")
