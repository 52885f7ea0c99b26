// P25: the tools that describe and convert transmission images
#include "xritmodel.h"
#include "tool.h"
#include <filesystem>
using pbt::Str;
namespace fs = std::filesystem;

static std::string text(const Gen& g, bool hrv) {
  std::string l; for (auto& s : g.im.seg) l += (l.empty() ? "" : ",") + std::to_string(s.first) + (g.rows.at(s.first) < g.im.seglines ? "*" : "");
  return Str() << (hrv ? "high-resolution, " : "") << g.im.cols << " columns, segments of " << g.im.seglines << " lines, present " << l.substr(0, 60) << " of " << g.im.nsegs;
}
static Gen image(pbt::Ctx& c, bool hrv) {
  Gen g = gen(c, hrv);
  for (auto& s : g.im.seg) { // ranges of values as images have them: narrow, uniform, far from zero
    switch (c.below(6)) {
      case 0: { uint16_t v = c.pick({0, 51, 1023, 65535, 300}); for (auto& x : s.second) x = v; c.label("uniform"); break; }
      case 1: { unsigned a = c.below(1000), n = 1 + c.below(9); for (auto& x : s.second) x = a + x % n; break; }
      case 2: { unsigned a = 200 + c.below(500); for (auto& x : s.second) x = a + x % 300; c.label("without zeros"); break; }
      default: break;
    }
  }
  return g;
}
struct Lines { std::vector<std::string> v; size_t i = 0; Lines(const std::string& s) { size_t p = 0, e; while ((e = s.find('\n', p)) != std::string::npos) { v.push_back(s.substr(p, e - p)); p = e + 1; } if (p < s.size()) v.push_back(s.substr(p)); }
  std::string next(pbt::Ctx& c) { if (i >= v.size()) c.fail("the description is cut"); return v[i++]; } };
static void is(pbt::Ctx& c, Lines& l, const std::string& want) { std::string g = l.next(c); PBT_CHECK(c, g == want, "line " << l.i << " is '" << g << "' instead of '" << want << "'"); }
// Characters go from the first to the last with the values they stand for
struct Shades { int lo, hi; std::map<int, int> best; // character index -> largest value so far
  void see(pbt::Ctx& c, int v, char ch, const std::string& where) {
    static const std::string K = " .,-:=$#"; size_t k = K.find(ch); PBT_CHECK(c, ch && k != std::string::npos, where << ": character " << (int)(unsigned char)ch);
    if (v <= lo) PBT_CHECK(c, k == 0, where << ": the smallest value is '" << ch << "'"); else if (v >= hi) PBT_CHECK(c, k == K.size() - 1, where << ": the largest value is '" << ch << "'");
    else { int e = (int)((long)(v - lo) * (long)K.size() / (hi - lo)); PBT_CHECK(c, abs(e - (int)k) <= 1, where << ": value " << v << " between " << lo << " and " << hi << " is '" << ch << "' instead of '" << K[e] << "'"); }
    for (auto& b : best) { if ((size_t)b.first < k) PBT_CHECK(c, b.second <= v, where << ": value " << v << " is brighter than " << b.second); }
    auto it = best.find(k); if (it == best.end() || it->second < v) best[k] = v;
  } };
static void describe(pbt::Ctx& c, const Gen& g, bool hrv, Lines& l) {
  const xg::Image& im = g.im; int top = im.seg.rbegin()->first;
  is(c, l, Str() << "Columns: " << im.cols); is(c, l, Str() << "Lines: " << (long)im.seglines * im.nsegs); is(c, l, Str() << "Segments: " << top); is(c, l, Str() << "Pixels per segment: " << (long)im.cols * im.seglines); is(c, l, Str() << "Scanlines per segment: " << im.seglines);
  is(c, l, Str() << "East is: " << (g.flip ? "left" : "right")); is(c, l, "North is: down"); is(c, l, Str() << "HRV: " << (hrv ? "yes" : "no"));
  if (hrv) { const int* v = im.cov; is(c, l, Str() << "LowerEastColumnActual: " << v[2]); is(c, l, Str() << "LowerSouthLineActual: " << v[0]); is(c, l, Str() << "LowerWestColumnActual: " << v[3]); is(c, l, Str() << "LowerNorthLineActual: " << v[1]);
    is(c, l, Str() << "UpperEastColumnActual: " << v[6]); is(c, l, Str() << "UpperSouthLineActual: " << v[4]); is(c, l, Str() << "UpperWestColumnActual: " << v[7]); is(c, l, Str() << "UpperNorthLineActual: " << v[5]); }
  else { is(c, l, "SouthLineActual: 1"); is(c, l, "WestColumnActual: 1"); }
  Shades all{65535, 0, {}};
  for (int i = 0; i < top; ++i) {
    std::string head = Str() << "Segment " << i << ": "; auto s = im.seg.find(i + 1);
    if (s == im.seg.end()) { is(c, l, head + "missing."); continue; }
    if (g.rows.at(i + 1) < im.seglines) { std::string got = l.next(c); PBT_CHECK(c, got.compare(0, head.size(), head) == 0 && got.find("min") == std::string::npos, "segment " << i << ", that is cut, is described as " << got); continue; }
    auto& d = s->second; int lo = *std::min_element(d.begin(), d.end()), hi = *std::max_element(d.begin(), d.end()); all.lo = std::min(all.lo, lo); all.hi = std::max(all.hi, hi);
    is(c, l, head + (std::string)(Str() << "min " << lo << " max " << hi));
    Shades sh{lo, hi, {}}; char pre[16]; snprintf(pre, sizeof pre, "%02d ", i);
    for (int y = 0; y < 3; ++y) {
      std::string got = l.next(c); PBT_CHECK(c, got.size() == strlen(pre) + 50 && got.compare(0, strlen(pre), pre) == 0, "segment " << i << " is drawn as " << got.size() << " characters");
      for (int x = 0; x < 50; ++x) sh.see(c, d[(size_t)(y * im.seglines / 3) * im.cols + x * im.cols / 50], got[strlen(pre) + x], Str() << "segment " << i << " row " << y << " column " << x);
    }
  }
  is(c, l, "Composite image:");
  for (int y = 0; y < 24; ++y) {
    std::string got = l.next(c); PBT_CHECK(c, got.size() == 50, "row " << y << " of the image is drawn as " << got.size() << " characters");
    std::vector<uint16_t> w; wantline(g, (size_t)y * g.grid / 24, w); w.resize(std::max<size_t>(w.size(), g.grid), 0);
    for (int x = 0; x < 50; ++x) { if (hrv) { PBT_CHECK(c, got[x] && strchr(" .,-:=$#", got[x]), "character " << (int)got[x]); } else all.see(c, w[x * g.grid / 50], got[x], Str() << "image row " << y << " column " << x); }
  }
  is(c, l, "");
}
static std::string anyname(pbt::Ctx& c, const Gen& g, const std::string& dir = "") {
  std::string d = dir.empty() ? "" : dir + "/";
  if (c.flag()) return d + g.im.name();
  auto it = g.im.seg.begin(); std::advance(it, c.below(g.im.seg.size())); return (dir.empty() ? "./" : d) + g.im.segname(it->first);
}
PBT_SUB("descriptions", 700, 20000) {
  c.dir(); int n = c.chance(1, 5) ? 2 : 1; std::vector<Gen> g; std::vector<std::string> a; std::vector<bool> hrv; bool none = n == 2 && c.chance(1, 3);
  for (int i = 0; i < n; ++i) { hrv.push_back(c.chance(1, 3)); g.push_back(image(c, hrv[i])); std::string d = n == 1 ? "" : std::to_string(i); if (n > 1) fs::create_directory(d); g[i].im.save(n > 1 ? d : "."); a.push_back(anyname(c, g[i], d)); c.describe(text(g[i], hrv[i]) + "; "); }
  c.nontrivial(); if (none) a.insert(a.begin() + 1, "H:MSG2:IR_108:209901010000");
  ToolRun r = runtool("xritdump", a); if (r.crashed) c.fail("xritdump " + why(r));
  PBT_CHECK(c, (r.status == 0) == !none && (none ? r.err.size() > 0 : true), "exit status " << r.status << ": " << r.err.substr(0, 200));
  Lines l(r.out); for (int i = 0; i < (none ? 1 : n); ++i) describe(c, g[i], hrv[i], l);
  PBT_CHECK(c, l.i == l.v.size(), l.v.size() - l.i << " lines too many");
}
// PGM or PPM written by ImageMagick
struct Pgm { int w = 0, h = 0, mx = 0; std::vector<int> v; int at(int x, int y) const { return v[(size_t)y * w + x]; } };
static Pgm pgm(pbt::Ctx& c, const std::string& f) {
  std::string s = slurp(f); Pgm p; int used = 0; PBT_CHECK(c, sscanf(s.c_str(), "P5 %d %d %d%n", &p.w, &p.h, &p.mx, &used) == 3, f << " is not a PGM file"); ++used;
  int by = p.mx > 255 ? 2 : 1; PBT_CHECK(c, s.size() - used == (size_t)by * p.w * p.h, "PGM file of the wrong size");
  for (size_t i = used; i < s.size(); i += by) p.v.push_back(by == 2 ? (uint8_t)s[i] << 8 | (uint8_t)s[i + 1] : (uint8_t)s[i]);
  return p;
}
static Gen convertible(pbt::Ctx& c) {
  Gen g = image(c, c.chance(1, 4)); xg::Image& im = g.im; im.cols = 1 + c.below(30); im.seglines = 1 + c.below(12); im.nsegs = 1 + c.below(10); im.seg.clear(); g.rows.clear();
  for (int n = 1 + c.below(im.nsegs); n > 0; --n) { int k = 1 + c.below(im.nsegs); im.seg[k] = samples(c, im.cols * im.seglines); g.rows[k] = im.seglines; if (c.chance(1, 12)) { im.seg[k].resize(c.below(im.seg[k].size())); g.rows[k] = 0; } }
  if (c.chance(1, 4)) im.prodid = c.chars(c.chance(1, 2) ? 12 : 1 + c.below(12), "ABMSG012"); if (c.chance(1, 4)) im.chan = c.chars(c.chance(1, 2) ? 9 : 1 + c.below(9), "ABIR_01"); while (!im.chan.empty() && im.chan.back() == '_') im.chan.pop_back(); if (im.chan.empty()) im.chan = "X";
  return g;
}
static std::vector<std::string> arguments(pbt::Ctx& c, const xg::Image& im, const std::string& dir) {
  std::vector<std::vector<std::string>> o = {{"-r", im.res}, {"-s", im.prodid}, {"-c", im.chan}, {"-t", im.time}}; if (dir != ".") o.push_back({"-d", dir});
  if (c.flag()) { o[0][0] = "--resolution"; o[1][0] = "--productid1"; o[2][0] = "--productid2"; o[3][0] = "--time"; }
  for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[c.below(i)]);
  std::vector<std::string> a; for (auto& x : o) a.insert(a.end(), x.begin(), x.end()); return a;
}
PBT_SUB("conversions", 350, 10000) {
  c.dir(); Gen g = convertible(c); std::string dir = c.chance(1, 3) ? "images" : "."; if (dir != ".") fs::create_directory(dir); g.im.save(dir); c.describe(text(g, false)); c.nontrivial();
  auto a = arguments(c, g.im, dir); int mode = c.below(5); const xg::Image& im = g.im; a.insert(a.end(), {"-f", "pgm"}); double scale = 1;
  if (mode == 1) a.push_back("-n"); if (mode == 2) { scale = c.pick({0.5, 0.25, 0.9}); a.insert(a.end(), {"-g", Str() << scale}); }
  // a picture laid over the image, adding to it (but for the high-resolution channel)
  std::vector<int> ov; int ow = 0, oh = 0; bool lost = false; if (mode == 4) { c.label("overlay"); ow = 1 + c.below(im.cols + 4); oh = 1 + c.below(im.seglines * im.nsegs + 4); if ((size_t)ow * oh > 400000) { ow = std::min(ow, 300); oh = std::min(oh, 300); } std::string o = Str() << "P5\n" << ow << " " << oh << "\n65535\n"; ov.resize((size_t)ow * oh); auto b = c.bytes(512); for (size_t i = 0; i < ov.size(); ++i) { int k = i * 7 % 509; ov[i] = b[k] % 3 ? 0 : b[k] % 2 ? 65535 : b[k] << 8 | b[k + 1]; o += (char)(ov[i] >> 8); o += (char)ov[i]; }
    lost = c.chance(1, 12); if (!lost) xg::save("over.pgm", o); a.insert(a.begin() + (c.flag() ? 0 : a.size()), {"-o", "over.pgm"}); }
  if (mode == 3) { g.im.time = "209901010000"; a = arguments(c, g.im, dir); }
  ToolRun r = runtool("XRIT2Image", a); if (r.crashed) c.fail("XRIT2Image " + why(r));
  std::string f = im.res + "-" + im.prodid + "-" + im.chan + "-" + im.time + ".pgm";
  if (mode == 3) { PBT_CHECK(c, r.status != 0 && !fs::exists(f), "an image that is not there is converted"); return; }
  if (lost && im.chanid < 12) { PBT_CHECK(c, r.status != 0 && !fs::exists(f), "an overlay that is not there is laid over the image"); return; }
  PBT_CHECK(c, r.status == 0, why(r)); PBT_CHECK(c, fs::exists(f), f << " is not written");
  Pgm p = pgm(c, f); int w = im.cols, h = im.seglines * im.nsegs;
  if (mode == 2) { PBT_CHECK(c, p.w <= w && p.h <= h && p.w >= 1 && p.h >= 1 && (p.w < w || p.h < h || (w == 1 && h == 1)), "scaled to " << p.w << "x" << p.h); return; }
  PBT_CHECK(c, p.w == w && p.h == h, "image of " << p.w << "x" << p.h << " instead of " << w << "x" << h);
  std::vector<std::pair<int, int>> o; // the image is turned upside down
  for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int k = y / im.seglines + 1; auto s = im.seg.find(k); int v = s == im.seg.end() || g.rows[k] < im.seglines ? 0 : s->second[(size_t)(y % im.seglines) * w + x]; int got = p.at(w - 1 - x, h - 1 - y);
    if (mode == 4) { if (im.chanid < 12 && w - 1 - x < ow && h - 1 - y < oh) v = std::min(65535, v + ov[(size_t)(h - 1 - y) * ow + w - 1 - x]); }
    if (mode != 1 && p.mx == 65535) PBT_CHECK(c, got == v, "pixel " << w - 1 - x << "," << h - 1 - y << " is " << got << " instead of " << v);
    o.push_back({v, got}); }
  std::sort(o.begin(), o.end()); for (size_t i = 1; i < o.size(); ++i) if (o[i].first != o[i - 1].first) PBT_CHECK(c, o[i].second >= o[i - 1].second, "sample " << o[i].first << " is darker than " << o[i - 1].first);
}
// Whatever the files contain, a tool ends by itself and says when it cannot go on
PBT_SUB("damaged images", 500, 15000) {
  c.dir(); bool dump = c.flag(); Gen g = dump ? gen(c, c.chance(1, 3)) : convertible(c);
  if ((size_t)g.im.cols * g.im.seglines > 200000) { g.im.cols = 20; for (auto& s : g.im.seg) s.second.resize((size_t)20 * g.im.seglines); }
  g.im.save("."); c.describe(text(g, false)); c.nontrivial(); std::string what;
  for (int k = 1 + c.below(2); k > 0; --k) {
    auto it = g.im.seg.begin(); std::advance(it, c.below(g.im.seg.size())); std::string f = c.chance(3, 4) ? g.im.segname(it->first) : c.flag() ? g.im.proname() : g.im.epiname(), b = slurp(f); if (b.empty()) continue; size_t hl = std::min<size_t>(b.size(), 200);
    switch (c.below(7)) {
      case 0: b.resize(c.chance(1, 2) ? c.below(hl + 1) : c.below(b.size() + 1)); what += " cut"; break;
      case 1: { auto r = c.bytes(60); for (int i = 0, n = 1 + c.below(15); i < n; ++i) b[(r[3 * i] << 8 | r[3 * i + 1]) % hl] = r[3 * i + 2]; what += " bytes"; break; }
      case 2: { size_t p = b.find(std::string("\x80\x00\x0d", 3)); if (p != std::string::npos && p + 13 <= b.size()) xg::put(b, p + 6, xg::be_u2(c.pick({0, 1, 2, g.im.nsegs, g.im.nsegs + 1, 100, 65535}))); what += " sequence number"; break; }
      case 3: { size_t p = b.find(std::string("\x80\x00\x0d", 3)); if (p != std::string::npos && p + 13 <= b.size()) { if (c.flag()) xg::put(b, p + 10, xg::be_u2(c.pick({0, 1, 2, 3, 255, 65535}))); else b[p + 12] = c.below(5); } what += " planned segments"; break; }
      case 4: { size_t p = b.find(std::string("\x01\x00\x09", 3)); if (p != std::string::npos && p + 9 <= b.size()) { xg::put(b, p + 4, xg::be_u2(c.pick({0, 1, g.im.cols + 1, g.im.cols * 2, 4000, 65535}))); if (c.flag()) xg::put(b, p + 6, xg::be_u2(c.pick({0, 1, g.im.seglines + 1, 65535}))); } what += " size"; break; }
      case 5: if (b.size() > 3) b[3] = c.pick({0, 1, 2, 3, 128, 129, 130, 144, 200}); what += " file type"; break;
      default: { size_t p = b.find(std::string("\x80\x00\x0d", 3)); if (p != std::string::npos && p + 13 <= b.size()) { b.erase(p, 13); xg::put(b, 4, xg::be_u4((uint8_t)b[4] << 24 | (uint8_t)b[5] << 16 | (uint8_t)b[6] << 8 | ((uint8_t)b[7] - 13))); } what += " no identification"; break; }
    }
    xg::save(f, b);
  }
  c.describe(", damaged:" + what); c.label(what.empty() ? "none" : what.substr(1, what.find(' ', 1) - 1));
  std::vector<std::string> a; if (dump) a = {g.im.name()}; else { a = arguments(c, g.im, "."); a.insert(a.end(), {"-f", "pgm"}); }
  ToolRun r = runtool(dump ? "xritdump" : "XRIT2Image", a);
  if (r.crashed) c.fail((dump ? "xritdump " : "XRIT2Image ") + why(r));
  PBT_CHECK(c, r.status == 0 || r.err.size(), "status " << r.status << " and no error is reported");
}
PBT_MAIN("P25", "a generated transmission image described or converted by the tools, and compared with its samples, or a damaged one; every case is non-trivial")
