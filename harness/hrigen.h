// Generated HRI files
#pragma once
#include "xritgen.h"
#include <cmath>
namespace hrig {
using pbt::Str; using xg::W;
struct Fmt { const char* name; int fi, vs, vn, ir, wv; };
// bands: 0 IR, 1 WV, 2 VIS, 3 VH; lines of every band in the order they are sent
struct Plan { std::vector<int> band; int cols, lines; };
static int cols(char f, int band) { return f == 'A' ? band == 2 ? 5000 : 2500 : f == 'B' ? band == 2 ? 2500 : 1250 : 1250; }
static int nlines(char f, int band) { return f == 'A' ? band == 2 ? 5000 : 2500 : f == 'B' ? band == 2 ? 1250 : 625 : 1250; }
static const std::pair<const char*, std::vector<int>> CODES[] = {
  {"AV", {2}}, {"AVH", {3}}, {"AW", {1}}, {"AIW", {0, 1}}, {"AIVH", {0, 3}}, {"BW", {1}}, {"BIV", {0, 2}}, {"BIVH", {0, 2}}, {"BIW", {0, 1}}, {"XI", {0}}, {"XW", {1}}, {"XVH", {3}}};

struct File { std::string code; std::vector<int> bands; bool tec; std::string label, ident, interp, keys, seed, bytes; int sat; size_t head; uint32_t seed0; int framelen; };
static uint8_t sample(uint32_t s, uint32_t k) { uint32_t x = s + k * 2654435761u; x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; return x; }
static std::string digits(pbt::Ctx& c, int n) { std::string s; for (int i = 0; i < n; ++i) s += c.chance(1, 6) ? ' ' : '0' + (char)c.below(10); return s; }
static double value(const std::string& d, double first) { double v = 0; for (char x : d) { if (x != ' ') v += (x - '0') * first; first /= 10; } return v; }
static std::string ibm(pbt::Ctx& c, int n) { auto b = c.bytes(n); std::string s((char*)b.data(), n); if (c.chance(1, 2)) s[0] = (s[0] & 0x80) | (char)c.range(60, 70); if (c.chance(1, 12)) s = s.substr(0, 1) + std::string(n - 1, 0); if (c.chance(1, 12)) s = std::string(n, 0); if (c.chance(1, 8)) s[1] = c.chance(1, 2) ? 0 : s[1] & 0x1f; return s; }
static long double ibmval(const std::string& s) { long double f = 0; for (size_t i = 1; i < s.size(); ++i) f = f * 256 + (uint8_t)s[i]; f = ldexpl(f, -8 * (int)(s.size() - 1) + 4 * (((uint8_t)s[0] & 0x7f) - 64)); return (uint8_t)s[0] & 0x80 ? -f : f; }
static bool near(double g, long double w, bool f32) {
  long double max = f32 ? 3.40282346638528859812e38L : 1.7976931348623157e308L, min = f32 ? 1.17549435e-38L : 2.2250738585072014e-308L;
  if (fabsl(w) >= max) return fabsl(g) >= max * 0.999L && (g < 0) == (w < 0);
  if (fabsl(w) < min * 2) return fabs(g) <= min * 4;
  return fabsl(g - w) <= fabsl(w) * (f32 ? 1.3e-7L : 4e-15L);
}

static std::string label(pbt::Ctx& c, const std::string& code) {
  auto r = c.bytes(40); std::string s(24, 0); for (int i = 0; i < 24; ++i) s[i] = r[i];
  char f = code[0]; s[12] = f == 'A' ? 0 : f == 'B' ? (char)255 : 15;
  bool v = code.find('V') != std::string::npos, h = code.find('H') != std::string::npos, ir = code.find('I') != std::string::npos, w = code.find('W') != std::string::npos;
  auto vis = [&] { return h ? 255 : c.pick({240, 15}); };
  s[13] = s[14] = 0; if (v) { int k = c.below(3); if (k != 1) s[13] = vis(); if (k != 0) s[14] = vis(); }
  s[15] = ir ? c.pick({255, 1, 240}) : 0; s[16] = w ? c.pick({255, 1, 128}) : 0;
  if (c.flag()) s[19] = c.pick({0, 240, 15, 255});
  return s;
}
static std::string ident(pbt::Ctx& c, int& sat) {
  auto r = c.bytes(40); std::string s(48, 0); for (int i = 0; i < 32; ++i) s[i] = r[i];
  if (c.flag()) { s[0] = (char)212; s[1] = c.flag() ? (char)(240 + c.below(16)) : (char)c.below(241); sat = 0; } else { s[0] = 0; sat = 1 + (s[1] = c.below(4)); }
  int y = c.range(1977, 2030); bool leap = y % 4 == 0 && (y % 100 || y % 400 == 0);
  xg::put(s, 2, W().u2(y).u2(c.chance(1, 4) ? c.pick({1, 31, 32, 59, 60, 61, leap ? 366 : 365}) : (int)c.range(1, leap ? 366 : 365)).u2(c.below(24) * 100 + c.below(60)).b);
  return s;
}
static std::string interp(pbt::Ctx& c) {
  auto r = c.bytes(1360); std::string s((char*)r.data(), 1360); xg::put(s, 0, digits(c, 104));
  for (int i = 104; i < 176; i += 8) xg::put(s, i, ibm(c, 8)); xg::put(s, 180, ibm(c, 4)); for (int i = 272; i < 328; i += 8) xg::put(s, i, ibm(c, 8)); for (int i = 328; i < 344; i += 4) xg::put(s, i, ibm(c, 4));
  for (int i = 364; i < 388; i += 4) xg::put(s, i, ibm(c, 4)); for (int i = 392; i < 456; i += 4) xg::put(s, i, ibm(c, 4));
  if (c.flag()) for (int i = 184; i < 196; ++i) s[i] = c.flag(); if (c.flag()) for (int i = 232; i < 243; ++i) s[i] = c.flag();
  std::string m = c.chars(c.chance(1, 4) ? 800 : c.below(800), "abcDEF 019.\n"); m.resize(800, 0); xg::put(s, 560, m);
  return s;
}
static File gen(pbt::Ctx& c, bool big) {
  File f; auto& k = big ? CODES[c.below(12)] : CODES[c.pick({5, 9, 10, 11, 5, 8})];
  f.code = k.first; f.bands = k.second; f.tec = c.chance(1, 3); f.label = label(c, f.code); f.ident = ident(c, f.sat); f.interp = interp(c); f.seed0 = c.below(1u << 31);
  { auto b = c.bytes(8); f.seed.assign((char*)b.data(), 8); } { auto b = c.bytes(1440); f.keys.assign((char*)b.data(), 1440); for (int i = 0; i < 120; ++i) f.keys[12 * i] = c.chance(1, 2); }
  char a = f.code[0]; char id = a == 'A' ? 112 : 48; std::string sync = std::string("\x05\x0c\xdf", 3) + id;
  uint32_t n = 0; auto px = [&](int len) { std::string s(len, 0); for (auto& x : s) x = sample(f.seed0, n++); return s; };
  auto frame = [&](std::string body) { f.bytes += sync + body; };
  auto junk = [&](int len) { std::string s(len, 0); for (int i = 0; i < len; ++i) s[i] = sample(f.seed0 + 99, i); return s; };
  int per = a == 'A' ? 2500 : 1250, gap = a == 'A' ? 64 : 32, tgap = a == 'A' ? 384 : 192, trest = a == 'A' ? 184 : 90;
  if (!f.tec) {
    frame(f.label + f.seed + f.ident + f.interp.substr(0, 280)); for (int i = 0; i < 3; ++i) frame(f.interp.substr(280 + 360 * i, 360));
    if (a == 'A') for (int i = 0; i < 4; ++i) frame(f.keys.substr(360 * i, 360));
  } else {
    std::string b = junk(512) + sync + f.label + f.seed + f.ident + f.interp + (a == 'A' ? f.keys.substr(0, 92) : std::string()); b.resize(2048, 'x'); f.bytes = b;
    if (a == 'A') { std::string k = f.keys.substr(92); k.resize(1536, 'k'); f.bytes += k; }
  }
  f.head = f.bytes.size();
  auto line = [&] {
    std::string s = px(per);
    if (!f.tec) { std::string b = junk(gap) + s; while (b.size() % 360) b += 'z'; for (size_t i = 0; i < b.size(); i += 360) frame(b.substr(i, 360)); }
    else f.bytes += sync + junk(tgap) + s + junk(trest);
  };
  size_t before = f.bytes.size(); f.framelen = 0;
  int nl = nlines(a, f.bands[0]); if (f.bands.size() == 1 && f.bands[0] == 2) { for (int i = 0; i < nl * 2; ++i) line(); }
  else for (int i = 0; i < nl; ++i) { for (int b : f.bands) for (int k = 0; k < (b == 2 ? 4 : 1); ++k) { line(); if (!f.framelen) f.framelen = f.bytes.size() - before; } }
  if (!f.framelen) f.framelen = (f.bytes.size() - before) / (nl * 2);
  return f;
}
static std::string text(const File& f) { return Str() << f.code << (f.tec ? " Tecnavia" : "") << " satellite " << f.sat; }
} // namespace hrig
