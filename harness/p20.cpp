// P20: text and path helpers
#include "pbt.h"
#include <msat/utils/string.h>
#include <filesystem>
#include <list>
#include <cstdlib>
#include <sys/stat.h>
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
using pbt::Ctx; using pbt::Str;
namespace ms = msat::str;
typedef std::string S;
typedef std::vector<S> VS;

// a copy in memory of exactly its size
static S exact(const S& s) { return S(s.data(), s.size()); }
static S shown(const S& s) { S r = "'"; char b[8]; for (unsigned char ch : s.substr(0, 200)) { if (ch < 32 || ch > 126) { snprintf(b, 8, "<%02x>", ch); r += b; } else r += ch; } return r + (s.size() > 200 ? "'..." : "'"); }
static S text(Ctx& c, const S& alphabet) {
  switch (c.below(8)) {
    case 0: return exact(c.chars(c.below(4), alphabet));
    case 1: { auto b = c.bytes(c.below(40)); return S(b.begin(), b.end()); }
    case 2: { auto b = c.bytes(c.chance(1, 20) ? 100000 + c.below(50000) : c.below(3000)); c.label("long"); return S(b.begin(), b.end()); }
    case 3: { S r; int n = c.below(12); for (int i = 0; i < n; ++i) r += (char)c.ubits(8); c.label("byte by byte"); return exact(r); }
    default: return exact(c.chars(c.below(30), alphabet));
  }
}
static bool space(char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }

PBT_SUB("trim, case, prefix, suffix", 6000, 400000) {
  S s = text(c, " \t\n\v\f\r\x85\xa0\x1f" "abcXYZ");
  c.describe(shown(s));
  size_t a = 0, b = s.size(); while (a < b && space(s[a])) ++a; S l = s.substr(a);
  while (b > 0 && space(s[b - 1])) --b; S r = s.substr(0, b), m = a < b ? s.substr(a, b - a) : S();
  if (a || b < s.size()) c.nontrivial();
  PBT_CHECK(c, ms::lstrip(s) == l, "lstrip gives " << shown(ms::lstrip(s)));
  PBT_CHECK(c, ms::rstrip(s) == r, "rstrip gives " << shown(ms::rstrip(s)));
  PBT_CHECK(c, ms::strip(s) == m, "strip gives " << shown(ms::strip(s)));
  S up = s, lo = s; for (auto& ch : up) if (ch >= 'a' && ch <= 'z') ch -= 32; for (auto& ch : lo) if (ch >= 'A' && ch <= 'Z') ch += 32;
  PBT_CHECK(c, ms::upper(s) == up, "upper gives " << shown(ms::upper(s))); PBT_CHECK(c, ms::lower(s) == lo, "lower gives " << shown(ms::lower(s)));
  if (up != s || lo != s) c.label("case");
  // prefixes and suffixes, also nearly so
  size_t k = c.below(s.size() + 1); S p = exact(s.substr(0, k)), q = exact(s.substr(s.size() - k));
  int how = c.below(4);
  if (how == 1 && k) { size_t at = c.below(k); p[at] ^= 1 << c.below(8); q[at] ^= 1 << c.below(8); }
  if (how == 2) { p = exact(s + (char)c.ubits(8)); q = exact((char)c.ubits(8) + s); }
  if (how == 3) { p = q = text(c, "ab"); }
  bool sw = p.size() <= s.size(), ew = q.size() <= s.size();
  for (size_t i = 0; sw && i < p.size(); ++i) if (p[i] != s[i]) sw = false;
  for (size_t i = 0; ew && i < q.size(); ++i) if (q[i] != s[s.size() - q.size() + i]) ew = false;
  PBT_CHECK(c, ms::startswith(s, p) == sw, "starts with " << shown(p)); PBT_CHECK(c, ms::endswith(s, q) == ew, "ends with " << shown(q));
  c.label(sw ? "prefix" : "no prefix");
}

static void splits(Ctx& c, const S& s, const S& sep, bool skip) {
  c.describe(Str() << shown(s) << " at " << shown(sep) << (skip ? " without empty tokens" : ""));
  // token, and what follows it and its separators
  VS tok, rem; size_t p = 0;
  if (sep.empty()) for (size_t i = 0; i < s.size(); ++i) { tok.push_back(S(1, s[i])); rem.push_back(s.substr(i + 1)); }
  else if (!s.empty()) for (;;) {
    size_t e = p; while (e < s.size() && s.compare(e, sep.size(), sep) != 0) ++e;
    bool last = e >= s.size();
    tok.push_back(s.substr(p, e - p)); p = last ? s.size() : e + sep.size(); rem.push_back(s.substr(p));
    if (last) break;
  }
  size_t all = tok.size();
  if (skip && !sep.empty()) { VS t, r; for (size_t i = 0; i < tok.size(); ++i) if (!tok[i].empty()) { S f = rem[i]; while (f.size() >= sep.size() && f.compare(0, sep.size(), sep) == 0) f.erase(0, sep.size()); t.push_back(tok[i]); r.push_back(f); } tok = t; rem = r; }
  if (all > 1) c.nontrivial();
  ms::Split split(s, sep, skip); size_t i = 0;
  std::vector<ms::Split::const_iterator> its;
  for (auto it = split.begin(); it != split.end(); ++it, ++i) {
    PBT_CHECK(c, i < tok.size(), "token " << i << " " << shown(*it) << ", the string has " << tok.size());
    PBT_CHECK(c, *it == tok[i] && it->size() == tok[i].size(), "token " << i << " is " << shown(*it) << " instead of " << shown(tok[i]));
    PBT_CHECK(c, it.remainder() == rem[i], "after token " << i << " is left " << shown(it.remainder()) << " instead of " << shown(rem[i]));
    if (i < 40) its.push_back(it);
  }
  PBT_CHECK(c, i == tok.size(), i << " tokens instead of " << tok.size());
  // copies of the iterator go on from where they are, also after the split is used again
  VS again; for (auto& t : split) again.push_back(t);
  PBT_CHECK(c, again == tok, "splitting again gives " << again.size() << " tokens");
  if (!its.empty()) {
    size_t k = c.below(its.size()); auto it = its[k]; PBT_CHECK(c, *it == tok[k] && it == its[k] && !(it != its[k]), "a copy of iterator " << k << " gives " << shown(*it));
    ++it; PBT_CHECK(c, *its[k] == tok[k], "the copied iterator moves"); PBT_CHECK(c, k + 1 < tok.size() ? it != split.end() && *it == tok[k + 1] : it == split.end(), "after a copy of iterator " << k << " is " << shown(*it));
  }
  // joining gives back the string
  if (!skip && !sep.empty()) { S j = ms::join(sep, tok); PBT_CHECK(c, j == s && ms::join(sep, again) == s, "joined again gives " << shown(j)); }
}
PBT_SUB("split and join", 6000, 400000) {
  S sep = c.pick<S>({"/", ",", ":", "ab", "aa", "aba", "", "--", "\n", S("\0", 1), " , ", "\xff"});
  bool skip = c.flag();
  S alphabet = sep + sep + "ab" + S("\0\xff", 2) + "c";
  S s; int kind = c.below(6);
  if (kind == 0) { int n = c.below(12); for (int i = 0; i < n; ++i) s += c.flag() ? sep : c.chars(c.below(3), alphabet); }
  else if (kind == 1) { int n = c.below(4); for (int i = 0; i < n; ++i) s += sep; c.label("separators only"); }
  else if (kind == 2) { VS t; int n = c.below(6); for (int i = 0; i < n; ++i) t.push_back(c.chars(c.below(5), "xyz")); s = ms::join(sep, t); c.label("tokens"); }
  else s = text(c, alphabet);
  if (s.size() > 3000) s.resize(3000);
  c.label("separator of " + std::to_string(sep.size())); c.label(skip ? "skip empty" : "keep empty");
  splits(c, exact(s), sep, skip);
}
PBT_SUB("join", 2000, 100000) {
  S sep = text(c, "/,"); if (sep.size() > 50) sep.resize(50);
  int n = c.below(8); std::vector<int> v; std::list<S> l; S e, f, g;
  for (int i = 0; i < n; ++i) {
    v.push_back((int)(c.ubits(32))); l.push_back(c.chars(c.below(6), S("ab/ \0", 5)));
    if (i) { e += sep; f += sep; } e += std::to_string(v.back()); f += l.back();
  }
  if (n > 1) c.nontrivial();
  c.describe(Str() << n << " items with " << shown(sep));
  PBT_CHECK(c, ms::join(sep, v) == e, "numbers give " << shown(ms::join(sep, v)) << " instead of " << shown(e));
  PBT_CHECK(c, ms::join(sep, v.begin(), v.end()) == e, "numbers give " << shown(ms::join(sep, v.begin(), v.end())) << " instead of " << shown(e));
  PBT_CHECK(c, ms::join(sep, l) == f && ms::join(sep, l.begin(), l.end()) == f, "strings give " << shown(ms::join(sep, l)) << " instead of " << shown(f));
  if (n > 1) { S h; PBT_CHECK(c, ms::join(sep, v.begin() + 1, v.end()) == e.substr(e.find(sep, 0) == S::npos ? 0 : std::to_string(v[0]).size() + sep.size()), "part of the numbers"); }
}

// C escapes
static int hexval(char ch) { return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; }
static S unescape(const S& s, size_t& used) {
  S r; size_t i = 0;
  while (i < s.size() && s[i] != '"') {
    if (s[i] != '\\' || i + 1 == s.size()) { r += s[i++]; continue; }
    char k = s[i + 1]; i += 2;
    if (k == 'n') r += '\n'; else if (k == 't') r += '\t';
    else if (k == 'x') { int v = 0, n = 0; while (n < 2 && i < s.size() && hexval(s[i]) >= 0) { v = v * 16 + hexval(s[i]); ++i; ++n; } r += (char)v; }
    else r += k;
  }
  used = i < s.size() ? i + 1 : i; return r;
}
PBT_SUB("C strings", 6000, 400000) {
  S s = text(c, S("abcdef019\\\"\"\n\t\r\x01\x7f\0\xffx'?", 23));
  c.describe(shown(s)); S e = ms::encode_cstring(s);
  if (e != s) c.nontrivial();
  for (size_t i = 0; i < e.size(); ++i) {
    unsigned char ch = e[i]; PBT_CHECK(c, ch >= 32 && ch != 127, "the encoded string " << shown(e) << " has a control character");
    if (ch == '\\') { PBT_CHECK(c, i + 1 < e.size(), "unfinished escape"); ++i; } else PBT_CHECK(c, ch != '"', "the quote in " << shown(e) << " ends the string");
  }
  S plain; for (char ch : s) if (ch >= 32 && ch != 127 && ch != '"' && ch != '\\') plain += ch;
  if (plain == s) PBT_CHECK(c, e == s, "a plain string is encoded as " << shown(e));
  size_t n = 12345, w; S d = ms::decode_cstring(exact(e), n);
  PBT_CHECK(c, d == s && n == e.size(), "decoding " << shown(e) << " gives " << shown(d) << " from " << n << " characters");
  S after = text(c, "\"ab1\\"); n = 12345; d = ms::decode_cstring(exact(e + "\"" + after), n);
  PBT_CHECK(c, d == s && n == e.size() + 1, "decoding the quoted string " << shown(e) << " gives " << shown(d) << " from " << n << " characters");
  // any text
  S t = exact(text(c, "\\\\\\xxn\"tAf0g1")); d = ms::decode_cstring(t, n); S want = unescape(t, w);
  c.describe(" and " + shown(t));
  PBT_CHECK(c, d == want && n == w, "decoding " << shown(t) << " gives " << shown(d) << " from " << n << " characters instead of " << shown(want) << " from " << w);
}

PBT_SUB("URLs", 6000, 400000) {
  S s = text(c, S("abzAZ019-_!*'()~.+%&=? /\0\xff\x80", 28));
  c.describe(shown(s)); S e = ms::encode_url(s), model;
  bool plain = true; for (char ch : s) if (!isalnum((unsigned char)ch) && ch != '-' && ch != '_') plain = false;
  if (!plain) c.nontrivial();
  for (size_t i = 0; i < e.size(); ++i) {
    if (e[i] == '%') { PBT_CHECK(c, i + 2 < e.size() && hexval(e[i + 1]) >= 0 && hexval(e[i + 2]) >= 0, "malformed escape in " << shown(e)); model += (char)(hexval(e[i + 1]) * 16 + hexval(e[i + 2])); i += 2; }
    else { PBT_CHECK(c, isalnum((unsigned char)e[i]) || (e[i] && strchr("-_.!~*'()", e[i])), "reserved character in " << shown(e)); model += e[i]; }
  }
  PBT_CHECK(c, model == s, shown(e) << " stands for " << shown(model)); if (plain) PBT_CHECK(c, e == s, "a plain string is encoded as " << shown(e));
  S d = ms::decode_url(exact(e)); PBT_CHECK(c, d == s, "decoding " << shown(e) << " gives " << shown(d));
  // escapes in any case and where they are not needed, and a partial one at the end
  S m, want; int n = c.below(12); char b[8];
  for (int i = 0; i < n; ++i) { unsigned char ch = c.ubits(8); if (c.flag() || ch == '%') { snprintf(b, 8, c.flag() ? "%%%02x" : "%%%02X", ch); m += b; } else m += ch; want += ch; }
  S tail = c.pick<S>({"", "%", "%4", "%g", "%%"}); m += tail; if (tail == "%%") want += ""; c.describe(" and " + shown(m));
  d = ms::decode_url(exact(m)); PBT_CHECK(c, d == want, "decoding " << shown(m) << " gives " << shown(d) << " instead of " << shown(want));
  // any text
  S t = exact(text(c, "%%%%0aAgz")); d = ms::decode_url(t); PBT_CHECK(c, d.size() <= t.size(), "decoding " << shown(t) << " gives more than it");
}

PBT_SUB("base64", 6000, 400000) {
  static const S A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  S s = text(c, S("ab\0\xff\x80\xfb\xef\xbe", 8)); c.describe(shown(s)); if (!s.empty()) c.nontrivial();
  S want; uint32_t acc = 0; int bits = 0; // bit by bit
  for (unsigned char ch : s) { acc = (acc << 8 | ch) & 0xffffff; bits += 8; while (bits >= 6) { bits -= 6; want += A[acc >> bits & 63]; } }
  if (bits) want += A[acc << (6 - bits) & 63]; while (want.size() % 4) want += '=';
  S e = ms::encode_base64(exact(s)); PBT_CHECK(c, e == want, "encoded as " << shown(e) << " instead of " << shown(want));
  std::vector<char> buf(s.begin(), s.end()); PBT_CHECK(c, ms::encode_base64(buf.data(), buf.size()) == want, "the buffer is encoded differently");
  S d = ms::decode_base64(exact(e)); PBT_CHECK(c, d == s, shown(e) << " is decoded as " << shown(d));
  c.label("rest " + std::to_string(s.size() % 3));
  // any text
  S t = exact(text(c, c.flag() ? "AZaz09+/" : "====AB{*,-.@[`\x80\xff~")); c.describe(" and " + shown(t)); d = ms::decode_base64(t);
  PBT_CHECK(c, d.size() <= (t.size() + 3) / 4 * 3, "decoding " << shown(t) << " gives " << d.size() << " bytes");
  // damaged characters change only their group
  if (!e.empty() && s.size() > 3) { S x = e; size_t at = c.below(s.size() / 3 * 4); x[at] = (char)c.ubits(8); if (x[at] != '=') { d = ms::decode_base64(exact(x)); PBT_CHECK(c, d.size() == s.size() && d.substr(0, at / 4 * 3) == s.substr(0, at / 4 * 3) && d.substr(at / 4 * 3 + 3) == s.substr(at / 4 * 3 + 3), "one damaged character changes other groups: " << shown(d)); c.label("damaged"); } }
}

static S path(Ctx& c) {
  if (c.chance(1, 12)) return text(c, "/.a");
  S r; int n = c.below(9); if (c.chance(1, 3)) r = c.pick<S>({"/", "//", "///"});
  for (int i = 0; i < n; ++i) { r += c.pick<S>({"a", "b", "..", ".", "", "...", "..a", "a..", ".a", "longer name", "a"}); if (i + 1 < n || c.chance(1, 3)) r += c.pick<S>({"/", "/", "/", "//", "/./", "/../"}); }
  return exact(r);
}
static S nul(const S& s) { return S(s.c_str()); }
PBT_SUB("paths", 8000, 600000) {
  S p = path(c); c.describe(shown(p)); if (p.find('/') != S::npos) c.nontrivial();
  S n = ms::normpath(p);
  S want = std::filesystem::path(p).lexically_normal().string(); while (want.size() > 1 && want.back() == '/') want.pop_back(); if (want.empty()) want = ".";
  PBT_CHECK(c, n == want, "normalised as " << shown(n) << " instead of " << shown(want));
  PBT_CHECK(c, ms::normpath(n) == n, shown(n) << " normalised again gives " << shown(ms::normpath(n)));
  if (!p.empty()) PBT_CHECK(c, n.size() <= p.size(), shown(n) << " is longer");
  if (p.find("..") != S::npos) c.label("..");
  // name and directory
  S b = ms::basename(p), d = ms::dirname(p); PBT_CHECK(c, b == p.substr(p.size() - b.size()) && b.find('/') == S::npos && (b.size() == p.size() || p[p.size() - b.size() - 1] == '/'), "file name " << shown(b));
  S t = p; while (t.size() > 1 && t.back() == '/') t.pop_back();
  S wd; { size_t k = t.rfind('/'); if (k == S::npos) wd = "."; else { wd = t.substr(0, k); while (!wd.empty() && wd.back() == '/') wd.pop_back(); if (wd.empty()) wd = "/"; } }
  PBT_CHECK(c, d == wd, "directory " << shown(d) << " instead of " << shown(wd));
  if (!p.empty() && p.back() != '/') PBT_CHECK(c, ms::normpath(ms::joinpath(d, b)) == n, "directory and name joined are " << shown(ms::joinpath(d, b)));
  // joining
  S q = path(c), r = path(c); c.describe(" " + shown(q) + " " + shown(r));
  auto cat = [](const S& x, const S& y) -> S { if (x.empty()) return y; if (y.empty()) return x; bool l = x.back() == '/', m = y[0] == '/'; return l && m ? x + y.substr(1) : l || m ? x + y : x + "/" + y; };
  S j = p; ms::appendpath(j, q); PBT_CHECK(c, j == cat(p, q), "joined are " << shown(j));
  j = p; ms::appendpath(j, q, r); PBT_CHECK(c, j == cat(cat(p, q), r), "the three joined are " << shown(j));
  j = nul(p); ms::appendpath(j, q.c_str()); PBT_CHECK(c, j == cat(nul(p), nul(q)), "joined as C strings are " << shown(j));
  j = nul(p); ms::appendpath(j, q.c_str(), r, "x"); PBT_CHECK(c, j == cat(cat(cat(nul(p), nul(q)), r), "x"), "the four joined are " << shown(j));
  PBT_CHECK(c, ms::joinpath(p) == p && ms::joinpath(p, q) == cat(p, q) && ms::joinpath(p, q, r) == cat(cat(p, q), r), "joinpath gives " << shown(ms::joinpath(p, q, r)));
}

// normalised paths lead to the same place of a real directory tree
PBT_SUB("paths in a tree", 800, 20000) {
  S root = c.dir(); S names[] = {"a", "b", "..a"};
  for (auto& x : names) { mkdir(x.c_str(), 0700); for (auto& y : names) { mkdir((x + "/" + y).c_str(), 0700); for (auto& z : names) mkdir((x + "/" + y + "/" + z).c_str(), 0700); } }
  for (int k = 0; k < 20; ++k) {
    S p = c.flag() ? root + c.pick<S>({"/", "//"}) : S(); int n = 1 + c.below(8), depth = 0;
    for (int i = 0; i < n; ++i) { int w = c.below(6); if (w < 3 && depth < 3) { p += names[w]; ++depth; } else if (w < 5 && depth > 0) { p += ".."; --depth; } else p += "."; if (i + 1 < n || c.flag()) p += c.pick<S>({"/", "//", "/./"}); }
    S q = ms::normpath(p); struct stat a, b; c.nontrivial();
    PBT_CHECK(c, stat(p.c_str(), &a) == 0 && stat(q.c_str(), &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev, shown(p) << " and " << shown(q) << " are different directories");
    if (!k) c.describe(shown(p));
  }
}

PBT_MAIN("P20", "the string is changed by the function: something to strip, more than one token, characters to escape, a path with separators")
