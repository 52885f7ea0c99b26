// P21: configuration dictionaries
#include "pbt.h"
#include <msat/iniparser.h>
#include <unordered_map>
#include <map>
#include <cmath>
#include <climits>
using pbt::Ctx; using pbt::Str;
typedef std::string S;
struct Val { bool null = true; S s; Val() {} Val(const S& v) : null(false), s(v) {} bool operator==(const Val& o) const { return null == o.null && s == o.s; } };
typedef std::map<S, Val> Map; // lower case keys, "section" or "section:key"
static S shown(const S& s) { S r = "'"; char b[8]; for (unsigned char ch : s.substr(0, 120)) { if (ch < 32 || ch > 126) { snprintf(b, 8, "<%02x>", ch); r += b; } else r += ch; } return r + (s.size() > 120 ? "'..." : "'"); }
static S show(const Val& v) { return v.null ? S("(null)") : shown(v.s); }
static S lower(S s) { for (auto& ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }
struct Dict { dictionary* d; Dict(dictionary* d) : d(d) {} ~Dict() { if (d) iniparser_free(d); } Dict(const Dict&) = delete; operator dictionary*() { return d; } };
// arguments live in memory of exactly their size, and must not be changed
struct Arg { char* p; S s; Arg(const S& s) : p(strdup(s.c_str())), s(s.c_str()) {} ~Arg() { free(p); } operator char*() { return p; } bool same() const { return s == p; } Arg(const Arg&) = delete; };
static void put(const char* f, const S& s) { FILE* o = fopen(f, "w"); fwrite(s.data(), 1, s.size(), o); fclose(o); }
static S get(const char* f) { FILE* i = fopen(f, "r"); S r; char b[4096]; size_t n; while ((n = fread(b, 1, 4096, i)) > 0) r.append(b, n); fclose(i); return r; }
static dictionary* load(const char* f) { Arg a(f); return iniparser_new(a); }

// names with the same hash value, found once
static std::vector<std::pair<S, S>>& twins() {
  static std::vector<std::pair<S, S>> r;
  if (r.empty()) {
    std::unordered_map<unsigned, S> m;
    for (int i = 0; i < 400000 && r.size() < 8; ++i) {
      S k = "s:" + std::to_string(i * 7919LL); unsigned h = 0;
      for (char ch : k) { h += (unsigned)ch; h += h << 10; h ^= h >> 6; } h += h << 3; h ^= h >> 11; h += h << 15;
      auto x = m.emplace(h, k); if (!x.second) r.push_back({x.first->second, k});
    }
  }
  return r;
}
static bool hooked = (pbt::init_hook() = [] { twins(); }, true);

// what can be asked of an entry
static void query(Ctx& c, dictionary* d, const Map& m, const S& key) {
  auto i = m.find(lower(key)); bool has = i != m.end(); Val v = has ? i->second : Val();
  Arg k(key); char def[] = "default"; char* g = iniparser_getstring(d, k, def);
  PBT_CHECK(c, k.same(), "asking changes the name " << shown(key));
  if (!has) PBT_CHECK(c, g == def, shown(key) << " is absent and gives " << (g ? shown(g) : S("null")));
  else PBT_CHECK(c, v.null ? g == nullptr : g && g == v.s, shown(key) << " is " << (g ? shown(g) : S("null")) << " instead of " << show(v));
  char* h = iniparser_getstr(d, k); PBT_CHECK(c, has ? h == g : h == nullptr, "getstr of " << shown(key) << " gives another value");
  PBT_CHECK(c, iniparser_find_entry(d, k) == (has ? 1 : 0), shown(key) << (has ? " is not" : " is") << " found");
  bool val = has && !v.null;
  // numbers
  long n = 0; double x = 0; bool ni = false, nd = false;
  if (val) { // digits after blanks and a sign
    const S& s = v.s; size_t p = 0; while (p < s.size() && isspace((unsigned char)s[p])) ++p; bool neg = false; if (p < s.size() && (s[p] == '-' || s[p] == '+')) neg = s[p++] == '-';
    size_t q = p; __int128 t = 0; while (q < s.size() && isdigit((unsigned char)s[q]) && q - p < 20) t = t * 10 + (s[q++] - '0'); t = neg ? -t : t;
    if (t >= INT_MIN && t <= INT_MAX) { ni = true; n = (long)t; }
    bool plain = q == s.size() || (s[q] == '.' && q > p) ; if (plain && q - p < 16) { // decimals
      x = (double)(neg ? -t : t); size_t e = q; double w = 1; bool ok = true; if (e < s.size()) { ++e; while (e < s.size() && isdigit((unsigned char)s[e])) { w /= 10; x += (s[e] - '0') * w; ++e; } if (e < s.size() && (s[e] == 'e' || s[e] == 'E')) ok = false; }
      if (neg) x = -x; nd = ok; }
  }
  int di = 4711; double dd = -17.25;
  int r = iniparser_getint(d, k, di); if (!val) PBT_CHECK(c, r == di, shown(key) << " has no value and gives " << r); else if (ni) PBT_CHECK(c, r == n, show(v) << " gives the integer " << r);
  double y = iniparser_getdouble(d, k, dd); if (!val) PBT_CHECK(c, y == dd, shown(key) << " has no value and gives " << y); else if (nd) PBT_CHECK(c, fabs(y - x) <= 1e-9 * (1 + fabs(x)), show(v) << " gives the number " << y);
  char f = val && !v.s.empty() ? v.s[0] : 0; int want = f && strchr("yYtT1", f) ? 1 : f && strchr("nNfF0", f) ? 0 : 42;
  r = iniparser_getboolean(d, k, 42); PBT_CHECK(c, r == want, show(v) << " gives the boolean " << r << " instead of " << want);
}
static void whole(Ctx& c, dictionary* d, const Map& m) {
  PBT_CHECK(c, d->n == (int)m.size(), d->n << " entries instead of " << m.size());
  std::set<S> sec, got; for (auto& i : m) if (i.first.find(':') == S::npos) sec.insert(i.first);
  int n = iniparser_getnsec(d); PBT_CHECK(c, n == (int)sec.size(), n << " sections instead of " << sec.size());
  for (int i = 0; i < n; ++i) { char* s = iniparser_getsecname(d, i); PBT_CHECK(c, s, "section " << i << " of " << n << " has no name"); got.insert(s); }
  PBT_CHECK(c, got == sec, "other sections, or some more than once");
  PBT_CHECK(c, !iniparser_getsecname(d, n) && !iniparser_getsecname(d, n + 7) && !iniparser_getsecname(d, -1), "there is a section after the last or before the first");
}
static void listed(Ctx& c, dictionary* d, const Map& m) {
  FILE* o = fopen("dump", "w"); iniparser_dump(d, o); fclose(o);
  std::multiset<S> want, got; for (auto& i : m) want.insert("[" + i.first + "]=" + (i.second.null ? S("UNDEF") : "[" + i.second.s + "]"));
  S t = get("dump"), l; for (char ch : t) if (ch == '\n') { got.insert(l); l.clear(); } else l += ch;
  PBT_CHECK(c, want == got && l.empty(), "the list of entries is\n" << t);
}
static void same(Ctx& c, dictionary* d, const Map& m, const char* what) {
  for (auto& i : m) { Arg k(i.first); char* g = iniparser_getstring(d, k, (char*)"?absent?"); PBT_CHECK(c, i.second.null ? g == nullptr : g && i.second.s == g, what << " " << shown(i.first) << " is " << (g ? shown(g) : S("null")) << " instead of " << show(i.second)); }
  PBT_CHECK(c, d->n == (int)m.size(), what << " there are " << d->n << " entries instead of " << m.size());
}

static S name(Ctx& c) { return c.pick<S>({"a", "b", "Sect", "k", "A", "x y", "n\xe9", "aa", "K1", "nPixels", "-", "0"}); }
static S value(Ctx& c) {
  switch (c.below(10)) {
    case 0: return "";
    case 1: return std::to_string((int)c.ubits(32)) + c.pick<S>({"", "", " m", ".5", "x"});
    case 2: return c.pick<S>({"yes", "No", "true", "False", "T", "f", "1", "0", "Yes", "nope", "on", "off", "Y", "N", "10", "00", "TRUE"});
    case 3: return Str() << c.real(-1000, 1000);
    case 4: return c.pick<S>({"+7", "-0", " 12", "12 13", "1e3", ".5", "-.5", "2147483647", "-2147483648", "2147483648", "0x10", "010", "--3", "3.14"});
    case 5: return c.chars(c.below(10), "ab ;#=[]:") + "z";
    case 6: return c.chars(1 + c.below(6), "\"'ab") + "z";
    case 7: return S(1 + c.below(900), 'v');
    default: return c.chars(1 + c.below(12), "abcXYZ012 \xe8/%\\") + "z";
  }
}

// an INI text and what it means
struct Text { S s; Map m; S sec; int lines = 0; };
static void blank(Ctx& c, Text& t, int n = 3) { int k = c.below(n); for (int i = 0; i < k; ++i) t.s += c.pick({' ', '\t', ' '}); }
static bool clean(const S& v) { return v.empty() || !isspace((unsigned char)v.back()); }
static Text text(Ctx& c, int lines) {
  Text t;
  for (int i = 0; i < lines; ++i) {
    blank(c, t);
    switch (c.below(8)) {
      case 0: t.s += c.pick({';', '#'}); t.s += c.pick<S>({"", " comment", " [no]", " a = b", " = \"x"}); break;
      case 1: break;
      case 2: { S n = name(c); if (c.chance(1, 5)) n += c.pick<S>({" ", ";x", "#", "=", ".1", S(400, 'L')}); t.s += "[" + n + "]"; if (c.flag()) t.s += c.pick<S>({" ", " ; comment", "rest"}); t.sec = lower(n); t.m[t.sec] = Val(); break; }
      default: {
        S n = name(c), v = value(c); if (c.chance(1, 12)) { n += S(c.pick({300, 500, 650}), 'K'); if (v.size() > 200) v = "z"; }
        bool dq = v.find('"') == S::npos && !v.empty(), sq = v.find('\'') == S::npos && !v.empty(), pl = !v.empty() && v[0] != '"' && v[0] != '\'' && !isspace((unsigned char)v[0]) && v.find_first_of(";#") == S::npos;
        int how = c.below(3); if (v.empty()) how = 3 + c.flag(); else if (how == 0 ? !dq : how == 1 ? !sq : !pl) how = dq ? 0 : sq ? 1 : pl ? 2 : 5;
        if (how == 5) { v = "zz"; how = 2; }
        t.s += n; blank(c, t, 4); t.s += "="; blank(c, t, 4);
        t.s += how == 0 ? "\"" + v + "\"" : how == 1 ? "'" + v + "'" : how == 2 ? v : how == 3 ? "\"\"" : "''";
        if (how == 3 || how == 4) { c.label("empty value"); }
        if (c.flag()) t.s += c.pick<S>({" ", "  ; comment", " # \"x\"", "\t"});
        t.m[t.sec + ":" + lower(n)] = Val(v); break; }
    }
    if (i + 1 < lines || c.flag()) t.s += c.pick<S>({"\n", "\n", "\n", "\r\n", "\n\n"});
    ++t.lines;
  }
  return t;
}

PBT_SUB("operations", 1500, 120000) {
  c.dir(); Map m; Text t = text(c, c.below(6)); put("a.ini", t.s); m = t.m;
  Dict d(load("a.ini")); PBT_CHECK(c, d.d, "the file is not loaded"); same(c, d, m, "after loading");
  int n = 1 + c.below(60), big = c.chance(1, 6) ? 1 : 0, sets = 0, gets = 0, unsets = 0; S log;
  std::vector<S> names;
  auto key = [&]() -> S {
    if (!names.empty() && c.chance(1, 3)) return c.pick(names);
    int k = c.below(10);
    if (k == 0) { auto& w = twins()[c.below(twins().size())]; c.label("same hash"); return c.flag() ? w.first : w.second; }
    if (k == 1) return name(c);
    if (k == 2) return ":" + name(c);
    if (k == 3) { c.label("empty key"); return ""; }
    if (k == 4) return S(c.pick({1000, 1024, 1025, 1300, 2040}), 'N') + (c.flag() ? ":k" : "");
    return name(c) + ":" + name(c);
  };
  for (int i = 0; i < n; ++i) {
    int op = c.below(9);
    if (big && op < 3) { // many at once, past the allocated sizes
      int k = c.pick({60, 130, 260}), base = c.below(3) * 100; c.label("many");
      for (int j = 0; j < k; ++j) { S key = "many:" + std::to_string(base + j); if (op == 2 && j % 3) { Arg a(key); iniparser_unset(d, a); m.erase(key); continue; } Arg a(key), v("v" + std::to_string(i)); iniparser_setstr(d, a, v); m[key] = Val(v.s); }
      same(c, d, m, "after many");
    } else if (op < 4) {
      S k = key(); names.push_back(k); Arg a(k); PBT_CHECK(c, !k.empty() || true, "");
      if (c.chance(1, 6)) { PBT_CHECK(c, iniparser_setstr(d, a, nullptr) == 0, "not set"); m[lower(k)] = Val(); }
      else { S v = value(c); Arg b(v); PBT_CHECK(c, iniparser_setstr(d, a, b) == 0, "not set"); PBT_CHECK(c, b.same(), "setting changes the value"); m[lower(k)] = Val(v); }
      PBT_CHECK(c, a.same(), "setting changes the name"); ++sets; query(c, d, m, k);
    } else if (op < 6) { S k = key(); Arg a(k); iniparser_unset(d, a); m.erase(lower(k)); ++unsets; query(c, d, m, k); }
    else if (op < 8) { S k = key(); if (c.flag()) for (auto& ch : k) ch = toupper(ch); query(c, d, m, k); ++gets; }
    else whole(c, d, m);
  }
  whole(c, d, m); listed(c, d, m); same(c, d, m, "at the end"); for (auto& i : m) if (i.first.size() < 20) query(c, d, m, i.first);
  if (sets && unsets && gets) c.nontrivial();
  c.describe(Str() << n << " operations, " << sets << " sets, " << unsets << " unsets, " << m.size() << " entries");
}

PBT_SUB("texts", 3000, 250000) {
  c.dir(); Text t = text(c, c.below(25)); put("a.ini", t.s); c.describe(shown(t.s)); if (t.m.size() > 2) c.nontrivial();
  Dict d(load("a.ini")); PBT_CHECK(c, d.d, "the file is not loaded");
  same(c, d, t.m, "after loading"); whole(c, d, t.m); for (auto& i : t.m) query(c, d, t.m, i.first);
  // saved and loaded again
  FILE* o = fopen("b.ini", "w"); iniparser_dump_ini(d, o); fclose(o);
  Dict e(load("b.ini")); PBT_CHECK(c, e.d, "the saved file is not loaded");
  Map m; bool line = false; for (auto& i : t.m) { m[i.first] = i.second; size_t k = i.first.find(':'); if (k != S::npos && k > 0 && !t.m.count(i.first.substr(0, k))) line = true; }
  if (line) return;
  same(c, e, m, "after saving and loading"); c.label("saved");
  same(c, d, t.m, "after saving");
  PBT_CHECK(c, get("a.ini") == t.s, "the file is changed");
}

PBT_SUB("set, save and load", 1500, 120000) {
  c.dir(); put("a.ini", ""); Dict d(load("a.ini")); PBT_CHECK(c, d.d, "the empty file is not loaded"); Map m;
  std::vector<S> secs; if (c.chance(1, 3)) secs.push_back(""); int ns = c.below(5); for (int i = 0; i < ns; ++i) { S s = name(c); if (c.chance(1, 10)) s += S(800, 'S'); secs.push_back(s); Arg a(s); iniparser_setstr(d, a, nullptr); m[lower(s)] = Val(); }
  if (secs.empty()) secs.push_back("");
  int n = c.below(c.chance(1, 8) ? 300 : 15); bool nothing = false;
  for (int i = 0; i < n; ++i) {
    S s = c.pick(secs), k = s + ":" + (n > 20 ? "k" + std::to_string(i) : name(c)), v = value(c);
    if (v.find('"') != S::npos && (v.find('\'') != S::npos)) v = "z"; // neither quote is left
    Arg a(k); if (c.chance(1, 10)) { iniparser_setstr(d, a, nullptr); m[lower(k)] = Val(); nothing = true; continue; }
    Arg b(v); iniparser_setstr(d, a, b); m[lower(k)] = Val(v);
  }
  if (m.size() > 2) c.nontrivial(); c.describe(Str() << ns << " sections, " << n << " entries"); if (nothing) c.label("without a value");
  Map want; for (auto& i : m) if (!i.second.null || i.first.find(':') == S::npos) want.insert(i);
  FILE* o = fopen("b.ini", "w"); iniparser_dump_ini(d, o); fclose(o); S t = get("b.ini"); same(c, d, m, "after saving");
  Dict e(load("b.ini")); PBT_CHECK(c, e.d, "the saved file is not loaded");
  for (auto& i : want) { Arg k(i.first); char* g = iniparser_getstring(e, k, (char*)"?absent?"); PBT_CHECK(c, i.second.null ? g == nullptr : g && i.second.s == g, "after saving and loading " << shown(i.first) << " is " << (g ? shown(g) : S("null")) << " instead of " << show(i.second) << ", the file is\n" << t.substr(0, 1000)); }
  PBT_CHECK(c, e.d->n == (int)want.size(), "after saving and loading there are " << e.d->n << " entries instead of " << want.size() << ", the file is\n" << t.substr(0, 1000));
  // and the same again
  o = fopen("c.ini", "w"); iniparser_dump_ini(e, o); fclose(o); Dict f(load("c.ini")); same(c, f, want, "after saving and loading twice");
}

PBT_SUB("malformed texts", 3000, 250000) {
  c.dir(); S t; int kind = c.below(5);
  if (kind == 0) { auto b = c.bytes(c.below(3000)); t.assign(b.begin(), b.end()); c.label("random bytes"); }
  else if (kind == 1) { int n = c.below(40); for (int i = 0; i < n; ++i) t += c.pick<S>({"[", "]", "=", "\"", "'", "\n", ";", "#", " ", "a", ":", S("\0", 1), "\r", "\t", "key = ", "[sec]\n", "\xff"}); c.label("pieces"); }
  else if (kind == 2) { int n = 1 + c.below(6); for (int i = 0; i < n; ++i) { S f(c.pick({1, 500, 1021, 1022, 1023, 1024, 1025, 2046, 3000}), c.pick({'x', 'y', ' ', '=', '"'})); t += c.pick<S>({"[", "", "k=", "k = \"", "k='", "=", "\xe0"}) + f + c.pick<S>({"]", "", "=v", "\"", "'", "=" + f, " = \"" + f + "\""}) + c.pick<S>({"\n", "", "\n\n"}); } c.label("long lines"); }
  else { Text x = text(c, 1 + c.below(12)); t = x.s; int k = c.below(6); for (int i = 0; i < k && !t.empty(); ++i) { size_t p = c.below(t.size()); int h = c.below(3); if (h == 0) t[p] = (char)c.ubits(8); else if (h == 1) t.erase(p, 1 + c.below(4)); else t.insert(p, c.pick<S>({"\"", "[", "]", "=", "\n", S("\0", 1), ";"})); } if (c.flag() && !t.empty()) t.resize(c.below(t.size())); c.label("damaged"); }
  put("a.ini", t); c.describe(shown(t)); Dict d(load("a.ini")); PBT_CHECK(c, d.d, "the file is not loaded");
  if (d.d->n) c.nontrivial();
  // whatever is there can be asked for
  Map m; int n = 0; for (int i = 0; i < d.d->size; ++i) if (d.d->key[i]) { ++n; m[d.d->key[i]] = d.d->val[i] ? Val(d.d->val[i]) : Val(); }
  PBT_CHECK(c, n == d.d->n && (int)m.size() == n, "the same entry is kept more than once");
  for (auto& i : m) PBT_CHECK(c, lower(i.first) == i.first, "the name " << shown(i.first) << " is kept with capitals");
  whole(c, d, m); int q = 0; for (auto& i : m) { query(c, d, m, i.first); if (++q > 30) break; } query(c, d, m, ""); query(c, d, m, "x:absent");
  FILE* o = fopen("b.ini", "w"); iniparser_dump_ini(d, o); iniparser_dump(d, o); fclose(o); Dict e(load("b.ini")); PBT_CHECK(c, e.d, "the saved file is not loaded"); int z = iniparser_getnsec(e); for (int i = 0; i < z; ++i) iniparser_getsecname(e, i);
  PBT_CHECK(c, !load("absent.ini"), "a file that is not there is loaded");
}

PBT_MAIN("P21", "histories with sets, unsets and lookups; texts and dictionaries with more than two entries; malformed texts from which something is loaded")
