// P18: on-board time codes
#include "pbt.h"
#include <msat/hrit/MSG_time_cds.h>
#include <ctime>
#include <cstdlib>
#include <cmath>
#include <iomanip>
using pbt::Str;

// calendar computed from the rules of the Gregorian calendar, one year and one month at a time
struct Civil { int y, m, d, wday, yday; };
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int mlen(int y, int m) { static const int l[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : l[m - 1]; }
static Civil civil(long days1958) {
  Civil r; r.wday = (3 + days1958) % 7; // 1958-01-01 was a Wednesday
  r.y = 1958; long d = days1958;
  while (d >= (leap(r.y) ? 366 : 365)) { d -= leap(r.y) ? 366 : 365; ++r.y; }
  r.yday = d; r.m = 1;
  while (d >= mlen(r.y, r.m)) { d -= mlen(r.y, r.m); ++r.m; }
  r.d = d + 1; return r;
}
static long days_since_1958(int y, int m, int d) { // also for years before
  long r = 0;
  for (int i = 1958; i < y; ++i) r += leap(i) ? 366 : 365;
  for (int i = y; i < 1958; ++i) r -= leap(i) ? 366 : 365;
  for (int i = 1; i < m; ++i) r += mlen(y, i);
  return r + d - 1;
}
static const long E1970 = 12 * 365 + 3; // 1960 1964 1968

static void zone(pbt::Ctx& c) {
  const char* z = c.pick({"UTC", "", "Europe/Rome", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT", "XXX-13:45", "XXX+11"});
  setenv("TZ", z, 1); tzset(); c.label(std::string("zone ") + z);
}
template<class T> static std::string shown(T& h) { std::ostringstream o; o << h; return o.str(); }
static std::string be(uint64_t v, int n) { std::string r; for (int i = n - 1; i >= 0; --i) r += (char)(v >> (8 * i)); return r; }

struct Cds { uint32_t day, ms, us, ns;
  std::string bytes(int kind) const { std::string r = be(day, 2) + be(ms, 4); if (kind > 0) r += be(us, 2); if (kind > 1) r += be(ns, 2); return r; }
  long secs() const { return (long)day * 86400 + ms / 1000; }  // since 1958
  std::string text(int kind) const {
    long s = secs(); Civil v = civil(s / 86400); char b[96];
    int n = snprintf(b, sizeof b, "%04d-%02d-%02d %02ld:%02ld:%02ld +%03u", v.y, v.m, v.d, s % 86400 / 3600, s % 3600 / 60, s % 60, ms % 1000);
    if (kind == 1) n += snprintf(b + n, sizeof b - n, ".%03u", us);
    if (kind == 2) n += snprintf(b + n, sizeof b - n, ".%03u%03u", us, ns);
    snprintf(b + n, sizeof b - n, " msecs");
    return b;
  }
};
static uint32_t gday(pbt::Ctx& c) {
  switch (c.below(4)) {
    case 0: return c.below(65536);
    case 1: { int y = c.range(1958, 2136); // around month ends and leap days
        long d = days_since_1958(y, c.chance(1, 2) ? 2 : c.range(1, 12), c.pick({1, 28})) + c.range(-1, 4); return d < 0 ? 0 : d; }
    case 2: return days_since_1958(c.range(1995, 2040), c.range(1, 12), c.range(1, 28));
    default: return c.pick({0u, 1u, 364u, 365u, 4382u, 4383u, 4384u, 32767u, 32768u, 65534u, 65535u}); }
}
static uint32_t gms(pbt::Ctx& c) {
  switch (c.below(5)) {
    case 0: return c.below(86400000);
    case 1: return c.pick({0u, 1u, 999u, 1000u, 59999u, 60000u, 3599999u, 3600000u, 43199999u, 86399000u, 86399999u});
    case 2: return c.below(86400) * 1000 + c.pick({0u, 1u, 9u, 10u, 99u, 100u, 999u});
    case 3: return c.pick({86400000u, 86400999u, 86401000u, 0x7fffffffu, 0x80000000u, 0xffffffffu}); // leap second and damaged counts
    default: return c.ubits(32); }
}
static uint32_t gsub(pbt::Ctx& c) { return c.chance(3, 4) ? c.below(1000) : c.chance(1, 3) ? c.pick({0u, 999u, 1000u, 9999u, 10000u, 65535u}) : (uint32_t)c.ubits(16); }
static Cds gcds(pbt::Ctx& c) { Cds r; r.day = gday(c); r.ms = gms(c); r.us = gsub(c); r.ns = gsub(c); return r; }

template<class T> static void common(pbt::Ctx& c, T& t, const Cds& m, int kind, const std::string& how) {
  PBT_CHECK(c, t.get_day_from_epoch() == m.day, how << "day " << t.get_day_from_epoch() << " instead of " << m.day);
  PBT_CHECK(c, t.get_msec_in_day() == m.ms, how << "milliseconds " << t.get_msec_in_day() << " instead of " << m.ms);
  long want = m.secs() - E1970 * 86400;
  PBT_CHECK(c, t.get_unixtime() == want, how << "time " << t.get_unixtime() << " instead of " << want);
  Civil v = civil(m.secs() / 86400); struct tm s = *t.get_timestruct();
  PBT_CHECK(c, s.tm_year == v.y - 1900 && s.tm_mon == v.m - 1 && s.tm_mday == v.d && s.tm_wday == v.wday && s.tm_yday == v.yday && s.tm_hour == m.secs() % 86400 / 3600 && s.tm_min == m.secs() % 3600 / 60 && s.tm_sec == m.secs() % 60,
            how << "calendar " << s.tm_year + 1900 << "-" << s.tm_mon + 1 << "-" << s.tm_mday << " " << s.tm_hour << ":" << s.tm_min << ":" << s.tm_sec << " instead of " << m.text(kind));
  std::string w = m.text(kind);
  PBT_CHECK(c, t.get_timestring() == w, how << "text '" << t.get_timestring() << "' instead of '" << w << "'");
  const T& k = t;
  PBT_CHECK(c, k.get_timestring() == w, how << "const text '" << k.get_timestring() << "' instead of '" << w << "'");
  PBT_CHECK(c, std::string((const char*)t.get_timechar()) == w, how << "characters '" << t.get_timechar() << "' instead of '" << w << "'");
  std::string p = Str() << "Day from epoch      : " << m.day << " (epoch is 1958-01-01)\nMsecs in day        : " << m.ms << "\n";
  if (kind > 0) p += (std::string)(Str() << "Microsecs           : " << m.us << "\n");
  if (kind > 1) p += (std::string)(Str() << "Nanosecs            : " << m.ns << "\n");
  p += "Actual date         : " + w + "\n";
  PBT_CHECK(c, shown(k) == p, how << "printed as\n" << shown(k) << "instead of\n" << p);
}
static void check1(pbt::Ctx& c, MSG_time_cds_short& t, const Cds& m, const std::string& h = "") { common(c, t, m, 0, h); }
static void check1(pbt::Ctx& c, MSG_time_cds& t, const Cds& m, const std::string& h = "") { common(c, t, m, 1, h); PBT_CHECK(c, t.get_microsecs() == m.us, h << "microseconds " << t.get_microsecs()); }
static void check1(pbt::Ctx& c, MSG_time_cds_expanded& t, const Cds& m, const std::string& h = "") { common(c, t, m, 2, h); PBT_CHECK(c, t.get_microsecs() == m.us && t.get_nanosecs() == m.ns, h << "fractions " << t.get_microsecs() << " " << t.get_nanosecs()); }

// exact buffers, so that reading past the code is seen
template<class T> struct Exact { std::vector<unsigned char> v; T t; size_t n; Exact(const std::string& b) : v(b.begin(), b.end()) { v.shrink_to_fit(); n = t.read_from(v.data()); } };

PBT_SUB("codes", 20000, 1500000) {
  zone(c); Cds m = gcds(c);
  c.describe(Str() << "day " << m.day << " ms " << m.ms << " us " << m.us << " ns " << m.ns);
  if (m.day && m.ms) c.nontrivial();
  c.label(m.ms < 86400000 ? "in the day" : "past the day");
  { Exact<MSG_time_cds_short> e(m.bytes(0)); PBT_CHECK(c, e.n == 6, "length " << e.n); check1(c, e.t, m); MSG_time_cds_short f(e.v.data()); check1(c, f, m, "constructed: "); }
  { Exact<MSG_time_cds> e(m.bytes(1)); PBT_CHECK(c, e.n == 8, "length " << e.n); check1(c, e.t, m); MSG_time_cds f(e.v.data()); check1(c, f, m, "constructed: "); MSG_time_cds_short& s = e.t; check1(c, s, m, "as short: "); }
  { Exact<MSG_time_cds_expanded> e(m.bytes(2)); PBT_CHECK(c, e.n == 10, "length " << e.n); check1(c, e.t, m); MSG_time_cds_expanded f(e.v.data()); check1(c, f, m, "constructed: "); MSG_time_cds_short& s = e.t; check1(c, s, m, "as short: "); }
}

// every day of the range, in blocks of consecutive days; the time line is monotonic
PBT_SUB("all-days", 1000, 15000) {
  zone(c);
  uint32_t b = c.below(256) * 256; c.nontrivial();
  long before = 0; Cds m; m.us = c.below(1000); m.ns = c.below(1000);
  c.describe(Str() << "days " << b << " to " << b + 255);
  for (uint32_t d = b; d < b + 256; ++d) {
    m.day = d; m.ms = c.below(86400000);
    std::string raw = m.bytes(2);
    const unsigned char* p = (const unsigned char*)raw.data();
    MSG_time_cds_short s(p); MSG_time_cds l(p); MSG_time_cds_expanded x(p);
    check1(c, s, m); check1(c, l, m); check1(c, x, m);
    if (d > b) PBT_CHECK(c, s.get_unixtime() > before, "day " << d << " is not after the day before it");
    before = s.get_unixtime();
    // last and first instants of two days
    Cds e; e.day = d; e.ms = 86399999; e.us = e.ns = 0; Cds n; n.day = d + 1; n.ms = 0; n.us = n.ns = 0;
    if (d < 65535) { MSG_time_cds_short te((const unsigned char*)e.bytes(0).data()), tn((const unsigned char*)n.bytes(0).data());
      PBT_CHECK(c, tn.get_unixtime() - te.get_unixtime() == 1 && te.get_unixtime() >= s.get_unixtime(), "the end of day " << d << " does not meet the start of the next"); }
  }
}

// histories: objects read again, copied and assigned keep to their own last code
PBT_SUB("histories", 6000, 300000) {
  zone(c);
  const int N = 3; MSG_time_cds_short s[N]; MSG_time_cds l[N]; MSG_time_cds_expanded x[N]; Cds ms[N], ml[N], mx[N]; bool is[N] = {0}, il[N] = {0}, ix[N] = {0};
  { // a code that was never read is all zeroes, whatever was in the memory it takes
    alignas(16) char room[3][256]; memset(room, (int)c.below(256), sizeof room);
    auto* a = new (room[0]) MSG_time_cds_short; auto* b = new (room[1]) MSG_time_cds; auto* e = new (room[2]) MSG_time_cds_expanded;
    PBT_CHECK(c, !a->get_day_from_epoch() && !a->get_msec_in_day() && !a->get_unixtime() && !b->get_day_from_epoch() && !b->get_msec_in_day() && !b->get_microsecs() && !e->get_day_from_epoch() && !e->get_msec_in_day() && !e->get_microsecs() && !e->get_nanosecs(), "a code that was not read is not zero");
  }
  int n = 2 + c.below(14), used = 0; std::string log;
  for (int i = 0; i < n; ++i) {
    int k = c.below(3), a = c.below(N), b = c.below(N); int op = c.below(4);
    auto doit = [&](auto* t, Cds* m, bool* in, int kind) {
      typedef typename std::remove_reference<decltype(t[0])>::type T;
      if (op < 2) { m[a] = gcds(c); std::string r = m[a].bytes(kind); t[a].read_from((const unsigned char*)r.data()); in[a] = true; }
      else if (op == 2) { if (in[b]) { t[a] = t[b]; m[a] = m[b]; in[a] = true; } }
      else if (in[b]) { T copy(t[b]); if (in[a]) { const char* held = (const char*)t[a].get_timechar(); (void)held; } t[a] = copy; m[a] = m[b]; in[a] = true; }
      for (int j = 0; j < N; ++j) if (in[j]) { check1(c, t[j], m[j], (std::string)(Str() << "step " << i << " kind " << kind << " object " << j << ": ")); ++used; }
      log += (std::string)(Str() << "k" << kind << "op" << op << "(" << a << "," << b << ") ");
    };
    if (k == 0) doit(s, ms, is, 0); else if (k == 1) doit(l, ml, il, 1); else doit(x, mx, ix, 2);
  }
  c.describe(log); if (used > 3) c.nontrivial();
}

// unsegmented code: 4 octets of seconds and 3 octets of fraction
PBT_SUB("unsegmented", 10000, 500000) {
  std::string b; int kind = c.below(3);
  if (kind == 0) { auto w = c.bytes(7); b.assign(w.begin(), w.end()); } else if (kind == 1) for (int i = 0; i < 7; ++i) b += (char)c.pick({0, 1, 9, 10, 99, 100, 127, 128, 255}); else { b = be(c.below(1u << 31), 4) + be(c.below(1 << 24), 3); }
  b.resize(7);
  std::vector<unsigned char> v(b.begin(), b.end()); v.shrink_to_fit();
  uint64_t all = 0; for (auto u : v) all = all << 8 | u;
  if (all > 0xffffff) c.nontrivial(); c.describe(Str() << all << " / 2^24 seconds");
  MSG_time_cuc t; size_t n = t.read_from(v.data()); PBT_CHECK(c, n == 7, "length " << n);
  MSG_time_cuc f(v.data()); MSG_time_cuc g(f); if (c.flag()) { unsigned char z[7] = {9, 8, 7, 6, 5, 4, 3}; g.read_from(z); g.read_from(v.data()); }
  char ct[32], ft[32]; snprintf(ct, 32, "%03u %03u %03u %03u", v[0], v[1], v[2], v[3]); snprintf(ft, 32, "%03u %03u %03u", v[4], v[5], v[6]);
  for (MSG_time_cuc* p : {&t, &f, &g}) {
    double w = std::ldexp((double)(all >> 24), 0) + std::ldexp((double)(all & 0xffffff), -24), d = p->get_time_cuc_r8();
    // 56 bits do not all fit a double: one unit in the last place is allowed
    PBT_CHECK(c, std::fabs(d - w) <= w * 2.3e-16, "value " << std::setprecision(20) << d << " instead of " << w);
    PBT_CHECK(c, p->get_coarse_time() == ct && p->get_fine_time() == ft, "octets " << p->get_coarse_time() << " / " << p->get_fine_time() << " instead of " << ct << " / " << ft);
    std::ostringstream o; o << *p; std::string s = o.str(), h = (std::string)"CUC Time            : " + ct + " " + ft + " (";
    PBT_CHECK(c, s.compare(0, h.size(), h) == 0 && std::fabs(atof(s.c_str() + h.size()) - w) <= w * 1e-5, "printed as " << s);
  }
  // the time line
  if (all + 1 < (1ULL << 56)) { uint64_t nx = all + 1 + (c.flag() ? 0 : c.ubits(c.range(1, 40))); if (nx < (1ULL << 56)) { std::string e = be(nx, 7); MSG_time_cuc u((const unsigned char*)e.data());
    PBT_CHECK(c, u.get_time_cuc_r8() >= t.get_time_cuc_r8(), "later code " << nx << " has a smaller value than " << all);
    if (nx < (1ULL << 53)) PBT_CHECK(c, u.get_time_cuc_r8() > t.get_time_cuc_r8(), "later code " << nx << " has the same value as " << all); } }
}

// character code: YYYYMMDDHHMMSSZ
PBT_SUB("generalized", 10000, 500000) {
  zone(c);
  int y = c.flag() ? c.range(1958, 2136) : c.range(1000, 9999), mo = c.range(1, 12), d = c.chance(1, 3) ? mlen(y, mo) : c.range(1, mlen(y, mo)), h = c.pick({0, 23, (int)c.below(24)}), mi = c.pick({0, 59, (int)c.below(60)}), s = c.pick({0, 59, (int)c.below(60)});
  char b[40]; snprintf(b, 40, "%04d%02d%02d%02d%02d%02dZ", y, mo, d, h, mi, s);
  std::vector<unsigned char> v(b, b + 15); v.shrink_to_fit(); c.describe(b); c.nontrivial();
  MSG_time_generalized t; 
  if (c.flag()) { const char* o = c.pick({"19990101000000Z", "20121231235959Z", "20200229120000Z"}); t.read_from((const unsigned char*)o); if (c.flag()) t.get_unixtime(); }
  size_t n = t.read_from(v.data()); PBT_CHECK(c, n == 15, "length " << n);
  MSG_time_generalized f(v.data());
  char w[40]; snprintf(w, 40, "%04d-%02d-%02d %02d:%02d:%02d", y, mo, d, h, mi, s);
  long want = (days_since_1958(y, mo, d) - E1970) * 86400 + h * 3600 + mi * 60 + s;
  for (MSG_time_generalized* p : {&t, &f}) for (int again = 0; again < 2; ++again) {
    const MSG_time_generalized& k = *p;
    PBT_CHECK(c, p->get_timestring() == w && k.get_timestring() == w && std::string((const char*)p->get_timechar()) == w, "text '" << p->get_timestring() << "' instead of '" << w << "'");
    struct tm* q = p->get_timestruct();
    PBT_CHECK(c, q->tm_year == y - 1900 && q->tm_mon == mo - 1 && q->tm_mday == d && q->tm_hour == h && q->tm_min == mi && q->tm_sec == s, "calendar fields differ for " << b);
    std::ostringstream o; o << k; PBT_CHECK(c, o.str() == std::string("Actual date         : ") + w + "\n", "printed as " << o.str());
    PBT_CHECK(c, p->get_unixtime() == want, "time " << p->get_unixtime() << " instead of " << want);
  }
}

// damaged texts only have to stay inside their 15 octets and leave a usable object
PBT_SUB("damaged", 5000, 200000) {
  std::string b = c.flag() ? [&] { auto w = c.bytes(15); return std::string(w.begin(), w.end()); }() : c.chars(15, "0123456789Z +-."); b.resize(15, ' ');
  std::vector<unsigned char> v(b.begin(), b.end()); v.shrink_to_fit(); c.nontrivial();
  MSG_time_generalized t; PBT_CHECK(c, t.read_from(v.data()) == 15, "length");
  t.get_timestring(); t.get_unixtime(); t.get_timechar(); std::ostringstream o; o << t;
  const char* g = "20200229120000Z"; t.read_from((const unsigned char*)g);
  PBT_CHECK(c, t.get_timestring() == "2020-02-29 12:00:00" && t.get_unixtime() == 1582977600, "a good code after a damaged one gives " << t.get_timestring());
}

PBT_MAIN("P18", "a code with a non-zero day and time of day (or seconds), a block of days, or a history with more than three checked reads")
