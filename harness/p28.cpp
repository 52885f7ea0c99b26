// P28: sources in the DB1 format
#include <cmath>
#include <iomanip>
#include <msat/thornsds_db1/thornsds_db1.h>
#include "db1gen.h"
#include "tool.h"
#include "ncfile.h"
using pbt::Str;
struct Quiet { std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(nullptr)), e(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); } };
static char* z(const std::string& s) { return (char*)s.c_str(); }
static bool yes(const std::string& s) { return strchr("yY1tT", s[0]); }
static float valueof(const db1::Chan& x, int i) { /* i is a count of the channel */ auto v = x.values.find(i); return v == x.values.end() ? 0.f : v->second; }
// One line for each entry: label, value
static std::vector<std::pair<std::string, std::string>> entries(const db1::Source& s, const db1::Chan& x) {
  auto A = [&](const char* k, const std::string& d) { return s.get(true, k, d); }; auto I = [&](const char* k, const std::string& d) { return s.get(false, k, d); }; std::string n = std::to_string(x.raw.size());
  auto num = [](const std::string& t) -> std::string { return Str() << atoi(t.c_str()); }; auto flt = [](const std::string& t) -> std::string { return Str() << (float)atof(t.c_str()); }; auto bol = [](const std::string& t) { return std::string(yes(t) ? "1" : "0"); }; auto cal = [&](int k) { return flt(x.nocal ? "0" : x.cal[k]); };
  return {{"AoI Name", A(":Name", "Undefined")}, {"AoI nPixels", num(A(":nPixels", n))}, {"AoI nLines", num(A(":nLines", "1"))}, {"AoI Projection", A(":Projection", "GRID")}, {"AoI CFAC", num(A(":CFAC", "0"))}, {"AoI LFAC", num(A(":LFAC", "0"))}, {"AoI COFF", num(A(":COFF", "0"))}, {"AoI LOFF", num(A(":LOFF", "0"))},
    {"Station Name", I("Station:Name", "Undefined")}, {"Satellite Name", I("Satellite:Name", "Undefined")}, {"Satellite ID", num(I("Satellite:ID", "0"))}, {"Satellite Orbit", num(I("Satellite:Orbit", "0"))}, {"Schedule Start", I("Schedule:Start", "01/01/2000 00:00:00.000")}, {"Schedule End", I("Schedule:End", "01/01/2000 00:00:00.000")}, {"Elevation", flt(I("Schedule:Elevation", "90"))}, {"NorthSouth", bol(I("Schedule:NorthSouth", "0"))}, {"Location", I("Schedule:Location", "OH")}, {"Day", bol(I("Schedule:Day", "1"))}, {"Slot", I("Schedule:Slot", "HRIT")},
    {"Image Sensor", I("Image:Sensor", "Seviri")}, {"Image Pixels", num(I("Image:Pixels", n))}, {"Image Lines", num(I("Image:Lines", "1"))}, {"Bits per Pixel", num(I("Image:BitsPerPixel", "10"))}, {"Image Protected", bol(I("Image:Protected", "0"))}, {"Image Channels", num(I("Image:nChannels", "10"))}, {"Image Products", num(I("Image:nProducts", "10"))},
    {"Channel Name", x.name}, {"Channel Variable", x.variable}, {"Channel Units", x.units}, {"Channel BPP", num(std::to_string(x.bpp))}, {"Channel Table", x.table ? "1" : "0"}, {"Slope", cal(0)}, {"Target Count", cal(1)}, {"Vc", cal(2)}, {"A", cal(3)}, {"B", cal(4)}};
}
static void verify(pbt::Ctx& c, const db1::Source& s, const db1::Chan& x, MSG_db1_data& d) {
  PBT_CHECK(c, d.is_data_ok(), "no data of " << x.name); 
  auto b = [](bool v) { return v ? "1" : "0"; }; auto w = entries(s, x); std::vector<std::string> got = {d.get_AoI_name(), Str() << d.get_AoI_npixels(), Str() << d.get_AoI_nlines(), d.get_AoI_projection(), Str() << d.get_AoI_cfac(), Str() << d.get_AoI_lfac(), Str() << d.get_AoI_coff(), Str() << d.get_AoI_loff(), d.get_INFO_station_name(), d.get_INFO_satellite_name(), Str() << d.get_INFO_satellite_id(), Str() << d.get_INFO_satellite_orbit(), d.get_INFO_schedule_start(), d.get_INFO_schedule_end(), Str() << d.get_INFO_schedule_elevation(), b(d.get_INFO_schedule_northsouth()), d.get_INFO_schedule_location(), b(d.get_INFO_schedule_day()), d.get_INFO_schedule_slot(), d.get_INFO_image_sensor(), Str() << d.get_INFO_image_pixels(), Str() << d.get_INFO_image_lines(), Str() << d.get_INFO_image_bitsperpixel(), b(d.get_INFO_image_protected()), Str() << d.get_INFO_image_nchannels(), Str() << d.get_INFO_image_nproducts(), d.get_channel_INFO_name(), d.get_channel_INFO_variable(), d.get_channel_INFO_units(), Str() << d.get_channel_INFO_bitsperpixel(), b(d.get_channel_INFO_table()), Str() << d.get_channel_Calibration_Slope(), Str() << d.get_channel_Calibration_TargetCount(), Str() << d.get_channel_Calibration_Vc(), Str() << d.get_channel_Calibration_A(), Str() << d.get_channel_Calibration_B()};
  for (size_t i = 0; i < w.size(); ++i) PBT_CHECK(c, got[i] == w[i].second, w[i].first << " is " << got[i] << " instead of " << w[i].second);
  PBT_CHECK(c, db1::letters(x).find(d.get_channel_INFO_variable_code()) != std::string::npos, "code " << d.get_channel_INFO_variable_code()); PBT_CHECK(c, d.chname_to_chnum(z(x.name)) == db1::code(x), "number of " << x.name);
  PBT_CHECK(c, d.get_raw_data_size() == (int)x.raw.size() * 2 && d.get_raw_data_nvals() == (int)x.raw.size(), d.get_raw_data_nvals() << " samples instead of " << x.raw.size()); auto r = d.get_RAW_data(); for (size_t i = 0; i < x.raw.size(); ++i) if (r[i] != x.raw[i]) c.fail(Str() << "sample " << i << " is " << r[i] << " instead of " << x.raw[i]);
  int n = 1 << s.bpp; PBT_CHECK(c, d.get_number_of_calibration() == n, d.get_number_of_calibration() << " calibrated values instead of " << n); auto cal = d.get_calibration(); for (int i = 0; i < n; ++i) if (cal[i] != valueof(x, i)) c.fail(Str() << "count " << i << " is " << cal[i] << " instead of " << valueof(x, i));
  for (int k = 0; k < 6; ++k) { int i = c.pick({-1, 0, n - 1, n, n + 1, (int)c.below(n), 2147483647, (int)0x80000000}); float v = d.get_channel_Calibration_value_calibrated(i), e = i < 0 || i >= n ? 0.f : valueof(x, i); PBT_CHECK(c, v == e, "count " << i << " gives " << v << " instead of " << e); }
}
static void nothing(pbt::Ctx& c, MSG_db1_data& d) {
  PBT_CHECK(c, !d.is_data_ok() && !d.get_RAW_data() && !d.get_calibration() && d.get_raw_data_nvals() == 0 && d.get_raw_data_size() == 0 && d.get_number_of_calibration() == 0 && d.get_AoI_npixels() == -1 && d.get_AoI_nlines() == -1, "a source without a channel has data");
  for (char* s : {d.get_AoI_name(), d.get_AoI_projection(), d.get_INFO_station_name(), d.get_INFO_satellite_name(), d.get_INFO_schedule_start(), d.get_INFO_schedule_end(), d.get_INFO_schedule_location(), d.get_INFO_schedule_slot(), d.get_INFO_image_sensor(), d.get_channel_INFO_name(), d.get_channel_INFO_variable(), d.get_channel_INFO_variable_code(), d.get_channel_INFO_units()}) PBT_CHECK(c, !s, "a source without a channel has the text " << s);
  for (double v : {(double)d.get_AoI_cfac(), (double)d.get_AoI_lfac(), (double)d.get_AoI_coff(), (double)d.get_AoI_loff(), (double)d.get_INFO_satellite_id(), (double)d.get_INFO_satellite_orbit(), (double)d.get_INFO_schedule_elevation(), (double)d.get_INFO_schedule_northsouth(), (double)d.get_INFO_schedule_day(), (double)d.get_INFO_image_pixels(), (double)d.get_INFO_image_lines(), (double)d.get_INFO_image_bitsperpixel(), (double)d.get_INFO_image_protected(), (double)d.get_INFO_image_nchannels(), (double)d.get_INFO_image_nproducts(), (double)d.get_channel_INFO_bitsperpixel(), (double)d.get_channel_INFO_table(), (double)d.get_channel_Calibration_Slope(), (double)d.get_channel_Calibration_TargetCount(), (double)d.get_channel_Calibration_Vc(), (double)d.get_channel_Calibration_A(), (double)d.get_channel_Calibration_B(), (double)d.get_channel_Calibration_value_calibrated(0)}) PBT_CHECK(c, v == 0, "a source without a channel has the number " << v);
}

PBT_SUB("sources", 120, 3000) {
  c.dir(); auto s = db1::gen(c); c.nontrivial(); c.describe(db1::text(s)); c.label(Str() << s.ch.size() << " channels"); db1::save(s, "s"); Quiet q; alignas(16) static char mem[sizeof(MSG_db1_data)]; memset(mem, 0x55, sizeof mem); auto& d = *new (mem) MSG_db1_data; auto end = [](MSG_db1_data* p) { p->~MSG_db1_data(); }; std::unique_ptr<MSG_db1_data, decltype(end)> ended(&d, end); nothing(c, d); d.open(z("s")); nothing(c, d);
  for (auto& x : s.ch) { PBT_CHECK(c, d.has_channel(z(x.name)), "no channel " << x.name); MSG_db1_data one; one.open(z("s")); one.set_channel(z(x.name)); verify(c, s, x, one); } for (int i = 0; i < 12; ++i) { bool is = false; for (auto& x : s.ch) is |= x.name == db1::known(i); PBT_CHECK(c, d.has_channel(z(db1::known(i))) == is, "channel " << db1::known(i)); PBT_CHECK(c, d.chname_to_chnum(z(db1::known(i))) == i + 1, "number of " << db1::known(i)); }
}
PBT_SUB("texts", 60, 1500) {
  c.dir(); auto s = db1::gen(c); c.nontrivial(); c.describe(db1::text(s)); db1::save(s, "s"); auto& x = s.ch[c.below(s.ch.size())]; MSG_db1_data d; { Quiet q; d.open(z("s")); d.set_channel(z(x.name)); } std::ostringstream o; o << d; std::istringstream i(o.str()); std::string l; auto w = entries(s, x); size_t k = 0;
  while (getline(i, l)) { if (l[0] == '-') continue; PBT_CHECK(c, k < w.size(), "\"" << l << "\" is printed after the last entry"); size_t p = l.find(" : "); if (p == std::string::npos) { p = l.find(':'); PBT_CHECK(c, p != std::string::npos, "line " << l); --p; } std::string n = l.substr(0, p); n.erase(n.find_last_not_of(' ') + 1); std::string v = l.substr(p + 3); PBT_CHECK(c, n == w[k].first && v == w[k].second, "\"" << l << "\" instead of " << w[k].first << " : " << w[k].second); ++k; }
  PBT_CHECK(c, k == w.size(), "no " << w[k].first);
}
PBT_SUB("histories", 40, 1000) {
  c.dir(); c.nontrivial(); Quiet q; std::vector<db1::Source> src; for (int i = 0; i < 2; ++i) { auto s = db1::gen(c); if (s.bpp > 6) { s.bpp = 1 + c.below(6); s.info["Image:BitsPerPixel"] = std::to_string(s.bpp); for (auto& x : s.ch) { std::map<int, float> v; for (auto& p : x.values) if (p.first < 1 << s.bpp) v.insert(p); x.values = v; } } src.push_back(s); c.describe(db1::text(s) + "; "); db1::save(s, i ? "b" : "a"); }
  for (auto d : {"a", "b"}) { if (c.flag()) xg::save(std::string(d) + "/EMPTY.RAW", ""); if (c.flag()) mkdir((std::string(d) + "/DIRECT.RAW").c_str(), 0700); if (c.flag()) xg::save(std::string(d) + "/NOINFO.RAW", std::string(1 + c.below(5000), 'x')); }
  MSG_db1_data d; int at = -1; const db1::Chan* cur = nullptr;
  for (int n = 3 + c.below(12); n > 0; --n) { int op = c.below(6); std::string name = c.pick<std::string>({"IR_108", "VIS006", "EMPTY", "DIRECT", "NOINFO", "absent"}); int k = at < 0 ? 0 : c.below(src[at].ch.size()); bool real = at >= 0 && c.chance(2, 3); if (real) name = src[at].ch[k].name; else if (at >= 0) for (size_t i = 0; i < src[at].ch.size(); ++i) if (src[at].ch[i].name == name) real = true, k = i;
    switch (op) {
      case 0: at = c.below(2); d.open(z(at ? "b" : "a")); cur = nullptr; c.describe(at ? "open b, " : "open a, "); break;
      case 1: d.close(); at = -1; cur = nullptr; c.describe("close, "); break;
      case 2: { bool h = d.has_channel(z(name)); struct stat st; bool w = at >= 0 && !stat((std::string(at ? "b/" : "a/") + name + ".RAW").c_str(), &st); c.describe("has " + name + ", "); PBT_CHECK(c, h == w, "channel " << name); break; }
      default: d.set_channel(z(name)); cur = real ? &src[at].ch[k] : nullptr; c.describe("set " + name + ", "); }
    if (cur) verify(c, src[at], *cur, d); else nothing(c, d); }
}
PBT_SUB("damaged sources", 150, 5000) {
  c.dir(); c.nontrivial(); auto s = db1::gen(c); auto& x = s.ch[c.below(s.ch.size())]; int want = 1; std::string what; bool cutraw = false; // want: 1 read, 0 refused, -1 either
  switch (c.below(9)) {
    case 0: { std::string v = c.pick<std::string>({"0", "-1", "17", "31", "32", "64", "1000000", "-2147483648", "none"}); s.info["Image:BitsPerPixel"] = v; what = "bits " + v; want = 0; break; }
    case 1: x.noinfo = true; what = "channel not in INFO.DBI"; want = 0; break;
    case 2: { auto k = c.pick<std::string>({"Image:Pixels", "Image:Lines"}); auto v = c.pick<std::string>({"0", "-1", "1000000", "2147483647", "-2147483648", "x"}); s.info[k] = v; what = k + " " + v; break; }
    case 3: x.raw.resize(c.below(x.raw.size())); what = "short data"; cutraw = true; if (x.raw.empty()) want = 0; break;
    case 4: x.name = std::string(c.pick({100, 255, 4080, 4090, 4096, 5000, 70000}), 'x'); what = "long name"; want = 0; break;
    case 5: s.info["Schedule:Start"] = c.pick<std::string>({"", "Undefined", "32/13/2005 25:61:61.000", "1/2", "99/99/9999 99:99:99.000", "-1/-1/-1 -1:-1:-1.0"}); what = "start " + s.info["Schedule:Start"]; break;
    case 6: for (auto k : {"Satellite:Name", "Station:Name", "Schedule:Start"}) if (c.flag()) s.info[k] = std::string(c.pick({200, 900, 1010, 1023, 1100, 3000}), 'n'); what = "long texts"; want = -1; break;
    case 7: want = -1; what = "bytes"; break;
    default: want = 0; what = "no INFO.DBI"; }
  std::string name = x.name; if (what == "long name") { auto t = s; t.ch.clear(); db1::save(t, "s"); } else db1::save(s, "s"); if (what == "no INFO.DBI") unlink("s/INFO.DBI");
  if (what == "bytes") for (std::string f : {"s/INFO.DBI", "s/AoI", "s/INFO.DBI"}) { std::string b = slurp(f); if (b.empty()) continue; for (int n = c.below(12); n > 0; --n) { if (c.flag()) b[c.below(b.size())] = (char)c.below(256); else b.insert(c.below(b.size()), c.pick<std::string>({"=", "[", "]", "\n", "=\n", std::string(2000, 'k'), "\""})); } xg::save(f, b); }
  c.describe(db1::text(s) + ", " + name.substr(0, 20) + " " + what); c.label(what == "long texts" || what == "bytes" || what[0] == 'b' || what.compare(0, 5, "Image") || what.compare(0, 5, "start") ? what.substr(0, 6) : what);
  { Quiet q; MSG_db1_data d; d.open(z("s")); bool h = d.has_channel(z(name)); d.set_channel(z(name)); if (what == "long name") PBT_CHECK(c, !h, "the channel exists"); if (want == 0) nothing(c, d); if (want == 1) { PBT_CHECK(c, d.is_data_ok(), "no data"); auto r = d.get_RAW_data(); PBT_CHECK(c, d.get_raw_data_nvals() == (int)x.raw.size() && std::equal(x.raw.begin(), x.raw.end(), r), "samples"); } std::ostringstream o; if (d.is_data_ok()) o << d; }
  if (!c.chance(1, 3)) return; std::string tool = c.flag() ? "db1_to_netcdf" : "db1_to_image"; std::vector<std::string> a = {"s", name}; if (tool == "db1_to_image") a.insert(a.end(), {"pgm", "1"}); ToolRun t = runtool(tool, a); if (t.crashed) c.fail(tool + " " + why(t)); if (tool == "db1_to_netcdf" && what.compare(0, 6, "start ") == 0) { int f[6]; if (sscanf(what.c_str() + 6, "%2d/%2d/%4d %2d:%2d:%2d", f, f + 1, f + 2, f + 3, f + 4, f + 5) != 6 && what.size() > 6) PBT_CHECK(c, t.status != 0, "db1_to_netcdf succeeds"); }
  if (want == 0 || cutraw || what.compare(0, 5, "Image") == 0) PBT_CHECK(c, t.status != 0, tool << " succeeds");
}
static std::string fname(const db1::Source& s, const db1::Chan& x, const std::string& ext) { std::string r = s.get(false, "Satellite:Name", "Undefined") + "_" + x.name + "_" + s.get(false, "Schedule:Start", "01/01/2000 00:00:00.000") + "." + ext; for (auto& k : r) k = k == '/' || k == ':' ? '-' : k == ' ' ? '_' : k; return r; }
PBT_SUB("db1_to_netcdf", 60, 1500) {
  c.dir(); c.nontrivial(); auto s = db1::gen(c); auto& x = s.ch[c.below(s.ch.size())]; db1::save(s, "s"); bool absent = c.chance(1, 10); std::string tz = anytz(c); c.describe(db1::text(s) + ": " + x.name + " TZ=" + tz + (absent ? " absent" : "")); ToolRun r = runtool("db1_to_netcdf", {"s", absent ? "absent" : x.name}); utc();
  if (r.crashed) c.fail("db1_to_netcdf " + why(r)); PBT_CHECK(c, (r.status == 0) == !absent, "exit status " << r.status << ": " << why(r)); if (absent) return;
  auto w = entries(s, x); auto want = [&](const char* k) { for (auto& p : w) if (p.first == k) return p.second; throw std::runtime_error(k); };
  Nc n(c, fname(s, x, "nc")); int v = n.var(x.name.c_str()); auto px = n.values(v); PBT_CHECK(c, n.dim("line") == (size_t)s.lines && n.dim("column") == (size_t)s.pixels && n.dim("time") == 1 && n.dim("calibration") == (size_t)1 << s.bpp && px.size() == x.raw.size(), "size");
  for (size_t i = 0; i < px.size(); ++i) if ((uint16_t)(int16_t)px[i] != x.raw[i]) c.fail(Str() << "sample " << i << " is " << px[i] << " instead of " << x.raw[i]);
  char t[40]; snprintf(t, sizeof t, "%04d-%02d-%02d %02d:%02d:%02d", s.t[0], s.t[1], s.t[2], s.t[3], s.t[4], s.t[5]); PBT_CHECK(c, n.text("Time") == std::string(t) + " UTC", "Time is " << n.text("Time")); auto tv = n.values(n.var("time")); PBT_CHECK(c, tv.size() == 1 && tv[0] == since2000(t), "the time coordinate is " << tv[0] << " instead of " << since2000(t));
  PBT_CHECK(c, n.text("Satellite") == want("Satellite Name") && n.text("Receiver") == want("Station Name") && n.text("Area_Name") == want("AoI Name") && n.text("Projection") == want("AoI Projection"), "texts"); PBT_CHECK(c, n.num("Columns") == s.pixels && n.num("Lines") == s.lines && n.num("SampleX") == 1 && n.num("SampleY") == 1 && n.num("AreaStartPix") == 1 && n.num("AreaStartLin") == 1 && n.num("Orbit_Radius") == 42164 && n.num("Longitude") == 0, "columns and lines"); PBT_CHECK(c, n.text("Conventions") == "COARDS" && n.text("units", n.var("time")) == "seconds since 2000-01-01 00:00:00 UTC", "conventions");
  for (auto p : {std::make_pair("Column_Scale_Factor", "AoI CFAC"), std::make_pair("Line_Scale_Factor", "AoI LFAC"), std::make_pair("Column_Offset", "AoI COFF"), std::make_pair("Line_Offset", "AoI LOFF")}) PBT_CHECK(c, n.num(p.first) == atof(want(p.second).c_str()), p.first << " is " << n.num(p.first) << " instead of " << want(p.second));
  int cv = n.var("calibration"); auto g = n.values(cv); for (int i = 0; i < 1 << s.bpp; ++i) if ((float)g[i] != valueof(x, i)) c.fail(Str() << "count " << i << " is " << g[i] << " instead of " << valueof(x, i)); PBT_CHECK(c, n.text("units", cv) == x.units && n.text("variable", cv) == x.variable, "units"); PBT_CHECK(c, n.num("add_offset", v) == 0 && n.num("scale_factor", v) == 1 && n.num("chnum", v) == db1::code(x), "attributes of " << x.name);
}
struct Pgm { int w = 0, h = 0, max = 0; std::vector<int> v; int at(int x, int y) const { return v[(size_t)y * w + x]; } };
static Pgm pgm(pbt::Ctx& c, const std::string& f) { std::string b = slurp(f); Pgm p; int n = 0; PBT_CHECK(c, sscanf(b.c_str(), "P5 %d %d %d%n", &p.w, &p.h, &p.max, &n) == 3 && n > 0, f << " is not a PGM image"); ++n; int k = p.max > 255 ? 2 : 1; PBT_CHECK(c, b.size() == n + (size_t)p.w * p.h * k, "size of " << f); for (size_t i = n; i < b.size(); i += k) p.v.push_back(k == 1 ? (uint8_t)b[i] : (uint8_t)b[i] << 8 | (uint8_t)b[i + 1]); return p; }
PBT_SUB("db1_to_image", 60, 1500) {
  c.dir(); c.nontrivial(); auto s = db1::gen(c); auto& x = s.ch[c.below(s.ch.size())]; int f = c.chance(1, 3) ? 2 : 1; // blocks of 2x2 samples, to be halved
  if (f == 2) { int w = (s.pixels + 1) / 2 * 2, h = (s.lines + 1) / 2 * 2; std::vector<uint16_t> r; for (int i = 0; i < w * h; ++i) r.push_back(0); for (int y = 0; y < h; ++y) for (int q = 0; q < w; ++q) r[y * w + q] = x.raw[std::min(y / 2, s.lines - 1) * s.pixels + std::min(q / 2, s.pixels - 1)]; s.pixels = w; s.lines = h; x.raw = r; s.info["Image:Pixels"] = std::to_string(w); s.info["Image:Lines"] = std::to_string(h); }
  db1::save(s, "s"); int kind = c.below(8); bool absent = kind == 0, bad = kind == 1, over = kind == 2 || kind == 3; c.describe(db1::text(s) + ": " + x.name + (f == 2 ? " halved" : "") + (absent ? " absent" : bad ? " bad overlay" : over ? " overlay" : ""));
  std::vector<std::string> a = {"s", absent ? "absent" : x.name, "pgm", f == 2 ? "0.5" : "1"}; std::string out = fname(s, x, "pgm"); auto run = [&] { unlink(out.c_str()); ToolRun r = runtool("db1_to_image", a); if (r.crashed) c.fail("db1_to_image " + why(r)); return r; };
  if (bad) { a.push_back(c.pick<std::string>({"missing.pgm", "damaged.pgm"})); xg::save("damaged.pgm", "P5\n10 10\n"); } ToolRun r = run(); PBT_CHECK(c, (r.status == 0) == !(absent || bad), "exit status " << r.status << ": " << why(r)); if (absent || bad) return;
  Pgm p = pgm(c, out); int W = s.pixels / f, H = s.lines / f; PBT_CHECK(c, p.w == W && p.h == H, "an image of " << p.w << "x" << p.h << " instead of " << W << "x" << H);
  std::map<int, int> seen; for (int y = 0; y < H; ++y) for (int q = 0; q < W; ++q) { int u = s.ns ? q : W - 1 - q, v = s.ns ? y : H - 1 - y, raw = x.raw[(size_t)v * f * s.pixels + u * f]; auto k = seen.emplace(raw, p.at(q, y)); if (k.first->second != p.at(q, y)) c.fail(Str() << "pixel " << q << "," << y << " is " << p.at(q, y) << ", other samples of " << raw << " are " << k.first->second); }
  int last = -1; for (auto& k : seen) { PBT_CHECK(c, k.second >= last, "samples of " << k.first << " are darker than smaller ones"); last = k.second; } if (seen.size() > 1) PBT_CHECK(c, seen.begin()->second < p.max / 4 && last > p.max * 3 / 4, "values between " << seen.begin()->second << " and " << last); c.label(Str() << (s.ns ? "N-S" : "S-N") << (f == 2 ? " halved" : "") << (over ? " overlay" : ""));
  if (!over) return; std::string o = Str() << "P5\n" << s.pixels << " " << s.lines << "\n255\n"; std::vector<bool> on; for (int y = 0; y < s.lines; ++y) for (int q = 0; q < s.pixels; ++q) { bool b = db1::mix(y / f * 1000 + q / f + s.pixels) % 3 == 0; on.push_back(b); o += b ? '\xff' : '\0'; } xg::save("lines.pgm", o); a.push_back("lines.pgm"); r = run(); PBT_CHECK(c, r.status == 0, "exit status " << r.status << ": " << why(r)); Pgm g = pgm(c, out); PBT_CHECK(c, g.w == W && g.h == H, "size with the overlay");
  for (int y = 0; y < H; ++y) for (int q = 0; q < W; ++q) { double w = on[y * f * s.pixels + q * f] ? 1 : p.at(q, y) / (double)p.max, v = g.at(q, y) / (double)g.max; if (fabs(w - v) > .01) c.fail(Str() << "pixel " << q << "," << y << " is " << v << " of white instead of " << w); }
}
PBT_MAIN("P28", "a source in the DB1 format with generated texts, calibrations and samples, read with the library or the tools and compared with what was written, or damaged and refused")
