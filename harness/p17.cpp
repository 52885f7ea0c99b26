// P17: HRI images
#include "hrigen.h"
#include "tool.h"
#include <cmath>
#include <msat/hri/HRI.h>
#include <msat/hri/HRI_machine.h>
using pbt::Str;
using xg::W;
using namespace hrig;

struct Quiet { std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(nullptr)), e(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); } };

static const double GMSIR[256] = {130.00,130.00,130.00,130.00,130.00,130.00,130.00,130.00,130.00,130.00,130.00,130.00,130.00,130.00,134.19,147.65,155.73,161.75,166.62,170.77,174.40,177.64,180.47,183.18,185.70,188.05,190.26,192.35,194.33,196.22,198.03,199.76,201.42,203.02,204.57,206.07,207.52,208.92,210.29,211.62,212.91,214.17,215.40,216.60,217.78,218.92,220.05,221.15,222.23,223.29,224.33,225.35,226.35,227.33,228.30,229.26,230.20,231.12,232.03,232.93,233.81,234.68,235.54,236.39,237.23,238.06,238.87,239.68,240.48,241.27,242.05,242.82,243.58,244.33,245.08,245.81,246.54,247.26,247.98,248.69,249.39,250.08,250.77,251.46,252.13,252.80,253.47,254.12,254.78,255.42,256.07,256.70,257.33,257.96,258.58,259.20,259.81,260.42,261.03,261.62,262.22,262.81,263.40,263.98,264.56,265.13,265.70,266.27,266.83,267.39,267.95,268.50,269.05,269.60,270.14,270.68,271.21,271.75,272.28,272.80,273.33,273.85,274.37,274.88,275.39,275.90,276.41,276.92,277.42,277.92,278.41,278.91,279.40,279.89,280.37,280.86,281.34,281.82,282.30,282.77,283.24,283.71,284.18,284.65,285.11,285.58,286.04,286.49,286.95,287.40,287.86,288.31,288.75,289.20,289.65,290.09,290.53,290.97,291.41,291.84,292.28,292.71,293.14,293.57,293.99,294.42,294.84,295.27,295.69,296.11,296.52,296.94,297.36,297.77,298.18,298.59,299.00,299.41,299.81,300.22,300.62,301.02,301.42,301.82,302.22,302.62,303.01,303.41,303.80,304.19,304.58,304.97,305.36,305.74,306.13,306.51,306.90,307.28,307.66,308.04,308.42,308.79,309.17,309.54,309.92,310.29,310.66,311.03,311.40,311.77,312.14,312.51,312.87,313.24,313.60,313.96,314.32,314.68,315.04,315.40,315.76,316.12,316.47,316.83,317.18,317.53,317.88,318.24,318.59,318.94,319.28,319.63,319.98,320.32,320.67,321.01,321.36,321.70,322.04,322.38,322.72,323.06,323.40,323.74,324.07,324.41,324.74,325.08,325.41,325.75,326.08,326.41,326.74,327.07,327.40,327.73};
// Calibration of a count, from the formulas
static void checkcal(pbt::Ctx& c, HRI_image& im, char fmt, int band, int sat, double cc, double sc, bool calibrated) {
  float* g; { Quiet q; g = im.get_calibration(); }
  for (int i = 0; i < 256; ++i) {
    double w = 1; bool skip = false; double x = i < sc ? 0 : (double)(float)((float)cc * ((float)i - (float)sc));
    auto planck = [&](double b, double a) { double l = log(x) - a; if (fabs(l) < 1e-3) skip = true; return -b / l; };
    if (fmt != 'X') w = band == 0 ? planck(1255.5465, 6.9618) : band == 1 ? planck(2233.4882, 9.2477) : i * 100 / 255.;
    else if (band == 0) w = sat == 1 ? i < 79 ? 163 + i : (i + 405) / 2. : sat == 2 ? i / 255. * (318.1 - 159.1) + 159.1 : sat == 3 ? GMSIR[i] : planck(1272.2, 6.7348);
    else if (band == 1) { if (sat == 0 || sat == 4) w = planck(2264.9, 9.1124); }
    else w = sat == 3 ? (i / 4) * (i / 4) / 3969. : i * 100 / 255.;
    if (!calibrated && fmt != 'X' && band < 2) w = 1;
    if (skip || !std::isfinite(w)) continue;
    PBT_CHECK(c, fabs(g[i] - w) <= fabs(w) * 2e-4 + 2e-6, "count " << i << " of band " << band << " of satellite " << sat << " is " << g[i] << " instead of " << w);
  }
}
static void verify(pbt::Ctx& c, const File& f, Hri& h) {
  char a = f.code[0];
  PBT_CHECK(c, std::string(h.get_format()) == f.code, "format " << h.get_format()); PBT_CHECK(c, std::string(h.get_area_name()) == std::string(1, a) + "Format", "area " << h.get_area_name());
  PBT_CHECK(c, h.nimages == (int)f.bands.size(), h.nimages << " images");
  PBT_CHECK(c, !memcmp(h.seed, f.seed.data(), 8), "seed");
  { static const char* NAMES[] = {"", "GOES-E", "GOES-W", "GMS", "GOMS"}; std::string w = NAMES[f.sat]; if (!f.sat) { int n = (uint8_t)f.ident[1]; w = "METEOSAT"; if (n > 240) w += Str() << "-" << n - 240; } PBT_CHECK(c, std::string(h.get_satellite_name()) == w, "satellite " << h.get_satellite_name() << " instead of " << w); }
  { auto u2 = [&](int i) { return (uint8_t)f.ident[i] << 8 | (uint8_t)f.ident[i + 1]; }; int y = u2(2), d = u2(4), t = u2(6); static const int L[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int m = 0; for (;; ++m) { int n = L[m] + (m == 1 && y % 4 == 0 && (y % 100 || y % 400 == 0)); if (d <= n) break; d -= n; }
    struct tm* g = h.get_datetime(); PBT_CHECK(c, g->tm_year + 1900 == y && g->tm_mon == m && g->tm_mday == d && g->tm_hour == t / 100 && g->tm_min == t % 100, "time " << g->tm_year + 1900 << "-" << g->tm_mon + 1 << "-" << g->tm_mday << " " << g->tm_hour << ":" << g->tm_min << " instead of " << y << "-" << m + 1 << "-" << d << " " << t);
    PBT_CHECK(c, h.get_satellite_longitude() == (float)(int16_t)u2(24), "longitude " << h.get_satellite_longitude()); }
  PBT_CHECK(c, near(h.get_orbit_radius(), ibmval(f.interp.substr(272, 8)), true) || fabsl(ibmval(f.interp.substr(272, 8))) > 3e38L, "orbit radius " << h.get_orbit_radius());
  { geolocation* g = h.get_geolocation(); long fac = f.code == "AV" || a == 'B' ? -18204444 : -9102222, co = f.code == "AV" ? 2500 : a == 'X' ? 1250 : 1248, lo = f.code == "AV" ? 2500 : a == 'X' ? 1250 : a == 'A' ? 1249 : -1118; PBT_CHECK(c, g->CFAC == fac && g->LFAC == fac && g->COFF == co && g->LOFF == lo, "geolocation " << g->CFAC << " " << g->LFAC << " " << g->COFF << " " << g->LOFF); }
  static const char* BN[] = {"IR", "WV", "VIS", "VIS"}; int nl = nlines(a, f.bands[0]);
  int per = 0; for (int b : f.bands) per += b == 2 ? 4 : 1; if (f.code == "AV") nl = 2500;
  int step = a == 'A' ? 2500 : 1250, at = 0;
  for (size_t k = 0; k < f.bands.size(); ++k) {
    HRI_image& im = h.image[k]; int b = f.bands[k], nc = cols(a, b), n = nlines(a, b), first = at; at += b == 2 ? 4 : 1;
    PBT_CHECK(c, im.npixels == nc && im.nlines == n, "image " << k << " of " << im.npixels << "x" << im.nlines); PBT_CHECK(c, im.get_image_band() == b && im.units == (b < 2 ? "K" : "%") && (im.name == BN[b] || (a == 'X' && im.name == "VH")), "band of image " << k << " is " << im.name << " in " << im.units);
    PBT_CHECK(c, im.samplex == (nc == 1250 ? 2 : 1) && im.sampley == im.samplex, "sampling of image " << k);
    auto want = [&](int y, int x) -> int {
      if (b != 2) return sample(f.seed0, (uint32_t)((y * per + first) * step + x));
      int half = nc / 2; // the second half of a line starts two pixels before the middle
      int second = x >= half - 2 && x < nc - 2; if (x >= nc - 2) return 0;
      return sample(f.seed0, (uint32_t)(((y / 2) * per + first + (y % 2) * 2 + second) * step + (second ? x - half + 2 : x)));
    };
    unsigned char* d = im.get_image(); uint64_t bad = 0; int by = -1, bx = -1;
    for (int y = 0; y < n; ++y) for (int x = 0; x < nc; ++x) if (d[y * (size_t)nc + x] != want(y, x)) { if (!bad++) { by = y; bx = x; } }
    PBT_CHECK(c, !bad, bad << " samples of image " << k << " differ, first at line " << by << " column " << bx << ": " << (int)d[by * (size_t)nc + bx] << " instead of " << want(by, bx));
    for (int t = 0; t < 8; ++t) { int y = c.below(n), x = c.below(nc); PBT_CHECK(c, im.get_pixel(y, x) == want(y, x) && im.get_line(y)[x] == want(y, x), "pixel " << x << "," << y); }
    for (auto p : {std::pair<int, int>{-1, 0}, {n, 0}, {0, -1}, {0, nc}}) { bool t = false; Quiet q; try { im.get_pixel(p.first, p.second); } catch (std::exception&) { t = true; } PBT_CHECK(c, t, "pixel " << p.second << "," << p.first << " exists"); }
    double cc = value(f.interp.substr(b == 0 ? 51 : 64, 5), 0.1), sc = value(f.interp.substr(b == 0 ? 56 : 69, 3), 10);
    checkcal(c, im, a, b, f.sat == 4 ? 4 : f.sat, cc, sc, true);
  }
}
static std::map<std::string, std::vector<std::string>> fields(const std::string& out) {
  std::map<std::string, std::vector<std::string>> m; std::istringstream i(out); std::string l;
  while (std::getline(i, l)) { if (l.size() < 30) continue; std::string k = l.substr(0, 29), v = l.substr(29); while (k.size() && (k.back() == ' ' || k.back() == ':')) k.pop_back(); size_t p = v.find_first_not_of(" :"); m[k].push_back(p == std::string::npos ? "" : v.substr(p)); }
  return m;
}
static void print(pbt::Ctx& c, const File& f, Hri& h) {
  std::ostringstream o; o << h; auto m = fields(o.str()); auto want = [&](const char* k, double v) { PBT_CHECK(c, m[k].size() >= 1, "nothing is printed for " << k); char* e; double g = strtod(m[k][0].c_str(), &e); PBT_CHECK(c, fabs(g - v) <= fabs(v) * 1e-5 + 1e-9, k << " printed as " << m[k][0] << " instead of " << v); };
  auto s2 = [&](const std::string& b, int i) { return (int16_t)((uint8_t)b[i] << 8 | (uint8_t)b[i + 1]); }; auto u2 = [&](const std::string& b, int i) { return (uint16_t)s2(b, i); };
  want("Number of frames in Subframe", u2(f.label, 0)); want("Total number of subframes", u2(f.label, 2)); want("Current subframe number", u2(f.label, 4)); want("Image line number", u2(f.label, 6));
  want("Global image number", (uint32_t)u2(f.label, 8) << 16 | u2(f.label, 10)); want("Julian day", u2(f.ident, 4)); want("Column offset", u2(f.ident, 20)); want("Line offset", u2(f.ident, 22)); want("Longitude", s2(f.ident, 24));
  const char* T[] = {"Max space count east IR", "Max space count east V1", "Max space count east V2", "Max space count east WV", "Max space count west IR", "Max space count west V1", "Max space count west V2", "Max space count west WV"};
  for (int i = 0; i < 8; ++i) want(T[i], s2(f.interp, 456 + 2 * i));
  const char* H[] = {"Southern line", "Southern line, first pixel", "Southern line, last pixel", "Northern line", "Northern line, first pixel", "Northern line, last pixel", "Eastern pixel", "Eastern pixel, bottom line", "Eastern pixel, top line", "Western pixel", "Western pixel, bottom line", "Western pixel, top line"};
  for (int i = 0; i < 12; ++i) want(H[i], s2(f.interp, 248 + 2 * i));
  PBT_CHECK(c, o.str().find(std::string(f.interp.c_str() + 560, strnlen(f.interp.data() + 560, 800)) + "\n-----") != std::string::npos, "the administrative message is not printed as it is");
  PBT_CHECK(c, o.str().find("Format is " + f.code + "\n") != std::string::npos, "format printed differently");
  if (f.code[0] == 'A') { size_t used = 0, got = 0, p = 0; for (int i = 0; i < 120; ++i) used += f.keys[12 * i] != 0; while ((p = o.str().find("Key number ", p)) != std::string::npos) { ++got; ++p; } PBT_CHECK(c, used == got, got << " keys instead of " << used); }
}

PBT_SUB("images", 60, 1500) {
  File f = gen(c, c.chance(1, 4)); c.describe(text(f)); c.nontrivial(); c.label(f.code); c.dir(); xg::save("x.hri", f.bytes);
  if (c.flag()) { setenv("TZ", c.pick<const char*>({"UTC", "Pacific/Auckland", "Pacific/Honolulu", "XXX-14", "YYY12"}), 1); tzset(); }
  Hri h; { Quiet q; h.readfrom((char*)"x.hri", f.tec); } verify(c, f, h); print(c, f, h);
}
PBT_SUB("histories", 15, 300) {
  c.nontrivial(); c.dir(); Hri h; int n = 2 + c.below(3);
  for (int i = 0; i < n; ++i) {
    File f = gen(c, false); c.describe(Str() << text(f) << "; "); std::string b = f.bytes; bool cut = c.chance(1, 3); if (cut) b.resize(c.below(b.size())); xg::save("x.hri", b);
    bool t = false; { Quiet q; try { h.readfrom((char*)"x.hri", f.tec); } catch (std::exception&) { t = true; } }
    PBT_CHECK(c, t == cut, (cut ? "a cut file is read" : "a whole file is refused")); if (!cut) verify(c, f, h);
  }
}
PBT_SUB("damaged files", 150, 4000) {
  File f = gen(c, c.chance(1, 12)); c.nontrivial(); c.dir(); std::string b = f.bytes; int mode = c.below(5); bool must = false; size_t lines = (b.size() - f.head) / f.framelen;
  size_t labelat = f.tec ? 516 : 4, unit = f.tec ? f.framelen : 364;
  switch (mode) {
    case 0: b.resize(c.chance(1, 3) ? c.below(4000) : b.size() - 1 - c.below(2000)); must = true; c.label("cut"); break;
    case 1: { size_t k = f.head + unit * c.below((b.size() - f.head) / unit) + c.below(3); b[k] ^= 1 << c.below(8); must = true; c.label("sync"); break; }
    case 2: { b[labelat + 12] = c.pick({1, 254, 16, 128}); must = true; c.label("format"); break; }
    case 3: { size_t id = labelat + 24 + 8; if (c.flag()) { b[id] = c.pick({1, 211, 255}); } else { b[id] = 0; b[id + 1] = c.pick({4, 255, 100}); } must = true; c.label("satellite"); break; }
    default: { auto r = c.bytes(60); for (int i = 0; i < 1 + (int)c.below(15); ++i) b[(r[3 * i] << 8 | r[3 * i + 1]) % f.head] = r[3 * i + 2]; c.label("bytes"); }
  }
  c.describe(Str() << text(f) << " damage " << mode); (void)lines; xg::save("x.hri", b); bool t = false;
  { Hri h; Quiet q; try { h.readfrom((char*)"x.hri", f.tec); std::ostringstream o; o << h; h.get_format(); for (int i = 0; i < h.nimages; ++i) h.image[i].get_calibration(); } catch (std::exception&) { t = true; } }
  if (must) PBT_CHECK(c, t, "damage " << mode << " is not reported");
  Hri g; t = false; { Quiet q; try { g.readfrom((char*)"none.hri", false); } catch (std::exception&) { t = true; } } PBT_CHECK(c, t, "a missing file is read");
}
PBT_SUB("labels", 3000, 60000) {
  c.nontrivial(); auto r = c.bytes(24); char b[24]; for (int i = 0; i < 24; ++i) b[i] = c.flag() ? r[i] : c.pick({0, 255, 240, 15}); c.describe(Str() << "indicators " << (int)(uint8_t)b[12] << " " << (int)(uint8_t)b[13] << " " << (int)(uint8_t)b[14] << " " << (int)(uint8_t)b[15] << " " << (int)(uint8_t)b[16] << " " << (int)(uint8_t)b[18] << " " << (int)(uint8_t)b[19]);
  HRI_subframe_label l(b); auto u = [&](int i) { return (uint8_t)b[i]; };
  PBT_CHECK(c, l.number_of_frames_in_subframe == u(0) * 256 + u(1) && l.total_number_of_subframes == u(2) * 256 + u(3) && l.current_subframe_number == u(4) * 256 + u(5) && l.image_line_number == u(6) * 256 + u(7) && l.image_number_from_mission_start == ((uint32_t)u(8) << 24 | u(9) << 16 | u(10) << 8 | u(11)), "numbers");
  PBT_CHECK(c, l.key_number_VIS_s_indicator == u(20) && l.key_number_VIS_n_indicator == u(21) && l.key_number_IR_indicator == u(22) && l.key_number_WV_indicator == u(23), "key numbers");
  PBT_CHECK(c, l.is_A_format() == (u(12) == 0) && l.is_B_format() == (u(12) == 255) && l.is_X_format() == (u(12) == 15), "format");
  PBT_CHECK(c, l.is_VISs_present() == !!u(13) && l.is_VISn_present() == !!u(14) && l.is_IR_present() == !!u(15) && l.is_WV_present() == !!u(16) && l.is_grid_present() == !!u(17), "presence");
  PBT_CHECK(c, l.is_VISs_1st_half_present() == (u(13) == 240) && l.is_VISs_2nd_half_present() == (u(13) == 15) && l.is_VISs_reduced() == (u(13) == 255) && l.is_VISn_1st_half_present() == (u(14) == 240) && l.is_VISn_2nd_half_present() == (u(14) == 15) && l.is_VISn_reduced() == (u(14) == 255), "parts of VIS");
  PBT_CHECK(c, l.is_VISs_encrypted() == !!(u(18) & 8) && l.is_VISn_encrypted() == !!(u(18) & 4) && l.is_IR_encrypted() == !!(u(18) & 2) && l.is_WV_encrypted() == !!(u(18) & 1), "encryption");
  PBT_CHECK(c, l.is_scan_SN_EW() == (u(19) == 0) && l.is_scan_NS_EW() == (u(19) == 240) && l.is_scan_SN_WE() == (u(19) == 15) && l.is_scan_NS_WE() == (u(19) == 255), "scan direction");
  bool known = u(12) == 0 || u(12) == 255 || u(12) == 15, t = false; std::string code; { Quiet q; try { code = l.format_code(); } catch (std::exception&) { t = true; } }
  PBT_CHECK(c, t == !known, "format code " << code); if (known) { std::string w = u(12) == 0 ? "A" : u(12) == 255 ? "B" : "X"; bool v = u(13) || u(14); if (u(15)) w += "I"; if (v) w += "V"; if (u(16)) w += "W"; else if (v && (u(13) == 255 || u(14) == 255)) w += "H"; PBT_CHECK(c, code == w, "format code " << code << " instead of " << w); }
}
PBT_SUB("identifications", 3000, 60000) {
  c.nontrivial(); int sat; std::string b = ident(c, sat); c.describe(Str() << "satellite " << sat << " " << ((uint8_t)b[2] << 8 | (uint8_t)b[3]) << " day " << ((uint8_t)b[4] << 8 | (uint8_t)b[5]));
  setenv("TZ", c.pick<const char*>({"UTC", "XXX-14", "YYY12", "AAA-5:30", "CET-1CEST,M3.5.0,M10.5.0/3"}), 1); tzset();
  HRI_subframe_identification i; i.readfrom((char*)b.data()); auto u = [&](int k) { return (uint8_t)b[k] << 8 | (uint8_t)b[k + 1]; };
  PBT_CHECK(c, i.is_Meteosat() == (sat == 0) && i.is_GOES_E() == (sat == 1) && i.is_GOES_W() == (sat == 2) && i.is_GMS() == (sat == 3) && i.is_GOMS() == (sat == 4), "satellite " << i.satellite);
  PBT_CHECK(c, i.meteosat_id == (sat ? -1 : (uint8_t)b[1] > 240 ? (uint8_t)b[1] - 240 : 1), "Meteosat " << i.meteosat_id);
  PBT_CHECK(c, i.year == u(2) && i.julian_day == u(4) && i.hour == u(6) / 100 && i.minute == u(6) % 100 && i.nominal_time == u(6) && i.column_offset == u(20) && i.line_offset == u(22) && i.longitude == (int16_t)u(24), "numbers");
  struct tm t = {}; t.tm_year = i.year - 1900; t.tm_mday = u(4); t.tm_hour = i.hour; t.tm_min = i.minute; time_t w = timegm(&t), g = timegm(&i.tmtime); PBT_CHECK(c, g == w && i.month == t.tm_mon + 1 && i.day == t.tm_mday, "date " << i.year << "-" << i.month << "-" << i.day);
  PBT_CHECK(c, i.datetime == asctime(gmtime(&w)), "date " << i.datetime << " instead of " << asctime(gmtime(&w)));
}
PBT_SUB("interpretations", 2000, 40000) {
  c.nontrivial(); std::string b = interp(c); c.describe("digits " + b.substr(0, 80)); HRI_subframe_interpretation i; i.readfrom((char*)b.data());
  auto dig = [&](const char* n, double g, int at, int len, double first) { double w = value(b.substr(at, len), first); PBT_CHECK(c, fabs(g - w) <= 1e-5 + 1e-6 * w, n << " is " << g << " instead of " << w); };
  auto& k = i.cal; dig("bbc1ir", k.bbc1ir, 0, 6, 100); dig("bbsd1i", k.bbsd1i, 6, 3, 1); dig("bbc1wv", k.bbc1wv, 9, 6, 100); dig("bbsd1w", k.bbsd1w, 15, 3, 1); dig("bb1t", k.bb1t, 18, 5, 100); dig("bb2t", k.bb2t, 23, 5, 100); dig("bbc2ir", k.bbc2ir, 28, 6, 100); dig("bbsd2i", k.bbsd2i, 34, 3, 1); dig("bbc2wv", k.bbc2wv, 37, 6, 100); dig("bbsd2w", k.bbsd2w, 43, 3, 1);
  dig("time1_day", k.time1_day, 46, 3, 100); dig("time1_slot", k.time1_slot, 49, 2, 10); dig("calir", k.calir, 51, 5, .1); dig("irspc", k.irspc, 56, 3, 10); dig("time2_day", k.time2_day, 59, 3, 100); dig("time2_slot", k.time2_slot, 62, 2, 10); dig("calwv", k.calwv, 64, 5, .1); dig("wvspc", k.wvspc, 69, 3, 10); dig("time3_day", k.time3_day, 72, 3, 100); dig("time3_slot", k.time3_slot, 75, 2, 10);
  dig("ir_gain", k.ir_gain, 92, 2, 10); dig("wv_gain", k.wv_gain, 94, 2, 10); dig("v1_gain", k.v1_gain, 96, 2, 10); dig("v2_gain", k.v2_gain, 98, 2, 10);
  auto& o = i.oper; double* d[] = {&o.degsra, &o.degsde, &o.degnra, &o.degnde, &o.finatt_x, &o.finatt_y, &o.finatt_z, &o.farade_1, &o.farade_2}; for (int n = 0; n < 9; ++n) PBT_CHECK(c, near(*d[n], ibmval(b.substr(104 + 8 * n, 8)), false), "operation number " << n << " is " << *d[n] << " instead of " << (double)ibmval(b.substr(104 + 8 * n, 8)));
  PBT_CHECK(c, o.nrslot == (int32_t)((uint32_t)(uint8_t)b[176] << 24 | (uint8_t)b[177] << 16 | (uint8_t)b[178] << 8 | (uint8_t)b[179]), "nrslot"); PBT_CHECK(c, near(o.spndur, ibmval(b.substr(180, 4)), true), "spin duration is " << o.spndur << " instead of " << (double)ibmval(b.substr(180, 4)));
  bool* fl[] = {&o.flecl, &o.fldec, &o.flman, &o.flmode, &o.flir1, &o.flir2, &o.flwv1, &o.flwv2, &o.flvis1, &o.flvis2, &o.flvis3, &o.flvis4}; for (int n = 0; n < 12; ++n) PBT_CHECK(c, *fl[n] == !!b[184 + n], "flag " << n);
  auto& m = i.imag; bool* st[] = {&m.imstat_1, &m.imstat_2, &m.imstat_3, &m.imstat_4, &m.imstat_5, &m.imstat_6, &m.imstat_7, &m.imstat_8, &m.imstat_9, &m.imstat_10, &m.imstat_11}; for (int n = 0; n < 11; ++n) PBT_CHECK(c, *st[n] == !!b[232 + n], "image status " << n);
  short* li[] = {&m.limhor_1, &m.limhor_2, &m.limhor_3, &m.limhor_4, &m.limhor_5, &m.limhor_6, &m.limhor_7, &m.limhor_8, &m.limhor_9, &m.limhor_10, &m.limhor_11, &m.limhor_12}; auto s2 = [&](int at) { return (int16_t)((uint8_t)b[at] << 8 | (uint8_t)b[at + 1]); };
  for (int n = 0; n < 12; ++n) PBT_CHECK(c, *li[n] == s2(248 + 2 * n), "horizon limit " << n + 1);
  double* e[] = {&m.satdis, &m.sorbof_x, &m.sorbof_y, &m.sorbof_z, &m.norbof_x, &m.norbof_y, &m.norbof_z}; for (int n = 0; n < 7; ++n) PBT_CHECK(c, near(*e[n], ibmval(b.substr(272 + 8 * n, 8)), false), "orbit number " << n << " is " << *e[n] << " instead of " << (double)ibmval(b.substr(272 + 8 * n, 8)));
  float* x[] = {&m.xddifm, &m.yddifm, &m.xscm, &m.yscm}; for (int n = 0; n < 4; ++n) PBT_CHECK(c, near(*x[n], ibmval(b.substr(328 + 4 * n, 4)), true), "deformation " << n << " is " << *x[n]);
  bool* co[] = {&m.conds_1, &m.conds_2, &m.conds_3, &m.conds_4}; for (int n = 0; n < 4; ++n) PBT_CHECK(c, *co[n] == !!b[344 + n], "condition " << n);
  short* dy[] = {&m.lowdyn_ir, &m.lowdyn_v1, &m.lowdyn_v2, &m.lowdyn_wv, &m.higdyn_ir, &m.higdyn_v1, &m.higdyn_v2, &m.higdyn_wv}; for (int n = 0; n < 8; ++n) PBT_CHECK(c, *dy[n] == s2(348 + 2 * n), "dynamic " << n);
  float* sn[] = {&m.mvis1, &m.mvis2, &m.snnom_ir, &m.snnom_v1, &m.snnom_v2, &m.snnom_wv}; for (int n = 0; n < 6; ++n) PBT_CHECK(c, near(*sn[n], ibmval(b.substr(364 + 4 * n, 4)), true), "noise " << n << " is " << *sn[n]);
  float* sr[] = {&m.snrep_ir, &m.snrep_v1, &m.snrep_v2, &m.snrep_wv, &m.snrwp_ir, &m.snrwp_v1, &m.snrwp_v2, &m.snrwp_wv, &m.swmnep_ir, &m.swmnep_v1, &m.swmnep_v2, &m.swmnep_wv, &m.swmnwp_ir, &m.swmnwp_v1, &m.swmnwp_v2, &m.swmnwp_wv}; for (int n = 0; n < 16; ++n) PBT_CHECK(c, near(*sr[n], ibmval(b.substr(392 + 4 * n, 4)), true), "ratio " << n << " is " << *sr[n]);
  short* mx[] = {&m.snmxep_ir, &m.snmxep_v1, &m.snmxep_v2, &m.snmxep_wv, &m.snmxwp_ir, &m.snmxwp_v1, &m.snmxwp_v2, &m.snmxwp_wv}; for (int n = 0; n < 8; ++n) PBT_CHECK(c, *mx[n] == s2(456 + 2 * n), "space count " << n << " is " << *mx[n] << " instead of " << s2(456 + 2 * n));
  PBT_CHECK(c, !memcmp(i.mesg.admin_message, b.data() + 560, 800), "administrative message");
  HRI_subframe_interpretation j((char*)b.data()); std::ostringstream p, q; p << i; q << j; PBT_CHECK(c, p.str() == q.str(), "printed differently");
}
PBT_SUB("keys", 1000, 20000) {
  c.nontrivial(); auto r = c.bytes(1440); std::string b((char*)r.data(), 1440); int used = 0; for (int i = 0; i < 120; ++i) { b[12 * i] = c.chance(1, 3) ? c.pick({1, 255}) : 0; used += b[12 * i] != 0; if (c.flag()) { b[12 * i + 2] = 0; b[12 * i + 3] = c.below(6); b[12 * i + 1] = c.below(4); } }
  HRI_subframe_keyslot k; k.readfrom((char*)b.data()); c.describe(Str() << used << " keys");
  for (int t = 0; t < 20; ++t) { int st = c.flag() ? (int)c.below(7) : (int)c.below(4096), kn = c.below(5); bool has = false; int hit = -1; for (int i = 0; i < 120; ++i) if (b[12 * i]) { int s = 16 * (uint8_t)b[12 * i + 2] + (uint8_t)b[12 * i + 3]; if (s == st) { has = true; if (hit < 0 && (uint8_t)b[12 * i + 1] == kn) hit = i; } }
    PBT_CHECK(c, k.has_keys(st) == has, "station " << st << (has ? " has no keys" : " has keys")); HRI_keyslot& g = k.get_key(st, kn); PBT_CHECK(c, g.usage == (hit >= 0) && (hit < 0 || !memcmp(g.message_key, b.data() + 12 * hit + 4, 8)), "key " << kn << " of station " << st); }
}
PBT_SUB("calibration", 400, 10000) {
  c.nontrivial(); int s = c.below(5), f = c.below(3), b = c.below(4); bool can = f == 0 || (f == 1 && b < 3) || (f == 2 && b != 2); c.describe(Str() << "satellite " << s << " format " << f << " band " << b);
  HRI_image im; bool t = false; { Quiet q; try { im.set_format_band((HRI_image_satellite)s, (HRI_image_format)f, (HRI_image_band)b); } catch (std::exception&) { t = true; } } PBT_CHECK(c, t == !can, "format and band"); if (t) return;
  PBT_CHECK(c, im.npixels == cols("ABX"[f], b) && im.nlines == nlines("ABX"[f], b), "image of " << im.npixels << "x" << im.nlines);
  calibration_coefficients k = {(float)c.real(0.001, 0.2), (float)c.real(0, 20)}; bool cal = c.chance(3, 4); if (cal) im.set_calibration(&k); else { k.mpef_absolute = b == 0 ? 0.074f : 0.0078f; k.space_count = b == 0 ? 5 : 6; }
  bool met = s == 0; if (met || f == 2) checkcal(c, im, met ? 'A' : 'X', b, s == 0 ? 0 : s, k.mpef_absolute, k.space_count, cal);
  int y = c.below(im.nlines), half = im.npixels / 2; std::vector<unsigned char> l(im.npixels); for (size_t i = 0; i < l.size(); ++i) l[i] = sample(s, i);
  im.put_line(l.data(), im.npixels, y); PBT_CHECK(c, !memcmp(im.get_line(y), l.data(), l.size()), "line " << y << " put"); im.put_halfline(l.data() + 7, half, y, true); PBT_CHECK(c, !memcmp(im.get_line(y), l.data() + 7, half) && !memcmp(im.get_line(y) + half, l.data() + half, half), "half of line " << y << " put");
  for (auto p : {std::pair<int, int>{im.npixels, -1}, {im.npixels, im.nlines}, {im.npixels - 1, 0}, {half - 1, 0}}) { t = false; Quiet q; try { im.put_line(l.data(), p.first, p.second); } catch (std::exception&) { t = true; } PBT_CHECK(c, t, "line " << p.second << " of " << p.first << " put"); t = false; try { im.put_halfline(l.data(), p.first == im.npixels ? half : p.first, p.second, c.flag()); } catch (std::exception&) { t = true; } PBT_CHECK(c, t, "half line " << p.second << " put"); }
}
PBT_MAIN("P17", "every case: a whole image, a sequence of images, a damaged one, or a record with generated content")
