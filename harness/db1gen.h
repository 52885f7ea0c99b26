// Sources in the DB1 format: a directory with the texts AoI, INFO.DBI and, for each channel, NAME.RAW and NAME.Calibration
#pragma once
#include "pbt.h"
#include "xritgen.h"
#include <sys/stat.h>
namespace db1 {
using pbt::Str;
struct Chan { std::string name, variable, units; int number, bpp; bool table, plain = false; std::string cal[5]; std::map<int, float> values; std::vector<uint16_t> raw; bool nocal = false, noinfo = false; };
struct Source {
  int pixels, lines, bpp; bool ns; std::map<std::string, std::string> aoi, info; // what is written, by "section:key"; what is not there has a default
  std::vector<Chan> ch; bool noaoi = false; int style = 0; int t[6];
  std::string get(bool a, const std::string& k, const std::string& d) const { auto& m = a ? aoi : info; if (a && noaoi) return d; auto i = m.find(k); return i == m.end() ? d : i->second; }
};
inline const char* known(int i) { static const char* n[] = {"VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134", "HRV"}; return n[i]; }
inline std::string word(pbt::Ctx& c) { return c.pick<std::string>({"MSG1", "Meteosat 9", "MSG-2", "x", "Europa e Mediterraneo", "A/B", "10:30", "L'Aquila", "GEOS(0.0)", "[Area]", "a=b"}); }
inline uint64_t mix(uint64_t v) { v += 0x9E3779B97F4A7C15ULL; v = (v ^ (v >> 30)) * 0xBF58476D1CE4E5B9ULL; v = (v ^ (v >> 27)) * 0x94D049BB133111EBULL; return v ^ (v >> 31); }
inline Source gen(pbt::Ctx& c) {
  Source s; s.pixels = 1 + c.below(c.chance(1, 10) ? 300 : 24); s.lines = 1 + c.below(c.chance(1, 10) ? 100 : 16); s.bpp = c.chance(1, 12) ? 16 : 1 + c.below(11); s.ns = c.flag(); s.style = c.below(32); s.noaoi = c.chance(1, 12);
  auto opt = [&](std::map<std::string, std::string>& m, const std::string& k, const std::string& v) { if (!c.chance(1, 8)) m[k] = v; };
  auto n = [&](int64_t v) { return std::to_string(v); }; auto big = [&]() { return n(c.flag() ? (int64_t)(int32_t)c.ubits(32) : (int64_t)c.range(-5000, 5000)); }; auto yes = [&](bool b) { return b ? c.pick<std::string>({"Yes", "true", "1", "y", "True"}) : c.pick<std::string>({"No", "false", "0", "n", "FALSE"}); };
  opt(s.aoi, ":nPixels", n(s.pixels)); opt(s.aoi, ":nLines", n(s.lines)); opt(s.aoi, ":Name", word(c)); opt(s.aoi, ":Projection", word(c)); for (auto k : {":CFAC", ":LFAC", ":COFF", ":LOFF"}) opt(s.aoi, k, big());
  opt(s.info, "Station:Name", word(c)); opt(s.info, "Satellite:Name", word(c)); opt(s.info, "Satellite:ID", big()); opt(s.info, "Satellite:Orbit", big());
  auto when = [&](int* t) { int y = c.range(1990, 2037), m = c.range(1, 12), d = c.range(1, 28), h = c.below(24), mi = c.below(60), se = c.below(60); if (t) { t[0] = y; t[1] = m; t[2] = d; t[3] = h; t[4] = mi; t[5] = se; } char b[40]; snprintf(b, sizeof b, "%02d/%02d/%04d %02d:%02d:%02d.000", d, m, y, h, mi, se); return std::string(b); };
  int def[] = {2000, 1, 1, 0, 0, 0}; std::string w = when(s.t); if (c.chance(1, 10)) memcpy(s.t, def, sizeof def); else s.info["Schedule:Start"] = w; opt(s.info, "Schedule:End", when(nullptr));
  char e[40]; snprintf(e, sizeof e, "%.4f", c.real(-90, 90)); opt(s.info, "Schedule:Elevation", e); if (s.ns || !c.chance(1, 8)) s.info["Schedule:NorthSouth"] = yes(s.ns); opt(s.info, "Schedule:Location", word(c)); bool day = c.flag(); if (!day || c.flag()) s.info["Schedule:Day"] = yes(day); opt(s.info, "Schedule:Slot", word(c));
  opt(s.info, "Image:Sensor", word(c)); s.info["Image:Pixels"] = n(s.pixels); s.info["Image:Lines"] = n(s.lines); if (s.bpp != 10 || c.flag()) s.info["Image:BitsPerPixel"] = n(s.bpp); bool pr = c.flag(); if (pr || c.flag()) s.info["Image:Protected"] = yes(pr); opt(s.info, "Image:nChannels", big()); opt(s.info, "Image:nProducts", big());
  int k = 1 + c.below(4); std::vector<int> ids, nums; for (int i = 0; i < 12; ++i) { ids.push_back(i); nums.push_back(i + 1); }
  for (int i = 0; i < k; ++i) {
    Chan x; int j = c.below(ids.size()); int id = ids[j]; ids.erase(ids.begin() + j); x.name = c.chance(1, 8) ? std::string(1, 'P' + i) + "rod" : known(id); j = c.flag() ? 0 : c.below(nums.size()); x.number = nums[j]; nums.erase(nums.begin() + j);
    x.variable = c.pick<std::string>({"Radiance", "Temperature", "Reflectance", "Albedo", "Radiance", "Temperature", "Radiance of the channel at the sensor", "Undefined", "Cloud Mask"}); x.units = c.pick<std::string>({"K", "%", "mW/m2/sr/cm-1", "W m-2"}); x.bpp = c.below(40); x.table = c.flag(); if (c.chance(1, 6)) { x.plain = true; x.variable = x.units = "Undefined"; x.bpp = 10; x.table = false; } x.nocal = c.chance(1, 8);
    for (auto& v : x.cal) { char b[40]; snprintf(b, sizeof b, c.flag() ? "%.5f" : "%.6e", c.real(-300, 300)); v = b; }
    std::string code = x.variable[0] == 'T' ? "T" : x.variable[0] == 'R' ? "R" : "U"; int top = 1 << s.bpp; double a = c.real(-2, 2), b = c.real(0, 300); int some = c.below(4), base = c.below(top); // all the counts, or some
    if (!x.nocal) for (int v = 0; v < top; ++v) if (s.bpp <= 8 ? some < 3 || v % 3 : v - base >= 0 && v - base < 200) x.values[v] = strtof(std::string(Str() << a * v + b).c_str(), nullptr);
    if (!x.nocal && c.chance(1, 4)) for (int v : {top, top + 1, -1}) x.values[v] = 7; // counts that samples cannot have
    uint64_t seed = c.ubits(30); for (int p = 0; p < s.pixels * s.lines; ++p) x.raw.push_back(mix(seed * 1000003 + p) & (top - 1)); s.ch.push_back(x);
  }
  return s;
}
inline int code(const Chan& x) { for (int i = 0; i < 12; ++i) if (x.name == known(i)) return i + 1; return 0; }
// the letter of the table of calibrated values; channels without one of their own (HRV, products) have both of those of radiances
inline std::string letters(const Chan& x) { if (x.variable[0] == 'T') return "T"; if (x.variable[0] != 'R') return "U"; int k = code(x); return k == 0 || k == 12 ? "VN" : k <= 3 ? "V" : "N"; }
inline std::string entry(int style, const std::string& k, const std::string& v) {
  std::string key = k; if (style & 1) for (auto& q : key) q = toupper(q); std::string eq = style & 2 ? " = " : "="; bool quote = style & 4 && v.find('"') == std::string::npos; return (style & 8 ? "  " : "") + key + eq + (quote ? "\"" + v + "\"" : v) + (style & 16 ? "  ; note" : "") + "\n"; }
inline std::string texts(const Source& s, const std::map<std::string, std::string>& m) { std::string r = s.style & 16 ? "# DB1\n\n" : "", sec; for (auto& p : m) { size_t k = p.first.find(':'); std::string n = p.first.substr(0, k); if (n != sec) { sec = n; r += "[" + sec + "]\n"; } r += entry(s.style, p.first.substr(k + 1), p.second); } return r; }
inline std::map<std::string, std::string> infomap(const Source& s) { auto m = s.info; for (auto& x : s.ch) { if (x.noinfo) continue; std::string p = Str() << "Channel" << x.number << ":"; m[p + "Name"] = x.name; if (x.plain) continue; m[p + "Variable"] = x.variable; m[p + "Units"] = x.units; m[p + "BitsPerPixel"] = std::to_string(x.bpp); m[p + "Table"] = x.table ? "Yes" : "No"; } return m; }
inline void save(const Source& s, const std::string& d) {
  mkdir(d.c_str(), 0700); if (!s.noaoi) xg::save(d + "/AoI", texts(s, s.aoi)); xg::save(d + "/INFO.DBI", texts(s, infomap(s)));
  for (auto& x : s.ch) {
    xg::save(d + "/" + x.name + ".RAW", std::string((const char*)x.raw.data(), x.raw.size() * 2)); if (x.nocal) continue;
    std::map<std::string, std::string> m; const char* k[] = {"Slope", "TargetCount", "Vc", "A", "B"}; for (int i = 0; i < 5; ++i) m[std::string("Calibration:") + k[i]] = x.cal[i];
    std::string r = texts(s, m) + "[" + x.variable + "]\n"; for (char l : letters(x)) for (auto& v : x.values) { char b[40]; snprintf(b, sizeof b, "%.9g", v.second); r += entry(s.style & 3, std::string(1, l) + "(" + std::to_string(v.first) + ")", b); }
    xg::save(d + "/" + x.name + ".Calibration", r); }
}
inline std::string text(const Source& s) { Str r; r << s.pixels << "x" << s.lines << " " << s.bpp << " bits" << (s.ns ? " N-S" : "") << (s.noaoi ? " no AoI" : "") << " style " << s.style; for (auto& x : s.ch) r << ", " << x.number << " " << x.name << " " << x.variable << (x.nocal ? " uncalibrated" : ""); return r; }
}
