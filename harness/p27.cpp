// P27: images in the OpenMTP format
#include <cmath>
#include "openmtpgen.h"
#include "xritgen.h"
#include "tool.h"
#include <filesystem>
#include <netcdf.h>
#include "ncfile.h"
using pbt::Str;
struct Quiet { std::streambuf *o, *e; Quiet() : o(std::cout.rdbuf(nullptr)), e(std::cerr.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); } };
static bool same(double a, double b) { return a == b || fabs(a - b) <= 1e-6 * std::max(fabs(a), fabs(b)); }
static std::string line(const std::string& b) { return b.c_str(); }

static void accessors(pbt::Ctx& c, omg::File& o, OpenMTP_binary_header& h) {
  for (auto& x : o.f) if (x.get) { auto w = o.values(x), g = x.get(h); for (int k = 0; k < x.count; ++k) if (w[k] != g[k]) c.fail(Str() << x.label << " " << k << " is " << g[k] << " instead of " << w[k]); }
  std::string b = o.seen(); auto str = [&](const char* l) { auto& x = o.at(l); return line(b.substr(x.at, x.count)); };
  PBT_CHECK(c, h.field_name() == str("Product Type") && h.satellite_name() == str("Satellite Name") && h.rectification_method_name() == str("Rtmet") && h.phenomena_index() == str("Idx"), "texts");
  PBT_CHECK(c, !memcmp(h.missing_line_table(), b.data() + o.at("Mlt1").at, 2500) && !memcmp(h.missing_line_table_VISn(), b.data() + o.at("Mlt2").at, 2500), "missing lines");
  for (int k = 0; k < 2500; ++k) if (h.is_line_present(k) != (b[o.at("Mlt1").at + k] != 0) || h.is_line_present_VISn(k) != (b[o.at("Mlt2").at + k] != 0)) c.fail(Str() << "presence of line " << k);
  PBT_CHECK(c, same(h.mpef_calibration_coefficient(), omg::digits(o.cal, .1)) && same(h.mpef_calibration_space_count(), omg::digits(o.space, 10)) && h.mpef_calibration_day() == lround(omg::digits(o.cday, 100)) && h.mpef_calibration_slot() == lround(omg::digits(o.cslot, 10)), "calibration " << h.mpef_calibration_coefficient() << " " << h.mpef_calibration_space_count() << " " << h.mpef_calibration_day() << " " << h.mpef_calibration_slot());
  auto num = [&](const char* l) { return (int)o.values(o.at(l))[0]; };
  auto code = [&](const char* what, int v, std::initializer_list<bool> is) { int k = 0; for (bool x : is) { if (x != (v == k)) c.fail(Str() << what << " " << v << " taken for " << k); ++k; } };
  code("slot", num("Slot"), {h.is_no_data_slot(), h.is_normal_slot(), h.is_special_slot()}); code("processing", o.proc, {h.is_raw_data(), h.is_ir_processed(), h.is_vis_processed(), h.is_wv_processed(), o.proc == 4, h.is_rectified_to_next_neighbour()}); PBT_CHECK(c, h.is_rectified() == o.rectified(), "rectified");
  code("channel", o.chan, {h.is_no_data(), h.is_VISs_data(), h.is_VISn_data(), h.is_visible_composite(), h.is_ir1_data(), h.is_ir2_data(), h.is_wv1_data(), h.is_wv2_data()}); PBT_CHECK(c, h.is_vis_data() == (o.chan >= 1 && o.chan <= 3) && h.is_ir_data() == (o.chan == 4 || o.chan == 5) && h.is_wv_data() == (o.chan == 6 || o.chan == 7), "kind of channel " << o.chan);
  code("deformation", num("Dmmod"), {h.is_deformation_none(), h.is_deformation_batch(), h.is_deformation_realtime()}); code("resampling", num("Rsmet"), {h.is_resampling_none(), h.is_resampling_nearest_neighbour(), h.is_resampling_splines_4x4()}); code("origin", num("Origin"), {h.is_south_east(), h.is_north_east(), h.is_north_west(), h.is_south_west()});
  code("quality", num("Imgqua"), {h.is_image_quality_nominal(), h.is_image_attitude_unknown(), h.is_image_orbit_unknown(), h.is_image_horizon_incomplete(), h.is_image_deformation_not_calculated(), h.is_image_RADOPOS_LID_inconsistent(), h.is_image_HR_not_interpreted()});
  code("unrectified processing", num("Imp"), {h.is_urect_raw_data(), h.is_urect_preprocessed_data()}); code("special output", num("Spr"), {(bool)h.is_urect_special_output_no_data(), (bool)h.is_urect_special_output_VISs_IR_WV(), (bool)h.is_urect_special_output_VISn(), (bool)h.is_urect_special_output_VISs_VISn()});
  auto st = o.values(o.at("Status")); bool ok[] = {h.is_urec_horizon_analysis_ok(), h.is_urec_spin_speed_fit_ok(), h.is_urec_orbit_offset_vector_fit_ok(), h.is_urec_pixel_resampling_rate_fit_ok(), h.is_urec_attitude_refinement_ok(), h.is_urec_automatic_landmark_ok(), h.is_urec_actual_image_movement_fit_ok(), h.is_urec_calculation_of_deformation_ok(), h.is_urec_geometrical_LPEF_ok(), h.is_urec_rectification_segmentation_ok(), h.is_urec_amplitude_processing_ok()};
  for (int k = 0; k < 11; ++k) PBT_CHECK(c, ok[k] == (st[k] != 0), "status " << k);
}
// What is printed: one line for each value, in the order of the fields
static void printed(pbt::Ctx& c, omg::File& o, const std::string& out, size_t start) {
  std::string b = o.seen(); size_t p = start;
  auto next = [&](const std::string& label) { size_t e = out.find('\n', p); if (e == std::string::npos) c.fail("nothing is printed for " + label); std::string l = out.substr(p, e - p); p = e + 1; size_t t = l.find_last_of('\t'); if (l.compare(0, label.size(), label) || t == std::string::npos) c.fail("the line \"" + l.substr(0, 60) + "\" is printed instead of " + label); return l.substr(t + 1); };
  auto number = [&](const std::string& label, double w) { std::string v = next(label); char* e; double g = strtod(v.c_str(), &e); if (*e || v.empty() || fabs(g - w) > 1e-5 * fabs(w)) c.fail(Str() << label << " is printed as " << v << " instead of " << w); };
  for (auto& x : o.f) {
    if (x.kind == '-') continue; std::string l = x.label; if (x.at >= omg::S1 && x.at < omg::S1 + omg::S2 && o.rectified()) continue; if (x.at >= omg::S1 + omg::S2 + omg::S3 && !o.composite()) continue;
    if (l == "-cal") number("CalC0", omg::digits(o.cal, .1)); else if (l == "-space") { std::string v = next("Space"); double w = omg::digits(o.space, 10); PBT_CHECK(c, fabs(atof(v.c_str()) - w) <= 1e-5 * w, "space count " << v); } else if (l == "-slot") { std::string v = next("Calctim"), w = Str() << "Day " << lround(omg::digits(o.cday, 100)) << " Slot " << lround(omg::digits(o.cslot, 10)); PBT_CHECK(c, v == w, "calibrated on " << v << " instead of " << w); } else if (l[0] == '-') continue;
    else if (x.kind == 's') { std::string v = next(l), w = line(b.substr(x.at, x.count)); PBT_CHECK(c, v == w, l << " is printed as " << v << " instead of " << w); }
    else { auto w = o.values(x); for (int k = 0; k < x.count; ++k) { std::string n = l; if (l == "Earco" || l == "Horlim") n = Str() << l << " (" << k / 3 + 1 << "," << k % 3 + 1 << ")"; else if (l == "Defmax" || l == "Defmay") n = Str() << l << " (" << k / 105 + 1 << "," << k % 105 + 1 << ")"; else if (l == "Hortim") n = k ? "Hortim North" : "Hortim South"; else if (x.count > 1) n = Str() << l << " " << k; number(n + "\t", w[k]); } }
  }
  for (int y = 0; y < o.lines; ++y) for (int q = 0; q < o.pixels; ++q) { double w = omg::calibration(o, o.px(y, q)); std::string n = Str() << "Pixel (" << y << "," << q << ")\t"; if (w != w) next(n); else { std::string v = next(n); if (fabs(atof(v.c_str()) - w) > 3e-4 * fabs(w) + 1e-6) c.fail(Str() << n << " is printed as " << v << " instead of " << w); } }
  PBT_CHECK(c, p == out.size(), "more is printed: " << out.substr(p, 60));
}
static void verify(pbt::Ctx& c, omg::File& o, OpenMTP& m) {
  PBT_CHECK(c, m.nlines() == o.lines && m.npixels() == o.pixels && m.bits_per_pixel() == 8, "size " << m.npixels() << "x" << m.nlines());
  unsigned char* d = m.get_image(); for (int y = 0; y < o.lines; ++y) for (int x = 0; x < o.pixels; ++x) if (d[(size_t)y * o.pixels + x] != o.px(y, x)) c.fail(Str() << "sample " << x << "," << y << " is " << (int)d[(size_t)y * o.pixels + x] << " instead of " << (int)o.px(y, x));
  float* g = m.get_calibration(); for (int i = 0; i < 256; ++i) { double w = omg::calibration(o, i); if (w != w) continue; PBT_CHECK(c, fabs(g[i] - w) <= 3e-4 * fabs(w) + 1e-6, "count " << i << " is " << g[i] << " instead of " << w); }
  struct tm t = m.get_datetime(); PBT_CHECK(c, t.tm_year + 1900 == o.year && t.tm_mon + 1 == o.mon && t.tm_mday == o.day && t.tm_hour == o.hour && t.tm_min == o.min, "time " << t.tm_year + 1900 << "-" << t.tm_mon + 1 << "-" << t.tm_mday << " " << t.tm_hour << ":" << t.tm_min);
  char w[40]; snprintf(w, sizeof w, "%04d%02d%02d_%02d%02d", o.year, o.mon, o.day, o.hour, o.min); PBT_CHECK(c, std::string(m.get_timestr()) == w, "time " << m.get_timestr()); snprintf(w, sizeof w, "%04d-%02d-%02d %02d:%02d:00", o.year, o.mon, o.day, o.hour, o.min); PBT_CHECK(c, std::string(m.get_datatimestr()).substr(0, 19) == w, "time " << m.get_datatimestr());
  PBT_CHECK(c, std::string(m.get_satellite_code()) == o.sat, "satellite " << m.get_satellite_code()); { std::string n; try { n = m.get_satellite_name(); } catch (std::exception&) { n = "none"; } PBT_CHECK(c, n == (o.sat == "M7" ? "METEOSAT 7" : o.sat == "M6" ? "METEOSAT 6" : "none"), "satellite " << o.sat << " is called " << n); }
  std::string ch = o.chan <= 3 ? "VIS" : o.chan <= 5 ? "IR" : "WV"; PBT_CHECK(c, m.get_chname() == ch && std::string(m.get_chunit()) == (o.chan <= 3 ? "%" : "K"), "channel " << m.get_chname() << " in " << m.get_chunit()); PBT_CHECK(c, m.is_vis_data() == (ch == "VIS") && m.is_ir_data() == (ch == "IR") && m.is_wv_data() == (ch == "WV"), "kind of channel");
  PBT_CHECK(c, std::string(m.get_field_name()) == o.field.c_str() + 1, "field " << m.get_field_name()); PBT_CHECK(c, m.subsatellite_point() == (float)o.values(o.at("Ssp"))[0] && m.orbit_radius() == 42164.f, "position");
  bool a = omg::aformat(o), b = omg::bformat(o); PBT_CHECK(c, m.is_A_format() == a && m.is_B_format() == b && m.is_subwindow() == (!a && !b), "format A " << m.is_A_format() << " B " << m.is_B_format() << " subwindow " << m.is_subwindow());
  if (a) c.label("A format"); if (b) c.label("B format");
}
static bool readit(OpenMTP& m, const std::string& f) { Quiet q; try { m.open((char*)f.c_str()); return true; } catch (std::exception&) { return false; } }

PBT_SUB("headers", 120, 3000) {
  c.dir(); omg::File o = omg::gen(c); c.nontrivial(); c.describe(omg::text(o)); c.label(Str() << (o.composite() ? "composite " : "") << (o.rectified() ? "rectified" : "unrectified"));
  bool cut = c.chance(1, 6); std::string b = o.header(); if (cut) { b.resize(c.chance(1, 2) ? c.below(b.size()) : c.pick<size_t>({0, omg::S1 - 1, omg::S1, omg::S1 + omg::S2 - 1, omg::S1 + omg::S2, b.size() - 1})); }
  xg::save("header", b); OpenMTP_binary_header h; if (c.flag()) { omg::File p = omg::gen(c); xg::save("other", p.header()); std::ifstream i("other", std::ios::binary); h.read(i); } // read again with the same object
  std::ifstream i("header", std::ios::binary); bool r = true; try { h.read(i); } catch (std::exception&) { r = false; } PBT_CHECK(c, r == !cut, (cut ? "a cut header of " : "a header of ") << b.size() << " bytes is " << (r ? "read" : "refused")); if (cut) return;
  accessors(c, o, h); o.lines = 0; std::ostringstream s; s << h; printed(c, o, s.str(), 0);
}
PBT_SUB("numbers", 3000, 60000) {
  c.nontrivial(); OpenMTP_machine m; auto r = c.bytes(16); unsigned char buf[17]; int k = c.below(8); memcpy(buf + 1, r.data(), 16); std::string b((char*)buf, 17); unsigned char* p = buf + 1 + k; auto at = 1 + k; c.describe(Str() << "bytes " << std::hex << omg::be(b, at, 8));
  PBT_CHECK(c, m.int2(p) == (int16_t)omg::be(b, at, 2) && m.int4(p) == (int32_t)omg::be(b, at, 4), "integers"); uint32_t u = omg::be(b, at, 4); uint64_t v = omg::be(b, at, 8); float f = m.float4(p); double d = m.float8(p); uint32_t fu; uint64_t du; memcpy(&fu, &f, 4); memcpy(&du, &d, 8); PBT_CHECK(c, (fu == u || f != f) && (du == v || d != d), "floating point numbers");
  std::string s = c.chars(5, "0123456789 "); p = (unsigned char*)s.data(); PBT_CHECK(c, same(m.r4_from_char5(p), omg::digits(s, .1)) && same(m.r4_from_char3(p), omg::digits(s.substr(0, 3), 10)) && m.int4_from_char3(p) == lround(omg::digits(s.substr(0, 3), 100)) && m.int4_from_char2(p) == lround(omg::digits(s.substr(0, 2), 10)), "digits " << s);
}
PBT_SUB("lines", 500, 10000) {
  c.dir(); c.nontrivial(); int n = c.chance(1, 4) ? c.pick({0, 1, 4999, 5000}) : (int)c.below(300), k = 1 + c.below(4); uint64_t seed = c.ubits(40); std::string b; for (int i = 0; i < k * (n + 32); ++i) b += (char)omg::mix(seed + i); bool cut = c.chance(1, 4); c.describe(Str() << k << " lines of " << n << (cut ? " cut" : "")); xg::save("lines", cut ? b.substr(0, b.size() - 1 - c.below(n + 32)) : b);
  std::ifstream i("lines", std::ios::binary); OpenMTP_image_line l; for (int y = 0; y < k; ++y) { bool r = true; try { l.read(i, n); } catch (std::exception&) { r = false; } PBT_CHECK(c, r == !(cut && y == k - 1), "line " << y << (r ? " is read" : " is not read")); if (!r) break; int at = y * (n + 32);
    PBT_CHECK(c, l.slot_number() == (int32_t)omg::be(b, at, 4) && l.line_number() == (int32_t)omg::be(b, at + 4, 4) && l.errps() == (int16_t)omg::be(b, at + 8, 2) && l.radpos() == (int16_t)omg::be(b, at + 10, 2) && l.radpos_start() == (int16_t)omg::be(b, at + 30, 2) && !memcmp(l.linevals(), b.data() + at + 32, n), "line " << y); }
}
PBT_SUB("images", 60, 1500) {
  c.dir(); omg::File o = omg::gen(c, c.chance(1, 3)); c.nontrivial(); c.describe(omg::text(o)); xg::save("x", o.bytes()); OpenMTP m; PBT_CHECK(c, readit(m, "x"), "the file is not read"); verify(c, o, m);
  if ((size_t)o.lines * o.pixels < 5000) { std::ostringstream s; s << m; PBT_CHECK(c, s.str().substr(0, omg::ASCII) == o.ascii, "the text header is printed differently"); printed(c, o, s.str(), omg::ASCII); }
}
PBT_SUB("histories", 25, 600) {
  c.dir(); c.nontrivial(); OpenMTP m; for (int n = 2 + c.below(4); n > 0; --n) {
    omg::File o = omg::gen(c, c.chance(1, 12)); std::string b = o.bytes(); bool cut = c.chance(1, 3); if (cut) b.resize(c.chance(1, 2) || !o.lines || !o.pixels ? (o.lines ? c.below(b.size()) : c.below(o.header().size())) : b.size() - 1 - c.below(o.pixels)); c.describe(Str() << omg::text(o) << (cut ? " cut" : "") << "; "); xg::save("x", b);
    bool r = readit(m, "x"); PBT_CHECK(c, r == !cut, (cut ? "a cut file is read" : "a whole file is refused")); if (r) verify(c, o, m); }
}
PBT_SUB("damaged files", 150, 5000) {
  c.dir(); c.nontrivial(); omg::File o = omg::gen(c); std::string what; bool must = false; std::string b = o.bytes();
  auto field = [&](const char* l, int v) { omg::put(b, omg::ASCII + o.at(l).at, (uint32_t)v, 4); what += Str() << " " << l << "=" << v; };
  switch (c.below(7)) {
    case 0: { int v = c.pick({5001, 5032, 6000, 1000000, 2147483647, -1, -32, -33, (int)0x80000000}); field("Npixels", v); must = true; break; }
    case 1: { int v = c.pick({-1, (int)0x80000000, -100000, 100000, 1000000000, 2147483647}); field("Nlines", v); must = true; break; }
    case 2: field("Nlines", c.pick({65536, 46341, 1 << 20, 1 << 30})); field("Npixels", c.pick({4096, 5000, 1, 2048})); must = true; break;
    case 3: field("-Chan", c.pick({0, 8, -1, 100})); break;
    case 4: for (const char* l : {"Year", "Date", "Time"}) if (c.flag()) field(l, c.pick({0, -1, 2147483647, (int)0x80000000, 99999999, 10000})); break;
    case 5: for (int n = 1 + c.below(8); n > 0; --n) b[omg::ASCII + c.below(160)] = (char)c.below(256); what = " bytes"; break;
    default: unlink("x"); what = " missing"; must = true; break; }
  if (what != " missing") xg::save("x", b);
  c.describe(omg::text(o) + what); OpenMTP m; bool r = readit(m, "x"); if (must) PBT_CHECK(c, !r, "it is read");
  if (r) { Quiet q; try { m.get_datetime(); m.get_timestr(); m.get_datatimestr(); m.get_field_name(); m.get_satellite_code(); m.is_subwindow(); m.get_chname(); m.get_chunit(); m.get_satellite_name(); } catch (std::exception&) {} }
  std::string tool = c.flag() ? "OpenMTP_info" : "OpenMTP_to_NetCDF"; if (c.chance(1, 2)) { ToolRun t = runtool(tool, {"x"}); if (t.crashed) c.fail(tool + " " + why(t)); if (must) PBT_CHECK(c, t.status != 0, tool << " succeeds"); }
}
PBT_SUB("OpenMTP_info", 25, 600) {
  c.dir(); c.nontrivial(); omg::File o = omg::gen(c); if ((size_t)o.lines * o.pixels > 4000) { o.lines = c.below(3); o.i("Nlines", o.lines); } std::string b = o.bytes(); bool cut = c.chance(1, 4); if (cut) b.resize(o.lines ? c.below(b.size()) : c.below(o.header().size())); xg::save("x", b); c.describe(omg::text(o) + (cut ? " cut" : ""));
  ToolRun r = runtool("OpenMTP_info", {"x"}); if (r.crashed) c.fail("OpenMTP_info " + why(r)); PBT_CHECK(c, (r.status == 0) == !cut, "exit status " << r.status << ": " << why(r)); if (cut) return;
  size_t p = r.out.find(o.ascii); PBT_CHECK(c, p != std::string::npos, "the text header is not printed"); printed(c, o, r.out, p + o.ascii.size());
}
PBT_SUB("OpenMTP_to_NetCDF", 40, 1000) {
  c.dir(); c.nontrivial(); omg::File o = omg::gen(c, !c.chance(1, 10)); std::string tz = anytz(c); c.describe(omg::text(o) + " TZ=" + tz); std::string b = o.bytes(); bool cut = c.chance(1, 6); if (cut) b.resize(o.lines ? c.below(b.size()) : c.below(o.header().size())); xg::save("x", b); b.clear();
  bool a = omg::aformat(o), bf = omg::bformat(o), fine = !cut && (a || bf) && (o.sat == "M7" || o.sat == "M6"); ToolRun r = runtool("OpenMTP_to_NetCDF", {"x"}); utc(); if (r.crashed) c.fail("OpenMTP_to_NetCDF " + why(r)); PBT_CHECK(c, (r.status == 0) == fine, "exit status " << r.status << ": " << why(r)); if (!fine) return; c.label(a ? "A format" : "B format");
  char t[40], when[40]; snprintf(t, sizeof t, "_%04d%02d%02d_%02d%02d.nc", o.year, o.mon, o.day, o.hour, o.min); snprintf(when, sizeof when, "%04d-%02d-%02d %02d:%02d:00", o.year, o.mon, o.day, o.hour, o.min); std::string ch = o.chan <= 3 ? "VIS" : o.chan <= 5 ? "IR" : "WV";
  Nc n(c, o.sat + "_" + (o.field.c_str() + 1) + t); int v = n.var(ch.c_str()); auto px = n.values(v); PBT_CHECK(c, n.dim("line") == (size_t)o.lines && n.dim("column") == (size_t)o.pixels && n.dim("time") == 1 && n.dim("calibration") == 256 && px.size() == (size_t)o.lines * o.pixels, "size");
  for (int y = 0; y < o.lines; ++y) for (int x = 0; x < o.pixels; ++x) if ((uint8_t)(int8_t)px[(size_t)y * o.pixels + x] != o.px(y, x)) c.fail(Str() << "sample " << x << "," << y << " is " << px[(size_t)y * o.pixels + x] << " instead of " << (int)o.px(y, x));
  PBT_CHECK(c, n.text("Satellite") == (o.sat == "M7" ? "METEOSAT 7" : "METEOSAT 6") && n.text("Time") == std::string(when) + " UTC" && n.text("Area_Name") == (a ? "AFormat" : "BFormat") && n.num("Longitude") == o.values(o.at("Ssp"))[0], "attributes"); auto tv = n.values(n.var("time")); PBT_CHECK(c, tv.size() == 1 && tv[0] == since2000(when), "the time coordinate is " << tv[0] << " instead of " << since2000(when));
  int k = bf ? 2 : 1; PBT_CHECK(c, n.num("Columns") == o.pixels * k && n.num("Lines") == o.lines * k && n.num("SampleX") == k && n.num("SampleY") == k, "columns and lines"); double fac = a && o.chan > 3 ? -9102222 : -18204444, co = a && o.chan <= 3 ? 2500 : 1248, lo = bf ? -1118 : o.chan <= 3 ? 2500 : 1249; PBT_CHECK(c, n.num("Column_Scale_Factor") == fac && n.num("Line_Scale_Factor") == fac && n.num("Column_Offset") == co && n.num("Line_Offset") == lo, "geolocation");
  int cv = n.var("calibration"); auto g = n.values(cv); PBT_CHECK(c, n.text("units", cv) == (o.chan <= 3 ? "%" : "K") && n.text("variable", cv) == ch && n.num("add_offset", v) == 0 && n.num("scale_factor", v) == 1, "units"); for (int i = 0; i < 256; ++i) { double w = omg::calibration(o, i); if (w == w) PBT_CHECK(c, fabs(g[i] - w) <= 3e-4 * fabs(w) + 1e-6, "count " << i << " is " << g[i] << " instead of " << w); }
}
PBT_SUB("OpenMTP_to_NetCDF, impossible dates", 12, 300) {
  c.dir(); c.nontrivial(); omg::File o = omg::gen(c); o.chan = c.range(4, 7); o.lines = 625; o.pixels = 1250; o.line1 = 1810; o.sat = c.pick<std::string>({"M7", "M6"}); o.s("Satellite Name", o.sat); o.i("-Chan", o.chan); o.i("Nlines", 625); o.i("Npixels", 1250); o.i("Line1", 1810);
  std::string d; for (const char* l : {"Year", "Date", "Time"}) if (c.chance(3, 4)) { int v = c.pick({0, -1, 2147483647, (int)0x80000000, -2147480000, 99999999, -12345}); o.i(l, v); d += Str() << " " << l << "=" << v; } c.describe(omg::text(o) + d); xg::save("x", o.bytes()); ToolRun r = runtool("OpenMTP_to_NetCDF", {"x"}); if (r.crashed) c.fail("OpenMTP_to_NetCDF " + why(r));
}
PBT_MAIN("P27", "an OpenMTP file with generated values in every field and samples, read with the library or the tools and compared with a table of the format, or damaged and refused")
