// OpenMTP files, laid out field after field as in the format guide (EUM-FG-1)
#pragma once
#include "pbt.h"
#include <functional>
#include <msat/openmtp/OpenMTP.h>
namespace omg {
using H = OpenMTP_binary_header; using V = std::vector<double>;
// kind: i 32 bits, h 16 bits, f float, d double, s text, b bytes; - nothing that is read
struct Field { char kind; int count; const char* label; std::function<V(H&)> get; int at = 0;
  int size() const { return count * (kind == 'i' || kind == 'f' ? 4 : kind == 'h' ? 2 : kind == 'd' ? 8 : 1); } };
#define OM1(m) [](H& h) { return V{(double)h.m()}; }
#define OMN(m, n) [](H& h) { auto* p = h.m(); return V(p, p + n); }
inline std::vector<Field> layout() {
  std::vector<Field> f{
    {'s', 8, "Product Type", nullptr}, {'i', 1, "Year", OM1(year)}, {'i', 1, "Jday", OM1(jday)}, {'i', 1, "Slot", OM1(slot)}, {'i', 1, "Dtype", OM1(dtype)}, {'i', 1, "Date", OM1(date)}, {'i', 1, "Time", OM1(time)}, {'s', 2, "Satellite Name", nullptr}, {'-', 2, "", nullptr},
    {'i', 1, "Proc", OM1(proc)}, {'i', 1, "-Chan", OM1(chan)}, {'s', 5, "-cal", nullptr}, {'s', 3, "-space", nullptr}, {'s', 3, "-day", nullptr}, {'s', 2, "-slot", nullptr}, {'-', 3, "", nullptr},
    {'i', 1, "Rec2siz", OM1(header_2_record_size)}, {'i', 1, "Lrecsize", OM1(image_line_record_size)}, {'i', 1, "Loffset", OM1(offset_first_pixel_in_line)}, {'s', 15, "Rtmet", nullptr}, {'i', 1, "Dmmod", OM1(deformation_model)}, {'i', 1, "Rsmet", OM1(resampling_method)}, {'f', 1, "Ssp", OM1(subsatellite_point)}, {'-', 12, "", nullptr},
    {'i', 1, "Origin", OM1(origin)}, {'s', 8, "Idx", nullptr}, {'i', 1, "Line1", OM1(first_line)}, {'i', 1, "Pixel1", OM1(first_pixel)}, {'i', 1, "Nlines", OM1(nlines)}, {'i', 1, "Npixels", OM1(npixels)}, {'-', 16, "", nullptr}, {'s', 2500, "Mlt1", nullptr}, {'s', 2500, "Mlt2", nullptr}, {'i', 1, "Imgqua", OM1(image_quality)}, {'-', 16, "", nullptr},
    // second section
    {'i', 1, "Int", OM1(urect_nominal_end_time)}, {'i', 1, "Imp", OM1(urect_processing_performed)}, {'i', 1, "Spr", OM1(urect_special_output)}, {'i', 1, "Rpr", OM1(urect_radiometer_refpos)}, {'i', 1, "Lre", OM1(urect_refpos_line_number)}, {'h', 1, "Lb0", OM1(urect_scanning_law)}, {'h', 1, "Nsi", OM1(urect_number_of_received_subimage)},
    {'h', 20, "Fls", OMN(urect_first_line_in_subimage, 20)}, {'h', 20, "Nsl", OMN(urect_nlines_in_subimage, 20)}, {'h', 20, "Rdpsim", OMN(urect_curr_decoded_rad_pos_of_first_line_in_subimage, 20)}, {'i', 256, "Hist1", OMN(urect_raw_image_histogram, 256)}, {'i', 256, "Hist2", OMN(urect_raw_image_histogram_VISn, 256)},
    {'d', 1, "Timef", OM1(urec_start_image)}, {'d', 1, "Timel", OM1(urec_end_image)}, {'d', 6, "Orbf", OMN(urec_orbit_coord_in_geoframe_start, 6)}, {'d', 6, "Orbl", OMN(urec_orbit_coord_in_geoframe_end, 6)}, {'f', 3, "Attf", OMN(urec_cartesian_attitude_start, 3)}, {'f', 3, "Attl", OMN(urec_cartesian_attitude_end, 3)}, {'h', 12, "Earco", OMN(urec_horizon_information, 12)},
    {'d', 1, "Htime", OM1(urec_time_of_first_pixel)}, {'-', 24, "", nullptr}, {'b', 16, "Status", OMN(urec_status_flags, 16)}, {'h', 1, "Irchan", OM1(urec_ir_channel_in_use)}, {'h', 1, "Lstart", OM1(urec_radiometer_step_offset_start)}, {'h', 12, "Horlim", OMN(urec_horizon_limit_information, 12)}, {'d', 2, "Hortim", OMN(urec_times_of_horizon_scan_lines, 2)},
    {'h', 1, "Ls", OM1(urec_radiometer_step_south)}, {'h', 1, "Ln", OM1(urec_radiometer_step_north)}, {'f', 1, "Rmid", OM1(urec_rmid)}, {'d', 1, "Tmid", OM1(urec_tmid)}, {'d', 1, "Distan", OM1(urec_distance_es)}, {'d', 1, "Betaso", OM1(urec_cone_angle_beta_south_obs)}, {'d', 1, "Betano", OM1(urec_cone_angle_beta_north_obs)}, {'d', 1, "Betase", OM1(urec_cone_angle_beta_south_exp)}, {'d', 1, "Betane", OM1(urec_cone_angle_beta_north_exp)},
    {'d', 1, "Etas", OM1(urec_etas)}, {'d', 1, "Etan", OM1(urec_etan)}, {'d', 1, "Betasn", OM1(urec_betasn)}, {'d', 1, "Betann", OM1(urec_betann)}, {'d', 1, "F0old", OM1(urec_step_parameter_F0_old)}, {'d', 1, "F1old", OM1(urec_step_parameter_F1_old)}, {'d', 1, "F0new", OM1(urec_step_parameter_F0_new)}, {'d', 1, "F1new", OM1(urec_step_parameter_F1_new)}, {'-', 16, "", nullptr},
    {'d', 1, "S0", OM1(urec_spin_deviation_fit_const)}, {'d', 1, "S1", OM1(urec_spin_deviation_fit_linear)}, {'d', 1, "S2", OM1(urec_spin_deviation_fit_quad)}, {'d', 1, "Sigmas", OM1(urec_standard_deviation_spin_fit)}, {'d', 1, "-Max", OM1(urec_maximum_deviation_spin_fit)}, {'-', 16, "", nullptr},
    // third section
    {'i', 1, "Ndgrp", OM1(ngridpoints_deformation_matrix)}, {'i', 1, "Dmstrt", OM1(grid_deformation_start)}, {'i', 1, "Dmend", OM1(grid_deformation_end)}, {'i', 1, "Dmstep", OM1(grid_deformation_step)}, {'f', 11025, "Defmax", OMN(deformation_matrix_x, 11025)}, {'f', 11025, "Defmay", OMN(deformation_matrix_y, 11025)}, {'i', 1, "Ncor", OM1(number_corrected_channels)},
    {'i', 1, "Chid1", OM1(chid_first_corrected)}, {'f', 3030, "Ewgeo1", OMN(line_geometric_correction_EW_1, 3030)}, {'f', 3030, "Nsgeo1", OMN(line_geometric_correction_NS_1, 3030)}, {'f', 3030, "Roff1", OMN(line_radiometric_correction_offset_1, 3030)}, {'f', 3030, "Rgain1", OMN(line_radiometric_correction_gain_1, 3030)},
    {'i', 1, "Chid2", OM1(chid_second_corrected)}, {'f', 3030, "Ewgeo2", OMN(line_geometric_correction_EW_2, 3030)}, {'f', 3030, "Nsgeo2", OMN(line_geometric_correction_NS_2, 3030)}, {'f', 3030, "Roff2", OMN(line_radiometric_correction_offset_2, 3030)}, {'f', 3030, "Rgain2", OMN(line_radiometric_correction_gain_2, 3030)},
  };
  int at = 0; for (auto& x : f) { x.at = at; at += x.size(); }
  return f;
}
enum { S1 = 5175, S2 = 2636, S3 = 136704, S3C = 185188, ASCII = 1345 };
inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ull; x = (x ^ x >> 27) * 0x94d049bb133111ebull; return x ^ x >> 31; }
inline uint64_t be(const std::string& b, int at, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (uint8_t)b[at + i]; return v; }
inline void put(std::string& b, int at, uint64_t v, int n) { for (int i = 0; i < n; ++i) b[at + i] = (char)(v >> 8 * (n - 1 - i)); }
struct File {
  std::vector<Field> f = layout(); std::string h = std::string(S1 + S2 + S3C, 0); std::string ascii; uint64_t seed = 0; int chan = 4, proc = 5, lines = 1, pixels = 1, line1 = 1, year = 2000, mon = 1, day = 1, hour = 0, min = 0; std::string sat = "M7", field, cal, space, cday, cslot;
  Field& at(const std::string& l) { for (auto& x : f) if (l == x.label) return x; throw std::runtime_error("harness: no field " + l); }
  void i(const std::string& l, int v) { put(h, at(l).at, (uint32_t)v, 4); } void s(const std::string& l, const std::string& v) { h.replace(at(l).at, v.size(), v); }
  bool composite() const { return chan == 3; } bool rectified() const { return proc > 3; }
  std::string header() const { return h.substr(0, S1 + S2 + (composite() ? S3C : S3)); }
  // the header as the reader shows it
  std::string seen() const { std::string b = header(); if (rectified()) for (int k = S1; k < S1 + S2; ++k) b[k] = 0; b.resize(S1 + S2 + S3C); return b; }
  uint8_t px(int y, int x) const { return (uint8_t)(mix(seed ^ ((uint64_t)y << 20 | (uint64_t)x)) >> 11); }
  std::string linehead(int y) const { std::string l(32, 0); for (int k = 0; k < 32; ++k) l[k] = (char)mix(seed * 7 + y * 64 + k); return l; }
  std::string bytes() const { std::string b = ascii + header(); b.reserve(b.size() + (size_t)lines * (pixels + 32)); for (int y = 0; y < lines; ++y) { b += linehead(y); for (int x = 0; x < pixels; ++x) b += (char)px(y, x); } return b; }
  V values(const Field& x) const { std::string b = seen(); V v; for (int k = 0; k < x.count; ++k) { switch (x.kind) {
    case 'i': v.push_back((int32_t)be(b, x.at + 4 * k, 4)); break; case 'h': v.push_back((int16_t)be(b, x.at + 2 * k, 2)); break; case 'b': v.push_back(b[x.at + k] != 0); break;
    case 'f': { uint32_t u = be(b, x.at + 4 * k, 4); float g; memcpy(&g, &u, 4); v.push_back(g); break; } case 'd': { uint64_t u = be(b, x.at + 8 * k, 8); double g; memcpy(&g, &u, 8); v.push_back(g); break; } } } return v; }
};
inline File gen(pbt::Ctx& c, int size = 0) { // size 0: small, 1: any format
  File o; o.seed = c.ubits(48); for (size_t k = 0; k < o.h.size(); ++k) o.h[k] = (char)mix(o.seed + k * 31);
  for (auto& x : o.f) { // numbers that can be printed, and text
    for (int k = 0; k < x.count; ++k) {
      if (x.kind == 'f') { uint32_t u = be(o.h, x.at + 4 * k, 4), e = 127 - 20 + (u >> 23 & 255) % 50; put(o.h, x.at + 4 * k, (u & 0x807fffff) | e << 23, 4); }
      if (x.kind == 'd') { uint64_t u = be(o.h, x.at + 8 * k, 8), e = 1023 - 60 + (u >> 52 & 2047) % 160; put(o.h, x.at + 8 * k, (u & 0x800fffffffffffffull) | e << 52, 8); }
      if (x.kind == 's') o.h[x.at + k] = (char)('!' + (uint8_t)o.h[x.at + k] % 94);
      if (x.kind == 'b' && (o.h[x.at + k] & 1)) o.h[x.at + k] = 0; } }
  for (const char* l : {"Slot", "Dmmod", "Rsmet", "Origin", "Imgqua", "Imp", "Spr"}) if (c.chance(3, 4)) o.i(l, c.below(8));
  for (const char* l : {"Mlt1", "Mlt2"}) for (int k = 0; k < 12; ++k) o.h[o.at(l).at + c.below(2500)] = (char)c.pick({0, 1, 48, 49, 255, 128});
  o.chan = c.pick({1, 2, 3, 4, 5, 6, 7}); o.proc = c.pick({0, 1, 2, 3, 3, 4, 5, 5}); o.sat = c.chance(2, 3) ? "M7" : c.pick<std::string>({"M6", "M5", "M0"});
  static const int L[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; o.year = c.range(1982, 2037); o.mon = c.range(1, 12); o.day = c.range(1, L[o.mon - 1] + (o.mon == 2 && o.year % 4 == 0)); o.hour = c.below(24); o.min = c.below(60); if (c.chance(1, 6)) { o.hour = c.pick({0, 23}); o.min = c.pick({0, 59}); }
  o.field = c.pick<std::string>({" OPENMTP", " FULL", "xIMG2TP"}); if (c.chance(1, 3)) o.field = " " + c.chars(7, "ABCXYZ0129-"); o.field.resize(8, 0);
  auto digits = [&](int n) { std::string d = c.chars(n, "0123456789"); if (c.chance(1, 6)) d[c.below(n)] = ' '; return d; }; o.cal = digits(5); o.space = digits(3); o.cday = digits(3); o.cslot = digits(2); if (c.chance(2, 3)) { o.cal[0] = '0'; o.space[0] = '0'; }
  o.lines = c.chance(1, 10) ? 0 : c.chance(1, 4) ? c.range(20, 90) : c.range(1, 12); o.pixels = c.chance(1, 10) ? 0 : c.chance(1, 8) ? c.pick({5000, 4999, 2500}) : c.range(1, 90); o.line1 = c.range(1, 2500); int px1 = c.range(1, 5000);
  if (size) switch (c.below(8)) {
    case 0: o.chan = c.range(4, 7); o.lines = o.pixels = 2500; o.line1 = 1; break;
    case 1: case 2: case 3: o.chan = c.range(4, 7); o.lines = 625; o.pixels = 1250; o.line1 = c.chance(1, 3) ? 1809 + 2 * (int)c.below(2) : 1810; break;
    case 4: case 5: o.chan = 3; o.lines = 1250; o.pixels = 2500; o.line1 = c.chance(1, 3) ? 1810 : 3620; break;
    case 6: o.chan = c.range(1, 7); o.lines = c.pick({625, 1250}); o.pixels = o.lines * 2; o.line1 = c.pick({1810, 3620}); break;
    default: if (c.chance(1, 4)) { o.chan = c.chance(3, 4) ? 3 : 1 + (int)c.below(2); o.lines = o.pixels = 5000; } }
  o.s("Product Type", o.field); o.i("Year", o.year); int y = c.flag() ? o.year : o.year % 100; o.i("Date", y * 10000 + o.mon * 100 + o.day); o.i("Time", o.hour * 100 + o.min); o.s("Satellite Name", o.sat); o.i("Proc", o.proc); o.i("-Chan", o.chan); o.s("-cal", o.cal); o.s("-space", o.space); o.s("-day", o.cday); o.s("-slot", o.cslot); o.i("Line1", o.line1); o.i("Pixel1", px1); o.i("Nlines", o.lines); o.i("Npixels", o.pixels);
  o.ascii.resize(ASCII); for (int k = 0; k < ASCII; ++k) o.ascii[k] = k % 80 == 79 ? '\n' : (char)('!' + mix(o.seed * 3 + k) % 94);
  return o;
}
inline std::string text(const File& o) { return pbt::Str() << o.sat << " channel " << o.chan << " processing " << o.proc << ", " << o.pixels << "x" << o.lines << " first line " << o.line1 << ", " << o.year << "-" << o.mon << "-" << o.day << " " << o.hour << ":" << o.min << ", calibration " << o.cal << " " << o.space; }
inline bool aformat(const File& o) { return o.chan >= 4 ? o.lines == 2500 && o.pixels == 2500 : o.chan == 3 && o.lines == 5000 && o.pixels == 5000; }
inline bool bformat(const File& o) { return o.chan >= 4 ? o.lines == 625 && o.pixels == 1250 && o.line1 == 1810 : o.chan == 3 && o.lines == 1250 && o.pixels == 2500 && o.line1 == 3620; }
inline double digits(const std::string& s, double first) { double v = 0; for (char ch : s) { if (ch != ' ') v += (ch - '0') * first; first /= 10; } return v; }
inline double calibration(const File& o, int i) { // NaN: not tested
  if (o.sat != "M7") return 1; double cc = digits(o.cal, .1), sc = digits(o.space, 10), x = i < sc ? 0 : cc * (i - sc); if (o.chan <= 3) return i * 100 / 255.;
  if (x <= 0) { return i < sc - 1e-4 ? 0 : i > sc + 1e-4 ? 0 : NAN; }
  if (fabs(i - sc) < 1e-4) return NAN; double l = log(x) - (o.chan <= 5 ? 6.9618 : 9.2477); return fabs(l) < 1e-2 ? NAN : -(o.chan <= 5 ? 1255.5465 : 2233.4882) / l;
}
}
