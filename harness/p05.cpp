// P05: transmission header records
#include "xritgen.h"
#include <msat/hrit/MSG_HRIT.h>
using pbt::Str;
using xg::W;

static bool samef(float a, float b) { return memcmp(&a, &b, 4) == 0; }
static std::string words(pbt::Ctx& c, size_t n) { return c.chars(n, "ABCxyz019 _-,;()\n"); }

// value printed after a label in the text form
static bool printed(const std::string& text, const std::string& label, const std::string& value) {
  std::string l = "\n" + label; while (l.size() < 21) l += ' ';
  size_t p = text.find(l + ": ");
  if (p == std::string::npos) return false;
  p += l.size() + 2;
  return text.compare(p, value.size(), value) == 0 && (text[p + value.size()] == '\n' || text[p + value.size()] == ' ');
}
template<class T> static std::string str(const T& v) { std::ostringstream o; o << v; return o.str(); }

struct Model {
  int type; uint64_t bits; std::string recs;
  bool st = false, nav = false, df = false, an = false, ts = false, at = false, key = false, id = false, q = false;
  int bpp, cols, lines, compr;
  std::string pname, pfull; int proj; float lon, plane, plon; int32_t cfac, lfac, coff, loff;
  std::string dtext, annot, atext; int keyno; uint64_t seed;
  int day; uint32_t ms; int sc, chan, seq, start, end, fmt;
  struct Q { int32_t line; int day; uint32_t ms; int v, r, g; }; std::vector<Q> ql;
};

static int32_t i32(pbt::Ctx& c) { return (int32_t)(c.flag() ? c.ubits(32) : (uint32_t)c.range(-20000, 20000)); }

static Model gen(pbt::Ctx& c) {
  Model m;
  m.type = c.pick({0, 1, 2, 3, 128, 129, 130, 144});
  m.bits = c.chance(1, 3) ? c.below(1ULL << 40) : c.ubits(64);
  std::vector<int> order;
  for (int t : {1, 2, 3, 4, 5, 6, 7, 128}) if (c.chance(3, 5)) order.push_back(t);
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.below(i)]);
  // the line quality record needs the image structure before it
  for (size_t i = 0; i < order.size(); ++i) if (order[i] == 1 && c.chance(1, 2)) { order.insert(order.begin() + i + 1 + c.below(order.size() - i), 129); break; }
  for (int t : order) switch (t) {
    case 1: m.st = true; m.bpp = c.flag() ? c.pick({8, 10, 16}) : c.below(256); m.cols = c.ubits(16); m.lines = std::find(order.begin(), order.end(), 129) != order.end() ? c.below(c.chance(1, 5) ? 465 : 8) : c.ubits(16); m.compr = c.below(4); m.recs += xg::rec_struct(m.bpp, m.cols, m.lines, m.compr); break;
    case 2: {
      m.nav = true; m.lon = m.plane = m.plon = 0; char b[96];
      switch (c.below(6)) {
        case 0: case 1: case 2: { float v = c.flag() ? c.range(-1800, 1800) / 10.0f : c.range(-180, 180); snprintf(b, 64, c.pick({"GEOS(%+06.1f)", "GEOS(%.1f)", "GEOS(%g)", "GEOS( %.2f)", "GEOS(%+.4f)"}), v); m.lon = strtof(b + 5, 0); m.pname = "GEOS"; m.proj = 0; break; }
        case 3: { float v = c.range(-900, 900) / 10.0f, w = c.range(-1800, 1800) / 10.0f; snprintf(b, 64, c.pick({"POLAR(%.1f,%.1f)", "POLAR(%+05.1f,%+06.1f)", "POLAR(%g,%g)"}), v, w); m.plane = v; m.plon = w; m.pname = "POLAR"; m.proj = 1; break; }
        case 4: strcpy(b, "MERCATOR"); m.pname = "MERCATOR"; m.proj = 2; break;
        default: strcpy(b, "PSD"); m.pname = "PSD"; m.proj = -1; break;
      }
      m.pfull = b;
      std::string nm(b); if (c.flag()) nm.resize(32, ' '); // padded with spaces or zeros
      m.cfac = i32(c); m.lfac = i32(c); m.coff = i32(c); m.loff = i32(c);
      m.recs += xg::rec_navig(nm, m.cfac, m.lfac, m.coff, m.loff); break; }
    case 3: m.df = true; m.dtext = words(c, 1 + c.below(60)); m.recs += xg::rec(3, m.dtext); break;
    case 4: m.an = true; m.annot = c.chars(61, "ABCHLMSG_-0123456789 "); m.recs += xg::rec_annot(m.annot); break;
    case 5: m.ts = true; m.day = c.ubits(16); m.ms = c.flag() ? c.below(86400000) : c.ubits(32); m.recs += xg::rec(5, W().u1(c.below(256)).cds(m.day, m.ms).b); break;
    case 6: m.at = true; m.atext = words(c, 1 + c.below(c.chance(1, 10) ? 5000 : 60)); m.recs += xg::rec(6, m.atext); break;
    case 7: m.key = true; m.keyno = c.below(256); m.seed = c.ubits(64); m.recs += xg::rec(7, W().u1(m.keyno).u8(m.seed).b); break;
    case 128: m.id = true; m.sc = c.flag() ? c.range(320, 330) : c.ubits(16); m.chan = c.below(256); m.seq = c.ubits(16); m.start = c.ubits(16); m.end = c.ubits(16); m.fmt = c.below(5); m.recs += xg::rec_segid(m.sc, m.chan, m.seq, m.start, m.end, m.fmt); break;
    case 129: { m.q = true; W w;
      for (int i = 0; i < m.lines; ++i) { Model::Q q{i32(c), (int)c.ubits(16), (uint32_t)c.below(86400000), (int)c.below(6), (int)c.below(6), (int)c.below(6)}; m.ql.push_back(q); w.i4(q.line).cds(q.day, q.ms).u1(q.v).u1(q.r).u1(q.g); }
      m.recs += xg::rec(129, w.b); break; }
  }
  c.describe(Str() << "file type " << m.type << ", " << order.size() << " records:");
  for (int t : order) c.describe(Str() << " " << t);
  if (order.size() > 1) c.nontrivial();
  return m;
}

PBT_SUB("records", 40000, 1500000) {
  Model m = gen(c);
  std::string data = c.chars(c.below(5), "xyz");
  c.dir();
  xg::save("f", xg::file(m.type, m.recs, data, (int64_t)m.bits < 0 ? 5 : m.bits));
  if ((int64_t)m.bits < 0) m.bits = 5;
  std::ifstream in("f", std::ios::binary);
  std::unique_ptr<MSG_header> hp;
  if (c.flag()) hp.reset(new MSG_header(in)); else { hp.reset(new MSG_header); hp->read_from(in); }
  MSG_header& h = *hp;
  PBT_CHECK(c, (long)in.tellg() == (long)(16 + m.recs.size()), "the stream is left at " << in.tellg() << " and the data field is at " << 16 + m.recs.size());
  PBT_CHECK(c, h.f_typecode == m.type && h.total_header_length == 16 + m.recs.size() && h.data_field_length == m.bits && h.filesize == m.bits / 8 + 16 + m.recs.size(), "primary header: " << h.f_typecode << " " << h.total_header_length << " " << h.data_field_length << " " << h.filesize);
  PBT_CHECK(c, !!h.image_structure == m.st && !!h.image_navigation == m.nav && !!h.image_data_function == m.df && !!h.annotation == m.an && !!h.timestamp == m.ts && !!h.ancillary_text == m.at && !!h.key == m.key && !!h.segment_id == m.id && !!h.segment_quality == m.q, "presence of the records");
  std::ostringstream os; os << h; std::string t = os.str();
#define EQ(field, val) PBT_CHECK(c, (h.field) == (val), #field " is " << (h.field) << " instead of " << (val))
#define PR(label, val) PBT_CHECK(c, printed(t, label, str(val)), "the printed header does not give " << val << " for " << label)
  PR("File Typecode", m.type); PR("Total Header Length", 16 + m.recs.size()); PR("Data Length (bits)", m.bits);
  if (m.st) {
    uint64_t px = (uint64_t)m.cols * m.lines;
    EQ(image_structure->number_of_bits_per_pixel, m.bpp); EQ(image_structure->number_of_columns, m.cols); EQ(image_structure->number_of_lines, m.lines); EQ(image_structure->compression_flag, m.compr);
    EQ(image_structure->image_pixels, px); EQ(image_structure->image_size, (px * m.bpp + 7) / 8);
    PR("Bits per pixel", m.bpp); PR("Number of Columns", m.cols); PR("Number of Lines", m.lines); PR("Compression Flag", m.compr);
  }
  if (m.nav) {
    EQ(image_navigation->pname, m.pname); EQ(image_navigation->get_projection_code(), m.proj);
    PBT_CHECK(c, samef(h.image_navigation->subsatellite_longitude, m.lon), m.pfull << ": longitude is " << h.image_navigation->subsatellite_longitude << " instead of " << m.lon);
    PBT_CHECK(c, samef(h.image_navigation->projection_plane, m.plane) && samef(h.image_navigation->projection_longitude, m.plon), m.pfull << ": plane " << h.image_navigation->projection_plane << " longitude " << h.image_navigation->projection_longitude);
    EQ(image_navigation->column_scaling_factor, m.cfac); EQ(image_navigation->line_scaling_factor, m.lfac); EQ(image_navigation->column_offset, m.coff); EQ(image_navigation->line_offset, m.loff);
    EQ(image_navigation->CFAC, m.cfac); EQ(image_navigation->LFAC, m.lfac); EQ(image_navigation->COFF, m.coff); EQ(image_navigation->LOFF, m.loff);
    PR("Projection Name", m.pname); PR("Column scale factor", m.cfac); PR("Line scale factor", m.lfac); PR("Column offset", m.coff); PR("Line Offset", m.loff);
    if (m.proj == 0) PR("Subsatellite Lat.", m.lon);
  }
  if (m.df) EQ(image_data_function->data_definition_block, m.dtext);
  if (m.an) {
    auto& a = m.annot;
    EQ(annotation->annotation, a); EQ(annotation->xrit_channel_id, a.substr(0, 1)); EQ(annotation->annotation_version, a.substr(2, 3)); EQ(annotation->disseminating_s_c, a.substr(6, 6));
    EQ(annotation->product_id_1, a.substr(13, 12)); EQ(annotation->product_id_2, a.substr(26, 9)); EQ(annotation->product_id_3, a.substr(36, 9)); EQ(annotation->product_id_4, a.substr(46, 12)); EQ(annotation->flags, a.substr(59, 2));
    PR("Product ID 1", a.substr(13, 12)); PR("Product ID 4", a.substr(46, 12)); PR("Flags", a.substr(59, 2));
  }
  if (m.ts) { EQ(timestamp->get_day_from_epoch(), m.day); EQ(timestamp->get_msec_in_day(), m.ms); EQ(timestamp->get_unixtime(), (time_t)((m.day - 4383) * 86400L + m.ms / 1000)); if (!m.q || m.ql.empty()) PR("Msecs in day", m.ms); }
  if (m.at) PBT_CHECK(c, m.atext == (const char*)h.ancillary_text->ancillary_text, "ancillary text is " << (const char*)h.ancillary_text->ancillary_text);
  if (m.key) { EQ(key->key_number, m.keyno); EQ(key->seed, m.seed); EQ(key->is_key_group_1(), (m.keyno >= 64 && m.keyno < 128)); EQ(key->is_key_group_2(), (m.keyno >= 192)); EQ(key->is_key_reserved(), !((m.keyno >= 64 && m.keyno < 128) || m.keyno >= 192)); PR("Key number", m.keyno); PR("Seed", m.seed); }
  if (m.id) {
    EQ(segment_id->spacecraft_id, m.sc); EQ(segment_id->spectral_channel_id, m.chan); EQ(segment_id->sequence_number, m.seq); EQ(segment_id->planned_start_segment_sequence_number, m.start); EQ(segment_id->planned_end_segment_sequence_number, m.end); EQ(segment_id->data_field_format, m.fmt);
    PR("Spacecraft ID", m.sc); PR("Data channel ID", m.chan); PR("Segment seq No", m.seq); PR("Planned seq start", m.start); PR("Planned seq end", m.end); PR("Data format", m.fmt);
  }
  if (m.q) {
    EQ(segment_quality->nlines, m.lines);
    { // the lines that are printed are those with something to say
      std::vector<int> want, got; for (auto& q : m.ql) if (q.line > 0 && (q.v > 1 || q.r > 2 || q.g > 2)) want.push_back(q.line);
      std::ostringstream o; o << *h.segment_quality; std::string x = o.str(); size_t p = 0, stars = 0;
      while ((p = x.find("Line Number         : ", p)) != std::string::npos) got.push_back(atoi(x.c_str() + (p += 22)));
      for (p = 0; (p = x.find("***********\n", p)) != std::string::npos; p += 12) ++stars;
      PBT_CHECK(c, got == want && stars == want.size() + 1, got.size() << " lines printed out of " << want.size() << " with something to say");
    }
    static const char* V[] = {"Not derived", "Nominal", "Based on missing data", "Based on corrupted data", "Based on missing or interpolated data"};
    static const char* R[] = {"Not derived", "Nominal", "Usable", "Suspect", "Do not use"};
    for (int i = 0; i < m.lines; ++i) {
      auto& q = m.ql[i];
      EQ(segment_quality->lq[i].line_number_in_grid, q.line); EQ(segment_quality->lq[i].line_mean_acquisition.get_day_from_epoch(), q.day); EQ(segment_quality->lq[i].line_mean_acquisition.get_msec_in_day(), q.ms);
      EQ(segment_quality->lq[i].line_validity, q.v); EQ(segment_quality->lq[i].line_radiometric_quality, q.r); EQ(segment_quality->lq[i].line_geometric_quality, q.g);
      EQ(segment_quality->lq[i].validity(), q.v < 5 ? V[q.v] : "Validity not defined"); EQ(segment_quality->lq[i].radiometric_quality(), q.r < 5 ? R[q.r] : "Radiometric quality undefined"); EQ(segment_quality->lq[i].geometric_quality(), q.g < 5 ? R[q.g] : "Geometric quality undefined");
    }
  }
}

// A record of a type that does not exist, of a length its type cannot have, or that passes the header area
PBT_SUB("refused records", 20000, 500000) {
  Model m = gen(c);
  std::string bad; int total = -1;
  switch (c.below(5)) {
    case 0: { int t; do t = c.below(256); while ((t >= 1 && t <= 7) || t == 128 || t == 129); bad = xg::rec(t, c.chars(c.below(20), "abc")); c.label("unknown type"); break; }
    case 1: { int t = c.pick({1, 2, 4, 5, 7, 128}); size_t len = t == 1 ? 6 : t == 2 ? 48 : t == 4 ? 61 : t == 5 ? 7 : t == 7 ? 9 : 10; size_t n; do n = c.flag() ? c.below(70) : len + c.range(-1, 1); while (n == len); bad = xg::rec(t, std::string(n, 'A')); c.label("wrong length"); break; }
    case 2: bad = W().u1(c.pick({1, 2, 3, 4, 5, 6, 7, 128, 129})).u2(c.below(3)).s("", 60).b; c.label("length below three"); break;
    case 3: bad = W().u1(c.pick({1, 2, 3, 4, 5, 6, 7, 128, 129})).u2(60 + c.below(1000)).s("", c.below(50)).b; c.label("past the header area"); break;
    default: bad = std::string(1 + c.below(2), (char)c.pick({3, 6})); c.label("rest too short for a record"); break;
  }
  bool front = c.flag() && c.flag() == false;
  if (bad.size() < 3) front = false;
  if (front && (unsigned char)bad[1] * 256 + (unsigned char)bad[2] > bad.size()) front = false;
  std::string recs = front ? bad + m.recs : m.recs + bad;
  (void)total;
  c.dir();
  c.nontrivial();
  xg::save("f", xg::file(m.type, recs, "data"));
  std::ifstream in("f", std::ios::binary);
  MSG_header h;
  bool threw = false;
  try { h.read_from(in); } catch (std::exception&) { threw = true; }
  PBT_CHECK(c, threw, "a damaged header is accepted");
}

PBT_MAIN("P05", "a generated header with at least two records (or one damaged record) decoded from a file and compared field by field, text form included")
