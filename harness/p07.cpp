// P07: damaged and arbitrary transmission files
#include "xritgen.h"
#include <msat/hrit/MSG_HRIT.h>
#include <msat/xrit/fileaccess.h>
#include <msat/xrit/dataaccess.h>
#include <gdal/gdal_priv.h>
#include <gdal/xrit/xrit.h>
using pbt::Str;
using xg::W;
using namespace msat::xrit;
static void quiet(CPLErr, int, const char*) {}
static int dummy = (pbt::init_hook() = [] { CPLSetErrorHandler(quiet); GDALRegister_MsatXRIT(); }, 0);
struct Closer { void operator()(GDALDataset* d) const { GDALClose(d); } };

// A buffer that can be written to and is thrown away, with a bound on what is kept
struct Sink : std::streambuf { size_t n = 0; int overflow(int ch) override { ++n; return ch == EOF ? 0 : ch; } std::streamsize xsputn(const char*, std::streamsize k) override { n += k; return k; } };

struct Marks { std::vector<size_t> lens; size_t hdr; }; // places of length and count fields

static std::string some(pbt::Ctx& c, size_t n) {
  std::string s = c.chars(std::min<size_t>(n, 24), "ABC123 _-\0\n\xff\x80"); s.resize(n, 'x'); return s;
}
static std::string records(pbt::Ctx& c, int type, bool withsat) {
  std::string recs;
  std::string p1 = withsat ? c.pick<std::string>({"MSG1", "MSG2", "MSG3_RSS", "GOES12", "MTSAT1R", "MET5", "GMS", "NOAA18", "METOP", "XYZ", ""}) : "MSG2";
  std::string ann = "H-000-MSG2__-" + xg::pad(p1, 12) + "-_________-PRO______-200807150900-__";
  // records of every type, in any order, some missing, some twice
  int order[9] = {1, 2, 3, 4, 5, 6, 7, 128, 129};
  for (int i = 8; i > 0; --i) if (c.chance(1, 4)) std::swap(order[i], order[c.below(i + 1)]);
  int lines = c.chance(1, 6) ? c.pick({0, 465, 65535}) : (int)c.range(1, 6);
  for (int t : order) {
    bool usual = t == 1 || t == 2 || t == 4 || t == 5 || t == 128;
    if (!c.chance(usual ? 19 : 1, usual ? 20 : 4)) continue;
    int rep = c.chance(1, 12) ? 2 : 1;
    while (rep--) switch (t) {
      case 1: recs += xg::rec_struct(c.pick({10, 8, 16, 0, 255}), c.chance(1, 6) ? c.pick({0, 65535}) : c.range(1, 8), lines, c.chance(1, 5) ? c.below(256) : 0); break;
      case 2: recs += xg::rec_navig(c.pick<std::string>({"GEOS(+000.0)", "GEOS(-003.4)", "POLAR(1,2)", "MERCATOR", "GEOS(", "GEOS", "GEOS()", "POLAR(", "POLAR(1", "POLAR(,", "(", ")(", "", "GEOS(1e999)", "GEOS(xxxxxxxxxxxxxxxxxxxxxxxxxxx", std::string(32, '\xff')}), c.ubits(32), c.ubits(32), c.ubits(32), c.ubits(32)); break;
      case 3: recs += xg::rec(3, some(c, c.below(80))); break;
      case 4: recs += c.chance(1, 8) ? xg::rec_annot(some(c, 61)) : xg::rec_annot(ann); break;
      case 5: recs += xg::rec(5, W().u1(c.below(256)).cds(c.ubits(16), c.ubits(32)).b); break;
      case 6: recs += xg::rec(6, some(c, c.below(300))); break;
      case 7: recs += xg::rec(7, W().u1(c.below(256)).u8(c.ubits(64)).b); break;
      case 128: recs += xg::rec_segid(c.ubits(16), c.ubits(8), c.ubits(16), c.ubits(16), c.ubits(16), c.below(6)); break;
      case 129: { std::string q; int n = c.chance(1, 3) ? c.below(8) : std::min(lines, 500); for (int i = 0; i < n; ++i) q += W().i4(i).cds(1, 2).u1(c.below(8)).u1(c.below(8)).u1(c.below(8)).b; recs += xg::rec(129, q); break; }
    }
  }
  return recs;
}
static std::string datafield(pbt::Ctx& c, int type) {
  switch (type) {
    case 0: { auto b = c.bytes(c.below(100)); return std::string(b.begin(), b.end()); }
    case 1: { auto b = c.bytes(c.pick({0, 1, 2, 10, 14999, 15000, 15001}) + c.below(3)); return std::string(b.begin(), b.end()); }
    case 2: return some(c, c.below(300));
    case 3: { int n = c.below(12); std::string s = W().u2(c.chance(1, 2) ? n : c.ubits(16)).b; auto b = c.bytes(n * 197 + c.below(5)); return s + std::string(b.begin(), b.end()); }
    case 128:
      if (c.chance(1, 3)) { // foreign satellite
        W w; auto b = c.bytes(46); w.raw(std::string(b.begin(), b.end())).u4(1).u4(c.chance(1, 2) ? c.below(200) : c.ubits(32)); auto d = c.bytes(c.below(200)); return w.b + std::string(d.begin(), d.end());
      }
      if (c.flag()) { auto b = c.bytes(xg::PRO_LEN); return std::string(b.begin(), b.end()); }
      return xg::Image().prodata();
    case 129:
      if (c.flag()) { auto b = c.bytes(xg::EPI_LEN); return std::string(b.begin(), b.end()); }
      return xg::Image().epidata();
    default: return some(c, c.below(60));
  }
}
// Damages the bytes of a file
static void mutate(pbt::Ctx& c, std::string& f, size_t hdr) {
  size_t n = c.chance(2, 3) ? 1 : 2 + c.below(3);
  for (size_t i = 0; i < n; ++i) {
    switch (c.below(9)) {
      case 0: if (f.size()) f.resize(c.flag() ? c.below(f.size()) : c.below(std::min(f.size(), hdr + 8))); c.label("truncated"); break;
      case 1: { auto b = c.bytes(1 + c.below(400)); f.append(b.begin(), b.end()); c.label("extended"); break; }
      case 2: { // lengths of the records
        std::vector<size_t> at; size_t p = 0; for (int k = 0; k < 12 && p + 3 <= f.size() && p < hdr; ++k) { at.push_back(p + 1); size_t l = (unsigned char)f[p + 1] << 8 | (unsigned char)f[p + 2]; if (!l) break; p += l; }
        if (at.empty()) break;
        size_t p0 = at[c.below(at.size())]; unsigned old = (unsigned char)f[p0] << 8 | (unsigned char)f[p0 + 1];
        unsigned v = c.flag() ? (unsigned)(old + c.range(-4, 4)) : (unsigned)c.ubits(16);
        xg::put(f, p0, xg::be_u2(v)); c.label("record length"); break; }
      case 3: if (f.size() >= 16) { xg::put(f, 4, xg::be_u4(c.flag() ? (uint32_t)(hdr + c.range(-20, 20)) : c.ubits(32))); c.label("header length"); } break;
      case 4: if (f.size() >= 16) {
        uint64_t v = 0;
        switch (c.below(6)) { case 0: v = c.below(64); break; case 1: v = (f.size() - std::min(hdr, f.size())) * 8 + c.range(-20, 20); break; case 2: v = ~0ULL - c.below(4); break; case 3: v = 1ULL << c.below(64); break; case 4: v = c.below(1 << 24); break; default: v = c.below(0); }
        xg::put(f, 8, W().u8(v).b); c.label("data length"); } break;
      case 5: if (f.size() > 3) { f[3] = c.chance(3, 4) ? c.pick({0, 1, 2, 3, 128, 129, 130, 144}) : c.below(256); c.label("file type"); } break;
      case 6: if (f.size()) { size_t k = 1 + c.below(4); while (k--) f[c.below(std::min(f.size(), hdr ? hdr : 1))] = c.flag() ? c.pick({0, 1, 255, 128, 127}) : c.below(256); c.label("header byte"); } break;
      case 7: if (f.size()) { size_t k = 1 + c.below(8); while (k--) f[c.below(f.size())] = c.flag() ? c.pick({0, 1, 255, 128, 127}) : c.below(256); c.label("byte"); } break;
      default: if (f.size() > 16) { size_t p = c.below(std::min(f.size(), hdr)), k = 1 + c.below(12); if (c.flag()) f.erase(p, k); else { std::string x = f.substr(p, k); f.insert(p, x); } c.label("bytes removed or repeated"); } break;
    }
  }
}
template<class F> static bool guarded(pbt::Ctx& c, const char* what, F f) {
  try { f(); return true; }
  catch (pbt::Failure&) { throw; }
  catch (std::exception&) { return false; }
}

PBT_SUB("one file", 40000, 1500000) {
  int type = c.pick({0, 1, 2, 3, 128, 129, 130, 144});
  std::string recs = records(c, type, true), data = datafield(c, type);
  std::string f = xg::file(type, recs, data);
  size_t hdr = 16 + recs.size();
  if (c.chance(1, 12)) { size_t keep = 3 + c.below(14); auto b = c.bytes(c.below(300)); f = (c.flag() ? f.substr(0, std::min(keep, f.size())) : std::string()) + std::string(b.begin(), b.end()); c.label("random content"); }
  else if (c.chance(9, 10)) mutate(c, f, hdr);
  else c.label("intact");
  c.describe(Str() << "file type " << type << ", " << f.size() << " bytes, header of " << hdr);
  c.nontrivial();
  c.dir();
  xg::save("f", f);
  std::ifstream in("f", std::ios::binary);
  Sink sink; std::ostream os(&sink);
  std::unique_ptr<MSG_header> h;
  bool ok = guarded(c, "header", [&] { if (c.flag()) h.reset(new MSG_header(in)); else { h.reset(new MSG_header); h->read_from(in); } });
  if (!ok) { c.label("header refused"); return; }
  guarded(c, "print", [&] { os << *h; });
  MSG_data d;
  ok = guarded(c, "data", [&] { d.read_from(in, *h); });
  if (!ok) { c.label("data refused"); return; }
  c.label("accepted");
  guarded(c, "print", [&] { os << d; });
}

PBT_SUB("image set", 1500, 60000) {
  xg::Image im;
  const xg::Chan& ch = xg::CHANS[c.chance(1, 3) ? 11 : c.below(12)];
  bool hrv = ch.id == 12;
  im.chan = ch.name; im.chanid = ch.id;
  im.cols = c.pick({3712, 16, 1, 300}); if (hrv) im.cols = c.pick({5568, 8});
  im.seglines = c.pick({464, 4, 1, 1000}); im.nsegs = c.pick({8, 24, 1, 3});
  if (im.cols * im.seglines > 300000) im.seglines = 16;
  if (c.chance(1, 3)) for (int i = 0; i < 8; ++i) im.cov[i] = c.flag() ? c.range(-5, 12000) : (int)c.ubits(32);
  size_t ns = 1 + c.below(4);
  auto px = c.bytes(im.cols * im.seglines * 2); std::vector<uint16_t> v((uint16_t*)px.data(), (uint16_t*)px.data() + px.size() / 2);
  std::string pro = im.profile(), epi = im.epifile(); size_t peh = 90;
  // real headers are 90 bytes: annotation and time stamp
  std::map<std::string, std::string> files;
  std::vector<std::string> names;
  for (size_t i = 0; i < ns; ++i) { int n = 1 + c.below(im.nsegs); files[im.segname(n)] = im.segfile(n, v); }
  files[im.proname()] = pro; files[im.epiname()] = epi;
  for (auto& f : files) names.push_back(f.first);
  size_t nd = c.below(4);
  for (size_t i = 0; i < nd; ++i) {
    std::string& f = files[names[c.below(names.size())]];
    if (f.size() > 300000) mutate(c, f, peh); else mutate(c, f, 16 + 9 + 51 + 64 + 10 + 13);
  }
  if (c.chance(1, 6)) { // a count in the prologue or epilogue
    std::string& f = files[im.proname()]; if (f.size() > 420000) xg::put(f, peh + xg::PRO_DESC + c.below(100), xg::be_u4(c.ubits(32)));
  }
  if (c.chance(1, 10)) files.erase(names[c.below(names.size())]);
  c.dir();
  for (auto& f : files) xg::save(f.first, f.second);
  c.describe(Str() << im.chan << " " << im.cols << " columns, " << im.seglines << " lines per segment, " << ns << " segments, " << nd << " files damaged");
  c.nontrivial();
  MSG_data p, e; MSG_header h; DataAccess da;
  if (!guarded(c, "scan", [&] { da.scan(FileAccess(im.name()), p, e, h); })) { c.label("set refused"); return; }
  c.label("set accepted");
  PBT_CHECK(c, da.columns <= 65535 && da.seglines <= 65535, "columns " << da.columns << " lines per segment " << da.seglines);
  size_t full = da.hrv ? 11136 : 3712;
  std::vector<MSG_SAMPLE> buf(da.columns);
  size_t reads = 3 + c.below(20);
  for (size_t i = 0; i < reads; ++i) {
    size_t line = c.pick({(size_t)0, full - 1, (size_t)c.below(full), (size_t)c.below(full), da.hrv ? (size_t)c.below(24) : full - 1 - (size_t)c.below(24)});
    guarded(c, "line_start", [&] { size_t s = da.line_start(line); PBT_CHECK(c, s == s, s); });
    guarded(c, "line_read", [&] { MSG_SAMPLE* b = new MSG_SAMPLE[da.columns]; std::unique_ptr<MSG_SAMPLE[]> own(b); da.line_read(line, b); });
  }
  for (size_t i = 0; i < 3; ++i) guarded(c, "segment", [&] { da.segment(c.pick({(size_t)0, (size_t)c.below(30), (size_t)65536})); });
  Sink sink; std::ostream os(&sink);
  guarded(c, "print", [&] { os << h << p << e; });
  // the same set as a raster
  std::unique_ptr<GDALDataset, Closer> ds((GDALDataset*)GDALOpen(im.name().c_str(), GA_ReadOnly));
  if (!ds) { c.label("raster refused"); return; }
  GDALRasterBand* rb = ds->GetRasterBand(1);
  bool raw = rb->GetRasterDataType() == GDT_UInt16;
  size_t sz = raw ? 2 : 4;
  for (size_t i = 0; i < 3 + c.below(6); ++i) {
    size_t line = c.pick({(size_t)0, full - 1, (size_t)c.below(full), da.hrv ? (size_t)c.below(24) : full - 1 - (size_t)c.below(24)});
    std::unique_ptr<char[]> b(new char[full * sz]); memset(b.get(), 0x55, full * sz);
    bool ok = rb->ReadBlock(0, line, b.get()) == CE_None;
    size_t st = da.line_start(line);
    bool fits = st <= full && da.columns <= full - st;
    PBT_CHECK(c, !ok || fits, "line " << line << " of the raster is given although its " << da.columns << " columns from " << st << " do not fit");
    if (!ok || !raw) continue;
    std::vector<MSG_SAMPLE> want(da.columns);
    if (!guarded(c, "line_read", [&] { da.line_read(line, want.data()); })) continue;
    PBT_CHECK(c, memcmp(b.get() + st * 2, want.data(), want.size() * 2) == 0, "line " << line << " of the raster differs from the line");
  }
}

PBT_MAIN("P07", "a file or image set whose bytes were damaged or generated outside the valid layouts, run through the readers and printers under the address sanitizer")
