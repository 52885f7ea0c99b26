// P08: assembly of image lines from segment files
#include "xritmodel.h"
#include <msat/hrit/MSG_HRIT.h>
#include <msat/xrit/fileaccess.h>
#include <msat/xrit/dataaccess.h>
using pbt::Str;
using namespace msat::xrit;

static void check(pbt::Ctx& c, const Gen& g, DataAccess& da, bool hrv, size_t line, const char* who) {
  std::vector<MSG_SAMPLE> buf(da.columns, 0xabcd); std::vector<uint16_t> w;
  da.line_read(line, buf.data());
  wantline(g, line, w);
  for (size_t x = 0; x < w.size(); ++x) if (buf[x] != w[x]) c.fail(Str() << who << ": line " << line << " pixel " << x << " is " << buf[x] << ", stored is " << w[x]);
  long st = wantstart(g, line, hrv);
  if (st >= 0) PBT_CHECK(c, (long)da.line_start(line) == st, who << ": line " << line << " starts at column " << da.line_start(line) << " instead of " << st);
}
static void image(pbt::Ctx& c, bool hrv) {
  Gen g = gen(c, hrv);
  c.dir();
  g.im.save(".");
  if (c.chance(1, 8)) { xg::save(g.im.segname(0), g.im.segfile(0, samples(c, (size_t)g.im.cols * g.im.seglines))); c.label("a segment without number"); } // belongs nowhere
  std::string l; for (auto& s : g.im.seg) l += (l.empty() ? "" : ",") + std::to_string(s.first);
  c.describe(Str() << g.im.cols << " columns, segments of " << g.im.seglines << " lines, present " << l.substr(0, 60) << " of " << g.im.nsegs << (g.flip ? ", east first" : ", west first"));
  if (hrv) c.describe(Str() << ", windows " << g.im.cov[0] << "-" << g.im.cov[1] << " west " << g.im.cov[3] << ", " << g.im.cov[4] << "-" << g.im.cov[5] << " west " << g.im.cov[7]);
  c.nontrivial();
  MSG_data pro, epi; MSG_header h; DataAccess da;
  da.scan(FileAccess(g.im.name()), pro, epi, h);
  PBT_CHECK(c, (long)da.columns == g.im.cols && (long)da.seglines == g.im.seglines && da.hrv == hrv && (long)da.lines == (long)g.im.seglines * g.im.nsegs && (long)da.npixperseg == (long)g.im.cols * g.im.seglines,
            "read as " << da.columns << " columns, " << da.seglines << " lines per segment, " << da.lines << " lines, " << da.npixperseg << " pixels per segment");
  PBT_CHECK(c, da.swapX == g.flip && da.swapY, "read as swapX=" << da.swapX << " swapY=" << da.swapY);
  // every order of reads, with lines read again later
  size_t n = 4 + c.below(24);
  std::vector<size_t> done;
  for (size_t i = 0; i < n; ++i) {
    size_t line = !done.empty() && c.chance(1, 5) ? done[c.below(done.size())] : someline(c, g);
    done.push_back(line);
    check(c, g, da, hrv, line, "line");
  }
  // segments as such
  for (int i = 0; i < 3; ++i) {
    int k = c.below(g.im.nsegs + 2);
    MSG_data* d = da.segment(k);
    auto s = g.im.seg.find(k + 1);
    PBT_CHECK(c, (d != nullptr) == (s != g.im.seg.end()), "segment " << k + 1 << (d ? " is given" : " is not given"));
    if (d) { PBT_CHECK(c, d->image && d->image->len == s->second.size() && memcmp(d->image->data, s->second.data(), s->second.size() * 2) == 0, "segment " << k + 1 << " has " << d->image->len << " samples or other values"); }
    check(c, g, da, hrv, someline(c, g), "after segment access");
  }
  // a second reader sees the same
  MSG_data pro2, epi2; MSG_header h2; DataAccess db;
  db.scan(FileAccess("./" + g.im.segname(g.im.seg.begin()->first)), pro2, epi2, h2);
  size_t line = someline(c, g);
  check(c, g, db, hrv, line, "new reader");
  check(c, g, da, hrv, line, "old reader");
}
PBT_SUB("standard images", 1200, 40000) { image(c, false); }
PBT_SUB("high-resolution images", 1200, 40000) { image(c, true); }

// Every line of one image, in north-south order: the cheapest way to meet all boundaries
PBT_SUB("whole images", 40, 1500) {
  bool hrv = c.flag();
  Gen g = gen(c, hrv);
  if ((size_t)g.im.cols * g.grid > 4000000) c.discard();
  c.dir();
  g.im.save(".");
  c.describe(Str() << (hrv ? "high-resolution, " : "standard, ") << g.im.cols << " columns, segments of " << g.im.seglines << " lines, " << g.im.seg.size() << " present");
  c.nontrivial();
  MSG_data pro, epi; MSG_header h; DataAccess da;
  da.scan(FileAccess(g.im.name()), pro, epi, h);
  bool up = c.flag();
  for (int i = 0; i < g.grid; ++i) check(c, g, da, hrv, up ? g.grid - 1 - i : i, "sweep");
}

PBT_MAIN("P08", "an image whose line contents and start columns were compared with the samples written into its segments")
