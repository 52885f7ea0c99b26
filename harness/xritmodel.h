// Generated image sets and the lines an independent reading of them gives
#pragma once
#include "xritgen.h"

struct Gen {
  xg::Image im;
  std::map<int, int> rows;  // sequence number -> whole lines stored
  bool flip; int grid;      // grid lines
  int top;                  // grid line shown as line 0
};
static std::vector<uint16_t> samples(pbt::Ctx& c, size_t n) {
  auto b = c.bytes(n * 2); std::vector<uint16_t> v(n); memcpy(v.data(), b.data(), n * 2);
  if (c.chance(2, 3)) for (auto& x : v) x &= 0x3ff;
  return v;
}
static Gen gen(pbt::Ctx& c, bool hrv) {
  Gen g; xg::Image& im = g.im;
  const xg::Chan& ch = xg::CHANS[hrv ? 11 : c.below(11)];
  im.chan = ch.name; im.chanid = ch.id;
  im.res = c.chance(5, 6) ? "H" : "L";
  g.grid = hrv ? 11136 : 3712;
  g.flip = !c.chance(1, 4);
  im.cfac = (g.flip ? -1 : 1) * (int)c.range(1, 20000000); im.lfac = -(int)c.range(1, 20000000);
  if (c.chance(1, 3)) { im.cols = hrv ? 5568 : 3712; im.seglines = 464; im.nsegs = g.grid / 464; c.label("nominal sizes"); }
  else {
    im.cols = c.chance(1, 12) ? 1 : 1 + c.below(c.chance(1, 20) ? g.grid : 40);
    im.seglines = c.pick({464, 232, 116, 928, 29, 58, 1, 500, 100, g.grid, (int)c.range(2, 3000)});
    im.nsegs = (g.grid + im.seglines - 1) / im.seglines;
    if (im.nsegs > 3000) im.nsegs = 65535 < im.nsegs ? 65535 : im.nsegs;
  }
  im.bpp = 10;
  g.top = g.grid;
  if (hrv) {
    int ls = 1, ln, us, un = 0;
    switch (c.below(4)) {
      case 0: ln = c.range(1, g.grid - 1); us = ln + 1; un = g.grid; break;                   // the usual two windows
      case 1: ln = c.range(1, g.grid - 2); us = c.range(ln + 1, g.grid); un = c.range(us, g.grid); ls = c.range(1, ln); break; // a gap, not up to the north
      case 2: ls = c.range(1, g.grid); ln = c.flag() ? g.grid : c.range(ls, g.grid); us = un = 0; c.label("one window"); break; // rapid scan: the lower window only
      default: ln = 8064; us = 8065; un = 11136; break;
    }
    int w1 = c.range(std::max(im.cols, 1), g.grid), w2 = us ? c.range(im.cols, g.grid) : 0;
    if (c.chance(1, 6)) { w1 = g.grid; } if (c.chance(1, 6) && us) w2 = im.cols;
    int v[8] = {ls, ln, w1 - im.cols + 1, w1, us, un, us ? w2 - im.cols + 1 : 0, w2};
    for (int i = 0; i < 8; ++i) im.cov[i] = v[i];
    g.top = std::max(ln, un);
  }
  // which segments are there
  std::vector<int> have;
  size_t cells = (size_t)im.cols * im.seglines, room = std::max<size_t>(1, 3000000 / std::max<size_t>(cells, 1));
  size_t want = 1 + c.below(std::min<size_t>({(size_t)im.nsegs, room, 12}));
  if (c.chance(1, 4)) for (int i = 1; i <= im.nsegs && have.size() < std::min<size_t>(room, 24); ++i) have.push_back(i);
  else for (size_t i = 0; i < want; ++i) have.push_back(1 + c.below(im.nsegs));
  for (int n : have) {
    if (im.seg.count(n)) continue;
    im.seg[n] = samples(c, cells);
    g.rows[n] = im.seglines;
    if (c.chance(1, 10)) { int r = c.below(im.seglines); im.seg[n].resize((size_t)r * im.cols + c.below(im.cols)); g.rows[n] = im.seg[n].size() / im.cols; c.label("short segment"); }
  }
  return g;
}
// the model
static void wantline(const Gen& g, size_t line, std::vector<uint16_t>& out) {
  out.assign(g.im.cols, 0);
  long gl = (long)g.top - (long)line;  // line of the grid, from 1 in the south
  if (gl < 1) return;
  int seq = (gl - 1) / g.im.seglines + 1, row = (gl - 1) % g.im.seglines;
  auto s = g.im.seg.find(seq);
  if (s == g.im.seg.end() || row >= g.rows.at(seq)) return;
  for (int x = 0; x < g.im.cols; ++x) out[x] = s->second[(size_t)row * g.im.cols + (g.flip ? g.im.cols - 1 - x : x)];
}
static long wantstart(const Gen& g, size_t line, bool hrv) {
  if (!hrv) return 0;
  long gl = (long)g.top - (long)line;
  const int* v = g.im.cov;
  if (gl >= v[0] && gl <= v[1]) return 11136 - v[3];
  if (gl >= v[4] && gl <= v[5] && v[4]) return 11136 - v[7];
  return -1; // in no window
}
static size_t someline(pbt::Ctx& c, const Gen& g) {
  switch (c.below(7)) {
    case 0: return 0;
    case 1: return g.grid - 1;
    case 2: { // around the edge of a segment that is there
      auto it = g.im.seg.begin(); std::advance(it, c.below(g.im.seg.size()));
      long gl = (long)(it->first - 1 + (int)c.below(2)) * g.im.seglines + c.range(-1, 2), l = g.top - gl; return std::min<long>(std::max<long>(l, 0), g.grid - 1); }
    case 3: { auto it = g.im.seg.begin(); std::advance(it, c.below(g.im.seg.size()));
      long gl = (long)(it->first - 1) * g.im.seglines + 1 + c.below(g.im.seglines), l = g.top - gl; return std::min<long>(std::max<long>(l, 0), g.grid - 1); }
    case 4: { long l = g.top - (g.im.cov[c.pick({0, 1, 4, 5})] + c.range(-1, 1)); return std::min<long>(std::max<long>(l, 0), g.grid - 1); }
    default: return c.below(g.grid);
  }
}

