// P04: xRIT file names and the discovery of an image's files
#include "pbt.h"
#include <msat/xrit/fileaccess.h>
using namespace msat::xrit;
using pbt::Str;

static const std::string ALNUM = "ABCHLMSGIRVW0123456789_";

// a field without '-', ':' or '/' that does not end in '_'
static std::string field(pbt::Ctx& c, size_t maxlen) {
  size_t n = 1 + c.below(maxlen);
  std::string s = c.chars(n, ALNUM);
  if (s.back() == '_') s.back() = "A1Z"[c.below(3)];
  return s;
}
static std::string pad(std::string s, size_t n) { while (s.size() < n) s += '_'; return s; }
static std::string prodid(pbt::Ctx& c) { return c.chance(3, 4) ? c.pick<std::string>({"MSG1", "MSG2", "MSG3", "MSG4", "MSG1_RSS", "MSG2_RSS", "MET7", "GOES12"}) : field(c, 12); }
static std::string chan(pbt::Ctx& c) { return c.chance(3, 4) ? c.pick<std::string>({"HRV", "VIS006", "VIS008", "IR_016", "IR_039", "WV_062", "WV_073", "IR_087", "IR_097", "IR_108", "IR_120", "IR_134"}) : field(c, 9); }
static std::string timing(pbt::Ctx& c) {
  if (c.chance(1, 8)) return field(c, 12);
  char b[96]; snprintf(b, sizeof b, "%04d%02d%02d%02d%02d", (int)c.range(2002, 2030), (int)c.range(1, 12), (int)c.range(1, 31), (int)c.below(24), (int)c.below(4) * 15); return b;
}
// returns the directory prefix of a name and the directory it stands for
static std::string dirprefix(pbt::Ctx& c, std::string& dir) {
  switch (c.below(7)) {
    case 0: dir = "."; return "";
    case 1: dir = "/"; return "/";
    case 2: dir = "."; return "./";
    case 3: dir = ".."; return "../";
    default: {
      std::string s = c.flag() ? "/" : "";
      size_t n = 1 + c.below(4);
      for (size_t i = 0; i < n; ++i) { s += c.chars(1 + c.below(8), "ab-:._ %0[]*?\\H"); if (i + 1 < n) s += c.chance(1, 8) ? "//" : "/"; }
      dir = s; return s + "/";
    }
  }
}

PBT_SUB("well-formed names", 60000, 2000000) {
  std::string dir, pre = dirprefix(c, dir);
  std::string res = c.chance(3, 4) ? c.pick<std::string>({"H", "L"}) : field(c, 3), p1 = prodid(c), p2 = chan(c), t = timing(c), name;
  bool lng = c.flag();
  if (lng) {
    char num[16]; snprintf(num, sizeof num, "%03d", (int)c.below(1000));
    char seg[16]; snprintf(seg, sizeof seg, "%06d", (int)c.below(30));
    std::string sat = c.flag() ? pad(p1.substr(0, 6), 6) : pad(field(c, 6), 6);
    // some fields come unpadded or padded further
    size_t extra = c.chance(1, 6) ? c.below(4) : 0;
    name = pre + res + "-" + num + "-" + sat + "-" + pad(p1, 12 + extra) + "-" + pad(p2, 9) + "-" + pad(seg, 9) + "-" + (c.chance(1, 8) ? pad(t, t.size() + 2) : t) + "-C_";
    c.label("segment name");
  } else { name = pre + res + ":" + p1 + ":" + p2 + ":" + t; c.label("image name"); if (name.size() >= 3 && name.substr(name.size() - 3) == "-C_") c.discard(); }
  c.describe(name);
  c.nontrivial();
  PBT_CHECK(c, isValid(name), "a well-formed name is not recognised");
  FileAccess f(name);
  PBT_CHECK(c, f.directory == dir, "directory " << f.directory << " instead of " << dir);
  PBT_CHECK(c, f.resolution == res, "resolution " << f.resolution << " instead of " << res);
  PBT_CHECK(c, f.productid1 == p1, "first product " << f.productid1 << " instead of " << p1);
  PBT_CHECK(c, f.productid2 == p2, "second product " << f.productid2 << " instead of " << p2);
  PBT_CHECK(c, f.timing == t, "time " << f.timing << " instead of " << t);
  f.ensureComplete();
  // format it back
  FileAccess g; g.parse(f.directory + "/" + f.resolution + ":" + f.productid1 + ":" + f.productid2 + ":" + f.timing);
  PBT_CHECK(c, g.resolution == res && g.productid1 == p1 && g.productid2 == p2 && g.timing == t, "the rebuilt name reads as " << g.toString());
  PBT_CHECK(c, g.directory == dir, "the rebuilt name has directory " << g.directory);
  std::string p3 = chan(c);
  FileAccess h(f, p3);
  PBT_CHECK(c, h.directory == dir && h.resolution == res && h.productid1 == p1 && h.productid2 == p3 && h.timing == t, "another channel of the image is " << h.toString());
  g.parse(h, p2);
  PBT_CHECK(c, g.productid2 == p2 && g.timing == t && g.directory == dir, "back to the first channel is " << g.toString());
}

PBT_SUB("any names", 80000, 2000000) {
  std::string name;
  if (c.flag()) name = c.chars(c.below(40), "H-:/_CMSG1.0");
  else {
    // well formed, with edits
    std::string dir, pre = dirprefix(c, dir);
    name = c.flag() ? pre + "H-000-MSG1__-MSG1________-IR_039___-000001___-200611130800-C_" : pre + "H:MSG1:IR_039:200611130800";
    size_t n = 1 + c.below(4);
    for (size_t i = 0; i < n && !name.empty(); ++i) {
      size_t p = c.below(name.size());
      switch (c.below(4)) {
        case 0: name.erase(p, 1); break;
        case 1: name.erase(p, 1 + c.below(12)); break;
        case 2: name.insert(p, 1, "-:/_C"[c.below(5)]); break;
        default: name[p] = "-:/_CA1"[c.below(7)];
      }
    }
  }
  if (c.chance(1, 6)) name += "-C_";
  c.describe(name);
  bool seg = name.size() >= 3 && name.compare(name.size() - 3, 3, "-C_") == 0;
  size_t slash = name.rfind('/');
  std::string base = slash == std::string::npos ? name : name.substr(slash + 1);
  long colons = std::count(base.begin(), base.end(), ':'), dashes = std::count(base.begin(), base.end(), '-');
  bool ok = name.size() >= 3 && (seg ? dashes >= 7 : colons >= 3);
  bool valid = name.size() >= 3 && (seg || std::count(name.begin(), name.end(), ':') >= 3);
  c.label(ok ? "complete" : "malformed");
  PBT_CHECK(c, isValid(name) == valid, "isValid gives " << isValid(name));
  c.nontrivial();
  FileAccess f;
  try { f.parse(name); }
  catch (std::exception& e) { PBT_CHECK(c, !ok, "refused with " << e.what()); return; }
  PBT_CHECK(c, ok, "a malformed name is accepted as " << f.toString());
  // the fields, split independently
  char sep = seg ? '-' : ':';
  std::vector<std::string> v; std::string cur;
  for (char ch : base) if (ch == sep && (seg || v.size() < 3)) { v.push_back(cur); cur.clear(); } else cur += ch;
  v.push_back(cur);
  auto strip = [&](std::string s) { while (s.size() > 1 && s.back() == '_') s.resize(s.size() - 1); return s; };
  std::string r = v[0], p1 = seg ? strip(v[3]) : v[1], p2 = seg ? strip(v[4]) : v[2], t = seg ? strip(v[6]) : v[3];
  PBT_CHECK(c, f.resolution == r && f.productid1 == p1 && f.productid2 == p2 && f.timing == t, "read as " << f.toString());
  bool complete = !(f.directory.empty() || r.empty() || p1.empty() || p2.empty() || t.empty());
  bool threw = false;
  try { f.ensureComplete(); } catch (std::exception&) { threw = true; }
  PBT_CHECK(c, threw == !complete, "ensureComplete " << (threw ? "refuses" : "accepts") << " " << f.toString());
}

struct Img { std::string num, sat, res, p1, p2, t; };
static std::string segname(const Img& i, const std::string& seg) { return i.res + "-" + i.num + "-" + i.sat + "-" + pad(i.p1, 12) + "-" + pad(i.p2, 9) + "-" + seg + "-" + i.t + "-C_"; }
static std::string proname(const Img& i, const char* what, const char* end = "__") { return i.res + "-" + i.num + "-" + i.sat + "-" + pad(i.p1, 12) + "-_________-" + what + "______-" + i.t + "-" + end; }
static void touch(const std::string& p) { std::ofstream o(p); o << "x"; }

PBT_SUB("discovery", 4000, 100000) {
  std::string root = c.dir(), dir = root;
  if (c.flag()) {
    size_t n = 1 + c.below(2);
    for (size_t i = 0; i < n; ++i) { dir += "/" + c.chars(1 + c.below(6), "abH-:.[]*?\\ x~") + "d"; mkdir(dir.c_str(), 0777); }
    c.label("special directory");
  }
  Img im{c.chance(3, 4) ? "000" : "123", "MSG1__", c.chance(5, 6) ? "H" : "L", prodid(c), chan(c), timing(c)};
  im.sat = pad(im.p1.substr(0, std::min<size_t>(4, im.p1.size())), 6);
  bool longid = c.chance(1, 10);
  if (longid) { if (c.flag()) im.p1 = pad(im.p1, 12) + "2"; else im.p2 = pad(im.p2, 9) + "8"; c.label("product longer than its field"); }
  std::vector<std::string> files;          // names to be created
  std::map<std::string, std::string> want; // segment number -> name
  auto addsegs = [&](const Img& i, bool mine) {
    size_t n = c.below(c.chance(1, 5) ? 25 : 5);
    for (size_t k = 0; k < n; ++k) {
      char seg[16]; snprintf(seg, sizeof seg, "%06d___", (int)(1 + c.below(c.flag() ? 24 : 99999)));
      std::string nm = segname(i, seg);
      files.push_back(nm);
      if (mine) want[seg] = nm;
    }
  };
  addsegs(im, true);
  std::vector<std::string> pros, epis;
  auto addpe = [&](const Img& i, bool mine) {
    if (c.chance(3, 4)) { files.push_back(proname(i, "PRO")); if (mine) pros.push_back(files.back()); }
    if (c.chance(3, 4)) { files.push_back(proname(i, "EPI")); if (mine) epis.push_back(files.back()); }
  };
  addpe(im, true);
  if (c.chance(1, 8)) { Img o = im; o.num = "001"; addpe(o, true); c.label("two prologues"); }
  size_t others = c.below(5);
  for (size_t k = 0; k < others; ++k) {
    Img o = im;
    bool pe = true; // whether its prologue is another image's
    switch (c.below(12)) {
      case 9: if (o.p2.size() >= 9 || longid) continue; o.p2 += c.pick<std::string>({"0", "5", "x"}); pe = false; break;
      case 10: if (o.p1.size() >= 12 || longid) continue; o.p1 += c.pick<std::string>({"0", "5", "x"}); break;
      case 11: { std::string& w = c.flag() ? o.p1 : o.p2; size_t k = c.below(w.size()); if (!isalpha((unsigned char)w[k])) continue; w[k] ^= 32; if (&w == &o.p2) pe = false; break; } // another case
      case 0: o.t = timing(c); pe = o.t != im.t; break;
      case 1: o.p2 = chan(c); pe = false; break;
      case 2: o.p1 = prodid(c); break;
      case 3: o.res = o.res == "H" ? "L" : "H"; break;
      case 4: o.t = o.t + "0"; break;
      case 5: if (o.t.size() < 2) continue; o.t = o.t.substr(0, o.t.size() - 1); break;
      case 6: if (o.p2.size() < 2 || longid) continue; o.p2 = o.p2.substr(0, o.p2.size() - 1); while (o.p2.size() > 1 && o.p2.back() == '_') o.p2.resize(o.p2.size() - 1); pe = false; break;
      case 7: if (o.p1.size() < 2 || longid) continue; o.p1 = o.p1.substr(0, o.p1.size() - 1); while (o.p1.size() > 1 && o.p1.back() == '_') o.p1.resize(o.p1.size() - 1); break;
      default: if (!longid) continue; if (o.p1.size() > 12) o.p1.resize(12); else { o.p2.resize(9); pe = false; } break;
    }
    if (segname(o, "") == segname(im, "")) continue;
    if (pad(o.p1, 12) == pad(im.p1, 12) && o.t == im.t && o.res == im.res) pe = false;
    addsegs(o, false);
    if (pe) addpe(o, false);
  }
  // files that belong to no image
  if (c.chance(1, 3)) { files.push_back("." + segname(im, "000001___")); files.push_back(segname(im, "000002___") + ".tmp"); files.push_back("x" + proname(im, "PRO")); }
  if (c.chance(1, 4)) { files.push_back(proname(im, "PRO", "C_")); files.push_back(segname(im, "000003___").substr(0, segname(im, "000003___").size() - 2) + "__"); }
  // created in any order
  for (size_t i = files.size(); i > 1; --i) std::swap(files[i - 1], files[c.below(i)]);
  for (auto& f : files) touch(dir + "/" + f);
  std::string desc = pbt::Str() << "image " << im.res << ":" << im.p1 << ":" << im.p2 << ":" << im.t << ", " << want.size() << " segments, " << pros.size() << " prologues, " << epis.size() << " epilogues among " << files.size() << " files in " << dir.substr(root.size());
  c.describe(desc);
  FileAccess f;
  if (!want.empty() && !longid && c.flag()) f.parse(dir + "/" + want.begin()->second);
  else {
    std::string pre = dir + "/";
    if (c.chance(1, 4)) { if (chdir(dir.c_str())) c.fail("chdir"); pre = c.flag() ? "" : "./"; }
    f.parse(pre + im.res + ":" + im.p1 + ":" + im.p2 + ":" + im.t);
  }
  auto inode = [](const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0 ? (long)s.st_ino : -1L; };
  auto same = [&](const std::string& got, const std::string& name) {
    size_t s = got.rfind('/');
    return (s == std::string::npos ? got : got.substr(s + 1)) == name && inode(got) == inode(dir + "/" + name);
  };
  if (!want.empty() || others) c.nontrivial();
  std::vector<std::string> got;
  try { got = f.segmentFiles(); PBT_CHECK(c, !got.empty(), "no file and no error"); }
  catch (std::runtime_error& e) { PBT_CHECK(c, want.empty(), "no segment is found: " << e.what()); }
  std::string l; for (auto& g : got) l += " " + g;
  PBT_CHECK(c, got.size() == want.size(), got.size() << " segments found instead of " << want.size() << ":" << l);
  size_t k = 0;
  for (auto& w : want) { PBT_CHECK(c, same(got[k], w.second), "segment " << k << " is " << got[k] << " instead of " << w.second); ++k; }
  for (int e = 0; e < 2; ++e) {
    auto& ex = e ? epis : pros;
    std::string g;
    try { g = e ? f.epilogueFile() : f.prologueFile(); }
    catch (std::runtime_error& x) { PBT_CHECK(c, ex.size() != 1, (e ? "epilogue" : "prologue") << " not found: " << x.what()); continue; }
    PBT_CHECK(c, ex.size() == 1, (e ? "epilogue" : "prologue") << " " << g << " is given although there are " << ex.size());
    PBT_CHECK(c, same(g, ex[0]), (e ? "epilogue" : "prologue") << " " << g << " instead of " << ex[0]);
  }
  if (chdir(root.c_str())) {}
}

PBT_MAIN("P04", "a generated name whose parsed fields, refusal or discovered files were compared with an independent reading of it")
