// P24: messages and foreign satellite prologues of the transmission stream
#include "xritgen.h"
#include <filesystem>
#include <set>
#include <msat/hrit/MSG_HRIT.h>
using pbt::Str;
using xg::W;
namespace fs = std::filesystem;

enum { IMAGE = 0, GTS = 1, TEXT = 2, KEYS = 3, PROLOGUE = 128, EPILOGUE = 129, DCP = 130, BINARY = 144 };
static const char* kindname(int t) { switch (t) { case IMAGE: return "image"; case GTS: return "GTS"; case TEXT: return "text"; case KEYS: return "keys"; case PROLOGUE: return "prologue"; case EPILOGUE: return "epilogue"; case DCP: return "DCP"; default: return "binary"; } }
struct Key { int station, number, crc; std::string text; };
struct Msg { int type; std::string annot, data, recs, bytes; std::vector<Key> keys; unsigned sub = 0; bool foreign = false; std::string common, product; int cols = 0, lines = 0;
  std::string out() const { return annot + ".bin"; } bool writes() const { return type == GTS || type == BINARY; } };

static std::string raw(pbt::Ctx& c, size_t n) { // any bytes, in long runs when there are many
  if (n > 3000) { auto r = c.bytes(64); std::string s; while (s.size() < n) s += std::string(1 + r[s.size() % 64], (char)r[(s.size() + 7) % 61]); s.resize(n); return s; }
  auto r = c.bytes(n); return std::string(r.begin(), r.end());
}
static size_t size(pbt::Ctx& c, size_t least) { return c.chance(1, 4) ? least : c.chance(1, 20) ? c.pick({15000, 15001, 65535, 65536, 70000, 131072}) : least + c.below(c.flag() ? 20 : 600); }
static void finish(pbt::Ctx& c, Msg& m, bool extra) {
  m.sub = c.chance(1, 3) ? c.below(8) : 0; // bits that do not fill a byte
  m.recs = xg::rec_annot(m.annot); if (c.flag()) m.recs = xg::rec_time(c.below(40000), c.below(86400000)) + m.recs; if (c.chance(1, 4)) m.recs += xg::rec(6, "any text");
  if (m.type == IMAGE) m.recs = xg::rec_struct(16, m.cols, m.lines, 0) + m.recs + (c.flag() ? xg::rec_segid(322, 1 + c.below(12), 1, 1, 8, 3) : "");
  m.bytes = xg::file(m.type, m.recs, m.data, m.data.size() * 8 + m.sub); if (extra && c.chance(1, 4)) m.bytes += c.chars(1 + c.below(300), "xyz");
}
static Msg gen(pbt::Ctx& c, int type) {
  Msg m; m.type = type; m.annot = c.chars(61, c.flag() ? "ABCHL_-0189" : "ab .,;*?~$'\"\\&|<>_-%");
  if (m.annot == std::string(61, '.')) m.annot[0] = 'x';
  switch (type) {
    case GTS: case BINARY: case DCP: m.data = raw(c, size(c, type == GTS ? 1 : 0)); break;
    case TEXT: m.data = c.flag() ? raw(c, size(c, 1)) : c.chars(1 + c.below(400), "The quick brown fox\n\t0*-:"); break;
    case KEYS: {
      int n = c.chance(1, 30) ? (int)c.range(100, 400) : (int)c.range(1, 6); W w;
      for (int i = 0; i < n; ++i) { Key k; k.station = c.ubits(16); k.number = c.below(256); k.crc = c.ubits(16); k.text = c.chars(c.chance(1, 6) ? 192 : c.chance(1, 6) ? 0 : n > 20 ? c.below(5) : c.below(193), "0123456789ABCDEFxyz/+= "); m.keys.push_back(k); w.u2(k.station).u1(k.number).s(k.text, 192).u2(k.crc); }
      m.data = w.b; if (c.chance(1, 4)) m.data += c.chars(1 + c.below(196), "\1\2\3"); break;
    }
    case PROLOGUE: {
      m.foreign = true; std::string sat = c.pick<std::string>({"GOES", "GMS", "MTSAT", "NOAA", "METOP"}); m.annot = c.chars(13, "AB_-") + xg::pad(c.chars(c.below(12 - sat.size() + 1), "_X") + sat, 12) + c.chars(36, "AB_-");
      auto r = c.bytes(46); m.common.assign(r.begin(), r.end()); if (c.flag()) for (int k : {14, 30}) for (int i = 0; i < 16; ++i) m.common[k + i] = i < 10 ? 'a' + (uint8_t)m.common[k + i] % 26 : 0;
      xg::put(m.common, 6, xg::be_u4(c.below(86400000)));
      m.product = raw(c, c.chance(1, 6) ? 0 : c.below(300)); m.data = m.common + raw(c, 4) + xg::be_u4(m.product.size() + 8) + m.product + (c.flag() ? c.chars(c.below(50), "zw") : ""); break;
    }
    case IMAGE: m.cols = c.below(20); m.lines = c.below(8); m.data = raw(c, m.cols * m.lines * 2); break;
  }
  return m;
}
// Names in the current directory
static std::set<std::string> names() { std::set<std::string> s; for (auto& e : fs::recursive_directory_iterator(".")) s.insert(e.path().string().substr(2)); return s; }
static std::string contents(const std::string& p) { std::ifstream i(p, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static void after(pbt::Ctx& c, const std::string& t, size_t& p, const std::string& label, const std::string& want) { // the next label has this value
  size_t k = t.find(label, p); PBT_CHECK(c, k != std::string::npos, label << " is not printed"); p = t.find(": ", k) + 2;
  PBT_CHECK(c, t.compare(p, want.size(), want) == 0 && t[p + want.size()] == '\n', label << " is printed as " << t.substr(p, t.find('\n', p) - p) << " instead of " << want); p += want.size();
}
static void verify(pbt::Ctx& c, const Msg& m, MSG_data& d) {
  PBT_CHECK(c, !!d.gts_message == (m.type == GTS) && !!d.text_message == (m.type == TEXT) && !!d.key_message == (m.type == KEYS) && !!d.sdsprologue == m.foreign && !!d.image == (m.type == IMAGE) && !d.prologue && !d.epilogue, "a " << kindname(m.type) << " file does not give exactly its own message");
  std::ostringstream o; o << d; std::string t = o.str(); size_t p = 0;
  if (m.writes()) { PBT_CHECK(c, fs::exists(m.out()), "the message is not written to " << m.out()); std::string g = contents(m.out()); PBT_CHECK(c, g == m.data, "the message written has " << g.size() << " bytes, the one received " << m.data.size() << (g.size() == m.data.size() ? " that differ" : "")); }
  if (m.type == GTS) {
    std::string f = "x", old = c.flag() ? "before" : ""; if (old.size()) xg::save(f, old);
    d.gts_message->dump(f); PBT_CHECK(c, contents(f) == m.data, "dumped " << contents(f).size() << " bytes");
    d.gts_message->dump((char*)"x"); PBT_CHECK(c, contents(f) == m.data + m.data, "a second message is not appended");
    fs::remove(f);
  }
  if (m.type == TEXT) {
    size_t b = t.find("****************\n"); PBT_CHECK(c, b != std::string::npos && t.compare(b + 17, m.data.size(), m.data) == 0 && t.compare(b + 17 + m.data.size(), 18, "\n****************\n") == 0, "the text is not printed as it is");
    xg::save("x", "before"); if (c.flag()) d.text_message->dump((char*)"x"); else d.text_message->dump(std::string("x")); PBT_CHECK(c, contents("x") == m.data, "dumped " << contents("x").size() << " bytes"); fs::remove("x");
  }
  if (m.type == KEYS) {
    for (auto& k : m.keys) { after(c, t, p, "User Station Number", std::to_string(k.station)); after(c, t, p, "Key Number", std::to_string(k.number)); after(c, t, p, "Public Key ", k.text); after(c, t, p, "Public Key CRC", std::to_string(k.crc)); }
    PBT_CHECK(c, t.find("User Station Number", p) == std::string::npos, "more keys than received are printed");
  }
  if (m.foreign) {
    auto& h = d.sdsprologue->SGSCommonHeader; auto& i = d.sdsprologue->SGSProductSpecificHeader.ImageProductSpecificHeader; auto u = [&](int k) { return (int)(uint8_t)m.common[k]; };
    PBT_CHECK(c, h.NominalSGSProductTime.get_day_from_epoch() == u(4) * 256 + u(5) && h.NominalSGSProductTime.get_msec_in_day() == (uint32_t)(u(6) << 24 | u(7) << 16 | u(8) << 8 | u(9)), "product time");
    PBT_CHECK(c, h.SGSProductQuality == u(10) && h.SGSProductCompleteness == u(11) && h.SGSProductTimeliness == u(12) && h.SGSProcessingInstanceId == u(13), "product quality " << (int)h.SGSProductQuality << " completeness " << (int)h.SGSProductCompleteness << " timeliness " << (int)h.SGSProductTimeliness << " instance " << (int)h.SGSProcessingInstanceId);
    PBT_CHECK(c, !memcmp(h.BaseAlgorithmVersion, m.common.data() + 14, 16) && !memcmp(h.ProductAlgorithmVersion, m.common.data() + 30, 16), "algorithm versions");
    PBT_CHECK(c, i.ImageProductSpecificHeaderLenght == m.product.size() + 8 && !memcmp(i.ImageProductSpecificHeaderData, m.product.data(), m.product.size()), "product header of " << i.ImageProductSpecificHeaderLenght << " bytes");
    std::ostringstream q; q << *d.sdsprologue; std::string s = q.str(); p = 0; auto text = [&](int k) { return std::string(m.common.data() + k, strnlen(m.common.data() + k, 16)); };
    after(c, s, p, "Nom. SGS Prod. Time", h.NominalSGSProductTime.get_timestring()); after(c, s, p, "Product Quality", std::to_string(u(10))); after(c, s, p, "Product Completen.", std::to_string(u(11))); after(c, s, p, "Product Timeliness", std::to_string(u(12)));
    after(c, s, p, "Proc. Instance Id", std::to_string(u(13))); after(c, s, p, "Base Algorithm", text(14)); after(c, s, p, "Product Algorithm", text(30));
  }
  if (m.type == IMAGE) { PBT_CHECK(c, d.image->len * 2 == m.data.size() && !memcmp(d.image->data, m.data.data(), m.data.size()), "the samples are not those of the file"); }
}
static void quiet(std::ostream& o, std::function<void()> f) { std::streambuf* b = o.rdbuf(nullptr); try { f(); } catch (...) { o.rdbuf(b); throw; } o.rdbuf(b); }
static const std::initializer_list<int> KINDS = {GTS, GTS, TEXT, KEYS, BINARY, BINARY, DCP, PROLOGUE, PROLOGUE};

PBT_SUB("messages", 6000, 200000) {
  Msg m = gen(c, c.pick(KINDS)); finish(c, m, true); c.dir(); c.describe(Str() << kindname(m.type) << " of " << m.data.size() << " bytes"); c.label(kindname(m.type)); if (m.data.size()) c.nontrivial();
  xg::save("f", m.bytes); bool old = c.chance(1, 4); if (old) xg::save(m.out(), raw(c, c.below(2000)));
  std::string was = old ? contents(m.out()) : "";
  if (c.flag()) { std::ifstream in("f", std::ios::binary); MSG_header h(in); MSG_data d(in, h); verify(c, m, d); }
  else { MSG_HRIT h; PBT_CHECK(c, h.open((char*)"f"), "not opened"); h.read(); h.close(); verify(c, m, h.l15_data); std::ostringstream a, b, x; a << h; b << h.l15_head; x << h.l15_data; PBT_CHECK(c, a.str() == b.str() + x.str(), "the printed file is not its header and its data"); }
  std::set<std::string> want = {"f"}; if (old || m.writes()) want.insert(m.out());
  PBT_CHECK(c, names() == want, "files other than the message were left behind");
  if (old && !m.writes()) PBT_CHECK(c, contents(m.out()) == was, "a file was changed");
}

// Whatever the reader was used for before
PBT_SUB("readers used again", 3000, 80000) {
  c.dir(); fs::create_directory("in"); std::unique_ptr<MSG_HRIT> hr(new MSG_HRIT); std::string log; int n = 2 + c.below(5); if (n > 2) c.nontrivial();
  for (int i = 0; i < n; ++i) {
    Msg m = gen(c, c.pick({GTS, TEXT, KEYS, BINARY, DCP, PROLOGUE, IMAGE})); finish(c, m, false); bool cut = c.chance(1, 5); xg::save("in/f", cut ? m.bytes.substr(0, c.below(m.bytes.size())) : m.bytes);
    log += Str() << kindname(m.type) << " of " << m.data.size() << (cut ? " (cut), " : ", "); c.describe(i + 1 == n ? log : "");
    if (!hr->open((char*)"in/f")) c.fail("not opened");
    bool thrown = false; quiet(std::cerr, [&] { try { hr->read(); } catch (std::exception&) { thrown = true; } }); hr->close();
    if (thrown) { PBT_CHECK(c, cut, "step " << i << ": a good file is refused"); std::ostringstream o; o << *hr; continue; }
    if (cut) { if (m.type != DCP) c.fail(Str() << "step " << i << ": a file that ends too early is read"); continue; }
    verify(c, m, hr->l15_data);
    MSG_HRIT fresh; fresh.open((char*)"in/f"); fresh.read(); fresh.close();
    std::ostringstream a, b; a << *hr; b << fresh; PBT_CHECK(c, a.str() == b.str(), "step " << i << ": after " << log << "the file reads differently from when it is read first");
    auto& x = hr->l15_head; auto& y = fresh.l15_head;
    PBT_CHECK(c, !!x.image_structure == !!y.image_structure && !!x.annotation == !!y.annotation && !!x.timestamp == !!y.timestamp && !!x.ancillary_text == !!y.ancillary_text && !!x.segment_id == !!y.segment_id, "step " << i << ": records of an earlier file are still there");
  }
}

// What cannot be a message, or cannot be delivered, is refused and leaves nothing
PBT_SUB("refused messages", 5000, 150000) {
  c.dir(); fs::create_directory("in"); fs::create_directory("in/sub"); if (chdir("in")) c.fail("harness: chdir");
  int fault = c.below(6); Msg m; std::set<std::string> want = {"f", "sub"}; std::string what; long room = -1;
  switch (fault) {
    case 0: do m = gen(c, c.pick({GTS, TEXT, KEYS, BINARY, PROLOGUE, IMAGE})); while (m.data.empty()); finish(c, m, false); m.bytes.resize(c.flag() ? m.bytes.size() - 1 - c.below(m.data.size()) : c.below(m.bytes.size())); what = "cut"; break;
    case 1: m = gen(c, c.pick({GTS, TEXT, KEYS, KEYS, PROLOGUE, PROLOGUE})); m.data = m.type == KEYS ? raw(c, c.below(197)) : m.type == PROLOGUE ? m.data.substr(0, c.below(54)) : ""; finish(c, m, true); what = "too small"; break;
    case 2: m = gen(c, PROLOGUE); { size_t room = m.data.size() - 46; xg::put(m.data, 50, xg::be_u4(c.pick<uint32_t>({0u, 1u, 7u, (uint32_t)room + 1, (uint32_t)room + 4, (uint32_t)room + 8, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffff8u}))); } finish(c, m, false); what = "length of the product header"; break;
    case 3: m = gen(c, c.pick({GTS, BINARY, PROLOGUE})); finish(c, m, true); m.recs = c.flag() ? "" : xg::rec_time(1, 1); m.bytes = xg::file(m.type, m.recs, m.data); what = "no annotation"; break;
    case 4: m = gen(c, c.pick({GTS, BINARY})); { std::string a = c.pick<std::string>({"../", "sub/", "./", "sub/../", "sub/../../", "./../"}); m.annot = a + m.annot.substr(a.size()); if (c.chance(1, 3)) m.annot[10 + c.below(50)] = '/'; } finish(c, m, true); what = "path"; break;
    default: m = gen(c, c.pick({GTS, BINARY})); if (m.data.empty()) m.data = "x"; finish(c, m, true); if (c.flag()) { want.insert(m.out()); fs::create_directory(m.out()); what = "directory"; } else { room = c.below(m.data.size()); what = "full disk"; } break;
  }
  c.label(what); c.nontrivial(); c.describe(Str() << kindname(m.type) << " of " << m.data.size() << " bytes, " << what << (fault == 4 ? " " + m.annot : ""));
  xg::save("f", m.bytes); bool thrown = false;
  quiet(std::cerr, [&] { MSG_HRIT h; if (!h.open((char*)"f")) return; std::unique_ptr<pbt::FullDisk> full; if (room >= 0) full.reset(new pbt::FullDisk(room)); try { h.read(); } catch (std::exception&) { thrown = true; } h.close(); std::ostringstream o; if (thrown) o << h.l15_data; });
  PBT_CHECK(c, thrown, "accepted");
  PBT_CHECK(c, names() == want, "files were left behind");
  if (chdir("..")) c.fail("harness: chdir"); std::set<std::string> top; for (auto& e : fs::directory_iterator(".")) top.insert(e.path().filename()); PBT_CHECK(c, top == std::set<std::string>{"in"}, "files were left outside the directory");
}
PBT_MAIN("P24", "a message, a history of messages or a message that must be refused; non-trivial when it has contents, or more than two files")
