// P01: identity tables of satellites and channels
#include "pbt.h"
#include <msat/facts.h>
#include <msat/hrit/MSG_spacecraft.h>
#include <msat/hrit/MSG_channel.h>
using namespace msat::facts;
using pbt::Str;

// Reference tables, written from WMO common code table C-5, the satellite codes
// of the HRIT header specification and the SEVIRI channel list.
struct Sat { int wmo; const char* name; int hrit; };
static const Sat SATS[] = {
  {3, "METOP1", 11}, {4, "METOP2", 12}, {5, "METOP3", 13},
  {50, "METEOSAT3", 16}, {51, "METEOSAT4", 19}, {52, "METEOSAT5", 20}, {53, "METEOSAT6", 21},
  {54, "METEOSAT7", -1},
  {55, "MSG1", 321}, {56, "MSG2", 322}, {57, "MSG3", 323}, {70, "MSG4", 324},
  {58, "MTSAT1", 21001}, {59, "MTSAT2", 21002},
  {150, "GMS3", -1}, {151, "GMS4", 20004}, {152, "GMS5", 20005},
  {204, "NOAA12", 17012}, {205, "NOAA14", 17014}, {206, "NOAA15", 17015},
  {251, "GOES7", 18007}, {252, "GOES8", 18008}, {253, "GOES9", 18009}, {254, "GOES10", 18010},
  {255, "GOES11", 18011}, {256, "GOES12", 18012},
  {310, "GOMS1", 19001}, {311, "GOMS2", 19002},
};
static const int NSATS = sizeof(SATS) / sizeof(*SATS);
struct HName { int hrit; const char* name; };
static const HName HONLY[] = { {150, "MTP1"}, {151, "MTP2"}, {17013, "NOAA13"}, {19003, "GOMS3"}, {20006, "GMS6"} };

struct Chan { int id; const char* name; const char* longname; double wl; bool thermal; int digits; };
static const Chan CHANS[] = {
  {1, "VIS006", "Visible 0.6", 0.6, false, 4}, {2, "VIS008", "Visible 0.8", 0.8, false, 4},
  {3, "IR_016", "Infrared 1.6", 1.6, false, 4}, {4, "IR_039", "Infrared 3.9", 3.9, true, 2},
  {5, "WV_062", "Water Vapour 6.2", 6.2, true, 2}, {6, "WV_073", "Water Vapour 7.3", 7.3, true, 2},
  {7, "IR_087", "Infrared 8.7", 8.7, true, 2}, {8, "IR_097", "Infrared 9.7", 9.7, true, 2},
  {9, "IR_108", "Infrared 10.8", 10.8, true, 2}, {10, "IR_120", "Infrared 12.0", 12.0, true, 2},
  {11, "IR_134", "Infrared 13.4", 13.4, true, 2}, {12, "HRV", "HRV", 0.7, false, 4},
};
static bool seviri(int wmo) { return wmo == 55 || wmo == 56 || wmo == 57 || wmo == 70; }
static const Sat* bywmo(int id) { for (auto& s : SATS) if (s.wmo == id) return &s; return 0; }
static const Sat* byhrit(int id) { for (auto& s : SATS) if (s.hrit == id && id >= 0) return &s; return 0; }

static int anyid(pbt::Ctx& c) {
  switch (c.below(6)) {
    case 0: return SATS[c.below(NSATS)].wmo;
    case 1: { int h = SATS[c.below(NSATS)].hrit; return h < 0 ? 150 : h; }
    case 2: return (int)c.below(1100);
    case 3: return SATS[c.below(NSATS)].wmo + (int)c.range(-3, 3);
    case 4: { int h = SATS[c.below(NSATS)].hrit; return h + (int)c.range(-3, 3); }
    default: return (int)(int32_t)c.below(1ULL << 32);
  }
}

PBT_SUB("satellite", 700000, 20000000) {
  int id = anyid(c);
  c.describe(Str() << "satellite number/code " << id);
  const Sat* w = bywmo(id);
  const Sat* h = byhrit(id);
  if (w || h) c.nontrivial();
  // WMO number -> name -> number
  std::string n = spacecraftName(id);
  if (w) {
    c.label("known WMO number");
    PBT_CHECK(c, n == w->name, "name of " << id << " is " << n << ", expected " << w->name);
    PBT_CHECK(c, spacecraftID(n) == id, "number of " << n << " is " << spacecraftID(n) << ", expected " << id);
  } else if (id == 999 || id == 1023) {
    PBT_CHECK(c, n == "Non Spacecraft", "name of " << id << " is " << n);
  } else {
    PBT_CHECK(c, n == "unknown", "name of unassigned " << id << " is " << n);
  }
  // WMO number -> HRIT code -> number
  int hc = spacecraftIDToHRIT(id);
  if (w && w->hrit >= 0) {
    PBT_CHECK(c, hc == w->hrit, "HRIT code of " << id << " is " << hc << ", expected " << w->hrit);
    PBT_CHECK(c, spacecraftIDFromHRIT(hc) == id, "number of HRIT code " << hc << " is " << spacecraftIDFromHRIT(hc));
    PBT_CHECK(c, MSG_spacecraft_name((t_enum_MSG_spacecraft)hc) == w->name, "names of " << id << " and its HRIT code " << hc << " differ: " << MSG_spacecraft_name((t_enum_MSG_spacecraft)hc));
  } else
    PBT_CHECK(c, hc == 0, "HRIT code of " << id << " is " << hc << ", expected none");
  // HRIT code -> WMO number
  int wc = spacecraftIDFromHRIT(id);
  std::string hn = MSG_spacecraft_name((t_enum_MSG_spacecraft)id);
  if (h) {
    c.label("known HRIT code");
    PBT_CHECK(c, wc == h->wmo, "number of HRIT code " << id << " is " << wc << ", expected " << h->wmo);
    PBT_CHECK(c, spacecraftIDToHRIT(wc) == id, "HRIT code of " << wc << " is " << spacecraftIDToHRIT(wc));
    PBT_CHECK(c, hn == h->name, "HRIT name of " << id << " is " << hn);
  } else {
    PBT_CHECK(c, wc == 1023, "number of unassigned HRIT code " << id << " is " << wc);
    std::string exp = id == 0 ? "Non Spacecraft" : "Unknown";
    for (auto& x : HONLY) if (x.hrit == id) exp = x.name;
    PBT_CHECK(c, hn == exp, "HRIT name of " << id << " is " << hn << ", expected " << exp);
  }
  PBT_CHECK(c, std::string(sensorName(id)) == (seviri(id) ? "Seviri" : "unknown"), "sensor of " << id << " is " << sensorName(id));
}

PBT_SUB("satellite name", 300000, 4000000) {
  std::string n;
  if (c.flag()) n = SATS[c.below(NSATS)].name; else n = c.chars(c.below(10), "METOPSGNAR1234567890 -");
  if (c.chance(1, 4) && !n.empty()) { // near misses
    c.label("near miss");
    switch (c.below(4)) {
      case 0: n += c.pick<std::string>({"0", " ", "1", "X"}); break;
      case 1: n.pop_back(); break;
      case 2: n[c.below(n.size())] ^= 0x20; break;
      default: n = " " + n; break;
    }
  }
  c.describe("name '" + n + "'");
  int exp = -1; for (auto& s : SATS) if (n == s.name) exp = s.wmo;
  if (exp >= 0) c.nontrivial();
  int got = spacecraftID(n);
  PBT_CHECK(c, got == exp, "number of '" << n << "' is " << got << ", expected " << exp);
}

PBT_SUB("channel", 500000, 10000000) {
  int sat = c.chance(3, 4) ? c.pick({55, 56, 57, 70}) : anyid(c);
  int ch = c.chance(3, 4) ? (int)c.range(0, 13) : c.chance(1, 2) ? (int)c.range(-5, 40) : (int)(int32_t)c.below(1ULL << 32);
  c.describe(Str() << "satellite " << sat << " channel " << ch);
  const Chan* k = 0; if (ch >= 1 && ch <= 12) k = &CHANS[ch - 1];
  std::string n = channelName(sat, ch), u = channelUnit(sat, ch), l = channelLevel(sat, ch);
  if (seviri(sat) && k) {
    c.nontrivial(); c.label(k->name);
    PBT_CHECK(c, n == k->name, "channel name " << n << ", expected " << k->name);
    PBT_CHECK(c, u == (k->thermal ? "K" : "mW m^-2 sr^-1 (cm^-1)^-1"), "unit of " << n << " is " << u);
    PBT_CHECK(c, l == "1.5", "level of " << n << " is " << l);
    double wl = channel_central_wavelength(sat, ch);
    PBT_CHECK(c, wl == k->wl, "wavelength of " << n << " is " << wl);
    double wn = channel_central_wave_number(sat, ch);
    PBT_CHECK(c, fabs(wn * k->wl * 1e-6 - 1) < 1e-12, "wave number of " << n << " is " << wn);
    PBT_CHECK(c, channel_from_central_wavelength(sat, wl) == ch, "channel of wavelength " << wl);
    PBT_CHECK(c, channel_from_central_wave_number(sat, wn) == ch, "channel of wave number " << wn);
    // what remains after storing the wave number rounded, as the GRIB templates do
    double d = c.real(-0.045, 0.045);
    PBT_CHECK(c, channel_from_central_wavelength(sat, wl + d) == ch, "channel of wavelength " << wl + d);
    double wns = round(wn * 100) / 100, wni = std::floor(wn);
    PBT_CHECK(c, channel_from_central_wave_number(sat, wns) == ch, "channel of rounded wave number " << wns);
    PBT_CHECK(c, channel_from_central_wave_number(sat, wni) == ch, "channel of rounded wave number " << wni);
  } else {
    PBT_CHECK(c, n == (seviri(sat) && ch == 0 ? "no-channel" : "unknown"), "name of channel " << ch << " of " << sat << " is " << n);
    PBT_CHECK(c, u == "unknown", "unit of channel " << ch << " of " << sat << " is " << u);
    PBT_CHECK(c, l == (seviri(sat) && ch == 0 ? "1.5" : ""), "level of channel " << ch << " of " << sat << " is " << l);
    bool thrown = false; try { channel_central_wavelength(sat, ch); } catch (std::runtime_error&) { thrown = true; }
    PBT_CHECK(c, thrown, "wavelength of channel " << ch << " of " << sat << " is not refused");
    thrown = false; try { channel_central_wave_number(sat, ch); } catch (std::runtime_error&) { thrown = true; }
    PBT_CHECK(c, thrown, "wave number of channel " << ch << " of " << sat << " is not refused");
  }
  // per channel defaults, common to all satellites
  int dg = significantDigitsForChannel(ch);
  double pm = defaultPackedMissing(ch), sm = defaultScaledMissing(ch);
  if (ch >= 0 && ch <= 12) {
    PBT_CHECK(c, dg == (k ? k->digits : 2), "digits of channel " << ch << " are " << dg);
    PBT_CHECK(c, pm == 0, "packed missing value of channel " << ch << " is " << pm);
    double e = ch == 1 ? -1.02691 : ch == 12 ? -1.63196 : 0;
    PBT_CHECK(c, sm == e, "scaled missing value of channel " << ch << " is " << sm);
  } else {
    PBT_CHECK(c, dg == 0, "digits of channel " << ch << " are " << dg);
    PBT_CHECK(c, std::isnan(pm) && std::isnan(sm), "missing values of channel " << ch << " are " << pm << ", " << sm);
  }
  // the long name used by the dumps says the same channel
  int hc = spacecraftIDToHRIT(sat);
  if (seviri(sat) && ch >= 0 && ch < 256) {
    std::string ln = MSG_channel_name((t_enum_MSG_spacecraft)hc, (uint_1)ch);
    std::string e = k ? std::string("MSG Seviri 1.5 ") + k->longname + " channel" : ch == 0 ? "Image data, no channel" : "MSG Seviri 1.5 unknown channel";
    PBT_CHECK(c, ln == e, "long name '" << ln << "', expected '" << e << "'");
  }
}

PBT_SUB("wavelength", 500000, 6000000) {
  int sat = c.chance(7, 8) ? c.pick({55, 56, 57, 70}) : anyid(c);
  double wl = c.chance(3, 4) ? c.range(1, 200) / 10.0 + c.real(-0.045, 0.045) : c.real(-10, 100);
  c.describe(Str() << "satellite " << sat << " wavelength " << wl);
  // stay clear of the rounding boundary itself
  double fr = fabs(wl * 10 - std::floor(wl * 10) - 0.5);
  if (fr < 1e-6) c.discard();
  int exp = -1; long r = lround(wl * 10);
  for (auto& k : CHANS) if (lround(k.wl * 10) == r) exp = k.id;
  if (!seviri(sat)) exp = -1;
  if (exp >= 0) c.nontrivial();
  int got = -1;
  try { got = channel_from_central_wavelength(sat, wl); } catch (std::runtime_error&) {}
  PBT_CHECK(c, got == exp, "channel of wavelength " << wl << " of " << sat << " is " << got << ", expected " << exp);
}

// The long channel names of the other satellites
PBT_SUB("long names", 200000, 2000000) {
  int hc = c.chance(3, 4) ? SATS[c.below(NSATS)].hrit : HONLY[c.below(5)].hrit;
  int ch = (int)(c.chance(7, 8) ? c.below(9) : c.below(256));
  c.describe(Str() << "HRIT code " << hc << " channel " << ch);
  std::string got = MSG_channel_name((t_enum_MSG_spacecraft)hc, (uint_1)ch), pre, exp;
  std::vector<const char*> t;
  if (hc >= 18000 && hc < 19000) { pre = "GOES "; t = {"Visible", "Infrared 3.9", "Water Vapour 6.8", "Infrared 10.7", "Infrared 12.0"}; }
  else if (hc >= 20000 && hc < 22000) { pre = "GMS/MTSAT "; t = {"Visible", "Infrared 3.8", "Water Vapour 6.7", "Infrared 10.8", "Infrared 12.0"}; }
  else if (hc >= 19000 && hc < 20000) { pre = "GOMS "; t = {"Visible", "Water Vapour", "Infrared"}; }
  else if ((hc >= 11 && hc <= 13) || (hc >= 17000 && hc < 18000)) { pre = "Polar orbiter single or composite "; t = {"Visible 0.6", "Visible 0.8", "Near Infrared 1.6", "Infrared 3.8", "Infrared 10.8", "Infrared 12.0"}; }
  else if (hc >= 321 && hc <= 324) { pre = ch ? "MSG Seviri 1.5 " : "Image data, no"; for (auto& k : CHANS) t.push_back(k.longname); }
  else { PBT_CHECK(c, got == "No channel information", "'" << got << "'"); return; }
  c.nontrivial();
  if (hc >= 321 && hc <= 324 && ch == 0) exp = "Image data, no channel";
  else exp = pre + (ch >= 1 && ch <= (int)t.size() ? t[ch - 1] : "unknown") + " channel";
  PBT_CHECK(c, got == exp, "'" << got << "', expected '" << exp << "'");
}

PBT_MAIN("P01", "a satellite number, broadcast code, name, channel or wavelength is drawn (from the tables, next to them and anywhere) and compared in every direction with an independent table; non-trivial when it is one the tables know")
