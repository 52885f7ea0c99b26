// P06: level 1.5 prologue and epilogue, field by field, against an independent table of the layout
#include "xritgen.h"
#include <msat/hrit/MSG_HRIT.h>
using pbt::Str;

// A reader of the same bytes that walks the layout and compares as it goes
struct Cur {
  pbt::Ctx& c; const std::string& b; size_t p;
  uint64_t be(int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (unsigned char)b[p++]; return v; }
  [[noreturn]] void bad(const char* f, size_t at, const std::string& got, const std::string& want) { c.fail(Str() << f << " at byte " << at << " of the data is decoded as " << got << ", the bytes encode " << want); }
  template<class T> static std::string s(const T& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
  template<class T> void u(int n, T got, const char* f) { size_t at = p; uint64_t w = be(n); if ((uint64_t)(int64_t)got != w) bad(f, at, s((int64_t)got), s(w)); }
  void i(int got, const char* f) { size_t at = p; int32_t w = (int32_t)be(4); if (got != w) bad(f, at, s(got), s(w)); }
  void flag(bool got, const char* f) { size_t at = p; bool w = be(1) != 0; if (got != w) bad(f, at, s(got), s(w)); }
  void r4(const float& got, const char* f) { size_t at = p; uint32_t w = be(4), g; memcpy(&g, &got, 4); if (g != w) { float x; memcpy(&x, &w, 4); bad(f, at, s(got), s(x)); } }
  void r8(const double& got, const char* f) { size_t at = p; uint64_t w = be(8), g; memcpy(&g, &got, 8); if (g != w) { double x; memcpy(&x, &w, 8); bad(f, at, s(got), s(x)); } }
  void cds(MSG_time_cds_short& t, const char* f) { u(2, t.get_day_from_epoch(), f); u(4, t.get_msec_in_day(), f); }
  void cds8(MSG_time_cds& t, const char* f) { cds(t, f); u(2, t.get_microsecs(), f); }
  void cds10(MSG_time_cds_expanded& t, const char* f) { cds(t, f); u(2, t.get_microsecs(), f); u(2, t.get_nanosecs(), f); }
  void cuc(MSG_time_cuc& t, const char* f) { size_t at = p; double w = 0, m = 256. * 256 * 256; for (int k = 0; k < 7; ++k, m /= 256) w += m * (unsigned char)b[p++]; if (t.get_time_cuc_r8() != w) bad(f, at, s(t.get_time_cuc_r8()), s(w)); }
  void gen(MSG_time_generalized& t, const char* f) {
    size_t at = p; std::string w = b.substr(p, 15); p += 15; struct tm* m = t.get_timestruct(); char x[96];
    snprintf(x, sizeof x, "%04d%02d%02d%02d%02d%02dZ", m->tm_year + 1900, m->tm_mon + 1, m->tm_mday, m->tm_hour, m->tm_min, m->tm_sec); if (w != x) bad(f, at, x, w);
  }
};
#define U1(f) k.u(1, (int)(f), #f)
#define U2(f) k.u(2, (int64_t)(f), #f)
#define U4(f) k.u(4, (uint64_t)(f), #f)
#define I4(f) k.i(f, #f)
#define FL(f) k.flag(f, #f)
#define R4(f) k.r4(f, #f)
#define R8(f) k.r8(f, #f)
#define N(n) for (int i = 0; i < n; ++i)
#define N8(f) for (int j = 0; j < 8; ++j) k.r8((f)[j], #f)
#define NR4(n, f) for (int j = 0; j < n; ++j) k.r4((f)[j], #f)
#define NU4(n, f) for (int j = 0; j < n; ++j) k.u(4, (uint64_t)(f)[j], #f)
#define CDS(f) k.cds(f, #f)

static void expect_at(Cur& k, size_t p, const char* what) { if (k.p != p) k.c.fail(Str() << "harness: " << what << " would start at " << k.p); }

static void check_sat(Cur& k, MSG_data_SatelliteStatus& s) {
  U2(s.SatelliteDefinition.SatelliteId); R4(s.SatelliteDefinition.NominalLongitude); U1(s.SatelliteDefinition.SatelliteStatus);
  auto& o = s.SatelliteOperations;
  FL(o.LastManoeuvreFlag); CDS(o.LastManouvreStartTime); CDS(o.LastManouvreEndTime); U1(o.LastManouvreType);
  FL(o.NextManoeuvreFlag); CDS(o.NextManouvreStartTime); CDS(o.NextManouvreEndTime); U1(o.NextManouvreType);
  CDS(s.Orbit.PeriodStartTime); CDS(s.Orbit.PeriodEndTime);
  N(100) { auto& c = s.Orbit.OrbitPoliniomal[i]; CDS(c.StartTime); CDS(c.EndTime); N8(c.X); N8(c.Y); N8(c.Z); N8(c.VX); N8(c.VY); N8(c.VZ); }
  CDS(s.Attitude.PeriodStartTime); CDS(s.Attitude.PeriodEndTime); R8(s.Attitude.PrincipalAxisOffsetAngle);
  N(100) { auto& c = s.Attitude.AttitudePolynomial[i]; CDS(c.StartTime); CDS(c.EndTime); N8(c.XOfSpinAxis); N8(c.YOfSpinAxis); N8(c.ZOfSpinAxis); }
  R8(s.SpinRateatRCStart);
  auto& u = s.UTCCorrelation;
  CDS(u.PeriodStartTime); CDS(u.PeriodEndTime); k.cuc(u.OnBoardTimeStart, "UTCCorrelation.OnBoardTimeStart"); R8(u.VarOnBoardTimeStart); R8(u.A1); R8(u.VarA1); R8(u.A2); R8(u.VarA2);
}
static void check_acq(Cur& k, MSG_data_ImageAcquisition& a) {
  auto& t = a.PlannedAquisitionTime;
  k.cds10(t.TrueRepeatCycleStart, "TrueRepeatCycleStart"); k.cds10(t.PlannedForwardScanEnd, "PlannedForwardScanEnd"); k.cds10(t.PlannedRepeatCycleEnd, "PlannedRepeatCycleEnd");
  N(12) U1(a.RadiometerStatus.ChannelStatus[i]);
  N(42) U1(a.RadiometerStatus.DetectorStatus[i]);
  auto& r = a.RadiometerSettings;
  N(42) U2(r.MDUSamplingDelays[i]);
  U2(r.MDUNomHRVDelay1); U2(r.MDUNomHRVDelay2); k.p += 2; U2(r.MDUNomHRVBreakline); U1(r.DHSSyncSelection);
  N(42) U2(r.MDUOutGain[i]);
  N(42) U1(r.MDUCoarseGain[i]);
  N(42) U2(r.MDUFineGain[i]);
  N(42) U2(r.MDUNumericalOffset[i]);
  N(42) U2(r.PUGain[i]);
  N(27) U2(r.PUOffset[i]);
  N(15) U2(r.PUBias[i]);
  U2(r.L0_LineCounter); U2(r.K1_RetraceLines); U2(r.K2_PauseDeciseconds); U2(r.K3_RetraceLines); U2(r.K4_PauseDeciseconds); U2(r.K5_RetraceLines);
  U1(r.X_DeepSpaceWindowPosition); U2(r.RefocusingLines); U1(r.RefocusingDirection); U2(r.RefocusingPosition); FL(r.ScanRefPosFlag); U2(r.ScanRefPosNumber); R4(r.ScanRefPotVal); U2(r.ScanFirstLine); U2(r.ScanLastLine); U2(r.RetraceStartLine);
  auto& o = a.RadiometerOperations;
  FL(o.LastGainChangeFlag); CDS(o.LastGainChangeTime); FL(o.DecontaminationNow); CDS(o.DecontaminationStart); CDS(o.DecontaminationEnd); FL(o.BBCalScheduled); U1(o.BBCalibrationType); U2(o.BBFirstLine); U2(o.BBLastLine); U2(o.ColdFocalPlaneOpTemp); U2(o.WarmFocalPlaneOpTemp);
}
static void check_cel(Cur& k, MSG_data_CelestialEvents& e) {
  auto& p = e.CelestialBodiesPosition.Ephemeris;
  CDS(p.PeriodStartTime); CDS(p.PeriodEndTime); k.gen(p.RelatedOrbitFileTime, "RelatedOrbitFileTime"); k.gen(p.RelatedAttitudeFileTime, "RelatedAttitudeFileTime");
  N(100) { auto& c = p.EarthEphemeris[i]; CDS(c.StartTime); CDS(c.EndTime); N8(c.AlphaCoef); N8(c.BetaCoef); }
  N(100) { auto& c = p.MoonEphemeris[i]; CDS(c.StartTime); CDS(c.EndTime); N8(c.AlphaCoef); N8(c.BetaCoef); }
  N(100) { auto& c = p.SunEphemeris[i]; CDS(c.StartTime); CDS(c.EndTime); N8(c.AlphaCoef); N8(c.BetaCoef); }
  for (int s = 0; s < 100; ++s) N(20) { auto& c = p.StarEphemeris[s]; U2(c.StarId[i]); CDS(c.StartTime[i]); CDS(c.EndTime[i]); N8(c.AlphaCoef[i]); N8(c.BetaCoef[i]); }
  auto& r = e.RelationToImage;
  U1(r.TypeofEclypse); CDS(r.EclipseStartTime); CDS(r.EclipseEndTime); U1(r.VisibleBodiesInImage); U1(r.BodiesClosesttoFOV); U1(r.ImpactOnImageQuality);
}
static void check_desc(Cur& k, MSG_data_ImageDescription& d) {
  U1(d.ProjectionDescription.TypeOfProjection); R4(d.ProjectionDescription.LongitudeOfSSP);
  for (auto* g : {&d.ReferenceGridVIS_IR, &d.ReferenceGridHRV}) { I4(g->NumberofLines); I4(g->NumberofColumns); R4(g->LineDirGridStep); R4(g->ColumnDirGridStep); U1(g->GridOrigin); }
  k.p += 48; // coverages: not public, compared in printed form
  U1(d.Level1_5ImageProduction.ImageProcDirection); U1(d.Level1_5ImageProduction.PixelGenDirection);
  N(12) FL(d.Level1_5ImageProduction.PlannedChanProcessing[i]);
}
static void check_rad(Cur& k, MSG_data_RadiometricProc& r) {
  auto& s = r.RPSummary;
  N(12) FL(s.RadianceLinearization[i]);
  N(12) FL(s.DetectorEqualization[i]);
  N(12) FL(s.OnboardCalibrationResult[i]);
  N(12) FL(s.MPEFCalFeedBack[i]);
  N(12) FL(s.MTFAdaptation[i]);
  N(12) FL(s.StraylightCorrectionFlag[i]);
  N(12) { R8(r.ImageCalibration[i].Cal_Slope); R8(r.ImageCalibration[i].Cal_Offset); }
  k.p += 17 + 84 + 42 + 84 * 3 + 54 + 30 + 63 + 1 + 24 + 4 + 8 + 4 + 12 * 32 + 12 * 32; // black body data, feedback: printed form
  N(42) NR4(64, r.RadTransform[i]);
  auto& m = r.RadProcMTFAdaptation;
  N(33) NR4(16, m.VIS_IRMTFCorrectionE_W[i]);
  N(33) NR4(16, m.VIS_IRMTFCorrectionN_S[i]);
  N(9) NR4(16, m.HRVIRMTFCorrectionE_W[i]);
  N(9) NR4(16, m.HRVIRMTFCorrectionN_S[i]);
  N(12) for (int q = 0; q < 8; ++q) NR4(8, r.StraylightCorrection[i][q]);
}
static void check_geo(Cur& k, MSG_data_GeometricProc& g) {
  NR4(42, g.OptAxisDistances.E_W_FocalPlane); NR4(42, g.OptAxisDistances.N_S_FocalPlane);
  U1(g.EarthModel.TypeofEarthModel); R8(g.EarthModel.EquatorialRadius); R8(g.EarthModel.NorthPolarRadius); R8(g.EarthModel.SouthPolarRadius);
  N(12) NR4(360, g.AtmosphericModel[i]);
  N(12) U1(g.ResamplingFunction[i]);
}
static void check_impf(Cur& k, MSG_data_IMPFConfiguration& m) {
  U2(m.GPConfigItemVersion.Issue); U2(m.GPConfigItemVersion.Revision);
  N(50) { auto& d = m.SuDetails[i]; U4(d.SoftwareUnitId); U1(d.SUIdInstance); U1(d.SUMode); U1(d.SUState); U2(d.SUConfiguration.SWVersion.Issue); U2(d.SUConfiguration.SWVersion.Revision);
    for (int j = 0; j < 10; ++j) { U2(d.SUConfiguration.InfoBaseVersion[j].Issue); U2(d.SUConfiguration.InfoBaseVersion[j].Revision); } }
  auto& w = m.WarmStartParms;
  N(1527) R8(w.ScanningLaw[i]);
  N(3) R8(w.RadFramesAlignment[i]);
  R4(w.ScanningLawVariation[0]); R4(w.ScanningLawVariation[1]);
  N(42) { R4(w.EqualisationParms[i].ConstCoef); R4(w.EqualisationParms[i].LinearCoef); R4(w.EqualisationParms[i].QuadraticCoef); }
  auto& b = w.BlackBodyDataWarmStart;
  N(12) R8(b.GTotalForMethod1[i]);
  N(12) R8(b.GTotalForMethod2[i]);
  N(12) R8(b.GTotalForMethod3[i]);
  N(12) R8(b.GBackForMethod1[i]);
  N(12) R8(b.GBackForMethod2[i]);
  N(12) R8(b.GBackForMethod3[i]);
  N(12) R8(b.RatioGTotalToGBack[i]);
  N(12) R8(b.GainInFrontOpticsCont[i]);
  N(12) R4(b.CalibrationConstants[i]);
  R8(b.TimeOfColdObsSeconds); R8(b.TimeOfColdObsNanoSecs);
  N(12) R8(b.IncidentRadiance[i]);
  R8(b.TempCal); R8(b.TempM1); R8(b.TempScan); R8(b.TempM1Baf); R8(b.TempCalSurround);
  R8(b.MirrorParameters.MaxFeedbackVoltage); R8(b.MirrorParameters.MinFeedbackVoltage); R8(b.MirrorParameters.MirrorSlipEstimate); R8(b.LastSpinPeriod);
  auto& h = b.HKTMParameters;
  CDS(h.TimeS0Packet); CDS(h.TimeS1Packet); CDS(h.TimeS2Packet); CDS(h.TimeS3Packet); CDS(h.TimeS4Packet); CDS(h.TimeS5Packet); CDS(h.TimeS6Packet); CDS(h.TimeS7Packet); CDS(h.TimeS8Packet); CDS(h.TimeS9Packet); CDS(h.TimeSYPacket); CDS(h.TimePSPacket);
  k.p += 3480 - 72;
}
static void check_stats(Cur& k, MSG_data_ImageProdStats& s) {
  U2(s.SatelliteId); U1(s.ActualScanningSummary.NominalImageScanning); U1(s.ActualScanningSummary.ReducedScan); CDS(s.ActualScanningSummary.ForwardScanStart); CDS(s.ActualScanningSummary.ForwardScanEnd);
  auto& b = s.RadiometerBehaviour;
  U1(b.NominalBehaviour); U1(b.RadScanIrregularity); U1(b.RadStoppage); U1(b.RepeatCycleNotCompleted); U1(b.GainChangeTookPlace); U1(b.DecontaminationTookPlace); U1(b.NoBBCalibrationAchieved); U1(b.IncorrectTemperature); U1(b.InvalidBBData); U1(b.InvalidAuxOrHKTMData); U1(b.RefocusingMechanismActuated); U1(b.MirrorBackToReferencePos);
  auto& r = s.ReceptionSummaryStats;
  NU4(12, r.PlannedNumberOfL10Lines); NU4(12, r.NumberOfMissingL10Lines); NU4(12, r.NumberOfCorruptedL10Lines); NU4(12, r.NumberOfReplacedL10Lines);
  N(12) { auto& v = s.L15ImageValidity[i]; U1(v.NominalImage); U1(v.NonNominalBecauseIncomplete); U1(v.NonNominalRadiometricQuality); U1(v.NonNominalGeometricQuality); U1(v.NonNominalTimeliness); U1(v.IncompleteL15); }
  auto& c = s.ActualL15CoverageVIS_IR; I4(c.SouthernLineActual); I4(c.NorthernLineActual); I4(c.EasternColumnActual); I4(c.WesternColumnActual);
  auto& h = s.ActualL15CoverageHRV; I4(h.LowerSouthLineActual); I4(h.LowerNorthLineActual); I4(h.LowerEastColumnActual); I4(h.LowerWestColumnActual); I4(h.UpperSouthLineActual); I4(h.UpperNorthLineActual); I4(h.UpperEastColumnActual); I4(h.UpperWestColumnActual);
}
static void check_navig(Cur& k, MSG_data_NavigExtrResult& n) {
  N(4) { auto& o = n.ExtractedHorizons[i]; U1(o.HorizonId); R8(o.Alpha); R8(o.AlphaConfidence); R8(o.Beta); R8(o.BetaConfidence); k.cds8(o.ObservationTime, "horizon ObservationTime"); R8(o.SpinRate); R8(o.AlphaDeviation); R8(o.BetaDeviation); }
  N(20) { auto& o = n.ExtractedStars[i]; U2(o.StarId); R8(o.Alpha); R8(o.AlphaConfidence); R8(o.Beta); R8(o.BetaConfidence); k.cds8(o.ObservationTime, "star ObservationTime"); R8(o.SpinRate); R8(o.AlphaDeviation); R8(o.BetaDeviation); }
  N(50) { auto& o = n.ExtractedLandmarks[i]; U2(o.LandmarkId); R8(o.LandmarkLongitude); R8(o.LandmarkLatitude); R8(o.Alpha); R8(o.AlphaConfidence); R8(o.Beta); R8(o.BetaConfidence); k.cds8(o.ObservationTime, "landmark ObservationTime"); R8(o.SpinRate); R8(o.AlphaDeviation); R8(o.BetaDeviation); }
}
static void check_radq(Cur& k, MSG_data_RadiometricQuality& q) {
  N(42) { auto& a = q.L10RadQuality[i];
    U2(a.FullImageMinimumCount); U2(a.FullImageMaximumCount); U2(a.EarthDiskMinimumCount); U2(a.EarthDiskMaximumCount); U2(a.MoonMinimumCount); U2(a.MoonMaximumCount);
    R4(a.FullImageMeanCount); R4(a.FullImageStandardDeviation); R4(a.EarthDiskMeanCount); R4(a.EarthDiskStandardDeviation); R4(a.MoonMeanCount); R4(a.MoonStandardDeviation); R4(a.SpaceMeanCount); R4(a.SpaceStandardDeviation);
    R4(a.SESpaceCornerMeanCount); R4(a.SESpaceCornerStandardDeviation); R4(a.SWSpaceCornerMeanCount); R4(a.SWSpaceCornerStandardDeviation); R4(a.NESpaceCornerMeanCount); R4(a.NESpaceCornerStandardDeviation); R4(a.NWSpaceCornerMeanCount); R4(a.NWSpaceCornerStandardDeviation); R4(a.FourSpaceCornersMeanCount); R4(a.FourSpaceCornersStandardDeviation);
    NU4(256, a.FullImageIstogram); NU4(256, a.EarthDiskIstogram); NU4(256, a.ImageCentreSquareIstogram); NU4(128, a.SESpaceCornerIstogram); NU4(128, a.SWSpaceCornerIstogram); NU4(128, a.NESpaceCornerIstogram); NU4(128, a.NWSpaceCornerIstogram);
    NR4(3, a.FullImageEntropy); NR4(3, a.EarthDiskEntropy); NR4(3, a.ImageCentreSquareEntropy); NR4(3, a.SESpaceCornerEntropy); NR4(3, a.SWSpaceCornerEntropy); NR4(3, a.NESpaceCornerEntropy); NR4(3, a.NWSpaceCornerEntropy); NR4(3, a.FourSpaceCornersEntropy);
    NR4(128, a.ImageCentreSquarePSD_EW); NR4(128, a.FullImagePSD_EW); NR4(128, a.ImageCentreSquarePSD_NS); NR4(128, a.FullImagePSD_NS); }
  N(12) { auto& a = q.L15RadQuality[i];
    U2(a.FullImageMinimumCount); U2(a.FullImageMaximumCount); U2(a.EarthDiskMinimumCount); U2(a.EarthDiskMaximumCount);
    R4(a.FullImageMeanCount); R4(a.FullImageStandardDeviation); R4(a.EarthDiskMeanCount); R4(a.EarthDiskStandardDeviation); R4(a.SpaceMeanCount); R4(a.SpaceStandardDeviation);
    NU4(256, a.FullImageIstogram); NU4(256, a.EarthDiskIstogram); NU4(256, a.ImageCentreSquareIstogram);
    NR4(3, a.FullImageEntropy); NR4(3, a.EarthDiskEntropy); NR4(3, a.ImageCentreSquareEntropy);
    NR4(128, a.ImageCentreSquarePSD_EW); NR4(128, a.FullImagePSD_EW); NR4(128, a.ImageCentreSquarePSD_NS); NR4(128, a.FullImagePSD_NS);
    R4(a.SESpaceCornerL15_RMS); R4(a.SESpaceCornerL15_Mean); R4(a.SWSpaceCornerL15_RMS); R4(a.SWSpaceCornerL15_Mean); R4(a.NESpaceCornerL15_RMS); R4(a.NESpaceCornerL15_Mean); R4(a.NWSpaceCornerL15_RMS); R4(a.NWSpaceCornerL15_Mean); }
}
static void check_geoq(Cur& k, MSG_data_GeometricQuality& q) {
  for (auto* arr : {q.AbsoluteAccuracy, q.RelativeAccuracy, q.N500PixelsRelativeAccuracy, q.N16PixelsRelativeAccuracy})
    N(12) { auto& a = arr[i]; U1(a.QualityInfoValidity); R4(a.EastWestAccuracyRMS); R4(a.NorthSouthAccuracyRMS); R4(a.MagnitudeRMS); R4(a.EastWestUncertaintyRMS); R4(a.NorthSouthUncertaintyRMS); R4(a.MagnitudeUncertaintyRMS); R4(a.EastWestMaxDeviation); R4(a.NorthSouthMaxDeviation); R4(a.MagnitudeMaxDeviation); R4(a.EastWestUncertaintyMax); R4(a.NorthSouthUncertaintyMax); R4(a.MagnitudeUncertaintyMax); }
  N(12) { auto& a = q.MisregistrationResiduals[i]; U1(a.QualityInfoValidity); R4(a.EastWestResiduals); R4(a.NorthSouthResiduals); R4(a.EastWestUncertainty); R4(a.NorthSouthUncertainty); R4(a.EastWestRMS); R4(a.NorthSouthRMS); R4(a.EastWestMagnitude); R4(a.NorthSouthMagnitude); R4(a.EastWestMagnitudeUncertainty); R4(a.NorthSouthMagnitudeUncertainty); }
  N(12) { auto& a = q.GeometricQualityStatus[i]; U1(a.QualityNominal); U1(a.NominalAbsolute); U1(a.NominalRelativeToPreviousImage); U1(a.NominalForREL500); U1(a.NominalForREL16); U1(a.NominalForResMisreg); }
}
static void check_time(Cur& k, MSG_data_TimelinComple& t) {
  R4(t.Timeliness.MaxDelay); R4(t.Timeliness.MinDelay); R4(t.Timeliness.MeanDelay);
  N(12) { auto& c = t.Completeness[i]; U2(c.PlannedL15ImageLines); U2(c.GeneratedL15ImageLines); U2(c.ValidL15ImageLines); U2(c.DummyL15ImageLines); U2(c.CorruptedL15ImageLines); }
}

// printed form -> values in order of appearance of each label
typedef std::vector<std::pair<std::string, std::string>> Lines;
static std::string rstrip(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
static Lines parse(const std::string& t) {
  Lines r; std::istringstream is(t); std::string l;
  while (std::getline(is, l)) { size_t p = l.find(": "); if (p == std::string::npos) r.push_back({rstrip(l), ""}); else r.push_back({rstrip(l.substr(0, p)), rstrip(l.substr(p + 2))}); }
  return r;
}
struct Pr { // follows the printed lines
  pbt::Ctx& c; const std::string& b; size_t p; const Lines& l; size_t at;
  uint64_t be(int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | (unsigned char)b[p++]; return v; }
  void line(const std::string& label, const std::string& v) {
    // the next line of that label
    size_t q = at; while (q < l.size() && l[q].first != label) ++q;
    if (q == l.size()) c.fail("no line for \"" + label + "\" in the printed form");
    at = q + 1;
    if (l[q].second != v) c.fail("printed \"" + label + "\" is " + l[q].second + ", the bytes encode " + v);
  }
  template<class T> static std::string s(const T& t) { std::ostringstream o; o << t; return o.str(); }
  void u(const std::string& label, int n) { line(label, s(be(n))); }
  void i(const std::string& label) { line(label, s((int32_t)be(4))); }
  void r4(const std::string& label) { uint32_t w = be(4); float f; memcpy(&f, &w, 4); line(label, s(f)); }
  void r8(const std::string& label) { uint64_t w = be(8); double f; memcpy(&f, &w, 8); line(label, s(f)); }
  void e(const std::string& label, std::vector<std::string> names) { uint64_t v = be(1); line(label, v < names.size() ? names[v] : "Unknown"); }
  static std::string nn(const char* t, int i) { char x[64]; snprintf(x, 64, "%s %02d", t, i + 1); return x; }
  void arr(const char* t, int n, int w) { for (int i = 0; i < n; ++i) u(nn(t, i), w); }
};
template<class T> static Lines printed(T& t) { std::ostringstream o; o << t; return parse(o.str()); }

static void check_desc_printed(pbt::Ctx& c, const std::string& b, size_t base, MSG_data_ImageDescription& d) {
  Lines l = printed(d);
  Pr k{c, b, base, l, 0};
  k.e("Type of Projection", {"Unknown", "Geostationary, Earth Centered in grid"}); k.r4("SSP Longitude");
  for (int g = 0; g < 2; ++g) { k.i("Number Of Lines"); k.i("Number of Columns"); k.r4("Grid Step SSP line"); k.r4("Grid Step SSP col."); k.e("Grid Origin", {"Grid corner North-West", "Grid corner South-West", "Grid corner South-East", "Grid corner North-East"}); }
  k.i("Southern line Plan."); k.i("Northern line Plan."); k.i("Eastern col. Plan."); k.i("Western col. Plan.");
  for (const char* s : {"Low South line Plan.", "Low North line Plan.", "Low East col. Plan.", "Low West col. Plan.", "Up South line Plan.", "Up North line Plan.", "Up East col. Plan.", "Up West col. Plan."}) k.i(s);
  k.e("Image Processing Dir", {"Direction North-South", "Direction South-North"}); k.e("Pixel Processing Dir", {"Direction East-West", "Direction West-East"});
  N(12) { char x[64]; snprintf(x, 64, "Channel %02d is plan.", i + 1); k.line(x, k.be(1) ? "1" : "0"); }
}
static void check_bb_printed(pbt::Ctx& c, const std::string& b, size_t base, MSG_data_RadiometricProc& d) {
  Lines l = printed(d);
  size_t at = 0; while (at < l.size() && l[at].first != "END CALIBRATION") ++at;
  Pr k{c, b, base + 72 + 192, l, at};
  uint64_t day = k.be(2), ms = k.be(4), us = k.be(2), ns = k.be(2);
  time_t ut = ((long)day - 4383) * 86400 + ms / 1000; char t[128], t2[160]; struct tm tm; gmtime_r(&ut, &tm); strftime(t, 128, "%Y-%m-%d %H:%M:%S", &tm);
  snprintf(t2, 160, "%s +%03d.%03d%03d msecs", t, (int)(ms % 1000), (int)us, (int)ns);
  k.line("BB Observation UTC", t2);
  double w = 0, m = 256. * 256 * 256; N(7) { w += m * k.be(1); m /= 256; }
  k.line("On Board Time", Pr::s(w));
  k.arr("MDU Out Gain", 42, 2); k.arr("MDU Coarse Gain", 42, 1); k.arr("MDU Fine Gain", 42, 2); k.arr("MDU Num. Offset", 42, 2); k.arr("PU Gain", 42, 2); k.arr("PU Offset", 27, 2); k.arr("PU Bias", 15, 2);
  N(21) { uint64_t v = k.be(3); char x[8]; snprintf(x, 8, "%03x", (int)(v >> 12)); k.line(Pr::nn("DCR Values", 2 * i), x); snprintf(x, 8, "%03x", (int)(v & 0xfff)); k.line(Pr::nn("DCR Values", 2 * i + 1), x); }
  k.e("Deep Space Win", {"No Delay", "Predefined Delay 1", "Predefined Delay 2", "Predefined delay 3"});
  for (const char* s : {"FCU Nom. CF Temp", "FCU Red. CF Temp", "FCU Nom. WF Temp", "FCU Red. WF Temp", "FCU Nom. SM S1 Temp", "FCU Red. SM S1 Temp", "FCU Nom. SM S2 Temp", "FCU Red. SM S2 Temp", "FCU Nom. M1 S1 Temp", "FCU Red. M1 S1 Temp", "FCU Nom. M1 S2 Temp", "FCU Red. M1 S2 Temp"}) k.u(s, 2);
  for (const char* s : {"FCU Nom. M23 S1 T", "FCU Red. M23 S1 T", "FCU Nom. M23 S2 T", "FCU Red. M23 S2 T"}) k.u(s, 1);
  for (const char* s : {"FCU Nom. M1 Baffle T", "FCU Red. M1 Baffle T", "FCU Nom. BB Sensor T", "FCU Red. BB Sensor T", "FCU Nom. SMM Status", "FCU Red. SMM Status"}) k.u(s, 2);
  N(12) { k.line(Pr::nn("CHANNEL", i), ""); k.u("Number of Pix. Used", 4); k.r4("Mean Count"); k.r4("RMS"); k.u("Max Count", 2); k.u("Min Count", 2); k.r8("Processing Slope"); k.r8("Processing Offset"); }
  N(12) { k.line(Pr::nn("CHANNEL", i), ""); k.e("Image Quality", {"IMPF Calibration OK", "IMPF Calibration Dubious", "Use MPEF calibration"}); k.e("Reference data", {"Not calculated", "Meteorological data", "Foreign satellite data", "Both meteo and foreign satellite"});
    k.e("Absolute Cal. Meth.", {"Not changed", "External", "Vicarious", "Cross satellite", "Mixed vicarious and cross satellite"}); k.be(1);
    for (const char* s : {"Abs Cal Weight Vic.", "Abs Cal Weight Xsat.", "Abs Cal Coefficient", "Abs Cal Error", "Cal Mon Bias", "Cal Mon RMS", "Offset Count"}) k.r4(s); }
}

static std::string content(pbt::Ctx& c, size_t n) {
  auto v = c.bytes(n); std::string b((char*)v.data(), n);
  switch (c.below(4)) {
    case 0: break;
    // sparse and small contents: enumeration codes and flags in their ranges
    case 1: { pbt::Rng g(c.below(1 << 30)); for (auto& x : b) if (g.next() >> 63) x = 0; break; }
    case 2: { pbt::Rng g(c.below(1 << 30)); for (auto& x : b) { x = (unsigned char)x % 5; if ((g.next() >> 62) == 3) x = 0xff; } break; }
    default: for (auto& x : b) x = (unsigned char)x % 6; break;
  }
  return b;
}
static std::string gentime(pbt::Ctx& c) { char x[96]; snprintf(x, sizeof x, "%04d%02d%02d%02d%02d%02dZ", (int)c.range(1958, 2099), (int)c.range(1, 12), (int)c.range(1, 28), (int)c.below(24), (int)c.below(60), (int)c.below(60)); return x; }

PBT_SUB("prologue", 900, 40000) {
  std::string b = content(c, xg::PRO_LEN);
  xg::put(b, xg::PRO_CEL + 12, gentime(c) + gentime(c));
  size_t extra = c.chance(1, 3) ? c.below(20000) : 0;
  c.describe(Str() << "prologue, first bytes " << (int)(unsigned char)b[0] << " " << (int)(unsigned char)b[1] << ", " << extra << " more bytes");
  xg::Image im; c.dir();
  xg::save("f", xg::file(128, xg::rec_annot(im.annot("_________", "PRO", "__")) + xg::rec_time(1, 2), b + std::string(extra, 'x')));
  std::ifstream in("f", std::ios::binary);
  MSG_header h(in); MSG_data d(in, h);
  PBT_CHECK(c, d.prologue && !d.epilogue && !d.image && !d.sdsprologue, "kind of data");
  c.nontrivial();
  Cur k{c, b, 0};
  check_sat(k, d.prologue->sat_status); expect_at(k, xg::PRO_ACQ, "acquisition");
  check_acq(k, d.prologue->image_acquisition); expect_at(k, xg::PRO_CEL, "celestial");
  check_cel(k, d.prologue->celestial_events); expect_at(k, xg::PRO_DESC, "description");
  check_desc(k, d.prologue->image_description); expect_at(k, xg::PRO_RAD, "radiometric");
  check_rad(k, d.prologue->radiometric_proc); expect_at(k, xg::PRO_GEO, "geometric");
  check_geo(k, d.prologue->geometric_proc); expect_at(k, xg::PRO_LEN, "end");
  check_desc_printed(c, b, xg::PRO_DESC, d.prologue->image_description);
  check_bb_printed(c, b, xg::PRO_RAD, d.prologue->radiometric_proc);
}

PBT_SUB("epilogue", 900, 40000) {
  std::string b = content(c, xg::EPI_LEN);
  size_t extra = c.chance(1, 3) ? c.below(2000) : 0;
  c.describe(Str() << "epilogue, " << extra << " more bytes");
  xg::Image im; c.dir();
  xg::save("f", xg::file(129, xg::rec_annot(im.annot("_________", "EPI", "__")) + xg::rec_time(1, 2), b + std::string(extra, 'x')));
  std::ifstream in("f", std::ios::binary);
  MSG_header h(in); MSG_data d(in, h);
  PBT_CHECK(c, d.epilogue && !d.prologue && !d.image, "kind of data");
  c.nontrivial();
  Cur k{c, b, 1};
  check_stats(k, d.epilogue->product_stats); expect_at(k, 341, "navigation");
  check_navig(k, d.epilogue->navig_result); expect_at(k, 6021, "radiometric quality");
  check_radq(k, d.epilogue->radiometric_qlty); expect_at(k, 377277, "geometric quality");
  check_geoq(k, d.epilogue->geometric_qlty); expect_at(k, 380193, "timeliness");
  check_time(k, d.epilogue->timelin_comple); expect_at(k, xg::EPI_LEN, "end");
}

PBT_SUB("processing configuration", 4000, 100000) {
  std::string b = content(c, 19786);
  c.describe("configuration record");
  c.nontrivial();
  std::unique_ptr<MSG_data_IMPFConfiguration> m(new MSG_data_IMPFConfiguration);
  size_t n = m->read_from((unsigned const char_1*)b.data());
  PBT_CHECK(c, n == b.size(), "the record is taken to be " << n << " bytes long");
  Cur k{c, b, 0};
  check_impf(k, *m); expect_at(k, 19786, "end");
}

PBT_MAIN("P06", "a prologue, epilogue or configuration record of generated bytes, every decoded field compared with the layout table")
