// The geostationary projection, worked out on its own with vectors
#pragma once
#include <cmath>
namespace geosm {
static const double A = 6378169.0, F = 1 / 295.488065897, H = 35785831.0, R2D = 180 / M_PI;
static const double B = A * (1 - F);
// Projected coordinates (metres) to degrees. Margin tells how far the line of
// sight is from the limb: > 0 sees the Earth, < 0 misses it
inline bool inverse(double X, double Y, double lon0, double& lat, double& lon, double& margin) {
  double ax = X / H, ay = Y / H; // scan angles
  if (fabs(ax) > 1.5 || fabs(ay) > 1.5) { margin = -1; return false; }
  double d[3] = {-1, tan(ax), 0}; d[2] = tan(ay) * sqrt(1 + d[1] * d[1]);
  double s = A + H, q = (A / B) * (A / B);
  // |(s,0,0) + k d| on the ellipsoid
  double qa = d[0] * d[0] + d[1] * d[1] + q * d[2] * d[2], qb = 2 * s * d[0], qc = s * s - A * A;
  double det = qb * qb - 4 * qa * qc;
  margin = det / (qb * qb);
  if (det < 0) return false;
  double k = (-qb - sqrt(det)) / (2 * qa);
  double p[3] = {s + k * d[0], k * d[1], k * d[2]};
  lon = lon0 + atan2(p[1], p[0]) * R2D;
  lat = atan2(p[2] * q, sqrt(p[0] * p[0] + p[1] * p[1])) * R2D;
  return true;
}
// Degrees to projected coordinates; visible > 0: the place sees the satellite
inline void forward(double lat, double lon, double lon0, double& X, double& Y, double& visible) {
  double fi = lat / R2D, la = (lon - lon0) / R2D;
  double N = A / sqrt(1 - (1 - (B / A) * (B / A)) * sin(fi) * sin(fi));
  double n[3] = {cos(fi) * cos(la), cos(fi) * sin(la), sin(fi)};
  double p[3] = {N * n[0], N * n[1], N * (B / A) * (B / A) * n[2]};
  double v[3] = {A + H - p[0], -p[1], -p[2]};
  visible = (v[0] * n[0] + v[1] * n[1] + v[2] * n[2]) / sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
  X = H * atan2(-v[1], v[0]); Y = H * atan2(-v[2], sqrt(v[0] * v[0] + v[1] * v[1]));
}
inline double londiff(double a, double b) { double d = fmod(a - b, 360); if (d > 180) d -= 360; if (d < -180) d += 360; return fabs(d); }
} // namespace geosm
