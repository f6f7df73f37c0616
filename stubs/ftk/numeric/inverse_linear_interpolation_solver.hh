// Declaration-only stand-in for the FTK header that the 3D compressor includes: enough to parse and type-check it; never linked or run.
// The test is summarised as a pure function of the twelve components of the simplex.
#pragma once
extern "C" double cpsz_ftk_lerp3(double, double, double, double, double, double, double, double, double, double, double, double) __attribute__((const));
namespace ftk {
template <typename T, typename C, typename D> inline bool inverse_lerp_s3v3(const T V[4][3], T *, C, D) {
  return cpsz_ftk_lerp3(V[0][0], V[1][0], V[2][0], V[3][0], V[0][1], V[1][1], V[2][1], V[3][1], V[0][2], V[1][2], V[2][2], V[3][2]) != 0;
}
}
