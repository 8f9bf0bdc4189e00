// Stand-in for the header of the third-party IIR filter library (not available offline).  Only the
// declarations the repository's headers need; the filters themselves are outside the checks' scope.
#pragma once
namespace Iir::Butterworth {
template <int N> struct LowPass {
  void setup(double, double) {}
  void reset() {}
  double filter(double x) { return x; }
};
template <int N> struct HighPass : LowPass<N> {};
} // namespace Iir::Butterworth
