// SOURCES FilterBank/src/Wavelet.cpp
// ENTRY w03_recon shards=4 timeout=850 args="--real --linear" bound="blocks of 8, 16 and 32 (thorough 64) arbitrary samples in [-1, 1], every number of levels from 1 to log2(length/4)" covers=end
// ENTRY w03_impulse shards=4 timeout=850 args="--real --linear" bound="blocks of 64 and 128 (thorough 256) samples, one arbitrary sample at any of 8 positions over a fixed pattern, 1, 2 and the maximal number of levels" covers=end
// ENTRY w03_reuse args="--real --linear" bound="two blocks of 16 arbitrary samples through one transform object into buffers that hold other values" covers=end
// ENTRY w03_twice args="--real --linear" bound="the transform of a sum of two blocks of 16 arbitrary samples is the sum of the transforms" covers=end
// ASSUME real arithmetic stands for double rounding (tolerance 1e-9 relative to the amplitude); coefficients of affine expressions are rounded to multiples of 2^-128
#include <sx.h>
#include <FilterBank/include/Wavelet.h>
using haptics::filterbank::Wavelet;
static void recon(const std::vector<double> &s, int levels) {
  std::vector<double> in = s, coef, out(s.size(), 0);
  Wavelet w;
  w.DWT(in, levels, coef);
  sx_assert(coef.size() == s.size(), "as many coefficients as samples");
  w.inv_DWT(coef, levels, out);
  sx_assert(out.size() == s.size(), "as many samples as coefficients");
  for (size_t i = 0; i < s.size(); i++) {
    sx_assert(in[i] == s[i], "the input is not changed");
    sx_assert((out[i] - s[i] <= 1e-9) & (s[i] - out[i] <= 1e-9), "every sample is reconstructed");
  }
  sx_cover("end");
}
static std::vector<double> any(const char *n, int len) {
  std::vector<double> v;
  for (int i = 0; i < len; i++) v.push_back(sx_f64(n, -1, 1));
  return v;
}
#ifdef SX_THOROUGH
constexpr int L = 4; // 8 to 64, impulses 64 to 256
#else
constexpr int L = 3;
#endif
ENTRY(w03_recon) {
  int k = sx_choice("len", L), levels = 1 + sx_choice("levels", k + 1);
  recon(any("v", 8 << k), levels);
}
ENTRY(w03_impulse) {
  int k = sx_choice("len", L - 1), n = 64 << k, l = sx_choice("levels", 3);
  std::vector<double> s;
  for (int i = 0; i < n; i++) s.push_back((i * 37 % 64) / 64.0 - 0.5);
  int p = sx_choice("pos", 8);
  s[p < 3 ? p : p < 6 ? n - 1 - (p - 3) : n / 2 - 1 + (p - 6)] = sx_f64("v", -1, 1);
  recon(s, l == 2 ? 4 + k : l + 1);
}
ENTRY(w03_reuse) {
  Wavelet w;
  std::vector<double> coef(16, 5.0), out(16, 7.0);
  for (int r = 0; r < 2; r++) {
    auto s = any("v", 16);
    w.DWT(s, 2, coef);
    w.inv_DWT(coef, 2, out);
    for (int i = 0; i < 16; i++) sx_assert((out[i] - s[i] <= 1e-9) & (s[i] - out[i] <= 1e-9), "every sample is reconstructed whatever the buffers held");
  }
  sx_cover("end");
}
ENTRY(w03_twice) {
  Wavelet w;
  auto a = any("a", 16), b = any("b", 16);
  std::vector<double> s, ca, cb, cs;
  for (int i = 0; i < 16; i++) s.push_back(a[i] + b[i]);
  w.DWT(a, 2, ca);
  w.DWT(b, 2, cb);
  w.DWT(s, 2, cs);
  for (int i = 0; i < 16; i++) {
    double d = cs[i] - ca[i] - cb[i];
    sx_assert((d <= 1e-9) & (d >= -1e-9), "the transform is linear");
  }
  sx_cover("end");
}
