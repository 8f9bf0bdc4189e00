// SOURCES Tools/src/Tools.cpp
// ENTRY i01_linear args="--real" bound="two points starting at 0, -7, 1000 or 2^20 with gaps 1, 2, 3, 10, 1000 or 2^20, any values in [-1000, 1000], any query time" covers=in,out
// ENTRY i01_same bound="two points at the same position, any finite values and query time" covers=end
// ENTRY i01_norm args="--real" bound="any input and output ranges within +-1000 (input width at least 1e-3), any two input values in range" covers=end
// ENTRY i01_chirp args="--real" bound="two points (positions as in i01_linear) in either order or equal, frequencies in [0, 10000], any time between" covers=end,same
// ENTRY i01_lin2 shards=4 args="--real" bound="lists of 2-4 points starting at 0 with gaps of 1-4, any values in [-1000, 1000]" covers=end
// ENTRY i01_cub2 shards=4 args="--real" bound="lists of 2-4 points starting at 0 with gaps of 1-4, any values in [-1000, 1000]" covers=end
// ENTRY i01_codec shards=4 args="--real" bound="as above for both curve types of the codec interpolation; other curve types give zero" covers=end
// ENTRY i01_spline shards=2 args="--real" bound="lists of 2-4 points starting at 0 with gaps of 1-3, any values in [-1000, 1000]" covers=end
// ENTRY i01_akima shards=2 args="--real" bound="lists of 3-4 points starting at 0 with gaps of 1-3, any values in [-1000, 1000]" covers=end
// ENTRY i01_dup bound="8 patterns of 2-4 points some of which share a position, two values each: finite values, one per time, for linear, cubic, spline and Akima curves" covers=end
// ENTRY i01_number bound="every text of up to 4 bytes" covers=yes,no
// ENTRY i01_pow2 bound="every int" covers=yes,no
// ASSUME real arithmetic stands for double rounding in the curve entries (tolerance 1e-6 where equality is asserted after division)
#include <sx.h>
#include <Tools/include/Tools.h>
using namespace haptics;
typedef std::vector<std::pair<int, double>> PL;
static bool near(double a, double b) { return (a - b <= 1e-6) & (b - a <= 1e-6); }
constexpr int M = 1 << 24;
static const int T0[4] = {0, -7, 1000, 1 << 20}, GAP[6] = {1, 2, 3, 10, 1000, 1 << 20};
ENTRY(i01_linear) {
  int t0 = T0[sx_choice("t0", 4)], t1 = t0 + GAP[sx_choice("gap", 6)];
  double a = sx_f64("a", -1000, 1000), b = sx_f64("b", -1000, 1000), x = sx_f64("x", -2.0 * M, 2.0 * M);
  double r = tools::linearInterpolation({t0, a}, {t1, b}, x);
  double lo = a < b ? a : b, hi = a < b ? b : a;
  sx_assert((r >= lo - 1e-6) & (r <= hi + 1e-6), "linear interpolation stays between the two values");
  sx_assert((x > t0) | near(r, a), "before and at the first point the value is the first one");
  sx_assert((x < t1) | near(r, b), "at and after the second point the value is the second one");
  bool in = (x >= t0) & (x <= t1);
  double d1 = (r - a) * (t1 - t0), d2 = (b - a) * (x - t0);
  sx_assert(!in | ((d1 - d2 <= 1e-3) & (d2 - d1 <= 1e-3)), "the value grows proportionally to time");
  if (in) sx_cover("in"); else sx_cover("out");
}
ENTRY(i01_same) {
  int t = sx_range("t", -M, M);
  double a = sx_f64("a", -1000, 1000), b = sx_f64("b", -1000, 1000), x = sx_f64("x", -2.0 * M, 2.0 * M);
  double r = tools::linearInterpolation({t, a}, {t, b}, x);
  sx_assert((r == a) | (r == b), "interpolation between coincident points gives one of their values");
  sx_assert((x >= t) | (r == a), "before the points the first value holds");
  sx_assert((x <= t) | (r == b), "after the points the second value holds");
  sx_cover("end");
}
ENTRY(i01_norm) {
  double a = sx_f64("a", -1000, 1000), b = sx_f64("b", -1000, 1000), c = sx_f64("c", -1000, 1000), d = sx_f64("d", -1000, 1000);
  sx_assume((b - a >= 1e-3));
  double fa = tools::genericNormalization(a, b, c, d, a), fb = tools::genericNormalization(a, b, c, d, b);
  sx_assert(near(fa, c), "the start of the input range maps to the start of the output range");
  sx_assert(near(fb, d), "the end of the input range maps to the end of the output range");
  double x = sx_f64("x", -1000, 1000), y = sx_f64("y", -1000, 1000);
  sx_assume((x <= y) & (a <= x) & (y <= b));
  double fx = tools::genericNormalization(a, b, c, d, x), fy = tools::genericNormalization(a, b, c, d, y);
  double dx = (fx - c) * (b - a), ex = (x - a) * (d - c);
  sx_assert((dx - ex <= 1e-3) & (ex - dx <= 1e-3), "normalisation is proportional");
  sx_assert((d < c) | (fx <= fy + 1e-6), "normalisation is monotonic");
  sx_assert((d > c) | (fx >= fy - 1e-6), "normalisation onto a reversed range is monotonic");
  sx_cover("end");
}
ENTRY(i01_chirp) {
  int t0 = T0[sx_choice("t0", 4)], t1 = t0 + GAP[sx_choice("gap", 6)];
  if (sx_choice("rev", 2)) std::swap(t0, t1);
  if (sx_choice("same", 2)) t1 = t0;
  double f0 = sx_f64("f0", 0, 10000), f1 = sx_f64("f1", 0, 10000), x = sx_f64("x", -1.0 * M, M);
  if (t0 == t1) {
    sx_assert(tools::chirpInterpolation(t0, t1, f0, f1, x) == f1, "a chirp of zero length has its end frequency");
    sx_cover("same");
    return;
  }
  double r = tools::chirpInterpolation(t0, t1, f0, f1, x);
  double s0 = t0 < t1 ? f0 : f1, s1 = t0 < t1 ? f1 : f0, a = t0 < t1 ? t0 : t1, b = t0 < t1 ? t1 : t0;
  double d1 = (r - s0) * 2 * (b - a), d2 = (s1 - s0) * (x - a);
  sx_assert((d1 - d2 <= 1e-3) & (d2 - d1 <= 1e-3), "the average frequency since the start of a chirp grows linearly to the mean of both ends");
  sx_cover("end");
}
static PL points(int lo, int hi, int maxgap, bool grid = false) {
  int n = lo + sx_choice("n", hi - lo + 1);
  PL p;
  int t = 0;
  for (int i = 0; i < n; i++) {
    if (i) t += 1 + sx_choice("gap", n == 4 && i > 1 ? 2 : maxgap);
    static const double G[5] = {0, 1, -1, 0.25, -0.5};
    p.push_back({t, grid ? G[sx_choice("v", 5)] : sx_f64("v", -1000, 1000)});
  }
  return p;
}
static void check(const PL &p, const std::vector<double> &r, int kind) {
  sx_assert((int)r.size() == p.back().first + 1, "one value per integer time from the first to the last point");
  size_t s = 0;
  for (int t = 0; t <= p.back().first; t++) {
    while (s + 2 < p.size() && p[s + 1].first < t) s++;
    double a = p[s].second, b = p[s + 1].second, v = r[t];
    if (t == p[s].first) sx_assert(near(v, a), "the curve passes through its points");
    if (t == p[s + 1].first) sx_assert(near(v, b), "the curve passes through its points");
    if (kind == 2) continue;
    double lo = a < b ? a : b, hi = a < b ? b : a;
    sx_assert((v >= lo - 1e-6) & (v <= hi + 1e-6), "the curve stays between neighbouring points");
    double u = (double)(t - p[s].first) / (p[s + 1].first - p[s].first);
    double want = kind == 0 ? a + (b - a) * u : a + (b - a) * (u * u * (3 - 2 * u));
    sx_assert(near(v, want), kind == 0 ? "linear between points" : "smoothstep between points");
  }
  sx_cover("end");
}
ENTRY(i01_lin2) { PL p = points(2, 4, 4); check(p, tools::linearInterpolation2(p), 0); }
ENTRY(i01_cub2) { PL p = points(2, 4, 4); check(p, tools::cubicInterpolation2(p), 1); }
ENTRY(i01_codec) {
  int k = sx_choice("curve", 3);
  PL p = points(2, 4, 4);
  if (k == 2) {
    static const types::CurveType C[4] = {types::CurveType::Akima, types::CurveType::Bezier, types::CurveType::Bspline, types::CurveType::Unknown};
    std::vector<double> r = tools::interpolationCodec(p, C[sx_choice("other", 4)]);
    sx_assert((int)r.size() == p.back().first + 1, "one value per integer time from the first to the last point");
    for (double v : r) sx_assert(v == 0, "unsupported curves are silent");
    sx_cover("end");
    return;
  }
  check(p, tools::interpolationCodec(p, k ? types::CurveType::Cubic : types::CurveType::Linear), k);
}
ENTRY(i01_spline) { PL p = points(2, 4, 3); check(p, tools::cubicInterpolation(p), 2); }
ENTRY(i01_akima) { PL p = points(3, 4, 3); check(p, tools::akimaInterpolation(p), 2); }
ENTRY(i01_dup) {
  PL p;
  static const int T[8][4] = {{0, 0, 3, 3}, {0, 3, 3, 5}, {0, 2, 2, 2}, {0, 0, 0, 0}, {0, 0, 0, 4}, {0, 0, 1, 2}, {0, 1, 2, 2}, {0, 1, 1, 3}};
  int k = sx_choice("k", 8), n = 2 + sx_choice("n", 3);
  for (int i = 0; i < n; i++) p.push_back({T[k][i], sx_choice("v", 2) ? 1.0 : -0.5});
  int curve = sx_choice("curve", 4);
  std::vector<double> r = curve == 0 ? tools::linearInterpolation2(p) : curve == 1 ? tools::cubicInterpolation2(p) : curve == 2 ? tools::cubicInterpolation(p) : tools::akimaInterpolation(p);
  sx_assert((int)r.size() == p.back().first + 1, "one value per integer time");
  double b = curve < 2 ? 0 : 10;
  for (double v : r) sx_assert((v >= -0.5 - b) & (v <= 1 + b), "coincident points give finite values in range");
  sx_cover("end");
}
ENTRY(i01_number) {
  int n = sx_choice("n", 5);
  std::string s;
  bool ok = n > 0;
  for (int i = 0; i < n; i++) {
    char c = (char)sx_u("c", 8);
    s.push_back(c);
    ok &= (c >= '0') & (c <= '9');
  }
  bool r = tools::isNumber(s);
  sx_assert(r == ok, "a text is a number exactly when it is a non-empty digit string");
  if (r) sx_cover("yes"); else sx_cover("no");
}
ENTRY(i01_pow2) {
  int n = sx_int("n");
  sx_assume(n > INT32_MIN);
  bool want = false;
  for (int k = 0; k < 31; k++) want |= n == (1 << k);
  bool r = tools::isPowerOfTwo(n);
  sx_assert(r == want, "power of two test");
  if (r) sx_cover("yes"); else sx_cover("no");
}
