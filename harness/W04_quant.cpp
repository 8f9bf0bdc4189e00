// SOURCES TYPES WAVELET
// ENTRY w04_quant shards=4 args="--real --policy no_merge 1 --policy fork_select 1" bound="any coefficients of magnitude up to 40 (3 per call, arbitrary position of the quantised part), 10 scales, bit depths 0-15" covers=zero,clipped,inside
// ENTRY w04_scale shards=8 args="--real --policy no_merge 1 --policy fork_select 1" bound="any coefficient of magnitude up to 10^6 alone or with one or two of 4 others, by intervals of magnitudes that cover both ranges: the scale and its eight transmitted bits" covers=small,large,saturated
// ENTRY w04_scale_fp tier=thorough timeout=800 shards=8 args="--policy no_merge 1 --policy fork_select 1" bound="the same for any double in 16 of the intervals of each range, with floating-point semantics" covers=small,large,saturated
// ENTRY w04_repeat bound="all 256 transmitted scales: coding a scale again gives the same bits" covers=end
// ASSUME the perceptual model of the encoder is replaced by a fixed one (it only steers the bit allocation)
#include <sx.h>
#include <Encoder/include/WaveletEncoder.h>
#include <Spiht/include/Spiht_Dec.h>
#include <Spiht/include/Spiht_Enc.h>
using haptics::encoder::WaveletEncoder;
haptics::tools::PsychohapticModel::PsychohapticModel(size_t b, int f) : bl(b), fs(f) {}
haptics::tools::modelResult haptics::tools::PsychohapticModel::getSMR(std::vector<double> &) {
  return {std::vector<double>(1, 1.0), std::vector<double>(1, 1.0)};
}
ENTRY(w04_quant) {
  static const double MAX[10] = {0, 1 / 128., 0.0625, 0.5, 126 / 128., 127 / 128., 1, 1.125, 10.375, 16.875};
  double max = MAX[sx_choice("max", 10)];
  int bits = sx_choice("bits", 16), start = sx_choice("start", 2), len = 1 + sx_choice("len", 2);
  std::vector<double> in, out(4, 99.0);
  for (int i = 0; i < start; i++) in.push_back(0.25);
  for (int i = 0; i < len; i++) in.push_back(sx_f64("x", -40, 40));
  in.resize(4, 0.25);
  auto copy = in;
  WaveletEncoder::uniformQuant(in, start, max, bits, len, out);
  double delta = max / (1 << bits), top = delta * ((1 << bits) - 1);
  for (int i = 0; i < 4; i++) {
    sx_assert(in[i] == copy[i], "the input is not changed");
    double x = in[i], y = out[i];
    if (i < start || i >= start + len) {
      sx_assert(y == 99, "other coefficients are not touched");
      continue;
    }
    sx_assert((y <= top) & (y >= -top), "the result is representable");
    sx_assert((x > 0) | (y <= 0), "no sign change");
    sx_assert((x < 0) | (y >= 0), "no sign change");
    bool inside = (x <= top) & (x >= -top);
    sx_assert(!inside | ((x - y <= delta / 2 + 1e-12) & (y - x <= delta / 2 + 1e-12)), "values in range move by at most half a step");
    sx_assert((x < top) | (y == top), "values above the range become the largest value");
    sx_assert((x > -top) | (y == -top), "values below the range become the smallest value");
    if (max == 0) sx_cover("zero");
    else if (inside) sx_cover("inside");
    else sx_cover("clipped");
  }
}
static void scale(bool every, double limit) {
  static const double V[4] = {0, 0.25, -0.75, -1.3125};
    static const int CODE[16] = {0, 1, 2, 3, 7, 16, 31, 64, 85, 100, 120, 125, 126, 127, 128, 129};
  int code = every ? sx_choice("code", 130) : CODE[sx_choice("code", 16)];
  int mode = sx_choice("mode", 2), n = code == 3 ? sx_choice("n", 4) * 2 + mode : 0;
  double want = mode ? 1 + code / 8. : code / 128., low = mode ? 1 + (code - 1) / 8. : (code - 1) / 128.;
  // every double: 0..127 a scale, 128 and 129 the two saturated ranges
  bool atone = false, saturated = code > 127;
  if (!mode && code == 128) low = 127 / 128., want = 1;
  if (mode && code == 128) low = 16.875, want = limit;
  if (!mode && code == 129) return;
  if (mode && code == 129) low = limit, want = (every ? 1e6 : 1.7976931348623157e308);
  if (mode && code == 0) low = 1 - 0x1p-53, atone = true;
  double x = sx_f64("x", -(every ? 1e6 : 1.7976931348623157e308), (every ? 1e6 : 1.7976931348623157e308));
  double top = x < 0 ? -x : x;
  if (!mode && code == 128) sx_assume((top > low) & (top < want));
  else if (atone) sx_assume(top == 1);
  else sx_assume((top > low) & (top <= want));
  std::vector<double> s = {x};
  if (n) s.insert(n & 2 ? s.begin() : s.end(), V[(n - 1) / 2 & 3]);
  if (n > 5) s.push_back(0.125);
  if (n && s.size() > 1) for (double v : s) sx_assume((v <= top) & (-v <= top));
  double scale = -1;
  std::vector<unsigned char> bits;
  WaveletEncoder::maximumWaveletCoefficient(s, scale, bits);
  if (saturated) {
    want = mode ? 16.875 : 127 / 128.;
    code = 127;
  }
  sx_assert(scale == want, "the smallest representable scale that bounds every coefficient, the largest of the range beyond it");
  sx_assert(bits.size() == 8, "the scale takes eight bits");
  sx_assert(bits[0] == mode, "the first bit selects the range");
  for (int i = 0; i < 7; i++) sx_assert(bits[1 + i] == ((code >> i) & 1), "the transmitted bits are the scale");
  if (saturated) sx_cover("saturated");
  else if (mode) sx_cover("large");
  else sx_cover("small");
}
ENTRY(w04_scale) { scale(true, 1e3); }
ENTRY(w04_scale_fp) { scale(false, 1e300); }
ENTRY(w04_repeat) {
  int mode = sx_choice("mode", 2), code = sx_choice("code", 128);
  double v = mode ? 1 + code / 8. : code / 128.;
  std::vector<unsigned char> a, b, c;
  WaveletEncoder::maximumWaveletCoefficient(v, a);
  haptics::spiht::Spiht_Enc::maximumWaveletCoefficient(v, b);
  std::vector<double> one = {-v};
  double scale = -1;
  WaveletEncoder::maximumWaveletCoefficient(one, scale, c);
  sx_assert(scale == v, "a representable scale is kept");
  std::vector<unsigned char> want = {(unsigned char)mode};
  for (int i = 0; i < 7; i++) want.push_back((code >> i) & 1);
  sx_assert(a == want, "bits of a transmitted scale");
  sx_assert(b == want, "bits of a transmitted scale");
  sx_assert(c == want, "bits of a transmitted scale");
  sx_cover("end");
}
