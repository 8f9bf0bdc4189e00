// SOURCES BINARY
// ENTRY b05_amp bound="amplitude fields (8 bits, -1 to 1): every 32-bit float except NaN, bit-precise rounding" covers=end
// ENTRY b05_amp_mono bound="amplitude fields: every ordered pair of 32-bit floats, bit-precise rounding" covers=end
// ENTRY b05_restore bound="every code of the 8-bit amplitude field read, stored and read again, bit-precise rounding" covers=end
// ENTRY b05_store args="--real" bound="all four range/width pairs of the formats (8, 16 and 32 bits): every real value, exact real arithmetic" covers=end
// ENTRY b05_load args="--real" bound="all four range/width pairs: every code, both readers, exact real arithmetic" covers=end
// ENTRY b05_ends bound="the end points of every range, bit-precise rounding" covers=end
// ASSUME for the 16 and 32-bit fields rounding of float arithmetic is modelled only at the end points; elsewhere arithmetic is exact reals, and the tolerance admits single-precision error
#include "common_bits.h"
#include <limits>
using haptics::io::IOBinaryPrimitives;
using namespace haptics::io;
template <class T, int N> static float rd(uint64_t &code, std::vector<bool> bits, float lo, float hi) {
  sx_assert(bits.size() == N, "a quantised field takes its width");
  code = 0;
  for (int i = 0; i < N; i++) code = code * 2 + (bits[i] ? 1 : 0);
  int idx = 0;
  float s = IOBinaryPrimitives::readFloatNBits<N>(bits, idx, lo, hi);
  sx_assert(idx == N, "reading a quantised field moves by its width");
  bitsToFile(bits, "q.bin");
  std::ifstream f("q.bin", std::ios::in | std::ios::binary);
  std::vector<bool> un;
  float r = IOBinaryPrimitives::readFloatNBits<T, N>(f, lo, hi, un);
  sx_assert(r == s, "file and stream readers agree");
  return r;
}
template <class T, int N> static float through(uint64_t &code, float v, float lo, float hi) {
  std::vector<bool> bits;
  IOBinaryPrimitives::writeFloatNBits<T, N>(v, bits, lo, hi);
  return rd<T, N>(code, bits, lo, hi);
}
template <class T, int N> static void once(float v, float lo, float hi, double slack) {
  uint64_t c;
  float r = through<T, N>(c, v, lo, hi);
  sx_assert(r >= lo && r <= hi, "the value read lies in the range of the field");
  float k = v < lo ? lo : v > hi ? hi : v;
  double step = ((double)hi - (double)lo) / (double)((1ull << N) - 1);
  double d = (double)r - (double)k;
  sx_assert(d <= step + slack && d >= -(step + slack), "the value read is within one step of the value stored");
  sx_observe_d("r", r);
}
template <class T, int N> static void mono(float a, float b, float lo, float hi) {
  uint64_t ca, cb;
  sx_assume(a <= b);
  float ra = through<T, N>(ca, a, lo, hi), rb = through<T, N>(cb, b, lo, hi);
  sx_assert(ca <= cb && ra <= rb, "a larger value never reads back smaller");
}
template <class T, int N> static void again(uint64_t code, float lo, float hi) {
  std::vector<bool> bits;
  for (int i = 0; i < N; i++) bits.push_back((code >> (N - 1 - i)) & 1);
  uint64_t c0, c1;
  float r = rd<T, N>(c0, bits, lo, hi);
  sx_assert(r >= lo && r <= hi, "every code reads inside the range");
  through<T, N>(c1, r, lo, hi);
  sx_assert(c1 == c0 || c1 + 1 == c0 || c1 == c0 + 1, "storing a value read before moves it by at most one step");
  sx_observe_u("c1", c1);
}
static float anyFloat(const char *n) {
  float v = sx_raw_f32(n);
  sx_assume(v == v);
  return v;
}
ENTRY(b05_amp) {
  once<uint8_t, 8>(anyFloat("v"), -MAX_AMPLITUDE, MAX_AMPLITUDE, 1e-6);
  sx_cover("end");
}
ENTRY(b05_amp_mono) {
  mono<uint8_t, 8>(anyFloat("a"), anyFloat("b"), -MAX_AMPLITUDE, MAX_AMPLITUDE);
  sx_cover("end");
}
ENTRY(b05_restore) {
  again<uint8_t, 8>(sx_u("code", 8), -MAX_AMPLITUDE, MAX_AMPLITUDE);
  sx_cover("end");
}
template <class T, int N> static uint64_t wcode(float v, float lo, float hi) {
  std::vector<bool> A;
  IOBinaryPrimitives::writeFloatNBits<T, N>(v, A, lo, hi);
  sx_assert(A.size() == N, "a quantised field takes its width");
  uint64_t c = 0;
  for (int i = 0; i < N; i++) c = c * 2 + (uint64_t)(bool)A[i];
  return c;
}
// the code chosen for a value, against the exact position of the value on the scale
template <class T, int N> static void store(float lo, float hi) {
  float a = anyFloat("a");
  double k = a < lo ? lo : a > hi ? hi : a;
  double x = (k - lo) / ((double)hi - lo) * (double)((1ull << N) - 1);
  double c = (double)wcode<T, N>(a, lo, hi);
  double slack = 1 + (double)((1ull << N) - 1) * 2e-7;  // 32-bit codes are finer than single precision
  sx_assert(c - x <= slack && x - c <= slack, "the code stored is within one step of the value");
}
template <class T, int N> static void load(float lo, float hi) {
  uint64_t c = sx_u("c", N), x;
  std::vector<bool> A;
  for (int i = 0; i < N; i++) A.push_back((c >> (N - 1 - i)) & 1);
  float r = rd<T, N>(x, A, lo, hi);
  double want = (double)c * (((double)hi - lo) / (double)((1ull << N) - 1)) + lo;
  double d = (double)r - want;
  double slack = ((double)hi - lo) * 1e-7;
  sx_assert(d <= slack && d >= -slack, "a code reads as its place in the range");
  sx_assert(r >= lo && r <= hi, "every code reads inside the range");
  sx_observe_d("r", r);
}
#define FIELDS(F) \
  switch (sx_choice("field", 4)) { \
  case 0: F<uint8_t, 8>(-MAX_AMPLITUDE, MAX_AMPLITUDE); break; \
  case 1: F<uint16_t, 16>(0, MAX_PHASE); break; \
  case 2: F<uint32_t, 32>(0, MAX_FLOAT); break; \
  case 3: F<uint32_t, 32>(-MAX_FLOAT, MAX_FLOAT); break; \
  } \
  sx_cover("end");
ENTRY(b05_store) { FIELDS(store) }
ENTRY(b05_load) { FIELDS(load) }
// storing a value read before: b05_load (exact) and b05_store (one step) together bound the move
template <class T, int N> static void ends(float lo, float hi) {
  uint64_t c;
  const float inf = std::numeric_limits<float>::infinity();
  sx_assert(through<T, N>(c, lo, lo, hi) == lo && c == 0, "the lower end of the range is kept");
  sx_assert(through<T, N>(c, hi, lo, hi) == hi && c == (1ull << N) - 1, "the upper end of the range is kept");
  sx_assert(through<T, N>(c, -inf, lo, hi) == lo && through<T, N>(c, inf, lo, hi) == hi, "values beyond the range are clamped");
}
ENTRY(b05_ends) {
  ends<uint8_t, 8>(-MAX_AMPLITUDE, MAX_AMPLITUDE);
  ends<uint16_t, 16>(0, MAX_PHASE);
  ends<uint32_t, 32>(0, MAX_FLOAT);
  ends<uint32_t, 32>(0, MAX_FREQUENCY);
  ends<uint32_t, 32>(-MAX_FLOAT, MAX_FLOAT);
  sx_cover("end");
}
