// SOURCES Spiht/src/Spiht_Dec.cpp Spiht/src/ArithDec.cpp
// ENTRY w06_arith shards=8 args="--policy no_merge 1" bound="any bit stream of 0-12 bits, any 5 symbols in two contexts, the first context in one of 6 adapted states" covers=end
// ENTRY w06_bytes shards=8 args="--policy no_merge 1" bound="any stream of 0-2 bytes whose first byte announces depth 0 (any values of its other bits) and any second byte, block length 16" covers=end
// ENTRY w06_again args="--policy no_merge 1" bound="any stream of 1 byte with 4 arbitrary bits, then a fixed block on the same decoder" covers=end
#include <sx.h>
#include <vector>
#include <Spiht/include/Spiht_Dec.h>
using namespace haptics::spiht;
static void proper(const ArithDec &d) {
  sx_assert(d.range_lower >= 0 && d.range_upper <= RANGE_MAX && d.range_lower < d.range_upper, "the interval is never empty");
  sx_assert(d.range_diff == d.range_upper - d.range_lower, "the interval width is kept");
  sx_assert((d.in_leading >= d.range_lower) & (d.in_leading < d.range_upper), "the read position stays in the interval");
  sx_assert(d.in_index <= d.max_index, "no bit beyond the stream is read");
}
ENTRY(w06_arith) {
  static const int S[6][2] = {{16, 32}, {1, 32}, {31, 32}, {1, 300}, {299, 300}, {7, 33}};
  int n = sx_choice("n", 13), k = sx_choice("state", 6);
  std::vector<unsigned char> in;
  for (int i = 0; i < n; i++) in.push_back((unsigned char)sx_u("bit", 1));
  ArithDec d;
  d.counter[2] = S[k][0];
  d.counter_total[2] = S[k][1];
  d.initDecoding(in);
  proper(d);
  for (int i = 0; i < 5; i++) {
    int s = d.decode(i % 3 == 2 ? 0 : 2);
    sx_assert((s == 0) | (s == 1), "a symbol is 0 or 1");
    proper(d);
  }
  for (int c = 0; c < 7; c++) sx_assert((d.counter[c] > 0) & (d.counter[c] <= d.counter_total[c]), "the model counts stay sane");
  sx_cover("end");
}
static std::vector<int> decode(Spiht_Dec &dec, std::vector<unsigned char> in, int bl) {
  std::vector<int> out;
  double scale = -1;
  int bits = -1;
  dec.decodeEffect(in, out, bl, scale, bits);
  sx_assert(bits >= 0 && bits < 16 && scale >= 0 && scale < 32, "the announced depth and scale are ones the format can carry");
  sx_assert((int)out.size() == bl, "one block of coefficients is produced");
  int m = 2 << bits;
  for (int v : out) sx_assert((v < m) & (v > -m), "every coefficient is below the announced depth");
  return out;
}
ENTRY(w06_bytes) {
  int n = sx_choice("n", 3);
  std::vector<unsigned char> in;
  if (n > 0) in.push_back((unsigned char)(sx_u("rest", 4) << 4));
  if (n > 1) in.push_back((unsigned char)sx_u("second", 8));
  Spiht_Dec dec;
  decode(dec, in, 16);
  sx_cover("end");
}
ENTRY(w06_again) {
  std::vector<unsigned char> in{(unsigned char)(sx_u("rest", 4) << 4)}, fixed{0x10, 0x35, 0xa7, 0x5c, 0x91};
  Spiht_Dec used, fresh;
  decode(used, in, 16);
  sx_assert(decode(used, fixed, 32) == decode(fresh, fixed, 32), "the next block decodes as with a fresh decoder");
  sx_cover("end");
}
