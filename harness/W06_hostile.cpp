// SOURCES Spiht/src/Spiht_Dec.cpp
// ENTRY w06_lists shards=8 args="--policy no_merge 1" bound="blocks of 16 and 32 coefficients, depths 0, 1, 2 and 15, any values of 7 neighbouring symbols from any of 8 starts, all others 0 or all 1" covers=end
// ENTRY w06_header args="--policy no_merge 1" bound="blocks of 16 to 256 coefficients, any depth 0-15 and 4 scales, all list symbols 0 or all 1" covers=end
// ENTRY w06_next shards=2 args="--policy no_merge 1" bound="a block with any values of 5 neighbouring symbols, then a fixed block on the same decoder, lengths 16 and 32 in any order" covers=end
// ENTRY w06_lists_deep args="--policy no_merge 1" tier=thorough shards=16 timeout=850 bound="as w06_lists for 10 symbols and lengths to 64" covers=end
// ASSUME the arithmetic decoder is replaced by a source of arbitrary symbols, which covers every bit stream (W06_codec runs the real one)
#include <sx.h>
#include <Spiht/include/Spiht_Dec.h>
using namespace haptics::spiht;
static int head[12];
static int from, width, rest, at, limit;
static bool scripted;
void ArithDec::initDecoding(std::vector<unsigned char> &) { at = 0; }
int ArithDec::decode(int context) {
  int i = at++;
  sx_assert(context >= 0 && context < 7, "symbols are read in a context of the model");
  if (i > limit) {
    sx_fail("the decoder stops after a bounded number of symbols");
    return 0;
  }
  if (i < 12) return head[i];
  i -= 12;
  if (scripted) return (i * i + i / 3) % 3 == 1;
  return i >= from && i < from + width ? (int)sx_bool("symbol") : rest;
}
void ArithDec::resetCounter() {}
void ArithDec::convert2bits(std::vector<unsigned char> &, std::vector<unsigned char> &) {}
static void announce(int depth, int bl) {
  for (int i = 0; i < 4; i++) head[i] = depth >> i & 1;
  limit = 12 + (depth + 1) * 8 * bl;
}
static std::vector<int> decode(Spiht_Dec &dec, int bl, int depth) {
  std::vector<unsigned char> in;
  std::vector<int> out;
  double scale = -1;
  int bits = -1;
  announce(depth, bl);
  dec.decodeEffect(in, out, bl, scale, bits);
  sx_assert(bits == depth, "the announced depth is used");
  sx_assert(scale >= 0 && scale < 32, "the scale is one the format can carry");
  sx_assert((int)out.size() == bl, "one block of coefficients is produced");
  int m = 2 << depth;
  for (int v : out) sx_assert((v < m) & (v > -m), "every coefficient is below the announced depth");
  return out;
}
static const int DEPTHS[4] = {0, 1, 2, 15};
static void lists(int lengths, int w, int starts) {
  int bl = 16 << sx_choice("len", lengths), depth = DEPTHS[sx_choice("depth", 4)];
  rest = sx_choice("rest", 2);
  from = sx_choice("start", starts) * 6;
  width = w;
  Spiht_Dec dec;
  decode(dec, bl, depth);
  sx_cover("end");
}
ENTRY(w06_lists) { lists(2, 7, 8); }
ENTRY(w06_lists_deep) { lists(3, 10, 16); }
ENTRY(w06_header) {
  int bl = 16 << sx_choice("len", 5), depth = sx_choice("depth", 16);
  rest = sx_choice("rest", 2);
  for (int i = 4; i < 12; i++) head[i] = i == 11 || i == 8 ? (int)sx_bool("scale") : i & 1;
  Spiht_Dec dec;
  decode(dec, bl, depth);
  sx_cover("end");
}
ENTRY(w06_next) {
  int b1 = 16 << sx_choice("len1", 2), b2 = 16 << sx_choice("len2", 2);
  rest = sx_choice("rest", 2);
  from = sx_choice("start", 3) * 6;
  width = 5;
  Spiht_Dec used, fresh;
  decode(used, b1, 1);
  scripted = true;
  sx_assert(decode(used, b2, 2) == decode(fresh, b2, 2), "the next block decodes as with a fresh decoder");
  sx_cover("end");
}
