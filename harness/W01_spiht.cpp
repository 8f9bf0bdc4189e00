// SOURCES Spiht/src/Spiht_Enc.cpp Spiht/src/Spiht_Dec.cpp
// ENTRY w01_one shards=4 bound="blocks of 16, 32 and 64 coefficients with any one of them any value of up to depth+1 bits, every depth 0-7" covers=end
// ENTRY w01_pair shards=8 bound="blocks of 16 coefficients, any values of any two of them of up to depth+1 bits, every depth 0-4" covers=end
// ENTRY w01_pair32 shards=8 bound="blocks of 32 coefficients, any values of any two of them of up to depth+1 bits, depths 1-2" covers=end
// ENTRY w01_all shards=8 bound="blocks of 16 coefficients, any values of 5 (thorough 8) neighbouring ones of up to depth+1 bits, depths 0-1" covers=end
// ENTRY w01_four shards=8 bound="blocks of 16 coefficients, any values of four of them (5 position sets) of up to depth+1 bits, depths 0-1" covers=end
// ENTRY w01_dense shards=4 bound="dense blocks of 16 and 32 coefficients (3 value patterns) with any one replaced by any value, depth 4" covers=end
// ENTRY w01_scale bound="every one of the 256 transmittable scale factors, every depth 0-15, and the all-zero block" covers=end
// ENTRY w01_reuse bound="two blocks through the same coder pair, one arbitrary coefficient (2 bits) each, lengths 16 and 32 in any order" shards=2 covers=end
// ENTRY w01_deep tier=thorough shards=16 timeout=850 bound="as w01_one for lengths up to 128, depths up to 15" covers=end
// ENTRY w01_pairs tier=thorough shards=16 timeout=850 bound="as w01_pair32 for depths 0-6" covers=end
// ASSUME the arithmetic coder below is replaced by a channel that delivers each bit with its context (W02 decides the arithmetic coder, w01_codec runs both together)
#include <sx.h>
#include <Spiht/include/Spiht_Dec.h>
#include <Spiht/include/Spiht_Enc.h>
using namespace haptics::spiht;
static std::vector<unsigned char> bits_;
static std::vector<int> contexts;
static size_t at = 0;
void ArithDec::initDecoding(std::vector<unsigned char> &) { at = 0; }
int ArithDec::decode(int context) {
  if (at >= bits_.size()) {
    sx_fail("the decoder reads only bits the encoder wrote");
    return 0;
  }
  sx_assert(contexts[at] == context, "encoder and decoder use the same context for each bit");
  return bits_[at++];
}
void ArithDec::resetCounter() {}
void ArithDec::convert2bits(std::vector<unsigned char> &, std::vector<unsigned char> &) {}
void ArithEnc::encode(std::vector<unsigned char> &, std::vector<int> &, std::vector<unsigned char> &) {}
void ArithEnc::resetCounter() {}
void ArithEnc::convert2bytes(std::vector<unsigned char> &, std::vector<unsigned char> &) {}
static void roundTrip(Spiht_Enc &enc, Spiht_Dec &dec, std::vector<int> block, int depth, double scale) {
  std::vector<int> in = block;
  int bl = (int)block.size();
  int level = (bl == 16) ? 2 : bl == 32 ? 3 : bl == 64 ? 4 : 5;
  std::vector<unsigned char> wm;
  Spiht_Enc::maximumWaveletCoefficient(scale, wm);
  sx_assert(wm.size() == WAVMAXLENGTH, "scale takes its 8 bits");
  bits_.clear();
  contexts.clear();
  enc.encode(in, level, wm, depth, bits_, contexts);
  sx_assert(bits_.size() == contexts.size(), "one context per bit");
  sx_assert(in == block, "the input is not changed");
  std::vector<int> out;
  std::vector<unsigned char> dummy;
  double s = -1;
  int d = -1;
  dec.decode(dummy, out, bl, level, s, d);
  sx_assert(d == depth, "bit depth is recovered");
  sx_assert(s == scale, "scale is recovered");
  sx_assert((int)out.size() == bl, "block length is recovered");
  for (int i = 0; i < bl; i++) sx_assert(out[i] == block[i], "every coefficient is recovered");
  sx_assert(at == bits_.size(), "the decoder reads every bit of the encoder");
}
static int value(int depth) {
  int m = (2 << depth) - 1, v = 0;
  for (int i = 0; i <= depth; i++) v |= (int)sx_bool("v") << i;
  return sx_bool("neg") ? -v : v;
}
static void one(int maxlen, int maxdepth, int mindepth) {
  int bl = 16 << sx_choice("len", maxlen), depth = mindepth + sx_choice("depth", maxdepth - mindepth + 1), p = sx_choice("pos", bl);
  std::vector<int> b(bl, 0);
  b[p] = value(depth);
  Spiht_Enc enc;
  Spiht_Dec dec;
  roundTrip(enc, dec, b, depth, 0.5);
  sx_cover("end");
}
ENTRY(w01_one) { one(3, 7, 0); }
ENTRY(w01_deep) { one(4, 15, 0); }
static void pair(int len, int mindepth, int maxdepth) {
  int bl = 16 << len, depth = mindepth + sx_choice("depth", maxdepth - mindepth + 1);
  std::vector<int> b(bl, 0);
  int p = sx_choice("p", bl), q = sx_choice("q", bl);
  if (p >= q) return;
  b[p] = value(depth);
  b[q] = value(depth);
  Spiht_Enc enc;
  Spiht_Dec dec;
  roundTrip(enc, dec, b, depth, 0.5);
  sx_cover("end");
}
ENTRY(w01_pair) { pair(0, 0, 4); }
ENTRY(w01_pair32) { pair(1, 1, 2); }
ENTRY(w01_pairs) { pair(1, 0, 6); }
#ifdef SX_THOROUGH
constexpr int NEIGHBOURS = 8;
#else
constexpr int NEIGHBOURS = 5;
#endif
ENTRY(w01_all) {
  int depth = sx_choice("depth", 2), from = sx_choice("from", 4);
  std::vector<int> b(16, 0);
  for (int i = 0; i < NEIGHBOURS; i++) b[(from * 4 + i) % 16] = value(depth);
  Spiht_Enc enc;
  Spiht_Dec dec;
  roundTrip(enc, dec, b, depth, 0.5);
  sx_cover("end");
}
ENTRY(w01_four) {
  static const int SETS[5][4] = {{0, 3, 4, 7}, {4, 8, 9, 10}, {8, 9, 10, 11}, {12, 13, 6, 2}, {5, 10, 15, 14}};
  int k = sx_choice("set", 5), depth = sx_choice("depth", 2);
  std::vector<int> b(16, 0);
  for (int i : SETS[k]) b[i] = value(depth);
  Spiht_Enc enc;
  Spiht_Dec dec;
  roundTrip(enc, dec, b, depth, 0.5);
  sx_cover("end");
}
ENTRY(w01_dense) {
  int bl = 16 << sx_choice("len", 2), pat = sx_choice("pattern", 3), p = sx_choice("pos", bl);
  std::vector<int> b(bl, 0);
  for (int i = 0; i < bl; i++) b[i] = pat == 0 ? (i * 7 + 3) % 32 - 16 : pat == 1 ? (i % 2 ? 31 - i % 32 : -1) : (i * i) % 29 - 9;
  b[p] = value(4);
  Spiht_Enc enc;
  Spiht_Dec dec;
  roundTrip(enc, dec, b, 4, 2.25);
  sx_cover("end");
}
ENTRY(w01_scale) {
  bool large = sx_choice("large", 2);
  int depth = sx_choice("depth", 16), code = 0;
  for (int i = 0; i < 7; i++) code |= (int)sx_bool("code") << i;
  std::vector<int> b(16, 0);
  b[0] = 1;
  Spiht_Enc enc;
  Spiht_Dec dec;
  roundTrip(enc, dec, b, depth, large ? 1 + code / 8.0 : code / 128.0);
  roundTrip(enc, dec, std::vector<int>(32, 0), depth, 1);
  sx_cover("end");
}
ENTRY(w01_reuse) {
  Spiht_Enc enc;
  Spiht_Dec dec;
  for (int r = 0; r < 2; r++) {
    int bl = 16 << sx_choice("len", 2);
    std::vector<int> b(bl, 0);
    b[sx_choice("pos", 4) * 4 + r] = value(1);
    b[bl - 1] = value(0);
    roundTrip(enc, dec, b, 1, 1.5);
  }
  sx_cover("end");
}
