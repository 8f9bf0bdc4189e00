// SOURCES Spiht/src/
// ENTRY w02_seq shards=2 bound="every sequence of 0-5 bits in any two contexts per position, then packed to bytes and back" covers=end
// ENTRY w02_long bound="every sequence of 6-7 bits in one context" covers=end
// ENTRY w02_skew shards=4 bound="every sequence of 1-4 bits, first 2 contexts in an arbitrary one of the adapted states 1/32, 2/32, 7/32, 25/32, 30/32, 31/32, 1/40, 39/40" covers=end
// ENTRY w02_blocks shards=2 bound="two blocks of 1-3 arbitrary bits on one coder pair (the adaptive state carries over)" covers=end
// ENTRY w02_reset bound="a block, a counter reset on both sides, and a block again" covers=end
// ENTRY w02_state bound="every adaptive state counter/total with total 2-63: the state after a block is proper (0 < counter < total) and both sides agree" covers=end
// ENTRY w02_deep tier=thorough shards=16 timeout=850 bound="every sequence of 8-10 bits in one of two contexts" covers=end
#include <sx.h>
#include <vector>
#include <Spiht/include/ArithEnc.h>
#include <Spiht/include/ArithDec.h>
using haptics::spiht::ArithEnc;
using haptics::spiht::ArithDec;
typedef std::vector<unsigned char> Bits;
static void block(ArithEnc &enc, ArithDec &dec, int n, const std::vector<int> &ctx) {
  Bits in;
  for (int i = 0; i < n; i++) in.push_back((unsigned char)sx_u("bit", 1));
  Bits orig = in, code, bytes, bits;
  std::vector<int> c2 = ctx;
  enc.encode(in, c2, code);
  for (auto c : code) sx_assert(c <= 1, "the code is made of bits");
  ArithEnc::convert2bytes(code, bytes);
  ArithDec::convert2bits(bytes, bits);
  sx_assert(bits.size() == bytes.size() * 8 && bits.size() >= code.size() && bits.size() < code.size() + 8, "packed into the fewest bytes");
  for (size_t i = 0; i < bits.size(); i++) sx_assert(bits[i] == (i < code.size() ? code[i] : 0), "packing keeps every bit");
  dec.initDecoding(bits);
  for (int i = 0; i < n; i++) {
    int s = dec.decode(ctx[i]);
    sx_assert(s == orig[i], "the decoded bit is the encoded bit");
  }
  dec.rescaleCounter();
  for (int c = 0; c < 7; c++) sx_assert((enc.counter[c] == dec.counter[c]) & (enc.counter_total[c] == dec.counter_total[c]), "both sides adapt alike");
  for (int c = 0; c < 7; c++) sx_assert((enc.counter[c] > 0) & (enc.counter[c] < enc.counter_total[c]), "probabilities stay away from 0 and 1");
  sx_observe_u("len", code.size());
}
static std::vector<int> contexts(int n, int k) {
  std::vector<int> r;
  for (int i = 0; i < n; i++) r.push_back(k > 1 ? (sx_choice("ctx", k) * 5 + i / 3) % 7 : 6);
  return r;
}
ENTRY(w02_seq) {
  ArithEnc enc;
  ArithDec dec;
  int n = sx_choice("n", 6);
  block(enc, dec, n, contexts(n, 2));
  sx_cover("end");
}
ENTRY(w02_long) {
  ArithEnc enc;
  ArithDec dec;
  int n = 6 + sx_choice("n", 2);
  block(enc, dec, n, contexts(n, 1));
  sx_cover("end");
}
ENTRY(w02_deep) {
  ArithEnc enc;
  ArithDec dec;
  int n = 8 + sx_choice("n", 3);
  block(enc, dec, n, std::vector<int>(n, sx_choice("c", 7)));
  sx_cover("end");
}
ENTRY(w02_skew) {
  static const int S[8][2] = {{1, 32}, {2, 32}, {7, 32}, {25, 32}, {30, 32}, {31, 32}, {1, 40}, {39, 40}};
  ArithEnc enc;
  ArithDec dec;
  for (int c = 0; c < 2; c++) {
    int k = sx_choice("state", 8);
    enc.counter[c * 5] = dec.counter[c * 5] = S[k][0];
    enc.counter_total[c * 5] = dec.counter_total[c * 5] = S[k][1];
  }
  int n = 1 + sx_choice("n", 4);
  std::vector<int> ctx;
  for (int i = 0; i < n; i++) ctx.push_back(i % 2 * 5);
  block(enc, dec, n, ctx);
  sx_cover("end");
}
ENTRY(w02_blocks) {
  ArithEnc enc;
  ArithDec dec;
  int n = 1 + sx_choice("n", 3);
  block(enc, dec, n, contexts(n, 1));
  int m = 1 + sx_choice("m", 3);
  std::vector<int> ctx;
  for (int i = 0; i < m; i++) ctx.push_back(sx_choice("c", 2) ? 6 : 2);
  block(enc, dec, m, ctx);
  sx_cover("end");
}
ENTRY(w02_reset) {
  ArithEnc enc;
  ArithDec dec;
  block(enc, dec, 3, {0, 0, 1});
  enc.resetCounter();
  dec.resetCounter();
  ArithEnc fe;
  for (int c = 0; c < 7; c++) sx_assert((enc.counter[c] == fe.counter[c]) & (enc.counter_total[c] == fe.counter_total[c]), "reset restores the initial state");
  for (int c = 0; c < 7; c++) sx_assert((dec.counter[c] == fe.counter[c]) & (dec.counter_total[c] == fe.counter_total[c]), "reset restores the initial state");
  block(enc, dec, 3, {1, 0, 0});
  sx_cover("end");
}
ENTRY(w02_state) {
  ArithEnc enc;
  ArithDec dec;
  int t = 2 + sx_choice("total", 62), c = 0, k = t % 7;
  for (int i = 0; i < 6; i++) c = c * 2 + sx_bool("counter");
  sx_assume(c <= t);
  enc.counter[k] = dec.counter[k] = c;
  enc.counter_total[k] = dec.counter_total[k] = t;
  enc.rescaleCounter();
  dec.rescaleCounter();
  for (int i = 0; i < 7; i++) {
    sx_assert((enc.counter[i] == dec.counter[i]) & (enc.counter_total[i] == dec.counter_total[i]), "both sides rescale alike");
    sx_assert((enc.counter[i] > 0) & (enc.counter[i] < enc.counter_total[i]), "the rescaled state is proper");
  }
  sx_cover("end");
}
