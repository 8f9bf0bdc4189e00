// SOURCES Spiht/src/
// ENTRY w01_codec shards=4 bound="whole effects of 16 and 32 coefficients through set partitioning, arithmetic coding and bytes: 2-4 arbitrary bits spread over 6 shapes, depths 1-15, 3 scales, two effects in a row through one coder pair" covers=end,empty
#include <sx.h>
#include <Spiht/include/Spiht_Dec.h>
#include <Spiht/include/Spiht_Enc.h>
using namespace haptics::spiht;
ENTRY(w01_codec) {
  static const double SCALE[3] = {0.5, 1, 10.125};
  Spiht_Enc enc;
  Spiht_Dec dec;
  int shape = sx_choice("shape", 6), depth = 1 + sx_choice("depth", 3) * 7;
  for (int r = 0; r < 2; r++) {
    int bl = 16 << sx_choice("len", 2);
    std::vector<int> b(bl, 0);
    auto bit = [] { return (int)sx_bool("v"); };
    if (shape == 0) { b[bl - 1] = bit(); b[0] = -bit() << depth; }
    if (shape == 1) { b[2] = bit() * 3; b[9] = bit() ? 1 : -1; }
    if (shape == 2) { for (int i = 0; i < bl; i++) b[i] = i % 3 - 1; b[5] += bit(); }
    if (shape == 3) { b[4] = (1 << depth) - bit(); b[8] = bit(); b[11] = -1; }
    if (shape == 4) for (int i = 0; i < 3; i++) b[i * 5] = bit();
    if (shape == 5 && r) b[7] = bit();
    bool zero = true;
    for (int v : b) zero = zero & (v == 0);
    double scale = SCALE[r + (shape == 2)], s = -1;
    std::vector<int> in = b, out;
    std::vector<unsigned char> stream;
    enc.encodeEffect(in, depth, scale, stream);
    int d = -1;
    std::vector<unsigned char> copy = stream;
    dec.decodeEffect(stream, out, bl, s, d);
    sx_assert(stream == copy, "the stream is not changed");
    sx_assert((int)out.size() == bl, "block length is recovered");
    for (int i = 0; i < bl; i++) sx_assert(out[i] == b[i], "every coefficient is recovered");
    if (zero) {
      sx_assert(stream.empty(), "a block of zeros needs no bytes");
      sx_cover("empty");
      continue;
    }
    sx_assert(d == depth, "bit depth is recovered");
    sx_assert(s == scale, "scale is recovered");
  }
  sx_cover("end");
}
