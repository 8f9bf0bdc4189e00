// SOURCES Tools/src/WavParser.cpp
// ENTRY a01_mono shards=2 args="--policy check_fptoint 1" bound="mono buffers of 0-3 samples of any finite value, any rate" covers=end,clip
// ENTRY a01_multi shards=4 args="--policy check_fptoint 1" bound="1-3 channels of 0-3 samples of any finite value (at most 4 samples), any rate" covers=end
// ENTRY a01_unequal bound="2-3 channels of 0-2 samples, not all of the same length" covers=end
// ENTRY a01_load shards=2 bound="files of 1-3 channels with 0-3 frames of any 16-bit values, any rate, readable or not" covers=end,unreadable
// ASSUME the third-party WAV library is replaced by a 16-bit PCM file in memory (engine/stubs/dr_wav.h)
#include <sx.h>
#include <dr_wav.h>
#include <Tools/include/WavParser.h>
using haptics::tools::WavParser;
static double finite(const char *n) {
  double v = sx_raw_f64(n);
  sx_assume((v <= 1e300) & (v >= -1e300));
  return v;
}
// stored value q of a sample v: nearest of the 16-bit grid, clipped
static void checkStored(int16_t q, double v) {
  double x = v * 32768.0;
  bool high = x >= 32767.0, low = x <= -32768.0, inside = !high & !low;
  sx_assert(!high | (q == 32767), "values above the range are clipped to the maximum");
  sx_assert(!low | (q == -32768), "values below the range are clipped to the minimum");
  sx_assert(!inside | ((q - x <= 0.5) & (x - q <= 0.5)), "values in range are rounded to the nearest step");
  if (!inside) sx_cover("clip");
}
static void checkLoaded(WavParser &w, int nc, int n, int rate) {
  sx_assert(w.loadFile("x"), "a readable file loads");
  sx_assert((int)w.getNumChannels() == nc, "number of channels");
  sx_assert((int)w.getNumSamples() == n * nc, "total number of samples");
  sx_assert((int)w.getSamplerate() == rate, "sample rate");
  auto all = w.getAllSamples();
  sx_assert((int)all.size() == nc, "one buffer per channel");
  for (int c = 0; c < nc; c++) {
    auto s = w.getSamplesChannel(c);
    sx_assert((int)s.size() == n, "each channel has every frame");
    sx_assert((int)all[c].size() == n, "each buffer has every frame");
    for (int i = 0; i < n; i++) {
      double want = sxwav::frames[i * nc + c] / 32768.0;
      sx_assert(s[i] == want, "channels are separated in order");
      sx_assert(all[c][i] == want, "all channels are separated in order");
    }
  }
  sx_assert(sxwav::opened == 0, "the file is closed");
}
ENTRY(a01_mono) {
  int n = sx_choice("n", 4), rate = sx_range("rate", 1, 1 << 30);
  std::vector<double> b;
  for (int i = 0; i < n; i++) b.push_back(finite("v"));
  sx_assert(WavParser::saveFile("x", b, rate), "saving succeeds");
  sx_assert((int)sxwav::frames.size() == n, "one frame per sample");
  sx_assert(sxwav::channels == 1 && sxwav::bits == 16, "one channel of 16 bits");
  for (int i = 0; i < n; i++) checkStored(sxwav::frames[i], b[i]);
  sx_assert((int)sxwav::rate == rate, "the rate is stored");
  WavParser w;
  checkLoaded(w, 1, n, rate);
  sx_cover("end");
}
ENTRY(a01_multi) {
  int nc = 1 + sx_choice("channels", 3), n = sx_choice("n", nc == 1 ? 4 : nc == 2 ? 3 : 2), rate = sx_range("rate", 1, 1 << 30);
  std::vector<std::vector<double>> b(nc);
  for (auto &c : b) for (int i = 0; i < n; i++) c.push_back(finite("v"));
  sx_assert(WavParser::saveFile("x", b, rate), "saving succeeds");
  sx_assert((int)sxwav::frames.size() == n * nc, "one frame per sample index");
  sx_assert((int)sxwav::channels == nc && sxwav::bits == 16, "every channel, 16 bits");
  for (int c = 0; c < nc; c++) for (int i = 0; i < n; i++) checkStored(sxwav::frames[i * nc + c], b[c][i]);
  sx_assert((int)sxwav::rate == rate, "the rate is stored");
  WavParser w;
  checkLoaded(w, nc, n, rate);
  checkLoaded(w, nc, n, rate);
  sx_cover("end");
}
ENTRY(a01_unequal) {
  int nc = 2 + sx_choice("channels", 2);
  std::vector<std::vector<double>> b(nc);
  bool equal = true;
  for (auto &c : b) {
    c.resize(sx_choice("n", 3), 0.5);
    equal = equal && c.size() == b[0].size();
  }
  sxwav::frames.assign(2, 77);
  bool ok = WavParser::saveFile("x", b, 8000);
  sx_assert(ok == equal, "channels of different lengths are refused");
  if (!equal) sx_assert(sxwav::frames.size() == 2 && sxwav::frames[0] == 77, "nothing is written");
  sx_cover("end");
}
ENTRY(a01_load) {
  int nc = 1 + sx_choice("channels", 3), n = sx_choice("n", 4), rate = sx_range("rate", 1, 1 << 30);
  for (int i = 0; i < n * nc; i++) sxwav::frames.push_back((int16_t)sx_u("v", 16));
  sxwav::channels = nc;
  sxwav::rate = rate;
  WavParser w;
  if (sx_choice("unreadable", 2)) {
    sxwav::readable = false;
    sx_assert(!w.loadFile("x"), "an unreadable file is reported");
    sx_cover("unreadable");
    return;
  }
  checkLoaded(w, nc, n, rate);
  sx_cover("end");
}
