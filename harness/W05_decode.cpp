// SOURCES TYPES WAVELET
// ENTRY w05_transform shards=8 args="--policy no_merge 1" bound="wavelet bands of 1-2 (thorough: 3) coded blocks of 16 or 32 samples with 2 arbitrary coefficient bits each, 3 time scales, 4 sampling rates, 2 depths and 2 scales: transformed in place and decoded to one signal" covers=end
// ENTRY w05_grid args="--policy no_merge 1" bound="bands of 3, 5 and 12 blocks, 2 lengths, 4 sampling rates, 3 time scales: the position of every block, with arbitrary former positions" covers=end
// ENTRY w05_hostile shards=8 args="--policy no_merge 1" bound="blocks of 16 and 32 samples from any byte string of 1 byte plus 1 of 16 second bytes" covers=end
// ENTRY w05_length bound="11 block lengths from -1 to 2^31-1 ticks at 7 sampling rates and 4 time scales: usable lengths give the nearest power of two of samples, others leave the band alone" covers=usable,unusable
// ENTRY w05_other bound="bands of the other types" covers=end
// ENTRY w05_codec shards=8 args="--policy no_merge 1 --policy fork_select 1" bound="whole bands: signals of 1-40 samples with 2 arbitrary samples of 3 values each, blocks of 16, full bit budget, 3 rates, 2 time scales, encoded and decoded" covers=end
// ASSUME the perceptual model of the encoder is replaced by a fixed one (it only steers the bit allocation)
#include <sx.h>
#include <Encoder/include/WaveletEncoder.h>
#include <FilterBank/include/Wavelet.h>
#include <Spiht/include/Spiht_Enc.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
using haptics::waveletdecoder::WaveletDecoder;
haptics::tools::PsychohapticModel::PsychohapticModel(size_t b, int f) : bl(b), fs(f) {}
haptics::tools::modelResult haptics::tools::PsychohapticModel::getSMR(std::vector<double> &) {
  return {std::vector<double>(3, 1.0), std::vector<double>(3, 1.0)};
}
static bool near(double a, double b) { return (a - b <= 1e-9) & (b - a <= 1e-9); }
#ifdef SX_THOROUGH
#define NBL 3
#else
#define NBL 2
#endif
static const int RATE[4] = {8000, 1000, 44100, 2048};
static const unsigned TS[3] = {1000, 8000, 44100};
// time samples of integer coefficients by definition: the inverse transform of the scaled coefficients
static std::vector<double> samples(const std::vector<int> &c, double scale, int depth) {
  std::vector<double> in, out(c.size());
  for (int v : c) in.push_back(v * (scale / (1 << depth)));
  haptics::filterbank::Wavelet w;
  int levels = 2;
  while ((int)c.size() >> levels > 4) levels++;
  w.inv_DWT(in, levels, out);
  return out;
}
ENTRY(w05_transform) {
  int bl = 16 << sx_choice("len", 2), rate = RATE[sx_choice("rate", 4)], depth = sx_choice("depth", 2) ? 9 : 1, n = 1 + sx_choice("n", NBL);
  unsigned ts = TS[sx_choice("ts", 3)];
  double scale = sx_choice("scale", 2) ? 0.75 : 3.5;
  Band b(BandType::WaveletWave, 0, 0, rate);
  int ticks = (int)((double)bl * ts / rate);
  if ((double)ticks * rate / ts < bl * 0.75) return; // the time scale is too coarse for the block length
  b.setBlockLength(ticks);
  std::vector<std::vector<double>> want;
  haptics::spiht::Spiht_Enc enc;
  for (int i = 0; i < n; i++) {
    std::vector<int> c(bl, 0);
    c[i] = sx_bool("v") ? (2 << depth) - 1 : 1;
    c[bl / 2 + i] = sx_bool("v") ? -1 : 0;
    want.push_back(samples(c, scale, depth));
    Effect e(i * ticks, 0, haptics::types::BaseSignal::Sine, haptics::types::EffectType::Basis);
    enc.encodeEffect(c, depth, scale, e.getWaveletBitstream());
    b.addEffect(e);
  }
  WaveletDecoder d;
  auto sig = d.decodeBand(b, (int)ts);
  sx_assert((int)sig.size() == n * bl, "the signal has every block");
  for (int i = 0; i < n; i++)
    for (int k = 0; k < bl; k++) sx_assert(near(sig[i * bl + k], want[i][k]), "the signal has the samples of every block in order");
  d.transformBand(b, ts);
  sx_assert((int)b.getEffectsSize() == n, "one effect per coded block");
  for (int i = 0; i < n; i++) {
    auto &e = b.getEffectAt(i);
    double exact = (double)i * bl * ts / rate;
    sx_assert((e.getPosition() <= exact + 1e-6) & (e.getPosition() > exact - 1), "blocks lie on the block grid");
    auto &s = e.getWaveletSamples();
    sx_assert((int)s.size() == bl, "a block has its length in samples");
    for (int k = 0; k < bl; k++) sx_assert(near(s[k], want[i][k]), "a block has the inverse transform of its scaled coefficients");
  }
  sx_cover("end");
}
ENTRY(w05_grid) {
  static const int N[3] = {3, 5, 12};
  int bl = 16 << sx_choice("len", 2), rate = RATE[sx_choice("rate", 4)], n = N[sx_choice("n", 3)];
  unsigned ts = TS[sx_choice("ts", 3)];
  int ticks = (int)((double)bl * ts / rate);
  if ((double)ticks * rate / ts < bl * 0.75) return;
  Band b(BandType::WaveletWave, ticks, 0, rate);
  for (int i = 0; i < n; i++) {
    Effect e;
    e.setPosition(i * ticks);
    b.addEffect(e);
  }
  b.getEffectAt(n - 1).setPosition((int)sx_range("former", 0, 1 << 20));
  WaveletDecoder d;
  d.transformBand(b, ts);
  sx_assert((int)b.getEffectsSize() == n, "one effect per coded block");
  for (int i = 0; i < n; i++) {
    double exact = (double)i * bl * ts / rate;
    int at = b.getEffectAt(i).getPosition();
    sx_assert((at <= exact + 1e-6) & (at > exact - 1), "blocks lie on the block grid");
    sx_assert((int)b.getEffectAt(i).getWaveletSamples().size() == bl, "a block has its length in samples");
  }
  sx_cover("end");
}
ENTRY(w05_hostile) {
  int big = sx_choice("len", 2), second = sx_choice("second", 17);
  Band b(BandType::WaveletWave, 16 << big, 0, 1000);
  Effect e;
  for (int i = 0; i < 1; i++) {
    int v = 0;
    for (int k = 0; k < 8; k++) v |= (int)sx_bool("v") << k;
    e.getWaveletBitstream().push_back((unsigned char)v);
  }
  if (second < 16) e.getWaveletBitstream().push_back((unsigned char)(second * 17));
  b.addEffect(e);
  WaveletDecoder d;
  d.transformBand(b, 1000);
  auto &s = b.getEffectAt(0).getWaveletSamples();
  sx_assert((int)s.size() == 16 << big, "any bytes give a block of samples");
  sx_cover("end");
}
ENTRY(w05_length) {
  static const int LEN[11] = {-1, 0, 1, 2, 8, 11, 23, 100, 2048, 1 << 20, 0x7fffffff};
  static const int R[7] = {0, 1, 1000, 8000, 44100, 65535, -3};
  static const unsigned T[4] = {1000, 1, 44100, 0xffffffffu};
  int len = LEN[sx_choice("length", 11)], rate = R[sx_choice("rate", 7)];
  unsigned ts = T[sx_choice("ts", 4)];
  double samples = (double)len * rate / ts;
  if (samples > 3000 && samples < 1e8) return; // only slow
  Band b(BandType::WaveletWave, len, 0, rate);
  if (sx_choice("some", 2)) {
    Effect e(7, 0.F, haptics::types::BaseSignal::Sine, haptics::types::EffectType::Basis);
    b.addEffect(e);
  }
  bool some = b.getEffectsSize() > 0;
  WaveletDecoder d;
  auto sig = d.decodeBand(b, (int)ts);
  d.transformBand(b, ts);
  int bl = 0;
  for (int x = 16; x <= 4096; x *= 2)
    if (samples > x / 1.41421 && samples <= x * 1.41421) bl = x;
  sx_assert((int)sig.size() == (some && ts < 0x80000000u ? bl : 0), "the signal has one block");
  if (some) {
    sx_assert((int)b.getEffectAt(0).getWaveletSamples().size() == bl, "a block of zeros of the nearest power of two, or nothing");
    sx_assert(b.getEffectAt(0).getPosition() == (bl ? 0 : 7), "an unusable band is left alone");
    for (double v : b.getEffectAt(0).getWaveletSamples()) sx_assert(v == 0, "no coefficients give silence");
  }
  if (bl) sx_cover("usable"); else sx_cover("unusable");
}
ENTRY(w05_other) {
  auto t = (BandType)sx_choice("type", 3);
  Band b(t, 16, 0, 1000);
  Effect e(5, 0, haptics::types::BaseSignal::Sine, haptics::types::EffectType::Basis);
  e.addKeyframe(3, 0.5F, 10);
  b.addEffect(e);
  WaveletDecoder d;
  bool wave = t == BandType::WaveletWave;
  if (wave) return;
  sx_assert(d.decodeBand(b, 1000).empty(), "other bands give no signal");
  d.transformBand(b, 1000);
  sx_assert(b.getEffectsSize() == 1, "other bands keep their effects");
  sx_assert(b.getEffectAt(0).isEquivalent(e) && b.getEffectAt(0).getPosition() == 5 && b.getEffectAt(0).getKeyframesSize() == 1, "other bands are not changed");
  sx_cover("end");
}
ENTRY(w05_codec) {
  static const int N[5] = {1, 15, 16, 17, 40}, R[3] = {8000, 1000, 2000};
  int n = N[sx_choice("n", 5)], rate = R[sx_choice("rate", 3)];
  unsigned ts = TS[sx_choice("ts", 2)];
  std::vector<double> s(n, 0.0);
  for (int i = 0; i < n; i++) s[i] = (i * 7 % 16) / 32.0;
  for (int k = 0; k < 2; k++) s[k ? n - 1 : n / 2] = sx_bool("v") ? 0.9 : sx_bool("v") ? -0.3 : 0;
  auto copy = s;
  haptics::encoder::WaveletEncoder enc(16, rate);
  Band b;
  sx_assert(enc.encodeSignal(s, 1000, 72.5, b, ts), "encoding succeeds");
  sx_assert(b.getBandType() == BandType::WaveletWave && b.getUpperFrequencyLimit() == rate && b.getLowerFrequencyLimit() == 72, "the band describes the signal");
  int blocks = (n + 15) / 16;
  sx_assert((int)b.getEffectsSize() == blocks, "one effect per block");
  for (int i = 0; i < blocks; i++) sx_assert(b.getEffectAt(i).getPosition() == i * (int)(16 * ts / rate), "effects are on the block grid");
  WaveletDecoder d;
  auto r = d.decodeBand(b, (int)ts);
  sx_assert((int)r.size() == blocks * 16, "the signal has every block");
  for (int i = 0; i < blocks * 16; i++) {
    double x = r[i] - (i < n ? copy[i] : 0);
    sx_assert((x <= 1e-3) & (x >= -1e-3), "with the full bit budget every sample comes back");
  }
  sx_cover("end");
}
