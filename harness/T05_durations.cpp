// SOURCES TYPES Synthesizer/src/Helper.cpp Spiht/src/ FilterBank/src/Wavelet.cpp WaveletDecoder/src/
// ENTRY t05_effect shards=2 bound="every effect of 0-3 keyframes in time order, each positioned (within +-2^30) or not, with amplitude and frequency present or not, for every band type and transient durations in [0, 2^20]" covers=end
// ENTRY t05_band shards=8 bound="every band type, 0-3 effects of 1-2 keyframes (one effect: 0-2), positioned within +-2^24 or (fewer than 3 effects) not, effects at 0..2^24, timescales 500, 1000, 2000 and 8000" covers=end
// ENTRY t05_file shards=4 bound="up to 2 perceptions of 1-2 channels, each with a sample count (whole numbers of seconds, frequencies 1 and 250) or up to 2 curve/transient bands, timescale given or not" covers=end
// ASSUME keyframes of one effect are ordered in time (property T01)
#include <sx.h>
#include <Synthesizer/include/Helper.h>
#include <Tools/include/WavParser.h>
using namespace haptics::types;
namespace haptics::tools {
bool WavParser::saveFile(const std::string &, const std::vector<std::vector<double>> &, int) { return true; }
}
constexpr int M = 1 << 24;
static const BandType BT[4] = {BandType::Curve, BandType::WaveletWave, BandType::VectorialWave, BandType::Transient};
static const int TS[4] = {1000, 500, 2000, 8000}; // one transient lasts a whole number of ticks
// effect with n keyframes in time order; last: last position, any: has a positioned keyframe
static Effect effect(int n, int lim, int &last, bool &any, bool allPlaced = false, bool partial = false) {
  Effect e;
  last = 0;
  any = false;
  for (int i = 0; i < n; i++) {
    bool has = allPlaced ? true : sx_bool("has");
    int v = sx_range("kp", -lim, lim);
    sx_assume(!has || !any || v >= last);
    std::optional<int> p;
    if (has) p = v;
    last = has ? v : last;
    any |= has;
    std::optional<double> amp = 0.5;
    std::optional<int> freq;
    if (partial) {
      if (!sx_bool("amp")) amp.reset();
      if (sx_bool("freq")) freq = 100;
    }
    e.addKeyframe(p, amp, freq);
  }
  return e;
}
ENTRY(t05_effect) {
  BandType t = BT[sx_choice("type", 4)];
  int n = sx_choice("n", 4), last;
  bool any;
  Effect e = effect(n, 1 << 30, last, any, false, true);
  e.setPosition(sx_int("pos"));
  double td = sx_f64("td", 0, 1 << 20);
  double r = e.getEffectTimeLength(t, td);
  double want = !any || t == BandType::WaveletWave ? 0 : t == BandType::Transient ? last + td : (double)last;
  sx_assert(r == want, "an effect lasts until its last positioned keyframe, plus one transient in transient bands");
  sx_observe_d("len", r);
  sx_cover("end");
}
static int ticks(int ts) { return 22 * ts / 1000; }
static void fill(Band &b, int ne, int ts, int &len) {
  for (int i = 0; i < ne; i++) {
    int n = ne == 1 ? sx_choice("n", 3) : ne == 2 && i == 0 ? 2 : 1, last;
    bool any;
    Effect e = effect(n, M, last, any, ne == 3);
    int p = sx_range("pos", 0, M);
    e.setPosition(p);
    BandType t = b.getBandType();
    int end = p + (!any || t == BandType::WaveletWave ? 0 : last);
    if (t == BandType::Transient) end += any ? ticks(ts) : 0;
    len = end > len ? end : len;
    b.addEffect(e);
  }
}
ENTRY(t05_band) {
  BandType t = BT[sx_choice("type", 4)];
  int ts = TS[t == BandType::Transient ? sx_choice("ts", 4) : 0];
  Band b(t, 0, 1000);
  int len = 0;
  int ne = sx_choice("ne", 4);
  fill(b, ne, ts, len);
  double r = b.getBandTimeLength(ts);
  sx_assert(r >= (double)len, "a band is not shorter than the content of any of its effects");
  sx_assert(r <= (double)len, "a band is not longer than the content of its effects");
  sx_observe_d("len", r);
  sx_cover("end");
}
ENTRY(t05_file) {
  Haptics h;
  bool set = sx_choice("tsgiven", 2);
  int ts = 1000;
  if (set) { ts = 2000; h.setTimescale(ts); }
  int len = 0;
  int np = 1 + sx_choice("np", 2);
  for (int i = 0; i < np; i++) {
    Perception p(i, 0, "", PerceptionModality::Vibrotactile);
    int nc = 1 + (np == 1 ? sx_choice("nc", 2) : 0);
    for (int j = 0; j < nc; j++) {
      Channel c;
      c.setId(j);
      if (sx_choice("sampled", 2)) {
        static const int F[2] = {1, 250};
        int f = F[sx_choice("f", 2)];
        int n = (sx_bool("c0") ? 1 : 0) + (sx_bool("c1") ? 6 : 0) + (sx_bool("c2") ? 8000 : 0); // seconds
        c.setFrequencySampling(f);
        c.setSampleCount(n * f);
        int l = n * ts;
        len = l > len ? l : len;
      } else {
        int nb = sx_choice("nb", nc + np < 3 ? 3 : 2);
        for (int k = 0; k < nb; k++) {
          Band b(sx_choice("transient", 2) ? BandType::Transient : BandType::Curve, 0, 1000);
          Effect e;
          int kp = sx_range("kp", 0, M), pos = sx_range("pos", 0, M);
          e.addKeyframe(kp, 0.5, std::nullopt);
          e.setPosition(pos);
          b.addEffect(e);
          int l = pos + kp + (b.getBandType() == BandType::Transient ? ticks(ts) : 0);
          len = l > len ? l : len;
          c.addBand(b);
        }
      }
      p.addChannel(c);
    }
    h.addPerception(p);
  }
  double r = haptics::synthesizer::Helper::getTimeLength(h);
  sx_assert(r == (double)len, "the file lasts as long as its longest channel");
  sx_observe_d("len", r);
  sx_cover("end");
}
