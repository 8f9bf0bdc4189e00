// SOURCES TYPES WAVELET Encoder/src/PcmEncoder.cpp
// ENTRY e03_extrema shards=4 args="--real" bound="signals of 0-6 (thorough 10) samples with any differences in [-1000, 1000], with and without border" covers=end
// ENTRY e03_curve shards=4 args="--real" bound="0-4 key points with indexes 0-3 apart, or 100000 apart, any values, 4 sample rates, 3 time scales, any frequency limit in [-10, 20000]" covers=end,reject
// ENTRY e03_index args="--real" bound="two key points at any sample index 0-63 above one of 4 bases up to 1000000, 1-8 samples apart, 3 sample rates and 3 time scales" covers=same,apart
// ENTRY e03_file shards=4 args="--real" bound="files of 1-2 channels of 0-4 samples, 0-3 channels already present, every modality, wavelet coding off, frequency limit 0 or 72.5 (filter replaced by halving)" covers=end,mismatch
// ASSUME real arithmetic stands for double rounding; neighbouring samples are equal or differ by at least 1e-6; the third-party low-pass filter is replaced by a halving of the signal
#include <sx.h>
#include <Encoder/include/PcmEncoder.h>
using namespace haptics::types;
using haptics::encoder::PcmEncoder;
using haptics::encoder::EncodingConfig;
using haptics::tools::WavParser;
typedef std::vector<std::pair<int, double>> PL;
static std::vector<std::vector<double>> file;
static int fileRate = 8000;
bool WavParser::loadFile(const std::string &) {
  buffer = file;
  numChannels = file.size();
  numSamples = file.size() * file[0].size();
  sampleRate = fileRate;
  return true;
}
uint32_t WavParser::getSamplerate() const { return sampleRate; }
size_t WavParser::getNumChannels() const { return numChannels; }
size_t WavParser::getNumSamples() const { return numSamples; }
std::vector<double> WavParser::getSamplesChannel(size_t c) const { return buffer.at(c); }
std::vector<double> haptics::filterbank::Filterbank::LP(std::vector<double> &in, double) const {
  std::vector<double> out;
  for (double v : in) out.push_back(v / 2);
  return out;
}
haptics::tools::PsychohapticModel::PsychohapticModel(size_t b, int f) : bl(b), fs(f) {}
haptics::tools::modelResult haptics::tools::PsychohapticModel::getSMR(std::vector<double> &) { return {}; }

#ifdef SX_THOROUGH
constexpr int N = 11;
#else
constexpr int N = 7;
#endif
static bool same(double a, double b) { return (a - b <= 1e-12) & (b - a <= 1e-12); }
static std::vector<double> signal(int n) {
  std::vector<double> s;
  for (int i = 0; i < n; i++) {
    double d = sx_f64("d", -1000, 1000);
    sx_assume((d == 0) | (d >= 1e-6) | (d <= -1e-6));
    double v = i ? s[i - 1] + d : d;
    s.push_back(v);
  }
  return s;
}
// the key points by definition
static PL expected(const std::vector<double> &s, bool border) {
  PL e;
  int n = (int)s.size();
  if (border && n) e.push_back({0, s[0]});
  for (int i = 1; i + 1 < n; i++) {
    bool top = (s[i] >= s[i - 1]) & (s[i] >= s[i + 1]), bottom = (s[i] <= s[i - 1]) & (s[i] <= s[i + 1]);
    bool flat = same(s[i], s[i - 1]) & same(s[i], s[i + 1]);
    if ((top | bottom) & !flat) e.push_back({i, s[i]});
  }
  if (border && n) e.push_back({n - 1, s[n - 1]});
  return e;
}
ENTRY(e03_extrema) {
  auto s = signal(sx_choice("n", N));
  bool border = sx_choice("border", 2);
  auto r = PcmEncoder::localExtrema(s, border);
  auto e = expected(s, border);
  sx_assert(r.size() == e.size(), "one key point per turning point");
  for (size_t i = 0; i < r.size(); i++) {
    sx_assert(r[i].first == e[i].first, "key points are exactly the turning points, in order");
    sx_assert(r[i].second == e[i].second, "a key point has the value of its sample");
  }
  sx_cover("end");
}
static const double RATES[4] = {8000, 44100, 100, 3};
static const unsigned TS[3] = {1000, 8000, 44100};
static void checkCurve(Band &b, const PL &p, double rate, unsigned ts, double limit) {
  sx_assert(b.getBandType() == BandType::Curve, "band is a curve");
  sx_assert(b.getLowerFrequencyLimit() == 0, "band starts at frequency zero");
  sx_assert(b.getUpperFrequencyLimit() == (int)limit, "band ends at the frequency limit");
  sx_assert(b.getEffectsSize() == 1, "band has one effect");
  auto &e = b.getEffectAt(0);
  sx_assert(e.getPosition() == 0, "effect starts at zero");
  sx_assert(e.getEffectType() == EffectType::Basis, "effect is a basis effect");
  // expected: rounded positions; the last of several key points of one position counts; older ones are ignored
  std::vector<std::pair<int, double>> x;
  int last = -1;
  for (auto &q : p) {
    double exact = (double)ts * q.first / rate;
    int pos = (int)exact;
    if (exact - pos >= 0.5) pos++;
    if (pos > last) x.push_back({pos, q.second});
    else if (pos == last) x.back().second = q.second;
    last = pos;
  }
  sx_assert(e.getKeyframesSize() == x.size(), "one keyframe per distinct position");
  int prev = -1;
  for (size_t i = 0; i < x.size(); i++) {
    auto &k = e.getKeyframeAt((int)i);
    sx_assert(k.getRelativePosition().has_value(), "keyframe has a position");
    sx_assert(k.getRelativePosition().value() == x[i].first, "keyframe is at the rounded time");
    sx_assert(k.getAmplitudeModulation().has_value(), "keyframe has an amplitude");
    sx_assert(k.getAmplitudeModulation().value() == (float)x[i].second, "keyframe has the sample value");
    sx_assert(!k.getFrequencyModulation().has_value(), "keyframe has no frequency");
    sx_assert(k.getRelativePosition().value() > prev, "keyframe positions strictly increase");
    prev = k.getRelativePosition().value();
  }
}
ENTRY(e03_curve) {
  int n = sx_choice("n", 5), idx = 0, far = 0;
  PL p;
  for (int i = 0; i < n; i++) {
    if (i) {
      int g = sx_choice("gap", n == 4 ? 3 : 5);
      idx += g == 4 ? 100000 : g;
    }
    p.push_back({idx, sx_f64("v", -1, 1)});
  }
  double rate = RATES[sx_choice("rate", 4)];
  unsigned ts = TS[sx_choice("ts", 3)];
  double limit = sx_f64("limit", -10, 20000);
  Band b;
  bool ok = PcmEncoder::convertToCurveBand(p, rate, limit, ts, &b);
  sx_assert(!PcmEncoder::convertToCurveBand(p, rate, limit, ts, nullptr), "no band to fill is an error");
  if (limit <= 0) {
    sx_assert(!ok, "a frequency limit of zero or less is an error");
    sx_assert(b.getEffectsSize() == 0, "a rejected band stays empty");
    sx_cover("reject");
    return;
  }
  sx_assert(ok, "conversion succeeds");
  checkCurve(b, p, rate, ts, limit);
  sx_cover("end");
}
static int bits6() {
  int v = 0;
  for (int i = 0; i < 6; i++) v |= (int)sx_bool("i0") << i;
  return v;
}
static const int BASE[4] = {0, 1000, 65500, 1000000};
ENTRY(e03_index) {
  int i0 = BASE[sx_choice("base", 4)] + bits6(), gap = 1 + sx_choice("gap", 8);
  double rate = RATES[sx_choice("rate", 3)];
  unsigned ts = TS[sx_choice("ts", 3)];
  PL p{{i0, 0.25}, {i0 + gap, -0.5}};
  Band b;
  sx_assert(PcmEncoder::convertToCurveBand(p, rate, 100, ts, &b), "conversion succeeds");
  auto &e = b.getEffectAt(0);
  sx_assert(e.getKeyframesSize() >= 1, "keyframes exist");
  int first = e.getKeyframeAt(0).getRelativePosition().value();
  double x0 = (double)ts * i0 / rate, x1 = (double)ts * (i0 + gap) / rate;
  if (e.getKeyframesSize() == 1) {
    sx_assert((first - x0 <= 0.5001) & (x0 - first <= 0.5001) & (first - x1 <= 0.5001) & (x1 - first <= 0.5001), "samples share a keyframe only within one tick");
    sx_assert(e.getKeyframeAt(0).getAmplitudeModulation().value() == -0.5f, "the later sample counts");
    sx_cover("same");
    return;
  }
  int second = e.getKeyframeAt(1).getRelativePosition().value();
  sx_assert(first < second, "positions strictly increase");
  sx_assert((first - x0 <= 0.5001) & (x0 - first <= 0.5001), "first keyframe is within half a tick");
  sx_assert((second - x1 <= 0.5001) & (x1 - second <= 0.5001), "second keyframe is within half a tick");
  sx_cover("apart");
}
ENTRY(e03_file) {
  int nc = 1 + sx_choice("channels", 2), n = sx_choice("n", nc == 2 ? 4 : 5), have = sx_choice("have", 4);
  file.clear();
  for (int c = 0; c < nc; c++) file.push_back(signal(n));
  fileRate = 8000;
  auto mod = (PerceptionModality)sx_choice("modality", have == 0 ? 14 : 1);
  Perception p(0, 0, "", mod);
  for (int c = 0; c < have; c++) {
    Channel ch(7 + c, "given", 0.5F, 0.25F, 3);
    p.addChannel(ch);
  }
  bool lp = sx_choice("lp", 2);
  EncodingConfig cfg(lp ? 72.5 : 0, 512, 16, false, true);
  std::string name = "x";
  unsigned ts = TS[sx_choice("ts", 2)];
  int r = PcmEncoder::encode(name, cfg, ts, p);
  if (have > nc) {
    sx_assert(r != EXIT_SUCCESS, "a file with fewer channels than expected is an error");
    sx_assert((int)p.getChannelsSize() == have, "nothing is added");
    sx_cover("mismatch");
    return;
  }
  sx_assert(r == EXIT_SUCCESS, "encoding succeeds");
  sx_assert((int)p.getChannelsSize() == nc, "one channel per channel of the file");
  for (int c = 0; c < nc; c++) {
    auto &ch = p.getChannelAt(c);
    sx_assert(ch.getId() == (c < have ? 7 + c : c), "given channels keep their identity");
    sx_assert(ch.getGain() == (c < have ? 0.5F : 1.F), "given channels keep their gain");
    sx_assert(ch.getFrequencySampling() == 8000u, "channel has the sampling rate of the file");
    sx_assert(ch.getSampleCount() == (unsigned)n, "channel has the number of samples of the file");
    sx_assert(ch.getBandsSize() == 1, "channel has one curve band");
    std::vector<double> s = file[c];
    if (lp) for (double &v : s) v = v / 2;
    auto e = expected(s, true);
    auto &b = ch.getBandAt(0);
    checkCurve(b, e, 8000, ts, lp ? 72.5 : 8000);
    CurveType want = mod == PerceptionModality::Force || mod == PerceptionModality::Stiffness ? CurveType::Linear
                     : mod == PerceptionModality::Vibrotactile || mod == PerceptionModality::VibrotactileTexture ? CurveType::Cubic : CurveType::Unknown;
    sx_assert(b.getCurveType() == want, "curve type follows the modality");
  }
  sx_cover("end");
}
