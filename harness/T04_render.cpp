// SOURCES TYPES Synthesizer/src/Helper.cpp WaveletDecoder/src/WaveletDecoder.cpp WAVELET
// ENTRY t04_curve shards=2 args="--real" bound="curve effects of 1-3 keyframes (gaps 1, 10, 1000, 60000) with position or amplitude missing, any amplitudes in [-1, 1], 3 timescales, every curve type, any time" covers=in,out
// ENTRY t04_vector shards=4 args="--real" bound="vectorial effects of 1-3 keyframes with any of position, amplitude and frequency missing, one of 2 amplitudes, 3 frequencies, every base signal, any time" covers=in,out
// ENTRY t04_envelope shards=2 args="--real" bound="square vectorial effects without frequency: 1-3 keyframes, one possibly without amplitude, gaps 1, 10, 1000, 60000, any amplitudes, any time" covers=in,out
// ENTRY t04_tone shards=2 args="--real" bound="triangle effects of constant frequency 5 or 40 with 1-3 frequency keyframes and a later amplitude keyframe, 3 timescales, any phase within two turns, any time" covers=end
// ENTRY t04_transient shards=2 args="--real" bound="transient effects of 1-3 keyframes with position or amplitude missing, any amplitudes, 3 timescales, any time" covers=in,out
// ENTRY t04_wavelet shards=4 args="--real" bound="wavelet effects of 0-3 samples of any value, 3 rates, 2 timescales, any time within 64 ticks from the start of the effect" covers=in,out
// ENTRY t04_band shards=4 args="--real" bound="bands of every type with 1-2 effects at gaps of 0-2 time units and any time: zero before the first effect" covers=end
// ENTRY t04_clamp args="--real" bound="channels of 0-3 curve bands with any real amplitudes, any time and every sample" covers=end
// ENTRY t04_curve_band shards=4 args="--real" bound="rendered curve bands of 1-2 effects of 2-3 keyframes at any multiple of a sample (1-3 samples apart, first keyframe 0-2 samples late), linear and cubic, 2 timescales, paddings 0 and -250 ms, any amplitudes in [-1, 1], 12 samples" covers=end
// ENTRY t04_curve_any bound="rendered curve bands of every curve type with 2-4 keyframes 0-3 ticks apart (also several in one sample), 4 amplitude patterns" shards=4 covers=end
// ENTRY t04_band_samples args="--real" bound="rendered vectorial, transient and wavelet bands of 1-2 effects, 6 samples at 2 rates: equal to the sum of their effects" covers=end
// ENTRY t04_file args="--real" bound="files of 1-2 perceptions with 0-2 channels, 4 lengths and paddings, any gain, unit exponents -2 to 2" covers=end
// ASSUME real arithmetic stands for double rounding (tolerance 1e-6); sin is any function with values in [-1, 1]
#include <sx.h>
#include <Types/include/Haptics.h>
#include <Synthesizer/include/Helper.h>
#include <Tools/include/WavParser.h>
#include <optional>
using namespace haptics::types;
static std::vector<std::vector<double>> saved;
static int savedRate = 0;
bool haptics::tools::WavParser::saveFile(const std::string &, const std::vector<std::vector<double>> &buff, int rate) {
  saved = buff;
  savedRate = rate;
  return true;
}
static const double EPS = 1e-6;
static bool near(double a, double b) { return (a - b <= EPS) & (b - a <= EPS); }
static const int GAP[4] = {1, 10, 1000, 60000}, TS[3] = {1000, 8000, 44100};
static double amp() { return sx_f64("amp", -1, 1); }
static double nlo(double a, double b) { return a < b ? a : b; }
static double nhi(double a, double b) { return a < b ? b : a; }
ENTRY(t04_curve) {
  int ts = TS[sx_choice("ts", 3)], curve = sx_choice("curve", 6), n = 1 + sx_choice("n", 3);
  CurveType ct[6] = {CurveType::Linear, CurveType::Cubic, CurveType::Akima, CurveType::Bezier, CurveType::Bspline, CurveType::Unknown};
  int pos = sx_choice("late", 2) * 500;
  Effect e(pos, 0, BaseSignal::Sine, EffectType::Basis);
  int missing = sx_choice("missing", 2 * n + 1);
  std::vector<double> T, A;
  int t = 0;
  for (int i = 0; i < n; i++) {
    t += i ? GAP[sx_choice("gap", 4)] : 0;
    float a = sx_f32("amp", -1, 1);
    Keyframe k(t, a, std::nullopt);
    if (missing == 2 * i + 1) k.setRelativePosition(std::nullopt);
    if (missing == 2 * i + 2) k.setAmplitudeModulation(std::nullopt);
    if (missing != 2 * i + 1 && missing != 2 * i + 2) {
      T.push_back(pos + t);
      A.push_back(a);
    }
    e.keyframes.push_back(k);
  }
  double x = sx_f64("x", -1e6, 1e6);
  double r = e.EvaluateKeyframes(x, ct[curve], ts);
  if (T.empty() || !(x < T.back())) {
    sx_assert(r == 0, "a curve effect is silent after its last keyframe");
    sx_cover("out");
    return;
  }
  size_t s = 0;
  while (s < T.size() && !(x < T[s])) s++;
  if (s == 0) {
    sx_assert(r == A[0], "before its first keyframe a curve effect has its amplitude");
    return;
  }
  if (curve > 1) {
    sx_assert(r == 0, "a curve of another type evaluates to zero");
    return;
  }
  double a = A[s - 1], b = A[s];
  sx_assert((r >= nlo(a, b) - EPS) & (r <= nhi(a, b) + EPS), "a curve effect stays between its neighbouring keyframes");
  sx_assert(!(x == T[s - 1]) | near(r, a), "a curve effect has the amplitude of a keyframe at that keyframe");
  double u = (x - T[s - 1]) / (T[s] - T[s - 1]);
  double want = curve == 0 ? a + (b - a) * u : a + (b - a) * (u * u * (3 - 2 * u));
  sx_assert(near(r, want), "a curve effect follows its curve between keyframes");
  sx_cover("in");
}
static const BaseSignal SIG[5] = {BaseSignal::Sine, BaseSignal::Square, BaseSignal::Triangle, BaseSignal::SawToothUp, BaseSignal::SawToothDown};
ENTRY(t04_vector) {
  int ts = TS[sx_choice("ts", 2)], n = 1 + sx_choice("n", 3);
  int pos = sx_choice("late", 2) * 500;
  Effect e(pos, 1.5f, SIG[sx_choice("signal", 5)], EffectType::Basis);
  static const int FREQ[3] = {0, 60, 300};
  float A = sx_choice("amp", 2) ? -0.75f : 1;
  int t = 0, last = -1;
  bool any = false;
  for (int i = 0; i < n; i++) {
    t += i ? GAP[1 + sx_choice("gap", 2)] : 0;
    int pr = i == n - 1 ? sx_choice("fields", 8) : 3 + 4 * sx_choice("freq", 2);
    Keyframe k(std::nullopt, std::nullopt, std::nullopt);
    if (pr & 1) {
      k.setRelativePosition(t);
      last = t;
    }
    if (pr & 2) {
      k.setAmplitudeModulation(A);
      any = true;
    }
    if (pr & 4) k.setFrequencyModulation(FREQ[(i + n) % 3]);
    e.keyframes.push_back(k);
  }
  double bound = any && A < 0 ? 0.75 : 1;
  double x = sx_f64("x", -1e5, 1e5);
  double r = e.EvaluateVectorial(x, 0, 1000, ts);
  bool out = (x < pos) | (last < 0 ? x > pos : x > pos + last);
  sx_assert(!out | (r == 0), "a vectorial effect is silent outside its span");
  sx_assert((r <= bound + EPS) & (r >= -bound - EPS), "a vectorial effect stays within its amplitudes");
  if (out) sx_cover("out"); else sx_cover("in");
}
// a square wave of frequency 0 is the amplitude itself
ENTRY(t04_envelope) {
  int ts = TS[sx_choice("ts", 2)], n = 1 + sx_choice("n", 3), pos = sx_choice("late", 2) * 500;
  Effect e(pos, 0, BaseSignal::Square, EffectType::Basis);
  int missing = sx_choice("missing", n + 1) - 1, t = 0;
  std::vector<double> T, A;
  for (int i = 0; i < n; i++) {
    t += i ? GAP[sx_choice("gap", 4)] : 0;
    float a = sx_f32("amp", -1, 1);
    Keyframe k(t, a, std::nullopt);
    if (i == missing) {
      k.setAmplitudeModulation(std::nullopt);
    } else {
      T.push_back(pos + t);
      A.push_back(a);
    }
    e.keyframes.push_back(k);
  }
  double x = sx_f64("x", -1e5, 2e5);
  double r = e.EvaluateVectorial(x, 0, 1000, ts);
  if (x < pos || x > pos + t) {
    sx_assert(r == 0, "a vectorial effect is silent outside its span");
    sx_cover("out");
    return;
  }
  double want = T.empty() ? 1 : x < T[0] ? A[0] : A.back();
  for (size_t i = 0; i + 1 < T.size(); i++)
    if (x >= T[i] && x <= T[i + 1]) want = A[i] + (A[i + 1] - A[i]) * ((x - T[i]) / (T[i + 1] - T[i]));
  sx_assert(near(r, want), "the amplitude of a vectorial effect passes through its keyframes and is linear between them");
  sx_cover("in");
}
ENTRY(t04_tone) {
  int ts = TS[sx_choice("ts", 3)], F = sx_choice("F", 2) ? 40 : 5, n = 1 + sx_choice("n", 3);
  static const float P[4] = {0, 1.5f, 6, 12};
  float phase = P[sx_choice("phase", 4)];
  Effect e(0, phase, BaseSignal::Triangle, EffectType::Basis);
  int t = sx_choice("start", 2) * ts / 8;
  for (int i = 0; i < n; i++) {
    if (i) t += ts / 16;
    e.keyframes.emplace_back(Keyframe(t, std::nullopt, F));
  }
  e.keyframes.emplace_back(Keyframe(t + ts / 4, 1.0f, std::nullopt));
  double x = sx_f64("x", 0, 1e5);
  sx_assume(x <= t + ts / 4);
  double r = e.EvaluateVectorial(x, 0, 1000, ts);
  double c = x / ts * F + phase / (2 * M_PI);
  double k = std::floor(c), f = c - k;
  double tri = f <= 0.25 ? 4 * f : f <= 0.75 ? 2 - 4 * f : 4 * f - 4;
  sx_assert(near(r, tri), "a vectorial effect of constant frequency is one uninterrupted tone");
  sx_cover("end");
}
ENTRY(t04_transient) {
  int ts = TS[sx_choice("ts", 3)], n = 1 + sx_choice("n", 3), pos = sx_choice("late", 2) * 500;
  Effect e(pos, 0, BaseSignal::Sine, EffectType::Basis);
  int missing = sx_choice("missing", 2 * n + 1), t = 0;
  double d = Band::getTransientDuration(ts), bound = 0;
  double x = sx_f64("x", -1e5, 2e5);
  sx_assert(near(d * 1000, 22.0 * ts), "a transient lasts 22 ms");
  for (int i = 0; i < n; i++) {
    t += i ? GAP[sx_choice("gap", 3)] : 0;
    float a = sx_f32("amp", -1, 1);
    Keyframe k(t, a, 10);
    if (missing == 2 * i + 1) k.setRelativePosition(std::nullopt);
    else if (missing == 2 * i + 2) k.setAmplitudeModulation(std::nullopt);
    else bound += (x >= pos + t - EPS) & (x <= pos + t + d + EPS) ? (a < 0 ? -a : a) : 0;
    e.keyframes.push_back(k);
  }
  double r = e.EvaluateTransient(x, d);
  sx_assert((r <= bound + EPS) & (r >= -bound - EPS), "a transient effect is silent except during its transients and no stronger than those sounding");
  if (bound == 0) sx_cover("out"); else sx_cover("in");
}
ENTRY(t04_wavelet) {
  static const int FS[3] = {1000, 4000, 8000};
  int k = sx_choice("rate", 3), ts = TS[sx_choice("ts", 2)], fs = FS[k], n = sx_choice("n", 4), pos = sx_choice("late", 2) * 5;
  Effect e;
  e.setPosition(pos);
  std::vector<double> w;
  for (int i = 0; i < n; i++) w.push_back(sx_f64("w", -1, 1));
  e.setWaveletSamples(w);
  double x = sx_f64("x", 0, 64);
  sx_assume(x >= pos);
  double r = e.EvaluateWavelet(x, fs, ts);
  bool in = false;
  for (int i = 0; i < n; i++) {
    bool here = ((x - pos) * fs >= 1.0 * i * ts) & ((x - pos) * fs < 1.0 * (i + 1) * ts);
    in |= here;
    sx_assert(!here | (r == w[i]), "a wavelet effect plays its samples in order at the rate of its band");
  }
  sx_assert(in | (r == 0), "a wavelet effect is silent after its last sample");
  if (in) sx_cover("in"); else sx_cover("out");
}
static Effect simple(BandType t, int pos, int len) {
  Effect e(pos, 0, BaseSignal::Square, EffectType::Basis);
  if (t == BandType::WaveletWave) {
    std::vector<double> w;
    for (int i = 0; i < 2; i++) w.push_back(sx_f64("w", -1, 1));
    e.setWaveletSamples(w);
    return e;
  }
  for (int i = 0; i < 2; i++) {
    float a = sx_f32("amp", -1, 1);
    e.keyframes.emplace_back(Keyframe(i * len, a, 100));
  }
  return e;
}
static const BandType BT[4] = {BandType::VectorialWave, BandType::Transient, BandType::Curve, BandType::WaveletWave};
ENTRY(t04_band) {
  int ts = TS[sx_choice("ts", 2)], n = 1 + sx_choice("n", 2);
  BandType t = BT[sx_choice("type", 4)];
  Band b(t, CurveType::Linear, 0, 1000);
  std::vector<Effect> es;
  int pos = 100;
  for (int i = 0; i < n; i++) {
    if (i) pos += 100 * sx_choice("gap", 3);
    Effect e = simple(t, pos, 100);
    es.push_back(e);
    b.effects.push_back(e);
  }
  double x = sx_f64("x", -10, t == BandType::WaveletWave ? 350 : 1e5);
  double r = b.Evaluate(x, 0, 1000, ts);
  if (x < 100) {
    sx_assert(r == 0, "a band is silent before its first effect");
  } else {
    double end = 0;
    for (auto &e : es) end = nhi(end, t == BandType::WaveletWave ? e.getPosition() + 2.0 * ts / 1000 : e.getPosition() + 100 + (t == BandType::Transient ? 22.0 * ts / 1000 : 0));
    sx_assert((x <= end) | (r == 0), "a band is silent after its last effect");
    sx_assert((r <= 2 + EPS) & (r >= -2 - EPS), "a band stays within the amplitudes of its keyframes");
  }
  sx_cover("end");
}
ENTRY(t04_clamp) {
  Channel c;
  int n = sx_choice("n", 4);
  bool one = sx_choice("samples", 2);
  double sum = 0;
  for (int i = 0; i < n; i++) {
    Band b(BandType::Curve, CurveType::Linear, 0, 1000);
    Effect e(0, 0, BaseSignal::Sine, EffectType::Basis);
    float a = sx_f32("amp", -1000, 1000);
    e.keyframes.emplace_back(Keyframe(0, a, std::nullopt));
    e.keyframes.emplace_back(Keyframe(2, a, std::nullopt));
    b.effects.push_back(e);
    c.addBand(b);
    sum += a;
    if (one) sum = sum < -1 ? -1 : sum > 1 ? 1 : sum;
  }
  double want = sum < -1 ? -1 : sum > 1 ? 1 : sum;
  if (one) {
    std::vector<double> r = c.EvaluateChannel(5, 1000, 0, 1000);
    sx_assert(r.size() == 5, "rendering a channel yields the number of samples asked for");
    for (int i = 0; i < 5; i++) {
      sx_assert((r[i] >= -1) & (r[i] <= 1), "a channel stays within [-1, 1]");
      sx_assert(i <= 2 ? near(r[i], want) : r[i] == 0, "a channel is the sum of its bands");
    }
  } else {
    double x = sx_f64("x", 0, 2);
    sx_assume(x < 2);
    double r = c.Evaluate(x, 1000);
    sx_assert((r >= -1) & (r <= 1), "a channel stays within [-1, 1]");
    sx_assert(near(r, want), "a channel is the sum of its bands");
    sx_assert(c.Evaluate(5, 1000) == 0 && c.Evaluate(-1, 1000) == 0, "a channel is silent outside its effects");
  }
  sx_cover("end");
}
ENTRY(t04_curve_band) {
  // one sample is 'step' ticks
  int which = sx_choice("ts", 2), ts = which ? 1000 : 64, fs = 8, step = ts / fs;
  bool cubic = sx_choice("cubic", 2);
  int pad = sx_choice("pad", 2) ? -250 : 0, off = pad * fs / 1000;
  Band b(BandType::Curve, cubic ? CurveType::Cubic : CurveType::Linear, 0, 1000);
  const int N = 12;
  double want[N];
  for (int i = 0; i < N; i++) want[i] = 0;
  int ne = 1 + sx_choice("effects", 2), pos = 0;
  for (int j = 0; j < ne; j++) {
    bool head = ne == 1;
    pos += head ? sx_choice("pos", 4) : j ? sx_choice("next", 2) * 3 : 1;
    Effect e(pos * step, 0, BaseSignal::Sine, EffectType::Basis);
    int n = head ? 2 + sx_choice("n", 2) : 3, t = head ? sx_choice("first", 3) : 0;
    double pa = 0;
    int pt = 0;
    for (int i = 0; i < n; i++) {
      if (i) t += head ? 1 + sx_choice("gap", 3) : 2;
      float a = sx_f32("amp", -1, 1);
      e.keyframes.emplace_back(Keyframe(t * step, a, std::nullopt));
      for (int s = i ? pt + 1 : t; s <= t; s++) {
        double u = i ? (double)(s - pt) / (t - pt) : 1;
        double v = i == 0 ? a : cubic && n > 2 ? pa + (a - pa) * (u * u * (3 - 2 * u)) : pa + (a - pa) * u;
        int at = pos + s + off;
        if (at >= 0 && at < N) want[at] += v;
      }
      pa = a;
      pt = t;
    }
    b.effects.push_back(e);
  }
  std::vector<double> r = b.EvaluationBand(N, fs, pad, ts);
  sx_assert((int)r.size() == N, "rendering a band yields the number of samples asked for");
  for (int i = 0; i < N; i++) sx_assert(near(r[i], want[i]), "a rendered curve band passes through its keyframes at their samples, follows its curve between them and is silent elsewhere");
  sx_cover("end");
}
ENTRY(t04_curve_any) {
  CurveType ct[6] = {CurveType::Linear, CurveType::Cubic, CurveType::Akima, CurveType::Bezier, CurveType::Bspline, CurveType::Unknown};
  Band b(BandType::Curve, ct[sx_choice("curve", 6)], 0, 1000);
  int n = 2 + sx_choice("n", 3), t = 0;
  Effect e(sx_choice("pos", 2) * 3, 0, BaseSignal::Sine, EffectType::Basis);
  static const float A[4][4] = {{0, 1, -1, 0.5f}, {1, 1, 1, 1}, {-1, 0.25f, 0.25f, 0}, {0, 0, 0, 0}};
  int pat = sx_choice("pattern", 4);
  for (int i = 0; i < n; i++) {
    if (i) t += 3 * (i == 1 ? sx_choice("gap", 3) : 1) + sx_choice("more", 2);
    e.keyframes.emplace_back(Keyframe(t, A[pat][i], std::nullopt));
  }
  b.effects.push_back(e);
  Channel c;
  c.addBand(b);
  std::vector<double> r = c.EvaluateChannel(6, 333, 0, 1000);
  sx_assert(r.size() == 6, "rendering a channel yields the number of samples asked for");
  for (double v : r) sx_assert((v >= -1) & (v <= 1), "a rendered channel is finite and within [-1, 1]");
  sx_cover("end");
}
ENTRY(t04_band_samples) {
  BandType t = BT[(int[]){0, 1, 3}[sx_choice("type", 3)]];
  int ts = 1000, fs = sx_choice("rate", 2) ? 500 : 100, n = 1 + sx_choice("n", 2);
  Band b(t, CurveType::Linear, 0, 250);
  std::vector<Effect> es;
  for (int i = 0; i < n; i++) {
    Effect e = simple(t, 10 + (i ? 10 * sx_choice("gap", 3) : 0), 20);
    es.push_back(e);
    b.effects.push_back(e);
  }
  std::vector<double> r = b.EvaluationBand(6, fs, 0, ts);
  sx_assert(r.size() == 6, "rendering a band yields the number of samples asked for");
  for (int i = 0; i < 6; i++) {
    double x = (double)ts * ((double)i / fs), want = 0;
    for (auto &e : es) {
      if (x < e.getPosition()) continue;
      if (t == BandType::VectorialWave) want += e.EvaluateVectorial(x, 0, 250, ts);
      if (t == BandType::Transient) want += e.EvaluateTransient(x, 22);
      if (t == BandType::WaveletWave) want += e.EvaluateWavelet(x, 250, ts);
    }
    sx_assert(near(r[i], want), "a rendered band is the sum of its effects");
  }
  sx_cover("end");
}
ENTRY(t04_file) {
  Haptics h;
  int np = 1 + sx_choice("perceptions", 2);
  static const double LEN[4] = {0, 3, 4.5, 2};
  static const int PAD[4] = {0, 1, 0, 2};
  int k = sx_choice("len", 4);
  std::vector<double> want;
  for (int p = 0; p < np; p++) {
    Perception q(p, 0, "", PerceptionModality::Force);
    int ex = p == 0 ? sx_choice("exponent", 6) - 2 : 1;
    if (ex != 3) q.setPerceptionUnitExponent((int8_t)ex);
    double f = ex == 3 ? 1 : ex == -2 ? 0.01 : ex == -1 ? 0.1 : ex == 0 ? 1 : ex == 1 ? 10 : 100;
    int nc = p == 0 ? sx_choice("channels", 3) : 1;
    for (int c = 0; c < nc; c++) {
      Channel ch;
      float g = sx_f32("gain", -1000, 1000), a = sx_f32("amp", -1, 1);
      ch.setGain(g);
      Band b(BandType::Curve, CurveType::Linear, 0, 1000);
      Effect e(0, 0, BaseSignal::Sine, EffectType::Basis);
      e.keyframes.emplace_back(Keyframe(0, a, std::nullopt));
      e.keyframes.emplace_back(Keyframe(1000, a, std::nullopt));
      b.effects.push_back(e);
      ch.addBand(b);
      q.addChannel(ch);
      want.push_back((double)a * (double)g * f);
    }
    h.addPerception(q);
  }
  std::string name = "out.wav";
  sx_assert(haptics::synthesizer::Helper::playFile(h, LEN[k], 1000, PAD[k], name), "rendering a file succeeds");
  sx_assert(savedRate == 1000, "the file keeps its sample rate");
  sx_assert(saved.size() == want.size(), "a file has one sample sequence per channel");
  static const size_t COUNT[4] = {0, 5, 5, 6};
  for (size_t i = 0; i < saved.size(); i++) {
    sx_assert(saved[i].size() == COUNT[k], "a file lasts its length and both paddings, rounded to samples");
    for (size_t j = 0; j < saved[i].size(); j++) {
      double d = saved[i][j] - ((int)j < PAD[k] ? 0 : want[i]);
      sx_assert((d <= 1e-3) & (d >= -1e-3), "samples are scaled by the gain of the channel and the unit of the perception");
    }
  }
  sx_cover("end");
}
