// SOURCES TYPES Encoder/src/AhapEncoder.cpp
// ENTRY e01_times shards=8 args="--real" bound="continuous events at any tick 0-14 lasting any 1-14 ticks under 0-2 intensity points (0-9 and 1-9 under 3) with fixed values at 3 starts and 2 distances" covers=end
// ENTRY e01_both shards=8 args="--real" bound="continuous events at 6 times (plus or minus 0.4 ticks) of 3 durations under 0-2 intensity points of any value in [0, 1] and 0-3 sharpness points" covers=end
// ENTRY e01_levels shards=8 args="--real" bound="continuous events at 6 times of 3 durations under 0-3 intensity points of any value in [0, 1] or with any intensity in [0, 1]" covers=end
// ENTRY e01_pitch shards=6 args="--real --linear" bound="continuous events at 6 times of 3 durations under no sharpness point with any sharpness in [0, 1], or one of any value in [-1, 1] with 3 sharpness levels or none" covers=end
// ENTRY e01_transient shards=8 args="--real" bound="transient events at any tick 0-14 under 0-2 points of each curve with fixed values, or at 6 times with any value in [0, 1] and any intensity" covers=end
// ENTRY e01_curve shards=4 args="--real" bound="curves of 0-3 control points at any time in [-10, 100] s plus any offset, three time scales, any value, one of them incomplete" covers=end
// ASSUME real arithmetic stands for double and float rounding; curve times increase
#include <sx.h>
#include <Encoder/include/AhapEncoder.h>
using namespace haptics::types;
using haptics::encoder::AhapEncoder;
typedef std::vector<std::pair<int, double>> Curve;
static bool near(double a, double b, double eps) { return (a - b <= eps) & (b - a <= eps); }
static rapidjson::Document event(bool transient, double time, double duration, bool hasI, double intensity, bool hasS, double sharpness) {
  rapidjson::Document d(rapidjson::kObjectType);
  auto &a = d.GetAllocator();
  d.AddMember("EventType", rapidjson::StringRef(transient ? "HapticTransient" : "HapticContinuous"), a);
  d.AddMember("Time", time, a);
  if (!transient) d.AddMember("EventDuration", duration, a);
  rapidjson::Value ps(rapidjson::kArrayType);
  if (hasI) ps.PushBack(rapidjson::Value(rapidjson::kObjectType).AddMember("ParameterID", "HapticIntensity", a).AddMember("ParameterValue", intensity, a), a);
  if (hasS) ps.PushBack(rapidjson::Value(rapidjson::kObjectType).AddMember("ParameterID", "HapticSharpness", a).AddMember("ParameterValue", sharpness, a), a);
  d.AddMember("EventParameters", ps, a);
  return d;
}
// the curve between its first and its last point; half the slope for frequencies, which are chirps
static bool inside(const Curve &c, int t, double half, double &v, bool last) {
  for (size_t k = 0; k < c.size(); k++) {
    if (t == c[k].first && (last ? k > 0 : k + 1 < c.size())) {
      if (last) v = c[k - 1].second + (c[k].second - c[k - 1].second) * half;
      else v = c[k].second;
      return true;
    }
    if (k && c[k - 1].first < t && t < c[k].first) {
      v = c[k - 1].second + (c[k].second - c[k - 1].second) * half * (double)(t - c[k - 1].first) / (double)(c[k].first - c[k - 1].first);
      return true;
    }
  }
  return false;
}
static double limit(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
struct Point { int pos; double level; double slack; };
static void same(Effect &e, const std::vector<Point> &want, bool frequency) {
  size_t n = 0;
  int before = 0;
  for (int i = 0; i < (int)e.getKeyframesSize(); i++) {
    Keyframe k = e.getKeyframeAt(i);
    int p = k.getRelativePosition().value();
    sx_assert(p >= before, "keyframes are in order of time");
    before = p;
    double v;
    if (frequency) {
      if (!k.getFrequencyModulation().has_value()) continue;
      v = k.getFrequencyModulation().value();
      sx_assert((v >= 65) & (v <= 300), "frequencies are in the actuator range");
    } else {
      if (!k.getAmplitudeModulation().has_value()) continue;
      v = k.getAmplitudeModulation().value();
    }
    if (n == want.size()) {
      sx_fail("there is a keyframe for the start, each inner curve point and the end only");
      return;
    }
    sx_assert(p == want[n].pos, "the keyframes are at the start, the inner curve points and the end");
    sx_assert(near(v, want[n].level, want[n].slack), frequency ? "a frequency is that of the sharpness of the event plus the curve" : "an amplitude is the intensity scaled by the curve");
    n++;
  }
  sx_assert(n == want.size(), "every inner curve point has a keyframe");
}
static void continuous(int pos, double off, int dur, bool hasI, double intensity, bool hasS, double sharpness, const Curve &A, const Curve &F) {
  rapidjson::Document d = event(false, ((double)pos + off) / 1000, (double)dur / 1000, hasI, intensity, hasS, sharpness);
  std::vector<Effect> out;
  int r = AhapEncoder::extractContinuous(d.GetObject(), &out, &A, &F, 1000);
  sx_assert(r == EXIT_SUCCESS && out.size() == 1, "an event becomes one effect");
  Effect &e = out.at(0);
  sx_assert(e.getPosition() == pos, "the effect is at the time of the event");
  double base = hasI ? intensity * 0.6138 : 0.5, v;
  std::vector<Point> want;
  int end = pos + dur;
  auto amp = [&](int t, bool last) { return Point{t - pos, inside(A, t, 1, v, last) ? v * base : base, 1e-5}; };
  want.push_back(amp(pos, false));
  for (size_t k = 0; k < A.size(); k++)
    if (pos < A[k].first && A[k].first < end) want.push_back({A[k].first - pos, k + 1 < A.size() ? A[k].second * base : base, 1e-5});
  want.push_back(amp(end, true));
  same(e, want, false);
  double s = hasS ? sharpness : 1, plain = hasS ? 65 + 235 * s - 0.5 : 90;
  auto freq = [&](int t, bool last) {
    if (inside(F, t, 0.5, v, last)) return Point{t - pos, 65 + 235 * limit(v + s), 1.01};
    return Point{t - pos, plain, 1.01};
  };
  want.clear();
  want.push_back(freq(pos, false));
  for (size_t k = 0; k < F.size(); k++)
    if (pos < F[k].first && F[k].first < end) want.push_back({F[k].first - pos, 65 + 235 * (k + 1 < F.size() ? limit(F[k].second + s) : s), 1.01});
  want.push_back(freq(end, true));
  same(e, want, true);
  sx_cover("end");
}
static Curve curve(int n, int start, int gap) {
  static const double V[] = {0.25, 1, 0.5};
  Curve c;
  for (int i = 0; i < n; i++) c.push_back({start + i * gap, V[i]});
  return c;
}
ENTRY(e01_times) {
  static const int S[] = {-2, 0, 5};
  int n = sx_choice("points", 4), gap = sx_choice("gap", 2) ? 4 : 1, st = S[sx_choice("start", 3)];
  int pos = sx_range("pos", 0, n < 3 ? 14 : 9), dur = sx_range("dur", 1, n < 3 ? 14 : 9);
  continuous(pos, 0, dur, true, 0.5, true, 0, curve(n, st, gap), {});
}
static const int POS[] = {0, 3, 4, 5, 8, 11}, DUR[] = {1, 4, 20};
ENTRY(e01_levels) {
  int n = sx_choice("points", 4), gap = sx_choice("gap", 2) ? 4 : 1, pos = POS[sx_choice("pos", 6)], dur = DUR[sx_choice("dur", 3)];
  Curve A = curve(n, 4, gap);
  int what = sx_choice("what", 3);
  double i = 0.75;
  if (what == 0) for (auto &p : A) p.second = sx_f64("v", 0, 1);
  if (what == 1) i = sx_f64("i", 0, 1);
  continuous(pos, 0, dur, what < 2, i, true, 0, A, {});
}
ENTRY(e01_both) {
  int nA = sx_choice("intensity points", 3), nF = sx_choice("sharpness points", 4), gap = sx_choice("gap", 2) ? 4 : 1, pos = POS[sx_choice("pos", 6)], dur = DUR[sx_choice("dur", 3)];
  Curve A = curve(nA, 4, gap), F = curve(nF, sx_choice("start", 2) + 4, gap);
  for (auto &p : A) p.second = sx_f64("v", 0, 1);
  continuous(pos, sx_f64("off", -0.4, 0.4), dur, true, 0.5, true, 0.25, A, F);
}
ENTRY(e01_pitch) {
  static const double SH[] = {0, 0.3, 1, 0};
  int n = sx_choice("points", 2), pos = POS[sx_choice("pos", 6)], dur = DUR[sx_choice("dur", 3)];
  Curve F = curve(n, 4, 1);
  int what = n == 0 ? 0 : sx_choice("sharpness", 5);
  if (n && what < 4) F[0].second = sx_f64("v", -1, 1);
  if (what == 4) F[0].second = -0.5;
  continuous(pos, 0, dur, true, 1, what != 3, what < 4 && n ? SH[what] : sx_f64("s", 0, 1), {}, F);
}
ENTRY(e01_transient) {
  int nA = sx_choice("intensity points", 3), nF = sx_choice("sharpness points", 3), gap = sx_choice("gap", 2) ? 4 : 1, what = sx_choice("what", 4);
  Curve A = curve(nA, 4, gap), F = curve(nF, 5, gap);
  int pos;
  double off = 0, i = 0.75, v;
  if (what == 0) pos = sx_range("pos", 0, 14), off = sx_f64("off", -0.4, 0.4);
  else pos = POS[sx_choice("at", 6)];
  if (what == 1) for (auto &p : A) p.second = sx_f64("v", 0, 1);
  if (what == 1) for (auto &p : F) p.second = sx_f64("f", 0, 1);
  if (what == 2) i = sx_f64("i", 0, 1);
  rapidjson::Document d = event(true, ((double)pos + off) / 1000, 0, what != 3, i, nA, 0.5);
  std::vector<Effect> out;
  int r = AhapEncoder::extractTransients(d.GetObject(), &out, &A, &F, 1000);
  sx_assert(r == EXIT_SUCCESS && out.size() == 1, "an event becomes one effect");
  Effect &e = out.at(0);
  sx_assert(e.getPosition() == pos && e.getKeyframesSize() == 1, "a transient is one keyframe at the time of the event");
  Keyframe k = e.getKeyframeAt(0);
  sx_assert(k.getRelativePosition().value() == 0, "the keyframe is at the start");
  double base = what != 3 ? i * 0.792 : 0.5, want = base;
  if (nA && pos <= A[0].first) want = base * A[0].second;
  else if (inside(A, pos, 1, v, true)) want = base * v;
  sx_assert(near(k.getAmplitudeModulation().value(), want, 1e-5), "an amplitude is the intensity scaled by the curve");
  int f = k.getFrequencyModulation().value();
  sx_assert(f >= 65 && f <= 300, "frequencies are in the actuator range");
  if (nF == 0 || pos > F[nF - 1].first) sx_assert(f == 90, "without a sharpness curve a transient has the default frequency");
  sx_cover("end");
}
ENTRY(e01_curve) {
  static const unsigned TS[] = {1000, 1, 8000};
  int n = sx_choice("points", 4), bad = sx_choice("incomplete", 4);
  unsigned ts = TS[sx_choice("timescale", 3)];
  rapidjson::Document d(rapidjson::kObjectType);
  auto &a = d.GetAllocator();
  double off = sx_f64("offset", -10, 100);
  d.AddMember("ParameterID", "HapticIntensityControl", a), d.AddMember("Time", off, a);
  rapidjson::Value ps(rapidjson::kArrayType);
  Curve want;
  std::vector<double> at;
  for (int i = 0; i < n; i++) {
    double t = sx_f64("t", -10, 100), v = sx_f64("v", -5, 5);
    rapidjson::Value p(rapidjson::kObjectType);
    if (!(i == 1 && bad == 1)) p.AddMember("Time", t, a);
    if (i == 1 && bad == 2) p.AddMember("ParameterValue", "x", a);
    else p.AddMember("ParameterValue", v, a);
    if (!(i == 1 && (bad == 1 || bad == 2))) want.push_back({0, v}), at.push_back((t + off) * ts);
    ps.PushBack(p, a);
  }
  if (bad != 3) d.AddMember("ParameterCurveControlPoints", ps, a);
  Curve out;
  int r = AhapEncoder::extractKeyframes(d.GetObject(), &out, ts);
  sx_assert(r == (bad == 3 ? EXIT_FAILURE : EXIT_SUCCESS), "a curve without points is a failure");
  if (bad != 3) {
    sx_assert(out.size() == want.size(), "every complete point is kept");
    for (size_t i = 0; i < want.size(); i++) {
      sx_assert(near(out.at(i).first, at[i], 1.001), "a point is at its time plus the offset of the curve");
      sx_assert(near(out.at(i).second, want[i].second, 1e-9), "a point keeps its value");
    }
  }
  sx_cover("end");
}
