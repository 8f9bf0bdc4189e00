// SOURCES TYPES Encoder/src/IvsEncoder.cpp
// ENTRY e02_envelope shards=8 args="--real" bound="effects of 4 durations and any magnitude, with or without attack and fade of 7 lengths (longer than the effect included) and any levels in 0-10000, own or overriding values" covers=end
// ENTRY e02_values shards=4 args="--real" bound="periodic effects of 5 waveforms and swept ones, periods of 16 values, three durations, any magnitude, every combination of own and overriding duration, magnitude and period, other effects before and after" covers=end
// ENTRY e02_ticks bound="every time of 0-4095 ms in time scales 1000, 8000 and 48000 (thorough: 0-65535 ms), with floating-point semantics" covers=end
// ENTRY e02_repeat shards=8 args="--real" bound="timelines of 2-3 launches in any order and of any magnitude, the first one at any time 0-58 ms, the second one at 6 and 0-4 repeats (in sequence, also back to back, two or three levels nested, also with a common start or end, two nested in one) of 1-2 more rounds" covers=end
// ENTRY e02_timelines args="--real" bound="1-2 timelines onto perceptions with 0-2 channels, launches of unknown effects, effects of unknown types, a file that does not parse, an empty name" covers=end,refused
// ASSUME the third-party XML parser is replaced by a tree of the same interface; real arithmetic stands for double and float rounding except in e02_ticks; repeats are in sequence or one inside the other, and effects have a duration of a tick or more
#include <sx.h>
#include <Encoder/include/IvsEncoder.h>
using namespace haptics::types;
using haptics::encoder::IvsEncoder;
SxXml *sx_xml_root;
static bool near(double a, double b, double eps) { return (a - b <= eps) & (b - a <= eps); }
static SxXml *node(SxXml *parent, const char *tag) {
  SxXml *n = new SxXml{tag, {}, {}};
  if (parent) parent->kids.push_back(n);
  return n;
}
static void set(SxXml *n, const char *name, int v) { n->attrs.push_back({name, "", v}); }
static void text(SxXml *n, const char *name, const char *v) { n->attrs.push_back({name, v, 0}); }
static SxXml *effect(SxXml *effects, const char *name, const char *type) {
  SxXml *b = node(effects, "basis-effect");
  text(b, "name", name), text(b, "type", type);
  return b;
}
ENTRY(e02_envelope) {
  SxXml *b = effect(nullptr, "a", "magsweep"), *l = node(nullptr, "launch-event");
  static const int D[] = {1, 2, 5, 12}, T[] = {0, 1, 3, 5, 10, 12, 14};
  int over = sx_choice("override", 2), how = sx_choice("envelope", 4), dur = D[sx_choice("duration", 4)], mag = sx_range("magnitude", 0, 10000), at = sx_range("time", 0, 100000);
  set(l, "time", at);
  if (over) set(b, "duration", 77), set(b, "magnitude", 5), set(l, "duration-override", dur), set(l, "magnitude-override", mag);
  else set(b, "duration", dur), set(b, "magnitude", mag);
  int attack = 0, fade = 0, al = 0, fl = 0;
  if (how & 1) attack = T[sx_choice("attack", 7)], al = sx_range("attack level", 0, 10000), set(b, "attack-time", attack), set(b, "attack-level", al);
  if (how & 2) fade = T[sx_choice("fade", 7)], fl = sx_range("fade level", 0, 10000), set(b, "fade-time", fade), set(b, "fade-level", fl);
  pugi::xml_node bn(b), ln(l);
  Effect e;
  sx_assert(IvsEncoder::convertToEffect(&bn, &ln, &e, 1000), "an effect of a known type is converted");
  sx_assert(e.getPosition() == at, "the effect is at the time of the launch");
  int n = (int)e.getKeyframesSize(), before = 0;
  sx_assert(n >= 2, "an envelope has a start and an end");
  double M = mag / 10000.0, first = (how & 1) && attack > 0 ? al / 10000.0 : M;
  double first2 = first;
  for (int i = 0; i < n; i++) {
    Keyframe k = e.getKeyframeAt(i);
    int p = k.getRelativePosition().value();
    sx_assert(p >= before, "keyframes are in order of time");
    before = p;
  }
  Keyframe s = e.getKeyframeAt(0), z = e.getKeyframeAt(n - 1);
  sx_assert(s.getRelativePosition().value() == 0 && z.getRelativePosition().value() == dur, "the envelope lasts as long as the effect");
  sx_assert(s.getFrequencyModulation().value() == 170 && z.getFrequencyModulation().value() == 170, "a swept effect has its frequency at both ends");
  bool cut = (how & 1) && attack >= dur; // the attack does not end within the effect
  sx_assert(near(s.getAmplitudeModulation().value(), first2, 1e-5), "the envelope starts at the attack level");
  double last = cut ? al / 10000.0 + (M - al / 10000.0) * dur / attack : (how & 2) && !(fade == 0 && false) ? fl / 10000.0 : M;
  sx_assert(near(z.getAmplitudeModulation().value(), last, 1e-5), "the envelope ends at the fade level or where the attack is cut");
  int peak = (how & 1) ? attack : 0, down = (how & 2) ? dur - fade : dur;
  if (!cut) {
    bool reached = (peak == 0), held = down <= peak || down == dur;
    for (int i = 0; i < n; i++) {
      Keyframe k = e.getKeyframeAt(i);
      int p = k.getRelativePosition().value();
      if (!k.getAmplitudeModulation().has_value()) continue;
      double v = k.getAmplitudeModulation().value();
      if (p == peak && p < dur && near(v, M, 1e-5)) reached = true;
      if (p == down && near(v, M, 1e-5)) held = true;
      if (p > peak && p < dur && p != down) sx_fail("between attack and fade there is no other keyframe");
    }
    sx_assert(reached, "the envelope reaches the magnitude at the end of the attack");
    sx_assert(held, "the envelope leaves the magnitude at the start of the fade");
  }
  sx_cover("end");
}
static const int PERIOD[] = {1, 2, 4, 5, 8, 10, 20, 25, 40, 50, 100, 125, 200, 250, 500, 1000};
ENTRY(e02_values) {
  static const char *W[] = {"sine", "square", "triangle", "sawtooth-up", "sawtooth-down"};
  static const BaseSignal S[] = {BaseSignal::Sine, BaseSignal::Square, BaseSignal::Triangle, BaseSignal::SawToothUp, BaseSignal::SawToothDown};
  int w = sx_choice("waveform", 6), od = sx_choice("own duration", 2), om = sx_choice("own magnitude", 2), op = sx_choice("own period", 2), p = PERIOD[sx_choice("period", 16)];
  SxXml *b = effect(nullptr, "a", w == 5 ? "magsweep" : "periodic"), *l = node(nullptr, "launch-event");
  int dur = w == 2 ? 37 : w < 2 ? 1 : 5000, mag = sx_range("magnitude", 0, 10000);
  if (w < 5) text(b, "waveform", W[w]);
  set(b, "duration", od ? dur : 3), set(b, "magnitude", om ? mag : 4), set(b, "period", op ? p : 7);
  set(l, "time", 12);
  if (!od) set(l, "duration-override", dur);
  if (!om) set(l, "magnitude-override", mag);
  if (!op) set(l, "period-override", p);
  pugi::xml_node bn(b), ln(l);
  Effect e;
  sx_assert(IvsEncoder::convertToEffect(&bn, &ln, &e, 1000), "an effect of a known type is converted");
  sx_assert(e.getBaseSignal() == (w == 5 ? BaseSignal::Sine : S[w]), "the effect has the waveform of the basis effect");
  sx_assert(e.getPosition() == 12 && e.getPhase() == 0 && e.getKeyframesSize() == 2, "an effect without envelope has two keyframes");
  for (int i = 0; i < 2; i++) {
    Keyframe k = e.getKeyframeAt(i);
    sx_assert(k.getRelativePosition().value() == (i ? dur : 0), "the effect has its duration");
    sx_assert(near(k.getAmplitudeModulation().value(), mag / 10000.0, 1e-5), "the effect has its magnitude");
    sx_assert(k.getFrequencyModulation().value() >= (w == 5 ? 170 : 1000 / p - 1) && k.getFrequencyModulation().value() <= (w == 5 ? 170 : 1000 / p), "the frequency is one over the period");
  }
  sx_cover("end");
}
ENTRY(e02_ticks) {
  static const unsigned TS[] = {1000, 8000, 48000};
  unsigned ts = TS[sx_choice("timescale", 3)];
#ifdef SX_THOROUGH
  int ms = (int)sx_u("ms", 16);
#else
  int ms = (int)sx_u("ms", 12);
#endif
  sx_assert(IvsEncoder::millisecondsToTimeScale(ms, ts) == ms * (int)(ts / 1000), "a time in milliseconds is converted to exactly as many ticks");
  sx_cover("end");
}
struct Rep { int start, dur, count; std::vector<Rep> kids; };
static int length(const Rep &r);
static int extra(const Rep &r) { return (r.count + 1) * length(r) - r.dur; }
static int length(const Rep &r) {
  int n = r.dur;
  for (auto &k : r.kids) n += extra(k);
  return n;
}
// all times of a launch at time t
static void times(const std::vector<Rep> &reps, int origin, int t, int base, std::vector<int> &out) {
  for (auto &r : reps) {
    if (t >= r.start + r.dur) base += extra(r);
    else if (t >= r.start) {
      for (int i = 0; i <= r.count; i++) times(r.kids, r.start, t, base + r.start - origin + i * length(r), out);
      return;
    }
  }
  out.push_back(base + t - origin);
}
static void declare(SxXml *tl, const std::vector<Rep> &reps) {
  for (size_t i = reps.size(); i-- > 0;) {
    declare(tl, reps[i].kids);
    SxXml *r = node(tl, "repeat-event");
    set(r, "time", reps[i].start), set(r, "duration", reps[i].dur), set(r, "count", reps[i].count);
  }
}
ENTRY(e02_repeat) {
  SxXml *doc = node(nullptr, ""), *file = node(doc, "ivs-file"), *fx = node(file, "effects");
  SxXml *b = effect(fx, "a", "magsweep");
  set(b, "duration", 1), set(b, "magnitude", 1000);
  SxXml *tl = node(fx, "timeline-effect");
  int shape = sx_choice("shape", 8), c = 1 + sx_choice("count", 2);
  std::vector<Rep> reps;
  switch (shape) {
  case 1: reps = {{20, 10, c, {}}}; break;
  case 2: reps = {{10, 10, c, {}}, {30, 10, 1, {}}}; break;
  case 3: reps = {{10, 30, 1, {{20, 10, c, {}}}}}; break;
  case 4: reps = {{5, 10, 1, {}}, {20, 30, c, {{20, 10, 1, {}}, {35, 5, 1, {}}}}}; break;
  case 6: reps = {{10, 10, c, {}}, {20, 10, 1, {}}}; break;
  case 7: reps = {{20, 30, c, {{20, 10, 1, {}}, {30, 20, 1, {{45, 5, 1, {}}}}}}}; break;
  case 5: reps = {{10, 30, 1, {{10, 20, c, {{15, 5, 1, {}}}}}}, {45, 5, 1, {}}}; break;
  }
  declare(tl, reps);
  static const int AT[] = {0, 10, 19, 25, 41, 55};
  static const int FIRST[] = {0, 4, 9, 14, 19, 24, 29, 34, 39, 44, 49, 54};
  int n = 2 + sx_choice("third", 2), mag = sx_range("magnitude", 0, 1500);
  int t[3] = {FIRST[sx_choice("first", 12)] + (int)sx_concretize_((uint64_t)sx_range("late", 0, 4)), AT[sx_choice("second", 6)], 17};
  for (int i = 0; i < n; i++) {
    SxXml *l = node(tl, "launch-event");
    text(l, "effect", "a"), set(l, "time", t[i]), set(l, "magnitude-override", i ? 1000 * (i + 1) : mag);
  }
  sx_xml_root = doc;
  Perception p(0, 0, std::string("p"), PerceptionModality::Force);
  sx_assert(IvsEncoder::encode("x.ivs", p, 1000) == EXIT_SUCCESS && p.getChannelsSize() == 1, "a timeline becomes a channel");
  std::vector<Effect> all;
  Channel &ch = p.getChannelAt(0);
  for (int i = 0; i < (int)ch.getBandsSize(); i++)
    for (int j = 0; j < (int)ch.getBandAt(i).getEffectsSize(); j++) all.push_back(ch.getBandAt(i).getEffectAt(j));
  size_t total = 0;
  for (int i = 0; i < n; i++) {
    std::vector<int> want;
    times(reps, 0, t[i], 0, want);
    total += want.size();
    for (int w : want) {
      int found = 0;
      for (auto &e : all) found += (int)((e.getPosition() == w) & near(e.getKeyframeAt(0).getAmplitudeModulation().value(), i ? (i + 1) / 10.0 : mag / 10000.0, 1e-5));
      sx_assert(found == 1, "every round of every launch has one effect at its time");
    }
  }
  sx_assert(all.size() == total, "there are no other effects");
  sx_cover("end");
}
ENTRY(e02_timelines) {
  SxXml *doc = node(nullptr, ""), *file = node(doc, "ivs-file"), *fx = node(file, "effects");
  text(file, "last-modified", "today");
  if (sx_choice("decoy", 2)) set(effect(fx, "c", "magsweep"), "duration", 9);
  SxXml *b = effect(fx, "a", "magsweep");
  int mag = sx_range("magnitude", 0, 10000);
  set(b, "duration", 5), set(b, "magnitude", mag);
  effect(fx, "b", "other");
  set(effect(fx, "a", "periodic"), "duration", 9);
  int n = 1 + sx_choice("timelines", 2), had = sx_choice("channels", 3);
  for (int i = 0; i < n; i++) {
    SxXml *tl = node(fx, "timeline-effect");
    text(tl, "name", i ? "second" : "first");
    static const char *E[] = {"b", "zz", "a"};
    for (int k = 0; k < 3 - i; k++) {
      SxXml *l = node(tl, "launch-event");
      text(l, "effect", E[i + k]), set(l, "time", 10 * i + k);
    }
  }
  bool unread = sx_choice("unreadable", 2), unnamed = sx_choice("unnamed", 2);
  sx_xml_root = unread ? nullptr : doc;
  Perception p(0, 0, std::string("p"), PerceptionModality::Force);
  for (int i = 0; i < had; i++) {
    Channel c(i, "old", 1, 1, 0);
    p.addChannel(c);
  }
  int r = IvsEncoder::encode(unnamed ? "" : "x.ivs", p, 1000);
  if (unread || unnamed) {
    sx_assert(r == EXIT_FAILURE && (int)p.getChannelsSize() == had, "a file that cannot be read is a failure");
    sx_cover("refused");
    return;
  }
  sx_assert(r == EXIT_SUCCESS && (int)p.getChannelsSize() == (had > n ? had : n), "each timeline has a channel");
  for (int i = 0; i < n; i++) {
    Channel &c = p.getChannelAt(i);
    sx_assert(c.getDescription() == (i < had ? "old" : i ? "second - today" : "first - today"), "a new channel is named after its timeline");
    sx_assert(c.getBandsSize() == 1 && c.getBandAt(0).getEffectsSize() == 1, "launches of unknown effects are left out");
    Effect &e = c.getBandAt(0).getEffectAt(0);
    sx_assert(e.getPosition() == (i ? 11 : 2), "the effect is at the time of its launch");
    sx_assert(e.getKeyframesSize() == 2 && e.getKeyframeAt(1).getRelativePosition().value() == 5 && near(e.getKeyframeAt(0).getAmplitudeModulation().value(), mag / 10000.0, 1e-5), "the first basis effect of the name is used");
  }
  sx_cover("end");
}
