// SOURCES BINARY
// ENTRY b03_effects shards=4 args="--real" bound="one library effect of every type with every id, position, phase and base signal, 0-2 keyframes with any fields present, followed by a second effect" covers=end
// ENTRY b03_long tier=thorough shards=8 args="--real" timeout=800 bound="one library effect with 3-4 keyframes with any fields present" covers=end
// ENTRY b03_nested shards=8 args="--real" bound="libraries of 1-2 effects of every type; composite effects with 0-2 nested effects of every type and one more level (thorough: two), keyframes 0-1" covers=end
// ENTRY b03_many shards=1 bound="260 library effects, 260 keyframes or 260 nested effects" covers=end
// ENTRY b03_file args="--real" bound="a library inside a whole file with channels after it: one composite effect with one nested effect of any type" covers=end
// ASSUME arithmetic on amplitudes and phases is exact (rounding is B05's subject)
#include "common_bits.h"
#include <IOHaptics/include/IOBinary.h>
#include <Types/include/Haptics.h>
using namespace haptics::types;
using namespace haptics::io;
static float real(const char *n) {
  float v = sx_raw_f32(n);
  sx_assume(v == v);
  return v;
}
static bool near(double r, double v, double lo, double hi, double step) {
  double k = v < lo ? lo : v > hi ? hi : v;
  return r - k <= step && k - r <= step && r >= lo - 1e-6 && r <= hi + 1e-6;
}
static const double AMP = 2.0 / 255 + 1e-6, PHASE = 6.28318 / 65535 + 2e-6;
static Keyframe keyframe(int presence) {
  Keyframe k(std::nullopt, std::nullopt, std::nullopt);
  if (presence & 1) k.setRelativePosition((int)sx_u("kp", 16));
  if (presence & 2) k.setAmplitudeModulation(real("ka"));
  if (presence & 4) k.setFrequencyModulation((int)sx_u("kf", 16));
  return k;
}
static void same(Effect &a, Effect &b) {
  sx_assert(a.getEffectType() == b.getEffectType(), "a library effect keeps its type");
  sx_assert(a.getId() == b.getId(), "a library effect keeps its id");
  sx_assert(a.getPosition() == b.getPosition(), "a library effect keeps its position");
  if (a.getEffectType() == EffectType::Basis) {
    sx_assert(a.getBaseSignalOrDefault() == b.getBaseSignalOrDefault(), "a library effect keeps its base signal");
    sx_assert(near(b.getPhaseOrDefault(), a.getPhaseOrDefault(), 0, MAX_PHASE, PHASE), "a phase comes back within one step");
  }
  sx_assert(a.getKeyframesSize() == b.getKeyframesSize(), "a library effect keeps its number of keyframes");
  for (int i = 0; i < (int)a.getKeyframesSize(); i++) {
    Keyframe &x = a.getKeyframeAt(i), &y = b.getKeyframeAt(i);
    sx_assert(x.getRelativePosition() == y.getRelativePosition(), "a keyframe keeps its position, present or absent");
    sx_assert(x.getFrequencyModulation() == y.getFrequencyModulation(), "a keyframe keeps its frequency, present or absent");
    sx_assert(x.getAmplitudeModulation().has_value() == y.getAmplitudeModulation().has_value(), "a keyframe has an amplitude exactly when it had one");
    if (x.getAmplitudeModulation().has_value())
      sx_assert(near(y.getAmplitudeModulation().value(), x.getAmplitudeModulation().value(), -1, 1, AMP), "an amplitude comes back within one step");
  }
  sx_assert(a.getTimelineSize() == b.getTimelineSize(), "a composite effect keeps its number of nested effects");
  for (int i = 0; i < (int)a.getTimelineSize(); i++) {
    Effect x = a.getTimelineEffectAt(i), y = b.getTimelineEffectAt(i);
    same(x, y);
  }
}
static void through(Perception &p) {
  std::vector<bool> out;
  uint64_t pre = sx_u("pre", 3), post = sx_u("post", 11);
  for (int i = 0; i < 3; i++) out.push_back((pre >> i) & 1);
  sx_assert(IOBinary::writeLibrary(p, out), "writing the library succeeds");
  for (int i = 0; i < 11; i++) out.push_back((post >> i) & 1);
  bitsToFile(out, "lib.bin");
  std::ifstream f("lib.bin", std::ios::in | std::ios::binary);
  std::vector<bool> un;
  IOBinaryPrimitives::readNBits<uint8_t, 3>(f, un);
  Perception r;
  sx_assert(IOBinary::readLibrary(r, f, un), "reading the library succeeds");
  auto s = IOBinaryPrimitives::readNBits<uint16_t, 11>(f, un);
  bool ok = true;
  for (int i = 0; i < 11; i++) ok &= ((s >> (10 - i)) & 1) == (int)((post >> i) & 1);
  sx_assert(ok, "the reader consumes exactly what was written");
  sx_assert(p.getEffectLibrarySize() == r.getEffectLibrarySize(), "the library keeps its number of effects");
  for (int i = 0; i < (int)p.getEffectLibrarySize(); i++) same(p.getBasisEffectAt(i), r.getBasisEffectAt(i));
}
static Effect head(int kind) {
  Effect e;
  e.setEffectType((EffectType)kind);
  e.setId((int)sx_u("id", 16));
  e.setPosition((int)sx_u("pos", 25));
  return e;
}
static void tone(Effect &e) {
  e.setPhase(real("phase"));
  e.setBaseSignal((BaseSignal)sx_u("signal", 4));
}
static void one(int lo, int hi) {
  Perception p;
  int kind = sx_choice("kind", 3);
  Effect e = head(kind), g = head(1);
  if (kind == 0) tone(e);
  int n = lo + sx_choice("n", hi - lo + 1);
  for (int i = 0; i < n; i++) {
    Keyframe k = keyframe(sx_choice("present", 8));
    e.addKeyframe(k);
  }
  p.addBasisEffect(e);
  p.addBasisEffect(g);
  through(p);
  sx_cover("end");
}
ENTRY(b03_effects) { one(0, 2); }
ENTRY(b03_long) { one(3, 4); }
static Effect any(int depth, int maxN) {
  int kind = sx_choice("kind", depth ? 3 : 2);
  Effect e = head(kind);
  if (kind == 0) {
    tone(e);
    if (sx_choice("kfs", 2)) {
      Keyframe k = keyframe(7);
      e.addKeyframe(k);
    }
  }
  int n = kind == 2 ? sx_choice("nested", maxN + 1) : 0;
  for (int i = 0; i < n; i++) {
    Effect x = any(depth - 1, 1);
    e.addTimelineEffect(x);
  }
  return e;
}
#ifdef SX_THOROUGH
static const int DEPTH = 3;
#else
static const int DEPTH = 2;
#endif
ENTRY(b03_nested) {
  Perception p;
  int n = 1 + sx_choice("n", 2);
  for (int i = 0; i < n; i++) {
    Effect e = i == 0 ? any(DEPTH, 2) : any(1, 1);
    p.addBasisEffect(e);
  }
  through(p);
  sx_cover("end");
}
ENTRY(b03_many) {
  const int N = 260;
  Perception p;
  int what = sx_choice("what", 3);
  Effect c = head(what == 1 ? 0 : 2);
  if (what == 1) { c.setPhase(0); c.setBaseSignal(BaseSignal::Triangle); }
  for (int i = 0; i < N; i++) {
    Effect e;
    e.setEffectType(EffectType::Reference);
    e.setPosition(i == N - 1 ? (int)sx_u("pos", 25) : i * 1000);
    e.setId(i == N - 1 ? (int)sx_u("id", 16) : i * 100);
    Keyframe k(i == N - 1 ? (int)sx_u("kp", 16) : i * 3, 0.25F, i);
    if (what == 0) p.addBasisEffect(e);
    if (what == 1) c.addKeyframe(k);
    if (what == 2) c.addTimelineEffect(e);
  }
  if (what) p.addBasisEffect(c);
  through(p);
  sx_cover("end");
}
ENTRY(b03_file) {
  Haptics h;
  std::string one = "1", text = "text";
  h.setVersion(one);
  h.setProfile(one);
  h.setLevel(1);
  h.setDate(one);
  h.setDescription(text);
  Perception p(3, 0, "perception", PerceptionModality::Force);
  Effect e = head(2), x = any(1, 1);
  e.addTimelineEffect(x);
  p.addBasisEffect(e);
  Channel ch;
  ch.setId((int)sx_u("ch", 15));
  ch.setDescription(text);
  p.addChannel(ch);
  h.addPerception(p);
  sx_assert(IOBinary::writeFile(h, "lib.hmpg"), "writing the file succeeds");
  Haptics r;
  sx_assert(IOBinary::loadFile("lib.hmpg", r), "reading the file succeeds");
  sx_assert(r.getPerceptionsSize() == 1 && r.getPerceptionAt(0).getEffectLibrarySize() == 1, "the perception keeps its library");
  same(p.getBasisEffectAt(0), r.getPerceptionAt(0).getBasisEffectAt(0));
  sx_assert(r.getPerceptionAt(0).getChannelsSize() == 1 && r.getPerceptionAt(0).getChannelAt(0).getId() == ch.getId(), "what follows the library is intact");
  sx_cover("end");
}
