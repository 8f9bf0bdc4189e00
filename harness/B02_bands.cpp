// SOURCES BINARY
// ENTRY b02_header bound="bands of all four types: every curve type code, 16-bit frequency limits, 0-3 effects" covers=end
// ENTRY b02_block bound="wavelet bands: block lengths of 16 to 8192 samples at 6 timescales and 5 upper frequencies with a block of at least 4 ticks, every 16-bit lower limit" covers=end
// ENTRY b02_basis shards=4 args="--real" bound="one basis effect in a band of every type: every position, phase, base signal, 0-2 keyframes with any fields present and any values, or 0-3 coded bytes; followed by a reference effect" covers=end
// ENTRY b02_long tier=thorough shards=8 args="--real" timeout=800 bound="one basis effect with 3-4 keyframes or 4-8 coded bytes" covers=end
// ENTRY b02_nested shards=6 args="--real" bound="bands of every type with 1-2 effects of every type; composite effects with 0-2 nested effects of every type and one more level of nesting, one keyframe or byte each" covers=end
// ENTRY b02_default shards=2 bound="vectorial, transient and curve keyframes with any of position, amplitude and frequency missing" covers=end
// ENTRY b02_many shards=3 bound="260 keyframes, 260 coded bytes, 260 effects or 260 nested effects, with positions and numbers of the last one arbitrary" covers=end
// ASSUME arithmetic on amplitudes and phases is exact (rounding is B05's subject)
#include "common_bits.h"
#include <IOHaptics/include/IOBinaryBands.h>
#include <Types/include/Band.h>
#include <limits>
using namespace haptics::types;
using namespace haptics::io;
static float real(const char *n) {
  float v = sx_raw_f32(n);
  sx_assume(v == v);
  return v;
}
static bool near(double r, double v, double lo, double hi, double step) {
  double k = v < lo ? lo : v > hi ? hi : v;
  return r - k <= step && k - r <= step && r >= lo - 1e-6 && r <= hi + 1e-6;
}
static const double AMP = 2.0 / 255 + 1e-6, PHASE = 6.28318 / 65535 + 2e-6;
static Keyframe keyframe(int presence) {
  Keyframe k(std::nullopt, std::nullopt, std::nullopt);
  if (presence & 1) k.setRelativePosition((int)sx_u("kp", 16));
  if (presence & 2) k.setAmplitudeModulation(real("ka"));
  if (presence & 4) k.setFrequencyModulation((int)sx_u("kf", 16));
  return k;
}
static void sameKeyframe(Keyframe &a, Keyframe &b, BandType t) {
  sx_assert(b.getRelativePosition().has_value() && b.getRelativePosition().value() == a.getRelativePosition().value_or(0), "a keyframe keeps its position");
  bool ha = a.getAmplitudeModulation().has_value(), hf = a.getFrequencyModulation().has_value();
  if (t == BandType::VectorialWave) {
    sx_assert(b.getAmplitudeModulation().has_value() == ha, "a vectorial keyframe has an amplitude exactly when it had one");
    sx_assert(b.getFrequencyModulation().has_value() == hf, "a vectorial keyframe has a frequency exactly when it had one");
  } else
    sx_assert(b.getAmplitudeModulation().has_value(), "a keyframe has an amplitude");
  if (b.getAmplitudeModulation().has_value())
    sx_assert(near(b.getAmplitudeModulation().value(), a.getAmplitudeModulation().value_or(0), -1, 1, AMP), "an amplitude comes back within one step");
  if (t == BandType::Transient) sx_assert(b.getFrequencyModulation().has_value(), "a transient keyframe has a frequency");
  if (t == BandType::Curve) sx_assert(!b.getFrequencyModulation().has_value(), "a curve keyframe has no frequency");
  if (b.getFrequencyModulation().has_value())
    sx_assert(b.getFrequencyModulation().value() == a.getFrequencyModulation().value_or(0), "a frequency comes back equal");
}
static void sameEffect(Effect &a, Effect &b, BandType t, bool pos) {
  sx_assert(a.getEffectType() == b.getEffectType(), "an effect keeps its type");
  if (pos) sx_assert(a.getPosition() == b.getPosition(), "an effect keeps its position");
  if (a.getEffectType() == EffectType::Reference) {
    sx_assert(a.getId() == b.getId(), "a reference keeps its id");
  } else if (a.getEffectType() == EffectType::Composite) {
    sx_assert(a.getTimelineSize() == b.getTimelineSize(), "a composite effect keeps its number of nested effects");
    for (int i = 0; i < (int)a.getTimelineSize(); i++) {
      Effect x = a.getTimelineEffectAt(i), y = b.getTimelineEffectAt(i);
      sameEffect(x, y, t, true);
    }
  } else {
    sx_assert(a.getKeyframesSize() == b.getKeyframesSize(), "an effect keeps its number of keyframes");
    for (int i = 0; i < (int)a.getKeyframesSize(); i++) sameKeyframe(a.getKeyframeAt(i), b.getKeyframeAt(i), t);
    if (t == BandType::VectorialWave) {
      sx_assert(a.getBaseSignalOrDefault() == b.getBaseSignalOrDefault(), "an effect keeps its base signal");
      sx_assert(near(b.getPhaseOrDefault(), a.getPhaseOrDefault(), 0, MAX_PHASE, PHASE), "a phase comes back within one step");
    }
    sx_assert(a.getWaveletBitstream() == b.getWaveletBitstream(), "an effect keeps its coded bytes");
  }
}
static void through(Band &b, Band &r, unsigned ts) {
  std::vector<bool> out;
  uint64_t pre = sx_u("pre", 3);
  for (int i = 0; i < 3; i++) out.push_back((pre >> i) & 1);
  sx_assert(IOBinaryBands::writeBandHeader(b, out, ts), "writing the header succeeds");
  sx_assert(IOBinaryBands::writeBandBody(b, out), "writing the body succeeds");
  uint64_t post = sx_u("post", 11);
  for (int i = 0; i < 11; i++) out.push_back((post >> i) & 1);
  bitsToFile(out, "band.bin");
  std::ifstream f("band.bin", std::ios::in | std::ios::binary);
  std::vector<bool> un;
  IOBinaryPrimitives::readNBits<uint8_t, 3>(f, un);
  sx_assert(IOBinaryBands::readBandHeader(r, f, un, ts), "reading the header succeeds");
  sx_assert(IOBinaryBands::readBandBody(r, f, un, ts), "reading the body succeeds");
  auto s = IOBinaryPrimitives::readNBits<uint16_t, 11>(f, un);
  bool ok = true;
  for (int i = 0; i < 11; i++) ok &= ((s >> (10 - i)) & 1) == (int)((post >> i) & 1);
  sx_assert(ok, "the reader consumes exactly what was written");
  sx_assert(r.getBandType() == b.getBandType(), "a band keeps its type");
  if (b.getBandType() == BandType::Curve) sx_assert(r.getCurveTypeOrDefault() == b.getCurveTypeOrDefault(), "a band keeps its curve type");
  sx_assert(r.getLowerFrequencyLimit() == b.getLowerFrequencyLimit() && r.getUpperFrequencyLimit() == b.getUpperFrequencyLimit(), "a band keeps its frequency limits");
  if (b.getBandType() == BandType::WaveletWave) sx_assert(r.getBlockLength() == b.getBlockLength(), "a wavelet band keeps its block length");
  sx_assert(r.getEffectsSize() == b.getEffectsSize(), "a band keeps its number of effects");
  for (int i = 0; i < (int)b.getEffectsSize(); i++) {
    Effect x = b.getEffectAt(i), y = r.getEffectAt(i);
    sameEffect(x, y, b.getBandType(), true);
  }
}
static Band band(BandType t, int bl = 64, int up = 8000) {
  Band b;
  b.setBandType(t);
  if (t == BandType::Curve) b.setCurveType((CurveType)sx_u("curve", 4));
  b.setLowerFrequencyLimit((int)sx_u("lower", 16));
  b.setUpperFrequencyLimit(t == BandType::WaveletWave ? up : (int)sx_u("upper", 16));
  if (t == BandType::WaveletWave) b.setBlockLength(bl);
  return b;
}
static BandType anyType() { return (BandType)sx_choice("type", 4); }
ENTRY(b02_header) {
  Band b = band(anyType());
  int n = sx_choice("n", 4);
  for (int i = 0; i < n; i++) {
    Effect e;
    e.setEffectType(EffectType::Reference);
    e.setPosition((int)sx_u("pos", 25));
    e.setId((int)sx_u("id", 16));
    b.effects.push_back(e);
  }
  Band r;
  through(b, r, 1000);
  sx_observe_u("lower", b.getLowerFrequencyLimit());
  sx_cover("end");
}
ENTRY(b02_block) {
  static const int TS[] = {1000, 500, 2000, 8000, 44100, 3000}, UP[] = {8000, 1000, 48, 49, 44100};
  int ts = TS[sx_choice("ts", 6)], up = UP[sx_choice("up", 5)];
  int k = 4 + sx_choice("k", 10);
  int bl = (int)((int64_t)(1 << k) * ts / up);
  sx_assume(bl >= 4);
  Band b = band(BandType::WaveletWave, bl, up), r;
  for (int i = 0; i < 2; i++) {
    Effect e;
    e.setPosition(i * bl);
    b.effects.push_back(e);
  }
  through(b, r, ts);
  sx_cover("end");
}
static Effect basis(BandType t, int n, int pres) {
  Effect e;
  e.setEffectType(EffectType::Basis);
  if (t == BandType::WaveletWave) {
    std::vector<unsigned char> w;
    for (int i = 0; i < n; i++) w.push_back((unsigned char)sx_u("byte", 8));
    e.setWaveletBitstream(w);
    return e;
  }
  if (t == BandType::VectorialWave) {
    e.setPhase(n ? real("phase") : 0);
    e.setBaseSignal((BaseSignal)sx_u("signal", 4));
  }
  for (int i = 0; i < n; i++) {
    int p = pres >= 0 ? pres : t == BandType::Curve ? 3 : t == BandType::Transient ? 7 : 1 + 2 * sx_choice("present", 4);
    Keyframe k = keyframe(p);
    e.addKeyframe(k);
  }
  return e;
}
static void one(int lo, int hi, int wlo, int whi) {
  BandType t = anyType();
  int n = t == BandType::WaveletWave ? wlo + sx_choice("n", whi - wlo + 1) : lo + sx_choice("n", hi - lo + 1);
  Band b = band(t), r;
  Effect e = basis(t, n, -1), ref;
  if (t != BandType::WaveletWave) e.setPosition((int)sx_u("pos", 25));
  ref.setEffectType(EffectType::Reference);
  ref.setPosition((int)sx_u("pos", 25));
  ref.setId((int)sx_u("id", 16));
  b.effects.push_back(e);
  b.effects.push_back(ref);
  through(b, r, 1000);
  sx_cover("end");
}
ENTRY(b02_basis) { one(0, 2, 0, 3); }
ENTRY(b02_long) { one(3, 4, 4, 8); }
static Effect any(BandType t, int depth, int maxN, int index) {
  int k = sx_choice("kind", depth ? 3 : 2);
  Effect e;
  if (k == 0) {
    e = basis(t, 1, 7 & (t == BandType::Curve ? 3 : 7));
  } else if (k == 1) {
    e.setEffectType(EffectType::Reference);
    e.setId((int)sx_u("id", 16));
  } else {
    e.setEffectType(EffectType::Composite);
    int n = sx_choice("nested", maxN + 1);
    for (int i = 0; i < n; i++) {
      Effect x = any(t, depth - 1, 1, -1);
      e.addTimelineEffect(x);
    }
  }
  e.setPosition(index >= 0 && k == 0 && t == BandType::WaveletWave ? index * 64 : (int)sx_u("pos", 25));
  return e;
}
ENTRY(b02_nested) {
  BandType t = anyType();
  Band b = band(t), r;
  int n = 1 + sx_choice("n", 2);
  for (int i = 0; i < n; i++) {
    Effect e = i == 0 ? any(t, 2, 2, 0) : any(t, 1, 1, 1);
    b.effects.push_back(e);
  }
  through(b, r, 1000);
  sx_cover("end");
}
ENTRY(b02_default) {
  BandType t = (BandType)sx_choice("type", 3);
  Band b = band(t), r;
  Effect e = basis(t, 0, 0);
  for (int i = 0; i < 2; i++) {
    int p = sx_choice("present", 8);
    Keyframe k(std::nullopt, std::nullopt, std::nullopt);
    if (p & 1) k.setRelativePosition((int)sx_u("kp", 16));
    if (p & 2) k.setAmplitudeModulation(i ? 0.5F : -1.0F);
    if (p & 4) k.setFrequencyModulation((int)sx_u("kf", 16));
    e.addKeyframe(k);
  }
  e.setPosition((int)sx_u("pos", 25));
  if (t == BandType::VectorialWave) e.setPhase(1);
  b.effects.push_back(e);
  through(b, r, 1000);
  sx_cover("end");
}
ENTRY(b02_many) {
  const int N = 260;
  BandType t = anyType();
  Band b = band(t), r;
  int what = sx_choice("what", 3);
  if (what == 0) {
    Effect e = basis(t, 0, 0);
    if (t == BandType::VectorialWave) e.setPhase(0);
    if (t == BandType::WaveletWave) {
      std::vector<unsigned char> w;
      for (int i = 0; i < N; i++) w.push_back(i == N - 1 ? (unsigned char)sx_u("byte", 8) : (unsigned char)(i * 7));
      e.setWaveletBitstream(w);
    } else
      for (int i = 0; i < N; i++) {
        Keyframe k(i == N - 1 ? (int)sx_u("kp", 16) : i * 3, 0.25F, i == N - 1 ? (int)sx_u("kf", 16) : i);
        e.addKeyframe(k);
      }
    b.effects.push_back(e);
  } else {
    Effect c;
    c.setEffectType(EffectType::Composite);
    for (int i = 0; i < N; i++) {
      Effect e;
      e.setEffectType(EffectType::Reference);
      e.setPosition(i == N - 1 ? (int)sx_u("pos", 25) : i * 1000);
      e.setId(i == N - 1 ? (int)sx_u("id", 16) : i * 100);
      if (what == 1) b.effects.push_back(e); else c.addTimelineEffect(e);
    }
    if (what == 2) b.effects.push_back(c);
  }
  through(b, r, 1000);
  sx_cover("end");
}
