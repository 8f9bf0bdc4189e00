// SOURCES STREAM
// ENTRY s02_one shards=12 bound="one effect of 1-2 keyframes with any fields present in a band of each type, packets of 16 ticks, every position and every keyframe offset within three packets" covers=end
// ENTRY s02_long tier=thorough shards=16 timeout=850 bound="one effect of 1-3 keyframes in a band of each type, packets of 16 ticks, every position and keyframe offset within four packets" covers=end
// ENTRY s02_two shards=8 bound="two effects of one band (overlapping or not, in either order), 1-2 keyframes each, packets of 8 ticks, every position and keyframe offset within three packets" covers=end
// ENTRY s02_mixed shards=8 bound="basis, reference and composite effects in one band, ids set or not or equal to a referenced one, every position within three packets" covers=end
// ENTRY s02_bands shards=12 bound="2-3 bands over 1-2 channels and 1-2 perceptions, equal channel ids, one effect each at any of four places, three packet durations, synchronisation points" covers=end
// ENTRY s02_spatial shards=6 bound="perceptions of six modalities, the three spatial ones among them (thorough: all fourteen): 1-2 bands with two effects, positions up to 2^20" covers=end
// ENTRY s02_wavelet shards=6 bound="wavelet bands of 1-4 blocks of 0-3 arbitrary bytes, three block lengths, three packet durations, semantics per block, next to another band" covers=end
// ENTRY s02_values shards=2 args="--real" bound="every amplitude, frequency, phase, base signal and semantic of one effect in a band of each type" covers=end
// ASSUME amplitudes take two values except in s02_values (B05 decides the coding of every real); nested effects of composites are placed in a composite at position zero
#include "meta.h"
#include <IOHaptics/include/IOBinaryFields.h>
#include <IOHaptics/include/IOStream.h>
using namespace haptics::types;
using haptics::io::IOStream;
typedef std::vector<bool> Bits;
static const double AMP = 2.0 / 255 + 1e-6, PHASE = 6.28318 / 65535 + 2e-6;
static void same(Band &band, Effect &a, Effect &b, bool wavelet) {
  sx_assert(a.getEffectType() == b.getEffectType(), "a streamed effect keeps its type");
  sx_assert(a.getPosition() == b.getPosition(), "a streamed effect keeps its position");
  sx_assert(a.getEffectType() == EffectType::Reference || a.getSemantic() == b.getSemantic(), "a streamed effect keeps its semantic");
  if (wavelet) {
    sx_assert(a.getWaveletBitstream() == b.getWaveletBitstream(), "a streamed block keeps its coded bytes");
    return;
  }
  if (band.getBandType() == BandType::VectorialWave && a.getEffectType() == EffectType::Basis) {
    sx_assert(a.getBaseSignalOrDefault() == b.getBaseSignalOrDefault(), "a streamed effect keeps its base signal");
    sx_assert(meta::near(b.getPhaseOrDefault(), a.getPhaseOrDefault(), 0, haptics::io::MAX_PHASE, PHASE), "a streamed effect keeps its phase");
  }
  sx_assert(a.getKeyframesSize() == b.getKeyframesSize(), "every keyframe arrives exactly once");
  for (int i = 0; i < (int)a.getKeyframesSize() && i < (int)b.getKeyframesSize(); i++) {
    Keyframe &x = a.getKeyframeAt(i), &y = b.getKeyframeAt(i);
    sx_assert(x.getRelativePosition() == y.getRelativePosition(), "a streamed keyframe keeps its time");
    if (band.getBandType() != BandType::Curve) sx_assert(x.getFrequencyModulation() == y.getFrequencyModulation(), "a streamed keyframe keeps its frequency, present or absent");
    sx_assert(x.getAmplitudeModulation().has_value() == y.getAmplitudeModulation().has_value(), "a streamed keyframe has an amplitude exactly when it had one");
    if (x.getAmplitudeModulation().has_value() && y.getAmplitudeModulation().has_value()) sx_assert(meta::near(y.getAmplitudeModulation().value(), x.getAmplitudeModulation().value(), -1, 1, AMP), "a streamed keyframe keeps its amplitude");
  }
}
static void flatten(Effect &e, std::vector<Effect> &out) {
  if (e.getEffectType() != EffectType::Composite) out.push_back(e);
  else
    for (int i = 0; i < (int)e.getTimelineSize(); i++) flatten(e.getTimelineEffectAt(i), out);
}
static bool given(std::vector<Effect> &all, int id) {
  for (auto &e : all)
    if (e.getId() == id) return true;
  return false;
}
static void sameBand(Band &a, Band &b) {
  std::vector<Effect> all;
  for (int i = 0; i < (int)a.getEffectsSize(); i++) flatten(a.getEffectAt(i), all);
  bool wavelet = a.getBandType() == BandType::WaveletWave;
  sx_assert(all.size() == b.getEffectsSize(), "every effect arrives exactly once");
  std::vector<char> used(b.getEffectsSize(), 0);
  for (int i = 0; i < (int)all.size(); i++) {
    // an effect without an id gets a free one
    int match = -1;
    for (int j = 0; j < (int)b.getEffectsSize(); j++) {
      Effect &e = b.getEffectAt(j);
      bool hit = wavelet ? j == i : all[i].getId() == -1 ? e.getEffectType() == EffectType::Basis && !used[j] && !given(all, e.getId()) : e.getId() == all[i].getId() && e.getEffectType() == all[i].getEffectType();
      if (hit && !used[j] && match < 0) match = j;
    }
    sx_assert(match >= 0, "an effect arrives with its id and type");
    if (match < 0) continue;
    used[match] = 1;
    same(a, all[i], b.getEffectAt(match), wavelet);
  }
}
static void stream(Haptics &h, int duration) {
  std::vector<Bits> units;
  Haptics copy = h;
  sx_assert(IOStream::writeUnits(copy, units, duration), "the experience is streamed");
  IOStream::StreamReader r = IOStream::initializeStream();
  IOStream::CRC crc;
  for (auto &u : units) sx_assert(IOStream::readMIHSUnit(u, r, crc), "every unit is read");
  sx_assert(r.haptic.getPerceptionsSize() == h.getPerceptionsSize(), "every perception arrives");
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    Perception &p = h.getPerceptionAt(i), &q = r.haptic.getPerceptionAt(i);
    sx_assert(p.getChannelsSize() == q.getChannelsSize(), "every channel arrives");
    for (int j = 0; j < (int)p.getChannelsSize(); j++) {
      Channel &c = p.getChannelAt(j), &d = q.getChannelAt(j);
      sx_assert(c.getBandsSize() == d.getBandsSize(), "every band arrives");
      for (int k = 0; k < (int)c.getBandsSize(); k++) sameBand(c.getBandAt(k), d.getBandAt(k));
    }
  }
}
static Band band(int type) {
  Band b;
  b.setBandType((BandType)type);
  b.setCurveType(CurveType::Cubic);
  b.setLowerFrequencyLimit(0);
  b.setUpperFrequencyLimit(1000);
  return b;
}
static bool plain = false;  // values fixed, times symbolic
static Keyframe keyframe(int type, int at, int mask) {
  Keyframe k(at, std::nullopt, std::nullopt);
  if (type == (int)BandType::Transient) mask = 3;
  if (type == (int)BandType::Curve) mask = 1;
  if (mask & 1) k.setAmplitudeModulation(!plain && sx_u("amp", 1) ? 1.0F : -0.5F);
  if (mask & 2) k.setFrequencyModulation(plain ? 77 : (int)sx_u("freq", 16));
  return k;
}
// n keyframes at non-decreasing times below span
static Effect effect(int type, int id, int pos, int n, unsigned bits, int span, bool masks) {
  Effect e;
  e.setEffectType(EffectType::Basis);
  e.setId(id);
  e.setPosition(pos);
  if (type == (int)BandType::VectorialWave) {
    e.setPhase(!plain && sx_u("phase", 1) ? 1.5F : 0.25F);
    e.setBaseSignal((BaseSignal)(plain ? 1 : sx_u("signal", 2)));
  }
  int at = 0;
  for (int i = 0; i < n; i++) {
    int next = (int)sx_u("offset", bits);
    sx_assume(next >= at && next < span);
    at = next;
    Keyframe k = keyframe(type, at, masks && i == n - 1 ? sx_choice("fields", type == (int)BandType::VectorialWave ? 4 : 1) : 3);
    e.addKeyframe(k);
  }
  return e;
}
static void wrap(Haptics &h, Band &b) {
  Perception p(1, 0, "", PerceptionModality::Vibrotactile);
  Channel c;
  c.setId(4);
  c.addBand(b);
  p.addChannel(c);
  h.addPerception(p);
}
static void one(int maxKf, int packets) {
  int type = sx_choice("type", 3), n = 1 + sx_choice("n", maxKf);
  Haptics h;
  Band b = band(type);
  int pos = 16 * sx_choice("packet", packets) + (int)sx_u("pos", 4);
  Effect e = effect(type, 9, pos, n, 6, 16 * packets, true);
  b.addEffect(e);
  wrap(h, b);
  stream(h, 16);
  sx_cover("end");
}
ENTRY(s02_one) { one(2, 3); }
ENTRY(s02_long) { one(3, 4); }
// the first effect is fixed; the second one lies anywhere before, inside or behind it
ENTRY(s02_two) {
  int type = (int)BandType::VectorialWave, n = 1 + sx_choice("n", 2), first = sx_choice("first", 2), at = 8 * sx_choice("packet", 3), span = sx_choice("span", 3);
  Haptics h;
  Band b = band(type);
  Effect e, f;
  e.setEffectType(EffectType::Basis);
  e.setId(9);
  e.setPosition(5);
  e.setPhase(0.25F);
  for (int i = 0; i < 2; i++) {
    Keyframe k(first ? 4 + 9 * i : 2 * i, 1.0F, 70 + i);
    e.addKeyframe(k);
  }
  f = e;
  while (f.getKeyframesSize()) f.removeKeyframeAt(0);
  f.setId(3);
  f.setPosition(at + (int)sx_u("pos", 3));
  for (int i = 0; i < n; i++) {
    int lo = i ? 8 * span : 0;
    Keyframe k(lo + (int)sx_u("offset", i || span == 0 ? 3 : 2), -0.5F, 90 + i);
    f.addKeyframe(k);
  }
  if (n == 2) sx_assume(f.getKeyframeAt(0).getRelativePosition().value() <= f.getKeyframeAt(1).getRelativePosition().value());
  b.addEffect(e);
  b.addEffect(f);
  wrap(h, b);
  stream(h, 8);
  sx_cover("end");
}
ENTRY(s02_mixed) {
  plain = true;
  int type = sx_choice("type", 3), shape = sx_choice("shape", 5);
  Haptics h;
  Band b = band(type);
  // one of the two positions is arbitrary within its packet
  int which = sx_choice("which", 2), p = 8 * sx_choice("packet", 3), q = shape % 2 ? 11 : 3;
  if (which) std::swap(p, q);
  (which ? q : p) += (int)sx_u("pos", 3);
  Effect ref;
  ref.setEffectType(EffectType::Reference);
  ref.setId(9);
  ref.setPosition(p);
  Effect e = effect(type, shape == 0 ? 9 : shape == 1 ? -1 : 300, q, 1 + (shape == 0), 4, 16, false);
  if (shape == 0 || shape == 1) {
    b.addEffect(ref);
    b.addEffect(e);
  } else if (shape == 2) {
    Effect f = effect(type, -1, 0, 1, 4, 16, false);
    b.addEffect(f);
    b.addEffect(e);
  } else {
    Effect c, d;
    c.setEffectType(EffectType::Composite);
    c.setId(77);
    c.setPosition(0);
    d = c;
    c.addTimelineEffect(e);
    if (shape == 4) {
      d.setId(78);
      d.addTimelineEffect(ref);
      c.addTimelineEffect(d);
    } else
      c.addTimelineEffect(ref);
    b.addEffect(c);
  }
  wrap(h, b);
  stream(h, 8);
  sx_cover("end");
}
ENTRY(s02_bands) {
  static const int D[3] = {16, 7, 100};
  int duration = D[sx_choice("duration", 3)], layout = sx_choice("layout", 4), syncs = 2 * sx_choice("syncs", 2);
  Haptics h;
  int n = layout == 3 ? 3 : 2;
  std::vector<Band> bands;
  for (int i = 0; i < n; i++) {
    static const int POS[4] = {0, 5, 16, 65};
    int type = 2 - i;
    Band b = band(type);
    Effect e = effect(type, i == 2 ? 0 : 5 + i, i == 2 ? 16 : POS[sx_choice("pos", 4 >> i)], 1, 4, 1, false);
    Keyframe k = keyframe(type, 40, 3);
    e.addKeyframe(k);
    b.addEffect(e);
    bands.push_back(b);
  }
  // 0: same channel; 1: two channels; 2: two perceptions with a channel of the same id; 3: all of it
  Perception p(1, 0, "", PerceptionModality::Vibrotactile), q(2, 0, "", PerceptionModality::Pressure);
  Channel c, d, e;
  c.setId(4);
  d.setId(6);
  e.setId(4);
  c.addBand(bands[0]);
  if (layout == 0) c.addBand(bands[1]);
  p.addChannel(c);
  if (layout == 1 || layout == 3) {
    d.addBand(bands[1]);
    p.addChannel(d);
  }
  h.addPerception(p);
  if (layout >= 2) {
    e.addBand(bands[layout == 2 ? 1 : 2]);
    q.addChannel(e);
    h.addPerception(q);
  }
  for (int i = 0; i <= syncs && syncs; i++) {
    Sync s(i * duration * syncs, 1000);
    h.addSync(s);
  }
  stream(h, duration);
  sx_cover("end");
}
ENTRY(s02_spatial) {
  Haptics h;
  int n = 1 + sx_choice("bands", 2);
#ifdef SX_THOROUGH
  PerceptionModality m = (PerceptionModality)sx_choice("modality", 14);
#else
  static const PerceptionModality M[6] = {PerceptionModality::Pressure, PerceptionModality::Vibrotactile, PerceptionModality::Other, PerceptionModality::VibrotactileTexture, PerceptionModality::Stiffness, PerceptionModality::Friction};
  PerceptionModality m = M[sx_choice("modality", 6)];
#endif
  Perception p(1, 0, "", m);
  Channel c;
  bool spatial = p.getPerceptionModality() == PerceptionModality::VibrotactileTexture || p.getPerceptionModality() == PerceptionModality::Stiffness || p.getPerceptionModality() == PerceptionModality::Friction;
  for (int i = 0; i < n; i++) {
    int type = 1 + i;
    Band b = band(type);
    for (int j = 0; j < 2; j++) {
      int at = spatial ? (int)sx_u("at", i ? 3 : 20) : 20 * j;
      Effect e = effect(type, 5 + 2 * i + j, at, 2, 6, 64, false);
      b.addEffect(e);
    }
    c.addBand(b);
  }
  p.addChannel(c);
  h.addPerception(p);
  stream(h, 64);
  sx_cover("end");
}
ENTRY(s02_wavelet) {
  static const int L[3] = {16, 64, 200}, D[3] = {64, 20, 500};
  int bl = L[sx_choice("block", 3)], duration = D[sx_choice("duration", 3)], n = 1 + sx_choice("n", 4), len = sx_choice("len", 4), other = sx_choice("other", 2);
  Haptics h;
  Band b = band((int)BandType::WaveletWave);
  b.setBlockLength(bl);
  for (int i = 0; i < n; i++) {
    Effect e;
    e.setEffectType(EffectType::Basis);
    e.setId(i == 1 ? -1 : 40 + i);
    e.setPosition(i * bl);
    std::vector<unsigned char> w;
    for (int j = 0; j < (i == n - 1 ? len : 1); j++) w.push_back((unsigned char)sx_u("byte", 8));
    e.setWaveletBitstream(w);
    if (i & 1) {
      std::string s = effectSemanticToString.begin()->second;
      e.setSemantic(s);
    }
    b.addEffect(e);
  }
  Perception p(1, 0, "", PerceptionModality::Vibrotactile);
  Channel c;
  c.setId(4);
  c.addBand(b);
  if (other) {
    Band o = band((int)BandType::Transient);
    Effect e = effect((int)BandType::Transient, 2, bl + 3, 1, 4, 16, false);
    o.addEffect(e);
    c.addBand(o);
  }
  p.addChannel(c);
  h.addPerception(p);
  stream(h, duration);
  sx_cover("end");
}
static float raw(const char *n) {
  float v = sx_raw_f32(n);
  sx_assume(v == v);
  return v;
}
ENTRY(s02_values) {
  int type = sx_choice("type", 3), sem = sx_choice("semantic", 3), split = sx_choice("split", 2);
  Haptics h;
  Band b = band(type);
  Effect e;
  e.setEffectType(EffectType::Basis);
  e.setId(9);
  e.setPosition(3);
  if (type == (int)BandType::VectorialWave) {
    e.setPhase(raw("phase"));
    e.setBaseSignal((BaseSignal)sx_u("signal", 4));
  }
  if (sem) {
    std::string s = sem == 1 ? effectSemanticToString.begin()->second : effectSemanticToString.rbegin()->second;
    e.setSemantic(s);
  }
  for (int i = 0; i < 2; i++) {
    Keyframe k(split ? 200 * i : 2 * i, raw("amp"), (int)sx_u("freq", 16));
    e.addKeyframe(k);
  }
  b.addEffect(e);
  wrap(h, b);
  stream(h, 128);
  sx_cover("end");
}
