// SOURCES STREAM
// ENTRY s01_experience shards=4 bound="version, profile, date and description of 0-2 arbitrary bytes, every level, 0-2 avatars of every id, level of detail and type with meshes of 0-2 bytes; the packet repeated" covers=end
// ENTRY s01_perception shards=2 bound="1-2 perceptions of every id, priority, modality and avatar; priority, exponents and semantic scheme present or absent and descriptions of 0-2 bytes in the last one; the packets repeated" covers=end
// ENTRY s01_device shards=4 bound="1-2 reference devices: no, all, any single or all but any single optional field; every id, type code, body mask, reals of two values each including some out of range, names of 0-2 bytes" covers=end
// ENTRY s01_device_all tier=thorough shards=16 timeout=850 bound="one reference device with every one of the 8192 combinations of optional fields" covers=end
// ENTRY s01_channel shards=8 bound="1-2 channels: every combination of priority, device, resolution, direction and sampling present or absent, or absent or 0-2 body part and actuator targets, or 0-2 vertices; every id, mask and sampling, two gains and weights" covers=end
// ENTRY s01_band shards=8 bound="1-3 bands spread over 1-2 perceptions and 1-2 channels in every way: every type, priority, curve type, block length and 16-bit frequency limits" covers=end
// ENTRY s01_library shards=4 args="--real" bound="two library effects of every id, position, phase and base signal: every type and two semantics or none, or 1-2 keyframes with any fields present, or composite effects with 0-2 nested effects of every type and one more level; in either or both of two perceptions" covers=end
// ENTRY s01_timing bound="every 32-bit time and timescale, 24-bit nominal duration and deviation, overlapping or not" covers=end
// ENTRY s01_unit bound="all metadata packets in one initialization unit, once or twice (resynchronisation), without and with library, priorities and exponents" covers=end
// ASSUME gains, weights and device fields take two values each (B05 decides the coding of every real); arithmetic on amplitudes and phases is exact (rounding is B05's subject)
#include "meta.h"
#include <IOHaptics/include/IOBinaryFields.h>
#include <IOHaptics/include/IOStream.h>
using namespace haptics::types;
using haptics::io::IOBinaryPrimitives;
using haptics::io::IOStream;
using haptics::io::MIHSPacketType;
using haptics::io::MIHSUnitType;
typedef std::vector<bool> Bits;
static const MIHSPacketType META[5] = {MIHSPacketType::MetadataHaptics, MIHSPacketType::MetadataPerception, MIHSPacketType::EffectLibrary, MIHSPacketType::MetadataChannel, MIHSPacketType::MetadataBand};
static Haptics base(int tl = 0) {
  Haptics h;
  std::string v = meta::text("version", tl), p = meta::text("profile", tl), d = meta::text("date", tl), x = meta::text("desc", tl);
  h.setVersion(v);
  h.setProfile(p);
  h.setLevel((uint8_t)sx_u("level", 8));
  h.setDate(d);
  h.setDescription(x);
  return h;
}
static Effect note() {
  Effect e;
  e.setEffectType(EffectType::Basis);
  e.setId(1);
  Keyframe k(0, 0.5F, 100);
  e.addKeyframe(k);
  return e;
}
// elements without any effect are not streamed: every channel has a band with one
static void fill(Channel &c) {
  Band b;
  b.setBandType(BandType::Transient);
  b.setLowerFrequencyLimit(0);
  b.setUpperFrequencyLimit(1000);
  Effect e = note();
  b.addEffect(e);
  c.addBand(b);
}
static void fill(Perception &p, int id = 5) {
  Channel c;
  c.setId(id);
  fill(c);
  p.addChannel(c);
}
static void fields(Perception &p, bool varied) {
  int e = varied ? sx_choice("present", 4) : 3;
  if (e & 1) {
    int v = (int)sx_u("priority", 8);
    sx_assume(v != 0);
    p.setPriority(v);
    p.setUnitExponent((int8_t)sx_u("unit", 8));
  }
  if (e & 2) {
    p.setPerceptionUnitExponent((int8_t)sx_u("punit", 8));
    std::string s = meta::text("scheme", varied ? sx_choice("schemelen", 3) : 1);
    p.setEffectSemanticScheme(s);
  }
}
static void same(Band &a, Band &b) {
  sx_assert(a.getPriority() == b.getPriority(), "a band keeps its priority, present or absent");
  sx_assert(a.getBandType() == b.getBandType(), "a band keeps its type");
  if (a.getBandType() == BandType::Curve) sx_assert(a.getCurveTypeOrDefault() == b.getCurveTypeOrDefault(), "a curve band keeps its curve type");
  if (a.getBandType() == BandType::WaveletWave) sx_assert(a.getBlockLengthOrDefault() == b.getBlockLengthOrDefault(), "a wavelet band keeps its block length");
  sx_assert(a.getLowerFrequencyLimit() == b.getLowerFrequencyLimit() && a.getUpperFrequencyLimit() == b.getUpperFrequencyLimit(), "a band keeps its frequency limits");
}
static void same(Effect &a, Effect &b) {
  sx_assert(a.getEffectType() == b.getEffectType(), "a library effect keeps its type");
  sx_assert(a.getId() == b.getId(), "a library effect keeps its id");
  sx_assert(a.getPosition() == b.getPosition(), "a library effect keeps its position");
  sx_assert(a.getSemantic() == b.getSemantic(), "a library effect keeps its semantic, present or absent");
  if (a.getEffectType() == EffectType::Basis) {
    sx_assert(a.getBaseSignalOrDefault() == b.getBaseSignalOrDefault(), "a library effect keeps its base signal");
    sx_assert(meta::near(b.getPhaseOrDefault(), a.getPhaseOrDefault(), 0, haptics::io::MAX_PHASE, 6.28318 / 65535 + 2e-6), "a phase comes back within one step");
  }
  sx_assert(a.getKeyframesSize() == b.getKeyframesSize(), "a library effect keeps its number of keyframes");
  for (int i = 0; i < (int)a.getKeyframesSize(); i++) {
    Keyframe &x = a.getKeyframeAt(i), &y = b.getKeyframeAt(i);
    sx_assert(x.getRelativePosition() == y.getRelativePosition(), "a keyframe keeps its position, present or absent");
    sx_assert(x.getFrequencyModulation() == y.getFrequencyModulation(), "a keyframe keeps its frequency, present or absent");
    sx_assert(x.getAmplitudeModulation().has_value() == y.getAmplitudeModulation().has_value(), "a keyframe has an amplitude exactly when it had one");
    if (x.getAmplitudeModulation().has_value()) sx_assert(meta::near(y.getAmplitudeModulation().value(), x.getAmplitudeModulation().value(), -1, 1, 2.0 / 255 + 1e-6), "an amplitude comes back within one step");
  }
  sx_assert(a.getTimelineSize() == b.getTimelineSize(), "a composite effect keeps its number of nested effects");
  for (int i = 0; i < (int)a.getTimelineSize(); i++) {
    Effect x = a.getTimelineEffectAt(i), y = b.getTimelineEffectAt(i);
    same(x, y);
  }
}
static void check(Haptics &h, Haptics &r) {
  sx_assert(h.getVersion() == r.getVersion() && h.getProfile() == r.getProfile() && h.getLevel() == r.getLevel() && h.getDate() == r.getDate() && h.getDescription() == r.getDescription(), "the experience keeps its metadata");
  sx_assert(h.getAvatarsSize() == r.getAvatarsSize(), "the number of avatars is kept");
  for (int i = 0; i < (int)h.getAvatarsSize(); i++) meta::sameAvatar(h.getAvatarAt(i), r.getAvatarAt(i));
  sx_assert(h.getPerceptionsSize() == r.getPerceptionsSize(), "the number of perceptions is kept");
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    Perception &p = h.getPerceptionAt(i), &q = r.getPerceptionAt(i);
    meta::samePerception(p, q);
    sx_assert(p.getPriority() == q.getPriority(), "a perception keeps its priority, present or absent");
    sx_assert(p.getEffectSemanticScheme() == q.getEffectSemanticScheme(), "a perception keeps its semantic scheme, present or absent");
    sx_assert(p.getEffectLibrarySize() == q.getEffectLibrarySize(), "the library keeps its number of effects");
    for (int j = 0; j < (int)p.getEffectLibrarySize(); j++) same(p.getBasisEffectAt(j), q.getBasisEffectAt(j));
    for (int j = 0; j < (int)p.getChannelsSize(); j++) {
      Channel &c = p.getChannelAt(j), &d = q.getChannelAt(j);
      sx_assert(c.getPriority() == d.getPriority(), "a channel keeps its priority, present or absent");
      for (int k = 0; k < (int)c.getBandsSize(); k++) same(c.getBandAt(k), d.getBandAt(k));
    }
  }
}
static void through(Haptics &h, int rounds = 1) {
  IOStream::StreamWriter w;
  w.haptic = h;
  std::vector<Bits> packets;
  for (auto t : META) sx_assert(IOStream::writeMIHSPacket(t, w, packets), "metadata is written");
  IOStream::StreamReader r = IOStream::initializeStream();
  IOStream::CRC crc;
  for (int k = 0; k < rounds; k++)
    for (auto &p : packets) sx_assert(IOStream::readMIHSPacket(p, r, crc), "metadata is read");
  check(h, r.haptic);
}
ENTRY(s01_experience) {
  Haptics h = base(sx_choice("len", 3));
  int n = sx_choice("avatars", 3);
  for (int i = 0; i < n; i++) {
    bool custom = sx_choice("custom", 2);
    int type = custom ? (int)AvatarType::Custom : (int)sx_u("avtype", 8);
    if (!custom) sx_assume(type != (int)AvatarType::Custom);
    Avatar a((int)sx_u("avid", 8), (int)sx_u("lod", 8), (AvatarType)type);
    if (i == 1) sx_assume(a.getId() != h.getAvatarAt(0).getId());
    if (custom) a.setMesh(meta::text("uri", sx_choice("mesh", 3)));
    h.addAvatar(a);
  }
  Perception p(1, 0, "", PerceptionModality::Force);
  fill(p);
  h.addPerception(p);
  through(h, 1 + sx_choice("again", 2));
  sx_cover("end");
}
static Perception perception(int tl) { return Perception((int)sx_u("pid", 8), (int)sx_u("avatar", 8), meta::text("pdesc", tl), (PerceptionModality)sx_u("modality", 8)); }
ENTRY(s01_perception) {
  Haptics h = base();
  int n = 1 + sx_choice("n", 2);
  for (int i = 0; i < n; i++) {
    bool varied = i == n - 1;
    Perception p = perception(varied ? sx_choice("len", 3) : 1);
    fields(p, varied);
    fill(p);
    h.addPerception(p);
  }
  if (n == 2) sx_assume(h.getPerceptionAt(0).getId() != h.getPerceptionAt(1).getId());
  through(h, 1 + sx_choice("again", 2));
  sx_cover("end");
}
static int someMask() {
  int m = sx_choice("mask", 28);
  return m == 0 ? 0 : m == 1 ? 8191 : m < 15 ? 1 << (m - 2) : 8191 & ~(1 << (m - 15));
}
ENTRY(s01_device) {
  Haptics h = base();
  Perception p = perception(1);
  int n = 1 + sx_choice("n", 2);
  ReferenceDevice d = meta::device(someMask(), 8, sx_choice("len", 3));
  p.addReferenceDevice(d);
  if (n == 2) {
    ReferenceDevice g = meta::device(0x1805, 8, 1);
    p.addReferenceDevice(g);
  }
  fill(p);
  h.addPerception(p);
  through(h);
  sx_cover("end");
}
ENTRY(s01_device_all) {
  Haptics h = base();
  Perception p = perception(0);
  int hi = sx_choice("hi", 128), lo = sx_choice("lo", 64);
  ReferenceDevice d = meta::device(hi * 64 + lo, 8, 0);
  p.addReferenceDevice(d);
  fill(p);
  h.addPerception(p);
  through(h);
  sx_cover("end");
}
static Channel channel(bool first) {
  Channel c;
  c.setId((int)sx_u("cid", 16));
  std::string d = meta::text("cdesc", first ? 1 : 0);
  c.setDescription(d);
  // one part of the channel varies at a time; the others stay as in a full channel
  int part = first ? sx_choice("part", 3) : 3;
  int opt = part == 0 ? sx_choice("fields", 32) : 31;
  if (opt & 1) {
    int id = (int)sx_u("refdev", 8);
    sx_assume(id != 255);
    c.setReferenceDeviceId(id);
  }
  c.setGain(meta::real("gain"));
  c.setMixingWeight(meta::real("weight"));
  c.setBodyPartMask((uint32_t)sx_u("body", 32));
  if (opt & 2) {
    c.setActuatorResolution(meta::vec("resolution"));
    int nb = part == 1 ? sx_choice("bodytargets", 4) : 2, na = part == 1 ? sx_choice("acttargets", 4) : 3;
    std::vector<BodyPartTarget> bt;
    for (int i = 1; i < nb; i++) bt.push_back((BodyPartTarget)sx_u("target", 8));
    if (nb) c.setBodyPartTarget(bt);
    std::vector<Vector> at;
    for (int i = 1; i < na; i++) at.push_back(meta::vec("actuator"));
    if (na) c.setActuatorTarget(at);
  }
  if (opt & 4) c.setDirection(meta::vec("direction"));
  if (opt & 8) {
    uint32_t f = (uint32_t)sx_u("sampling", 32);
    sx_assume(f != 0);
    c.setFrequencySampling(f);
    if (part != 2 || sx_choice("count", 2)) c.setSampleCount((uint32_t)sx_u("samples", 32));
  }
  if (opt & 16) {
    int v = (int)sx_u("cpriority", 8);
    sx_assume(v != 0);
    c.setPriority(v);
  }
  int nv = part == 2 ? sx_choice("vertices", 3) : 1;
  for (int i = 0; i < nv; i++) {
    int v = sx_int("vertex");
    c.addVertex(v);
  }
  fill(c);
  return c;
}
ENTRY(s01_channel) {
  Haptics h = base();
  Perception p = perception(0);
  int n = 1 + sx_choice("n", 2);
  for (int i = 0; i < n; i++) {
    Channel c = channel(i == n - 1);
    if (i) sx_assume(c.getId() != p.getChannelAt(0).getId());
    p.addChannel(c);
  }
  h.addPerception(p);
  through(h, 1 + sx_choice("again", 2));
  sx_cover("end");
}
ENTRY(s01_band) {
  Haptics h = base();
  // how many bands each channel of each perception has
  static const int SHAPE[7][2][2] = {{{1, 0}, {0, 0}}, {{2, 0}, {0, 0}}, {{1, 1}, {0, 0}}, {{1, 0}, {1, 0}}, {{3, 0}, {0, 0}}, {{1, 1}, {1, 0}}, {{2, 0}, {1, 0}}};
  int s = sx_choice("shape", 7);
  int varied = sx_choice("varied", s == 0 ? 1 : s < 4 ? 2 : 3), at = 0;
  for (int i = 0; i < 2 && SHAPE[s][i][0]; i++) {
    Perception p(i + 1, 0, "", PerceptionModality::Vibrotactile);
    for (int j = 0; j < 2 && SHAPE[s][i][j]; j++) {
      Channel c;
      c.setId(7 - j);
      for (int k = 0; k < SHAPE[s][i][j]; k++, at++) {
        Band b;
        int type = at == varied ? sx_choice("type", 4) : (int)BandType::Curve;
        b.setBandType((BandType)type);
        b.setLowerFrequencyLimit((int)sx_u("low", 16));
        b.setUpperFrequencyLimit((int)sx_u("high", 16));
        if (type == (int)BandType::Curve) b.setCurveType((CurveType)sx_u("curve", 4));
        if (type == (int)BandType::WaveletWave) b.setBlockLength((unsigned)sx_u("block", 8));
        if (at == varied && sx_choice("hasprio", 2)) {
          int v = (int)sx_u("bpriority", 8);
          sx_assume(v != 0);
          b.setPriority(v);
        }
        Effect e = note();
        b.addEffect(e);
        c.addBand(b);
      }
      p.addChannel(c);
    }
    h.addPerception(p);
  }
  through(h, 1 + sx_choice("again", 2));
  sx_cover("end");
}
static float raw(const char *n) {
  float v = sx_raw_f32(n);
  sx_assume(v == v);
  return v;
}
// part: 0 semantics, 1 keyframes, 2 nesting, 3 nothing varies
static Effect libraryEffect(int depth, int part) {
  Effect e;
  int kind = part == 3 ? 0 : part == 2 ? (depth ? sx_choice("kind", 3) : sx_choice("kind", 2)) : sx_choice("kind", 2);
  e.setEffectType((EffectType)kind);
  e.setId((int)sx_u("id", 16));
  e.setPosition((int)sx_u("pos", 25));
  int sem = part == 0 ? sx_choice("semantic", 3) : part == 3;
  if (sem) {
    std::string s = sem == 1 ? effectSemanticToString.begin()->second : effectSemanticToString.rbegin()->second;
    e.setSemantic(s);
  }
  if (kind == 0) {
    e.setPhase(raw("phase"));
    e.setBaseSignal((BaseSignal)sx_u("signal", 4));
  }
  int nk = part == 1 ? 1 + sx_choice("kfs", 2) : kind == 0 ? 1 : 0;
  for (int i = 0; i < nk; i++) {
    int m = i == nk - 1 && part == 1 ? sx_choice("present", 8) : 7;
    Keyframe k(std::nullopt, std::nullopt, std::nullopt);
    if (m & 1) k.setRelativePosition((int)sx_u("kp", 16));
    if (m & 2) k.setAmplitudeModulation(raw("ka"));
    if (m & 4) k.setFrequencyModulation((int)sx_u("kf", 16));
    e.addKeyframe(k);
  }
  int n = kind == 2 ? sx_choice("nested", depth == 2 ? 3 : 2) : 0;
  for (int i = 0; i < n; i++) {
    Effect x = libraryEffect(depth - 1, i == 1 ? 3 : part);
    e.addTimelineEffect(x);
  }
  return e;
}
ENTRY(s01_library) {
  Haptics h = base();
  int owner = sx_choice("owner", 3), part = owner == 2 ? 3 : sx_choice("part", 3);
  for (int i = 0; i < 2; i++) {
    Perception p(i + 1, 0, "", PerceptionModality::Vibrotactile);
    if (owner == 2 || owner == i) {
      Effect a = libraryEffect(2, owner == 2 ? 3 : part), b = libraryEffect(0, 3);
      p.addBasisEffect(a);
      p.addBasisEffect(b);
    }
    fill(p);
    h.addPerception(p);
  }
  through(h);
  sx_cover("end");
}
ENTRY(s01_timing) {
  IOStream::StreamWriter w;
  w.time = sx_int("time");
  w.timescale = (unsigned)sx_u("timescale", 32);
  w.nominalDuration = (unsigned)sx_u("nominal", 24);
  w.durationDeviation = (unsigned)sx_u("deviation", 24);
  w.overlapping = sx_bool("overlapping");
  std::vector<Bits> packets;
  sx_assert(IOStream::writeMIHSPacket(MIHSPacketType::InitializationTiming, w, packets), "timing is written");
  IOStream::StreamReader r = IOStream::initializeStream();
  IOStream::CRC crc;
  sx_assert(packets.size() == 1 && IOStream::readMIHSPacket(packets[0], r, crc), "timing is read");
  sx_assert(r.time == (unsigned)w.time, "the stream time is kept");
  sx_assert(r.timescale == w.timescale, "the timescale is kept");
  sx_assert(r.nominalDuration == w.nominalDuration && r.durationDeviation == w.durationDeviation && r.overlapping == w.overlapping, "the unit timing is kept");
  sx_assert(r.haptic.getSyncsSize() == 1 && r.haptic.getSyncsAt(0).getTimestamp() == w.time && r.haptic.getSyncsAt(0).getTimescale() == w.timescale, "the synchronisation point is kept");
  sx_cover("end");
}
ENTRY(s01_unit) {
  Haptics h = base(1);
  Avatar a((int)sx_u("avid", 8), 1, AvatarType::Pressure);
  h.addAvatar(a);
  for (int i = 0; i < 2; i++) {
    Perception p = perception(1);
    p.setId(i + 3);
    fields(p, false);
    if (sx_choice("library", 2)) {
      Effect e = note();
      p.addBasisEffect(e);
    }
    ReferenceDevice d = meta::device(0x1fff, 8, 1);
    p.addReferenceDevice(d);
    fill(p, 2 * i);
    fill(p, 9);
    h.addPerception(p);
  }
  IOStream::StreamWriter w;
  w.haptic = h;
  w.time = sx_int("time");
  w.timescale = (unsigned)sx_u("timescale", 32);
  w.layer = (unsigned)sx_u("layer", 4);
  std::vector<Bits> packets;
  for (auto t : META) sx_assert(IOStream::writeMIHSPacket(t, w, packets), "metadata is written");
  Bits unit;
  sx_assert(IOStream::writeMIHSUnit(MIHSUnitType::Initialization, packets, unit, w), "the unit is written");
  IOStream::StreamReader r = IOStream::initializeStream();
  IOStream::CRC crc;
  int n = 1 + sx_choice("again", 2);
  for (int i = 0; i < n; i++) sx_assert(IOStream::readMIHSUnit(unit, r, crc), "the unit is read");
  check(h, r.haptic);
  sx_assert(r.timescale == w.timescale && r.time == (unsigned)w.time && r.layer == w.layer, "the stream timing and layer are kept");
  sx_cover("end");
}
