// SOURCES JSON
// ENTRY j01_avatars shards=2 bound="0-2 avatars of every id and level of detail, every type, custom ones without or with a mesh of 0-2 characters" covers=end
// ENTRY j01_perceptions shards=4 bound="1-2 perceptions: every id, avatar, modality, exponents and priority, each of the optional fields present or absent in the last one, descriptions and semantic schemes of 0-2 characters" covers=end
// ENTRY j01_devices shards=4 bound="1-2 reference devices: no, all, any single or all but any single optional field; every id, every non-NaN real, mask and type, names of 0-2 characters" covers=end
// ENTRY j01_devices_all tier=thorough shards=16 timeout=850 bound="one reference device with every one of the 8192 combinations of optional fields" covers=end
// ENTRY j01_channels shards=8 bound="1-2 channels: every combination of priority, device, sampling, count, direction and resolution present or absent in the last; every id, gain, weight and mask" covers=end
// ENTRY j01_lists shards=4 bound="channels with absent or 0-2 body part targets of every code, absent or 0-2 actuator targets, 0-2 vertices of every value" covers=end
// ENTRY j01_bands shards=4 bound="1-3 bands in one or two channels: every type, priority present or absent, every curve type or none, every block length and frequency limits" covers=end
// ENTRY j01_effects shards=8 bound="1-2 effects in a band of each type: basis or reference, every position and id, phase, base signal and semantic present or absent" covers=end
// ENTRY j01_keyframes shards=4 bound="0-3 keyframes with any fields present of every value, in a band of each keyframe type or in the library" covers=end
// ENTRY j01_wavelet shards=2 bound="wavelet effects holding 1-4 arbitrary bytes (the last one not zero)" covers=end
// ENTRY j01_library shards=4 bound="0-2 library effects: basis or reference, every id and position, phase, base signal and semantic present or absent" covers=end
// ENTRY j01_library_stream bound="a library effect holding 0-2 bytes of wavelet data" covers=end
// ENTRY j01_composite bound="a composite effect of a band or of the library holding 0-2 effects" covers=end
// ENTRY j01_syncs bound="0-3 synchronisation points of every time, with any time scale or none" covers=end
// ASSUME the tree is passed in memory: its rendering to text and back is the JSON library, and file-level fields are written by code that needs clocks, number formatting and regular expressions; texts hold no NUL character
#include <sx.h>
#include <IOHaptics/include/IOJson.h>
#include <optional>
using namespace haptics::types;
using haptics::io::IOJson;
typedef rapidjson::Value V;
static std::string text(const char *n, int len) {
  std::string s;
  for (int i = 0; i < len; i++) {
    char c = (char)sx_u(n, 8);
    sx_assume(c != 0);
    s.push_back(c);
  }
  return s;
}
static float real(const char *n) {
  uint32_t u = (uint32_t)sx_u(n, 32);
  sx_assume((u >> 23 & 0xff) != 0xff);   // finite
  float f;
  memcpy(&f, &u, 4);
  return f;
}
static Vector vec(const char *n) { return Vector((int8_t)sx_u(n, 8), (int8_t)sx_u(n, 8), (int8_t)sx_u(n, 8)); }
static void same(Keyframe &a, Keyframe &b) {
  sx_assert(a.getRelativePosition() == b.getRelativePosition(), "a keyframe keeps its position, present or absent");
  sx_assert(a.getAmplitudeModulation() == b.getAmplitudeModulation(), "a keyframe keeps its amplitude, present or absent");
  sx_assert(a.getFrequencyModulation() == b.getFrequencyModulation(), "a keyframe keeps its frequency, present or absent");
}
static void same(Effect &a, Effect &b, bool library) {
  sx_assert(a.getEffectType() == b.getEffectType(), "an effect keeps its type");
  sx_assert(a.getPosition() == b.getPosition(), "an effect keeps its position");
  if (library || a.getEffectType() == EffectType::Reference) sx_assert(a.getId() == b.getId(), "a library effect or reference keeps its id");
  sx_assert(a.getSemantic() == b.getSemantic(), "an effect keeps its semantic, present or absent");
  sx_assert(a.getPhase() == b.getPhase(), "an effect keeps its phase, present or absent");
  sx_assert(a.getBaseSignal() == b.getBaseSignal(), "an effect keeps its base signal, present or absent");
  sx_assert(a.getKeyframesSize() == b.getKeyframesSize(), "an effect keeps its number of keyframes");
  for (int i = 0; i < (int)a.getKeyframesSize(); i++) same(a.getKeyframeAt(i), b.getKeyframeAt(i));
  sx_assert(a.getWaveletBitstream() == b.getWaveletBitstream(), "an effect keeps its wavelet data");
  sx_assert(a.getTimelineSize() == b.getTimelineSize(), "a composite effect keeps its number of effects");
  for (int i = 0; i < (int)a.getTimelineSize(); i++) same(a.getTimelineEffectAt(i), b.getTimelineEffectAt(i), library);
}
static void same(Band &a, Band &b) {
  sx_assert(a.getBandType() == b.getBandType(), "a band keeps its type");
  sx_assert(a.getPriority() == b.getPriority(), "a band keeps its priority, present or absent");
  sx_assert(a.getCurveType() == b.getCurveType(), "a band keeps its curve type, present or absent");
  if (a.getBandType() == BandType::WaveletWave) sx_assert(a.getBlockLengthOrDefault() == b.getBlockLengthOrDefault(), "a wavelet band keeps its block length");
  sx_assert(a.getLowerFrequencyLimit() == b.getLowerFrequencyLimit() && a.getUpperFrequencyLimit() == b.getUpperFrequencyLimit(), "a band keeps its frequency limits");
  sx_assert(a.getEffectsSize() == b.getEffectsSize(), "a band keeps its number of effects");
  for (int i = 0; i < (int)a.getEffectsSize(); i++) same(a.getEffectAt(i), b.getEffectAt(i), false);
}
static void same(Channel &a, Channel &b) {
  sx_assert(a.getId() == b.getId(), "a channel keeps its id");
  sx_assert(a.getDescription() == b.getDescription(), "a channel keeps its description");
  sx_assert(a.getPriority() == b.getPriority(), "a channel keeps its priority, present or absent");
  sx_assert(a.getGain() == b.getGain(), "a channel keeps its gain");
  sx_assert(a.getMixingWeight() == b.getMixingWeight(), "a channel keeps its mixing weight");
  sx_assert(a.getBodyPartMask() == b.getBodyPartMask(), "a channel keeps its body part mask");
  sx_assert(a.getReferenceDeviceId() == b.getReferenceDeviceId(), "a channel keeps its reference device, present or absent");
  sx_assert(a.getFrequencySampling() == b.getFrequencySampling(), "a channel keeps its sampling frequency, present or absent");
  sx_assert(a.getSampleCount() == b.getSampleCount(), "a channel keeps its sample count, present or absent");
  sx_assert(a.getDirection() == b.getDirection(), "a channel keeps its direction, present or absent");
  sx_assert(a.getActuatorResolution() == b.getActuatorResolution(), "a channel keeps its resolution, present or absent");
  sx_assert(a.getBodyPartTarget() == b.getBodyPartTarget(), "a channel keeps its body part targets, present or absent");
  sx_assert(a.getActuatorTarget() == b.getActuatorTarget(), "a channel keeps its actuator targets, present or absent");
  sx_assert(a.getVerticesSize() == b.getVerticesSize(), "a channel keeps its number of vertices");
  for (int i = 0; i < (int)a.getVerticesSize(); i++) sx_assert(a.getVertexAt(i) == b.getVertexAt(i), "a channel keeps its vertices");
  sx_assert(a.getBandsSize() == b.getBandsSize(), "a channel keeps its number of bands");
  for (int i = 0; i < (int)a.getBandsSize(); i++) same(a.getBandAt(i), b.getBandAt(i));
}
#define F(N) sx_assert(a.get##N() == b.get##N(), "a reference device keeps its " #N ", present or absent");
static void same(ReferenceDevice &a, ReferenceDevice &b) {
  sx_assert(a.getId() == b.getId(), "a reference device keeps its id");
  sx_assert(a.getName() == b.getName(), "a reference device keeps its name");
  F(BodyPartMask) F(MaximumFrequency) F(MinimumFrequency) F(ResonanceFrequency) F(MaximumAmplitude) F(Impedance) F(MaximumVoltage) F(MaximumCurrent) F(MaximumDisplacement) F(Weight) F(Size) F(Custom) F(Type)
}
static void same(Perception &a, Perception &b) {
  sx_assert(a.getId() == b.getId(), "a perception keeps its id");
  sx_assert(a.getAvatarId() == b.getAvatarId(), "a perception keeps its avatar");
  sx_assert(a.getDescription() == b.getDescription(), "a perception keeps its description");
  sx_assert(a.getPerceptionModality() == b.getPerceptionModality(), "a perception keeps its modality");
  sx_assert(a.getPriority() == b.getPriority(), "a perception keeps its priority, present or absent");
  sx_assert(a.getUnitExponent() == b.getUnitExponent(), "a perception keeps its unit exponent, present or absent");
  sx_assert(a.getPerceptionUnitExponent() == b.getPerceptionUnitExponent(), "a perception keeps its perception unit exponent, present or absent");
  sx_assert(a.getEffectSemanticScheme() == b.getEffectSemanticScheme(), "a perception keeps its semantic scheme, present or absent");
  sx_assert(a.getReferenceDevicesSize() == b.getReferenceDevicesSize(), "a perception keeps its number of reference devices");
  for (int i = 0; i < (int)a.getReferenceDevicesSize(); i++) same(a.getReferenceDeviceAt(i), b.getReferenceDeviceAt(i));
  sx_assert(a.getEffectLibrarySize() == b.getEffectLibrarySize(), "a perception keeps its number of library effects");
  for (int i = 0; i < (int)a.getEffectLibrarySize(); i++) same(a.getBasisEffectAt(i), b.getBasisEffectAt(i), true);
  sx_assert(a.getChannelsSize() == b.getChannelsSize(), "a perception keeps its number of channels");
  for (int i = 0; i < (int)a.getChannelsSize(); i++) same(a.getChannelAt(i), b.getChannelAt(i));
}
static void through(Haptics &h) {
  rapidjson::Document d(rapidjson::kObjectType);
  Haptics r;
  V av(rapidjson::kArrayType), pe(rapidjson::kArrayType), sy(rapidjson::kArrayType);
  IOJson::extractAvatars(h, av, d);
  IOJson::extractPerceptions(h, pe, d);
  IOJson::extractSyncs(h, sy, d);
  sx_assert(IOJson::loadAvatars(av, r), "avatars load");
  sx_assert(IOJson::loadPerceptions(pe, r), "perceptions load");
  sx_assert(IOJson::loadSyncs(sy, r), "synchronisation points load");
  sx_assert(h.getAvatarsSize() == r.getAvatarsSize(), "the number of avatars is kept");
  for (int i = 0; i < (int)h.getAvatarsSize(); i++) {
    Avatar &a = h.getAvatarAt(i), &b = r.getAvatarAt(i);
    sx_assert(a.getId() == b.getId(), "an avatar keeps its id");
    sx_assert(a.getLod() == b.getLod(), "an avatar keeps its level of detail");
    sx_assert(a.getType() == b.getType(), "an avatar keeps its type");
    sx_assert(a.getMesh() == b.getMesh(), "an avatar keeps its mesh, present or absent");
  }
  sx_assert(h.getPerceptionsSize() == r.getPerceptionsSize(), "the number of perceptions is kept");
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) same(h.getPerceptionAt(i), r.getPerceptionAt(i));
  sx_assert(h.getSyncsSize() == r.getSyncsSize(), "the number of synchronisation points is kept");
  for (int i = 0; i < (int)h.getSyncsSize(); i++) {
    Sync a = h.getSyncsAt(i), b = r.getSyncsAt(i);
    sx_assert(a.getTimestamp() == b.getTimestamp(), "a synchronisation point keeps its time");
    sx_assert(a.getTimescale() == b.getTimescale(), "a synchronisation point keeps its time scale, present or absent");
  }
  sx_cover("end");
}
static Channel channel() { return Channel(sx_int("chid"), "c", 1.F, 1.F, 0); }
static Perception perception() { return Perception(sx_int("pid"), 0, "p", PerceptionModality::Vibrotactile); }
static void finish(Haptics &h, Perception &p) {
  h.addPerception(p);
  through(h);
}
static void finish(Perception &p, Channel &c) {
  Haptics h;
  p.addChannel(c);
  finish(h, p);
}
static void finish(Band &b) {
  Perception p = perception();
  Channel c = channel();
  c.addBand(b);
  finish(p, c);
}
static void finish(Perception &p) {
  Haptics h;
  finish(h, p);
}
ENTRY(j01_avatars) {
  Haptics h;
  int n = sx_choice("avatars", 3);
  for (int i = 0; i < n; i++) {
    int t = sx_choice("type", 5);
    Avatar a(sx_int("avid"), sx_int("lod"), (AvatarType)(t & 3));
    if (t == 4) a.setMesh(text("mesh", sx_choice("len", 3)));
    h.addAvatar(a);
  }
  through(h);
}
ENTRY(j01_perceptions) {
  Haptics h;
  int n = 1 + sx_choice("perceptions", 2);
  for (int i = 0; i < n; i++) {
    bool last = i + 1 == n;
    int mode = last ? sx_choice("vary", 2) : 0;
    auto m = (PerceptionModality)(mode == 1 ? sx_choice("modality", (int)perceptionModalityToString.size()) : 6);
    Perception p(sx_int("pid"), sx_int("avid"), text("desc", mode == 1 ? sx_choice("len", 3) : 1), m);
    int e = last && !mode ? sx_choice("present", 16) : 15 * (mode == 1);
    if (e & 1) p.setPriority(sx_int("priority"));
    if (e & 2) p.setUnitExponent((int8_t)sx_u("unit", 8));
    if (e & 4) p.setPerceptionUnitExponent((int8_t)sx_u("punit", 8));
    if (e & 8) p.setEffectSemanticScheme(text("scheme", !mode ? sx_choice("schemelen", 3) : 1));
    h.addPerception(p);
  }
  through(h);
}
#define D(i, N) if (mask >> i & 1) d.set##N(real("value"));
static ReferenceDevice device(int mask, int len) {
  ReferenceDevice d(sx_int("id"), text("name", len));
  D(0, MaximumFrequency) D(1, MinimumFrequency) D(2, ResonanceFrequency) D(3, MaximumAmplitude) D(4, Impedance) D(5, MaximumVoltage) D(6, MaximumCurrent) D(7, MaximumDisplacement) D(8, Weight) D(9, Size) D(10, Custom)
  if (mask >> 11 & 1) d.setBodyPartMask((uint32_t)sx_u("mask", 32));
  if (mask >> 12 & 1) d.setType((ActuatorType)(mask == 0x1fff ? sx_choice("type", (int)actuatorTypeToString.size()) : 2));
  return d;
}
ENTRY(j01_devices) {
  Perception p = perception();
  int k = sx_choice("fields", 28), mask = k == 0 ? 0 : k == 1 ? 0x1fff : k < 15 ? 1 << (k - 2) : 0x1fff & ~(1 << (k - 15));
  if (k < 2 && sx_choice("two", 2)) {
    ReferenceDevice f = device(mask ^ 0x1fff, 1);
    p.addReferenceDevice(f);
  }
  ReferenceDevice d = device(mask, k < 2 ? sx_choice("len", 3) : 1);
  p.addReferenceDevice(d);
  finish(p);
}
ENTRY(j01_devices_all) {
  Perception p = perception();
  ReferenceDevice d = device(sx_choice("fields", 8192), 1);
  p.addReferenceDevice(d);
  finish(p);
}
ENTRY(j01_channels) {
  Perception p = perception();
  int n = 1 + sx_choice("channels", 2);
  for (int i = 0; i < n; i++) {
    int e = i + 1 < n ? 63 : sx_choice("present", 64);
    Channel c(sx_int("chid"), text("desc", e == 63 && i + 1 == n ? sx_choice("len", 3) : 1), real("gain"), real("weight"), (uint32_t)sx_u("mask", 32));
    if (e & 1) c.setPriority(sx_int("priority"));
    if (e & 2) c.setReferenceDeviceId(sx_int("device"));
    if (e & 4) c.setFrequencySampling((uint32_t)sx_u("sampling", 32));
    if (e & 8) c.setSampleCount((uint32_t)sx_u("count", 32));
    if (e & 16) c.setDirection(vec("direction"));
    if (e & 32) c.setActuatorResolution(vec("resolution"));
    p.addChannel(c);
  }
  finish(p);
}
ENTRY(j01_lists) {
  Perception p = perception();
  Channel c = channel();
  int which = sx_choice("which", 3), n = sx_choice("n", 4) - 1;
  if (which == 0 && n >= 0) {
    std::vector<BodyPartTarget> t;
    int k = sx_choice("code", (int)bodyPartTargetToString.size());
    for (auto &x : bodyPartTargetToString)
      if ((int)t.size() < n && k-- <= 0) t.push_back(x.first);
    if ((int)t.size() < n) t.push_back(BodyPartTarget::All);
    c.setBodyPartTarget(t);
  }
  if (which == 1 && n >= 0) {
    std::vector<Vector> t;
    for (int i = 0; i < n; i++) t.push_back(vec("target"));
    c.setActuatorTarget(t);
  }
  if (which == 2)
    for (int i = 0; i < n; i++) {
      int v = sx_int("vertex");
      c.addVertex(v);
    }
  finish(p, c);
}
ENTRY(j01_bands) {
  Perception p = perception();
  int n = 1 + sx_choice("bands", 3), split = sx_choice("channels", 2);
  Channel c = channel();
  for (int i = 0; i < n; i++) {
    int k = i + 1 == n ? sx_choice("kind", 4 + (int)curveTypeToString.size()) : i ? 5 : 3;
    Band b(k < 4 ? (BandType)k : BandType::Curve, sx_int("lower"), sx_int("upper"));
    if (k >= 4) b.setCurveType((CurveType)(k - 4));
    if (k == 3) b.setBlockLength(sx_int("block"));
    if (i + 1 < n || sx_choice("priority", 2)) b.setPriority(sx_int("bandpriority"));
    c.addBand(b);
    if (split && !i) {
      p.addChannel(c);
      c = channel();
    }
  }
  finish(p, c);
}
static Effect plain(bool reference, int e) {
  Effect f(sx_int("position"), reference ? EffectType::Reference : EffectType::Basis);
  f.setId(sx_int("effid"));
  if (e & 1) f.setPhase(real("phase"));
  if (e & 2) f.setBaseSignal((BaseSignal)(e == 3 ? sx_choice("signal", (int)baseSignalToString.size()) : 2));
  if (e & 4) {
    std::string s = text("semantic", e == 4 ? sx_choice("len", 3) : 1);
    f.setSemantic(s);
  }
  return f;
}
static Keyframe keyframe() {
  int e = sx_choice("fields", 8);
  return Keyframe(e & 1 ? std::optional<int>(sx_int("at")) : std::nullopt, e & 2 ? std::optional<float>(real("amplitude")) : std::nullopt, e & 4 ? std::optional<int>(sx_int("frequency")) : std::nullopt);
}
static Keyframe some() { return Keyframe(sx_int("at"), real("amplitude"), sx_int("frequency")); }
static void data(Effect &f, int n, int top = 3) {   // top: highest set bit of the last byte
  std::vector<unsigned char> s;
  for (int i = 0; i < n - 1; i++) s.push_back((unsigned char)sx_u("data", 8));
  s.push_back((unsigned char)((top ? sx_u("data", top) : 0) | 1u << top));
  f.setWaveletBitstream(s);
}
ENTRY(j01_effects) {
  BandType t = (BandType)sx_choice("type", 4);
  Band b(t, 0, 1000);
  int n = 1 + sx_choice("effects", 2);
  for (int i = 0; i < n; i++) {
    bool ref = sx_choice("reference", 2);
    bool periodic = !ref && (t == BandType::Transient || t == BandType::VectorialWave);
    int e = (i + 1 < n ? 1 : sx_choice("present", 2)) * 4;
    if (periodic) e |= i + 1 < n ? 3 : sx_choice("signalled", 4);
    Effect f = plain(ref, e);
    if (!ref && t == BandType::WaveletWave) data(f, 1);
    else if (!ref) {
      Keyframe k = some();
      f.addKeyframe(k);
    }
    b.addEffect(f);
  }
  finish(b);
}
ENTRY(j01_keyframes) {
  int where = sx_choice("where", 4), n = sx_choice("keyframes", 4), at = n ? sx_choice("varied", n) : 0;
  Effect f = plain(false, 0);
  for (int i = 0; i < n; i++) {
    Keyframe k = i == at ? keyframe() : some();
    f.addKeyframe(k);
  }
  if (where < 3) {
    Band b((BandType)where, 0, 1000);
    b.addEffect(f);
    finish(b);
  } else {
    Perception p = perception();
    p.addBasisEffect(f);
    finish(p);
  }
}
ENTRY(j01_wavelet) {
  Band b(BandType::WaveletWave, 0, 1000);
  b.setBlockLength(256);
  Effect f = plain(false, 0);
  int n = 1 + sx_choice("bytes", 4);
  data(f, n, sx_choice("top", 8));
  b.addEffect(f);
  finish(b);
}
ENTRY(j01_library) {
  Perception p = perception();
  int n = sx_choice("effects", 3);
  for (int i = 0; i < n; i++) {
    int last = i + 1 == n;
    Effect f = plain(last ? sx_choice("reference", 2) : 0, last ? sx_choice("present", 8) : 7);
    Keyframe k = some();
    f.addKeyframe(k);
    p.addBasisEffect(f);
  }
  finish(p);
}
ENTRY(j01_library_stream) {
  int n = sx_choice("bytes", 3);
  sx_kf("library-wavelet", n > 0);
  Perception p = perception();
  Effect f = plain(false, 0);
  if (n) data(f, n);
  p.addBasisEffect(f);
  finish(p);
}
ENTRY(j01_composite) {
  int n = sx_choice("nested", 3);
  sx_kf("composite", n > 0);
  Effect f = plain(false, 0);
  f.setEffectType(EffectType::Composite);
  for (int i = 0; i < n; i++) {
    Effect g = plain(false, 0);
    Keyframe k = some();
    g.addKeyframe(k);
    f.addTimelineEffect(g);
  }
  if (sx_choice("library", 2)) {
    Perception p = perception();
    p.addBasisEffect(f);
    finish(p);
  } else {
    Band b(BandType::VectorialWave, 0, 1000);
    b.addEffect(f);
    finish(b);
  }
}
ENTRY(j01_syncs) {
  Haptics h;
  int n = sx_choice("syncs", 4);
  for (int i = 0; i < n; i++) {
    Sync s(sx_int("time"));
    if (sx_choice("scaled", 2)) s.setTimescale((unsigned)sx_u("scale", 32));
    h.addSync(s);
  }
  through(h);
}
