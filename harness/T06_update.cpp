// SOURCES TYPES
// ENTRY t06_perception shards=8 bound="1-2 perceptions with 0-2 channels, devices and library effects each, every int index, every id, avatar, modality and exponent, priority, exponents and scheme present or absent on either side" covers=done,bad
// ENTRY t06_channel shards=8 bound="1-2 channels with 0-1 bands each, every int index, every id, mask, gain and weight, 0-2 vertices and targets, each optional field present or absent on either side" covers=done,bad
// ENTRY t06_band shards=4 bound="1-2 bands with 0-1 effects each, every int index, every band type pair, curve, block length, frequency limits, priority present or absent" covers=done,bad
// ENTRY t06_replace shards=4 bound="whole replacement and removal of perceptions, channels and bands: 1-3 entities, every int index, every id" covers=done,bad
#include "meta.h"
#include <sx.h>
using namespace haptics::types;
static bool same(std::optional<int> a, std::optional<int> b) { return (a.has_value() == b.has_value()) & (a.value_or(0) == b.value_or(0)); }
static int anyIndex(int n) {
  int c = sx_choice("index", n + 1);
  if (c < n) return c;
  int i = sx_int("badindex");
  sx_assume((i < 0) | (i >= n));
  return i;
}
static Effect effect(int id) {
  Effect e(id * 7, 0, BaseSignal::Sine, EffectType::Basis);
  e.setId(id);
  e.keyframes.emplace_back(Keyframe(id, 0.5f, id + 1));
  return e;
}
static bool sameEffect(Effect &a, Effect &b) { return a.getId() == b.getId() && a.getPosition() == b.getPosition() && a.getKeyframesSize() == b.getKeyframesSize() && a.getKeyframeAt(0).getRelativePosition() == b.getKeyframeAt(0).getRelativePosition(); }
static bool sameBand(Band &a, Band &b) {
  if (!(a.getBandType() == b.getBandType() && a.getCurveType() == b.getCurveType() && a.getBlockLength() == b.getBlockLength() && a.getLowerFrequencyLimit() == b.getLowerFrequencyLimit() && a.getUpperFrequencyLimit() == b.getUpperFrequencyLimit() && a.getPriority() == b.getPriority())) return false;
  if (a.getEffectsSize() != b.getEffectsSize()) return false;
  for (int i = 0; i < (int)a.getEffectsSize(); i++)
    if (!sameEffect(a.getEffectAt(i), b.getEffectAt(i))) return false;
  return true;
}
static Band band(int k, int nEffects) {
  Band b(BandType::Curve, CurveType::Cubic, k, 100 + k);
  b.setPriority(k);
  for (int i = 0; i < nEffects; i++) b.effects.push_back(effect(10 * k + i));
  return b;
}
static bool sameBands(Channel &a, Channel &b) {
  if (a.getBandsSize() != b.getBandsSize()) return false;
  for (int i = 0; i < (int)a.getBandsSize(); i++)
    if (!sameBand(a.getBandAt(i), b.getBandAt(i))) return false;
  return true;
}
static Channel channelOf(int k, int nBands) {
  std::string d = "c";
  Channel c(k, d, 0.25f * k, 2, 5);
  c.addVertex(k);
  c.setReferenceDeviceId(k + 1);
  for (int i = 0; i < nBands; i++) {
    Band b = band(i + 1, 1);
    c.addBand(b);
  }
  return c;
}
static bool sameMeta(Channel &a, Channel &b) {
  bool r = (a.getId() == b.getId()) & (a.getGain() == b.getGain()) & (a.getMixingWeight() == b.getMixingWeight()) & (a.getBodyPartMask() == b.getBodyPartMask());
  if (a.getDescription() != b.getDescription() || a.vertices != b.vertices) return false;
  if (a.getFrequencySampling() != b.getFrequencySampling() || a.getSampleCount() != b.getSampleCount() || !(a.getDirection() == b.getDirection()) || !(a.getActuatorResolution() == b.getActuatorResolution())) return false;
  if (a.getBodyPartTarget() != b.getBodyPartTarget() || a.getActuatorTarget() != b.getActuatorTarget()) return false;
  return r & same(a.getPriority(), b.getPriority()) & same(a.getReferenceDeviceId(), b.getReferenceDeviceId());
}
static std::optional<int> maybe(const char *n, bool p) { return p ? std::optional<int>(sx_int(n)) : std::nullopt; }
static Channel anyChannel(int fields) {
  Channel c;
  c.setId(sx_int("id"));
  std::string d = meta::text("desc", 2);
  c.setDescription(d);
  c.setGain(sx_f32("gain", -1e6f, 1e6f));
  c.setMixingWeight(sx_f32("weight", -1e6f, 1e6f));
  c.setBodyPartMask((uint32_t)sx_int("mask"));
  c.setPriority(maybe("priority", fields & 1));
  if (fields & 2) c.setReferenceDeviceId(sx_int("device"));
  if (fields & 4) c.setFrequencySampling((uint32_t)sx_int("sampling"));
  if (fields & 8) c.setSampleCount((uint32_t)sx_int("samples"));
  if (fields & 16) c.setDirection(meta::vec("dir"));
  if (fields & 32) c.setActuatorResolution(meta::vec("res"));
  if (fields & 64) c.setBodyPartTarget(std::vector<BodyPartTarget>{(BodyPartTarget)sx_u("bt", 8), BodyPartTarget::Left});
  if (fields & 128) c.setActuatorTarget(std::vector<Vector>{meta::vec("at")});
  return c;
}
// all, none, one or all but one of k fields
static int someFields(const char *n, int k) {
  int c = sx_choice(n, 2 * k + 2), all = (1 << k) - 1;
  return c == 0 ? 0 : c == 1 ? all : c < k + 2 ? 1 << (c - 2) : all & ~(1 << (c - k - 2));
}
static Perception anyPerception(int fields) {
  std::string d = meta::text("desc", 2);
  Perception p(sx_int("id"), sx_int("avatar"), d, (PerceptionModality)sx_u("modality", 8));
  p.setPriority(maybe("priority", fields & 1));
  if (fields & 2) p.setUnitExponent((int8_t)sx_u("unit", 8));
  if (fields & 4) p.setPerceptionUnitExponent((int8_t)sx_u("punit", 8));
  if (fields & 8) {
    std::string s = meta::text("scheme", 2);
    p.setEffectSemanticScheme(s);
  }
  return p;
}
static void content(Perception &p, int k, int nDev, int nLib) {
  for (int i = 0; i < nDev; i++) {
    std::string nm = meta::text("dev", 1);
    ReferenceDevice d(10 * k + i, nm);
    d.setMaximumFrequency(sx_f32("maxfreq", 0, 1000));
    p.addReferenceDevice(d);
  }
  for (int i = 0; i < nLib; i++) {
    Effect e = effect(50 * k + i);
    p.addBasisEffect(e);
  }
}
static bool sameDevices(Perception &a, Perception &b) {
  if (a.getReferenceDevicesSize() != b.getReferenceDevicesSize()) return false;
  bool r = true;
  for (int i = 0; i < (int)a.getReferenceDevicesSize(); i++)
    r &= (a.getReferenceDeviceAt(i).getId() == b.getReferenceDeviceAt(i).getId()) & (a.getReferenceDeviceAt(i).getName() == b.getReferenceDeviceAt(i).getName()) & (a.getReferenceDeviceAt(i).getMaximumFrequency() == b.getReferenceDeviceAt(i).getMaximumFrequency());
  return r;
}
static bool sameLibrary(Perception &a, Perception &b) {
  if (a.getEffectLibrarySize() != b.getEffectLibrarySize()) return false;
  for (int i = 0; i < (int)a.getEffectLibrarySize(); i++)
    if (!sameEffect(a.getBasisEffectAt(i), b.getBasisEffectAt(i))) return false;
  return true;
}
static bool samePerceptionMeta(Perception &a, Perception &b) {
  bool r = (a.getId() == b.getId()) & (a.getAvatarId() == b.getAvatarId()) & (a.getPerceptionModality() == b.getPerceptionModality());
  r &= (a.getUnitExponentOrDefault() == b.getUnitExponentOrDefault()) & (a.getPerceptionUnitExponentOrDefault() == b.getPerceptionUnitExponentOrDefault());
  return r & (a.getDescription() == b.getDescription()) & (a.getEffectSemanticSchemeOrDefault() == b.getEffectSemanticSchemeOrDefault()) & same(a.getPriority(), b.getPriority());
}
static bool sameChannels(Perception &a, Perception &b) {
  if (a.getChannelsSize() != b.getChannelsSize()) return false;
  for (int i = 0; i < (int)a.getChannelsSize(); i++)
    if (!sameMeta(a.getChannelAt(i), b.getChannelAt(i)) || !sameBands(a.getChannelAt(i), b.getChannelAt(i))) return false;
  return true;
}
ENTRY(t06_perception) {
  int n = 1 + sx_choice("n", 2), index = anyIndex(n);
  int fold = someFields("old", 4), fnew = someFields("new", 4);
  int ch = sx_choice("channels", 3), dev = sx_choice("devices", 3);
  Haptics h;
  for (int i = 0; i < n; i++) {
    Perception p = i == index ? anyPerception(fold) : anyPerception(15);
    content(p, i + 1, i ? 1 : 2, i ? 2 : 1);
    for (int c = 0; c < (i == index ? ch : 1); c++) {
      Channel x = channelOf(c, 1 + c);
      p.addChannel(x);
    }
    h.addPerception(p);
  }
  Haptics old = h;
  Perception q = anyPerception(fnew);
  content(q, 9, dev, dev);
  Channel extra = channelOf(8, 1);
  q.addChannel(extra);
  Perception given = q;
  bool ok = h.replacePerceptionMetadataAt(index, q);
  sx_assert(ok == (index >= 0 && index < n), "an update reports whether the perception exists");
  sx_assert((int)h.getPerceptionsSize() == n, "an update keeps the number of perceptions");
  for (int i = 0; i < n; i++) {
    Perception &a = h.getPerceptionAt(i), &b = old.getPerceptionAt(i);
    sx_assert(sameChannels(a, b), "an update keeps the channels of every perception with their bands and effects");
    Perception &m = i == index ? given : b;
    sx_assert(samePerceptionMeta(a, m), i == index ? "an update makes every metadata field equal to the new record" : "an update leaves other perceptions alone");
    sx_assert(sameDevices(a, m), i == index ? "an update takes over the reference devices of the new record" : "an update leaves the devices of other perceptions alone");
    sx_assert(sameLibrary(a, m), i == index ? "an update takes over the effect library of the new record" : "an update leaves the library of other perceptions alone");
  }
  if (ok) sx_cover("done"); else sx_cover("bad");
}
ENTRY(t06_channel) {
  int n = 1 + sx_choice("n", 2), index = anyIndex(n);
  int fold = sx_choice("old", 2) * 255, fnew = someFields("new", 8), nv = sx_choice("vertices", 3);
  Perception p(3, 4, "p", PerceptionModality::Force);
  content(p, 1, 1, 1);
  for (int i = 0; i < n; i++) {
    Channel c = i == index ? anyChannel(fold) : anyChannel(255 - 64 * i);
    c.addVertex(i);
    int v = 77;
    if (i == 0) c.addVertex(v);
    Band b = band(i + 2, 1);
    c.addBand(b);
    if (i) c.addBand(b);
    p.addChannel(c);
  }
  Perception old = p;
  Channel q = anyChannel(fnew);
  for (int i = 0; i < nv; i++) {
    int v = sx_int("vertex");
    q.addVertex(v);
  }
  Band extra = band(9, 2);
  q.addBand(extra);
  Channel given = q;
  bool ok = p.replaceChannelMetadataAt(index, q);
  sx_assert(ok == (index >= 0 && index < n), "an update reports whether the channel exists");
  sx_assert((int)p.getChannelsSize() == n && samePerceptionMeta(p, old) && sameDevices(p, old) && sameLibrary(p, old), "an update of a channel leaves its perception alone");
  for (int i = 0; i < n; i++) {
    Channel &a = p.getChannelAt(i), &b = old.getChannelAt(i);
    sx_assert(sameBands(a, b), "an update keeps the bands of every channel with their effects");
    sx_assert(sameMeta(a, i == index ? given : b), i == index ? "an update makes every metadata field equal to the new record" : "an update leaves other channels alone");
  }
  if (ok) sx_cover("done"); else sx_cover("bad");
}
ENTRY(t06_band) {
  static const BandType T[4] = {BandType::VectorialWave, BandType::Transient, BandType::Curve, BandType::WaveletWave};
  int n = 1 + sx_choice("n", 2), index = anyIndex(n);
  Channel c = channelOf(1, 0);
  for (int i = 0; i < n; i++) {
    Band b = band(i + 2, 1 + i);
    if (i == index) {
      b.setBandType(T[sx_choice("oldtype", 4)]);
      b.setLowerFrequencyLimit(sx_int("oldlower"));
      b.setPriority(maybe("oldpriority", sx_choice("oldhas", 2)));
    }
    c.addBand(b);
  }
  Channel old = c;
  Band q = band(9, 2);
  BandType t = T[sx_choice("type", 4)];
  q.setBandType(t);
  q.setCurveType((CurveType)sx_u("curve", 4));
  q.setBlockLength(sx_int("block"));
  q.setLowerFrequencyLimit(sx_int("lower"));
  q.setUpperFrequencyLimit(sx_int("upper"));
  q.setPriority(maybe("priority", sx_choice("has", 2)));
  Band given = q;
  bool ok = c.replaceBandMetadataAt(index, q);
  sx_assert(ok == (index >= 0 && index < n), "an update reports whether the band exists");
  sx_assert((int)c.getBandsSize() == n && sameMeta(c, old), "an update of a band leaves its channel alone");
  for (int i = 0; i < n; i++) {
    Band &a = c.getBandAt(i), &b = old.getBandAt(i);
    if (i != index) {
      sx_assert(sameBand(a, b), "an update leaves other bands alone");
      continue;
    }
    sx_assert(a.getBandType() == t, "an update sets the band type");
    sx_assert(t != BandType::Curve || a.getCurveTypeOrDefault() == given.getCurveTypeOrDefault(), "an update sets the curve of a curve band");
    sx_assert(t != BandType::WaveletWave || a.getBlockLengthOrDefault() == given.getBlockLengthOrDefault(), "an update sets the block length of a wavelet band");
    sx_assert((a.getLowerFrequencyLimit() == given.getLowerFrequencyLimit()) & (a.getUpperFrequencyLimit() == given.getUpperFrequencyLimit()), "an update sets the frequency limits");
    sx_assert(same(a.getPriority(), given.getPriority()), "an update sets the priority");
    bool e = a.getEffectsSize() == b.getEffectsSize();
    for (int j = 0; e && j < (int)a.getEffectsSize(); j++) e = sameEffect(a.getEffectAt(j), b.getEffectAt(j));
    sx_assert(e, "an update keeps the effects of the band");
  }
  if (ok) sx_cover("done"); else sx_cover("bad");
}
ENTRY(t06_replace) {
  int what = sx_choice("what", 3), n = 1 + sx_choice("n", 3), index = anyIndex(n);
  bool remove = sx_choice("remove", 2), in = index >= 0 && index < n;
  int ids[3], fresh = sx_int("fresh");
  for (int i = 0; i < n; i++) ids[i] = sx_int("id");
  Haptics h;
  Perception p(1, 2, "p", PerceptionModality::Force);
  Channel c = channelOf(1, 0);
  for (int i = 0; i < n; i++) {
    Perception pp = p;
    pp.setId(ids[i]);
    h.addPerception(pp);
    Channel cc = channelOf(1, 1);
    cc.setId(ids[i]);
    p.addChannel(cc);
    Band b = band(1, 1);
    b.setLowerFrequencyLimit(ids[i]);
    c.addBand(b);
  }
  bool ok = false;
  if (what == 0) {
    Perception q(fresh, 2, "q", PerceptionModality::Force);
    ok = remove ? h.removePerceptionAt(index) : h.replacePerceptionAt(index, q);
  } else if (what == 1) {
    Channel q = channelOf(1, 1);
    q.setId(fresh);
    ok = remove ? p.removeChannelAt(index) : p.replaceChannelAt(index, q);
  } else {
    Band q = band(1, 1);
    q.setLowerFrequencyLimit(fresh);
    ok = remove ? c.removeBandAt(index) : c.replaceBandAt(index, q);
  }
  sx_assert(ok == in, "replacing or removing reports whether the entity exists");
  int m = n - (remove && in), size = what == 0 ? (int)h.getPerceptionsSize() : what == 1 ? (int)p.getChannelsSize() : (int)c.getBandsSize();
  sx_assert(size == m, "replacing keeps and removing lowers the number of entities");
  for (int i = 0; i < m; i++) {
    int src = remove && in && i >= index ? i + 1 : i;
    int want = !remove && in && i == index ? fresh : ids[src];
    int got = what == 0 ? h.getPerceptionAt(i).getId() : what == 1 ? p.getChannelAt(i).getId() : c.getBandAt(i).getLowerFrequencyLimit();
    sx_assert(got == want, "replacing or removing touches only the indexed entity");
  }
  if (ok) sx_cover("done"); else sx_cover("bad");
}
