// SOURCES BINARY
// ENTRY b01_texts bound="version, profile, date and description of 0-3 arbitrary bytes, every level, 0-2 avatars of every 8-bit id, level of detail and type with meshes of 0-2 bytes" shards=4 covers=end
// ENTRY b01_perception shards=2 bound="1-2 perceptions with every 8-bit id, modality and avatar id, signed 8-bit exponents present or absent, descriptions of 0-2 bytes" covers=end
// ENTRY b01_device shards=4 bound="1-2 reference devices: no, all, any single or all but any single optional field; every id, type code, body mask, reals of two values each including some out of range, names of 0-2 bytes" covers=end
// ENTRY b01_device_all tier=thorough shards=16 timeout=850 bound="one reference device with every one of the 8192 combinations of optional fields" covers=end
// ENTRY b01_channel shards=4 bound="1-2 channels: every combination of device, resolution, direction and sampling present or absent, or absent or 0-2 body part and actuator targets, or 0-2 vertices, or 0-2 bands; every id and mask, two gains and weights" covers=end
// ENTRY b01_many shards=3 bound="200 devices, 260 channels, 260 vertices, 200 targets, 200 bands, 200 avatars or 200 perceptions" covers=end
// ASSUME gains, weights and device fields take two values each (B05 decides the coding of every real)
#include "common_bits.h"
#include "meta.h"
#include <IOHaptics/include/IOBinary.h>
using namespace haptics::types;
using namespace haptics::io;
static Haptics base(int tl = 1) {
  Haptics h;
  std::string v = meta::text("version", tl), p = meta::text("profile", tl), d = meta::text("date", tl), x = meta::text("desc", tl);
  h.setVersion(v);
  h.setProfile(p);
  h.setLevel((uint8_t)sx_u("level", 8));
  h.setDate(d);
  h.setDescription(x);
  return h;
}
static void through(Haptics &h) {
  sx_assert(IOBinary::writeFile(h, "h.hmpg"), "writing the file succeeds");
  Haptics r;
  sx_assert(IOBinary::loadFile("h.hmpg", r), "reading the file succeeds");
  sx_assert(h.getVersion() == r.getVersion(), "the version is kept");
  sx_assert(h.getProfile() == r.getProfile(), "the profile is kept");
  sx_assert(h.getLevel() == r.getLevel(), "the level is kept");
  sx_assert(h.getDate() == r.getDate(), "the date is kept");
  sx_assert(h.getDescription() == r.getDescription(), "the description is kept");
  sx_assert(h.getAvatarsSize() == r.getAvatarsSize(), "the number of avatars is kept");
  for (int i = 0; i < (int)h.getAvatarsSize(); i++) meta::sameAvatar(h.getAvatarAt(i), r.getAvatarAt(i));
  sx_assert(h.getPerceptionsSize() == r.getPerceptionsSize(), "the number of perceptions is kept");
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) meta::samePerception(h.getPerceptionAt(i), r.getPerceptionAt(i));
}
ENTRY(b01_texts) {
  Haptics h = base(sx_choice("len", 4));
  int n = sx_choice("avatars", 3);
  for (int i = 0; i < n; i++) {
    bool custom = sx_choice("custom", 2);
    int type = custom ? (int)AvatarType::Custom : (int)sx_u("avtype", 8);
    if (!custom) sx_assume(type != (int)AvatarType::Custom);
    Avatar a((int)sx_u("avid", 8), (int)sx_u("lod", 8), (AvatarType)type);
    int ml = custom ? sx_choice("mesh", 4) : 0;
    if (ml) a.setMesh(meta::text("uri", ml - 1));
    h.addAvatar(a);
  }
  through(h);
  sx_cover("end");
}
static Perception perception(int tl) {
  return Perception((int)sx_u("pid", 8), (int)sx_u("avatar", 8), meta::text("pdesc", tl), (PerceptionModality)sx_u("modality", 8));
}
ENTRY(b01_perception) {
  Haptics h = base();
  int n = 1 + sx_choice("n", 2);
  for (int i = 0; i < n; i++) {
    Perception p = perception(sx_choice("len", 3));
    int e = sx_choice("exponents", 4);
    if (e & 1) p.setUnitExponent((int8_t)sx_u("unit", 8));
    if (e & 2) p.setPerceptionUnitExponent((int8_t)sx_u("punit", 8));
    h.addPerception(p);
  }
  through(h);
  sx_cover("end");
}
static int someMask() {
  int m = sx_choice("mask", 28);
  return m == 0 ? 0 : m == 1 ? 8191 : m < 15 ? 1 << (m - 2) : 8191 & ~(1 << (m - 15));
}
ENTRY(b01_device) {
  Haptics h = base();
  Perception p = perception(1);
  int n = 1 + sx_choice("n", 2);
  ReferenceDevice d = meta::device(someMask(), 8, sx_choice("len", 3));
  p.addReferenceDevice(d);
  if (n == 2) {
    ReferenceDevice g = meta::device(0x1805, 8, 1);
    p.addReferenceDevice(g);
  }
  h.addPerception(p);
  through(h);
  sx_cover("end");
}
ENTRY(b01_device_all) {
  Haptics h = base(0);
  Perception p = perception(0);
  int hi = sx_choice("hi", 128), lo = sx_choice("lo", 64);
  ReferenceDevice d = meta::device(hi * 64 + lo, 8, 0);
  p.addReferenceDevice(d);
  h.addPerception(p);
  through(h);
  sx_cover("end");
}
static Channel channel(bool first) {
  Channel c;
  c.setId((int)sx_s("cid", 16));
  std::string d = meta::text("cdesc", first ? 1 : 0);
  c.setDescription(d);
  // one part of the channel varies at a time; the others stay as in a full channel
  int part = first ? sx_choice("part", 4) : 4;
  int opt = part == 0 ? sx_choice("fields", 16) : 15;
  if (opt & 1) {
    int id = (int)sx_u("refdev", 8);
    sx_assume(id != 255);
    c.setReferenceDeviceId(id);
  }
  c.setGain(meta::real("gain"));
  c.setMixingWeight(meta::real("weight"));
  c.setBodyPartMask((uint32_t)sx_u("body", 32));
  if (opt & 2) {
    c.setActuatorResolution(meta::vec("resolution"));
    int nb = part == 1 ? sx_choice("bodytargets", 4) : 2, na = part == 1 ? sx_choice("acttargets", 4) : 3;
    std::vector<BodyPartTarget> bt;
    for (int i = 1; i < nb; i++) bt.push_back((BodyPartTarget)sx_u("target", 8));
    if (nb) c.setBodyPartTarget(bt);
    std::vector<Vector> at;
    for (int i = 1; i < na; i++) at.push_back(meta::vec("actuator"));
    if (na) c.setActuatorTarget(at);
  }
  if (opt & 4) c.setDirection(meta::vec("direction"));
  if (opt & 8) {
    uint32_t f = (uint32_t)sx_u("sampling", 32);
    sx_assume(f != 0);
    c.setFrequencySampling(f);
    if (part != 2 || sx_choice("count", 2)) c.setSampleCount((uint32_t)sx_u("samples", 32));
  }
  int nv = part == 2 ? sx_choice("vertices", 3) : 1;
  for (int i = 0; i < nv; i++) {
    int v = sx_int("vertex");
    c.addVertex(v);
  }
  int nbands = part == 3 ? sx_choice("bands", 3) : 0;
  for (int i = 0; i < nbands; i++) {
    Band b;
    b.setBandType(BandType::Transient);
    b.setLowerFrequencyLimit(0);
    b.setUpperFrequencyLimit(1);
    c.addBand(b);
  }
  return c;
}
ENTRY(b01_channel) {
  Haptics h = base();
  Perception p = perception(1);
  int n = 1 + sx_choice("n", 2);
  for (int i = 0; i < n; i++) {
    Channel c = channel(i == n - 1);
    p.addChannel(c);
  }
  h.addPerception(p);
  through(h);
  sx_cover("end");
}
ENTRY(b01_many) {
  Haptics h = base();
  Perception p = perception(1);
  Channel c;
  int what = sx_choice("what", 7);
  std::string t = "d";
  const int N = 200;
  std::vector<BodyPartTarget> bt;
  for (int i = 0; i < N; i++) {
    ReferenceDevice d(i, t);
    Avatar a(i, 200 - i, AvatarType::Pressure);
    Perception q(i, i, t, PerceptionModality::Wind);
    if (what == 0) p.addReferenceDevice(d);
    if (what == 3) bt.push_back((BodyPartTarget)(i + 40));
    if (what == 4) { Band b; c.addBand(b); }
    if (what == 5) h.addAvatar(a);
    if (what == 6) h.addPerception(q);
  }
  for (int i = 0; i < 260; i++) {
    Channel d;
    d.setId(i * 100);
    if (what == 1) p.addChannel(d);
    int v = i * 1000;
    if (what == 2) c.addVertex(v);
  }
  if (what == 3) { c.setActuatorResolution(meta::vec("resolution")); c.setBodyPartTarget(bt); }
  c.setId((int)sx_u("cid", 15));
  c.setBodyPartMask((uint32_t)sx_u("body", 32));
  p.addChannel(c);
  h.addPerception(p);
  through(h);
  sx_cover("end");
}
