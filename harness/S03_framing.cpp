// SOURCES STREAM
// ENTRY s03_packets shards=4 bound="one packet of every kind the writer produces, texts of 0-3 bytes, 0-2 list elements, data packets of 1-3 keyframes with any fields present, checksum packets over 1-2 packets: type, alignment and length" covers=end
// ENTRY s03_large bound="packets with 255-byte texts, 200 devices, 300 library effects or 600 keyframes" covers=end
// ENTRY s03_units shards=8 bound="every unit type with 0-3 packets of every 6-bit type with payloads of 1-3 bytes of any content, every layer: header, order, alignment and length" covers=end
// ENTRY s03_read shards=2 bound="units of 0-4 timing packets of any content mixed with other packets and followed by bytes of the next unit: every packet visited once, in order, and nothing else" covers=end
// ENTRY s03_stream shards=8 bound="experiences of 1-2 bands with 1-2 effects anywhere on a grid of five positions, optional gaps, three packet durations: every unit parses into whole packets; the file splits into the units written" covers=end
// ENTRY s03_silent bound="silent units before the first and between any two packets, every time up to 2^24 and packet duration 1-1000" covers=end
#include "meta.h"
#include <IOHaptics/include/IOBinaryFields.h>
#include <IOHaptics/include/IOStream.h>
using namespace haptics::types;
using haptics::io::IOBinaryPrimitives;
using haptics::io::IOStream;
using haptics::io::MIHSPacketType;
using haptics::io::MIHSUnitType;
typedef std::vector<bool> Bits;
static uint64_t field(const Bits &b, int at, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) v = v << 1 | (uint64_t)(bool)b[at + i];
  return v;
}
// a packet as produced by the writer: data packets carry a timestamp their length does not count
static void packetOk(const Bits &p, MIHSPacketType t) {
  sx_assert(p.size() >= 24 && p.size() % 8 == 0, "a packet is byte aligned");
  sx_assert(field(p, 0, 6) == (uint64_t)t, "a packet carries its type");
  uint64_t extra = t == MIHSPacketType::Data ? 4 : 0;
  sx_assert(field(p, 6, 17) + extra == (p.size() - 24) / 8, "the length of a packet counts the bytes after its header");
}
struct Unit {
  uint64_t type, sync, layer, duration, length;
};
static Unit unitOk(const Bits &u) {
  sx_assert(u.size() >= 72 && u.size() % 8 == 0, "a unit is byte aligned");
  Unit r{field(u, 0, 6), field(u, 6, 2), field(u, 8, 4), field(u, 12, 24), field(u, 36, 32)};
  sx_assert(r.length == (u.size() - 72) / 8, "the length of a unit counts the bytes after its header");
  return r;
}
static Keyframe keyframe(int m) {
  Keyframe k(std::nullopt, std::nullopt, std::nullopt);
  k.setRelativePosition(m >> 2);
  if (m & 1) k.setAmplitudeModulation(0.5F);
  if (m & 2) k.setFrequencyModulation((int)sx_u("kf", 16));
  return k;
}
static void noteBand(Channel &c, int type, int keyframes, int m) {
  Band b;
  b.setBandType((BandType)type);
  b.setLowerFrequencyLimit(0);
  b.setUpperFrequencyLimit(1000);
  Effect e;
  e.setEffectType(EffectType::Basis);
  e.setId(1);
  for (int i = 0; i < keyframes; i++) {
    Keyframe k = keyframe(m | i % 100 << 2);
    e.addKeyframe(k);
  }
  b.addEffect(e);
  c.addBand(b);
}
ENTRY(s03_packets) {
  static const MIHSPacketType T[12] = {MIHSPacketType::Timing, MIHSPacketType::MetadataHaptics, MIHSPacketType::MetadataPerception, MIHSPacketType::EffectLibrary, MIHSPacketType::MetadataChannel, MIHSPacketType::MetadataBand, MIHSPacketType::Data, MIHSPacketType::InitializationTiming, MIHSPacketType::CRC16, MIHSPacketType::CRC32, MIHSPacketType::GlobalCRC16, MIHSPacketType::GlobalCRC32};
  int k = sx_choice("type", 12);
  MIHSPacketType t = T[k];
  std::string text = k == 6 ? "" : meta::text("text", sx_choice("len", 4));
  Haptics h;
  h.setVersion(text);
  h.setDescription(text);
  Perception p((int)sx_u("pid", 8), 0, text, PerceptionModality::Force);
  int list = sx_choice("list", 3);
  for (int i = 0; i < list; i++) {
    Avatar a(i, 1, AvatarType::Custom);
    a.setMesh(text);
    h.addAvatar(a);
    ReferenceDevice d = meta::device(i * 0x801, 8, i);
    p.addReferenceDevice(d);
    Effect e;
    e.setEffectType(EffectType::Basis);
    e.setId(i);
    Keyframe f = keyframe(i);
    e.addKeyframe(f);
    p.addBasisEffect(e);
  }
  Channel c;
  c.setDescription(text);
  for (int i = 0; i < list; i++) {
    int v = i;
    c.addVertex(v);
  }
  int band = k == 6 ? sx_choice("band", 3) : list; // transients need all fields, curves an amplitude
  noteBand(c, band, k == 6 ? 1 + sx_choice("kfs", 3) : 1, band == (int)BandType::Transient ? 3 : k == 6 ? sx_choice("fields", 4) | (band == (int)BandType::Curve) : 1);
  p.addChannel(c);
  h.addPerception(p);
  IOStream::StreamWriter w;
  w.haptic = h;
  w.time = sx_int("time");
  w.timescale = (unsigned)sx_u("timescale", 32);
  std::vector<Bits> out;
  if (k >= 8) out.assign(k >= 10 ? 2 : 1, Bits((size_t)(8 * (1 + list)), true));
  sx_assert(IOStream::writeMIHSPacket(t, w, out), "a packet is written");
  sx_assert(out.size() == (k == 3 ? (list ? 1u : 0u) : 1u), "one packet per element");
  for (auto &x : out) packetOk(x, t);
  sx_cover("end");
}
ENTRY(s03_large) {
  int what = sx_choice("what", 4);
  Haptics h;
  std::string text(255, 'x');
  h.setDescription(text);
  h.setVersion(text);
  Perception p(1, 0, text, PerceptionModality::Force);
  std::string nm = "device";
  for (int i = 0; i < 200 && what == 1; i++) {
    ReferenceDevice d(i, nm);
    d.setWeight(1);
    p.addReferenceDevice(d);
  }
  for (int i = 0; i < 300 && what == 2; i++) {
    Effect e;
    e.setEffectType(EffectType::Reference);
    e.setId(i);
    p.addBasisEffect(e);
  }
  Channel c;
  c.setDescription(text);
  noteBand(c, 1, what == 3 ? 600 : 1, 3);
  p.addChannel(c);
  h.addPerception(p);
  IOStream::StreamWriter w;
  w.haptic = h;
  w.packetDuration = 1000;
  static const MIHSPacketType T[4] = {MIHSPacketType::MetadataHaptics, MIHSPacketType::MetadataPerception, MIHSPacketType::EffectLibrary, MIHSPacketType::Data};
  std::vector<Bits> out;
  sx_assert(IOStream::writeMIHSPacket(T[what], w, out), "a packet is written");
  sx_assert(out.size() == 1, "one packet per element");
  packetOk(out[0], T[what]);
  sx_cover("end");
}
static Bits packet(unsigned type, int bytes) {
  Bits p;
  bool data = type == (unsigned)MIHSPacketType::Data;
  for (int i = 5; i >= 0; i--) p.push_back(type >> i & 1);
  for (int i = 16; i >= 0; i--) p.push_back(bytes >> i & 1);
  p.push_back(false);
  if (data) {
    p.push_back(false);
    for (int i = 0; i < 31; i++) p.push_back(sx_bool("ts"));
  }
  for (int i = 0; i < bytes * 8; i++) p.push_back(sx_bool("bit"));
  return p;
}
ENTRY(s03_units) {
  static const MIHSUnitType T[3] = {MIHSUnitType::Initialization, MIHSUnitType::Temporal, MIHSUnitType::Spatial};
  int t = sx_choice("unit", 3), n = sx_choice("n", 4);
  IOStream::StreamWriter w;
  w.layer = (unsigned)sx_u("layer", 4);
  w.time = 7;
  w.packetDuration = (unsigned)sx_u("duration", 24);
  std::vector<Bits> list;
  Bits expected;
  bool anyData = false, independent = true;
  for (int i = 0; i < n; i++) {
    static const unsigned K[3] = {(unsigned)MIHSPacketType::Data, (unsigned)MIHSPacketType::CRC16, 63};
    int k = t == 0 ? 1 + sx_choice("kind", 2) : sx_choice("kind", 3);
    Bits p = packet(K[k], i == n - 1 ? 1 + sx_choice("bytes", 3) : 1 + i);
    list.push_back(p);
    if (k == 0) {
      p.erase(p.begin() + 24, p.begin() + 56);
      independent = independent && !p[24];
      anyData = true;
    }
    expected.insert(expected.end(), p.begin(), p.end());
  }
  Bits unit;
  sx_assert(IOStream::writeMIHSUnit(T[t], list, unit, w), "a unit is written");
  Unit u = unitOk(unit);
  sx_assert(u.type == (uint64_t)T[t], "a unit carries its type");
  sx_assert(u.layer == w.layer, "a unit carries its layer");
  sx_assert(u.duration == (t == 1 && anyData ? w.packetDuration : 0), "a unit carries its duration");
  sx_assert(u.sync == (t == 1 && !independent ? 1u : 0u), "a unit is a synchronisation point exactly when all its data packets are independent");
  int at = 72;
  if (t == 0) {
    sx_assert(field(unit, at, 6) == (uint64_t)MIHSPacketType::InitializationTiming, "an initialization unit starts with its timing");
    at += 24 + 8 * (int)field(unit, at + 6, 17);
  }
  sx_assert(unit.size() == at + expected.size(), "a unit contains its packets and nothing else");
  bool same = true;
  for (size_t i = 0; i < expected.size(); i++) same = same & (unit[at + i] == expected[i]);
  sx_assert(same, "a unit contains its packets in order");
  sx_cover("end");
}
ENTRY(s03_read) {
  int n = sx_choice("n", 5), tail = sx_choice("tail", 3), mixed = sx_choice("mixed", 3);
  std::vector<Bits> list;
  std::vector<int> times;
  for (int i = 0; i < n; i++) {
    IOStream::StreamWriter w;
    w.time = (int)sx_u("time", 31);
    times.push_back(w.time);
    std::vector<Bits> p;
    IOStream::writeMIHSPacket(MIHSPacketType::Timing, w, p);
    list.push_back(p[0]);
    if (mixed == 1 && i == 1) list.push_back(packet((unsigned)MIHSPacketType::CRC32, 4));
    if (mixed == 2) list.push_back(packet((unsigned)MIHSPacketType::CRC16, 2));
  }
  IOStream::StreamWriter w;
  Bits unit;
  sx_assert(IOStream::writeMIHSUnit(MIHSUnitType::Temporal, list, unit, w), "a unit is written");
  if (tail) {
    Bits more = packet((unsigned)MIHSPacketType::Timing, tail == 1 ? 4 : 1);
    unit.insert(unit.end(), more.begin(), more.end());
  }
  IOStream::StreamReader r = IOStream::initializeStream();
  IOStream::CRC crc;
  sx_assert(IOStream::readMIHSUnit(unit, r, crc), "a unit is read");
  sx_assert(r.haptic.getSyncsSize() == times.size(), "every packet of a unit is visited once, and nothing else");
  for (size_t i = 0; i < times.size() && i < r.haptic.getSyncsSize(); i++) sx_assert(r.haptic.getSyncsAt((int)i).getTimestamp() == times[i], "the packets of a unit are visited in order");
  sx_cover("end");
}
ENTRY(s03_stream) {
  static const int D[3] = {128, 50, 1000};
  int duration = D[sx_choice("duration", 3)];
  Haptics h;
  std::string text = meta::text("text", 1);
  h.setDescription(text);
  Perception p(1, 0, text, PerceptionModality::Vibrotactile);
  Channel c;
  int bands = 1 + sx_choice("bands", 2), effects = 1 + sx_choice("effects", 2);
  for (int i = 0; i < bands; i++) {
    Band b;
    b.setBandType(i ? BandType::Transient : BandType::VectorialWave);
    b.setLowerFrequencyLimit(0);
    b.setUpperFrequencyLimit((int)sx_u("high", 16));
    for (int j = 0; j < (i ? 1 : effects); j++) {
      Effect e;
      e.setEffectType(EffectType::Basis);
      e.setId(1 + j + 10 * i);
      static const int POS[5] = {0, 300, 64, 1001, 5000};
      e.setPosition(POS[i || j ? 1 + sx_choice("pos", 2) : sx_choice("pos", 5)]);
      Keyframe k(0, 0.5F, (int)sx_u("kf", 16)), l(70, 0.25F, 100);
      e.addKeyframe(k);
      e.addKeyframe(l);
      b.addEffect(e);
    }
    c.addBand(b);
  }
  p.addChannel(c);
  h.addPerception(p);
  std::vector<Bits> units, loaded;
  sx_assert(IOStream::writeUnits(h, units, duration), "the stream is written");
  for (size_t i = 0; i < units.size(); i++) {
    Bits &u = units[i];
    Unit head = unitOk(u);
    sx_assert((i == 0) == (head.type == (uint64_t)MIHSUnitType::Initialization), "the stream starts with its initialization unit");
    size_t at = 72;
    while (at + 24 <= u.size()) at += 24 + 8 * (size_t)field(u, (int)at + 6, 17);
    sx_assert(at == u.size(), "a unit consists of whole packets");
    if (head.type == (uint64_t)MIHSUnitType::Silent) sx_assert(head.length == 0 && head.duration > 0, "a silent unit is empty and lasts");
  }
  sx_assert(IOStream::writeFile(h, "s.hmpg", duration), "the file is written");
  sx_assert(IOStream::loadFile("s.hmpg", loaded), "the file is loaded");
  sx_assert(loaded.size() == units.size(), "a file splits into its units");
  for (size_t i = 0; i < units.size() && i < loaded.size(); i++) sx_assert(loaded[i] == units[i], "a file splits into its units");
  sx_cover("end");
}
ENTRY(s03_silent) {
  IOStream::StreamWriter w;
  w.packetDuration = 1 + (unsigned)sx_range("duration", 0, 999);
  w.layer = (unsigned)sx_u("layer", 4);
  bool two = sx_choice("two", 2);
  int at = (int)sx_u("at", 24), now = two ? (int)sx_u("now", 24) : 0;
  sx_assume(two ? at > now : (unsigned)at >= w.packetDuration);
  w.time = now;
  Bits p = packet((unsigned)MIHSPacketType::Data, 1);
  for (int i = 0; i < 32; i++) p[24 + i] = at >> (31 - i) & 1;
  std::vector<Bits> list(two ? 2 : 1, p);
  Bits unit;
  sx_assert(IOStream::writeMIHSUnit(MIHSUnitType::Silent, list, unit, w), "a unit is written");
  Unit u = unitOk(unit);
  sx_assert(u.type == (uint64_t)MIHSUnitType::Silent && u.layer == w.layer && u.length == 0, "a silent unit is empty");
  sx_assert(w.time == now + (int)u.duration, "the writer advances by the silence");
  if (two) sx_assert(now + (int)u.duration == at, "a silence lasts until the next packet");
  else sx_assert((int)u.duration <= at && at - (int)u.duration < (int)w.packetDuration, "a silence lasts until the first packet duration with data");
  sx_cover("end");
}
