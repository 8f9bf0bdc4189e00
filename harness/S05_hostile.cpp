// SOURCES STREAM
// ENTRY s05_experience shards=4 bound="experience packets: texts of 0-2 bytes, 0-2 avatars, every value of every field; complete, or ending at any byte with one arbitrary bit per field" covers=complete,cut
// ENTRY s05_perception shards=6 bound="perception packets: texts of 0-1 bytes, 0-2 reference devices with no, all, any single or every second optional field, every value of every field; complete, or ending at any byte with one arbitrary bit per field" covers=complete,cut
// ENTRY s05_channel shards=6 bound="channel packets under every mask of optional fields, 0-2 targets and vertices, known or unknown perception, every value of every field; complete, or ending at any byte with one arbitrary bit per field" covers=complete,cut
// ENTRY s05_band shards=4 bound="band packets of every type code, known or unknown perception and channel, new or known band id, every value of every field; complete, or ending at any byte with one arbitrary bit per field" covers=complete,cut
// ENTRY s05_library shards=8 bound="library packets: 0-2 effects of every type code with 0-2 keyframes under every mask, up to two levels of nesting, known and unknown semantics; complete, or ending at any byte with one arbitrary bit per field" covers=complete,cut
// ENTRY s05_data shards=8 bound="data packets for bands of every type: known or unknown perception, channel and band, 0-2 effects of every type code with 0-2 keyframes or coded bytes, known and unknown semantics, every value of every field; complete, or ending at any byte with one arbitrary bit per field" covers=complete,cut
// ENTRY s05_semantic shards=5 args="--policy max_concretize 300" bound="every semantic code of an effect in a band of each type and in a library, every value of its other fields" covers=end
// ENTRY s05_wrong bound="data and band packets whose band id belongs to another channel, in both orders" covers=end
// ENTRY s05_small shards=2 bound="timing, initialization and checksum packets of every value, time scale 0 included; complete, or ending at any byte with one arbitrary bit per field" covers=complete,cut
// ENTRY s05_length bound="packets of every type code whose length is any 17-bit value and which hold 0-5 bytes more or fewer; packets of 0-23 bits" covers=end
// ENTRY s05_unit shards=4 bound="units of 0-9 header bytes and 0-2 packets, every value of every header field, any announced length" covers=end
// ENTRY s05_file shards=4 bound="files of 0-20 bytes, every value of every byte but for packets types without a payload" covers=end
// ENTRY s05_counts shards=4 bound="announced counts of 255 and 65535 elements with two of them present" covers=end
// ENTRY s05_raw shards=8 bound="packets of each type with 0-4 arbitrary payload bytes, 0-1 where they begin with a text" covers=end
// ASSUME a nesting depth of at most 3 in libraries
#include "meta.h"
#include <sxfile.h>
#include <IOHaptics/include/IOBinaryFields.h>
#include <IOHaptics/include/IOStream.h>
using namespace haptics::types;
using namespace haptics::io;
typedef std::vector<bool> Bits;
typedef MIHSPacketType PT;
// when the packet may end early, one bit of each field is arbitrary, otherwise every bit is
struct W {
  Bits out;
  bool lean = false;
  void v(uint64_t x, int n) { for (int i = n; i-- > 0;) out.push_back((x >> i) & 1); }
  void a(int n) { v(lean && n > 4 ? (uint64_t)0x2d2d2d2d >> (32 - n) | sx_u("bit", 1) << (n - 1) : sx_u("field", n), n); }
  void text(int n) { v((uint64_t)n, 8); for (int i = 0; i < n; i++) a(8); }
};
static Bits header(PT t, uint64_t length) {
  W w;
  w.v((uint64_t)t, 6), w.v(length, 17), w.a(1);
  return w.out;
}
// a reader that knows perception 5 with channel 6 (band 1 of type t) and channel 7 (bands 2 and 3)
static IOStream::StreamReader reader(int t = 0) {
  IOStream::StreamReader r = IOStream::initializeStream();
  std::string d = "p";
  Perception p(5, 0, d, PerceptionModality::Force);
  Channel c(6, "c", 1, 1, 0), e(7, "e", 1, 1, 0);
  auto note = [&](Channel &x, int id, int type, int index) {
    Band b;
    b.setBandType((BandType)type);
    if (type == 3) b.setBlockLength(100);
    x.addBand(b);
    IOStream::BandStream s;
    s.id = id, s.index = index, s.band = b;
    r.bandStreamsHaptic.push_back(s);
  };
  note(c, 1, t, 0), note(e, 2, 0, 0), note(e, 3, 1, 1);
  p.addChannel(c), p.addChannel(e);
  r.haptic.addPerception(p);
  return r;
}
static void walk(Effect e) {
  for (int i = 0; i < (int)e.getKeyframesSize(); i++) (void)e.getKeyframeAt(i).getAmplitudeModulation();
  for (int i = 0; i < (int)e.getTimelineSize(); i++) walk(e.getTimelineEffectAt(i));
}
static void walk(Haptics &h) {
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) {
    Perception &p = h.getPerceptionAt(i);
    for (int j = 0; j < (int)p.getEffectLibrarySize(); j++) walk(p.getBasisEffectAt(j));
    for (int j = 0; j < (int)p.getChannelsSize(); j++)
      for (int k = 0; k < (int)p.getChannelAt(j).getBandsSize(); k++) {
        Band &b = p.getChannelAt(j).getBandAt(k);
        for (int l = 0; l < (int)b.getEffectsSize(); l++) walk(b.getEffectAt(l));
      }
  }
}
// the packet complete or ending at any byte: decoded exactly when its content is there and makes sense
static void decode(PT t, W &w, IOStream::StreamReader &r, bool good) {
  int bits = (int)w.out.size(), bytes = (bits + 7) / 8, keep = bytes;
  if (w.lean) keep = sx_choice("keep", bytes + 1);
  Bits packet = header(t, (uint64_t)keep);
  for (int i = 0; i < keep * 8; i++) packet.push_back(i < bits ? (bool)w.out[i] : false);
  IOStream::CRC crc;
  bool ok = IOStream::readMIHSPacket(packet, r, crc);
  if (keep < bytes) {
    sx_assert(!ok, "a packet that ends early is reported as a failure");
    sx_cover("cut");
  } else {
    sx_assert(ok == good, "a complete packet is decoded exactly when it refers to what exists");
    sx_cover("complete");
  }
  walk(r.haptic);
}
ENTRY(s05_experience) {
  W w;
  w.lean = sx_choice("incomplete", 2);
  int tl = sx_choice("text", 3);
  w.text(tl), w.text(tl ? 1 : 0), w.a(8), w.text(0), w.text(tl), w.a(8);
  int n = sx_choice("avatars", 3);
  w.v(n, 8);
  for (int i = 0; i < n; i++) {
    w.a(16);
    if (sx_choice("custom", 2)) w.v(0, 8), w.text(1 + i);
    else w.v(sx_u("type", 7) + 1, 8);
  }
  IOStream::StreamReader r = reader();
  decode(PT::MetadataHaptics, w, r, true);
}
ENTRY(s05_perception) {
  W w;
  w.lean = sx_choice("incomplete", 2);
  int n0 = sx_choice("known", 2);
  w.v(n0 ? 5 : 9, 8), w.a(8), w.text(n0), w.a(8), w.a(8), w.a(16);
  int n = sx_choice("devices", 3);
  int scheme = n != 0 ? 0 : sx_choice("scheme", 3);
  w.v(scheme > 0, 1);
  if (scheme) w.text(scheme - 1);
  w.a(8), w.a(8), w.v(n, 8);
  for (int i = 0; i < n; i++) {
    int k = i ? 15 : n == 1 ? sx_choice("mask", 16) : 1;
    int mask = k == 0 ? 0 : k == 13 ? 4095 : k == 14 ? 0x555 : k == 15 ? 0xaaa : 1 << (k - 1);
    w.a(8), w.text(i), w.a(32), w.v(mask, 12);
    for (int b = 11; b > 0; b--) if (mask >> b & 1) w.a(32);
    if (mask & 1) w.a(4);
  }
  w.a(16);
  IOStream::StreamReader r = reader();
  decode(PT::MetadataPerception, w, r, true);
}
ENTRY(s05_channel) {
  W w;
  w.lean = sx_choice("incomplete", 2);
  int shape = sx_choice("shape", 3); // plain, with targets, unknown perception
  int opt = shape == 2 ? 6 : shape == 1 ? 2 : sx_choice("options", 8);
  w.v(shape == 0 && opt < 2 ? sx_choice("known", 2) ? 6 : 12 : 6, 16), w.v(shape == 2 ? 4 : 5, 8), w.a(8), w.text(1), w.a(8), w.a(32), w.a(32);
  w.v(opt | sx_u("high", 5) << 3, 8);
  if (opt & 1) w.a(32);
  else if (opt & 2) {
    w.a(24);
    int n = shape == 1 ? sx_choice("parts", 3) : 0, m = shape == 1 ? sx_choice("targets", 3) : 1;
    w.v(n, 8);
    for (int i = 0; i < n; i++) w.a(8);
    w.v(m, 8);
    for (int i = 0; i < m; i++) w.a(24);
  }
  if (opt != 3) w.v(0, 32);
  else w.v(sx_u("rate", 32) | 1, 32), w.a(32);
  if (opt & 4) w.a(24);
  int n = shape == 0 && opt == 0 ? sx_choice("vertices", 3) : 1;
  w.v(n, 16);
  for (int i = 0; i < n; i++) w.a(32);
  w.a(8);
  IOStream::StreamReader r = reader();
  decode(PT::MetadataChannel, w, r, shape != 2);
}
ENTRY(s05_band) {
  W w;
  w.lean = sx_choice("incomplete", 2);
  int t = sx_choice("type", 8), who = sx_choice("who", 3), id = 1 + sx_choice("id", 4);
  w.v(id, 8), w.v(who == 1 ? 4 : 5, 8), w.v(who == 2 ? 8 : sx_choice("channel", 2) + 6, 16), w.a(8), w.v(t, 3);
  if (t == 1) w.a(4);
  if (t == 3) w.a(8);
  w.a(16), w.a(16), w.a(16);
  IOStream::StreamReader r = reader();
  decode(PT::MetadataBand, w, r, who == 0);
}
static bool semantic(W &w, int how) {
  w.v(how > 0, 1);
  if (!how) return true;
  uint64_t code = how == 1 ? (uint64_t)effectSemanticToString.rbegin()->first : how == 2 ? 4095 : sx_u("code", 12);
  w.v(code, 12);
  int known = 0;
  for (auto &e : effectSemanticToString) known |= (int)(code == (uint64_t)e.first);
  return known != 0;
}
static bool libraryEffect(W &w, int kind, int sem, int n, int mask, int nested) {
  w.a(16), w.v(kind, 2);
  bool ok = semantic(w, sem);
  w.a(25);
  if (kind == 0) w.a(16), w.a(4);
  w.v(n, 16);
  for (int i = 0; i < n; i++) {
    int m = i == 0 ? mask : 7;
    w.v(m, 3);
    if (m & 1) w.a(16);
    if (m & 2) w.a(8);
    if (m & 4) w.a(16);
  }
  w.v(nested > 0, 16);
  if (nested) ok &= libraryEffect(w, nested == 2 ? 2 : sx_choice("inner", 2), 0, nested == 1, 5, nested - 1);
  return ok;
}
ENTRY(s05_library) {
  W w;
  bool known = sx_choice("known", 2), cut = w.lean = sx_choice("incomplete", 2), ok = known;
  int n = sx_choice("effects", 3);
  w.v(known ? 5 : 9, 8), w.v(n, 16);
  for (int i = 0; i < n; i++) {
    if (i) ok &= libraryEffect(w, 1, 0, 0, 0, 0);
    else {
      int k = sx_choice("keyframes", 3);
      bool alone = n == 1 && known;
      int sem = alone && !cut && !k ? sx_choice("semantic", 3) : 0;
      ok &= libraryEffect(w, alone ? sx_choice("kind", 4) : 0, sem, k, cut || k != 1 || !alone ? 7 : sx_choice("mask", 8), !alone || k == 2 || sem ? 0 : k == 0 ? sx_choice("nested", 3) : 0);
    }
  }
  IOStream::StreamReader r = reader();
  decode(PT::EffectLibrary, w, r, ok);
}
static bool dataEffect(W &w, int t, int kind, int sem, int n) {
  w.a(16), w.v(kind, 2);
  bool ok = true;
  if (t == 3) {
    ok = semantic(w, sem);
    w.v(n, 16);
    for (int i = 0; i < n; i++) w.a(8);
    return ok;
  }
  w.a(25);
  if (kind) return true;
  ok = semantic(w, sem);
  w.v(n, 16);
  if (t == 2) w.a(16), w.a(4);
  for (int i = 0; i < n; i++) {
    if (t == 0) w.a(8), w.a(16), w.a(16);
    else if (t == 1) w.a(8), w.a(16);
    else if (t == 2) {
      int m = i == 0 && !sem ? sx_choice("mask", 4) : 3;
      w.v(m, 2);
      if (m & 1) w.a(8);
      w.a(16);
      if (m & 2) w.a(16);
    } else ok = false; // keyframes of an unknown band type
  }
  return ok;
}
ENTRY(s05_data) {
  W w;
  w.lean = sx_choice("incomplete", 2);
  int t = sx_choice("type", 5), who = sx_choice("who", 4), n = who ? 1 : sx_choice("effects", 3);
  bool ok = who == 0;
  int sem = !w.lean && ok && n == 1 ? sx_choice("semantic", 3) : 0;
  w.v(1, 1), w.v(who == 1 ? 4 : 5, 8), w.v(who == 2 ? 8 : 6, 16), w.v(who == 3 ? 9 : 1, 8);
  w.v(n, 16);
  for (int i = 0; i < (t == 3 && n ? 1 : n); i++) ok &= dataEffect(w, t, i ? 1 : who || sem ? 0 : sx_choice("kind", 4), sem, who ? 0 : i || sem || n == 2 ? 1 : sx_choice("n", 3));
  IOStream::StreamReader r = reader(t);
  decode(PT::Data, w, r, ok);
}
ENTRY(s05_semantic) {
  W w;
  int t = sx_choice("type", 5);
  IOStream::StreamReader r = reader(t == 4 ? 0 : t);
  if (t == 4) {
    w.v(5, 8), w.v(1, 16);
    bool ok = libraryEffect(w, 0, 3, 0, 0, 0);
    decode(PT::EffectLibrary, w, r, ok);
  } else {
    w.v(1, 1), w.v(5, 8), w.v(6, 16), w.v(1, 8), w.v(1, 16);
    bool ok = dataEffect(w, t, 0, 3, 0);
    decode(PT::Data, w, r, ok);
  }
  sx_cover("end");
}
ENTRY(s05_wrong) {
  IOStream::StreamReader r = reader();
  W w;
  int who = sx_choice("who", 3);
  if (who < 2) {
    // band 3 is the second one of channel 7; channel 6 has one band only
    w.v(1, 1), w.v(5, 8), w.v(6, 16), w.v(3, 8), w.v(1, 16);
    dataEffect(w, 1, 0, 0, 1);
    w.lean = who == 1;
    decode(PT::Data, w, r, false);
  } else {
    w.v(3, 8), w.v(5, 8), w.v(6, 16), w.a(8), w.v(0, 3), w.a(16), w.a(16), w.a(16);
    decode(PT::MetadataBand, w, r, true);
    walk(r.haptic);
  }
  sx_cover("end");
}
ENTRY(s05_small) {
  W w;
  w.lean = sx_choice("incomplete", 2);
  IOStream::StreamReader r = reader();
  switch (sx_choice("kind", 6)) {
  case 0:
    r.timescale = (unsigned)sx_u("timescale", 32);
    w.a(32);
    decode(PT::Timing, w, r, r.timescale != 0);
    break;
  case 1: {
    w.a(32), w.a(32), w.a(24), w.a(24), w.a(1);
    decode(PT::InitializationTiming, w, r, true);
    // a timing packet after it
    Bits packet = header(PT::Timing, 4);
    for (int i = 0; i < 32; i++) packet.push_back(i == 30);
    IOStream::CRC crc;
    bool ok = IOStream::readMIHSPacket(packet, r, crc);
    sx_assert(ok == (r.timescale != 0), "a time without a time scale is a failure");
    break;
  }
  case 2: w.a(16), decode(PT::CRC16, w, r, true); break;
  case 3: w.a(32), decode(PT::CRC32, w, r, true); break;
  case 4: w.a(24), decode(PT::GlobalCRC16, w, r, true); break;
  case 5: w.a(40), decode(PT::GlobalCRC32, w, r, true); break;
  }
}
ENTRY(s05_length) {
  IOStream::StreamReader r = reader();
  IOStream::CRC crc;
  if (sx_choice("short", 2)) {
    Bits p;
    int n = sx_choice("bits", 24);
    for (int i = 0; i < n; i++) p.push_back(sx_bool("b"));
    sx_assert(!IOStream::readMIHSPacket(p, r, crc), "a packet without a whole header is a failure");
  } else {
    uint64_t type = sx_u("type", 6), length = sx_u("length", 17);
    int have = sx_choice("have", 6);
    // what is there is decoded elsewhere: here the length is wrong or the type is unknown
    bool known = type == (uint64_t)PT::Timing || type == (uint64_t)PT::MetadataHaptics || type == (uint64_t)PT::MetadataPerception || type == (uint64_t)PT::EffectLibrary || type == (uint64_t)PT::MetadataChannel || type == (uint64_t)PT::MetadataBand || type == (uint64_t)PT::Data || type == (uint64_t)PT::CRC16 || type == (uint64_t)PT::CRC32 || type == (uint64_t)PT::GlobalCRC16 || type == (uint64_t)PT::GlobalCRC32 || type == (uint64_t)PT::InitializationTiming;
    sx_assume(length > (uint64_t)have || !known);
    Bits p = header((PT)type, length);
    for (int i = 0; i < 8 * have; i++) p.push_back(sx_bool("b"));
    sx_assert(!IOStream::readMIHSPacket(p, r, crc), "a packet longer than what was received or of an unknown type is a failure");
  }
  walk(r.haptic);
  sx_cover("end");
}
static void crcPacket(W &w, int bytes) {
  Bits h = header(PT::CRC16, (uint64_t)bytes);
  w.out.insert(w.out.end(), h.begin(), h.end());
  w.a(16);
}
ENTRY(s05_unit) {
  IOStream::StreamReader r = reader();
  IOStream::CRC crc;
  W w;
  w.a(36);
  int near = sx_choice("near", 14);
  uint64_t length = near < 13 ? (uint64_t)near : sx_u("length", 32);
  if (near == 13) sx_assume(length > 12);
  w.v(length, 32), w.a(4);
  int n = sx_choice("packets", 4);
  if (n == 3) { // the header alone is cut
    w.out.resize(8 * (size_t)sx_choice("bytes", 9));
    sx_assert(!IOStream::readMIHSUnit(w.out, r, crc), "a unit without a whole header is a failure");
  } else {
    for (int i = 0; i < n; i++) crcPacket(w, 2);
    bool ok = IOStream::readMIHSUnit(w.out, r, crc);
    sx_assert(ok == (length == 0 || (length == 5 && n > 0) || (length == 10 && n > 1)), "a unit is read exactly when it holds whole packets");
  }
  walk(r.haptic);
  sx_cover("end");
}
ENTRY(s05_file) {
  int shape = sx_choice("shape", 4);
  if (shape < 2) { // any bytes
    int n = sx_choice("bytes", shape ? 10 : 9) + (shape ? 9 : 0);
    unsigned char d[20];
    for (int i = 0; i < n; i++) d[i] = (unsigned char)sx_u("byte", 8);
    sx_file_set("s.bin", d, n);
    std::vector<Bits> units;
    bool ok = IOStream::loadFile("s.bin", units);
    uint64_t len = 0;
    if (n >= 9) for (int k = 36; k < 68; k++) len = len << 1 | ((d[k / 8] >> (7 - k % 8)) & 1);
    if (n < 9) sx_assert(!ok, "a file without a whole unit header is a failure");
    if (n >= 9 && len > (uint64_t)(n - 9)) sx_assert(!ok, "a file that ends inside a unit is a failure");
    if (ok) {
      size_t total = 0;
      for (auto &u : units) total += u.size();
      sx_assert(total == (size_t)n * 8, "the units are the file");
    }
  } else { // units of one packet that announce more or less than what follows
    W w;
    for (int u = 0; u < 2; u++) {
      w.a(36), w.v(u == 1 && shape == 3 ? sx_u("length", 32) : 5, 32), w.a(4);
      crcPacket(w, 2);
    }
    int bytes = (int)w.out.size() / 8, keep = shape == 2 ? sx_choice("keep", bytes + 1) : bytes;
    w.out.resize((size_t)keep * 8);
    std::vector<unsigned char> d(keep + 1);
    for (int i = 0; i < keep * 8; i++) if (w.out[i]) d[i / 8] |= (unsigned char)(128 >> (i % 8));
    sx_file_set("s.bin", d.data(), keep);
    Haptics h;
    bool ok = IOStream::readFile("s.bin", h);
    if (shape == 2) sx_assert(ok == (keep == 14 || keep == 28), "a file that ends inside a unit is a failure");
  }
  sx_cover("end");
}
ENTRY(s05_counts) {
  W w;
  IOStream::StreamReader r = reader(2);
  bool big = sx_choice("big", 2);
  int what = sx_choice("what", 8), n16 = big ? 65535 : 300;
  PT t = PT::Data;
  if (what < 4) {
    r = reader(what);
    w.v(1, 1), w.v(5, 8), w.v(6, 16), w.v(1, 8);
    w.v(1, 16);
    w.a(16), w.v(0, 2);
    if (what != 3) w.a(25);
    w.v(0, 1), w.v(n16, 16);
    if (what == 2) w.a(20);
    w.a(40);
  } else if (what == 4) {
    w.v(1, 1), w.v(5, 8), w.v(6, 16), w.v(1, 8), w.v(n16, 16);
    for (int i = 0; i < 2; i++) w.v(i, 16), w.v(1, 2), w.a(25);
  } else if (what == 5) {
    t = PT::EffectLibrary;
    w.v(5, 8), w.v(n16, 16);
    for (int i = 0; i < 2; i++) libraryEffect(w, 1, 0, 0, 0, 0);
  } else if (what == 6) {
    t = PT::MetadataHaptics;
    w.text(0), w.text(0), w.a(8), w.text(0), w.text(0), w.a(8), w.v(255, 8);
    for (int i = 0; i < 2; i++) w.a(16), w.v(1, 8);
  } else {
    t = PT::MetadataPerception;
    w.v(9, 8), w.a(8), w.text(0), w.a(32), w.v(0, 1), w.a(16), w.v(255, 8);
    for (int i = 0; i < 2; i++) w.a(8), w.text(0), w.a(32), w.v(0, 12);
  }
  decode(t, w, r, false);
  sx_cover("end");
}
ENTRY(s05_raw) {
  static const PT T[] = {PT::MetadataHaptics, PT::MetadataPerception, PT::EffectLibrary, PT::MetadataChannel, PT::MetadataBand, PT::Data};
  int k = sx_choice("type", 6), n = sx_choice("bytes", k < 2 ? 2 : 5);
  IOStream::StreamReader r = reader(k == 5 ? sx_choice("band", 4) : 0);
  Bits p = header(T[k], (uint64_t)n);
  for (int i = 0; i < 8 * n; i++) p.push_back(sx_bool("b"));
  IOStream::CRC crc;
  sx_assert(!IOStream::readMIHSPacket(p, r, crc) || (k == 2 && n >= 3) , "nothing that small is a whole packet but an empty library");
  walk(r.haptic);
  sx_cover("end");
}
