// SOURCES BINARY
// ENTRY b06_block shards=3 args="--policy check_overflow 1 --policy check_fptoint 1 --policy max_concretize 260" bound="wavelet bands: all 256 block length codes, every limit, 0-2 effects; with one effect also cut at any byte" covers=end
// ENTRY b06_band shards=6 bound="the header and effects of one band: every value of every field (all 8 band type codes, every limit; one block length code), 0-2 effects of every type code with 0-2 keyframes or bytes, the file complete or cut at any byte" covers=end
// ENTRY b06_nested shards=10 bound="composite effects in bands of every type code: 0-2 nested effects of every type and one further level, complete or cut at any byte" covers=end
// ENTRY b06_library shards=4 bound="library effects of every type code with 0-2 keyframes under every mask, up to two levels of nesting, complete or cut at any byte" covers=end
// ENTRY b06_devices shards=4 bound="0-2 reference devices with every value of every field, all 4096 masks for one device, complete or cut at any byte" covers=end
// ENTRY b06_channels shards=6 bound="0-2 channels with every value of every field, 0-2 targets, vertices and bands, complete or cut at any byte" covers=end
// ENTRY b06_file shards=6 bound="whole files: 0-1 avatars, 0-2 perceptions of 0-1 channels and bands, 0-1 effects, every field arbitrary, complete or cut at any byte" covers=end
// ENTRY b06_counts shards=8 bound="300 effects, keyframes, nested effects, coded bytes, vertices or library effects, 255 avatars, perceptions, devices, bands, targets or characters, present in full or missing after the first two" covers=end
// ENTRY b06_raw shards=8 bound="files of 1-5 arbitrary bytes through every reader" covers=end
// ASSUME a nesting depth of at most 3 (each nested level costs a stack frame; deeper nesting is not explored)
#include "common_bits.h"
#include <IOHaptics/include/IOBinary.h>
#include <IOHaptics/include/IOBinaryBands.h>
#include <IOHaptics/include/IOBinaryFields.h>
#include <Types/include/Haptics.h>
using namespace haptics::types;
using namespace haptics::io;
using P = IOBinaryPrimitives;
struct W {
  std::vector<bool> out;
  void v(uint64_t x, int n) { for (int i = n; i-- > 0;) out.push_back((x >> i) & 1); }
  void a(int n) { v(sx_u("field", n), n); }
  void text(int n) { v((uint64_t)n, 8); for (int i = 0; i < n; i++) a(8); }
  // the file, complete or with everything from some byte on missing
  void file(bool cut = true) {
    if (cut) {
      int bytes = (int)(out.size() + 7) / 8, k = sx_choice("cut", bytes + 1);
      if ((size_t)k * 8 < out.size()) out.resize((size_t)k * 8);
    }
    bitsToFile(out, "h.bin");
  }
};
static void walk(Effect e) {
  for (int i = 0; i < (int)e.getKeyframesSize(); i++) (void)e.getKeyframeAt(i).getAmplitudeModulation();
  for (int i = 0; i < (int)e.getTimelineSize(); i++) walk(e.getTimelineEffectAt(i));
}
static void walk(Perception &p) {
  for (int i = 0; i < (int)p.getEffectLibrarySize(); i++) walk(p.getBasisEffectAt(i));
  for (int i = 0; i < (int)p.getReferenceDevicesSize(); i++) (void)p.getReferenceDeviceAt(i).getName();
  for (int i = 0; i < (int)p.getChannelsSize(); i++) {
    Channel &c = p.getChannelAt(i);
    for (int j = 0; j < (int)c.getVerticesSize(); j++) (void)c.getVertexAt(j);
    for (int j = 0; j < (int)c.getBandsSize(); j++)
      for (int k = 0; k < (int)c.getBandAt(j).getEffectsSize(); k++) walk(c.getBandAt(j).getEffectAt(k));
  }
}
static void walk(Haptics &h) {
  for (int i = 0; i < (int)h.getAvatarsSize(); i++) (void)h.getAvatarAt(i).getMesh();
  for (int i = 0; i < (int)h.getPerceptionsSize(); i++) walk(h.getPerceptionAt(i));
}
// the keyframes or bytes of a basis effect of a band of type t
static void basis(W &w, int t, int n) {
  if (t == 3) {
    w.v(n, 16);
    for (int i = 0; i < n; i++) w.a(8);
    return;
  }
  if (t == 2) w.a(16), w.a(4);
  w.v(n, EFFECT_KEYFRAME_COUNT);
  for (int i = 0; i < n; i++) {
    if (t == 0) w.a(8), w.a(16), w.a(16);
    else if (t == 1) w.a(8), w.a(16);
    else {
      int m = i == 0 ? sx_choice("mask", 4) : 3;
      w.v(m | (sx_u("high", KEYFRAME_MASK - 2) << 2), KEYFRAME_MASK);
      if (m & 1) w.a(8);
      w.a(16);
      if (m & 2) w.a(16);
    }
  }
}
static void effect(W &w, int t, int depth, int maxN, bool top) {
  static const int K[] = {0, 1, 3, 2}; // 3 has no meaning
  int kind = K[sx_choice("kind", depth ? 4 : 3)];
  w.v(kind, EFFECT_TYPE);
  if (!top || kind || t != 3) w.a(EFFECT_POSITION);
  if (kind == 1) w.a(EFFECT_ID);
  else if (kind == 2) {
    int n = sx_choice("nested", maxN + 1);
    w.v(n, EFFECT_TIMELINE_COUNT);
    for (int i = 0; i < n; i++) effect(w, t, depth - 1, 1, false);
  } else if (t < 4) basis(w, t, sx_choice("n", maxN + 1));
}
static void bandHeader(W &w, int t, int effects, bool anyCode = false) {
  w.v(t, MDBAND_BAND_TYPE);
  if (t == 1) w.a(MDBAND_CURVE_TYPE);
  if (t == 3) anyCode ? w.a(MDBAND_BLK_LEN) : w.v(5, MDBAND_BLK_LEN);
  w.a(16), w.a(16);
  w.v(effects, MDBAND_EFFECT_COUNT);
}
static void readBand() {
  std::ifstream f("h.bin", std::ios::in | std::ios::binary);
  std::vector<bool> un;
  Band b;
  unsigned ts = sx_choice("timescale", 2) ? 1000 : 48000;
  if (IOBinaryBands::readBandHeader(b, f, un, ts) && IOBinaryBands::readBandBody(b, f, un, ts))
    for (int i = 0; i < (int)b.getEffectsSize(); i++) walk(b.getEffectAt(i));
  sx_assert(un.size() < 8, "less than one byte is left over");
}
ENTRY(b06_band) {
  W w;
  int t = sx_choice("type", 8), n = sx_choice("effects", 3);
  bandHeader(w, t, n);
  for (int i = 0; i < n; i++) effect(w, t, 0, i == 0 ? 2 : 0, true);
  w.file();
  readBand();
  sx_cover("end");
}
ENTRY(b06_block) {
  W w;
  int n = sx_choice("effects", 3);
  bandHeader(w, 3, n, true);
  for (int i = 0; i < n; i++) w.v(0, EFFECT_TYPE), basis(w, 3, i);
  w.file(n == 1);
  readBand();
  sx_cover("end");
}
ENTRY(b06_nested) {
  W w;
  int t = sx_choice("type", 5);
  bandHeader(w, t, 2);
  w.v(2, EFFECT_TYPE), w.a(EFFECT_POSITION);
  int n = sx_choice("nested", 3);
  w.v(n, EFFECT_TIMELINE_COUNT);
  for (int i = 0; i < n; i++) {
    if (i == 0) effect(w, t, n == 1, 1, false);
    else w.v(1, EFFECT_TYPE), w.a(EFFECT_POSITION), w.a(EFFECT_ID);
  }
  w.v(1, EFFECT_TYPE), w.a(EFFECT_POSITION), w.a(EFFECT_ID);
  w.file();
  readBand();
  sx_cover("end");
}
static void libraryEffect(W &w, int kind, int n, int mask, int nested) {
  w.a(EFFECT_ID), w.a(EFFECT_POSITION);
  w.v(kind, EFFECT_TYPE);
  if (kind == 0) w.a(EFFECT_PHASE), w.a(EFFECT_BASE_SIGNAL);
  w.v(n, EFFECT_KEYFRAME_COUNT);
  for (int i = 0; i < n; i++) {
    int m = i == 0 ? mask : 7;
    w.v(m, KEYFRAME_MASK);
    if (m & 1) w.a(16);
    if (m & 2) w.a(8);
    if (m & 4) w.a(16);
  }
  w.v(nested > 0, EFFECT_TIMELINE_COUNT);
  if (nested) libraryEffect(w, nested == 2 ? 2 : sx_choice("inner", 2), nested == 1, 5, nested - 1);
}
ENTRY(b06_library) {
  W w;
  bool cut = sx_choice("incomplete", 2);
  int n = sx_choice("effects", 3);
  w.v(n, MDPERCE_LIBRARY_COUNT);
  for (int i = 0; i < n; i++) {
    if (i) libraryEffect(w, 1, 0, 0, 0);
    else {
      int k = sx_choice("keyframes", 3);
      libraryEffect(w, sx_choice("kind", 4), k, cut || !k ? 7 : sx_choice("mask", 8), n == 2 ? 0 : sx_choice("nested", 3));
    }
  }
  w.file(cut);
  std::ifstream f("h.bin", std::ios::in | std::ios::binary);
  std::vector<bool> un;
  Perception p;
  if (IOBinary::readLibrary(p, f, un)) walk(p);
  sx_cover("end");
}
static void device(W &w, int mask, int text) {
  w.a(REFDEV_ID);
  w.text(text);
  w.a(REFDEV_BODY_PART_MASK);
  w.v(mask, REFDEV_OPT_FIELDS);
  for (int i = 0; i < 11; i++)
    if (mask >> i & 1) w.a(32);
  if (mask >> 11 & 1) w.a(REFDEV_TYPE);
}
ENTRY(b06_devices) {
  W w;
  int n = sx_choice("devices", 3), first = n == 1 ? sx_choice("mask", 16) : 0;
  w.v(n, MDPERCE_REFDEVICE_COUNT);
  for (int i = 0; i < n; i++) {
    int mask = 0;
    if (i == 0) {
      if (n == 1) mask = first == 0 ? 0 : first == 13 ? 4095 : first == 14 ? 0x555 : first == 15 ? 0xaaa : 1 << (first - 1);
      device(w, mask, sx_choice("name", 3));
    } else device(w, 0x801, 1);
  }
  w.file();
  std::ifstream f("h.bin", std::ios::in | std::ios::binary);
  std::vector<bool> un;
  Perception p;
  if (IOBinary::readReferenceDevices(p, f, un)) walk(p);
  sx_cover("end");
}
static void channel(W &w, int opt, int text, int n1, int n2, int verts, int bands) {
  w.a(MDCHANNEL_ID);
  w.text(text);
  w.a(MDCHANNEL_DEVICE_ID);
  w.a(32), w.a(32);
  w.v(opt | (sx_u("high", 5) << 3), MDCHANNEL_OPT_FIELDS);
  if (opt & 1) w.a(32);
  else if (opt & 2) {
    w.a(24);
    w.v(n1, 8);
    for (int i = 0; i < n1; i++) w.a(8);
    w.v(n2, 8);
    for (int i = 0; i < n2; i++) w.a(24);
  }
  if (n1) { w.v(sx_u("rate", 31) + 1, 32); w.a(32); }
  else w.v(0, 32);
  if (opt & 4) w.a(24);
  w.v(verts, MDCHANNEL_VERT_COUNT);
  for (int i = 0; i < verts; i++) w.a(MDCHANNEL_VERT);
  w.v(bands, MDCHANNEL_BANDS_COUNT);
}
static void readChannels() {
  std::ifstream f("h.bin", std::ios::in | std::ios::binary);
  std::vector<bool> un;
  Perception p;
  if (IOBinary::readChannelsHeader(p, f, un)) walk(p);
}
ENTRY(b06_channels) {
  W w;
  int n = sx_choice("channels", 3);
  w.v(n, MDPERCE_CHANNEL_COUNT);
  for (int i = 0; i < n; i++) {
    if (i) channel(w, 6, 0, 1, 0, 0, 1);
    else if (n == 1) {
      int o = sx_choice("options", 8);
      channel(w, o, sx_choice("text", 2), (o & 3) == 2 ? sx_choice("parts", 3) : 0, (o & 3) == 2 ? sx_choice("targets", 3) : 0, 1, 1);
    } else channel(w, 0, 1, 0, 0, sx_choice("vertices", 3), sx_choice("bands", 3));
  }
  w.file();
  readChannels();
  sx_cover("end");
}
static void load() {
  Haptics h;
  if (IOBinary::loadFile("h.bin", h)) walk(h);
}
static void fileStart(W &w, int text) {
  w.text(text), w.text(text);
  w.a(LEVEL);
  w.text(0), w.text(text);
}
static void avatar(W &w, bool custom) {
  w.a(AVATAR_ID), w.a(AVATAR_LOD);
  if (custom) { w.v((uint64_t)AvatarType::Custom, AVATAR_TYPE); w.text(1); }
  else { uint64_t t = sx_u("avatar", 8); sx_assume(t != (uint64_t)AvatarType::Custom); w.v(t, AVATAR_TYPE); }
}
static void perceptionStart(W &w) { w.a(8), w.a(8), w.text(1), w.a(8), w.a(8), w.a(8); }
ENTRY(b06_file) {
  W w;
  int t = sx_choice("type", 6), shape = sx_choice("shape", 4), n = sx_choice("effects", 2);
  fileStart(w, 1);
  w.v(1, MDEXP_AVATAR_COUNT);
  avatar(w, sx_choice("custom", 2));
  int perceptions = shape == 3 ? 2 : shape > 0;
  w.v(perceptions, MDEXP_PERC_COUNT);
  for (int i = 0; i < perceptions; i++) {
    perceptionStart(w);
    w.v(0, MDPERCE_LIBRARY_COUNT);
    w.v(0, MDPERCE_REFDEVICE_COUNT);
    int ch = shape > 1 && i == 0;
    w.v(ch, MDPERCE_CHANNEL_COUNT);
    if (ch) channel(w, 0, 0, 0, 0, 0, 1);
  }
  if (shape > 1) {
    bandHeader(w, t, n);
    for (int i = 0; i < n; i++) effect(w, t, 0, 1, true);
  }
  w.file();
  load();
  sx_cover("end");
}
ENTRY(b06_counts) {
  W w;
  int what = sx_choice("what", 19), present = sx_choice("present", 2);
  const int N = what < 11 ? 300 : 255;
  int have = present ? N : 2;
  auto tail = [&](int n, int bits) { for (int i = 0; i < n; i++) w.v(i & 1, bits); };
  if (what < 8) {
    static const int T[] = {0, 0, 1, 2, 3, 3, 0, 3};
    int t = T[what];
    w.v(t, MDBAND_BAND_TYPE);
    if (t == 1) w.a(MDBAND_CURVE_TYPE);
    if (t == 3) w.v(5, MDBAND_BLK_LEN);
    w.a(16), w.a(16);
    bool effects = what == 0 || what == 5;
    w.v(effects ? N : 1, MDBAND_EFFECT_COUNT);
    if (what == 0) for (int i = 0; i < have; i++) w.v(1, EFFECT_TYPE), w.v(i, EFFECT_POSITION), w.v(i, EFFECT_ID);
    else if (what == 5) for (int i = 0; i < have; i++) w.v(0, EFFECT_TYPE), w.v(0, 16);
    else if (what >= 6) {
      w.v(2, EFFECT_TYPE), w.a(EFFECT_POSITION), w.v(N, EFFECT_TIMELINE_COUNT);
      for (int i = 0; i < have; i++) w.v(1, EFFECT_TYPE), w.v(i, EFFECT_POSITION), w.v(i, EFFECT_ID);
    } else {
      w.v(0, EFFECT_TYPE);
      if (t != 3) w.a(EFFECT_POSITION);
      if (t == 2) w.a(16), w.a(4);
      w.v(N, 16);
      for (int i = 0; i < have; i++) {
        if (t == 0) w.v(i, 8), w.v(i, 16), w.v(i, 16);
        else if (t == 1) w.v(i, 8), w.v(i, 16);
        else if (t == 2) w.v(0, KEYFRAME_MASK), w.v(i, 16);
        else w.v(i, 8);
      }
    }
    w.file(false);
    readBand();
  } else if (what < 11) {
    bool verts = what == 8;
    if (verts) {
      w.v(1, MDPERCE_CHANNEL_COUNT);
      w.a(MDCHANNEL_ID), w.text(0), w.a(8), w.a(32), w.a(32), w.v(0, 8), w.v(0, 32);
      w.v(N, MDCHANNEL_VERT_COUNT);
      for (int i = 0; i < have; i++) w.v(i, MDCHANNEL_VERT);
      if (present) w.v(1, MDCHANNEL_BANDS_COUNT);
      w.file(false);
      readChannels();
    } else {
      w.v(what == 9 ? N : 1, MDPERCE_LIBRARY_COUNT);
      for (int i = 0; i < (what == 9 ? have : 1); i++) {
        w.v(i, EFFECT_ID), w.v(i, EFFECT_POSITION), w.v(1, EFFECT_TYPE);
        w.v(what == 10 ? N : 0, EFFECT_KEYFRAME_COUNT);
        if (what == 10) for (int k = 0; k < have; k++) w.v(1, KEYFRAME_MASK), w.v(k, 16);
        if (what == 9 || present) w.v(0, EFFECT_TIMELINE_COUNT);
      }
      w.file(false);
      std::ifstream f("h.bin", std::ios::in | std::ios::binary);
      std::vector<bool> un;
      Perception p;
      if (IOBinary::readLibrary(p, f, un)) walk(p);
    }
  } else if (what < 15) { // targets, vectors, bands, channel text
    w.v(1, MDPERCE_CHANNEL_COUNT);
    w.a(MDCHANNEL_ID);
    if (what == 11) { w.v(N, 8), tail(have, 8); if (!present) goto done; } else w.text(0);
    w.a(8), w.a(32), w.a(32), w.v(what < 14 ? 2 : 0, 8);
    if (what < 14) {
      w.a(24);
      w.v(what == 12 ? N : 0, 8);
      if (what == 12) { tail(have, 8); if (!present) goto done; }
      w.v(what == 13 ? N : 0, 8);
      if (what == 13) { tail(have, 24); if (!present) goto done; }
    }
    w.v(0, 32);
    w.v(0, MDCHANNEL_VERT_COUNT);
    w.v(what == 14 ? N : 0, MDCHANNEL_BANDS_COUNT);
  done:
    w.file(false);
    readChannels();
  } else { // avatars, perceptions, devices, long text
    if (what == 18) { w.v(N, 8), tail(have, 8); if (present) w.text(0), w.a(8), w.text(0), w.text(0), w.v(0, 16); }
    else {
      fileStart(w, 0);
      w.v(what == 15 ? N : 0, MDEXP_AVATAR_COUNT);
      if (what == 15) for (int i = 0; i < have; i++) w.v(i, AVATAR_ID), w.v(1, AVATAR_LOD), w.v(i % 3, AVATAR_TYPE), w.v(0, i % 3 == 0 ? 8 : 0);
      int np = what == 16 ? N : 1;
      if (present || what != 15) w.v(np, MDEXP_PERC_COUNT);
      for (int i = 0; i < (what == 16 ? have : present || what != 15 ? 1 : 0); i++) {
        w.v(i, 8), w.v(i, 8), w.text(0), w.v(i, 24), w.v(0, MDPERCE_LIBRARY_COUNT);
        w.v(what == 17 ? N : 0, MDPERCE_REFDEVICE_COUNT);
        if (what == 17) for (int k = 0; k < have; k++) w.v(k, REFDEV_ID), w.v(0, 8), w.v(k, 32), w.v(0, REFDEV_OPT_FIELDS);
        w.v(0, MDPERCE_CHANNEL_COUNT);
      }
    }
    w.file(false);
    load();
  }
  sx_cover("end");
}
ENTRY(b06_raw) {
  int n = 1 + sx_choice("bytes", 5);
  unsigned char d[8];
  uint64_t x = sx_u("data", 8 * n);
  for (int i = 0; i < n; i++) d[i] = (unsigned char)(x >> (8 * i));
  sx_file_set("h.bin", d, n);
  std::ifstream f("h.bin", std::ios::in | std::ios::binary);
  std::vector<bool> un;
  int who = sx_choice("reader", 8);
  Effect e;
  Band b;
  // counts of more than two are explored by the other entries
  auto top = [&](int bit, int bits) { uint64_t be = 0; for (int i = 0; i < 8; i++) be = be << 8 | (i < n ? d[i] : 0); sx_assume(((be >> (64 - bit - bits)) & ((1ull << bits) - 1)) <= 2); };
  if (who == 0) sx_assert(IOBinaryPrimitives::readString(f, un).size() == d[0], "a text has the announced length");
  if (who == 1) (void)IOBinaryPrimitives::readVector(f, un);
  if (who == 2) { top(0, 16); IOBinaryBands::readTransientEffect(e, f, un); }
  if (who == 3) { top(0, 16); IOBinaryBands::readCurveEffect(e, f, un); }
  if (who == 4) { top(20, 16); IOBinaryBands::readVectorialEffect(e, f, un); }
  if (who == 5) { top(0, 16); IOBinaryBands::readWaveletEffect(e, f, un); }
  if (who == 6) { sx_assume(n < 5); (void)IOBinaryBands::readBandHeader(b, f, un, 1000); }
  if (who == 7) { top(0, 8); if (n > 4) top(32, 8); Perception p; (void)IOBinary::readReferenceDevices(p, f, un); }
  walk(e);
  sx_cover("end");
}
