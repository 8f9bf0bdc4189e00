// SOURCES TYPES
// ENTRY o01_texts shards=8 bound="one element with 0-2 channels; file description, file name, element and channel descriptions of 0, 1, 2, 31, 32, 33, 40, 63, 64, 65 or 70 bytes (one long at a time), every non-NUL byte" covers=end
// ENTRY o01_values shards=3 bound="0-3 elements of 0-3 channels; every version, gain and 32-bit body part mask" covers=end
// ENTRY o01_header bound="headers of 0-6 arbitrary bytes" covers=ok,bad
// ENTRY o01_reload bound="reading into a description that already holds 1-2 elements" covers=end
// ENTRY o01_short shards=8 bound="every prefix of a file with 2 elements of 2 channels, contents arbitrary except for the counts" covers=ok,bad
// ENTRY o01_haptics shards=4 bound="experiences of 0-2 perceptions with 0-2 channels, every mask and gain, 3 version numbers, descriptions of 0-3 bytes, through an OHM description" covers=end
// ENTRY o01_modality bound="every documented modality text" covers=end
// ASSUME the channel count of an element agrees with its list of channels
#include <sx.h>
#include <sxfile.h>
#include <Tools/include/OHMData.h>
#include <Types/include/Haptics.h>
#include <ctime>
using haptics::tools::OHMData;
typedef OHMData::HapticElementMetadata Elem;
typedef OHMData::HapticChannelMetadata Chan;
static std::string text(const char *n, int len) {
  std::string s;
  for (int i = 0; i < len; i++) {
    char c = (char)sx_u(n, 8);
    sx_assume(c != 0);
    s.push_back(c);
  }
  return s;
}
static std::string cut(const std::string &s, size_t n) { return s.size() <= n ? s : s.substr(0, n); }
static void same(OHMData &a, OHMData &b) {
  sx_assert(b.getHeader() == "OHM ", "the header is kept");
  sx_assert(a.getVersion() == b.getVersion(), "the version is kept");
  sx_assert(cut(a.getDescription(), 32) == b.getDescription(), "the description is kept, cut to 32 bytes");
  sx_assert(a.getHapticElementMetadataSize() == b.getHapticElementMetadataSize(), "the number of elements is kept");
  for (int i = 0; i < (int)a.getHapticElementMetadataSize(); i++) {
    Elem &x = a.getHapticElementMetadataAt(i), &y = b.getHapticElementMetadataAt(i);
    sx_assert(cut(x.elementFilename, 64) == y.elementFilename, "the file name of an element is kept, cut to 64 bytes");
    sx_assert(cut(x.elementDescription, 32) == y.elementDescription, "the description of an element is kept, cut to 32 bytes");
    sx_assert(x.numHapticChannels == y.numHapticChannels && x.channelsMetadata.size() == y.channelsMetadata.size() && (size_t)y.numHapticChannels == y.channelsMetadata.size(), "the number of channels is kept");
    for (size_t j = 0; j < x.channelsMetadata.size(); j++) {
      Chan &p = x.channelsMetadata[j], &q = y.channelsMetadata[j];
      sx_assert(cut(p.channelDescription, 32) == q.channelDescription, "the description of a channel is kept, cut to 32 bytes");
      uint32_t u, v;
      memcpy(&u, &p.gain, 4);
      memcpy(&v, &q.gain, 4);
      sx_assert(u == v, "the gain of a channel is kept exactly");
      sx_assert(p.bodyPartMask == q.bodyPartMask, "the body part mask of a channel is kept");
    }
  }
}
static OHMData start(int len) {
  std::string h = "OHM ", d = text("desc", len);
  return OHMData(h, (short)sx_s("version", 16), d);
}
static Chan chan(int len) {
  Chan c;
  c.channelDescription = text("chan", len);
  c.gain = sx_raw_f32("gain");
  sx_assume(c.gain == c.gain);
  c.bodyPartMask = (OHMData::Body)sx_u("mask", 32);
  return c;
}
static void through(OHMData &d) {
  sx_assert(d.writeFile("f.ohm"), "writing succeeds");
  OHMData r;
  sx_assert(r.loadFile("f.ohm"), "reading succeeds");
  same(d, r);
  OHMData c("f.ohm");
  same(d, c);
}
ENTRY(o01_texts) {
  static const int LEN[11] = {0, 1, 2, 31, 32, 33, 40, 63, 64, 65, 70};
  int which = sx_choice("which", 4), len = LEN[sx_choice("len", 11)], n = sx_choice("n", 3);
  OHMData d = start(which == 0 ? len : 2);
  Elem e;
  e.elementFilename = text("file", which == 1 ? len : 1);
  e.elementDescription = text("elem", which == 2 ? len : 3);
  for (int i = 0; i < n; i++) {
    Chan c = chan(which == 3 ? len : 1);
    e.channelsMetadata.push_back(c);
  }
  e.numHapticChannels = (short)n;
  d.addHapticElementMetadata(e);
  through(d);
  sx_cover("end");
}
ENTRY(o01_values) {
  OHMData d = start(1);
  int n = sx_choice("n", 4), k = sx_choice("k", 4);
  for (int i = 0; i < n; i++) {
    Elem e;
    e.elementDescription = text("elem", 1);
    int m = (k + i) % 4;
    for (int j = 0; j < m; j++) {
      Chan c = chan(0);
      e.channelsMetadata.push_back(c);
    }
    e.numHapticChannels = (short)m;
    d.addHapticElementMetadata(e);
  }
  through(d);
  sx_cover("end");
}
ENTRY(o01_header) {
  int n = sx_choice("n", 7);
  std::string h;
  for (int i = 0; i < n; i++) h.push_back((char)sx_u("h", 8));
  OHMData d = start(1);
  d.setHeader(h);
  sx_assert(d.writeFile("f.ohm"), "writing succeeds");
  OHMData r;
  bool want = n >= 4 && (h[0] == 'O') & (h[1] == 'H') & (h[2] == 'M') & (h[3] == ' ');
  bool ok = r.loadFile("f.ohm");
  sx_assert(ok == want, "a file is accepted exactly when it starts with the header");
  if (ok) sx_cover("ok"); else sx_cover("bad");
}
ENTRY(o01_reload) {
  OHMData d = start(2), r = start(3);
  int n = 1 + sx_choice("n", 2), m = sx_choice("m", 3);
  for (int i = 0; i < m; i++) {
    Elem e;
    e.elementDescription = text("elem", 1);
    d.addHapticElementMetadata(e);
  }
  for (int i = 0; i < n; i++) {
    Elem e;
    e.channelsMetadata.push_back(chan(1));
    e.numHapticChannels = 1;
    r.addHapticElementMetadata(e);
  }
  sx_assert(d.writeFile("f.ohm") && r.loadFile("f.ohm"), "writing and reading succeed");
  same(d, r);
  sx_cover("end");
}
ENTRY(o01_short) {
  const int SIZE = 40 + 2 * (98 + 2 * 40);
  int len = sx_choice("len", SIZE + 1);
  unsigned char buf[SIZE];
  for (int i = 0; i < SIZE; i++) buf[i] = i % 5 == 3 ? 0 : (unsigned char)sx_u("b", 8);
  memcpy(buf, "OHM ", 4);
  buf[6] = 0;
  buf[7] = 2;
  for (int e = 0; e < 2; e++) {
    buf[40 + e * 178 + 96] = 0;
    buf[40 + e * 178 + 97] = 2;
  }
  // texts end in a non-NUL byte
  for (int e = 0; e < 2; e++) {
    int o = 40 + e * 178;
    for (int k : {o + 63, o + 95, o + 98 + 31, o + 138 + 31}) buf[k] = 'x';
  }
  buf[39] = 'x';
  sx_file_set("f.ohm", buf, len);
  OHMData r;
  bool ok = r.loadFile("f.ohm");
  sx_assert(ok == (len >= 4), "a file is accepted exactly when it starts with the header");
  if (ok) sx_cover("ok"); else sx_cover("bad");
}
ENTRY(o01_haptics) {
  using namespace haptics::types;
  Haptics h;
  static const char *V[3] = {"1", "2023", ""};
  int v = sx_choice("version", 3);
  std::string ver = V[v], desc = text("desc", sx_choice("len", 4));
  h.setVersion(ver);
  h.setDescription(desc);
  int n = sx_choice("n", 3), m = sx_choice("m", 3);
  std::string pd[2] = {"Vibration", "Force"};
  for (int i = 0; i < n; i++) {
    Perception p(i, 0, pd[i], PerceptionModality::Other);
    for (int j = 0; j < m; j++) {
      std::string cd = text("chan", 1);
      Channel c(j, cd, sx_f32("gain", -1e9f, 1e9f), 1, (uint32_t)sx_u("mask", 32));
      p.addChannel(c);
    }
    h.addPerception(p);
  }
  std::string file = "x.wav";
  OHMData d = h.extractMetadataToOHM(file);
  through(d);
  sx_assert(d.getVersion() == (v == 0 ? 1 : v == 1 ? 2023 : 0), "the description carries the version number");
  sx_assert((int)d.getHapticElementMetadataSize() == n, "the description has one element per perception");
  for (int i = 0; i < n; i++) sx_assert(d.getHapticElementMetadataAt(i).elementFilename == file, "every element names the file");
  Haptics r;
  r.loadMetadataFromOHM(d);
  sx_assert(r.getVersion() == (v == 0 ? "1" : v == 1 ? "2023" : "0") && r.getDescription() == desc, "version and description are kept");
  sx_assert((int)r.getPerceptionsSize() == n, "one perception per element");
  for (int i = 0; i < n; i++) {
    Perception &p = h.getPerceptionAt(i), &q = r.getPerceptionAt(i);
    sx_assert(q.getId() == i && p.getDescription() == q.getDescription(), "a perception keeps its place and description");
    sx_assert(q.getPerceptionModality() == (i ? PerceptionModality::Force : PerceptionModality::Vibrotactile), "the modality follows the description");
    sx_assert((int)q.getChannelsSize() == m, "a perception keeps its channels");
    for (int j = 0; j < m; j++) {
      Channel &a = p.getChannelAt(j), &b = q.getChannelAt(j);
      sx_assert(b.getId() == j && a.getDescription() == b.getDescription(), "a channel keeps its place and description");
      sx_assert((a.getGain() == b.getGain()) & (a.getBodyPartMask() == b.getBodyPartMask()), "a channel keeps its gain and body part mask");
    }
  }
  sx_cover("end");
}
ENTRY(o01_modality) {
  using namespace haptics::types;
  int k = sx_choice("k", 14);
  auto m = (PerceptionModality)k;
  sx_assert(Perception::convertToModality(perceptionModalityToString.at(m)) == m, "the name of a modality is recognised");
  sx_cover("end");
}
