// SOURCES JSON
// ENTRY j02_both shards=2 bound="both directions: every stream of 0-30 significant bits followed by 0-2 zero bytes" covers=empty,zero,nonzero
// ENTRY j02_bytes shards=3 bound="to text: every stream of 0-48 significant bits followed by 0-2 zero bytes" covers=empty,zero,nonzero
// ENTRY j02_text shards=2 bound="every text of 0-4 characters of the base64 alphabet" covers=end
// ENTRY j02_load shards=2 bound="every text of 0-3 alphabet characters loaded as the stream of an effect" covers=end
// ENTRY j02_deep tier=thorough shards=8 timeout=800 bound="every stream of 0-200 significant bits followed by 0-2 zero bytes" covers=empty,zero,nonzero
// ENTRY j02_text_deep tier=thorough shards=8 timeout=800 bound="every text of 0-6 characters of the base64 alphabet" covers=end
#include <sx.h>
#include <string>
#include <vector>
#include <IOHaptics/include/IOJson.h>
using haptics::io::IOJson;
typedef std::vector<unsigned char> Bytes;
static int value(unsigned char c) {   // the documented alphabet
  int r = -1;
  r = (c >= 'A') & (c <= 'Z') ? c - 'A' : r;
  r = (c >= 'a') & (c <= 'z') ? c - 'a' + 26 : r;
  r = (c >= '0') & (c <= '9') ? c - '0' + 52 : r;
  r = c == '+' ? 62 : r;
  r = c == '/' ? 63 : r;
  return r;
}
static int bitOf(const Bytes &b, size_t i) { return i / 8 < b.size() ? (b[i / 8] >> (i % 8)) & 1 : 0; }
// a stream whose last set bit is bit h-1 (none: h = 0)
static void roundtrip(int maxh, bool back) {
  int h = sx_choice("h", maxh + 1), extra = sx_choice("extra", 3);
  int n = (h + 7) / 8 + extra;
  Bytes in;
  for (int i = 0; i < n; i++) {
    int k = h - i * 8;      // significant bits in this byte
    if (k > 8) in.push_back((unsigned char)sx_u("b", 8));
    else if (k <= 0) in.push_back(0);
    else in.push_back((unsigned char)((k > 1 ? sx_u("b", k - 1) : 0) | (1u << (k - 1))));
  }
  if (!n) sx_cover("empty"); else if (!h) sx_cover("zero"); else sx_cover("nonzero");
  Bytes orig = in, bits, text, bits2, out;
  IOJson::bytes2bits(in, bits);
  sx_assert(bits.size() <= (size_t)n * 8, "not more bits than the bytes hold");
  for (int i = 0; i < n * 8; i++) sx_assert((i < (int)bits.size() ? bits[i] : 0) == bitOf(orig, i), "bit i of the stream");
  IOJson::bits2base64(bits, text);
  sx_assert(text.size() == (bits.size() + 5) / 6, "six bits per character");
  for (size_t k = 0; k < text.size(); k++) {
    int v = value(text[k]), want = 0;
    for (int j = 0; j < 6; j++) want |= bitOf(orig, k * 6 + j) << (5 - j);
    sx_assert(v >= 0, "only characters of the alphabet");
    sx_assert(v == want, "character k carries bits 6k..6k+5, first bit highest");
  }
  sx_observe_u("len", text.size());
  for (auto c : text) sx_observe_u("c", c);
  if (!back) return;
  IOJson::base642bits(text, bits2);
  IOJson::bits2bytes(bits2, out);
  sx_assert(out.size() <= (size_t)n, "no byte is added");
  for (int i = 0; i < n; i++) sx_assert((i < (int)out.size() ? out[i] : 0) == orig[i], "byte i comes back");
  sx_observe_u("out", out.size());
}
ENTRY(j02_bytes) { roundtrip(48, false); }
ENTRY(j02_both) { roundtrip(30, true); }
ENTRY(j02_deep) { roundtrip(200, false); }
// a text of n characters of the alphabet whose last set bit is bit h-1
static Bytes alphabet(int n) {
  int h = sx_choice("h", n * 6 + 1);
  Bytes t;
  for (int i = 0; i < n; i++) {
    int k = h - i * 6;
    if (k <= 0) { t.push_back('A'); continue; }
    unsigned char c = (unsigned char)sx_u("c", 8);
    int v = value(c);
    sx_assume(v >= 0);
    if (k <= 6) sx_assume((v & ((1 << (7 - k)) - 1)) == 1 << (6 - k));
    t.push_back(c);
  }
  return t;
}
static void textBits(const Bytes &t, const Bytes &bytes) {
  for (size_t k = 0; k < t.size(); k++) {
    int v = value(t[k]);
    for (int j = 0; j < 6; j++) sx_assert(((v >> (5 - j)) & 1) == bitOf(bytes, k * 6 + j), "bits of character k");
  }
  for (size_t i = t.size() * 6; i < bytes.size() * 8; i++) sx_assert(!bitOf(bytes, i), "no further bits");
}
static void text(int MAXN) {
  int n = sx_choice("n", MAXN + 1);
  Bytes t = alphabet(n), in = t, bits, bytes;
  IOJson::base642bits(in, bits);
  for (auto b : bits) sx_assert(b <= 1, "bits are 0 or 1");
  IOJson::bits2bytes(bits, bytes);
  textBits(t, bytes);
  sx_observe_u("n", bytes.size());
  sx_cover("end");
}
ENTRY(j02_load) {
  int n = sx_choice("n", 4);
  Bytes t = alphabet(n);
  std::string s(t.begin(), t.end());
  rapidjson::Value v(rapidjson::StringRef(s.c_str(), s.size()));
  haptics::types::Effect e;
  sx_assert(IOJson::loadBitstream(v, e), "a text is accepted");
  Bytes b = e.getWaveletBitstream();
  textBits(t, b);
  sx_cover("end");
}
ENTRY(j02_text) { text(4); }
ENTRY(j02_text_deep) { text(6); }
