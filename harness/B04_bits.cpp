// SOURCES BINARY
// ENTRY b04_file_small bound="file fields of 1-16 bits as used by the format, every value, every start offset 0-7" covers=end
// ENTRY b04_file_wide bound="file fields of 25 and 32 bits, every value, every start offset 0-7" covers=end
// ENTRY b04_file_signed bound="signed file fields of 8, 16 and 32 bits and vectors, every value, every start offset 0-7" covers=end
// ENTRY b04_file_string bound="text of 0-6 arbitrary bytes and of 255, 256 and 300 bytes (the excess is cut), start offsets 0-7" covers=end
// ENTRY b04_stream_uint bound="stream fields of 1-32 bits, every value, start offset 0-9" covers=end
// ENTRY b04_stream_int bound="signed stream fields of 8, 16 and 32 bits, every value, start offsets 0-9" covers=end
// ENTRY b04_stream_string bound="stream text of 0-5 arbitrary bytes, start offsets 0-8" covers=end
// ENTRY b04_bytes bound="byte padding and byte reading of bit sequences of 0-17 arbitrary bits" covers=end
#include "common_bits.h"
#include <bitset>
using haptics::io::IOBinaryPrimitives;

template <int O> static void skip(std::istream &f, std::vector<bool> &un, const std::vector<bool> &pre) {
  if constexpr (O > 0) {
    auto v = IOBinaryPrimitives::readNBits<uint8_t, O>(f, un);
    for (int i = 0; i < O; i++) sx_assert((((v >> (O - 1 - i)) & 1) != 0) == pre[i], "bits before the field are unchanged");
  }
}
template <class T, int N, int O> static void field(T v) {
  std::vector<bool> pre;
  uint64_t p = sx_u("pre", 8), q = sx_u("post", 11);
  for (int i = 0; i < O; i++) pre.push_back((p >> i) & 1);
  std::vector<bool> out = pre;
  IOBinaryPrimitives::writeNBits<T, N>(v, out);
  sx_assert(out.size() == O + N, "a field of N bits takes N bits");
  for (int i = 0; i < 11; i++) out.push_back((q >> i) & 1);
  for (int i = 0; i < O; i++) sx_assert(out[i] == pre[i], "writing does not touch earlier bits");
  bitsToFile(out, "bits.bin");
  sx_assert(out.size() % 8 == 0 && out.size() < O + N + 11 + 8, "padding fills up to the byte only");
  sx_assert(sx_file_size("bits.bin") * 8 == out.size(), "file size");
  std::ifstream f("bits.bin", std::ios::in | std::ios::binary);
  std::vector<bool> un;
  skip<O>(f, un, pre);
  T r = IOBinaryPrimitives::readNBits<T, N>(f, un);
  sx_assert(r == v, "the value read is the value written");
  uint16_t s = IOBinaryPrimitives::readNBits<uint16_t, 11>(f, un);
  for (int i = 0; i < 11; i++) sx_assert(((s >> (10 - i)) & 1) == ((q >> i) & 1), "bits after the field are unchanged");
}
template <class T, int N> static void all(const char *nm) {
  T v = (T)sx_u(nm, N);
  field<T, N, 0>(v); field<T, N, 1>(v); field<T, N, 2>(v); field<T, N, 3>(v);
  field<T, N, 4>(v); field<T, N, 5>(v); field<T, N, 6>(v); field<T, N, 7>(v);
  sx_observe_u(nm, (uint64_t)v);
}
ENTRY(b04_file_small) {
  all<uint8_t, 1>("u1"); all<uint8_t, 2>("u2"); all<uint8_t, 3>("u3"); all<uint8_t, 4>("u4"); all<uint8_t, 5>("u5");
  all<uint8_t, 8>("u8"); all<uint16_t, 12>("u12"); all<uint16_t, 16>("u16"); all<unsigned short, 8>("us8"); all<int, 8>("i8u");
  all<int, 16>("i16u"); all<short, 8>("s8u"); all<uint32_t, 16>("u32_16");
  sx_cover("end");
}
ENTRY(b04_file_wide) {
  all<uint32_t, 25>("u25"); all<int, 25>("i25"); all<uint32_t, 32>("u32");
  sx_cover("end");
}
ENTRY(b04_file_signed) {
  all<int8_t, 8>("s8"); all<int16_t, 16>("s16"); all<short, 16>("sh16"); all<int32_t, 32>("s32"); all<char, 8>("c8");
  for (int o = 0; o < 8; o++) {
    haptics::types::Vector v((int8_t)sx_u("x", 8), (int8_t)sx_u("y", 8), (int8_t)sx_u("z", 8));
    std::vector<bool> out;
    uint8_t p = (uint8_t)sx_u("pv", 8);
    for (int i = 0; i < o; i++) out.push_back((p >> i) & 1);
    IOBinaryPrimitives::writeVector(v, out);
    sx_assert(out.size() == (size_t)o + 24, "a vector takes 24 bits");
    bitsToFile(out, "v.bin");
    std::ifstream f("v.bin", std::ios::in | std::ios::binary);
    std::vector<bool> un;
    for (int i = 0; i < o; i++) { auto b = IOBinaryPrimitives::readNBits<uint8_t, 1>(f, un); sx_assert(b == ((p >> i) & 1), "bits before a vector"); }
    auto r = IOBinaryPrimitives::readVector(f, un);
    sx_assert(r.X == v.X && r.Y == v.Y && r.Z == v.Z, "vector read back");
  }
  sx_cover("end");
}
static void text(int len, int o, int step) {
  std::string s;
  for (int i = 0; i < len; i++) s += (i % step == 0) ? (char)sx_u("ch", 8) : (char)('a' + i % 26);
  std::vector<bool> out;
  uint8_t p = (uint8_t)sx_u("ps", 8);
  for (int i = 0; i < o; i++) out.push_back((p >> i) & 1);
  IOBinaryPrimitives::writeString(s, out);
  size_t keep = s.size() > 255 ? 255 : s.size();
  sx_assert(out.size() == o + 8 + 8 * keep, "a text takes its length byte and its kept bytes");
  uint8_t q = (uint8_t)sx_u("qs", 8);
  IOBinaryPrimitives::writeNBits<uint8_t, 8>(q, out);
  bitsToFile(out, "s.bin");
  std::ifstream f("s.bin", std::ios::in | std::ios::binary);
  std::vector<bool> un;
  for (int i = 0; i < o; i++) { auto b = IOBinaryPrimitives::readNBits<uint8_t, 1>(f, un); sx_assert(b == ((p >> i) & 1), "bits before a text"); }
  std::string r = IOBinaryPrimitives::readString(f, un);
  sx_assert(r.size() == keep, "text length read back");
  for (size_t i = 0; i < keep; i++) sx_assert(r[i] == s[i], "text read back");
  auto z = IOBinaryPrimitives::readNBits<uint8_t, 8>(f, un);
  sx_assert(z == q, "field after a text read back");
}
ENTRY(b04_file_string) {
  for (int o = 0; o < 8; o++)
    for (int l = 0; l <= 6; l++) text(l, o, 1);
  text(127, 3, 16); text(128, 0, 16); text(254, 1, 32); text(255, 5, 32); text(256, 0, 32); text(300, 2, 64);
  sx_cover("end");
}
template <int N> static void su() {
  for (int o = 0; o < 10; o += (N > 16 ? 3 : 1)) {
    uint64_t v = sx_u("v", N), p = sx_u("p", 10), q = sx_u("q", 9);
    std::vector<bool> b;
    for (int i = 0; i < o; i++) b.push_back((p >> i) & 1);
    IOBinaryPrimitives::writeStrBits(std::bitset<N>(v).to_string(), b);
    sx_assert(b.size() == (size_t)o + N, "a stream field of N bits takes N bits");
    for (int i = 0; i < 9; i++) b.push_back((q >> i) & 1);
    int idx = o;
    int r = IOBinaryPrimitives::readUInt(b, idx, N);
    sx_assert(idx == o + N, "the reader advances by the field width");
    sx_assert((uint32_t)r == (uint32_t)v, "stream field read back");
    int r2 = IOBinaryPrimitives::readUInt(b, idx, 9);
    for (int i = 0; i < 9; i++) sx_assert((((uint32_t)r2 >> (8 - i)) & 1) == ((q >> i) & 1), "neighbouring stream field");
  }
}
ENTRY(b04_stream_uint) {
  su<1>(); su<2>(); su<3>(); su<4>(); su<6>(); su<8>(); su<12>(); su<16>(); su<17>(); su<24>(); su<25>(); su<31>(); su<32>();
  sx_cover("end");
}
template <int N> static void si() {
  for (int o = 0; o < 10; o += (N > 16 ? 3 : 1)) {
    int64_t v = sx_s("v", N);
    uint64_t p = sx_u("p", 10), q = sx_u("q", 9);
    std::vector<bool> b;
    for (int i = 0; i < o; i++) b.push_back((p >> i) & 1);
    IOBinaryPrimitives::writeStrBits(std::bitset<N>((uint64_t)v).to_string(), b);
    for (int i = 0; i < 9; i++) b.push_back((q >> i) & 1);
    int idx = o;
    int r = IOBinaryPrimitives::readInt(b, idx, N);
    sx_assert(idx == o + N, "the signed reader advances by the field width");
    sx_assert((int64_t)r == v, "signed stream field read back");
    int r2 = IOBinaryPrimitives::readUInt(b, idx, 9);
    for (int i = 0; i < 9; i++) sx_assert((((uint32_t)r2 >> (8 - i)) & 1) == ((q >> i) & 1), "neighbouring stream field");
  }
}
ENTRY(b04_stream_int) {
  si<8>(); si<16>(); si<32>();
  sx_cover("end");
}
ENTRY(b04_stream_string) {
  for (int o = 0; o <= 8; o++)
    for (int l = 0; l <= 5; l++) {
      std::string s;
      for (int i = 0; i < l; i++) s += (char)sx_u("c", 8);
      std::vector<bool> b;
      uint64_t p = sx_u("p", 10), q = sx_u("q", 8);
      for (int i = 0; i < o; i++) b.push_back((p >> i) & 1);
      for (char c : s) IOBinaryPrimitives::writeStrBits(std::bitset<8>((uint8_t)c).to_string(), b);
      IOBinaryPrimitives::writeStrBits(std::bitset<8>(q).to_string(), b);
      int idx = o;
      std::string r = IOBinaryPrimitives::readString(b, idx, l);
      sx_assert(idx == o + 8 * l, "the text reader advances by the text length");
      sx_assert(r.size() == (size_t)l, "stream text length");
      for (int i = 0; i < l; i++) sx_assert(r[i] == s[i], "stream text read back");
      int z = IOBinaryPrimitives::readUInt(b, idx, 8);
      sx_assert((uint64_t)z == q, "field after a stream text");
    }
  sx_cover("end");
}
ENTRY(b04_bytes) {
  for (int n = 0; n <= 17; n++) {
    std::vector<bool> b;
    uint32_t v = (uint32_t)sx_u("v", 17);
    for (int i = 0; i < n; i++) b.push_back((v >> i) & 1);
    bitsToFile(b, "y.bin");
    sx_assert(b.size() == (size_t)((n + 7) / 8 * 8), "padded to a byte");
    for (int i = 0; i < n; i++) sx_assert(b[i] == (((v >> i) & 1) != 0), "padding keeps the bits");
    for (size_t i = n; i < b.size(); i++) sx_assert(!b[i], "padding is zero");
    std::ifstream f("y.bin", std::ios::in | std::ios::binary);
    std::vector<bool> r;
    IOBinaryPrimitives::readNBytes(f, (int)b.size() / 8, r);
    sx_assert(r.size() == b.size(), "byte reader length");
    for (size_t i = 0; i < b.size() && i < r.size(); i++) sx_assert(r[i] == b[i], "byte reader content");
  }
  sx_cover("end");
}
