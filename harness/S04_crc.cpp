// SOURCES STREAM
// ENTRY s04_crc16 shards=8 bound="16-bit checksums of 1-3 packets of 8-40 bits in total, every packet content: verifies unchanged, detects every burst of up to 16 bits at every position" covers=end
// ENTRY s04_crc32 shards=8 bound="32-bit checksums of 1-3 packets of 8-48 bits in total, every packet content: verifies unchanged, detects every burst of up to 32 bits at every position" covers=end
// ENTRY s04_value bound="the checksum of every message of up to 24 bits is the remainder of polynomial division computed bit by bit" covers=end
// ENTRY s04_edge bound="no packets, empty packets, unknown widths, fewer packets than announced" covers=end
#include <sx.h>
#include <IOHaptics/include/IOStream.h>
using haptics::io::IOBinaryPrimitives;
using haptics::io::IOStream;
using haptics::io::MIHSPacketType;
typedef std::vector<bool> Bits;
static const int SPLIT[6][3] = {{8, 0, 0}, {24, 0, 0}, {8, 8, 0}, {16, 8, 0}, {8, 8, 8}, {16, 8, 16}};
static void crc(bool wide) {
  int shape = sx_choice("shape", 6);
  std::vector<Bits> packets;
  int total = 0;
  for (int k = 0; k < 3 && SPLIT[shape][k]; k++) {
    Bits b;
    for (int i = 0; i < SPLIT[shape][k] + (wide && k == 0 ? 8 : 0); i++) b.push_back(sx_bool("m"));
    total += (int)b.size();
    packets.push_back(b);
  }
  int n = wide ? 32 : 16;
  Bits out;
  sx_assert(IOStream::writeCRC(packets, out, wide), "a checksum is computed");
  bool several = packets.size() > 1;
  sx_assert((int)out.size() == n + (several ? 8 : 0), "the checksum has its width, after the packet count when several packets are protected");
  IOStream::CRC c;
  c.nbPackets = 9;
  sx_assert(IOStream::readCRC(out, c, wide ? several ? MIHSPacketType::GlobalCRC32 : MIHSPacketType::CRC32 : several ? MIHSPacketType::GlobalCRC16 : MIHSPacketType::CRC16), "the checksum is read");
  sx_assert(c.nbPackets == packets.size(), "the number of protected packets comes back");
  // any burst: bits [start, start + n) with the first one set; arbitrary error pattern behind it; 0 = none
  int start = sx_choice("start", total + 1) - 1;
  auto damaged = packets;
  if (start >= 0) {
    int at = 0;
    for (auto &p : damaged)
      for (size_t i = 0; i < p.size(); i++, at++)
        if (at == start) p[i] = !p[i];
        else if (at > start && at < start + n) p[i] = p[i] != (bool)sx_bool("e");
  }
  if (sx_choice("extra", 2)) damaged.push_back(Bits(16, true)); // packets after the protected ones
  bool ok = IOStream::checkCRC(damaged, c);
  sx_assert(ok == (start < 0), start < 0 ? "a checksum verifies on unmodified packets" : "a burst not longer than the checksum is detected");
  sx_assert(c.nbPackets == 0, "no checksum stays pending");
  sx_cover("end");
}
ENTRY(s04_crc16) { crc(false); }
ENTRY(s04_crc32) { crc(true); }
ENTRY(s04_value) {
  int wide = sx_choice("wide", 2), len = 1 + sx_choice("len", 24), n = wide ? 32 : 16;
  uint64_t poly = wide ? 2187366103u : 49185u, reg = 0, mask = wide ? 0xffffffffu : 0xffffu;
  Bits m;
  for (int i = 0; i < len; i++) {
    bool b = sx_bool("m");
    m.push_back(b);
    uint64_t top = ((reg >> (n - 1)) & 1) ^ (uint64_t)b;
    reg = ((reg << 1) & mask) ^ (top * poly);
  }
  std::vector<Bits> one = {m};
  Bits out;
  sx_assert(IOStream::writeCRC(one, out, wide), "a checksum is computed");
  for (int i = 0; i < n; i++) sx_assert(out[i] == (bool)(reg >> (n - 1 - i) & 1), "the checksum is the remainder modulo the generator polynomial");
  sx_cover("end");
}
ENTRY(s04_edge) {
  std::vector<Bits> none, empty = {Bits()};
  Bits out;
  int level = sx_choice("level", 4);
  sx_assert(!IOStream::writeCRC(none, out, level), "nothing to protect is refused");
  sx_assert(!IOStream::writeCRC(empty, out, level), "nothing to protect is refused");
  std::vector<Bits> one = {Bits(8, true)};
  sx_assert(IOStream::writeCRC(one, out, level) == (level < 2), "unknown checksum widths are refused");
  IOStream::CRC c;
  c.nbPackets = 2 + sx_choice("n", 3);
  c.value16 = (uint16_t)sx_u("value", 16);
  sx_assert(!IOStream::checkCRC(one, c), "a checksum over missing packets fails");
  sx_assert(c.nbPackets == 0, "no checksum stays pending");
  Bits any;
  for (int i = 0; i < 40; i++) any.push_back(sx_bool("b"));
  static const MIHSPacketType T[3] = {MIHSPacketType::Data, MIHSPacketType::Timing, MIHSPacketType::MetadataBand};
  sx_assert(!IOStream::readCRC(any, c, T[sx_choice("type", 3)]), "other packets are no checksums");
  sx_cover("end");
}
