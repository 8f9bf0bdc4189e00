#pragma once
#include <sx.h>
#include <sxfile.h>
#include <IOHaptics/include/IOBinaryPrimitives.h>
#include <fstream>
#include <string>
#include <vector>
// pad a bit sequence to bytes, store it as a file with the writer of the code under test
static inline void bitsToFile(std::vector<bool> &bits, const char *name) {
  haptics::io::IOBinaryPrimitives::fillBitset(bits);
  std::ofstream f(name, std::ios::out | std::ios::binary);
  haptics::io::IOBinaryPrimitives::writeBitset(bits, f);
  f.close();
}
