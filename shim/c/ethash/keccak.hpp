// Offline stand-in for ethash's Keccak-256 (original Keccak padding).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>

namespace ethash {

union hash256 {
  uint64_t word64s[4];
  uint32_t word32s[8];
  uint8_t bytes[32];
  char str[32];
};

namespace shim {
inline uint64_t rol(uint64_t x, unsigned n) { return n == 0 ? x : (x << n) | (x >> (64 - n)); }
inline void keccakf(uint64_t s[25]) {
  static const unsigned rot[25] = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
  uint64_t lfsr = 1;
  auto rcbit = [&]() {
    bool r = lfsr & 1;
    lfsr = (lfsr & 0x80) ? ((lfsr << 1) ^ 0x171) & 0xff : lfsr << 1;
    return r;
  };
  for (int round = 0; round < 24; ++round) {
    uint64_t c[5], d[5], b[25];
    for (int x = 0; x < 5; ++x) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
    for (int x = 0; x < 5; ++x) d[x] = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
    for (int i = 0; i < 25; ++i) s[i] ^= d[i % 5];
    for (int x = 0; x < 5; ++x)
      for (int y = 0; y < 5; ++y) b[y + 5 * ((2 * x + 3 * y) % 5)] = rol(s[x + 5 * y], rot[x + 5 * y]);
    for (int x = 0; x < 5; ++x)
      for (int y = 0; y < 5; ++y) s[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
    uint64_t rc = 0;
    for (int j = 0; j < 7; ++j)
      if (rcbit()) rc |= uint64_t{1} << ((1u << j) - 1);
    s[0] ^= rc;
  }
}
}  // namespace shim

inline hash256 keccak256(const uint8_t* data, size_t size) noexcept {
  uint64_t s[25] = {};
  auto* b = reinterpret_cast<uint8_t*>(s);  // little-endian hosts only
  while (size >= 136) {
    for (size_t i = 0; i < 136; ++i) b[i] ^= data[i];
    shim::keccakf(s);
    data += 136;
    size -= 136;
  }
  for (size_t i = 0; i < size; ++i) b[i] ^= data[i];
  b[size] ^= 0x01;
  b[135] ^= 0x80;
  shim::keccakf(s);
  hash256 h;
  std::memcpy(h.bytes, s, 32);
  return h;
}

}  // namespace ethash
