// C05: navigation messages are accepted exactly when their check sums (CRC-24Q, GLONASS Hamming code) say so.
#include "vc.h"
#include <cstdint>
#include "utils/crc.cxx"
static const int N = 48;
static uint8_t B[N], C[N];
// CRC-24Q by long division with x^24+x^23+x^18+x^17+x^14+x^11+x^10+x^7+x^6+x^5+x^4+x^3+x+1, one bit at a time
static uint32_t divide(uint32_t crc, uint8_t byte) {
  crc ^= (uint32_t)byte << 16;
  for (int k = 0; k < 8; ++k) { uint32_t top = (crc >> 23) & 1; crc = ((crc << 1) & 0xffffff) ^ ((0u - top) & 0x864cfbu); }
  return crc;
}
template <int LO, int HI> static void crc_lengths() {
  vc_any_bytes(B, N, "buf");
  uint32_t want = 0;
  for (int n = 0; n <= HI; ++n) {
    if (n >= LO) ENSURES(mc::utils::crc24(B, n) == want, "CRC-24Q is the remainder of the polynomial division");
    if (n < N) want = divide(want, B[n]);
  }
}
CONTRACT(crc_0_to_24, "") { crc_lengths<0, 24>(); }
CONTRACT(crc_25_to_32, "") { crc_lengths<25, 32>(); }
CONTRACT(crc_33_to_40, "") { crc_lengths<33, 40>(); }
CONTRACT(crc_41_to_48, "") { crc_lengths<41, 48>(); }

// GLONASS: bit 85 is transmitted first.  Bits 9..85 take the Hamming positions 3,5,6,7,9,... which are not powers of
// two; bits 1..7 are the check bits of the seven position bits; bit 8 makes the parity of the whole string even.
static unsigned gbit(const uint8_t* b, int k) { int i = 85 - k; return (b[i / 8] >> (7 - i % 8)) & 1; }
static void checks(const uint8_t* b, unsigned* c) {
  for (int k = 0; k < 8; ++k) c[k] = 0;
  int pos = 3;
  for (int i = 9; i <= 85; ++i) {
    while ((pos & (pos - 1)) == 0) ++pos;
    for (int k = 0; k < 7; ++k) if (pos >> k & 1) c[k] ^= gbit(b, i);
    ++pos;
  }
  for (int k = 0; k < 7; ++k) c[k] ^= gbit(b, k + 1);
  for (int i = 1; i <= 85; ++i) c[7] ^= gbit(b, i);
}
CONTRACT(glonass_accepts, "") {
  vc_any_bytes(B, 11, "buf");
  unsigned c[8]; checks(B, c);
  unsigned n = c[0] + c[1] + c[2] + c[3] + c[4] + c[5] + c[6];
  ENSURES(mc::utils::gloTest(B) == ((n == 0 && c[7] == 0) || (n == 1 && c[7] == 1)), "a GLONASS string is accepted iff its checks hold or a single check bit is wrong");
}
CONTRACT(glonass_detects, "") {
  vc_any_bytes(B, 11, "buf");
  unsigned c[8]; checks(B, c);
  for (int k = 0; k < 8; ++k) REQUIRES(c[k] == 0);
  int i = vc::in32("i", 1, 85), j = vc::in32("j", 1, 85);
  for (int k = 0; k < 11; ++k) C[k] = B[k];
  for (int k = 1; k <= 85; ++k) { int q = 85 - k; C[q / 8] ^= (uint8_t)(((k == i) ^ (k == j)) << (7 - q % 8)); }
  ENSURES(mc::utils::gloTest(C) == (i == j), "every double error is rejected");
}
CONTRACT(glonass_detects_one, "") {
  vc_any_bytes(B, 11, "buf");
  unsigned c[8]; checks(B, c);
  for (int k = 0; k < 8; ++k) REQUIRES(c[k] == 0);
  int i = vc::in32("i", 9, 85);
  for (int k = 0; k < 11; ++k) C[k] = B[k];
  for (int k = 1; k <= 85; ++k) { int q = 85 - k; C[q / 8] ^= (uint8_t)((k == i) << (7 - q % 8)); }
  ENSURES(!mc::utils::gloTest(C), "every single error of a data bit is rejected");
}
