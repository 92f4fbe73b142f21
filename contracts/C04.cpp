// C04: bit fields of navigation messages are read and written most significant bit first, at every
// position and width, touching no other bit.
//@ flags: -include type_traits -include cstddef
#include "vc.h"
#include <cstddef>
#include <type_traits>
#include <utility>
#include "common/ephemeris/bit_tools.h"
using namespace mc::ephemeris;
static const int N = 40;
static uint8_t B[N];
// bit k of a message, the most significant bit of the first byte being bit 0
static inline unsigned bit(const uint8_t* b, int k) { return (b[k / 8] >> (7 - k % 8)) & 1; }
// a field of `len` bits at `pos` as an unsigned number
static inline uint64_t field(const uint8_t* b, int pos, int len) {
  // 9 whole bytes starting at pos/8, then shifted down
  unsigned __int128 v = 0;
  for (int i = 0; i < 9; ++i) { int k = pos / 8 + i; v = (v << 8) | (k < N ? b[k] : 0); }
  v >>= 72 - pos % 8 - len;
  return (uint64_t)(v & (((unsigned __int128)1 << len) - 1));
}
static inline int64_t signed_field(const uint8_t* b, int pos, int len) {
  uint64_t u = field(b, pos, len);
  return (int64_t)(u << (64 - len)) >> (64 - len);
}
template <int L> void get_one() {
  int pos = vc::in32("pos", 0, N * 8 - L);
  ENSURES((uint64_t)getBit<L>(B, pos) == field(B, pos, L), "unsigned field");
  ENSURES(((int64_t)getBit<L, Signed>(B, pos)) == signed_field(B, pos, L), "two's complement field");
}
template <int L> void set_one() {
  int pos = vc::in32("pos", 0, N * 8 - L);
  unsigned data = vc::any<uint32_t>("data");
  uint8_t C[N];
  for (int i = 0; i < N; ++i) C[i] = B[i];
  setBit<L>(C, pos, data);
  int k = vc::in32("k", 0, N * 8 - 1);
  unsigned want = (k >= pos && k < pos + L) ? (unsigned)(((uint64_t)data >> (pos + L - 1 - k)) & 1) : bit(B, k);
  ENSURES(bit(C, k) == want, "exactly the bits of the field change, to the value");
  ENSURES((uint64_t)getBit<L>(C, pos) == ((uint64_t)data & (((uint64_t)1 << L) - 1)), "reading back gives what was written");
}
#define GET(L) CONTRACT(get##L, "") { vc_any_bytes(B, N, "buf"); get_one<L>(); }
#define SET(L) CONTRACT(set##L, "") { vc_any_bytes(B, N, "buf"); set_one<L>(); }
GET(1) GET(2) GET(3) GET(4) GET(5) GET(6) GET(7) GET(8) GET(9) GET(10) GET(11) GET(12) GET(13) GET(14) GET(15) GET(16)
GET(17)
GET(18)
GET(19)
GET(20)
GET(21)
GET(22)
GET(23)
GET(24)
GET(25)
GET(26)
GET(27)
GET(28)
GET(29)
GET(30)
GET(31)
GET(32)
GET(40)
GET(48)
GET(55)
GET(56)
SET(1)
SET(2)
SET(3)
SET(4)
SET(5)
SET(6)
SET(7)
SET(8)
SET(9)
SET(10)
SET(11)
SET(12)
SET(13)
SET(14)
SET(15)
SET(16)
SET(17)
SET(18)
SET(19)
SET(20)
SET(21)
SET(22)
SET(23)
SET(24)
SET(25)
SET(26)
SET(27)
SET(28)
SET(29)
SET(30)
SET(31)
SET(32)
CONTRACT(get_run_time_length, "") {
  vc_any_bytes(B, N, "buf");
  int len = vc::in32("len", 1, 32), pos = vc::in32("pos", 0, N * 8 - 32);
  ENSURES((uint64_t)getBit<Unsigned>(B, pos, len) == field(B, pos, len), "unsigned field of run-time length");
  ENSURES((int64_t)getBit<Signed>(B, pos, len) == signed_field(B, pos, len), "two's complement field of run-time length");
}
CONTRACT(set_run_time_length, "") {
  vc_any_bytes(B, N, "buf");
  int len = vc::in32("len", 1, 32), pos = vc::in32("pos", 0, N * 8 - 32);
  unsigned data = vc::any<uint32_t>("data");
  uint8_t C[N];
  for (int i = 0; i < N; ++i) C[i] = B[i];
  setBit<Unsigned>(C, pos, data, len);
  int k = vc::in32("k", 0, N * 8 - 1);
  unsigned want = (k >= pos && k < pos + len) ? (unsigned)(((uint64_t)data >> (pos + len - 1 - k)) & 1) : bit(B, k);
  ENSURES(bit(C, k) == want, "exactly the bits of the field change, to the value, at run-time length");
}
// sign and magnitude numbers of GLONASS strings
template <int L> void glo_one() {
  int pos = vc::in32("pos", 0, N * 8 - L);
  double v = getBitGlo<L>(B, pos);
  double m = (double)field(B, pos + 1, L - 1);
  ENSURES(v == (bit(B, pos) ? -m : m), "sign and magnitude field");
}
CONTRACT(glonass, "") { vc_any_bytes(B, N, "buf"); glo_one<5>(); glo_one<11>(); glo_one<22>(); glo_one<24>(); glo_one<27>(); glo_one<32>(); }
