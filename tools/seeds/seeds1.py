import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
T='common/utctime.cxx common/quantized_time.cxx'
EPH='common/print.cxx common/check.cxx '+T
seed('t01','C01',[('common/utctime.cxx','    else if (nsec >= E9)\n','    else if (nsec > E9)\n')],
 'two times whose nanoseconds add up to exactly one second','the sum is left with a full second of nanoseconds and differs from the same instant in normal form',
'''#include "common/utctime.h"
using namespace mc;
int main() { UTCTime a, b; a.sec = 10; a.nsec = 600000000; b.sec = 5; b.nsec = 400000000; UTCTime c = a + b; UTCTime d; d.sec = 16; d.nsec = 0; return c == d && c.nsec < 1000000000 ? 0 : 1; }
''',T)
seed('t02','C01',[('common/utctime.cxx','''UTCTime& UTCTime::operator-=(double sec_)
{
    nsec = nsec - (int64_t)(sec_ * E9) % E9;''','''UTCTime& UTCTime::operator-=(double sec_)
{
    nsec = nsec - (int64_t)((sec_ - (int64_t)sec_) * E6) * 1000;''')],
 'subtracting in place a duration that is not a whole number of microseconds','nanoseconds below the microsecond are lost by operator-=, so adding the duration back does not return to the start',
'''#include "common/utctime.h"
#include <cmath>
using namespace mc;
int main() { UTCTime a; a.sec = 1000; a.nsec = 500; UTCTime b = a; b -= 0.000000250; UTCTime c = a - 0.000000250; return b == c ? 0 : 1; }
''',T)
seed('t03','C02',[('common/quantized_time.cxx','''bool operator<=(const UTCTime& t, const QuantizedTime& q)
{
    return (t - q).toSec() <= q.resolution_half;''','''bool operator<=(const UTCTime& t, const QuantizedTime& q)
{
    return (q - t).toSec() >= -q.resolution_half / 2;''')],
 'a time between a quarter and a half of a quantum after a quantised time','it is neither less-or-equal nor greater than the quantised time',
'''#include "common/utctime.h"
#include "common/quantized_time.h"
using namespace mc;
int main() { UTCTime a; a.sec = 1000; a.nsec = 0; UTCTime b = a; b.nsec = 40000; auto q = a.quantized(); return (b <= q) && !(b > q) && (b == q) ? 0 : 1; }
''',T)
seed('t04','C03',[('common/utctime.cxx','    int64_t nsec = std::round(1e9 * (sec - std::floor(sec)));','    int64_t nsec = std::floor(1e3 * (sec - std::floor(sec)) + 0.5) * E6;')],
 'a calendar second with a fraction finer than a millisecond','the fraction is rounded to milliseconds',
'''#include "common/utctime.h"
#include <cstdlib>
using namespace mc;
int main() { UTCTime a = UTCTime::fromCalendar(2019, 4, 5, 6, 7, 8.123456789); return std::abs((long)a.nsec - 123456789) < 2 ? 0 : 1; }
''',T)
seed('t05','C04',[('common/ephemeris/bit_tools.h','''typename TypeHelper<Sign, len>::type getBit(const unsigned char *buf, const int pos)
{
    typedef typename TypeHelper<Unsigned, len + 8>::type tempType;''','''typename TypeHelper<Sign, len>::type getBit(const unsigned char *buf, const int pos)
{
    typedef typename TypeHelper<Unsigned, len + 6>::type tempType;''')],
 'a field of 10, 26 or 58 bits that starts in the last bit of a byte','the top bits of the field are shifted out of the accumulator',
'''#include <cstdint>
#include <cstddef>
#include <type_traits>
#include <limits>
#include "common/ephemeris/bit_tools.h"
using namespace mc::ephemeris;
int main() { unsigned char b[8] = {1, 0, 0, 0, 0, 0, 0, 0}; return getBit<10>(b, 7) == 512 && getBit<26>(b, 7) == (1u << 25) ? 0 : 1; }
''')
seed('t06','C05',[('utils/crc.cxx','0x568778' if False else '0xa1c926, 0x3eb631,','0xa1c962, 0x3eb631,')],
 'a message during which the CRC register runs into one particular table entry','the CRC of about one message in ten differs from CRC-24Q, so good messages are rejected',
'''#include "utils/crc.h"
#include <cstdlib>
int main() { srand(1); for (int n = 0; n < 2000; ++n) { unsigned char b[25]; for (auto& x : b) x = rand(); unsigned c = 0;
 for (int i = 0; i < 25; ++i) { c ^= (unsigned)b[i] << 16; for (int k = 0; k < 8; ++k) c = (c & 0x800000 ? (c << 1) ^ 0x864cfb : c << 1) & 0xffffff; }
 if (c != mc::utils::crc24(b, 25)) return 1; } return 0; }
''','utils/crc.cxx')
seed('t07','C05',[('utils/crc.cxx','0x1e, 0x1e, 0x3c, 0x70, 0x20}','0x1e, 0x1e, 0x3c, 0x30, 0x20}')],
 'a GLONASS string in which data bit number 15 is set','such a string fails its check although it is right',
'''#include "utils/crc.h"
#include <cstring>
// the string of all zeros with one data bit set and the check bits that belong to it
static void put(unsigned char* b, int k, unsigned v) { int i = 85 - k; if (v) b[i / 8] |= 0x80 >> (i % 8); }
int main() {
  for (int d = 9; d <= 85; ++d) {
    unsigned char b[12]; memset(b, 0, 12); int pos = 3;
    for (int i = 9; i <= 85; ++i) { while ((pos & (pos - 1)) == 0) ++pos; if (i == d) break; ++pos; }
    put(b, d, 1); int n = 1;
    for (int k = 0; k < 7; ++k) if (pos >> k & 1) { put(b, k + 1, 1); ++n; }
    put(b, 8, n & 1);
    if (!mc::utils::gloTest(b)) return 1;
  }
  return 0; }
''','utils/crc.cxx')
GPSD='''#include <cstdlib>
#include <cstring>
#include "common/ephemeris/gps.h"
using namespace mc; using namespace mc::ephemeris;
static void put(unsigned char* b, int p, int n, unsigned long v) { for (int k = 0; k < n; ++k) { int q = p + k; if (v >> (n - 1 - k) & 1) b[q / 8] |= 0x80 >> (q % 8); } }
'''
seed('t08','C06',[('common/ephemeris/gps.cxx','    af0 = getBit<22, Signed>(buf, 216) * P2_31;','    af0 = getBit<21, Signed>(buf, 217) * P2_31;')],
 'a satellite clock bias beyond half a millisecond','the top bit of the clock bias is taken for its sign',GPSD+'''
int main() { unsigned char b[64] = {0x8b}; put(b, 216, 22, 0x180000); GPSEphemeris e(1); e.frame1(b); return std::abs(e.af0 * 2147483648.0 - 0x180000) < 1e-3 ? 0 : 1; }
''','common/ephemeris/gps.cxx '+EPH)
seed('t09','C06',[('common/ephemeris/gps.cxx','|| iode1 != iode3 ||','|| (iode1 != iode3 && iode3 != iode) ||' if False else '|| (iode1 & 0x7F) != (iode3 & 0x7F) ||')],
 'a change of issue of data that differs in the top bit only while the subframes are collected','parameters of two issues of data are combined into one ephemeris',GPSD+'''
static void words(unsigned char* s, unsigned char* m) { for (int i = 0; i < 10; ++i) { unsigned w = (s[3 * i] << 22) | (s[3 * i + 1] << 14) | (s[3 * i + 2] << 6); memcpy(m + 4 * i, &w, 4); } }
int main() { GPSEphemeris e(1); e.collected_subframes = 0; bool done = false;
  for (int f = 1; f <= 3; ++f) { unsigned char s[64] = {0x8b}, m[64] = {0}; put(s, 43, 3, f); int iode = f == 3 ? 0x95 : 0x15;
    if (f == 1) put(s, 168, 8, iode); if (f == 2) put(s, 48, 8, iode); if (f == 3) put(s, 216, 8, iode);
    words(s, m); done |= e.parse(m, 40); }
  return done ? 1 : 0; }
''','common/ephemeris/gps.cxx '+EPH)
GALD=GPSD.replace('gps.h','galileo.h')
seed('t10','C07',[('common/ephemeris/galileo.cxx','    bgd_e1_e5b = getBit<10, Signed>(buf, 57) * P2_32;','    bgd_e1_e5b = getBit<10>(buf, 57) * P2_32;')],
 'a negative group delay between E1 and E5b','it is decoded as a large positive number',GALD+'''
int main() { unsigned char b[64] = {0}; put(b, 0, 6, 5); put(b, 57, 10, 0x3ff); GalileoEphemeris e(1); e.frame5(b); return std::abs(e.bgd_e1_e5b * 4294967296.0 + 1) < 1e-6 ? 0 : 1; }
''','common/ephemeris/galileo.cxx utils/crc.cxx '+EPH)
seed('t11','C07',[('common/ephemeris/galileo.cxx','|| iod[0] != iod[2] || iod[0] != iod[3])','|| iod[0] != iod[2] || iod[1] != iod[2])')],
 'the clock word received with another issue of data than the orbit words','an ephemeris is made of the orbit of one issue and the clock of another',GALD+'''
#include "utils/crc.h"
#include "common/ephemeris/bit_tools.h"
// a page with the given 128 data bits (in the layout that the decoder reads)
static void page(const unsigned char* w, unsigned char* m) {
  unsigned char b[40] = {0};
  put(b, 128, 1, 1);
  for (int i = 0; i < 14; ++i) put(b, 2 + 8 * i, 8, w[i]);
  for (int i = 14; i < 16; ++i) put(b, 122 + 8 * i, 8, w[i]);
  unsigned char c[26] = {0};
  for (int i = 0; i < 15; ++i) put(c, 4 + 8 * i, 8, b[i]);
  for (int i = 0; i < 11; ++i) { unsigned char x = b[16 + i]; for (int k = 0; k < 8; ++k) { int q = 118 + 8 * i + k; unsigned char& y = c[q / 8]; int bit = 7 - q % 8; y = (y & ~(1 << bit)) | ((x >> (7 - k) & 1) << bit); } }
  unsigned crc = mc::utils::crc24(c, 25);
  put(b, 128 + 82, 24, crc);
  for (int i = 0; i < 8; ++i) for (int j = 0; j < 4; ++j) m[4 * i + j] = b[4 * i + 3 - j];
}
int main() { GalileoEphemeris e(1); e.collected_subframes = 0; bool done = false, ok = false;
  for (int pass = 0; pass < 2; ++pass) for (int t : {2, 3, 4, 5, 0, 1}) { unsigned char w[16] = {0}, m[64] = {0}; put(w, 0, 6, t); int iod = pass == 0 && t == 4 ? 7 : 5;
    if (t >= 1 && t <= 4) put(w, 6, 10, iod); if (t == 4) put(w, 16, 6, 1);
    page(w, m); bool r = e.parse(m, 40); if (pass == 0) done |= r; else ok |= r; }
  return !done && ok ? 0 : 1; }
''','common/ephemeris/galileo.cxx utils/crc.cxx '+EPH)
seed('t12','C08',[('common/ephemeris/glonass.cxx','    int time_mark = (uint16_t)(buf[12] << 8) | buf[13];','    int time_mark = (uint8_t)(buf[12] << 8) | buf[13];')],
 'strings of two frames whose frame numbers differ in the upper byte only','strings of different frames are combined into one ephemeris',
GPSD.replace('gps.h','glonass.h')+'''
#include "utils/crc.h"
int main() { GlonassEphemeris e(1); bool done = false;
  for (int f = 1; f <= 5; ++f) { unsigned char b[16] = {0}, m[16]; put(b, 1, 4, f); put(b, 96, 16, f < 3 ? 0x0105 : 0x0205);
    // check bits: data bit number i takes the i-th Hamming position that is not a power of two
    int c[8] = {0}, n = 0, pos = 3;
    for (int i = 9; i <= 85; ++i) { while ((pos & (pos - 1)) == 0) ++pos; int q = 85 - i; if (b[q / 8] >> (7 - q % 8) & 1) { ++n; for (int k = 0; k < 7; ++k) if (pos >> k & 1) c[k] ^= 1; } ++pos; }
    for (int k = 0; k < 7; ++k) { put(b, 84 - k, 1, c[k]); n += c[k]; } put(b, 77, 1, n & 1);
    if (!mc::utils::gloTest(b)) return 2;
    for (int i = 0; i < 16; ++i) m[i] = b[i / 4 * 4 + 3 - i % 4];
    done |= e.parse(m, 16); }
  return done ? 1 : 0; }
''','common/ephemeris/glonass.cxx utils/crc.cxx '+EPH)
seed('t13','C08',[('common/ephemeris/glonass.cxx','    gamn = getBitGlo<11>(buf, 6) * P2_40;','    gamn = getBit<11, Signed>(buf, 6) * P2_40;')],
 'a negative frequency deviation','sign-and-magnitude is read as two\'s complement',
GPSD.replace('gps.h','glonass.h')+'''
int main() { unsigned char b[16] = {0}; put(b, 6, 11, 0x401); GlonassEphemeris e(1); e.frame3(b); return std::abs(e.gamn * 1099511627776.0 + 1) < 1e-6 ? 0 : 1; }
''','common/ephemeris/glonass.cxx utils/crc.cxx '+EPH)
seed('t14','C09',[('common/circular_buffer.h','            const size_t dest = (static_cast<size_t>(val - buf->buf_) + i) % SIZE;\n            val = buf->buf_ + dest;','            size_t dest = static_cast<size_t>(val - buf->buf_) + i;\n            if (dest > SIZE)\n                dest -= SIZE;\n            val = buf->buf_ + dest;')],
 'advancing an iterator in place by several elements so that it lands exactly on the wrap-around','the iterator is left one past the storage instead of at its start',
'''#include <utility>
#include "common/circular_buffer.h"
#include <new>
using namespace mc;
int main() { CircularBuffer<int, 5> b; for (int i = 0; i < 8; ++i) b.push_back(i); const auto& c = b; int k = 0;
  for (int i = 0; i < 4; ++i) { auto it = c.begin(); it += i; if (*it != 4 + i) return 1; } return 0; }
''')
seed('t15','C09',[('common/circular_buffer.h','    bool empty() const { return head_ == tail_; }','    bool empty() const { return !(head_ < tail_); }'),('common/circular_buffer.h','                return SIZE - (buf->head_.val - val);','                return SIZE - 1 - (buf->head_.val - val) % (SIZE - 1);')],
 'iterators or sizes taken after the contents wrapped around the end of the storage','positions behind the wrap-around are off by one',
'''#include <utility>
#include "common/circular_buffer.h"
#include <new>
using namespace mc;
int main() { CircularBuffer<int, 5> b; for (int i = 0; i < 8; ++i) { b.push_back(i); if ((int)b.size() != (i < 4 ? i + 1 : 4)) return 1; } return 0; }
''')
