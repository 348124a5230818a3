#include "vf.hpp"
#include <cstring>
// ---- C35: the floating-point instructions are expanded to bit-vector arithmetic by the executor (engine/fp.py);
// the oracles below use integers only.
static uint64_t dbits(double d) { uint64_t b; std::memcpy(&b, &d, 8); return b; }
static double mkd(uint64_t b) { double d; std::memcpy(&d, &b, 8); return d; }
static uint32_t fbits(float d) { uint32_t b; std::memcpy(&b, &d, 4); return b; }
static float mkf(uint32_t b) { float d; std::memcpy(&d, &b, 4); return d; }

// any double strictly between -1 and 2^128, NaN excluded: truncation toward zero
HARNESS(h_from_double) {
  uint64_t b = rd64(in);
  unsigned e = unsigned(b >> 52) & 0x7ff; bool neg = b >> 63;
  ASSUME(e < (neg ? 1023u : 1023u + 128u));
  u128 m = (b & 0xfffffffffffffull) | 1ull << 52, ref = 0;
  if (e >= 1023) ref = e >= 1075 ? m << (e - 1075) : m >> (1075 - e);
  uint128_t v(mkd(b));
  CHECK(to_u128(v) == ref);
  COVER(e > 1100); COVER(e == 0 && neg); COVER(e == 1030);
}
HARNESS(h_from_float) {
  uint32_t b = rd32(in);
  unsigned e = (b >> 23) & 0xff; bool neg = b >> 31;
  ASSUME(e < (neg ? 127u : 255u));
  u128 m = (b & 0x7fffff) | 1u << 23, ref = 0;
  if (e >= 127) ref = e >= 150 ? m << (e - 150) : m >> (150 - e);
  uint128_t v(mkf(b));
  CHECK(to_u128(v) == ref);
  COVER(e > 200); COVER(e == 0 && neg); COVER(e == 130);
}
// P: number of significant bits of the integer (0..128)
static u128 shaped(const unsigned char* in, unsigned n) {
  u128 v = rd128(in);
  if (n == 0) return 0;
  v &= ~u128(0) >> (128 - n);
  return v | u128(1) << (n - 1);
}
// integer to the nearest double, ties to even; exact when at most 53 bits are significant
HARNESS(h_to_double) {
  u128 v = shaped(in, P);
  uint64_t got = dbits((double) from_u128(v)), ref = 0;
  if (P > 0) {
    uint64_t top; bool up = false;
    if (P <= 53) top = uint64_t(v << (P <= 53 ? 53 - P : 0));
    else {
      unsigned s = P > 53 ? P - 53 : 1; top = uint64_t(v >> s);
      u128 rest = v & ((u128(1) << s) - 1), half = u128(1) << (s - 1);
      up = rest > half || (rest == half && (top & 1));
    }
    ref = (uint64_t(1023 + P - 1) << 52) + (top - (1ull << 52)) + (up ? 1 : 0);
  }
  CHECK(got == ref);
  COVER(P > 54 ? (uint64_t(v) & 1) : true);
}
// integer to float: one of the two floats around it (itself when representable)
HARNESS(h_to_float) {
  u128 v = shaped(in, P);
  uint32_t got = fbits((float) from_u128(v)), lo = 0; bool exact = true;
  if (P > 0) {
    uint32_t top;
    if (P <= 24) top = uint32_t(v << (P <= 24 ? 24 - P : 0));
    else { unsigned s = P > 24 ? P - 24 : 1; top = uint32_t(v >> s); exact = (v & ((u128(1) << s) - 1)) == 0; }
    lo = (uint32_t(127 + P - 1) << 23) + (top - (1u << 23));
  }
  CHECK(got == lo || (!exact && got == lo + 1));
  COVER(P > 25 ? !exact : true);
}
// there and back: an integer with at most 53 significant bits, at any position
HARNESS(h_round) {
  u128 m = rd64(in) >> 11, v = m << P;
  uint128_t x = from_u128(v);
  CHECK(to_u128(uint128_t((double) x)) == v);
  COVER(m >> 52); COVER(m == 1);
}
