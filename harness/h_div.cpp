#include "vf.hpp"
// ---- C33.  P = shape*1000 + position*10 + bytes: `bytes` symbolic bytes of the dividend at bit `position`, the rest from the shape
struct Sh { uint64_t nh, nl, dh, dl; };
INL Sh shape(unsigned s) {
  switch (s) {
  case 0: return Sh{0xDEADBEEF12345678ull, 0x9ABCDEF013579BDFull, 0, 10};
  case 1: return Sh{0xDEADBEEF12345678ull, 0x9ABCDEF013579BDFull, 0, 0xFFFFFFFFull};
  case 2: return Sh{0xDEADBEEF12345678ull, 0x9ABCDEF013579BDFull, 0, 0x100000000ull};
  case 3: return Sh{0xDEADBEEF12345678ull, 0x9ABCDEF013579BDFull, 0, 0x123456789ABCDEFull};
  case 4: return Sh{0x8000000000000000ull, 0, 0, 0xFFFFFFFFFFFFFFFFull};
  case 5: return Sh{0x7FFFFFFF80000000ull, 0, 0x80000000ull, 1};                    // add-back
  case 6: return Sh{0xFFFFFFFFFFFFFFFFull, 0xFFFFFFFF00000000ull, 1, 0};
  case 7: return Sh{0x8000000000000003ull, 0, 0x20000000ull, 0x0000000000000001ull};
  case 8: return Sh{0xFFFFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFFFFFull, 0x7FFFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFFFFFull};
  case 9: return Sh{0x1234567800000000ull, 0, 0x12345678ull, 0x0000000100000000ull};
  case 10: return Sh{0xFFFFFFFE00000000ull, 0, 0xFFFFFFFFull, 0xFFFFFFFFFFFFFFFFull};
  case 11: return Sh{0x1ull, 0, 0, 3};
  default: return Sh{0x8000ull, 0, 1, 0x8000000000000000ull};
  }
}
INL void chk(u128 n, u128 d) {
  uint128_t a = from_u128(n), b = from_u128(d), q = a / b, r = a % b;
  u128 qq = to_u128(q), rr = to_u128(r);
  CHECK(rr < d);
  CHECK(qq * d + rr == n);
  CHECK(qq <= n);
  if (d >> 64) CHECK(qq >> 64 == 0);     // with the two above: no wrap-around
  uint128_t z = a; z /= b; CHECK(z == q); z = a; z %= b; CHECK(z == r);
}
HARNESS(h_divn) {
  Sh s = shape(P / 10000); unsigned pos = P / 10 % 1000, k = P % 10;
  u128 n = u128(s.nh) << 64 | s.nl, d = u128(s.dh) << 64 | s.dl;
  for (unsigned i = 0; i < k; ++i) { n &= ~(u128(255) << (pos + 8 * i)); n |= u128(in[i]) << (pos + 8 * i); }
  chk(n, d);
  COVER(true);
}
// divisor bytes symbolic instead
HARNESS(h_divd) {
  Sh s = shape(P / 10000); unsigned pos = P / 10 % 1000, k = P % 10;
  u128 n = u128(s.nh) << 64 | s.nl, d = u128(s.dh) << 64 | s.dl;
  for (unsigned i = 0; i < k; ++i) { d &= ~(u128(255) << (pos + 8 * i)); d |= u128(in[i]) << (pos + 8 * i); }
  ASSUME(d != 0);
  chk(n, d);
  COVER(true);
}
// both operands free, where the quotient needs no long division.  P: 0 both below 2^64, 1 dividend below divisor, 2 equal, 3 a built-in divisor on either side agrees with the 128-bit one
HARNESS(h_divfree) {
  u128 n = rd128(in), d = rd128(in + 16);
  if (P == 0) { n = uint64_t(n); d = uint64_t(d); ASSUME(d != 0); CHECK(from_u128(n) / from_u128(d) == uint128_t((unsigned long long)(uint64_t(n) / uint64_t(d)))); }
  if (P == 1) { ASSUME(n < d); CHECK(from_u128(n) / from_u128(d) == 0); CHECK(to_u128(from_u128(n) % from_u128(d)) == n); }
  if (P == 2) { ASSUME(n != 0); CHECK(from_u128(n) / from_u128(n) == 1); CHECK(from_u128(n) % from_u128(n) == 0); }
  if (P == 3) { ASSUME(n < 200 && uint32_t(d) > 200); CHECK(from_u128(n) / uint32_t(d) == 0); CHECK(to_u128(from_u128(n) % uint32_t(d)) == n); CHECK(uint32_t(n) / from_u128(d) == 0); CHECK(to_u128(uint32_t(n) % from_u128(d)) == n);
    uint128_t z = from_u128(n); z %= uint64_t(d); CHECK(to_u128(z) == n); z /= uint64_t(d); CHECK(z == 0); }
  COVER(true);
}
