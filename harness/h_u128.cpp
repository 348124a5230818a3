#include "vf.hpp"
// ---- C32: P selects the operation
HARNESS(h_arith) {
  u128 a = rd128(in), b = rd128(in + 16);
  uint128_t x = from_u128(a), y = from_u128(b), z = x;
  CHECK(to_u128(x) == a);
  switch (P) {
  case 0: CHECK(to_u128(x + y) == a + b); z += y; CHECK(to_u128(z) == a + b); break;
  case 1: CHECK(to_u128(x - y) == a - b); z -= y; CHECK(to_u128(z) == a - b); break;
  case 2: CHECK(to_u128(-x) == -a); CHECK(to_u128(+x) == a); CHECK(to_u128(~x) == ~a); CHECK(!x == (a == 0)); CHECK(bool(x) == (a != 0)); break;
  case 3: { uint128_t r = ++z; CHECK(to_u128(z) == a + 1 && to_u128(r) == a + 1); r = z++; CHECK(to_u128(r) == a + 1 && to_u128(z) == a + 2);
            r = --z; CHECK(to_u128(z) == a + 1 && to_u128(r) == a + 1); r = z--; CHECK(to_u128(r) == a + 1 && to_u128(z) == a); break; }
  case 4: CHECK(to_u128(x & y) == (a & b)); z &= y; CHECK(to_u128(z) == (a & b)); break;
  case 5: CHECK(to_u128(x | y) == (a | b)); z |= y; CHECK(to_u128(z) == (a | b)); break;
  case 6: CHECK(to_u128(x ^ y) == (a ^ b)); z ^= y; CHECK(to_u128(z) == (a ^ b)); break;
  case 7: CHECK((x == y) == (a == b)); CHECK((x != y) == (a != b)); CHECK((x < y) == (a < b)); CHECK((x <= y) == (a <= b)); CHECK((x > y) == (a > b)); CHECK((x >= y) == (a >= b));
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
          CHECK(((x <=> y) < 0) == (a < b)); CHECK(((x <=> y) > 0) == (a > b)); CHECK(((x <=> y) == 0) == (a == b));
#endif
          CHECK((x && y) == (a && b)); CHECK((x || y) == (a || b)); break;
  case 8: { x.swap(y); CHECK(to_u128(x) == b && to_u128(y) == a); std::swap(x, y); CHECK(to_u128(x) == a && to_u128(y) == b);
            CHECK(x.upper() == uint64_t(a >> 64) && x.lower() == uint64_t(a)); uint128_t c(x); CHECK(to_u128(c) == a); c = y; CHECK(to_u128(c) == b); break; }
  case 9: { CHECK(uint64_t((unsigned long long) x) == uint64_t(a)); CHECK((long long) x == (long long) a); CHECK((unsigned) x == (unsigned) a); CHECK((int) x == (int) a);
            CHECK((unsigned short) x == (unsigned short) a); CHECK((short) x == (short) a); CHECK((unsigned char) x == (unsigned char) a); CHECK((signed char) x == (signed char) a); CHECK((char) x == (char) a);
            CHECK((long) x == (long) a); CHECK((unsigned long) x == (unsigned long) a); break; }
  case 10: { z &= z; CHECK(to_u128(z) == a); z += z; CHECK(to_u128(z) == a + a); z -= z; CHECK(to_u128(z) == 0); z = x; z ^= z; CHECK(to_u128(z) == 0); z = x; z |= z; CHECK(to_u128(z) == a); break; }
  }
  COVER(a > b && uint64_t(a) < uint64_t(b));
}
// multiplication: schoolbook identity over 32-bit limbs is what the solver must check
HARNESS(h_mul) {
  u128 a = rd128(in), b = rd128(in + 16);
  switch (P) {                                   // which halves are free
  case 0: a &= ~uint32_t(0); b &= ~uint32_t(0); break;
  case 1: a &= ~uint64_t(0); b &= 0xffff; break;
  case 2: b &= 0xff; break;
  case 3: a &= 0xff; break;
  case 4: a &= u128(0xff) << 120 | 0xff; b &= u128(0xff) << 60 | 0xff; break;
  case 5: b = u128(1) << (in[16] & 127); break;
  case 6: b = ~u128(0); break;
  case 7: b = 10; break;
  case 8: a &= 0xffff00000000ffffull; b &= 0xff000000ff0000ffull; break;
  }
  uint128_t z = from_u128(a);
  CHECK(to_u128(from_u128(a) * from_u128(b)) == a * b);
  z *= from_u128(b); CHECK(to_u128(z) == a * b);
  COVER(a > 1 && b > 1);
}
// the full 64x64 (and 128x128) product with 32-bit multiplications uninterpreted: the limbs are combined correctly
HARNESS(h_mulfull) {
  uint64_t au = rd64(in), al = rd64(in + 8), bu = rd64(in + 16), bl = rd64(in + 24);
  uint128_t r = uint128_t(au, al) * uint128_t(bu, bl);
  uint32_t a0 = uint32_t(al), a1 = uint32_t(al >> 32), b0 = uint32_t(bl), b1 = uint32_t(bl >> 32);
  uint64_t p00 = uint64_t(a0) * b0, p01 = uint64_t(a0) * b1, p10 = uint64_t(a1) * b0, p11 = uint64_t(a1) * b1;

  u128 lo = u128(p00) + (u128(p01) << 32) + (u128(p10) << 32) + (u128(p11) << 64);
  uint64_t hi = uint64_t(lo >> 64) + (au * bl) + (al * bu);
  CHECK(r.lower() == uint64_t(lo));
  CHECK(r.upper() == hi);
  COVER(r.upper() != 0);
}
template <class S> INL void shifts(const uint8_t* in, unsigned n) {
  u128 a = rd128(in); uint128_t x = from_u128(a), z = x; S s = S(n);
  u128 l = n >= 128 ? u128(0) : a << n, r = n >= 128 ? u128(0) : a >> n;
  CHECK(to_u128(x << s) == l); CHECK(to_u128(x >> s) == r);
  z <<= s; CHECK(to_u128(z) == l); z = x; z >>= s; CHECK(to_u128(z) == r);
}
HARNESS(h_shift) {
  unsigned n = in[16]; ASSUME(n <= 128);
  if (P == 0) shifts<int>(in, n);
  if (P == 1) shifts<unsigned>(in, n);
  if (P == 2) shifts<uint64_t>(in, n);
  if (P == 3) shifts<uint8_t>(in, n);
  if (P == 4) shifts<int64_t>(in, n);
  if (P == 5) { ASSUME(n < 128); shifts<int8_t>(in, n); }
  COVER(n > 64);
  COVER(n > 0 && n < 64);
}
// mixed with a built-in integer, on either side
template <class I> INL void mixed(const uint8_t* in) {
  u128 a = rd128(in); I i = I(rd64(in + 16)); u128 b = u128(i);   // C++ conversion: sign-extends
  uint128_t x = from_u128(a), z = x;
  CHECK(to_u128(uint128_t(i)) == b);
  CHECK(to_u128(x + i) == a + b); CHECK(to_u128(i + x) == a + b); CHECK(to_u128(x - i) == a - b); CHECK(to_u128(i - x) == b - a);
  CHECK(to_u128(x & i) == (a & b)); CHECK(to_u128(i & x) == (a & b)); CHECK(to_u128(x | i) == (a | b)); CHECK(to_u128(i | x) == (a | b)); CHECK(to_u128(x ^ i) == (a ^ b)); CHECK(to_u128(i ^ x) == (a ^ b));
  CHECK((x == i) == (a == b)); CHECK((i == x) == (a == b)); CHECK((x != i) == (a != b)); CHECK((i != x) == (a != b));
  CHECK((x < i) == (a < b)); CHECK((i < x) == (b < a)); CHECK((x <= i) == (a <= b)); CHECK((i <= x) == (b <= a)); CHECK((x > i) == (a > b)); CHECK((i > x) == (b > a)); CHECK((x >= i) == (a >= b)); CHECK((i >= x) == (b >= a));
  z += i; CHECK(to_u128(z) == a + b); z = x; z -= i; CHECK(to_u128(z) == a - b);
  z = x; z |= i; CHECK(to_u128(z) == (a | b)); z = x; z &= i; CHECK(to_u128(z) == (a & b)); z = x; z ^= i; CHECK(to_u128(z) == (a ^ b));
  z = i; CHECK(to_u128(z) == b);
  COVER(a < b);
}
HARNESS(h_mixed) {
  switch (P) {
  case 0: mixed<int>(in); break;
  case 1: mixed<unsigned>(in); break;
  case 2: mixed<long>(in); break;
  case 3: mixed<unsigned long>(in); break;
  case 4: mixed<long long>(in); break;
  case 5: mixed<unsigned long long>(in); break;
  case 6: mixed<short>(in); break;
  case 7: mixed<unsigned short>(in); break;
  }
}
// a * i, i * a against a * uint128_t(i) (the multiplication itself is h_mul's subject)
template <class I> INL void mixmul(const uint8_t* in) {
  uint128_t x = from_u128(rd128(in)), z = x; I i = I(rd64(in + 16)); uint128_t y = from_u128(u128(i));
  uint128_t r = x * y; CHECK(x * i == r); CHECK(i * x == y * x); z *= i; CHECK(z == r);
  COVER(x != y);
}
HARNESS(h_mixmul) { if (P == 0) mixmul<int>(in); if (P == 1) mixmul<uint64_t>(in); if (P == 2) mixmul<short>(in); if (P == 3) mixmul<unsigned>(in); if (P == 4) mixmul<int64_t>(in); }
// equal values, equal hashes; the hash of a copy is the hash
HARNESS(h_hash128) {
  u128 a = rd128(in); uint128_t x = from_u128(a), y = (from_u128(a - 1)) + 1;
  CHECK(x == y); CHECK(x.hash() == y.hash()); CHECK(std::hash<uint128_t>{}(x) == x.hash());
  COVER(a != 0);
}
