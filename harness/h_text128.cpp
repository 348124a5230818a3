#include "vf.hpp"
typedef uint128_t::format F;
// ---- C34: reading.  P = format*100 + length (format: 0 decimal, 1 octal, 2 hexadecimal)
template <class C> INL void rd_text(const uint8_t* in, unsigned P) {
  unsigned f = P / 100, n = P % 100, base = f == 0 ? 10 : f == 1 ? 8 : 16;
  std::basic_string<C> s(n, C('0'));
  uint128_t v = 0; bool ok = n > 0;
  for (unsigned i = 0; i < n; ++i) {
    unsigned ch = in[i]; s[i] = C(in[i]); if (sizeof(C) == 1) ch &= 0xff;
    unsigned d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : 99;
    if (d >= base) { ok = false; d = 0; }
    // fits: v * base + d < 2^128
    u128 hi = u128(v.upper()) * base + (u128(v.lower()) * base >> 64);
    if (hi >> 64 || (uint64_t(hi) == ~uint64_t(0) && uint64_t(v.lower() * base) > ~uint64_t(0) - d)) ok = false;
    if (ok) v = v * uint128_t((unsigned long long) base) + uint128_t((unsigned long long) d);
  }
  auto r = uint128_t::from_string(s, F(f));
  CHECK(bool(r) == ok);
  if (r && ok) CHECK(r.value() == v);
  COVER(ok || n == 0);
  COVER(!ok);
}
HARNESS(h_rdtext) { rd_text<char>(in, P); }
HARNESS(h_rdwide) { rd_text<wchar_t>(in, P); }
HARNESS(h_rd16) { rd_text<char16_t>(in, P); }
// fixed leading digits (the largest value's), then symbolic ones: the overflow boundary.  P = format*100 + number of symbolic digits
HARNESS(h_rdedge) {
  unsigned f = P / 100, n = P % 100, base = f == 0 ? 10 : f == 1 ? 8 : 16;
  const char* m = f == 0 ? "340282366920938463463374607431768211455" : f == 1 ? "3777777777777777777777777777777777777777777" : "ffffffffffffffffffffffffffffffff";
  std::string s(m); unsigned len = unsigned(s.size()); unsigned char less = 0, more = 0;
  u128 v = 0;
  for (unsigned i = 0; i < len; ++i) {
    unsigned d = m[i] <= '9' ? m[i] - '0' : m[i] - 'a' + 10, x = d;
    if (i >= len - n) { x = in[i - (len - n)]; ASSUME(x < base); s[i] = char(x < 10 ? '0' + x : 'A' + (x - 10)); }
    if (!less && !more) { less = x < d; more = x > d; }
    v = v * base + x;
  }
  auto r = uint128_t::from_string(s, F(f));
  CHECK(bool(r) == !more);
  if (r) { CHECK(r.value().upper() == uint64_t(v >> 64)); CHECK(r.value().lower() == uint64_t(v)); }
  s += '0'; CHECK(!uint128_t::from_string(s, F(f)));
  COVER(less);
}
// ---- writing, decimal.  P = pattern*1000 + position*10 + k: k symbolic bytes at `position` in a fixed value
HARNESS(h_wrtext) {
  unsigned pat = P / 10000, sh = P / 10 % 1000, k = P % 10;
  u128 v = pat == 0 ? (u128(0xDEADBEEF12345678ull) << 64 | 0x9ABCDEF013579BDFull) : pat == 1 ? ~u128(0) : pat == 2 ? u128(1) << 64 : pat == 3 ? u128(10000000000000000000ull) * 10000000000000000000ull : pat == 4 ? u128(0) : u128(10000000000000000000ull) * 100;
  for (unsigned i = 0; i < k; ++i) { v &= ~(u128(255) << (sh + 8 * i)); v |= u128(in[i]) << (sh + 8 * i); }
  std::string s = from_u128(v).to_string();
  unsigned n = unsigned(s.size());
  CHECK(n >= 1 && n <= 39);
  CHECK(s[0] != '0' || n == 1);
  u128 t = 0; bool good = true;
  for (unsigned i = 0; i < 39; ++i) if (i < n) {
    unsigned d = (unsigned char) s[i] - unsigned('0');
    if (d > 9) good = false;
    t = t * 10 + d;
  }
  CHECK(good); CHECK(t == v);
  COVER(true);
}
// hex and octal: every 128-bit value; digit positions follow the top bit.  P = format*1000 + number of bits
HARNESS(h_wrpow) {
  unsigned f = P / 1000, bits = P % 1000, w = f == 1 ? 3 : 4, n = bits == 0 ? 1 : (bits + w - 1) / w;
  u128 v = rd128(in); if (bits < 128) v &= (u128(1) << bits) - 1; if (bits) v |= u128(1) << (bits - 1);
  std::string s = from_u128(v).to_string(F(f));
  CHECK(s.size() == n);
  bool same = s.size() == n;
  if (same) for (unsigned i = 0; i < n; ++i) { unsigned d = unsigned(v >> (w * (n - 1 - i))) & ((1u << w) - 1); if (s[i] != char(d < 10 ? '0' + d : 'a' + (d - 10))) same = false; }
  CHECK(same);
  COVER(v != 0 || bits == 0);
}
HARNESS(h_wrwide) {   // every string type carries the same characters
  F f = F(P % 10); uint128_t v = (unsigned long long)((f == F::octal ? 020000000000u : f == F::hexadecimal ? 0x10000000u : 100000000u) + (rd32(in) & 0xffffff));
  std::string s = v.to_string(f); bool same = true; CHECK(std::to_string(v) == v.to_string());
  if (P / 10 == 0) { auto w = v.to_wstring(f); CHECK(w.size() == s.size()); for (size_t i = 0; i < 22; ++i) if (i < s.size() && w[i] != wchar_t(s[i])) same = false; }
  if (P / 10 == 1) { auto w = v.to_u16string(f); CHECK(w.size() == s.size()); for (size_t i = 0; i < 22; ++i) if (i < s.size() && w[i] != char16_t(s[i])) same = false; }
  if (P / 10 == 2) { auto w = v.to_u32string(f); CHECK(w.size() == s.size()); for (size_t i = 0; i < 22; ++i) if (i < s.size() && w[i] != char32_t(s[i])) same = false; }
#if __cpp_char8_t
  if (P / 10 == 3) { auto w = v.to_u8string(f); CHECK(w.size() == s.size()); for (size_t i = 0; i < 22; ++i) if (i < s.size() && w[i] != char8_t(s[i])) same = false; }
#endif
  CHECK(same); COVER(v.lower() > 100000200);
}
