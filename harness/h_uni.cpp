// C07: every character type reads the same text alike.  C08: malformed or non-ASCII text.  (C09 reuses both.)
#include "nets.hpp"
#include "ref.hpp"
typedef error_code ec;
#if __cpp_char8_t >= 201811L
typedef char8_t C8;
#else
typedef char C8;
#endif
#ifndef ENT
#define ENT 0
#endif
#if ENT == 0
typedef ipv4_address X;
#elif ENT == 1
typedef ipv6_address X;
#elif ENT == 2
typedef ip_address X;
#elif ENT == 3
typedef ipv4_network X;
#elif ENT == 4
typedef ipv6_network X;
#else
typedef ip_network X;
#endif
#if IPADDRESS_CPP_VERSION >= 17
template <class C> using Text = std::basic_string_view<C>;
#else
template <class C> using Text = std::basic_string<C>;
#endif
static const char* const PAT[6][4] = {
  {"", "1.2.3.", "255.25", "10."}, {"", "1:2:3:4:5:6:", "::ffff:1.2.", "fe80::%"}, {"", "1.2.3.", "::1.2.", "fe80::%"},
  {"", "0.0.0.0/", "1.2.3.4/255.255.255.2", "10.0."}, {"", "::/", "1:2::/", "::%e"}, {"", "0.0.0.0/", "::/1", "::%e/"}};
template <class C> INL unsigned put_pat(unsigned pat, C* out) { const char* s = PAT[ENT][pat]; unsigned k = 0; for (; s[k]; ++k) out[k] = C(s[k]); return k; }
template <class C> INL void via_view(const char* s, unsigned k, ec& c, X& r) {
  C b[48] = {}; for (unsigned i = 0; i < k; ++i) b[i] = C(s[i]);
  r = X::parse(Text<C>(b, k), c);
}
template <class C> INL void via_string(const char* s, unsigned k, ec& c, X& r) {
  C a[48] = {}; for (unsigned i = 0; i < k; ++i) a[i] = C(s[i]);
  std::basic_string<C> b(a, k);
  r = X::parse(b, c);
}
template <class C> INL void via_array(const char* s, unsigned k, ec& c, X& r) {
  C b[48] = {}; for (unsigned i = 0; i < k; ++i) b[i] = C(s[i]);
  r = X::parse(b, c);
}
template <class C, unsigned M> INL void via_exact(const char* s, ec& c, X& r) {   // no slack behind the text
  C b[M + 1] = {}; for (unsigned i = 0; i < M; ++i) b[i] = C(s[i]);
  r = X::parse(b, c);
}
template <class C> INL void via_exacts(const char* s, unsigned k, ec& c, X& r) {
  switch (k) { case 0: return via_exact<C, 0>(s, c, r); case 1: return via_exact<C, 1>(s, c, r); case 3: return via_exact<C, 3>(s, c, r); case 8: return via_exact<C, 8>(s, c, r); default: return via_exact<C, 2>(s, c, r); }
}
// P = pattern*100 + n
typedef void (*way_fn)(const char*, unsigned, ec&, X&);
template <class F> INL void same(const uint8_t* in, unsigned P, bool nul, F f) {
  unsigned n = P % 100; char t[48] = {}; unsigned k = put_pat(P / 100 % 100, t);
  for (unsigned i = 0; i < n; ++i) { ASSUME(in[i] < 128 && (nul || in[i] != 0)); t[k++] = char(in[i]); }
  ec c = ec::invalid_scope_id, d = ec::empty_octet; X r;
  X a = X::parse(Text<char>(t, k), c);
  f(t, k, d, r);
  CHECK(c == d);
  CHECK(a == r);
  COVER(is_ok(c)); COVER(!is_ok(c));
}
#define WAY(n, fn, C) HARNESS(h_same##n) { same(in, P, n < 20, [](const char* s, unsigned k, ec& c, X& r) __attribute__((always_inline)) { fn<C>(s, k, c, r); }); }
#if GRP == 0
WAY(1, via_view, wchar_t)
WAY(2, via_view, C8)
WAY(3, via_view, char16_t)
WAY(4, via_view, char32_t)
WAY(10, via_string, char)
WAY(11, via_string, wchar_t)
WAY(13, via_string, char16_t)
WAY(14, via_string, char32_t)
WAY(20, via_array, char)
WAY(21, via_array, wchar_t)
WAY(22, via_array, C8)
WAY(23, via_array, char16_t)
WAY(24, via_array, char32_t)
#elif GRP == 1
WAY(30, via_exacts, char)
WAY(31, via_exacts, wchar_t)
WAY(32, via_exacts, C8)
#elif GRP == 2
WAY(33, via_exacts, char16_t)
WAY(34, via_exacts, char32_t)
#elif GRP == 3
// one code point of L UTF-8 bytes, after a pattern and before n ASCII characters: the same error in every Unicode encoding
HARNESS(h_sameu) {
  unsigned L = P / 10000, n = P % 100; uint32_t u = rd32(in);
  uint32_t lo = L == 2 ? 0x80 : L == 3 ? 0x800 : 0x10000, hi = L == 2 ? 0x7ff : L == 3 ? 0xffff : 0x10ffff;
  ASSUME(u >= lo && u <= hi && !(u >= 0xd800 && u < 0xe000));
  char t[48] = {}; unsigned k = put_pat(P / 100 % 100, t);
  char32_t w[48] = {}; wchar_t l[48] = {}; char16_t x[48] = {}; C8 z[48] = {};
  unsigned i = 0; for (; i < k; ++i) { w[i] = t[i]; l[i] = t[i]; x[i] = t[i]; z[i] = t[i]; }
  unsigned nw = k, nx = k, nz = k;
  w[nw] = u; l[nw] = wchar_t(u); ++nw;
  if (L == 4) { x[nx++] = char16_t(0xd800 + ((u - 0x10000) >> 10)); x[nx++] = char16_t(0xdc00 + ((u - 0x10000) & 0x3ff)); } else x[nx++] = char16_t(u);
  if (L == 2) z[nz++] = C8(0xc0 | u >> 6); else if (L == 3) { z[nz++] = C8(0xe0 | u >> 12); z[nz++] = C8(0x80 | (u >> 6 & 63)); } else { z[nz++] = C8(0xf0 | u >> 18); z[nz++] = C8(0x80 | (u >> 12 & 63)); z[nz++] = C8(0x80 | (u >> 6 & 63)); }
  z[nz++] = C8(0x80 | (u & 63));
  for (unsigned j = 0; j < n; ++j) { unsigned c = in[4 + j]; ASSUME(c < 128); w[nw] = c; l[nw] = c; ++nw; x[nx++] = char16_t(c); z[nz++] = C8(c); }
  ec c1 = ec::no_error, c2 = c1, c3 = c1, c4 = c1;
  X::parse(Text<char32_t>(w, nw), c1); X::parse(Text<wchar_t>(l, nw), c2); X::parse(Text<char16_t>(x, nx), c3); X::parse(Text<C8>(z, nz), c4);
  CHECK(!is_ok(c1)); CHECK(c1 == c2); CHECK(c1 == c3); CHECK(c1 == c4);
  if (P / 100 % 100 == 0 || (ENT != 1 && ENT != 2 && n == 0 && ENT < 4)) CHECK(c1 == ec::unexpected_symbol);
  COVER(true);
}
#elif GRP == 4
// ---- C08.  what the code units at p[0..n) start with: 0 an ASCII character, 1 a well-formed non-ASCII one, 2 malformed, 3 an error of either name
template <class C> struct Dec;
INL int cont(unsigned b) { return (b & 0xc0) == 0x80; }
template <class C> INL int dec8(const C* p, unsigned n) {
  unsigned a = uint8_t(p[0]);
  if (a < 0x80) return 0;
  if (a < 0xc2 || a >= 0xf8) return 2;
  unsigned need = a < 0xe0 ? 2 : a < 0xf0 ? 3 : 4;
  if (n < need) return 2;
  for (unsigned i = 1; i < 4; ++i) if (i < need && !cont(uint8_t(p[i]))) return 2;
  unsigned b = uint8_t(p[1]);
  if (a == 0xe0 && b < 0xa0) return 2;
  if (a == 0xf0 && b < 0x90) return 2;
  if (a == 0xed && b >= 0xa0) return 3;
  if (a > 0xf4 || (a == 0xf4 && b >= 0x90)) return 3;
  return 1;
}
template <> struct Dec<C8> { static INL int first(const C8* p, unsigned n) { return dec8(p, n); } };
#if __cpp_char8_t >= 201811L
template <> struct Dec<char> { static INL int first(const char* p, unsigned n) { return dec8(p, n); } };
#endif
template <> struct Dec<char16_t> { static INL int first(const char16_t* p, unsigned n) {
  unsigned a = p[0]; if (a < 0x80) return 0;
  if (a < 0xd800 || a >= 0xe000) return 1;
  if (a >= 0xdc00) return 3;
  if (n < 2 || (p[1] & 0xfc00) != 0xdc00) return 2;
  return 1; } };
template <class C> struct Dec32 { static INL int first(const C* p, unsigned) { uint32_t a = uint32_t(p[0]); return a < 0x80 ? 0 : a >= 0xd800 && a < 0xe000 ? 3 : a > 0x10ffff ? 3 : 1; } };
template <> struct Dec<char32_t> : Dec32<char32_t> {};
template <> struct Dec<wchar_t> : Dec32<wchar_t> {};
template <class C> INL void bad(const uint8_t* in, unsigned P) {
  unsigned n = P % 100, pat = P / 100;
  C t[48]; unsigned k = 0; X r;
  ec c = ec::no_error;
  if (pat == 0) { r = X::parse(Text<C>(reinterpret_cast<const C*>(in), n), c); }   // the input object ends right behind the text
  else { k = put_pat(pat, t); for (unsigned i = 0; i < n; ++i) t[k + i] = reinterpret_cast<const C*>(in)[i]; r = X::parse(Text<C>(t, k + n), c); }
  const C* s = reinterpret_cast<const C*>(in);
  bool ascii = true; for (unsigned i = 0; i < n; ++i) if (uint32_t(typename std::make_unsigned<C>::type(s[i])) > 127) ascii = false;
  if (!ascii) CHECK(!is_ok(c));
  if (!is_ok(c)) CHECK(r == X());
  if (n) {
    int d = Dec<C>::first(s, n);
    if (pat == 0 || (ENT == 0 && pat == 1)) {
      if (d == 1) CHECK(c == ec::unexpected_symbol);
      if (d == 2) CHECK(c == ec::wrong_encoding_sequence);
      if (d == 3) CHECK(c == ec::unexpected_symbol || c == ec::wrong_encoding_sequence);
    }
    COVER(d == 1);
  }
  COVER(!ascii || n == 0);
}
#ifndef IPADDRESS_CHAR_IS_UTF8
HARNESS(h_bad8) { bad<C8>(in, P); }
HARNESS(h_bad16) { bad<char16_t>(in, P); }
HARNESS(h_bad32) { bad<char32_t>(in, P); }
HARNESS(h_badw) { bad<wchar_t>(in, P); }
#else
HARNESS(h_badc) { bad<char>(in, P); }
#endif
// the arrays and fixed strings stop at the end of the array
template <class C, unsigned M> INL void badarr(const uint8_t* in) {
  C b[M]; for (unsigned i = 0; i < M; ++i) b[i] = reinterpret_cast<const C*>(in)[i];
  b[M - 1] = C(0);
  ec c = ec::no_error; X r = X::parse(b, c);
  bool ascii = true, end = false; for (unsigned i = 0; i < M; ++i) { if (b[i] == C(0)) end = true; if (!end && uint32_t(typename std::make_unsigned<C>::type(b[i])) > 127) ascii = false; }
  if (!ascii) CHECK(c == ec::unexpected_symbol || c == ec::wrong_encoding_sequence);
  if (!ascii) CHECK(r == X());
  COVER(!ascii || M == 1);
}
HARNESS(h_badarr) {
  switch (P) {
#ifdef IPADDRESS_CHAR_IS_UTF8
    case 100: badarr<char, 1>(in); break; case 102: badarr<char, 2>(in); break; default: badarr<char, 5>(in); break;
#else
    case 1: badarr<C8, 1>(in); break; case 2: badarr<C8, 2>(in); break; case 5: badarr<C8, 5>(in); break;
    case 11: badarr<char16_t, 1>(in); break; case 12: badarr<char16_t, 2>(in); break; case 14: badarr<char16_t, 4>(in); break;
    case 22: badarr<char32_t, 2>(in); break; case 24: badarr<char32_t, 4>(in); break;
    default: badarr<wchar_t, 4>(in); break;
#endif
  }
}
#elif GRP == 5
// ---- C09: nothing but the parse; the input object ends right behind the text (P = pattern*100 + n; pattern 0: the text is the object itself)
template <class C> INL void raw(const uint8_t* in, unsigned P) {
  unsigned n = P % 100, pat = P / 100; ec c = ec::no_error; X r;
  if (pat == 0) r = X::parse(Text<C>(reinterpret_cast<const C*>(in), n), c);
  else { C t[96]; unsigned k = put_pat(pat, t); for (unsigned i = 0; i < n; ++i) t[k + i] = reinterpret_cast<const C*>(in)[i]; r = X::parse(Text<C>(t, k + n), c); }
  vf_out(uint64_t(c)); COVER(!is_ok(c));
}
HARNESS(h_raw) { raw<char>(in, P); }
HARNESS(h_raw8) { raw<C8>(in, P); }
HARNESS(h_raw16) { raw<char16_t>(in, P); }
HARNESS(h_raww) { raw<wchar_t>(in, P); }
// a character array without a terminator, the whole object
template <class C, unsigned M> INL void rawarr(const uint8_t* in) { const C (&b)[M] = *reinterpret_cast<const C (*)[M]>(in); ec c = ec::no_error; X r = X::parse(b, c); vf_out(uint64_t(c)); COVER(!is_ok(c)); }
HARNESS(h_rawarr) { switch (P) { case 1: rawarr<char, 1>(in); break; case 4: rawarr<char, 4>(in); break; case 13: rawarr<char16_t, 3>(in); break; default: rawarr<char32_t, 2>(in); break; } }
#endif
