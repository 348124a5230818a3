// C38: stream insertion and extraction.  ENT: 0 v4, 1 v6, 2 any, 3 net4, 4 net6, 5 anynet, 6 uint128
#include <sstream>
#include <iomanip>
#include "nets.hpp"
#include "ref.hpp"
typedef error_code ec;
#ifndef ENT
#define ENT 0
#endif
template <class C> struct SS { typedef std::basic_ostringstream<C, std::char_traits<C>, std::allocator<C>> out; typedef std::basic_istringstream<C, std::char_traits<C>, std::allocator<C>> in; typedef std::basic_string<C, std::char_traits<C>, std::allocator<C>> str; };
// values: v4 with the digit counts given by R; v6 in which group k has 1 + (k + R) % 4 digits and a zero run of Z % 10 groups at Z / 10
INL uint32_t shape4(const uint8_t* in, unsigned R) {
  uint32_t v = 0; for (unsigned k = 0; k < 4; ++k) { unsigned d = (k + R) % 3, b = in[k]; ASSUME(d == 0 ? b < 10 : d == 1 ? b >= 10 && b < 100 : b >= 100); v = v << 8 | b; } return v;
}
INL u128 shape6(const uint8_t* in, unsigned R, unsigned f, unsigned l) {
  u128 v = 0;
  for (unsigned k = 0; k < 8; ++k) {
    unsigned g = unsigned(in[2 * k]) << 8 | in[2 * k + 1], nd = 1 + (k + R) % 4; g &= 0xffffu >> (16 - 4 * nd);
    if (k >= f && k < f + l) g = 0; else ASSUME(g >> (4 * nd - 4) != 0);
    v = v << 16 | g;
  }
  return v;
}
INL unsigned text6(u128 v, unsigned F, unsigned R, unsigned f, unsigned l, bool up, char* b) {   // layout known from the shape
  unsigned n = 0;
  for (unsigned k = 0; k < 8; ++k) {
    bool z = k >= f && k < f + l;
    if (F == 2 && l >= 2 && z) { if (k == f) b[n++] = ':'; if (k == 7) b[n++] = ':'; continue; }
    if (k) b[n++] = ':';
    unsigned nd = F == 0 ? 4 : z ? 1 : 1 + (k + R) % 4, g = unsigned(v >> (112 - 16 * k)) & 0xffff;
    for (unsigned d = nd; d-- > 0;) { unsigned x = g >> (4 * d) & 15; b[n++] = char(x < 10 ? '0' + x : (up ? 'A' : 'a') + (x - 10)); }
  }
  return n;
}
INL unsigned text4(uint32_t v, unsigned R, char* b) {
  unsigned n = 0;
  for (unsigned k = 0; k < 4; ++k) { unsigned d = (k + R) % 3, x = v >> (24 - 8 * k) & 255; if (k) b[n++] = '.'; if (d == 2) b[n++] = char('0' + x / 100); if (d >= 1) b[n++] = char('0' + x / 10 % 10); b[n++] = char('0' + x % 10); }
  return n;
}
INL unsigned tail(char* b, unsigned n, unsigned p) { b[n++] = '/'; if (p >= 100) b[n++] = char('0' + p / 100); if (p >= 10) b[n++] = char('0' + p / 10 % 10); b[n++] = char('0' + p % 10); return n; }
template <class S> INL bool is_text(const S& s, const char* b, unsigned n) { if (s.size() != n) return false; bool r = true; for (unsigned i = 0; i < n; ++i) if (s[i] != typename S::value_type(b[i])) r = false; return r; }
template <class C, class X> INL void put(typename SS<C>::out& o, unsigned fmt, bool up, const X& x) {
  if (up) o << std::uppercase;
  if (fmt == 0) o << ipaddress::full; else if (fmt == 1) o << ipaddress::compact; else if (fmt == 2) o << ipaddress::compressed;
  o << x;
}
// fmt 0..2 set by manipulator, 3: nothing set.  The manipulator holds for one insertion: a second one is in the default format.
template <class C, class X> INL void outcase(const X& x, unsigned fmt, bool up, const char* b, unsigned n, const char* d, unsigned m) {
  typename SS<C>::out o; put<C>(o, fmt, up, x);
  CHECK(o.good());
  CHECK(is_text(o.str(), b, n));
  CHECK(bool(o.flags() & std::ios_base::uppercase) == up);
  typename SS<C>::out q; if (fmt == 0) q << ipaddress::full; else if (fmt == 1) q << ipaddress::compact; else if (fmt == 2) q << ipaddress::compressed;
  q << X(); if (up) q << std::uppercase; typename SS<C>::str e = q.str(); q << x; typename SS<C>::str r = q.str();
  CHECK(r.size() == e.size() + m); bool same = r.size() == e.size() + m;
  if (same) for (unsigned i = 0; i < m; ++i) if (r[e.size() + i] != C(d[i])) same = false;
  CHECK(same);
  COVER(true);
}
template <class X> INL void outs(unsigned P, const X& x, const char* b, unsigned n, const char* d, unsigned m) {
  if (P / 20 % 2) outcase<wchar_t>(x, P % 10, P / 10 % 2, b, n, d, m); else outcase<char>(x, P % 10, P / 10 % 2, b, n, d, m);
}
#if ENT == 0 || ENT == 2 || ENT == 3 || ENT == 5
// P = R*100 + wide*20 + upper*10 + format
HARNESS(h_out4) {
  unsigned R = P / 100; uint32_t v = shape4(in, R); char b[24]; unsigned n = text4(v, R, b);
#if ENT == 0
  outs(P % 100, mk4(v), b, n, b, n);
#elif ENT == 2
  outs(P % 100, ip_address(mk4(v)), b, n, b, n);
#else
  n = tail(b, n, 32); auto net = mknet<N4>(v, 32);
#if ENT == 3
  outs(P % 100, net, b, n, b, n);
#else
  outs(P % 100, ip_network(net), b, n, b, n);
#endif
#endif
}
#endif
#if ENT == 1 || ENT == 2 || ENT == 4 || ENT == 5
// P = R*10000 + first*1000 + length*100 + wide*20 + upper*10 + format
HARNESS(h_out6) {
  unsigned R = P / 10000, f = P / 1000 % 10, l = P / 100 % 10, fmt = P % 10; bool up = P / 10 % 2; u128 v = shape6(in, R, f, l);
  char b[48], d[48]; unsigned n = text6(v, fmt == 3 ? 2 : fmt, R, f, l, up, b), m = text6(v, 2, R, f, l, up, d);
#if ENT == 1
  outs(P % 100, mk6(v), b, n, d, m);
#elif ENT == 2
  outs(P % 100, ip_address(mk6(v)), b, n, d, m);
#else
  n = tail(b, n, 128); m = tail(d, m, 128); auto net = mknet<N6>(v, 128);
#if ENT == 4
  outs(P % 100, net, b, n, d, m);
#else
  outs(P % 100, ip_network(net), b, n, d, m);
#endif
#endif
}
// upper case stops at the scope: P = scope length
#if ENT == 1 || ENT == 2
HARNESS(h_outscope) {
  auto a = mk6(u128(0xfe80) << 112 | 0xabcd); char b[40] = "FE80::ABCD%"; unsigned n = P ? 11 : 10;
  ec c = ec::no_error; for (unsigned i = 0; i < P; ++i) { ASSUME(in[i] < 128 && ref_scope_char(char(in[i]))); b[n++] = char(in[i]); }
  a.set_scope_id(Str((const char*) in, P), c); CHECK(is_ok(c));
  std::ostringstream o; o << std::uppercase;
#if ENT == 1
  o << a;
#else
  o << ip_address(a);
#endif
  CHECK(is_text(o.str(), b, n)); COVER(true);
}
#endif
#endif
template <class C> INL bool sp(C c) { return c == C(' ') || (c >= C(9) && c <= C(13)); }
#if ENT == 6
// 128-bit value: P = base*100 + upper*10 + number of free low bytes + 20*wide
HARNESS(h_outu) {
  unsigned k = P % 10; uint64_t lo = 0; for (unsigned i = 0; i < k; ++i) lo |= uint64_t(in[i]) << (8 * i);
  uint128_t v = P / 1000 % 2 ? uint128_t(0xabcdef0123456789ull, 0xfedcba9876543200ull | lo) : uint128_t(0, lo);
  unsigned base = P / 100 % 10; bool up = P / 10 % 2;
  std::string t = v.to_string(base == 0 ? uint128_t::format::decimal : base == 1 ? uint128_t::format::hexadecimal : uint128_t::format::octal);
  for (char& c : t) if (up && c >= 'a' && c <= 'z') c = char(c - 32);
  if (P / 20 % 2) { std::wostringstream o; if (up) o << std::uppercase; if (base == 1) o << std::hex; if (base == 2) o << std::oct; o << v; auto s = o.str(); CHECK(s.size() == t.size()); bool same = s.size() == t.size(); if (same) for (size_t i = 0; i < t.size(); ++i) if (s[i] != wchar_t(t[i])) same = false; CHECK(same); }
  else { std::ostringstream o; if (up) o << std::uppercase; if (base == 1) o << std::hex; if (base == 2) o << std::oct; o << v; CHECK(o.str() == t); CHECK(o.good()); }
  COVER(true);
}
// P = base*100 + n: n ASCII characters; a stale value stays when the text is not a number
HARNESS(h_inu) {
  unsigned n = P % 100, base = P / 100; std::string s; char t[40];
  for (unsigned i = 0; i < n; ++i) { ASSUME(in[i] < 128); t[i] = char(in[i]); }
  unsigned b = 0, len = 0; char w[40] = {}; while (b < n && sp(t[b])) ++b;
  while (b < n && !sp(t[b])) { w[len] = t[b]; ++len; ++b; }
  auto f = base == 0 ? uint128_t::format::decimal : base == 1 ? uint128_t::format::hexadecimal : uint128_t::format::octal;
  auto r = uint128_t::from_string(std::string(w, len), f);
  std::istringstream i(std::string(t, n)); if (base == 1) i >> std::hex; if (base == 2) i >> std::oct;
  uint128_t x(7, 9); i >> x;
  CHECK(i.fail() == (len == 0 || !r));
  if (len > 0 && r) CHECK(x == r.value()); else CHECK(x == uint128_t(7, 9));
  CHECK(!i.bad());
  COVER(!i.fail()); COVER(i.fail());
}
#endif
#if ENT < 6
static const char* const PATS[6][3] = {{"", "1.2.3.", " 10.0.0.1 1.1.1."}, {"", "1:2:3:4:5:6:7:", "::1%"}, {"", "1.2.3.", "::1%"}, {"", "10.0.0.0/", " 1.2.3.4 10.0.0.0/"}, {"", "ff::/", "::/1"}, {"", "10.0.0.0/", "ff::/"}};
#if ENT == 0
typedef ipv4_address X;
#elif ENT == 1
typedef ipv6_address X;
#elif ENT == 2
typedef ip_address X;
#elif ENT == 3
typedef ipv4_network X;
#elif ENT == 4
typedef ipv6_network X;
#else
typedef ip_network X;
#endif
// two words are read one after the other; P = pattern*100 + n, then wide*1000
template <class C> INL void incase(const uint8_t* in, unsigned P) {
  unsigned n = P % 100, k = 0; C t[64] = {}; const char* p = PATS[ENT][P / 100 % 10]; for (; p[k]; ++k) t[k] = C(p[k]);
  for (unsigned i = 0; i < n; ++i) { ASSUME(in[i] < 128); t[k++] = C(in[i]); }
  unsigned b = 0, len = 0; C u[64] = {}; while (b < k && sp(t[b])) ++b;
  while (b < k && !sp(t[b])) { u[len] = t[b]; ++len; ++b; }
  typename SS<C>::in i(typename SS<C>::str(t, k));
  X x; ec c = ec::no_error;
  auto fl = i.flags();
#if ENT >= 3
  bool ns = P / 2000 % 2; if (ns) i >> ipaddress::non_strict;
  i >> x; auto w = X::parse(typename SS<C>::str(u, len), c, !ns);
#else
  i >> x; auto w = X::parse(typename SS<C>::str(u, len), c);
#endif
  CHECK(i.fail() == (len == 0 || !is_ok(c)));
  CHECK(!i.bad()); CHECK(i.flags() == fl);
  CHECK(x == w);
  COVER(is_ok(c)); COVER(!is_ok(c));
}
HARNESS(h_in) { if (P / 1000 % 2) incase<wchar_t>(in, P); else incase<char>(in, P); }
#if ENT >= 3
// the non-strict manipulator holds for one extraction; P = n trailing bytes
HARNESS(h_instrict) {
#if ENT == 3
  char t[64] = "1.2.3.5/31 10.0.0.1/"; unsigned k = 20, b = 11; const char* w = "1.2.3.5/31";
#else
  char t[64] = "::5/127 ff::1/"; unsigned k = 14, b = 8; const char* w = "::5/127";
#endif
  for (unsigned i = 0; i < P; ++i) { ASSUME(in[i] < 128 && !sp(char(in[i]))); t[k++] = char(in[i]); }
  std::istringstream i(std::string(t, k)); X x, y; ec c = ec::no_error, d = c;
  i >> ipaddress::non_strict >> x; CHECK(i.good()); CHECK(x == X::parse(std::string(w), c, false)); CHECK(is_ok(c));
  i >> y; auto r = X::parse(std::string(t + b, k - b), d);
  CHECK(i.fail() == !is_ok(d)); CHECK(y == r);
  std::istringstream j(std::string(t, k)); j >> ipaddress::non_strict >> ipaddress::strict >> x; CHECK(j.fail());
  COVER(!is_ok(d)); COVER(is_ok(d));
}
#endif
#endif
