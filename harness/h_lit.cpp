// C39: user-defined literals.  Before C++20 they are run-time functions of (text, length), built here with exceptions;
// in C++20 they are evaluated by the compiler, so only the concrete literals below can be compared.
#include "nets.hpp"
#include "ref.hpp"
typedef error_code ec;
#ifndef ENT
#define ENT 0
#endif
#if ENT == 0
typedef ipv4_address X;
#define LIT operator""_ipv4
#elif ENT == 1
typedef ipv6_address X;
#define LIT operator""_ipv6
#elif ENT == 2
typedef ip_address X;
#define LIT operator""_ip
#elif ENT == 3
typedef ipv4_network X;
#define LIT operator""_ipv4_net
#elif ENT == 4
typedef ipv6_network X;
#define LIT operator""_ipv6_net
#else
typedef ip_network X;
#define LIT operator""_net
#endif
#if IPADDRESS_CPP_VERSION >= 17
template <class C> using Text = std::basic_string_view<C>;
#else
template <class C> using Text = std::basic_string<C>;
#endif
#ifndef IPADDRESS_NONTYPE_TEMPLATE_PARAMETER
static const char* const PAT[6][5] = {
  {"", "1.2.3.", "255.255.255.25", "000.000.000.00", "10."}, {"", "1:2:3:4:5:6:7:", "0001:0002:0003:0004:0005:ffff:255.255.255.25", "fe80::%", "0001:0002:0003:0004:0005:ffff:255.255.255.255%0123456789abcd"},
  {"", "1.2.3.", "255.255.255.25", "fe80::%", "0001:0002:0003:0004:0005:ffff:255.255.255.255%0123456789abcd"},
  {"", "0.0.0.0/", "255.255.255.255/255.255.255.25", "10.0.", "0.0.0.0/255.25"}, {"", "::/", "0001:0002:0003:0004:0005:ffff:255.255.255.255%0123456789abcdef/1", "::%", "0001:0002:0003:0004:0005:ffff:255.255.255.255/1"},
  {"", "0.0.0.0/", "255.255.255.255/255.255.255.25", "::/", "0001:0002:0003:0004:0005:ffff:255.255.255.255%0123456789abcdef/1"}};
// the longest valid text of each kind
static const unsigned LONGEST[6] = {15, 45 + 17, 45 + 17, 31, 45 + 17 + 4, 45 + 17 + 4};
template <class C> INL void lit(const uint8_t* in, unsigned P) {
  unsigned n = P % 100, k = 0; bool ascii = true; C t[160]; const char* s = PAT[ENT][P / 100 % 10];
  for (; s[k]; ++k) t[k] = C(s[k]);
  for (unsigned i = 0; i < n; ++i) { C c = reinterpret_cast<const C*>(in)[i]; ASSUME(c != 0); if (c < 0 || c > 127) ascii = false; if (i < 2 || n < 6) t[k++] = c; else t[k++] = C('1'); }
  ec c = ec::no_error; X w = X::parse(Text<C>(t, k), c);
  t[k] = C(0);
  int th = 0; ec d = ec::no_error; X x;
#ifndef IPADDRESS_NO_EXCEPTIONS
  try { x = LIT(t, k); } catch (const parse_error& e) { th = 1; d = e.code(); } catch (const error& e) { th = 2; d = e.code(); }
  CHECK(th != 2);
  CHECK((th == 1) == (c != ec::no_error));
  if (ascii) CHECK(d == (k > LONGEST[ENT] && d == ec::string_is_too_long ? d : c));   // malformed Unicode is found before the text is read
#else
  x = LIT(t, k);
#endif
  if (c == ec::no_error) CHECK(x == w);
#ifdef IPADDRESS_NO_EXCEPTIONS
  else if (ascii && k <= LONGEST[ENT]) CHECK(x == X::parse(Text<C>(t, k)));
#else
  else CHECK(x == X());
#endif
  COVER(c == ec::no_error); COVER(c != ec::no_error);
}
HARNESS(h_lit) { lit<char>(in, P); }
HARNESS(h_litw) { lit<wchar_t>(in, P); }
HARNESS(h_lit16) { lit<char16_t>(in, P); }
HARNESS(h_lit32) { lit<char32_t>(in, P); }
#if ENT == 0
HARNESS(h_litint) { unsigned long long v = rd32(in); CHECK(val4(operator""_ipv4(v)) == uint32_t(v)); COVER(true); }
#endif
#else
template <class T> INL void same(const X& a, const T& text) { ec c = ec::no_error; X w = X::parse(text, c); CHECK(is_ok(c)); CHECK(a == w); COVER(true); }
#define ONE(T, S) same(T##S, T); same(L##T##S, L##T); same(u##T##S, u##T); same(U##T##S, U##T); same(u8##T##S, u8##T)
HARNESS(h_lit20) {
#if ENT == 0
  ONE("0.0.0.0", _ipv4); ONE("255.255.255.255", _ipv4); ONE("1.20.103.4", _ipv4); ONE("192.168.0.10", _ipv4);
  CHECK(val4(0xff000102_ipv4) == 0xff000102u); CHECK(val4(0_ipv4) == 0u); CHECK(val4(0xffffffff_ipv4) == 0xffffffffu);
#elif ENT == 1
  ONE("::", _ipv6); ONE("1::", _ipv6); ONE("2001:db8:0:1:1:1:1:1", _ipv6); ONE("::ffff:1.2.3.4", _ipv6); ONE("fe80::1%eth0", _ipv6); ONE("0001:0002:0003:0004:0005:ffff:255.255.255.255%0123456789abcdef", _ipv6);
#elif ENT == 2
  ONE("0.0.0.0", _ip); ONE("255.255.255.255", _ip); ONE("::1", _ip); ONE("fe80::1%eth0", _ip); ONE("0001:0002:0003:0004:0005:ffff:255.255.255.255%0123456789abcdef", _ip);
#elif ENT == 3
  ONE("0.0.0.0/0", _ipv4_net); ONE("1.2.3.4", _ipv4_net); ONE("10.0.0.0/8", _ipv4_net); ONE("10.1.0.0/255.255.0.0", _ipv4_net); ONE("255.255.255.255/255.255.255.255", _ipv4_net);
#elif ENT == 4
  ONE("::/0", _ipv6_net); ONE("::1", _ipv6_net); ONE("2001:db8::/32", _ipv6_net); ONE("0001:0002:0003:0004:0005:ffff:255.255.255.255/128", _ipv6_net);
#else
  ONE("0.0.0.0/0", _net); ONE("1.2.3.4", _net); ONE("10.1.0.0/255.255.0.0", _net); ONE("::/0", _net); ONE("2001:db8::/32", _net); ONE("0001:0002:0003:0004:0005:ffff:255.255.255.255/128", _net);
#endif
}
#endif
