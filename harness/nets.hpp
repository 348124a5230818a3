// Shared by the network harnesses: one description per IP version.
#ifndef NETS_HPP
#define NETS_HPP
#include "vf.hpp"
struct N4 { typedef ipv4_address A; typedef ipv4_network N; typedef uint32_t U; enum { W = 32, B = 4 };
  static INL U rd(const uint8_t* p) { return rd32(p); } static INL A mk(U v) { return mk4(v); } static INL U val(const A& a) { return val4(a); } static INL U mask(unsigned p) { return mask4(p); }
  static INL uint32_t ut(U v) { return v; } static INL U ou(uint32_t v) { return v; } };
struct N6 { typedef ipv6_address A; typedef ipv6_network N; typedef u128 U; enum { W = 128, B = 16 };
  static INL U rd(const uint8_t* p) { return rd128(p); } static INL A mk(U v) { return mk6(v); } static INL U val(const A& a) { return val6(a); } static INL U mask(unsigned p) { return mask6(p); }
  static INL uint128_t ut(U v) { return from_u128(v); } static INL U ou(const uint128_t& v) { return to_u128(v); } };
template <class T> INL typename T::N mknet(typename T::U v, unsigned p) { error_code c = error_code::no_error; return T::N::from_address(T::mk(v & T::mask(p)), c, p); }
// 2^n in T::U, 0 when it does not fit
template <class T> INL typename T::U p2(unsigned n) { return n >= T::W ? typename T::U(0) : typename T::U(1) << n; }
// prefix length: concrete for P < 1000, else the symbolic byte b
template <class T> INL unsigned pfx(unsigned P, uint8_t b) { if (P < 1000) return P; ASSUME(b <= T::W); return b; }
INL bool is_ok(error_code c) { return c == error_code::no_error; }
#endif
