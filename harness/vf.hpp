// Harness interface.  A harness is  extern "C" void h_name(const uint8_t* in, unsigned P):
//   in : the symbolic input bytes (an object of exactly the declared size)
//   P  : a concrete parameter (string length, prefix length, ...), enumerated by the runner
// CHECK(c)   obligation: c holds on every execution reaching it
// ASSUME(c)  restricts the executions considered
// COVER(c)   reachability witness: some execution (of some P) must reach it with c
#ifndef VF_HPP
#define VF_HPP
#include <ipaddress/ipaddress.hpp>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
extern "C" {
void vf_assert(bool, int line, const char* text);
void vf_assume(bool);
void vf_cover(bool, int line, const char* text);
void vf_out(uint64_t);
}
#define CHECK(...) vf_assert(bool(__VA_ARGS__), __LINE__, #__VA_ARGS__)
#define ASSUME(...) vf_assume(bool(__VA_ARGS__))
#define COVER(...) vf_cover(bool(__VA_ARGS__), __LINE__, #__VA_ARGS__)
#define OUT(...) vf_out(uint64_t(__VA_ARGS__))
#define HARNESS(name) extern "C" __attribute__((used, noinline)) void name(const uint8_t* in, unsigned P)
#define INL inline __attribute__((always_inline))
using namespace ipaddress;
typedef unsigned __int128 u128;
#ifdef IPADDRESS_CHAR_IS_UTF8   // plain char text is decoded as UTF-8: the byte-wise oracles speak about ASCII text only
#define BYTEWISE(p, n) do { for (unsigned i_ = 0; i_ < (n); ++i_) vf_assume((p)[i_] < 128); } while (0)
#else
#define BYTEWISE(p, n) do {} while (0)
#endif
#define VF_SCMAX unsigned(IPADDRESS_IPV6_SCOPE_MAX_LENGTH)
#if IPADDRESS_CPP_VERSION >= 17
typedef std::string_view Str; typedef std::wstring_view WStr; typedef std::u16string_view Str16; typedef std::u32string_view Str32;
#else
typedef std::string Str; typedef std::wstring WStr; typedef std::u16string Str16; typedef std::u32string Str32;
#endif

INL uint64_t rd(const uint8_t* p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v |= uint64_t(p[i]) << (8 * i); return v; }
INL uint16_t rd16(const uint8_t* p) { return uint16_t(p[0] | p[1] << 8); }
INL uint32_t rd32(const uint8_t* p) { return uint32_t(p[0]) | uint32_t(p[1]) << 8 | uint32_t(p[2]) << 16 | uint32_t(p[3]) << 24; }
INL uint64_t rd64(const uint8_t* p) { return uint64_t(rd32(p)) | uint64_t(rd32(p + 4)) << 32; }
INL u128 rd128(const uint8_t* p) { return u128(rd64(p)) | u128(rd64(p + 8)) << 64; }
INL u128 to_u128(const uint128_t& v) { return u128(v.upper()) << 64 | v.lower(); }
INL uint128_t from_u128(u128 v) { return uint128_t(uint64_t(v >> 64), uint64_t(v)); }
INL ipv4_address mk4(uint32_t v) { ipv4_address::base_type b{}; b[0] = uint8_t(v >> 24); b[1] = uint8_t(v >> 16); b[2] = uint8_t(v >> 8); b[3] = uint8_t(v); return ipv4_address::from_bytes(b); }
INL ipv6_address mk6(u128 v) { ipv6_address::base_type b{}; for (int i = 0; i < 16; ++i) b[i] = uint8_t(v >> (120 - 8 * i)); return ipv6_address::from_bytes(b); }
INL uint32_t val4(const ipv4_address& a) { const auto& b = a.bytes(); return uint32_t(b[0]) << 24 | uint32_t(b[1]) << 16 | uint32_t(b[2]) << 8 | b[3]; }
INL u128 val6(const ipv6_address& a) { const auto& b = a.bytes(); u128 v = 0; for (int i = 0; i < 16; ++i) v = v << 8 | b[i]; return v; }
INL uint32_t mask4(unsigned p) { return p == 0 ? 0u : p >= 32 ? ~0u : ~0u << (32 - p); }
INL u128 mask6(unsigned p) { return p == 0 ? u128(0) : p >= 128 ? ~u128(0) : ~u128(0) << (128 - p); }

#ifdef VF_NATIVE
#include <stdio.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <unistd.h>
extern "C" {
static int vf_failed = 0;
void vf_assert(bool c, int line, const char* t) { if (!c) { printf("FAIL %d %s\n", line, t); vf_failed = 1; } else printf("OK %d\n", line); fflush(stdout); }
void vf_assume(bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _exit(vf_failed ? 1 : 3); } }
void vf_cover(bool c, int line, const char* t) { if (c) printf("COVER %d %s\n", line, t); fflush(stdout); }
void vf_out(uint64_t v) { printf("OUT %llu\n", (unsigned long long) v); }
}
int main(int argc, char** argv) {
  typedef void (*fn)(const uint8_t*, unsigned);
  fn f = (fn) dlsym(RTLD_DEFAULT, argv[1]);
  if (!f || argc < 4) { printf("NO-FUNCTION\n"); return 4; }
  size_t n = strlen(argv[3]) / 2;
  uint8_t* b = (uint8_t*) malloc(n ? n : 1);
  if (n == 0) { free(b); b = (uint8_t*) malloc(1) ; }
  for (size_t i = 0; i < n; ++i) { unsigned x; sscanf(argv[3] + 2 * i, "%2x", &x); b[i] = (uint8_t) x; }
#ifndef IPADDRESS_NO_EXCEPTIONS
  try { f(b, (unsigned) atoi(argv[2])); }
  catch (...) { printf("FAIL 0 exception escaped\n"); free(b); return 1; }
#else
  f(b, (unsigned) atoi(argv[2]));
#endif
  free(b);
  printf("DONE\n");
  return vf_failed;
}
#endif
#endif
