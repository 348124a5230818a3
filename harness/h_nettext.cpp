// C10: which network texts are accepted, and as what
#include "nets.hpp"
#include "ref.hpp"
typedef error_code ec;
struct RefN4 { bool ok; uint32_t v; unsigned p; bool host; };
INL bool ref_prefix(const char* s, unsigned n, unsigned W, unsigned& p) {
  unsigned x = 0; bool ok = n > 0;
  for (unsigned i = 0; i < n; ++i) { if (s[i] < '0' || s[i] > '9') ok = false; if (x <= 1000) x = x * 10 + unsigned(uint8_t(s[i] - '0')); }
  p = x; return ok && x <= W;
}
INL bool ref_mask4(uint32_t m, unsigned& p) {
  bool ok = false;
  for (unsigned i = 0; i <= 32; ++i) if (m == ~mask4(i)) { ok = true; p = i; }
  for (unsigned i = 0; i <= 32; ++i) if (m == mask4(i)) { ok = true; p = i; }
  return ok;
}
INL RefN4 ref_net4(const char* s, unsigned n) {
  // the parts lie at a position that depends on the text: consider each position of the first slash
  RefN4 r = {false, 0, 32, false}; bool seen = false; unsigned slashes = 0;
  for (unsigned i = 0; i < n; ++i) if (s[i] == '/') ++slashes;
  if (slashes > 1) return r;
  for (unsigned k = 0; k < n; ++k) if (s[k] == '/' && !seen) {
    seen = true; unsigned p = 0, q = 0; uint32_t a = 0, m = 0;
    bool oka = ref_parse4(s, k, a), okp = ref_prefix(s + k + 1, n - k - 1, 32, p), okm = ref_parse4(s + k + 1, n - k - 1, m) && ref_mask4(m, q);
    r.ok = oka && (okp || okm); r.p = okp ? p : q; r.v = a;
  }
  if (!seen) { uint32_t a = 0; r.ok = ref_parse4(s, n, a); r.v = a; r.p = 32; }
  r.host = r.ok && (r.v & ~mask4(r.p)) != 0;
  return r;
}
struct RefN6 { bool ok; u128 v; unsigned p; bool host; };
INL RefN6 ref_net6(const char* s, unsigned n) {
  RefN6 r = {false, 0, 128, false}; bool seen = false; unsigned slashes = 0;
  for (unsigned i = 0; i < n; ++i) if (s[i] == '/') ++slashes;
  if (slashes > 1) return r;
  for (unsigned k = 0; k < n; ++k) if (s[k] == '/' && !seen) {
    seen = true; unsigned p = 0; Ref6 a = ref_parse6(s, k);
    r.ok = a.ok && ref_prefix(s + k + 1, n - k - 1, 128, p); r.p = p; r.v = a.v;
  }
  if (!seen) { Ref6 a = ref_parse6(s, n); r.ok = a.ok; r.v = a.v; }
  r.host = r.ok && (r.v & ~mask6(r.p)) != 0;
  return r;
}
template <class T, class R> INL void judge(const char* s, unsigned n, const R& r) {
  typedef typename T::N N;
  ec c = ec::empty_octet, d = ec::empty_octet;
  N a = N::parse(Str(s, n), c), b = N::parse(Str(s, n), d, false);
  CHECK(is_ok(c) == (r.ok && !r.host));
  CHECK(is_ok(d) == r.ok);
  typename T::U m = T::mask(r.p <= T::W ? r.p : T::W);
  if (is_ok(c) && r.ok) { CHECK(T::val(a.network_address()) == r.v); CHECK(a.prefixlen() == r.p); CHECK(T::val(a.netmask()) == m); }
  if (is_ok(d) && r.ok) { CHECK(T::val(b.network_address()) == (r.v & m)); CHECK(b.prefixlen() == r.p); CHECK(T::val(b.netmask()) == m); }
  if (r.host) CHECK(c == ec::has_host_bits_set);
  COVER(is_ok(c)); COVER(!is_ok(d)); COVER(is_ok(d) && !is_ok(c));
}
// '?' in the pattern is a free byte; n more free bytes follow
template <unsigned M> INL unsigned fill(const char (&pat)[M], const uint8_t* in, unsigned n, char* out) {
  unsigned k = 0, j = 0;
  for (unsigned i = 0; i + 1 < M; ++i) out[k++] = pat[i] == '?' ? char(in[j++]) : pat[i];
  for (unsigned i = 0; i < n; ++i) out[k++] = char(in[j++]);
  return k;
}
HARNESS(h_nt4) {
  char t[64] = {}; unsigned n = P % 100, k = 0;
  switch (P / 100) {
    case 0: k = fill("", in, n, t); break;
    case 1: k = fill("1?.?.?.?" "?/", in, n, t); break;
    case 2: k = fill("0.0.?.0/", in, n, t); break;
    case 3: k = fill("10.2??.0.0/255.2??.0.", in, n, t); break;
    case 4: k = fill("0.0.0.0/1", in, n, t); break;
    case 5: k = fill("1?8.200.200.200/1", in, n, t); break;
    case 6: k = fill("0.0.0.0/????????????????????", in, n, t); break;
    case 7: k = fill("1.2.3.4?", in, n, t); break;
    case 8: k = fill("255.255.255.25?", in, n, t); break;
    default: k = fill("0.0.0.0/0.0.0.", in, n, t); break;
  }
  judge<N4>(t, k, ref_net4(t, k));
}
HARNESS(h_nt6) {
  char t[80] = {}; unsigned n = P % 100, k = 0;
  switch (P / 100) {
    case 0: k = fill("", in, n, t); break;
    case 1: k = fill("??::/", in, n, t); break;
    case 2: k = fill("1:2:3:4:5:6:7:?/", in, n, t); break;
    case 3: k = fill("::?%?/", in, n, t); break;
    case 4: k = fill("::1?.2.3.?/", in, n, t); break;
    case 5: k = fill("0000:0000:0000:0000:0000:ffff:192.168.100.10?%abcdefghijklmno?/12", in, n, t); break;
    case 6: k = fill("::?/????????????????????", in, n, t); break;
    default: k = fill("::1", in, n, t); break;
  }
  BYTEWISE(t, k);
  judge<N6>(t, k, ref_net6(t, k));
}
// ---- C11
INL unsigned put_dec(char* b, unsigned n, unsigned v) { if (v >= 100) b[n++] = char('0' + v / 100); if (v >= 10) b[n++] = char('0' + v / 10 % 10); b[n++] = char('0' + v % 10); return n; }
template <class C, class S> INL bool same_text(const S& s, const C* b, unsigned n, unsigned cap) {
  if (s.size() != n) return false;
  bool r = true; for (unsigned i = 0; i < cap; ++i) if (i < n && s[i] != typename S::value_type(b[i])) r = false;
  return r;
}
// P = format*1000 + string type*100 + prefix length: the text is the reference text
HARNESS(h_ntout4) {
  unsigned p = P % 100; uint32_t v = rd32(in) & mask4(p); auto n = mknet<N4>(v, p);
  char b[40]; unsigned k = ref_fmt4(v, b); b[k++] = '/'; k = put_dec(b, k, p);
  auto f = format(P / 1000);
  switch (P / 100 % 10) {
    case 0: CHECK(same_text(n.to_string(f), b, k, 18)); break;
    case 1: CHECK(same_text(n.to_wstring(f), b, k, 18)); break;
    case 2: CHECK(same_text(n.to_u16string(f), b, k, 18)); break;
    case 3: CHECK(same_text(n.to_u32string(f), b, k, 18)); break;
#if __cpp_char8_t >= 201811L
    case 4: CHECK(same_text(n.to_u8string(f), b, k, 18)); break;
#endif
    case 5: CHECK(same_text(std::string(n), b, k, 18)); break;
    case 6: CHECK(same_text(std::to_string(n), b, k, 18)); break;
    case 7: CHECK(same_text(std::to_wstring(n), b, k, 18)); break;
    case 8: CHECK(same_text(std::wstring(n), b, k, 18)); break;
    default: CHECK(same_text(n.to_string(), b, k, 18)); break;
  }
  COVER(k > 9);
}
// and parsing it gives the network back; octet i has 1 + (i + R) % 3 digits: P = R*100 + prefix length
HARNESS(h_ntrt4) {
  unsigned p = P % 100, R = P / 100; uint32_t v = 0; char b[40]; unsigned k = 0;
  for (unsigned i = 0; i < 4; ++i) {
    unsigned o = in[i], m = mask4(p) >> (24 - 8 * i) & 255; o &= m;
    unsigned nd = m == 0 ? 1 : m < 255 ? 3 : 1 + (i + R) % 3;
    ASSUME(nd == 1 ? o < 10 : nd == 2 ? o >= 10 && o < 100 : o >= 100);
    v = v << 8 | o;
    for (unsigned d = nd; d-- > 0;) b[k++] = char('0' + (d == 2 ? o / 100 : d == 1 ? o / 10 % 10 : o % 10));
    if (i < 3) b[k++] = '.';
  }
  b[k++] = '/'; k = put_dec(b, k, p);
  auto n = mknet<N4>(v, p); ec c = ec::empty_octet;
  CHECK(same_text(n.to_string(), b, k, k));
  auto q = ipv4_network::parse(Str(b, k), c);
  CHECK(is_ok(c)); CHECK(q == n); CHECK(val4(q.network_address()) == v); CHECK(q.prefixlen() == p); CHECK(val4(q.netmask()) == mask4(p));
  auto w = ip_network::parse(Str(b, k), c); CHECK(is_ok(c)); CHECK(w == ip_network(n));
  COVER(true);
}
// P = (format*4 + R)*10000 + scope length*1000 + prefix length
HARNESS(h_ntrt6) {
  unsigned F = P / 40000, R = P / 10000 % 4, S = P / 1000 % 10, p = P % 1000; u128 v = 0; char b[80]; unsigned k = 0;
  unsigned full = (p + 15) / 16, l = 8 - full;
  for (unsigned i = 0; i < 8; ++i) {
    unsigned m = unsigned(mask6(p) >> (112 - 16 * i)) & 0xffff, nd = m == 0xffff ? 1 + (i + R) % 4 : 4;
    unsigned g = (unsigned(in[2 * i]) << 8 | in[2 * i + 1]) & m & (0xffffu >> (16 - 4 * nd));
    if (m) ASSUME(g >> (4 * nd - 4) != 0); else nd = 1;
    v = v << 16 | g;
    if (F == 2 && l >= 2 && i >= full) { if (i == full) b[k++] = ':'; if (i == 7) b[k++] = ':'; continue; }
    if (i) b[k++] = ':';
    if (F == 0) nd = 4;
    for (unsigned d = nd; d-- > 0;) { unsigned x = g >> (4 * d) & 15; b[k++] = char(x < 10 ? '0' + x : 'a' + (x - 10)); }
  }
  auto a = mk6(v); ec c = ec::no_error;
  if (S) { for (unsigned i = 0; i < S; ++i) ASSUME(ref_scope_char(char(in[16 + i])));
    a.set_scope_id(Str((const char*) in + 16, S), c); CHECK(is_ok(c));
    b[k++] = '%'; for (unsigned i = 0; i < S; ++i) b[k++] = char(in[16 + i]); }
  b[k++] = '/'; k = put_dec(b, k, p);
  auto n = ipv6_network::from_address(a, c, p); CHECK(is_ok(c)); c = ec::empty_octet;
  CHECK(same_text(n.to_string(format(F)), b, k, k));
  auto q = ipv6_network::parse(Str(b, k), c);
  CHECK(is_ok(c)); CHECK(q == n); CHECK(val6(q.network_address()) == v); CHECK(q.prefixlen() == p); CHECK(val6(q.netmask()) == mask6(p));
  COVER(true);
}
HARNESS(h_ntwide6) {
  u128 v = rd128(in); auto n = mknet<N6>(v, P % 1000); std::string s = n.to_string(format(in[16] % 3)); format f = format(in[16] % 3);
  unsigned k = unsigned(s.size()); char b[48] = {}; for (unsigned i = 0; i < 43; ++i) if (i < k) b[i] = s[i];
  switch (P / 1000) {
    case 0: CHECK(same_text(n.to_wstring(f), b, k, 43)); break;
    case 1: CHECK(same_text(n.to_u16string(f), b, k, 43)); break;
    case 2: CHECK(same_text(n.to_u32string(f), b, k, 43)); break;
#if __cpp_char8_t >= 201811L
    case 3: CHECK(same_text(n.to_u8string(f), b, k, 43)); break;
#endif
    default: break;
  }
  COVER(k > 12);
}
