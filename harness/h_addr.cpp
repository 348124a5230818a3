// C12 conversions, C13 order, C14/C15/C28 classification, C16 embedded IPv4, C17 scope, C18 reverse pointer
#include "nets.hpp"
#include "ref.hpp"
typedef error_code ec;
struct B4 { uint32_t v; unsigned p; };
struct B6 { uint64_t hi, lo; unsigned p; };
INL bool in4(uint32_t a, const B4& b) { return (a & mask4(b.p)) == b.v; }
INL bool in6(u128 a, const B6& b) { return (a & mask6(b.p)) == ((u128(b.hi) << 64) | b.lo); }
// IANA special-purpose registries as the documentation cites them
#define PRIV4 static const B4 priv4[] = {{0x00000000,8},{0x0a000000,8},{0x7f000000,8},{0xa9fe0000,16},{0xac100000,12},{0xc0000000,29},{0xc00000aa,31},{0xc0000200,24},{0xc0a80000,16},{0xc6120000,15},{0xc6336400,24},{0xcb007100,24},{0xf0000000,4},{0xffffffff,32}};
#define PRIV6 static const B6 priv6[] = {{0,1,128},{0,0,128},{0,0xffff00000000ull,96},{0x0100000000000000ull,0,64},{0x2001000000000000ull,0,23},{0x2001000200000000ull,0,48},{0x20010db800000000ull,0,32},{0x2001001000000000ull,0,28},{0xfc00000000000000ull,0,7},{0xfe80000000000000ull,0,10}};
#define RSV6 static const B6 rsv6[] = {{0,0,8},{0x0100000000000000ull,0,8},{0x0200000000000000ull,0,7},{0x0400000000000000ull,0,6},{0x0800000000000000ull,0,5},{0x1000000000000000ull,0,4},{0x4000000000000000ull,0,3},{0x6000000000000000ull,0,3},{0x8000000000000000ull,0,3},{0xa000000000000000ull,0,3},{0xc000000000000000ull,0,3},{0xe000000000000000ull,0,4},{0xf000000000000000ull,0,5},{0xf800000000000000ull,0,6},{0xfe00000000000000ull,0,9}};
static const B4 SHARED4 = {0x64400000,10}, RSV4 = {0xf0000000,4}, MC4 = {0xe0000000,4}, LO4 = {0x7f000000,8}, LL4 = {0xa9fe0000,16};
static const B6 MC6 = {0xff00000000000000ull,0,8}, LL6 = {0xfe80000000000000ull,0,10}, SL6 = {0xfec0000000000000ull,0,10};
INL bool rpriv4(uint32_t a) { PRIV4; bool r = false; for (unsigned i = 0; i < 14; ++i) if (in4(a, priv4[i])) r = true; return r; }
INL bool rpriv6(u128 a) { PRIV6; bool r = false; for (unsigned i = 0; i < 10; ++i) if (in6(a, priv6[i])) r = true; return r; }
INL bool rrsv6(u128 a) { RSV6; bool r = false; for (unsigned i = 0; i < 15; ++i) if (in6(a, rsv6[i])) r = true; return r; }
INL bool mapped(u128 a) { return (a >> 32) == 0xffff; }

// ---- C14
HARNESS(h_class4) {
  uint32_t v = rd32(in); auto a = mk4(v);
  CHECK(a.is_multicast() == in4(v, MC4));
  CHECK(a.is_private() == rpriv4(v));
  CHECK(a.is_global() == (!rpriv4(v) && !in4(v, SHARED4)));
  CHECK(a.is_reserved() == in4(v, RSV4));
  CHECK(a.is_loopback() == in4(v, LO4));
  CHECK(a.is_link_local() == in4(v, LL4));
  CHECK(a.is_unspecified() == (v == 0));
  COVER(a.is_global()); COVER(a.is_private()); COVER(a.is_reserved()); COVER(a.is_multicast());
}
// ---- C15, with a scope of P characters
HARNESS(h_class6) {
  u128 v = rd128(in); auto a = mk6(v);
  if (P) { char s[3] = {char(in[16]), 'x', 0}; ASSUME(in[16] < 128 && ref_scope_char(char(in[16]))); ec c = ec::no_error; a.set_scope_id(Str(s, P), c); CHECK(is_ok(c)); }
  CHECK(a.is_multicast() == in6(v, MC6));
  CHECK(a.is_private() == (mapped(v) ? rpriv4(uint32_t(v)) : rpriv6(v)));
  CHECK(a.is_global() == !(mapped(v) ? rpriv4(uint32_t(v)) : rpriv6(v)));
  CHECK(a.is_reserved() == rrsv6(v));
  CHECK(a.is_loopback() == (v == 1));
  CHECK(a.is_link_local() == in6(v, LL6));
  CHECK(a.is_site_local() == in6(v, SL6));
  CHECK(a.is_unspecified() == (v == 0));
  COVER(a.is_global()); COVER(a.is_private()); COVER(a.is_reserved()); COVER(a.is_multicast()); COVER(mapped(v) && a.is_private());
}
// ---- C28
HARNESS(h_nclass4) {
  PRIV4;
  unsigned p = pfx<N4>(P, in[4]); uint32_t lo = rd32(in) & mask4(p), hi = lo | ~mask4(p); auto n = mknet<N4>(lo, p);
  bool priv = false; for (unsigned i = 0; i < 14; ++i) if (in4(lo, priv4[i]) && in4(hi, priv4[i])) priv = true;
  CHECK(n.is_multicast() == (in4(lo, MC4) && in4(hi, MC4)));
  CHECK(n.is_private() == priv);
  CHECK(n.is_global() == (!priv && !(in4(lo, SHARED4) && in4(hi, SHARED4))));
  CHECK(n.is_reserved() == (in4(lo, RSV4) && in4(hi, RSV4)));
  CHECK(n.is_loopback() == (in4(lo, LO4) && in4(hi, LO4)));
  CHECK(n.is_link_local() == (in4(lo, LL4) && in4(hi, LL4)));
  CHECK(n.is_unspecified() == (p == 32 && lo == 0));
  COVER(n.is_private()); COVER(n.is_global() && p < 20);
}
HARNESS(h_nclass6) {
  PRIV6;
  unsigned p = pfx<N6>(P, in[16]); u128 lo = rd128(in) & mask6(p), hi = lo | ~mask6(p); auto n = mknet<N6>(lo, p);
  bool priv = false; for (unsigned i = 0; i < 10; ++i) if (in6(lo, priv6[i]) && in6(hi, priv6[i])) priv = true;
  CHECK(n.is_multicast() == (in6(lo, MC6) && in6(hi, MC6)));
  CHECK(n.is_private() == priv);
  CHECK(n.is_global() == !priv);
  CHECK(n.is_reserved() == (rrsv6(lo) && rrsv6(hi)));
  CHECK(n.is_loopback() == (p == 128 && lo == 1));
  CHECK(n.is_link_local() == (in6(lo, LL6) && in6(hi, LL6)));
  CHECK(n.is_site_local() == (in6(lo, SL6) && in6(hi, SL6)));
  CHECK(n.is_unspecified() == (p == 128 && lo == 0));
  COVER(n.is_private()); COVER(n.is_global() && p < 20);
}
// ---- C16
HARNESS(h_embed) {
  u128 v = rd128(in); auto a = mk6(v);
  auto m = a.ipv4_mapped(); auto s = a.sixtofour(); auto t = a.teredo();
  CHECK(bool(m) == mapped(v)); CHECK(m.has_value() == mapped(v));
  if (m) CHECK(val4(*m) == uint32_t(v));
  CHECK(bool(s) == (v >> 112 == 0x2002));
  if (s) CHECK(val4(s.value()) == uint32_t(v >> 80));
  CHECK(bool(t) == (v >> 96 == 0x20010000));
  if (t) { CHECK(val4(t->first) == uint32_t(v >> 64)); CHECK(val4(t->second) == ~uint32_t(v)); }
  COVER(bool(m)); COVER(bool(s)); COVER(bool(t));
}
// ---- C12
template <class T> struct V {
  typedef typename T::A A; typedef typename T::U U;
  static INL void conv(const uint8_t* in, unsigned P) {
    typename A::base_type b{}; for (unsigned i = 0; i < T::B; ++i) b[i] = in[i];
    U v = 0; for (unsigned i = 0; i < T::B; ++i) v = U(v << 8) | in[i];
    A a = A::from_bytes(b);
    bool same = true; for (unsigned i = 0; i < T::B; ++i) same = same && a.bytes()[i] == in[i] && a.data()[i] == in[i];
    CHECK(same);
    CHECK(T::ou(a.to_uint()) == v);
    CHECK(T::ou(typename T::A::uint_type(a)) == v);
    A u = A::from_uint(T::ut(v));
    CHECK(u == a); CHECK(T::val(u) == v);
    CHECK(A(b) == a);
    // raw bytes: a shorter array fills the front, the rest is zero; extra bytes are not read as part of the address
    A r = A::from_bytes(in, P);
    U e = P >= T::B ? v : U(v & T::mask(8 * P));
    CHECK(T::val(r) == e);
    CHECK(T::val(A()) == 0);
    CHECK(a.version() == (T::W == 32 ? ip_version::V4 : ip_version::V6)); CHECK(a.size() == T::B);
    COVER(v != 0);
  }
  template <class X> static INL void order(const X& a, const X& b, bool lt, bool eq) {
    CHECK((a == b) == eq); CHECK((a != b) == !eq); CHECK((a < b) == lt); CHECK((a <= b) == (lt || eq)); CHECK((a > b) == !(lt || eq)); CHECK((a >= b) == !lt);
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    CHECK(((a <=> b) < 0) == lt); CHECK(((a <=> b) == 0) == eq); CHECK(((a <=> b) > 0) == !(lt || eq));
#endif
  }
};
HARNESS(h_conv4) { V<N4>::conv(in, P); CHECK(val4(ipv4_address::from_uint<0x01020384u>()) == 0x01020384u); }
HARNESS(h_conv6) { V<N6>::conv(in, P); }
// ---- C13
HARNESS(h_ord4) {
  uint32_t v = rd32(in), w = rd32(in + 4); auto a = mk4(v), b = mk4(w);
  V<N4>::order(a, b, v < w, v == w);
  auto x = a, y = b; x.swap(y); CHECK(val4(x) == w && val4(y) == v);
  using std::swap; swap(x, y); CHECK(val4(x) == v && val4(y) == w);
  COVER(a < b); COVER(a == b);
}
// P = scope lengths a*100 + b; b first had another, longer scope
// plain text compares by character; where characters beyond ASCII go is not documented, only that there is one order
INL bool ascii(const uint8_t* s, unsigned n) { bool r = true; for (unsigned i = 0; i < n; ++i) if (s[i] >= 128) r = false; return r; }
INL void scope_of(ipv6_address& x, const uint8_t* s, unsigned n) {
  ec c = ec::no_error; for (unsigned i = 0; i < n; ++i) ASSUME(ref_scope_char(char(s[i])));
  BYTEWISE(s, n);
  x.set_scope_id(Str((const char*) s, n), c); CHECK(is_ok(c));
}
HARNESS(h_ord6) {
  u128 v = rd128(in), w = rd128(in + 16); unsigned n = P / 100, m = P % 100;
  const uint8_t* s = in + 32; const uint8_t* t = in + 32 + n;
  auto a = mk6(v), b = mk6(w);
  { ec c = ec::no_error; b.set_scope_id(Str("zzzzzzzzzzzzzzzz", m % 2 ? 16 : m), c); CHECK(is_ok(c)); }
  scope_of(a, s, n); scope_of(b, t, m);
  bool slt = false, seq = true;
  for (unsigned i = 0; i < n || i < m; ++i) {
    unsigned x = i < n ? s[i] : 0, y = i < m ? t[i] : 0;
    if (seq && x < y) slt = true;
    if (x != y) seq = false;
  }
  bool known = ascii(s, n) && ascii(t, m);
  V<N6>::order(a, b, v < w || (v == w && (known ? slt : !seq && a < b)), v == w && seq);
  auto x = a, y = b; x.swap(y); CHECK(x == b && y == a && val6(x) == w && val6(y) == v);
  COVER(v < w); COVER(n != m || a == b);
}
// equal addresses reached by different routes hash alike
HARNESS(h_hash4) {
  uint32_t v = rd32(in); auto a = mk4(v), b = ipv4_address::from_uint(v);
  CHECK(a == b); CHECK(a.hash() == b.hash()); CHECK(std::hash<ipv4_address>{}(a) == b.hash());
  COVER(true);
}
HARNESS(h_hash6) {
  u128 v = rd128(in); auto a = mk6(v), b = ipv6_address::from_uint(from_u128(v));
  { ec c = ec::no_error; b.set_scope_id(Str("zzzzzzzzzzzzzzzz", P % 2 ? 16 : P), c); CHECK(is_ok(c)); }
  scope_of(a, in + 16, P); scope_of(b, in + 16, P);
  CHECK(a == b); CHECK(a.hash() == b.hash()); CHECK(std::hash<ipv6_address>{}(a) == b.hash());
  COVER(true);
}
// ---- C17: setting a scope of P bytes over an older one
HARNESS(h_scope) {
  unsigned n = P % 100; const char* s = (const char*) in + 16;
  BYTEWISE(in + 16, n);
  u128 v = rd128(in); auto a = mk6(v); ec c = ec::invalid_netmask;
  if (P >= 100) { a.set_scope_id(Str("eth0.1234567890a", P / 100), c); CHECK(is_ok(c)); c = ec::empty_octet; }
  auto old = a;
  a.set_scope_id(Str(s, n), c);
  bool ok = n <= VF_SCMAX; for (unsigned i = 0; i < n; ++i) if (!ref_scope_char(s[i])) ok = false;
  CHECK(is_ok(c) == ok);
  CHECK(val6(a) == v);
  auto sc = a.get_scope_id();
  if (ok) {
    std::string r = sc.get_string();
    CHECK(r.size() == n); bool same = true; for (unsigned i = 0; i < n; ++i) if (r[i] != s[i]) same = false; CHECK(same);
    CHECK(sc.has_string() == (n > 0)); CHECK(bool(sc) == (n > 0));
    bool num = n > 0; uint64_t x = 0; bool fits = true;
    for (unsigned i = 0; i < n; ++i) { if (s[i] < '0' || s[i] > '9') num = false; else { x = x * 10 + uint64_t(s[i] - '0'); if (x > 0xffffffffu) { fits = false; x = 0x100000000ull; } } }
    CHECK(sc.has_uint32() == (num && fits));
    CHECK(sc.get_uint32() == (num && fits ? uint32_t(x) : 0u));
    CHECK(uint32_t(sc) == sc.get_uint32());
    auto copy = a; CHECK(copy == a); CHECK(copy.get_scope_id() == sc);
    ipv6_address other; other = a; CHECK(other == a);
    ipv6_address pl = mk6(v); pl.swap(other); CHECK(pl == a && val6(other) == v && !other.get_scope_id());
    COVER(true);
  } else { CHECK(a == old); CHECK(a.get_scope_id() == old.get_scope_id()); CHECK(!is_ok(c)); COVER(true); }
}
// order of scope objects, and hash by text
HARNESS(h_scord) {
  unsigned n = P / 100, m = P % 100; auto a = mk6(0), b = mk6(0); const uint8_t* s = in; const uint8_t* t = in + n;
  scope_of(a, s, n); scope_of(b, t, m);
  auto x = a.get_scope_id(), y = b.get_scope_id();
  bool slt = false, seq = true;
  for (unsigned i = 0; i < n || i < m; ++i) { unsigned p = i < n ? s[i] : 0, q = i < m ? t[i] : 0; if (seq && p < q) slt = true; if (p != q) seq = false; }
  V<N6>::order(x, y, ascii(s, n) && ascii(t, m) ? slt : !seq && x < y, seq);
  COVER(true);
}
// the other ways to set one: arrays and wide text
#if __cpp_char8_t >= 201811L
typedef char8_t C8;
#else
typedef char C8;
#endif
#if IPADDRESS_IPV6_SCOPE_MAX_LENGTH >= 5
HARNESS(h_scarr) {
  u128 v = rd128(in + 16); auto a = mk6(v), b = mk6(v), d = mk6(v), e = mk6(v), f = mk6(v), g = mk6(v);
  char s[6] = {}; wchar_t w[6] = {}; char16_t x[6] = {}; char32_t y[6] = {}; C8 z[6] = {};
  for (unsigned i = 0; i < P; ++i) { ASSUME(in[i] != 0 && in[i] < 128); s[i] = char(in[i]); w[i] = in[i]; x[i] = in[i]; y[i] = in[i]; z[i] = in[i]; }
  ec c = ec::no_error, c2 = c, c3 = c, c4 = c, c5 = c, c6 = c;
  a.set_scope_id(Str(s, P), c);
  b.set_scope_id(s, c2); d.set_scope_id(WStr(w, P), c3); e.set_scope_id(Str16(x, P), c4); f.set_scope_id(Str32(y, P), c5); g.set_scope_id(z, c6);
  CHECK(c == c2 && c == c3 && c == c4 && c == c5 && c == c6);
  CHECK(a == b && a == d && a == e && a == f && a == g);
  CHECK(val6(b) == v && val6(g) == v);
  COVER(is_ok(c)); COVER(P == 0 || !is_ok(c));
}
#endif
// ---- C18
HARNESS(h_rev4) {
  uint32_t v = rd32(in); std::string s = mk4(v).reverse_pointer();
  char b[40]; unsigned n = ref_fmt4(v << 24 | (v << 8 & 0xff0000) | (v >> 8 & 0xff00) | v >> 24, b);
  const char suf[] = ".in-addr.arpa"; for (unsigned i = 0; i < 13; ++i) b[n++] = suf[i];
  CHECK(s.size() == n); bool same = true; for (unsigned i = 0; i < 28; ++i) if (i < n && s[i] != b[i]) same = false; CHECK(same);
  COVER(n == 28); COVER(n == 20);
}
HARNESS(h_rev6) {
  u128 v = rd128(in); auto a = mk6(v);
  if (P) { ec c = ec::no_error; a.set_scope_id(Str("eth0", P), c); }
  std::string s = a.reverse_pointer();
  CHECK(s.size() == 72); bool same = true;
  const char suf[] = "ip6.arpa";
  if (s.size() == 72) {
    for (unsigned i = 0; i < 32; ++i) { unsigned x = unsigned(v >> (4 * i)) & 15; if (s[2 * i] != char(x < 10 ? '0' + x : 'a' + x - 10) || s[2 * i + 1] != '.') same = false; }
    for (unsigned i = 0; i < 8; ++i) if (s[64 + i] != suf[i]) same = false;
  }
  CHECK(same);
  COVER(true);
}
