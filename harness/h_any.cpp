// C19, C29: the version-independent address and network behave as what they hold.
#include "nets.hpp"
#include "ref.hpp"
typedef error_code ec;
typedef ip_address AA; typedef ip_network NN;
#if IPADDRESS_CPP_VERSION >= 17
typedef std::string_view Text;
#else
typedef std::string Text;
#endif
INL AA any4(uint32_t v) { return AA(mk4(v)); }
INL ipv6_address mk6s(u128 v, const uint8_t* s, unsigned n) {   // with a scope of n characters
  ipv6_address a = mk6(v);
  if (n) { char t[17] = {}; for (unsigned i = 0; i < n; ++i) { ASSUME(s[i] < 128 && ref_scope_char(char(s[i]))); t[i] = char(s[i]); } ec c = ec::no_error; a.set_scope_id(Text(t, n), c); ASSUME(is_ok(c)); }
  return a;
}
template <class S> INL bool same_str(const S& a, const S& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < b.size(); ++i) if (a[i] != b[i]) return false; return true; }
static const char* const PAT[8] = {"", "1.2.3.", "::ffff:1.2.", "fe80::%", "1:2:3:4:5:6:7:", "10.0.0.0/", "::/", "1.2.3.4/255.255.255."};
INL unsigned put_pat(unsigned pat, char* out) { const char* s = PAT[pat]; unsigned k = 0; for (; s[k]; ++k) out[k] = s[k]; return k; }
template <class X> INL void order(const X& a, const X& b, bool lt, bool eq) {
  CHECK((a == b) == eq); CHECK((a != b) == !eq); CHECK((a < b) == lt); CHECK((a <= b) == (lt || eq)); CHECK((a > b) == !(lt || eq)); CHECK((a >= b) == !lt);
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
  CHECK(((a <=> b) < 0) == lt); CHECK(((a <=> b) == 0) == eq); CHECK(((a <=> b) > 0) == !(lt || eq));
#endif
}
#if GRP == 19
HARNESS(h_aparse) {   // P = pattern*100 + n
  unsigned n = P % 100; char t[64]; unsigned k = put_pat(P / 100, t);
  for (unsigned i = 0; i < n; ++i) t[k + i] = char(in[1 + i]);
  Text s(t, k + n);
  ec c = ec(in[0] % 33), c4 = ec::no_error, c6 = ec::no_error;
  AA a = AA::parse(s, c);
  ipv4_address x = ipv4_address::parse(s, c4); ipv6_address y = ipv6_address::parse(s, c6);
  if (is_ok(c4)) { CHECK(is_ok(c)); CHECK(a.is_v4() && a.v4().value() == x); }
  else if (is_ok(c6)) { CHECK(is_ok(c)); CHECK(a.is_v6() && a.v6().value() == y); }
  else { CHECK(!is_ok(c)); CHECK(a == AA()); }
  COVER(is_ok(c)); COVER(!is_ok(c));
}
HARNESS(h_aq4) {
  uint32_t v = rd32(in); ipv4_address h = mk4(v); AA a = h;
  CHECK(a.version() == ip_version::V4); CHECK(a.is_v4()); CHECK(!a.is_v6()); CHECK(a.size() == 4);
  CHECK(a.is_multicast() == h.is_multicast()); CHECK(a.is_private() == h.is_private()); CHECK(a.is_global() == h.is_global()); CHECK(a.is_reserved() == h.is_reserved());
  CHECK(a.is_loopback() == h.is_loopback()); CHECK(a.is_link_local() == h.is_link_local()); CHECK(a.is_unspecified() == h.is_unspecified()); CHECK(!a.is_site_local());
  CHECK(!a.ipv4_mapped()); CHECK(!a.sixtofour()); CHECK(!a.teredo()); CHECK(!a.v6()); CHECK(bool(a.v4())); CHECK(a.v4().value() == h);
  CHECK(a.to_uint32() == v); CHECK(to_u128(a.to_uint128()) == v); CHECK(uint32_t(a) == v); CHECK(to_u128(uint128_t(a)) == v);
  CHECK(a.data()[0] == uint8_t(v >> 24) && a.data()[1] == uint8_t(v >> 16) && a.data()[2] == uint8_t(v >> 8) && a.data()[3] == uint8_t(v));
  CHECK(a.get_scope_id().get_string().empty()); CHECK(!a.get_scope_id().has_string() && !a.get_scope_id().has_uint32());
  ipv4_address::base_type b{}; b[0] = uint8_t(v >> 24); b[1] = uint8_t(v >> 16); b[2] = uint8_t(v >> 8); b[3] = uint8_t(v);
  CHECK(AA::from_bytes(b) == a); CHECK(AA(b) == a); CHECK(AA::from_uint(v) == a);
  uint8_t raw[4] = {b[0], b[1], b[2], b[3]};
  CHECK(AA::from_bytes(raw, 4, ip_version::V4) == a); CHECK(AA::from_bytes(raw, 3, ip_version::V4) == AA(ipv4_address::from_bytes(raw, 3)));
  AA e = a; ec c = ec(in[4] % 33); e.set_scope_id(Text("x", 1), c); CHECK(is_ok(c)); CHECK(e == a);
  CHECK(AA() == any4(0)); CHECK(AA().is_v4());
  COVER(a.is_private()); COVER(a.is_multicast());
}
HARNESS(h_aq6) {   // P = scope length
  u128 v = rd128(in); ipv6_address h = mk6s(v, in + 16, P); AA a = h;
  CHECK(a.version() == ip_version::V6); CHECK(!a.is_v4()); CHECK(a.is_v6()); CHECK(a.size() == 16);
  CHECK(a.is_multicast() == h.is_multicast()); CHECK(a.is_private() == h.is_private()); CHECK(a.is_global() == h.is_global()); CHECK(a.is_reserved() == h.is_reserved());
  CHECK(a.is_loopback() == h.is_loopback()); CHECK(a.is_link_local() == h.is_link_local()); CHECK(a.is_unspecified() == h.is_unspecified()); CHECK(a.is_site_local() == h.is_site_local());
  CHECK(bool(a.ipv4_mapped()) == bool(h.ipv4_mapped())); CHECK(!a.ipv4_mapped() || a.ipv4_mapped().value() == h.ipv4_mapped().value());
  CHECK(bool(a.sixtofour()) == bool(h.sixtofour())); CHECK(!a.sixtofour() || a.sixtofour().value() == h.sixtofour().value());
  CHECK(bool(a.teredo()) == bool(h.teredo())); CHECK(!a.teredo() || (a.teredo().value().first == h.teredo().value().first && a.teredo().value().second == h.teredo().value().second));
  CHECK(!a.v4()); CHECK(bool(a.v6())); CHECK(a.v6().value() == h); CHECK(a.get_scope_id() == h.get_scope_id());
  CHECK(a.to_uint32() == uint32_t(v)); CHECK(to_u128(a.to_uint128()) == v); CHECK(uint32_t(a) == uint32_t(v)); CHECK(to_u128(uint128_t(a)) == v);
  bool d = true; for (int i = 0; i < 16; ++i) if (a.data()[i] != uint8_t(v >> (120 - 8 * i))) d = false; CHECK(d);
  COVER(a.is_private()); COVER(P != 0 || bool(a.teredo())); COVER(bool(a.sixtofour())); COVER(bool(a.ipv4_mapped()));
}
HARNESS(h_amk6) {
  u128 v = rd128(in); AA a = mk6(v); ipv6_address::base_type b{}; uint8_t raw[16];
  for (int i = 0; i < 16; ++i) raw[i] = b[i] = uint8_t(v >> (120 - 8 * i));
  CHECK(AA::from_bytes(b) == a); CHECK(AA(b) == a); CHECK(AA::from_uint(from_u128(v)) == a); CHECK(AA::from_bytes(raw, 16, ip_version::V6) == a); CHECK(AA::from_bytes(raw, 15, ip_version::V6) == AA(ipv6_address::from_bytes(raw, 15)));
  AA x = a, y = any4(rd32(in + 16)); x.swap(y); CHECK(x == any4(rd32(in + 16)) && y == a); std::swap(x, y); CHECK(x == a && y.is_v4());
  AA z = any4(rd32(in)); z = a; CHECK(z == a); a = any4(rd32(in)); CHECK(a.is_v4() && a.to_uint32() == rd32(in));
  COVER(true);
}
HARNESS(h_ascope6) {   // set_scope_id on a held IPv6 address is that of the address; P = text length
  ipv6_address h = mk6(rd128(in)); AA a = h; ec c = ec::no_error, d = ec(in[17] % 33);
  char t[20]; for (unsigned i = 0; i < P; ++i) t[i] = char(in[18 + i]);
  h.set_scope_id(Text(t, P), c); a.set_scope_id(Text(t, P), d);
  CHECK(c == d); CHECK(a == AA(h)); CHECK(a.get_scope_id() == h.get_scope_id());
  COVER(P > 16 || is_ok(c)); COVER(P == 0 || !is_ok(c));
}
HARNESS(h_ahash4) { ipv4_address h = mk4(rd32(in)); CHECK(AA(h).hash() == h.hash()); CHECK(std::hash<AA>{}(AA(h)) == h.hash()); COVER(true); }
HARNESS(h_ahash6) { ipv6_address h = mk6(rd128(in)); CHECK(AA(h).hash() == h.hash()); CHECK(std::hash<AA>{}(AA(h)) == h.hash()); COVER(true); }
HARNESS(h_aord) {   // P: bit 0 / bit 1 the versions
  uint32_t p = rd32(in), q = rd32(in + 16); u128 v = rd128(in), w = rd128(in + 16);
  AA a = P & 1 ? AA(mk6(v)) : any4(p), b = P & 2 ? AA(mk6(w)) : any4(q);
  if (P == 0) order(a, b, p < q, p == q); else if (P == 3) order(a, b, v < w, v == w); else order(a, b, P == 2, false);
  COVER(a != b);
}
HARNESS(h_aordsc) {   // held addresses with scopes: the order is theirs; P = 100*m + n
  ipv6_address x = mk6s(rd128(in), in + 32, P / 100), y = mk6s(rd128(in + 16), in + 32 + P / 100, P % 100);
  order(AA(x), AA(y), x < y, x == y);
  AA s = x; s.swap(s); CHECK(s == AA(x)); COVER(AA(x) < AA(y));
}
HARNESS(h_atext4) {
  ipv4_address h = mk4(rd32(in)); AA a = h;
  if (P == 9) { CHECK(same_str(a.reverse_pointer(), h.reverse_pointer())); COVER(true); return; }
  if (P == 3) { CHECK(same_str(a.to_string(), h.to_string(format::compressed))); CHECK(same_str(std::to_string(a), h.to_string())); CHECK(same_str(std::string(a), h.to_string())); }
  else if (P == 4) CHECK(same_str(a.to_wstring(), h.to_wstring()));
  else if (P == 5) CHECK(same_str(a.to_u16string(), h.to_u16string()));
  else if (P == 6) CHECK(same_str(a.to_u32string(), h.to_u32string()));
#if __cpp_char8_t >= 201811L
  else if (P == 7) CHECK(same_str(a.to_u8string(), h.to_u8string()));
#endif
  else CHECK(same_str(a.to_string(format(P)), h.to_string(format(P))));
  COVER(true);
}
HARNESS(h_atext6) {   // P = what*100 + scope length
  unsigned w = P / 100; u128 v = rd128(in); if (w > 2 && w != 9) v = u128(0x20010db800000000ull) << 64 | (rd32(in) | 0x10001000u);
  if (w == 0 || w == 3) v = (v & ~(~u128(0) >> 32 << 8)) | (u128(0x2001) << 112);   // one run of zero groups
  ipv6_address h = mk6s(v, in + 16, P % 100); AA a = h;
  if (w == 9) CHECK(same_str(a.reverse_pointer(), h.reverse_pointer()));
  else if (w == 3) { CHECK(same_str(a.to_string(), h.to_string(format::compressed))); CHECK(same_str(std::to_string(a), h.to_string())); }
  else if (w == 4) CHECK(same_str(a.to_wstring(format::compact), h.to_wstring(format::compact)));
  else if (w == 5) CHECK(same_str(a.to_u16string(format::full), h.to_u16string(format::full)));
  else if (w == 6) CHECK(same_str(a.to_u32string(format::compact), h.to_u32string(format::compact)));
#if __cpp_char8_t >= 201811L
  else if (w == 7) CHECK(same_str(a.to_u8string(format::full), h.to_u8string(format::full)));
#endif
  else { format f = w == 0 ? format::compressed : w == 1 ? format::compact : format::full; CHECK(same_str(a.to_string(f), h.to_string(f))); }
  COVER(true);
}
#else
template <class T> struct Q {
  typedef typename T::A A; typedef typename T::N N; typedef typename T::U U;
  static INL NN wrap(const N& n) { return NN(n); }
  static INL void query(const uint8_t* in, unsigned P) {
    unsigned p = pfx<T>(P, in[32]); N h = mknet<T>(T::rd(in), p); NN n = h;
    CHECK(n.version() == h.version()); CHECK(n.is_v4() == (T::W == 32)); CHECK(n.is_v6() == (T::W == 128)); CHECK(n.prefixlen() == p); CHECK(n.size() == h.size());
    CHECK(n.network_address() == AA(h.network_address())); CHECK(n.broadcast_address() == AA(h.broadcast_address())); CHECK(n.netmask() == AA(h.netmask())); CHECK(n.hostmask() == AA(h.hostmask()));
    CHECK(to_u128(n.addresses_count()) == (T::W == 128 ? to_u128(n.addresses_count()) & 0 : 0) + (u128) T::ou(h.addresses_count()));
    AA x = T::mk(T::rd(in + 16)); CHECK(n.contains(x) == h.contains(T::mk(T::rd(in + 16))));
    AA y = T::W == 32 ? AA(mk6(rd128(in + 16))) : AA(mk4(rd32(in + 16))); CHECK(!n.contains(y));
    NN d; CHECK(d.is_v4() && d.prefixlen() == 32 && d == NN(ipv4_network()));
    COVER(n.contains(x)); COVER(p == 0 || !n.contains(x));
  }
  static INL void held(const uint8_t* in, unsigned P) {
    unsigned p = pfx<T>(P, in[32]); N h = mknet<T>(T::rd(in), p); NN n = h;
    CHECK(bool(n.v4()) == (T::W == 32)); CHECK(bool(n.v6()) == (T::W == 128));
    check_held(n, h);
    NN a = n, b = T::W == 32 ? NN(mknet<N6>(rd128(in + 16), 77)) : NN(mknet<N4>(rd32(in + 16), 17)), b0 = b; a.swap(b); CHECK(a == b0 && b == n); std::swap(a, b); CHECK(a == n && b == b0); a = b; CHECK(a == b0);
    COVER(true);
  }
  static INL void check_held(const NN& n, const ipv4_network& h) { CHECK(n.v4().value() == h); }
  static INL void check_held(const NN& n, const ipv6_network& h) { CHECK(n.v6().value() == h); }
  static INL bool site(const ipv4_network&) { return false; }
  static INL bool site(const ipv6_network& h) { return h.is_site_local(); }
  static INL void klass(const uint8_t* in, unsigned P) {
    unsigned p = pfx<T>(P, in[32]); N h = mknet<T>(T::rd(in), p); NN n = h;
    CHECK(n.is_multicast() == h.is_multicast()); CHECK(n.is_private() == h.is_private()); CHECK(n.is_global() == h.is_global()); CHECK(n.is_reserved() == h.is_reserved());
    CHECK(n.is_loopback() == h.is_loopback()); CHECK(n.is_link_local() == h.is_link_local()); CHECK(n.is_unspecified() == h.is_unspecified()); CHECK(n.is_site_local() == site(h));
    COVER(n.is_private()); COVER(n.is_multicast());
  }
  static INL void rel(const uint8_t* in, unsigned P) {
    unsigned p = pfx<T>(P, in[32]), q = pfx<T>(1000, in[33]); N h = mknet<T>(T::rd(in), p), k = mknet<T>(T::rd(in + 16), q); NN n = h, m = k;
    CHECK(n.subnet_of(m) == h.subnet_of(k)); CHECK(n.supernet_of(m) == h.supernet_of(k)); CHECK(n.overlaps(m) == h.overlaps(k));
    order(n, m, h < k, h == k);
    NN o = T::W == 32 ? NN(mknet<N6>(rd128(in + 16), q)) : NN(mknet<N4>(rd32(in + 16), q % 33));
    CHECK(!n.subnet_of(o)); CHECK(!n.supernet_of(o)); CHECK(!n.overlaps(o)); order(n, o, T::W == 32, false);
    COVER(n.subnet_of(m)); COVER(n.overlaps(m));
  }
  static INL void from(const uint8_t* in, unsigned P) {
    U v = T::rd(in); size_t p = P < 1000 ? P : size_t(rd64(in + 32)); bool st = in[40] & 1; ec c = ec(in[41] % 33), d = ec::no_error;
    NN n = NN::from_address(AA(T::mk(v)), c, p, st); N h = N::from_address(T::mk(v), d, p, st);
    CHECK(c == d); if (is_ok(c)) CHECK(n == NN(h)); 
    COVER(is_ok(c)); COVER(!is_ok(c));
  }
  static INL void super(const uint8_t* in, unsigned P) {
    unsigned p = pfx<T>(P, in[32]); N h = mknet<T>(T::rd(in), p); NN n = h; size_t k = size_t(rd64(in + 16)), q = size_t(rd64(in + 24)); bool np = in[33] & 1; ec c = ec(in[34] % 33), d = ec::no_error;
    NN a = np ? n.supernet(c, k, q) : n.supernet(c, k); N b = np ? h.supernet(d, k, q) : h.supernet(d, k);
    CHECK(c == d); if (is_ok(c)) CHECK(a == NN(b)); 
    COVER(is_ok(c)); COVER(p == 0 || !is_ok(c));
  }
  // the sequences, element by element
  template <class SA, class SH> static INL void seq(SA& s, SH& t, U k, U n1, bool cast) {
    CHECK(s.empty() == t.empty());
    CHECK(to_u128(s.size()) == u128(T::ou(t.size())));
    typedef typename SA::value_type V;
    CHECK(s.front() == V(t.front())); CHECK(s.back() == V(t.back())); CHECK(*s.begin() == V(*t.begin())); CHECK(*s.rbegin() == V(*t.rbegin()));
    CHECK(s.begin() != s.end()); CHECK(s.cbegin() == s.begin() && s.cend() == s.end() && s.crbegin() == s.rbegin() && s.crend() == s.rend());
    ASSUME(k <= n1); uint128_t K = from_u128(k);
    auto i = s.begin() + K, j = i; ++j; auto e = t.begin() + T::ut(k), f = e; ++f;
    CHECK(*i == V(*e)); CHECK(s[K] == V(*e)); CHECK(s.at(K) == V(*e)); CHECK(s.begin()[K] == V(*e)); CHECK((j == s.end()) == (f == t.end())); CHECK(i < j); CHECK(i != s.end());
    CHECK(k == n1 || *j == V(*f)); CHECK(to_u128(j.uint_diff(s.begin())) == u128(T::ou(f.uint_diff(t.begin()))));
    auto o = j; --o; CHECK(o == i); o = i; CHECK(o++ == i && o == j); CHECK(o-- == j && o == i); CHECK((j - K) == s.begin() + uint128_t(1)); o += uint128_t(1); CHECK(o == j); o -= uint128_t(1); CHECK(o == i);
    CHECK(*i.operator->() == *i);
    auto r = s.rbegin() + K; auto u = t.rbegin() + T::ut(k); CHECK(*r == V(*u)); CHECK(r != s.rend()); ++r; ++u; CHECK((r == s.rend()) == (u == t.rend()));
    COVER(k == n1); (void) cast;
  }
  static INL void hosts(const uint8_t* in, unsigned P) {
    unsigned p = pfx<T>(P, in[32]); N h = mknet<T>(T::rd(in), p); NN n = h;
    auto s = n.hosts(); auto t = h.hosts();
    U n1 = T::val(t.back()) - T::val(t.front());
    seq(s, t, T::rd(in + 16), n1, true);
  }
  static INL void subn(const uint8_t* in, unsigned P) {   // P = p*1000 + q
    unsigned p = P / 1000, q = P % 1000; N h = mknet<T>(T::rd(in), p); NN n = h; ec c = ec(in[34] % 33), d = ec::no_error;
    auto s = in[35] & 1 ? n.subnets(c, 1, q) : n.subnets(c, q - p); auto t = h.subnets(d, 1, q);
    CHECK(is_ok(c) && is_ok(d));
    seq(s, t, T::rd(in + 16), U(p2<T>(q - p) - 1), false);
  }
  static INL void suberr(const uint8_t* in, unsigned P) {
    unsigned p = pfx<T>(P, in[32]); N h = mknet<T>(T::rd(in), p); NN n = h; size_t k = size_t(rd64(in + 16)), q = size_t(rd64(in + 24)); bool np = in[33] & 1; ec c = ec(in[34] % 33), d = ec::no_error;
    auto s = np ? n.subnets(c, k, q) : n.subnets(c, k); auto t = np ? h.subnets(d, k, q) : h.subnets(d, k);
    CHECK(c == d); CHECK(s.empty() == t.empty()); CHECK(t.empty() || *s.begin() == NN(*t.begin())); CHECK(is_ok(c) || to_u128(s.size()) == 0);
    COVER(is_ok(c)); COVER(p == T::W || !is_ok(c));
  }
  static INL void excl(const uint8_t* in, unsigned P) {   // P = p*1000 + q
    unsigned p = P / 1000, q = P % 1000; N h = mknet<T>(T::rd(in), p), k = mknet<T>(T::rd(in + 16), q); NN n = h, m = k; ec c = ec(in[34] % 33), d = ec::no_error;
    auto s = n.address_exclude(m, c); auto t = h.address_exclude(k, d);
    CHECK(c == d); CHECK(s.empty() == t.empty());
    auto i = s.begin(); auto j = t.begin(); unsigned g = 0;
    for (; g < 12 && j != t.end(); ++g, ++i, ++j) { CHECK(i != s.end()); CHECK(*i == NN(*j)); }
    CHECK(j != t.end() || i == s.end());
    COVER(is_ok(c)); COVER(p == 0 || !is_ok(c));
  }
  static INL void text(const uint8_t* in, unsigned P) {   // P = what*1000 + p
    unsigned p = P % 1000, w = P / 1000; U v = T::rd(in); if (T::W == 128 && w != 1 && w != 2) v = (v & 0xffff) | U(T::W == 128 ? 0x2001 : 0) << (T::W - 16);
    N h = mknet<T>(v, p); NN n = h;
    if (w == 0) { CHECK(same_str(n.to_string(), h.to_string())); CHECK(same_str(std::to_string(n), h.to_string())); CHECK(same_str(std::string(n), h.to_string())); }
    else if (w == 1) CHECK(same_str(n.to_string(format::full), h.to_string(format::full)));
    else if (w == 2) CHECK(same_str(n.to_string(format::compact), h.to_string(format::compact)));
    else if (w == 3) CHECK(same_str(n.to_wstring(format::full), h.to_wstring(format::full)));
    else if (w == 4) CHECK(same_str(n.to_u16string(format::full), h.to_u16string(format::full)));
    else if (w == 5) CHECK(same_str(n.to_u32string(format::compact), h.to_u32string(format::compact)));
#if __cpp_char8_t >= 201811L
    else if (w == 6) CHECK(same_str(n.to_u8string(), h.to_u8string()));
#endif
    COVER(true);
  }
  static INL void hash(const uint8_t* in, unsigned P) { N h = mknet<T>(T::rd(in), P); CHECK(NN(h).hash() == h.hash()); CHECK(std::hash<NN>{}(NN(h)) == h.hash()); COVER(true); }
};
#define BOTH(n) HARNESS(h_n##n##4) { Q<N4>::n(in, P); } HARNESS(h_n##n##6) { Q<N6>::n(in, P); }
#if GRP == 29
BOTH(query) BOTH(held) BOTH(klass) BOTH(rel) BOTH(from) BOTH(super) BOTH(hash)
#elif GRP == 30
BOTH(hosts) BOTH(subn) BOTH(suberr) BOTH(excl)
#else
BOTH(text)
HARNESS(h_nparse) {   // P = pattern*100 + n
  unsigned n = P % 100; char t[64]; unsigned k = put_pat(P / 100, t);
  for (unsigned i = 0; i < n; ++i) t[k + i] = char(in[1 + i]);
  Text s(t, k + n); bool st = in[0] & 64;
  ec c = ec(in[0] % 33), c4 = ec::no_error, c6 = ec::no_error;
  NN a = NN::parse(s, c, st);
  ipv4_network x = ipv4_network::parse(s, c4, st); ipv6_network y = ipv6_network::parse(s, c6, st);
  if (is_ok(c4)) { CHECK(is_ok(c)); CHECK(a.is_v4() && a.v4().value() == x); }
  else if (is_ok(c6)) { CHECK(is_ok(c)); CHECK(a.is_v6() && a.v6().value() == y); }
  else { CHECK(!is_ok(c)); CHECK(a == NN()); }
  COVER(is_ok(c)); COVER(!is_ok(c));
}
HARNESS(h_nexclmix) {
  NN n = P ? NN(mknet<N4>(rd32(in), in[32] % 33)) : NN(mknet<N6>(rd128(in), in[32] % 129)), o = P ? NN(mknet<N6>(rd128(in + 16), in[33] % 129)) : NN(mknet<N4>(rd32(in + 16), in[33] % 33));
  ec c = ec(in[34] % 33); auto s = n.address_exclude(o, c); CHECK(c == ec::invalid_version); CHECK(s.empty()); COVER(true);
}
#endif
#endif
