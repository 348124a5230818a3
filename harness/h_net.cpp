#include "nets.hpp"
typedef error_code ec;
template <class T> struct H {
  typedef typename T::A A; typedef typename T::N N; typedef typename T::U U;
  // ---- C20
  static INL void inv(const uint8_t* in, unsigned P) {
    U v = T::rd(in), x = T::rd(in + 16); unsigned p = pfx<T>(P, in[32]); U m = T::mask(p);
    N n = mknet<T>(v, p);
    CHECK(T::val(n.network_address()) == (v & m));
    CHECK(T::val(n.netmask()) == m);
    CHECK(T::val(n.hostmask()) == U(~m));
    CHECK(T::val(n.broadcast_address()) == U((v & m) | ~m));
    CHECK(n.prefixlen() == p);
    CHECK(T::ou(n.addresses_count()) == p2<T>(T::W - p));
    CHECK(n.contains(T::mk(x)) == ((x & m) == (v & m)));
    CHECK(n.version() == A::base_version);
    COVER(n.contains(T::mk(x)));
    COVER(p == 0 || !n.contains(T::mk(x)));
  }
  static INL void dflt(const uint8_t*, unsigned) {
    N n; CHECK(T::val(n.network_address()) == 0 && n.prefixlen() == T::W && T::val(n.netmask()) == U(~U(0)) && T::val(n.broadcast_address()) == 0);
    N d = N::from_address(T::mk(5)); CHECK(d.prefixlen() == T::W && T::val(d.network_address()) == 5);
    COVER(true);
  }
  // ---- C21
  static INL void from(const uint8_t* in, unsigned P) {
    U v = T::rd(in); size_t p = P < 1000 ? P : size_t(rd64(in + 32)); bool strict = in[40] & 1;
    ec c = ec(in[41] % 8);
    N n = N::from_address(T::mk(v), c, p, strict);
    if (p > T::W) { CHECK(!is_ok(c)); CHECK(n == N()); }
    else {
      U m = T::mask(unsigned(p)); bool hb = (v & m) != v;
      CHECK(is_ok(c) == !(strict && hb));
      CHECK((c == ec::has_host_bits_set) == (strict && hb));
      if (is_ok(c)) { CHECK(T::val(n.network_address()) == (v & m)); CHECK(n.prefixlen() == p); CHECK(T::val(n.netmask()) == m); }
    }
    COVER(is_ok(c));
    COVER(!is_ok(c));
  }
  // ---- C24
  static INL void super(const uint8_t* in, unsigned P) {
    U v = T::rd(in); unsigned p = pfx<T>(P, in[48]); U m = T::mask(p);
    N n = mknet<T>(v, p);
    size_t d = size_t(rd64(in + 32)); bool np = in[49] & 1; size_t q = size_t(rd64(in + 40));
    ec c = ec(in[50] % 8);
    N s = np ? n.supernet(c, d, q) : n.supernet(c, d);
    if (p == 0) { CHECK(is_ok(c)); CHECK(s == n); CHECK(s.prefixlen() == 0); }
    else if (np && q > p) CHECK(c == ec::new_prefix_must_be_shorter);
    else if (np && d != 1) CHECK(c == ec::cannot_set_prefixlen_diff_and_new_prefix);
    else if (!np && d > p) CHECK(c == ec::invalid_prefixlen_diff);
    else {
      unsigned t = np ? unsigned(q) : p - unsigned(d);
      CHECK(is_ok(c));
      CHECK(s.prefixlen() == t);
      CHECK(T::val(s.network_address()) == (v & m & T::mask(t)));
      CHECK(T::val(s.netmask()) == T::mask(t));
    }
    COVER(is_ok(c));
    COVER(p == 0 || !is_ok(c));
  }
  // ---- C25: relations from their definition on address intervals
  static INL void rel(const uint8_t* in, unsigned P) {
    U v = T::rd(in), w = T::rd(in + 16); unsigned p = pfx<T>(P, in[32]), q = pfx<T>(1000, in[33]);
    N a = mknet<T>(v, p), b = mknet<T>(w, q);
    U a0 = v & T::mask(p), a1 = a0 | U(~T::mask(p)), b0 = w & T::mask(q), b1 = b0 | U(~T::mask(q));
    CHECK(a.subnet_of(b) == (b0 <= a0 && a1 <= b1));
    CHECK(a.supernet_of(b) == (a0 <= b0 && b1 <= a1));
    CHECK(a.overlaps(b) == (a0 <= b1 && b0 <= a1));
    CHECK(b.overlaps(a) == (a0 <= b1 && b0 <= a1));
    CHECK(a.contains(T::mk(b0)) == (a0 <= b0 && b0 <= a1));
    COVER(a.subnet_of(b));
    COVER(p == 0 || !a.overlaps(b));
  }
  // ---- C27
  template <class X> static INL void order(const X& a, const X& b, bool lt, bool eq) {
    CHECK((a == b) == eq);
    CHECK((a != b) == !eq);
    CHECK((a < b) == lt);
    CHECK((a <= b) == (lt || eq));
    CHECK((a > b) == !(lt || eq));
    CHECK((a >= b) == !lt);
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    CHECK(((a <=> b) < 0) == lt);
    CHECK(((a <=> b) == 0) == eq);
    CHECK(((a <=> b) > 0) == !(lt || eq));
#endif
  }
  static INL void cmp(const uint8_t* in, unsigned P) {
    U v = T::rd(in), w = T::rd(in + 16); unsigned p = pfx<T>(P, in[32]), q = pfx<T>(1000, in[33]);
    N a = mknet<T>(v, p), b = mknet<T>(w, q);
    U a0 = v & T::mask(p), b0 = w & T::mask(q);
    order(a, b, a0 < b0 || (a0 == b0 && p < q), a0 == b0 && p == q);
    N x = a, y = b; x.swap(y); CHECK(x == b && y == a && x.prefixlen() == q && y.prefixlen() == p);
    COVER(a < b);
    COVER(a == b);
  }
  // equal networks reached by different routes hash alike
  static INL void hash(const uint8_t* in, unsigned P) {
    U v = T::rd(in); unsigned p = pfx<T>(P, in[16]); ec c = ec::no_error;
    N a = mknet<T>(v, p), b = N::from_address(T::mk(v), c, p, false);
    CHECK(is_ok(c)); CHECK(a == b); CHECK(a.hash() == b.hash()); CHECK(std::hash<N>{}(a) == a.hash());
    COVER(true);
  }
};
HARNESS(h_inv4) { H<N4>::inv(in, P); }
HARNESS(h_inv6) { H<N6>::inv(in, P); }
HARNESS(h_dflt4) { H<N4>::dflt(in, P); }
HARNESS(h_dflt6) { H<N6>::dflt(in, P); }
HARNESS(h_from4) { H<N4>::from(in, P); }
HARNESS(h_from6) { H<N6>::from(in, P); }
HARNESS(h_super4) { H<N4>::super(in, P); }
HARNESS(h_super6) { H<N6>::super(in, P); }
HARNESS(h_rel4) { H<N4>::rel(in, P); }
HARNESS(h_rel6) { H<N6>::rel(in, P); }
HARNESS(h_cmp4) { H<N4>::cmp(in, P); }
HARNESS(h_cmp6) { H<N6>::cmp(in, P); }
HARNESS(h_hash4) { H<N4>::hash(in, P); }
HARNESS(h_hash6) { H<N6>::hash(in, P); }
