// C06: the throwing overload and the error-code overload agree (built with exceptions).
#include "nets.hpp"
#include "ref.hpp"
typedef error_code ec;
#ifndef ENT
#define ENT 0
#endif
#if ENT == 0
typedef ipv4_address X;
#elif ENT == 1
typedef ipv6_address X;
#elif ENT == 2
typedef ip_address X;
#elif ENT == 3
typedef ipv4_network X;
#elif ENT == 4
typedef ipv6_network X;
#else
typedef ip_network X;
#endif
#if IPADDRESS_CPP_VERSION >= 17
template <class C> using Text = std::basic_string_view<C>;
#else
template <class C> using Text = std::basic_string<C>;
#endif
static const char* const PAT[6][5] = {
  {"", "1.2.3.", "255.25", "10.", "1.2.3.4.5.6.7.8.9.1.2.3.4.5.6.7.8.9."}, {"", "1:2:3:4:5:6:", "::ffff:1.2.", "fe80::%", "fe80::%0123456789abcde"}, {"", "1.2.3.", "::1.2.", "fe80::%", "1:2:3:4:5:6:7:"},
  {"", "0.0.0.0/", "1.2.3.4/255.255.255.2", "10.0.", "1.2.3.4/32"}, {"", "::/", "1:2::/", "::%e", "1::/1"}, {"", "0.0.0.0/", "::/1", "::%e/", "10.0.0.0/2"}};
template <class C> INL unsigned put_pat(unsigned pat, C* out) { const char* s = PAT[ENT][pat]; unsigned k = 0; for (; s[k]; ++k) out[k] = C(s[k]); return k; }
// 1 parse_error, 2 logic_error, 3 error
INL int klass(ec c) {
  return c == ec::invalid_version || c == ec::invalid_prefixlen_diff || c == ec::new_prefix_must_be_shorter || c == ec::new_prefix_must_be_longer || c == ec::cannot_set_prefixlen_diff_and_new_prefix || c == ec::not_contained_network ? 2 : 1;
}
template <class F> INL int attempt(F f, ec& c) {
  c = ec::no_error;
  try { f(); return 0; }
  catch (const parse_error& e) { c = e.code(); return 1; }
  catch (const ::ipaddress::logic_error& e) { c = e.code(); return 2; }
  catch (const error& e) { c = e.code(); return 3; }
}
INL void agree(ec code, int thrown, ec tcode) {
  CHECK((thrown != 0) == (code != ec::no_error));
  CHECK(tcode == code);
  if (thrown) CHECK(thrown == klass(code));
  COVER(thrown != 0);
}
INL ec stale(uint8_t b) { return ec(b % 33); }
#if GRP == 0
template <class C> INL void ptext(const uint8_t* in, unsigned P) {
  unsigned n = P % 100; C t[64]; unsigned k = put_pat(P / 100, t);
  for (unsigned i = 0; i < n; ++i) t[k + i] = reinterpret_cast<const C*>(in + 2)[i];
  Text<C> s(t, k + n);
  ec c = stale(in[0]), d; X r, q;
  r = X::parse(s, c);
  int th = attempt([&]() __attribute__((always_inline)) { q = X::parse(s); }, d);
  agree(c, th, d);
  CHECK(th != 0 || r == q);
  COVER(th == 0);
}
HARNESS(h_text) { ptext<char>(in, P); }
HARNESS(h_text16) { ptext<char16_t>(in, P); }
template <class C, unsigned M> INL void parr(const uint8_t* in, unsigned P) {
  C t[M + 1] = {}; for (unsigned i = 0; i < M; ++i) t[i] = reinterpret_cast<const C*>(in + 2)[i];
  ec c = stale(in[0]), d; X r, q;
  r = X::parse(t, c);
  int th = attempt([&]() __attribute__((always_inline)) { q = X::parse(t); }, d);
  agree(c, th, d);
  CHECK(th != 0 || r == q);
}
HARNESS(h_arr) { switch (P) { case 1: parr<char, 1>(in, P); break; case 3: parr<char, 3>(in, P); break; default: parr<char16_t, 2>(in, P); break; } }
// long texts (the message keeps the first 100 characters): the text is the input object, its first and last two characters free
template <class C, unsigned LO, unsigned HI> INL void plong(const uint8_t* in, unsigned P) {
  const C* t = reinterpret_cast<const C*>(in);
  for (unsigned i = LO; i + HI < P; ++i) ASSUME(t[i] == C('7'));
  Text<C> s(t, P); ec c = ec::no_error, d; X q;
  X::parse(s, c);
  int th = attempt([&]() __attribute__((always_inline)) { q = X::parse(s); }, d);
  agree(c, th, d); CHECK(th != 0);
}
HARNESS(h_long) { plong<char, 2, 2>(in, P); }
HARNESS(h_long16) { plong<char16_t, 0, 1>(in, P); }
#if ENT >= 3
HARNESS(h_textns) {   // non-strict
  unsigned n = P % 100; char t[64]; unsigned k = put_pat(P / 100, t);
  for (unsigned i = 0; i < n; ++i) t[k + i] = char(in[2 + i]);
  Text<char> s(t, k + n);
  ec c = stale(in[0]), d; X r, q; bool st = in[1] & 1;
  r = X::parse(s, c, st);
  int th = attempt([&]() __attribute__((always_inline)) { q = X::parse(s, st); }, d);
  agree(c, th, d);
  CHECK(th != 0 || r == q);
}
#endif
#elif GRP == 1 && (ENT == 1 || ENT == 2)
template <class C> INL void scp(const uint8_t* in, unsigned P, bool v4) {
  unsigned n = P % 100;
  X a, b;
#if ENT == 2
  a = b = v4 ? X(mk4(rd32(in + 1))) : X(mk6(rd32(in + 1)));
#else
  a = b = mk6(rd32(in + 1));
#endif
  Text<C> s(reinterpret_cast<const C*>(in + 6), n);
  ec c = stale(in[0]), d;
  a.set_scope_id(s, c);
  int th = attempt([&]() __attribute__((always_inline)) { b.set_scope_id(s); }, d);
  CHECK((th != 0) == (c != ec::no_error)); CHECK(d == c); if (th) CHECK(th == 1);
  CHECK(a == b); if (v4) CHECK(is_ok(c));
  COVER(th == 0); COVER(n <= 16 || th != 0 || v4);
}
HARNESS(h_scope) { scp<char>(in, P, false); }
HARNESS(h_scope16) { scp<char16_t>(in, P, false); }
#if ENT == 2
HARNESS(h_scope4) { scp<char>(in, P, true); }
#endif
#elif GRP == 2
// networks built from addresses, and the operations on networks; K = 4, 6
template <class T, class NN> struct E {
  typedef typename T::U U;
  static INL NN mk(U v, unsigned p) { return NN(mknet<T>(v, p)); }
  static INL void from(const uint8_t* in, unsigned) {
    U v = T::rd(in); size_t p = size_t(rd64(in + 32)); bool st = in[40] & 1;
    typename NN::ip_address_type a = T::mk(v);
    ec c = stale(in[41]), d; NN r, q;
    r = NN::from_address(a, c, p, st);
    int th = attempt([&]() __attribute__((always_inline)) { q = NN::from_address(a, p, st); }, d);
    agree(c, th, d); CHECK(th != 0 || r == q); COVER(th == 0);
  }
  static INL void super(const uint8_t* in, unsigned P) {
    unsigned p = pfx<T>(P, in[48]); NN n = mk(T::rd(in), p);
    size_t k = size_t(rd64(in + 32)), q = size_t(rd64(in + 40)); bool np = in[49] & 1;
    ec c = stale(in[50]), d; NN r, s;
    r = np ? n.supernet(c, k, q) : n.supernet(c, k);
    int th = attempt([&]() __attribute__((always_inline)) { s = np ? n.supernet(k, q) : n.supernet(k); }, d);
    agree(c, th, d); CHECK(th != 0 || r == s); COVER(th == 0);
  }
  static INL void subn(const uint8_t* in, unsigned P) {
    unsigned p = pfx<T>(P, in[48]); NN n = mk(T::rd(in), p);
    size_t k = size_t(rd64(in + 32)), q = size_t(rd64(in + 40)); bool np = in[49] & 1;
    ec c = stale(in[50]), d; NN f, g; bool same = true;
    auto r = np ? n.subnets(c, k, q) : n.subnets(c, k); f = *r.begin();
    int th = attempt([&]() __attribute__((always_inline)) { auto s = np ? n.subnets(k, q) : n.subnets(k); g = *s.begin(); same = s.size() == r.size() && s.begin() == r.begin() && s.end() == r.end(); }, d);
    agree(c, th, d); CHECK(th != 0 || (f == g && same)); COVER(th == 0);
  }
  static INL void excl(const uint8_t* in, unsigned P) {
    unsigned p = pfx<T>(P, in[48]), q = P < 1000 ? T::W < p + 2 ? T::W : p + 2 : pfx<T>(P, in[49]); NN n = mk(T::rd(in), p), o = mk(T::rd(in + 16), q);
    ec c = stale(in[50]), d; NN f, g; bool same = true;
    auto r = n.address_exclude(o, c); f = r.empty() ? NN() : *r.begin();
    int th = attempt([&]() __attribute__((always_inline)) { auto s = n.address_exclude(o); g = s.empty() ? NN() : *s.begin(); same = s.empty() == r.empty(); }, d);
    agree(c, th, d); CHECK(th != 0 || (f == g && same)); COVER(th == 0);
  }
};
#if ENT != 4
HARNESS(h_from4) { E<N4, X>::from(in, P); }
HARNESS(h_super4) { E<N4, X>::super(in, P); }
HARNESS(h_subn4) { E<N4, X>::subn(in, P); }
HARNESS(h_excl4) { E<N4, X>::excl(in, P); }
#endif
#if ENT != 3
HARNESS(h_from6) { E<N6, X>::from(in, P); }
HARNESS(h_super6) { E<N6, X>::super(in, P); }
HARNESS(h_subn6) { E<N6, X>::subn(in, P); }
HARNESS(h_excl6) { E<N6, X>::excl(in, P); }
#endif
#if ENT == 5
HARNESS(h_exclmix) {
  ip_network n = in[49] & 1 ? ip_network(mknet<N4>(rd32(in), in[48] % 33)) : ip_network(mknet<N6>(rd32(in), in[48] % 129)), o = in[49] & 1 ? ip_network(mknet<N6>(rd32(in + 16), in[50] % 129)) : ip_network(mknet<N4>(rd32(in + 16), in[50] % 33));
  ec c = stale(in[51]), d; bool e = false;
  auto r = n.address_exclude(o, c);
  int th = attempt([&]() __attribute__((always_inline)) { auto s = n.address_exclude(o); e = s.empty(); }, d);
  agree(c, th, d); CHECK(c == ec::invalid_version); CHECK(r.empty());
}
#endif
#endif
