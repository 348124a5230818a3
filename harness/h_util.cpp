// C36: optional, byte array and fixed string against their standard meaning.
#include "nets.hpp"
#include <array>
#include <string>
typedef error_code ec;
template <class X> INL void order(const X& a, const X& b, bool lt, bool eq) {
  CHECK((a == b) == eq); CHECK((a != b) == !eq); CHECK((a < b) == lt); CHECK((a <= b) == (lt || eq)); CHECK((a > b) == !(lt || eq)); CHECK((a >= b) == !lt);
}
// every sequence of P operations on two optionals, each operation and value free
template <class V, class F> INL void opt(const uint8_t* in, unsigned P, F mk) {
  typedef ipaddress::optional<V> O;
  O a, b; bool ha = false, hb = false; uint8_t va = 0, vb = 0;
  CHECK(!a.has_value());
  for (unsigned i = 0; i < P; ++i) {
    uint8_t op = in[2 * i] % 9, x = in[2 * i + 1];
    switch (op) {
      case 0: a = nullptr; ha = false; break;
      case 1: a = mk(x); ha = true; va = x; break;
      case 2: { O t(b); a = t; ha = hb; va = vb; break; }
      case 3: b = a; hb = ha; vb = va; break;
      case 4: { V v = mk(x); O t(v); b = t; hb = true; vb = x; break; }
      case 5: { O t(nullptr); b = t; hb = false; break; }
      case 6: if (a.has_value()) { *a = mk(x); va = x; } break;
      case 7: { O& r = a; a = r; break; }
      default: { O t(std::move(a)); a = b; b = t; bool h = ha; uint8_t v = va; ha = hb; va = vb; hb = h; vb = v; break; }
    }
    CHECK(a.has_value() == ha); CHECK(bool(a) == ha); CHECK(b.has_value() == hb); CHECK(bool(b) == hb);
    if (ha) { const O& c = a; CHECK(*a == mk(va)); CHECK(a.value() == mk(va)); CHECK(*c == mk(va)); CHECK(c.value() == mk(va)); CHECK(a.operator->() == &a.value() && c.operator->() == &c.value()); CHECK(O(a).value() == mk(va)); }
    if (hb) CHECK(b.value() == mk(vb));
  }
  COVER(ha && hb && va != vb);
}
HARNESS(h_optint) { opt<uint32_t>(in, P, [](uint8_t x) { return uint32_t(x); }); }
HARNESS(h_optaddr) { opt<ipv4_address>(in, P, [](uint8_t x) { return mk4(x); }); }
HARNESS(h_optnet) { opt<ipv6_network>(in, P, [](uint8_t x) { return mknet<N6>(x, x % 129); }); }
template <size_t N> INL void bytes(const uint8_t* in) {
  typedef byte_array<N> B; B a{}, b{}; for (size_t i = 0; i < N; ++i) { a[i] = in[i]; b._data[i] = in[N + i]; }
  int c = 0; for (size_t i = N; i-- > 0;) c = in[i] < in[N + i] ? -1 : in[i] > in[N + i] ? 1 : c;
  order(a, b, c < 0, c == 0);
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
  CHECK(((a <=> b) < 0) == (c < 0)); CHECK(((a <=> b) == 0) == (c == 0));
#endif
  const B& k = a; size_t n = 0; bool ok = true;
  for (auto p = k.begin(); p != k.end(); ++p, ++n) if (*p != in[n]) ok = false;
  CHECK(ok && n == N); n = 0; ok = true;
  for (auto p = k.rbegin(); p != k.rend(); ++p, ++n) if (*p != in[N - 1 - n]) ok = false;
  CHECK(ok && n == N); CHECK(k.cbegin() == k.begin() && k.cend() == k.end() && k.crbegin() == k.rbegin() && k.crend() == k.rend());
  CHECK(k.size() == N && k.max_size() == N && k.empty() == (N == 0)); CHECK(k.front() == in[0] && k.back() == in[N - 1] && a.front() == in[0] && a.back() == in[N - 1]); CHECK(k.data() == k.begin() && a.data() == k.data());
  size_t j = size_t(rd64(in + 2 * N)); bool th = false; uint8_t x = 0, y = 0;
#ifndef IPADDRESS_NO_EXCEPTIONS
  try { x = k.at(j); } catch (const std::out_of_range&) { th = true; }
  CHECK(th == (j >= N)); if (!th) CHECK(x == in[j]); th = false;
  try { y = a.at(j); } catch (const std::out_of_range&) { th = true; }
  CHECK(th == (j >= N)); if (!th) CHECK(y == in[j]);
#else
  if (j < N) { CHECK(k.at(j) == in[j]); CHECK(k[j] == in[j]); CHECK(a[j] == in[j]); } (void) x; (void) y; (void) th;
#endif
  if (j < N) { a.at(j) = 7; CHECK(k[j] == 7); a[j] = in[j]; }
  B s = a, t = b; s.swap(t); CHECK(s == b && t == a); std::swap(s, t); CHECK(s == a && t == b); s.swap(s); CHECK(s == a);
  COVER(a < b); COVER(a == b);
}
HARNESS(h_bytes) { switch (P) { case 1: bytes<1>(in); break; case 4: bytes<4>(in); break; case 16: bytes<16>(in); break; default: bytes<7>(in); break; } }
HARNESS(h_bytes0) {
  byte_array<0> a, b; CHECK(a == b); CHECK(!(a != b)); CHECK(!(a < b)); CHECK(a <= b); CHECK(a.empty() && a.size() == 0 && a.max_size() == 0); CHECK(a.begin() == a.end()); CHECK(a.rbegin() == a.rend()); a.swap(b);
#ifndef IPADDRESS_NO_EXCEPTIONS
  bool th = false; try { (void) a.at(size_t(rd64(in))); } catch (const std::out_of_range&) { th = true; } CHECK(th);
#endif
  COVER(true);
}
// fixed strings of ASCII text in an array of N+1 characters (ended by the first NUL); P = what
template <class C, size_t N> INL size_t fill(const uint8_t* in, C (&t)[N + 1]) { size_t n = N; for (size_t i = 0; i < N; ++i) { ASSUME(in[i] < 128); t[i] = C(in[i]); if (in[i] == 0 && n == N) n = i; } t[N] = C(0); return n; }
template <class C, size_t N> INL void fixed(const uint8_t* in) {
  C t[N + 1]; size_t n = fill<C, N>(in, t);
  ec c = ec(in[N + 8] % 33); auto a = make_fixed_string(t, c); CHECK(is_ok(c));
  fixed_string<N> b(t); CHECK(a == b); CHECK(a.size() == n && a.empty() == (n == 0) && a.capacity() == N);
  size_t m = 0; bool ok = true; for (auto p = a.begin(); p != a.end(); ++p, ++m) if (uint8_t(*p) != in[m]) ok = false;
  CHECK(ok && m == n); m = 0; ok = true; for (auto p = a.rbegin(); p != a.rend(); ++p, ++m) if (uint8_t(*p) != in[n - 1 - m]) ok = false;
  CHECK(ok && m == n); CHECK(a.cbegin() == a.begin() && a.cend() == a.end() && a.crbegin() == a.rbegin() && a.crend() == a.rend() && a.data() == a.begin());
  if (n) CHECK(a.front() == char(in[0]) && a.back() == char(in[n - 1]));
  size_t j = size_t(rd64(in + N));
#ifndef IPADDRESS_NO_EXCEPTIONS
  bool th = false; char x = 0; try { x = a.at(j); } catch (const std::out_of_range&) { th = true; } CHECK(th == (j >= n)); if (!th) CHECK(x == char(in[j]));
  th = false; try { x = a[j]; } catch (const std::out_of_range&) { th = true; } CHECK(th == (j >= n)); if (!th) CHECK(x == char(in[j]));
#else
  if (j < n) { CHECK(a.at(j) == char(in[j])); CHECK(a[j] == char(in[j])); }
#endif
  COVER(n == N); COVER(n == 0);
}
HARNESS(h_fixed) { switch (P) { case 1: fixed<char, 1>(in); break; case 5: fixed<char, 5>(in); break; case 16: fixed<char, 16>(in); break; case 23: fixed<wchar_t, 3>(in); break; case 33: fixed<char16_t, 3>(in); break; case 43: fixed<char32_t, 3>(in); break;
#if __cpp_char8_t >= 201811L
  case 53: fixed<char8_t, 3>(in); break;
#endif
  default: fixed<char, 3>(in); break; } }
template <size_t N, size_t M> INL void fixed2(const uint8_t* in) {
  char t[N + 1], u[M + 1]; size_t n = fill<char, N>(in, t), m = fill<char, M>(in + N, u);
  fixed_string<N> a(t); fixed_string<M> b(u);
  int c = 0; size_t i = 0; for (; i < n && i < m; ++i) if (t[i] != u[i]) { c = t[i] < u[i] ? -1 : 1; break; }
  if (c == 0) c = n < m ? -1 : n > m;
  CHECK((a.compare(b) < 0) == (c < 0)); CHECK((a.compare(b) > 0) == (c > 0)); CHECK((b.compare(a) < 0) == (c > 0)); CHECK((b.compare(a) == 0) == (c == 0));
  CHECK((a == b) == (c == 0)); CHECK((a != b) == (c != 0)); CHECK((a < b) == (c < 0)); CHECK((a <= b) == (c <= 0)); CHECK((a > b) == (c > 0)); CHECK((a >= b) == (c >= 0));
  fixed_string<0> z; CHECK((z == a) == (n == 0)); CHECK((z < a) == (n != 0)); CHECK((a > z) == (n != 0)); CHECK((a == z) == (n == 0));
  COVER(c < 0); COVER(c == 0); COVER(c > 0);
}
template <size_t N> INL void fswap(const uint8_t* in) {
  char t[N + 1], u[N + 1]; size_t n = fill<char, N>(in, t), m = fill<char, N>(in + N, u);
  fixed_string<N> a(t), b(u), x = a, y = b; x.swap(y); CHECK(x == b && y == a && x.size() == m && y.size() == n); x.swap(x); CHECK(x == b); std::swap(x, y); CHECK(x == a && y == b); x = y; CHECK(x == b); COVER(n < m); COVER(n > m);
}
HARNESS(h_fixed2) { switch (P) { case 33: fixed2<3, 3>(in); break; case 25: fixed2<2, 5>(in); break; case 52: fixed2<5, 2>(in); break; case 3: fswap<3>(in); break; case 16: fswap<16>(in); break; default: fixed2<8, 8>(in); break; } }
// equal fixed strings hash alike
HARNESS(h_fixhash) { char t[6], u[9] = {}; size_t n = fill<char, 5>(in, t); ASSUME(n == P); for (size_t i = 0; i < n; ++i) u[i] = t[i]; fixed_string<5> a(t); fixed_string<8> b(u); CHECK(a.hash() == b.hash()); COVER(true); }
