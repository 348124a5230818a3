#include "nets.hpp"
typedef error_code ec;
template <class T> struct S {
  typedef typename T::A A; typedef typename T::N N; typedef typename T::U U;
  typedef ip_address_iterator<A> AI; typedef ip_reverse_iterator<AI> RI;
  static INL bool at(const A& a, U v) { return T::val(a) == v; }
  static INL bool isnet(const N& n, U v, unsigned p) { return T::val(n.network_address()) == v && n.prefixlen() == p && T::val(n.netmask()) == T::mask(p); }
  // ---- C22
  static INL void hosts(const uint8_t* in, unsigned P) {
    U v = T::rd(in), k = T::rd(in + 16); unsigned p = pfx<T>(P, in[32]); U m = T::mask(p), lo = v & m, hi = lo | U(~m);
    U first = p >= T::W - 1 ? lo : lo + 1, last = p >= T::W - 1 || T::W == 128 ? hi : hi - 1, n1 = last - first;   // n1 = number - 1
    N n = mknet<T>(v, p);
    auto h = n.hosts();
    CHECK(T::ou(h.size()) == U(n1 + 1));
    CHECK(!h.empty());
    CHECK(at(h.front(), first)); CHECK(at(h.back(), last));
    CHECK(at(*h.begin(), first)); CHECK(at(*h.rbegin(), last));
    CHECK(h.begin() != h.end()); CHECK(h.begin() < h.end()); CHECK(h.rbegin() < h.rend());
    CHECK(h.cbegin() == h.begin() && h.cend() == h.end() && h.crbegin() == h.rbegin() && h.crend() == h.rend());
    CHECK(T::ou(h.end().uint_diff(h.begin())) == U(n1 + 1));
    ASSUME(k <= n1);
    auto i = h.begin() + T::ut(k), j = i; ++j;
    CHECK(at(*i, first + k)); CHECK(at(h[T::ut(k)], first + k)); CHECK(at(h.at(T::ut(k)), first + k)); CHECK(n.contains(*i));
    CHECK(i != h.end()); CHECK((j == h.end()) == (k == n1)); CHECK(i < j); CHECK(j <= h.end());
    CHECK(k == n1 || j == h.begin() + T::ut(k + 1));
    auto o = j; --o; CHECK(o == i);
    auto r = h.rbegin() + T::ut(k), q = r; ++q;
    CHECK(at(*r, last - k)); CHECK(at(h.rbegin()[T::ut(k)], last - k));
    CHECK(r != h.rend()); CHECK((q == h.rend()) == (k == n1)); CHECK(r < q); CHECK(q <= h.rend());
    COVER(k == n1);
    COVER(p >= T::W - 1 || (k != n1 && k != 0));
  }
  // ---- C23
  static INL void subn(const uint8_t* in, unsigned P) {
    unsigned p = P / 1000, q = P % 1000; U v = T::rd(in), k = T::rd(in + 16); U lo = v & T::mask(p), n1 = U(p2<T>(q - p) - 1);   // number - 1
    ec c = ec(in[32] % 8);
    N n = mknet<T>(v, p);
    auto s = (in[33] & 1) ? n.subnets(c, 1, size_t(q)) : n.subnets(c, q - p);
    CHECK(is_ok(c));
    U st = p2<T>(T::W - q);
    CHECK(T::ou(s.size()) == U(n1 + 1));
    CHECK(!s.empty());
    CHECK(isnet(s.front(), lo, q)); CHECK(isnet(s.back(), lo + st * n1, q)); CHECK(isnet(*s.rbegin(), lo + st * n1, q));
    CHECK(s.begin() < s.end()); CHECK(s.rbegin() < s.rend()); CHECK(s.cbegin() == s.begin() && s.cend() == s.end() && s.crbegin() == s.rbegin() && s.crend() == s.rend());
    ASSUME(k <= n1);
    auto i = s.begin() + T::ut(k), j = i; ++j;
    U e = lo + st * k;
    CHECK(isnet(*i, e, q)); CHECK(isnet(s[T::ut(k)], e, q)); CHECK(isnet(s.at(T::ut(k)), e, q)); CHECK((*i).subnet_of(n));
    CHECK(i != s.end()); CHECK((j == s.end()) == (k == n1)); CHECK(i < j); CHECK(j <= s.end());
    CHECK(k == n1 || isnet(*j, e + st, q));
    auto o = j; --o; CHECK(o == i);
    auto r = s.rbegin() + T::ut(k), t = r; ++t;
    CHECK(isnet(*r, lo + st * U(n1 - k), q)); CHECK(r != s.rend()); CHECK((t == s.rend()) == (k == n1)); CHECK(r < t); CHECK(t <= s.rend());
    COVER(k == n1);
  }
  static INL void suberr(const uint8_t* in, unsigned P) {
    U v = T::rd(in); unsigned p = pfx<T>(P, in[32]); size_t d = size_t(rd64(in + 16)), q = size_t(rd64(in + 24)); bool np = in[33] & 1; ec c = ec(in[34] % 8);
    N n = mknet<T>(v, p);
    ec want = ec::no_error;
    if (p == T::W) want = ec::no_error;
    else if (np && q < p) want = ec::new_prefix_must_be_longer;
    else if (np && d != 1) want = ec::cannot_set_prefixlen_diff_and_new_prefix;
    else if (np ? q > T::W : d > T::W - p) want = ec::invalid_prefixlen_diff;
    ASSUME(want != ec::no_error || p == T::W);
    auto s = np ? n.subnets(c, d, q) : n.subnets(c, d);
    CHECK(c == want);
    if (p == T::W) { CHECK(isnet(s.front(), v, T::W)); auto i = s.begin(); ++i; CHECK(i == s.end()); CHECK(T::ou(s.size()) == 1); }
    else { CHECK(s.empty()); CHECK(s.begin() == s.end()); CHECK(T::ou(s.size()) == 0); CHECK(s.rbegin() == s.rend()); }
    COVER(p == T::W); COVER(c == ec::invalid_prefixlen_diff); COVER(c == ec::new_prefix_must_be_longer); COVER(c == ec::cannot_set_prefixlen_diff_and_new_prefix);
  }
  // ---- C26
  static INL void excl(const uint8_t* in, unsigned P) {
    unsigned p = P / 1000, q = P % 1000; U v = T::rd(in), x = T::rd(in + 16); U b0 = v & T::mask(q), a0 = v & T::mask(p);
    ec c = ec(in[32] % 8);
    N a = mknet<T>(v, p), b = mknet<T>(v, q);
    auto s = a.address_exclude(b, c);
    CHECK(is_ok(c));
    CHECK(s.empty() == (p == q)); CHECK(s.cbegin() == s.begin() && s.cend() == s.end());
    unsigned hit = (x & T::mask(q)) == b0, cnt = 0; bool sub = true;
    for (auto i = s.begin(); i != s.end(); ++i) {
      hit += (*i).contains(T::mk(x)); sub = sub && (*i).subnet_of(a) && i->prefixlen() > p; if (++cnt > q - p) break;
    }
    CHECK(cnt == q - p); CHECK(sub);
    CHECK(hit == ((x & T::mask(p)) == a0));
    COVER(hit);
  }
  static INL void exclerr(const uint8_t* in, unsigned P) {
    U v = T::rd(in), w = T::rd(in + 16); unsigned p = pfx<T>(P, in[32]), q = pfx<T>(1000, in[33]); ec c = ec(in[34] % 8);
    ASSUME(q < p || ((v ^ w) & T::mask(p)) != 0);
    auto s = mknet<T>(v, p).address_exclude(mknet<T>(w, q), c);
    CHECK(c == ec::not_contained_network); CHECK(s.empty()); CHECK(s.begin() == s.end());
    COVER(true);
  }
  // ---- C30: positions are offsets in [0, 2^W]; W = 32: int64 holds them, W = 128: the offset plus an overflow bit
  template <class I> static INL void cmp(const I& a, const I& b, int s) {   // s = sign of a - b
    CHECK((a == b) == (s == 0)); CHECK((a != b) == (s != 0)); CHECK((a < b) == (s < 0)); CHECK((a <= b) == (s <= 0)); CHECK((a > b) == (s > 0)); CHECK((a >= b) == (s >= 0));
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    CHECK(((a <=> b) < 0) == (s < 0)); CHECK(((a <=> b) == 0) == (s == 0)); CHECK(((a <=> b) > 0) == (s > 0));
#endif
  }
  static INL void aiter(const uint8_t* in, unsigned) {
    U x = T::rd(in); int64_t n = int64_t(rd64(in + 16));
    AI b(T::mk(x));
    // target x + n must lie in [0, 2^W]
    bool neg = n < 0; uint64_t mag = neg ? uint64_t(0) - uint64_t(n) : uint64_t(n);
    bool over = false; U t;
    if (T::W == 32) { int64_t y = int64_t(uint64_t(x) + uint64_t(n)); ASSUME(mag <= (uint64_t(1) << 32) - 1); ASSUME(y >= 0 && y <= int64_t(1) << 32); t = U(y); over = y == int64_t(1) << 32; }
    else { t = neg ? U(x - mag) : U(x + mag); if (neg) ASSUME(mag <= x); else if (t < x) { over = true; ASSUME(t == 0); } }
    int sg = n < 0 ? -1 : n > 0;
    AI a = b + n;
    CHECK(at(*a, t)); CHECK(at(b[n], t)); CHECK(at(*a.operator->(), t));
    CHECK(a - b == n); CHECK(b - a == int64_t(uint64_t(0) - uint64_t(n)));
    CHECK(T::ou(a.uint_diff(b)) == U(t - x));
    cmp(a, b, sg);
    CHECK(a - n == b); CHECK(n + b == a);
    AI e = b; e += n; CHECK(e == a); e -= n; CHECK(e == b);
    if (n >= 0) { auto k = T::ut(U(mag)); CHECK(b + k == a); CHECK(a - k == b); CHECK(k + b == a); CHECK(at(b[k], t)); AI f = b; f += k; CHECK(f == a); f -= k; CHECK(f == b); }
    COVER(over && n > 1); COVER(n < -300); COVER(n > 300 && !over);
  }
  static INL void astep(const uint8_t* in, unsigned) {
    U x = T::rd(in); AI b(T::mk(x)), i = b;
    CHECK(&++i == &i); CHECK(i == b + int64_t(1)); CHECK(at(*i, U(x + 1))); CHECK(i > b); CHECK(i - b == 1);
    AI k = i; CHECK(k-- == i); CHECK(k == b); CHECK(k++ == b); CHECK(k == i); CHECK(&--k == &k); CHECK(k == b); CHECK(at(*k, x));
    COVER(U(x + 1) == 0); COVER(x == 0);
  }
  static INL void arev(const uint8_t* in, unsigned) {
    U x = T::rd(in); int64_t n = int64_t(rd64(in + 16)); ASSUME(n >= 0);
    if (T::W == 32) ASSUME(n <= 0xffffffff);
    ASSUME(U(n) <= x);
    AI hi(T::mk(x)), lo = hi - n;               // lo <= hi
    RI rb{hi}, re{lo};
    CHECK(rb.base() == hi); CHECK(re.base() == lo);
    if (x > 0) CHECK(at(*rb, x - 1));
    CHECK(re - rb == n); CHECK(rb - re == -n); CHECK(T::ou(re.uint_diff(rb)) == U(n));
    cmp(rb, re, n == 0 ? 0 : -1);
    CHECK(rb + n == re); CHECK(re - n == rb); CHECK(n + rb == re);
    CHECK(rb + T::ut(U(n)) == re); CHECK(re - T::ut(U(n)) == rb);
    RI s = rb; s += n; CHECK(s == re); s -= n; CHECK(s == rb);
    if (U(n) < x) { CHECK(at(rb[n], x - 1 - U(n))); CHECK(at(rb[T::ut(U(n))], x - 1 - U(n))); }
    if (n > 0) { RI u = rb; ++u; CHECK(u == rb + int64_t(1)); CHECK(u-- == rb + int64_t(1)); CHECK(u == rb); CHECK(u++ == rb); --u; CHECK(u == rb); }
    COVER(n > 5); COVER(U(n) == x && n > 0);
  }
  // ---- C31: subnets of a /p network at prefix q; positions i <= j in [0, 2^(q-p)]
  static INL void niter(const uint8_t* in, unsigned P) {
    unsigned p = P / 1000, q = P % 1000; U v = T::rd(in), i = T::rd(in + 16), j = T::rd(in + 32); U lo = v & T::mask(p), st = p2<T>(T::W - q), num = p2<T>(q - p);
    if (num != 0) ASSUME(i <= num && j <= num);
    ec c = ec::no_error; auto s = mknet<T>(v, p).subnets(c, q - p);
    auto z = s.begin(), a = z + T::ut(i), b = z + T::ut(j);
    bool neg = j < i; U mag = neg ? i - j : j - i;
    ASSUME(mag <= U(~uint64_t(0) >> 1));
    int64_t d = neg ? -int64_t(uint64_t(mag)) : int64_t(uint64_t(mag));
    CHECK(b - a == d); CHECK(a - b == -d);
    if (!neg) CHECK(T::ou(b.uint_diff(a)) == mag);
    cmp(b, a, d < 0 ? -1 : d > 0);
    CHECK(a + d == b); CHECK(b - d == a); CHECK(d + a == b);
    auto e = a; e += d; CHECK(e == b); e -= d; CHECK(e == a);
    if (!neg) { auto k = T::ut(mag); CHECK(a + k == b); CHECK(b - k == a); }
    if (num == 0 || j < num) { CHECK(isnet(a[d], lo + st * j, q)); CHECK(isnet(*b, lo + st * j, q)); CHECK(isnet(*b.operator->(), lo + st * j, q)); if (!neg) CHECK(isnet(a[T::ut(mag)], lo + st * j, q)); }
    if (d == 1) { auto f = a; CHECK(&++f == &f); CHECK(f == b); CHECK(f-- == b); CHECK(f == a); CHECK(f++ == a); CHECK(f == b); CHECK(&--f == &f); CHECK(f == a); }
    COVER(d == 1); COVER(q == p || j == num); COVER(neg);
  }
  static INL void nrev(const uint8_t* in, unsigned P) {
    unsigned p = P / 1000, q = P % 1000; U v = T::rd(in), i = T::rd(in + 16), j = T::rd(in + 32); U lo = v & T::mask(p), st = p2<T>(T::W - q), num = p2<T>(q - p);
    ASSUME(i <= j); if (num != 0) ASSUME(j <= num);
    U mag = j - i; ASSUME(mag <= U(~uint64_t(0) >> 1)); int64_t d = int64_t(uint64_t(mag));
    ec c = ec::no_error; auto s = mknet<T>(v, p).subnets(c, q - p);
    auto a = s.begin() + T::ut(i), b = s.begin() + T::ut(j);
    typedef ip_reverse_iterator<decltype(a)> R; R rb{b}, re{a};
    CHECK(rb.base() == b); CHECK(re.base() == a);
    if (j > 0) CHECK(isnet(*rb, lo + st * U(j - 1), q));
    CHECK(re - rb == d); CHECK(T::ou(re.uint_diff(rb)) == mag); cmp(rb, re, d == 0 ? 0 : -1);
    CHECK(rb + d == re); CHECK(re - d == rb); CHECK(rb + T::ut(mag) == re); CHECK(re - T::ut(mag) == rb);
    if (mag < j) CHECK(isnet(rb[d], lo + st * U(j - 1 - mag), q));
    if (d > 0) { R u = rb; ++u; CHECK(u == rb + int64_t(1)); --u; CHECK(u == rb); }
    COVER(d == 1); COVER(q == p || (i == 0 && d > 1));
  }
};
#define BOTH(h, m) HARNESS(h##4) { S<N4>::m(in, P); } HARNESS(h##6) { S<N6>::m(in, P); }
#if ONLY == 22
BOTH(h_hosts, hosts)
#elif ONLY == 23
BOTH(h_subn, subn) BOTH(h_suberr, suberr)
#elif ONLY == 26
BOTH(h_excl, excl) BOTH(h_exclerr, exclerr)
#elif ONLY == 30
BOTH(h_aiter, aiter) BOTH(h_astep, astep) BOTH(h_arev, arev)
#elif ONLY == 31
BOTH(h_niter, niter) BOTH(h_nrev, nrev)
#endif
