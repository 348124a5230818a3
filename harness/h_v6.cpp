#include "ref.hpp"
template <int MODE> INL void accept(const uint8_t* in, unsigned P) {
  const char* s = (const char*) in;
  bool dot = false, pc = false;
  for (unsigned i = 0; i < P; ++i) { if (s[i] == '.') dot = true; if (s[i] == '%') pc = true; }
  ASSUME(!pc && dot == (MODE == 1));
  error_code c = error_code::no_error;
  auto ip = ipv6_address::parse(Str(s, P), c);
  Ref6 r = ref_parse6(s, P);
  CHECK(r.ok == (c == error_code::no_error));
  if (c != error_code::no_error) CHECK(val6(ip) == 0);
  COVER(r.ok);
  COVER(!r.ok);
}
// acceptance is exactly the grammar, without '%': plain groups / with a dotted tail
HARNESS(h_acc6) { accept<0>(in, P); }
HARNESS(h_acc6d) { accept<1>(in, P); }
// everything, any bytes: acceptance, value, scope
HARNESS(h_parse6) {
  BYTEWISE(in, P);
  const char* s = (const char*) in;
  error_code c = error_code::no_error;
  auto ip = ipv6_address::parse(Str(s, P), c);
  Ref6 r = ref_parse6(s, P);
  CHECK(r.ok == (c == error_code::no_error));
  if (r.ok && c == error_code::no_error) {
    CHECK(val6(ip) == r.v);
    std::string sc = ip.get_scope_id().get_string();
    CHECK(sc.size() == r.sclen);
    bool same = true;
    for (unsigned i = 0; i < r.sclen && i < VF_SCMAX; ++i) if (sc[i] != s[r.sc + i]) same = false;
    CHECK(same);
  }
  COVER(r.ok);
  COVER(VF_SCMAX == 0 || (r.ok && r.sclen > 0));
  COVER(!r.ok);
}
// every valid text of one shape: P = R*1000 + hi*100 + lo*10 + dotted; hi+lo groups (lo==9: no double colon).
// Group k has 1 + (k + R) % 4 digits, except for FREE consecutive groups (from R % groups) whose digit counts are symbolic.
INL char hexdig(unsigned d, bool up) { return char(d < 10 ? '0' + d : (up ? 'A' : 'a') + (d - 10)); }
template <unsigned FREE> INL void gen6(const uint8_t* in, unsigned P) {
  unsigned R = P / 1000; P %= 1000;
  unsigned hi = P / 100, lo = P / 10 % 10; bool dotted = P % 10 != 0, dc = lo != 9; if (!dc) lo = 0;
  char b[64]; unsigned n = 0; u128 vh = 0, vl = 0;
  // in[3*k], in[3*k+1]: value of group k; in[3*k+2]: number of digits and letter case
  for (unsigned k = 0; k < hi + lo; ++k) {
    if (k == hi) { b[n++] = ':'; b[n++] = ':'; }
    else if (k > 0) b[n++] = ':';
    bool fr = (k + hi + lo - R % (hi + lo ? hi + lo : 1)) % (hi + lo ? hi + lo : 1) < FREE;
    unsigned nd = fr ? (in[3 * k + 2] & 3) + 1 : (k + R) % 4 + 1, v = in[3 * k] | unsigned(in[3 * k + 1]) << 8;
    v &= 0xffffu >> (16 - 4 * nd);
    for (int d = 3; d >= 0; --d) if (unsigned(d) < nd) b[n++] = hexdig(v >> (4 * d) & 15, (in[3 * k + 2] >> (4 + d)) & 1);
    if (k < hi) vh = vh << 16 | v; else vl = vl << 16 | v;
  }
  if (dc && lo == 0) { b[n++] = ':'; b[n++] = ':'; }
  unsigned nlo = lo, nhi = hi;
  if (dotted) {
    uint32_t v4 = rd32(in + 24);
    if (FREE < 2) v4 = 0x01000000u * (v4 & 9) + 0x0a0000u + (v4 & 0xffu);   // d.10.0.ddd
    if (!(dc && lo == 0)) b[n++] = ':';
    n += ref_fmt4(v4, b + n);
    if (dc) { vl = vl << 32 | v4; nlo += 2; } else { vh = vh << 32 | v4; nhi += 2; }
  }
  u128 v = vl;
  if (nhi) v |= vh << (16 * (8 - nhi));
  error_code c = error_code::no_error;
  auto ip = ipv6_address::parse(Str(b, n), c);
  CHECK(c == error_code::no_error);
  for (int i = 0; i < 8; ++i) CHECK((unsigned(ip.bytes()[2 * i]) << 8 | ip.bytes()[2 * i + 1]) == (unsigned(v >> (112 - 16 * i)) & 0xffff));
  CHECK(!ip.get_scope_id());
  COVER(n >= 2);
}
HARNESS(h_gen6_0) { gen6<0>(in, P); }
HARNESS(h_gen6_1) { gen6<1>(in, P); }
HARNESS(h_gen6_2) { gen6<2>(in, P); }
// scope part: fixed address, P symbolic scope bytes
template <unsigned K> INL void scope_text(const uint8_t* in, unsigned P) {
  const char* pre = K == 0 ? "::1%" : K == 1 ? "1:2:3:4:5:6:7:8%" : "::1:2:3:4:5:1.2.3.4%";
  u128 v = K == 0 ? u128(1) : K == 1 ? (u128(0x0001000200030004ull) << 64 | 0x0005000600070008ull) : (u128(0x0000000100020003ull) << 64 | 0x0004000501020304ull);
  char b[64]; unsigned n = 0; while (pre[n]) { b[n] = pre[n]; ++n; }
  BYTEWISE(in, P);
  bool ok = P >= 1 && P <= VF_SCMAX;
  for (unsigned i = 0; i < P; ++i) { b[n + i] = (char) in[i]; if (!ref_scope_char((char) in[i])) ok = false; }
  error_code c = error_code::no_error;
  auto ip = ipv6_address::parse(Str(b, n + P), c);
  CHECK(ok == (c == error_code::no_error));
  if (ok && c == error_code::no_error) {
    CHECK(val6(ip) == v);
    std::string sc = ip.get_scope_id().get_string();
    CHECK(sc.size() == P);
    bool same = sc.size() == P;
    if (same) for (unsigned i = 0; i < P; ++i) if (sc[i] != (char) in[i]) same = false;
    CHECK(same);
  }
  COVER(VF_SCMAX == 0 || ok);
  COVER(!ok);
}
HARNESS(h_sc6a) { scope_text<0>(in, P); }
HARNESS(h_sc6b) { scope_text<1>(in, P); }
HARNESS(h_sc6c) { scope_text<2>(in, P); }
// formatting
HARNESS(h_fmt6) {
  u128 v = rd128(in);
  std::string s = mk6(v).to_string(format(P));
  char b[48]; unsigned n = ref_fmt6(v, P, b);
  CHECK(s.size() == n);
  bool same = s.size() == n;
  if (same) for (unsigned i = 0; i < 39; ++i) if (i < n && s[i] != b[i]) same = false;
  CHECK(same);
  COVER(s.size() == 39);
  COVER(v == 0);
}
HARNESS(h_defmt6) {   // default format is the compressed one
  u128 v = rd128(in);
  CHECK(mk6(v).to_string() == mk6(v).to_string(format::compressed));
  COVER(v != 0);
}
// compressed form, by the zero run it must shorten: P = first*10 + length (0: no run of two or more zero groups)
HARNESS(h_fmt6z) {
  unsigned f = P / 10, l = P % 10;
  u128 v = rd128(in);
  for (unsigned i = f; i < f + l; ++i) v &= ~(u128(0xffff) << (112 - 16 * i));
  unsigned run = 0, best = 0, at = 0;
  for (unsigned i = 0; i < 8; ++i) { bool z = (unsigned(v >> (112 - 16 * i)) & 0xffff) == 0; run = z ? run + 1 : 0; if (run > best) { best = run; at = i + 1 - run; } }
  ASSUME(l ? best == l && at == f : best < 2);
  std::string s = mk6(v).to_string(format::compressed);
  char b[48]; unsigned n = ref_fmt6run(v, f, l, b);
  CHECK(s.size() == n);
  bool same = s.size() == n;
  if (same) for (unsigned i = 0; i < 39; ++i) if (i < n && s[i] != b[i]) same = false;
  CHECK(same);
  COVER(n > 1);
}
// text of an address -> the same address.  P = R*1000 + format*100 + first*10 + length: zero run at first (compressed), group k outside it
// has exactly 1 + (k + R) % 4 significant digits.  The text is first shown equal to the reference text, which is then parsed.
HARNESS(h_rt6) {
  unsigned R = P / 1000, F = P / 100 % 10, f = P / 10 % 10, l = P % 10;
  u128 v = 0;
  for (unsigned k = 0; k < 8; ++k) {
    unsigned g = unsigned(in[2 * k]) << 8 | in[2 * k + 1], nd = 1 + (k + R) % 4;
    g &= 0xffffu >> (16 - 4 * nd);
    if (k >= f && k < f + l) g = 0; else ASSUME(g >> (4 * nd - 4) != 0);
    v = v << 16 | g;
  }
  // the reference text, with its layout known
  char b[48]; unsigned n = 0;
  for (unsigned k = 0; k < 8; ++k) {
    bool in_run = k >= f && k < f + l;
    if (F == 2 && l >= 2 && in_run) { if (k == f) b[n++] = ':'; if (k == 7) b[n++] = ':'; continue; }
    if (k) b[n++] = ':';
    unsigned nd = F == 0 ? 4 : in_run ? 1 : 1 + (k + R) % 4, g = unsigned(v >> (112 - 16 * k)) & 0xffff;
    for (unsigned d = nd; d-- > 0;) { unsigned x = g >> (4 * d) & 15; b[n++] = char(x < 10 ? '0' + x : 'a' + (x - 10)); }
  }
  std::string s = mk6(v).to_string(format(F));
  CHECK(s.size() == n);
  bool same = s.size() == n;
  if (same) for (unsigned i = 0; i < n; ++i) if (s[i] != b[i]) same = false;
  CHECK(same);
  error_code c = error_code::no_error;
  auto q = ipv6_address::parse(Str(b, n), c);
  CHECK(c == error_code::no_error);
  for (int i = 0; i < 16; ++i) CHECK(q.bytes()[i] == uint8_t(v >> (120 - 8 * i)));
  CHECK(q == mk6(v));
  COVER(n > 1);
}
// the same with a scope of P bytes after a fixed address
HARNESS(h_rtscope) {
  auto ip = mk6(u128(0xfe80) << 112 | 0x1a2b);
  error_code c = error_code::no_error;
  bool good = true;
  for (unsigned i = 0; i < P; ++i) if (!ref_scope_char((char) in[i])) good = false;
  ASSUME(good);
  ip.set_scope_id(Str((const char*) in, P), c);
  CHECK(c == error_code::no_error);
  std::string s = ip.to_string();
  CHECK(s.size() == 11 + P);
  bool same = true; const char* t = "fe80::1a2b%"; char b[32];
  for (unsigned i = 0; i < 11 + P; ++i) { b[i] = i < 11 ? t[i] : (char) in[i - 11]; if (s[i] != b[i]) same = false; }
  CHECK(same);
  auto q = ipv6_address::parse(Str(b, 11 + P), c);
  CHECK(c == error_code::no_error);
  CHECK(q == ip);
  CHECK(q.get_scope_id() == ip.get_scope_id());
  CHECK(q.get_scope_id().get_string() == std::string((const char*) in, P));
  COVER(P > 0);
}
HARNESS(h_fmtscope) {  // scope is appended after '%', to every format
  u128 v = rd128(in);
  auto ip = mk6(v), plain = mk6(v);
  error_code c = error_code::no_error;
  bool good = true;
  for (unsigned i = 0; i < P; ++i) if (!ref_scope_char((char) in[17 + i])) good = false;
  ASSUME(good && in[16] < 3);
  ip.set_scope_id(Str((const char*) in + 17, P), c);
  CHECK(c == error_code::no_error);
  std::string s = ip.to_string(format(in[16])), t = plain.to_string(format(in[16]));
  CHECK(s.size() == t.size() + (P ? P + 1 : 0));
  bool same = s.size() == t.size() + (P ? P + 1 : 0);
  if (same) {
    for (unsigned i = 0; i < 39; ++i) if (i < t.size() && s[i] != t[i]) same = false;
    if (P) { if (s[t.size()] != '%') same = false; for (unsigned i = 0; i < P; ++i) if (s[t.size() + 1 + i] != (char) in[17 + i]) same = false; }
  }
  CHECK(same);
  COVER(in[16] == 1);
}
HARNESS(h_wide6) {
  u128 v = rd128(in);
  auto ip = mk6(v);
  error_code c = error_code::no_error;
  ip.set_scope_id(Str("eth0"), c);
  format f = format(P / 10);
  std::string s = ip.to_string(f);
  bool same = true;
  if (P % 10 == 0) { auto w = ip.to_wstring(f); CHECK(w.size() == s.size()); for (size_t i = 0; i < 44; ++i) if (i < s.size() && w[i] != wchar_t(s[i])) same = false; }
  if (P % 10 == 1) { auto w = ip.to_u16string(f); CHECK(w.size() == s.size()); for (size_t i = 0; i < 44; ++i) if (i < s.size() && w[i] != char16_t(s[i])) same = false; }
  if (P % 10 == 2) { auto w = ip.to_u32string(f); CHECK(w.size() == s.size()); for (size_t i = 0; i < 44; ++i) if (i < s.size() && w[i] != char32_t(s[i])) same = false; }
#if __cpp_char8_t
  if (P % 10 == 3) { auto w = ip.to_u8string(f); CHECK(w.size() == s.size()); for (size_t i = 0; i < 44; ++i) if (i < s.size() && w[i] != char8_t(s[i])) same = false; }
#endif
  CHECK(same);
  COVER(s.size() > 10);
}
