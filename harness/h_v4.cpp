#include "ref.hpp"
HARNESS(h_parse4) {
  const char* s = (const char*) in;
  error_code c = error_code::no_error;
  auto ip = ipv4_address::parse(Str(s, P), c);
  uint32_t r = 0; bool ok = ref_parse4(s, P, r);
  CHECK(ok == (c == error_code::no_error));
  if (ok) CHECK(val4(ip) == r); else CHECK(val4(ip) == 0);
  COVER(ok);
  COVER(!ok);
}
// the error reported names the leftmost fault of the text
HARNESS(h_err4) {
  BYTEWISE(in, P);
  const char* s = (const char*) in;
  error_code c = error_code::no_error, e = error_code::no_error;
  (void) ipv4_address::parse(Str(s, P), c);
  unsigned oct = 0, dig = 0, cur = 0; bool lead0 = false;
  if (P == 0) e = error_code::empty_address;
  for (unsigned i = 0; i < P; ++i) {
    if (e != error_code::no_error) break;
    char ch = s[i];
    if (oct >= 4) e = error_code::expected_4_octets;
    else if (ch >= '0' && ch <= '9') {
      if (dig > 0 && lead0) e = error_code::leading_0_are_not_permitted;
      else { if (dig == 0) lead0 = ch == '0'; cur = cur * 10 + unsigned(ch - '0'); if (++dig > 3) e = error_code::octet_more_3_characters; }
    } else if (ch == '.') {
      if (dig == 0) e = error_code::empty_octet;
      else if (cur > 255) e = error_code::octet_exceeded_255;
      else { ++oct; dig = 0; cur = 0; }
    } else e = error_code::octet_has_invalid_symbol;
  }
  if (e == error_code::no_error) {
    if (oct != 3) e = error_code::expected_4_octets;
    else if (dig == 0) e = error_code::empty_octet;
    else if (cur > 255) e = error_code::octet_exceeded_255;
  }
  CHECK(c == e);
  COVER(c != error_code::no_error);
}
HARNESS(h_fmt4) {
  uint32_t v = rd32(in);
  auto ip = mk4(v);
  std::string s = ip.to_string(format(P));
  char b[16]; unsigned n = ref_fmt4(v, b);
  CHECK(s.size() == n);
  bool same = true;
  for (unsigned i = 0; i < 15; ++i) if (i < n && s[i] != b[i]) same = false;
  CHECK(same);
  COVER(s.size() == 15);
  COVER(s.size() == 7);
}
HARNESS(h_round4) {
  uint32_t v = rd32(in);
  std::string s = mk4(v).to_string();
  error_code c = error_code::invalid_netmask;
  auto b = ipv4_address::parse(s, c);
  CHECK(c == error_code::no_error);
  CHECK(val4(b) == v);
  COVER(v > 0x7f000000u);
}
HARNESS(h_wide4) {
  uint32_t v = rd32(in);
  auto ip = mk4(v);
  std::string s = ip.to_string();
  bool same = true;
  if (P == 0) { auto w = ip.to_wstring(); CHECK(w.size() == s.size()); for (size_t i = 0; i < 15; ++i) if (i < s.size() && w[i] != wchar_t(s[i])) same = false; }
  if (P == 1) { auto w = ip.to_u16string(); CHECK(w.size() == s.size()); for (size_t i = 0; i < 15; ++i) if (i < s.size() && w[i] != char16_t(s[i])) same = false; }
  if (P == 2) { auto w = ip.to_u32string(); CHECK(w.size() == s.size()); for (size_t i = 0; i < 15; ++i) if (i < s.size() && w[i] != char32_t(s[i])) same = false; }
#if __cpp_char8_t
  if (P == 3) { auto w = ip.to_u8string(); CHECK(w.size() == s.size()); for (size_t i = 0; i < 15; ++i) if (i < s.size() && w[i] != char8_t(s[i])) same = false; }
#endif
  CHECK(same);
  COVER(s.size() > 10);
}
