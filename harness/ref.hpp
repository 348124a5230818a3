// Reference models written from the RFCs and the documentation, independent of the library.
#ifndef REF_HPP
#define REF_HPP
#include "vf.hpp"
// ---- RFC 4291 text form, with optional %scope; returns success, value and the scope position
struct Ref6 { bool ok; u128 v; unsigned sc, sclen; };
template <typename C>
INL bool ref_scope_char(C ch) { return !(ch == C(0) || ch == C('%') || ch == C('/') || ch == C(' ') || (ch >= C(9) && ch <= C(13))); }
template <typename C>
INL Ref6 ref_parse6(const C* s, unsigned n) {
  u128 hi = 0, lo = 0;          // groups before / after the double colon
  unsigned nhi = 0, nlo = 0;    // their number
  bool dc = false, ok = true;
  unsigned hexd = 0, val = 0;   // current group
  unsigned dots = 0, dd = 0, dec = 0; uint32_t v4 = 0; bool decok = true, v4mode = false, lead0 = false;
  unsigned colons = 0;          // length of the colon run just before the current position
  unsigned i = 0; bool inaddr = true; unsigned sc = 0, sclen = 0; bool pct = false;
  for (; i < n; ++i) {
    C c = s[i];
    if (!inaddr) { if (!ref_scope_char(c)) ok = false; ++sclen; continue; }
    if (c == C('%')) { inaddr = false; pct = true; sc = i + 1; continue; }
    unsigned h = c >= C('0') && c <= C('9') ? unsigned(c - C('0')) : c >= C('a') && c <= C('f') ? unsigned(c - C('a')) + 10 : c >= C('A') && c <= C('F') ? unsigned(c - C('A')) + 10 : 99;
    if (c == C(':')) {
      if (v4mode) ok = false;
      if (colons == 0) {
        if (hexd == 0) { if (i != 0) ok = false; }
        else { if (dc) { lo = lo << 16 | val; ++nlo; } else { hi = hi << 16 | val; ++nhi; } }
      } else if (colons == 1) { if (dc) ok = false; dc = true; }
      else ok = false;
      if (colons < 3) ++colons;
      if (nhi + nlo > 8) ok = false;
      hexd = 0; val = 0; dd = 0; dec = 0; decok = true; lead0 = false;
    } else if (c == C('.')) {
      if (colons == 1 && i == 1) ok = false;
      if (dd == 0 || !decok || dots == 3) ok = false;
      v4mode = true; v4 = v4 << 8 | (dec & 255); if (dots < 4) ++dots; dd = 0; dec = 0; decok = true; lead0 = false; colons = 0;
    } else if (h < 16) {
      if (colons == 1 && i == 1) ok = false;        // single leading colon
      colons = 0;
      if (v4mode) { if (h > 9) ok = false; } else { if (hexd == 4) ok = false; if (hexd < 5) ++hexd; val = (val << 4 | h) & 0xffff; }
      if (h > 9) decok = false;
      if (dd == 1 && lead0) decok = false;
      if (dd == 0) lead0 = h == 0;
      if (dd < 4) { ++dd; dec = dec * 10 + (h & 15); }
      if (dd > 3 || dec > 255) decok = false;
    } else ok = false;
  }
  if (v4mode) {
    if (dots != 3 || dd == 0 || !decok) ok = false;
    v4 = v4 << 8 | (dec & 255);
    if (dc) { lo = lo << 32 | v4; nlo += 2; } else { hi = hi << 32 | v4; nhi += 2; }
  } else if (hexd > 0) { if (dc) { lo = lo << 16 | val; ++nlo; } else { hi = hi << 16 | val; ++nhi; } }
  else if (colons != 2) ok = false;                 // ends in a single colon, or empty
  if (dc ? nhi + nlo > 7 : nhi != 8) ok = false;
  if (pct && (sclen == 0 || sclen > VF_SCMAX)) ok = false;
  Ref6 r; r.ok = ok; r.sc = sc; r.sclen = pct ? sclen : 0;
  unsigned sh = dc ? (8 - (nhi > 8 ? 8 : nhi)) * 16 : 0;
  r.v = dc ? (sh >= 128 ? lo : (hi << sh) | lo) : hi;
  return r;
}
INL unsigned ref_emit6(const unsigned (&g)[8], unsigned fmt, unsigned bs, unsigned bl, char (&out)[48]) {
  unsigned n = 0;
  for (unsigned i = 0; i < 8; ++i) {
    if (bl && i >= bs && i < bs + bl) { if (i == bs) out[n++] = ':'; if (i == 7) out[n++] = ':'; continue; }
    if (i > 0) out[n++] = ':';
    bool started = fmt == 0;
    for (int d = 3; d >= 0; --d) {
      unsigned x = g[i] >> (4 * d) & 15;
      if (x != 0 || d == 0) started = true;
      if (started) out[n++] = char(x < 10 ? '0' + x : 'a' + (x - 10));
    }
  }
  return n;
}
// ---- reference formatter: fmt 0 = eight 4-digit groups, 1 = no leading zeros, 2 = also the longest zero run (>= 2 groups, first on ties) as '::'
INL unsigned ref_fmt6(u128 v, unsigned fmt, char (&out)[48]) {
  unsigned g[8]; for (int i = 0; i < 8; ++i) g[i] = unsigned(v >> (112 - 16 * i)) & 0xffff;
  unsigned bs = 0, bl = 0;
  if (fmt == 2) {
    for (unsigned st = 0; st < 8; ++st) {
      unsigned l = 0; bool run = true;
      for (unsigned k = st; k < 8; ++k) { if (g[k] != 0) run = false; if (run) ++l; }
      if (l > bl) { bl = l; bs = st; }
    }
    if (bl < 2) bl = 0;
  }
  return ref_emit6(g, fmt, bs, bl, out);
}
INL unsigned ref_fmt6run(u128 v, unsigned bs, unsigned bl, char (&out)[48]) {
  unsigned g[8]; for (int i = 0; i < 8; ++i) g[i] = unsigned(v >> (112 - 16 * i)) & 0xffff;
  return ref_emit6(g, 2, bs, bl, out);
}
INL unsigned ref_fmt4(uint32_t v, char* out) {
  unsigned n = 0;
  for (int i = 3; i >= 0; --i) {
    unsigned b = v >> (8 * i) & 255;
    if (b >= 100) out[n++] = char('0' + b / 100);
    if (b >= 10) out[n++] = char('0' + b / 10 % 10);
    out[n++] = char('0' + b % 10);
    if (i) out[n++] = '.';
  }
  return n;
}
INL bool ref_parse4(const char* s, unsigned n, uint32_t& out) {
  uint32_t v = 0; unsigned oct = 0, digits = 0, cur = 0; bool ok = true, lead0 = false;
  for (unsigned i = 0; i < n; ++i) {
    unsigned char c = (unsigned char) s[i];
    if (c == '.') {
      if (digits == 0 || oct == 3) ok = false;
      v = v << 8 | (cur & 255); if (oct < 4) ++oct; digits = 0; cur = 0; lead0 = false;
    } else if (c >= '0' && c <= '9') {
      if (digits == 1 && lead0) ok = false;
      if (digits == 3) ok = false;
      if (digits == 0) lead0 = c == '0';
      if (digits < 3) { cur = cur * 10 + (c - '0'); ++digits; }
      if (cur > 255) ok = false;
    } else ok = false;
  }
  if (digits == 0 || oct != 3) ok = false;
  out = v << 8 | (cur & 255);
  return ok;
}
#endif
