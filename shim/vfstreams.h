// Bounded model of the standard string streams, used only for symbolic execution (native
// replay uses the real libstdc++).  Holds at most VF_STREAM_MAX characters: a stream that is
// asked to hold more reports an out-of-bounds write, it never silently drops data
// (unless VF_STREAM_DISCARD is defined: harnesses that never look at stream contents).
#ifndef VF_STREAMS_H
#define VF_STREAMS_H 1
#define _GLIBCXX_IOS 1
#define _GLIBCXX_OSTREAM 1
#define _GLIBCXX_ISTREAM 1
#define _GLIBCXX_SSTREAM 1
#define _GLIBCXX_IOMANIP 1
#define _GLIBCXX_STREAMBUF 1
#define _GLIBCXX_IOSTREAM 1
#include <iosfwd>
#include <string>
#include <limits>
#include <cctype>
#include <cstdlib>
#include <utility>
#include <stddef.h>
#ifndef VF_STREAM_MAX
#define VF_STREAM_MAX 200
#endif
namespace std _GLIBCXX_VISIBILITY(default) {
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate;
  static constexpr fmtflags dec = 2, hex = 8, oct = 64, uppercase = 16384, skipws = 4096, basefield = 74, showbase = 512;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  fmtflags flags() const { return _fl; }
  fmtflags flags(fmtflags f) { fmtflags o = _fl; _fl = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = _fl; _fl |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = _fl; _fl = (_fl & ~m) | (f & m); return o; }
  void unsetf(fmtflags m) { _fl &= ~m; }
  static int xalloc() { static int n = 0; return n++; }
  long& iword(int i) { return _iw[i]; }
  streamsize width() const { return _w; }
  streamsize width(streamsize w) { streamsize o = _w; _w = w; return o; }
  ios_base() {}
  ios_base(const ios_base&) = delete;
  ~ios_base() {}
protected:
  fmtflags _fl = dec | skipws; streamsize _w = 0; long _iw[8] = {};
};
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }

template<typename C, typename T> class basic_ios : public ios_base {
public:
  iostate rdstate() const { return _st; }
  void clear(iostate s = goodbit) { _st = s; }
  void setstate(iostate s) { _st |= s; }
  bool good() const { return _st == 0; }
  bool eof() const { return (_st & eofbit) != 0; }
  bool fail() const { return (_st & (failbit | badbit)) != 0; }
  bool bad() const { return (_st & badbit) != 0; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  C fill() const { return _fill; }
  C fill(C c) { C o = _fill; _fill = c; return o; }
  size_t vf_size() const { return _n; }
  const C* vf_data() const { return _d; }
  void vf_set(const C* p, size_t n) { _n = 0; _r = 0; for (size_t i = 0; i < n; ++i) vf_put(p[i]); }
protected:
  basic_ios() {}
  void vf_put(C c) {
#ifndef VF_STREAM_DISCARD
    _d[_n] = c; ++_n;
#endif
  }
  void vf_padded(const C* p, size_t n) {
    if (_w > 0 && (size_t) _w > n) for (size_t k = (size_t) _w - n; k > 0; --k) vf_put(_fill);
    _w = 0;
    for (size_t i = 0; i < n; ++i) vf_put(p[i]);
  }
  iostate _st = goodbit; C _fill = C(' ');
  size_t _n = 0, _r = 0;
  C _d[VF_STREAM_MAX];
};

template<typename C, typename T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  basic_ostream() {}
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
  basic_ostream& operator<<(const basic_string<C, T, allocator<C>>& s) { if (this->good()) this->vf_padded(s.data(), s.size()); return *this; }
  basic_ostream& operator<<(unsigned long long v) {
    if (!this->good()) return *this;
    C b[24]; int n = 24; bool up = (this->_fl & ios_base::uppercase) != 0;
    do {
      unsigned d; if (this->_fl & ios_base::hex) { d = v & 15; v >>= 4; } else if (this->_fl & ios_base::oct) { d = v & 7; v >>= 3; } else { d = (unsigned)(v % 10); v /= 10; }
      b[--n] = C(d < 10 ? '0' + d : (up ? 'A' : 'a') + (d - 10));
    } while (v);
    this->vf_padded(b + n, 24 - n); return *this;
  }
  basic_ostream& operator<<(unsigned long v) { return *this << (unsigned long long) v; }
  basic_ostream& operator<<(unsigned v) { return *this << (unsigned long long) v; }
  basic_ostream& operator<<(unsigned short v) { return *this << (unsigned long long) v; }
  basic_ostream& operator<<(int v) { if (v < 0 && (this->_fl & ios_base::dec)) { this->vf_put(C('-')); return *this << (unsigned long long) -(long long) v; } return *this << (unsigned long long)(unsigned) v; }
  basic_ostream& put(C c) { this->vf_put(c); return *this; }
};
template<typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, C c) { if (o.good()) o << basic_string<C, T>(1, c); return o; }
template<typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, char c) { if (o.good()) o << basic_string<C, T>(1, C(c)); return o; }
template<typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) {
#ifndef VF_STREAM_DISCARD
  if (o.good()) { if (o.width() > 1) o << basic_string<char, T>(1, c); else { o.width(0); o.put(c); } }
#endif
  return o; }
template<typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const C* s) {
#ifndef VF_STREAM_DISCARD
  size_t n = 0; while (s[n] != C()) ++n; o << basic_string<C, T>(s, n);
#endif
  return o; }
template<typename T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) {
#ifndef VF_STREAM_DISCARD
  size_t n = 0; while (s[n] != 0) ++n;
  if (o.width() > 0) o << basic_string<char, T>(s, n); else for (size_t i = 0; i < n; ++i) o.put(s[i]);
#endif
  return o; }

template<typename C> inline bool vf_space(C c) { return c == C(' ') || (c >= C('\t') && c <= C('\r')); }
template<typename C, typename T> class basic_istream : virtual public basic_ios<C, T> {
public:
  basic_istream() {}
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  basic_istream& operator>>(basic_string<C, T, allocator<C>>& s) {
    if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
    if (this->_fl & ios_base::skipws) while (this->_r < this->_n && vf_space(this->_d[this->_r])) ++this->_r;
    if (this->_r >= this->_n && (this->_fl & ios_base::skipws)) { this->setstate(ios_base::eofbit | ios_base::failbit); return *this; }
    C buf[VF_STREAM_MAX]; size_t len = 0, lim = this->_w > 0 ? (size_t) this->_w : size_t(-1);
    while (this->_r < this->_n && len < lim && !vf_space(this->_d[this->_r])) { buf[len] = this->_d[this->_r]; ++this->_r; ++len; }
    s.assign(buf, len);
    this->_w = 0;
    if (this->_r >= this->_n && len < lim) this->setstate(ios_base::eofbit);
    if (len == 0) this->setstate(ios_base::failbit);
    return *this;
  }
};
template<typename C, typename T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_iostream() {} };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template<typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> {
public:
  basic_ostringstream() {}
  basic_string<C, T, A> str() const { return basic_string<C, T, A>(this->vf_data(), this->vf_size()); }
};
template<typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> {
public:
  explicit basic_istringstream(const basic_string<C, T, A>& s) { this->vf_set(s.data(), s.size()); }
  basic_istringstream(const C* p, size_t n) { this->vf_set(p, n); }
};
template<typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C, T> {
public:
  basic_stringstream() {}
  explicit basic_stringstream(const basic_string<C, T, A>& s) { this->vf_set(s.data(), s.size()); }
  basic_string<C, T, A> str() const { return basic_string<C, T, A>(this->vf_data(), this->vf_size()); }
};
_GLIBCXX_END_NAMESPACE_CXX11
struct vf_setw { int n; };
inline vf_setw setw(int n) { return vf_setw{n}; }
template<typename C> struct vf_setfill { C c; };
template<typename C> inline vf_setfill<C> setfill(C c) { return vf_setfill<C>{c}; }
template<typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, vf_setw w) { o.width(w.n); return o; }
template<typename C, typename T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, vf_setfill<C> f) { o.fill(f.c); return o; }
}
#endif
