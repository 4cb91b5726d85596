// A small model of the standard streams, used only when the code is encoded
// (counterexamples are replayed with the real library).  Text, characters and
// integers are written exactly, with width, fill, alignment and base; a
// floating-point number becomes the word <real>, a pointer <pointer>.
#ifndef FAKE_IO_H
#define FAKE_IO_H 1
#include <iosfwd>
#include <bits/stl_iterator_base_types.h>
#include <bits/stl_algobase.h>
#include <bits/localefwd.h>
#include <bits/char_traits.h>
#include <bits/postypes.h>
#include <cstddef>
#include <cstring>
#include <stdlib.h>
#include <exception>
namespace std {
struct fake_text { // growing buffer
  char *p = nullptr; size_t n = 0, cap = 0, g = 0;
  void put(const char *s, size_t k) { if (n + k > cap) { size_t c = cap ? cap : 64; while (c < n + k) c *= 2; char *q = (char *)::malloc(c); for (size_t i = 0; i < n; i++) q[i] = p[i]; ::free(p); p = q; cap = c; } for (size_t i = 0; i < k; i++) p[n + i] = s[i]; n += k; }
  void drop() { ::free(p); p = nullptr; n = cap = 0; }
};
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned openmode; typedef unsigned iostate; typedef unsigned seekdir;
  static constexpr fmtflags dec = 1, hex = 2, oct = 4, left = 8, right = 16, internal = 32, boolalpha = 64, showpos = 128, uppercase = 256, showbase = 512, fixed = 1024, scientific = 2048, skipws = 4096, showpoint = 8192, unitbuf = 16384;
  static constexpr fmtflags basefield = 7, adjustfield = 56, floatfield = 3072;
  static constexpr openmode in = 1, out = 2, app = 4, ate = 8, trunc = 16, binary = 32;
  static constexpr iostate goodbit = 0, badbit = 1, failbit = 2, eofbit = 4;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  struct Init { Init() {} };
  class failure : public exception {};
  fmtflags flags_ = dec | skipws; streamsize width_ = 0, precision_ = 6; char fill_ = ' '; iostate state_ = 0;
  fmtflags flags() const { return flags_; } fmtflags flags(fmtflags f) { auto o = flags_; flags_ = f; return o; }
  fmtflags setf(fmtflags f) { auto o = flags_; flags_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = flags_; flags_ = (flags_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { flags_ &= ~f; }
  streamsize width() const { return width_; } streamsize width(streamsize w) { auto o = width_; width_ = w; return o; }
  streamsize precision() const { return precision_; } streamsize precision(streamsize w) { auto o = precision_; precision_ = w; return o; }
};
template<class C, class T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  C fill() const { return fill_; } C fill(C c) { C o = fill_; fill_ = c; return o; }
  bool good() const { return !state_; } bool eof() const { return state_ & eofbit; } bool fail() const { return state_ & (failbit | badbit); } bool bad() const { return state_ & badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); } iostate rdstate() const { return state_; } void clear(iostate s = goodbit) { state_ = s; } void setstate(iostate s) { state_ |= s; }
  C widen(char c) const { return c; } char narrow(C c, char) const { return c; }
  virtual ~basic_ios() {}
};
template<class C, class T> class basic_streambuf : public fake_text {};
template<class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef basic_ostream self;
  fake_text *text_ = nullptr; // no buffer: the output is discarded
  basic_ostream() {} explicit basic_ostream(basic_streambuf<C, T> *b) : text_(b) {}
  basic_streambuf<C, T> *rdbuf() const { return (basic_streambuf<C, T> *)text_; } basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *b) { auto *o = rdbuf(); text_ = b; return o; }
  virtual ~basic_ostream() {}
  struct sentry { explicit sentry(self &) {} explicit operator bool() const { return true; } };
  void raw(const char *s, size_t n) { if (text_) text_->put(s, n); }
  self &field(const char *s, size_t n) { size_t w = this->width_ > 0 ? this->width_ : 0; this->width_ = 0; char f = this->fill_; bool l = this->flags_ & ios_base::left; if (!text_) return *this;
    if (!l) for (size_t i = n; i < w; i++) raw(&f, 1); raw(s, n); if (l) for (size_t i = n; i < w; i++) raw(&f, 1); return *this; }
  self &number(unsigned long long u, bool neg) { char b[72]; size_t k = sizeof b; unsigned base = this->flags_ & ios_base::hex ? 16 : this->flags_ & ios_base::oct ? 8 : 10; if (!text_) { this->width_ = 0; return *this; }
    do { unsigned d = u % base; b[--k] = d < 10 ? '0' + d : ((this->flags_ & ios_base::uppercase) ? 'A' : 'a') + (d - 10); u /= base; } while (u); if (neg) b[--k] = '-'; else if (this->flags_ & ios_base::showpos) b[--k] = '+'; return field(b + k, sizeof b - k); }
  self &integer(long long v, unsigned long long bits) { if (this->flags_ & (ios_base::hex | ios_base::oct)) return number(bits, false); return v < 0 ? number(0ull - (unsigned long long)v, true) : number(v, false); }
  self &operator<<(bool b) { if (this->flags_ & ios_base::boolalpha) return b ? field("true", 4) : field("false", 5); return number(b, false); }
  self &operator<<(short v) { return integer(v, (unsigned short)v); } self &operator<<(unsigned short v) { return number(v, false); } self &operator<<(int v) { return integer(v, (unsigned)v); } self &operator<<(unsigned v) { return number(v, false); }
  self &operator<<(long v) { return integer(v, (unsigned long)v); } self &operator<<(unsigned long v) { return number(v, false); } self &operator<<(long long v) { return integer(v, v); } self &operator<<(unsigned long long v) { return number(v, false); }
  self &operator<<(double) { return field("<real>", 6); } self &operator<<(float) { return field("<real>", 6); } self &operator<<(long double) { return field("<real>", 6); } self &operator<<(const void *) { return field("<pointer>", 9); } self &operator<<(nullptr_t) { return field("nullptr", 7); }
  self &operator<<(self &(*f)(self &)) { return f(*this); } self &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; } self &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  self &put(C c) { raw(&c, 1); return *this; } self &write(const C *s, streamsize n) { raw(s, n); return *this; } self &flush() { return *this; }
};
template<class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { return o.field(&c, 1); }
template<class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char d = c; return o.field(&d, 1); }
template<class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char d = c; return o.field(&d, 1); }
template<class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { return o.field(s, strlen(s)); }
template<class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const unsigned char *s) { return o.field((const char *)s, strlen((const char *)s)); }
template<class C, class T> inline basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, const C *s, streamsize n) { return o.field(s, n); }
template<class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); }
template<class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put('\0'); }
template<class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
template<class O, class V, class = typename enable_if<!is_lvalue_reference<O>::value && is_base_of<ios_base, O>::value>::type> O &&operator<<(O &&o, const V &v) { o << v; return static_cast<O &&>(o); }
#define FAKE_FLAG(n, f, m) inline ios_base &n(ios_base &i) { i.setf(ios_base::f, m); return i; }
FAKE_FLAG(hex, hex, ios_base::basefield) FAKE_FLAG(dec, dec, ios_base::basefield) FAKE_FLAG(oct, oct, ios_base::basefield) FAKE_FLAG(left, left, ios_base::adjustfield) FAKE_FLAG(right, right, ios_base::adjustfield) FAKE_FLAG(internal, internal, ios_base::adjustfield) FAKE_FLAG(fixed, fixed, ios_base::floatfield) FAKE_FLAG(scientific, scientific, ios_base::floatfield) FAKE_FLAG(boolalpha, boolalpha, ios_base::boolalpha) FAKE_FLAG(showpos, showpos, ios_base::showpos) FAKE_FLAG(uppercase, uppercase, ios_base::uppercase) FAKE_FLAG(showpoint, showpoint, ios_base::showpoint)
inline ios_base &noboolalpha(ios_base &i) { i.unsetf(ios_base::boolalpha); return i; }
struct _Setw { int n; }; struct _Setprecision { int n; }; struct _Setfill { char c; };
inline _Setw setw(int n) { return {n}; } inline _Setprecision setprecision(int n) { return {n}; } inline _Setfill setfill(char c) { return {c}; }
template<class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setw s) { o.width(s.n); return o; }
template<class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setprecision s) { o.precision(s.n); return o; }
template<class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setfill s) { o.fill(s.c); return o; }
template<class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  fake_text *src_ = nullptr; streamsize got_ = 0; basic_istream() {} virtual ~basic_istream() {}
  typedef typename T::pos_type pos_type;
  int get() { got_ = 0; if (!src_ || src_->g >= src_->n) { this->setstate(ios_base::eofbit | ios_base::failbit); return -1; } got_ = 1; return (unsigned char)src_->p[src_->g++]; }
  basic_istream &get(C &c) { int r = get(); if (r >= 0) c = (C)r; return *this; }
  int peek() { if (!src_ || src_->g >= src_->n) { this->setstate(ios_base::eofbit); return -1; } return (unsigned char)src_->p[src_->g]; }
  basic_istream &read(C *to, streamsize k) { got_ = 0; while (got_ < k && src_ && src_->g < src_->n) to[got_++] = src_->p[src_->g++]; if (got_ < k) this->setstate(ios_base::eofbit | ios_base::failbit); return *this; }
  streamsize gcount() const { return got_; }
  typedef basic_istream self;
  bool skip_() { if (this->flags_ & ios_base::skipws) while (src_ && src_->g < src_->n && ws_(src_->p[src_->g])) src_->g++; if (!src_ || src_->g >= src_->n) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; } return !this->fail(); }
  static bool ws_(C c) { return c == ' ' || (c >= 9 && c <= 13); }
  struct sentry { bool ok; explicit sentry(self &i, bool noskip = false) : ok(noskip ? i.good() : i.skip_()) {} explicit operator bool() const { return ok; } };
  template<class N> self &number_(N &v, unsigned long long lim, unsigned long long nlim) { if (!skip_()) { v = 0; return *this; } bool neg = false, any = false, over = false; C c = src_->p[src_->g]; if (c == '-' || c == '+') { neg = c == '-'; src_->g++; } unsigned long long u = 0;
    while (src_->g < src_->n && src_->p[src_->g] >= '0' && src_->p[src_->g] <= '9') { unsigned d = src_->p[src_->g++] - '0'; any = true; if (u > (~0ull - d) / 10) over = true; else u = u * 10 + d; }
    if (src_->g >= src_->n) this->setstate(ios_base::eofbit); if (!any) { v = 0; this->setstate(ios_base::failbit); return *this; } if (over || u > (neg ? nlim : lim)) { v = neg && N(-1) < N(0) ? N(lim + 1) : N(lim); this->setstate(ios_base::failbit); return *this; } v = neg ? N(0ull - u) : N(u); return *this; }
  self &operator>>(short &v) { return number_(v, 32767, 32768); } self &operator>>(unsigned short &v) { return number_(v, 65535, 65535); } self &operator>>(int &v) { return number_(v, 2147483647u, 2147483648u); } self &operator>>(unsigned &v) { return number_(v, ~0u, ~0u); }
  self &operator>>(long &v) { return number_(v, ~0ull >> 1, (~0ull >> 1) + 1); } self &operator>>(unsigned long &v) { return number_(v, ~0ull, ~0ull); } self &operator>>(long long &v) { return number_(v, ~0ull >> 1, (~0ull >> 1) + 1); } self &operator>>(unsigned long long &v) { return number_(v, ~0ull, ~0ull); }
  self &operator>>(bool &b) { int v; number_(v, 2147483647u, 2147483648u); b = v; if (v != 0 && v != 1) this->setstate(ios_base::failbit); return *this; }
  template<class N> self &real_(N &v) { v = 0; if (!skip_()) return *this; char b[64]; size_t k = 0; while (k < 63 && src_->g + k < src_->n) { C c = src_->p[src_->g + k]; if (!((c >= '0' && c <= '9') || c == '.' || c == '+' || c == '-' || c == 'e' || c == 'E')) break; b[k++] = c; } b[k] = 0; char *e = b; double d = ::strtod(b, &e); if (e == b) this->setstate(ios_base::failbit); else v = (N)d; src_->g += k; if (src_->g >= src_->n) this->setstate(ios_base::eofbit); return *this; }
  self &operator>>(double &v) { return real_(v); } self &operator>>(float &v) { return real_(v); }
  self &operator>>(self &(*f)(self &)) { return f(*this); } self &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  self &ignore(streamsize k = 1, int stop = -1) { got_ = 0; while (got_ < k) { if (!src_ || src_->g >= src_->n) { this->setstate(ios_base::eofbit); break; } got_++; if ((unsigned char)src_->p[src_->g++] == stop) break; } return *this; }
  self &unget() { if (src_ && src_->g) src_->g--; return *this; } self &putback(C) { return unget(); }
  pos_type tellg() { return this->fail() || !src_ ? pos_type(-1) : pos_type((long)src_->g); }
  basic_istream &seekg(long off, ios_base::seekdir d) { this->state_ &= ~ios_base::eofbit; if (!this->fail() && src_) { long at = (d == ios_base::beg ? 0 : d == ios_base::cur ? (long)src_->g : (long)src_->n) + off; if (at < 0) this->setstate(ios_base::failbit); else src_->g = (size_t)at; } return *this; }
  basic_istream &seekg(pos_type p) { return seekg((long)(streamoff)p, ios_base::beg); }
  basic_streambuf<C, T> *rdbuf() const { return (basic_streambuf<C, T> *)src_; }
};
template<class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, char &c) { if (i.skip_()) c = i.src_->p[i.src_->g++]; return i; }
template<class C, class T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { while (i.src_ && i.src_->g < i.src_->n && i.ws_(i.src_->p[i.src_->g])) i.src_->g++; if (!i.src_ || i.src_->g >= i.src_->n) i.setstate(ios_base::eofbit); return i; }
template<class I, class V, class = typename enable_if<!is_lvalue_reference<I>::value && is_base_of<ios_base, I>::value>::type> I &&operator>>(I &&i, V &&v) { i >> static_cast<V &&>(v); return static_cast<I &&>(i); }
inline ios_base &skipws(ios_base &i) { i.setf(ios_base::skipws); return i; } inline ios_base &noskipws(ios_base &i) { i.unsetf(ios_base::skipws); return i; }
template<class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: using basic_ostream<C, T>::rdbuf; virtual ~basic_iostream() {} };
extern __attribute__((weak)) ostream cout, cerr, clog; extern __attribute__((weak)) istream cin;
__attribute__((weak)) ostream cout, cerr, clog; // defined here, ahead of the engine's own stand-ins

template<class C, class T> class istreambuf_iterator { fake_text *b_ = nullptr; bool done() const { return !b_ || b_->g >= b_->n; } public:
  typedef input_iterator_tag iterator_category; typedef C value_type; typedef long difference_type; typedef const C *pointer; typedef C reference;
  istreambuf_iterator() {} istreambuf_iterator(basic_streambuf<C, T> *b) : b_(b) {} istreambuf_iterator(basic_istream<C, T> &i) : b_(i.src_) {}
  C operator*() const { return b_->p[b_->g]; } istreambuf_iterator &operator++() { b_->g++; return *this; } struct old { C c; C operator*() const { return c; } }; old operator++(int) { old r{**this}; b_->g++; return r; }
  bool equal(const istreambuf_iterator &o) const { return done() == o.done(); } };
template<class C, class T> bool operator==(const istreambuf_iterator<C, T> &a, const istreambuf_iterator<C, T> &b) { return a.equal(b); }
template<class C, class T> bool operator!=(const istreambuf_iterator<C, T> &a, const istreambuf_iterator<C, T> &b) { return !a.equal(b); }
template<class C, class T> class ostreambuf_iterator;
}
#endif
