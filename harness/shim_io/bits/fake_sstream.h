#ifndef FAKE_SSTREAM_H
#define FAKE_SSTREAM_H 1
#include <bits/basic_string.h>
namespace std {
inline basic_istream<char> &operator>>(basic_istream<char> &i, string &s) { s.clear(); if (!i.skip_()) return i; size_t w = i.width_ > 0 ? i.width_ : ~0ul; i.width_ = 0; while (w-- && i.src_->g < i.src_->n && !i.ws_(i.src_->p[i.src_->g])) s += i.src_->p[i.src_->g++]; if (i.src_->g >= i.src_->n) i.setstate(ios_base::eofbit); return i; }
inline basic_istream<char> &getline(basic_istream<char> &i, string &s, char d) { s.clear(); if (!i.good() || !i.src_ || i.src_->g >= i.src_->n) { i.setstate(ios_base::eofbit | ios_base::failbit); return i; } while (true) { if (i.src_->g >= i.src_->n) { i.setstate(ios_base::eofbit); return i; } char c = i.src_->p[i.src_->g++]; if (c == d) return i; s += c; } }
inline basic_istream<char> &getline(basic_istream<char> &i, string &s) { return getline(i, s, '\n'); }
inline basic_istream<char> &getline(basic_istream<char> &&i, string &s) { return getline(i, s, '\n'); }
inline namespace __cxx11 {
template<class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { basic_streambuf<C, T> t_; public:
  typedef basic_string<C, T, A> S; basic_ostringstream() { this->text_ = &t_; } explicit basic_ostringstream(const S &s, ios_base::openmode m = ios_base::out) { this->text_ = &t_; t_.put(s.data(), s.size()); } basic_ostringstream(const basic_ostringstream &) = delete; ~basic_ostringstream() { t_.drop(); }
  S str() const { return S(t_.p ? t_.p : "", t_.n); } void str(const S &s) { t_.n = 0; t_.put(s.data(), s.size()); } };
template<class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> { basic_streambuf<C, T> t_; public:
  typedef basic_string<C, T, A> S; basic_stringstream() { this->text_ = this->src_ = &t_; } explicit basic_stringstream(const S &s, ios_base::openmode m = ios_base::in | ios_base::out) { this->text_ = this->src_ = &t_; t_.put(s.data(), s.size()); } basic_stringstream(const basic_stringstream &) = delete; ~basic_stringstream() { t_.drop(); }
  S str() const { return S(t_.p ? t_.p : "", t_.n); } void str(const S &s) { t_.n = 0; t_.g = 0; t_.put(s.data(), s.size()); } };
template<class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { fake_text t_; public:
  typedef basic_string<C, T, A> S; basic_istringstream() { this->src_ = &t_; } explicit basic_istringstream(const S &s, ios_base::openmode m = ios_base::in) { this->src_ = &t_; t_.put(s.data(), s.size()); } ~basic_istringstream() { t_.drop(); }
  S str() const { return S(t_.p ? t_.p : "", t_.n); } void str(const S &s) { t_.n = 0; t_.g = 0; t_.put(s.data(), s.size()); } };
} 
}
#endif
