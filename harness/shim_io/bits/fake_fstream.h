// Files in memory, for the encoding only: a name is there when something put it there; nothing can be created below a name ending in "nodir/".
#ifndef FAKE_FSTREAM_H
#define FAKE_FSTREAM_H 1
namespace std {
struct fake_file { char *name = nullptr; fake_text text; fake_file *next = nullptr; };
__attribute__((weak)) fake_file *fake_disk = nullptr;
inline fake_file *fake_find(const char *n) { for (auto *f = fake_disk; f; f = f->next) if (!strcmp(f->name, n)) return f; return nullptr; }
inline bool fake_dir(const char *n) { for (; *n; n++) if (!strncmp(n, "nodir/", 6)) return false; return true; }
inline fake_file *fake_make(const char *n) { if (!*n || !fake_dir(n)) return nullptr; if (auto *f = fake_find(n)) return f; auto *f = new fake_file; size_t k = strlen(n) + 1; f->name = (char *)::malloc(k); memcpy(f->name, n, k); f->next = fake_disk; fake_disk = f; return f; }
template<class C, class T> class basic_filebuf : public basic_streambuf<C, T> {};
template<class C, class T> class basic_ifstream : public basic_istream<C, T> { basic_filebuf<C, T> b_; bool open_ = false; public:
  typedef basic_string<C> S; typedef typename T::pos_type pos_type;
  basic_ifstream() {} explicit basic_ifstream(const char *n, ios_base::openmode m = ios_base::in) { open(n, m); } explicit basic_ifstream(const S &n, ios_base::openmode m = ios_base::in) { open(n.c_str(), m); }
  void open(const S &n, ios_base::openmode m = ios_base::in) { open(n.c_str(), m); }
  void open(const char *n, ios_base::openmode m = ios_base::in) { auto *f = fake_find(n); if (!f) { this->setstate(ios_base::failbit); return; } open_ = true; this->src_ = &b_; b_.n = 0; b_.put(f->text.p, f->text.n); b_.g = m & ios_base::ate ? b_.n : 0; }
  bool is_open() const { return open_; } void close() { open_ = false; this->src_ = nullptr; } basic_filebuf<C, T> *rdbuf() { return &b_; } ~basic_ifstream() { b_.drop(); } };
template<class C, class T> class basic_ofstream : public basic_ostream<C, T> { fake_file *f_ = nullptr; public:
  typedef basic_string<C> S; basic_ofstream() {} explicit basic_ofstream(const char *n, ios_base::openmode m = ios_base::out) { open(n, m); } explicit basic_ofstream(const S &n, ios_base::openmode m = ios_base::out) { open(n.c_str(), m); }
  void open(const S &n, ios_base::openmode m = ios_base::out) { open(n.c_str(), m); }
  void open(const char *n, ios_base::openmode m = ios_base::out) { f_ = fake_make(n); if (!f_) { this->setstate(ios_base::failbit); return; } if (!(m & (ios_base::app | ios_base::in))) f_->text.n = 0; this->text_ = &f_->text; }
  bool is_open() const { return f_ != nullptr; } void close() { f_ = nullptr; this->text_ = nullptr; } };
}
#endif
