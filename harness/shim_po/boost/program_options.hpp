// A small model of Boost.Program_options, used only when the code is encoded:
// the compiled harness is linked with the real library, and every explored
// trace is run against it.  Modelled: descriptions in groups, long and short
// names, adjacent and separate values, abbreviated long names, "--",
// unregistered and positional tokens, and the errors for missing, malformed,
// repeated and unwanted values and ambiguous abbreviations.
#ifndef SHIM_PROGRAM_OPTIONS
#define SHIM_PROGRAM_OPTIONS 1
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <typeinfo>
#include <functional>
namespace boost {
class bad_any_cast : public std::bad_cast {};
class bad_lexical_cast : public std::bad_cast {};
template<class T> using shared_ptr = std::shared_ptr<T>;
struct holder_base { virtual ~holder_base() {} virtual const std::type_info &type() const = 0; };
template<class T> struct holder : holder_base { T v; explicit holder(const T &x) : v(x) {} const std::type_info &type() const override { return typeid(T); } };
class any { std::shared_ptr<holder_base> h_; public: any() {} template<class T> any(const T &v) : h_(std::make_shared<holder<T>>(v)) {} any(const any &) = default; any(any &) = default; any &operator=(const any &) = default; bool empty() const { return !h_; } const std::type_info &type() const { return h_ ? h_->type() : typeid(void); } template<class T> T *get() const { return h_ && h_->type() == typeid(T) ? &static_cast<holder<T> *>(h_.get())->v : nullptr; } };
template<class T> T any_cast(const any &a) { auto *p = a.get<T>(); if (!p) throw bad_any_cast(); return *p; }
namespace program_options {
class error : public std::logic_error { public: explicit error(const std::string &s) : std::logic_error(s) {} };
#define PO_ERR(n, b) class n : public b { public: explicit n(const std::string &s = #n) : b(s) {} };
PO_ERR(error_with_option_name, error) PO_ERR(multiple_values, error_with_option_name) PO_ERR(multiple_occurrences, error_with_option_name) PO_ERR(required_option, error_with_option_name) PO_ERR(error_with_no_option_name, error_with_option_name) PO_ERR(unknown_option, error_with_no_option_name) PO_ERR(ambiguous_option, error_with_no_option_name) PO_ERR(invalid_syntax, error_with_option_name) PO_ERR(invalid_command_line_syntax, invalid_syntax) PO_ERR(validation_error, error_with_option_name) PO_ERR(invalid_option_value, validation_error)
#undef PO_ERR
inline void parse(const std::string &s, std::string &v) { v = s; }
template<class I> void parse_int(const std::string &s, I &v, long lo, long hi) { size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; if (i == s.size()) throw invalid_option_value(s); long x = 0; for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9' || x > 100000000000l) throw invalid_option_value(s); x = x * 10 + (s[i] - '0'); } if (neg) x = -x; if (x < lo || x > hi) throw invalid_option_value(s); v = (I)x; }
inline void parse(const std::string &s, int &v) { parse_int(s, v, -2147483648l, 2147483647l); }
inline void parse(const std::string &s, long &v) { parse_int(s, v, -4000000000000000000l, 4000000000000000000l); }
inline void parse(const std::string &s, double &v) { size_t i = 0, d = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; double x = 0, f = 1; for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++, d++) x = x * 10 + (s[i] - '0'); if (i < s.size() && s[i] == '.') for (i++; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++, d++) { f = f / 10; x = x + f * (s[i] - '0'); } if (!d || i != s.size()) throw invalid_option_value(s); v = neg ? -x : x; }
struct value_semantic { virtual ~value_semantic() {} virtual int tokens() const = 0; virtual void take(any &, const std::vector<std::string> &) const = 0; virtual bool preset(any &) const { return false; } virtual bool is_required() const { return false; } virtual void tell(const any &) const {} };
struct untyped_value : value_semantic { int tokens() const override { return 0; } void take(any &a, const std::vector<std::string> &t) const override { if (!a.empty()) throw multiple_occurrences(); if (t.size() > 1) throw multiple_values(); a = any(t.empty() ? std::string() : t[0]); } };
template<class T> struct typed_value : value_semantic { T *to_ = nullptr; any def_, imp_; bool req_ = false; std::function<void(const T &)> note_;
  explicit typed_value(T *t) : to_(t) {} int tokens() const override { return 1; } void take(any &a, const std::vector<std::string> &t) const override { if (!a.empty()) throw multiple_occurrences(); if (t.size() > 1) throw multiple_values(); if (t.empty()) throw validation_error("at_least_one_value_required"); T v{}; parse(t[0], v); a = any(v); }
  bool preset(any &a) const override { if (def_.empty()) return false; a = def_; return true; } bool is_required() const override { return req_; } void tell(const any &a) const override { T *p = a.template get<T>(); if (p && to_) *to_ = *p; if (p && note_) note_(*p); }
  typed_value *default_value(const T &v) { def_ = any(v); return this; } typed_value *required() { req_ = true; return this; } typed_value *notifier(std::function<void(const T &)> f) { note_ = f; return this; } };
template<class T> typed_value<T> *value(T *t = nullptr) { return new typed_value<T>(t); }
class option_description { public: std::string long_, short_, text_; std::shared_ptr<const value_semantic> s_;
  option_description(const char *n, const value_semantic *s, const char *d = "") : text_(d), s_(s) { std::string a = n; auto c = a.find(','); if (c == std::string::npos) long_ = a; else { long_ = a.substr(0, c); short_ = a.substr(c + 1, 1); } }
  std::string key() const { return long_.empty() ? "-" + short_ : long_; } const std::string &description() const { return text_; } const std::string &long_name() const { return long_; } };
class options_description; class options_description_easy_init { options_description *o_; public: explicit options_description_easy_init(options_description *o) : o_(o) {} options_description_easy_init &operator()(const char *n, const char *d); options_description_easy_init &operator()(const char *n, const value_semantic *s); options_description_easy_init &operator()(const char *n, const value_semantic *s, const char *d); };
class options_description { public: std::string caption_; std::vector<std::shared_ptr<option_description>> opts_; std::vector<bool> own_; std::vector<std::shared_ptr<options_description>> groups_;
  explicit options_description(unsigned = 80, unsigned = 40) {} explicit options_description(const std::string &c, unsigned = 80, unsigned = 40) : caption_(c) {}
  void put(std::shared_ptr<option_description> o, bool own) { opts_.push_back(o); own_.push_back(own); } void add(std::shared_ptr<option_description> o) { put(o, true); } options_description &add(const options_description &g) { groups_.push_back(std::make_shared<options_description>(g)); for (auto &o : g.opts_) put(o, false); return *this; }
  options_description_easy_init add_options() { return options_description_easy_init(this); } const std::vector<std::shared_ptr<option_description>> &options() const { return opts_; }
  void print(std::ostream &os) const { if (!caption_.empty()) os << caption_ << ":\n"; for (size_t i = 0; i < opts_.size(); i++) if (own_[i]) { auto &o = *opts_[i]; os << "  "; if (!o.short_.empty()) { os << "-" << o.short_; if (!o.long_.empty()) os << " [ --" << o.long_ << " ]"; } else os << "--" << o.long_; if (o.s_->tokens()) os << " arg"; os << " " << o.text_ << "\n"; } for (auto &g : groups_) { os << "\n"; g->print(os); } }
  // exact name, or the one option it abbreviates
  const option_description *find_nothrow(const std::string &n, bool approx) const { const option_description *full = nullptr, *part = nullptr; int fulls = 0, parts = 0; for (auto &o : opts_) { if (n.size() == 2 && n[0] == '-' && !o->short_.empty() && n[1] == o->short_[0]) { full = o.get(); fulls++; } else if (!o->long_.empty() && o->long_ == n) { full = o.get(); fulls++; } else if (approx && !o->long_.empty() && o->long_.size() > n.size() && o->long_.compare(0, n.size(), n) == 0) { part = o.get(); parts++; } } if (fulls > 1) throw ambiguous_option(); if (fulls == 1) return full; if (parts > 1) throw ambiguous_option(); return part; } };
inline std::ostream &operator<<(std::ostream &os, const options_description &d) { d.print(os); return os; }
inline options_description_easy_init &options_description_easy_init::operator()(const char *n, const char *d) { o_->add(std::make_shared<option_description>(n, new untyped_value, d)); return *this; }
inline options_description_easy_init &options_description_easy_init::operator()(const char *n, const value_semantic *s) { o_->add(std::make_shared<option_description>(n, s)); return *this; }
inline options_description_easy_init &options_description_easy_init::operator()(const char *n, const value_semantic *s, const char *d) { o_->add(std::make_shared<option_description>(n, s, d)); return *this; }
struct option { std::string string_key; int position_key = -1; std::vector<std::string> value, original_tokens; bool unregistered = false, case_insensitive = false; };
struct parsed_options { std::vector<option> options; const options_description *description = nullptr; };
struct positional_options_description {};
class command_line_parser { std::vector<std::string> args_; const options_description *d_ = nullptr; bool unreg_ = false; public:
  command_line_parser(int argc, const char *const *argv) { for (int i = 1; i < argc; i++) args_.push_back(argv[i]); } explicit command_line_parser(const std::vector<std::string> &a) : args_(a) {}
  command_line_parser &options(const options_description &d) { d_ = &d; return *this; } command_line_parser &allow_unregistered() { unreg_ = true; return *this; }
  parsed_options run() { parsed_options r; r.description = d_; size_t i = 0; int pos = 0; bool rest = false; while (i < args_.size()) { const std::string t = args_[i++]; option o; o.original_tokens.push_back(t);
      bool dashes = !rest && t.size() >= 2 && t[0] == '-'; if (dashes && t == "--") { rest = true; continue; }
      if (!dashes) { o.position_key = pos++; o.value.push_back(t); r.options.push_back(o); continue; }
      std::string name; bool adjacent = false; std::string val; const option_description *d;
      if (t[1] == '-') { auto e = t.find('='); name = t.substr(2, e == std::string::npos ? e : e - 2); if (e != std::string::npos) { val = t.substr(e + 1); adjacent = true; if (val.empty()) throw invalid_command_line_syntax("empty_adjacent_parameter"); } d = d_->find_nothrow(name, true); }
      else { name = t.substr(0, 2); d = d_->find_nothrow(name, false); if (t.size() > 2) { if (d && !d->s_->tokens()) { // several flags in one token
            o.string_key = d->key(); r.options.push_back(o); args_.insert(args_.begin() + i, "-" + t.substr(2)); continue; } val = t.substr(2); adjacent = true; } }
      if (!d) { if (!unreg_) throw unknown_option(); o.string_key = name; o.unregistered = true; if (adjacent) o.value.push_back(val); r.options.push_back(o); continue; }
      o.string_key = d->key(); if (adjacent) { if (!d->s_->tokens()) throw invalid_command_line_syntax("extra_parameter"); o.value.push_back(val); }
      else if (d->s_->tokens()) { if (i >= args_.size()) throw invalid_command_line_syntax("missing_parameter"); const std::string &nx = args_[i]; if (nx.size() >= 2 && nx[0] == '-') { bool lg = nx[1] == '-'; if (lg) { std::string nn = nx.substr(2); auto e = nn.find('='); if (d_->find_nothrow(nn.substr(0, e), true)) throw invalid_command_line_syntax("missing_parameter"); } else if (d_->find_nothrow(nx, false)) throw invalid_command_line_syntax("missing_parameter"); } o.value.push_back(nx); o.original_tokens.push_back(nx); i++; }
      r.options.push_back(o); } return r; } };
inline parsed_options parse_command_line(int argc, const char *const *argv, const options_description &d) { return command_line_parser(argc, argv).options(d).run(); }
enum collect_unrecognized_mode { include_positional, exclude_positional };
inline std::vector<std::string> collect_unrecognized(const std::vector<option> &o, collect_unrecognized_mode m) { std::vector<std::string> r; for (auto &x : o) if (x.unregistered || (m == include_positional && x.position_key != -1)) r.insert(r.end(), x.original_tokens.begin(), x.original_tokens.end()); return r; }
class variables_map; class variable_value { friend class variables_map; any v_; bool def_ = false; public: std::shared_ptr<const value_semantic> s_; variable_value() {} variable_value(const any &a, bool d) : v_(a), def_(d) {} bool empty() const { return v_.empty(); } bool defaulted() const { return def_; } const any &value() const { return v_; } any &value() { return v_; }
  template<class T> const T &as() const { auto *p = v_.get<T>(); if (!p) throw bad_any_cast(); return *p; } template<class T> T &as() { auto *p = v_.get<T>(); if (!p) throw bad_any_cast(); return *p; } void set_default() { def_ = true; } };
class variables_map : public std::map<std::string, variable_value> { public: std::vector<std::string> required_; variables_map() {} const variable_value &operator[](const std::string &n) const { static const variable_value none; auto i = find(n); return i == end() ? none : i->second; } void clear() { std::map<std::string, variable_value>::clear(); required_.clear(); }
  void notify() { for (auto &n : required_) if (!count(n)) throw required_option(); for (auto &p : *this) if (p.second.s_) p.second.s_->tell(p.second.value()); } };
inline void store(const parsed_options &p, variables_map &m) { if (!p.description) return; std::map<std::string, variable_value> seen; for (auto &o : p.options) { if (o.string_key.empty() || o.unregistered) continue; if (m.find(o.string_key) != m.end() && !static_cast<std::map<std::string, variable_value> &>(m)[o.string_key].defaulted()) continue; const option_description *d = nullptr; for (auto &x : p.description->opts_) if (x->key() == o.string_key) { d = x.get(); break; } if (!d) throw unknown_option(); auto &v = seen[o.string_key]; d->s_->take(v.value(), o.value); v.s_ = d->s_; static_cast<std::map<std::string, variable_value> &>(m); }
  for (auto &x : seen) static_cast<std::map<std::string, variable_value> &>(m)[x.first] = x.second;
  for (auto &d : p.description->opts_) { any a; if (!m.count(d->key()) && d->s_->preset(a)) { variable_value v(a, true); v.s_ = d->s_; static_cast<std::map<std::string, variable_value> &>(m)[d->key()] = v; } if (d->s_->is_required()) m.required_.push_back(d->key()); } }
inline void notify(variables_map &m) { m.notify(); }
}
}
#endif
