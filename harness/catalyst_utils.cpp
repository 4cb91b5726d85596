// Helpers of the Catalyst adaptor: files, images, script lists, logs and timers.
#include "sym.h"
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <chrono>
#include <map>
#include <algorithm>
#include <stdexcept>
#include <cstring>
#include <cstdlib>
#ifndef ENCODED
#include <unistd.h>
#include <ftw.h>
#endif
// a scratch folder: real files when the compiled code is replayed, files in memory in the encoding
static std::string root;
#ifdef ENCODED
static void scratch() { root = "/scratch"; }
static void clean() {}
struct here {};
static void mkfile(const std::string &n, const std::string &t) { auto *f = std::fake_make(n.c_str()); f->text.n = 0; f->text.put(t.data(), t.size()); }
static bool content(const std::string &n, std::string &t) { auto *f = std::fake_find(n.c_str()); if (!f) return false; t.assign(f->text.n ? f->text.p : "", f->text.n); return true; }
#else
static void scratch() { char d[] = "/tmp/catalyst-check-XXXXXX"; root = mkdtemp(d); }
static int drop(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
struct here { char old[4096]; here() { if (!getcwd(old, sizeof old) || chdir(root.c_str())) abort(); } ~here() { if (chdir(old)) abort(); } };
static void clean() { nftw(root.c_str(), drop, 8, FTW_DEPTH | FTW_PHYS); }
static void mkfile(const std::string &n, const std::string &t) { std::ofstream f(n, std::ios::binary); f << t; }
static bool content(const std::string &n, std::string &t) { std::ifstream f(n, std::ios::binary); if (!f) return false; std::stringstream s; s << f.rdbuf(); t = s.str(); return true; }
#endif
struct folder { folder() { scratch(); } ~folder() { clean(); } std::string operator()(const std::string &n) const { return root + "/" + n; } };
#ifdef ENCODED
// stand-in for the JSON library: reads {"key": ["text", ...], ...} with plain texts and integers
namespace nlohmann {
struct json { enum kind { null, object, list, text, number } k = null; std::vector<std::pair<std::string, json>> m; std::string s; long n = 0;
  typedef std::vector<std::pair<std::string, json>>::iterator raw;
  struct iterator { raw i; json &operator*() const { return i->second; } json *operator->() const { return &i->second; } iterator &operator++() { ++i; return *this; } const std::string &key() const { return i->first; } json &value() const { return i->second; } bool operator==(const iterator &o) const { return i == o.i; } bool operator!=(const iterator &o) const { return i != o.i; } };
  iterator begin() { return {m.begin()}; } iterator end() { return {m.end()}; } size_t size() const { return k == null ? 0 : k == text || k == number ? 1 : m.size(); } bool empty() const { return size() == 0; } bool is_array() const { return k == list; } bool is_string() const { return k == text; } bool is_null() const { return k == null; } bool is_object() const { return k == object; }
  iterator find(const std::string &q) { if (k == object) for (auto i = m.begin(); i != m.end(); ++i) if (i->first == q) return {i}; return end(); } size_t count(const std::string &q) { return find(q) != end(); } bool contains(const std::string &q) { return find(q) != end(); }
  json &operator[](const char *q) { return (*this)[std::string(q)]; } json &operator[](const std::string &q) { if (k == null) k = object; if (k != object) throw std::runtime_error("type"); auto i = find(q); if (i != end()) return *i; m.emplace_back(q, json()); return m.back().second; }
  json &operator[](size_t i) { if (k != list) throw std::runtime_error("type"); return m[i].second; } json &operator[](int i) { return (*this)[(size_t)i]; } json &at(const std::string &q) { auto i = find(q); if (i == end()) throw std::runtime_error("key"); return *i; } json &at(size_t i) { if (k != list || i >= m.size()) throw std::runtime_error("index"); return m[i].second; }
  operator std::string() const { if (k != text) throw std::runtime_error("type"); return s; } template<class T> T get() const { return (T)*this; } std::string dump() const { return s; }
  struct reader { std::istream &i; void skip() { while (i.peek() == ' ' || i.peek() == '\n') i.get(); } void bad() { throw std::runtime_error("parse"); } std::string str() { std::string r; i.get(); while (i.peek() != '"') { int c = i.get(); if (c < 0) bad(); r.push_back((char)c); } i.get(); return r; }
    json value() { json v; skip(); int c = i.peek(); if (c == '"') { v.k = text; v.s = str(); } else if (c == '[' || c == '{') { char e = c == '[' ? ']' : '}'; v.k = c == '[' ? list : object; i.get(); skip(); if (i.peek() == e) { i.get(); return v; } for (;;) { skip(); std::string key; if (e == '}') { if (i.peek() != '"') bad(); key = str(); skip(); if (i.get() != ':') bad(); } v.m.emplace_back(key, value()); skip(); c = i.get(); if (c == e) break; if (c != ',') bad(); } } else if (c >= '0' && c <= '9') { v.k = number; while (i.peek() >= '0' && i.peek() <= '9') v.n = v.n * 10 + (i.get() - '0'); } else bad(); return v; } };
  static json parse(std::istream &i) { reader r{i}; return r.value(); } };
inline std::istream &operator>>(std::istream &i, json &j) { j = json::parse(i); return i; }
}
// stand-in for the image reader: the binary portable formats P5 and P6
unsigned char *stbi_load(char const *name, int *x, int *y, int *comp, int) { auto *f = std::fake_find(name); if (!f || f->text.n < 3 || f->text.p[0] != 'P') return nullptr; *comp = f->text.p[1] == '5' ? 1 : 3; size_t at = 2; int v[3]; for (int &q : v) { q = 0; while (f->text.p[at] < '0' || f->text.p[at] > '9') at++; while (f->text.p[at] >= '0' && f->text.p[at] <= '9') q = q * 10 + (f->text.p[at++] - '0'); } at++; *x = v[0]; *y = v[1]; size_t n = (size_t)v[0] * v[1] * *comp; unsigned char *r = (unsigned char *)malloc(n); for (size_t i = 0; i < n; i++) r[i] = f->text.p[at + i]; return r; }
#endif
static long now_ns; static int asked;
#include <ristra/io/catalyst/utils/catalystUtils.hpp>
// the clocks show what the harness says
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { asked++; return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(now_ns))); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { asked++; return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(now_ns))); }
#include <ristra/io/catalyst/utils/insituTimer.hpp>
#include <ristra/io/catalyst/utils/insituLog.hpp>
template<class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
struct quiet { std::ostringstream o; std::streambuf *p; quiet() : p(std::cout.rdbuf(o.rdbuf())) {} ~quiet() { std::cout.rdbuf(p); } };
static std::string any(const char *n, int k) { std::string s; for (int i = 0; i < k; i++) s.push_back(sym_char(n)); return s; }
// text
HARNESS(replace) { int n = sym_pick("n", 0, 4), k = sym_pick("k", 1, 2), r = sym_pick("r", 0, 2); std::string t = any("t", n), w = any("w", k), by = any("b", r); size_t at = std::string::npos; for (int i = 0; i + k <= n && at == std::string::npos; i++) { bool m = true; for (int j = 0; j < k; j++) m = m && t[i + j] == w[j]; if (m) at = i; } std::string got; bool x = throws([&] { got = replaceInString(t, w, by); }); sym_assert(x == (at == std::string::npos), "replace-missing"); if (!x) sym_assert(got == t.substr(0, at) + by + t.substr(at + k), "replace"); }
HARNESS(replace_long) { std::string t(200, 'x'); int at = sym_pick("at", 0, 3) * 49; t.replace(at, 4, "here"); t += "here"; char c = sym_char("c"); std::string by(sym_pick("long", 0, 1) ? 100 : 1, c); std::string got = replaceInString(t, "here", by); sym_assert(got == t.substr(0, at) + by + t.substr(at + 4), "replace-long"); }
// files
HARNESS(exists) { folder in; quiet q; char c = sym_char("c"); bool there = sym_pick("there", 0, 1); std::string n = in("a_file"); if (there) mkfile(n, sym_pick("empty", 0, 1) ? "" : std::string(1, c)); mkfile(in("a_file.x"), "other"); sym_assert(fileExists(n) == there && fileExists(n) == there, "exists"); }
HARNESS(compare) { folder in; quiet q; int n = sym_pick("n", 0, 3), m = sym_pick("m", 0, 3); std::string a = any("a", n), b = any("b", m); mkfile(in("a"), a); mkfile(in("b"), b); sym_assert(compareFiles(in("a"), in("b")) == (a == b), "compare"); sym_assert(compareFiles(in("a"), in("a")), "compare-self"); }
HARNESS(compare_long) { folder in; quiet q; static const int sizes[] = {17, 100, 1030, 5000}; int n = sizes[sym_pick("n", 0, 3)], at = sym_pick("at", 0, 3); size_t w = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n - 2; std::string a, b; for (int i = 0; i < n; i++) a.push_back(char(i * 31 + i / 7)); b = a; b[w] = sym_char("c"); a[w] = sym_char("d"); mkfile(in("a"), a); mkfile(in("b"), b); sym_assert(compareFiles(in("a"), in("b")) == (a[w] == b[w]), "compare-long"); }
HARNESS(compare_lengths) { folder in; quiet q; int n = 40, d = sym_pick("d", -2, 2); char c = sym_char("c"); std::string a(n, c), b(n + d, c); mkfile(in("a"), a); mkfile(in("b"), b); sym_assert(compareFiles(in("a"), in("b")) == (d == 0), "compare-lengths"); }
HARNESS(compare_missing) { folder in; quiet q; int k = sym_pick("k", 0, 2); char c = sym_char("c"); if (k != 0) mkfile(in("a"), k == 1 ? std::string() : std::string(1, c)); sym_assert(!compareFiles(in("a"), in("none")) && !compareFiles(in("none"), in("a")) && !compareFiles(in("none"), in("none")), "compare-missing"); }
// images: the same size, and at most two in a hundred values that differ
static std::string image(int w, int h, int ch, const std::string &px) { return std::string("P") + (ch == 1 ? "5" : "6") + "\n" + std::to_string(w) + " " + std::to_string(h) + "\n255\n" + px; }
HARNESS(image_share) { folder in; quiet q; static const int W[] = {7, 10, 50, 17, 51, 20}, H[] = {7, 5, 1, 3, 2, 8}, C[] = {1, 1, 3, 1, 1, 1}; int k = sym_pick("size", 0, 5), n = W[k] * H[k] * C[k]; std::string a, b; for (int i = 0; i < n; i++) a.push_back(char(i * 37 + 11)); b = a; int differ = 0; for (int i = 0; i < 5; i++) { int at = i * (n - 1) / 4; a[at] = sym_char("a"); b[at] = sym_char("b"); differ += a[at] != b[at]; } mkfile(in("a"), image(W[k], H[k], C[k], a)); mkfile(in("b"), image(W[k], H[k], C[k], b)); sym_assert(imageCompare(in("a"), in("b")) == (differ * 50 <= n), "image-share"); sym_assert(imageCompare(in("b"), in("b")), "image-self"); }
HARNESS(image_shape) { folder in; quiet q; int k = sym_pick("k", 0, 6); char c = sym_char("c"); std::string px(36, c); int w = 6, h = 2, ch = 3; mkfile(in("a"), image(w, h, ch, px)); if (k == 1) { w = 4; h = 3; } if (k == 2) { w = 6; h = 6; ch = 1; } if (k == 3) { w = 12; h = 1; } if (k == 4) ch = 1; if (k == 5) w = 3; if (k == 6) h = 1; px.resize(w * h * ch); mkfile(in("b"), image(w, h, ch, px)); sym_assert(imageCompare(in("a"), in("b")) == (k == 0) && imageCompare(in("b"), in("a")) == (k == 0), "image-shape"); }
HARNESS(image_missing) { folder in; quiet q; char c = sym_char("c"); mkfile(in("a"), image(3, 2, 1, std::string(6, c))); mkfile(in("junk"), "Q?"); sym_assert(!imageCompare(in("a"), in("none")) && !imageCompare(in("none"), in("a")) && !imageCompare(in("a"), in("junk")) && !imageCompare(in("junk"), in("a")), "image-missing"); }
// scripts listed in an input file lie beside it
HARNESS(scripts) { folder in; quiet q; int n = sym_pick("n", 0, 3), extra = sym_pick("extra", 0, 1); std::string t = "{ "; if (extra) t += "\"steps\": 12, \"other\": [\"x\"], "; t += "\"catalyst-scripts\": ["; std::vector<std::string> want; for (int i = 0; i < n; i++) { char c = (char)sym_int_in("c", 'a', 'z'); std::string s = std::string(1, c) + (i ? "dir/script.py" : ".py"); t += (i ? ", \"" : "\"") + s + "\""; want.push_back(root + "/" + s); } t += "]"; if (extra) t += ", \"last\": \"y\""; t += " }"; mkfile(in("input.json"), t); sym_assert(getCatalystScripts(in("input.json")) == want, "scripts"); }
HARNESS(scripts_here) { folder in; quiet q; here h; char c = (char)sym_int_in("c", 'a', 'z'); std::string s = std::string(1, c) + ".py"; mkfile("input.json", "{ \"catalyst-scripts\": [\"" + s + "\"] }"); auto v = getCatalystScripts("input.json"); sym_assert(v.size() == 1 && (v[0] == s || v[0] == "./" + s), "scripts-here"); }
HARNESS(scripts_none) { folder in; quiet q; mkfile(in("input.json"), sym_pick("k", 0, 1) ? "{ }" : "{ \"scripts\": [\"a\"] }"); sym_assert(getCatalystScripts(in("input.json")).empty(), "no-scripts"); sym_assert(getCatalystScripts("").empty(), "no-input"); }
HARNESS(scripts_many) { folder in; quiet q; int n = 20; std::string t = "{\"catalyst-scripts\":["; std::vector<std::string> want; for (int i = 0; i < n; i++) { std::string s = "a_script_with_a_longer_name_" + std::to_string(i); if (i == 13) s[0] = (char)sym_int_in("c", 'a', 'z'); t += (i ? ",\"" : "\"") + s + "\""; want.push_back(root + "/" + s); } mkfile(in("input.json"), t + "]}"); sym_assert(getCatalystScripts(in("input.json")) == want, "many-scripts"); }
HARNESS(scripts_bad) { folder in; quiet q; int k = sym_pick("k", 0, 3); if (k == 1) mkfile(in("input.json"), ""); if (k == 2) mkfile(in("input.json"), "{ \"catalyst-scripts\": [ \"a\" "); if (k == 3) mkfile(in("input.json"), "{ \"catalyst-scripts\": [ \"a\", 3 ] }"); sym_assert(throws([&] { getCatalystScripts(in("input.json")); }), "bad-scripts"); }
// logs
HARNESS(log_object) { folder in; std::string a = any("a", sym_pick("n", 0, 2)), b = any("b", 2), t; bool named = sym_pick("named", 0, 1); InsituLog l(named ? in("x.log") : in("y.log")); if (!named) l.setOutputFilename(in("x.log")); l.log << a << 17; sym_assert(!content(in("x.log"), t), "log-not-yet"); l.writeToDisk(); sym_assert(content(in("x.log"), t) && t == a + "17", "log-written"); l.log << b; l.writeToDisk(); sym_assert(content(in("x.log"), t) && t == a + "17" + b, "log-grown"); l.clear(); l.log << b; l.setOutputFilename(in("z.log")); l.writeToDisk(); std::string u; sym_assert(content(in("z.log"), u) && u == b && content(in("x.log"), t) && t == a + "17" + b, "log-cleared"); sym_assert(!content(in("y.log"), t), "log-other"); }
HARNESS(log_functions) { folder in; std::string a = any("a", sym_pick("n", 0, 2)), b = any("b", 2), c = any("c", 1), t; int k = sym_pick("k", 0, 2), before = sym_pick("before", 0, 1); if (before) mkfile(in("x.log"), c); auto put = [&](const std::string &s) { if (k == 0) writeLog(in("x"), s); else if (k == 1) writeLogApp(in("x"), s); else writeLogNew(in("x"), s); }; put(a); sym_assert(content(in("x.log"), t) && t == (k == 1 && before ? c : std::string()) + a, "log-first"); put(b); sym_assert(content(in("x.log"), t) && t == (k == 1 ? (before ? c : std::string()) + a + b : b), "log-second"); sym_assert(!content(in("x"), t), "log-name"); }
HARNESS(log_nowhere) { folder in; std::string t; char c = sym_char("c"); writeLog(in("nodir/x"), std::string(1, c)); writeLogApp(in("nodir/x"), "y"); InsituLog l(in("nodir/l")); l.log << c; l.writeToDisk(); sym_assert(!content(in("nodir/x.log"), t) && l.log.str() == std::string(1, c), "log-nowhere"); }
// timers
HARNESS(timer) { quiet q; long a = sym_int_in("a", 0, 1000000000), b = sym_int_in("b", 0, 1000000000), c = sym_int_in("c", 0, 1000000000), d = sym_int_in("d", 0, 1000000000); bool named = sym_pick("constructor", 0, 1); now_ns = a; InsituTimer *p = named ? new InsituTimer("t") : new InsituTimer; InsituTimer &t = *p; if (!named) { sym_assert(t.stop("t") == -1 && t.getDuration("t") == -1, "timer-unknown"); sym_assert(t.start("t") == 1, "timer-start"); } sym_assert(t.getDuration("t") == -1, "timer-running"); now_ns += b; sym_assert(t.stop("t") == 1, "timer-stop"); now_ns += c; for (int k = 0; k < 2; k++) sym_eq(t.getDuration("t"), b / 1e9, "timer-duration"); sym_assert(t.start("t") == 1 && t.getDuration("t") == -1, "timer-again"); now_ns += d; sym_assert(t.stop("t") == 1, "timer-stop"); sym_eq(t.getDuration("t"), d / 1e9, "timer-second"); now_ns += c; t.stop("t"); sym_eq(t.getDuration("t"), d / 1e9, "timer-stopped-twice"); delete p; }
HARNESS(timers_apart) { quiet q; int ab = sym_int_in("ab", 0, 1000000), bc = sym_int_in("bc", 0, 1000000); static const long at[] = {7, 1000000007, 86400000000000}; long s = at[sym_pick("start", 0, 2)], m = s + 250000000; InsituTimer t, u; now_ns = s; t.start("one"); now_ns = m; t.start("two"); now_ns = s + ab; t.stop("one"); now_ns = m + bc; sym_assert(t.getDuration("two") == -1 && t.getDuration("on") == -1 && u.getDuration("one") == -1 && u.stop("one") == -1, "timers-apart"); t.stop("two"); sym_eq(t.getDuration("one"), ab / 1e9, "first-timer"); sym_eq(t.getDuration("two"), bc / 1e9, "second-timer"); t.start("one"); sym_assert(t.getDuration("one") == -1, "restarted"); sym_eq(t.getDuration("two"), bc / 1e9, "other-kept"); }
HARNESS(timers_many) { quiet q; InsituTimer t; int e = sym_int_in("e", 0, 1000000); for (int i = 0; i < 12; i++) { now_ns = i; t.start("timer number " + std::to_string(i)); } for (int i = 0; i < 12; i++) { now_ns = 2000000 + i; if (i == 7) now_ns += e; t.stop("timer number " + std::to_string(i)); } for (int i = 0; i < 12; i++) sym_eq(t.getDuration("timer number " + std::to_string(i)), (2000000 + (i == 7 ? e : 0)) / 1e9, "many-timers"); }
