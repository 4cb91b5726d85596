// String helpers against a direct reading of their documentation.
#include "sym.h"
#include <cassert>
#include <cstddef>
#include <stdexcept>
#include <ristra/utils/string_utils.h>
#include <ristra/utils/trivial_string.h>
#include <ristra/utils/const_string.h>
#include <cstring>
using namespace ristra; using std::string; using std::size_t;
// a string of up to m characters over an alphabet with two special and two ordinary characters
static string any(const char *n, int m, const char *alpha) { int l = sym_pick("len", 0, m), k = strlen(alpha); char buf[16]; for (int i = 0; i < l; i++) { int c = sym_int_in(n, 0, k - 1); char r = alpha[0]; for (int j = 1; j < k; j++) r = c == j ? alpha[j] : r; buf[i] = r; } buf[l] = 0; return string(buf, l); }
static bool eq(const string &a, const char *b, size_t n) { if (a.size() != n) return false; bool r = true; for (size_t i = 0; i < n; i++) r = r & (a[i] == b[i]); return r; }
constexpr int L = thorough ? 6 : 4;
HARNESS(paths) {
  string s = any("c", L, "./ab"); const char *p = s.data(); size_t n = s.size(), base = 0; for (size_t i = 0; i < n; i++) if (p[i] == '/') base = i + 1;
  size_t dot = n; for (size_t i = base; i < n; i++) if (p[i] == '.') dot = i;
  sym_assert(eq(utils::basename(s), p + base, n - base), "basename");
  sym_assert(eq(utils::file_extension(s), p + (dot < n ? dot + 1 : n), dot < n ? n - dot - 1 : 0), "file-extension");
  sym_assert(eq(utils::remove_extension(s), p, dot), "remove-extension");
  auto q = utils::split_extension(s); sym_assert(eq(q.first, p, dot), "split-extension-stem"); sym_assert(eq(q.second, p + (dot < n ? dot + 1 : n), dot < n ? n - dot - 1 : 0), "split-extension-ext");
}
HARNESS(replace) {
  string s = any("s", L, "ab"), f = any("f", 2, "ab"), t = any("t", 2, "abc"); string r = utils::replace_all(s, f, t);
  char e[32]; size_t k = 0, i = 0; // leftmost, non-overlapping
  while (i < s.size()) { bool m = f.size() > 0 && i + f.size() <= s.size(); if (m) for (size_t j = 0; j < f.size(); j++) if (s[i + j] != f[j]) { m = false; break; } if (m) { for (size_t j = 0; j < t.size(); j++) e[k++] = t[j]; i += f.size(); } else e[k++] = s[i++]; }
  sym_assert(eq(r, e, k), "replace-all");
}
template<int ND> void splits() {
  string s = any("s", L, " ,ab\xe9"); char d[ND ? ND : 1]; std::vector<char> del; for (int i = 0; i < ND; i++) { char c = sym_char("d"); sym_assume(c == ' ' || c == ',' || c == '\xe9'); d[i] = c; del.push_back(c); }
  auto isd = [&](char c) { bool r = false; for (int i = 0; i < ND; i++) r = r | (c == d[i]); return r; };
  auto v = utils::split(s, del); size_t w = 0, i = 0, n = s.size();
  while (i < n) { if (isd(s[i])) { i++; continue; } size_t j = i; while (j < n && !isd(s[j])) j++; sym_assert(w < v.size(), "split-count"); if (w < v.size()) sym_assert(eq(v[w], s.data() + i, j - i), "split-word"); w++; i = j; }
  sym_assert(v.size() == w, "split-total");
}
HARNESS(split1) { splits<1>(); } HARNESS(split2) { splits<2>(); }
HARNESS(split_default) { string s = any("s", L, " \tab"); auto v = utils::split(s); size_t w = 0, i = 0, n = s.size(); while (i < n) { if (s[i] == ' ') { i++; continue; } size_t j = i; while (j < n && s[j] != ' ') j++; sym_assert(w < v.size() && eq(v[w], s.data() + i, j - i), "default-word"); w++; i = j; } sym_assert(v.size() == w, "default-total"); }
HARNESS(digits) { unsigned n = sym_int("n"); unsigned d = utils::num_digits(n); unsigned long lo = 1; for (unsigned i = 1; i < d; i++) lo *= 10; sym_assert(d >= 1 && d <= 10, "digits-range"); sym_assert((d == 1 || n >= lo) && n < lo * 10, "num-digits"); }
template<size_t N> void triv() {
  string s = any("s", 6, "xyz"); struct { char lo[4]; utils::trivial_string<N> t; char hi[4]; } g; for (int i = 0; i < 4; i++) g.lo[i] = g.hi[i] = 0x5a;
  g.t = utils::to_trivial_string<N>(s); for (int i = 0; i < 4; i++) sym_assert(g.lo[i] == 0x5a && g.hi[i] == 0x5a, "trivial-contained");
  size_t k = s.size() < N ? s.size() : N - 1; bool nul = false; for (size_t i = 0; i < N; i++) nul = nul | (g.t.data()[i] == 0); sym_assert(nul, "trivial-terminated");
  if (s.size() < N) { sym_assert(strlen(g.t.c_str()) == s.size(), "trivial-length"); sym_assert(eq(g.t.str(), s.data(), s.size()), "trivial-roundtrip"); for (size_t i = 0; i < s.size(); i++) sym_assert(g.t[i] == s[i], "trivial-index"); }
  else for (size_t i = 0; i < k; i++) sym_assert(g.t[i] == s[i], "trivial-prefix");
  auto c = g.t; sym_assert(eq(c.str(), g.t.c_str(), strlen(g.t.c_str())), "trivial-copy"); sym_assert(g.t.size() == N, "trivial-size");
}
HARNESS(trivial4) { triv<4>(); } HARNESS(trivial8) { triv<8>(); } HARNESS(trivial1) { triv<1>(); }
HARNESS(constant) { static const char lit[] = "mesh"; utils::const_string c(lit); size_t i = sym_bits("i", 64); bool t = false; char v = 0; try { v = c[i]; } catch (const std::out_of_range &) { t = true; } sym_assert(t == (i >= 4), "const-range"); if (i < 4) sym_assert(v == lit[i], "const-char"); sym_assert(c.size() == 4, "const-size"); sym_assert(c.c_str() == lit, "const-cstr"); }
// arbitrary characters
static string chars(const char *n, int l) { char b[16]; for (int i = 0; i < l; i++) b[i] = sym_char(n); return string(b, l); }
static void path(const string &s) { const char *p = s.data(); size_t n = s.size(), base = 0; for (size_t i = 0; i < n; i++) if (p[i] == '/') base = i + 1; size_t dot = n; for (size_t i = base; i < n; i++) if (p[i] == '.') dot = i;
  sym_assert(eq(utils::basename(s), p + base, n - base), "basename"); sym_assert(eq(utils::file_extension(s), p + (dot < n ? dot + 1 : n), dot < n ? n - dot - 1 : 0), "file-extension"); sym_assert(eq(utils::remove_extension(s), p, dot), "remove-extension");
  auto q = utils::split_extension(s); sym_assert(eq(q.first, p, dot), "split-extension-stem"); sym_assert(eq(q.second, p + (dot < n ? dot + 1 : n), dot < n ? n - dot - 1 : 0), "split-extension-ext"); }
HARNESS(paths_any) { path(chars("c", 3)); }
HARNESS(paths_long) { static const char *pre[] = {"a/longer.name/of/a.directory", "/x/../y/./0123456789012345678901234567890123456789", "..", "a.b.c.tar.", "dir.d/file"}; string s = pre[sym_pick("prefix", 0, 4)]; for (int i = sym_pick("times", 0, 1) * 6; i > 0; i--) s += "0123456789_abcdefghij~klmnop\\qrst:uvwxyzABCDE"; static const char *end[] = {"", ".x", "/", "a.b", "/.", ".", "//q", ".tar.gz"}; path(s + end[sym_pick("end", 0, 7)]); }
HARNESS(split_any) { string s = chars("s", 3); char d = sym_char("d"); auto v = utils::split(s, {d}); size_t w = 0, i = 0, n = s.size(); while (i < n) { if (s[i] == d) { i++; continue; } size_t j = i; while (j < n && s[j] != d) j++; sym_assert(w < v.size() && eq(v[w], s.data() + i, j - i), "any-word"); w++; i = j; } sym_assert(v.size() == w, "any-total"); }
HARNESS(split_many) { // many pieces, long pieces, several delimiters, none at all
  string s, w[60]; int n = 0; char sep = sym_char("sep"); sym_assume(sep == ';' || sep == '\t' || sep == ' ' || sep == '|'); for (int i = 0; i < 60; i++) { if (i % 7 == 0) s += sep; w[n] = string(1 + (i * 5) % 23, 'a' + i % 26); s += w[n++]; s += i % 2 ? ';' : '\t'; } auto v = utils::split(s, {';', ' ', '\t', '|'}); sym_assert((int)v.size() == n, "many-total"); for (int i = 0; i < n; i++) sym_assert(v[i] == w[i], "many-word");
  auto o = utils::split(s, std::vector<char>{}); sym_assert(o.size() == 1 && o[0] == s, "no-delimiter"); sym_assert(utils::split("", {','}).empty() && utils::split(",,,", {','}).empty() && utils::split("", std::vector<char>{}).empty(), "empty-split"); auto l = utils::split(string(300, 'x') + "," + string(20, 'y')+ ",", {','}); sym_assert(l.size() == 2 && l[0] == string(300, 'x') && l[1] == string(20, 'y'), "long-pieces"); }
HARNESS(replace_long) { char a = sym_char("a"); sym_assume(a != 'q' && a != 'r'); string s, e; static const char *to[] = {"", "r", "xqqqx", "qqq", "a longer replacement than sixteen"}; int k = sym_pick("to", 0, 4), n = sym_pick("n", 0, 3) * 9; for (int i = 0; i < n; i++) { s += "qqq"; s += a; e += to[k]; e += a; } s += "qq"; e += "qq"; sym_assert(utils::replace_all(s, "qqq", to[k]) == e, "replace-long"); sym_assert(utils::replace_all("aaaa", "aa", "a") == "aa" && utils::replace_all("aabaaab", "aab", "b") == "bab" && utils::replace_all("", "x", "y").empty() && utils::replace_all("x", "", "y") == "x" && utils::replace_all("ab", "abc", "z") == "ab" && utils::replace_all("abab", "abab", "") == "", "replace-fixed"); string nul("a\0b\0c", 5); sym_assert(utils::replace_all(nul, string("\0", 1), "--") == "a--b--c", "replace-nul"); }
HARNESS(trivial_large) { string s; for (int i = 0; i < 400; i++) s += (char)('a' + i % 26); int n = sym_pick("n", 0, 5); static const int len[] = {0, 15, 255, 256, 299, 400}; string c = s.substr(0, len[n]); auto t = utils::to_trivial_string<300>(c); string r = c.size() < 300 ? c : c.substr(0, 299); sym_assert(t.str() == r && strlen(t.c_str()) == r.size() && t.size() == 300, "trivial-large"); t[0] = 'Z'; const auto &k = t; sym_assert(k[0] == 'Z' && *k.data() == 'Z', "trivial-write"); string nul("a\0b", 3); auto u = utils::to_trivial_string<8>(nul); sym_assert(u[0] == 'a' && u[1] == 0 && u[2] == 'b' && u[3] == 0 && u.str() == "a", "trivial-nul"); }
HARNESS(constant_sizes) { utils::const_string e(""), o("x"); size_t i = sym_bits("i", 64); bool t = false, u = false; try { e[i]; } catch (const std::out_of_range &) { t = true; } char v = 0; try { v = o[i]; } catch (const std::out_of_range &) { u = true; } sym_assert(t && e.size() == 0, "const-empty"); sym_assert(u == (i >= 1) && o.size() == 1, "const-one"); if (i == 0) sym_assert(v == 'x', "const-one-char"); }
