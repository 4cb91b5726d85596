// Command line arguments.
#include "sym.h"
#include <ristra/initialization/arguments.h>
#include <functional>
using args_t = ristra::initialization::command_line_arguments_t;
struct cmd { std::vector<std::string> s; std::vector<char *> p; cmd &operator()(const std::string &t) { s.push_back(t); return *this; } int n() { return (int)s.size(); } char **v() { p.clear(); for (auto &t : s) p.push_back(&t[0]); p.push_back(nullptr); return p.data(); } };
static bool has(const std::string &t, const std::string &w) { return t.find(w) != std::string::npos; }
template<class G> static bool throws(G g) { try { g(); } catch (const std::exception &) { return true; } return false; }
struct printed { std::ostringstream o, e; std::streambuf *po, *pe; printed() : po(std::cout.rdbuf(o.rdbuf())), pe(std::cerr.rdbuf(e.rdbuf())) {} ~printed() { std::cout.rdbuf(po); std::cerr.rdbuf(pe); } };
static void options(args_t &a, int groups) { const char *g[4] = {"m", "m", "m", "m"}; if (groups == 1) { g[0] = "a"; g[2] = "b"; } if (groups == 2) { g[0] = "z"; g[1] = "y"; g[2] = "x"; g[3] = "w"; }
  bool r = a.register_argument<int>(g[0], "num,n", "the number"); r = a.register_argument<std::string>(g[1], "word,w", "the word") && r; r = a.register_argument<double>(g[2], "real,r", "the real") && r; r = a.register_argument(g[3], "flag,f", "the flag") && r; sym_assert(r, "registered"); }
static void put(cmd &c, int form, const char *l, const char *s, const std::string &v) { if (form == 1) c(std::string("--") + l + "=" + v); if (form == 2) c(std::string("--") + l)(v); if (form == 3) c(std::string("-") + s)(v); if (form == 4) c(std::string("-") + s + v); }
static void noise(cmd &c, int k) { if (k == 1) c("--other"); if (k == 2) c("--other=3"); if (k == 3) c("stray"); if (k == 4) c("-q"); }
static char digit(const char *n) { return (char)sym_int_in(n, '0', '9'); }
static char letter(const char *n) { return (char)sym_int_in(n, 'a', 'z'); }
// one option in every form, among tokens that belong to somebody else
HARNESS(one) { args_t a; options(a, 0); int k = sym_pick("option", 0, 3), form = sym_pick("form", 0, 4), before = sym_pick("before", 0, 4), after = sym_pick("after", 0, 1); if (k == 3 && form != 0 && form != 1 && form != 3) return; char x = digit("x"), y = digit("y"), p = letter("p"), q = letter("q"); bool neg = form == 1 && sym_pick("negative", 0, 1); cmd c; c("prog"); noise(c, before);
  if (k == 0) put(c, form, "num", "n", std::string(neg ? "-" : "") + x + y); if (k == 1) put(c, form, "word", "w", std::string() + p + q); if (k == 2) put(c, form, "real", "r", std::string(neg ? "-" : "") + x + ".5"); if (k == 3 && form) c(form == 1 ? "--flag" : "-f"); if (after) noise(c, 3);
  auto r = a.process_arguments(c.n(), c.v(), false); const auto &v = r.variables; sym_assert(!r.error, "accepted"); static const char *const n[] = {"num", "word", "real", "flag"}; for (int i = 0; i < 4; i++) sym_assert(v.count(n[i]) == (i == k && form ? 1 : 0), "count"); sym_assert(v.count("other") == 0 && v.count("stray") == 0 && v.count("q") == 0 && v.count("") == 0, "foreign-tokens");
  int di = sym_int("di"); char dc = letter("dc"); double dd = sym_real("dd"); int num = (x - '0') * 10 + (y - '0'); if (neg) num = -num; double re = (x - '0') + 0.5; if (neg) re = -re; bool g0 = form && k == 0, g1 = form && k == 1, g2 = form && k == 2;
  sym_assert(v.as<int>("num") == (g0 ? num : 0) && v.as<int>("num", di) == (g0 ? num : di), "integer-value"); sym_assert(v.as<std::string>("word") == (g1 ? std::string() + p + q : "") && v.as<std::string>("word", std::string(3, dc)) == (g1 ? std::string() + p + q : std::string(3, dc)), "text-value"); sym_eq(v.as<double>("real"), g2 ? re : 0, "real-value"); sym_eq(v.as<double>("real", dd), g2 ? re : dd, "real-default"); }
// all of them, in any order and any grouping
HARNESS(all) { args_t a; int groups = sym_pick("groups", 0, 2); if (sym_pick("titles", 0, 1)) for (const char *g : {"m", "a", "x"}) sym_assert(a.register_group(g, std::string("Title-") + g), "group"); options(a, groups); int turn = sym_pick("turn", 0, 3), form = sym_pick("form", 1, 4); bool back = sym_pick("back", 0, 1); char x = digit("x"), p = letter("p"), y = digit("y"); cmd c; c("prog"); for (int i = 0; i < 4; i++) { int k = ((back ? 3 - i : i) + turn) % 4; if (k == 0) put(c, form, "num", "n", std::string(1, x)); if (k == 1) put(c, form, "word", "w", std::string(2, p)); if (k == 2) put(c, form, "real", "r", std::string("2.") + y); if (k == 3) c(form < 3 ? "--flag" : "-f"); }
  auto r = a.process_arguments(c.n(), c.v(), false); const auto &v = r.variables; sym_assert(!r.error && v.count("num") == 1 && v.count("word") == 1 && v.count("real") == 1 && v.count("flag") == 1, "all-seen"); sym_assert(v.as<int>("num", -1) == x - '0' && v.as<std::string>("word", "?") == std::string(2, p), "all-values"); sym_eq(v.as<double>("real", -1.), 2 + (y - '0') / 10., "all-values"); }
// what the program says on a malformed command line
static void texts(const std::string &t, bool want, const char *label) { for (const char *w : {"--num", "the number", "--word", "the word", "--real", "the real", "--flag", "the flag", "Usage: prog"}) sym_assert(has(t, w) == want, label); }
HARNESS(malformed) { args_t a; options(a, sym_pick("groups", 0, 2)); int k = sym_pick("what", 0, 10); bool print = sym_pick("print", 0, 1), good = sym_pick("good", 0, 1); char p = letter("p"), x = digit("x"); cmd c; c("prog"); if (good) c("--word=text");
  if (k == 0) c(std::string("--num=") + p); if (k == 1) c("--num="); if (k == 2) c("--num"); if (k == 3) c("--num=3")("--num=4"); if (k == 4) c("--num=3.5"); if (k == 5) c("--num=99999999999"); if (k == 6) c("--flag=1"); if (k == 7) c("-f")("--flag"); if (k == 8) c(std::string("--real=") + p); if (k == 9) c(std::string("--num=") + x + p); if (k == 10) c("-n")("--word=a");
  printed out; auto r = a.process_arguments(c.n(), c.v(), print); sym_assert(r.error, "refused"); std::string e = out.e.str(), o = out.o.str(); texts(e, print, "error-text"); sym_assert(has(e, "ERROR: ") == print && e.empty() == !print && o.empty(), "error-text"); }
HARNESS(help) { args_t a; options(a, sym_pick("groups", 0, 2)); bool known = sym_pick("registered", 0, 1), given = sym_pick("given", 0, 1), print = sym_pick("print", 0, 1), other = sym_pick("other", 0, 1); if (known) a.register_argument("m", "help,h", "produce help"); cmd c; c("prog"); if (given) c("--help"); if (other) c("--num=7"); printed out; auto r = a.process_arguments(c.n(), c.v(), print); std::string e = out.e.str(), o = out.o.str(); sym_assert(!r.error && r.variables.count("help") == (known && given) && r.variables.as<int>("num", 5) == (other ? 7 : 5), "help-seen"); texts(o, known && given && print, "help-text"); sym_assert(has(o, "produce help") == (known && given && print) && o.empty() == !(known && given && print) && e.empty(), "help-text"); }
// print is the default
HARNESS(prints_by_default) { args_t a; options(a, 1); cmd c; c("prog")("--num=x"); printed out; auto r = a.process_arguments(c.n(), c.v()); sym_assert(r.error, "refused"); texts(out.e.str(), true, "error-text"); }
HARNESS(missing) { args_t a; bool title = sym_pick("title", 0, 1); int groups = sym_pick("groups", 0, 2); if (title) a.register_group(groups == 0 ? "m" : groups == 1 ? "a" : "z", "Named options"); options(a, groups); char p = letter("p"), q = letter("q"); cmd c; c(std::string("pro") + p); a.process_arguments(c.n(), c.v(), false); auto t = a.print_missing_argument(std::string("arg") + q); sym_assert(has(t, "Missing command line argument 'arg" + std::string(1, q) + "'") && has(t, std::string("Usage: pro") + p + " "), "missing-text"); for (const char *w : {"--num", "the number", "--word", "the word", "--real", "the real", "--flag", "the flag"}) sym_assert(has(t, w), "missing-options"); sym_assert(has(t, "Named options") == title, "missing-title"); }
// one command line does not colour the next; options registered in between count
HARNESS(twice) { args_t a; options(a, 1); char x = digit("x"), y = digit("y"); cmd c, d; c("one")(std::string("--num=") + x)("--late=6")("--flag"); bool bad = sym_pick("bad", 0, 1); if (bad) c("--real=zz"); auto r = a.process_arguments(c.n(), c.v(), false); sym_assert(r.error == bad, "first"); if (!bad) sym_assert(r.variables.as<int>("num", -1) == x - '0' && r.variables.count("late") == 0, "first"); a.register_argument<int>(sym_pick("group", 0, 1) ? "a" : "new", "late", "the late one"); bool again = sym_pick("again", 0, 1); d("two"); if (again) d(std::string("--num=") + y); d("--late=7"); auto s = a.process_arguments(d.n(), d.v(), false); sym_assert(!s.error && s.variables.count("num") == (again ? 1 : 0) && s.variables.as<int>("num", -1) == (again ? y - '0' : -1) && s.variables.count("flag") == 0 && s.variables.as<int>("late") == 7, "second"); if (!bad) sym_assert(r.variables.as<int>("num", -1) == x - '0', "first-kept"); sym_assert(has(a.print_missing_argument("z"), "Usage: two "), "second-name"); }
HARNESS(instance) { auto &a = args_t::instance(); auto &b = args_t::instance(); sym_assert(&a == &b, "one-instance"); a.register_argument<int>("g", "num,n", "the number"); char x = digit("x"); cmd c; c("prog")("-n")(std::string(1, x)); auto r = b.process_arguments(c.n(), c.v(), false); sym_assert(!r.error && r.variables.as<int>("num") == x - '0', "shared"); }
HARNESS(other_type) { args_t a; options(a, 0); cmd c; c("prog")("--num=4")("--word=ab"); auto r = a.process_arguments(c.n(), c.v(), false); const auto &v = r.variables; sym_assert(throws([&] { v.as<double>("num"); }) && throws([&] { v.as<int>("word"); }), "other-type-refused"); auto w = v; sym_assert(w.as<int>("num") == 4 && w.count("word") == 1, "copy"); }
HARNESS(nothing) { args_t a; bool some = sym_pick("some", 0, 1); if (some) options(a, 0); cmd c; c("prog"); if (sym_pick("stray", 0, 1)) c("stray")("--x=1"); printed out; auto r = a.process_arguments(c.n(), c.v()); sym_assert(!r.error && r.variables.count("num") == 0 && r.variables.as<int>("num", 3) == 3 && out.o.str().empty() && out.e.str().empty(), "nothing"); }
// many options, many tokens, long names and values
HARNESS(many) { args_t a; int n = 14, at = sym_pick("at", 0, 14); bool groups = sym_pick("groups", 0, 1); char x = digit("x"); cmd c; c("a/rather/long/path/to/the/program/that/runs"); for (int i = 0; i < n; i++) { std::string o = std::string("option-of-some-length-") + char('a' + i); a.register_argument<int>(groups ? std::string(1, char('z' - i)) : "m", o, std::string("message ") + char('A' + i)); if (i != at) c("--" + o + "=" + std::to_string(100 + i)); c("stray" + std::to_string(i)); } c(std::string("--option-of-some-length-x=") + x); auto r = a.process_arguments(c.n(), c.v(), false); sym_assert(!r.error, "many-accepted"); for (int i = 0; i < n; i++) { std::string o = std::string("option-of-some-length-") + char('a' + i); sym_assert(r.variables.count(o) == (i != at) && r.variables.as<int>(o, -5) == (i == at ? -5 : 100 + i), "many-value"); } sym_assert(r.variables.count("option-of-some-length-x") == 0 && r.variables.count("option-of-some-length") == 0, "many-foreign"); auto t = a.print_missing_argument("q"); sym_assert(has(t, "Usage: a/rather/long/path/to/the/program/that/runs "), "many-usage"); for (int i = 0; i < n; i++) sym_assert(has(t, std::string("--option-of-some-length-") + char('a' + i)) && has(t, std::string("message ") + char('A' + i)), "many-usage-options"); }
HARNESS(long_values) { args_t a; options(a, sym_pick("groups", 0, 1)); static const int sizes[] = {15, 16, 40, 200}; int n = sizes[sym_pick("n", 0, 3)], form = sym_pick("form", 1, 4); std::string w(n, 'v'); w[0] = letter("c"); w[n - 1] = letter("d"); cmd c; c("prog"); put(c, form, "word", "w", w); put(c, form, "num", "n", "2147483647"); put(c, form, "real", "r", "0.001953125"); auto r = a.process_arguments(c.n(), c.v(), false); sym_assert(!r.error && r.variables.as<std::string>("word") == w && r.variables.as<int>("num") == 2147483647, "long-value"); sym_eq(r.variables.as<double>("real"), 0.001953125, "long-real"); }
HARNESS(zero_values) { args_t a; options(a, 0); int form = sym_pick("form", 1, 4); cmd c; c("prog"); put(c, form, "num", "n", "0"); put(c, form, "real", "r", "0.0"); auto r = a.process_arguments(c.n(), c.v(), false); sym_assert(!r.error && r.variables.count("num") == 1 && r.variables.as<int>("num", 7) == 0 && r.variables.as<double>("real", 7.) == 0, "zero-value"); }
HARNESS(title_later) { args_t a; options(a, 0); char p = letter("p"); a.register_group("late", std::string("Late ") + p); a.register_argument<int>("late", "last,l", "the last"); cmd c; c("prog")("-l")("4")("--num=2"); auto r = a.process_arguments(c.n(), c.v(), false); sym_assert(!r.error && r.variables.as<int>("last") == 4 && r.variables.as<int>("num") == 2, "late-group"); auto t = a.print_missing_argument("q"); sym_assert(has(t, std::string("Late ") + p) && has(t, "the last") && has(t, "the number"), "late-title"); }
