// Text conversions of string_utils.h on the stream model (decided) and on the real streams (replayed).
#include "sym.h"
#include <cassert>
#include <cstddef>
#include <stdexcept>
#include <ristra/utils/string_utils.h>
using namespace ristra; using std::string; using std::size_t;
// n in decimal, at least w wide, filled with zeros on the left
static bool dec(const string &r, unsigned n, size_t w) {
  char d[24]; size_t k = 0; do { d[k++] = '0' + n % 10; n /= 10; } while (n); while (k < w) d[k++] = '0';
  if (r.size() != k) return false; bool e = true; for (size_t i = 0; i < k; i++) e = e & (r[i] == d[k - 1 - i]); return e;
}
HARNESS(padded) {
  static const unsigned big[] = {0, 9, 10, 99, 100, 999999, 1000000, 4294967295u}; unsigned n = sym_pick("small", 0, 1) ? sym_int_in("n", 0, 120) : big[sym_pick("big", 0, 7)]; unsigned w = sym_pick("w", 0, 8);
  sym_assert(dec(utils::zero_padded(n, w), n, w), "zero-padded"); sym_assert(dec(utils::zero_padded(n), n, 6), "zero-padded-default"); sym_assert(dec(utils::to_string(n), n, 0), "to-string");
}
HARNESS(signed_text) { int n = sym_int_in("n", -30, 30); string r = utils::to_string(n); sym_assert(n < 0 ? r.size() > 1 && r[0] == '-' && dec(r.substr(1), -n, 0) : dec(r, n, 0), "to-string-signed"); sym_assert(utils::to_string(string("a b")) == "a b", "to-string-text"); sym_assert(utils::to_string('x') == "x", "to-string-char"); }
HARNESS(wide) { int l = sym_pick("len", 0, 4); char b[8]; for (int i = 0; i < l; i++) { b[i] = sym_char("c"); sym_assume(b[i] > 0); } b[l] = 0; std::wstring w = utils::to_wstring(b); sym_assert((int)w.size() == l, "wide-length"); for (int i = 0; i < l && i < (int)w.size(); i++) sym_assert(w[i] == (wchar_t)b[i], "wide-char"); }
