// Containers of different lengths are not zipped.
#include "sym.h"
#include <assert.h>
#include <array>
#include <cstddef>
#include <iterator>
#include <tuple>
#include <vector>
#include <limits>
#include <string>
#include <functional>
#include <stdexcept>
#include <ristra/utils/zip.h>
#include <ristra/utils/array_ref.h>
#include <ristra/utils/trivial_string.h>
using namespace ristra; using std::vector;
HARNESS(zip_mismatch2) { int n = sym_pick("n", 0, 3), m = sym_pick("m", 0, 3); vector<int> a(n), b(m); bool r = false; try { auto z = utils::zip(a, b); (void)z; } catch (const assert_failed &) { r = true; } sym_assert(r == (n != m), "zip-rejects-2"); }
HARNESS(zip_mismatch3) { int n = sym_pick("n", 0, 2), m = sym_pick("m", 0, 2), k = sym_pick("k", 0, 2); vector<int> a(n), b(m), c(k); bool r = false; try { auto z = utils::zip(a, b, c); (void)z; } catch (const assert_failed &) { r = true; } sym_assert(r == (n != m || m != k), "zip-rejects-3"); }
HARNESS(view_limits) { int a[4] = {1, 2, 3, 4}; std::size_t n = sym_pick("len", 0, 4), k = sym_bits("k", 64); utils::array_ref<int> r(a, n); bool pre = sym_pick("prefix", 0, 1), t = false; try { if (pre) r.remove_prefix(k); else r.remove_suffix(k); } catch (const assert_failed &) { t = true; } sym_assert(t == (k > n), "view-shrink-rejected"); if (t) sym_assert(r.size() == n && r.data() == a, "view-kept"); }
HARNESS(trivial_index) { utils::trivial_string<4> t = utils::to_trivial_string<4>("abc"); const auto &c = t; std::size_t i = sym_bits("i", 64); bool r = false, q = false; try { t[i] = 'x'; } catch (const assert_failed &) { r = true; } try { (void)c[i]; } catch (const assert_failed &) { q = true; } sym_assert(r == (i >= 4) && q == r, "trivial-index-range"); }
