// Growing a fixed-capacity vector past its capacity is rejected before anything is overwritten.
#include "sym.h"
#include <assert.h>
#include <stdexcept>
#include <cstddef>
#include <iterator>
#include <limits>
#include <ristra/utils/fixed_vector.h>
using ristra::utils::fixed_vector; using std::size_t;
constexpr int N = 3;
HARNESS(overflow) {
  struct { int lo[4]; fixed_vector<int, N> f; int hi[4]; } s; for (int i = 0; i < 4; i++) s.lo[i] = s.hi[i] = 0x5a5a;
  int n = sym_pick("n", 0, N); for (int i = 0; i < n; i++) s.f.push_back(i);
  int p = sym_pick("pos", 0, N); sym_assume(p <= n); size_t c = sym_pick("count", 0, 5); int src[5] = {9, 9, 9, 9, 9}, x = 8;
  bool rejected = false; size_t want = n + c; int op = sym_pick("op", 0, 10);
  try { switch (op) {
    case 0: want = n + 1; s.f.push_back(x); break;
    case 1: want = n + 1; s.f.push_back(std::move(x)); break;
    case 2: want = n + 1; s.f.emplace_back(x); break;
    case 3: want = n + 1; s.f.insert(s.f.cbegin() + p, x); break;
    case 4: want = n + 1; s.f.insert(s.f.cbegin() + p, std::move(x)); break;
    case 5: s.f.insert(s.f.cbegin() + p, c, x); break;
    case 6: s.f.insert(s.f.cbegin() + p, src, src + c); break;
    case 7: want = n + 2; s.f.insert(s.f.cbegin() + p, {x, x}); break;
    case 8: want = c; s.f.resize(c, x); break;
    case 9: want = c; s.f.assign(c, x); break;
    case 10: want = c; s.f.resize(c); break;
  } } catch (const assert_failed &) { rejected = true; }
  sym_assert(rejected == (want > N), "rejected-iff-over-capacity");
  if (!rejected) sym_assert(s.f.size() == want, "size");
  for (int i = 0; i < 4; i++) sym_assert(s.lo[i] == 0x5a5a && s.hi[i] == 0x5a5a, "neighbours-untouched");
}
HARNESS(assign_range) {
  struct { int lo[4]; fixed_vector<int, N> f; int hi[4]; } s; for (int i = 0; i < 4; i++) s.lo[i] = s.hi[i] = 0x5a5a;
  int src[5] = {9, 9, 9, 9, 9}; size_t c = sym_pick("count", 0, 5); bool rejected = false; int op = sym_pick("op", 0, 4);
  try { switch (op) {
    case 0: s.f.assign(src, src + c); break;
    case 1: { fixed_vector<int, N> g(src, src + c); s.f = g; break; }
    case 2: { fixed_vector<int, N> g(c, 4); s.f = g; break; }
    case 4: { fixed_vector<int, N> g(c); s.f = g; sym_assert(s.f.size() == c, "size"); break; }
    case 3: { c = 4; fixed_vector<int, N> g{1, 2, 3, 4}; s.f = g; break; }
  } } catch (const assert_failed &) { rejected = true; }
  sym_assert(rejected == (c > N), "rejected-iff-over-capacity");
  for (int i = 0; i < 4; i++) sym_assert(s.lo[i] == 0x5a5a && s.hi[i] == 0x5a5a, "neighbours-untouched");
}

HARNESS(huge_counts) { // any count at all, sums that wrap included
  struct { int lo[4]; fixed_vector<int, N> f; int hi[4]; } s; for (int i = 0; i < 4; i++) s.lo[i] = s.hi[i] = 0x5a5a;
  int n = sym_pick("n", 0, N); for (int i = 0; i < n; i++) s.f.push_back(i); size_t c = sym_bits("count", 64); sym_assume(c > N); bool rejected = false; int op = sym_pick("op", 0, 4);
  try { switch (op) { case 0: s.f.insert(s.f.cbegin(), c, 4); break; case 1: s.f.assign(c, 4); break; case 2: s.f.resize(c, 4); break; case 3: s.f.resize(c); break; case 4: { fixed_vector<int, N> g(c); break; } } } catch (const assert_failed &) { rejected = true; }
  sym_assert(rejected, "huge-rejected"); for (int i = 0; i < 4; i++) sym_assert(s.lo[i] == 0x5a5a && s.hi[i] == 0x5a5a, "huge-neighbours");
}
