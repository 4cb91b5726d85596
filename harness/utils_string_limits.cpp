// Indexing a fixed-size string outside its storage is rejected (assert made observable).
#include "sym.h"
#include <assert.h>
#include <cstddef>
#include <stdexcept>
#include <string>
#include <ristra/utils/trivial_string.h>
using namespace ristra; using std::size_t;
template<size_t N> void limits() {
  utils::trivial_string<N> t = utils::to_trivial_string<N>("abcdefghijklm"); const auto &c = t; size_t i = sym_bits("i", 64); bool r = false, cr = false; const char *p = nullptr, *q = nullptr;
  try { p = &t[i]; } catch (const assert_failed &) { r = true; } try { q = &c[i]; } catch (const assert_failed &) { cr = true; }
  sym_assert(r == (i >= N) && cr == (i >= N), "trivial-range"); if (i < N) { sym_assert(p == t.data() + i && q == p && c.data() == t.data() && c.c_str() == t.data(), "trivial-element"); }
}
HARNESS(limits1) { limits<1>(); } HARNESS(limits5) { limits<5>(); } HARNESS(limits300) { limits<300>(); }
