// ksym: bounded symbolic execution of LLVM IR with an SMT solver (z3).
//
// Every input created by the harness (sym_* functions) is a solver variable;
// every branch on a symbolic value is decided by the solver; every sym_assert is
// a query "path condition and not assertion".  Memory is a set of disjoint
// objects; any access outside a live object is reported.  Floating point values
// are encoded in exact real arithmetic (rational functions of the inputs, square
// roots as algebraic variables).
#include "poly.h"
#include <z3++.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <random>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/InlineAsm.h>

using namespace llvm;
using std::string; using std::vector; using std::shared_ptr; using std::make_shared;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

std::map<uint32_t, Poly> g_sqrtDef;
static z3::context Z;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options
static string optEntry = "harness", optOut, optScope = "/repo/";
static double optTimeout = 600, optQueryTimeout = 30;
static u64 optMaxPaths = 2000000, optMaxInstr = 4000000; // per path
static bool optVerbose = false, optTrace = false;
static u64 optMaxConc = 300;

// ------------------------------------------------------------------ values
struct V;
struct Node {
  std::unique_ptr<z3::expr> e;
  RealP r;
  vector<V> agg;
};
using NodeP = shared_ptr<const Node>;
struct V {
  enum K : u8 { NONE, INT, REAL, AGG } k = NONE;
  u32 bits = 0;
  u64 c = 0;
  NodeP n;
  bool conc() const { return k == INT && !n; }
};
static u64 maskb(u32 b) { return b >= 64 ? ~0ull : ((1ull << b) - 1); }
static V mkInt(u32 bits, u64 c) { V v; v.k = V::INT; v.bits = bits; 
  if (bits > 64) { auto nd = make_shared<Node>(); nd->e.reset(new z3::expr(Z.bv_val((uint64_t)c, bits))); v.n = nd; return v; }
  v.c = c & maskb(bits); return v; }
static V mkExpr(u32 bits, const z3::expr &e0) {
  z3::expr e = e0.simplify();
  V v; v.k = V::INT; v.bits = bits;
  if (bits == 1) {
    if (e.is_bv()) e = (e == Z.bv_val(1, 1)).simplify();
    if (e.is_true()) { v.c = 1; return v; }
    if (e.is_false()) { v.c = 0; return v; }
  } else if (bits <= 64) {
    uint64_t x;
    if (e.is_numeral() && e.is_numeral_u64(x)) { v.c = x; return v; }
  }
  auto nd = make_shared<Node>(); nd->e.reset(new z3::expr(e)); v.n = nd; return v;
}
static V mkReal(u32 bits, const Real &r) {
  V v; v.k = V::REAL; v.bits = bits; auto nd = make_shared<Node>(); nd->r = make_shared<Real>(r); v.n = nd; return v;
}
static V mkRealQ(u32 bits, const Q &q) { Real r; r.n = Poly(q); return mkReal(bits, r); }
// not finite: a nonzero numerator gives the sign of an infinity, zero stands for an unknown non-finite value
static V mkNonFin(u32 bits, int inf = 0) { Real r; r.fin = false; r.n = Poly(Q(inf)); return mkReal(bits, r); }
static int infSign(const Real &r) { return r.fin || !r.n.isConst() || r.n.isZero() ? 0 : r.n.cst() > 0 ? 1 : -1; }
static V mkAgg(vector<V> a) { V v; v.k = V::AGG; auto nd = make_shared<Node>(); nd->agg = std::move(a); v.n = nd; return v; }
static const Real &R(const V &v) { return *v.n->r; }
static bool realConc(const V &v) { return v.k == V::REAL && R(v).fin && R(v).n.isConst() && R(v).d.isConst(); }

struct Unsupported { string msg; };
[[noreturn]] static void unsupported(const string &s) { throw Unsupported{s}; }

static z3::expr zInt(const V &v) { // BV sort (or Bool for 1 bit)
  if (v.k != V::INT) unsupported("integer operation on a non-integer value");
  if (!v.n) return v.bits == 1 ? Z.bool_val(v.c != 0) : Z.bv_val((uint64_t)v.c, v.bits);
  return *v.n->e;
}
static z3::expr zBV(const V &v) { // always BV
  z3::expr e = zInt(v);
  if (e.is_bool()) return z3::ite(e, Z.bv_val(1, 1), Z.bv_val(0, 1));
  return e;
}

// ------------------------------------------------------------------ real variables
struct RVar { string name; z3::expr e; bool input; };
static vector<RVar> g_rvars;
static u32 newRVar(const string &name, bool input) {
  u32 id = g_rvars.size();
  g_rvars.push_back({name, Z.real_const((name + "!" + std::to_string(id)).c_str()), input});
  return id;
}
static z3::expr zQ(const Q &q) { return Z.real_val(q.get_str().c_str()); }
static z3::expr zPoly(const Poly &p) {
  if (p.isZero()) return Z.real_val(0);
  z3::expr_vector sum(Z);
  for (auto &k : p.t) {
    z3::expr_vector f(Z);
    if (k.second != 1 || k.first.empty()) f.push_back(zQ(k.second));
    for (auto &m : k.first) for (u32 i = 0; i < m.second; i++) f.push_back(g_rvars[m.first].e);
    if (f.size() == 1) sum.push_back(f[0]);
    else { vector<Z3_ast> a; for (unsigned i = 0; i < f.size(); i++) a.push_back(f[i]); sum.push_back(z3::expr(Z, Z3_mk_mul(Z, a.size(), a.data()))); }
  }
  if (sum.size() == 1) return sum[0];
  vector<Z3_ast> a; for (unsigned i = 0; i < sum.size(); i++) a.push_back(sum[i]);
  return z3::expr(Z, Z3_mk_add(Z, a.size(), a.data()));
}
static Real norm(Real r) {
  if (!r.fin) return r;
  if (r.n.isZero()) { r.d = Poly(Q(1)); return r; }
  if (r.d.isConst()) { Q c = r.d.cst(); if (c != 1) { r.n = scale(r.n, 1 / c); r.d = Poly(Q(1)); } return r; }
  Poly q;
  if (r.n.t.size() >= r.d.t.size() && g_sqrtDef.empty() && exactDiv(r.n, r.d, q)) { r.n = q; r.d = Poly(Q(1)); return r; }
  // monomial content
  {
    Mono common; bool first = true;
    auto upd = [&](const Poly &p) { for (auto &k : p.t) {
      if (first) { common = k.first; first = false; continue; }
      Mono c; size_t i = 0, j = 0;
      while (i < common.size() && j < k.first.size()) {
        if (common[i].first < k.first[j].first) i++;
        else if (common[i].first > k.first[j].first) j++;
        else { c.push_back({common[i].first, std::min(common[i].second, k.first[j].second)}); i++; j++; }
      }
      common = c; if (common.empty()) return; } };
    upd(r.n); if (!common.empty()) upd(r.d);
    if (!common.empty()) {
      auto dv = [&](const Poly &p) { Poly o; for (auto &k : p.t) { Mono m; monoDiv(k.first, common, m); o.t.emplace(m, k.second); } return o; };
      r.n = dv(r.n); r.d = dv(r.d);
      if (r.d.isConst()) return norm(r);
    }
  }
  return r;
}
// an infinity's sign after an operation (0: not a number, or unknown)
static int infS(const Real &r) { return r.fin || !r.n.isConst() || r.n.isZero() ? 0 : r.n.cst() > 0 ? 1 : -1; }
static int cstS(const Real &r) { return !r.fin || !r.n.isConst() || !r.d.isConst() || r.n.isZero() ? 0 : (r.n.cst() > 0) == (r.d.cst() > 0) ? 1 : -1; }
static Real rInf(int sg) { Real r; r.fin = false; r.n = Poly(Q(sg)); return r; }
static Real rAdd(const Real &a, const Real &b, bool sub) {
  Real r; if (!a.fin || !b.fin) { int p = infS(a), q = sub ? -infS(b) : infS(b); return rInf(a.fin ? q : b.fin ? p : p == q ? p : 0); }
  if (a.d == b.d) { r.n = sub ? a.n - b.n : a.n + b.n; r.d = a.d; return norm(r); }
  Poly q;
  if (g_sqrtDef.empty()) {
    if (!b.d.isConst() && exactDiv(b.d, a.d, q)) { Poly an = a.n * q; r.n = sub ? an - b.n : an + b.n; r.d = b.d; return norm(r); }
    if (!a.d.isConst() && exactDiv(a.d, b.d, q)) { Poly bn = b.n * q; r.n = sub ? a.n - bn : a.n + bn; r.d = a.d; return norm(r); }
  }
  Poly x = a.n * b.d, y = b.n * a.d;
  r.n = sub ? x - y : x + y; r.d = a.d * b.d; return norm(r);
}
static Real rMul(const Real &a, const Real &b) {
  Real r; if (!a.fin || !b.fin) { return rInf((a.fin ? cstS(a) : infS(a)) * (b.fin ? cstS(b) : infS(b))); }
  if (!a.d.isConst() && a.d == b.n) { r.n = a.n; r.d = b.d; return norm(r); }
  if (!b.d.isConst() && b.d == a.n) { r.n = b.n; r.d = a.d; return norm(r); }
  r.n = a.n * b.n; r.d = a.d * b.d; return norm(r);
}
static Real rNeg(const Real &a) { Real r = a; r.n = -a.n; return r; }

// sign condition  a OP 0 as solver formula; polynomials are scaled to a canonical form so
// that conditions on multiples of one polynomial share their atoms
static Poly canon(const Poly &p, int &sg) {
  Q c = p.t.rbegin()->second; sg = c > 0 ? 1 : -1; return scale(p, 1 / c);
}
static z3::expr rSign(const Real &a, char op) { // '<' , '=' , 'l' (<=)
  z3::expr zero = Z.real_val(0);
  if (a.n.isZero()) return Z.bool_val(op != '<');
  int sn = 1, sd = 1; Poly cn = a.n.isConst() ? a.n : canon(a.n, sn); if (a.n.isConst()) { sn = a.n.cst() > 0 ? 1 : -1; cn = Poly(Q(1)); }
  z3::expr n = zPoly(cn);
  if (op == '=') return n == zero;
  z3::expr e = n;
  if (a.d.isConst()) sd = a.d.cst() > 0 ? 1 : -1; else { Poly cd = canon(a.d, sd); e = n * zPoly(cd); }
  if (sn * sd > 0) return op == '<' ? e < zero : e <= zero;
  return op == '<' ? e > zero : e >= zero;
}
static bool trySign(const Real &a, char op, bool &out) {
  if (a.n.isConst() && a.d.isConst()) {
    Q v = a.n.cst() / a.d.cst();
    out = op == '=' ? v == 0 : op == '<' ? v < 0 : v <= 0; return true;
  }
  return false;
}

// ------------------------------------------------------------------ memory
struct Byte { u8 c = 0; u8 idx = 0; u8 tot = 0; u8 st = 0; NodeP n; }; // st: 0 uninit 1 conc 2 int 3 real
struct Obj { u64 size; char kind; string name; vector<Byte> b; };
using ObjP = shared_ptr<Obj>;

struct Frame {
  Function *f; BasicBlock *bb = nullptr, *prev = nullptr; BasicBlock::iterator pc;
  vector<V> regs; vector<u64> allocas; CallBase *site = nullptr; vector<V> varargs;
};
struct Input { string name; char kind; V v; u32 rvar; };
struct Exc { u64 ptr; u64 ti; };
struct State {
  vector<Frame> stk;
  std::map<u64, ObjP> mem; // id -> obj
  u64 nextId = 1;
  vector<z3::expr> pc;
  std::unordered_map<unsigned, u64> subst; // ast id -> concrete value
  vector<Input> inputs;
  vector<Exc> caught; vector<u64> uncaughtTi;
  u64 instrs = 0; u32 fresh = 0; u32 depth = 0;
  std::map<u64, u64> excTi; // exception object -> typeinfo
  bool lastFin = true;
};

// ------------------------------------------------------------------ engine globals
static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const Function *, std::unordered_map<const Value *, u32>> g_num;
static std::map<const GlobalValue *, u64> g_addr; static std::map<u64, const Function *> g_fnAt;
static std::map<string, u64> g_extAddr; // external typeinfos, etc
static std::map<u64, string> g_extName;
static std::set<string> g_funcs, g_stubs, g_notes;
static std::unordered_set<const BasicBlock *> g_seenBB;
struct Viol { string label, kind, detail; vector<std::pair<string, string>> inputs; string where; bool modelOk; };
static vector<Viol> g_viol; static std::set<string> g_violLabels;
struct LabelStat { u64 checks = 0, discharged = 0; bool witness = false; };
static std::map<string, LabelStat> g_labels;
static u64 g_queries = 0, g_sat = 0, g_unsat = 0, g_unknown = 0, g_paths = 0, g_pathsDone = 0, g_pathsAssumed = 0, g_totalInstr = 0, g_assertQ = 0, g_forks = 0;
static double g_solver = 0, g_start; static vector<string> g_errors; static u64 g_maxUnknown = 0;

// ------------------------------------------------------------------ solver
static std::unordered_map<unsigned, shared_ptr<std::set<unsigned>>> g_vars; static vector<z3::expr> g_keep;
static shared_ptr<std::set<unsigned>> varsOf(const z3::expr &e) {
  unsigned id = Z3_get_ast_id(Z, e);
  auto it = g_vars.find(id); if (it != g_vars.end()) return it->second;
  auto s = make_shared<std::set<unsigned>>();
  if (e.is_app()) {
    unsigned n = e.num_args();
    if (n == 0) { if (e.decl().decl_kind() == Z3_OP_UNINTERPRETED) s->insert(id); }
    else for (unsigned i = 0; i < n; i++) { auto t = varsOf(e.arg(i)); s->insert(t->begin(), t->end()); }
  }
  g_keep.push_back(e); g_vars[id] = s; return s;
}
static bool hasReal(const z3::expr &e) {
  static std::unordered_map<unsigned, bool> cache;
  unsigned id = Z3_get_ast_id(Z, e); auto it = cache.find(id); if (it != cache.end()) return it->second;
  bool r = e.is_real();
  if (!r && e.is_app()) for (unsigned i = 0; i < e.num_args() && !r; i++) r = hasReal(e.arg(i));
  g_keep.push_back(e); cache[id] = r; return r;
}
static bool hasBV(const z3::expr &e) {
  static std::unordered_map<unsigned, bool> cache;
  unsigned id = Z3_get_ast_id(Z, e); auto it = cache.find(id); if (it != cache.end()) return it->second;
  bool r = e.is_bv();
  if (!r && e.is_app()) for (unsigned i = 0; i < e.num_args() && !r; i++) r = hasBV(e.arg(i));
  g_keep.push_back(e); cache[id] = r; return r;
}
enum SatR { SAT, UNSAT, UNKNOWN };
static void count(SatR r) { g_queries++; if (r == SAT) g_sat++; else if (r == UNSAT) g_unsat++; else g_unknown++; }
static SatR rawCheck(const vector<z3::expr> &cs, double timeout, z3::model *out, int mode) {
  double t0 = now();
  SatR res = UNKNOWN;
  try {
    bool re = false, bv = false;
    for (auto &c : cs) { re |= hasReal(c); bv |= hasBV(c); }
    z3::params p(Z);
    z3::solver s = [&]() {
      if (re && !bv && mode == 0) {
        z3::params sp(Z); sp.set("som", true); sp.set("som_blowup", (unsigned)100000);
        z3::tactic t = z3::with(z3::tactic(Z, "simplify"), sp) & z3::tactic(Z, "propagate-values") & z3::tactic(Z, "purify-arith") & z3::tactic(Z, "qfnra-nlsat");
        return t.mk_solver();
      }
      if (re && !bv && mode == 1) return z3::tactic(Z, "qfnra").mk_solver();
      return z3::solver(Z);
    }();
    p.set("timeout", (unsigned)(timeout * 1000));
    s.set(p);
    for (auto &c : cs) s.add(c);
    z3::check_result r = s.check();
    if (r == z3::sat) { res = SAT; if (out) *out = s.get_model(); }
    else if (r == z3::unsat) res = UNSAT;
  } catch (z3::exception &e) { if (optVerbose) std::cerr << "z3: " << e.msg() << "\n"; }
  g_solver += now() - t0; count(res);
  return res;
}
static vector<z3::expr> slice(const vector<z3::expr> &pc, const z3::expr &q) {
  std::set<unsigned> vs(varsOf(q)->begin(), varsOf(q)->end());
  vector<char> in(pc.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
      auto s = varsOf(pc[i]); bool hit = s->empty();
      for (unsigned v : *s) if (vs.count(v)) { hit = true; break; }
      if (hit) { in[i] = 1; vs.insert(s->begin(), s->end()); ch = true; } } }
  vector<z3::expr> r; for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
  return r;
}
static std::mt19937_64 g_rng(12345);
// try random small points for the real inputs: substitute and simplify; the solver only decides what is left
static SatR pointTry(const vector<z3::expr> &cs, z3::model *out, int tries) {
  std::set<unsigned> vs; for (auto &c : cs) { auto s = varsOf(c); vs.insert(s->begin(), s->end()); }
  vector<z3::expr> vars; for (auto &r : g_rvars) if (r.input && vs.count(Z3_get_ast_id(Z, r.e))) vars.push_back(r.e);
  if (vars.empty()) return UNKNOWN;
  double t0 = now();
  for (int k = 0; k < tries && now() - t0 < 20; k++) {
    z3::expr_vector from(Z), to(Z);
    for (auto &v : vars) {
      int lo = -6, hi = 6; int den = (k % 3 == 0) ? 1 : (k % 3 == 1 ? 4 : 8);
      if (k % 3 == 2) { lo = -7; hi = 7; }
      i64 x = lo + (i64)(g_rng() % (u64)(hi - lo + 1));
      from.push_back(v); to.push_back(Z.real_val((int64_t)x, (int64_t)den));
    }
    vector<z3::expr> rest; bool dead = false;
    for (auto &c : cs) { z3::expr c0 = c; z3::expr e = c0.substitute(from, to).simplify(); if (e.is_false()) { dead = true; break; } if (!e.is_true()) rest.push_back(e); }
    if (dead) continue;
    if (rest.empty() && !out) { count(SAT); return SAT; }
    for (unsigned i = 0; i < from.size(); i++) rest.push_back(from[i] == to[i]);
    if (rawCheck(rest, 3, out, 2) == SAT) return SAT;
  }
  return UNKNOWN;
}
// linear abstraction: every nonlinear product becomes a fresh real; unsat of the abstraction is unsat
static std::unordered_map<unsigned, z3::expr> g_abs; static std::unordered_map<unsigned, std::pair<z3::expr, bool>> g_prod;
static z3::expr absLin(const z3::expr &e, vector<z3::expr> &side) {
  if (!e.is_app() || e.num_args() == 0) return e;
  if (e.is_real() && e.decl().decl_kind() == Z3_OP_MUL) {
    vector<z3::expr> num, rest; for (unsigned i = 0; i < e.num_args(); i++) { z3::expr a = e.arg(i); if (a.is_numeral()) num.push_back(a); else rest.push_back(a); }
    if (rest.size() >= 2) {
      std::sort(rest.begin(), rest.end(), [](const z3::expr &x, const z3::expr &y) { return Z3_get_ast_id(Z, x) < Z3_get_ast_id(Z, y); });
      vector<Z3_ast> a; for (auto &r : rest) a.push_back(r); z3::expr m(Z, Z3_mk_mul(Z, a.size(), a.data())); g_keep.push_back(m); unsigned id = Z3_get_ast_id(Z, m);
      auto it = g_prod.find(id);
      if (it == g_prod.end()) { std::map<unsigned, int> c; for (auto &r : rest) c[Z3_get_ast_id(Z, r)]++; bool even = true; for (auto &k : c) even &= k.second % 2 == 0; it = g_prod.emplace(id, std::make_pair(Z.real_const(("nl!" + std::to_string(id)).c_str()), even)).first; }
      z3::expr v = it->second.first; if (it->second.second) side.push_back(v >= 0);
      for (auto &n : num) v = n * v; return v;
    }
  }
  z3::expr_vector args(Z); for (unsigned i = 0; i < e.num_args(); i++) args.push_back(absLin(e.arg(i), side));
  return e.decl()(args);
}
static SatR rawCheck(const vector<z3::expr> &cs, double timeout, z3::model *out, int mode);
static SatR linTry(const vector<z3::expr> &cs) {
  vector<z3::expr> l; vector<z3::expr> side; for (auto &c : cs) l.push_back(absLin(c, side)); for (auto &x : side) l.push_back(x);
  SatR r = rawCheck(l, 2, nullptr, 2); return r == UNSAT ? UNSAT : UNKNOWN;
}
static std::unordered_map<string, SatR> g_cache;
static SatR solve(const vector<z3::expr> &cs, double timeout, z3::model *out = nullptr) {
  string key;
  for (auto &c : cs) { if (c.is_false()) { count(UNSAT); return UNSAT; } unsigned id = Z3_get_ast_id(Z, c); g_keep.push_back(c); key.append((char *)&id, 4); }
  if (!out) { auto it = g_cache.find(key); if (it != g_cache.end()) return it->second; }
  bool re = false; for (auto &c : cs) re |= hasReal(c);
  SatR r = UNKNOWN;
  if (re) {
    r = linTry(cs);
    if (r == UNKNOWN) r = pointTry(cs, out, out ? 24 : 6);
    if (r == UNKNOWN) r = rawCheck(cs, std::min(2.0, timeout), out, 0);
    if (r == UNKNOWN) r = pointTry(cs, out, 24);
    if (r == UNKNOWN) r = rawCheck(cs, timeout, out, 0);
    if (r == UNKNOWN) r = rawCheck(cs, timeout / 2, out, 1);
    if (r == UNKNOWN) r = rawCheck(cs, timeout / 2, out, 2);
  } else r = rawCheck(cs, timeout, out, 2);
  if (!out) g_cache[key] = r;
  return r;
}
static SatR feasible(const State &s, const z3::expr &q, double timeout = -1) {
  if (timeout < 0) timeout = std::min(optQueryTimeout, hasReal(q) ? 4.0 : optQueryTimeout);
  vector<z3::expr> cs = slice(s.pc, q); cs.push_back(q);
  return solve(cs, timeout);
}

// ------------------------------------------------------------------ forking
struct NeedFork { vector<std::pair<z3::expr, std::pair<unsigned, u64>>> alts; bool partial = false; };

static bool concBool(State &s, const V &v) {
  if (v.conc()) return v.c;
  z3::expr e = zInt(v); if (e.is_bv()) e = e == Z.bv_val(1, 1);
  unsigned id = Z3_get_ast_id(Z, e);
  auto it = s.subst.find(id); if (it != s.subst.end()) return it->second;
  g_keep.push_back(e);
  SatR t = feasible(s, e), f = t == UNSAT ? SAT : feasible(s, !e);
  if (t == UNSAT) { s.subst[id] = 0; return false; }
  if (f == UNSAT) { s.subst[id] = 1; return true; }
  NeedFork nf; nf.alts.push_back({e, {id, 1}}); nf.alts.push_back({!e, {id, 0}}); throw nf;
}
static u64 concInt(State &s, const V &v) {
  if (v.k == V::REAL) unsupported("real used as integer/pointer");
  if (v.conc()) return v.c;
  z3::expr e = zBV(v);
  unsigned id = Z3_get_ast_id(Z, e);
  auto it = s.subst.find(id); if (it != s.subst.end()) return it->second;
  g_keep.push_back(e);
  vector<z3::expr> cs = slice(s.pc, e == e.ctx().bv_val(0, v.bits));
  vector<u64> vals;
  while (true) {
    z3::model m(Z);
    SatR r = rawCheck(cs, optQueryTimeout, &m, 2);
    if (r == UNSAT) break;
    if (r == UNKNOWN) unsupported("solver unknown while enumerating a symbolic address/size");
    z3::expr x = m.eval(e, true); uint64_t val;
    if (!x.is_numeral_u64(val)) unsupported("concretization");
    vals.push_back(val); cs.push_back(e != Z.bv_val(val, v.bits));
    if (vals.size() > optMaxConc) unsupported("too many values for a symbolic address/size");
  }
  if (vals.empty()) unsupported("infeasible path in concretization");
  NeedFork nf; std::sort(vals.begin(), vals.end());
  for (u64 x : vals) nf.alts.push_back({e == Z.bv_val((uint64_t)x, v.bits), {id, x}});
  throw nf;
}

// ------------------------------------------------------------------ violations
struct PathEnd { string why; };
static string whereStr(const State &s) {
  string o;
  for (int i = (int)s.stk.size() - 1; i >= 0 && i > (int)s.stk.size() - 7; i--) {
    const Frame &f = s.stk[i]; string l;
    if (f.pc != f.bb->end()) if (const DILocation *d = f.pc->getDebugLoc().get()) { l = d->getFilename().str() + ":" + std::to_string(d->getLine());
      while (d->getInlinedAt()) { d = d->getInlinedAt(); l += "<" + d->getFilename().str() + ":" + std::to_string(d->getLine()); } }
    o += llvm::demangle(f.f->getName().str()).substr(0, 120) + (l.empty() ? "" : " @" + l) + " | ";
  }
  return o;
}
static string modelVal(z3::model &m, const Input &in) {
  if (in.kind == 'r') {
    z3::expr x = m.eval(g_rvars[in.rvar].e, true);
    if (x.is_numeral()) return x.get_decimal_string(30).find('?') == string::npos ? Z3_get_numeral_string(Z, x) : Z3_get_numeral_string(Z, x);
    if (x.is_algebraic()) { string d = x.get_decimal_string(18); if (!d.empty() && d.back() == '?') d.pop_back(); return d; }
    return "0";
  }
  if (in.v.conc()) return std::to_string(in.v.c);
  z3::expr x = m.eval(zBV(in.v), true); uint64_t u;
  if (x.is_numeral_u64(u)) return std::to_string(u);
  return "0";
}
static void violation(State &s, const string &label, const string &kind, const string &detail, const z3::expr &neg) {
  if (g_violLabels.count(label)) return;
  vector<z3::expr> cs = s.pc; cs.push_back(neg);
  z3::model m(Z);
  SatR r = solve(cs, optQueryTimeout * 2, &m);
  if (r == UNSAT) return;
  Viol v; v.label = label; v.kind = kind; v.detail = detail; v.where = whereStr(s); v.modelOk = r == SAT;
  if (r == SAT) for (auto &in : s.inputs) v.inputs.push_back({in.name, string(1, in.kind) + " " + modelVal(m, in)});
  else { g_errors.push_back("solver unknown for a possible violation of " + label); g_labels[label]; return; }
  g_violLabels.insert(label); g_viol.push_back(v);
  if (optVerbose) { std::cerr << "VIOL " << label << " " << kind << " " << detail << " @ " << v.where << "\n"; for (auto &i : v.inputs) std::cerr << "   " << i.first << " = " << i.second << "\n"; }
}
static void checkAssert(State &s, const z3::expr &cond, const string &label) {
  auto &L = g_labels[label]; L.checks++; g_assertQ++;
  if (!L.witness) {
    // reachability witness: the path condition at this assertion is satisfiable
    vector<z3::expr> cs = s.pc; if (cs.empty() || solve(cs, optQueryTimeout) == SAT) L.witness = true;
    else { z3::model m(Z); if (solve(cs, optQueryTimeout, &m) == SAT) L.witness = true; }
  }
  z3::expr neg = !cond;
  SatR r = UNKNOWN;
  if (hasReal(neg)) {
    z3::expr sn = neg; if (sn.simplify().is_false()) { r = UNSAT; count(UNSAT); }
    else { r = pointTry({neg}, nullptr, 3); if (r == UNKNOWN) r = rawCheck({neg}, 5, nullptr, 0); if (r == SAT) r = UNKNOWN; } }
  if (r == UNKNOWN) r = feasible(s, neg, optQueryTimeout);
  if (r == UNSAT) { L.discharged++; return; }
  if (r == UNKNOWN) { g_errors.push_back("solver unknown at assertion " + label); s.pc.push_back(cond); return; }
  violation(s, label, "assert", "assertion can be false", neg);
  SatR f = feasible(s, cond); if (f == UNSAT) throw PathEnd{"assert"};
  s.pc.push_back(cond);
}

// ------------------------------------------------------------------ memory ops
static u64 allocObj(State &s, u64 size, char kind, const string &name, bool zero = false) {
  u64 id = s.nextId++; auto o = make_shared<Obj>(); o->size = size; o->kind = kind; o->name = name; o->b.resize(size);
  if (zero) for (auto &b : o->b) b.st = 1;
  s.mem[id] = o; return (id << 32) + 0x10000;
}
static ObjP wr(State &s, u64 id) { auto &p = s.mem[id]; if (p.use_count() > 1) p = make_shared<Obj>(*p); return p; }
[[noreturn]] static void memErr(State &s, const string &what, u64 addr, u64 n) {
  std::ostringstream os; os << what << " of " << n << " bytes at " << std::hex << addr << std::dec;
  u64 id = addr >> 32; auto it = s.mem.find(id);
  if (it != s.mem.end()) os << " (object " << it->second->name << " size " << it->second->size << " offset " << (i64)(addr - (id << 32) - 0x10000) << ")";
  violation(s, "memory-safety", "memory", os.str(), Z.bool_val(true));
  throw PathEnd{"memory error"};
}
static Obj *find(State &s, u64 addr, u64 n, u64 &off, const char *what, bool forWrite = false) {
  u64 id = addr >> 32; auto it = s.mem.find(id);
  if (it == s.mem.end()) memErr(s, string("invalid ") + what, addr, n);
  i64 o = (i64)(addr - (id << 32)) - 0x10000;
  if (o < 0 || (u64)o + n > it->second->size) memErr(s, string("out-of-bounds ") + what, addr, n);
  off = o;
  if (forWrite) { if (it->second->kind == 'c') memErr(s, "write to constant memory", addr, n); return wr(s, id).get(); }
  return it->second.get();
}
static u64 bitsOfReal(const Q &q, u32 bits) {
  double d = qToDouble(q);
  if (bits == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; }
  u64 x; memcpy(&x, &d, 8); return x;
}
static V freshSym(State &s, Type *t);
static z3::expr byteExpr(const Byte &b) {
  if (b.st == 1) return Z.bv_val((unsigned)b.c, 8);
  if (b.st == 2) { z3::expr e = *b.n->e; if (e.is_bool()) e = z3::ite(e, Z.bv_val(1, 8), Z.bv_val(0, 8));
    unsigned w = e.get_sort().bv_size(); unsigned hi = b.idx * 8 + 7; if (b.idx * 8u >= w) return Z.bv_val(0, 8);
    if (hi >= w) return z3::zext(e.extract(w - 1, b.idx * 8), hi - w + 1); return e.extract(hi, b.idx * 8); }
  unsupported("byte of a floating-point value used as an integer");
}
static V realFromBits(u64 x, u32 bits) {
  double d; if (bits == 32) { u32 y = x; float f; memcpy(&f, &y, 4); d = f; if (!std::isfinite(d)) return mkNonFin(bits, std::isnan(d) ? 0 : d > 0 ? 1 : -1);
    Q q = rationalize(d); return mkRealQ(bits, q); }
  memcpy(&d, &x, 8); if (!std::isfinite(d)) return mkNonFin(bits, std::isnan(d) ? 0 : d > 0 ? 1 : -1); return mkRealQ(bits, rationalize(d));
}
static V loadBytes(State &s, Obj *&o, u64 addr, u64 off, u64 n, bool wantReal, u32 bits, Type *ty) {
  // whole REAL node?
  const Byte &b0 = o->b[off];
  if (b0.st == 3 && b0.idx == 0 && b0.tot == n) {
    bool ok = true; for (u64 i = 0; i < n && ok; i++) { const Byte &b = o->b[off + i]; ok = b.st == 3 && b.n == b0.n && b.idx == i; }
    if (ok) { V v; v.k = V::REAL; v.bits = bits; v.n = b0.n; return v; }
  }
  bool anyUn = false, allUn = true;
  for (u64 i = 0; i < n; i++) { if (o->b[off + i].st == 0) anyUn = true; else allUn = false; }
  if (anyUn) {
    if (allUn && wantReal) { V v = freshSym(s, ty); u64 off2; Obj *w = find(s, addr, n, off2, "write", false); ObjP p = wr(s, addr >> 32);
      for (u64 i = 0; i < n; i++) { Byte b; b.st = 3; b.idx = i; b.tot = n; b.n = v.n; p->b[off + i] = b; } (void)w; o = p.get(); return v; }
    ObjP p = wr(s, addr >> 32); o = p.get();
    for (u64 i = 0; i < n; i++) if (p->b[off + i].st == 0) {
      auto nd = make_shared<Node>(); nd->e.reset(new z3::expr(Z.bv_const(("undef!" + std::to_string(g_queries) + "_" + std::to_string(s.fresh++) ).c_str(), 8)));
      Byte b; b.st = 2; b.idx = 0; b.tot = 1; b.n = nd; p->b[off + i] = b; }
  }
  bool allc = true; for (u64 i = 0; i < n; i++) { auto &b = o->b[off + i]; if (b.st == 3 && b.n->r->fin && b.n->r->n.isConst() && b.n->r->d.isConst()) continue; if (b.st != 1) { allc = false; break; } }
  auto cb = [&](u64 i) -> u8 { auto &b = o->b[off + i]; if (b.st == 1) return b.c; 
     u64 x = bitsOfReal(b.n->r->n.cst() / b.n->r->d.cst(), b.tot * 8); return b.idx < 8 ? (x >> (8 * b.idx)) & 255 : 0; };
  if (wantReal) {
    if (!allc) unsupported("symbolic integer bits reinterpreted as floating point");
    u64 x = 0; for (u64 i = 0; i < std::min<u64>(n, 8); i++) x |= (u64)cb(i) << (8 * i);
    if (bits == 80) { for (u64 i = 0; i < n; i++) if (cb(i)) unsupported("x86_fp80 bytes"); return mkRealQ(80, Q(0)); }
    return realFromBits(x, bits);
  }
  if (allc && n <= 8) { u64 x = 0; for (u64 i = 0; i < n; i++) x |= (u64)cb(i) << (8 * i); return mkInt(bits, x); }
  // whole INT node?
  if (b0.st == 2 && b0.idx == 0 && b0.tot == n) {
    bool ok = true; for (u64 i = 0; i < n && ok; i++) { const Byte &b = o->b[off + i]; ok = b.st == 2 && b.n == b0.n && b.idx == i; }
    if (ok) { z3::expr e = *b0.n->e; u32 w = e.is_bool() ? 1 : e.get_sort().bv_size(); if (w == bits) { V v; v.k = V::INT; v.bits = bits; v.n = b0.n; return v; } }
  }
  z3::expr e = byteExpr(o->b[off]);
  for (u64 i = 1; i < n; i++) e = z3::concat(byteExpr(o->b[off + i]), e);
  if (bits < n * 8) e = e.extract(bits - 1, 0);
  if (bits == 1) e = e == Z.bv_val(1, 1);
  return mkExpr(bits, e);
}
static V loadTy(State &s, u64 addr, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    vector<V> a; auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) a.push_back(loadTy(s, addr + sl->getElementOffset(i), st->getElementType(i)));
    return mkAgg(a);
  }
  if (auto *at = dyn_cast<ArrayType>(t)) { vector<V> a; u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) a.push_back(loadTy(s, addr + i * es, at->getElementType())); return mkAgg(a); }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { vector<V> a; u64 es = DL->getTypeStoreSize(vt->getElementType());
    for (u64 i = 0; i < vt->getNumElements(); i++) a.push_back(loadTy(s, addr + i * es, vt->getElementType())); return mkAgg(a); }
  u64 n = DL->getTypeStoreSize(t); u64 off; Obj *o = find(s, addr, n, off, "read");
  if (t->isFloatingPointTy()) return loadBytes(s, o, addr, off, n, true, t->getPrimitiveSizeInBits(), t);
  u32 bits = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
  return loadBytes(s, o, addr, off, n, false, bits, t);
}
static void storeTy(State &s, u64 addr, Type *t, const V &v) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, addr + sl->getElementOffset(i), st->getElementType(i), v.n->agg[i]); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) storeTy(s, addr + i * es, at->getElementType(), v.n->agg[i]); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(vt->getElementType());
    for (u64 i = 0; i < vt->getNumElements(); i++) storeTy(s, addr + i * es, vt->getElementType(), v.n->agg[i]); return; }
  u64 n = DL->getTypeStoreSize(t); u64 off; Obj *o = find(s, addr, n, off, "write", true);
  if (v.k == V::REAL) { for (u64 i = 0; i < n; i++) { Byte b; b.st = 3; b.idx = i; b.tot = n; b.n = v.n; o->b[off + i] = b; } return; }
  if (v.k == V::NONE) { for (u64 i = 0; i < n; i++) o->b[off + i] = Byte(); return; }
  if (v.conc()) { for (u64 i = 0; i < n; i++) { Byte b; b.st = 1; b.c = i < 8 ? (v.c >> (8 * i)) & 255 : 0; o->b[off + i] = b; } return; }
  for (u64 i = 0; i < n; i++) { Byte b; b.st = 2; b.idx = i; b.tot = n; b.n = v.n; o->b[off + i] = b; }
}
static void copyMem(State &s, u64 dst, u64 src, u64 n) {
  if (!n) return; u64 so, d0; Obj *a = find(s, src, n, so, "read");
  vector<Byte> tmp(a->b.begin() + so, a->b.begin() + so + n);
  Obj *b = find(s, dst, n, d0, "write", true); std::copy(tmp.begin(), tmp.end(), b->b.begin() + d0);
}
static string cstr(State &s, u64 addr) {
  string r; for (int i = 0; i < 400; i++) { u64 off; Obj *o = find(s, addr + i, 1, off, "read"); auto &b = o->b[off]; if (b.st != 1) return r + "?"; if (!b.c) break; r += (char)b.c; } return r;
}

// ------------------------------------------------------------------ constants and globals
static V constVal(State &s, const Constant *c);
static u64 fnAddr(const Function *f) {
  auto it = g_addr.find(f); if (it != g_addr.end()) return it->second;
  u64 a = 0x7f00000000000000ull + 16 * (g_fnAt.size() + 1); g_addr[f] = a; g_fnAt[a] = f; return a;
}
static void initMem(State &s, u64 addr, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (c->isNullValue()) { u64 n = DL->getTypeAllocSize(t), off; Obj *o = find(s, addr, n, off, "init", true); for (u64 i = 0; i < n; i++) { Byte b; b.st = 1; o->b[off + i] = b; } return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++) initMem(s, addr + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(s, addr + i * es, ca->getOperand(i)); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); i++) initMem(s, addr + i * es, cd->getElementAsConstant(i)); return; }
  storeTy(s, addr, t, constVal(s, c));
}
static bool isExcVTable(const string &n) { return n.rfind("_ZTVSt", 0) == 0 || n.rfind("_ZTVN10__cxxabiv1", 0) == 0; }
static u64 extObj(State &s, const string &name, u64 size) {
  auto it = g_extAddr.find(name); if (it != g_extAddr.end()) { if (s.mem.count(it->second >> 32)) return it->second; }
  u64 a = allocObj(s, size, 'g', name, true); g_extAddr[name] = a; g_extName[a] = name; return a;
}
static u64 g_whatFn = 0, g_dtorFn = 0;
static void initGlobals(State &s) {
  for (auto &f : M->functions()) fnAddr(&f);
  g_whatFn = 0x7e00000000000010ull; g_dtorFn = 0x7e00000000000020ull;
  for (auto &g : M->globals()) {
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64; string n = g.getName().str();
    if (!g.hasInitializer()) { if (sz < 512) sz = 512; }
    u64 a = allocObj(s, sz, 'g', n, !g.hasInitializer() || g.getInitializer()->isNullValue()); g_addr[&g] = a; if (!g.hasInitializer()) { g_extName[a] = n; g_extAddr[n] = a;
      if (n.rfind("_ZTI", 0) == 0) { string t = n.substr(4, 480); storeTy(s, a + 8, Type::getInt64Ty(M->getContext()), mkInt(64, a + 16)); for (size_t i = 0; i <= t.size(); i++) storeTy(s, a + 16 + i, Type::getInt8Ty(M->getContext()), mkInt(8, i < t.size() ? (unsigned char)t[i] : 0)); }
      if (isExcVTable(n)) { for (int i = 0; i < 8; i++) storeTy(s, a + 8 * i, Type::getInt64Ty(M->getContext()), mkInt(64, i < 2 ? 0 : (i < 4 ? g_dtorFn : g_whatFn))); } }
    else g_extName[a] = n;
  }
  for (auto &g : M->globals()) if (g.hasInitializer()) initMem(s, g_addr[&g], g.getInitializer());
  for (auto &g : M->globals()) if (g.isConstant() && g.hasInitializer()) wr(s, g_addr[&g] >> 32)->kind = 'c';
}
static V gepOffset(State &s, const GEPOperator *g, std::function<V(const Value *)> ev) {
  V p = ev(g->getPointerOperand());
  if (p.k == V::AGG) unsupported("vector GEP");
  u64 off = 0; std::unique_ptr<z3::expr> sym;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
    const Value *op = it.getOperand();
    if (StructType *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
    u64 es = DL->getTypeAllocSize(it.getIndexedType()); V i = ev(op);
    if (i.conc()) { i64 x = i.bits < 64 ? ((i64)(i.c << (64 - i.bits)) >> (64 - i.bits)) : (i64)i.c; off += (u64)(x * (i64)es); }
    else { z3::expr e = zBV(i); if (i.bits < 64) e = z3::sext(e, 64 - i.bits); e = e * Z.bv_val((uint64_t)es, 64); if (sym) *sym = *sym + e; else sym.reset(new z3::expr(e)); }
  }
  if (p.conc() && !sym) return mkInt(64, p.c + off);
  z3::expr e = zBV(p) + Z.bv_val((uint64_t)off, 64); if (sym) e = e + *sym; return mkExpr(64, e);
}
static V binop(State &s, unsigned op, const V &a, const V &b);
static V castop(State &s, unsigned op, const V &a, Type *from, Type *to);
static V icmp(State &s, CmpInst::Predicate p, const V &a, const V &b);
static V constVal(State &s, const Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return mkInt(ci->getBitWidth(), ci->getZExtValue());
    SmallString<40> str; ci->getValue().toStringUnsigned(str); V v; v.k = V::INT; v.bits = ci->getBitWidth(); auto nd = make_shared<Node>(); nd->e.reset(new z3::expr(Z.bv_val(str.c_str(), v.bits))); v.n = nd; return v; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF(); u32 bits = t->getPrimitiveSizeInBits(); if (!f.isFinite()) return mkNonFin(bits, f.isNaN() ? 0 : f.isNegative() ? -1 : 1);
    bool li; APFloat g = f; g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); double d = g.convertToDouble();
    return mkRealQ(bits, rationalize(d)); }
  if (isa<ConstantPointerNull>(c)) return mkInt(64, 0);
  if (auto *f = dyn_cast<Function>(c)) return mkInt(64, fnAddr(f));
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(s, ga->getAliasee());
  if (auto *g = dyn_cast<GlobalVariable>(c)) return mkInt(64, g_addr.at(g));
  if (isa<UndefValue>(c)) return freshSym(s, t);
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { vector<V> a; for (auto &o : ca->operands()) a.push_back(constVal(s, cast<Constant>(o))); return mkAgg(a); }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { vector<V> a; for (unsigned i = 0; i < cd->getNumElements(); i++) a.push_back(constVal(s, cd->getElementAsConstant(i))); return mkAgg(a); }
  if (isa<ConstantAggregateZero>(c)) { vector<V> a; unsigned n = cast<ConstantAggregateZero>(c)->getElementCount().getKnownMinValue(); for (unsigned i = 0; i < n; i++) a.push_back(constVal(s, c->getAggregateElement(i))); return mkAgg(a); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    auto ev = [&](const Value *v) { return constVal(s, cast<Constant>(v)); };
    if (auto *g = dyn_cast<GEPOperator>(ce)) return gepOffset(s, g, ev);
    if (ce->isCast()) return castop(s, ce->getOpcode(), ev(ce->getOperand(0)), ce->getOperand(0)->getType(), t);
    if (ce->isCompare()) return icmp(s, (CmpInst::Predicate)ce->getPredicate(), ev(ce->getOperand(0)), ev(ce->getOperand(1)));
    if (Instruction::isBinaryOp(ce->getOpcode())) return binop(s, ce->getOpcode(), ev(ce->getOperand(0)), ev(ce->getOperand(1)));
  }
  string str; raw_string_ostream os(str); c->print(os); unsupported("constant " + str);
}
static V freshSym(State &s, Type *t) {
  if (t->isIntegerTy() || t->isPointerTy()) { u32 b = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); string n = "undef" + std::to_string(s.fresh++) + "_" + std::to_string(g_keep.size());
    z3::expr e = b == 1 ? Z.bool_const(n.c_str()) : Z.bv_const(n.c_str(), b); return mkExpr(b, e); }
  if (t->isFloatingPointTy()) { Real r; r.n = Poly::var(newRVar("undef", false)); return mkReal(t->getPrimitiveSizeInBits(), r); }
  if (auto *st = dyn_cast<StructType>(t)) { vector<V> a; for (auto *e : st->elements()) a.push_back(freshSym(s, e)); return mkAgg(a); }
  if (auto *at = dyn_cast<ArrayType>(t)) { vector<V> a; for (u64 i = 0; i < at->getNumElements(); i++) a.push_back(freshSym(s, at->getElementType())); return mkAgg(a); }
  if (auto *at = dyn_cast<FixedVectorType>(t)) { vector<V> a; for (u64 i = 0; i < at->getNumElements(); i++) a.push_back(freshSym(s, at->getElementType())); return mkAgg(a); }
  return V();
}

// ------------------------------------------------------------------ operations
static i64 sx(u64 c, u32 b) { return b >= 64 ? (i64)c : ((i64)(c << (64 - b)) >> (64 - b)); }
// division by a possibly-zero real: fork
static Real rDiv(State &s, const Real &a, const Real &b) {
  Real r; if (!a.fin || !b.fin) { return b.fin ? rInf(infS(a) * cstS(b)) : rInf(0); }
  if (b.n.isZero()) { r.fin = false; return r; }
  if (!b.n.isConst()) {
    V z = mkExpr(1, rSign(b, '='));
    if (concBool(s, z)) { r.fin = false; return r; }
  }
  Real inv; inv.n = b.d; inv.d = b.n;
  if (a.d == b.d) { r.n = a.n; r.d = b.n; return norm(r); }
  return rMul(a, inv);
}
static V binop(State &s, unsigned op, const V &a, const V &b) {
  if (a.k == V::AGG) { vector<V> r; for (size_t i = 0; i < a.n->agg.size(); i++) r.push_back(binop(s, op, a.n->agg[i], b.n->agg[i])); return mkAgg(r); }
  switch (op) {
  case Instruction::FAdd: return mkReal(a.bits, rAdd(R(a), R(b), false));
  case Instruction::FSub: return mkReal(a.bits, rAdd(R(a), R(b), true));
  case Instruction::FMul: return mkReal(a.bits, rMul(R(a), R(b)));
  case Instruction::FDiv: return mkReal(a.bits, rDiv(s, R(a), R(b)));
  case Instruction::FRem: unsupported("frem");
  default: break;
  }
  u32 w = a.bits;
  if (a.conc() && b.conc() && w <= 64) {
    u64 x = a.c, y = b.c; i64 p = sx(x, w), q = sx(y, w);
    switch (op) {
    case Instruction::Add: return mkInt(w, x + y);
    case Instruction::Sub: return mkInt(w, x - y);
    case Instruction::Mul: return mkInt(w, x * y);
    case Instruction::And: return mkInt(w, x & y);
    case Instruction::Or: return mkInt(w, x | y);
    case Instruction::Xor: return mkInt(w, x ^ y);
    case Instruction::Shl: return mkInt(w, y >= w ? 0 : x << y);
    case Instruction::LShr: return mkInt(w, y >= w ? 0 : x >> y);
    case Instruction::AShr: return mkInt(w, y >= w ? (p < 0 ? ~0ull : 0) : (u64)(p >> y));
    default: break;
    }
    if (y == 0) { violation(s, "division-by-zero", "ub", "integer division by zero", Z.bool_val(true)); throw PathEnd{"div0"}; }
    switch (op) {
    case Instruction::UDiv: return mkInt(w, x / y);
    case Instruction::URem: return mkInt(w, x % y);
    case Instruction::SDiv: return q == -1 ? mkInt(w, (u64)0 - x) : mkInt(w, (u64)(p / q));
    case Instruction::SRem: return q == -1 ? mkInt(w, 0) : mkInt(w, (u64)(p % q));
    }
  }
  z3::expr x = zInt(a), y = zInt(b);
  if (w == 1) {
    switch (op) { case Instruction::And: case Instruction::Mul: return mkExpr(1, x && y); case Instruction::Or: return mkExpr(1, x || y);
    case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkExpr(1, x != y); default: unsupported("i1 op"); }
  }
  switch (op) {
  case Instruction::Add: return mkExpr(w, x + y);
  case Instruction::Sub: return mkExpr(w, x - y);
  case Instruction::Mul: return mkExpr(w, x * y);
  case Instruction::And: return mkExpr(w, x & y);
  case Instruction::Or: return mkExpr(w, x | y);
  case Instruction::Xor: return mkExpr(w, x ^ y);
  case Instruction::Shl: return mkExpr(w, z3::shl(x, y));
  case Instruction::LShr: return mkExpr(w, z3::lshr(x, y));
  case Instruction::AShr: return mkExpr(w, z3::ashr(x, y));
  default: break;
  }
  if (!b.conc()) {
    z3::expr zr = y == Z.bv_val(0, w);
    SatR r = feasible(s, zr);
    if (r != UNSAT) { violation(s, "division-by-zero", "ub", "integer division by zero", zr); if (feasible(s, !zr) == UNSAT) throw PathEnd{"div0"}; s.pc.push_back(!zr); }
  } else if (b.c == 0) { violation(s, "division-by-zero", "ub", "integer division by zero", Z.bool_val(true)); throw PathEnd{"div0"}; }
  switch (op) {
  case Instruction::UDiv: return mkExpr(w, z3::udiv(x, y));
  case Instruction::URem: return mkExpr(w, z3::urem(x, y));
  case Instruction::SDiv: return mkExpr(w, x / y);
  case Instruction::SRem: return mkExpr(w, z3::srem(x, y));
  }
  unsupported("binop");
}
static V fcmp(State &s, CmpInst::Predicate p, const V &a, const V &b) {
  if (a.k == V::AGG) { vector<V> r; for (size_t i = 0; i < a.n->agg.size(); i++) r.push_back(fcmp(s, p, a.n->agg[i], b.n->agg[i])); return mkAgg(r); }
  const Real &x = R(a), &y = R(b);
  if (p == CmpInst::FCMP_FALSE) return mkInt(1, 0);
  if (p == CmpInst::FCMP_TRUE) return mkInt(1, 1);
  if ((x.fin || infSign(x)) && (y.fin || infSign(y)) && !(x.fin && y.fin)) { // an infinity against a number or an infinity
    int q = infSign(x) - infSign(y); bool lt = q < 0, eq = q == 0;
    switch (p) {
    case CmpInst::FCMP_ORD: return mkInt(1, 1); case CmpInst::FCMP_UNO: return mkInt(1, 0);
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkInt(1, eq); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkInt(1, !eq);
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkInt(1, lt); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mkInt(1, lt || eq);
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkInt(1, !lt && !eq); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkInt(1, !lt);
    default: unsupported("fcmp");
    }
  }
  if (!x.fin || !y.fin) { s.lastFin = false; return mkExpr(1, Z.bool_const(("nonfinite_cmp" + std::to_string(g_keep.size()) + "_" + std::to_string(s.fresh++)).c_str())); }
  if (p == CmpInst::FCMP_ORD) return mkInt(1, 1);
  if (p == CmpInst::FCMP_UNO) return mkInt(1, 0);
  Real d = rAdd(x, y, true); bool neg = false, out; char op; bool swap = false;
  switch (p) {
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: op = '='; break;
  case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: op = '='; neg = true; break;
  case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: op = '<'; break;
  case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: op = 'l'; break;
  case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: op = '<'; swap = true; break;
  case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: op = 'l'; swap = true; break;
  default: unsupported("fcmp");
  }
  if (swap) d = rNeg(d);
  if (trySign(d, op, out)) return mkInt(1, out != neg);
  z3::expr e = rSign(d, op); return mkExpr(1, neg ? !e : e);
}
static V icmp(State &s, CmpInst::Predicate p, const V &a, const V &b) {
  if (a.k == V::AGG) { vector<V> r; for (size_t i = 0; i < a.n->agg.size(); i++) r.push_back(icmp(s, p, a.n->agg[i], b.n->agg[i])); return mkAgg(r); }
  if (a.k == V::REAL || b.k == V::REAL) { // bit patterns of floating-point values: equality only
    V x = a, y = b;
    // the sign bit
    if (y.k == V::INT && y.conc() && y.bits == x.bits) { if (p == CmpInst::ICMP_SLT && y.c == 0) return fcmp(s, CmpInst::FCMP_OLT, x, mkRealQ(x.bits, Q(0))); if (p == CmpInst::ICMP_SGT && y.c == maskb(y.bits)) return fcmp(s, CmpInst::FCMP_OGE, x, mkRealQ(x.bits, Q(0))); }
    if (x.k == V::INT && x.conc()) x = realFromBits(x.c, y.bits); if (y.k == V::INT && y.conc()) y = realFromBits(y.c, x.bits);
    if (x.k != V::REAL || y.k != V::REAL) unsupported("comparing bits of a floating-point value");
    if (p == CmpInst::ICMP_EQ) return fcmp(s, CmpInst::FCMP_OEQ, x, y);
    if (p == CmpInst::ICMP_NE) return fcmp(s, CmpInst::FCMP_UNE, x, y);
    unsupported("ordered comparison of floating-point bits");
  }
  u32 w = a.bits;
  if (a.conc() && b.conc()) {
    u64 x = a.c, y = b.c; i64 q = sx(x, w), r = sx(y, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return mkInt(1, x == y); case CmpInst::ICMP_NE: return mkInt(1, x != y);
    case CmpInst::ICMP_ULT: return mkInt(1, x < y); case CmpInst::ICMP_ULE: return mkInt(1, x <= y);
    case CmpInst::ICMP_UGT: return mkInt(1, x > y); case CmpInst::ICMP_UGE: return mkInt(1, x >= y);
    case CmpInst::ICMP_SLT: return mkInt(1, q < r); case CmpInst::ICMP_SLE: return mkInt(1, q <= r);
    case CmpInst::ICMP_SGT: return mkInt(1, q > r); case CmpInst::ICMP_SGE: return mkInt(1, q >= r);
    default: break; }
  }
  z3::expr x = zInt(a), y = zInt(b);
  if (w == 1 && p != CmpInst::ICMP_EQ && p != CmpInst::ICMP_NE) { x = zBV(a); y = zBV(b); }
  switch (p) {
  case CmpInst::ICMP_EQ: return mkExpr(1, x == y); case CmpInst::ICMP_NE: return mkExpr(1, x != y);
  case CmpInst::ICMP_ULT: return mkExpr(1, z3::ult(x, y)); case CmpInst::ICMP_ULE: return mkExpr(1, z3::ule(x, y));
  case CmpInst::ICMP_UGT: return mkExpr(1, z3::ugt(x, y)); case CmpInst::ICMP_UGE: return mkExpr(1, z3::uge(x, y));
  case CmpInst::ICMP_SLT: return mkExpr(1, x < y); case CmpInst::ICMP_SLE: return mkExpr(1, x <= y);
  case CmpInst::ICMP_SGT: return mkExpr(1, x > y); case CmpInst::ICMP_SGE: return mkExpr(1, x >= y);
  default: unsupported("icmp"); }
}
static std::set<u32> g_f32Vars; static bool g_truncRounds = false; static string polyKey(const Poly &p);
static bool f32Poly(const Real &x) { for (auto *p : {&x.n, &x.d}) for (auto &m : p->t) for (auto &v : m.first) if (!g_f32Vars.count(v.first)) return false; return true; } // made of floats only: arithmetic on floats is exact in this encoding
static V castop(State &s, unsigned op, const V &a, Type *from, Type *to) {
  if (a.k == V::AGG && to->isVectorTy() && from->isVectorTy()) {
    auto *ft = cast<FixedVectorType>(from), *tt = cast<FixedVectorType>(to);
    if (ft->getNumElements() == tt->getNumElements()) { vector<V> r; for (auto &e : a.n->agg) r.push_back(castop(s, op, e, ft->getElementType(), tt->getElementType())); return mkAgg(r); }
    unsupported("vector bitcast");
  }
  u32 tb = to->isPointerTy() ? 64 : to->isIntegerTy() ? to->getIntegerBitWidth() : to->isFloatingPointTy() ? (u32)to->getPrimitiveSizeInBits() : 0;
  switch (op) {
  case Instruction::Trunc: if (a.k == V::REAL) { if (realConc(a)) return mkInt(tb, bitsOfReal(R(a).n.cst() / R(a).d.cst(), a.bits)); unsupported("trunc of fp bits"); }
    if (a.conc()) return mkInt(tb, a.c); { z3::expr e = zBV(a).extract(tb - 1, 0); return mkExpr(tb, e); }
  case Instruction::ZExt: if (a.k == V::REAL) unsupported("zext of fp bits"); if (a.conc() && tb <= 64) return mkInt(tb, a.c); return mkExpr(tb, z3::zext(zBV(a), tb - a.bits));
  case Instruction::SExt: if (a.conc() && tb <= 64) return mkInt(tb, (u64)sx(a.c, a.bits)); return mkExpr(tb, z3::sext(zBV(a), tb - a.bits));
  case Instruction::PtrToInt: case Instruction::IntToPtr:
    if (a.bits == tb) return a; if (a.bits > tb) return castop(s, Instruction::Trunc, a, from, to); return castop(s, Instruction::ZExt, a, from, to);
  case Instruction::BitCast:
    if (to->isFloatingPointTy() && a.k == V::INT) { if (a.conc()) return realFromBits(a.c, tb); unsupported("bitcast of symbolic bits to fp"); }
    if (to->isIntegerTy() && a.k == V::REAL) { if (realConc(a)) { /* keep as real so that stores round-trip */ } return a; }
    if (a.k == V::AGG) { // vector <-> scalar: via memory
      u64 t = allocObj(s, 64, 't', "bitcast"); storeTy(s, t, from, a); V r = loadTy(s, t, to); s.mem.erase(t >> 32); return r; }
    if (to->isVectorTy()) { u64 t = allocObj(s, 64, 't', "bitcast"); storeTy(s, t, from, a); V r = loadTy(s, t, to); s.mem.erase(t >> 32); return r; }
    return a;
  case Instruction::FPExt: { V v = a; v.bits = tb; return v; }
  case Instruction::FPTrunc: { // rounding of a double to float: exact for constants; otherwise a fixed unknown function within the rounding error
    V v = a; v.bits = tb; if (tb != 32 || !R(a).fin || a.bits == 32) return v; const Real &x = R(a);
    if (realConc(a)) { double d = qToDouble(x.n.cst() / x.d.cst()); float f = (float)d; if (!std::isfinite(f) || (double)f == d) return v; return mkRealQ(32, Q((double)f)); }
    bool plain = x.d.isConst() && x.d.cst() == 1 && x.n.t.size() == 1 && x.n.t.begin()->second == 1 && x.n.t.begin()->first.size() == 1 && x.n.t.begin()->first[0].second == 1; u32 pv = plain ? x.n.t.begin()->first[0].first : 0;
    if (!g_truncRounds && plain) { g_f32Vars.insert(pv); return v; }
    if (f32Poly(x)) return v;
    static std::map<string, u32> memo; string key = polyKey(x.n) + "/" + polyKey(x.d); auto it = memo.find(key); u32 rv = it == memo.end() ? (memo[key] = newRVar("float", false)) : it->second; g_f32Vars.insert(rv); g_notes.insert("rounding to float: any value within the rounding error");
    z3::expr e = x.d.isConst() ? zPoly(x.n) / zQ(x.d.cst()) : zPoly(x.n) / zPoly(x.d), f = g_rvars[rv].e, m = z3::ite(e >= 0, e, -e) * zQ(Q(1, 16777216)); s.pc.push_back(f >= e - m && f <= e + m); Real r; r.n = Poly::var(rv); return mkReal(32, r); }
  case Instruction::SIToFP: case Instruction::UIToFP: {
    if (a.conc()) { if (op == Instruction::UIToFP) { Q q; mpz_class z; mpz_import(z.get_mpz_t(), 1, 1, 8, 0, 0, &a.c); return mkRealQ(tb, Q(z)); } i64 x = sx(a.c, a.bits); mpz_class z = (long)x; return mkRealQ(tb, Q(z)); }
    // symbolic: a real variable tied to the integer
    z3::expr e = zBV(a); z3::expr iv = z3::expr(Z, Z3_mk_bv2int(Z, e, op == Instruction::SIToFP)); u32 rv = newRVar("fromint", false);
    s.pc.push_back(g_rvars[rv].e == z3::expr(Z, Z3_mk_int2real(Z, iv))); Real r; r.n = Poly::var(rv); return mkReal(tb, r); }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    if (realConc(a)) { Q q = R(a).n.cst() / R(a).d.cst(); mpz_class z; mpz_tdiv_q(z.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t()); return mkInt(tb, op == Instruction::FPToUI ? (u64)z.get_ui() : (u64)z.get_si()); }
    if (!R(a).fin) return infSign(R(a)) && op == Instruction::FPToSI ? mkInt(tb, (u64)1 << (tb - 1)) : freshSym(s, to); // x86: out of range gives the smallest integer
    // symbolic: truncate via integer solver variable
    z3::expr x = R(a).d.isConst() ? zPoly(R(a).n) / zQ(R(a).d.cst()) : zPoly(R(a).n) / zPoly(R(a).d);
    z3::expr fl = z3::expr(Z, Z3_mk_real2int(Z, x)); // floor
    z3::expr tr = z3::ite(x >= 0, fl, -z3::expr(Z, Z3_mk_real2int(Z, -x)));
    return mkExpr(tb, z3::expr(Z, Z3_mk_int2bv(Z, tb, tr))); }
  }
  unsupported("cast");
}
static V selectV(State &s, const V &c, const V &a, const V &b, Type *t) {
  if (c.k == V::AGG) { vector<V> r; for (size_t i = 0; i < c.n->agg.size(); i++) r.push_back(selectV(s, c.n->agg[i], a.n->agg[i], b.n->agg[i], t->getScalarType())); return mkAgg(r); }
  if (c.conc()) return c.c ? a : b;
  if (a.k == V::INT && b.k == V::INT && !t->isPointerTy()) return mkExpr(a.bits, z3::ite(zInt(c), zInt(a), zInt(b)));
  return concBool(s, c) ? a : b;
}
static Real rAbs(State &s, const Real &x) {
  if (!x.fin) return infSign(x) < 0 ? rNeg(x) : x; bool o;
  if (trySign(x, '<', o)) return o ? rNeg(x) : x;
  return concBool(s, mkExpr(1, rSign(x, '<'))) ? rNeg(x) : x;
}
static std::map<string, std::pair<u32, u32>> g_trig; // arg key -> (sin,cos) vars
static string polyKey(const Poly &p) { std::ostringstream os; for (auto &k : p.t) { os << k.second.get_str(); for (auto &m : k.first) os << "*" << m.first << "^" << m.second; os << "+"; } return os.str(); }
static std::map<string, u32> g_sqrtVar;
static bool sqrtQ(const Q &q, Q &r) {
  if (q < 0 || !mpz_perfect_square_p(q.get_num().get_mpz_t()) || !mpz_perfect_square_p(q.get_den().get_mpz_t())) return false;
  mpz_class a, b; mpz_sqrt(a.get_mpz_t(), q.get_num().get_mpz_t()); mpz_sqrt(b.get_mpz_t(), q.get_den().get_mpz_t()); r = Q(a, b); return true;
}
// q with q*q == p, if there is one
static bool polySqrt(const Poly &p, Poly &q) {
  auto lead = [](const Poly &x) { const Mono *l = nullptr; for (auto &k : x.t) if (!l || monoLess(*l, k.first)) l = &k.first; return *l; };
  Mono lm = lead(p), hm; Q c; if (!sqrtQ(p.t.at(lm), c)) return false;
  for (auto &m : lm) { if (m.second % 2) return false; hm.push_back({m.first, m.second / 2}); }
  q = Poly(); q.t[hm] = c; Poly r = p; addTerm(r, lm, -(c * c));
  for (int guard = 0; !r.isZero(); guard++) {
    if (guard > 200) return false;
    Mono rm = lead(r), d; if (!monoDiv(rm, hm, d)) return false;
    Q t = r.t.at(rm) / (2 * c);
    for (auto &k : q.t) addTerm(r, mulMono(d, k.first), -(2 * t * k.second));
    addTerm(r, mulMono(d, d), -(t * t));
    if (q.t.count(d)) return false; q.t[d] = t;
  }
  return true;
}
static Real rSqrt(State &s, const Real &x) {
  if (!x.fin) { Real r; r.fin = false; return r; }
  if (x.n.isConst() && x.d.isConst()) {
    Q q = x.n.cst() / x.d.cst(); Real r; if (q < 0) { r.fin = false; return r; }
    mpz_class a, b; if (mpz_perfect_square_p(q.get_num().get_mpz_t()) && mpz_perfect_square_p(q.get_den().get_mpz_t())) { mpz_sqrt(a.get_mpz_t(), q.get_num().get_mpz_t()); mpz_sqrt(b.get_mpz_t(), q.get_den().get_mpz_t()); r.n = Poly(Q(a, b)); return r; }
    r.n = Poly(Q(std::sqrt(qToDouble(q)))); return r;
  }
  { Poly q; if (polySqrt(x.d.isConst() ? scale(x.n, 1 / x.d.cst()) : x.n * x.d, q)) { Real r; r.n = q; if (!x.d.isConst()) r.d = x.d; return rAbs(s, norm(r)); } }
  if (concBool(s, mkExpr(1, rSign(x, '<')))) { Real r; r.fin = false; return r; }
  // sqrt(n/d) = sqrt(n*d)/|d|
  Poly rad = x.d.isConst() ? scale(x.n, 1 / x.d.cst()) : x.n * x.d;
  string key = polyKey(rad); u32 v; auto it = g_sqrtVar.find(key);
  if (it == g_sqrtVar.end()) { v = newRVar("sqrt", false); g_sqrtVar[key] = v; g_sqrtDef[v] = rad; } else v = it->second;
  z3::expr e = g_rvars[v].e; z3::expr p = zPoly(rad);
  bool have = false; unsigned want = Z3_get_ast_id(Z, (e >= 0)); for (auto &c : s.pc) if (Z3_get_ast_id(Z, c) == want) have = true;
  if (!have) { z3::expr c0 = e >= 0; g_keep.push_back(c0); s.pc.push_back(c0); s.pc.push_back(e * e == p); }
  Real r; r.n = Poly::var(v);
  if (!x.d.isConst()) { Real d; d.n = x.d; d = rAbs(s, d); r.d = d.n; }
  return r;
}
static Real rTrig(State &s, const Real &x, bool sine) {
  if (!x.fin) { Real r; r.fin = false; return r; }
  if (x.n.isConst() && x.d.isConst()) { double v = qToDouble(x.n.cst() / x.d.cst()); Real r; r.n = Poly(rationalize(sine ? std::sin(v) : std::cos(v))); return r; }
  string key = polyKey(x.n) + "/" + polyKey(x.d); auto it = g_trig.find(key); std::pair<u32, u32> p;
  if (it == g_trig.end()) { p = {newRVar("sin", false), newRVar("cos", false)}; g_trig[key] = p; } else p = it->second;
  z3::expr a = g_rvars[p.first].e, b = g_rvars[p.second].e; z3::expr c = a * a + b * b == 1; g_keep.push_back(c);
  unsigned id = Z3_get_ast_id(Z, c); bool have = false; for (auto &q : s.pc) if (Z3_get_ast_id(Z, q) == id) have = true; if (!have) s.pc.push_back(c);
  g_sqrtDef[p.first] = Poly(Q(1)) - Poly::var(p.second) * Poly::var(p.second);
  Real r; r.n = Poly::var(sine ? p.first : p.second); return r;
}
#include "exec.inc"
