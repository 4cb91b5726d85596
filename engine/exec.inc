// ------------------------------------------------------------------ frames
static std::unordered_map<const Value *, u32> &numbering(const Function *f) {
  auto it = g_num.find(f); if (it != g_num.end()) return it->second;
  auto &m = g_num[f]; u32 n = 0; for (auto &a : f->args()) m[&a] = n++;
  for (auto &b : *f) for (auto &i : b) if (!i.getType()->isVoidTy()) m[&i] = n++;
  return m;
}
static V ev(State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(s, c);
  Frame &f = s.stk.back(); V &r = f.regs[numbering(f.f).at(v)];
  if (r.k == V::NONE && !v->getType()->isVoidTy() && !v->getType()->isMetadataTy()) { r = freshSym(s, v->getType()); }
  return r;
}
static void setReg(State &s, const Instruction *i, const V &v) { if (i->getType()->isVoidTy()) return; Frame &f = s.stk.back(); f.regs[numbering(f.f).at(i)] = v; }
static void noteBB(const BasicBlock *bb) {
  if (!g_seenBB.insert(bb).second) return;
  auto note = [&](const DISubprogram *sp) {
    if (!sp) return; string file = (sp->getDirectory() + "/" + sp->getFilename()).str(); if (sp->getFilename().starts_with("/")) file = sp->getFilename().str();
    if (file.find(optScope) == string::npos) return;
    string n = sp->getLinkageName().empty() ? sp->getName().str() : llvm::demangle(sp->getLinkageName().str());
    string base = file.substr(file.rfind('/') + 1);
    if (n.size() > 160) n = n.substr(0, 157) + "...";
    g_funcs.insert(base + ": " + n);
  };
  for (auto &i : *bb) { const DILocation *d = i.getDebugLoc().get(); int k = 0;
    while (d && k++ < 12) { if (auto *sc = d->getScope()) note(sc->getSubprogram()); d = d->getInlinedAt(); } }
}
static void enterBB(State &s, BasicBlock *to) {
  Frame &f = s.stk.back(); f.prev = f.bb; f.bb = to; f.pc = to->begin(); noteBB(to);
  vector<std::pair<const Instruction *, V>> up;
  for (auto &phi : to->phis()) up.push_back({&phi, ev(s, phi.getIncomingValueForBlock(f.prev))});
  for (auto &u : up) setReg(s, u.first, u.second);
  f.pc = to->getFirstNonPHI()->getIterator();
}
static void pushFrame(State &s, Function *f, const vector<V> &args, CallBase *site) {
  if (s.stk.size() > 400) unsupported("call depth");
  Frame fr; fr.f = f; auto &nm = numbering(f); fr.regs.resize(nm.size()); fr.site = site; u32 i = 0;
  for (auto &a : f->args()) { if (i < args.size()) { 
      V v = args[i];
      if (a.hasByValAttr()) { Type *t = a.getParamByValType(); u64 n = DL->getTypeAllocSize(t); u64 p = allocObj(s, n, 's', "byval"); copyMem(s, p, concInt(s, v), n); fr.allocas.push_back(p >> 32); v = mkInt(64, p); }
      fr.regs[i] = v; } i++; }
  fr.bb = &f->getEntryBlock(); fr.pc = fr.bb->begin(); noteBB(fr.bb); s.stk.push_back(std::move(fr));
}
static void popFrame(State &s) { for (u64 a : s.stk.back().allocas) s.mem.erase(a); s.stk.pop_back(); }
static void finishCall(State &s, const V &ret) { // in caller, pc at the call
  Frame &f = s.stk.back(); Instruction *i = &*f.pc;
  if (ret.k != V::NONE) setReg(s, i, ret);
  if (auto *iv = dyn_cast<InvokeInst>(i)) enterBB(s, iv->getNormalDest()); else ++f.pc;
}
// ------------------------------------------------------------------ exceptions
static const std::map<string, string> g_stdBase = {
  {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
  {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
  {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
  {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
static u64 tiByName(State &s, const string &n) {
  if (auto *g = M->getGlobalVariable(n, true)) return g_addr.at(g);
  return extObj(s, n, 64);
}
static bool tiMatches(State &s, u64 ti, u64 want) {
  for (int d = 0; d < 12; d++) {
    if (ti == want) return true;
    auto n = g_extName.find(ti); string name = n == g_extName.end() ? "" : n->second;
    auto sb = g_stdBase.find(name); if (sb != g_stdBase.end()) { ti = tiByName(s, sb->second); continue; }
    // __si_class_type_info: {vptr, name, base}
    u64 id = ti >> 32; auto it = s.mem.find(id); if (it == s.mem.end()) return false;
    if (it->second->size == 24) { V b = loadTy(s, ti + 16, Type::getInt64Ty(M->getContext())); if (!b.conc() || !b.c) return false; ti = b.c; continue; }
    if (it->second->size > 24 && g_extName[ti].rfind("_ZTI", 0) == 0 && M->getGlobalVariable(g_extName[ti], true) && M->getGlobalVariable(g_extName[ti], true)->hasInitializer()) {
      V cnt = loadTy(s, ti + 20, Type::getInt32Ty(M->getContext())); if (!cnt.conc()) return false;
      for (u64 i = 0; i < cnt.c; i++) { V b = loadTy(s, ti + 24 + 16 * i, Type::getInt64Ty(M->getContext())); if (b.conc() && tiMatches(s, b.c, want)) return true; }
    }
    return false;
  }
  return false;
}
static void unwind(State &s, u64 exc) {
  u64 ti = s.excTi[exc];
  while (!s.stk.empty()) {
    Frame &f = s.stk.back(); Instruction *i = &*f.pc;
    if (auto *iv = dyn_cast<InvokeInst>(i)) {
      auto *lp = iv->getLandingPadInst(); u64 sel = 0; bool stop = lp->isCleanup();
      for (unsigned k = 0; k < lp->getNumClauses() && !sel; k++) {
        if (lp->isCatch(k)) { auto *c = lp->getClause(k); if (c->isNullValue()) { sel = 1; stop = true; } else { u64 want = constVal(s, c).c; if (tiMatches(s, ti, want)) { sel = want; stop = true; } } }
        else { // filter: noexcept-style
          violation(s, "terminate", "exception", "exception escapes an exception specification", Z.bool_val(true)); throw PathEnd{"terminate"}; }
      }
      if (stop) { enterBB(s, iv->getUnwindDest()); 
        Frame &g = s.stk.back(); g.regs[numbering(g.f).at(lp)] = mkAgg({mkInt(64, exc), mkInt(32, (sel >> 32) ^ (sel == 1 ? 1 : 0))});
        // leave pc after landingpad
        while (&*g.pc != lp) ++g.pc; ++g.pc; return; }
    }
    if (f.f->doesNotThrow()) { violation(s, "terminate", "exception", "exception leaves a noexcept function " + llvm::demangle(f.f->getName().str()), Z.bool_val(true)); throw PathEnd{"terminate"}; }
    popFrame(s);
  }
  // escaped the harness
  s.stk.clear(); 
  violation(s, "uncaught-exception", "exception", "exception of type " + g_extName[ti] + " escapes the harness", Z.bool_val(true));
  throw PathEnd{"uncaught"};
}
static u64 whatText(State &s) { u64 a = extObj(s, "what-text", 16); const char *t = "std exception"; for (int i = 0; t[i]; i++) storeTy(s, a + i, Type::getInt8Ty(M->getContext()), mkInt(8, t[i])); return a; }
static void doThrowStd(State &s, const string &ti, u64 text = 0) { u64 e = allocObj(s, 64, 'x', "exception", true); s.excTi[e] = tiByName(s, ti);
  string vt = "_ZTV" + ti.substr(4); auto it = g_extAddr.find(vt); u64 va = it != g_extAddr.end() && s.mem.count(it->second >> 32) ? it->second : 0;
  if (!va) { va = extObj(s, vt, 64); for (int i = 0; i < 8; i++) storeTy(s, va + 8 * i, Type::getInt64Ty(M->getContext()), mkInt(64, i < 2 ? 0 : (i < 4 ? g_dtorFn : g_whatFn))); }
  storeTy(s, e, Type::getInt64Ty(M->getContext()), mkInt(64, va + 16)); if (text) storeTy(s, e + 8, Type::getInt64Ty(M->getContext()), mkInt(64, text)); unwind(s, e); }

// ------------------------------------------------------------------ external calls
static V realArg(const V &v) { return v; }
static void addInput(State &s, const string &name, char kind, const V &v, u32 rv = 0) { s.inputs.push_back({name, kind, v, rv}); }
static bool startsWith(const string &a, const char *b) { return a.rfind(b, 0) == 0; }
static bool ioStub(const string &n) {
  static const char *pre[] = {"_ZNSo", "_ZNKSo", "_ZStls", "_ZNSt8ios_base", "_ZNSi", "_ZSt4endl", "_ZSt16__ostream_insert", "_ZNSt9basic_ios", "_ZNSt7__cxx1118basic_stringstream", "_ZNSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1119basic_istringstream",
    "_ZNKSt7__cxx1118basic_stringstream", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNSt6locale", "_ZSt9use_facet", "_ZNKSt5ctype", "_ZSt5flush", "_ZNSt15basic_streambuf", "_ZNSt7__cxx1115basic_stringbuf", "_ZNKSt7__cxx1115basic_stringbuf", "_ZNKSt9basic_ios", "_ZSt16__throw_bad_castv_never",
    "_ZTTNSt", "_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNSt12out_of_range", "_ZNSt12domain_error", "_ZNSt16invalid_argument", "_ZNSt12length_error", "_ZNSt9exception", "_ZNSt11range_error", "_ZNSt14overflow_error", "_ZNSt9bad_alloc", "_ZNSt8bad_cast", "_ZNSt17bad_function_call", "_ZNSt15underflow_error"};
  for (auto p : pre) if (startsWith(n, p)) return true; return false;
}
// returns true if handled as a simple call with result in `ret`
static bool external(State &s, CallBase *cb, const string &n, vector<V> &a, V &ret, bool &jumped) {
  LLVMContext &C = M->getContext(); Type *i64t = Type::getInt64Ty(C); Type *rt = cb->getType();
  auto lbl = [&](unsigned i) { return cstr(s, concInt(s, a[i])); };
  // ---- harness API
  if (n == "sym_bits") { // u64 sym_bits(name, bits)
    string nm = lbl(0); u32 b = concInt(s, a[1]); string vn = nm + "#" + std::to_string(s.inputs.size());
    z3::expr e = Z.bv_const((vn + ":" + std::to_string(b)).c_str(), b); V v = mkExpr(b, e); addInput(s, nm, 'i', v);
    ret = b < 64 ? mkExpr(64, z3::zext(e, 64 - b)) : v; return true; }
  if (n == "sym_real") { string nm = lbl(0); static std::map<std::pair<string, size_t>, u32> memo; auto key = std::make_pair(nm, s.inputs.size()); auto it = memo.find(key); u32 rv = it == memo.end() ? (memo[key] = newRVar(nm, true)) : it->second;
    Real r; r.n = Poly::var(rv); ret = mkReal(64, r); addInput(s, nm, 'r', ret, rv); return true; }
  if (n == "sym_pick") { string nm = lbl(0); i64 lo = sx(concInt(s, a[1]), 32), hi = sx(concInt(s, a[2]), 32);
    string vn = nm + "#" + std::to_string(s.inputs.size()) + ":p"; z3::expr e = Z.bv_const(vn.c_str(), 32); unsigned id = Z3_get_ast_id(Z, e); g_keep.push_back(e);
    auto it = s.subst.find(id);
    if (it == s.subst.end()) { if (lo > hi) throw PathEnd{"empty pick"}; NeedFork nf; for (i64 x = lo; x <= hi; x++) nf.alts.push_back({e == Z.bv_val((int)x, 32), {id, (u64)x & 0xffffffffu}}); throw nf; }
    V v = mkInt(32, it->second); addInput(s, nm, 'i', v); ret = v; return true; }
  if (n == "sym_assume") { V c = a[0]; if (c.conc()) { if (!c.c) throw PathEnd{"assume"}; return true; }
    z3::expr e = c.bits == 1 ? zInt(c) : zBV(c) != Z.bv_val(0, c.bits); if (feasible(s, e) == UNSAT) throw PathEnd{"assume"}; s.pc.push_back(e); return true; }
  if (n == "sym_assert") { V c = a[0]; z3::expr e = c.conc() ? Z.bool_val(c.c != 0) : (c.bits == 1 ? zInt(c) : (zBV(c) != Z.bv_val(0, c.bits)).simplify()); checkAssert(s, e, lbl(1)); return true; }
  if (n == "sym_eq") { const Real &x = R(a[0]), &y = R(a[1]); string l = lbl(2);
    if (!x.fin || !y.fin) { g_labels[l].checks++; g_labels[l].witness = true; violation(s, l, "assert", "non-finite value", Z.bool_val(true)); return true; }
    z3::expr L = y.d.isConst() ? zPoly(scale(x.n, y.d.cst())) : zPoly(x.n) * zPoly(y.d), Rr = x.d.isConst() ? zPoly(scale(y.n, x.d.cst())) : zPoly(y.n) * zPoly(x.d);
    checkAssert(s, L == Rr, l); return true; }
  if (n == "sym_near") { const Real &x = R(a[0]), &y = R(a[1]); string l = lbl(3);
    if (!x.fin || !y.fin) { g_labels[l].checks++; g_labels[l].witness = true; violation(s, l, "assert", "non-finite value", Z.bool_val(true)); return true; }
    Real d = rAdd(x, y, true); Real t = R(a[2]); z3::expr c = rSign(rAdd(d, t, true), 'l') && rSign(rAdd(rNeg(d), t, true), 'l'); checkAssert(s, c, l); return true; }
  if (n == "sym_le") { const Real &x = R(a[0]), &y = R(a[1]); string l = lbl(2);
    if (!x.fin || !y.fin) { g_labels[l].checks++; g_labels[l].witness = true; violation(s, l, "assert", "non-finite value", Z.bool_val(true)); return true; }
    checkAssert(s, rSign(rAdd(x, y, true), 'l'), l); return true; }
  if (n == "sym_finite") { ret = mkInt(32, R(a[0]).fin); return true; }
  if (n == "sym_native") { ret = mkInt(32, 0); return true; }
  if (n == "sym_note") { g_notes.insert(lbl(0)); return true; }
  if (n == "sym_dump") { V c = a[1]; std::cerr << "DUMP " << lbl(0) << " = " << (c.k == V::REAL ? (R(c).fin ? polyKey(R(c).n) + " / " + polyKey(R(c).d) : "nonfinite") : c.conc() ? std::to_string(c.c) : zInt(c).to_string()) << "\n"; return true; }
  if (n == "sym_dumpi") { V c = a[1]; std::cerr << "DUMP " << lbl(0) << " = " << (c.conc() ? std::to_string(c.c) : zInt(c).to_string()) << "\n"; return true; }
  // ---- allocation
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "aligned_alloc") { u64 sz = concInt(s, a[n == "aligned_alloc" ? 1 : 0]);
    if (sz > (1u << 24)) { if (n == "malloc" || n == "aligned_alloc") { ret = mkInt(64, 0); return true; } doThrowStd(s, "_ZTISt9bad_alloc"); jumped = true; return true; }
    ret = mkInt(64, allocObj(s, sz, 'h', "heap")); return true; }
  if (n == "calloc") { ret = mkInt(64, allocObj(s, concInt(s, a[0]) * concInt(s, a[1]), 'h', "heap", true)); return true; }
  if (n == "realloc") { u64 p = concInt(s, a[0]), sz = concInt(s, a[1]); u64 q = allocObj(s, sz, 'h', "heap"); if (p) { u64 off; Obj *o = find(s, p, 0, off, "realloc"); copyMem(s, q, p, std::min<u64>(o->size, sz)); s.mem.erase(p >> 32); } ret = mkInt(64, q); return true; }
  if (n == "free" || startsWith(n, "_ZdlPv") || startsWith(n, "_ZdaPv")) { u64 p = concInt(s, a[0]); if (p) { auto it = s.mem.find(p >> 32); if (it == s.mem.end() || it->second->kind != 'h' || (p & 0xffffffff) != 0x10000) memErr(s, "invalid free", p, 0); s.mem.erase(it); } return true; }
  // ---- C++ runtime
  if (n == "__cxa_allocate_exception") { u64 e = allocObj(s, concInt(s, a[0]) + 64, 'x', "exception"); ret = mkInt(64, e); return true; }
  if (n == "__cxa_throw") { u64 e = concInt(s, a[0]); s.excTi[e] = concInt(s, a[1]); unwind(s, e); jumped = true; return true; }
  if (n == "__cxa_free_exception" || n == "__cxa_atexit" || n == "atexit" || n == "__cxa_guard_abort") { ret = mkInt(32, 0); return true; }
  if (n == "__cxa_begin_catch" ) { u64 e = concInt(s, a[0]); s.caught.push_back({e, s.excTi[e]}); ret = mkInt(64, e); return true; }
  if (n == "__cxa_get_exception_ptr") { ret = a[0]; return true; }
  if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return true; }
  if (n == "__cxa_rethrow") { if (s.caught.empty()) { violation(s, "terminate", "exception", "rethrow without exception", Z.bool_val(true)); throw PathEnd{"terminate"}; } Exc e = s.caught.back(); s.excTi[e.ptr] = e.ti; unwind(s, e.ptr); jumped = true; return true; }
  if (n == "_Unwind_Resume") { unwind(s, concInt(s, a[0])); jumped = true; return true; }
  if (n == "__cxa_guard_acquire") { u64 p = concInt(s, a[0]); V b = loadTy(s, p, Type::getInt8Ty(C)); ret = mkInt(32, b.conc() && b.c ? 0 : 1); return true; }
  if (n == "__cxa_guard_release") { storeTy(s, concInt(s, a[0]), Type::getInt8Ty(C), mkInt(8, 1)); return true; }
  if (n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_pure_virtual" || n == "__clang_call_terminate" || n == "exit" || n == "_exit") { violation(s, "terminate", "abort", n + " called", Z.bool_val(true)); throw PathEnd{"abort"}; }
  if (n == "__assert_fail") { violation(s, "assert-in-code", "abort", "assert(" + lbl(0) + ") fails", Z.bool_val(true)); throw PathEnd{"assert"}; }
  if (startsWith(n, "_ZSt20__throw_out_of_range") || startsWith(n, "_ZSt24__throw_out_of_range_fmt")) { doThrowStd(s, "_ZTISt12out_of_range", a.empty() ? 0 : concInt(s, a[0])); jumped = true; return true; }
  if (startsWith(n, "_ZSt20__throw_length_error")) { doThrowStd(s, "_ZTISt12length_error", a.empty() ? 0 : concInt(s, a[0])); jumped = true; return true; }
  if (startsWith(n, "_ZSt19__throw_logic_error")) { doThrowStd(s, "_ZTISt11logic_error", a.empty() ? 0 : concInt(s, a[0])); jumped = true; return true; }
  if (startsWith(n, "_ZSt24__throw_invalid_argument")) { doThrowStd(s, "_ZTISt16invalid_argument", a.empty() ? 0 : concInt(s, a[0])); jumped = true; return true; }
  if (startsWith(n, "_ZSt17__throw_bad_alloc")) { doThrowStd(s, "_ZTISt9bad_alloc"); jumped = true; return true; }
  if (startsWith(n, "_ZSt28__throw_bad_array_new_length")) { doThrowStd(s, "_ZTISt20bad_array_new_length"); jumped = true; return true; }
  if (startsWith(n, "_ZSt25__throw_bad_function_call")) { doThrowStd(s, "_ZTISt17bad_function_call"); jumped = true; return true; }
  if (startsWith(n, "_ZSt16__throw_bad_cast")) { doThrowStd(s, "_ZTISt8bad_cast"); jumped = true; return true; }
  if (n == "strdup") { u64 p = concInt(s, a[0]); string t = cstr(s, p); u64 q = allocObj(s, t.size() + 1, 'h', "strdup"); copyMem(s, q, p, t.size() + 1); ret = mkInt(64, q); return true; }
  // ---- math
  auto bitsR = [&]() { return rt->isFloatingPointTy() ? (u32)rt->getPrimitiveSizeInBits() : 64; };
  string m = n; if (!m.empty() && (m.back() == 'f' || m.back() == 'l') && (m == "sqrtf" || m == "fabsf" || m == "sinf" || m == "cosf" || m == "powf" || m == "sqrtl" || m == "fabsl" || m == "floorf")) m.pop_back();
  if (m == "sqrt") { ret = mkReal(bitsR(), rSqrt(s, R(a[0]))); return true; }
  if (m == "fabs") { ret = mkReal(bitsR(), rAbs(s, R(a[0]))); return true; }
  if (m == "sin" || m == "cos") { ret = mkReal(bitsR(), rTrig(s, R(a[0]), m == "sin")); return true; }
  { static const std::map<string, char> rnd = {{"floor",'f'},{"floorf",'f'},{"ceil",'c'},{"ceilf",'c'},{"trunc",'t'},{"truncf",'t'},{"round",'r'},{"roundf",'r'},{"lround",'r'},{"llround",'r'},{"lroundf",'r'},{"llroundf",'r'},{"nearbyint",'n'},{"rint",'n'},{"lrint",'n'},{"llrint",'n'},{"roundeven",'n'}};
    auto it = rnd.find(n); if (it != rnd.end() && R(a[0]).fin) {
      Real x = R(a[0]); char k = it->second; V res;
      if (realConc(a[0])) { Q q = x.n.cst() / x.d.cst(); auto fl = [](const Q &v) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), v.get_num().get_mpz_t(), v.get_den().get_mpz_t()); return z; }; mpz_class z;
        if (k == 'f') z = fl(q); else if (k == 'c') z = -fl(-q); else if (k == 't') z = q < 0 ? -fl(-q) : fl(q); else if (k == 'r') { Q h(1, 2); if (q < 0) z = -fl(-q + h); else z = fl(q + h); } else { z = fl(q + Q(1, 2)); if (Q(z) == q + Q(1, 2) && mpz_odd_p(z.get_mpz_t())) z -= 1; }
        if (rt->isIntegerTy()) { ret = mkInt(rt->getIntegerBitWidth(), (u64)z.get_si()); return true; } ret = mkRealQ(bitsR(), Q(z)); return true; }
      z3::expr e = x.d.isConst() ? zPoly(x.n) / zQ(x.d.cst()) : zPoly(x.n) / zPoly(x.d); auto fl = [&](z3::expr v) { return z3::expr(Z, Z3_mk_real2int(Z, v)); }; z3::expr h = zQ(Q(1, 2));
      z3::expr iv = k == 'f' ? fl(e) : k == 'c' ? -fl(-e) : k == 't' ? z3::ite(e >= 0, fl(e), -fl(-e)) : k == 'r' ? z3::ite(e >= 0, fl(e + h), -fl(h - e)) : z3::ite(z3::to_real(fl(e + h)) == e + h && z3::mod(fl(e + h), Z.int_val(2)) != 0, fl(e + h) - 1, fl(e + h));
      if (rt->isIntegerTy()) { ret = mkExpr(rt->getIntegerBitWidth(), z3::expr(Z, Z3_mk_int2bv(Z, rt->getIntegerBitWidth(), iv))); return true; }
      u32 rv = newRVar(n, false); Real r; r.n = Poly::var(rv); s.pc.push_back(zPoly(r.n) == z3::to_real(iv)); ret = mkReal(bitsR(), r); return true; } }
  if (m == "pow" || m == "acos" || m == "atan2" || m == "log" || m == "exp" || m == "log2" || m == "log10" || m == "acosf" || m == "ldexp" || m == "exp2" || m == "fmod" || m == "cbrt" || m == "remainder" || m == "tan" || m == "asin" || m == "atan" || m == "hypot") {
    if (m == "ldexp" && a.size() == 2 && !realConc(a[0])) { long k = (long)sx(concInt(s, a[1]), a[1].bits); if (k < -60 || k > 60) unsupported("ldexp"); Q f(1); for (long i = 0; i < std::labs(k); i++) f *= 2; if (k < 0) f = 1 / f; Real b; b.n = Poly(f); ret = mkReal(bitsR(), rMul(R(a[0]), b)); return true; }
    if (m == "hypot" && a.size() == 2) { ret = mkReal(bitsR(), rSqrt(s, R(binop(s, Instruction::FAdd, binop(s, Instruction::FMul, a[0], a[0]), binop(s, Instruction::FMul, a[1], a[1]))))); return true; }
    vector<double> d; bool allc = true; for (auto &x : a) { if (x.k == V::REAL) { if (!realConc(x)) allc = false; else d.push_back(qToDouble(R(x).n.cst() / R(x).d.cst())); } else { if (x.conc()) d.push_back((double)sx(x.c, x.bits)); else allc = false; } }
    if (m == "pow" && a.size() == 2 && realConc(a[1])) { Q e = R(a[1]).n.cst() / R(a[1]).d.cst(); if (e.get_den() == 1 && abs(e) <= 8) { long k = e.get_num().get_si(); Real b = R(a[0]), r; r.n = Poly(Q(1)); for (long i = 0; i < std::labs(k); i++) r = rMul(r, b); if (k < 0) { Real one; one.n = Poly(Q(1)); r = rDiv(s, one, r); } ret = mkReal(bitsR(), r); return true; } if (e == Q(1, 2)) { ret = mkReal(bitsR(), rSqrt(s, R(a[0]))); return true; } }
    if (!allc) { // an unknown function of its arguments
      g_notes.insert("uninterpreted: " + m); string key = m; for (auto &x : a) if (x.k != V::REAL) unsupported(m + " of a symbolic integer"); for (auto &x : a) key += "|" + polyKey(R(x).n) + "/" + polyKey(R(x).d); static std::map<string, u32> memo; auto it = memo.find(key); u32 rv = it == memo.end() ? (memo[key] = newRVar(m, false)) : it->second; Real r; r.n = Poly::var(rv); ret = mkReal(bitsR(), r); return true; }
    double r = m == "pow" ? std::pow(d[0], d[1]) : m == "acos" ? std::acos(d[0]) : m == "atan2" ? std::atan2(d[0], d[1]) : m == "log" ? std::log(d[0]) : m == "exp" ? std::exp(d[0]) : m == "log2" ? std::log2(d[0]) : m == "log10" ? std::log10(d[0]) : m == "ldexp" ? std::ldexp(d[0], (int)d[1]) : m == "exp2" ? std::exp2(d[0]) : m == "fmod" ? std::fmod(d[0], d[1]) : m == "cbrt" ? std::cbrt(d[0]) : m == "remainder" ? std::remainder(d[0], d[1]) : m == "tan" ? std::tan(d[0]) : m == "asin" ? std::asin(d[0]) : m == "atan" ? std::atan(d[0]) : 0;
    ret = std::isfinite(r) ? mkRealQ(bitsR(), rationalize(r)) : mkNonFin(bitsR(), std::isnan(r) ? 0 : r > 0 ? 1 : -1); return true; }
  if (n == "rand") { z3::expr e = Z.bv_const(("rand" + std::to_string(s.fresh++)).c_str(), 32); ret = mkExpr(32, e); s.pc.push_back(e >= 0); return true; }
  if (n == "strtod" || n == "strtof" || n == "atof") { u64 p = concInt(s, a[0]); string t = cstr(s, p); char *e = nullptr; double d = std::strtod(t.c_str(), &e); if (!std::isfinite(d)) unsupported(n); if (a.size() > 1 && concInt(s, a[1])) storeTy(s, concInt(s, a[1]), i64t, mkInt(64, p + (e - t.c_str()))); ret = mkRealQ(bitsR(), Q(n == "strtof" ? (double)(float)d : d)); return true; }
  if (n == "getenv" || n == "secure_getenv") { g_stubs.insert(n); ret = mkInt(64, 0); return true; }
  if (n == "snprintf" || n == "sprintf" || n == "__sprintf_chk" || n == "__snprintf_chk") {
    bool lim = n.find("snprintf") != string::npos, chk = n[0] == '_'; size_t fi = chk ? (lim ? 4 : 3) : (lim ? 2 : 1); string fm = cstr(s, concInt(s, a[fi])), out; size_t ai = fi + 1;
    for (size_t i = 0; i < fm.size(); i++) {
      if (fm[i] != '%') { out += fm[i]; continue; }
      size_t b = i++; while (i < fm.size() && strchr("-+ #0123456789.", fm[i])) i++;
      string sp = fm.substr(b, i - b); while (i < fm.size() && strchr("hlzjt", fm[i])) i++;
      char k = i < fm.size() ? fm[i] : 0; if (k == '%') { out += '%'; continue; } if (ai >= a.size()) unsupported(n); V v = a[ai++]; char buf[600];
      if (k == 's') { string t = cstr(s, concInt(s, v)); if (t.size() > 400) unsupported(n); snprintf(buf, sizeof buf, (sp + "s").c_str(), t.c_str()); out += buf; }
      else if (k && strchr("dicuxXo", k)) { u64 c = concInt(s, v); if (k == 'c') { out += (char)c; continue; } long long w = (k == 'd' || k == 'i') ? (long long)sx(c, v.bits) : (long long)c; snprintf(buf, sizeof buf, (sp + "ll" + k).c_str(), w); out += buf; }
      else if (k && strchr("fgeFGE", k)) { if (!realConc(v)) unsupported(n + " of a symbolic real"); snprintf(buf, sizeof buf, (sp + k).c_str(), qToDouble(R(v).n.cst() / R(v).d.cst())); out += buf; }
      else unsupported(n); }
    u64 p = concInt(s, a[0]); size_t cap = lim ? concInt(s, a[1]) : out.size() + 1;
    if (cap) { size_t w = std::min(out.size(), cap - 1); for (size_t i = 0; i < w; i++) storeTy(s, p + i, Type::getInt8Ty(C), mkInt(8, (unsigned char)out[i])); storeTy(s, p + w, Type::getInt8Ty(C), mkInt(8, 0)); }
    ret = mkInt(32, out.size()); return true; }
  // ---- what()/dtor of std exceptions
  if (n.find("4whatEv") != string::npos) { ret = mkInt(64, whatText(s)); return true; }
  // ---- text output
  if (n == "puts" || n == "printf" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "fputs" || n == "fwrite" || n == "fputc") { g_stubs.insert(n); ret = rt->isVoidTy() ? V() : mkInt(rt->getIntegerBitWidth(), 0); return true; }
  if (ioStub(n)) {
    g_stubs.insert(llvm::demangle(n).substr(0, 80));
    if (n.size() > 5 && n.substr(n.size() - 5) == "3strEv") { u64 p = concInt(s, a[0]); storeTy(s, p, i64t, mkInt(64, p + 16)); storeTy(s, p + 8, i64t, mkInt(64, 0)); storeTy(s, p + 16, Type::getInt8Ty(C), mkInt(8, 0)); return true; }
    // constructors of std exceptions: give the object a vptr
    if (n.find("_errorC") != string::npos || n.find("_rangeC") != string::npos || n.find("_argumentC") != string::npos) {
      string cls = n.substr(3); size_t p = cls.find('C'); // _ZNSt13runtime_errorC1E...
      string core = n.substr(3); size_t q = core.rfind("C1E"); if (q == string::npos) q = core.rfind("C2E"); (void)p;
      if (q != string::npos) { string ti = "_ZTI" + core.substr(0, q), vt = "_ZTV" + core.substr(0, q); u64 va; auto it = g_extAddr.find(vt); if (it != g_extAddr.end()) va = it->second; else { va = extObj(s, vt, 64); for (int i = 0; i < 8; i++) storeTy(s, va + 8 * i, i64t, mkInt(64, i < 2 ? 0 : (i < 4 ? g_dtorFn : g_whatFn))); }
        storeTy(s, concInt(s, a[0]), i64t, mkInt(64, va + 16)); storeTy(s, concInt(s, a[0]) + 8, i64t, mkInt(64, 0)); } return true; }
    if (rt->isVoidTy()) ret = V(); else if (rt->isPointerTy()) ret = a.empty() ? mkInt(64, 0) : a[0]; else if (rt->isIntegerTy()) ret = mkInt(rt->getIntegerBitWidth(), 0); else ret = freshSym(s, rt);
    return true; }
  if (n == "__errno_location") { ret = mkInt(64, extObj(s, "errno", 8)); return true; }
  return false;
}
static bool intrinsic(State &s, CallBase *cb, Function *f, vector<V> &a, V &ret) {
  Type *rt = cb->getType(); u32 rb = rt->isIntegerTy() ? rt->getIntegerBitWidth() : rt->isFloatingPointTy() ? (u32)rt->getPrimitiveSizeInBits() : 64;
  auto ew1 = [&](auto fn) { if (a[0].k == V::AGG) { vector<V> r; for (auto &x : a[0].n->agg) r.push_back(fn(x)); ret = mkAgg(r); } else ret = fn(a[0]); };
  auto ew2 = [&](auto fn) { if (a[0].k == V::AGG) { vector<V> r; for (size_t i = 0; i < a[0].n->agg.size(); i++) r.push_back(fn(a[0].n->agg[i], a[1].n->agg[i])); ret = mkAgg(r); } else ret = fn(a[0], a[1]); };
  switch (f->getIntrinsicID()) {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::prefetch:
    return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(s, concInt(s, a[0]), concInt(s, a[1]), concInt(s, a[2])); return true;
  case Intrinsic::memset: case Intrinsic::memset_inline: { u64 p = concInt(s, a[0]), n = concInt(s, a[2]); V b = a[1]; if (!n) return true; u64 off; Obj *o = find(s, p, n, off, "write", true);
    for (u64 i = 0; i < n; i++) { Byte x; if (b.conc()) { x.st = 1; x.c = b.c; } else { x.st = 2; x.idx = 0; x.tot = 1; x.n = b.n; } o->b[off + i] = x; } return true; }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: ret = a[0]; return true;
  case Intrinsic::umax: ew2([&](V x, V y) { return selectV(s, icmp(s, CmpInst::ICMP_UGT, x, y), x, y, rt->getScalarType()); }); return true;
  case Intrinsic::umin: ew2([&](V x, V y) { return selectV(s, icmp(s, CmpInst::ICMP_ULT, x, y), x, y, rt->getScalarType()); }); return true;
  case Intrinsic::smax: ew2([&](V x, V y) { return selectV(s, icmp(s, CmpInst::ICMP_SGT, x, y), x, y, rt->getScalarType()); }); return true;
  case Intrinsic::smin: ew2([&](V x, V y) { return selectV(s, icmp(s, CmpInst::ICMP_SLT, x, y), x, y, rt->getScalarType()); }); return true;
  case Intrinsic::abs: ew1([&](V x) { return selectV(s, icmp(s, CmpInst::ICMP_SLT, x, mkInt(x.bits, 0)), binop(s, Instruction::Sub, mkInt(x.bits, 0), x), x, rt->getScalarType()); }); return true;
  case Intrinsic::usub_sat: ret = selectV(s, icmp(s, CmpInst::ICMP_ULT, a[0], a[1]), mkInt(rb, 0), binop(s, Instruction::Sub, a[0], a[1]), rt); return true;
  case Intrinsic::uadd_sat: { V t = binop(s, Instruction::Add, a[0], a[1]); ret = selectV(s, icmp(s, CmpInst::ICMP_ULT, t, a[0]), mkInt(rb, ~0ull), t, rt); return true; }
  case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::bitreverse: {
    u64 x = concInt(s, a[0]); u32 w = a[0].bits; u64 r = 0;
    if (f->getIntrinsicID() == Intrinsic::ctpop) r = __builtin_popcountll(x); else if (f->getIntrinsicID() == Intrinsic::ctlz) r = x ? __builtin_clzll(x) - (64 - w) : w; else if (f->getIntrinsicID() == Intrinsic::cttz) r = x ? __builtin_ctzll(x) : w; else if (f->getIntrinsicID() == Intrinsic::bswap) { for (u32 i = 0; i < w / 8; i++) r |= ((x >> (8 * i)) & 255) << (w - 8 - 8 * i); } else unsupported("bitreverse");
    ret = mkInt(rb, r); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: { u32 w = a[0].bits; bool l = f->getIntrinsicID() == Intrinsic::fshl; V sh = binop(s, Instruction::URem, a[2], mkInt(w, w)); V inv = binop(s, Instruction::Sub, mkInt(w, w), sh);
    V x = l ? binop(s, Instruction::Or, binop(s, Instruction::Shl, a[0], sh), binop(s, Instruction::LShr, a[1], inv)) : binop(s, Instruction::Or, binop(s, Instruction::Shl, a[0], inv), binop(s, Instruction::LShr, a[1], sh));
    V z = icmp(s, CmpInst::ICMP_EQ, sh, mkInt(w, 0)); ret = selectV(s, z, l ? a[0] : a[1], x, rt); return true; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    auto id = f->getIntrinsicID(); u32 w = a[0].bits; z3::expr x = zBV(a[0]), y = zBV(a[1]); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
    V r = binop(s, op, a[0], a[1]); z3::expr X = sg ? z3::sext(x, w) : z3::zext(x, w), Y = sg ? z3::sext(y, w) : z3::zext(y, w); z3::expr T = op == Instruction::Add ? X + Y : op == Instruction::Sub ? X - Y : X * Y; z3::expr E = sg ? z3::sext(zBV(r), w) : z3::zext(zBV(r), w);
    ret = mkAgg({r, mkExpr(1, T != E)}); return true; }
  case Intrinsic::fabs: ew1([&](V x) { return mkReal(x.bits, rAbs(s, R(x))); }); return true;
  case Intrinsic::sqrt: ew1([&](V x) { return mkReal(x.bits, rSqrt(s, R(x))); }); return true;
  case Intrinsic::sin: case Intrinsic::cos: ret = mkReal(rb, rTrig(s, R(a[0]), f->getIntrinsicID() == Intrinsic::sin)); return true;
  case Intrinsic::fma: case Intrinsic::fmuladd: ret = binop(s, Instruction::FAdd, binop(s, Instruction::FMul, a[0], a[1]), a[2]); return true;
  case Intrinsic::minnum: case Intrinsic::maxnum: { V c = fcmp(s, f->getIntrinsicID() == Intrinsic::minnum ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, a[0], a[1]); ret = concBool(s, c) ? a[0] : a[1]; return true; }
  case Intrinsic::copysign: { Real x = rAbs(s, R(a[0])); if (concBool(s, fcmp(s, CmpInst::FCMP_OLT, a[1], mkRealQ(rb, Q(0))))) x = rNeg(x); ret = mkReal(rb, x); return true; }
  case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::nearbyint: case Intrinsic::rint: case Intrinsic::roundeven: case Intrinsic::lround: case Intrinsic::llround: case Intrinsic::lrint: case Intrinsic::llrint: { auto id = f->getIntrinsicID(); bool j = false; if (rt->isVectorTy()) return false;
    return external(s, cb, id == Intrinsic::trunc ? "trunc" : id == Intrinsic::round ? "round" : id == Intrinsic::lround ? "lround" : id == Intrinsic::llround ? "llround" : id == Intrinsic::lrint ? "lrint" : id == Intrinsic::llrint ? "llrint" : "rint", a, ret, j); }
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::powi: case Intrinsic::ldexp: { string nm = f->getIntrinsicID() == Intrinsic::floor ? "floor" : f->getIntrinsicID() == Intrinsic::ceil ? "ceil" : f->getIntrinsicID() == Intrinsic::pow ? "pow" : f->getIntrinsicID() == Intrinsic::exp ? "exp" : f->getIntrinsicID() == Intrinsic::ldexp ? "ldexp" : f->getIntrinsicID() == Intrinsic::powi ? "pow" : "log"; bool j = false;
    if (f->getIntrinsicID() == Intrinsic::powi) a[1] = castop(s, Instruction::SIToFP, a[1], nullptr, Type::getDoubleTy(M->getContext()));
    return external(s, cb, nm, a, ret, j); }
  case Intrinsic::is_constant: ret = mkInt(1, 0); return true;
  case Intrinsic::objectsize: ret = mkInt(rb, ~0ull); return true;
  case Intrinsic::eh_typeid_for: { u64 x = concInt(s, a[0]); ret = mkInt(32, x >> 32); return true; }
  case Intrinsic::stacksave: ret = mkInt(64, 0); return true;
  case Intrinsic::stackrestore: return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation(s, "terminate", "abort", "trap", Z.bool_val(true)); throw PathEnd{"trap"};
  case Intrinsic::is_fpclass: { if (!R(a[0]).fin) { ret = freshSym(s, rt); return true; } u64 mask = concInt(s, a[1]); // nan=3, inf=0x204, 
      if ((mask & ~0x207ull) == 0) ret = mkInt(1, 0); else if ((mask & 0x1f8) == 0x1f8) ret = mkInt(1, 1); else unsupported("is_fpclass"); return true; }
  case Intrinsic::vector_reduce_fadd: { V r = a[0]; for (auto &x : a[1].n->agg) r = binop(s, Instruction::FAdd, r, x); ret = r; return true; }
  case Intrinsic::vector_reduce_add: { V r = a[0].n->agg[0]; for (size_t i = 1; i < a[0].n->agg.size(); i++) r = binop(s, Instruction::Add, r, a[0].n->agg[i]); ret = r; return true; }
  case Intrinsic::vector_reduce_and: { V r = a[0].n->agg[0]; for (size_t i = 1; i < a[0].n->agg.size(); i++) r = binop(s, Instruction::And, r, a[0].n->agg[i]); ret = r; return true; }
  case Intrinsic::vector_reduce_or: { V r = a[0].n->agg[0]; for (size_t i = 1; i < a[0].n->agg.size(); i++) r = binop(s, Instruction::Or, r, a[0].n->agg[i]); ret = r; return true; }
  default: return false;
  }
}
static void doCall(State &s, CallBase *cb) {
  if (cb->isInlineAsm()) { if (cast<InlineAsm>(cb->getCalledOperand())->getAsmString().empty()) { finishCall(s, V()); return; } unsupported("inline asm"); }
  vector<V> args; for (auto &x : cb->args()) args.push_back(x->getType()->isMetadataTy() ? V() : ev(s, x));
  Function *f = cb->getCalledFunction(); 
  if (!f) { const Value *cv = cb->getCalledOperand()->stripPointerCasts(); if (auto *ga = dyn_cast<GlobalAlias>(cv)) f = const_cast<Function *>(dyn_cast<Function>(ga->getAliaseeObject())); }
  if (!f) { u64 p = concInt(s, ev(s, cb->getCalledOperand()));
    if (p == g_whatFn) { finishCall(s, mkInt(64, whatText(s))); return; } if (p == g_dtorFn) { finishCall(s, V()); return; }
    auto it = g_fnAt.find(p); if (it == g_fnAt.end()) memErr(s, "call through an invalid function pointer", p, 0); f = const_cast<Function *>(it->second); }
  if (f->isIntrinsic()) { V ret; if (!intrinsic(s, cb, f, args, ret)) unsupported("intrinsic " + f->getName().str()); finishCall(s, ret); return; }
  V ret; bool jumped = false; string n = f->getName().str();
  bool force = n == "__clang_call_terminate" || startsWith(n, "sym_");
  if (f->isDeclaration() || force) {
    if (!external(s, cb, n, args, ret, jumped)) unsupported("external function " + n + " (" + llvm::demangle(n) + ")");
    if (!jumped) finishCall(s, ret); return; }
  pushFrame(s, f, args, cb);
}
static void step(State &s) {
  Frame &f = s.stk.back(); Instruction *i = &*f.pc; s.instrs++; g_totalInstr++;
  if (optTrace) { string str; raw_string_ostream os(str); i->print(os); std::cerr << f.f->getName().str().substr(0, 40) << ":" << str << "\n"; }
  auto next = [&](const V &v) { setReg(s, i, v); ++s.stk.back().pc; };
  switch (i->getOpcode()) {
  case Instruction::Alloca: { auto *a = cast<AllocaInst>(i); u64 n = DL->getTypeAllocSize(a->getAllocatedType()) * concInt(s, ev(s, a->getArraySize())); u64 p = allocObj(s, n, 's', a->getName().str()); s.stk.back().allocas.push_back(p >> 32); next(mkInt(64, p)); return; }
  case Instruction::Load: { u64 p = concInt(s, ev(s, i->getOperand(0))); next(loadTy(s, p, i->getType())); return; }
  case Instruction::Store: { u64 p = concInt(s, ev(s, i->getOperand(1))); V v = ev(s, i->getOperand(0)); storeTy(s, p, i->getOperand(0)->getType(), v); ++s.stk.back().pc; return; }
  case Instruction::GetElementPtr: next(gepOffset(s, cast<GEPOperator>(i), [&](const Value *v) { return ev(s, v); })); return;
  case Instruction::ICmp: next(icmp(s, cast<CmpInst>(i)->getPredicate(), ev(s, i->getOperand(0)), ev(s, i->getOperand(1)))); return;
  case Instruction::FCmp: next(fcmp(s, cast<CmpInst>(i)->getPredicate(), ev(s, i->getOperand(0)), ev(s, i->getOperand(1)))); return;
  case Instruction::FNeg: { V a = ev(s, i->getOperand(0)); if (a.k == V::AGG) { vector<V> r; for (auto &x : a.n->agg) r.push_back(mkReal(x.bits, rNeg(R(x)))); next(mkAgg(r)); } else next(mkReal(a.bits, rNeg(R(a)))); return; }
  case Instruction::Select: next(selectV(s, ev(s, i->getOperand(0)), ev(s, i->getOperand(1)), ev(s, i->getOperand(2)), i->getType())); return;
  case Instruction::Freeze: next(ev(s, i->getOperand(0))); return;
  case Instruction::Fence: ++f.pc; return;
  case Instruction::Br: { auto *b = cast<BranchInst>(i); if (b->isUnconditional()) { enterBB(s, b->getSuccessor(0)); return; } bool c = concBool(s, ev(s, b->getCondition())); enterBB(s, b->getSuccessor(c ? 0 : 1)); return; }
  case Instruction::Switch: { auto *sw = cast<SwitchInst>(i); V c = ev(s, sw->getCondition());
    if (c.conc()) { enterBB(s, sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), c.c))->getCaseSuccessor()); return; }
    z3::expr e = zBV(c); unsigned id = Z3_get_ast_id(Z, e); auto it = s.subst.find(id); if (it != s.subst.end()) { enterBB(s, sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), it->second))->getCaseSuccessor()); return; }
    for (auto cs : sw->cases()) { V eq = mkExpr(1, e == Z.bv_val((uint64_t)cs.getCaseValue()->getZExtValue(), c.bits)); if (concBool(s, eq)) { enterBB(s, cs.getCaseSuccessor()); return; } }
    enterBB(s, sw->getDefaultDest()); return; }
  case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(i)); return;
  case Instruction::Ret: { V v; if (i->getNumOperands()) v = ev(s, i->getOperand(0)); popFrame(s); if (s.stk.empty()) throw PathEnd{"done"}; finishCall(s, v); return; }
  case Instruction::Unreachable: violation(s, "unreachable", "ub", "unreachable code reached (undefined behaviour) in " + llvm::demangle(f.f->getName().str()), Z.bool_val(true)); throw PathEnd{"unreachable"};
  case Instruction::Resume: { V v = ev(s, i->getOperand(0)); u64 e = concInt(s, v.n->agg[0]); popFrame(s); if (s.stk.empty()) { violation(s, "uncaught-exception", "exception", "exception escapes", Z.bool_val(true)); throw PathEnd{"uncaught"}; } unwind(s, e); return; }
  case Instruction::ExtractValue: { V v = ev(s, i->getOperand(0)); for (unsigned k : cast<ExtractValueInst>(i)->indices()) { V t = v.n->agg[k]; v = t; } next(v); return; }
  case Instruction::InsertValue: { auto *iv = cast<InsertValueInst>(i); V agg = ev(s, i->getOperand(0)), x = ev(s, i->getOperand(1));
    std::function<V(const V &, unsigned)> rec = [&](const V &g, unsigned d) -> V { if (d == iv->getNumIndices()) return x; vector<V> c = g.n->agg; unsigned k = iv->getIndices()[d]; c[k] = rec(c[k], d + 1); return mkAgg(c); }; next(rec(agg, 0)); return; }
  case Instruction::ExtractElement: { u64 k = concInt(s, ev(s, i->getOperand(1))); V v = ev(s, i->getOperand(0)); next(v.n->agg.at(k)); return; }
  case Instruction::InsertElement: { u64 k = concInt(s, ev(s, i->getOperand(2))); vector<V> c = ev(s, i->getOperand(0)).n->agg; c.at(k) = ev(s, i->getOperand(1)); next(mkAgg(c)); return; }
  case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(i); vector<V> a = ev(s, i->getOperand(0)).n->agg, b = ev(s, i->getOperand(1)).n->agg, r; for (int k : sv->getShuffleMask()) { if (k < 0) r.push_back(a[0]); else r.push_back((size_t)k < a.size() ? a[k] : b[k - a.size()]); } next(mkAgg(r)); return; }
  case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(i); u64 p = concInt(s, ev(s, r->getPointerOperand())); Type *t = r->getType(); V old = loadTy(s, p, t), x = ev(s, r->getValOperand()), nv;
    switch (r->getOperation()) { case AtomicRMWInst::Xchg: nv = x; break; case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, x); break; case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, x); break; case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, x); break; case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, x); break; case AtomicRMWInst::Xor: nv = binop(s, Instruction::Xor, old, x); break; default: unsupported("atomicrmw"); }
    storeTy(s, p, t, nv); next(old); return; }
  case Instruction::AtomicCmpXchg: { auto *c = cast<AtomicCmpXchgInst>(i); u64 p = concInt(s, ev(s, c->getPointerOperand())); Type *t = c->getNewValOperand()->getType(); V old = loadTy(s, p, t), x = ev(s, c->getCompareOperand()); V eq = icmp(s, CmpInst::ICMP_EQ, old, x); bool b = concBool(s, eq); if (b) storeTy(s, p, t, ev(s, c->getNewValOperand())); next(mkAgg({old, mkInt(1, b)})); return; }
  default: break;
  }
  if (i->isBinaryOp()) { next(binop(s, i->getOpcode(), ev(s, i->getOperand(0)), ev(s, i->getOperand(1)))); return; }
  if (auto *c = dyn_cast<CastInst>(i)) { if (c->getOpcode() == Instruction::FPTrunc) { g_truncRounds = true; if (auto *dl = i->getDebugLoc().get()) if (dl->getFilename().contains("harness/") || dl->getDirectory().contains("harness") || dl->getFilename().contains("sym.h")) g_truncRounds = false; } next(castop(s, c->getOpcode(), ev(s, c->getOperand(0)), c->getSrcTy(), c->getDestTy())); return; }
  string str; raw_string_ostream os(str); i->print(os); unsupported("instruction " + str);
}
static string jesc(const string &x) { string o; for (char c : x) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

struct Sample { vector<std::pair<string, string>> inputs; };
static vector<Sample> g_samples; static u64 optSamples = 6;
// inputs of some completed paths, for validation of the encoding against the compiled code
static void samplePath(State &s) {
  if (g_samples.size() >= optSamples || !optSamples || s.inputs.empty()) return;
  u64 k = g_pathsDone; if (k > 3 && (k & (k - 1))) return;
  z3::model m(Z); try { if (solve(s.pc, 5, &m) != SAT) return; } catch (...) { return; }
  Sample x; for (auto &in : s.inputs) x.inputs.push_back({in.name, string(1, in.kind) + " " + modelVal(m, in)}); g_samples.push_back(x);
}
static void explore(State init) {
  vector<State> work; work.push_back(std::move(init));
  while (!work.empty()) {
    if (now() - g_start > optTimeout) { g_errors.push_back("time limit reached with paths left"); return; }
    if (g_paths >= optMaxPaths) { g_errors.push_back("path limit reached"); return; }
    State s = std::move(work.back()); work.pop_back();
    try {
      while (true) {
        if (s.instrs > optMaxInstr) { violation(s, "termination", "nontermination", "instruction bound per path exceeded", Z.bool_val(true)); g_paths++; throw PathEnd{"bound"}; }
        if ((s.instrs & 1023) == 0 && now() - g_start > optTimeout) { g_errors.push_back("time limit reached"); return; }
        step(s);
      }
    } catch (NeedFork &nf) {
      g_forks += nf.alts.size() - 1;
      for (size_t k = nf.alts.size(); k-- > 0;) { State c = k == 0 ? std::move(s) : s; c.pc.push_back(nf.alts[k].first); c.subst[nf.alts[k].second.first] = nf.alts[k].second.second; c.depth++; work.push_back(std::move(c)); }
    } catch (PathEnd &pe) {
      g_paths++; if (pe.why == "done") { g_pathsDone++; samplePath(s); } else if (pe.why == "assume") g_pathsAssumed++;
    } catch (Unsupported &u) { g_paths++; g_errors.push_back("unsupported: " + u.msg + " @ " + (s.stk.empty() ? "" : whereStr(s))); if (g_errors.size() > 5) return; }
    catch (z3::exception &e) { g_paths++; g_errors.push_back(string("z3 exception: ") + e.msg() + " @ " + (s.stk.empty() ? "" : whereStr(s))); if (g_errors.size() > 5) return; }
  }
}
int main(int argc, char **argv) {
  string file;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto val = [&](const char *p) { return a.substr(strlen(p)); };
    if (startsWith(a, "--entry=")) optEntry = val("--entry="); else if (startsWith(a, "--out=")) optOut = val("--out="); else if (startsWith(a, "--timeout=")) optTimeout = atof(val("--timeout=").c_str()); else if (startsWith(a, "--qtimeout=")) optQueryTimeout = atof(val("--qtimeout=").c_str());
    else if (startsWith(a, "--max-paths=")) optMaxPaths = atoll(val("--max-paths=").c_str()); else if (startsWith(a, "--max-instr=")) optMaxInstr = atoll(val("--max-instr=").c_str()); else if (startsWith(a, "--scope=")) optScope = val("--scope="); else if (startsWith(a, "--samples=")) optSamples = atoll(val("--samples=").c_str()); else if (a == "-v") optVerbose = true; else if (a == "--trace") optTrace = true; else file = a; }
  g_start = now(); LLVMContext C; SMDiagnostic err; M = parseIRFile(file, err, C);
  if (!M) { err.print("ksym", errs()); return 3; }
  DL = &M->getDataLayout();
  Function *f = M->getFunction(optEntry); if (!f) { std::cerr << "no entry " << optEntry << "\n"; return 3; }
  State s; initGlobals(s);
  // constructors: run concretely first
  vector<Function *> todo;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &o : ca->operands()) if (auto *fn = dyn_cast<Function>(cast<Constant>(o)->getAggregateElement(1)->stripPointerCasts())) todo.push_back(fn);
  for (auto *fn : todo) { try { pushFrame(s, fn, {}, nullptr); while (true) step(s); } catch (PathEnd &) { } catch (NeedFork &) { g_errors.push_back("fork in a global constructor"); s.stk.clear(); } catch (Unsupported &u) { g_errors.push_back("unsupported in global constructor: " + u.msg); s.stk.clear(); } }
  s.instrs = 0; g_seenBB.clear(); g_funcs.clear(); pushFrame(s, f, {}, nullptr); explore(s);
  if (const char *lf = getenv("KSYM_LINES")) { std::set<string> ls; for (auto *b : g_seenBB) for (auto &in : *b) for (const DILocation *d = in.getDebugLoc().get(); d; d = d->getInlinedAt()) { string n = d->getFilename().str(); if (startsWith(n, "/repo/")) ls.insert(n.substr(6) + ":" + std::to_string(d->getLine())); } std::ofstream l(lf, std::ios::app); string all; for (auto &x : ls) all += x + "\n"; l << all; }
  std::ostringstream o; o << "{\"entry\":\"" << optEntry << "\",\"wall_s\":" << now() - g_start << ",\"solver_s\":" << g_solver << ",\"queries\":" << g_queries << ",\"sat\":" << g_sat << ",\"unsat\":" << g_unsat << ",\"unknown\":" << g_unknown
    << ",\"paths\":" << g_paths << ",\"paths_completed\":" << g_pathsDone << ",\"paths_assumed_away\":" << g_pathsAssumed << ",\"forks\":" << g_forks << ",\"instructions\":" << g_totalInstr << ",\"assert_checks\":" << g_assertQ << ",\"labels\":{";
  bool first = true; for (auto &l : g_labels) { o << (first ? "" : ",") << "\"" << jesc(l.first) << "\":{\"checks\":" << l.second.checks << ",\"discharged\":" << l.second.discharged << ",\"witness\":" << (l.second.witness ? "true" : "false") << "}"; first = false; }
  o << "},\"functions\":["; first = true; for (auto &x : g_funcs) { o << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
  o << "],\"stubs\":["; first = true; for (auto &x : g_stubs) { o << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
  o << "],\"notes\":["; first = true; for (auto &x : g_notes) { o << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
  o << "],\"errors\":["; first = true; std::set<string> es(g_errors.begin(), g_errors.end()); for (auto &x : es) { o << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
  o << "],\"violations\":["; first = true;
  for (auto &v : g_viol) { o << (first ? "" : ",") << "{\"label\":\"" << jesc(v.label) << "\",\"kind\":\"" << v.kind << "\",\"detail\":\"" << jesc(v.detail) << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":["; bool f2 = true; for (auto &p : v.inputs) { o << (f2 ? "" : ",") << "[\"" << jesc(p.first) << "\",\"" << jesc(p.second) << "\"]"; f2 = false; } o << "]}"; first = false; }
  o << "],\"samples\":["; first = true;
  for (auto &v : g_samples) { o << (first ? "" : ",") << "["; bool f2 = true; for (auto &p : v.inputs) { o << (f2 ? "" : ",") << "[\"" << jesc(p.first) << "\",\"" << jesc(p.second) << "\"]"; f2 = false; } o << "]"; first = false; }
  o << "]}\n";
  if (optOut.empty()) std::cout << o.str(); else { std::ofstream of(optOut); of << o.str(); }
  std::cout.flush(); _exit(0);
}
