// instr in.bc out.bc: routes every access to shared memory through the functions of harness/conc.h, so that a
// harness can let other threads act between any two accesses:
//   atomic load/store/read-modify-write/compare-exchange -> calls ks_load*, ks_store*, ks_rmw*, ks_cas* (with memory orders)
//   plain load/store                                     -> ks_read / ks_write called just before the access
// Functions whose name starts with ks_ or sym_ are left alone.
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Analysis/CaptureTracking.h>
#include <set>
#include <vector>
using namespace llvm;
static int mo(AtomicOrdering o) { switch (o) { case AtomicOrdering::Acquire: return 2; case AtomicOrdering::Release: return 3; case AtomicOrdering::AcquireRelease: return 4; case AtomicOrdering::SequentiallyConsistent: return 5; default: return 0; } }
int main(int argc, char **argv) {
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(argv[1], err, C); if (!M) { err.print("instr", errs()); return 1; }
  const DataLayout &DL = M->getDataLayout(); Type *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C), *P = PointerType::get(C, 0), *V = Type::getVoidTy(C);
  auto fn = [&](const std::string &n, Type *r, std::vector<Type *> a) { return M->getOrInsertFunction(n, FunctionType::get(r, a, false)); };
  for (auto &F : *M) {
    if (F.isDeclaration() || F.getName().starts_with("ks_") || F.getName().starts_with("sym_")) continue;
    std::vector<Instruction *> work; for (auto &B : F) for (auto &I : B) if (isa<LoadInst, StoreInst, AtomicRMWInst, AtomicCmpXchgInst, MemIntrinsic, FenceInst>(I)) work.push_back(&I);
    std::set<Value *> priv; for (auto &B : F) for (auto &I : B) if (isa<AllocaInst>(I) && !PointerMayBeCaptured(&I, true, true)) priv.insert(&I);
    for (auto *I : work) {
      IRBuilder<> b(I); if (!I->getDebugLoc()) if (auto *sp = F.getSubprogram()) b.SetCurrentDebugLocation(DILocation::get(C, 0, 0, sp));
      auto num = [&](Type *t) { return (unsigned)(8 * DL.getTypeStoreSize(t)); };
      auto it = [&](unsigned n) { return Type::getIntNTy(C, n); };
      auto toInt = [&](Value *v, unsigned n) -> Value * { if (v->getType()->isPointerTy()) return b.CreatePtrToInt(v, it(n)); if (v->getType()->isFloatingPointTy()) return b.CreateBitCast(v, it(n)); return b.CreateZExtOrTrunc(v, it(n)); };
      auto from = [&](Value *v, Type *t) -> Value * { if (t->isPointerTy()) return b.CreateIntToPtr(v, t); if (t->isFloatingPointTy()) return b.CreateBitCast(v, t); return b.CreateZExtOrTrunc(v, t); };
      auto local = [&](Value *p) { return priv.count(const_cast<Value *>(getUnderlyingObject(p))) != 0; };
      if (auto *l = dyn_cast<LoadInst>(I)) { Type *t = l->getType(); unsigned n = num(t); if (local(l->getPointerOperand())) continue;
        if (!l->isAtomic()) { b.CreateCall(fn("ks_read", V, {P, I64}), {l->getPointerOperand(), b.getInt64(n / 8)}); continue; }
        if (n > 64) { errs() << "atomic load of " << n << " bits\n"; return 1; }
        Value *r = b.CreateCall(fn("ks_load" + std::to_string(n), it(n), {P, I32}), {l->getPointerOperand(), b.getInt32(mo(l->getOrdering()))}); l->replaceAllUsesWith(from(r, t)); l->eraseFromParent(); }
      else if (auto *s = dyn_cast<StoreInst>(I)) { Type *t = s->getValueOperand()->getType(); unsigned n = num(t); if (local(s->getPointerOperand())) continue;
        if (!s->isAtomic()) { b.CreateCall(fn("ks_write", V, {P, I64}), {s->getPointerOperand(), b.getInt64(n / 8)}); continue; }
        b.CreateCall(fn("ks_store" + std::to_string(n), V, {P, it(n), I32}), {s->getPointerOperand(), toInt(s->getValueOperand(), n), b.getInt32(mo(s->getOrdering()))}); s->eraseFromParent(); }
      else if (auto *m = dyn_cast<MemIntrinsic>(I)) { b.CreateCall(fn("ks_write", V, {P, I64}), {m->getDest(), b.CreateZExt(m->getLength(), I64)}); if (auto *mt = dyn_cast<MemTransferInst>(m)) b.CreateCall(fn("ks_read", V, {P, I64}), {mt->getSource(), b.CreateZExt(m->getLength(), I64)}); }
      else if (auto *r = dyn_cast<AtomicRMWInst>(I)) { Type *t = r->getType(); unsigned n = num(t);
        Value *o = b.CreateCall(fn("ks_rmw" + std::to_string(n), it(n), {P, I32, it(n), I32}), {r->getPointerOperand(), b.getInt32(r->getOperation()), toInt(r->getValOperand(), n), b.getInt32(mo(r->getOrdering()))}); r->replaceAllUsesWith(from(o, t)); r->eraseFromParent(); }
      else if (auto *c = dyn_cast<AtomicCmpXchgInst>(I)) { Type *t = c->getNewValOperand()->getType(); unsigned n = num(t);
        Value *slot; { IRBuilder<> e(&F.getEntryBlock(), F.getEntryBlock().begin()); slot = e.CreateAlloca(it(n)); } b.CreateStore(toInt(c->getCompareOperand(), n), slot);
        Value *ok = b.CreateCall(fn("ks_cas" + std::to_string(n), I32, {P, P, it(n), I32, I32, I32}), {c->getPointerOperand(), slot, toInt(c->getNewValOperand(), n), b.getInt32(mo(c->getSuccessOrdering())), b.getInt32(mo(c->getFailureOrdering())), b.getInt32(c->isWeak())});
        Value *old = from(b.CreateLoad(it(n), slot), t); Value *agg = b.CreateInsertValue(PoisonValue::get(c->getType()), old, 0); agg = b.CreateInsertValue(agg, b.CreateICmpNE(ok, b.getInt32(0)), 1); c->replaceAllUsesWith(agg); c->eraseFromParent(); }
      else if (auto *f = dyn_cast<FenceInst>(I)) { b.CreateCall(fn("ks_fence", V, {I32}), {b.getInt32(mo(f->getOrdering()))}); }
    }
  }
  if (verifyModule(*M, &errs())) return 1;
  std::error_code ec; raw_fd_ostream o(argv[2], ec, sys::fs::OF_None); WriteBitcodeToFile(*M, o); return ec ? 1 : 0;
}
