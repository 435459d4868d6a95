// symx: a path-exploring symbolic executor for LLVM 18 IR, deciding branches and
// assertions with byte domains and Z3.  See DESIGN.md.
#include "symx.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <chrono>
#include <random>
#include <sys/resource.h>
#include <thread>
#include <cmath>
#include <pthread.h>
#include <unistd.h>

using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Kill {};
struct Stop {};
struct Violation { std::string kind, msg, stack; std::vector<std::pair<std::string, std::string>> inputs; };
struct CallInfo {
  const Function *direct = nullptr; DFunc *df = nullptr; int nat = -1; std::string name;
  std::vector<DOp> args; std::vector<uint16_t> an; std::vector<uint8_t> aw; std::vector<uint64_t> byval; DOp callee;
  bool invoke = false; int nb = -1, ub = -1; unsigned fixed = 0; bool var = false; uint16_t totslots = 0; bool resolved = false;
};

struct Engine {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout *DL;
  Solver sol;
  std::unordered_map<const GlobalValue *, uint64_t> gaddr;
  std::unordered_map<uint64_t, const Function *> faddr;
  std::unordered_map<const Function *, DFunc *> dfs;
  std::vector<std::vector<uint64_t>> pool;
  std::vector<State *> work;
  std::vector<const Function *> stages;
  std::map<std::string, std::string> params;
  std::string repoPrefix;
  // limits
  uint64_t maxSteps = 100000000; unsigned maxDepth = 1500; double maxTime = 1e9; uint64_t maxPaths = ~0ULL; unsigned maxViol = 6;
  double t0;
  // stats
  uint64_t paths = 0, killed = 0, forks = 0, steps = 0, nstates = 0, assertsConcrete = 0, assertsSymbolic = 0, branches = 0, incomplete = 0, assumedOut = 0;
  std::map<std::string, uint64_t> assertCount, reachCount, incReasons;
  std::vector<Violation> viols; std::map<std::string, int> violKey;
  unsigned nsamples = 0; std::vector<std::string> samples; std::mt19937_64 rng; uint64_t completed = 0;
  std::vector<std::pair<std::string, int>> lines; std::unordered_map<std::string, uint32_t> lineIdx; std::vector<uint8_t> covered;
  std::unordered_map<uint64_t, int> typeIds;
  bool verbose = false; double maxSolverRss = 0;

  // ---------- setup ----------
  uint32_t gcount = 1;
  State *init;
  void load(const std::string &path) {
    SMDiagnostic err; M = parseIRFile(path, err, ctx);
    if (!M) { err.print("symx", errs()); exit(2); }
    DL = &M->getDataLayout();
    init = new State();
    for (auto &F : *M) { uint64_t a = newGlobal(16); gaddr[&F] = a; faddr[a] = &F; init->g.w(idx(a))->fn = &F; init->g.w(idx(a))->ro = true; }
    if (auto *F = M->getFunction("env_w_access")) if (!F->isDeclaration()) accessFn = F;
    for (auto &G : M->globals()) {
      uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 64;
      if (G.isDeclaration() && sz < 64) sz = 64;
      gaddr[&G] = newGlobal(sz); if (G.hasAttribute("bss-section") && !G.isThreadLocal()) init->g.w(idx(gaddr[&G]))->lib = true;
    }
    for (auto &A : M->aliases()) { auto *b = A.getAliaseeObject(); gaddr[&A] = gaddr[b]; if (auto *F = dyn_cast<Function>(b)) faddr[gaddr[b]] = F; }
    for (auto &G : M->globals()) {
      Obj *o = init->g.w(idx(gaddr[&G]));
      if (G.hasInitializer()) writeInit(o, 0, G.getInitializer());
      if (G.isConstant()) o->ro = true;
    }
  }
  // heap blocks the program under test can still reach from its own global variables: kept, not leaked
  std::vector<uint32_t> repoGlobals; bool repoGlobalsKnown = false;
  bool usedInRepo(const Value *v, std::set<const Value *> &seen) {
    if (!seen.insert(v).second) return false;
    for (auto *u : v->users()) {
      if (auto *I = dyn_cast<Instruction>(u)) { auto dl = I->getDebugLoc(); for (const DILocation *l = dl.get(); l; l = l->getInlinedAt()) { std::string f = l->getFilename().str(); if (!f.empty() && f[0] != '/') f = l->getDirectory().str() + "/" + f; if (f.compare(0, repoPrefix.size(), repoPrefix) == 0) return true; } }
      else if (isa<Constant>(u) && usedInRepo(u, seen)) return true;
    }
    return false;
  }
  int64_t reachable(State &S) {
    if (!repoGlobalsKnown) { repoGlobalsKnown = true; for (auto &G : M->globals()) if (!G.isConstant() && !G.isDeclaration()) { std::set<const Value *> seen; if (usedInRepo(&G, seen)) repoGlobals.push_back(idx(gaddr[&G])); } }
    std::vector<Obj *> todo; std::set<uint32_t> seen; int64_t n = 0;
    for (auto i : repoGlobals) if (Obj *o = S.g.get(i)) todo.push_back(o);
    while (!todo.empty()) {
      Obj *o = todo.back(); todo.pop_back();
      for (uint32_t k = 0; k + 8 <= o->size; k += 8) {
        uint64_t a; memcpy(&a, o->data + k, 8); if ((a >> 60) != K_HEAP || (o->sym && o->sym[k])) continue;
        Obj *h = find(S, a); if (h && seen.insert(h->id & 0xffff).second) { n++; todo.push_back(h); }
      }
    }
    return n;
  }
  static uint32_t idx(uint64_t a) { return (a >> 24) & 0xffff; }
  uint64_t newGlobal(uint64_t sz) {
    uint32_t i = gcount++;
    if (i >= 65536) { fprintf(stderr, "too many globals\n"); exit(2); }
    uint64_t id = ((uint64_t)K_GLOBAL << 36) | i;
    init->g.set(i, new Obj(id, sz));
    return addrOf(id);
  }
  void writeInit(Obj *o, uint64_t off, const Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *ds = dyn_cast<ConstantDataSequential>(c)) {
      uint64_t es = DL->getTypeAllocSize(ds->getElementType());
      for (unsigned i = 0; i < ds->getNumElements(); i++) {
        uint64_t v = ds->getElementType()->isIntegerTy() ? ds->getElementAsInteger(i) : ds->getElementAsConstant(i)->getType()->isFloatingPointTy() ? cast<ConstantFP>(ds->getElementAsConstant(i))->getValueAPF().bitcastToAPInt().getZExtValue() : 0;
        memcpy(o->data + off + i * es, &v, es);
      }
      return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) writeInit(o, off + i * es, ca->getOperand(i)); return; }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeInit(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    if (t->isX86_FP80Ty() || t->isFP128Ty()) return;
    uint64_t v = constScalar(c); uint64_t n = DL->getTypeStoreSize(t);
    memcpy(o->data + off, &v, std::min<uint64_t>(n, 8));
  }
  uint64_t constScalar(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getBitWidth() <= 64 ? ci->getZExtValue() : ci->getValue().trunc(64).getZExtValue();
    if (auto *cf = dyn_cast<ConstantFP>(c)) { auto b = cf->getValueAPF().bitcastToAPInt(); return b.getBitWidth() <= 64 ? b.getZExtValue() : b.trunc(64).getZExtValue(); }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) { fprintf(stderr, "no addr for global %s\n", gv->getName().str().c_str()); exit(2); } return it->second; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      unsigned w = ce->getType()->isPointerTy() ? 64 : ce->getType()->getScalarSizeInBits();
      switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::AddrSpaceCast:
          return constScalar(ce->getOperand(0)) & mask(w);
        case Instruction::ZExt: return constScalar(ce->getOperand(0));
        case Instruction::SExt: return (uint64_t)sx(constScalar(ce->getOperand(0)), ce->getOperand(0)->getType()->getScalarSizeInBits()) & mask(w);
        case Instruction::GetElementPtr: {
          APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
          return constScalar(ce->getOperand(0)) + off.getSExtValue();
        }
        case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & mask(w);
        case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & mask(w);
        case Instruction::Mul: return (constScalar(ce->getOperand(0)) * constScalar(ce->getOperand(1))) & mask(w);
        case Instruction::And: return constScalar(ce->getOperand(0)) & constScalar(ce->getOperand(1));
        case Instruction::Or: return constScalar(ce->getOperand(0)) | constScalar(ce->getOperand(1));
        case Instruction::Xor: return constScalar(ce->getOperand(0)) ^ constScalar(ce->getOperand(1));
        case Instruction::ICmp: {
          uint64_t x = constScalar(ce->getOperand(0)), y = constScalar(ce->getOperand(1));
          switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_UGT: return x > y; default: break; }
          break;
        }
        case Instruction::Select: return constScalar(ce->getOperand(0)) ? constScalar(ce->getOperand(1)) : constScalar(ce->getOperand(2));
        default: break;
      }
    }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant: %s\n", s.c_str());
    throw std::runtime_error("unsupported constant " + s);
  }
  struct Leaf { uint64_t off; uint16_t bits; };
  void leaves(Type *t, uint64_t off, std::vector<Leaf> &out) {
    if (t->isVoidTy()) return;
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out); return; }
    if (t->isPointerTy()) { out.push_back({off, 64}); return; }
    if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) { out.push_back({off, (uint16_t)t->getIntegerBitWidth()}); return; }
    if (t->isDoubleTy()) { out.push_back({off, 64}); return; }
    if (t->isFloatTy()) { out.push_back({off, 32}); return; }
    if (t->isTokenTy() || t->isMetadataTy() || t->isLabelTy()) return;
    std::string s; raw_string_ostream os(s); t->print(os);
    throw std::runtime_error("type " + s);
  }
  unsigned nleaves(Type *t) { std::vector<Leaf> v; leaves(t, 0, v); return v.size(); }
  void constLeaves(const Constant *c, std::vector<uint64_t> &out) {
    Type *t = c->getType();
    if (t->isStructTy() || t->isArrayTy()) {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) {
        Constant *e = c->getAggregateElement(i);
        if (e) constLeaves(e, out); else { unsigned k = nleaves(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()); out.insert(out.end(), k, 0); }
      }
    } else out.push_back(constScalar(c));
  }
  static unsigned bitw(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }

  uint32_t lineOf(const Instruction *I) {
    auto dl = I->getDebugLoc(); if (!dl) return 0;
    auto *sc = dl->getScope(); if (!sc) return 0;
    std::string f = sc->getFilename().str();
    if (f.compare(0, repoPrefix.size(), repoPrefix) != 0) { // relative?
      std::string d = sc->getDirectory().str(); if (!f.empty() && f[0] != '/') f = d + "/" + f;
      if (f.compare(0, repoPrefix.size(), repoPrefix) != 0) return 0;
    }
    f = f.substr(repoPrefix.size()) + ":" + std::to_string(dl.getLine());
    auto it = lineIdx.find(f); if (it != lineIdx.end()) return it->second;
    lines.push_back({f, 0}); covered.push_back(0); return lineIdx[f] = lines.size() - 1;
  }

  DFunc *decode(const Function *F) {
    auto it = dfs.find(F); if (it != dfs.end()) return it->second;
    DFunc *D = new DFunc(); D->F = F; dfs[F] = D;
    if (auto *sp = F->getSubprogram()) { std::string f = sp->getFilename().str(); if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f; D->inRepo = f.compare(0, repoPrefix.size(), repoPrefix) == 0; }
    try { decode1(F, D); } catch (std::runtime_error &e) { D->unsupported = e.what(); }
    return D;
  }
  void decode1(const Function *F, DFunc *D) {
    std::unordered_map<const Value *, std::pair<int, int>> slot; uint32_t n = 0;
    for (auto &A : F->args()) { unsigned k = nleaves(A.getType()); slot[&A] = {n, k}; n += k; }
    D->nargslots = n;
    std::unordered_map<const BasicBlock *, int> bbi; int bi = 0;
    std::unordered_map<const Instruction *, std::string> bad;
    for (auto &B : *F) { bbi[&B] = bi++; for (auto &I : B) { if (I.getType()->isVoidTy()) continue; unsigned k = 1; try { k = nleaves(I.getType()); } catch (std::runtime_error &e) { bad[&I] = e.what(); } slot[&I] = {n, k}; n += k; } }
    D->nregs = n;
    auto op = [&](const Value *v) -> DOp {
      DOp o;
      if (auto *c = dyn_cast<Constant>(v)) {
        Type *t = c->getType();
        if (t->isStructTy() || t->isArrayTy()) { std::vector<uint64_t> l; constLeaves(c, l); pool.push_back(l); o.r = -2; o.c = pool.size() - 1; }
        else { o.r = -1; o.c = constScalar(c); }
        return o;
      }
      if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { o.r = -1; return o; }
      auto it = slot.find(v); if (it == slot.end()) throw std::runtime_error("operand"); o.r = it->second.first; return o;
    };
    D->bb.resize(bbi.size());
    for (auto &B : *F) {
      DBlock &db = D->bb[bbi[&B]];
      for (auto &I : B) {
        if (auto *p = dyn_cast<PHINode>(&I)) {
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
            int pb = bbi[p->getIncomingBlock(i)];
            std::vector<PhiMove> *mv = nullptr; for (auto &x : db.phis) if (x.first == pb) mv = &x.second;
            if (!mv) { db.phis.push_back({pb, {}}); mv = &db.phis.back().second; }
            // duplicates (switch with several edges) are harmless only once
            bool dup = false; for (auto &m : *mv) if (m.dst == slot[p].first) dup = true;
            if (!dup) mv->push_back({slot[p].first, (uint16_t)slot[p].second, op(p->getIncomingValue(i))});
          }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        DInst d; d.op = I.getOpcode(); d.I = &I; d.line = lineOf(&I);
        auto bt = bad.find(&I);
        bool badop = bt != bad.end();
        for (auto &o : I.operands()) if (auto *oi = dyn_cast<Instruction>(o.get())) if (bad.count(oi)) badop = true;
        for (auto &o : I.operands()) { Type *t = o->getType(); if (t->isX86_FP80Ty() || t->isFP128Ty() || t->isVectorTy() || (t->isIntegerTy() && t->getIntegerBitWidth() > 64)) badop = true; }
        if (badop) { d.op = 0; db.in.push_back(d); continue; }
        if (!I.getType()->isVoidTy()) { d.dst = slot[&I].first; d.dn = slot[&I].second; d.w = bitw(I.getType()); }
        switch (I.getOpcode()) {
          case Instruction::Alloca: {
            auto *a = cast<AllocaInst>(&I); d.x = new std::vector<uint64_t>{DL->getTypeAllocSize(a->getAllocatedType())}; d.a = op(a->getArraySize()); d.w2 = bitw(a->getArraySize()->getType()); break; }
          case Instruction::Load: case Instruction::Store: {
            Type *t = I.getOpcode() == Instruction::Load ? I.getType() : I.getOperand(0)->getType();
            std::vector<Leaf> l; leaves(t, 0, l);
            d.x = new std::vector<uint64_t>(); for (auto &x : l) { d.x->push_back(x.off); d.x->push_back(x.bits); }
            if (I.getOpcode() == Instruction::Load) d.a = op(I.getOperand(0)); else { d.b = op(I.getOperand(0)); d.a = op(I.getOperand(1)); }
            d.dn = l.size(); d.w2 = DL->getTypeStoreSize(t) > 255 ? 255 : DL->getTypeStoreSize(t); break; }
          case Instruction::GetElementPtr: {
            auto *g = cast<GetElementPtrInst>(&I); d.a = op(g->getPointerOperand());
            if (g->getType()->isVectorTy()) throw std::runtime_error("vector gep");
            d.ops = new std::vector<DOp>(); d.x = new std::vector<uint64_t>(); int64_t co = 0;
            for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
              Value *ix = gi.getOperand();
              if (StructType *st = gi.getStructTypeOrNull()) { co += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
              uint64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto *ci = dyn_cast<ConstantInt>(ix)) { co += ci->getSExtValue() * (int64_t)sc; continue; }
              d.ops->push_back(op(ix)); d.x->push_back(sc); d.x->push_back(bitw(ix->getType()));
            }
            d.b.c = (uint64_t)co; break; }
          case Instruction::ICmp: d.pred = cast<ICmpInst>(&I)->getPredicate(); d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); d.w2 = bitw(I.getOperand(0)->getType()); break;
          case Instruction::FCmp: d.pred = cast<FCmpInst>(&I)->getPredicate(); d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); d.w2 = bitw(I.getOperand(0)->getType()); break;
          case Instruction::Br: {
            auto *b = cast<BranchInst>(&I); d.x = new std::vector<uint64_t>();
            if (b->isConditional()) { d.w = 1; d.a = op(b->getCondition()); d.x->push_back(bbi[b->getSuccessor(0)]); d.x->push_back(bbi[b->getSuccessor(1)]); }
            else { d.w = 0; d.x->push_back(bbi[b->getSuccessor(0)]); } break; }
          case Instruction::Switch: {
            auto *s = cast<SwitchInst>(&I); d.a = op(s->getCondition()); d.w2 = bitw(s->getCondition()->getType()); d.x = new std::vector<uint64_t>{(uint64_t)bbi[s->getDefaultDest()]};
            for (auto &c : s->cases()) { d.x->push_back(c.getCaseValue()->getZExtValue()); d.x->push_back(bbi[c.getCaseSuccessor()]); } break; }
          case Instruction::Select: d.d = op(I.getOperand(0)); d.a = op(I.getOperand(1)); d.b = op(I.getOperand(2)); { std::vector<Leaf> l; leaves(I.getType(), 0, l); d.x = new std::vector<uint64_t>(); for (auto &y : l) d.x->push_back(y.bits); } break;
          case Instruction::ExtractValue: {
            auto *ev = cast<ExtractValueInst>(&I); d.a = op(ev->getAggregateOperand()); d.b.c = aggOff(ev->getAggregateOperand()->getType(), ev->getIndices()); break; }
          case Instruction::InsertValue: {
            auto *iv = cast<InsertValueInst>(&I); d.a = op(iv->getAggregateOperand()); d.d = op(iv->getInsertedValueOperand()); d.b.c = aggOff(iv->getAggregateOperand()->getType(), iv->getIndices()); d.w2 = nleaves(iv->getInsertedValueOperand()->getType()); break; }
          case Instruction::Ret: if (I.getNumOperands()) { d.a = op(I.getOperand(0)); d.dn = nleaves(I.getOperand(0)->getType()); d.w = 1; } break;
          case Instruction::Call: case Instruction::Invoke: {
            auto *cb = cast<CallBase>(&I); CallInfo *ci = new CallInfo(); d.ci = ci;
            Value *cv = cb->getCalledOperand()->stripPointerCasts();
            if (auto *A = dyn_cast<GlobalAlias>(cv)) cv = A->getAliaseeObject();
            ci->direct = dyn_cast<Function>(cv);
            if (!ci->direct) { if (isa<InlineAsm>(cv)) { ci->name = "asm"; ci->nat = -3; } else ci->callee = op(cb->getCalledOperand()); }
            else ci->name = ci->direct->getName().str();
            ci->fixed = cb->getFunctionType()->getNumParams(); ci->var = cb->getFunctionType()->isVarArg();
            if (!(ci->direct && ci->direct->isIntrinsic() && (ci->name.compare(0, 8, "llvm.dbg") == 0)))
            for (unsigned i = 0; i < cb->arg_size(); i++) {
              Value *av = cb->getArgOperand(i);
              unsigned k = av->getType()->isMetadataTy() ? 1 : nleaves(av->getType());
              ci->args.push_back(op(av)); ci->an.push_back(k); ci->aw.push_back(bitw(av->getType()) ? bitw(av->getType()) : 64); ci->totslots += k;
              ci->byval.push_back(cb->isByValArgument(i) ? DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
            }
            if (auto *iv = dyn_cast<InvokeInst>(&I)) { ci->invoke = true; ci->nb = bbi[iv->getNormalDest()]; ci->ub = bbi[iv->getUnwindDest()]; }
            break; }
          case Instruction::LandingPad: {
            auto *lp = cast<LandingPadInst>(&I); d.x = new std::vector<uint64_t>(); d.w2 = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) { d.x->push_back(0); d.x->push_back(constScalar(lp->getClause(i))); } else { d.x->push_back(1); d.x->push_back(0); }
            break; }
          case Instruction::Resume: d.a = op(I.getOperand(0)); break;
          case Instruction::AtomicRMW: { auto *a = cast<AtomicRMWInst>(&I); d.pred = a->getOperation(); d.a = op(a->getPointerOperand()); d.b = op(a->getValOperand()); break; }
          case Instruction::AtomicCmpXchg: { auto *a = cast<AtomicCmpXchgInst>(&I); d.a = op(a->getPointerOperand()); d.b = op(a->getCompareOperand()); d.d = op(a->getNewValOperand()); d.w2 = bitw(a->getCompareOperand()->getType()); break; }
          case Instruction::Fence: break;
          case Instruction::Unreachable: break;
          case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze:
          case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::FNeg:
            d.a = op(I.getOperand(0)); d.w2 = bitw(I.getOperand(0)->getType()); break;
          default:
            if (I.isBinaryOp()) { d.a = op(I.getOperand(0)); d.b = op(I.getOperand(1)); break; }
            d.op = 0; break;
        }
        db.in.push_back(d);
      }
    }
  }
  unsigned aggOff(Type *t, ArrayRef<unsigned> ix) {
    unsigned o = 0;
    for (unsigned i : ix) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) o += nleaves(st->getElementType(k)); t = st->getElementType(i); } else { t = t->getArrayElementType(); o += i * nleaves(t); } }
    return o;
  }

  // ---------- reporting ----------
  std::string stackOf(State &S) {
    std::string r; int n = 0;
    for (int i = (int)S.fr.size() - 1; i >= 0 && n < 12; i--, n++) {
      Frame *f = S.fr[i]; auto &b = f->f->bb[f->bb]; const Instruction *I = f->ip < (int)b.in.size() ? b.in[f->ip].I : nullptr;
      std::string nm = demangle(f->f->F->getName().str()); if (nm.size() > 90) nm = nm.substr(0, 90);
      r += nm; if (I && I->getDebugLoc()) { std::string fn = I->getDebugLoc()->getScope()->getFilename().str(); auto p = fn.find_last_of('/'); r += " (" + (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(I->getDebugLoc().getLine()) + ")"; }
      r += "; ";
    }
    return r;
  }
  std::string hexOf(const std::vector<uint8_t> &v) { static const char *h = "0123456789abcdef"; std::string s; for (auto b : v) { s += h[b >> 4]; s += h[b & 15]; } return s; }
  std::string inputsText(State &S, const std::vector<uint8_t> &m) {
    std::string r;
    for (auto &i : S.inputs) {
      if (i.kind == 'C') r += "C " + i.name + " " + std::to_string(i.n) + "\n";
      else { std::vector<uint8_t> b; for (uint32_t k = 0; k < i.n; k++) b.push_back(m[i.v0 + k]); r += std::string(1, i.kind) + " " + i.name + " " + (b.empty() ? "-" : hexOf(b)) + "\n"; }
    }
    return r;
  }
  void report(State &S, const std::string &kind, const std::string &msg, const std::vector<uint8_t> &model) {
    std::string st = stackOf(S);
    std::string key = kind + "|" + msg + "|" + (kind == "assert" ? "" : st.substr(0, st.find(';')));
    int &n = violKey[key];
    if (n++ >= (int)maxViol) return;
    Violation v; v.kind = kind; v.msg = msg; v.stack = st; v.inputs.push_back({"text", inputsText(S, model)});
    viols.push_back(v);
    if (verbose) fprintf(stderr, "VIOL %s: %s\n  at %s\n%s", kind.c_str(), msg.c_str(), st.c_str(), v.inputs[0].second.c_str());
  }
  [[noreturn]] void error(State &S, const std::string &kind, const std::string &msg) { report(S, kind, msg, S.pc.model); throw Kill(); }
  [[noreturn]] void inc(State &S, const std::string &why) {
    incomplete++; if (incReasons[why]++ == 0 && verbose) fprintf(stderr, "INCOMPLETE %s at %s\n", why.c_str(), stackOf(S).c_str());
    if (incReasons[why] == 1) incReasons[why + " @ " + stackOf(S).substr(0, 300)]++;
    throw Kill();
  }

  // ---------- solver interface ----------
  static Expr *ex(const Val &v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }
  static Val vl(Expr *e) { return isC(e) ? Val(e->c) : Val(0, e); }
  bool decide(State &S, Expr *c) {
    if (isC(c)) return c->c;
    if (S.pc.facts.has(c)) return true;
    Expr *nc = mkNot(c);
    if (S.pc.facts.has(nc)) return false;
    bool mv = evalE(c, S.pc.model.data(), ++gEpoch);
    std::vector<uint8_t> m;
    auto r = sol.check(S.pc, mv ? nc : c, &m);
    branches++;
    if (r == Solver::SAT) {
      State *T = new State(S); T->id = ++nstates; T->pc.model = m; sol.add(T->pc, mv ? nc : c); T->forks++;
      work.push_back(T); forks++;
      sol.add(S.pc, mv ? c : nc);
    } else {
      if (r == Solver::UNKNOWN) { incomplete++; incReasons["solver unknown"]++; }
      S.pc.facts.add(mv ? c : nc);
    }
    return mv;
  }
  uint64_t conc(State &S, const Val &v, unsigned w = 64) {
    if (!v.e) return v.c;
    for (;;) { uint64_t x = evalE(v.e, S.pc.model.data(), ++gEpoch); if (decide(S, mkEq(v.e, mkC(x, w)))) return x; }
  }

  // ---------- memory ----------
  Obj *find(State &S, uint64_t a) {
    uint64_t id = a >> 24; unsigned k = (id >> 36) & 15; uint32_t i = id & 0xffff; Obj *o = nullptr;
    if (k == K_GLOBAL) o = S.g.get(i); else if (k == K_HEAP) o = S.h.get(i); else if (k == K_STACK) o = S.s.get(i);
    return o && o->id == id ? o : nullptr;
  }
  Obj *findw(State &S, uint64_t a) {
    uint64_t id = a >> 24; unsigned k = (id >> 36) & 15; uint32_t i = id & 0xffff;
    return k == K_GLOBAL ? S.g.w(i) : k == K_HEAP ? S.h.w(i) : S.s.w(i);
  }
  static int64_t offOf(uint64_t a) { return (int64_t)(a & 0xffffff) - (int64_t)OFF0; }
  std::string badptr(uint64_t a) {
    uint64_t id = a >> 24; unsigned k = (id >> 36) & 15;
    if (a < (1 << 24)) return "null pointer access";
    if (k == K_HEAP) return "use of freed heap memory";
    if (k == K_STACK) return "use of dead stack memory";
    return "wild pointer access";
  }
  // returns object for [a,a+n) or reports
  Obj *access(State &S, uint64_t a, uint64_t n, bool wr) {
    Obj *o = find(S, a);
    if (!o) error(S, "memory", badptr(a));
    int64_t off = offOf(a);
    if (off < 0 || (uint64_t)off + n > o->size) error(S, "memory", std::string(wr ? "out-of-bounds write" : "out-of-bounds read") + " of " + std::to_string(n) + " at offset " + std::to_string(off) + " of " + std::to_string(o->size) + "-byte " + ((o->id >> 36) == K_HEAP ? "heap" : (o->id >> 36) == K_STACK ? "stack" : "global") + " object");
    if (wr && o->ro) error(S, "memory", "write to constant memory");
    if (o->fn) error(S, "memory", "data access to code");
    return wr ? findw(S, a) : o;
  }
  Val rdByte(State &S, uint64_t a) { Obj *o = access(S, a, 1, false); return rdByteO(S, o, offOf(a)); }
  Val rdByteO(State &S, Obj *o, uint64_t off) {
    if (o->undef && o->undef[off]) {
      uint32_t v = S.pc.newVar(0xAA); S.inputs.push_back({'U', "uninit", v, 1});
      Obj *w = findw(S, addrOf(o->id, 0)); if (!w->sym) w->sym = (Expr **)calloc(w->size, sizeof(Expr *)); w->sym[off] = mkVar(v); w->undef[off] = 0;
      return Val(0, mkVar(v));
    }
    if (o->sym && o->sym[off]) return Val(0, o->sym[off]);
    return Val(o->data[off]);
  }
  void wrByteO(Obj *o, uint64_t off, const Val &v) {
    if (o->undef) o->undef[off] = 0;
    if (v.e && !isC(v.e)) { if (!o->sym) o->sym = (Expr **)calloc(o->size, sizeof(Expr *)); o->sym[off] = v.e; }
    else { if (o->sym) o->sym[off] = nullptr; o->data[off] = v.e ? v.e->c : v.c; }
  }
  void wrByte(State &S, uint64_t a, const Val &v) { Obj *o = access(S, a, 1, true); wrByteO(o, offOf(a), v); }
  Val rdMem(State &S, uint64_t a, unsigned bits) {
    unsigned n = (bits + 7) / 8;
    Obj *o = access(S, a, n, false); uint64_t off = offOf(a);
    bool plain = true;
    if (o->undef) for (unsigned i = 0; i < n; i++) if (o->undef[off + i]) plain = false;
    if (plain && o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) plain = false;
    if (plain) { uint64_t v = 0; memcpy(&v, o->data + off, n); return Val(v & mask(bits)); }
    Expr *r = nullptr;
    for (unsigned i = 0; i < n; i++) { Val b = rdByteO(S, o, off + i); o = find(S, a); Expr *e = ex(b, 8); r = r ? mkConcat(e, r) : e; }
    if (bits < n * 8) r = mkExtract(r, 0, bits);
    return vl(r);
  }
  void wrMem(State &S, uint64_t a, unsigned bits, const Val &v) {
    unsigned n = (bits + 7) / 8;
    Obj *o = access(S, a, n, true); uint64_t off = offOf(a);
    if (!v.e) {
      uint64_t c = v.c & mask(bits); memcpy(o->data + off, &c, n);
      if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
      if (o->undef) for (unsigned i = 0; i < n; i++) o->undef[off + i] = 0;
      return;
    }
    Expr *e = v.e; if (bits < n * 8) e = mkZext(e, n * 8);
    for (unsigned i = 0; i < n; i++) wrByteO(o, off + i, vl(mkExtract(e, i * 8, 8)));
  }
  // load through a symbolic address
  Val rdSym(State &S, Expr *a, unsigned bits) {
    unsigned n = (bits + 7) / 8;
    uint64_t cur = evalE(a, S.pc.model.data(), ++gEpoch);
    Obj *o = find(S, cur); if (!o) { conc(S, Val(0, a)); error(S, "memory", badptr(cur)); }
    uint64_t base = addrOf(o->id, 0);
    Expr *off = mkAdd(a, mkC(0 - base, 64));
    Expr *inb = o->size >= n ? mkBin(E_ULE, off, mkC(o->size - n, 64)) : mkC(0, 1);
    if (!decide(S, inb)) { // every value on this path is outside this object (or a different one)
      uint64_t c = conc(S, Val(0, a)); return rdMem(S, c, bits);
    }
    if ((n == 2 || n == 4) && bits == n * 8 && o->size <= 4096 && o->size % n == 0) {
      unsigned lg = n == 2 ? 1 : 2; bool undef = false; for (uint32_t i = 0; i < o->size; i++) if (o->undef && o->undef[i]) undef = true;
      Expr *al = mkEq(mkExtract(off, 0, lg), mkC(0, lg));
      if (!undef && decide(S, al)) { Expr *r = selectElem(S, o, base, n, mkBin(E_LSHR, off, mkC(lg, 64))); if (r) return vl(r); }
    }
    if (n != 1 || o->size > 4096) { uint64_t c = conc(S, Val(0, a)); return rdMem(S, c, bits); }
    for (uint32_t i = 0; i < o->size; i++) if (o->undef && o->undef[i]) { uint64_t c = conc(S, Val(0, a)); return rdMem(S, c, bits); }
    return vl(selectByte(o, 0, o->size, off));
  }
  // element idx of a table of n-byte elements; null when the table has too many different values
  Expr *selectElem(State &S, Obj *o, uint64_t base, unsigned n, Expr *idx) {
    unsigned w = n * 8; uint64_t M = mask(w); std::vector<Val> v; for (uint32_t i = 0; i < o->size; i += n) v.push_back(rdMem(S, base + i, w));
    struct Seg { uint32_t s, e; int kind; }; std::vector<Seg> seg;
    for (uint32_t i = 0; i < v.size();) {
      if (v[i].e) { seg.push_back({i, i + 1, 2}); i++; continue; }
      uint32_t j = i + 1, k = i + 1;
      while (j < v.size() && !v[j].e && ((v[j].c - j) & M) == ((v[i].c - i) & M)) j++;
      while (k < v.size() && !v[k].e && v[k].c == v[i].c) k++;
      if (j > i + 1 && j >= k) { seg.push_back({i, j, 1}); i = j; } else { seg.push_back({i, k, 0}); i = k; }
    }
    if (seg.size() > 300) return nullptr;
    Expr *low = mkExtract(idx, 0, w), *r = nullptr;
    for (int q = (int)seg.size() - 1; q >= 0; q--) {
      auto &g = seg[q]; Expr *x = g.kind == 2 ? v[g.s].e : g.kind == 1 ? mkAdd(low, mkC((v[g.s].c - g.s) & M, w)) : mkC(v[g.s].c & M, w);
      r = r ? mkIte(mkBin(E_ULT, idx, mkC(g.e, 64)), x, r) : x;
    }
    return r;
  }
  // expression for o[off], off in [lo,hi): affine segments
  Expr *selectByte(Obj *o, uint32_t lo, uint32_t hi, Expr *off) {
    struct Seg { uint32_t s, e; int kind; };
    std::vector<Seg> seg;
    Expr *lowoff = mkExtract(off, 0, 8);
    for (uint32_t i = lo; i < hi;) {
      if (o->sym && o->sym[i]) { seg.push_back({i, i + 1, 2}); i++; continue; }
      uint32_t j = i + 1, k = i + 1;
      while (j < hi && !(o->sym && o->sym[j]) && (uint8_t)(o->data[j] - j) == (uint8_t)(o->data[i] - i)) j++;
      while (k < hi && !(o->sym && o->sym[k]) && o->data[k] == o->data[i]) k++;
      if (j > i + 1 && j >= k) { seg.push_back({i, j, 1}); i = j; } else { seg.push_back({i, k, 0}); i = k; }
    }
    Expr *r = nullptr;
    for (int s = (int)seg.size() - 1; s >= 0; s--) {
      auto &g = seg[s];
      Expr *v = g.kind == 2 ? o->sym[g.s] : g.kind == 1 ? mkAdd(lowoff, mkC((uint8_t)(o->data[g.s] - g.s), 8)) : mkC(o->data[g.s], 8);
      r = r ? mkIte(mkBin(E_ULT, off, mkC(g.e, off->w)), v, r) : v;
    }
    return r;
  }
  uint64_t heapAlloc(State &S, uint64_t size, AllocKind k) {
    if (size > 15000000) inc(S, "allocation of " + std::to_string(size) + " bytes");
    uint32_t i;
    if (!S.hfree.empty()) { i = S.hfree.back(); S.hfree.pop_back(); } else { S.hgen.push_back(0); i = S.hgen.size() - 1; if (i >= 65536) inc(S, "too many heap objects"); }
    uint64_t id = ((uint64_t)K_HEAP << 36) | ((uint64_t)(S.hgen[i] & 0xfffff) << 16) | i;
    Obj *o = new Obj(id, size); o->ak = k; o->undef = (uint8_t *)malloc(size ? size : 1); memset(o->undef, 1, size); o->lib = S.marking; S.h.set(i, o); S.liveHeap++;
    return addrOf(id);
  }
  void heapFree(State &S, uint64_t a, AllocKind k) {
    if (!a) return;
    Obj *o = find(S, a);
    if (!o) { unsigned kk = (a >> 60) & 15; error(S, "memory", kk == K_HEAP ? "double free or free of freed memory" : "free of invalid pointer"); }
    if ((o->id >> 36) != K_HEAP || offOf(a) != 0) error(S, "memory", "free of a pointer that is not the start of a heap block");
    if (o->ak != k) error(S, "memory", std::string("allocation/deallocation mismatch (") + (o->ak == A_NEW ? "new" : o->ak == A_NEWARR ? "new[]" : "malloc") + " vs " + (k == A_NEW ? "delete" : k == A_NEWARR ? "delete[]" : "free") + ")");
    uint32_t i = o->id & 0xffff; S.hgen[i]++; S.h.set(i, nullptr); S.hfree.push_back(i); S.liveHeap--;
  }
  uint64_t stackAlloc(State &S, Frame &F, uint64_t size) {
    uint32_t i = S.stop++; if (i >= 65536) inc(S, "too many stack objects");
    if (S.sgen.size() <= i) S.sgen.resize(i + 1);
    uint64_t id = ((uint64_t)K_STACK << 36) | ((uint64_t)(S.sgen[i] & 0xfffff) << 16) | i;
    Obj *o = new Obj(id, size); o->undef = (uint8_t *)malloc(size ? size : 1); memset(o->undef, 1, size); S.s.set(i, o); F.allocas.push_back(i);
    return addrOf(id);
  }
  void popFrame(State &S) {
    Frame *F = S.fr.back();
    for (auto it = F->allocas.rbegin(); it != F->allocas.rend(); ++it) { S.sgen[*it]++; S.s.set(*it, nullptr); S.stop--; }
    S.fr.pop_back(); if (--F->rc == 0) delete F;
  }

  // ---------- execution ----------
  Val get(Frame &F, const DOp &o, unsigned k = 0) { if (o.r >= 0) return F.r[o.r + k]; if (o.r == -1) return Val(o.c); return Val(pool[o.c][k]); }
  void jump(State &S, int to) {
    Frame &F = S.top(); int from = F.bb; F.prev = from; F.bb = to; F.ip = 0; F.at = -1;
    auto &B = F.f->bb[to];
    if (B.phis.empty()) return;
    for (auto &p : B.phis) if (p.first == from) {
      static thread_local std::vector<Val> tmp; tmp.clear();
      for (auto &m : p.second) for (unsigned k = 0; k < m.n; k++) tmp.push_back(get(F, m.src, k));
      size_t t = 0; for (auto &m : p.second) for (unsigned k = 0; k < m.n; k++) F.r[m.dst + k] = tmp[t++];
      return;
    }
    assert(0 && "phi edge");
  }
  void setr(State &S, const DInst &d, const Val &v) { if (d.dst >= 0) S.top().r[d.dst] = v; }
  void ret(State &S, const DInst &d, const Val &v) { setr(S, d, v); advance(S, d); }
  void advance(State &S, const DInst &d) { if (d.ci && d.ci->invoke) jump(S, d.ci->nb); else S.top().ip++; }
  void push(State &S, DFunc *D, const std::vector<Val> &args) {
    if (S.fr.size() >= maxDepth) error(S, "stack", "unbounded recursion (call depth " + std::to_string(maxDepth) + ")");
    if (!D->unsupported.empty()) inc(S, "unsupported in " + D->F->getName().str() + ": " + D->unsupported);
    Frame *F = new Frame(); F->f = D; F->r.resize(D->nregs);
    D->hits++;
    for (size_t i = 0; i < D->nargslots && i < args.size(); i++) F->r[i] = args[i];
    S.fr.push_back(F);
  }
  // Access points: before an access to memory the threads share and write, w_access() of the harness runs.
  const Function *accessFn = nullptr;
  bool touch(State &S, uint64_t a, bool wr) {
    Obj *o = find(S, a); if (!o || !o->lib) return false;
    if (wr && !o->hot) { o = findw(S, a); o->hot = true; }
    Frame &F = S.top();
    if (!o->hot || F.at == F.ip) return false;
    F.at = F.ip; push(S, decode(accessFn), {Val(wr)}); S.top().reexec = true; return true;
  }
#include "natives.inc"
#include "step.inc"

  void startStage(State &S) {
    const Function *F = stages[S.stage];
    push(S, decode(F), {});
  }
  void endPath(State &S) {
    completed++; paths++;
    if (nsamples) {
      // reservoir sampling of completed paths
      size_t slot = ~0ULL;
      if (samples.size() < nsamples) { slot = samples.size(); samples.push_back(""); } else { uint64_t r = rng() % completed; if (r < nsamples) slot = r; }
      if (slot != ~0ULL) {
        std::string t = inputsText(S, S.pc.model) + "=\n"; std::vector<TraceNode *> tn; for (auto p = S.trace.get(); p; p = p->prev.get()) tn.push_back(p);
        ++gEpoch;
        for (auto it = tn.rbegin(); it != tn.rend(); ++it) { std::vector<uint8_t> b; for (auto &v : (*it)->bytes) b.push_back(v.e ? evalE(v.e, S.pc.model.data(), gEpoch) : v.c); t += "T " + (*it)->label + " " + (b.empty() ? "-" : hexOf(b)) + "\n"; }
        samples[slot] = t;
      }
    }
  }
  void runState(State &S) {
    try {
      for (;;) {
        if (S.fr.empty()) {
          if (S.stage + 1 < (int)stages.size()) { S.stage++; startStage(S); continue; }
          endPath(S); return;
        }
        step(S);
        steps++;
        if (++S.steps > maxSteps) error(S, "steps", "path exceeds " + std::to_string(maxSteps) + " instructions (non-termination?)");
        if ((S.steps & 0xfff) == 0 && now() - t0 > maxTime) { incomplete++; incReasons["time limit"]++; return; }
      }
    } catch (Kill &) { killed++; paths++; }
    catch (Stop &) {}
    catch (std::runtime_error &e) { incomplete++; incReasons[e.what()]++; paths++; }
  }
  void runAll() {
    t0 = now(); nstates = 1;
    startStage(*init); work.push_back(init);
    while (!work.empty()) {
      if (now() - t0 > maxTime || paths >= maxPaths) { incomplete += work.size(); incReasons["time limit"] += work.size(); break; }
      State *S = work.back(); work.pop_back();
      runState(*S); delete S;
    }
  }
};

static std::string js(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

static int realmain(int argc, char **argv) {
  Engine E; std::string bc, out = "-", entry = "sym_main"; double tl = 1e9;
  uint64_t seed = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-o") out = nx(); else if (a == "-t") tl = std::stod(nx()); else if (a == "-p") { auto s = nx(); auto e = s.find('='); E.params[s.substr(0, e)] = s.substr(e + 1); }
    else if (a == "-entry") entry = nx(); else if (a == "-repo") E.repoPrefix = nx(); else if (a == "-samples") E.nsamples = std::stoi(nx()); else if (a == "-seed") seed = std::stoull(nx());
    else if (a == "-maxsteps") E.maxSteps = std::stoull(nx()); else if (a == "-v") E.verbose = true; else if (a == "-maxpaths") E.maxPaths = std::stoull(nx()); else if (a == "-dump") E.sol.dumpDir = nx(); else if (a == "-maxviol") E.maxViol = std::stoi(nx()); else if (a == "-maxdepth") E.maxDepth = std::stoi(nx());
    else bc = a;
  }
  E.rng.seed(seed); E.lines.push_back({"", 0}); E.covered.push_back(0);
  E.maxTime = tl; E.load(bc); E.initNatives();
  if (auto *gc = E.M->getNamedGlobal("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, const Function *>> v;
    for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) E.stages.push_back(p.second);
  }
  const Function *ef = E.M->getFunction(entry); if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  E.stages.push_back(ef);
  E.runAll();
  double wall = now() - E.t0;
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  std::ostringstream o;
  auto &st = E.sol.st;
  o << "{\"paths\":" << E.paths << ",\"completed\":" << E.completed << ",\"states\":" << E.nstates << ",\"forks\":" << E.forks << ",\"branches\":" << E.branches << ",\"steps\":" << E.steps << ",\"killed\":" << E.killed << ",\"assumed_out\":" << E.assumedOut
    << ",\"incomplete\":" << E.incomplete << ",\"wall\":" << wall << ",\"rss_mb\":" << ru.ru_maxrss / 1024 << ",\"asserts_symbolic\":" << E.assertsSymbolic << ",\"asserts_concrete\":" << E.assertsConcrete
    << ",\"solver\":{\"queries\":" << st.queries << ",\"z3calls\":" << st.z3calls << ",\"z3sat\":" << st.z3sat << ",\"z3unsat\":" << st.z3unsat << ",\"z3unknown\":" << st.z3unknown << ",\"domain\":" << st.domdecided << ",\"model\":" << st.modelhits << ",\"cache\":" << st.cachehits << ",\"assert_queries\":" << st.assertq << ",\"z3time\":" << st.z3time << "}";
  auto mp = [&](const char *n, std::map<std::string, uint64_t> &m) { o << ",\"" << n << "\":{"; bool f = true; for (auto &x : m) { if (!f) o << ","; f = false; o << js(x.first) << ":" << x.second; } o << "}"; };
  mp("incomplete_reasons", E.incReasons); mp("asserts", E.assertCount); mp("reach", E.reachCount);
  o << ",\"functions\":["; { bool f = true; std::set<std::string> s; for (auto &x : E.dfs) if (x.second->inRepo && x.second->hits) s.insert(demangle(x.first->getName().str())); for (auto &n : s) { if (!f) o << ","; f = false; o << js(n); } } o << "]";
  unsigned cl = 0, tl2 = 0; std::set<std::string> cov; for (size_t i = 1; i < E.lines.size(); i++) { tl2++; if (E.covered[i]) { cl++; cov.insert(E.lines[i].first); } }
  o << ",\"lines_covered\":" << cl << ",\"lines_decoded\":" << tl2;
  if (getenv("SYMX_COV")) { o << ",\"cov\":["; bool f = true; for (auto &n : cov) { if (!f) o << ","; f = false; o << js(n); } o << "]"; }
  o << ",\"samples\":["; for (size_t i = 0; i < E.samples.size(); i++) o << (i ? "," : "") << js(E.samples[i]); o << "]";
  o << ",\"violations\":["; for (size_t i = 0; i < E.viols.size(); i++) { auto &v = E.viols[i]; o << (i ? "," : "") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"stack\":" << js(v.stack) << ",\"inputs\":" << js(v.inputs[0].second) << "}"; } o << "]}\n";
  if (out == "-") fputs(o.str().c_str(), stdout); else { std::ofstream f(out); f << o.str(); }
  fflush(stdout);
  _exit(0);
}
struct Args { int c; char **v; };
int main(int argc, char **argv) {
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 2048ULL << 20);
  Args g{argc, argv}; pthread_t t; pthread_create(&t, &a, [](void *p) -> void * { Args *g = (Args *)p; exit(realmain(g->c, g->v)); }, &g);
  pthread_join(t, nullptr);
  return 0;
}
