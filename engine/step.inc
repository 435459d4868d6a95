// Instruction semantics (member functions of Engine).
  Val binop(State &S, unsigned opc, Val a, Val b, unsigned w) {
    static const std::map<unsigned, Op> ops = {{Instruction::Add, E_ADD}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
    if (opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem) {
      Expr *z = mkEq(ex(b, w), mkC(0, w));
      if (decide(S, z)) error(S, "arith", "division by zero");
    }
    if (!a.e && !b.e) {
      if (opc == Instruction::Sub) return Val((a.c - b.c) & mask(w));
      return Val(foldBin(ops.at(opc), a.c, b.c, w));
    }
    Expr *x = ex(a, w), *y = ex(b, w);
    if (opc == Instruction::Sub) return vl(mkSub(x, y));
    return vl(mkBin(ops.at(opc), x, y));
  }
  static double asD(uint64_t v, unsigned w) { if (w == 32) { float f; uint32_t u = v; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
  static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t v; memcpy(&v, &d, 8); return v; }
  Val icmp(unsigned pred, Val a, Val b, unsigned w) {
    if (!a.e && !b.e) {
      uint64_t x = a.c & mask(w), y = b.c & mask(w); int64_t sxx = sx(x, w), sy = sx(y, w);
      switch (pred) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y; case CmpInst::ICMP_SLT: return sxx < sy; case CmpInst::ICMP_SLE: return sxx <= sy; case CmpInst::ICMP_SGT: return sxx > sy; default: return sxx >= sy; }
    }
    Expr *x = ex(a, w), *y = ex(b, w), *r;
    switch (pred) { case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break; case CmpInst::ICMP_ULT: r = mkBin(E_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(E_ULE, x, y); break; case CmpInst::ICMP_UGT: r = mkBin(E_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(E_ULE, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(E_SLT, x, y); break; case CmpInst::ICMP_SLE: r = mkBin(E_SLE, x, y); break; case CmpInst::ICMP_SGT: r = mkBin(E_SLT, y, x); break; default: r = mkBin(E_SLE, y, x); }
    return vl(r);
  }
  bool cond(State &S, const Val &v) { if (!v.e) return v.c & 1; return decide(S, v.e->w == 1 ? v.e : mkExtract(v.e, 0, 1)); }

  void step(State &S) {
    Frame &F = S.top();
    const DInst &d = F.f->bb[F.bb].in[F.ip];
    if (d.line) covered[d.line] = 1;
    switch (d.op) {
      case Instruction::Alloca: {
        uint64_t n = conc(S, get(F, d.a), d.w2) * (*d.x)[0];
        Frame &G = S.top(); uint64_t a = stackAlloc(S, G, n); G.r[d.dst] = Val(a); G.ip++; return; }
      case Instruction::Load: {
        Val a = get(F, d.a);
        if (a.e) {
          if (d.dn == 1) { Val v = rdSym(S, a.e, (*d.x)[1]); Frame &G = S.top(); G.r[d.dst] = v; G.ip++; return; }
          a = Val(conc(S, a));
        }
        if (S.watch && touch(S, a.c, false)) return;
        if (d.dn == 1) { Val v = rdMem(S, a.c + (*d.x)[0], (*d.x)[1]); Frame &G = S.top(); G.r[d.dst] = v; G.ip++; return; }
        for (unsigned k = 0; k < d.dn; k++) { Val v = rdMem(S, a.c + (*d.x)[2 * k], (*d.x)[2 * k + 1]); S.top().r[d.dst + k] = v; }
        S.top().ip++; return; }
      case Instruction::Store: {
        Val a = get(F, d.a); uint64_t ad = conc(S, a); if (S.watch && touch(S, ad, true)) return;
        for (unsigned k = 0; k < d.dn; k++) wrMem(S, ad + (*d.x)[2 * k], (*d.x)[2 * k + 1], get(S.top(), d.b, k));
        S.top().ip++; return; }
      case Instruction::GetElementPtr: {
        Val p = get(F, d.a); uint64_t co = d.b.c; bool symb = p.e; uint64_t acc = p.c + co;
        for (size_t i = 0; i < d.ops->size(); i++) { Val v = get(F, (*d.ops)[i]); if (v.e) { symb = true; break; } acc += (uint64_t)sx(v.c, (*d.x)[2 * i + 1]) * (*d.x)[2 * i]; }
        if (!symb) { F.r[d.dst] = Val(acc); F.ip++; return; }
        Expr *e = mkAdd(ex(p, 64), mkC(co, 64));
        for (size_t i = 0; i < d.ops->size(); i++) { Val v = get(F, (*d.ops)[i]); unsigned w = (*d.x)[2 * i + 1]; Expr *x = mkSext(ex(v, w), 64); e = mkAdd(e, mkBin(E_MUL, x, mkC((*d.x)[2 * i], 64))); }
        F.r[d.dst] = vl(e); F.ip++; return; }
      case Instruction::ICmp: F.r[d.dst] = icmp(d.pred, get(F, d.a), get(F, d.b), d.w2); F.ip++; return;
      case Instruction::Br:
        if (!d.w) { jump(S, (*d.x)[0]); return; }
        { bool c = cond(S, get(F, d.a)); jump(S, (*d.x)[c ? 0 : 1]); return; }
      case Instruction::Switch: {
        Val v = get(F, d.a);
        if (!v.e) { for (size_t i = 1; i + 1 < d.x->size(); i += 2) if ((*d.x)[i] == v.c) { jump(S, (*d.x)[i + 1]); return; } jump(S, (*d.x)[0]); return; }
        for (size_t i = 1; i + 1 < d.x->size(); i += 2) if (decide(S, mkEq(v.e, mkC((*d.x)[i], d.w2)))) { jump(S, (*d.x)[i + 1]); return; }
        jump(S, (*d.x)[0]); return; }
      case Instruction::Select: {
        Val c = get(F, d.d);
        if (!c.e) { for (unsigned k = 0; k < d.dn; k++) { Val v = get(F, (c.c & 1) ? d.a : d.b, k); F.r[d.dst + k] = v; } F.ip++; return; }
        Expr *ce = c.e->w == 1 ? c.e : mkExtract(c.e, 0, 1);
        for (unsigned k = 0; k < d.dn; k++) { unsigned w = (*d.x)[k]; Val v = vl(mkIte(ce, ex(get(F, d.a, k), w), ex(get(F, d.b, k), w))); F.r[d.dst + k] = v; }
        F.ip++; return; }
      case Instruction::ExtractValue: for (unsigned k = 0; k < d.dn; k++) { Val v = get(F, d.a, d.b.c + k); F.r[d.dst + k] = v; } F.ip++; return;
      case Instruction::InsertValue: {
        std::vector<Val> t; for (unsigned k = 0; k < d.dn; k++) t.push_back(get(F, d.a, k));
        for (unsigned k = 0; k < d.w2; k++) t[d.b.c + k] = get(F, d.d, k);
        for (unsigned k = 0; k < d.dn; k++) F.r[d.dst + k] = t[k];
        F.ip++; return; }
      case Instruction::Ret: {
        std::vector<Val> v; if (d.w) for (unsigned k = 0; k < d.dn; k++) v.push_back(get(F, d.a, k));
        bool re = F.reexec;
        popFrame(S);
        if (S.fr.empty()) return;
        if (re) return;
        Frame &G = S.top(); const DInst &c = G.f->bb[G.bb].in[G.ip];
        if (c.dst >= 0) for (unsigned k = 0; k < v.size() && k < c.dn; k++) G.r[c.dst + k] = v[k];
        advance(S, c); return; }
      case Instruction::Call: case Instruction::Invoke: call(S, d); return;
      case Instruction::LandingPad: F.r[d.dst] = Val(S.curExn); if (d.dn > 1) F.r[d.dst + 1] = Val(S.curSel); F.ip++; return;
      case Instruction::Resume: { uint64_t o = conc(S, get(F, d.a)); popFrame(S); unwind(S, o); return; }
      case Instruction::Trunc: { Val v = get(F, d.a); F.r[d.dst] = v.e ? vl(mkExtract(v.e, 0, d.w)) : Val(v.c & mask(d.w)); F.ip++; return; }
      case Instruction::ZExt: { Val v = get(F, d.a); F.r[d.dst] = v.e ? vl(mkZext(v.e, d.w)) : Val(v.c & mask(d.w2)); F.ip++; return; }
      case Instruction::SExt: { Val v = get(F, d.a); F.r[d.dst] = v.e ? vl(mkSext(v.e, d.w)) : Val((uint64_t)sx(v.c, d.w2) & mask(d.w)); F.ip++; return; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: {
        if (d.dn != 1) { for (unsigned k = 0; k < d.dn; k++) F.r[d.dst + k] = get(F, d.a, k); F.ip++; return; }
        Val v = get(F, d.a); if (d.w < d.w2) v = v.e ? vl(mkExtract(v.e, 0, d.w)) : Val(v.c & mask(d.w)); else if (d.w > d.w2 && v.e) v = vl(mkZext(v.e, d.w));
        F.r[d.dst] = v; F.ip++; return; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        double a = asD(conc(S, get(F, d.a), d.w), d.w), b = asD(conc(S, get(S.top(), d.b), d.w), d.w);
        double r = d.op == Instruction::FAdd ? a + b : d.op == Instruction::FSub ? a - b : d.op == Instruction::FMul ? a * b : d.op == Instruction::FDiv ? a / b : fmod(a, b);
        Frame &G = S.top(); G.r[d.dst] = Val(fromD(r, d.w)); G.ip++; return; }
      case Instruction::FNeg: { double a = asD(conc(S, get(F, d.a), d.w), d.w); Frame &G = S.top(); G.r[d.dst] = Val(fromD(-a, d.w)); G.ip++; return; }
      case Instruction::FCmp: {
        double a = asD(conc(S, get(F, d.a), d.w2), d.w2), b = asD(conc(S, get(S.top(), d.b), d.w2), d.w2); bool un = a != a || b != b, r = false;
        switch (d.pred) { case CmpInst::FCMP_OEQ: r = !un && a == b; break; case CmpInst::FCMP_OGT: r = !un && a > b; break; case CmpInst::FCMP_OGE: r = !un && a >= b; break; case CmpInst::FCMP_OLT: r = !un && a < b; break; case CmpInst::FCMP_OLE: r = !un && a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UNE: r = un || a != b; break; case CmpInst::FCMP_TRUE: r = true; break; }
        Frame &G = S.top(); G.r[d.dst] = Val(r); G.ip++; return; }
      case Instruction::FPToUI: case Instruction::FPToSI: { double a = asD(conc(S, get(F, d.a), d.w2), d.w2); Frame &G = S.top(); G.r[d.dst] = Val((d.op == Instruction::FPToSI ? (uint64_t)(int64_t)a : (uint64_t)a) & mask(d.w)); G.ip++; return; }
      case Instruction::UIToFP: { uint64_t a = conc(S, get(F, d.a), d.w2); Frame &G = S.top(); G.r[d.dst] = Val(fromD((double)(a & mask(d.w2)), d.w)); G.ip++; return; }
      case Instruction::SIToFP: { uint64_t a = conc(S, get(F, d.a), d.w2); Frame &G = S.top(); G.r[d.dst] = Val(fromD((double)sx(a, d.w2), d.w)); G.ip++; return; }
      case Instruction::FPExt: case Instruction::FPTrunc: { double a = asD(conc(S, get(F, d.a), d.w2), d.w2); Frame &G = S.top(); G.r[d.dst] = Val(fromD(a, d.w)); G.ip++; return; }
      case Instruction::AtomicRMW: {
        uint64_t a = conc(S, get(F, d.a)); if (S.watch && touch(S, a, true)) return; Val o = rdMem(S, a, d.w); Frame &G = S.top(); Val v = get(G, d.b), n;
        switch (d.pred) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(S, Instruction::Add, o, v, d.w); break; case AtomicRMWInst::Sub: n = binop(S, Instruction::Sub, o, v, d.w); break; case AtomicRMWInst::And: n = binop(S, Instruction::And, o, v, d.w); break; case AtomicRMWInst::Or: n = binop(S, Instruction::Or, o, v, d.w); break; default: inc(S, "atomicrmw"); }
        wrMem(S, a, d.w, n); Frame &H = S.top(); H.r[d.dst] = o; H.ip++; return; }
      case Instruction::AtomicCmpXchg: {
        uint64_t a = conc(S, get(F, d.a)); if (S.watch && touch(S, a, true)) return; Val o = rdMem(S, a, d.w2); bool eq = cond(S, icmp(CmpInst::ICMP_EQ, o, get(S.top(), d.b), d.w2));
        if (eq) wrMem(S, a, d.w2, get(S.top(), d.d)); Frame &G = S.top(); G.r[d.dst] = o; G.r[d.dst + 1] = Val(eq); G.ip++; return; }
      case Instruction::Fence: F.ip++; return;
      case Instruction::Unreachable: error(S, "unreachable", "undefined behaviour: unreachable code reached");
      case 0: { std::string s; raw_string_ostream os(s); d.I->print(os); inc(S, "unsupported instruction:" + s.substr(0, 80)); }
      default:
        if (Instruction::isBinaryOp(d.op)) { Val v = binop(S, d.op, get(F, d.a), get(F, d.b), d.w); Frame &G = S.top(); G.r[d.dst] = v; G.ip++; return; }
        inc(S, std::string("opcode ") + Instruction::getOpcodeName(d.op));
    }
  }

  void call(State &S, const DInst &d) {
    CallInfo *ci = d.ci;
    const Function *T = ci->direct; DFunc *df = ci->df; int nat = ci->nat;
    if (nat == -3) { if (d.dst >= 0) setr(S, d, Val(0)); advance(S, d); return; }   // empty inline asm
    if (!T) {
      uint64_t a = conc(S, get(S.top(), ci->callee));
      auto it = faddr.find(a);
      if (it == faddr.end()) error(S, "memory", a < (1 << 24) ? "call through null function pointer" : "call through invalid function pointer");
      T = it->second;
    }
    if (!ci->direct || !ci->resolved) {
      df = nullptr; nat = -1;
      const Function *D = T;
      if (D->isDeclaration()) { if (auto *G = M->getFunction("env_" + D->getName().str())) if (!G->isDeclaration()) D = G; }
      if (auto it = natIdx.find(D->getName().str()); it != natIdx.end() && (D->isDeclaration() || natOverride.count(D->getName().str()))) nat = it->second;
      else if (!D->isDeclaration()) df = decode(D);
      else { nat = findIntrinsic(D->getName().str()); if (nat < 0) { // unmodelled
          inc(S, "unmodelled external function " + D->getName().str()); } }
      if (ci->direct) { ci->df = df; ci->nat = nat; ci->resolved = true; }
    }
    std::vector<Val> args; args.reserve(ci->totslots);
    { Frame &F = S.top(); for (size_t i = 0; i < ci->args.size(); i++) for (unsigned k = 0; k < ci->an[i]; k++) args.push_back(get(F, ci->args[i], k)); }
    if (df) {
      std::vector<Val> va;
      if (ci->var && !df->F->isVarArg())      // an int passed through ... to a model with a fixed (possibly wider) parameter
        for (size_t i = 0; i < args.size() && i < df->F->arg_size(); i++) { auto *t = df->F->getArg(i)->getType(); unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64; if (args[i].e && args[i].e->w < w) args[i].e = mkZext(args[i].e, w); else if (args[i].e && args[i].e->w > w) args[i].e = mkExtract(args[i].e, 0, w); }
      else if (ci->var) { size_t fx = 0; for (unsigned i = 0; i < ci->fixed; i++) fx += ci->an[i]; for (size_t i = fx; i < args.size(); i++) va.push_back(args[i]); args.resize(fx); }
      bool anyByval = false; for (auto b : ci->byval) if (b) anyByval = true;
      push(S, df, args);
      S.top().va = va;
      if (anyByval) { size_t sl = 0; for (size_t i = 0; i < ci->byval.size(); i++) { if (ci->byval[i]) { uint64_t src = conc(S, args[sl]); uint64_t n = stackAlloc(S, S.top(), ci->byval[i]); memCopy(S, n, src, ci->byval[i]); S.top().r[sl] = Val(n); } sl += ci->an[i]; } }
      return;
    }
    if (S.watch) {       // library functions the executor handles itself
      bool lib = false; for (auto &v : args) if (!v.e && (v.c >> 60)) if (Obj *o = find(S, v.c)) lib |= o->lib;
      std::string n = lib ? T->getName().str() : "sym_";
      if (n.compare(0, 4, "sym_")) {
        bool w0 = n.find("cpy") != n.npos || n.find("cat") != n.npos || n.find("set") != n.npos || n.find("move") != n.npos || n.find("printf") != n.npos;
        for (size_t i = 0; i < args.size(); i++) if (!args[i].e && (args[i].c >> 60) && touch(S, args[i].c, i == 0 && w0)) return;
      }
    }
    Val out; 
    if (nats[nat](S, d, args, out)) { if (d.dst >= 0) { S.top().r[d.dst] = out; } advance(S, d); }
  }

  // ---------- exceptions ----------
  const GlobalVariable *tiVar(uint64_t a) {
    static std::unordered_map<uint64_t, const GlobalVariable *> m;
    if (m.empty()) for (auto &G : M->globals()) if (G.getName().starts_with("_ZTI")) m[gaddr[&G]] = &G;
    auto it = m.find(a); return it == m.end() ? nullptr : it->second;
  }
  bool tiMatch(uint64_t t, uint64_t c) {
    if (t == c || c == 0) return true;
    auto *G = tiVar(t); if (!G || !G->hasInitializer()) return false;
    auto *cs = dyn_cast<ConstantStruct>(G->getInitializer()); if (!cs) return false;
    for (unsigned i = 2; i < cs->getNumOperands(); i++) if (auto *b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (tiMatch(gaddr[b], c)) return true;
    return false;
  }
  int typeId(uint64_t a) { auto it = typeIds.find(a); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; return typeIds[a] = n; }
  void unwind(State &S, uint64_t obj) {
    Exn &E = S.exns[obj];
    for (;;) {
      if (S.fr.empty()) { report(S, "exception", "exception escapes: " + (tiVar(E.tinfo) ? demangle(tiVar(E.tinfo)->getName().str()) : "?"), S.pc.model); throw Kill(); }
      Frame &F = S.top(); const DInst &d = F.f->bb[F.bb].in[F.ip];
      if (F.reexec) error(S, "exception", "exception leaves a destructor during exception handling");
      if ((d.op == Instruction::Invoke || d.op == Instruction::Call) && d.ci && d.ci->invoke) {
        auto &B = F.f->bb[d.ci->ub]; const DInst *lp = &B.in[0];
        int sel = -1;
        for (size_t i = 0; i + 1 < lp->x->size(); i += 2) if ((*lp->x)[i] == 0 && tiMatch(E.tinfo, (*lp->x)[i + 1])) { sel = typeId((*lp->x)[i + 1]); break; }
        else if ((*lp->x)[i] == 1) { sel = 0; break; }
        if (sel < 0 && lp->w2) sel = 0;
        if (sel >= 0) { S.curExn = obj; S.curSel = sel; jump(S, d.ci->ub); return; }
      }
      if (F.f->F->doesNotThrow() && 0) error(S, "exception", "exception leaves a noexcept function");
      popFrame(S);
    }
  }
