// Modelled external functions (member functions of Engine): the C library, the C++
// ABI, LLVM intrinsics and the sym_* interface of the harnesses.
  typedef std::vector<Val> Args_;
  typedef std::function<bool(State &, const DInst &, Args_ &, Val &)> Nat;
  std::vector<Nat> nats; std::unordered_map<std::string, int> natIdx; std::set<std::string> natOverride;
  std::vector<std::pair<std::string, int>> intr;   // prefix -> index
  void reg(const char *n, Nat f, bool ov = false) { nats.push_back(f); natIdx[n] = nats.size() - 1; if (ov) natOverride.insert(n); }
  void regI(const char *n, Nat f) { nats.push_back(f); intr.push_back({n, (int)nats.size() - 1}); }
  int findIntrinsic(const std::string &n) { int best = -1; size_t bl = 0; for (auto &p : intr) if (n.compare(0, p.first.size(), p.first) == 0 && p.first.size() > bl) { best = p.second; bl = p.first.size(); } return best; }

  std::string cstr(State &S, uint64_t a) { std::string r; for (;; a++) { Val v = rdByte(S, a); uint64_t c = conc(S, v, 8); if (!c) return r; r += (char)c; if (r.size() > 65536) inc(S, "string too long"); } }
  // length of a C string (forks on symbolic bytes)
  uint64_t strLen(State &S, uint64_t a, uint64_t max = ~0ULL) {
    uint64_t n = 0;
    for (; n < max; n++) { Val v = rdByte(S, a + n); if (!v.e) { if (!(v.c & 255)) break; } else if (decide(S, mkEq(v.e, mkC(0, 8)))) break; }
    return n;
  }
  std::vector<Val> rdBytes(State &S, uint64_t a, uint64_t n) {
    std::vector<Val> r; r.reserve(n); if (!n) return r; access(S, a, n, false);
    for (uint64_t i = 0; i < n; i++) r.push_back(rdByteO(S, find(S, a), offOf(a) + i));
    return r;
  }
  void wrBytes(State &S, uint64_t a, const std::vector<Val> &v) { if (v.empty()) return; Obj *o = access(S, a, v.size(), true); uint64_t off = offOf(a); for (size_t i = 0; i < v.size(); i++) wrByteO(o, off + i, v[i]); }
  void memCopy(State &S, uint64_t dst, uint64_t src, uint64_t n, bool overlapOk = true) {
    if (!n) return;
    Obj *so = access(S, src, n, false); uint64_t so_ = offOf(src);
    if (!overlapOk && (dst >> 24) == (src >> 24) && dst != src && dst < src + n && src < dst + n) error(S, "memory", "memcpy with overlapping regions");
    access(S, dst, n, true);
    // copy, keeping uninitialised bytes uninitialised
    std::vector<uint8_t> und(n, 0); std::vector<Val> v; v.reserve(n);
    so = find(S, src);
    for (uint64_t i = 0; i < n; i++) { if (so->undef && so->undef[so_ + i]) { und[i] = 1; v.push_back(Val(0)); } else if (so->sym && so->sym[so_ + i]) v.push_back(Val(0, so->sym[so_ + i])); else v.push_back(Val(so->data[so_ + i])); }
    Obj *o = findw(S, dst); uint64_t off = offOf(dst);
    for (uint64_t i = 0; i < n; i++) { if (und[i]) { if (!o->undef) o->undef = (uint8_t *)calloc(1, o->size); o->undef[off + i] = 1; if (o->sym) o->sym[off + i] = nullptr; } else wrByteO(o, off + i, v[i]); }
  }
  Expr *lower(Expr *e) { return mkIte(mkBin(E_AND, mkBin(E_ULE, mkC('A', 8), e), mkBin(E_ULE, e, mkC('Z', 8))), mkAdd(e, mkC(32, 8)), e); }
  // three-way comparison as an expression, no forks while within known bounds
  Val cmpBytes(State &S, uint64_t a, uint64_t b, uint64_t n, bool str, bool fold) {
    std::vector<std::pair<Expr *, Expr *>> pr; bool open = true;
    for (uint64_t i = 0; i < n; i++) {
      Obj *oa = find(S, a + i), *ob = find(S, b + i);
      bool ina = oa && offOf(a + i) >= 0 && (uint64_t)offOf(a + i) < oa->size, inb = ob && offOf(b + i) >= 0 && (uint64_t)offOf(b + i) < ob->size;
      if ((!ina || !inb)) {
        // decided before this point?
        bool all = true; for (auto &p : pr) { (void)p; }
        for (auto &p : pr) { if (!decide(S, mkEq(p.first, p.second))) { all = false; break; } if (str && decide(S, mkEq(p.first, mkC(0, 8)))) { all = false; break; } }
        if (!all) break;
        if (!ina) rdByte(S, a + i); rdByte(S, b + i);
      }
      Expr *x = ex(rdByteO(S, oa, offOf(a + i)), 8), *y = ex(rdByteO(S, find(S, b + i), offOf(b + i)), 8);
      if (fold) { x = lower(x); y = lower(y); }
      pr.push_back({x, y});
      if (isC(x) && isC(y) && x->c != y->c) { open = false; break; }
      if (str && (isC(x, 0) || isC(y, 0))) { break; }
    }
    (void)open;
    Expr *r = mkC(0, 32);
    for (int i = (int)pr.size() - 1; i >= 0; i--) {
      Expr *x = pr[i].first, *y = pr[i].second;
      Expr *rest = str ? mkIte(mkEq(x, mkC(0, 8)), mkC(0, 32), r) : r;
      r = mkIte(mkEq(x, y), rest, mkIte(mkBin(E_ULT, x, y), mkC(~0ULL, 32), mkC(1, 32)));
    }
    return vl(r);
  }
  // search for byte c in [p,p+n)
  Val findByte(State &S, uint64_t p, uint64_t n, Val c, bool rev = false) {
    if (!n) return Val(0);
    access(S, p, n, false);
    auto h = rdBytes(S, p, n); bool hs = false; for (auto &v : h) if (v.e) hs = true;
    if (!c.e) {
      if (!rev) { for (uint64_t i = 0; i < n; i++) { if (!h[i].e ? (h[i].c & 255) == (c.c & 255) : decide(S, mkEq(h[i].e, mkC(c.c & 255, 8)))) return Val(p + i); } }
      else for (uint64_t i = n; i-- > 0;) { if (!h[i].e ? (h[i].c & 255) == (c.c & 255) : decide(S, mkEq(h[i].e, mkC(c.c & 255, 8)))) return Val(p + i); }
      return Val(0);
    }
    Expr *ce = c.e->w == 8 ? c.e : mkExtract(c.e, 0, 8);
    if (hs || rev) { for (uint64_t k = 0; k < n; k++) { uint64_t i = rev ? n - 1 - k : k; if (decide(S, mkEq(ex(h[i], 8), ce))) return Val(p + i); } return Val(0); }
    Expr *r = mkC(0, 64); Expr *c64 = mkZext(ce, 64);
    for (int64_t i = (int64_t)n - 1; i >= 0;) {
      int64_t j = i; while (j > 0 && (h[j - 1].c & 255) + 1 == (h[j].c & 255)) j--;
      // ascending run [j,i]
      uint64_t lo = h[j].c & 255, hi = h[i].c & 255;
      Expr *in = mkBin(E_AND, mkBin(E_ULE, mkC(lo, 8), ce), mkBin(E_ULE, ce, mkC(hi, 8)));
      if (lo == hi) in = mkEq(ce, mkC(lo, 8));
      r = mkIte(in, lo == hi ? mkC(p + j, 64) : mkAdd(c64, mkC(p + j - lo, 64)), r);
      i = j - 1;
    }
    return vl(r);
  }
  // printf family
  std::vector<Val> format(State &S, uint64_t fmt, std::function<Val(unsigned)> arg) {
    std::vector<Val> out; std::string f = cstr(S, fmt);
    for (size_t i = 0; i < f.size(); i++) {
      if (f[i] != '%') { out.push_back(Val((uint8_t)f[i])); continue; }
      i++; if (f[i] == '%') { out.push_back(Val('%')); continue; }
      std::string flags; while (i < f.size() && strchr("-+ #0", f[i])) flags += f[i++];
      int width = -1, prec = -1;
      if (f[i] == '*') { width = (int)conc(S, arg(32), 32); i++; } else if (isdigit(f[i])) { width = 0; while (isdigit(f[i])) width = width * 10 + f[i++] - '0'; }
      if (f[i] == '.') { i++; prec = 0; if (f[i] == '*') { prec = (int)conc(S, arg(32), 32); i++; } else while (isdigit(f[i])) prec = prec * 10 + f[i++] - '0'; }
      std::string lm; while (i < f.size() && strchr("hlLzjt", f[i])) lm += f[i++];
      char c = f[i]; std::vector<Val> item;
      bool w64 = lm == "l" || lm == "ll" || lm == "z" || lm == "j" || lm == "t";
      if (c == 's') { uint64_t p = conc(S, arg(64)); uint64_t n = strLen(S, p, prec >= 0 ? (uint64_t)prec : ~0ULL); item = rdBytes(S, p, n); }
      else if (c == 'c') { Val v = arg(32); item.push_back(v.e ? vl(mkExtract(v.e, 0, 8)) : Val(v.c & 255)); }
      else if (strchr("dioxXu", c)) { uint64_t v = conc(S, arg(w64 ? 64 : 32), w64 ? 64 : 32); if (!w64) v = (c == 'd' || c == 'i') ? (uint64_t)sx(v, 32) : v & 0xffffffff; if (lm == "hh") v = (c == 'd' || c == 'i') ? (uint64_t)sx(v, 8) : v & 255; char b[64]; std::string ff = "%" + flags + (prec >= 0 ? "." + std::to_string(prec) : "") + "ll" + c; if (width >= 0) ff = "%" + flags + std::to_string(width) + (prec >= 0 ? "." + std::to_string(prec) : "") + "ll" + c; int n = snprintf(b, 64, ff.c_str(), v); for (int k = 0; k < n && k < 63; k++) item.push_back(Val((uint8_t)b[k])); width = -1; }
      else if (c == 'p') { conc(S, arg(64)); for (char q : std::string("0x1")) item.push_back(Val((uint8_t)q)); }
      else inc(S, std::string("printf conversion ") + c);
      if (width > (int)item.size()) { std::vector<Val> pad(width - item.size(), Val(' ')); if (flags.find('-') != std::string::npos) item.insert(item.end(), pad.begin(), pad.end()); else item.insert(item.begin(), pad.begin(), pad.end()); }
      out.insert(out.end(), item.begin(), item.end());
    }
    return out;
  }
  std::function<Val(unsigned)> vaFrom(std::vector<Val> &args, size_t first) { auto k = std::make_shared<size_t>(first); auto a = std::make_shared<std::vector<Val>>(args); return [k, a](unsigned w) { Val v = *k < a->size() ? (*a)[*k] : Val(0); ++*k; if (v.e && v.e->w > w) v = Val(0, mkExtract(v.e, 0, w)); return v; }; }
  std::function<Val(unsigned)> vaList(State &S, uint64_t va) {
    auto k = std::make_shared<uint64_t>(conc(S, rdMem(S, va + 8, 64))); State *s = &S;
    return [this, k, s](unsigned w) { Val v = rdMem(*s, *k, w); *k += 8; return v; };
  }
  void putN(State &S, uint64_t dst, uint64_t n, const std::vector<Val> &o) {
    if (!n) return; std::vector<Val> t(o.begin(), o.begin() + std::min<uint64_t>(o.size(), n - 1)); t.push_back(Val(0)); wrBytes(S, dst, t);
  }
  bool upcast(uint64_t t, uint64_t to, int64_t &off) {
    if (t == to) return true;
    auto *G = tiVar(t); if (!G || !G->hasInitializer()) return false;
    auto *cs = dyn_cast<ConstantStruct>(G->getInitializer()); if (!cs || cs->getNumOperands() < 3) return false;
    if (cs->getNumOperands() == 3) return upcast(constScalar(cs->getOperand(2)), to, off);
    for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
      int64_t fl = (int64_t)constScalar(cs->getOperand(i + 1)); int64_t o = off + (fl >> 8);
      if (upcast(constScalar(cs->getOperand(i)), to, o)) { off = o; return true; }
    }
    return false;
  }
  uint64_t errnoAddr = 0;
  static unsigned aw(const DInst &d, size_t i) { return d.ci->aw[i]; }

  void initNatives() {
    errnoAddr = newGlobal(4);
#define N(name) reg(name, [this](State &S, const DInst &d, Args_ &a, Val &out) -> bool { (void)d; (void)a; (void)out; (void)S;
#define I_(name) regI(name, [this](State &S, const DInst &d, Args_ &a, Val &out) -> bool { (void)d; (void)a; (void)out; (void)S;
#define NE return true; });
#define ADDR(i) conc(S, a[i])
    // ----- harness interface -----
    N("sym_bytes") uint64_t p = ADDR(0), n = ADDR(1); std::string nm = cstr(S, ADDR(2)); access(S, p, n ? n : 1, true);
      uint32_t v0 = S.pc.nvars(); for (uint64_t i = 0; i < n; i++) { uint32_t v = S.pc.newVar(0x61); (void)v; }
      Obj *o = findw(S, p); for (uint64_t i = 0; i < n; i++) wrByteO(o, offOf(p) + i, Val(0, mkVar(v0 + i)));
      S.inputs.push_back({'B', nm, v0, (uint32_t)n}); NE
    N("sym_choice") uint64_t n = ADDR(0); std::string nm = cstr(S, ADDR(1)); uint64_t v = 0;
      if (S.pending >= 0) { v = S.pending; S.pending = -1; }
      else for (uint64_t k = n; k-- > 1;) { State *T = new State(S); T->id = ++nstates; T->pending = k; T->forks++; work.push_back(T); forks++; }
      S.inputs.push_back({'C', nm, 0, (uint32_t)v}); out = Val(v); NE
    N("sym_assume") Val c = a[0]; if (!c.e) { if (!(c.c & mask(aw(d, 0)))) { assumedOut++; throw Kill(); } return true; }
      Expr *e = mkNot(mkEq(c.e, mkC(0, c.e->w)));
      if (isC(e)) { if (!e->c) { assumedOut++; throw Kill(); } return true; }
      std::vector<uint8_t> m; auto r = sol.check(S.pc, e, &m); if (r == Solver::UNKNOWN) inc(S, "solver unknown in assume"); if (r == Solver::UNSAT) { assumedOut++; throw Kill(); }
      S.pc.model = m; sol.add(S.pc, e); NE
    N("sym_assert") Val c = a[0]; std::string msg = cstr(S, ADDR(1)); assertCount[msg]++;
      if (!c.e) { assertsConcrete++; if (!(c.c & mask(aw(d, 0)))) error(S, "assert", msg); return true; }
      Expr *e = mkNot(mkEq(c.e, mkC(0, c.e->w)));
      if (isC(e)) { assertsConcrete++; if (!e->c) error(S, "assert", msg); return true; }
      assertsSymbolic++; if (S.pc.facts.has(e)) return true;
      sol.st.assertq++;
      std::vector<uint8_t> m; auto r = sol.check(S.pc, mkNot(e), &m, true);
      if (r == Solver::UNKNOWN) inc(S, "solver unknown in assert " + msg);
      if (r == Solver::SAT) { report(S, "assert", msg, m); r = sol.check(S.pc, e, &m); if (r != Solver::SAT) throw Kill(); S.pc.model = m; sol.add(S.pc, e); }
      else S.pc.facts.add(e);
      NE
    N("sym_fail") std::string msg = cstr(S, ADDR(0)); assertCount[msg]++; error(S, "assert", msg); NE
    N("sym_reach") reachCount[cstr(S, ADDR(0))]++; NE
    N("sym_eq") uint64_t p = ADDR(0), n = ADDR(1), q = ADDR(2), k = ADDR(3); if (n != k) { out = Val(0); return true; }
      Expr *r = mkC(1, 1); auto x = rdBytes(S, p, n), y = rdBytes(S, q, n);
      for (uint64_t i = 0; i < n; i++) { r = mkBin(E_AND, r, mkEq(ex(x[i], 8), ex(y[i], 8))); }
      out = vl(mkZext(r, 32)); NE
    N("sym_trace") auto t = std::make_shared<TraceNode>(); t->prev = S.trace; t->label = cstr(S, ADDR(0)); t->bytes = rdBytes(S, ADDR(1), ADDR(2)); S.trace = t; NE
    N("sym_trace_int") auto t = std::make_shared<TraceNode>(); t->prev = S.trace; t->label = cstr(S, ADDR(0)); Val v = a[1]; for (int i = 0; i < 8; i++) t->bytes.push_back(v.e ? vl(mkExtract(v.e, i * 8, 8)) : Val((v.c >> (8 * i)) & 255)); S.trace = t; NE
    N("sym_live") out = Val((uint64_t)((int64_t)S.liveHeap - reachable(S))); NE
    N("sym_is_symbolic") out = Val(a[0].e ? 1 : 0); NE
    N("sym_conc") out = Val(conc(S, a[0], aw(d, 0))); NE
    N("sym_stop") S.fr.size(); endPath(S); throw Stop(); NE
    N("sym_thread_") bool in = ADDR(0) != 0;      // another thread starts (its own thread-local objects) or has ended
      for (auto &G : M->globals()) if (G.isThreadLocal() && G.hasInitializer()) {
        uint32_t i = idx(gaddr[&G]); Obj *o = in ? S.g.get(i) : S.tls.get(i); o->rc++;
        if (in) { S.tls.set(i, o); Obj *n = new Obj(o->id, o->size); writeInit(n, 0, G.getInitializer()); S.g.set(i, n); } else S.g.set(i, o);
      } NE
    N("sym_mark") S.marking = ADDR(0) != 0; NE
    N("sym_watch") S.watch = ADDR(0) != 0 && accessFn; NE
    N("sym_kill") assumedOut++; throw Kill(); NE
    N("sym_param") std::string nm = cstr(S, ADDR(0)); auto it = params.find(nm); out = it == params.end() ? a[1] : Val((uint64_t)std::stoll(it->second)); NE
    N("sym_debug") std::string nm = cstr(S, ADDR(0)); if (verbose) { fprintf(stderr, "DEBUG %s", nm.c_str()); uint64_t n = ADDR(2); auto v = rdBytes(S, ADDR(1), n); for (auto &x : v) { if (x.e) fprintf(stderr, "<%s>", show(x.e).c_str()); else if (x.c >= 32 && x.c < 127) fputc((int)x.c, stderr); else fprintf(stderr, "\\x%02x", (int)x.c); } fprintf(stderr, "\n"); } NE
    N("sym_model_error") error(S, "model", cstr(S, ADDR(0))); NE
    N("sym_inc") inc(S, cstr(S, ADDR(0))); NE
    // ----- allocation -----
    N("malloc") out = Val(heapAlloc(S, ADDR(0), A_MALLOC)); NE
    N("calloc") uint64_t n = ADDR(0) * conc(S, a[1]); uint64_t p = heapAlloc(S, n, A_MALLOC); Obj *o = findw(S, p); free(o->undef); o->undef = nullptr; out = Val(p); NE
    N("realloc") uint64_t p = ADDR(0), n = ADDR(1); if (!p) { out = Val(heapAlloc(S, n, A_MALLOC)); return true; }
      Obj *o = find(S, p); if (!o) error(S, "memory", badptr(p)); uint64_t q = heapAlloc(S, n, A_MALLOC); memCopy(S, q, p, std::min<uint64_t>(n, find(S, p)->size)); heapFree(S, p, A_MALLOC); out = Val(q); NE
    N("free") heapFree(S, ADDR(0), A_MALLOC); NE
    for (auto n : {"_Znwm", "_ZnwmRKSt9nothrow_t"}) { N(n) out = Val(heapAlloc(S, ADDR(0), A_NEW)); NE }
    for (auto n : {"_Znam", "_ZnamRKSt9nothrow_t"}) { N(n) out = Val(heapAlloc(S, ADDR(0), A_NEWARR)); NE }
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t"}) { N(n) heapFree(S, ADDR(0), A_NEW); NE }
    for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}) { N(n) heapFree(S, ADDR(0), A_NEWARR); NE }
    // ----- memory and strings -----
    for (auto n : {"memcpy", "__memcpy_chk"}) { N(n) uint64_t n_ = ADDR(2); memCopy(S, ADDR(0), ADDR(1), n_, false); out = Val(ADDR(0)); NE }
    for (auto n : {"memmove", "__memmove_chk"}) { N(n) uint64_t n_ = ADDR(2); memCopy(S, ADDR(0), ADDR(1), n_); out = Val(ADDR(0)); NE }
    for (auto n : {"memset", "__memset_chk"}) { N(n) memSet(S, ADDR(0), a[1], ADDR(2)); out = Val(ADDR(0)); NE }
    for (auto n : {"memcmp", "bcmp"}) { N(n) uint64_t k = ADDR(2); if (k) { access(S, ADDR(0), k, false); access(S, ADDR(1), k, false); } out = cmpBytes(S, ADDR(0), ADDR(1), k, false, false); NE }
    N("strcmp") out = cmpBytes(S, ADDR(0), ADDR(1), ~0ULL >> 1, true, false); NE
    N("strncmp") out = cmpBytes(S, ADDR(0), ADDR(1), ADDR(2), true, false); NE
    N("strcasecmp") out = cmpBytes(S, ADDR(0), ADDR(1), ~0ULL >> 1, true, true); NE
    N("strncasecmp") out = cmpBytes(S, ADDR(0), ADDR(1), ADDR(2), true, true); NE
    N("strlen") out = Val(strLen(S, ADDR(0))); NE
    N("strnlen") out = Val(strLen(S, ADDR(0), ADDR(1))); NE
    N("memchr") uint64_t p = ADDR(0), n = ADDR(2); out = memChr(S, p, n, a[1]); NE
    N("memrchr") out = findByte(S, ADDR(0), ADDR(2), a[1], true); NE
    for (auto n : {"strchr", "index"}) { N(n) uint64_t p = ADDR(0); uint64_t n_ = strLen(S, p) + 1; out = findByte(S, p, n_, a[1]); NE }
    for (auto n : {"strrchr", "rindex"}) { N(n) uint64_t p = ADDR(0); uint64_t n_ = strLen(S, p) + 1; out = findByte(S, p, n_, a[1], true); NE }
    for (auto n : {"strcpy", "__strcpy_chk", "stpcpy"}) { bool st = !strcmp(n, "stpcpy"); reg(n, [this, st](State &S, const DInst &d, Args_ &a, Val &out) -> bool { uint64_t n_ = strLen(S, ADDR(1)); memCopy(S, ADDR(0), ADDR(1), n_ + 1); out = Val(ADDR(0) + (st ? n_ : 0)); return true; }); }
    for (auto n : {"strncpy", "__strncpy_chk"}) { N(n) uint64_t k = ADDR(2), n_ = strLen(S, ADDR(1), k); auto v = rdBytes(S, ADDR(1), n_); v.resize(k, Val(0)); wrBytes(S, ADDR(0), v); out = Val(ADDR(0)); NE }
    for (auto n : {"strcat", "__strcat_chk"}) { N(n) uint64_t x = strLen(S, ADDR(0)), n_ = strLen(S, ADDR(1)); auto v = rdBytes(S, ADDR(1), n_); v.push_back(Val(0)); wrBytes(S, ADDR(0) + x, v); out = Val(ADDR(0)); NE }
    for (auto n : {"strncat", "__strncat_chk"}) { N(n) uint64_t k = ADDR(2), x = strLen(S, ADDR(0)), n_ = strLen(S, ADDR(1), k); auto v = rdBytes(S, ADDR(1), n_); v.push_back(Val(0)); wrBytes(S, ADDR(0) + x, v); out = Val(ADDR(0)); NE }
    N("strdup") uint64_t n_ = strLen(S, ADDR(0)); auto v = rdBytes(S, ADDR(0), n_); v.push_back(Val(0)); uint64_t p = heapAlloc(S, n_ + 1, A_MALLOC); wrBytes(S, p, v); out = Val(p); NE
    for (auto n : {"strstr", "strcasestr"}) { bool fold = !strcmp(n, "strcasestr"); reg(n, [this, fold](State &S, const DInst &d, Args_ &a, Val &out) -> bool {
      uint64_t h = ADDR(0), q = ADDR(1); uint64_t hn = strLen(S, h), qn = strLen(S, q);
      for (uint64_t i = 0; i + qn <= hn; i++) { Val r = cmpBytes(S, h + i, q, qn, false, fold); if (r.e ? decide(S, mkEq(r.e, mkC(0, 32))) : r.c == 0) { out = Val(h + i); return true; } }
      out = Val(0); return true; }); }
    N("strpbrk") uint64_t h = ADDR(0); uint64_t hn = strLen(S, h), qn = strLen(S, ADDR(1)); auto q = rdBytes(S, ADDR(1), qn);
      for (uint64_t i = 0; i < hn; i++) { Val c = rdByte(S, h + i); Expr *o = mkC(0, 1); for (auto &x : q) o = mkBin(E_OR, o, mkEq(ex(c, 8), ex(x, 8))); if (decide(S, o)) { out = Val(h + i); return true; } } out = Val(0); NE
    for (auto n : {"strspn", "strcspn"}) { bool in = !strcmp(n, "strspn"); reg(n, [this, in](State &S, const DInst &d, Args_ &a, Val &out) -> bool { uint64_t h = ADDR(0); uint64_t hn = strLen(S, h), qn = strLen(S, ADDR(1)); auto q = rdBytes(S, ADDR(1), qn);
      uint64_t i = 0; for (; i < hn; i++) { Val c = rdByte(S, h + i); Expr *o = mkC(0, 1); for (auto &x : q) o = mkBin(E_OR, o, mkEq(ex(c, 8), ex(x, 8))); if (decide(S, o) != in) break; } out = Val(i); return true; }); }
    // ----- printf -----
    N("snprintf") auto o = format(S, ADDR(2), vaFrom(a, 3)); putN(S, ADDR(0), ADDR(1), o); out = Val(o.size()); NE
    N("sprintf") auto o = format(S, ADDR(1), vaFrom(a, 2)); putN(S, ADDR(0), o.size() + 1, o); out = Val(o.size()); NE
    N("vsnprintf") auto o = format(S, ADDR(2), vaList(S, ADDR(3))); putN(S, ADDR(0), ADDR(1), o); out = Val(o.size()); NE
    N("vsprintf") auto o = format(S, ADDR(1), vaList(S, ADDR(2))); putN(S, ADDR(0), o.size() + 1, o); out = Val(o.size()); NE
    for (auto n : {"printf", "fprintf", "puts", "fputs", "putchar", "fputc", "perror", "fflush", "fwrite", "vfprintf", "vprintf"}) { N(n) out = Val(1); NE }
    // ----- process -----
    for (auto n : {"abort", "__assert_fail", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_pure_virtual", "exit", "_exit", "__stack_chk_fail"}) { std::string nm = n; reg(n, [this, nm](State &S, const DInst &d, Args_ &a, Val &out) -> bool { error(S, "abort", nm == "__clang_call_terminate" || nm == "_ZSt9terminatev" ? "std::terminate called" : nm + " called"); }, true); }
    N("__errno_location") out = Val(errnoAddr); NE
    N("__cxa_atexit") out = Val(0); NE
    N("atexit") out = Val(0); NE
    // ----- exceptions -----
    N("__cxa_allocate_exception") out = Val(heapAlloc(S, ADDR(0), A_NONE)); NE
    N("__cxa_free_exception") heapFree(S, ADDR(0), A_NONE); NE
    N("__cxa_throw") uint64_t o = ADDR(0), t = ADDR(1), dt = ADDR(2); Exn x; x.obj = o; x.tinfo = t; x.dtor = dt; S.exns[o] = x; S.uncaught++; unwind(S, o); return false; });
    N("__cxa_begin_catch") uint64_t o = ADDR(0); auto it = S.exns.find(o); if (it == S.exns.end()) inc(S, "foreign exception"); it->second.handlers++; it->second.rethrown = false; S.caught.push_back(o); if (S.uncaught) S.uncaught--; out = Val(o); NE
    N("__cxa_get_exception_ptr") out = a[0]; NE
    N("__cxa_end_catch") if (S.caught.empty()) return true; uint64_t o = S.caught.back(); Exn &E = S.exns[o];
      if (E.handlers == 1 && !E.rethrown && E.dtor) { uint64_t dt = E.dtor; E.dtor = 0; auto it = faddr.find(dt); if (it != faddr.end()) { auto nt = natIdx.find(it->second->getName().str()); if (nt == natIdx.end() || !it->second->isDeclaration()) { if (it->second->isDeclaration()) inc(S, "unmodelled exception destructor " + it->second->getName().str()); push(S, decode(it->second), {Val(o)}); S.top().reexec = true; return false; } } }
      S.caught.pop_back(); if (--E.handlers == 0 && !E.rethrown) { S.exns.erase(o); heapFree(S, o, A_NONE); } NE
    N("__cxa_rethrow") if (S.caught.empty()) error(S, "abort", "rethrow without a caught exception"); uint64_t o = S.caught.back(); S.exns[o].rethrown = true; S.uncaught++; unwind(S, o); return false; });
    N("_ZSt18uncaught_exceptionv") out = Val(S.uncaught > 0); NE
    N("_ZSt19uncaught_exceptionsv") out = Val(S.uncaught); NE
    N("__cxa_call_unexpected") error(S, "abort", "unexpected exception"); NE
    N("__dynamic_cast") uint64_t p = ADDR(0); if (!p) { out = Val(0); return true; } uint64_t vt = conc(S, rdMem(S, p, 64)); uint64_t ti = conc(S, rdMem(S, vt - 8, 64)); int64_t ott = (int64_t)conc(S, rdMem(S, vt - 16, 64)); int64_t off = 0; uint64_t dst = ADDR(2);
      out = upcast(ti, dst, off) ? Val(p + ott + off) : Val(0); NE
    // ----- intrinsics -----
    I_("llvm.memcpy") memCopy(S, ADDR(0), ADDR(1), conc(S, a[2], aw(d, 2))); NE
    I_("llvm.memmove") memCopy(S, ADDR(0), ADDR(1), conc(S, a[2], aw(d, 2))); NE
    I_("llvm.memset") memSet(S, ADDR(0), a[1], conc(S, a[2], aw(d, 2))); NE
    for (auto n : {"llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.invariant", "llvm.stackrestore", "llvm.prefetch", "llvm.va_end", "llvm.donothing", "llvm.sideeffect", "llvm.dbg"}) { I_(n) NE }
    I_("llvm.stacksave") out = Val(0); NE
    I_("llvm.expect") out = a[0]; NE
    I_("llvm.launder.invariant.group") out = a[0]; NE
    I_("llvm.strip.invariant.group") out = a[0]; NE
    I_("llvm.threadlocal.address") out = a[0]; NE
    I_("llvm.ssa.copy") out = a[0]; NE
    I_("llvm.is.constant") out = Val(0); NE
    I_("llvm.objectsize") out = Val(mask(d.w)); NE
    I_("llvm.trap") error(S, "abort", "trap"); NE
    I_("llvm.ubsantrap") error(S, "abort", "trap"); NE
    I_("llvm.eh.typeid.for") out = Val(typeId(ADDR(0))); NE
    I_("llvm.va_start") uint64_t va = ADDR(0); std::vector<Val> v = S.top().va; Frame &F = S.top(); uint64_t n = stackAlloc(S, F, v.size() * 8 + 8); for (size_t i = 0; i < v.size(); i++) wrMem(S, n + 8 * i, 64, v[i].e && v[i].e->w < 64 ? Val(0, mkZext(v[i].e, 64)) : v[i]); wrMem(S, va, 32, Val(48)); wrMem(S, va + 4, 32, Val(176)); wrMem(S, va + 8, 64, Val(n)); wrMem(S, va + 16, 64, Val(0)); NE
    I_("llvm.va_copy") memCopy(S, ADDR(0), ADDR(1), 24); NE
    auto cmpsel = [this](const char *n, unsigned pred) { regI(n, [this, pred](State &S, const DInst &d, Args_ &a, Val &out) -> bool { Val c = icmp(pred, a[0], a[1], d.w); if (!c.e) out = c.c & 1 ? a[0] : a[1]; else out = vl(mkIte(c.e, ex(a[0], d.w), ex(a[1], d.w))); return true; }); };
    cmpsel("llvm.umin", CmpInst::ICMP_ULT); cmpsel("llvm.umax", CmpInst::ICMP_UGT); cmpsel("llvm.smin", CmpInst::ICMP_SLT); cmpsel("llvm.smax", CmpInst::ICMP_SGT);
    I_("llvm.abs") Val z = icmp(CmpInst::ICMP_SLT, a[0], Val(0), d.w); Val n = binop(S, Instruction::Sub, Val(0), a[0], d.w); if (!z.e) out = z.c ? n : a[0]; else out = vl(mkIte(z.e, ex(n, d.w), ex(a[0], d.w))); NE
    auto sat = [this](const char *n, bool sub) { regI(n, [this, sub](State &S, const DInst &d, Args_ &a, Val &out) -> bool { if (sub) { Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1], d.w); Val r = binop(S, Instruction::Sub, a[0], a[1], d.w); out = c.e ? vl(mkIte(c.e, mkC(0, d.w), ex(r, d.w))) : c.c ? Val(0) : r; } else { Val r = binop(S, Instruction::Add, a[0], a[1], d.w); Val c = icmp(CmpInst::ICMP_ULT, r, a[0], d.w); out = c.e ? vl(mkIte(c.e, mkC(~0ULL, d.w), ex(r, d.w))) : c.c ? Val(mask(d.w)) : r; } return true; }); };
    sat("llvm.usub.sat", true); sat("llvm.uadd.sat", false);
    struct Ov { const char *n; unsigned op; bool sg; };
    for (Ov o : {Ov{"llvm.uadd.with.overflow", Instruction::Add, false}, Ov{"llvm.usub.with.overflow", Instruction::Sub, false}, Ov{"llvm.umul.with.overflow", Instruction::Mul, false}, Ov{"llvm.sadd.with.overflow", Instruction::Add, true}, Ov{"llvm.ssub.with.overflow", Instruction::Sub, true}, Ov{"llvm.smul.with.overflow", Instruction::Mul, true}})
      regI(o.n, [this, o](State &S, const DInst &d, Args_ &a, Val &out) -> bool {
        unsigned w = aw(d, 0); Val r = binop(S, o.op, a[0], a[1], w), ov;
        if (!a[0].e && !a[1].e) {
          bool f = false;
          if (o.sg) { __int128 x = sx(a[0].c, w), y = sx(a[1].c, w), z = o.op == Instruction::Add ? x + y : o.op == Instruction::Sub ? x - y : x * y; f = z != (__int128)sx(r.c, w); }
          else { unsigned __int128 x = a[0].c & mask(w), y = a[1].c & mask(w); f = o.op == Instruction::Add ? (x + y) > mask(w) : o.op == Instruction::Sub ? x < y : x * y > mask(w); }
          ov = Val(f);
        } else if (!o.sg && o.op == Instruction::Add) ov = icmp(CmpInst::ICMP_ULT, r, a[0], w);
        else if (!o.sg && o.op == Instruction::Sub) ov = icmp(CmpInst::ICMP_ULT, a[0], a[1], w);
        else if (w <= 32) { Expr *x = o.sg ? mkSext(ex(a[0], w), 64) : mkZext(ex(a[0], w), 64), *y = o.sg ? mkSext(ex(a[1], w), 64) : mkZext(ex(a[1], w), 64); Val z = binop(S, o.op, vl(x), vl(y), 64); Expr *b = o.sg ? mkSext(ex(r, w), 64) : mkZext(ex(r, w), 64); ov = icmp(CmpInst::ICMP_NE, z, vl(b), 64); }
        else { uint64_t x = conc(S, a[0], w), y = conc(S, a[1], w); (void)x; (void)y; inc(S, "symbolic 64-bit overflow intrinsic"); }
        S.top().r[d.dst + 1] = ov; out = r; return true; });
    auto bits = [this](const char *n, int kind) { regI(n, [this, kind](State &S, const DInst &d, Args_ &a, Val &out) -> bool {
      unsigned w = d.w; uint64_t x = conc(S, a[0], w) & mask(w), r = 0;
      if (kind == 0) { r = w; for (int i = w - 1; i >= 0; i--) if (x >> i & 1) { r = w - 1 - i; break; } } else if (kind == 1) { r = w; for (unsigned i = 0; i < w; i++) if (x >> i & 1) { r = i; break; } } else if (kind == 2) r = __builtin_popcountll(x);
      else r = w == 16 ? __builtin_bswap16(x) : w == 32 ? __builtin_bswap32(x) : __builtin_bswap64(x);
      out = Val(r); return true; }); };
    bits("llvm.ctlz", 0); bits("llvm.cttz", 1); bits("llvm.ctpop", 2); bits("llvm.bswap", 3);
    auto fsh = [this](const char *n, bool l) { regI(n, [this, l](State &S, const DInst &d, Args_ &a, Val &out) -> bool {
      unsigned w = d.w; uint64_t k = conc(S, a[2], w) % w; Val x, y; if (k == 0) { out = l ? a[0] : a[1]; return true; }
      x = binop(S, Instruction::Shl, a[0], Val(l ? k : w - k), w); y = binop(S, Instruction::LShr, a[1], Val(l ? w - k : k), w); out = binop(S, Instruction::Or, x, y, w); return true; }); };
    fsh("llvm.fshl", true); fsh("llvm.fshr", false);
    auto fl = [this](const char *n, double (*f)(double)) { auto g = [this, f](State &S, const DInst &d, Args_ &a, Val &out) -> bool { out = Val(fromD(f(asD(conc(S, a[0], d.w), d.w)), d.w)); return true; }; if (!strncmp(n, "llvm", 4)) regI(n, g); else reg(n, g); };
    fl("llvm.floor", [](double x) { return std::floor(x); }); fl("llvm.ceil", [](double x) { return std::ceil(x); }); fl("llvm.fabs", [](double x) { return std::fabs(x); }); fl("ceil", [](double x) { return std::ceil(x); }); fl("floor", [](double x) { return std::floor(x); });
#undef N
#undef I_
#undef NE
#undef ADDR
  }
  // memchr reads only up to the first match: the buffer may be shorter than n
  Val memChr(State &S, uint64_t p, uint64_t n, Val c) {
    Obj *o = find(S, p); if (n && !o) error(S, "memory", badptr(p));
    if (n && offOf(p) >= 0 && (uint64_t)offOf(p) + n <= o->size) return findByte(S, p, n, c);
    Expr *ce = c.e ? (c.e->w == 8 ? c.e : mkExtract(c.e, 0, 8)) : mkC(c.c & 255, 8);
    for (uint64_t i = 0; i < n; i++) { Val b = rdByte(S, p + i); if (decide(S, mkEq(ex(b, 8), ce))) return Val(p + i); }
    return Val(0);
  }
  void memSet(State &S, uint64_t p, Val v, uint64_t n) { if (!n) return; Obj *o = access(S, p, n, true); uint64_t off = offOf(p); Val b = v.e ? (v.e->w == 8 ? v : vl(mkExtract(v.e, 0, 8))) : Val(v.c & 255); if (!b.e) { memset(o->data + off, (int)b.c, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr *)); if (o->undef) memset(o->undef + off, 0, n); } else for (uint64_t i = 0; i < n; i++) wrByteO(o, off + i, b); }
