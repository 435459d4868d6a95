// Symbolic executor core types.
#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <map>
#include <set>
#include <memory>
#include <functional>

struct Val { uint64_t c; Expr *e; Val(uint64_t c = 0, Expr *e = nullptr) : c(c), e(e) {} };

// ---- memory ----
enum Kind : uint8_t { K_GLOBAL = 1, K_HEAP = 2, K_STACK = 3 };
enum AllocKind : uint8_t { A_NONE, A_MALLOC, A_NEW, A_NEWARR };
struct Obj {
  int rc = 1; uint64_t id; uint32_t size; AllocKind ak = A_NONE; bool ro = false, lib = false, hot = false;   // lib: shared by threads; hot: written since sym_watch
  const llvm::Function *fn = nullptr;
  uint8_t *data; Expr **sym = nullptr; uint8_t *undef = nullptr;
  const char *site = nullptr;
  Obj(uint64_t id, uint32_t size) : id(id), size(size) { data = (uint8_t *)calloc(1, size ? size : 1); }
  Obj(const Obj &o) : id(o.id), size(o.size), ak(o.ak), ro(o.ro), lib(o.lib), hot(o.hot), fn(o.fn), site(o.site) {
    data = (uint8_t *)malloc(size ? size : 1); memcpy(data, o.data, size);
    if (o.sym) { sym = (Expr **)malloc(size * sizeof(Expr *)); memcpy(sym, o.sym, size * sizeof(Expr *)); }
    if (o.undef) { undef = (uint8_t *)malloc(size ? size : 1); memcpy(undef, o.undef, size); }
  }
  ~Obj() { free(data); free(sym); free(undef); }
};
static const unsigned CH = 32;
struct Chunk { int rc = 1; Obj *o[CH] = {}; };
static const uint64_t OFF0 = 0x10000;
static inline uint64_t addrOf(uint64_t id, uint64_t off = 0) { return (id << 24) + OFF0 + off; }

struct MemTab {
  std::vector<Chunk *> ch;
  MemTab() {}
  MemTab(const MemTab &o) : ch(o.ch) { for (auto c : ch) if (c) c->rc++; }
  ~MemTab() { for (auto c : ch) drop(c); }
  MemTab &operator=(const MemTab &) = delete;
  static void dropo(Obj *o) { if (o && --o->rc == 0) delete o; }
  static void drop(Chunk *c) { if (c && --c->rc == 0) { for (auto o : c->o) dropo(o); delete c; } }
  Obj *get(uint32_t i) const { uint32_t k = i / CH; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[i % CH]; }
  Chunk *wch(uint32_t i) {
    uint32_t k = i / CH; if (k >= ch.size()) ch.resize(k + 1);
    if (!ch[k]) ch[k] = new Chunk();
    else if (ch[k]->rc > 1) { Chunk *n = new Chunk(); memcpy(n->o, ch[k]->o, sizeof n->o); for (auto o : n->o) if (o) o->rc++; ch[k]->rc--; ch[k] = n; }
    return ch[k];
  }
  void set(uint32_t i, Obj *o) { Chunk *c = wch(i); dropo(c->o[i % CH]); c->o[i % CH] = o; }
  Obj *w(uint32_t i) { Chunk *c = wch(i); Obj *&o = c->o[i % CH]; if (o->rc > 1) { o->rc--; o = new Obj(*o); } return o; }
};

// ---- decoded program ----
struct DOp { int32_t r = -1; uint64_t c = 0; };       // r>=0 reg slot, -1 const, -2 const pool index c
struct CallInfo;
struct DInst {
  uint16_t op; uint8_t w = 0, w2 = 0, pred = 0; uint16_t dn = 0; int32_t dst = -1;
  DOp a, b, d; uint32_t line = 0;
  CallInfo *ci = nullptr;
  std::vector<uint64_t> *x = nullptr;     // misc: leaf offsets/sizes, switch cases, gep scales
  std::vector<DOp> *ops = nullptr;
  const llvm::Instruction *I = nullptr;
};
struct PhiMove { int32_t dst; uint16_t n; DOp src; };
struct DBlock { std::vector<DInst> in; std::vector<std::pair<int, std::vector<PhiMove>>> phis; };
struct DFunc { const llvm::Function *F; std::vector<DBlock> bb; uint32_t nregs; uint32_t nargslots; bool inRepo = false; uint64_t hits = 0; bool hasAlloca = false; std::string unsupported; };

struct Frame {
  int rc = 1; DFunc *f; int bb = 0, ip = 0, prev = -1;
  std::vector<Val> r; std::vector<uint32_t> allocas; std::vector<Val> va; bool reexec = false; int at = -1;   // at: instruction whose access point has been passed
};

struct Exn { uint64_t obj; uint64_t tinfo; uint64_t dtor; int handlers = 0; bool rethrown = false; };
struct Input { char kind; std::string name; uint32_t v0, n; };   // 'B' bytes, 'C' choice, 'U' undef byte
struct TraceNode { std::shared_ptr<TraceNode> prev; std::string label; std::vector<Val> bytes; };

struct State {
  uint64_t id = 0;
  std::vector<Frame *> fr;
  MemTab g, h, s, tls;          // tls: the thread-local objects of the suspended thread
  std::vector<uint32_t> hgen, sgen; std::vector<uint32_t> hfree; uint32_t stop = 0;
  uint32_t liveHeap = 0;
  PathCond pc;
  std::vector<Input> inputs;
  std::shared_ptr<TraceNode> trace;
  std::map<uint64_t, Exn> exns; std::vector<uint64_t> caught; uint64_t curExn = 0; uint32_t curSel = 0; uint32_t uncaught = 0;
  int64_t pending = -1;
  uint64_t steps = 0;
  int stage = 0;              // index into the list of entry functions
  uint32_t forks = 0;
  bool marking = false, watch = false;
  State() {}
  State(const State &o) : fr(o.fr), g(o.g), h(o.h), s(o.s), tls(o.tls), hgen(o.hgen), sgen(o.sgen), hfree(o.hfree), stop(o.stop), liveHeap(o.liveHeap), pc(o.pc), inputs(o.inputs), trace(o.trace), exns(o.exns), caught(o.caught), curExn(o.curExn), curSel(o.curSel), uncaught(o.uncaught), pending(o.pending), steps(o.steps), stage(o.stage), forks(o.forks), marking(o.marking), watch(o.watch) { for (auto f : fr) f->rc++; }
  ~State() { for (auto f : fr) if (--f->rc == 0) delete f; }
  Frame &top() { Frame *&f = fr.back(); if (f->rc > 1) { Frame *n = new Frame(*f); n->rc = 1; f->rc--; f = n; } return *f; }
};
