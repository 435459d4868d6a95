// Two clients at the same time: while client A works, client B does all of its own work at a
// point of A chosen by the solver (any system call, TLS call or allocation).  Each must behave
// as it does alone: the same bytes to its own server, the same results, the same log.
#include "world.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include "smtpclient.h"
#include "opportunisticsecuresmtpclient.h"
#include "forcedsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "htmlmessage.h"
#include "attachment.h"
#include "cpp/smtpclient.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
#ifdef NATIVE
#include <thread>
#include <cstdlib>
#include <csignal>
#include <ucontext.h>
#include <sys/mman.h>
#endif
using namespace jed_utils; using std::string; using std::vector;
extern int w_cls, w_acceptSelf; extern "C" void sym_thread(int);
static int prm(const char *n, int d) { return (int)sym_param(n, d); }
static bool same(const string &a, const string &b) { return sym_eq(a.data(), a.size(), b.data(), b.size()); }
static void acc(SmtpClient &, bool) {} static void acc(cpp::SmtpClient &, bool) {}
template <class C> static void acc(C &c, bool v) { c.setAcceptSelfSignedCert(v); }
static void creds(SMTPClientBase &c, const string &u, const string &p) { c.setCredentials(Credential(u.c_str(), p.c_str())); }
template <class C> static auto creds(C &c, const string &u, const string &p) -> decltype(c.setCredentials(cpp::Credential(u, p))) { return c.setCredentials(cpp::Credential(u, p)); }

struct Role { int cls, nmsg, batch, make, k, natt, html; string server, user, pass, extra; unsigned port; Message *m[2]; };
static Message *makeMsg(int k, const string &extra, int natt, int html);
struct Seen { vector<int> ret; vector<string> log, wire, clear, text; vector<unsigned> addr; };
static Role A, B; static Seen *out; static volatile int depth, armed, fired; static int newPoints, accesses, accessMax; static bool shared;

template <class C> static void work(const Role &r, Seen &o, bool mine) {
  int first = W.nconn; armed = mine;
  {
    C *c = new C(r.server.c_str(), r.port); c->setCommandTimeout(3); c->setBatchMode(r.batch); acc(*c, true); if (!r.user.empty()) creds(*c, r.user, r.pass);
    for (int i = 0; i < r.nmsg; i++) {
      armed = 0; w_cls = r.cls % 3; w_begin(); armed = mine; Message *m = r.make ? makeMsg(r.k + 2 * i, r.extra, r.natt, r.html) : r.m[i]; int k = c->sendMail(*m); if (r.make) delete m;
      armed = 0; o.ret.push_back(k); armed = mine; string l = c->getCommunicationLog(); armed = 0; o.log.push_back(l); armed = mine;
      C *d = new C(*c); string s = d->getServerName(); armed = 0; o.text.push_back(s); armed = mine; delete d;
      char b[200]; const int codes[] = {k, -3, -85, 535}; for (int e : codes) { b[0] = 0; SMTPClientBase::getErrorMessage_r(e, b, sizeof b); int a = armed; armed = 0; o.text.push_back(b); armed = a; }
    }
    delete c; armed = 0;
  }
  for (int i = first; i < W.nconn; i++) if (W.c[i].port == (int)r.port) { o.wire.push_back(w_stream(i, 1, -1)); o.clear.push_back(w_stream(i, 0, -1)); o.addr.push_back(W.c[i].addr); }
}
static void run(const Role &r, Seen &o, bool mine) {
  switch (r.cls) { case 0: work<SmtpClient>(r, o, mine); break; case 1: work<OpportunisticSecureSMTPClient>(r, o, mine); break; case 2: work<ForcedSecureSMTPClient>(r, o, mine); break;
    case 3: work<cpp::SmtpClient>(r, o, mine); break; case 4: work<cpp::OpportunisticSecureSMTPClient>(r, o, mine); break; default: work<cpp::ForcedSecureSMTPClient>(r, o, mine); }
}
static void other() {      // the other thread runs from start to end
  int now = W.now, ts = W.tstep, b = W.sigBlk, p = W.sigPend, c = w_cls, e = errno; W.sigBlk = W.sigPend = 0;
#ifdef NATIVE
  std::thread t([] { run(B, *out, false); }); t.join();
#else
  sym_thread(1); run(B, *out, false); sym_thread(0);
#endif
  W.now = now; W.tstep = ts; W.sigBlk = b; W.sigPend = p; w_cls = c; errno = e;
}
static int from, upto, at;
void w_point() {
  if (!armed || fired || depth) return;
  int n = at++; if (n < from || (upto && n >= upto)) return;
  depth = 1; armed = 0;
  if (sym_choice(2, "switch")) { fired = 1; other(); }
  depth = 0; armed = 1;
}
// memory of the library that both threads can reach (variables, the message they share): every access to it is a switch point
#ifdef NATIVE
// the pages of that memory are protected; access number `access` runs the other thread
static long wantAccess = -1; static bool watching, stepping, arena; static char *arenaP, *arenaEnd; enum { ARENA = 1 << 20, GR = 64 };
extern "C" char __start_lbss[] __attribute__((weak)), __stop_lbss[] __attribute__((weak));
static struct Range { char *a, *b; unsigned char *hot; } rng[2]; static struct sigaction oldSegv;
static void prot(bool on) { for (auto &r : rng) if (r.b > r.a) mprotect(r.a, (size_t)(r.b - r.a), on ? PROT_NONE : PROT_READ | PROT_WRITE); }
static void onSegv(int, siginfo_t *si, void *uc) {
  char *p = (char *)si->si_addr; auto *g = ((ucontext_t *)uc)->uc_mcontext.gregs; Range *r = nullptr;
  for (auto &x : rng) if (p >= x.a && p < x.b) r = &x;
  if (!r || !watching) { sigaction(SIGSEGV, &oldSegv, nullptr); return; }
  prot(false); unsigned char &hot = r->hot[(p - r->a) / GR]; if (g[REG_ERR] & 2) hot = 1;
  if (hot && armed && !fired && !depth) { if (accesses++ == wantAccess) { depth = 1; armed = 0; fired = 2; watching = false; other(); watching = true; depth = 0; armed = 1; } }
  stepping = true; g[REG_EFL] |= 0x100;
}
static void onTrap(int, siginfo_t *, void *uc) { if (stepping) { stepping = false; ((ucontext_t *)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100; if (watching) prot(true); } }
void *operator new(size_t n) { if (arena && arenaEnd - arenaP > (long)n + 64) { void *p = arenaP; arenaP += (n + 31) & ~31ul; return p; } void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { if (!(rng[1].a && p >= rng[1].a && p < rng[1].b)) free(p); }
void operator delete(void *p, size_t) noexcept { ::operator delete(p); }
extern "C" void sym_mark(int on) { arena = on && rng[1].a; }
extern "C" void sym_watch(int on) { watching = on && wantAccess != -1; if (rng[1].a || watching) prot(watching); }
static void watchInit() {
  wantAccess = sym_param("access", -1); if (wantAccess == -1) return;
  rng[0] = {__start_lbss, __stop_lbss, nullptr}; char *m = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); rng[1] = {m, m + ARENA, nullptr}; arenaP = m; arenaEnd = m + ARENA;
  for (auto &r : rng) r.hot = (unsigned char *)calloc(1, (size_t)(r.b - r.a) / GR + 1);
  struct sigaction s; memset(&s, 0, sizeof s); s.sa_flags = SA_SIGINFO | SA_NODEFER; s.sa_sigaction = onSegv; sigaction(SIGSEGV, &s, &oldSegv); s.sa_sigaction = onTrap; sigaction(SIGTRAP, &s, nullptr);
}
#else
static void watchInit() {}
extern "C" __attribute__((used)) void env_w_access(int) {
  if (!armed || fired || depth) return;
  int n = accesses++; if (accessMax && n >= accessMax) return;
  depth = 1; armed = 0;
  if (sym_choice(2, "access")) { fired = 2; other(); }
  depth = 0; armed = 1;
}
#endif
// allocations of arrays are switch points too (the client's own; the containers of the C++ library use operator new)
#ifdef NATIVE
void *operator new[](size_t n) { if (newPoints) w_point(); return ::operator new(n); }
void operator delete[](void *p) noexcept { ::operator delete(p); }
void operator delete[](void *p, size_t) noexcept { ::operator delete(p); }
#else
extern "C" void *env__Znam(size_t n) { if (newPoints) w_point(); return ::operator new[](n, std::nothrow); }
#endif

static Message *makeMsg(int k, const string &extra, int natt, int html) {
  char b[64]; snprintf(b, 64, "to%d@x.com", k); vector<MessageAddress> to, cc, bcc; to.emplace_back(b, "To Name"); snprintf(b, 64, "cc%d@x.com", k); cc.emplace_back(b, ""); snprintf(b, 64, "bcc%d@x.com", k); bcc.emplace_back(b, "");
  snprintf(b, 64, "from%d@y.org", k); char t[64]; snprintf(t, 64, "body %d --sep\r\nmore", k); if (k > 1) strcpy(t + strlen(t) - 4, "text"); string body = t; for (int i = prm("blen", 0); i > 0; i--) body += i % 60 ? (char)('a' + (i + 5 * k) % 26) : '\n';
  string s = "subject " + extra; char f[16]; snprintf(f, 16, "t%d.txt", k); vector<Attachment> at; if (natt) { w_file(f, k > 1 ? "other data" : "file data", 9); at.emplace_back(f, "name", "id"); }
  if (shared) sym_mark(1); Message *r;
  if (html) r = new HTMLMessage(MessageAddress(b, "Sender"), to.data(), to.size(), s.c_str(), body.c_str(), cc.data(), 1, bcc.data(), 1, at.empty() ? nullptr : at.data(), at.size());
  else r = new PlaintextMessage(MessageAddress(b, "Sender"), to.data(), to.size(), s.c_str(), body.c_str(), cc.data(), 1, bcc.data(), 1, at.empty() ? nullptr : at.data(), at.size());
  sym_mark(0); return r;
}
static string byte(const char *n) { unsigned char c; sym_bytes(&c, 1, n); sym_assume((c > 32) & (c < 127)); return string(1, (char)c); }
static void compare(const Seen &a, const Seen &b, const char *what) {
  CHECK(31, a.ret == b.ret, what); CHECK(31, a.wire.size() == b.wire.size() && a.log.size() == b.log.size() && a.addr == b.addr, what);
  for (size_t i = 0; i < a.wire.size() && i < b.wire.size(); i++) { CHECK(31, same(a.wire[i], b.wire[i]), what); CHECK(31, same(a.clear[i], b.clear[i]), what); }
  for (size_t i = 0; i < a.log.size() && i < b.log.size(); i++) CHECK(31, same(a.log[i], b.log[i]), what);
  for (size_t i = 0; i < a.text.size() && i < b.text.size(); i++) CHECK(31, same(a.text[i], b.text[i]), what);
}
extern "C" void sym_main() {
  w_init(); w_acceptSelf = 1; W.two = 1; for (int i = 0; i < 2; i++) if ((W.fail[i] = prm(i ? "failb" : "faila", 0))) { sym_bytes(W.failCode[i], 3, "code"); sym_assume((W.failCode[i][0] >= '1') & (W.failCode[i][0] <= '5')); for (int k = 1; k < 3; k++) sym_assume((W.failCode[i][k] >= '0') & (W.failCode[i][k] <= '9')); }
  from = prm("from", 0); upto = prm("upto", 0); newPoints = prm("news", 0); accessMax = prm("accesses", 0); watchInit();
  A.cls = prm("cls", 0); B.cls = prm("clsb", 0); A.nmsg = prm("nmsg", 1); B.nmsg = prm("nmsgb", 1); A.batch = prm("batch", 0); B.batch = prm("batchb", 0);
  A.server = "mx-a.test"; B.server = "mx-b.test"; A.port = 2525; B.port = 2526; string sa = byte("subject a"), sb = byte("subject b");
  if (prm("cred", 1)) { A.user = "usera"; A.pass = "p" + byte("password a"); B.user = "userb"; B.pass = "q" + byte("password b"); W.credOn = 1; }
  A.make = B.make = prm("make", 0); A.k = 1; B.k = 2; A.extra = sa; B.extra = sb; A.natt = B.natt = prm("natt", 0); A.html = 0; B.html = prm("htmlb", 1);
  shared = true; for (int i = 0; i < 2; i++) { A.m[i] = makeMsg(A.k + 2 * i, sa, A.natt, 0); B.m[i] = prm("share", 0) ? A.m[i] : makeMsg(B.k + 2 * i, sb, B.natt, B.html); } shared = false;
  Seen a, b, a2, b2; out = &b2; int first = prm("first", 0); sym_watch(1);       // first: the two together before each alone
  if (!first) { run(A, a, false); run(B, b, false); }
  run(A, a2, true);
  if (!fired) { sym_reach("no switch"); other(); }
  if (first) { run(A, a, false); run(B, b, false); }
  sym_watch(0);
  compare(a, a2, "a client behaves differently while another one is used"); compare(b, b2, "a client that runs beside another one behaves differently than alone");
  for (int i = 0; i < 2; i++) { if (B.m[i] != A.m[i]) delete B.m[i]; delete A.m[i]; }
  sym_trace_int("points", at); for (auto &s : a2.clear) sym_trace("wire", s.data(), s.size()); sym_reach(fired == 2 ? "switched at an access" : fired ? "switched" : "end"); if (prm("access", -1) != -1) sym_trace_int("accesses", accesses);
}
