// Copies, moves, assignments and destruction of clients with and without an open session.
#include "world.h"
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include "smtpclient.h"
#include "opportunisticsecuresmtpclient.h"
#include "forcedsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "cpp/smtpclient.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
using namespace jed_utils;
using std::string;
extern int w_cls, w_acceptSelf;
static int prm(const char *n, int d) { return (int)sym_param(n, d); }
static bool same(const string &a, const string &b) { return sym_eq(a.data(), a.size(), b.data(), b.size()); }
static void acc(SmtpClient &, bool) {} static void acc(cpp::SmtpClient &, bool) {}
template <class C> static void acc(C &c, bool v) { c.setAcceptSelfSignedCert(v); }
static int getAcc(const SmtpClient &) { return -1; } static int getAcc(const cpp::SmtpClient &) { return -1; }
template <class C> static int getAcc(const C &c) { return c.getAcceptSelfSignedCert(); }
static void creds(SMTPClientBase &c, const string &u, const string &p, int o) { c.setCredentials(Credential(u.c_str(), p.c_str(), (RecommendedAuthenticationMethod)o)); }
template <class C> static auto creds(C &c, const string &u, const string &p, int o) -> decltype(c.setCredentials(cpp::Credential(u, p))) { return c.setCredentials(cpp::Credential(u, p, (RecommendedAuthenticationMethod)o)); }
static void srv(SMTPClientBase &c, const string &s) { c.setServerName(s.c_str()); }
template <class C> static auto srv(C &c, const string &s) -> decltype(c.setServerName(s)) { return c.setServerName(s); }

// what a client should be
struct Model { string server, user, pass, log; unsigned port = 0, tmo = 0; bool batch = false, cred = false, acc = false, gone = false; int opt = 0, conn = -1; };
template <class C> static void agree(const C &c, const Model &m, const char *what) {
  CHECK(22, same(c.getServerName(), m.server), what); CHECK(22, c.getServerPort() == m.port && c.getCommandTimeout() == m.tmo && c.getBatchMode() == m.batch, what);
  CHECK(22, same(c.getCommunicationLog(), m.log), what); int a = getAcc(c); CHECK(22, a < 0 || a == (int)m.acc, what);
  auto *k = c.getCredentials(); CHECK(22, (k != nullptr) == m.cred, what);
  if (k && m.cred) CHECK(22, same(k->getUsername(), m.user) && same(k->getPassword(), m.pass) && (int)k->getRecommendedAuthOption() == m.opt, what);
}
static string name(const char *nm) { string s = "mx"; unsigned char c; sym_bytes(&c, 1, nm); sym_assume(c != 0); s += (char)c; return s; }
template <class C> static C *fresh(Model &m, int which) {
  bool conn = prm("conn", 0); char b[16]; snprintf(b, 16, "server%d", which); m.server = conn ? b : name("server"); m.port = 2525 + which; m.tmo = 2 + which;
  if (!conn) { unsigned v; sym_bytes(&v, 4, "port"); m.port = v; unsigned t; sym_bytes(&t, 4, "tmo"); m.tmo = t; }
  C *c = new C(m.server.c_str(), m.port); c->setCommandTimeout(m.tmo); m.batch = prm("batch", -1) >= 0 ? prm("batch", 0) : sym_choice(2, "batch"); c->setBatchMode(m.batch);
  m.cred = sym_choice(2, "cred"); if (m.cred) { snprintf(b, 16, "user%d", which); m.user = b; m.pass = conn ? "pw" : name("pass"); m.opt = which + 1; creds(*c, m.user, m.pass, m.opt); }
  if (getAcc(*c) >= 0) { m.acc = sym_choice(2, "acc"); acc(*c, m.acc); }
  agree(*c, m, "a client does not return what it was given"); return c;
}
static PlaintextMessage *msg; static int failing;
template <class C> static void send(C &c, Model &m) {
  W.credOn = m.cred; W.authWant = m.opt == 1 ? 1 : m.opt == 2 ? 2 : 7; w_acceptSelf = m.acc; int before = W.nconn; W.cfg.tmo = (int)m.tmo;
  w_begin(); int r = c.sendMail(*msg); w_settle(r); sym_reach(r == 0 ? "send ok" : "send failed");
  if (!W.anyFault) CHECK(22, r == 0, "a copied or moved client does not work");
  m.log = c.getCommunicationLog();
  if (m.conn >= 0) CHECK(22, W.nconn == before || !W.c[m.conn].open, "the open session of a client is forgotten");
  m.conn = -1;
  for (int i = 0; i < W.nconn; i++) if (W.c[i].lastActive == W.inSend && W.c[i].open) m.conn = i;
}
static void ended(Model &m, const char *what) { if (m.conn >= 0 && !failing) { CHECK(22, !W.c[m.conn].open, what); CHECK(19, W.c[m.conn].quit == 1, "a batch session is not ended with QUIT when the client is destroyed"); } m.conn = -1; }
template <class C> static void life() {
  int64_t live = w_live(); int steps = prm("steps", 1), conn = prm("conn", 0); failing = W.cfg.faults != 0;
  {
    Model ma, mb; C *a = fresh<C>(ma, 0), *b = fresh<C>(mb, 1);
    if (conn) { if (sym_choice(2, "send a")) send(*a, ma); if (sym_choice(2, "send b")) send(*b, mb); }
    for (int i = 0; i < steps; i++) {
      int op = prm("op", -1) >= 0 && i == 0 ? prm("op", 0) : (int)sym_choice(conn ? 9 : 8, "op");
      switch (op) {
        case 0: { if (ma.gone) break; C *d = new C(*a); Model md = ma; md.conn = -1; agree(*d, md, "a copied client differs"); agree(*a, ma, "copying changes the source");
          srv(*d, "elsewhere"); d->setServerPort(1); creds(*d, "other", "secret", 3); d->setBatchMode(!ma.batch); acc(*d, !ma.acc); agree(*a, ma, "changing a copy changes the source");
          if (conn && sym_choice(2, "send copy")) { d->setBatchMode(ma.batch); md.cred = true; md.opt = 3; md.acc = !ma.acc; int n = W.nconn; send(*d, md); CHECK(22, W.nconn == n + 1, "a copied client uses the session of its source"); }
          delete d; ended(md, "the session of a copied client is never closed"); agree(*a, ma, "destroying a copy changes the source"); if (ma.conn >= 0) CHECK(22, W.c[ma.conn].open && W.c[ma.conn].quit == 0, "destroying a copy ends the session of its source"); sym_reach("copy"); break; }
        case 1: { if (ma.gone) break; *b = *a; Model old = mb; int c = mb.conn; mb = ma; mb.conn = -1; agree(*b, mb, "an assigned client differs"); agree(*a, ma, "assigning changes the source"); if (c >= 0) ended(old, "the session of the assigned client is never closed"); if (ma.conn >= 0) CHECK(22, W.c[ma.conn].open && W.c[ma.conn].quit == 0, "assigning ends the session of the source"); sym_reach("assign"); break; }
        case 2: { if (ma.gone) break; C *d = new C(std::move(*a)); agree(*d, ma, "a moved-to client differs"); if (sym_choice(2, "order")) { delete a; a = nullptr; if (ma.conn >= 0) CHECK(22, W.c[ma.conn].open && W.c[ma.conn].quit == 0, "destroying a moved-from client ends the session it gave away"); }
          agree(*d, ma, "a moved-to client differs after its source is destroyed"); delete a; a = d; sym_reach("move"); break; }
        case 3: { if (ma.gone) break; int c = mb.conn; Model old = mb; *b = std::move(*a); mb = ma; agree(*b, mb, "a move-assigned client differs"); if (c >= 0) ended(old, "the session of the assigned client is never closed"); ma = Model(); ma.gone = true; sym_reach("move assign"); break; }
        case 4: { if (ma.gone) break; C *p = a; *a = *p; agree(*a, ma, "self-assignment changes the client"); if (ma.conn >= 0) CHECK(22, W.c[ma.conn].open, "self-assignment ends the session"); break; }
        case 5: { if (ma.gone) break; C *p = a; *a = std::move(*p); agree(*a, ma, "self-move changes the client"); break; }
        case 6: { if (mb.gone) break; *a = *b; Model old = ma; int c = ma.conn; ma = mb; ma.conn = -1; ma.gone = false; agree(*a, ma, "an assigned client differs"); if (c >= 0) ended(old, "the session of the assigned client is never closed"); break; }
        case 7: { if (ma.gone) break; srv(*a, a->getServerName()); auto *k = a->getCredentials(); if (k) a->setCredentials(*k); agree(*a, ma, "setting a value to itself changes the client"); break; }
        case 8: { if (ma.gone) break; send(*a, ma); break; }
      }
      if (!ma.gone) agree(*a, ma, "a client changes by itself"); agree(*b, mb, "a client changes by itself");
    }
    if (conn) { if (!ma.gone && sym_choice(2, "last a")) send(*a, ma); if (sym_choice(2, "last b")) send(*b, mb); }
    if (sym_choice(2, "delete order")) { delete a; if (!ma.gone) ended(ma, "the session of a destroyed client is never closed"); agree(*b, mb, "destroying a client changes another"); if (mb.conn >= 0) CHECK(22, W.c[mb.conn].open && W.c[mb.conn].quit == 0, "destroying a client ends the session of another"); delete b; ended(mb, "the session of a destroyed client is never closed"); }
    else { delete b; ended(mb, "the session of a destroyed client is never closed"); if (ma.conn >= 0) CHECK(22, W.c[ma.conn].open && W.c[ma.conn].quit == 0, "destroying a client ends the session of another"); delete a; if (!ma.gone) ended(ma, "the session of a destroyed client is never closed"); }
  }
  for (int i = 0; i < W.nconn; i++) { CHECK(22, !W.c[i].open, "a socket is never closed"); CHECK(22, W.c[i].quit <= 1, "QUIT is sent twice on a session"); }
  CHECK(22, W.tlsLive == 0 && W.ctxLive == 0 && W.certLive == 0, "a TLS object is never freed"); CHECK(22, w_live() == live, "clients leak memory");
  sym_trace_int("conns", W.nconn);
}
extern "C" void sym_main() {
  w_init(); int cls = prm("cls", 0); w_cls = cls % 3; MessageAddress to("to@x.com"); W.msgTo = 1;
  msg = new PlaintextMessage(MessageAddress("from@y.org"), to, "subject", "body");
  switch (cls) { case 0: life<SmtpClient>(); break; case 1: life<OpportunisticSecureSMTPClient>(); break; case 2: life<ForcedSecureSMTPClient>(); break; case 3: life<cpp::SmtpClient>(); break; case 4: life<cpp::OpportunisticSecureSMTPClient>(); break; default: life<cpp::ForcedSecureSMTPClient>(); }
  delete msg;
}
