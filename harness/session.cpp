// Sessions: one to three messages through one client object against an arbitrary server.
#include "world.h"
#include <cstdio>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include "smtpclient.h"
#include "opportunisticsecuresmtpclient.h"
#include "forcedsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "htmlmessage.h"
#include "cpp/smtpclient.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
#include "cpp/plaintextmessage.hpp"
#include "cpp/htmlmessage.hpp"

using namespace jed_utils;
extern int w_cls, w_acceptSelf, w_failedConns;
static int nto, ncc, nbcc, nmsg, batch, cred, natt, htm, unread;

static Message *makeMsg(int k) {
  char b[64]; std::vector<MessageAddress> to, cc, bcc;
  for (int i = 0; i < nto; i++) { snprintf(b, 64, "to%02d-%d@x.com", k, i); to.emplace_back(b, i & 1 ? "To Name" : ""); }
  for (int i = 0; i < ncc; i++) { snprintf(b, 64, "cc%02d-%d@x.com", k, i); cc.emplace_back(b, "Cc Name"); }
  for (int i = 0; i < nbcc; i++) { snprintf(b, 64, "bcc%02d-%d@x.com", k, i); bcc.emplace_back(b, "Hidden"); }
  snprintf(b, 64, "from%02d@y.org", k);
  char s[32], t[32]; snprintf(s, 32, "subject %02d", k); snprintf(t, 32, "body %02d", k);
  std::vector<Attachment> at;            // bit k - 1 of natt: message k has an attachment, of htm: it is an HTML message
  if (natt >> (k - 1) & 1) { char f[16]; snprintf(f, 16, "att%d.txt", k); if (unread >> (k - 1) & 1) w_badfile(f, 1 + (int)sym_choice(3, "unreadable")); else w_file(f, "file data", 9); at.emplace_back(f, "name", ""); }
  if (htm >> (k - 1) & 1) return new HTMLMessage(MessageAddress(b, "Sender"), to.data(), to.size(), s, t, ncc ? cc.data() : nullptr, ncc, nbcc ? bcc.data() : nullptr, nbcc, at.empty() ? nullptr : at.data(), at.size());
  return new PlaintextMessage(MessageAddress(b, "Sender"), to.data(), to.size(), s, t, ncc ? cc.data() : nullptr, ncc, nbcc ? bcc.data() : nullptr, nbcc, at.empty() ? nullptr : at.data(), at.size());
}
static bool has(const std::string &s, const char *t) { return s.find(t) != std::string::npos; }

template <class C> static void configure(C &c) { c.setCommandTimeout((unsigned)W.cfg.tmo); c.setBatchMode(batch != 0); }
static void accept(SmtpClient &, bool) {}
static void accept(cpp::SmtpClient &, bool) {}
template <class C> static void accept(C &c, bool v) { c.setAcceptSelfSignedCert(v); }
static void creds(SMTPClientBase &c, const char *u, const char *p) { c.setCredentials(Credential(u, p)); }
template <class C> static auto creds(C &c, const char *u, const char *p) -> decltype(c.setCredentials(cpp::Credential(std::string(u), std::string(p)))) { return c.setCredentials(cpp::Credential(std::string(u), std::string(p))); }

// log: every reply and every line sent, in order (P13)
static size_t findEntry(const std::string &log, size_t from, char who, std::string text) {
  // client lines show CR LF as \r\n; replies are verbatim, a trailing line end is optional
  if (who == 'c') { std::string t; for (size_t i = 0; i < text.size(); i++) { if (text[i] == '\r' && i + 1 < text.size() && text[i + 1] == '\n') { t += "\\r\\n"; i++; } else t += text[i]; } text = t; }
  else { size_t z = text.find('\0'); if (z != std::string::npos) text.resize(z);   // a reply is kept as a C string
    while (!text.empty() && (text.back() == '\n' || text.back() == '\r')) text.pop_back(); }
  std::string k = "\n"; k += who; k += ": "; k += text;
  return log.find(k, from);
}

template <class C> static void life() {
  Message *msgs[16]; std::vector<Message *> dummy;
  for (int i = 0; i < nmsg; i++) msgs[i] = makeMsg(i + 1);
  int64_t live0 = w_live();
  W.credOn = cred; W.authWant = 7; W.msgTo = nto; W.msgCc = ncc; W.msgBcc = nbcc;
  int ret[16]; int conn0[16];
  {
    unsigned port = 2525; if (sym_param("port", 0)) { static const unsigned v[] = {1, 25, 255, 256, 258, 465, 587, 32767, 32768, 65535}; port = v[sym_choice(10, "port")]; } W.wantPort = (int)port;
    C *c = new C("mx.test", port); configure(*c); accept(*c, w_acceptSelf != 0);
    if (cred) creds(*c, "user", "pass");
    for (int i = 0; i < nmsg; i++) {
      int sessions0 = W.nconn; int failedBefore = w_failedConns; int nsend0 = W.nsend;
      W.mustFail = unread >> i & 1; w_begin(); ret[i] = c->sendMail(*msgs[i]); w_settle(ret[i]);
      sym_reach(ret[i] == 0 ? "send ok" : "send failed");
      int k = W.nconn - 1; conn0[i] = k;
      // P19 / P20 / P18 after each send
      if (i > 0 && ret[i - 1] != 0 && !(unread >> (i - 1) & 1)) {
        for (int j = 0; j < W.nconn; j++) if (failedBefore >> j & 1) { CHECK(20, W.c[j].lastActive < W.inSend, "the next message talks on the session of a failed one"); CHECK(18, W.c[j].lastActive < W.inSend, "the next message talks on the session of a failed one"); }
        if (nsend0 != W.nsend) CHECK(20, W.nconn > sessions0, "the message after a failed one does not start a session of its own");
      }
      if (ret[i] == 0) {
        if (!batch) { CHECK(19, W.nconn == sessions0 + 1, "a send without batch mode does not use a fresh connection"); CHECK(19, W.c[k].quit == 1, "a session does not end with QUIT"); CHECK(19, !W.c[k].open, "the connection is left open after the send"); CHECK(18, W.tlsLive == 0 && W.ctxLive == 0, "TLS objects are left behind after the send"); }
        else {
          if (i > 0 && ret[i - 1] == 0) CHECK(19, W.nconn == sessions0, "a batch send does not reuse the session");
          CHECK(19, W.c[k].open && W.c[k].quit == 0, "a batch session is ended before the client is destroyed");
        }
        std::string d = w_data(k, W.c[k].msgs - 1); char b[32];
        snprintf(b, 32, "body %02d\r\n", i + 1);
        CHECK(1, has(d, b), "success although the message content was not sent"); CHECK(20, has(d, b), "the wrong content is sent");
        for (int j = W.stepsInSend0; j < W.nstep; j++) if (W.s[j].kind == S_MAIL || W.s[j].kind == S_RCPT) {      // whose envelope
          std::string q; for (Chunk *x = W.first; x; x = x->next) if (x->step == j - 1 && x->conn == W.s[j].conn) q.append((const char *)x->b, x->n);
          if (W.s[j].kind == S_MAIL) snprintf(b, 32, "from%02d@y.org", i + 1); else snprintf(b, 32, "%02d-", i + 1);
          CHECK(20, has(q, b), "the sender or a recipient of another message is sent");
        }
        for (int j = 0; j < nmsg; j++) if (j != i) { snprintf(b, 32, "body %02d", j + 1); CHECK(20, !has(d, b), "content of another message is sent"); }
      }
    }
    if (on(13)) {
      std::string log = c->getCommunicationLog(); int k = W.nconn - 1; if (k >= 0 && W.c[k].lastActive != W.inSend) k = -1; size_t pos = 0; bool okc = true, okr = true;
      CHECK(13, log.size() < 200000, "log is not a valid string");
      if (k >= 0) {
        int nr = 0; auto replies = [&](int upto) { for (; nr <= upto; nr++) if (W.s[nr].conn == k && W.s[nr].answered && W.s[nr].rb) { size_t f = findEntry(log, pos, 's', std::string((const char *)W.s[nr].rb, W.s[nr].rn)); if (f == std::string::npos) okr = false; else pos = f + 1; } };
        int nehlo = 0, nauth = 0, lastData = -1;
        for (Chunk *q = W.first; q && okc && okr; q = q->next) if (q->conn == k) {
          bool data = q->step >= 0 && W.s[q->step].kind == S_DATA && !(q->n == 6 && !memcmp(q->b, "QUIT\r\n", 6));
          replies(q->step);
          if (data) {        // the whole content of this mail at once: one entry per header line, then the text of the body
            if (lastData == q->step) continue; lastData = q->step;
            std::string d; for (Chunk *r = q; r; r = r->next) if (r->conn == k && r->step == q->step && !(r->n == 6 && !memcmp(r->b, "QUIT\r\n", 6))) d.append((const char *)r->b, r->n);
            size_t cut = d.find("; file=\""); bool complete = d.size() >= 5 && d.compare(d.size() - 5, 5, "\r\n.\r\n") == 0;
            size_t at = 0; bool head = true; std::string bnd;
            while (at < d.size() && okc) {
              size_t e = d.find("\r\n", at); if (e == std::string::npos) e = d.size();
              std::string l = d.substr(at, e - at); size_t nx = e + 2; at = nx;
              if (l.empty()) { head = false; continue; }
              if (head) { if (l.compare(0, 13, "Content-Type:") == 0) { size_t x = l.find("boundary="); if (x != std::string::npos) { bnd = l.substr(x + 9); if (bnd.size() > 1 && bnd[0] == '"') bnd = bnd.substr(1, bnd.size() - 2); } } }
              else if (!bnd.empty() && l == "--" + bnd + "--") break;                                   // multipart framing after the body is not part of the log
              else if (!bnd.empty() && l == "--" + bnd && cut != std::string::npos && nx < d.size() && d.find("\r\n", nx) > cut) break;
              std::string key = head ? "\nc: " + l : l;
              if (!head && l[0] == '.' && l != "." ) key = l.substr(1);
              size_t f = log.find(key, pos); if (f == std::string::npos) { okc = false; sym_trace("missing", key.data(), key.size()); } else pos = f + 1;
            }
            if (complete && okc) { size_t f = findEntry(log, pos, 'c', "\r\n.\r\n"); if (f == std::string::npos) okc = false; else pos = f + 1; }
            continue;
          }
          std::string t((const char *)q->b, q->n); int st = q->step;
          while ((t.size() < 2 || t[t.size() - 1] != '\n') && q->next && q->next->step == st && q->next->conn == k) { q = q->next; t.append((const char *)q->b, q->n); }   // written in pieces
          if (!strncmp(t.c_str(), "ehlo", 4)) nehlo++;
          if (q->step >= 0 && (W.s[q->step].kind == S_AUTH_LOGIN || W.s[q->step].kind == S_AUTH_USER) && t != "QUIT\r\n") continue;
          size_t f;
          if (!strncmp(t.c_str(), "AUTH ", 5)) { size_t x = log.find("***", pos); f = x == std::string::npos ? x : log.rfind("\nc: ", x); if (f != std::string::npos && f + 1 < pos) f = std::string::npos; nauth++; }
          else f = findEntry(log, pos, 'c', t);
          if (f == std::string::npos) { okc = false; sym_trace("missing", t.data(), t.size()); } else pos = f + 1;
        }
        if (okc && okr) replies(W.nstep - 1);
        CHECK(13, okc, "a line that was sent is missing from the communication log or out of order");
        CHECK(13, okr, "a reply is missing from the communication log or out of order");
        size_t n = 0, ne = 0, na = 0; for (size_t p = 0; (p = log.find("\ns: ", p)) != std::string::npos; p++) n++;
        for (size_t p = 0; (p = log.find("\nc: ehlo", p)) != std::string::npos; p++) ne++;
        for (size_t p = 0; (p = log.find("***\\r\\n", p)) != std::string::npos; p++) na++;
        int answered = 0; for (int i = 0; i < W.nstep; i++) if (W.s[i].conn == k && W.s[i].answered) answered++;
        CHECK(13, n >= (size_t)answered, "a reply is missing from the communication log");
        CHECK(13, (int)ne <= nehlo + (W.sendFault != 0), "the log is not restarted for a new connection");
        (void)na; (void)nauth;
        for (int j = 0; j < nmsg - 1; j++) if (conn0[j] != k) { char b[32]; snprintf(b, 32, "body %02d", j + 1); CHECK(13, !has(log, b), "the log is not restarted for a new connection"); }
      }
    }
    delete c;
  }
  for (int j = 0; j < W.nconn; j++) {
    Conn &c = W.c[j];
    CHECK(18, !c.open, "a socket is never closed");
    if (batch && c.msgs && !(w_failedConns >> j & 1)) CHECK(19, c.quit == 1, "a batch session is not ended with QUIT when the client is destroyed");
    if (!(w_failedConns >> j & 1)) { int e = 0, a = 0, m = 0; for (int i = 0; i < W.nstep; i++) if (W.s[i].conn == j) { if (W.s[i].kind == S_EHLO) e++; if (W.s[i].kind >= S_AUTH_PLAIN && W.s[i].kind <= S_AUTH_LOGIN) a++; if (W.s[i].kind == S_EOD) m++; }
      CHECK(19, e <= 1 + c.tls && a <= 1 && c.mails == m, "a session has more than one greeting exchange, authentication or transaction per message"); }
  }
  CHECK(18, W.tlsLive == 0, "a TLS connection object is never freed");
  CHECK(18, W.ctxLive == 0, "a TLS context is never freed");
  CHECK(18, W.certLive == 0, "a certificate is never freed");
  if (on(18) || on(14)) sym_assert(w_live() == live0, "memory is leaked by the session");
  for (int i = 0; i < nmsg; i++) delete msgs[i];
}

extern "C" void sym_main() {
  w_init();
  int cls = (int)sym_param("cls", 0); w_cls = cls % 3; w_acceptSelf = (int)sym_param("acceptself", 0);
  if (w_acceptSelf == 2) w_acceptSelf = (int)w_choice(2, "acceptself");
  nto = (int)sym_param("nto", 1); ncc = (int)sym_param("ncc", 0); nbcc = (int)sym_param("nbcc", 0); nmsg = (int)sym_param("nmsg", 1); batch = (int)sym_param("batch", 0); cred = (int)sym_param("cred", 0); natt = (int)sym_param("natt", 0); htm = (int)sym_param("htm", 0); unread = (int)sym_param("unread", 0);
  switch (cls) {
    case 0: life<SmtpClient>(); break;
    case 1: life<OpportunisticSecureSMTPClient>(); break;
    case 2: life<ForcedSecureSMTPClient>(); break;
    case 3: life<cpp::SmtpClient>(); break;
    case 4: life<cpp::OpportunisticSecureSMTPClient>(); break;
    default: life<cpp::ForcedSecureSMTPClient>(); break;
  }
}
