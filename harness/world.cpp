#include "world.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <strings.h>
#include <sys/select.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <openssl/bio.h>
#include <openssl/ssl.h>

World W; int P; int w_cls;           // w_cls: 0 plain, 1 opportunistic, 2 forced
int w_acceptSelf;
static int64_t wblocks;
static bool in(uint64_t m) { return P == 0 || (m >> P & 1); }
#define M1(a) (1ULL << (a))
#define CHECKM(m, c, msg) do { if (in(m)) sym_assert((c), msg); } while (0)

void *w_alloc(size_t n) { wblocks++; void *p = malloc(n); if (!p) abort(); return p; }
int64_t w_live() { return sym_live() - wblocks; }

// ---- environment decisions, kept on a tape so that a second run can repeat them ----
struct Rec { Rec *next; int n; uint64_t v; unsigned char *b; };
static Rec *tapeFirst, *tapeLast, *tapeCur; static int tapePlay;
static Rec *push() { Rec *r = (Rec *)w_alloc(sizeof(Rec)); r->next = nullptr; r->n = 0; r->b = nullptr; if (tapeLast) tapeLast->next = r; else tapeFirst = r; tapeLast = r; return r; }
uint64_t w_choice(uint64_t n, const char *name) {
  if (n <= 1) return 0;
  if (tapePlay && tapeCur) { Rec *r = tapeCur; tapeCur = r->next; if (r->n == -1 && r->v < n) return r->v; return 0; }
  uint64_t v = sym_choice(n, name);
  if (W.tapeOn) { Rec *r = push(); r->n = -1; r->v = v; }
  return v;
}
void w_bytes(void *p, size_t n, const char *name) {
  if (!n) return;
  if (tapePlay && tapeCur && tapeCur->n == (int)n) { memcpy(p, tapeCur->b, n); tapeCur = tapeCur->next; return; }
  sym_bytes(p, n, name);
  if (W.tapeOn && !tapePlay) { Rec *r = push(); r->n = (int)n; r->b = (unsigned char *)w_alloc(n); memcpy(r->b, p, n); }
}
static int w_int(const char *name) { int v; w_bytes(&v, 4, name); return v; }

static void resetWorld() {
  WorldCfg c = W.cfg; int tape = W.tapeOn;
  memset(&W, 0, sizeof W); W.cfg = c; W.tapeOn = tape;
  W.maxstep = (int)sym_param("maxstep", 96); W.s = (Step *)w_alloc(sizeof(Step) * (size_t)W.maxstep); memset((void *)W.s, 0, sizeof(Step) * (size_t)W.maxstep);
  W.fdbase = (int)sym_param("fdbase", 3); int sg = (int)sym_param("sig", 0); W.sigBlk = W.sigBlk0 = sg > 0; W.sigPend = W.sigPend0 = sg > 1;
  for (int i = 0; i < MAXFD; i++) W.fdconn[i] = -1;
  for (int i = 0; i < MAXCONN; i++) { W.c[i].cur = W.c[i].last = -1; W.c[i].fd = -1; }
}
void w_init() {
  P = (int)sym_param("prop", 0);
  resetWorld();
  W.cfg.faults = (int)sym_param("faults", 0); W.cfg.budget = (int)sym_param("budget", 1); W.cfg.codes = (int)sym_param("codes", 1);
  W.cfg.tmo = (int)sym_param("tmo", 2); W.cfg.starttls = (int)sym_param("starttls", 1); W.cfg.authmask = (int)sym_param("authmask", 7); W.cfg.ehlolayout = (int)sym_param("layout", 0);
  W.cfg.text = (int)sym_param("text", 0); W.cfg.jun = (int)sym_param("anysplit", 0); W.cfg.kwcase = (int)sym_param("kwcase", 0); W.cfg.jlen = (int)sym_param("jlen", 8); W.cfg.words = (int)sym_param("words", 0); W.cfg.longlen = (int)sym_param("longlen", 0);
}
void w_rewind() { resetWorld(); tapePlay = 1; tapeCur = tapeFirst; }

// ---- fault menu ----
static bool faultAllowed(int f) { return (W.cfg.faults & f) && W.nfault < W.cfg.budget; }
static void fault() { W.nfault++; W.anyFault = 1; }

// a write to a connection the peer has closed
static void sigPipe(bool noSignal) {
  if (noSignal || W.sigIgn) return;
  if (W.sigBlk) { W.sigPend = 1; return; }
  CHECKM(M1(14) | M1(17), 0, "writing to a closed connection raises SIGPIPE and ends the process");
}

// ---- connections and steps ----
static Conn *connOfFd(int fd) { if (fd < FD_BASE || fd >= FD_BASE + MAXFD) return nullptr; int k = W.fdconn[fd - FD_BASE]; return k < 0 ? nullptr : &W.c[k]; }
static int fdOk(int fd) { return fd >= FD_BASE && fd < FD_BASE + MAXFD && W.fdopen[fd - FD_BASE]; }
static int newStep(Conn *c, int kind, int expect) {
  if (W.nstep >= W.maxstep) { sym_inc("too many protocol steps"); return W.maxstep - 1; }
  int i = W.nstep++; Step &s = W.s[i]; memset(&s, 0, sizeof s);
  s.kind = kind; s.conn = (int)(c - W.c); s.tls = c->tls; s.expect = expect; s.tsent = W.now;
  c->cur = i; c->last = i; return i;
}
static bool stepOk(int i) { if (i < 0) return false; Step &s = W.s[i]; if (!s.answered || s.malformed) return false; return s.code == s.expect; }

// ---- building replies ----
static void putReply(Conn *c, const unsigned char *p, int n) {
  unsigned char *q = (unsigned char *)w_alloc(n ? n : 1); memcpy(q, p, n); if (c->cur >= 0) { W.s[c->cur].rb = q; W.s[c->cur].rn = n; } c->q = q; c->qlen = n; c->qpos = 0; c->qat = W.now; c->nseg = 0; c->qseg = 0;
}
struct Buf { unsigned char b[9000]; int n; void lit(const char *s) { while (*s) b[n++] = (unsigned char)*s++; } void raw(const unsigned char *s, int k) { for (int i = 0; i < k; i++) b[n++] = s[i]; } };
static int digits(unsigned char *d) {
  w_bytes(d, 3, "code");
  int ok = 1; for (int i = 0; i < 3; i++) ok &= (d[i] >= '0') & (d[i] <= '9');
  sym_assume(ok);
  return (d[0] - '0') * 100 + (d[1] - '0') * 10 + (d[2] - '0');
}
static void ehloLines(Buf &b, const unsigned char *d, bool tls) {
  int starttls = W.cfg.starttls, auth = W.cfg.authmask, layout = W.cfg.ehlolayout;
  if (starttls == 2) starttls = (int)w_choice(2, "starttls");
  if (auth < 0) auth = (int)w_choice(8, "authmask");
  if (tls) starttls = 0; 
  if (!tls) W.startOffered = starttls;
  W.authOffered = auth;
  if (layout < 0) layout = (int)w_choice(6, "layout");
  char al[256]; int an = 0; al[0] = 0; if (auth) { strcpy(al, "AUTH"); if (W.cfg.words == 2) strcat(al, " NTLM GSSAPI CRAM-MD5 DIGEST-MD5 SCRAM-SHA-1 SCRAM-SHA-256 OAUTHBEARER XOAUTH PLAIN-CLIENTTOKEN"); if (auth & 1) strcat(al, " PLAIN"); if (auth & 2) strcat(al, " LOGIN"); if (auth & 4) strcat(al, " XOAUTH2"); if (W.cfg.words == 1) strcat(al, " CRAM-MD5 XPLAIN LOGINS"); an = (int)strlen(al); }
  const char *ln[64]; int n = 0; ln[n++] = "mx.test";
  const char *A = an ? al : nullptr, *S = starttls ? "STARTTLS" : nullptr;
  if (layout == 0) { ln[n++] = "SIZE 1000"; if (S) ln[n++] = S; if (A) ln[n++] = A; ln[n++] = "HELP"; }
  else if (layout == 1) { if (A) ln[n++] = A; ln[n++] = "8BITMIME"; if (S) ln[n++] = S; }          // STARTTLS (or 8BITMIME) last
  else if (layout == 2) { if (S) ln[n++] = S; ln[n++] = "HELP"; if (A) ln[n++] = A; }               // AUTH last
  else if (layout == 3) { if (A) ln[n++] = A; if (S) ln[n++] = S; ln[n++] = "CHUNKING"; }
  else if (layout == 4) { if (S) ln[n++] = S; if (A) ln[n++] = A; }                                  // nothing else: one line if nothing is offered
  else if (layout == 6 || layout == 7) {                                                                          // lines that resemble the two (6); AUTH with '=' (7)
    ln[n++] = "AUTHENTICATION PLAIN LOGIN XOAUTH2"; ln[n++] = "STARTTLSX"; ln[n++] = "AUTH-PLUS=PLAIN LOGIN XOAUTH2"; ln[n++] = "X-STARTTLS"; ln[n++] = "NOTE 250-STARTTLS 250-AUTH PLAIN LOGIN XOAUTH2 250 STARTTLS";
    if (S) ln[n++] = S; ln[n++] = "XAUTH PLAIN LOGIN XOAUTH2"; if (A) { if (layout == 7) al[4] = '='; ln[n++] = A; } ln[n++] = "AUTH2 PLAIN LOGIN XOAUTH2"; }
  else { for (int i = 0; i < 20; i++) ln[n++] = i & 1 ? "XEXT-ONE" : "XSTARTTLS 250"; if (A) ln[n++] = A; for (int i = 0; i < 20; i++) ln[n++] = "X"; if (S) ln[n++] = S; }   // a long list
  for (int i = 0; i < n; i++) {
    b.raw(d, 3); b.lit(i == n - 1 ? " " : "-"); int at = b.n; b.lit(ln[i]); b.lit("\r\n");
    if (W.cfg.kwcase && (ln[i] == A || ln[i] == S))          // the keywords in any letter case
      for (int k = at; k < b.n; k++) if (b.b[k] >= 'A' && b.b[k] <= 'Z') { unsigned char low, up = b.b[k]; w_bytes(&low, 1, "case"); low &= 0x20; b.b[k] = up | low; }
  }
}
// a reply of exactly len bytes: one continuation line of the right length first (where = 0) or before the last line
static void padReply(Buf &b, const unsigned char *d, int len, int where) {
  int add = len - b.n; if (add < 8) return;
  int at = 0; if (where) { at = b.n - 2; while (at > 0 && b.b[at - 1] != '\n') at--; }
  for (int i = b.n - 1; i >= at; i--) b.b[i + add] = b.b[i];
  b.b[at] = d[0]; b.b[at + 1] = d[1]; b.b[at + 2] = d[2]; b.b[at + 3] = '-'; for (int i = 4; i < add - 2; i++) b.b[at + i] = 'x'; b.b[at + add - 2] = '\r'; b.b[at + add - 1] = '\n';
  b.n += add;
}
static const int TMO_CODE[] = {-3, -21, -31, -82, -82, -82, -82, -82, -86, -88, -90, -98, 0, 0};
static const int ERR_CODE[] = {-3, -20, -30, -81, -81, -81, -81, -81, -85, -87, -89, -97, 0, 0};

// the server decides how it answers the step the client is waiting on
static void decide(Conn *c) {
  if (c->cur < 0) return;
  Step &s = W.s[c->cur]; if (s.decided) return; s.decided = 1;
  int menu[16], n = 0; menu[n++] = 0;
  static const int kinds[] = {F_SILENT, F_EOF, F_RESET, F_MALFORMED, F_DELAY, F_MULTI, F_SPLIT, F_CUT, F_TRICKLE, F_BABBLE, F_LONG, F_JUNK, F_TEXT};
  for (int f : kinds) if (faultAllowed(f)) menu[n++] = f;
  int k = menu[w_choice(n, "reply")];
  if (k == F_SILENT || k == F_EOF || k == F_RESET) {
    fault(); s.silent = k; if (k == F_SILENT) c->silent = 1; else if (k == F_EOF) c->eof = 1; else c->reset = 1; return;
  }
  Buf b; b.n = 0;
  if (k == F_BABBLE) { fault(); s.silent = k; c->babble = 1; return; }      // continuation lines without end
  if (k == F_JUNK) {                        // arbitrary bytes, then silence, a closed connection or more of them
    fault(); s.malformed = 1; s.code = -1; unsigned char j[64]; int m = W.cfg.jlen > 64 ? 64 : W.cfg.jlen; w_bytes(j, m, "junk"); b.raw(j, m); putReply(c, b.b, b.n);
    uint64_t w = w_choice(3, "after junk"); if (w == 0) c->silent = 1; else if (w == 1) c->eof = 1; else { c->nseg = 1; c->segat[0] = m / 2; } return;
  }
  if (k == F_MALFORMED) {
    fault(); s.malformed = 1; unsigned char m[4]; w_bytes(m, 4, "malformed");
    int dg = 1; for (int i = 0; i < 3; i++) dg &= (m[i] >= '0') & (m[i] <= '9');
    sym_assume(!dg); sym_assume((m[0] != '\n') & (m[1] != '\n') & (m[2] != '\n'));
    b.raw(m, 4); b.lit(" x\r\n"); putReply(c, b.b, b.n); s.code = -1; return;
  }
  unsigned char d[3]; int code;
  if (W.cfg.codes == 1 || (W.cfg.codes == 2 && W.inSend == 1) || (W.cfg.codes == 3 && W.inSend == 2) || (W.cfg.codes == 4 && s.kind == S_MAIL)) code = digits(d);
  else { code = s.expect; d[0] = '0' + code / 100; d[1] = '0' + code / 10 % 10; d[2] = '0' + code % 10; }
  for (int i = 0; i < 2; i++) if (W.fail[i] && c->addr == 0xC0000207u + i && s.kind == W.fail[i]) { memcpy(d, W.failCode[i], 3); code = (d[0] - '0') * 100 + (d[1] - '0') * 10 + d[2] - '0'; }
  s.code = code;
  if (s.kind == S_EHLO) ehloLines(b, d, c->tls);
  else {
    if (k == F_MULTI) { W.nfault++; b.raw(d, 3); b.lit("-mx.test says 550 no\r\n"); b.raw(d, 3); b.lit("-250 450\r\n"); }
    b.raw(d, 3);
    int text = (W.cfg.faults & F_TEXT) && k != F_TEXT ? 0 : W.cfg.text; if (k == F_TEXT) W.nfault++;
    if (text > 0) { unsigned char t[16]; int m = text > 16 ? 16 : text; w_bytes(t, m, "text"); int ok = t[0] == ' '; for (int i = 1; i < m; i++) ok &= (t[i] != '\r') & (t[i] != '\n'); sym_assume(ok); b.raw(t, m); }     // any text after the code
    else if (text < 0) {}                                                         // the code alone
    else b.lit(s.kind == S_GREET ? " mx.test ESMTP ready" : " 2.0.0 done 550");
    b.lit("\r\n");
  }
  if (k == F_LONG) { W.nfault++; static const int L[] = {1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049}; int fin = b.n; while (fin > 1 && b.b[fin - 2] != '\n') fin--; int w = W.cfg.longlen > 0 ? 0 : (int)w_choice(9, "long"); padReply(b, d, W.cfg.longlen > 0 ? W.cfg.longlen : w < 8 ? L[w] : 1024 + (b.n - (fin - 1)), w_choice(2, "pad last")); }
  putReply(c, b.b, b.n);
  if (k == F_CUT) { fault(); s.silent = k; c->qlen = (int)w_choice(b.n - 1, "cut") + 1; c->cut = 1; if (w_choice(2, "cut eof")) c->eof = 1; else c->silent = 1; }
  if (k == F_TRICKLE) { fault(); s.silent = k; c->trickle = 1; c->cut = 1; }
  if (k == F_DELAY) { W.nfault++; c->qat = W.now + 1 + (int)w_choice(W.cfg.tmo > 2 ? W.cfg.tmo - 1 : 1, "delay"); if (c->qat > W.now + W.cfg.tmo - 1) { c->qat = W.now + W.cfg.tmo - 1; } }
  if (k == F_SPLIT) { W.nfault++; c->nseg = 1; static const int at[] = {1, 2, 3, 4, 6}; if (W.cfg.jun) c->segat[0] = 1 + (int)w_choice(b.n - 1, "split"); else { int w = (int)w_choice(7, "split"); c->segat[0] = w < 5 ? at[w] : w == 5 ? b.n - 1 : b.n - 2; } }
}

// the client sends n bytes over connection c
static int classify(Conn *c, const char *l, int n) {
  if (c->last >= 0) { int k = W.s[c->last].kind; if (stepOk(c->last)) { if (k == S_AUTH_LOGIN) return S_AUTH_USER; if (k == S_AUTH_USER) return S_AUTH_PASS; } }
  if (n >= 4 && !strncasecmp(l, "EHLO", 4)) return S_EHLO;
  if (n == 8 && !strncasecmp(l, "STARTTLS", 8)) return S_STARTTLS;
  if (n >= 10 && !strncasecmp(l, "AUTH PLAIN", 10)) return S_AUTH_PLAIN;
  if (n >= 10 && !strncasecmp(l, "AUTH LOGIN", 10)) return S_AUTH_LOGIN;
  if (n >= 12 && !strncasecmp(l, "AUTH XOAUTH2", 12)) return S_AUTH_XOAUTH2;
  if (n >= 10 && !strncasecmp(l, "MAIL FROM:", 10)) return S_MAIL;
  if (n >= 8 && !strncasecmp(l, "RCPT TO:", 8)) return S_RCPT;
  if (n == 4 && !strncasecmp(l, "DATA", 4)) return S_DATA;
  if (n == 4 && !strncasecmp(l, "QUIT", 4)) return S_QUIT;
  if (c->last >= 0) { int k = W.s[c->last].kind; if (k == S_AUTH_LOGIN) return S_AUTH_USER; if (k == S_AUTH_USER) return S_AUTH_PASS; }
  return S_OTHER;
}
static int rcptCount(Conn *c) { int k = 0; for (int i = W.nstep - 1; i >= 0; i--) { Step &s = W.s[i]; if (s.conn != (int)(c - W.c)) continue; if (s.kind == S_RCPT) k++; else if (s.kind == S_MAIL) break; } return k; }
static int mailTries(Conn *c) { int k = 0; for (int i = W.nstep - 1; i >= 0; i--) { Step &s = W.s[i]; if (s.conn != (int)(c - W.c)) continue; if (s.kind == S_MAIL) k++; else break; } return k; }
static const uint64_t ORDER = M1(2) | M1(20);
static void command(Conn *c, int tls) {
  int n = c->linelen - 2; char *l = c->line; int prev = c->last; int pk = prev >= 0 ? W.s[prev].kind : -1;
  int k = classify(c, l, n);
  static const int expect[] = {220, 250, 220, 235, 334, 334, 235, 235, 250, 250, 354, 250, 221, 0};
  if (c->quit) CHECKM(ORDER | M1(19), 0, "a command follows QUIT on the same connection");
  if (k == S_QUIT) {
    c->quit++; W.quits++;
    CHECKM(M1(19) | M1(2), c->quit == 1, "QUIT is sent more than once on a connection");
  } else {
    bool ok = stepOk(prev);
    if (prev >= 0) CHECKM(ORDER, W.s[prev].answered, "a command is sent before the previous one was answered");
    else CHECKM(ORDER, 0, "a command is sent before the greeting was read");
    switch (k) {
      case S_EHLO: CHECKM(ORDER, (pk == S_GREET && ok) || (pk == S_STARTTLS && ok && tls), "EHLO out of order"); break;
      case S_STARTTLS: CHECKM(ORDER | M1(8), pk == S_EHLO && ok && !tls, "STARTTLS out of order"); CHECK(15, !ok || W.startOffered, "STARTTLS is sent although the latest EHLO reply does not offer it"); break;
      case S_AUTH_PLAIN: case S_AUTH_LOGIN: case S_AUTH_XOAUTH2: CHECKM(ORDER | M1(11), pk == S_EHLO && ok, "AUTH out of order"); CHECKM(M1(11), W.credOn, "authentication without credentials"); CHECKM(M1(11) | M1(15), W.authOffered & (k == S_AUTH_PLAIN ? 1 : k == S_AUTH_LOGIN ? 2 : 4), "a mechanism is used that the latest EHLO reply does not offer"); break;
      case S_AUTH_USER: CHECKM(ORDER | M1(11), pk == S_AUTH_LOGIN && ok, "user name sent without a challenge"); break;
      case S_AUTH_PASS: CHECKM(ORDER | M1(11), pk == S_AUTH_USER && ok, "password sent without a challenge"); break;
      case S_MAIL: {
        bool retry = pk == S_MAIL && W.s[prev].answered && !W.s[prev].malformed && W.s[prev].code == 501;
        bool authDone = (pk == S_AUTH_PLAIN || pk == S_AUTH_XOAUTH2 || pk == S_AUTH_PASS) && ok;
        bool ehloDone = pk == S_EHLO && ok;
        CHECKM(ORDER | M1(1), retry || authDone || ehloDone || (pk == S_EOD && ok), "sender command out of order (previous step refused or unfinished)");
        if (ehloDone && W.credOn) CHECKM(M1(11) | M1(1) | M1(2), w_cls == 1 && !tls, "mail is sent without the required authentication");
        if (retry) CHECKM(M1(2), mailTries(c) < 3, "sender command repeated more than three times"); else c->mails++;
        break; }
      case S_RCPT: CHECKM(ORDER | M1(1), (pk == S_MAIL || pk == S_RCPT) && ok, "recipient command after a refused or unfinished step"); break;
      case S_DATA: CHECKM(ORDER | M1(1), pk == S_RCPT && ok, "DATA after a refused or unfinished step"); CHECKM(ORDER | M1(1) | M1(3), rcptCount(c) == W.msgTo + W.msgCc + W.msgBcc, "DATA although not every recipient was announced"); break;
      default: CHECKM(ORDER | M1(3) | M1(25), 0, "an unknown line is sent as a command"); break;
    }
    if (!tls) {
      W.cmdPlain++;
      if (w_cls != 0 && k >= S_AUTH_PLAIN && k <= S_AUTH_XOAUTH2) CHECKM(M1(8) | M1(9), 0, "credentials sent outside TLS by a secure client");
      if (w_cls == 1 && W.startOffered && k >= S_MAIL && k <= S_DATA) CHECKM(M1(8), 0, "envelope sent in clear although STARTTLS was offered");
    }
  }
  newStep(c, k, expect[k]);
  if (k == S_DATA) { c->dataMode = 1; c->databytes = 0; c->sol = 1; c->dot = c->dotcr = c->cr = c->done = c->early = 0; }
  if (k == S_QUIT) { c->cur = -1; }
  c->linelen = 0;
}
static void content(Conn *c, const unsigned char *p, int n, int tls) {
  Step &s = W.s[c->last];
  CHECKM(M1(2) | M1(1) | M1(20), s.answered && !s.malformed && s.code == 354, "message content is sent although DATA was not answered with 354");
  if (w_cls == 1 && !tls && W.startOffered) CHECKM(M1(8), 0, "message sent in clear although STARTTLS was offered");
  if (W.sendFault == 1 + (int)(c - W.c)) CHECKM(M1(7), 0, "more of the message is sent after a failed write");
  c->databytes += n;
  unsigned char sol = c->sol, dot = c->dot, dotcr = c->dotcr, cr = c->cr, done = c->done, early = c->early;
  for (int i = 0; i < n; i++) {
    unsigned char ch = p[i], isr = ch == '\r', isn = ch == '\n', isd = ch == '.';
    early |= done; done |= dotcr & isn;
    unsigned char nsol = cr & isn, ndot = sol & isd, ndotcr = dot & isr;
    cr = isr; sol = nsol; dot = ndot; dotcr = ndotcr;
  }
  c->sol = sol; c->dot = dot; c->dotcr = dotcr; c->cr = cr; c->done = done; c->early = early;
}
static void clientSends(Conn *c, const unsigned char *p, int n, int tls) {
  W.nsend++; W.tstep = W.now; c->lastActive = W.inSend;
  Chunk *k = (Chunk *)w_alloc(sizeof(Chunk) + n); k->next = nullptr; k->n = (unsigned)n; k->tls = tls; k->conn = (int)(c - W.c); k->step = c->last; memcpy(k->b, p, n); k->b[n] = 0;
  if (W.lastc) W.lastc->next = k; else W.first = k; W.lastc = k;
  if (!tls) { W.plainBytes += n; CHECKM(M1(9), w_cls != 2, "a forced-TLS client sends in clear text"); CHECKM(M1(8) | M1(9) | M1(10), !c->tls, "clear text is sent on a connection that was switched to TLS"); }
  int i = 0;
  if (c->dataMode) {
    Step &s = W.s[c->last];
    bool open = s.kind == S_DATA && (!s.answered || s.malformed || s.code != 354);
    if (!(open && n == 6 && !memcmp(p, "QUIT\r\n", 6))) { content(c, p, n, tls); return; }
    c->dataMode = 0;
  }
  for (; i < n; i++) {
    if (c->linelen + 2 > c->linecap) { int cap = c->linecap ? c->linecap * 4 : 2048; char *m = (char *)w_alloc((unsigned)cap); if (c->linelen) memcpy(m, c->line, (unsigned)c->linelen); c->line = m; c->linecap = cap; }
    if (c->linelen >= 100000) { sym_inc("command line too long for the model"); return; }
    c->line[c->linelen++] = (char)p[i];
    if (p[i] == '\n' && c->linelen >= 2 && c->line[c->linelen - 2] == '\r') {
      command(c, tls);
      if (c->dataMode && i + 1 < n) { content(c, p + i + 1, n - i - 1, tls); return; }
    }
  }
}
// the client wants to read: complete the step bookkeeping
static void beforeRead(Conn *c) {
  if (!c->greeted) { c->greeted = 1; newStep(c, S_GREET, 220); }
  if (c->dataMode && c->databytes && c->cur < 0 && W.s[c->last].kind == S_DATA) {
    unsigned char fin = c->done & (c->early ^ 1);
    CHECKM(M1(5) | M1(2) | M1(7), fin, "the server does not see exactly one end of data where the client finishes the message");
    sym_assume(fin);
    if (W.s[c->last].answered && W.s[c->last].code == 354) { newStep(c, S_EOD, 250); c->dataMode = 0; c->msgs++; }
  }
  decide(c);
}
// bytes available now; -1 none yet, -2 never
static int avail(Conn *c) {
  if (c->babble) return 1 << 20;
  if (c->trickle && c->qpos < c->qlen) return c->qat > W.now ? -1 : 1;
  if (c->qpos < c->qlen) { if (c->qat > W.now) return -1; int lim = c->qlen; if (c->qseg < c->nseg) lim = c->segat[c->qseg]; if (lim <= c->qpos) return -1; return lim - c->qpos; }
  return -2;
}
static int takeBytes(Conn *c, unsigned char *buf, int n) {
  int a = avail(c); if (a > n) a = n;
  if (c->babble) {
    static const char t[] = "250-again\r\n"; for (int i = 0; i < a; i++) buf[i] = (unsigned char)t[(c->babbled + i) % 11]; c->babbled += a;
    if (c->babbled > (4 << 20)) { W.hung = 1; CHECKM(M1(17) | M1(14) | M1(15), 0, "the client never stops reading a reply without end"); sym_stop(); }
    return a;
  }
  memcpy(buf, c->q + c->qpos, a); c->qpos += a;
  if (c->qseg < c->nseg && c->qpos >= c->segat[c->qseg]) { c->qseg++; c->qat = W.now + 1; }
  if (c->trickle) c->qat = W.now + 1;
  if (c->qpos == c->qlen && c->cur >= 0 && !c->cut) { W.s[c->cur].answered = 1; c->cur = -1; }
  return a;
}
static void blocksForever() { W.hung = 1; CHECKM(M1(17) | M1(14) | M1(1), 0, "the client blocks for ever on a read"); sym_stop(); }
// returns n>0, 0 (closed) or -1 with errno; shared by recv and the TLS read
static int readConn(Conn *c, void *buf, int n) {
  beforeRead(c);
  int waited = 0;
  for (;;) {
    int a = avail(c);
    if (a > 0) return takeBytes(c, (unsigned char *)buf, n);
    if (a == -2 && c->reset) { errno = ECONNRESET; return -1; }
    if (a == -2 && c->eof) return 0;
    if (c->nonblock) { errno = EAGAIN; return -1; }
    if (a == -1) { int at = c->qat > W.now ? c->qat : W.now + 1; if (c->rcvtimeo && W.now + c->rcvtimeo - waited < at) { W.now += c->rcvtimeo - waited; errno = EAGAIN; return -1; } waited += at - W.now; W.now = at; continue; }
    if (c->rcvtimeo) { W.now += c->rcvtimeo - waited; errno = EAGAIN; return -1; }
    blocksForever();
  }
}

struct Switch { Switch() { w_point(); } ~Switch() { w_point(); } };      // before and after a call that fills memory of the caller
extern "C" {
// ---------------- sockets ----------------
int env_socket(int dom, int type, int) { w_point();
  if (faultAllowed(F_CONNECT) && w_choice(2, "socket")) { fault(); W.connFault = 1; W.expectedErr = -1; int e = w_int("errno"); sym_assume(e > 0 && e < 134); errno = e; return -1; }
  if (W.nfd >= MAXFD || W.nconn >= MAXCONN) { sym_inc("too many sockets"); errno = EMFILE; return -1; }
  CHECK(29, dom == AF_INET || dom == AF_INET6, "socket of the wrong family"); CHECK(29, (type & 0xf) == SOCK_STREAM, "socket of the wrong type");
  int fd = FD_BASE + W.nfd; W.fdopen[W.nfd] = 1; int k = W.nconn++; W.fdconn[W.nfd] = k; W.nfd++;
  Conn &c = W.c[k]; memset(&c, 0, sizeof c); c.fd = fd; c.open = 1; c.cur = c.last = -1; if (type & SOCK_NONBLOCK) c.nonblock = 1;
  return fd;
}
static unsigned char hostOf(const char *n) { return W.two && n && !strcmp(n, "mx-b.test") ? 8 : 7; }
static struct hostent he; static char *hlist[2]; static unsigned char haddr[4] = {192, 0, 2, 7};
struct hostent *env_gethostbyname(const char *name) { w_point();
  if (faultAllowed(F_CONNECT)) { uint64_t k = w_choice(2, "resolve"); if (k) { fault(); W.connFault = 1; W.expectedErr = -6; h_errno = HOST_NOT_FOUND; return nullptr; } }
  CHECK(29, name != nullptr && name[0] != 0, "empty host name resolved");
  haddr[0] = 192; haddr[1] = 0; haddr[2] = 2; haddr[3] = hostOf(name);
  he.h_name = (char *)"mx"; he.h_addrtype = AF_INET; he.h_length = 4; hlist[0] = (char *)haddr; hlist[1] = nullptr; he.h_addr_list = hlist; w_point(); return &he;
}
int env_getaddrinfo(const char *name, const char *svc, const struct addrinfo *hints, struct addrinfo **res) { w_point();
  if (faultAllowed(F_CONNECT) && w_choice(2, "resolve")) { fault(); W.connFault = 1; W.expectedErr = -6; return EAI_NONAME; }
  CHECK(29, name != nullptr && name[0] != 0, "empty host name resolved");
  struct addrinfo *ai = (struct addrinfo *)w_alloc(sizeof *ai + sizeof(struct sockaddr_in)); memset((void *)ai, 0, sizeof *ai + sizeof(struct sockaddr_in)); struct sockaddr_in *in = (struct sockaddr_in *)(ai + 1);
  unsigned char h[4] = {192, 0, 2, hostOf(name)}; in->sin_family = AF_INET; if (svc) in->sin_port = htons((unsigned short)atoi(svc)); memcpy(&in->sin_addr, h, 4);
  ai->ai_family = AF_INET; ai->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM; ai->ai_addr = (struct sockaddr *)in; ai->ai_addrlen = sizeof *in; *res = ai; W.infos++; return 0;
}
void env_freeaddrinfo(struct addrinfo *) { W.infos--; CHECK(18, W.infos >= 0, "a resolver result is freed twice"); }
int env_fcntl(int fd, int cmd, long arg) { w_point();
  CHECKM(M1(18) | M1(29), fdOk(fd), "fcntl on a descriptor that is not an open socket of the client"); if (!fdOk(fd)) { errno = EBADF; return -1; }
  Conn *c = connOfFd(fd);
  if (faultAllowed(F_CONNECT) && !c->setup) {      // the mode switches that belong to the connection set-up
    if (w_choice(2, cmd == F_GETFL ? "getfl" : "setfl")) { fault(); W.connFault = 1; W.expectedErr = cmd == F_GETFL ? -7 : -8; int e = w_int("errno"); sym_assume(e > 0 && e < 134); errno = e; return -1; }
  }
  if (cmd == F_GETFL) return O_RDWR | (c->nonblock ? O_NONBLOCK : 0);
  if (cmd == F_SETFL) { c->nonblock = (arg & O_NONBLOCK) != 0; if (!c->nonblock && c->port) c->setup = 1; return 0; }
  return 0;
}
int env_ioctl(int fd, unsigned long req, int *v) { Conn *c = connOfFd(fd); if (!c) { errno = EBADF; return -1; } if (req == 0x5421) c->nonblock = *v != 0; return 0; }
static int connState[MAXCONN];
int env_connect(int fd, const struct sockaddr *a, socklen_t len) { w_point();
  CHECKM(M1(18) | M1(29), fdOk(fd), "connect on a descriptor that is not an open socket of the client"); if (!fdOk(fd)) { errno = EBADF; return -1; }
  Conn *c = connOfFd(fd); struct sockaddr_in s; memcpy(&s, a, sizeof s < len ? sizeof s : len);
  c->port = ntohs(s.sin_port); c->addr = ntohl(s.sin_addr.s_addr); c->peerOk = len == sizeof s && s.sin_family == AF_INET && (c->addr == 0xC0000207u || (W.two && c->addr == 0xC0000208u));
  W.tstep = W.now; connState[c - W.c] = 0;
  if (faultAllowed(F_CONNECT)) {
    uint64_t k = w_choice(3, "connect");
    if (k == 1) { fault(); W.connFault = 1; W.expectedErr = -2; int e = w_int("errno"); sym_assume(e > 0 && e < 134 && e != EINPROGRESS); errno = e; return -1; }
    if (k == 2) { connState[c - W.c] = 1; errno = EINPROGRESS; return -1; }
  }
  c->tls = 0; W.sessions++; return 0;
}
static int waitConnect(Conn *c, long sec, int *err) {      // select/poll for writing
  int st = connState[c - W.c];
  if (st != 1) return 1;
  uint64_t k = faultAllowed(F_CONNECT) ? w_choice(W.now - W.tstep < 2 * W.cfg.tmo ? 4 : 3, "select") : 0;
  if (k == 0) { connState[c - W.c] = 2; return 1; }
  if (k == 1) { fault(); W.connFault = 1; W.expectedErr = -3; if (sec < 0) blocksForever(); W.now += (int)sec; return 0; }
  if (k == 2) { fault(); W.connFault = 1; W.expectedErr = -2; int e = w_int("errno"); sym_assume(e > 0 && e < 134 && e != EINTR && e != EAGAIN); errno = e; *err = 1; return -1; }
  W.nfault++; errno = EINTR; *err = 1; return -1;            // a signal: the wait has to be repeated
}
int env_select(int nfds, fd_set *r, fd_set *w, fd_set *, struct timeval *tv) { Switch sw_;
  for (int i = 0; i < MAXFD; i++) {
    int fd = FD_BASE + i; Conn *c = connOfFd(fd); if (!c || fd >= nfds) continue;
    if (w && FD_ISSET(fd, w)) { int e = 0; int k = waitConnect(c, tv ? tv->tv_sec : -1, &e); if (k != 1) { FD_ZERO(w); return k; } if (r) FD_ZERO(r); return 1; }
    if (r && FD_ISSET(fd, r)) {
      beforeRead(c); int left = tv ? (int)tv->tv_sec : -1;
      for (;;) { int a = avail(c); if (a > 0 || (a == -2 && (c->eof || c->reset))) return 1; if (left == 0) { FD_ZERO(r); return 0; } if (a == -2 && left < 0) blocksForever(); W.now++; if (left > 0) left--; }
    }
  }
  if (tv) W.now += (int)tv->tv_sec; return 0;
}
int env_poll(struct pollfd *f, nfds_t n, int ms) { Switch sw_;
  if (n != 1) { sym_inc("poll on several descriptors"); return 0; }
  Conn *c = connOfFd(f->fd); if (!c) { f->revents = POLLNVAL; return 1; }
  f->revents = 0; int sec = ms < 0 ? -1 : (ms + 999) / 1000;
  if (f->events & POLLOUT) { int e = 0; int k = waitConnect(c, sec, &e); if (k == 1) f->revents = POLLOUT; return k; }
  beforeRead(c);
  for (;;) { int a = avail(c); if (a > 0 || (a == -2 && (c->eof || c->reset))) { f->revents = POLLIN; return 1; } if (sec == 0) return 0; if (a == -2 && sec < 0) blocksForever(); W.now++; if (sec > 0) sec--; }
}
int env_getsockopt(int fd, int lvl, int opt, void *v, socklen_t *len) { Switch sw_;
  CHECKM(M1(18) | M1(29), fdOk(fd), "getsockopt on a descriptor that is not an open socket of the client"); Conn *c = connOfFd(fd); if (!c) { errno = EBADF; return -1; }
  if (lvl != SOL_SOCKET || opt != SO_ERROR) { sym_inc("getsockopt option"); return 0; }
  int val = 0;
  if (faultAllowed(F_CONNECT)) {
    uint64_t k = w_choice(3, "sockopt");
    if (k == 1) { fault(); W.connFault = 1; W.expectedErr = -9; int e = w_int("errno"); sym_assume(e > 0 && e < 134); errno = e; return -1; }
    if (k == 2) { fault(); W.connFault = 1; W.expectedErr = -10; val = w_int("soerror"); sym_assume(val > 0 && val < 134); memcpy(v, &val, 4); return 0; }
  }
  CHECK(29, *len >= 4, "option buffer too small");
  memcpy(v, &val, 4); *len = 4; W.sessions++; connState[c - W.c] = 3; return 0;
}
int env_setsockopt(int fd, int lvl, int opt, const void *v, socklen_t len) { w_point();
  CHECKM(M1(18) | M1(29), fdOk(fd), "setsockopt on a descriptor that is not an open socket of the client"); Conn *c = connOfFd(fd); if (!c) { errno = EBADF; return -1; }
  if (lvl == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && len >= sizeof(struct timeval)) { struct timeval t; memcpy(&t, v, sizeof t); int s = (int)t.tv_sec + (t.tv_usec ? 1 : 0); if (opt == SO_RCVTIMEO) c->rcvtimeo = s; else c->sndtimeo = s; }
  return 0;
}
static int usable(Conn *c) { int st = connState[c - W.c]; return st == 0 || st == 2 || st == 3; }
ssize_t env_send(int fd, const void *p, size_t n, int flags) { w_point();
  CHECKM(M1(18) | M1(9) | M1(8) | M1(2) | M1(20), fdOk(fd), "send on a descriptor that is not an open socket of the client"); CHECK(7, !W.sendFault || (n == 6 && !memcmp(p, "QUIT\r\n", 6)) , "more of the message is sent after a failed write"); if (!fdOk(fd)) { errno = EBADF; return -1; }
  Conn *c = connOfFd(fd); CHECKM(M1(29) | M1(2), usable(c) && c->peerOk, "data is sent although the connection was not established"); CHECK(29, !c->nonblock, "the connection is not in blocking mode"); if (W.wantPort) CHECK(29, c->port == W.wantPort, "the connection goes to a port other than the configured one");
  if (faultAllowed(F_SENDFAIL) && (!(W.cfg.faults & F_ONESEND) || !W.sendFault)) {
    if (w_choice(2, "send")) {
      fault(); W.sendFault = 1 + (int)(c - W.c); c->reset = 1; int e = w_int("errno"); sym_assume(e > 0 && e < 134 && e != EINTR); errno = e; c->lastActive = W.inSend;
      if (n >= 4 && !c->dataMode && !memcmp(p, "QUIT", 4)) { W.quitFault = 1; c->quit++; }
      sigPipe(flags & MSG_NOSIGNAL);
      return -1;
    }
  }
  if (c->reset) { W.sendFault = 1 + (int)(c - W.c); W.anyFault = 1; errno = EPIPE; sigPipe(flags & MSG_NOSIGNAL); return -1; }
  size_t k = n;
  if ((W.cfg.faults & F_SHORTW) && W.shortUsed < W.cfg.budget && n > 1) {
    if (w_choice(2, "short")) {
      W.shortUsed++;
      if (n <= 24) { unsigned char b; w_bytes(&b, 1, "written"); sym_assume(b >= 1 && b < n); k = sym_conc(b); }
      else { size_t o[] = {1, n / 2, n - 1, n - 2, 7}; k = o[w_choice(5, "written")]; }
    }
  }
  clientSends(c, (const unsigned char *)p, (int)k, 0); return (ssize_t)k;
}
ssize_t env_write(int fd, const void *p, size_t n) { return env_send(fd, p, n, 0); }
ssize_t env_recv(int fd, void *p, size_t n, int flags) { Switch sw_;
  CHECKM(M1(18) | M1(9) | M1(20), fdOk(fd), "recv on a descriptor that is not an open socket of the client"); if (!fdOk(fd)) { errno = EBADF; return -1; }
  if (flags & ~(MSG_DONTWAIT | MSG_NOSIGNAL)) sym_inc("recv flags");
  Conn *c = connOfFd(fd); CHECK(9, w_cls != 2, "a forced-TLS client reads clear text"); CHECKM(M1(8) | M1(9) | M1(10), !c->tls, "clear text is read on a connection that was switched to TLS");
  int save = c->nonblock; if (flags & MSG_DONTWAIT) c->nonblock = 1;
  int k = readConn(c, p, (int)n); c->nonblock = save; return k;
}
ssize_t env_read(int fd, void *p, size_t n) { return env_recv(fd, p, n, 0); }
int env_shutdown(int fd, int) { CHECK(18, fdOk(fd), "shutdown of a descriptor that is not an open socket of the client"); return 0; }
int env_close(int fd) { w_point();
  CHECK(18, fd >= FD_BASE && fd < FD_BASE + W.nfd, "a descriptor the client did not open is closed"); 
  CHECK(18, fdOk(fd), "a socket is closed twice"); if (!fdOk(fd)) { errno = EBADF; return -1; }
  Conn *c = connOfFd(fd); W.fdopen[fd - FD_BASE] = 0; c->open = 0; return 0;
}
unsigned env_sleep(unsigned s) { w_point(); W.now += (int)s; if (W.now > 5000) { W.hung = 1; CHECKM(M1(17) | M1(14) | M1(15), 0, "the client never stops waiting"); sym_stop(); } return 0; }
int env_usleep(unsigned us) { static unsigned acc; acc += us; while (acc >= 1000000) { acc -= 1000000; W.now++; } return 0; }
int env_nanosleep(const struct timespec *t, struct timespec *) { W.now += (int)t->tv_sec + (t->tv_nsec ? 1 : 0); return 0; }
long env_time(long *t) { if (t) *t = W.now; return W.now; }
int env_clock_gettime(int, struct timespec *t) { t->tv_sec = W.now; t->tv_nsec = 0; return 0; }
int env_gettimeofday(struct timeval *t, void *) { t->tv_sec = W.now; t->tv_usec = 0; return 0; }
long env_clock_ns() { return W.now * 1000000000L; }
long env_clock_ns2() { return env_clock_ns(); }
// ---------------- signals: SIGPIPE in the calling thread ----------------
void (*env_signal(int n, void (*h)(int)))(int) { if (n != SIGPIPE) return SIG_DFL; auto old = W.sigIgn ? SIG_IGN : SIG_DFL; W.sigIgn = h == SIG_IGN || h != SIG_DFL; return old; }
int env_sigaction(int n, const struct sigaction *a, struct sigaction *o) { if (n != SIGPIPE) { if (o) memset(o, 0, sizeof *o); return 0; } if (o) { memset(o, 0, sizeof *o); o->sa_handler = W.sigIgn ? SIG_IGN : SIG_DFL; } if (a) W.sigIgn = a->sa_handler != SIG_DFL; return 0; }
int env_pthread_sigmask(int how, const sigset_t *set, sigset_t *old) {
  if (old) { sigemptyset(old); if (W.sigBlk) sigaddset(old, SIGPIPE); }
  if (set) { int in = sigismember(set, SIGPIPE); if (how == SIG_SETMASK) W.sigBlk = in; else if (how == SIG_BLOCK) W.sigBlk |= in; else if (in) W.sigBlk = 0; }
  if (!W.sigBlk && W.sigPend) { W.sigPend = 0; sigPipe(false); }
  return 0;
}
int env_sigprocmask(int how, const sigset_t *set, sigset_t *old) { return env_pthread_sigmask(how, set, old); }
int env_sigpending(sigset_t *s) { sigemptyset(s); if (W.sigPend) sigaddset(s, SIGPIPE); return 0; }
int env_sigwait(const sigset_t *s, int *n) { if (!sigismember(s, SIGPIPE) || !W.sigPend) blocksForever(); W.sigPend = 0; *n = SIGPIPE; return 0; }
int env_sigtimedwait(const sigset_t *s, siginfo_t *, const struct timespec *t) { if (sigismember(s, SIGPIPE) && W.sigPend) { W.sigPend = 0; return SIGPIPE; } if (t) W.now += (int)t->tv_sec; errno = EAGAIN; return -1; }
int env_sigwaitinfo(const sigset_t *s, siginfo_t *i) { int n; env_sigwait(s, &n); return n; }

// ---------------- TLS library ----------------
enum { T_CTX = 1, T_BIO, T_SSL, T_CERT };
static TlsObj *tls(int kind) { TlsObj *t = (TlsObj *)w_alloc(sizeof(TlsObj)); memset(t, 0, sizeof *t); t->kind = kind; t->fd = -1; t->conn = -1; return t; }
static int meth_;
const SSL_METHOD *env_TLS_client_method() { return (const SSL_METHOD *)&meth_; }
const SSL_METHOD *env_TLS_method() { return (const SSL_METHOD *)&meth_; }
int env_OPENSSL_init_ssl(uint64_t, const void *) { return 1; }
int env_OPENSSL_init_crypto(uint64_t, const void *) { return 1; }
unsigned long env_ERR_get_error() { w_point(); return 0x1234; }
unsigned long env_ERR_peek_error() { return 0x1234; }
void env_ERR_clear_error() {}
char *env_ERR_error_string(unsigned long, char *b) { static char own[256]; if (!b) b = own; strcpy(b, "error:00001234"); return b; }
void env_ERR_error_string_n(unsigned long, char *b, size_t n) { if (n) { strncpy(b, "error:00001234", n); b[n - 1] = 0; } }
const char *env_ERR_reason_error_string(unsigned long) { return "reason"; }
int env_SSL_get_error(const SSL *, int r) { return r > 0 ? 0 : 5; }
int env_SSL_shutdown(SSL *) { return 1; }
static bool tlsFault(const char *nm, int code) { if (!faultAllowed(F_TLS)) return false; if (!w_choice(2, nm)) return false; fault(); W.tlsFault = 1; W.expectedErr = code; return true; }
SSL_CTX *env_SSL_CTX_new(const SSL_METHOD *) { w_point(); if (tlsFault("ctx", -51)) return nullptr; W.ctxLive++; W.nctx++; return (SSL_CTX *)tls(T_CTX); }
void env_SSL_CTX_free(SSL_CTX *x) { w_point(); TlsObj *t = (TlsObj *)x; if (!t) return; CHECK(18, t->kind == T_CTX && !t->freed, "TLS context freed twice"); if (t->freed) return; t->freed = 1; W.ctxLive--; }
int env_SSL_CTX_set_default_verify_paths(SSL_CTX *x) { TlsObj *t = (TlsObj *)x; CHECK(18, !t->freed, "TLS context used after free"); if (tlsFault("paths", -54)) return 0; return 1; }
void env_SSL_CTX_set_verify(SSL_CTX *, int, SSL_verify_cb) {}
long env_SSL_CTX_ctrl(SSL_CTX *, int, long v, void *) { return v; }
uint64_t env_SSL_CTX_set_options(SSL_CTX *, uint64_t o) { return o; }
int env_SSL_CTX_load_verify_locations(SSL_CTX *, const char *, const char *) { return 1; }
BIO *env_BIO_new_ssl_connect(SSL_CTX *x) { w_point();
  TlsObj *c = (TlsObj *)x; CHECK(18, c && !c->freed, "TLS context used after free");
  if (tlsFault("bio", -52)) return nullptr;
  TlsObj *b = tls(T_BIO), *s = tls(T_SSL); b->link = s; s->link = b; W.tlsLive++; W.nbio++; return (BIO *)b;
}
static TlsObj *bio(BIO *x) { TlsObj *b = (TlsObj *)x; CHECKM(M1(18) | M1(14) | M1(20), b != nullptr, "TLS connection object used although there is none"); if (!b) sym_stop(); CHECKM(M1(18) | M1(14) | M1(20), b->kind == T_BIO && !b->freed, "TLS connection object used after free"); return b; }
static Conn *tconn(TlsObj *s) { return s->fd >= 0 ? connOfFd(s->fd) : nullptr; }
int env_SSL_set_fd(SSL *x, int fd) { TlsObj *s = (TlsObj *)x; CHECKM(M1(18) | M1(10), fdOk(fd), "TLS over a descriptor that is not an open socket of the client"); s->fd = fd; return 1; }
long env_SSL_ctrl(SSL *, int, long v, void *) { return v; }
int env_SSL_set1_host(SSL *, const char *) { return 1; }
void env_SSL_set_verify(SSL *, int, SSL_verify_cb) {}
long env_BIO_ctrl(BIO *x, int cmd, long larg, void *parg) { w_point();
  TlsObj *b = bio(x), *s = (TlsObj *)b->link; (void)larg;
  if (cmd == BIO_C_GET_SSL) { *(void **)parg = s; return 1; }
  if (cmd == BIO_C_DO_STATE_MACHINE) {
    Conn *c = tconn(s); W.tstep = W.now;
    CHECKM(M1(18) | M1(10) | M1(20), c && fdOk(s->fd), "TLS handshake without an open socket");
    if (s->state == 0 && faultAllowed(F_TLSFAIL) && w_choice(2, "tlssilent")) {     // the peer never answers the handshake
      fault(); W.tlsFault = 1; W.expectedErr = -55; if (!c->nonblock) { if (!c->rcvtimeo) blocksForever(); W.now += c->rcvtimeo; } return -1; }
    if (faultAllowed(F_TLS)) {
      int r = w_int(s->state == 0 ? "tlsconnect" : "tlshandshake");
      sym_assume(r <= 1);
      if (r <= 0) { fault(); W.tlsFault = 1; W.expectedErr = s->state == 0 ? -55 : -56; s->state = -1; return r; }
    }
    if (s->state >= 0) { s->state++; }
    if (s->state >= 1) {
      if (!s->shook) { s->shook = 1; if (c) { c->tls = 1; c->lineTls = 1; }
        s->hasCert = 1; s->verify = 0;
        if (faultAllowed(F_CERT)) { s->hasCert = w_choice(2, "nocert") == 0; int v = w_int("verify"); s->verify = v; if (!s->hasCert) { fault(); W.tlsFault = 1; W.expectedErr = -57; } else if (v != 0 && !(v == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT && w_acceptSelf)) { fault(); W.tlsFault = 1; W.expectedErr = -58; } }
      }
    }
    return s->state >= 1 ? 1 : -1;
  }
  return 1;
}
int env_SSL_connect(SSL *x) { TlsObj *s = (TlsObj *)x; return (int)env_BIO_ctrl((BIO *)s->link, BIO_C_DO_STATE_MACHINE, 0, nullptr); }
int env_SSL_do_handshake(SSL *x) { return env_SSL_connect(x); }
long env_SSL_get_verify_result(const SSL *x) { w_point(); TlsObj *s = (TlsObj *)x; CHECKM(M1(18), !((TlsObj *)s->link)->freed, "TLS session used after free"); return s->shook ? s->verify : 0; }
X509 *env_SSL_get1_peer_certificate(const SSL *x) { w_point(); TlsObj *s = (TlsObj *)x; CHECKM(M1(18), !((TlsObj *)s->link)->freed, "TLS session used after free"); if (!s->hasCert) return nullptr; W.certLive++; return (X509 *)tls(T_CERT); }
X509 *env_SSL_get_peer_certificate(const SSL *x) { return env_SSL_get1_peer_certificate(x); }
X509 *env_SSL_get0_peer_certificate(const SSL *x) { X509 *c = env_SSL_get1_peer_certificate(x); if (c) W.certLive--; return c; }
void env_X509_free(X509 *x) { TlsObj *t = (TlsObj *)x; if (!t) return; CHECK(18, !t->freed, "certificate freed twice"); if (t->freed) return; t->freed = 1; W.certLive--; }
const char *env_X509_verify_cert_error_string(long) { return "verify error"; }
static void closeNotify(TlsObj *s) { if (!s->shook) return; Conn *c = tconn(s); if (c && fdOk(s->fd) && c->reset) sigPipe(false); }
int env_BIO_free(BIO *x) { w_point(); TlsObj *b = (TlsObj *)x; if (!b) return 0; CHECK(18, b->kind == T_BIO && !b->freed, "TLS connection object freed twice"); if (b->freed) return 0; b->freed = 1; W.tlsLive--; closeNotify((TlsObj *)b->link); return 1; }
void env_BIO_free_all(BIO *x) { env_BIO_free(x); }
void env_SSL_free(SSL *) { sym_inc("SSL_free"); }
int env_BIO_test_flags(const BIO *, int) { return 1; }
int env_BIO_write(BIO *x, const void *p, int n) { w_point();
  TlsObj *b = bio(x), *s = (TlsObj *)b->link; Conn *c = tconn(s);
  CHECKM(M1(18) | M1(20), c && fdOk(s->fd), "TLS write without an open socket");
  CHECKM(M1(10) | M1(9) | M1(8), s->state >= 1 && s->shook, "data is written to a TLS session that is not established");
  CHECKM(M1(10), s->hasCert, "data is sent to a server that presented no certificate");
  CHECKM(M1(10), s->verify == X509_V_OK || (s->verify == X509_V_ERR_DEPTH_ZERO_SELF_SIGNED_CERT && w_acceptSelf), "data is sent to a server whose certificate is not verified");
  if (!c || !fdOk(s->fd)) { W.anyFault = 1; return -1; }
  if (faultAllowed(F_SENDFAIL)) {
    if (w_choice(2, "bioputs")) {
      fault(); W.sendFault = 1 + (int)(c - W.c); c->reset = 1; int r = w_int("putsresult"); sym_assume(r <= 0 && r >= -2); c->lastActive = W.inSend; sigPipe(false);
      if (n >= 4 && !c->dataMode && !memcmp(p, "QUIT", 4)) { W.quitFault = 1; c->quit++; }
      return r;
    }
  }
  if (c->reset) { W.sendFault = 1 + (int)(c - W.c); W.anyFault = 1; sigPipe(false); return -1; }
  clientSends(c, (const unsigned char *)p, n, 1); return n;
}
int env_BIO_puts(BIO *x, const char *p) { return env_BIO_write(x, p, (int)strlen(p)); }
int env_SSL_write(SSL *x, const void *p, int n) { return env_BIO_write((BIO *)((TlsObj *)x)->link, p, n); }
int env_BIO_read(BIO *x, void *p, int n) { Switch sw_;
  TlsObj *b = bio(x), *s = (TlsObj *)b->link; Conn *c = tconn(s);
  CHECKM(M1(18) | M1(20), c && fdOk(s->fd), "TLS read without an open socket");
  CHECKM(M1(10) | M1(9), s->state >= 1 && s->shook, "data is read from a TLS session that is not established");
  if (!c || !fdOk(s->fd)) return -1;
  return readConn(c, p, n);
}
int env_SSL_read(SSL *x, void *p, int n) { return env_BIO_read((BIO *)((TlsObj *)x)->link, p, n); }
}

// ---------------- observation ----------------
void w_begin() { W.inSend++; W.stepsInSend0 = W.nstep; W.anyFault = 0; W.connFault = W.tlsFault = W.sendFault = W.quitFault = 0; W.expectedErr = 0; W.tstep = W.now; }

std::string w_data(int conn, int nth) {
  std::string r; int k = -1; int lastStep = -2;
  for (Chunk *c = W.first; c; c = c->next) if (c->conn == conn && c->step >= 0 && W.s[c->step].kind == S_DATA) { if (c->step != lastStep) { k++; lastStep = c->step; } if (k == nth) r.append((const char *)c->b, c->n); }
  return r;
}
std::string w_stream(int conn, int tls, int) { std::string r; for (Chunk *c = W.first; c; c = c->next) if (c->conn == conn && (tls < 0 || c->tls == tls)) r.append((const char *)c->b, c->n); return r; }

// ---------------- monitors at the end of a send and of the client's life ----------------
int w_failedConns;
__attribute__((weak)) void w_point() {}

void w_settle(int ret) {
  int ok = 1, eod = 0, lastKind = -1;
  for (int i = W.stepsInSend0; i < W.nstep; i++) {
    Step &s = W.s[i]; if (s.kind == S_QUIT) continue;
    lastKind = s.kind; 
    bool retry = s.kind == S_MAIL && i + 1 < W.nstep && W.s[i + 1].kind == S_MAIL && W.s[i + 1].conn == s.conn;
    if (retry) continue;
    int good = s.answered & !s.malformed; good &= (s.code == s.expect); ok &= good;
    if (s.kind == S_EOD) eod++;
  }
  sym_trace_int("ret", ret);
  if (W.mustFail) {                          // the message cannot be sent as it is given
    CHECKM(M1(1) | M1(6), ret != 0, "success is reported although an attachment could not be read"); int del = 0; for (int i = W.stepsInSend0; i < W.nstep; i++) del |= W.s[i].kind == S_EOD;
    CHECKM(M1(1) | M1(6), !del, "a message is handed over without the content of its attachment"); for (int i = 0; i < W.nconn; i++) if (W.c[i].lastActive == W.inSend) w_failedConns |= 1 << i; return;
  }
  if (W.nstep > W.stepsInSend0 && !W.connFault && !W.tlsFault && !W.sendFault) {       // the reply that ended the send is the one reported
    int i = W.nstep - 1; while (i > W.stepsInSend0 && W.s[i].kind == S_QUIT) i--;
    Step &s = W.s[i];
    if (s.kind != S_QUIT && s.answered && !s.malformed && s.rb && s.code != s.expect) {
      if (s.kind == S_AUTH_LOGIN || s.kind == S_AUTH_USER) CHECK(16, (s.code < 100) | (ret == s.code) | (ret == -81), "a refusal is not reported with the code the server sent");
      else CHECK(16, (s.code < 100) | (ret == s.code), "a refusal is not reported with the code the server sent");
    }
  }
  if (ret == 0) {
    CHECKM(M1(1), eod == 1 && lastKind == S_EOD, "success is reported although the message was not handed over");
    CHECKM(M1(1) | M1(20), ok, "success is reported although the server refused a step or gave no valid reply");
    CHECKM(M1(1) | M1(7) | M1(29) | M1(10), !W.connFault && !W.tlsFault && (!W.sendFault || W.quitFault), "success is reported although a connection step or a write failed");
    CHECKM(M1(26), ok && eod == 1, "success is reported although the message was not accepted");
  } else if (!W.anyFault && !(W.credOn && !(W.authOffered & W.authWant))) {
    CHECKM(M1(1) | M1(20) | M1(19), !ok, "failure is reported although every step was accepted");
  }
  CHECKM(M1(14) | M1(17), W.sigBlk == W.sigBlk0, "the send leaves the signal mask of the caller changed"); CHECKM(M1(14) | M1(17), W.sigPend == W.sigPend0 || W.sigIgn, "the send takes or leaves a signal of the caller's thread");
  CHECK(17, W.now - W.tstep <= W.cfg.tmo + 1, "the send takes longer than the command timeout");
  if (W.connFault) { CHECK(29, ret == W.expectedErr, "a connection failure is reported with the wrong code"); CHECK(29, W.plainBytes == 0 || W.inSend > 1, "data is sent although the connection failed"); }
  if (W.tlsFault) CHECKM(M1(10), ret == W.expectedErr, "a TLS set-up failure is reported with the wrong code");
  if (W.tlsFault) CHECKM(M1(9) | M1(8), ret != 0, "a TLS set-up failure is not reported");
  for (int i = W.stepsInSend0; i < W.nstep; i++) {
    Step &s = W.s[i]; if (!s.silent) continue;
    int t = TMO_CODE[s.kind], e = ERR_CODE[s.kind]; if (s.kind == S_EHLO && s.tls) { t = -60; e = -59; }
    if (s.kind == S_AUTH_LOGIN || s.kind == S_AUTH_USER || s.silent != F_SILENT) CHECK(17, ret == t || ret == e, "a dead server is reported with the wrong code");
    else CHECK(17, ret == t, "a silent server is reported with the wrong code");
  }
  for (int i = 0; i < W.nconn; i++) if (W.c[i].lastActive == W.inSend && ret != 0) w_failedConns |= 1 << i;
}
