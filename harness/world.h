// The environment of the clients: operating system, resolver, TLS library and an
// arbitrary SMTP server.  The same source is executed symbolically together with the
// repository's code and compiled natively to replay a counterexample.
#pragma once
#include "sym.h"
#include <string>

#define FD_BASE W.fdbase      // the number of the first descriptor (parameter)
enum { MAXFD = 16, MAXCONN = 16, MAXTLS = 16 };
enum StepKind { S_GREET, S_EHLO, S_STARTTLS, S_AUTH_PLAIN, S_AUTH_LOGIN, S_AUTH_USER, S_AUTH_PASS, S_AUTH_XOAUTH2, S_MAIL, S_RCPT, S_DATA, S_EOD, S_QUIT, S_OTHER };
enum Fault { F_SILENT = 1, F_EOF = 2, F_RESET = 4, F_MALFORMED = 8, F_SENDFAIL = 16, F_CONNECT = 32, F_TLS = 64, F_SHORTW = 128, F_DELAY = 256, F_MULTI = 512, F_SPLIT = 1024, F_CERT = 2048, F_JUNK = 4096, F_TLSFAIL = 8192, F_ONESEND = 16384, F_CUT = 32768, F_TRICKLE = 65536, F_BABBLE = 131072, F_LONG = 262144, F_TEXT = 524288 };

struct Chunk { Chunk *next; unsigned n; int tls, step, conn; unsigned char b[1]; };
struct Step { int kind, conn, tls, expect; int decided, malformed, silent, answered, overlap; int code; int tsent; const unsigned char *rb; int rn; };
struct Conn {
  int fd, open, tls, dataMode, greeted; int nonblock, rcvtimeo, sndtimeo, eof, reset, silent;
  int cur;                 // index of the step awaiting an answer, -1 if none
  int last;                // last step begun on this connection
  unsigned char *q; int qlen, qpos, qat, qseg; int segat[8]; int nseg;   // pending reply
  char *line; int linelen, linecap;  // partial command line
  int lineTls;
  int quit, mails, msgs, lastActive; int port; unsigned addr; int peerOk;
  int databytes, setup; int babble, babbled, trickle, cut;
  // end-of-data automaton (branch free)
  unsigned char sol, dot, dotcr, cr, done, early;
};
struct TlsObj { int kind, freed, refs; int fd, state; int conn; long verify; int hasCert; void *link; int shook; };
struct WorldCfg {
  int faults, budget, codes, tmo, starttls, authmask, ehlolayout, multi, prop, jun;
  int text, kwcase, jlen, words, longlen;
};
struct World {
  WorldCfg cfg;
  int now, tstep;           // clock; time of the last client action
  int nconn, nstep, nfault, nsend, tapeOn;
  Step *s; int maxstep;     // the steps so far
  Conn c[MAXCONN]; int fdconn[MAXFD]; int fdopen[MAXFD]; int nfd, fdbase;
  int sigBlk, sigPend, sigIgn, sigBlk0, sigPend0;      // SIGPIPE in the calling thread: blocked, pending, ignored; before the send
  int anyFault, sendFault, connFault, tlsFault, quitFault, hung, shortUsed;
  int sessions, quits, mustFail; int expectCode; int lastKind;
  int two, infos, fail[2]; unsigned char failCode[2][3];      // two clients at the same time (harness/threads.cpp), the step that is answered with failCode; resolver results in use
  int wantPort; int credOn, msgTo, msgCc, msgBcc;
  Chunk *first, *lastc; int plainBytes; int contentPlain;
  int tlsEstablished, cmdPlain; int tlsLive, ctxLive, certLive, nctx, nbio;
  int inSend, stepsInSend0;
  int expectedErr;          // documented code of the injected connection/TLS fault (0 none)
  int authWant;               // mechanisms the caller allows, a mask like authOffered (0 with credOn: none)
  int authOffered;            // mechanisms of the last EHLO reply (1 PLAIN, 2 LOGIN, 4 XOAUTH2)
  int startOffered;         // STARTTLS offered by the last EHLO reply in clear
};
extern World W;
extern int P;               // the property whose assertions are active (0: all)
static inline bool on(int p) { return P == 0 || P == p; }
#define CHECK(p, c, m) do { if (on(p)) sym_assert((c), m); } while (0)

void w_init();              // once, before anything else
void w_rewind();            // second run with the same environment decisions
void *w_alloc(size_t n);    // allocation outside the leak accounting
int64_t w_live();           // blocks the program under test holds
uint64_t w_choice(uint64_t n, const char *name);
void w_bytes(void *p, size_t n, const char *name);
void w_begin();             // a sendMail starts
void w_settle(int ret);     // a sendMail returned ret: P01, P17 and the step monitors
void w_point();             // the other client may run here
std::string w_stream(int conn, int tls, int stepKindOnly);   // bytes the client sent
std::string w_data(int conn, int nth);  // DATA content of the nth mail on conn
void w_badfile(const char *name, int kind);
void w_file(const char *name, const void *p, size_t n);
