// How server replies are read: codes, capability lists, completeness, on arbitrary text.
#include "world.h"
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "smtpclient.h"
#include "opportunisticsecuresmtpclient.h"
#include "forcedsecuresmtpclient.h"
#include "serveroptionsanalyzer.h"
#include "cpp/smtpclient.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
using namespace jed_utils;
using std::string; using std::vector;
static int prm(const char *n, int d) { return (int)sym_param(n, d); }
struct B : SmtpClient { using SmtpClient::SmtpClient; static int code(const string &s) { return SMTPClientBase::extractReturnCode(s.c_str()); } static ServerAuthOptions *auth(const string &s) { return SMTPClientBase::extractAuthenticationOptions(s.c_str()); } };
struct X0 : cpp::SmtpClient { using cpp::SmtpClient::SmtpClient; static int code(const string &s) { return cpp::SmtpClient::extractReturnCode(s); } static ServerAuthOptions *auth(const string &s) { return cpp::SmtpClient::extractAuthenticationOptions(s); } };
struct X1 : cpp::OpportunisticSecureSMTPClient { using cpp::OpportunisticSecureSMTPClient::OpportunisticSecureSMTPClient; static int code(const string &s) { return cpp::OpportunisticSecureSMTPClient::extractReturnCode(s); } static ServerAuthOptions *auth(const string &s) { return cpp::OpportunisticSecureSMTPClient::extractAuthenticationOptions(s); } };
struct X2 : cpp::ForcedSecureSMTPClient { using cpp::ForcedSecureSMTPClient::ForcedSecureSMTPClient; static int code(const string &s) { return cpp::ForcedSecureSMTPClient::extractReturnCode(s); } static ServerAuthOptions *auth(const string &s) { return cpp::ForcedSecureSMTPClient::extractAuthenticationOptions(s); } };
struct O : OpportunisticSecureSMTPClient { using OpportunisticSecureSMTPClient::OpportunisticSecureSMTPClient; static bool tls(const char *s) { return OpportunisticSecureSMTPClient::isStartTLSSupported(s); } };
static int codeOf(int w, const string &s) { return w == 0 ? B::code(s) : w == 1 ? X0::code(s) : w == 2 ? X1::code(s) : X2::code(s); }
static std::unique_ptr<ServerAuthOptions> authOf(int w, const string &s) { return std::unique_ptr<ServerAuthOptions>(w == 0 ? B::auth(s) : w == 1 ? X0::auth(s) : w == 2 ? X1::auth(s) : X2::auth(s)); }

static string nz(int n, const char *nm) { if (n <= 0) return string(); string s((size_t)n, 'x'); sym_bytes(&s[0], (size_t)n, nm); int ok = 1; for (char c : s) ok &= c != 0; sym_assume(ok); return s; }
// n bytes that are neither line end nor NUL
static string text(int n, const char *nm) { if (n <= 0) return string(); string s((size_t)n, 'x'); sym_bytes(&s[0], (size_t)n, nm); int ok = 1; for (char c : s) ok &= (c != 0) & (c != '\r') & (c != '\n'); sym_assume(ok); return s; }
static string word(int n, const char *nm) { if (n <= 0) return string(); string s((size_t)n, 'x'); sym_bytes(&s[0], (size_t)n, nm); int ok = 1; for (char c : s) ok &= ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '_'); sym_assume(ok); return s; }
static int eqci(const string &a, const char *b) { if (a.size() != strlen(b)) return 0; int e = 1; for (size_t i = 0; i < a.size(); i++) { unsigned char x = (unsigned char)a[i]; x ^= ((x >= 'a') & (x <= 'z')) << 5; e &= x == (unsigned char)b[i]; } return e; }

// any text: the code is the leading three-digit number, or none
static void code() {
  int n = prm("len", 3); int w = (int)sym_choice(4, "class"); string s = nz(n, "reply");
  int c = codeOf(w, s); sym_trace_int("code", c);
  if (n < 3) { CHECK(16, c < 100, "a reply without a code is read as a code"); sym_reach("short"); return; }
  int dg = 1; for (int i = 0; i < 3; i++) dg &= (s[i] >= '0') & (s[i] <= '9');
  int v = (s[0] - '0') * 100 + (s[1] - '0') * 10 + (s[2] - '0'); int good = dg & (s[0] != '0');
  CHECK(16, !good | (c == v), "a reply code is not read as the number the server sent"); CHECK(16, good | (c < 100), "a reply without a code is read as a code"); sym_reach("long");
}
// a well-formed capability list: k lines before, an AUTH line (or none), lines after; words of any letters
static void caps() {
  int w = prm("who", -1) >= 0 ? prm("who", 0) : (int)sym_choice(4, "class"); int before = prm("before", 1), after = prm("after", 1), n1 = prm("w1", 5), n2 = prm("w2", 5), end = prm("end", 1), haveAuth = prm("auth", 1);
  string r; int total = before + after + (haveAuth ? 1 : 0), k = 0; vector<string> ws; size_t lastLine = 0;
  auto line = [&](const string &t) { k++; lastLine = r.size(); r += "250"; r += k == total ? " " : "-"; r += t; if (k < total || end) r += "\r\n"; };
  for (int i = 0; i < before + after + 1; i++) {
    if (i == before) { if (!haveAuth) continue; string l = word(4, "keyword"); sym_assume(eqci(l, "AUTH"));
      for (int i = 0, m = prm("mid", 0); i < m; i++) { char t[16]; snprintf(t, 16, "MECH-%d", i); ws.push_back(t); }
      if (n1) { ws.push_back(word(n1, "mech1")); } if (n2 > 0) { ws.push_back(word(n2, "mech2")); } if (n2 < 0) ws.push_back(n2 == -1 ? "PLAIN" : n2 == -2 ? "LOGIN" : "XOAUTH2");
      char sep = prm("eq", 0) ? '=' : ' '; for (auto &x : ws) { l += sep; l += x; sep = ' '; } line(l); continue; }
    // any other line; it may begin with AUTH when its keyword is a longer one
    string l = text(prm("llen", 4), "line"); int isAuth = 0;
    if (prm("near", 0)) { l = word(4, "near"); sym_assume(eqci(l, "AUTH")); l += word(prm("near", 0), "nearmore"); l += " PLAIN LOGIN XOAUTH2"; }
    else if (l.size() >= 4) { isAuth = eqci(l.substr(0, 4), "AUTH"); if (l.size() > 4) { char c = l[4]; isAuth &= !(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '-')); } }
    sym_assume(!isAuth); line(l);
  }
  auto a = authOf(w, r); sym_trace_int("found", a != nullptr);

  CHECK(15, (a != nullptr) == (haveAuth != 0), "the AUTH line is not found or found where there is none");
  if (a) {
    int p = 0, l = 0, x = 0; for (auto &s : ws) { p |= eqci(s, "PLAIN"); l |= eqci(s, "LOGIN"); x |= eqci(s, "XOAUTH2"); }
    CHECK(15, a->Plain == (p != 0), "PLAIN is not read as the server listed it"); CHECK(15, a->Login == (l != 0), "LOGIN is not read as the server listed it"); CHECK(15, a->XOAuth2 == (x != 0), "XOAUTH2 is not read as the server listed it");
    sym_trace_int("plain", a->Plain); sym_trace_int("login", a->Login); sym_reach("auth line");
  }
  if (end) CHECK(15, ServerOptionsAnalyzer::containsAllOptions(r), "a complete reply is taken as incomplete");
  if (end && total > 1) { string part = r.substr(0, lastLine); CHECK(15, !ServerOptionsAnalyzer::containsAllOptions(part), "a reply without its final line is taken as complete"); }
}
// STARTTLS is found exactly where a line says so
static void startls() {
  int before = prm("before", 1), after = prm("after", 1), have = prm("have", 1), end = prm("end", 1); string r; int total = before + after + have, k = 0;
  auto line = [&](const string &t) { k++; r += "250"; r += k == total ? " " : "-"; r += t; if (k < total || end) r += "\r\n"; };
  for (int i = 0; i < before + after + 1; i++) {
    if (i == before) { if (!have) continue; string l = word(8, "keyword"); sym_assume(eqci(l, "STARTTLS")); line(l); continue; }
    // any other line; those that contain the word have it in a longer keyword or behind the keyword
    int near = prm("near", 0); if (!near) { line(text(prm("llen", 3), "line")); continue; }
    string l = near == 2 ? text(prm("llen", 3), "line") + (prm("dash", 1) ? "250-" : "250 ") : near == 3 ? word(prm("llen", 1), "line") : string(); string k = word(8, "nearword"); sym_assume(eqci(k, "STARTTLS")); l += k;
    if (near == 1) { l += word(prm("llen", 1), "line"); l += " x"; }
    line(l);
  }
  bool s = O::tls(r.c_str()); sym_trace_int("tls", s); CHECK(8, s || !have, "STARTTLS is on offer and is not found"); CHECK(15, s || !have, "STARTTLS is on offer and is not found"); CHECK(15, !s || have, "STARTTLS is found where it is not on offer"); sym_reach("starttls");
}
// arbitrary text through every function that reads replies
static void junk() {
  int64_t live = w_live(); { string s = nz(prm("len", 4), "junk"), t = prm("pre", 0) == 1 ? "250-" + s : prm("pre", 0) == 2 ? "250-AUTH" + s : prm("pre", 0) == 3 ? "250-mx\r\n250 " + s : s; if (prm("tail", 0)) t += "\r\n";
    { auto a = authOf(0, t); sym_trace_int("auth", a != nullptr); } sym_trace_int("all", ServerOptionsAnalyzer::containsAllOptions(t)); sym_trace_int("tls", O::tls(t.c_str())); O::tls(nullptr); sym_reach("junk"); }
  CHECK(14, w_live() == live, "reading a reply leaks memory");
}
extern "C" void sym_main() {
  w_init();
  switch (prm("mode", 1)) { case 1: code(); break; case 2: caps(); break; case 3: startls(); break; default: junk(); }
}
