// Value classes and pure functions: base64, strings, addresses, credentials, attachments,
// messages, error messages and the getters of the string interface.
#include "world.h"
#include <cstdio>
#include <cstring>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include "attachment.h"
#include "base64.h"
#include "credential.h"
#include "errorresolver.h"
#include "forcedsecuresmtpclient.h"
#include "htmlmessage.h"
#include "messageaddress.h"
#include "opportunisticsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "smtpclient.h"
#include "smtpclienterrors.h"
#include "socketerrors.h"
#include "sslerrors.h"
#include "stringutils.h"
#include "cpp/attachment.hpp"
#include "cpp/credential.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
#include "cpp/htmlmessage.hpp"
#include "cpp/messageaddress.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/plaintextmessage.hpp"
#include "cpp/smtpclient.hpp"
using namespace jed_utils;
using std::string; using std::vector;
static int prm(const char *n, int d) { return (int)sym_param(n, d); }
static bool same(const string &a, const string &b) { return sym_eq(a.data(), a.size(), b.data(), b.size()); }
static bool same(const char *a, const string &b) { return a != nullptr && same(string(a), b); }
static string bytes(int n, const char *nm) { string s((size_t)n, 'x'); if (n) sym_bytes(&s[0], (size_t)n, nm); return s; }
static string cstr(int n, const char *nm) { string s = bytes(n, nm); int ok = 1; for (char c : s) ok &= c != 0; sym_assume(ok); return s; }
static int isws(unsigned char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static int blank(const string &s) { int b = 1; for (unsigned char c : s) b &= isws(c); return b; }
static unsigned char up(unsigned char c) { return (unsigned char)(c - (((c >= 'a') & (c <= 'z')) ? 32 : 0)); }
static unsigned char low(unsigned char c) { return (unsigned char)(c + (((c >= 'A') & (c <= 'Z')) ? 32 : 0)); }

// ---------------- P23: base64 ----------------
static const char T64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static string ref64(const string &d, bool breaks) {
  string r; size_t n = d.size(), out = 0;
  for (size_t i = 0; i < n; i += 3) {
    unsigned a = (unsigned char)d[i], b = i + 1 < n ? (unsigned char)d[i + 1] : 0, c = i + 2 < n ? (unsigned char)d[i + 2] : 0;
    r += T64[a >> 2]; r += T64[(a & 3) << 4 | b >> 4]; r += i + 1 < n ? T64[(b & 15) << 2 | c >> 6] : '='; r += i + 2 < n ? T64[c & 63] : '=';
    out += 4; if (breaks && i + 2 < n && out % 65536 == 0) r += "\r\n";
  }
  return r;
}
static string pat(int n) { string s((size_t)n, 'q'); for (int i = 0; i < n; i++) s[i] = (char)(i * 37 + 11); return s; }
static void b64enc() {
  string d = pat(prm("pre", 0)) + bytes(prm("len", 3), "data") ; { string t = pat(prm("post", 0)); d += t; }
  string e = Base64::Encode((const unsigned char *)d.data(), d.size());
  CHECK(23, same(e, ref64(d, true)), "the encoding differs from RFC 4648");
  string r = Base64::Decode(e); CHECK(23, same(r, d), "decoding the encoding does not give the bytes back"); sym_reach("enc"); sym_trace("e", e.data(), e.size() < 64 ? e.size() : 64);
}
static int val64(unsigned char c) { int v = -1; v = ((c >= 'A') & (c <= 'Z')) ? c - 'A' : v; v = ((c >= 'a') & (c <= 'z')) ? c - 'a' + 26 : v; v = ((c >= '0') & (c <= '9')) ? c - '0' + 52 : v; v = c == '+' ? 62 : v; v = c == '/' ? 63 : v; return v; }
static void b64dec() {
  string s = ref64(pat(prm("pre", 0)), true) + bytes(prm("len", 4), "text"); string r = Base64::Decode(s);
  string w; int v[4], k = 0; size_t i = 0;
  for (; i < s.size(); i++) { unsigned char c = (unsigned char)s[i]; if (c == '\r' || c == '\n') continue; int x = val64(c); if (x < 0) break; v[k++] = x; if (k == 4) { w += (char)(v[0] << 2 | v[1] >> 4); w += (char)(v[1] << 4 | v[2] >> 2); w += (char)(v[2] << 6 | v[3]); k = 0; } }
  if (k >= 2) w += (char)(v[0] << 2 | v[1] >> 4); if (k >= 3) w += (char)(v[1] << 4 | v[2] >> 2);
  CHECK(23, same(r, w), "decoding does not yield the bytes of the leading valid part"); sym_reach("dec"); sym_trace("r", r.data(), r.size());
}
// ---------------- P24: trimming and case ----------------
static void strs() {
  static const char *FILL[] = {"", " ", "x", "\t \r\n", "Ab1 \xe9Z"}; const char *fa = FILL[prm("fpre", 0)], *fb = FILL[prm("fpost", 0)]; string s; for (int i = 0; *fa && i < prm("pre", 0); i++) s += fa[(size_t)i % strlen(fa)]; { string m = bytes(prm("len", 3), "s"); s += m; } for (int i = 0; *fb && i < prm("post", 0); i++) s += fb[(size_t)i % strlen(fb)];
  size_t n = s.size(), a = 0, b = n;
  string l = StringUtils::trimLeft(s), r = StringUtils::trimRight(s), t = StringUtils::trim(s), lo = StringUtils::toLower(s), u = StringUtils::toUpper(s);
  while (a < n && isws((unsigned char)s[a])) a++;
  while (b > 0 && isws((unsigned char)s[b - 1])) b--;
  CHECK(24, same(l, s.substr(a)), "trimming the start is not exact"); CHECK(24, same(r, s.substr(0, b)), "trimming the end is not exact"); CHECK(24, same(t, b > a ? s.substr(a, b - a) : ""), "trimming both ends is not exact");
  string wl = s, wu = s; for (char &c : wl) c = (char)low((unsigned char)c); for (char &c : wu) c = (char)up((unsigned char)c);
  CHECK(24, same(lo, wl), "lower casing is not exact"); CHECK(24, same(u, wu), "upper casing is not exact"); sym_reach("str"); sym_trace("t", t.data(), t.size());
}
// ---------------- P30: addresses as text ----------------
static string addr(int n, const char *nm) { string l = cstr(n, nm); int ok = 1; for (unsigned char c : l) ok &= ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_') | (c == '-'); sym_assume(ok); return l + "@x.org"; }
struct Pub : SmtpClient { Pub() : SmtpClient("h", 25) {} static string list(const vector<MessageAddress *> &v) { return generateHeaderAddressValues(v); } };
static void addrs() {
  int n = prm("len", 2), m = prm("nlen", 2), k = prm("n", 2);
  string ea = addr(n, "mail"), na = cstr(m, "name"); MessageAddress a(ea.c_str(), na.c_str());
  string want = m ? na + " <" + ea + ">" : ea; CHECK(30, same((string)a, want), "an address is not printed in the standard form");
  string eb = addr(n, "mail2"), nb = cstr(prm("nlen2", m), "name2"); MessageAddress b(eb.c_str(), nb.c_str());
  int eq = same(ea, eb) & same(na, nb); CHECK(30, (a == b) == (eq != 0), "equality of addresses is wrong"); CHECK(30, a == a, "an address is not equal to itself");
  cpp::MessageAddress x(ea, na), y(eb, nb); CHECK(30, same((string)x, want), "an address of the string interface is not printed in the standard form"); CHECK(30, (x == y) == (eq != 0), "equality of addresses of the string interface is wrong");
  vector<MessageAddress *> v; string wl; for (int i = 0; i < k; i++) { v.push_back(i & 1 ? &b : &a); if (i) wl += ", "; wl += i & 1 ? (nb.empty() ? eb : nb + " <" + eb + ">") : want; }
  CHECK(30, same(Pub::list(v), wl), "an address list is not printed in order with a comma"); sym_reach("addr"); sym_trace("l", wl.data(), wl.size());
}
// ---------------- P25: validation ----------------
template <class F> static int thrown(F f) { try { f(); return 0; } catch (const std::invalid_argument &) { return 1; } catch (...) { return 2; } }
// addresses of the common form have to be accepted
static int plain(const string &s) {
  // local: [_a-z0-9-]+ ([.] ...)*  @ host with a final label of 2 to 4 letters; checked branch free with a small automaton
  int st[5] = {1, 0, 0, 0, 0};   // 0 before local char, 1 in local, 2 before host char, 3 in host
  int letters = 0, dot = 0;      // letters since the last dot of the host
  for (unsigned char c0 : s) {
    unsigned char c = low(c0); int al = (c >= 'a') & (c <= 'z'), dg = (c >= '0') & (c <= '9'), hy = c == '-', un = c == '_', dt = c == '.', at = c == '@';
    int lc = al | dg | hy | un, hc = al | dg | hy; int n[4];
    n[1] = (st[0] | st[1]) & lc; n[0] = st[1] & dt; n[2] = (st[1] & at) | (st[3] & dt); n[3] = (st[2] | st[3]) & hc;
    dot = ((st[3] & dt) | dot) & (n[2] | n[3]); letters = (st[2] & al) ? 1 : (st[3] & al & (letters > 0)) ? letters + 1 : 0;
    for (int i = 0; i < 4; i++) st[i] = n[i];
  }
  return st[3] & (dot != 0) & (letters >= 2) & (letters <= 4);
}
static void valid() {
  int n = prm("len", 3), k = prm("what", 0); string s;
  switch (prm("form", 0)) { case 0: s = cstr(n, "v"); break; case 1: s = "a@x." + cstr(n, "v"); break; case 2: s = cstr(n, "v") + "@x.org"; break; case 3: s = "me@" + cstr(n, "v") + ".org"; break; case 4: { string u = cstr(n, "v"), v = cstr(prm("len2", 2), "w"); s = u + "@" + v + ".com"; } }
  int64_t live = w_live(); int bad = 0, want = blank(s);
  if (k == 0) {
    bad = thrown([&] { MessageAddress a(s.c_str(), "n"); CHECK(25, same(a.getEmailAddress(), s) && same(a.getDisplayName(), "n"), "an accepted address is not stored unchanged"); });
    int at = 0, nl = 0; for (char c : s) { at |= c == '@'; nl |= (c == '\r') | (c == '\n'); }
    CHECK(25, bad != 2, "a bad address is refused with another error"); CHECK(25, bad || (at && !nl), "an address without @ or with a line break is accepted"); CHECK(25, bad || !want, "a blank address is accepted"); CHECK(25, !bad || !plain(s), "a regular address is refused");
    int b2 = thrown([&] { cpp::MessageAddress a(s, "n"); CHECK(25, same(a.getEmailAddress(), s), "an accepted address is not stored unchanged"); }); CHECK(25, b2 == bad, "the string interface validates differently");
  } else if (k == 1) {
    bad = thrown([&] { Credential c(s.c_str(), "p"); CHECK(25, same(c.getUsername(), s) && same(c.getPassword(), "p"), "an accepted credential is not stored unchanged"); });
    CHECK(25, bad == want, "a user name is refused or accepted wrongly");
    Credential c("u", "p", kLogin); bad = thrown([&] { c.setUsername(s.c_str()); }); CHECK(25, bad == want, "a new user name is refused or accepted wrongly"); CHECK(25, same(c.getUsername(), bad ? string("u") : s), "a user name is not what was set"); CHECK(25, same(c.getPassword(), "p") && c.getRecommendedAuthOption() == kLogin, "setting the user name changes something else");
    int e = s.empty(); bad = thrown([&] { Credential d("u", s.c_str(), kPlain); CHECK(25, same(d.getPassword(), s) && d.getRecommendedAuthOption() == kPlain, "an accepted credential is not stored unchanged"); }); CHECK(25, bad == e, "a password is refused or accepted wrongly");
    bad = thrown([&] { c.setPassword(s.c_str()); }); CHECK(25, bad == e, "a new password is refused or accepted wrongly"); CHECK(25, same(c.getPassword(), bad ? string("p") : s), "a password is not what was set");
    for (int o = 0; o < 7; o++) { c.setRecommendedAuthOption((RecommendedAuthenticationMethod)o); CHECK(25, c.getRecommendedAuthOption() == o, "the authentication option is not what was set"); }
    CHECK(25, thrown([&] { Credential d(nullptr, "p"); }) == 1 && thrown([&] { Credential d("u", nullptr); }) == 1 && thrown([&] { c.setUsername(nullptr); }) == 1 && thrown([&] { c.setPassword(nullptr); }) == 1, "a null user name or password is accepted");
    int b2 = thrown([&] { cpp::Credential d(s, "p"); CHECK(25, same(d.getUsername(), s), "an accepted credential is not stored unchanged"); d.setUsername(s); d.setPassword("q"); }); CHECK(25, b2 == want, "the string interface validates differently");
  } else if (k == 2) {
    bad = thrown([&] { Attachment a(s.c_str(), "n", "c"); CHECK(25, same(a.getFilename(), s) && same(a.getName(), "n") && same(a.getContentId(), "c"), "an accepted attachment is not stored unchanged"); a.setContentId(s.c_str()); CHECK(25, same(a.getContentId(), s), "the content id is not what was set"); });
    CHECK(25, bad == want, "a file name is refused or accepted wrongly");
    int b2 = thrown([&] { cpp::Attachment a(s, "n", "c"); CHECK(25, same(a.getFilename(), s), "an accepted attachment is not stored unchanged"); }); CHECK(25, b2 == want, "the string interface validates differently");
  } else {
    unsigned port = 0; sym_bytes(&port, 4, "port");
    auto one = [&](auto *t) { typedef typename std::remove_pointer<decltype(t)>::type C;
      bad = thrown([&] { C c(s.c_str(), port); CHECK(25, same(c.getServerName(), s) && c.getServerPort() == port, "an accepted server is not stored unchanged"); });
      CHECK(25, bad == want, "a server name is refused or accepted wrongly");
      C c("host", 25); bad = thrown([&] { c.setServerName(s.c_str()); }); CHECK(25, bad == want, "a new server name is refused or accepted wrongly"); CHECK(25, same(c.getServerName(), bad ? string("host") : s), "a server name is not what was set");
      c.setServerPort(port); c.setCommandTimeout(port); CHECK(25, c.getServerPort() == port && c.getCommandTimeout() == port, "a port or timeout is not what was set"); c.setBatchMode(true); CHECK(25, c.getBatchMode(), "the batch mode is not what was set"); };
    switch (prm("cls", 0)) { case 0: one((SmtpClient *)nullptr); break; case 1: one((OpportunisticSecureSMTPClient *)nullptr); break; case 2: one((ForcedSecureSMTPClient *)nullptr); break; case 3: one((cpp::SmtpClient *)nullptr); break; case 4: one((cpp::OpportunisticSecureSMTPClient *)nullptr); break; default: one((cpp::ForcedSecureSMTPClient *)nullptr); }
    if (prm("cls", 0) < 3) CHECK(25, thrown([&] { SmtpClient c(nullptr, 25); }) == 1 && thrown([&] { SmtpClient c("h", 25); c.setServerName(nullptr); }) == 1 && thrown([&] { OpportunisticSecureSMTPClient c(nullptr, 25); }) == 1 && thrown([&] { ForcedSecureSMTPClient c(nullptr, 25); }) == 1, "a null server name is accepted");
  }
  CHECK(25, w_live() == live, "validation leaks memory"); sym_reach(bad ? "refused" : "accepted"); sym_trace_int("bad", bad);
}
// validation takes no more than polynomial time: the number of runs a backtracking matcher may try, for any word
// repeated up to len characters and an end that does not match.  Natively a long run shows as a hang.
extern "C" uint64_t sym_regex_runs() __attribute__((weak));
static void cost() {
  int n = prm("len", 60), k = prm("wlen", 1); string w = k ? cstr(k, "word") : string("ab-1"), s = prm("form", 0) == 0 ? "a" : prm("form", 0) == 1 ? "a@x" : "a@x.com."; while ((int)s.size() < n) s += w; s += prm("good", 0) ? prm("form", 0) ? ".com" : "@b.com" : "!";
  if (sym_regex_runs) sym_regex_runs();
  int bad = thrown([&] { MessageAddress a(s.c_str(), "n"); CHECK(25, string(a.getEmailAddress()) == s, "an address is not stored unchanged"); }); CHECK(25, bad == !prm("good", !k ? 0 : bad == 0), "a long address is judged wrongly"); CHECK(25, bad != 2, "a bad address is refused with another error");
  if (sym_regex_runs) { uint64_t r = sym_regex_runs(); CHECK(25, r < 300000, "validating an address takes exponential time"); } sym_reach("cost"); sym_trace_int("bad", bad);
}
// ---------------- P27: error messages ----------------
static const int DOC[] = {SOCKET_INIT_SESSION_CREATION_ERROR, SOCKET_INIT_SESSION_CONNECT_ERROR, SOCKET_INIT_SESSION_CONNECT_TIMEOUT, SOCKET_INIT_SESSION_WINSOCKET_STARTUP_ERROR, SOCKET_INIT_SESSION_WINSOCKET_GETADDRINFO_ERROR, SOCKET_INIT_SESSION_GETHOSTBYNAME_ERROR, SOCKET_INIT_SESSION_FCNTL_GET_ERROR, SOCKET_INIT_SESSION_FCNTL_SET_ERROR, SOCKET_INIT_SESSION_GET_SOCKET_OPTIONS_ERROR, SOCKET_INIT_SESSION_DELAYED_CONNECTION_ERROR, SOCKET_INIT_CLIENT_SEND_EHLO_ERROR, SOCKET_INIT_CLIENT_SEND_EHLO_TIMEOUT, SOCKET_INIT_CLIENT_SEND_STARTTLS_ERROR, SOCKET_INIT_CLIENT_SEND_STARTTLS_TIMEOUT,
  SSL_CLIENT_STARTTLS_INITSSLCTX_ERROR, SSL_CLIENT_STARTTLS_BIONEWSSLCONNECT_ERROR, SSL_CLIENT_STARTTLS_WIN_CERTOPENSYSTEMSTORE_ERROR, SSL_CLIENT_STARTTLS_CTX_SET_DEFAULT_VERIFY_PATHS_ERROR, SSL_CLIENT_STARTTLS_BIO_CONNECT_ERROR, SSL_CLIENT_STARTTLS_BIO_HANDSHAKE_ERROR, SSL_CLIENT_STARTTLS_GET_CERTIFICATE_ERROR, SSL_CLIENT_STARTTLS_VERIFY_RESULT_ERROR, SSL_CLIENT_INITSECURECLIENT_ERROR, SSL_CLIENT_INITSECURECLIENT_TIMEOUT,
  CLIENT_AUTHENTICATE_ERROR, CLIENT_AUTHENTICATE_TIMEOUT, CLIENT_AUTHENTICATE_NONEED, CLIENT_AUTHENTICATION_METHOD_NOTSUPPORTED, CLIENT_SENDMAIL_MAILFROM_ERROR, CLIENT_SENDMAIL_MAILFROM_TIMEOUT, CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT, CLIENT_SENDMAIL_DATA_ERROR, CLIENT_SENDMAIL_DATA_TIMEOUT, CLIENT_SENDMAIL_HEADERFROM_ERROR, CLIENT_SENDMAIL_HEADERTOANDCC_ERROR, CLIENT_SENDMAIL_HEADERSUBJECT_ERROR, CLIENT_SENDMAIL_HEADERCONTENTTYPE_ERROR, CLIENT_SENDMAIL_BODYPART_ERROR, CLIENT_SENDMAIL_BODY_ERROR, CLIENT_SENDMAIL_END_DATA_ERROR, CLIENT_SENDMAIL_END_DATA_TIMEOUT, CLIENT_SENDMAIL_QUIT_ERROR,
  SMTPSERVER_AUTHENTICATIONREQUIRED_ERROR, SMTPSERVER_AUTHENTICATIONTOOWEAK_ERROR, SMTPSERVER_CREDENTIALSINVALID_ERROR, SMTPSERVER_ENCRYPTIONREQUIREDFORAUTH_ERROR, SMTPSERVER_AUTHENTICATION_UNSUCCESSFUL_GMAIL_ERROR};
static string msgOf(int code) { char *m = SMTPClientBase::getErrorMessage(code); CHECK(27, m != nullptr, "no message text"); string s(m); delete[] m; return s; }
static void errors() {
  int code; sym_bytes(&code, 4, "code"); int64_t live = w_live();
  { string m = msgOf(code); int isdoc = 0; for (int d : DOC) isdoc |= code == d;
    string def = msgOf(12345); 
    CHECK(27, (same(m, def) != 0) == !isdoc, "a documented code has the default message or another one has not");
    CHECK(27, m.size() > 5, "a message is empty");
    if (prm("pair", 0)) { int c2; sym_bytes(&c2, 4, "code2"); int d2 = 0; for (int d : DOC) d2 |= c2 == d; sym_assume(isdoc & d2 & (code != c2)); string m2 = msgOf(c2); CHECK(27, !same(m, m2), "two documented codes have the same message"); }
    ErrorResolver r(code); CHECK(27, r.getErrorCode() == code && same(r.getErrorMessage(), m), "the error description does not hold its code and message");
    CHECK(27, same(cpp::SmtpClient::getErrorMessage(code), m), "the string interface gives another message");
    sym_trace("m", m.data(), m.size()); sym_reach(isdoc ? "documented" : "default");
  }
  CHECK(27, w_live() == live, "getting a message leaks memory");
}
static void errbuf() {
  int codes[] = {CLIENT_SENDMAIL_QUIT_ERROR, SMTPSERVER_AUTHENTICATION_UNSUCCESSFUL_GMAIL_ERROR, 0, SSL_CLIENT_STARTTLS_CTX_SET_DEFAULT_VERIFY_PATHS_ERROR};
  int64_t live = w_live();
  { int code = codes[prm("which", 0) % 4]; string m = msgOf(code); size_t n = sym_choice((uint64_t)prm("max", 160), "size"); int cls = prm("cls", 0);
    char *b = new char[n + 1]; memset(b, '#', n + 1);
    int r = cls == 0 ? SmtpClient::getErrorMessage_r(code, b, n) : cls == 1 ? OpportunisticSecureSMTPClient::getErrorMessage_r(code, b, n) : ForcedSecureSMTPClient::getErrorMessage_r(code, b, n);
    CHECK(27, b[n] == '#', "the copy is written beyond the buffer");
    if (n == 0) { CHECK(27, r == -1, "a zero-sized buffer is not refused"); }
    else if (m.size() < n) { CHECK(27, r == 0 && same(b, m), "a message that fits is not copied whole"); }
    else { CHECK(27, b[n - 1] == 0, "a truncated message is not terminated"); CHECK(27, r == (int)n - 1 && same(string(b, n - 1), m.substr(0, n - 1)), "a truncated message or its length is wrong"); }
    delete[] b;
    if (n > 0) { char *e = new char[n]; SmtpClient::getErrorMessage_r(code, e, n); delete[] e; }   // an exact block: an overrun is a memory error
    CHECK(27, SmtpClient::getErrorMessage_r(code, nullptr, n) == -1, "a null buffer is not refused");
    string s = "old"; int r2 = cpp::SmtpClient::getErrorMessage_r(code, s); CHECK(27, r2 == 0 && same(s, m), "the string interface copies another message"); 
    sym_trace_int("r", r); sym_reach("buf");
  }
  CHECK(27, w_live() == live, "copying a message leaks memory");
}
// ---------------- P28: content types ----------------
static const char *MT[][2] = {{"PNG", "image/png"}, {"JPEG", "image/jpeg"}, {"JPG", "image/jpeg"}, {"JPE", "image/jpeg"}, {"GIF", "image/gif"}, {"TIFF", "image/tiff"}, {"TIF", "image/tiff"}, {"ICO", "image/x-icon"}, {"XML", "application/xml"}, {"XSL", "application/xml"}, {"XHTML", "application/xhtml+xml"}, {"XHT", "application/xhtml+xml"}, {"PDF", "application/pdf"}, {"JS", "application/javascript"},
  {"CSS", "text/css"}, {"CSV", "text/csv"}, {"HTML", "text/html"}, {"HTM", "text/html"}, {"TXT", "text/plain"}, {"TEXT", "text/plain"}, {"CONF", "text/plain"}, {"DEF", "text/plain"}, {"LIST", "text/plain"}, {"LOG", "text/plain"}, {"IN", "text/plain"}, {"MPEG", "video/mpeg"}, {"MPG", "video/mpeg"}, {"MPE", "video/mpeg"}, {"M1V", "video/mpeg"}, {"M2V", "video/mpeg"}, {"MP4", "video/mp4"}, {"MP4V", "video/mp4"}, {"MPG4", "video/mp4"}, {"QT", "video/quicktime"}, {"MOV", "video/quicktime"}, {"WMV", "video/x-ms-wmv"}, {"AVI", "video/x-msvideo"}, {"FLV", "video/x-flv"}, {"WEBM", "video/webm"},
  {"WAV", "audio/wav"}, {"MP3", "audio/mpeg"}, {"OGA", "audio/ogg"}, {"OPUS", "audio/opus"}, {"AAC", "audio/aac"}, {"ZIP", "application/zip"}, {"RAR", "application/x-rar-compressed"}, {"ODT", "application/vnd.oasis.opendocument.text"}, {"ODS", "application/vnd.oasis.opendocument.spreadsheet"}, {"ODP", "application/vnd.oasis.opendocument.presentation"}, {"ODG", "application/vnd.oasis.opendocument.graphics"},
  {"XLS", "application/vnd.ms-excel"}, {"XLM", "application/vnd.ms-excel"}, {"XLA", "application/vnd.ms-excel"}, {"XLC", "application/vnd.ms-excel"}, {"XLT", "application/vnd.ms-excel"}, {"XLW", "application/vnd.ms-excel"}, {"XLAM", "application/vnd.ms-excel.addin.macroenabled.12"}, {"XLSB", "application/vnd.ms-excel.sheet.binary.macroenabled.12"}, {"XLSM", "application/vnd.ms-excel.sheet.macroenabled.12"}, {"XLTM", "application/vnd.ms-excel.template.macroenabled.12"}, {"XLSX", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet"}, {"XLTX", "application/vnd.openxmlformats-officedocument.spreadsheetml.template"},
  {"PPT", "application/vnd.ms-powerpoint"}, {"PPS", "application/vnd.ms-powerpoint"}, {"POT", "application/vnd.ms-powerpoint"}, {"PPAM", "application/vnd.ms-powerpoint.addin.macroenabled.12"}, {"PPTM", "application/vnd.ms-powerpoint.presentation.macroenabled.12"}, {"SLDM", "application/vnd.ms-powerpoint.slide.macroenabled.12"}, {"PPSM", "application/vnd.ms-powerpoint.slideshow.macroenabled.12"}, {"POTM", "application/vnd.ms-powerpoint.template.macroenabled.12"}, {"PPTX", "application/vnd.openxmlformats-officedocument.presentationml.presentation"}, {"SLDX", "application/vnd.openxmlformats-officedocument.presentationml.slide"}, {"PPSX", "application/vnd.openxmlformats-officedocument.presentationml.slideshow"}, {"POTX", "application/vnd.openxmlformats-officedocument.presentationml.template"},
  {"DOC", "application/msword"}, {"DOT", "application/msword"}, {"DOCX", "application/vnd.openxmlformats-officedocument.wordprocessingml.document"}, {"DOTX", "application/vnd.openxmlformats-officedocument.wordprocessingml.template"}, {"XUL", "application/vnd.mozilla.xul+xml"}};
static void mime() {
  int n = prm("len", 3), nd = prm("nodot", 1); string pre[] = {"a.", "/tmp/x.d/file.", "", "dir.png/", "x.txt."};
  string e = cstr(n, "ext"); string f = pre[prm("form", 0)] + e; if (blank(f)) return;
  if (nd) { int d = 0; for (char c : e) d |= c == '.'; sym_assume(!d); }
  Attachment a(f.c_str(), prm("alt", 0) ? "other.png" : "", prm("alt", 0) ? "cid.gif" : ""); const char *g = a.getMimeType(); CHECK(28, g != nullptr, "no content type"); string m(g);
  size_t p = f.size(); while (p > 0 && f[p - 1] != '.') p--;      // the whole name when there is no dot
  string x = f.substr(p); for (char &c : x) c = (char)up((unsigned char)c);
  int any = 0, ok = 1; for (auto &t : MT) if (strlen(t[0]) == x.size()) { int q = same(x, t[0]); any |= q; ok &= !q | (m == t[1]); }
  CHECK(28, ok, "an extension has the wrong content type"); CHECK(28, any || m.empty(), "an unknown extension has a content type");
  cpp::Attachment c(f, "n"); CHECK(28, c.getMimeType() == m, "the string interface gives another content type");
  sym_trace("m", m.data(), m.size()); sym_reach(m.empty() ? "none" : "known");
}
// ---------------- P21: values ----------------
struct S2 { string a, b, c; int k = 0; };
static int L; static int cnt;
static string fresh(const char *nm) { char b[24]; snprintf(b, 24, "%s%d", nm, cnt++); return cstr(L, b); }
template <class V> struct Ops;
template <> struct Ops<MessageAddress> { static S2 gen() { S2 s; s.a = addr(L > 1 ? 1 : L ? 1 : 1, "mail"); s.b = fresh("name"); return s; } static MessageAddress mk(const S2 &s) { return MessageAddress(s.a.c_str(), s.b.c_str()); } static int eq(const MessageAddress &v, const S2 &s) { return same(v.getEmailAddress(), s.a) & same(v.getDisplayName(), s.b); } static void mut(MessageAddress &, S2 &, int) {} enum { nmut = 0 }; };
static string user() { string s = fresh("user"); if (s.empty()) s = "u"; sym_assume(!blank(s)); return s; }
template <> struct Ops<Credential> { static S2 gen() { S2 s; s.a = user(); s.b = fresh("pass"); if (s.b.empty()) s.b = "p"; s.k = (int)sym_choice(3, "opt"); return s; }
  static Credential mk(const S2 &s) { return Credential(s.a.c_str(), s.b.c_str(), (RecommendedAuthenticationMethod)s.k); } static int eq(const Credential &v, const S2 &s) { return same(v.getUsername(), s.a) & same(v.getPassword(), s.b) & (v.getRecommendedAuthOption() == s.k); }
  enum { nmut = 4 }; static void mut(Credential &v, S2 &s, int k) { if (k == 0) { s.a = user() + "9"; v.setUsername(s.a.c_str()); } else if (k == 1) { s.b = fresh("pass") + "zz"; v.setPassword(s.b.c_str()); } else if (k == 2) { v.setUsername(v.getUsername()); v.setPassword(v.getPassword()); } else { s.k = 5; v.setRecommendedAuthOption(kOAuthBearer); } } };
template <> struct Ops<Attachment> { static S2 gen() { S2 s; s.a = user(); s.b = fresh("name"); s.c = fresh("cid"); return s; } static Attachment mk(const S2 &s) { return Attachment(s.a.c_str(), s.b.c_str(), s.c.c_str()); }
  static int eq(const Attachment &v, const S2 &s) { return same(v.getFilename(), s.a) & same(v.getName(), s.b) & same(v.getContentId(), s.c); } enum { nmut = 2 }; static void mut(Attachment &v, S2 &s, int k) { if (k == 0) { s.c = fresh("cid") + "long"; v.setContentId(s.c.c_str()); } else v.setContentId(v.getContentId()); } };
template <> struct Ops<ErrorResolver> { static S2 gen() { S2 s; int c[] = {-1, -99, 0, 334}; s.k = c[sym_choice(4, "code")]; return s; } static ErrorResolver mk(const S2 &s) { return ErrorResolver(s.k); } static int eq(const ErrorResolver &v, const S2 &s) { string m = msgOf(s.k); return same(v.getErrorMessage(), m) & (v.getErrorCode() == s.k); } enum { nmut = 0 }; static void mut(ErrorResolver &, S2 &, int) {} };
// string interface
template <> struct Ops<cpp::MessageAddress> { static S2 gen() { return Ops<MessageAddress>::gen(); } static cpp::MessageAddress mk(const S2 &s) { return cpp::MessageAddress(s.a, s.b); } static int eq(const cpp::MessageAddress &v, const S2 &s) { return same(v.getEmailAddress(), s.a) & same(v.getDisplayName(), s.b); } enum { nmut = 0 }; static void mut(cpp::MessageAddress &, S2 &, int) {} };
template <> struct Ops<cpp::Credential> { static S2 gen() { return Ops<Credential>::gen(); } static cpp::Credential mk(const S2 &s) { return cpp::Credential(s.a, s.b, (RecommendedAuthenticationMethod)s.k); } static int eq(const cpp::Credential &v, const S2 &s) { return same(v.getUsername(), s.a) & same(v.getPassword(), s.b) & (v.getRecommendedAuthOption() == s.k); }
  enum { nmut = 3 }; static void mut(cpp::Credential &v, S2 &s, int k) { if (k == 0) { s.a = user() + "9"; v.setUsername(s.a); } else if (k == 1) { s.b = fresh("pass") + "zz"; v.setPassword(s.b); } else { s.k = 5; v.setRecommendedAuthOption(kOAuthBearer); } } };
template <> struct Ops<cpp::Attachment> { static S2 gen() { return Ops<Attachment>::gen(); } static cpp::Attachment mk(const S2 &s) { return cpp::Attachment(s.a, s.b, s.c); } static int eq(const cpp::Attachment &v, const S2 &s) { return same(v.getFilename(), s.a) & same(v.getName(), s.b) & same(v.getContentId(), s.c); } enum { nmut = 1 }; static void mut(cpp::Attachment &v, S2 &s, int) { s.c = fresh("cid") + "long"; v.setContentId(s.c); } };

template <class V> static void seq() {
  int pid = 21; int64_t live = w_live(); { typedef Ops<V> O; S2 a = O::gen(), b = O::gen(); int steps = prm("steps", 2);
  { V x = O::mk(a), y = O::mk(b); bool xm = false, ym = false;      // xm: moved from
    for (int i = 0; i < steps; i++) {
      int k = (int)sym_choice(9 + O::nmut, "op"); V *px = &x;
      switch (k) {
        case 0: if (ym) break; x = y; a = b; xm = false; break;
        case 1: if (xm) break; y = x; b = a; ym = false; break;
        case 2: x = *px; break;
        case 3: if (ym) break; x = std::move(y); a = b; xm = false; ym = true; break;
        case 4: if (ym) { y = O::mk(a); b = a; ym = false; } break;                // give the moved-from value a new content
        case 5: if (!xm) { V t(x); CHECK(21, O::eq(t, a), "a copy differs from its source"); } break;
        case 6: if (!xm) { V t(std::move(x)); CHECK(21, O::eq(t, a), "a moved-to value differs from its source"); x = t; CHECK(21, O::eq(t, a), "a copied-from value changed"); } break;
        case 7: if (!xm && !ym) { V t(x); t = y; CHECK(21, O::eq(t, b), "an assigned value differs from its source"); t = std::move(x); CHECK(21, O::eq(t, a), "a move-assigned value differs from its source"); x = std::move(t); } break;
        case 8: x = std::move(*px); if (!xm) { CHECK(21, O::eq(x, a), "self-move changes the value"); } break;
        default: if (!xm) O::mut(x, a, k - 9); break;
      }
      CHECK(21, xm || O::eq(x, a), "a value changed that was not assigned or lost its content"); CHECK(21, ym || O::eq(y, b), "a value changed that was not assigned or lost its content");
    } }
  sym_reach("seq"); }
  CHECK(21, w_live() == live, "copying, assigning or moving leaks memory"); (void)pid;
}
// messages
struct SM { vector<S2> to, cc, bcc, at; S2 from; string subj, body; bool nullSubj = false, nullBody = false; };
static vector<S2> some(int n, bool att) { vector<S2> v; for (int i = 0; i < n; i++) { S2 s; if (att) { s.a = "f" + fresh("file"); s.b = fresh("name"); s.c = fresh("cid"); } else { s.a = "m" + string(1, (char)('0' + cnt++ % 10)) + "@x.org"; s.b = fresh("name"); } v.push_back(s); } return v; }
static SM genM(const char *nm, int minTo = 0) { SM m; int mx = prm("maxn", 2) + 1; (void)nm;
  static const int sh[8][5] = {{0, 0, 0, 0, 1}, {1, 0, 0, 0, 0}, {2, 1, 1, 1, 0}, {1, 1, 0, 2, 1}, {1, 0, 2, 0, 0}, {0, 2, 1, 1, 0}, {1, 2, 0, 1, 0}, {2, 0, 1, 2, 1}};
  m.from.a = "from@y.org"; m.from.b = fresh("from"); int nt, nc, nb, na, z;
  if (prm("shapes", 1)) { int k = (int)sym_choice(8, "shape"); nt = sh[k][0]; nc = sh[k][1]; nb = sh[k][2]; na = sh[k][3]; z = sh[k][4]; }
  else { nt = (int)sym_choice((uint64_t)mx, "nto"); nc = (int)sym_choice((uint64_t)mx, "ncc"); nb = (int)sym_choice((uint64_t)mx, "nbcc"); na = (int)sym_choice((uint64_t)mx, "natt"); z = (int)sym_choice(2, "null"); }
  if (nt < minTo) nt = minTo;
  m.to = some(nt, false); m.cc = some(nc, false); m.bcc = some(nb, false); m.at = some(na, true); m.subj = fresh("subj"); m.body = fresh("body"); if (z) { m.nullSubj = m.nullBody = true; m.subj = m.body = ""; } return m; }
template <class M> static M mkM(const SM &s) {
  vector<MessageAddress> to, cc, bcc; vector<Attachment> at; MessageAddress f(s.from.a.c_str(), s.from.b.c_str());
  for (auto &x : s.to) to.emplace_back(x.a.c_str(), x.b.c_str()); for (auto &x : s.cc) cc.emplace_back(x.a.c_str(), x.b.c_str()); for (auto &x : s.bcc) bcc.emplace_back(x.a.c_str(), x.b.c_str()); for (auto &x : s.at) at.emplace_back(x.a.c_str(), x.b.c_str(), x.c.c_str());
  return M(f, to.empty() ? nullptr : to.data(), to.size(), s.nullSubj ? nullptr : s.subj.c_str(), s.nullBody ? nullptr : s.body.c_str(), cc.empty() ? nullptr : cc.data(), cc.size(), bcc.empty() ? nullptr : bcc.data(), bcc.size(), at.empty() ? nullptr : at.data(), at.size());
}
static int eqL(MessageAddress **p, size_t n, const vector<S2> &v) { if (n != v.size()) return 0; int ok = n == 0 || p != nullptr; for (size_t i = 0; i < n && ok; i++) ok = same(p[i]->getEmailAddress(), v[i].a) & same(p[i]->getDisplayName(), v[i].b); return ok; }
static int eqM(const Message &m, const SM &s) {
  int ok = eqL(m.getTo(), m.getToCount(), s.to) & eqL(m.getCc(), m.getCcCount(), s.cc) & eqL(m.getBcc(), m.getBccCount(), s.bcc) & same(m.getSubject(), s.subj) & same(m.getBody(), s.body) & same(m.getFrom().getEmailAddress(), s.from.a) & same(m.getFrom().getDisplayName(), s.from.b);
  if (m.getAttachmentsCount() != s.at.size()) return 0; for (size_t i = 0; i < s.at.size(); i++) ok &= same(m.getAttachments()[i]->getFilename(), s.at[i].a) & same(m.getAttachments()[i]->getName(), s.at[i].b) & same(m.getAttachments()[i]->getContentId(), s.at[i].c);
  return ok;
}
template <class M> static void seqM() {
  int64_t live = w_live(); { SM a = genM("a"), b = genM("b"); int steps = prm("steps", 1);
  { M x = mkM<M>(a), y = mkM<M>(b); bool ym = false; CHECK(21, eqM(x, a) && eqM(y, b), "a message does not hold what it was given"); CHECK(21, string(x.getMimeType()) == y.getMimeType(), "the message type changes");
    for (int i = 0; i < steps; i++) {
      M *px = &x; switch (prm("op", -1) >= 0 ? (uint64_t)prm("op", 0) : sym_choice(8, "op")) {
        case 0: if (ym) break; x = y; a = b; break;
        case 1: y = x; b = a; ym = false; break;
        case 2: x = *px; break;
        case 3: if (ym) break; x = std::move(y); a = b; ym = true; break;
        case 4: x = std::move(*px); break;
        case 5: { M t(x); CHECK(21, eqM(t, a), "a copy differs from its source"); if (!ym) { t = y; CHECK(21, eqM(t, b), "an assigned value differs from its source"); } break; }
        case 6: { M t(std::move(x)); CHECK(21, eqM(t, a), "a moved-to value differs from its source"); x = std::move(t); break; }
        case 7: if (!ym) { M t(x); x = y; y = t; std::swap(a, b); } break;
      }
      CHECK(21, eqM(x, a), "a message changed or lost its content"); CHECK(21, ym || eqM(y, b), "a message changed or lost its content");
    } }
  sym_reach("seqM"); }
  CHECK(21, w_live() == live, "copying, assigning or moving a message leaks memory");
}
// ---------------- P26: getters of the string interface ----------------
template <class X, class B> static void fac() {
  int64_t live = w_live(); { SM s = genM("m", 1);
  { vector<cpp::MessageAddress> to, cc, bcc; vector<cpp::Attachment> at; cpp::MessageAddress f(s.from.a, s.from.b);
    for (auto &x : s.to) to.emplace_back(x.a, x.b); for (auto &x : s.cc) cc.emplace_back(x.a, x.b); for (auto &x : s.bcc) bcc.emplace_back(x.a, x.b); for (auto &x : s.at) at.emplace_back(x.a, x.b, x.c);
    X m(f, to, s.subj, s.body, cc, bcc, at);
    auto lst = [&](const vector<cpp::MessageAddress> &v, const vector<S2> &w, size_t n) { int ok = v.size() == w.size() && n == w.size(); for (size_t i = 0; ok && i < w.size(); i++) ok = same(v[i].getEmailAddress(), w[i].a) & same(v[i].getDisplayName(), w[i].b); return ok; };
    CHECK(26, lst(m.getTo(), s.to, m.getToCount()) && lst(m.getCc(), s.cc, m.getCcCount()) && lst(m.getBcc(), s.bcc, m.getBccCount()), "a message of the string interface does not return its recipients"); CHECK(26, same(m.getSubject(), s.subj) && same(m.getBody(), s.body) && m.getFrom() == f, "a message of the string interface does not return its texts");
    int ok = m.getAttachmentsCount() == s.at.size(); for (size_t i = 0; ok && i < s.at.size(); i++) ok = same(m.getAttachments()[i].getFilename(), s.at[i].a) & same(m.getAttachments()[i].getName(), s.at[i].b) & same(m.getAttachments()[i].getContentId(), s.at[i].c); CHECK(26, ok, "a message of the string interface does not return its attachments");
    B b = static_cast<B>(m); SM w = s; CHECK(26, eqM(b, w), "the message built from the string interface differs"); CHECK(26, m.getMimeType() == b.getMimeType(), "the message type differs"); CHECK(26, b.getMimeType() == string(sizeof(X) && prm("html", 0) ? "text/html" : "text/plain"), "the message type is wrong");
    X c(m); c = m; CHECK(26, same(c.getSubject(), s.subj) && lst(c.getTo(), s.to, c.getToCount()), "a copied message of the string interface differs");
    for (auto &x : s.to) { cpp::MessageAddress q(x.a, x.b); MessageAddress r = q.toStdMessageAddress(); CHECK(26, same(r.getEmailAddress(), x.a) && same(r.getDisplayName(), x.b), "the converted address differs"); }
    for (auto &x : s.at) { cpp::Attachment q(x.a, x.b, x.c); Attachment r = q.toStdAttachment(); CHECK(26, same(r.getFilename(), x.a) && same(r.getName(), x.b) && same(r.getContentId(), x.c), "the converted attachment differs"); CHECK(26, q.getMimeType() == r.getMimeType(), "the converted attachment has another type"); }
  } sym_reach("facade"); }
  CHECK(26, w_live() == live, "the string interface leaks memory");
}
template <class C> static void facC() {
  int64_t live = w_live(); { string srv = user(), u = user(), p = fresh("pass") + "x"; unsigned port, tmo; sym_bytes(&port, 4, "port"); sym_bytes(&tmo, 4, "tmo"); int opt = (int)sym_choice(7, "opt");
  { C c(srv, port); c.setBatchMode(true); c.setCommandTimeout(tmo); CHECK(26, c.getCredentials() == nullptr, "credentials that were never set"); c.setCredentials(cpp::Credential(u, p, (RecommendedAuthenticationMethod)opt));
    auto ok = [&](const C &x) { const cpp::Credential *k = x.getCredentials(); return k != nullptr && same(x.getServerName(), srv) && x.getServerPort() == port && x.getBatchMode() && x.getCommandTimeout() == tmo && same(k->getUsername(), u) && same(k->getPassword(), p) && k->getRecommendedAuthOption() == opt && x.getCommunicationLog().empty(); };
    CHECK(26, ok(c), "a client of the string interface does not return what it was given");
    { C d(c); CHECK(26, ok(d) && ok(c), "a copied client of the string interface differs"); d.setCredentials(cpp::Credential("other", "pw")); d.setServerName("elsewhere"); CHECK(26, ok(c), "changing a copy changes the original"); C e(std::move(d)); CHECK(26, same(e.getServerName(), "elsewhere") && same(e.getCredentials()->getUsername(), "other"), "a moved client of the string interface differs"); }
    CHECK(26, ok(c), "destroying a copy changes the original");
    { C d("q", 1); d.setCredentials(cpp::Credential("a", "b")); d = c; CHECK(26, ok(d), "an assigned client of the string interface differs"); C *pd = &d; d = *pd; CHECK(26, ok(d), "self-assignment changes the client"); }
    CHECK(26, ok(c), "destroying a copy changes the original");
  } sym_reach("facade client"); }
  CHECK(26, w_live() == live, "clients of the string interface leak memory");
}
static void facA() {      // attachment content and credentials
  int64_t live = w_live(); { string d = bytes(prm("len", 3), "data"); w_file("x.bin", d.data(), d.size());
  { cpp::Attachment a("x.bin", "n", "c"); CHECK(26, same(a.getBase64EncodedFile(), ref64(d, true)), "the encoded file of the string interface differs"); Attachment b("x.bin"); const char *e = b.getBase64EncodedFile(); CHECK(26, same(e, ref64(d, true)), "the encoded file differs"); CHECK(23, same(e, ref64(d, true)), "the encoded file differs"); delete[] e; }
  sym_reach("file"); }
  CHECK(26, w_live() == live, "reading an attachment leaks memory");
}
extern "C" void sym_main() {
  w_init(); L = prm("slen", 2);
  switch (prm("mode", 1)) {
    case 1: b64enc(); break; case 2: b64dec(); break; case 3: strs(); break; case 4: addrs(); break; case 5: valid(); break; case 6: errors(); break; case 7: errbuf(); break; case 8: mime(); break;
    case 9: switch (prm("v", 0)) { case 0: seq<MessageAddress>(); break; case 1: seq<Credential>(); break; case 2: seq<Attachment>(); break; case 3: seq<ErrorResolver>(); break; case 4: seq<cpp::MessageAddress>(); break; case 5: seq<cpp::Credential>(); break; default: seq<cpp::Attachment>(); } break;
    case 10: if (prm("html", 0)) seqM<HTMLMessage>(); else seqM<PlaintextMessage>(); break;
    case 11: if (prm("html", 0)) fac<cpp::HTMLMessage, HTMLMessage>(); else fac<cpp::PlaintextMessage, PlaintextMessage>(); break;
    case 12: switch (prm("cls", 0)) { case 0: facC<cpp::SmtpClient>(); break; case 1: facC<cpp::OpportunisticSecureSMTPClient>(); break; default: facC<cpp::ForcedSecureSMTPClient>(); } break;
    case 13: facA(); break;
    case 14: cost(); break;
  }
}
