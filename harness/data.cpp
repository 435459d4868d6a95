// What arrives at the server: envelope, headers, body, attachments, and comparison of
// two runs under the same environment.  mode selects the scenario.
#include "world.h"
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "smtpclient.h"
#include "opportunisticsecuresmtpclient.h"
#include "forcedsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "htmlmessage.h"
#include "cpp/smtpclient.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
#include "cpp/plaintextmessage.hpp"
#include "cpp/htmlmessage.hpp"
using namespace jed_utils;
using std::string; using std::vector;
extern int w_cls, w_acceptSelf;
static int cls, html, batch;
static int prm(const char *n, int d) { return (int)sym_param(n, d); }

static bool same(const string &a, const string &b) { return sym_eq(a.data(), a.size(), b.data(), b.size()); }
static bool has(const string &s, const string &t) { return s.find(t) != string::npos; }
// a C string of exactly n unknown non-zero bytes
static string symstr(int n, const char *nm) {
  if (n <= 0) return string();
  string s((size_t)n, 'x'); sym_bytes(&s[0], (size_t)n, nm); int ok = 1; for (int i = 0; i < n; i++) ok &= s[i] != 0; sym_assume(ok); return s;
}
static bool oneLine(const string &s) { int c = 0; for (char ch : s) c |= (ch == '\r') | (ch == '\n'); return !c; }

// ---- scenario values ----
struct Addr { string mail, name; };
struct Att { string file, name, cid, data; };
struct Scn { Addr from; vector<Addr> to, cc, bcc; string subject, body; vector<Att> att; string user, pass; int auth = -1; };
static int fileNo;
static string mkfile(const char *ext, const string &data) { char b[32]; snprintf(b, 32, "file%d%s", ++fileNo, ext); w_file(b, data.data(), data.size()); return b; }

// ---- run one message through a client; r: result and what the server saw ----
struct Out { int ret = 0; string log, stream, data; int conn = 0; };
static MessageAddress A(const Addr &a) { return MessageAddress(a.mail.c_str(), a.name.c_str()); }
static cpp::MessageAddress XA(const Addr &a) { return cpp::MessageAddress(a.mail, a.name); }
template <class M> static M *baseMsg(const Scn &s) {
  vector<MessageAddress> to, cc, bcc; vector<Attachment> at;
  for (auto &a : s.to) to.push_back(A(a)); for (auto &a : s.cc) cc.push_back(A(a)); for (auto &a : s.bcc) bcc.push_back(A(a));
  for (auto &a : s.att) at.emplace_back(a.file.c_str(), a.name.c_str(), a.cid.c_str());
  return new M(A(s.from), to.data(), to.size(), s.subject.c_str(), s.body.c_str(), cc.empty() ? nullptr : cc.data(), cc.size(), bcc.empty() ? nullptr : bcc.data(), bcc.size(), at.empty() ? nullptr : at.data(), at.size());
}
template <class M> static M facMsg(const Scn &s) {
  vector<cpp::MessageAddress> to, cc, bcc; vector<cpp::Attachment> at;
  for (auto &a : s.to) to.push_back(XA(a)); for (auto &a : s.cc) cc.push_back(XA(a)); for (auto &a : s.bcc) bcc.push_back(XA(a));
  for (auto &a : s.att) at.emplace_back(a.file, a.name, a.cid);
  return M(XA(s.from), to, s.subject, s.body, cc, bcc, at);
}
static void acc(SmtpClient &) {} static void acc(cpp::SmtpClient &) {}
template <class C> static void acc(C &c) { c.setAcceptSelfSignedCert(w_acceptSelf != 0); }
template <class C> static void doSend(C &c, const Message &m, Out &o) {
  w_begin(); o.ret = c.sendMail(m); w_settle(o.ret); o.log = c.getCommunicationLog();
}
template <class C> static Out runBase(const Scn &s) {
  Out o; w_cls = cls; W.msgTo = (int)s.to.size(); W.msgCc = (int)s.cc.size(); W.msgBcc = (int)s.bcc.size(); W.credOn = !s.user.empty(); W.authWant = s.auth <= 0 ? 7 : s.auth == 1 ? 1 : s.auth == 2 ? 2 : s.auth == 3 ? 4 : 0;
  { C c("mx.test", 2525); c.setCommandTimeout((unsigned)W.cfg.tmo); c.setBatchMode(batch != 0); acc(c);
    if (!s.user.empty()) { if (s.auth >= 0) c.setCredentials(Credential(s.user.c_str(), s.pass.c_str(), (RecommendedAuthenticationMethod)s.auth)); else c.setCredentials(Credential(s.user.c_str(), s.pass.c_str())); }
    std::unique_ptr<Message> m; if (html) m.reset(baseMsg<HTMLMessage>(s)); else m.reset(baseMsg<PlaintextMessage>(s));
    doSend(c, *m, o); }
  o.conn = W.nconn - 1; if (o.conn >= 0) { o.stream = w_stream(o.conn, -1, 0); o.data = w_data(o.conn, 0); }
  return o;
}
template <class C> static Out runFac(const Scn &s) {
  Out o; w_cls = cls; W.msgTo = (int)s.to.size(); W.msgCc = (int)s.cc.size(); W.msgBcc = (int)s.bcc.size(); W.credOn = !s.user.empty(); W.authWant = s.auth <= 0 ? 7 : s.auth == 1 ? 1 : s.auth == 2 ? 2 : s.auth == 3 ? 4 : 0;
  { C c(string("mx.test"), 2525); c.setCommandTimeout((unsigned)W.cfg.tmo); c.setBatchMode(batch != 0); acc(c);
    if (!s.user.empty()) { if (s.auth >= 0) c.setCredentials(cpp::Credential(s.user, s.pass, (RecommendedAuthenticationMethod)s.auth)); else c.setCredentials(cpp::Credential(s.user, s.pass)); }
    if (html) { cpp::HTMLMessage m = facMsg<cpp::HTMLMessage>(s); doSend(c, static_cast<HTMLMessage>(m), o); }
    else { cpp::PlaintextMessage m = facMsg<cpp::PlaintextMessage>(s); doSend(c, static_cast<PlaintextMessage>(m), o); } }
  o.conn = W.nconn - 1; if (o.conn >= 0) { o.stream = w_stream(o.conn, -1, 0); o.data = w_data(o.conn, 0); }
  return o;
}
static Out run(const Scn &s) { return cls == 0 ? runBase<SmtpClient>(s) : cls == 1 ? runBase<OpportunisticSecureSMTPClient>(s) : runBase<ForcedSecureSMTPClient>(s); }
static Out runF(const Scn &s) { return cls == 0 ? runFac<cpp::SmtpClient>(s) : cls == 1 ? runFac<cpp::OpportunisticSecureSMTPClient>(s) : runFac<cpp::ForcedSecureSMTPClient>(s); }

// ---- the receiving server's view of the message ----
struct Part { vector<string> head; string body; };
struct Mail { bool ok = false, closed = false; vector<string> head; string boundary, preamble; vector<Part> parts; string after; };
static vector<string> lines(const string &d) {
  vector<string> r; size_t st = 0, i = 0;
  while (i < d.size()) { if (i + 1 < d.size() && ((d[i] == '\r') & (d[i + 1] == '\n'))) { r.push_back(d.substr(st, i - st)); i += 2; st = i; } else i++; }
  r.push_back(d.substr(st)); return r;
}
static Mail parse(const string &data) {
  Mail m; if (data.size() < 5 || data.compare(data.size() - 5, 5, "\r\n.\r\n")) return m;
  vector<string> l = lines(data.substr(0, data.size() - 5));
  for (auto &x : l) if (!x.empty() && x[0] == '.') x.erase(0, 1);
  size_t i = 0; while (i < l.size() && !l[i].empty()) m.head.push_back(l[i++]);
  if (i == l.size()) return m; i++;
  for (auto &h : m.head) { size_t p; if (!h.compare(0, 13, "Content-Type:") && (p = h.find("boundary=")) != string::npos) { m.boundary = h.substr(p + 9); if (m.boundary.size() > 1 && m.boundary[0] == '"') m.boundary = m.boundary.substr(1, m.boundary.find('"', 1) - 1); size_t sc = m.boundary.find(';'); if (sc != string::npos) m.boundary.erase(sc); } }
  if (m.boundary.empty()) return m;
  string del = "--" + m.boundary, end = del + "--"; int state = 0; Part cur; bool first = true;
  auto fin = [&] { if (state) m.parts.push_back(cur); };
  for (; i < l.size(); i++) {
    if (m.closed) { m.after += l[i]; continue; }
    if (l[i].size() == del.size() && same(l[i], del)) { fin(); cur = Part(); state = 1; first = true; continue; }
    if (l[i].size() == end.size() && same(l[i], end)) { fin(); state = 0; m.closed = true; continue; }
    if (state == 0) m.preamble += l[i];
    else if (state == 1) { if (l[i].empty()) state = 2; else cur.head.push_back(l[i]); }
    else { if (!first) cur.body += "\r\n"; cur.body += l[i]; first = false; }
  }
  m.ok = m.closed; return m;
}
static bool starts(const string &s, const string &p) { return s.size() >= p.size() && same(s.substr(0, p.size()), p); }
static string shown(const Addr &a) { return a.name.empty() ? a.mail : a.name + " <" + a.mail + ">"; }
static string shownList(const vector<Addr> &v) { string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += ", "; r += shown(v[i]); } return r; }
static void headers(const Mail &m, const Scn &s) {
  vector<std::pair<string, string>> e = {{"From: ", shown(s.from)}, {"To: ", shownList(s.to)}};
  if (!s.cc.empty()) e.push_back({"Cc: ", shownList(s.cc)});
  e.push_back({"Subject: ", s.subject});
  CHECK(4, m.head.size() == e.size() + 1, "the message has more or fewer header lines than it should");
  for (size_t i = 0; i < e.size(); i++) {
    const string &h = m.head[i];
    CHECK(4, starts(h, e[i].first), "a header line is missing or out of order");
    CHECK(4, oneLine(h), "a header line contains a bare line break");
    if (oneLine(e[i].second)) { CHECK(4, same(h.substr(e[i].first.size()), e[i].second), "a header line does not carry the given value"); if (i == 1 || (i == 2 && !s.cc.empty())) CHECK(3, same(h.substr(e[i].first.size()), e[i].second), "a recipient header does not carry the given addresses"); }
    if (i == 1 || (i == 2 && !s.cc.empty())) for (auto &a : i == 1 ? s.to : s.cc) CHECK(3, has(h, a.mail), "a visible recipient is missing from its header line");
  }
  CHECK(4, starts(m.head.back(), "Content-Type: multipart/"), "the last header line is not the content type"); CHECK(4, oneLine(m.head.back()), "the content type line contains a bare line break");
}
// RFC 4648 reference
static string b64(const string &d) {
  static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  string r; size_t n = d.size(), out = 0;
  for (size_t i = 0; i < n; i += 3) {
    unsigned a = (unsigned char)d[i], b = i + 1 < n ? (unsigned char)d[i + 1] : 0, c = i + 2 < n ? (unsigned char)d[i + 2] : 0;
    r += T[a >> 2]; r += T[(a & 3) << 4 | b >> 4]; r += i + 1 < n ? T[(b & 15) << 2 | c >> 6] : '='; r += i + 2 < n ? T[c & 63] : '=';
    (void)out;
  }
  return r;
}
static string strip(const string &s) { string r; for (char c : s) if (c != '\r' && c != '\n') r += c; return r; }
static const char *mimeOf(const string &f) { static const char *t[][2] = {{".txt", "text/plain"}, {".png", "image/png"}, {".pdf", "application/pdf"}, {".JPG", "image/jpeg"}, {".zzz", ""}}; for (auto &x : t) if (f.size() > 4 && f.compare(f.size() - 4, 4, x[0]) == 0) return x[1]; return ""; }
static void content(const Mail &m, const Scn &s) {
  const char *mt = html ? "text/html" : "text/plain"; bool b5 = on(5);
  CHECK(5, m.ok && !m.parts.empty(), "the message has no complete body part"); CHECK(6, m.ok, "the last part is not followed by the closing boundary");
  CHECK(5, m.preamble.empty() && m.after.empty(), "text outside the parts of the message");
  CHECK(6, m.parts.size() == s.att.size() + 1, "the message has more or fewer parts than body and attachments"); CHECK(5, m.parts.size() == s.att.size() + 1, "the body is not exactly one part");
  if (b5) {
    const Part &p = m.parts[0]; bool ct = false;
    for (auto &h : p.head) if (starts(h, "Content-Type:")) ct = starts(h, string("Content-Type: ") + mt) && has(h, "UTF-8");
    CHECK(5, ct, "the body part does not declare its content type and charset");
    CHECK(5, p.body.size() >= s.body.size() && p.body.size() <= s.body.size() + 2, "the body is shorter or longer than given");
    CHECK(5, same(p.body.substr(0, s.body.size()), s.body), "the body is changed"); CHECK(5, same(p.body.substr(s.body.size()), string("\r\n").substr(0, p.body.size() - s.body.size())), "the body is followed by other text");
  }
  if (on(6)) for (size_t i = 0; i < s.att.size(); i++) {
    const Part &p = m.parts[i + 1]; const Att &a = s.att[i]; int ct = 0, nm = 0, enc = 0, cid = 0, cids = 0;
    for (auto &h : p.head) {
      if (starts(h, "Content-Type:")) { ct += starts(h, string("Content-Type: ") + mimeOf(a.file)) && (strlen(mimeOf(a.file)) + 14 == h.size() || h[strlen(mimeOf(a.file)) + 14] == ';'); }
      if (starts(h, "Content-Disposition:")) { if (oneLine(a.name)) nm += has(h, "filename=\"" + a.name + "\""); else nm++; }
      if (starts(h, "Content-Transfer-Encoding: base64")) enc++;
      if (starts(h, "Content-ID:")) { cids++; if (!a.cid.empty() && oneLine(a.cid)) cid += same(h, "Content-ID: <" + a.cid + ">"); else cid++; }
    }
    CHECK(6, ct == 1, "an attachment does not declare its content type"); CHECK(6, nm == 1, "an attachment does not carry its name"); CHECK(6, enc == 1, "an attachment does not declare base64");
    CHECK(6, cids == (a.cid.empty() ? 0 : 1) && cid == cids, "an attachment does not carry its content id");
    string want = b64(a.data), got = p.body;
    if (want.size() >= 65536) got = strip(got); else { while (got.size() > want.size() && got.size() >= 2 && got.compare(got.size() - 2, 2, "\r\n") == 0) got.erase(got.size() - 2); }
    CHECK(6, same(got, want), "an attachment does not decode to the bytes of its file");
  }
  if (on(4)) for (auto &p : m.parts) for (auto &h : p.head) { CHECK(4, oneLine(h), "a part header contains a bare line break"); CHECK(4, starts(h, "Content-") || starts(h, "X-Attachment-Id: "), "an unexpected header line in a part"); }
}
static vector<string> commands(const string &stream, const char *p) { vector<string> r; for (auto &l : lines(stream)) if (starts(l, p)) r.push_back(l); return r; }
static string bare(const string &l, size_t n) { size_t i = n; while (i < l.size() && l[i] == ' ') i++; return l.substr(i); }
static void envelope(const Out &o, const Scn &s) {
  // the commands are the lines of the stream up to DATA
  size_t d = o.stream.find("DATA\r\n"); string pre = o.stream.substr(0, d);
  vector<string> mf = commands(pre, "MAIL FROM:"), rc = commands(pre, "RCPT TO:");
  CHECK(3, !mf.empty(), "no sender command"); string last = bare(mf.back(), 10);
  CHECK(3, same(last, "<" + s.from.mail + ">") || same(last, s.from.mail) || (oneLine(s.from.name) && same(last, "<" + s.from.name + " " + s.from.mail + ">")) || (last.size() == s.from.name.size() + s.from.mail.size() + 3 && same(last.substr(last.size() - s.from.mail.size() - 2), " " + s.from.mail + ">")), "the accepted sender command does not carry exactly the From address");
  if (mf.size() == 1) CHECK(3, same(last, "<" + s.from.mail + ">"), "the first sender command does not carry exactly the From address");
  CHECK(3, rc.size() == s.to.size() + s.cc.size() + s.bcc.size(), "more or fewer recipient commands than recipients");
  size_t k = 0; for (auto *v : {&s.to, &s.cc, &s.bcc}) for (auto &a : *v) { CHECK(3, same(bare(rc[k], 8), "<" + a.mail + ">"), "a recipient command does not carry the recipient's address"); k++; }
}
static Scn base() {
  Scn s; s.from = {"from@y.org", "Sender"}; s.subject = "subject"; s.body = "body";
  int nto = prm("nto", 1), ncc = prm("ncc", 0), nbcc = prm("nbcc", 0); char b[32];
  if (prm("dup", 0)) {          // any address may occur more than once
    for (int i = 0; i < nto + ncc + nbcc; i++) { string l(1, 'x'); unsigned char ch; sym_bytes(&ch, 1, "who"); sym_assume((ch >= 'a') & (ch <= 'd')); l[0] = (char)ch; (i < nto ? s.to : i < nto + ncc ? s.cc : s.bcc).push_back({l + "@x.com", ""}); }
    return s;
  }
  for (int i = 0; i < nto; i++) { snprintf(b, 32, "to%d@x.com", i); s.to.push_back({b, i & 1 ? "To Name" : ""}); }
  for (int i = 0; i < ncc; i++) { snprintf(b, 32, "cc%d@x.com", i); s.cc.push_back({b, "Cc Name"}); }
  for (int i = 0; i < nbcc; i++) { snprintf(b, 32, "hid%d@z.com", i); s.bcc.push_back({b, "Hidden One"}); }
  return s;
}
static void addAtt(Scn &s) {
  int n = prm("natt", 0), len = prm("alen", 3), pre = prm("apre", 0); static const char *ext[] = {".txt", ".png", ".zzz", ".JPG", ".pdf"};
  for (int i = 0; i < n; i++) {
    Att a; string d((size_t)pre, 'q'); for (int k = 0; k < pre; k++) d[k] = (char)(k * 7 + i);
    if (len) { string x((size_t)len, 0); sym_bytes(&x[0], (size_t)len, "file"); d += x; }
    a.data = d; a.file = mkfile(ext[(i + prm("ext", 0)) % 5], d); a.name = prm("anamelen", -1) >= 0 && !(i & 1 && prm("anamelen2", 1) == 0) ? symstr(prm("anamelen", 0), "attname") : i == 0 ? "a b.txt" : "second"; a.cid = prm("cidlen", -1) >= 0 ? symstr(prm("cidlen", 0), "cid") : i == 1 ? "cid1" : "";
    if (on(6) && P) for (char c : a.name) sym_assume((c != '"') & (c != '\r') & (c != '\n')); if (on(6) && P) for (char c : a.cid) sym_assume((c != '\r') & (c != '\n'));
    s.att.push_back(a);
  }
}
static string filler(int n) { string s; int f = prm("bfill", 0);
  if (f) { static const char *t[] = {"", "abcdefghij", "line\n", ".\r\n", "..\r\n.", "x\r\n", "\r\n.\r\n", "\n.\n"}; int k = (int)strlen(t[f]); for (int i = 0; i < n; i++) s += t[f][i % k]; return s; }
 for (int i = 0; i < n; i++) { int k = i % 70; s += k == 68 ? '\r' : k == 69 ? '\n' : (char)('a' + i % 23); } return s; }
static string longer() { int n = prm("hpre", 0); string s; for (int i = 0; i < n; i++) s += (char)('a' + i % 26); return s; }
static string mail(int n, const char *nm) { string l = symstr(n, nm); return l + longer() + "@x.com"; }
static bool valid(const string &m) { try { MessageAddress a(m.c_str(), ""); return true; } catch (const std::invalid_argument &) { return false; } }

// a successful send: everything the server received
static void arrive(const Scn &s) {
  Out o = run(s);
  if (W.cfg.codes == 0 && !W.cfg.faults) { sym_assert(o.ret == 0, "a message the server accepts is not delivered"); }
  if (o.ret != 0) { sym_reach("failed"); return; }
  sym_reach("arrived"); sym_trace("data", o.data.data(), o.data.size());
  envelope(o, s);
  Mail m = parse(o.data);
  CHECK(5, m.ok, "the message is not well formed"); CHECK(4, m.head.size() >= 2 && !m.boundary.empty(), "the message has no header block"); CHECK(6, m.ok, "the last part is not followed by the closing boundary");
  if (!m.ok || m.head.empty()) return;
  headers(m, s); content(m, s);
}
static void split(Scn &s) {      // P07: whole and partial writes give the same stream; a failed write stops
  W.tapeOn = 1; int f = W.cfg.faults; W.cfg.faults = 0; Out a = run(s); 
  w_rewind(); W.cfg.faults = f; Out b = run(s);
  sym_trace_int("ret2", b.ret); sym_trace_int("len", (int64_t)b.stream.size());
  if (!W.anyFault) { CHECK(7, b.ret == a.ret, "partial writes change the result"); CHECK(7, same(a.stream, b.stream), "partial writes lose, repeat or reorder bytes"); sym_reach("partial"); }
  else if (W.sendFault) {
    if (!W.quitFault) CHECK(7, b.ret != 0, "a failed write is not reported");
    string t = b.stream; if (!same(t, a.stream.substr(0, t.size() < a.stream.size() ? t.size() : a.stream.size()))) { if (t.size() >= 6 && t.compare(t.size() - 6, 6, "QUIT\r\n") == 0) t.erase(t.size() - 6); }
    CHECK(7, t.size() <= a.stream.size() && same(t, a.stream.substr(0, t.size())), "bytes are sent out of order after a failed write"); sym_reach("failed write");
  }
}
static void secret(Scn &s) {     // P12
  W.tapeOn = 1; int n1 = prm("p1", 3), n2 = prm("p2", 3);
  s.user = prm("ulen", 0) ? symstr(prm("ulen", 0), "user") : "user"; s.auth = prm("auth", -1);
  { int nb = 0; for (char c : s.user) nb |= (c != ' ') & !((c >= 9) & (c <= 13)); sym_assume(nb); }
  Scn t = s; s.pass = symstr(n1, "pass1"); t.pass = symstr(n2, "pass2"); if (prm("hpre", 0)) { s.pass = longer() + s.pass; t.pass = longer() + t.pass; }
  s.pass = string((size_t)prm("long1", 0), 'p') + s.pass; t.pass = string((size_t)prm("long2", 0), 'p') + t.pass;      // of very different lengths
  Out a = run(s); w_rewind(); Out b = run(t);
  CHECK(12, a.ret == b.ret, "the result depends on the password"); CHECK(12, same(a.log, b.log), "the communication log depends on the password"); CHECK(12, !a.log.empty() || a.ret < 0, "the log is empty"); sym_trace("log", a.log.data(), a.log.size());
  sym_reach(a.ret == 0 ? "secret ok" : "secret failed");
}
static void facade(Scn &s) {     // P26
  W.tapeOn = 1;
  if (prm("ulen", 0)) { s.user = symstr(prm("ulen", 0), "user"); s.pass = symstr(prm("p1", 2), "pass"); s.auth = prm("auth", -1); if (s.auth == 9) s.auth = (int)sym_choice(7, "auth"); int nb = 0; for (char c : s.user) nb |= (c != ' ') & !((c >= 9) & (c <= 13)); sym_assume(nb); }
  Out a = run(s); w_rewind(); Out b = runF(s);
  CHECK(26, a.ret == b.ret, "the string interface gives another result"); CHECK(26, same(a.stream, b.stream), "the string interface sends other bytes"); CHECK(26, same(a.log, b.log), "the string interface gives another log");
  sym_trace("stream", a.stream.data(), a.stream.size()); sym_reach("both");
}
static void hidden(Scn &s) {     // P03: the data does not depend on the Bcc recipients
  W.tapeOn = 1; Scn t = s; int n = prm("len", 1);
  int k1 = prm("nb1", 1), k2 = prm("nb2", 1); char b[16];
  s.bcc.clear(); t.bcc.clear();
  for (int i = 0; i < k1; i++) { snprintf(b, 16, "b%d", i); string u = mail(n, "bccA"), v = symstr(n, "nameA"); s.bcc.push_back({u, v}); sym_assume(valid(s.bcc.back().mail)); }
  for (int i = 0; i < k2; i++) { string u = mail(n, "bccB"), v = symstr(n, "nameB"); t.bcc.push_back({u, v}); sym_assume(valid(t.bcc.back().mail)); }
  Out a = run(s); w_rewind(); Out c = run(t);
  if (a.ret == 0 && c.ret == 0) { CHECK(3, same(a.data, c.data), "the message data depends on the Bcc recipients"); sym_reach("hidden"); }
}
static void authp(Scn &s) {      // P11: mechanism and payload
  s.user = symstr(prm("ulen", 2), "user"); s.pass = symstr(prm("p1", 2), "pass"); if (prm("hpre", 0)) { s.user += longer(); s.pass = longer() + s.pass; } int nb = 0; for (char c : s.user) nb |= (c != ' ') & !((c >= 9) & (c <= 13)); sym_assume(nb);
  sym_assume(!same(b64(s.user), "QUIT") & !same(b64(s.pass), "QUIT"));     // the monitor reads lines
  s.auth = prm("auth", -1); if (s.auth == 9) s.auth = (int)sym_choice(7, "auth");
  W.cfg.authmask = -1; if (prm("mask", -1) >= 0) W.cfg.authmask = prm("mask", -1);
  Out o = run(s); string pre = o.stream.substr(0, o.stream.find("MAIL FROM:"));
  bool clearMode = cls == 1 && !W.startOffered;
  int mask = W.authOffered, rec = s.auth < 0 ? 0 : s.auth, want = 0;
  if ((mask & 1) && (rec == 0 || rec == 1)) want = 1; else if ((mask & 2) && (rec == 0 || rec == 2)) want = 2; else if ((mask & 4) && (rec == 0 || rec == 3)) want = 3;
  vector<string> l = lines(pre); vector<string> a; bool after = false; for (auto &x : l) { if (starts(x, "AUTH")) after = true; if (after && !x.empty() && x != "QUIT") a.push_back(x); }
  bool ehloOk = false; for (int i = 0; i < W.nstep; i++) if (W.s[i].kind == S_EHLO && (cls != 1 || clearMode || W.s[i].tls)) ehloOk = W.s[i].answered && !W.s[i].malformed && W.s[i].code == 250;
  sym_trace_int("want", want);
  if (!ehloOk || clearMode) { if (!clearMode) CHECK(11, a.empty(), "credentials are sent before the capabilities are known"); return; }
  if (want == 0) { CHECK(11, a.empty(), "a mechanism is used that is not offered or not allowed"); CHECK(11, o.ret == -84, "no usable mechanism is not reported"); CHECK(11, !has(o.stream, "MAIL FROM"), "mail is sent without the required authentication"); sym_reach("none"); return; }
  CHECK(11, !a.empty(), "the offered mechanism is not used");
  string z(1, '\0');
  if (want == 1) { CHECK(11, a.size() == 1 && same(a[0], "AUTH PLAIN " + b64(z + s.user + z + s.pass)), "PLAIN does not carry exactly the credentials"); sym_reach("plain"); }
  if (want == 2) { CHECK(11, same(a[0], "AUTH LOGIN"), "LOGIN is not announced"); if (a.size() > 1) CHECK(11, same(a[1], b64(s.user)), "LOGIN does not carry exactly the user name"); if (a.size() > 2) CHECK(11, same(a[2], b64(s.pass)), "LOGIN does not carry exactly the password"); CHECK(11, a.size() <= 3, "LOGIN sends more lines than it should"); if (o.ret == 0) CHECK(11, a.size() == 3, "LOGIN sends fewer lines than it should"); sym_reach("login"); }
  if (want == 3) { CHECK(11, a.size() == 1 && same(a[0], "AUTH XOAUTH2 " + b64("user=" + s.user + "\001auth=Bearer " + s.pass + "\001\001")), "XOAUTH2 does not carry exactly the credentials"); sym_reach("xoauth2"); }
}

extern "C" void sym_main() {
  w_init(); cls = prm("cls", 0); html = prm("html", 0); batch = prm("batch", 0); w_acceptSelf = 0;
  Scn s = base(); int mode = prm("mode", 1), n = prm("len", 2);
  switch (prm("hdr", 0)) {       // which value is unknown
    case 1: s.subject = longer() + symstr(n, "subject"); break;
    case 2: s.from.name = longer() + symstr(n, "fromname"); break;
    case 3: s.to[0].name = longer() + symstr(n, "toname"); break;
    case 4: if (!s.cc.empty()) s.cc[0].name = longer() + symstr(n, "ccname"); break;
    case 5: s.from.mail = mail(n, "frommail"); sym_assume(valid(s.from.mail)); break;
    case 6: s.to[0].mail = mail(n, "tomail"); sym_assume(valid(s.to[0].mail)); break;
    case 7: if (!s.cc.empty()) { s.cc[0].mail = mail(n, "ccmail"); sym_assume(valid(s.cc[0].mail)); } break;
    case 8: if (!s.bcc.empty()) { s.bcc[0].mail = mail(n, "bccmail"); sym_assume(valid(s.bcc[0].mail)); } break;
    case 9: s.subject = "pre" + symstr(n, "subject") + "post"; break;
  }
  int bl = prm("blen", 0);
  switch (prm("body", 0)) {
    case 1: { int slide = prm("slide", 1); s.body = filler(prm("bpre", 0) + (slide > 1 ? (int)sym_choice(slide, "slide") : 0)); } s.body = s.body + symstr(bl, "body") + filler(prm("bpost", 0)); break;
    case 2: { string u = symstr(bl, "body1"), v = symstr(bl, "body2"); s.body = "x\r\n--sep" + u + "\r\n--sepx" + v + "\r\nend"; } break;
    case 3: s.body = ""; break;
    case 4: s.body = filler(prm("bpre", 600)); break;
    case 5: { string u = symstr(bl, "body1"), v = symstr(bl, "body2"); s.body = "\r\n" + u + "\r\n" + v + "\r\n."; } break;
    case 6: { string u = symstr(bl, "body1"), v = symstr(bl, "body2"); s.body = u + "\r\nQUIT\r\n" + v; } break;
  }
  addAtt(s);
  if (mode == 1) arrive(s); else if (mode == 2) split(s); else if (mode == 3) secret(s); else if (mode == 4) facade(s); else if (mode == 5) hidden(s); else if (mode == 6) authp(s);
}
