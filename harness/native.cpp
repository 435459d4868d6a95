// Native side of the harness interface: replays one concrete assignment of the
// symbolic inputs against the repository's code compiled by g++ with AddressSanitizer.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <map>
#include <string>
#include <execinfo.h>
#include <unistd.h>
#include <vector>
struct In { char k; std::string name; std::vector<unsigned char> b; unsigned long v; };
static std::vector<In> ins; static size_t pos; static std::map<std::string, long> params; static std::string trace;
static volatile long live; static volatile int counting;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
static const void *lp[65536]; static void *lb[65536][12]; static int ln, dbg;      // SYMLEAK=1: list the blocks still live (debugging)
static void onM(const volatile void *p, size_t) { if (counting) { live++; if (dbg && ln < 65536) { counting = 0; lp[ln] = (const void *)p; memset(lb[ln], 0, sizeof lb[0]); backtrace(lb[ln], 12); ln++; counting = 1; } } }
static void onF(const volatile void *p) { if (counting && p) { live--; if (dbg) for (int i = ln - 1; i >= 0; i--) if (lp[i] == p) { lp[i] = nullptr; break; } } }
static void leaks() { if (dbg) { counting = 0; for (int i = 0; i < ln; i++) if (lp[i]) { printf("LIVE:"); fflush(stdout); backtrace_symbols_fd(lb[i], 12, 1); } } }
static void finish(int code) { fflush(stdout); fwrite(trace.data(), 1, trace.size(), stdout); fflush(stdout); _exit(code); }
static In *next(char k) { while (pos < ins.size() && ins[pos].k == 'U') pos++; if (pos >= ins.size()) return nullptr; if (ins[pos].k != k) { printf("INPUT_MISMATCH at %zu\n", pos); finish(96); } return &ins[pos++]; }
#define QUIET int c_ = counting; counting = 0
#define END counting = c_
extern "C" {
void sym_main();
void sym_bytes(void *p, size_t n, const char *) { QUIET; In *i = next('B'); memset(p, 0, n); if (i) memcpy(p, i->b.data(), i->b.size() < n ? i->b.size() : n); END; }
uint64_t sym_choice(uint64_t n, const char *) { QUIET; if (n < 1) n = 1; In *i = next('C'); END; return i ? i->v : 0; }
void sym_assume(int c) { if (!c) { printf("ASSUME_FAILED\n"); finish(98); } }
void sym_assert(int c, const char *m) { if (!c) { printf("ASSERT_FAILED: %s\n", m); leaks(); finish(99); } }
void sym_fail(const char *m) { sym_assert(0, m); }
void sym_reach(const char *) {}
int sym_eq(const void *p, size_t n, const void *q, size_t k) { return n == k && (n == 0 || !memcmp(p, q, n)); }
void sym_trace(const char *l, const void *p, size_t n) { QUIET; trace += "T "; trace += l; trace += " "; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", ((const unsigned char *)p)[i]); trace += b; } if (!n) trace += "-"; trace += "\n"; END; }
void sym_trace_int(const char *l, int64_t v) { sym_trace(l, &v, 8); }
int64_t sym_live() { return live; }
int sym_is_symbolic(uint64_t) { return 0; }
uint64_t sym_conc(uint64_t v) { return v; }
void sym_stop() { finish(0); }
void sym_thread(int) {} void sym_mark(int) __attribute__((weak)); void sym_mark(int) {} void sym_watch(int) __attribute__((weak)); void sym_watch(int) {}
void sym_kill() { finish(0); }
int64_t sym_param(const char *n, int64_t d) { QUIET; int64_t r = params.count(n) ? params[n] : d; END; return r; }
void sym_model_error(const char *m) { printf("MODEL_ERROR: %s\n", m); finish(95); }
void sym_inc(const char *m) { printf("INCOMPLETE: %s\n", m); finish(95); }
}
void *w_alloc(size_t);
void w_file(const char *name, const void *p, size_t n) { QUIET; std::ofstream f(name, std::ios::binary); f.write((const char *)p, (long)n); f.close(); END; }
void w_badfile(const char *name, int kind) { QUIET; if (kind == 2) mkdir(name, 0755); if (kind == 3 && symlink("/proc/self/mem", name)) {} END; }
int w_openfiles() { return 0; }
int main(int argc, char **argv) {
  { std::ifstream f(argv[1]); std::string l; 
    while (std::getline(f, l)) {
      if (l.size() < 2 || (l[0] != 'B' && l[0] != 'C' && l[0] != 'U')) continue;
      size_t s = l.rfind(' '); In i; i.k = l[0]; i.name = l.substr(2, s - 2); std::string v = l.substr(s + 1);
      if (i.k == 'C') i.v = strtoul(v.c_str(), nullptr, 10); else for (size_t k = 0; k + 1 < v.size(); k += 2) i.b.push_back((unsigned char)strtoul(v.substr(k, 2).c_str(), nullptr, 16));
      ins.push_back(i);
    } }
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; size_t e = a.find('='); if (e != std::string::npos) params[a.substr(0, e)] = atol(a.c_str() + e + 1); }
  trace.reserve(1 << 20); setvbuf(stdout, nullptr, _IONBF, 0);
  __sanitizer_install_malloc_and_free_hooks(onM, onF); counting = 1;
  dbg = getenv("SYMLEAK") != nullptr; sym_main(); counting = 0;
  printf("END\n"); finish(0);
}
