// The parts of libstdc++ that live in the shared library rather than in headers, as
// C++ source the symbolic executor can run.  Templates are instantiated from the
// installed headers; out-of-line pieces are re-implemented with the documented
// behaviour ("C" locale only).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <sstream>

#include <fstream>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <locale>
#include <stdexcept>
#include <system_error>
#include <functional>
#include <memory>
#include <new>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <cxxabi.h>
#include <typeinfo>
#include <bits/functexcept.h>
#include <bits/stl_tree.h>
#include <climits>
#include <cerrno>
#include <ext/stdio_filebuf.h>
#include <pthread.h>
#include <signal.h>
#include <chrono>


extern "C" void sym_inc(const char *);
// ---------- string ----------
namespace std {
template class basic_string<char>;
template basic_string<char> operator+(const char *, const basic_string<char> &);
}

// ---------- exceptions ----------
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
const nothrow_t nothrow{};

// The library keeps the message in a reference-counted string of one pointer (__cow_string)
static const char *dupmsg(const char *s) { size_t n = strlen(s); char *p = (char *)malloc(n + sizeof(size_t) + 1); *(size_t *)p = 1; memcpy(p + sizeof(size_t), s, n + 1); return p + sizeof(size_t); }
static void incmsg(const char *s) { ++*(size_t *)(s - sizeof(size_t)); }
static void decmsg(const char *s) { char *p = (char *)s - sizeof(size_t); if (--*(size_t *)p == 0) free(p); }
static inline const char *&msgOf(const exception *e) { return *(const char **)((char *)e + sizeof(void *)); }
__cow_string::__cow_string() { _M_p = dupmsg(""); }
__cow_string::__cow_string(const std::string &s) { _M_p = dupmsg(s.c_str()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = dupmsg(std::string(s, n).c_str()); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; incmsg(_M_p); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { const char *p = o._M_p; incmsg(p); decmsg(_M_p); _M_p = p; return *this; }
__cow_string::~__cow_string() { decmsg(_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; incmsg(_M_p); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *p = o._M_p; incmsg(p); decmsg(_M_p); _M_p = p; return *this; }
logic_error::logic_error(const string &s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char *s) : exception(), _M_msg(string(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return msgOf(this); }
runtime_error::runtime_error(const string &s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char *s) : exception(), _M_msg(string(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return msgOf(this); }
#define SUB(T, B) T::T(const string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
SUB(domain_error, logic_error) SUB(invalid_argument, logic_error) SUB(length_error, logic_error) SUB(out_of_range, logic_error)
SUB(range_error, runtime_error) SUB(overflow_error, runtime_error) SUB(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
void __throw_ios_failure(const char *s, int) { throw runtime_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_bad_function_call() { throw bad_function_call(); }
}
namespace __cxxabiv1 {
__class_type_info::~__class_type_info() {}
bool __class_type_info::__do_catch(const std::type_info *, void **, unsigned) const { return false; }
bool __class_type_info::__do_upcast(const __class_type_info *, void **) const { return false; }
bool __class_type_info::__do_upcast(const __class_type_info *, const void *, __upcast_result &) const { return false; }
bool __class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info *, const void *, const __class_type_info *, const void *, __dyncast_result &) const { return false; }
__class_type_info::__sub_kind __class_type_info::__do_find_public_src(ptrdiff_t, const void *, const __class_type_info *, const void *) const { return __unknown; }
__si_class_type_info::~__si_class_type_info() {}
bool __si_class_type_info::__do_upcast(const __class_type_info *, const void *, __upcast_result &) const { return false; }
bool __si_class_type_info::__do_dyncast(ptrdiff_t, __sub_kind, const __class_type_info *, const void *, const __class_type_info *, const void *, __dyncast_result &) const { return false; }
__class_type_info::__sub_kind __si_class_type_info::__do_find_public_src(ptrdiff_t, const void *, const __class_type_info *, const void *) const { return __unknown; }
}

// ---------- containers ----------
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
// An unbalanced search tree has the same observable behaviour as the red-black tree.
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
  _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right; _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x; if (lm == z) { if (z->_M_right == 0) lm = z->_M_parent; else { lm = x; while (lm->_M_left) lm = lm->_M_left; } } if (rm == z) { if (z->_M_left == 0) rm = z->_M_parent; else { rm = x; while (rm->_M_right) rm = rm->_M_right; } } }
  return y;
}
namespace __detail {
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (auto p : primes) if (p >= n) { _M_next_resize = (size_t)(p * 1.0); return p; } _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t want = ne + ni; if (want < 11 && _M_next_resize == 0) want = 11; if (want >= nb) { size_t g = nb * 2; return {true, _M_next_bkt(want + 1 > g ? want + 1 : g)}; } _M_next_resize = nb; } return {false, 0}; }
}
size_t _Hash_bytes(const void *, size_t n, size_t) { return n; }      // any function of the bytes will do; the length keeps symbolic keys out of the solver
}

// ---------- C library with table-driven or branch-free bodies ----------
extern "C" {
// Two threads, one of which runs from start to end at a point of the other: a lock that the
// suspended thread holds can't be taken (the schedule doesn't exist), all others are free.
static int thread_; static struct { const void *m; int owner, n, w; } locks_[32];
void sym_thread_(int); void sym_kill(); void sym_inc(const char *);
void sym_thread(int t) { thread_ = t; sym_thread_(t); }
static int lock_(const void *m, int w, int tryOnly) {
  for (auto &l : locks_) if (l.n && l.m == m && l.owner != thread_ && (w || l.w)) { if (tryOnly) return EBUSY; sym_kill(); }
  for (auto &l : locks_) if (l.n && l.m == m && l.owner == thread_) { l.n++; l.w |= w; return 0; }
  for (auto &l : locks_) if (!l.n) { l.m = m; l.owner = thread_; l.n = 1; l.w = w; return 0; }
  sym_inc("too many locks"); return 0;
}
static int unlock_(const void *m) { for (auto &l : locks_) if (l.n && l.m == m && l.owner == thread_) { l.n--; return 0; } return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { return lock_(m, 1, 0); }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { return lock_(m, 1, 1); }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { return unlock_(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept { return lock_(m, 0, 0); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept { return lock_(m, 1, 0); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept { return unlock_(m); }
pthread_t pthread_self() noexcept { return 1 + thread_; }
int pthread_once(pthread_once_t *o, void (*f)(void)) { int &k = *(int *)o; if (k == 2 || k == 0) { if (k == 2 && thread_) sym_kill(); k = 2; f(); k = 1; } return 0; }
long env_time(long *);
int isspace(int c) { return (c == 32) | ((unsigned)(c - 9) < 5u); }
int isdigit(int c) { return (unsigned)(c - '0') < 10u; }
int isupper(int c) { return (unsigned)(c - 'A') < 26u; }
int islower(int c) { return (unsigned)(c - 'a') < 26u; }
int isalpha(int c) { return ((unsigned)((c | 32) - 'a') < 26u); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | ((unsigned)((c | 32) - 'a') < 6u); }
int isprint(int c) { return (unsigned)(c - 32) < 95u; }
int isgraph(int c) { return (unsigned)(c - 33) < 94u; }
int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int isblank(int c) { return (c == 32) | (c == 9); }
int isascii(int c) { return (unsigned)c < 128u; }
int tolower(int c) { return c + 32 * isupper(c); }
int toupper(int c) { return c - 32 * islower(c); }
static unsigned long long strtox(const char *s, char **end, int base, bool sg, bool is64) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false, ov = false;
  for (;; p++) { unsigned c = (unsigned char)*p; int d; if (isdigit(c)) d = (int)c - '0'; else if (isalpha(c)) d = (int)(c | 32) - 'a' + 10; else break; if (d >= base) break; any = true; if (v > (ULLONG_MAX - d) / base) ov = true; v = v * base + d; }
  if (end) *end = (char *)(any ? p : s);
  if (sg) { unsigned long long lim = neg ? (unsigned long long)LLONG_MAX + 1 : LLONG_MAX; if (ov || v > lim) { errno = ERANGE; return neg ? (unsigned long long)LLONG_MIN : LLONG_MAX; } }
  else if (ov) { errno = ERANGE; return ULLONG_MAX; }
  return neg ? 0 - v : v;
}
long strtol(const char *s, char **e, int b) noexcept { return (long)strtox(s, e, b, true, true); }
long long strtoll(const char *s, char **e, int b) noexcept { return (long long)strtox(s, e, b, true, true); }
unsigned long strtoul(const char *s, char **e, int b) noexcept { return strtox(s, e, b, false, true); }
unsigned long long strtoull(const char *s, char **e, int b) noexcept { return strtox(s, e, b, false, true); }
char *strerror(int e) noexcept { return (char *)"error"; }
char *setlocale(int, const char *) noexcept { return (char *)"C"; }
char *strtok_r(char *s, const char *d, char **sv) noexcept { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return nullptr; } char *e = s + strcspn(s, d); if (*e) { *e = 0; *sv = e + 1; } else *sv = e; return s; }
static char *tokp; char *strtok(char *s, const char *d) noexcept { return strtok_r(s, d, &tokp); }
int sigemptyset(sigset_t *s) noexcept { memset(s, 0, sizeof *s); return 0; }
int sigfillset(sigset_t *s) noexcept { memset(s, 255, sizeof *s); return 0; }
int sigaddset(sigset_t *s, int n) noexcept { ((unsigned long *)s)[(n - 1) / 64] |= 1ul << ((n - 1) % 64); return 0; }
int sigdelset(sigset_t *s, int n) noexcept { ((unsigned long *)s)[(n - 1) / 64] &= ~(1ul << ((n - 1) % 64)); return 0; }
int sigismember(const sigset_t *s, int n) noexcept { return (int)(((const unsigned long *)s)[(n - 1) / 64] >> ((n - 1) % 64) & 1); }
char *strerror_r(int, char *b, size_t n) noexcept { return (char *)"error"; }
int __xpg_strerror_r(int, char *b, size_t n) noexcept { if (n < 6) return ERANGE; memcpy(b, "error", 6); return 0; }
void *memccpy(void *d, const void *s, int c, size_t n) noexcept { for (size_t i = 0; i < n; i++) { ((char *)d)[i] = ((const char *)s)[i]; if (((const unsigned char *)s)[i] == (unsigned char)c) return (char *)d + i + 1; } return nullptr; }
void *mempcpy(void *d, const void *s, size_t n) noexcept { memcpy(d, s, n); return (char *)d + n; }
char *strsep(char **p, const char *d) noexcept { char *s = *p; if (!s) return nullptr; char *e = s + strcspn(s, d); if (*e) { *e = 0; *p = e + 1; } else *p = nullptr; return s; }
char *strndup(const char *s, size_t n) noexcept { size_t l = strnlen(s, n); char *r = (char *)malloc(l + 1); if (r) { memcpy(r, s, l); r[l] = 0; } return r; }
void bzero(void *p, size_t n) noexcept { memset(p, 0, n); }
void explicit_bzero(void *p, size_t n) noexcept { memset(p, 0, n); }
char *rt_strchrnul(const char *s, int c) asm("strchrnul"); char *rt_strchrnul(const char *s, int c) { const char *p = strchr(s, c); return (char *)(p ? p : s + strlen(s)); }
char *stpncpy(char *d, const char *s, size_t n) noexcept { size_t l = strnlen(s, n); memcpy(d, s, l); memset(d + l, 0, n - l); return d + l; }
void qsort(void *b, size_t n, size_t w, int (*f)(const void *, const void *)) { char *p = (char *)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && f(p + (j - 1) * w, p + j * w) > 0; j--) for (size_t k = 0; k < w; k++) std::swap(p[(j - 1) * w + k], p[j * w + k]); }
static int scan(const char *s, const char *f, __builtin_va_list ap) {
  int n = 0; const char *p = s;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*p)) p++; continue; }
    if (*f != '%') { if (*p != *f) return !*p && !n ? -1 : n; p++; continue; }
    f++; bool skip = false; if (*f == '*') { skip = true; f++; } int w = 0; while (isdigit((unsigned char)*f)) w = w * 10 + (*f++ - '0'); int lg = 0; while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { lg += *f == 'l' || *f == 'z' || *f == 'j' ? 1 : -1; f++; }
    if (*f == '%') { if (*p != '%') return n; p++; continue; }
    if (*f != 'c' && *f != '[' && *f != 'n') while (isspace((unsigned char)*p)) p++;
    if (*f == 'n') { if (!skip) *__builtin_va_arg(ap, int *) = (int)(p - s); continue; }
    if (!*p) return n ? n : -1;
    if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x') {
      char t[40]; int m = w > 0 && w < 38 ? w : 38, k = 0; while (k < m && p[k]) { t[k] = p[k]; k++; } t[k] = 0;
      char *e; long v = strtol(t, &e, *f == 'x' ? 16 : *f == 'i' ? 0 : 10); if (e == t) return n; p += e - t;
      if (!skip) { if (lg > 0) *__builtin_va_arg(ap, long *) = v; else if (lg == -1) *__builtin_va_arg(ap, short *) = (short)v; else if (lg < -1) *__builtin_va_arg(ap, char *) = (char)v; else *__builtin_va_arg(ap, int *) = (int)v; n++; }
    } else if (*f == 's') {
      char *o = skip ? nullptr : __builtin_va_arg(ap, char *); int k = 0; while (*p && !isspace((unsigned char)*p) && (!w || k < w)) { if (o) o[k] = *p; k++; p++; } if (o) { o[k] = 0; n++; }
    } else if (*f == 'c') {
      char *o = skip ? nullptr : __builtin_va_arg(ap, char *); for (int k = 0; k < (w ? w : 1); k++) { if (!*p) return n ? n : -1; if (o) o[k] = *p; p++; } if (o) n++;
    } else if (*f == '[') {
      bool neg = false; f++; if (*f == '^') { neg = true; f++; } bool in[256]; memset(in, 0, sizeof in); const char *b = f;
      while (*f && (*f != ']' || f == b)) { if (f[1] == '-' && f[2] && f[2] != ']') { for (int c = (unsigned char)f[0]; c <= (unsigned char)f[2]; c++) in[c] = true; f += 3; } else in[(unsigned char)*f++] = true; }
      char *o = skip ? nullptr : __builtin_va_arg(ap, char *); int k = 0; while (*p && in[(unsigned char)*p] != neg && (!w || k < w)) { if (o) o[k] = *p; k++; p++; }
      if (!k) return n; if (o) { o[k] = 0; n++; }
    } else { sym_inc("scanf conversion"); return n; }
  }
  return n;
}
int rt_sscanf1(const char *s, const char *f, ...) asm("sscanf"); int rt_sscanf1(const char *s, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int n = scan(s, f, ap); __builtin_va_end(ap); return n; }
int rt_sscanf2(const char *s, const char *f, ...) asm("__isoc99_sscanf"); int rt_sscanf2(const char *s, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int n = scan(s, f, ap); __builtin_va_end(ap); return n; }
int rt_sscanf3(const char *s, const char *f, ...) asm("__isoc23_sscanf"); int rt_sscanf3(const char *s, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); int n = scan(s, f, ap); __builtin_va_end(ap); return n; }
char *getenv(const char *) noexcept { return nullptr; }
int __cxa_thread_atexit(void (*)(void *), void *, void *) noexcept { return 0; }
}

namespace std { namespace chrono { inline namespace _V2 {      // the clock of the model
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(env_time(nullptr) * 1000000000LL)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(env_time(nullptr) * 1000000000LL)); }
} } }

// ---------- locale and streams ("C" locale) ----------
namespace std {
struct RtLocale;
locale::locale() throw() : _M_impl(nullptr) {}
locale::locale(const locale &o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale &) const throw() { return true; }
const locale &locale::classic() { static char buf[sizeof(locale)]; return *(const locale *)buf; }
string locale::name() const { return "C"; }
size_t locale::id::_M_id() const throw() { return 1; }
locale::facet::~facet() {}
locale::id ctype<char>::id;
template <> locale::id num_put<char>::id{}; template <> locale::id num_get<char>::id{}; template <> locale::id numpunct<char>::id{}; locale::id codecvt<char, char, mbstate_t>::id;

ctype<char>::~ctype() {}
static const ctype_base::mask *rtTable() {
  static ctype_base::mask t[256]; static bool init = false;
  if (!init) { init = true; for (int c = 0; c < 256; c++) { unsigned m = 0; if (c < 128) { if (isspace(c)) m |= ctype_base::space; if (isprint(c)) m |= ctype_base::print; if (iscntrl(c)) m |= ctype_base::cntrl; if (isupper(c)) m |= ctype_base::upper; if (islower(c)) m |= ctype_base::lower; if (isalpha(c)) m |= ctype_base::alpha; if (isdigit(c)) m |= ctype_base::digit; if (ispunct(c)) m |= ctype_base::punct; if (isxdigit(c)) m |= ctype_base::xdigit; if (isblank(c)) m |= ctype_base::blank; } t[c] = (ctype_base::mask)m; } }
  return t;
}
ctype<char>::ctype(const mask *, bool, size_t refs) : facet(refs), _M_c_locale_ctype(0), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(rtTable()), _M_widen_ok(1), _M_narrow_ok(1) { for (int i = 0; i < 256; i++) { _M_widen[i] = (char)i; _M_narrow[i] = (char)i; } }
char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); }
char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
const char *ctype<char>::do_toupper(char *a, const char *b) const { for (; a < b; a++) *a = do_toupper(*a); return b; }
const char *ctype<char>::do_tolower(char *a, const char *b) const { for (; a < b; a++) *a = do_tolower(*a); return b; }
void ctype<char>::_M_widen_init() const { const_cast<ctype *>(this)->_M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { const_cast<ctype *>(this)->_M_narrow_ok = 1; }
const ctype_base::mask *ctype<char>::classic_table() throw() { return rtTable(); }
const size_t ctype<char>::table_size;
static ctype<char> *rtCtype() { alignas(ctype<char>) static char b[sizeof(ctype<char>)]; static ctype<char> *p = nullptr; if (!p) p = new (b) ctype<char>(nullptr, false, 1); return p; }
template <> const ctype<char> &use_facet<ctype<char>>(const locale &) { return *rtCtype(); }
template <> bool has_facet<ctype<char>>(const locale &) throw() { return true; }

ios_base::Init::Init() {}
ios_base::Init::~Init() {}
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
void ios_base::_M_swap(ios_base &) noexcept {}
void ios_base::_M_move(ios_base &) noexcept {}
template <> void basic_ios<char>::_M_cache_locale(const locale &) { _M_ctype = rtCtype(); _M_num_put = nullptr; _M_num_get = nullptr; }
// numbers
template <> template <typename V> ostream &ostream::_M_insert(V v) {
  sentry c(*this);
  if (c) { char b[72]; int n; auto bf = this->flags() & basefield;
    if constexpr (is_same_v<V, bool>) n = (this->flags() & boolalpha) ? snprintf(b, 72, "%s", v ? "true" : "false") : snprintf(b, 72, "%d", (int)v);
    else if constexpr (is_same_v<V, const void *>) n = snprintf(b, 72, "%p", v);
    else if constexpr (is_floating_point_v<V>) { n = 0; __builtin_trap(); }
    else if (bf == hex) { n = 0; if ((this->flags() & showbase) && v) { b[n++] = '0'; b[n++] = (this->flags() & uppercase) ? 'X' : 'x'; } n += snprintf(b + n, 64, (this->flags() & uppercase) ? "%lX" : "%lx", (unsigned long)v); }
    else if (bf == oct) n = snprintf(b, 72, "%lo", (unsigned long)v);
    else if constexpr (is_signed_v<V>) n = snprintf(b, 72, (this->flags() & showpos) ? "%+ld" : "%ld", (long)v);
    else n = snprintf(b, 72, "%lu", (unsigned long)v);
    streamsize w = this->width(); this->width(0); bool left = (this->flags() & adjustfield) == ios_base::left;
    char fill = this->fill();
    int at = 0; if ((this->flags() & adjustfield) == ios_base::internal && n && (b[0] == '-' || b[0] == '+')) this->rdbuf()->sputc(b[at++]);
    if (!left) for (streamsize i = n; i < w; i++) this->rdbuf()->sputc(fill);
    for (int i = at; i < n; i++) this->rdbuf()->sputc(b[i]);
    if (left) for (streamsize i = n; i < w; i++) this->rdbuf()->sputc(fill);
  }
  return *this;
}
template <> template <typename V> istream &istream::_M_extract(V &v) {
  ios_base::iostate err = ios_base::goodbit; sentry ok(*this, false);
  if (ok) {
    auto bf = this->flags() & basefield; unsigned base = bf == hex ? 16 : bf == oct ? 8 : 10; bool neg = false, any = false, over = false; unsigned long a = 0; streambuf *sb = this->rdbuf();
    const unsigned long LIM = is_same_v<V, bool> ? 1 : is_signed_v<V> ? ((unsigned long)-1 >> (65 - 8 * sizeof(V))) : ((unsigned long)-1 >> (64 - 8 * sizeof(V)));
    int c = sb->sgetc(); if (c == '+' || c == '-') { neg = c == '-'; c = sb->snextc(); }
    for (;;) {
      unsigned dg; if (c >= '0' && c <= '9') dg = (unsigned)(c - '0'); else if (base == 16 && c >= 'a' && c <= 'f') dg = (unsigned)(c - 'a' + 10); else if (base == 16 && c >= 'A' && c <= 'F') dg = (unsigned)(c - 'A' + 10); else break;
      if (dg >= base) break;
      any = true; unsigned long L = LIM + (neg && is_signed_v<V>); if (over || a > (L - dg) / base) over = true; else a = a * base + dg;
      c = sb->snextc();
    }
    if (c == EOF) err |= ios_base::eofbit;
    if (!any) { v = 0; err |= ios_base::failbit; } else if (over) { v = (V)(neg && is_signed_v<V> ? LIM + 1 : LIM); err |= ios_base::failbit; } else v = (V)(neg ? 0 - a : a);
  }
  if (err) this->setstate(err);
  return *this;
}
template <> istream &istream::operator>>(int &v) { return _M_extract(v); }
template <> istream &istream::operator>>(short &v) { return _M_extract(v); }
template istream &istream::_M_extract(long &); template istream &istream::_M_extract(unsigned long &); template istream &istream::_M_extract(unsigned &); template istream &istream::_M_extract(unsigned short &); template istream &istream::_M_extract(bool &); template istream &istream::_M_extract(long long &); template istream &istream::_M_extract(unsigned long long &); template istream &istream::_M_extract(int &); template istream &istream::_M_extract(short &);
template <> istream &operator>>(istream &in, char &ch) { istream::sentry ok(in, false); if (ok) { int c = in.rdbuf()->sbumpc(); if (c == EOF) in.setstate(ios_base::eofbit | ios_base::failbit); else ch = (char)c; } return in; }
}

namespace std {
// file buffers on top of the model file system (env.h: vf_*)
extern "C" { int vf_open(const char *, int); int vf_read(int, char *, int); long vf_seek(int, long, int); int vf_write(int, const char *, int); void vf_close(int); }
__basic_file<char>::__basic_file(__c_lock *) throw() : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { this->close(); }
__basic_file<char> *__basic_file<char>::open(const char *n, ios_base::openmode m, int) { if (_M_cfile) return nullptr; int fd = vf_open(n, (int)m); if (fd < 0) return nullptr; _M_cfile = (__c_file *)(unsigned long)(fd + 1); _M_cfile_created = true; return this; }
__basic_file<char> *__basic_file<char>::close() { if (!_M_cfile) return nullptr; vf_close((int)(unsigned long)_M_cfile - 1); _M_cfile = nullptr; return this; }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != nullptr; }
int __basic_file<char>::fd() throw() { return (int)(unsigned long)_M_cfile - 1; }
__c_file *__basic_file<char>::file() throw() { return _M_cfile; }
streamsize __basic_file<char>::xsgetn(char *p, streamsize n) { return vf_read(fd(), p, (int)n); }
streamsize __basic_file<char>::xsputn(const char *p, streamsize n) { return vf_write(fd(), p, (int)n); }
streamsize __basic_file<char>::xsputn_2(const char *p, streamsize n, const char *q, streamsize m) { return vf_write(fd(), p, (int)n) + vf_write(fd(), q, (int)m); }
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() { return vf_seek(fd(), o, w == ios_base::beg ? 0 : w == ios_base::cur ? 1 : 2); }
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { long c = vf_seek(fd(), 0, 1), e = vf_seek(fd(), 0, 2); vf_seek(fd(), c, 0); return e - c; }
struct RtCodecvt : codecvt<char, char, mbstate_t> {};
template <> const codecvt<char, char, mbstate_t> &use_facet<codecvt<char, char, mbstate_t>>(const locale &) { alignas(RtCodecvt) static char b[sizeof(RtCodecvt)]; static RtCodecvt *p = nullptr; if (!p) p = new (b) RtCodecvt(); return *p; }
template <> const codecvt<char, char, mbstate_t> *__try_use_facet<codecvt<char, char, mbstate_t>>(const locale &l) noexcept { return &use_facet<codecvt<char, char, mbstate_t>>(l); }
template <> bool has_facet<codecvt<char, char, mbstate_t>>(const locale &) throw() { return true; }
codecvt<char, char, mbstate_t>::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r), _M_c_locale_codecvt(0) {}
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(mbstate_t &, const char *f, const char *, const char *&fn, char *t, char *, char *&tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(mbstate_t &, char *t, char *, char *&tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(mbstate_t &, const char *f, const char *, const char *&fn, char *t, char *, char *&tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(mbstate_t &, const char *f, const char *e, size_t m) const { return (int)((size_t)(e - f) < m ? (size_t)(e - f) : m); }
int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }

template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
template class basic_fstream<char>;
template ostream &ostream::_M_insert(long); template ostream &ostream::_M_insert(unsigned long); template ostream &ostream::_M_insert(bool); template ostream &ostream::_M_insert(long long); template ostream &ostream::_M_insert(unsigned long long); template ostream &ostream::_M_insert(const void *);
template <> streamsize __copy_streambufs_eof(streambuf *in, streambuf *out, bool &eof) { streamsize n = 0; eof = true; for (int c = in->sgetc(); c != EOF; c = in->snextc()) { if (out->sputc((char)c) == EOF) { eof = false; break; } n++; } return n; }
template ostream &__ostream_insert(ostream &, const char *, streamsize);
template ostream &endl(ostream &); template ostream &flush(ostream &); template ostream &ends(ostream &); template istream &ws(istream &);
template ostream &operator<<(ostream &, const char *); template ostream &operator<<(ostream &, char);
template ostream &operator<<(ostream &, unsigned char);

template <> istream &getline(istream &in, string &s, char d) {
  size_t n = 0; ios_base::iostate err = ios_base::goodbit; istream::sentry ok(in, true);
  if (ok) { s.erase(); for (;;) { int c = in.rdbuf()->sgetc(); if (c == EOF) { err |= ios_base::eofbit; break; } if ((char)c == d) { in.rdbuf()->sbumpc(); n++; break; } s.push_back((char)c); n++; in.rdbuf()->sbumpc(); } }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> istream &operator>>(istream &in, string &s) {
  size_t n = 0; ios_base::iostate err = ios_base::goodbit; istream::sentry ok(in, false);
  if (ok) { s.erase(); streamsize w = in.width(); for (;;) { int c = in.rdbuf()->sgetc(); if (c == EOF) { err |= ios_base::eofbit; break; } if (isspace((unsigned char)c) || (w > 0 && (streamsize)n == w)) break; s.push_back((char)c); n++; in.rdbuf()->sbumpc(); } in.width(0); }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template istream &getline(istream &, string &);
template ostream &operator<<(ostream &, const string &);
// standard streams discard their output
struct NullBuf : streambuf { int overflow(int c) override { return c; } streamsize xsputn(const char *, streamsize n) override { return n; } };
static NullBuf *nullBuf() { alignas(NullBuf) static char b[sizeof(NullBuf)]; static NullBuf *p = nullptr; if (!p) p = new (b) NullBuf(); return p; }
}

namespace rt {
struct alignas(16) Os { char b[sizeof(std::ostream) > sizeof(std::istream) ? sizeof(std::ostream) : sizeof(std::istream)]; };
Os o1 asm("_ZSt4cout"), o2 asm("_ZSt4cerr"), o3 asm("_ZSt4clog"), o4 asm("_ZSt3cin");
__attribute__((constructor(101))) static void initStreams() { for (Os *o : {&o1, &o2, &o3}) new (o) std::ostream(std::nullBuf()); new (&o4) std::istream(std::nullBuf()); }
}
extern "C" int *__h_errno_location() noexcept { static int e; return &e; }

// the cost a backtracking regular expression matcher may have (model/include/regex); read by the harness
extern "C" { int rx_meter; unsigned long rx_runs; unsigned long sym_regex_runs() { rx_meter = 1; unsigned long r = rx_runs; rx_runs = 0; return r; } }
// the guards of local static variables
namespace __cxxabiv1 { extern "C" {
int __cxa_guard_acquire(__guard *p) { unsigned char *g = (unsigned char *)p; if (g[0]) return 0; if (g[1] && thread_) sym_kill(); g[1] = 1; return 1; }
void __cxa_guard_release(__guard *p) noexcept { unsigned char *g = (unsigned char *)p; g[0] = 1; g[1] = 0; }
void __cxa_guard_abort(__guard *p) noexcept { ((unsigned char *)p)[1] = 0; }
} }

#include <mutex>
namespace std { __thread void *__once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
