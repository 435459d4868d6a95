#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sym_bytes(void *, size_t, const char *);
uint64_t sym_choice(uint64_t n, const char *);
void sym_assume(int); void sym_assert(int, const char *); void sym_fail(const char *); void sym_reach(const char *);
int sym_eq(const void *, size_t, const void *, size_t);
void sym_trace(const char *, const void *, size_t); void sym_trace_int(const char *, int64_t);
int64_t sym_live(); void sym_thread(int); void sym_mark(int); void sym_watch(int); int sym_is_symbolic(uint64_t); uint64_t sym_conc(uint64_t); void sym_stop(); void sym_kill();
int64_t sym_param(const char *, int64_t); void sym_model_error(const char *); void sym_inc(const char *);
}
