// Model file system (symbolic side only; a native replay uses real files in a scratch
// directory).  Files are registered by the harness with w_file().
#include "../harness/sym.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <cstdlib>
void *w_alloc(size_t);
namespace { struct F { const char *name; unsigned char *d; long n; int bad; }; F files[64]; int nf; struct H { F *f; long pos; int open, err; }; H hs[16]; int nh; }
int fs_open;
void w_file(const char *name, const void *p, size_t n) {
  for (int i = 0; i < nf; i++) if (!strcmp(files[i].name, name) && files[i].n == (long)n) { memcpy(files[i].d, p, n); files[i].bad = 0; return; }
  if (nf >= 64) sym_inc("too many files"); F &f = files[nf++]; char *k = (char *)w_alloc(strlen(name) + 1); strcpy(k, name); f.name = k; f.d = (unsigned char *)w_alloc(n ? n : 1); memcpy(f.d, p, n); f.n = (long)n; }
// a name that can be opened but not read: 2 a directory, 3 a device that reports an error (1: nothing of that name)
void w_badfile(const char *name, int kind) { if (kind > 1) { w_file(name, "", 0); files[nf - 1].bad = kind; } }
int w_openfiles() { return fs_open; }
extern "C" {
int vf_open(const char *n, int) { for (int i = 0; i < nf; i++) if (!strcmp(files[i].name, n)) { int k = 0; while (k < nh && hs[k].open) k++; if (k == nh) nh++; if (k >= 16) { sym_inc("too many open files"); return -1; } hs[k].f = &files[i]; hs[k].pos = 0; hs[k].err = 0; hs[k].open = 1; fs_open++; return k; } return -1; }
int vf_read(int h, char *p, int n) { H &x = hs[h]; if (x.f->bad) { errno = x.f->bad == 2 ? EISDIR : EIO; return -1; } long k = x.f->n - x.pos; if (k > n) k = n; if (k <= 0) return 0; memcpy(p, x.f->d + x.pos, k); x.pos += k; return (int)k; }
long vf_seek(int h, long o, int w) { H &x = hs[h]; if (x.f->bad && w == 2) { if (x.f->bad == 3) { errno = EINVAL; return -1; } return x.pos = 0x7fffffffffffffff; } long b = w == 0 ? 0 : w == 1 ? x.pos : x.f->n; x.pos = b + o; return x.pos; }
int vf_write(int, const char *, int n) { return n; }
void vf_close(int h) { if (hs[h].open) { hs[h].open = 0; fs_open--; } }
FILE *env_fopen(const char *n, const char *m) { int h = vf_open(n, 0); return h < 0 ? nullptr : (FILE *)(size_t)(0x100 + h); }
size_t env_fread(void *p, size_t s, size_t n, FILE *f) { if (!s) return 0; int h = (int)(size_t)f - 0x100, k = vf_read(h, (char *)p, (int)(s * n)); if (k < 0) { hs[h].err = 1; return 0; } return (size_t)k / s; }
int env_fseek(FILE *f, long o, int w) { return vf_seek((int)(size_t)f - 0x100, o, w) < 0 ? -1 : 0; }
long env_ftell(FILE *f) { return vf_seek((int)(size_t)f - 0x100, 0, 1); }
int env_fclose(FILE *f) { vf_close((int)(size_t)f - 0x100); return 0; }
int env_ferror(FILE *f) { return hs[(int)(size_t)f - 0x100].err; }
int env_feof(FILE *f) { H &x = hs[(int)(size_t)f - 0x100]; return x.pos >= x.f->n; }
}
