/* Allocator used when the compiled library is driven with concrete inputs: every block is recorded, surrounded by guard
   bytes, never reused, and an allocation can be made to fail. */
#undef malloc
#undef calloc
#undef realloc
#undef free
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#define G 64
typedef struct { unsigned char *p; size_t n; int alloc; int freed; } Blk;
Blk cv_tab[1 << 16]; int cv_nblk = 0, cv_err = 0, cv_count = 0, cv_fail_at = -1, cv_fails = 0, cv_active = 0;
const char *cv_errmsg = 0;
static void *get(size_t n, int alloc, int zero) {
  if (cv_active) { int c = cv_count++; if (c == cv_fail_at) { cv_fails++; return 0; } }
  if (n > (size_t)1 << 32) { cv_fails++; return 0; }
  if (n == 0 && alloc == 2) return 0;
  if (cv_nblk >= (1 << 16) - 1) { cv_err = 9; cv_errmsg = "too many blocks"; return 0; }
  unsigned char *b = 0; if (posix_memalign((void**)&b, 64, n + 2 * G + 64)) return 0;
  memset(b, 0xCB, G); memset(b + G, zero ? 0 : 0xA5, n); memset(b + G + n, 0xCB, G);
  Blk k = { b + G, n, alloc, 0 }; cv_tab[cv_nblk++] = k;
  return b + G;
}
static void rel(void *p, int alloc) {
  if (!p) return;
  for (int i = cv_nblk - 1; i >= 0; i--) if (cv_tab[i].p == p) {
    if (cv_tab[i].freed) { cv_err = 1; cv_errmsg = "double release"; return; }
    if (cv_tab[i].alloc != alloc) { cv_err = 2; cv_errmsg = "memory released with the wrong allocator"; }
    cv_tab[i].freed = 1; memset(p, 0xFD, cv_tab[i].n); return; }
  cv_err = 3; cv_errmsg = "release of memory that was never allocated";
}
void *cv_malloc(size_t n) { return get(n, 1, 0); }
void *cv_calloc(size_t a, size_t b) { return get(a * b, 1, 1); }
void cv_free(void *p) { rel(p, 1); }
void *cv_realloc(void *p, size_t n) { void *q = get(n, 1, 0); if (q && p) { for (int i = 0; i < cv_nblk; i++) if (cv_tab[i].p == p) memcpy(q, p, cv_tab[i].n < n ? cv_tab[i].n : n); rel(p, 1); } return q; }
void *cv_mkl_malloc(size_t n, int a) { (void)a; return get(n, 2, 0); }
void *cv_mkl_calloc(size_t n, size_t s, int a) { (void)a; return get(n * s, 2, 1); }
void cv_mkl_free(void *p) { rel(p, 2); }
void *cv_pre(size_t n, int alloc) { int a = cv_active; cv_active = 0; void *p = get(n, alloc, 0); if (!p && n == 0) p = get(1, alloc, 0); cv_active = a; return p; }
int cv_guards(void) {
  for (int i = 0; i < cv_nblk; i++) { unsigned char *p = cv_tab[i].p; size_t n = cv_tab[i].n;
    for (int j = 0; j < G; j++) { if (p[-1 - j] != 0xCB || p[n + j] != 0xCB) return i + 1; }
    if (cv_tab[i].freed) for (size_t j = 0; j < n; j++) if (p[j] != 0xFD) return -(i + 1); }
  return 0;
}
void cv_reset(void) { for (int i = 0; i < cv_nblk; i++) free(cv_tab[i].p - G); cv_nblk = 0; cv_err = 0; cv_count = 0; cv_fails = 0; cv_fail_at = -1; cv_active = 0; cv_errmsg = 0; }

/* calls answered by the driver */
void (*cv_h_tic)(void*); double (*cv_h_toc)(void*); void (*cv_h_start)(void); void (*cv_h_end)(void); int (*cv_h_intr)(void);
void cv_osqp_tic(void *t) { if (cv_h_tic) cv_h_tic(t); }
double cv_osqp_toc(void *t) { return cv_h_toc ? cv_h_toc(t) : 0.0; }
void cv_osqp_start_interrupt_listener(void) { if (cv_h_start) cv_h_start(); }
void cv_osqp_end_interrupt_listener(void) { if (cv_h_end) cv_h_end(); }
int cv_osqp_is_interrupted(void) { return cv_h_intr ? cv_h_intr() : 0; }
