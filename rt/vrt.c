/* trace of the C side: one line per event, written in one write(2) */
#include "vrt.h"
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdlib.h>
static __thread char buf[1 << 16];
static __thread size_t len;
long long v_toks[64];
/* A slot is one recorded trace: slot 0 is the standard output, slot n the file trace.n. */
static __thread int slot, fd;
static __thread int cbidx, callno;
static unsigned char order[1 << 20];
static unsigned nev;
static int inflight, maxin;
void v_setslot(int s) {
  slot = s;
  if (!s) { fd = 1; return; }
  char b[32]; snprintf(b, sizeof b, "trace.%d", s);
  fd = open(b, O_CREAT | O_WRONLY | O_APPEND, 0644);
}
int v_getslot(void) { return slot; }
/* the trace of another thread is continued on this one */
void v_useslot(int s, int f) { slot = s; fd = f; }
int v_getfd(void) { return fd; }
void v_setcb(int i) { cbidx = i; }
int v_getcb(void) { return cbidx; }
void v_setcall(int i) { callno = i; }
int v_getcall(void) { return callno; }
void v_enter(void) {
  int n = __atomic_add_fetch(&inflight, 1, __ATOMIC_RELAXED), m = __atomic_load_n(&maxin, __ATOMIC_RELAXED);
  while (n > m && !__atomic_compare_exchange_n(&maxin, &m, n, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
}
void v_leave(void) { __atomic_add_fetch(&inflight, -1, __ATOMIC_RELAXED); }
/* v_thread runs fn(arg) on a thread of its own, with this trace, and waits for it. */
struct thr { void (*fn)(void *); void *arg; int slot, fd; };
static void *thr_main(void *p) {
  struct thr *t = p;
  v_useslot(t->slot, t->fd);
  t->fn(t->arg);
  return 0;
}
void v_thread(void (*fn)(void *), void *arg) {
  struct thr t = {fn, arg, slot, fd};
  pthread_t id;
  if (pthread_create(&id, 0, thr_main, &t)) abort();
  pthread_join(id, 0);
}
/* v_order writes the order of the events of all slots. */
void v_order(void) {
  int f = open("order", O_CREAT | O_WRONLY | O_TRUNC, 0644);
  unsigned n = nev < sizeof order ? nev : sizeof order;
  if (f < 0) return;
  if (write(f, order, n) < 0) perror("order");
  close(f);
  fprintf(stderr, "INFLIGHT max=%d\n", maxin);
}
static void out(const char *b, size_t n) {
  size_t o = 0;
  unsigned e = __atomic_fetch_add(&nev, 1, __ATOMIC_RELAXED);
  if (e < sizeof order) order[e] = (unsigned char)slot;
  while (o < n) { ssize_t r = write(slot ? fd : 1, b + o, n - o); if (r <= 0) break; o += r; }
}
void v_out(const char *b, size_t n) { out(b, n); }
static void put(const char *s, size_t n) {
  if (len + n < sizeof buf) { memcpy(buf + len, s, n); len += n; }
}
void vl_t(const char *s) { put(s, strlen(s)); }
void vl_i(long long v) { char b[32]; put(b, snprintf(b, sizeof b, "%lld", v)); }
void vl_u(unsigned long long v) { char b[32]; put(b, snprintf(b, sizeof b, "%llu", v)); }
void vl_f(float v) { uint32_t u; char b[32]; memcpy(&u, &v, 4); put(b, snprintf(b, sizeof b, "%x", u)); }
void vl_d(double v) { uint64_t u; char b[32]; memcpy(&u, &v, 8); put(b, snprintf(b, sizeof b, "%llx", (unsigned long long)u)); }
void vl_b(const void *p, size_t n) {
  const unsigned char *c = p; char b[4];
  for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", c[i]); put(b, 2); }
}
void vl_s(const char *s) {
  if (!s) { put("NULL", 4); return; }
  put("\"", 1); vl_b(s, strnlen(s, 4096)); put("\"", 1);
}
void *v_tok(int i) { return &v_toks[i]; }
int v_tokidx(void *p) {
  char *c = p, *t = (char *)v_toks;   /* aligned: Go checks what becomes a typed pointer */
  return c >= t && c < t + sizeof v_toks && (c - t) % sizeof v_toks[0] == 0 ? (int)((c - t) / sizeof v_toks[0]) : -1;
}
void vl_p(void *p) {
  char b[40]; int i = v_tokidx(p);
  if (!p) put("nil", 3);
  else if (i >= 0) put(b, snprintf(b, sizeof b, "V%d", i));
  else put(b, snprintf(b, sizeof b, "P?%p", p));
}
void vl_nl(void) {
  put("\n", 1);
  out(buf, len);
  len = 0;
}
float vf32(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
double vf64(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
