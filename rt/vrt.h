#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void vl_t(const char *s);
void vl_i(long long v);
void vl_u(unsigned long long v);
void vl_f(float v);
void vl_d(double v);
void vl_s(const char *s);
void vl_p(void *p);
void vl_b(const void *p, size_t n);
void vl_nl(void);
float vf32(uint32_t b);
double vf64(uint64_t b);
extern long long v_toks[64];
void v_setslot(int s);
int v_getslot(void);
void v_setcb(int i);
int v_getcb(void);
void v_setcall(int i);
int v_getcall(void);
void v_enter(void);
void v_leave(void);
void v_order(void);
void v_out(const char *b, size_t n);
void v_thread(void (*fn)(void *), void *arg);
void v_gc(void);
void *v_tok(int i);
int v_tokidx(void *p);
#ifdef __cplusplus
}
#endif
