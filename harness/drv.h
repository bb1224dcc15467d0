/* Request/response driver: ops called from Python over stdin/stdout. */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <sys/prctl.h>
#include "libdstr/libdstr.h"

/* a driver which hangs must not outlive the check which started it */
__attribute__((constructor)) static void drv_pdeath(void){ prctl(PR_SET_PDEATHSIG, SIGKILL); }

#define DRV_MAXARGS 4096
static struct { char *p; size_t len, cap; uint32_t n; } DRV_out;

static inline void drv_put(const void *p, size_t n){
    if(DRV_out.len + n + 4 > DRV_out.cap){
        DRV_out.cap = (DRV_out.len + n + 4) * 2;
        DRV_out.p = realloc(DRV_out.p, DRV_out.cap);
    }
    if(n) memcpy(DRV_out.p + DRV_out.len, p, n);
    DRV_out.len += n;
}
/* append one response field */
static inline void drv_field(const void *p, size_t n){
    uint32_t k = (uint32_t)n;
    drv_put(&k, 4);
    drv_put(p, n);
    DRV_out.n++;
}
static inline void drv_s(const char *s){ drv_field(s, strlen(s)); }
static inline void drv_d(const dstr_t d){ drv_field(d.data, d.len); }
static inline void drv_i(long long i){ char b[32]; int n = snprintf(b, 32, "%lld", i); drv_field(b, (size_t)n); }
static inline void drv_u(unsigned long long i){ char b[32]; int n = snprintf(b, 32, "%llu", i); drv_field(b, (size_t)n); }
/* error type name or "OK"; drops the error */
static inline void drv_e(derr_t e){
    if(e.type == NULL) drv_s("OK");
    else { dstr_t d = error_to_dstr(e.type); drv_d(d); }
    DROP_VAR(&e);
}
static inline void drv_et(derr_type_t t){
    if(t == NULL) drv_s("OK");
    else { dstr_t d = error_to_dstr(t); drv_d(d); }
}
static inline long long drv_int(const dstr_t d){
    char b[64]; size_t n = d.len < 63 ? d.len : 63;
    memcpy(b, d.data, n); b[n] = 0;
    return strtoll(b, NULL, 10);
}
static inline unsigned long long drv_uint(const dstr_t d){
    char b[64]; size_t n = d.len < 63 ? d.len : 63;
    memcpy(b, d.data, n); b[n] = 0;
    return strtoull(b, NULL, 10);
}

typedef struct { const char *name; void (*fn)(dstr_t *a, size_t n); } drv_op_t;

static inline void drv_readn(void *p, size_t n){
    size_t got = fread(p, 1, n, stdin);
    if(got != n) exit(0);
}
static inline int drv_main(const drv_op_t *ops){
    /* keep the protocol stream apart from anything the code prints */
    int fd = dup(1);
    dup2(2, 1);
    for(;;){
        uint32_t n;
        drv_readn(&n, 4);
        if(n == 0 || n > DRV_MAXARGS) exit(98);
        dstr_t *a = calloc(n, sizeof(*a));
        for(uint32_t i = 0; i < n; i++){
            uint32_t k;
            drv_readn(&k, 4);
            /* exact-size copy, so that sanitizers see any overrun */
            char *p = malloc(k ? k : 1);
            drv_readn(p, k);
            a[i] = (dstr_t){ .data = p, .size = k, .len = k, .fixed_size = true };
        }
        DRV_out.len = 0; DRV_out.n = 0;
        uint32_t zero = 0;
        drv_put(&zero, 4);
        const drv_op_t *o = ops;
        for(; o->name; o++) if(strlen(o->name) == a[0].len && !memcmp(o->name, a[0].data, a[0].len)) break;
        if(!o->name){ fprintf(stderr, "VH_HARNESS_ERROR: no op %.*s\n", (int)a[0].len, a[0].data); exit(98); }
        o->fn(a + 1, n - 1);
        memcpy(DRV_out.p, &DRV_out.n, 4);
        size_t off = 0;
        while(off < DRV_out.len){
            ssize_t w = write(fd, DRV_out.p + off, DRV_out.len - off);
            if(w <= 0) exit(0);
            off += (size_t)w;
        }
        for(uint32_t i = 0; i < n; i++) free(a[i].data);
        free(a);
    }
}
#endif
