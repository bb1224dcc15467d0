/* Shared case-loop helper of the C harnesses: PRNG, watchdog, statistics,
   violation records.  See lib/vrun.py for the file formats. */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>

/* ---- prng: splitmix64 ---- */
typedef struct { uint64_t s; } vh_rng_t;
static inline uint64_t vh_mix(uint64_t z){
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint64_t vh_u64(vh_rng_t *r){
    r->s += 0x9e3779b97f4a7c15ull;
    return vh_mix(r->s);
}
/* uniform in [0,n) */
static inline uint64_t vh_n(vh_rng_t *r, uint64_t n){ return n ? vh_u64(r) % n : 0; }
/* uniform in [a,b] */
static inline int64_t vh_range(vh_rng_t *r, int64_t a, int64_t b){
    return a + (int64_t)vh_n(r, (uint64_t)(b - a + 1));
}
/* true with probability pct/100 */
static inline bool vh_pct(vh_rng_t *r, unsigned pct){ return vh_n(r, 100) < pct; }

/* ---- state ---- */
static struct {
    uint64_t seed, start, count, cur, evals;
    int timeout;
    bool verbose;
    FILE *fstats, *fdist;
    volatile uint64_t *prog;
    struct { char name[64]; int64_t v; bool is_max; } c[256];
    size_t nc;
    int nsamples, nviols;
    char *tmp;
    int argc; char **argv; /* remaining args */
    vh_rng_t rng;
} VH;

static inline void vh_flush(void){
    if(!VH.fstats) return;
    fprintf(VH.fstats, "E %llu\n", (unsigned long long)VH.evals);
    VH.evals = 0;
    for(size_t i = 0; i < VH.nc; i++){
        fprintf(VH.fstats, "%s %s %lld\n", VH.c[i].is_max ? "M" : "S", VH.c[i].name, (long long)VH.c[i].v);
        VH.c[i].v = 0;
    }
    fflush(VH.fstats);
    if(VH.fdist) fflush(VH.fdist);
}
static inline void vh_fatal(const char *fmt, ...){
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "VH_HARNESS_ERROR: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    vh_flush();
    _exit(98);
}
static inline int64_t *vh_counter(const char *name, bool is_max){
    for(size_t i = 0; i < VH.nc; i++) if(!strcmp(VH.c[i].name, name)) return &VH.c[i].v;
    if(VH.nc == 256) vh_fatal("too many counters");
    snprintf(VH.c[VH.nc].name, 64, "%s", name);
    VH.c[VH.nc].is_max = is_max;
    VH.c[VH.nc].v = 0;
    return &VH.c[VH.nc++].v;
}
static inline void vh_count_n(const char *name, int64_t n){ *vh_counter(name, false) += n; }
static inline void vh_count(const char *name){ vh_count_n(name, 1); }
static inline void vh_max(const char *name, int64_t n){ int64_t *p = vh_counter(name, true); if(n > *p) *p = n; }

static inline uint64_t vh_hash(const void *p, size_t n, uint64_t h){
    const unsigned char *c = p;
    if(!h) h = 1469598103934665603ull;
    for(size_t i = 0; i < n; i++){ h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
/* record a distinct non-trivial case/state by its hash */
static inline void vh_distinct(uint64_t h){
    h = vh_mix(h);
    if(VH.fdist) fwrite(&h, 8, 1, VH.fdist);
}
static inline void vh_line(char t, const char *pre, const char *fmt, va_list ap){
    static char buf[16384];
    vsnprintf(buf, sizeof(buf), fmt, ap);
    for(char *c = buf; *c; c++) if(*c == '\n' || *c == '\r') *c = '|';
    fprintf(VH.fstats, "%c %s%s\n", t, pre, buf);
    fflush(VH.fstats);
    if(VH.verbose) fprintf(stderr, "%c %s%s\n", t, pre, buf);
}
static inline void vh_sample(const char *fmt, ...){
    if(VH.nsamples++ >= 2) return;
    va_list ap; va_start(ap, fmt); vh_line('X', "", fmt, ap); va_end(ap);
}
static inline bool vh_want_sample(void){ return VH.nsamples < 2; }
/* key must have no spaces */
static inline void vh_violation(const char *key, const char *fmt, ...){
    /* a few reports per key are enough */
    static struct { char key[96]; int n; } seen[64];
    static int nseen;
    int si = 0;
    for(; si < nseen; si++) if(!strncmp(seen[si].key, key, 95)) break;
    if(si == nseen && nseen < 64) snprintf(seen[nseen++].key, 96, "%s", key);
    if(si < 64 && ++seen[si].n > 4) return;
    if(VH.nviols++ > 40) return;
    char pre[256];
    snprintf(pre, sizeof(pre), "%llu %s ", (unsigned long long)VH.cur, key);
    for(char *c = strchr(pre, ' ') + 1, *e = pre + strlen(pre) - 1; c < e; c++) if(*c == ' ') *c = '-';
    va_list ap; va_start(ap, fmt); vh_line('V', pre, fmt, ap); va_end(ap);
}
static inline void vh_inconclusive(const char *fmt, ...){
    va_list ap; va_start(ap, fmt); vh_line('I', "", fmt, ap); va_end(ap);
}
#define VH_CHECK(cond, key, ...) do { if(!(cond)) vh_violation(key, __VA_ARGS__); } while(0)

static void vh_alarm(int sig){
    (void)sig;
    static const char m[] = "VH_HANG\n";
    if(write(2, m, sizeof(m)-1)){}
    /* stats lines already written are flushed line by line */
    if(VH.fstats){
        fprintf(VH.fstats, "E %llu\n", (unsigned long long)VH.evals);
        fflush(VH.fstats);
    }
    _exit(97);
}
static inline void vh_arm(int secs){
    struct itimerval it = { .it_value = { .tv_sec = secs } };
    setitimer(ITIMER_REAL, &it, NULL);
}

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
void __sanitizer_set_death_callback(void (*cb)(void));
#endif
static void vh_death(void){ vh_flush(); }

static inline void vh_init(int argc, char **argv){
    VH.count = 1; VH.timeout = 20; VH.seed = 1;
    const char *stats = NULL, *prog = NULL;
    VH.argv = calloc((size_t)argc + 1, sizeof(char*));
    for(int i = 1; i < argc; i++){
        #define VH_ARG(n) (!strcmp(argv[i], n) && i + 1 < argc)
        if(VH_ARG("--seed")) VH.seed = strtoull(argv[++i], NULL, 10);
        else if(VH_ARG("--start")) VH.start = strtoull(argv[++i], NULL, 10);
        else if(VH_ARG("--count")) VH.count = strtoull(argv[++i], NULL, 10);
        else if(VH_ARG("--stats")) stats = argv[++i];
        else if(VH_ARG("--progress")) prog = argv[++i];
        else if(VH_ARG("--timeout")) VH.timeout = atoi(argv[++i]);
        else if(!strcmp(argv[i], "--verbose")) VH.verbose = true;
        else VH.argv[VH.argc++] = argv[i];
        #undef VH_ARG
    }
    VH.fstats = stats ? fopen(stats, "w") : fdopen(dup(1), "w");
    if(stats){
        char b[4096]; snprintf(b, sizeof(b), "%s.d", stats);
        VH.fdist = fopen(b, "w");
    }
    static uint64_t fake[2];
    VH.prog = fake;
    if(prog){
        int fd = open(prog, O_RDWR);
        if(fd < 0) vh_fatal("open progress");
        void *m = mmap(NULL, 16, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
        if(m == MAP_FAILED) vh_fatal("mmap progress");
        close(fd);
        VH.prog = m;
    }
    VH.tmp = getenv("VH_TMP");
    signal(SIGALRM, vh_alarm);
    #if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
    __sanitizer_set_death_callback(vh_death);
    #endif
}
static inline bool vh_has_arg(const char *a){
    for(int i = 0; i < VH.argc; i++) if(!strcmp(VH.argv[i], a)) return true;
    return false;
}
/* run all cases */
static inline int vh_main(int argc, char **argv, const char *stage, void (*fn)(vh_rng_t *r, uint64_t i)){
    if(!VH.fstats) vh_init(argc, argv);
    uint64_t sh = vh_hash(stage, strlen(stage), 0);
    for(uint64_t i = VH.start; i < VH.start + VH.count; i++){
        VH.cur = i;
        VH.prog[0] = i;
        VH.prog[1]++;
        VH.rng.s = vh_mix(vh_mix(VH.seed * 0x100000001b3ull + sh) + i);
        VH.evals++;
        vh_arm(VH.timeout);
        fn(&VH.rng, i);
        vh_arm(0);
        if(VH.nviols > 40) break;
    }
    vh_flush();
    return 0;
}
#endif
