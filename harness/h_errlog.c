/* Errors and their traces against a model; the logger and reference counts under threads. */
#include "vh.h"
#include <pthread.h>
#include <sched.h>
#include "libdstr/libdstr.h"
#include "libduv/libduv.h"
static vh_rng_t *G; static uint64_t H;
static void ev(uint64_t a, uint64_t b){ uint64_t x[2] = {a, b}; H = vh_hash(x, sizeof(x), H); }

/* ---- errors ---- */
#define NS 4
#define MM 4096
static derr_t E[NS];
static struct { derr_type_t t; int m[MM]; int n; } M[NS];
static int ID;
static derr_type_t TYPES[6];
static derr_t fail_with(derr_type_t t, int id){ derr_t e = E_OK; ORIG(&e, t, "<m%x>", FI(id)); }
static derr_t fail_deep(derr_type_t t, int id, int depth){ derr_t e = E_OK; if(!depth) return fail_with(t, id); PROP(&e, fail_deep(t, id, depth - 1)); return e; }
static void madd(int a, int id){ if(M[a].n < MM) M[a].m[M[a].n++] = id; }
static void mcat(int a, int b){ for(int i = 0; i < M[b].n; i++) madd(a, M[b].m[i]); }
static void mclr(int a){ M[a].n = 0; M[a].t = E_NONE; }
static bool compare(int op){
    for(int i = 0; i < NS; i++){
        if(E[i].type != M[i].t){ vh_violation("error-type", "after operation %d an error is %.*s instead of %.*s", op, (int)error_to_dstr(E[i].type).len, error_to_dstr(E[i].type).data, (int)error_to_dstr(M[i].t).len, error_to_dstr(M[i].t).data); return false; }
        int k = 0; const char *p = E[i].msg.data, *end = p + E[i].msg.len;
        for(; p && p < end - 2; p++) if(p[0] == '<' && p[1] == 'm'){
            int id = atoi(p + 2);
            if(k >= M[i].n || M[i].m[k] != id){ vh_violation("error-trace", "after operation %d entry %d of a trace is %d instead of %d", op, k, id, k < M[i].n ? M[i].m[k] : -1); return false; }
            k++;
        }
        if(k != M[i].n){ vh_violation("error-trace", "after operation %d a trace has %d entries instead of %d", op, k, M[i].n); return false; }
        vh_max("entries", k);
    }
    return true;
}
static void err_case(void){
    derr_type_t t[6] = {E_PARAM, E_VALUE, E_CONN, E_CANCELED, E_INTERNAL, E_FIXEDSIZE}; memcpy(TYPES, t, sizeof t); ID = 1;
    for(int i = 0; i < NS; i++){ E[i] = E_OK; mclr(i); }
    int steps = 3 + (int)vh_n(G, 60);
    for(int s = 0; s < steps; s++){
        int a = (int)vh_n(G, NS), b = (a + 1 + (int)vh_n(G, NS - 1)) % NS, op = (int)vh_n(G, 15); derr_type_t ty = TYPES[vh_n(G, 6)]; bool ret, want;
        ev((uint64_t)op, (uint64_t)(a * NS + b)); vh_count("error_operations");
        if(M[a].n + M[b].n > MM / 4) { DROP_VAR(&E[a]); mclr(a); continue; }
        switch(op){
            case 0: case 1: {
                int id = ID++, depth = (int)vh_n(G, 6); derr_t n = vh_pct(G, 50) ? fail_with(ty, id) : fail_deep(ty, id, depth);
                ret = false; IF_PROP(&E[a], n) ret = true;
                madd(a, id); M[a].t = ty;
                if(!ret) vh_violation("propagate", "an error is not propagated");
                break; }
            case 2: TRACE_ORIG(&E[a], ty, "<m%x>", FI(ID)); madd(a, ID++); M[a].t = ty; break;
            case 3: { char fill[3000]; int n = (int)vh_n(G, sizeof fill); memset(fill, '-', (size_t)n); TRACE(&E[a], "<m%x>%x", FI(ID), FSN(fill, (size_t)n)); madd(a, ID++); break; }
            case 4: ret = false; want = M[b].t != E_NONE; IF_PROP_VAR(&E[a], &E[b]) ret = true;
                mcat(a, b); if(want) M[a].t = M[b].t; mclr(b);
                if(ret != want) vh_violation("propagate", "PROP says %d for %d", ret, want);
                break;
            case 5: MERGE_VAR(&E[a], &E[b], "merged"); if(M[a].t == E_NONE) M[a].t = M[b].t; mcat(a, b); mclr(b); break;
            case 6: { derr_t n = fail_with(ty, ID); MERGE_CMD(&E[a], n, "merged"); if(M[a].t == E_NONE) M[a].t = ty; madd(a, ID++); break; }
            case 7: if(M[b].t == E_NONE) break; TRACE_RETHROW(&E[a], &E[b], ty); M[a].t = ty; mcat(a, b); mclr(b); break;
            case 8: ret = false; CATCH(&E[a], ty){ ret = true; } if(ret != (M[a].t == ty)) vh_violation("catch", "CATCH says %d", ret);
                if(ret && vh_pct(G, 50)){ DROP_VAR(&E[a]); mclr(a); } break;
            case 9: { int c = (a + 1) % NS, d = (a + 2) % NS, f = (a + 3) % NS, k = 1 + (int)vh_n(G, 3); want = M[a].t != E_NONE; ret = false;
                if(k == 1){ IF_MULTIPROP_VAR(&E[a], &E[c]) ret = true; } else if(k == 2){ IF_MULTIPROP_VAR(&E[a], &E[c], &E[d]) ret = true; } else { IF_MULTIPROP_VAR(&E[a], &E[c], &E[d], &E[f]) ret = true; }
                int q[3] = {c, d, f}; bool found = want;
                for(int i = 0; i < k; i++){ if(!found && M[q[i]].t != E_NONE){ found = true; mcat(a, q[i]); M[a].t = M[q[i]].t; } mclr(q[i]); }
                if(ret != found) vh_violation("propagate", "MULTIPROP says %d", ret);
                break; }
            case 10: KEEP_FIRST_IF_NOT_CANCELED_VAR(&E[a], &E[b]);
                if(M[a].t != E_NONE){
                    if(M[a].t == E_CANCELED){ mclr(a); M[a].t = M[b].t; mcat(a, b); }
                }else{
                    /* nothing was kept: the other one is, whatever it is */
                    M[a].t = M[b].t; if(E[a].type != M[a].t){ vh_violation("keep-first", "the only error is lost"); return; }
                    if(M[a].t == E_CANCELED) M[a].n = 0;
                    if(M[a].t == E_NONE){ DROP_VAR(&E[a]); mclr(a); } else mcat(a, b);
                }
                mclr(b); DROP_VAR(&E[b]); break;
            case 11: UPGRADE_CANCELED_VAR(&E[a], ty); if(M[a].t == E_CANCELED) M[a].t = ty; break;
            case 12: DROP_CANCELED_VAR(&E[a]); if(M[a].t == E_CANCELED) mclr(a); break;
            case 13: if(vh_pct(G, 50)){ DROP_VAR(&E[a]); mclr(a); } else { DUMP_DEBUG(E[a]); } break;
            default: ret = false; CATCH_ANY(&E[a]){ ret = true; } if(ret != (M[a].t != E_NONE)) vh_violation("catch", "CATCH_ANY says %d", ret); break;
        }
        if(!compare(op)) break;
    }
    for(int i = 0; i < NS; i++) DROP_VAR(&E[i]);
    vh_count("error_cases");
}

/* ---- logger ---- */
#define MAXT 6
#define MAXM 60
static struct { int len[MAXM]; log_level_t lv[MAXM]; int n, id; uint64_t jitter; } T[MAXT];
static pthread_barrier_t BAR;
static void jit(uint64_t j){ if(j % 3 == 0) sched_yield(); }
static void *logger_thread(void *arg){
    int t = (int)(intptr_t)arg; static char fill[4000]; char mine[4000]; (void)fill; memset(mine, 'a' + t, sizeof mine);
    pthread_barrier_wait(&BAR);
    for(int k = 0; k < T[t].n; k++){
        LOG_AS(T[t].lv[k], "[%x %x %x %x]\n", FI(t), FI(k), FI(T[t].lv[k]), FSN(mine, (size_t)T[t].len[k]));
        jit(T[t].jitter >> (k % 60));
    }
    return NULL;
}
static void log_case(void){
    int nt = 1 + (int)vh_n(G, MAXT), nf = (int)vh_n(G, 4), nn = (int)vh_n(G, 3); if(!nf && !nn) nf = 1;
    char path[8][600]; log_level_t lv[8]; FILE *fp[8] = {0}; bool flush = vh_pct(G, 50);
    logger_clear_outputs(); auto_log_flush(flush);
    for(int i = 0; i < nf + nn; i++){
        snprintf(path[i], sizeof path[i], "%s/log-%d-%d", VH.tmp ? VH.tmp : ".", (int)getpid(), i); unlink(path[i]); lv[i] = (log_level_t)vh_n(G, 5);
        derr_t e;
        if(i < nf){ fp[i] = fopen(path[i], "w"); if(vh_pct(G, 30)) setvbuf(fp[i], NULL, _IOLBF, 0); e = logger_add_fileptr(lv[i], fp[i]); }
        else e = logger_add_filename(lv[i], path[i]);
        if(is_error(e)){ DROP_VAR(&e); vh_violation("log-output", "an output is refused"); return; }
    }
    for(int t = 0; t < nt; t++){
        T[t].n = 1 + (int)vh_n(G, MAXM); T[t].jitter = vh_u64(G);
        for(int k = 0; k < T[t].n; k++){ T[t].lv[k] = (log_level_t)vh_n(G, 4); T[t].len[k] = vh_pct(G, 60) ? (int)vh_n(G, 60) : vh_pct(G, 50) ? 990 + (int)vh_n(G, 50) : (int)vh_n(G, 3500); ev((uint64_t)T[t].len[k], (uint64_t)T[t].lv[k]); }
    }
    pthread_t th[MAXT]; pthread_barrier_init(&BAR, NULL, (unsigned)nt);
    for(int t = 0; t < nt; t++) pthread_create(&th[t], NULL, logger_thread, (void*)(intptr_t)t);
    for(int t = 0; t < nt; t++) pthread_join(th[t], NULL);
    pthread_barrier_destroy(&BAR);
    if(!flush) log_flush();
    for(int i = 0; i < nf + nn; i++){
        FILE *f = fopen(path[i], "r"); static char line[8192]; int next[MAXT] = {0}; int switches = 0, last = -1;
        #define SKIP(t) while(next[t] < T[t].n && T[t].lv[next[t]] < lv[i]) next[t]++
        while(f && fgets(line, sizeof line, f)){
            int t, k, l, off = 0;
            if(sscanf(line, "[%d %d %d %n", &t, &k, &l, &off) < 3 || !off || t < 0 || t >= nt || k < 0 || k >= T[t].n){ vh_violation("log-line", "a log line is damaged: %.60s", line); goto out; }
            SKIP(t);
            if(k != next[t]){ vh_violation("log-order", "message %d of a thread comes when %d is next (level %d of %d)", k, next[t], l, (int)lv[i]); goto out; }
            next[t]++;
            char *p = line + off; int n = 0; while(p[n] == 'a' + t) n++;
            if(n != T[t].len[k] || strcmp(p + n, "]\n") || l != (int)T[t].lv[k]){ vh_violation("log-line", "a log line is damaged: %.60s", line); goto out; }
            vh_count("log_lines"); if(t != last){ switches++; last = t; }
        }
        for(int t = 0; t < nt; t++){ SKIP(t); if(next[t] < T[t].n){ vh_violation("log-lost", "message %d of %d is missing", next[t], T[t].n); goto out; } }
        vh_count_n("log_thread_switches", switches); ev((uint64_t)switches, 7);
    out:
        if(f) fclose(f);
    }
    logger_clear_outputs();
    for(int i = 0; i < nf + nn; i++){ if(fp[i]) fclose(fp[i]); unlink(path[i]); }
    vh_count("log_cases");
}
/* too many outputs are refused, the others keep working */
static void log_full_case(void){
    logger_clear_outputs(); FILE *f = fopen("/dev/null", "w"); int n = 0, m = 0;
    for(; n < 100; n++){ derr_t e = logger_add_fileptr(LOG_LVL_WARN, f); if(is_error(e)){ if(e.type != E_FIXEDSIZE) vh_violation("log-output", "too many outputs"); DROP_VAR(&e); break; } }
    for(; m < 100; m++){ derr_t e = logger_add_filename(LOG_LVL_WARN, "/dev/null"); if(is_error(e)){ DROP_VAR(&e); break; } }
    if(n == 100 || m == 100 || n == 0 || m == 0) vh_violation("log-output", "%d and %d outputs", n, m);
    LOG_ERROR("x"); logger_clear_outputs(); fclose(f);
}

/* ---- reference counts ---- */
typedef struct { refs_t refs; int work[MAXT]; int total; bool alive; } obj_t;
DEF_CONTAINER_OF(obj_t, refs, refs_t)
static obj_t *O; static int NFIN, FINSUM;
static void finalize(refs_t *r){ obj_t *o = CONTAINER_OF(r, obj_t, refs); for(int i = 0; i < MAXT; i++) FINSUM += o->work[i]; NFIN++; o->alive = false; free(o); }
static void *ref_thread(void *arg){
    int t = (int)(intptr_t)arg; int have = 1; uint64_t j = T[t].jitter;
    pthread_barrier_wait(&BAR);
    for(int k = 0; k < T[t].n; k++){
        j = j * 6364136223846793005ull + 1442695040888963407ull;
        if(j >> 63 || have == 1){ ref_up(&O->refs); have++; }
        else { ref_dn(&O->refs); have--; }
        O->work[t]++; jit(j >> 40);
    }
    while(have--) ref_dn(&O->refs);
    return NULL;
}
static void ref_case(void){
    int nt = 1 + (int)vh_n(G, MAXT); O = calloc(1, sizeof *O); O->alive = true; NFIN = FINSUM = 0;
    bool owner = vh_pct(G, 50); int want = 0;
    derr_t e = refs_init(&O->refs, nt + owner, finalize); if(is_error(e)) vh_fatal("refs");
    for(int t = 0; t < nt; t++){ T[t].n = (int)vh_n(G, 120); T[t].jitter = vh_u64(G); want += T[t].n; ev((uint64_t)T[t].n, T[t].jitter); }
    pthread_t th[MAXT]; pthread_barrier_init(&BAR, NULL, (unsigned)nt);
    for(int t = 0; t < nt; t++) pthread_create(&th[t], NULL, ref_thread, (void*)(intptr_t)t);
    for(int t = 0; t < nt; t++) pthread_join(th[t], NULL);
    pthread_barrier_destroy(&BAR);
    if(owner){ if(NFIN) vh_violation("finalized-early", "the object was finalized while it was held"); else ref_dn(&O->refs); }
    if(NFIN != 1) vh_violation("finalized", "finalized %d times", NFIN);
    else if(FINSUM != want) vh_violation("finalized", "the finalizer saw %d of %d", FINSUM, want);
    vh_count("ref_cases"); vh_count_n("ref_operations", want);
}
static void one_case(vh_rng_t *g, uint64_t i){
    G = g; H = 0;
    if(vh_has_arg("errors")) err_case();
    else switch(vh_n(g, 8)){ case 0: case 1: case 2: case 3: log_case(); break; case 4: log_full_case(); break; default: ref_case(); }
    (void)i; vh_distinct(H);
}
int main(int argc, char **argv){ return vh_main(argc, argv, "errlog", one_case); }
