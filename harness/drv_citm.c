/* Runs the real citm_t on fake streams, driven from Python.  The file system
   calls it makes can be counted, made to fail, or made to be the last thing
   this process does. */
#include "drv.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include "libcitm/libcitm.h"
#include "libduv/fake_stream.h"

/* ---------------------------------------------------------- fs faults ---- */
#include "fsfault.h"

/* ------------------------------------------------------------ streams ---- */
typedef struct {
    fake_stream_t f; citm_conn_t conn;
    bool used, freed, eof_pending, eof_sent, err_pending, hold, shut_reported, done_reported;
    bool up;
    dstr_t in; size_t inpos;
} st_t;
typedef struct { citm_connect_i iface; citm_conn_cb cb; void *data; bool used, canceled, reported, xreported; } cn_t;
DEF_CONTAINER_OF(cn_t, iface, citm_connect_i)
DEF_CONTAINER_OF(st_t, conn, citm_conn_t)
#define MAXST 256
static st_t *ST[MAXST]; static int nst;
static cn_t *CN[MAXST]; static int ncn;
static manual_scheduler_t SCHED; static citm_t CITM; static bool running;
static char rootbuf[4096];
static uint64_t rng; static size_t maxchunk;
static uint64_t rnd(void){ rng += 0x9e3779b97f4a7c15ull; uint64_t z = rng; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

static void ev(const char *t, int id, const void *p, size_t n){
    char h[32]; int k = snprintf(h, 32, "%s %d ", t, id);
    uint32_t len = (uint32_t)((size_t)k + n);
    drv_put(&len, 4); drv_put(h, (size_t)k); drv_put(p, n); DRV_out.n++;
}
static void conn_free(citm_conn_t *c){
    st_t *s = CONTAINER_OF(c, st_t, conn);
    if(!s->f.iface.awaited){ fprintf(stderr, "VH_MISUSE conn freed before its stream was awaited\n"); abort(); }
    if(s->freed){ fprintf(stderr, "VH_MISUSE conn freed twice\n"); abort(); }
    s->freed = true;
}
static int new_st(bool up){
    if(nst == MAXST){ fprintf(stderr, "VH_HARNESS_ERROR: too many streams\n"); exit(98); }
    st_t *s = calloc(1, sizeof(*s)); ST[nst] = s; s->used = true; s->up = up;
    s->conn = (citm_conn_t){ .stream = fake_stream(&s->f), .security = IMAP_SEC_INSECURE, .free = conn_free };
    return nst++;
}
static void cn_cancel(citm_connect_i *i){
    cn_t *c = CONTAINER_OF(i, cn_t, iface);
    if(!c->used){ fprintf(stderr, "VH_MISUSE connect canceled after it finished\n"); abort(); }
    c->canceled = true;
}
static derr_t io_connect(citm_io_i *io, citm_conn_cb cb, void *data, citm_connect_i **out){
    (void)io; derr_t e = E_OK;
    if(ncn == MAXST) { fprintf(stderr, "VH_HARNESS_ERROR: too many connects\n"); exit(98); }
    cn_t *c = calloc(1, sizeof(*c));
    *c = (cn_t){ .iface = { .cancel = cn_cancel }, .cb = cb, .data = data, .used = true };
    CN[ncn++] = c;
    *out = &c->iface;
    return e;
}
static citm_io_i IO = { io_connect };

/* one io action of stream i; kind: 0 feed 1 write 2 shutdown 3 done */
static bool can(st_t *s, int kind){
    fake_stream_t *f = &s->f;
    if(f->iface.awaited) return false;
    switch(kind){
        case 0: return !f->iface.canceled && !f->iface.eof && fake_stream_want_read(f) && (s->inpos < s->in.len || (s->eof_pending && !s->eof_sent));
        case 1: return !f->iface.canceled && !s->hold && fake_stream_want_write(f);
        case 2: return !f->iface.canceled && f->iface.is_shutdown && f->shutdown_cb && !fake_stream_want_write(f) && !fake_stream_want_write_done(f);
        case 3: return f->await_cb && (f->iface.canceled || s->err_pending || (f->iface.eof && f->iface.is_shutdown && !f->shutdown_cb && !fake_stream_want_read(f)));
    }
    return false;
}
static void act(int i, int kind){
    st_t *s = ST[i]; fake_stream_t *f = &s->f;
    switch(kind){
        case 0: {
            if(s->inpos >= s->in.len){ s->eof_sent = true; dstr_t none = {0}; (void)fake_stream_feed_read(f, none); return; }
            size_t n = s->in.len - s->inpos;
            size_t lim = maxchunk ? 1 + rnd() % maxchunk : n;
            if(n > lim) n = lim;
            /* exact-size copy */
            char *p = malloc(n); memcpy(p, s->in.data + s->inpos, n);
            dstr_t d = { .data = p, .len = n, .size = n, .fixed_size = true };
            dstr_t left = fake_stream_feed_read(f, d);
            s->inpos += n - left.len;
            free(p);
            return;
        }
        case 1: {
            dstr_t w = fake_stream_pop_write(f);
            ev("W", i, w.data, w.len);
            while(fake_stream_want_write_done(f)) fake_stream_write_done(f);
            return;
        }
        case 2: ev("S", i, "", 0); fake_stream_shutdown(f); return;
        case 3: {
            derr_t e = {0};
            const char *why = "eof";
            if(s->err_pending && !f->iface.canceled){ e.type = E_CONN; why = "err"; }
            else if(f->iface.canceled){ e.type = E_CANCELED; why = "canceled"; }
            ev("A", i, why, strlen(why));
            fake_stream_done(f, e);
            return;
        }
    }
}
static void pump(long limit){
    for(;;){
        manual_scheduler_run(&SCHED);
        for(int i = 0; i < ncn; i++) if(CN[i]->used && !CN[i]->reported){ CN[i]->reported = true; ev("C", i, "", 0); }
        for(int i = 0; i < nst; i++) if(ST[i]->freed && !ST[i]->done_reported){ ST[i]->done_reported = true; ev("F", i, "", 0); }
        if(limit == 0) break;
        int ni[1024], nk[1024]; int n = 0;
        for(int i = 0; i < nst; i++) for(int k = 0; k < 4; k++) if(n < 1000 && can(ST[i], k)){ ni[n] = i; nk[n++] = k; }
        for(int i = 0; i < ncn; i++) if(n < 1000 && CN[i]->used && CN[i]->canceled){ ni[n] = i; nk[n++] = 9; }
        if(!n) break;
        int k = maxchunk ? (int)(rnd() % (uint64_t)n) : 0;
        if(nk[k] == 9){ cn_t *c = CN[ni[k]]; c->used = false; ev("X", ni[k], "", 0); c->cb(c->data, NULL, (derr_t){ .type = E_CANCELED }); }
        else act(ni[k], nk[k]);
        if(limit > 0) limit--;
    }
}
/* ---------------------------------------------------------------- ops ---- */
/* the clock: one second per step of the simulation, never going back */
static time_t vclock = 1600000000;
time_t time(time_t *t);
time_t time(time_t *t){ if(t) *t = vclock; return vclock; }

static void op_start(dstr_t *a, size_t n){
    if(n > 3) vclock = (time_t)drv_uint(a[3]);
    memcpy(rootbuf, a[0].data, a[0].len); rootbuf[a[0].len] = 0;
    memcpy(fs_root, rootbuf, a[0].len + 1);
    rng = drv_uint(a[1]); maxchunk = (size_t)drv_uint(a[2]);
    scheduler_i *s = manual_scheduler(&SCHED);
    derr_t e = citm_init(&CITM, &IO, s, SBS(rootbuf));
    running = !is_error(e);
    drv_e(e);
}
static void op_accept(dstr_t *a, size_t n){ (void)a; (void)n; int id = new_st(false); drv_i(id); int c0 = ncn; citm_on_imap_connection(&CITM, &ST[id]->conn); drv_i(ncn > c0 ? c0 : -1); }
/* connect N ok|fail -> id | canceled */
static void op_connect(dstr_t *a, size_t n){
    (void)n; int i = (int)drv_int(a[0]); cn_t *c = CN[i];
    if(!c->used){ drv_s("gone"); return; }
    if(c->canceled){ drv_s("canceled"); return; }
    c->used = false;
    if(a[1].data[0] != 'o'){ drv_s("failed"); c->cb(c->data, NULL, (derr_t){ .type = E_CONN }); return; }
    int id = new_st(true); drv_i(id);
    c->cb(c->data, &ST[id]->conn, (derr_t){0});
}
static void op_feed(dstr_t *a, size_t n){ (void)n; st_t *s = ST[drv_int(a[0])]; DROP_CMD( dstr_append(&s->in, &a[1]) ); drv_s("ok"); }
static void op_eof(dstr_t *a, size_t n){ (void)n; ST[drv_int(a[0])]->eof_pending = true; drv_s("ok"); }
static void op_err(dstr_t *a, size_t n){ (void)n; ST[drv_int(a[0])]->err_pending = true; drv_s("ok"); }
static void op_hold(dstr_t *a, size_t n){ (void)n; ST[drv_int(a[0])]->hold = drv_int(a[1]) != 0; drv_s("ok"); }
static void op_run(dstr_t *a, size_t n){ (void)n; vclock++; pump(drv_int(a[0])); }
static void op_stop(dstr_t *a, size_t n){
    (void)a; (void)n;
    citm_cancel(&CITM);
    for(int i = 0; i < nst; i++) ST[i]->hold = false;
    pump(-1);
    int open = 0;
    for(int i = 0; i < nst; i++) if(!ST[i]->freed){ open++; ev("OPEN", i, ST[i]->up ? "up" : "dn", 2); }
    for(int i = 0; i < ncn; i++) if(CN[i]->used) ev("OPENCN", i, "", 0);
    if(CITM.users.num_elems) ev("LEFT", (int)CITM.users.num_elems, "users", 5);
    if(CITM.preusers.num_elems) ev("LEFT", (int)CITM.preusers.num_elems, "preusers", 8);
    if(CITM.holds.num_elems) ev("LEFT", (int)CITM.holds.num_elems, "holds", 5);
    if(!link_list_isempty(&CITM.anons)) ev("LEFT", 1, "anons", 5);
    if(!link_list_isempty(&CITM.io_pairs)) ev("LEFT", 1, "io_pairs", 8);
    citm_free(&CITM);
    for(int i = 0; i < nst; i++){ dstr_free(&ST[i]->in); free(ST[i]); }
    for(int i = 0; i < ncn; i++) free(CN[i]);
    nst = ncn = 0; running = false;
    fs_mode = 0; fs_root[0] = 0;
}
/* fs at mode */
static void op_fs(dstr_t *a, size_t n){ (void)n; fs_ops = fs_rops = 0; fs_at = drv_int(a[0]); fs_mode = (int)drv_int(a[1]); fs_what[0] = 0; fs_log = drv_int(a[2]) != 0; fs_trace.len = 0; drv_s("ok"); }
/* conf levels: the file operations which left their place since the last call */
static void op_conf(dstr_t *a, size_t n){ (void)n; fs_conf = (int)drv_int(a[0]); drv_d(fs_esc); fs_esc.len = 0; }
static void op_fsops(dstr_t *a, size_t n){ (void)a; (void)n; drv_i(fs_mode >= 6 ? fs_rops : fs_ops); drv_s(fs_what); drv_d(fs_trace); }
/* crypto: encrypt msg pem.. ; decrypt priv msg ; fpr pem ; pub priv */
static void op_encrypt(dstr_t *a, size_t n){
    derr_t e = E_OK;
    link_t keys = {0}; encrypter_t ec = {0}; dstr_t out = {0};
    for(size_t i = 1; i < n; i++){ keypair_t *k = NULL; PROP_GO(&e, keypair_from_pubkey_pem(&k, a[i]), cu); link_list_append(&keys, &k->link); }
    PROP_GO(&e, encrypter_new(&ec), cu);
    PROP_GO(&e, encrypter_start(&ec, &keys, &out), cu);
    PROP_GO(&e, encrypter_update(&ec, &a[0], &out), cu);
    PROP_GO(&e, encrypter_finish(&ec, &out), cu);
cu:;
    bool bad = is_error(e); drv_e(e); if(!bad) drv_d(out);
    encrypter_free(&ec); dstr_free(&out);
    link_t *l; while((l = link_list_pop_first(&keys))){ keypair_t *k = CONTAINER_OF(l, keypair_t, link); keypair_free(&k); }
}
static void op_decrypt(dstr_t *a, size_t n){
    (void)n; derr_t e = E_OK;
    keypair_t *k = NULL; decrypter_t dc = {0}; dstr_t out = {0}, copy = {0}, block = {0}; LIST(dstr_t) recips = {0};
    PROP_GO(&e, keypair_from_private_pem(&k, a[0]), cu);
    PROP_GO(&e, dstr_copy(&a[1], &copy), cu);
    PROP_GO(&e, LIST_NEW(dstr_t, &recips, 32), cu);
    PROP_GO(&e, dstr_new(&block, 1024), cu);
    PROP_GO(&e, decrypter_new(&dc), cu);
    PROP_GO(&e, decrypter_start(&dc, k, &recips, &block), cu);
    PROP_GO(&e, decrypter_update(&dc, &copy, &out), cu);
    PROP_GO(&e, decrypter_finish(&dc, &out), cu);
cu:;
    bool bad = is_error(e); drv_e(e); if(!bad){ drv_d(out); for(size_t i = 0; i < recips.len; i++) drv_d(recips.data[i]); }
    decrypter_free(&dc); keypair_free(&k); dstr_free(&out); dstr_free(&copy); dstr_free(&block); LIST_FREE(dstr_t, &recips);
}
static void op_keyinfo(dstr_t *a, size_t n){
    (void)n; derr_t e = E_OK; keypair_t *k = NULL; dstr_t pem = {0};
    PROP_GO(&e, keypair_from_private_pem(&k, a[0]), cu);
    PROP_GO(&e, keypair_get_public_pem(k, &pem), cu);
cu:;
    bool bad = is_error(e); drv_e(e); if(!bad){ drv_d(pem); drv_d(*k->fingerprint); }
    keypair_free(&k); dstr_free(&pem);
}
#if defined(__has_feature) || defined(__SANITIZE_ADDRESS__)
int __lsan_do_recoverable_leak_check(void);
static void op_leak(dstr_t *a, size_t n){ (void)a; (void)n; drv_i(__lsan_do_recoverable_leak_check()); }
#else
static void op_leak(dstr_t *a, size_t n){ (void)a; (void)n; drv_i(0); }
#endif

static const drv_op_t OPS[] = {
    {"start", op_start}, {"accept", op_accept}, {"connect", op_connect}, {"feed", op_feed}, {"eof", op_eof}, {"err", op_err}, {"hold", op_hold},
    {"run", op_run}, {"stop", op_stop}, {"fs", op_fs}, {"fsops", op_fsops}, {"conf", op_conf},
    {"encrypt", op_encrypt}, {"decrypt", op_decrypt}, {"keyinfo", op_keyinfo}, {"leak", op_leak}, {NULL, NULL},
};
int main(int argc, char **argv){
    derr_t e = E_OK;
    umask(077);
    e = crypto_library_init(); if(is_error(e)) return 98;
    if(argc > 1 && !strcmp(argv[1], "-v")) DROP_CMD( logger_add_fileptr(LOG_LVL_DEBUG, stderr) );
    else DROP_CMD( logger_add_fileptr(LOG_LVL_ERROR, stderr) );
    return drv_main(OPS);
}
