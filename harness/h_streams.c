/* The stream contract (libduv/stream.h): random trees of the real stream
   filters over monitored bases, used by a monitored consumer. */
#include "mstream.h"
#include "libhttp/libhttp.h"

static manual_scheduler_t M; static scheduler_i *SCH;
REGISTER_STATIC_ERROR_TYPE(E_INJ1, "INJ1", "injected 1");
REGISTER_STATIC_ERROR_TYPE(E_INJ2, "INJ2", "injected 2");

#define MAXB 64
static mb_t *B[MAXB]; static size_t nb;
static mq_t Q[MAXB];
/* a filter whose base may be handed back */
typedef struct node_t { int kind; void *mem; rstream_i *r; struct node_t *kid[8]; size_t nkids; bool detached; mc_t *after; const char *data; size_t len; const char *rest; size_t restlen; size_t rest_; int nhdr, hdrs; mb_t *leaf; bool must; } node_t;
static node_t *N[256]; static size_t nn;
static bool may_fail;      /* some part of the tree may report an error */
static bool must_fail;     /* the data can not be delivered to the end */
static unsigned n_err;
static mc_t *AFT[64]; static size_t naft;

static void hexnum(char *b, size_t n){ static const char *f[] = {"%zx", "%zX", "0%zx", "000%zX"}; sprintf(b, f[vh_n(G, 4)], n); }
static char *xcopy(const char *p, size_t n){ char *b = xalloc(n); if(n) memcpy(b, p, n); return b; }

static bool try_detach(node_t *n, rstream_i *base){
    vh_count("detach_calls");
    if(base->awaited) return false;
    if(vh_pct(G, 10) && base->canceled) return false;
    /* take over the base */
    n->detached = true;
    mc_t *c = mc_new("detached base", base, NULL);
    c->exp = n->rest; c->explen = &n->restlen; 
    n->after = c; AFT[naft++] = c;
    c->await_set = true; base->await(base, mcr_await_cb);
    if(base->canceled) c->canceled = true;
    if(base->eof) c->eof = true;
    vh_count("detached");
    return true;
}
static node_t *node_of(void *mem){ for(size_t i = 0; i < nn; i++) if(N[i]->mem == mem) return N[i]; vh_fatal("node"); return NULL; }
static bool lim_detach(limit_rstream_t *l){ return try_detach(node_of(l), l->base); }
static bool chk_detach(chunked_rstream_t *c){ return try_detach(node_of(c), c->base); }
static void hdr_cb(chunked_rstream_t *c, const http_pair_t p){
    node_t *n = node_of(c); n->hdrs++;
    char k[32], v[32]; snprintf(k, 32, "X-%d", n->hdrs); snprintf(v, 32, "v%d", n->hdrs);
    if(p.key.len != strlen(k) || memcmp(p.key.data, k, p.key.len) || p.value.len != strlen(v) || memcmp(p.value.data, v, p.value.len)) viol("trailer-differs", "trailer %d is %.*s: %.*s", n->hdrs, (int)p.key.len, p.key.data, (int)p.value.len, p.value.data);
    vh_count("trailers");
}

/* a stream which delivers data[0,len) and then ends */
static node_t *gen(const char *data, size_t len, int depth);
static node_t *mk(int kind, const char *data, size_t len){ node_t *n = xalloc(sizeof(*n)); n->kind = kind; n->data = data; n->len = len; N[nn++] = n; return n; }
static node_t *gen_leaf(const char *data, size_t len){
    int k = (int)vh_n(G, 3);
    node_t *n = mk(k, data, len);
    if(k == 0){
        dstr_rstream_t *d = xalloc(sizeof(*d)); n->mem = d;
        n->r = dstr_rstream(d, SCH, (dstr_t){.data = (char*)data, .len = len, .size = len, .fixed_size = true});
        return n;
    }
    mq_t *q = &Q[nb]; *q = (mq_t){0}; mq_put(q, data, len); q->closed = true;
    mb_t *m = mb_new(k == 1 ? "rbase" : "sbase", k == 2, q, NULL); B[nb++] = m; n->leaf = m;
    if(vh_pct(G, 6)){
        m->err = vh_pct(G, 50) ? E_INJ1 : E_INJ2; m->err_at = (long)vh_n(G, len + 1); may_fail = true; n_err++;
    }
    if(k == 1){ n->r = &m->r; return n; }
    borrow_rstream_t *b = xalloc(sizeof(*b)); n->mem = b;
    n->r = borrow_rstream(b, SCH, &m->s);
    return n;
}
static node_t *gen(const char *data, size_t len, int depth){
    int k = depth <= 0 || nn > 20 ? 0 : (int)vh_n(G, 10);
    if(k < 2) return gen_leaf(data, len);
    if(k < 5){ /* concat */
        node_t *n = mk(3, data, len);
        size_t cnt = 1 + vh_n(G, vh_pct(G, 20) ? 8 : 3), off = 0;
        rstream_i *b[8];
        for(size_t i = 0; i < cnt; i++){
            size_t l = i + 1 == cnt ? len - off : vh_pct(G, 20) ? 0 : vh_n(G, len - off + 1);
            n->kid[i] = gen(data + off, l, depth - 1); b[i] = n->kid[i]->r; off += l; if(n->kid[i]->must) n->must = true;
        }
        n->nkids = cnt;
        rstream_concat_t *c = xalloc(sizeof(*c)); n->mem = c;
        n->r = _rstream_concat(c, SCH, b, cnt);
        return n;
    }
    if(k < 8){ /* limit */
        node_t *n = mk(4, data, len);
        size_t extra = vh_pct(G, 50) ? 0 : 1 + vh_n(G, 40);
        char *d = xalloc(len + extra); memcpy(d, data, len); for(size_t i = 0; i < extra; i++) d[len + i] = (char)vh_u64(G);
        size_t lim = len;
        if(vh_pct(G, 5)){ lim = vh_pct(G, 10) ? SIZE_MAX : len + extra + 1 + vh_n(G, 9); may_fail = n->must = true; extra = 0; }
        n->rest = d + len; n->restlen = extra;
        n->kid[0] = gen(d, len + extra, depth - 1); n->nkids = 1;
        limit_rstream_t *l = xalloc(sizeof(*l)); n->mem = l;
        n->r = limit_rstream(l, SCH, n->kid[0]->r, lim, lim_detach);
        return n;
    }
    /* chunked */
    node_t *n = mk(5, data, len);
    mq_t q = {0}; char h[64]; size_t off = 0;
    while(off < len){
        size_t l = 1 + vh_n(G, vh_pct(G, 50) ? 20 : len - off); if(l > len - off) l = len - off;
        hexnum(h, l); mq_put(&q, h, strlen(h));
        if(vh_pct(G, 20)){ const char *x = vh_pct(G, 50) ? ";a=b" : ";foo=\"b \\\" c\""; mq_put(&q, x, strlen(x)); }
        mq_put(&q, "\r\n", 2); mq_put(&q, data + off, l); mq_put(&q, "\r\n", 2); off += l;
    }
    size_t body = q.len;
    mq_put(&q, "0\r\n", 3);
    n->nhdr = vh_pct(G, 30) ? (int)vh_n(G, 4) : 0;
    for(int i = 1; i <= n->nhdr; i++){ snprintf(h, 64, "X-%d: v%d\r\n", i, i); mq_put(&q, h, strlen(h)); }
    mq_put(&q, "\r\n", 2);
    if(vh_pct(G, 5)){ /* cut off: somewhere after the last byte of data, or in it */
        q.len = vh_n(G, q.len); may_fail = n->must = true;
        (void)body;
    }
    n->rest = ""; n->restlen = 0;
    n->kid[0] = gen(xcopy(q.b, q.len), q.len, depth - 1); n->nkids = 1;
    mq_free(&q);
    chunked_rstream_t *c = xalloc(sizeof(*c)); n->mem = c;
    n->r = chunked_rstream(c, SCH, n->kid[0]->r, chk_detach, hdr_cb);
    return n;
}

static mc_t *C; static bool done_top; static stream_reader_t SR; static dstr_t SROUT; static bool sr_done, sr_on; static derr_type_t sr_e;
static bool sr_canceled;
static void sr_cb(stream_reader_t *r, derr_t e){
    (void)r; if(sr_done) viol("reader-twice", "a second callback of the stream reader");
    sr_done = true; sr_e = e.type; DROP_VAR(&e); ev('q', 0);
}
static void mc_act(mc_t *c, bool in_cb){
    (void)in_cb;
    if(c != C) return; /* detached bases are driven from outside */
    if(done_top) return;
    if((int)vh_n(G, 100) < c->p_more) mc_read(c);
    if(vh_n(G, 1000) < (unsigned)c->p_cancel){ mc_cancel(c); vh_count("cancels_in_callbacks"); }
    if(!c->await_set && vh_pct(G, 3)) mc_await(c);
}
static bool turn(bool forced){
    unsigned long p = PROGRESS;
    manual_scheduler_run(&M);
    for(size_t i = 0; i < nb; i++){ mb_tick(B[i], forced); if(forced || vh_pct(G, 30)) manual_scheduler_run(&M); }
    return PROGRESS != p;
}
static void settle(void){ for(int k = 0; k < 40;){ if(turn(true)) k = 0; else k++; if(!V_OK) return; } }
static const char *kinds[] = {"dstr", "base", "borrow", "concat", "limit", "chunked"};
static void show(node_t *n, char *b, size_t cap){
    size_t l = strlen(b); if(l + 40 > cap) return;
    snprintf(b + l, cap - l, "%s(%zu%s", kinds[n->kind], n->len, n->leaf && n->leaf->err_at >= 0 ? "!" : "");
    for(size_t i = 0; i < n->nkids; i++){ l = strlen(b); if(l + 3 < cap) strcat(b, i ? "," : ":"); show(n->kid[i], b, cap); }
    l = strlen(b); if(l + 3 < cap) strcat(b, ")");
}
static void one_case(vh_rng_t *g, uint64_t i){
    G = g; H = 0; V_OK = true; done_top = false; nb = nn = naft = 0; n_err = 0; may_fail = must_fail = false; sr_on = sr_done = sr_canceled = false; C = NULL;
    SCH = manual_scheduler(&M);
    size_t len = vh_pct(G, 10) ? 0 : vh_pct(G, 20) ? vh_n(G, 20000) : vh_n(G, 300);
    char *data = xalloc(len); for(size_t k = 0; k < len; k++) data[k] = (char)vh_u64(G);
    node_t *top = gen(data, len, (int)vh_n(G, 5)); must_fail = top->must;
    char desc[400] = ""; show(top, desc, sizeof(desc));
    if(VH.verbose) fprintf(stderr, "case %llu: %s\n", (unsigned long long)i, desc);
    for(size_t k = 0; k < nn; k++){ char nm[40]; snprintf(nm, 40, "nodes_%s", kinds[N[k]->kind]); vh_count(nm); }
    rstream_i *r = top->r;
    bool early = vh_pct(G, 30);
    if(early) for(int k = (int)vh_n(G, 5); k > 0; k--) turn(false);
    if(vh_pct(G, 20) && !r->awaited){
        /* the stream reader */
        sr_on = true; SROUT = (dstr_t){0};
        size_t first = vh_pct(G, 50) ? 0 : vh_n(G, 5000);
        if(is_error(dstr_new(&SROUT, first ? first : 1))) vh_fatal("dstr_new");
        SR.data = NULL;
        if(r->eof || r->canceled) vh_fatal("stream ended before any read");
        stream_read_all(&SR, r, &SROUT, sr_cb);
        vh_count("stream_readers");
        int at = vh_pct(G, 20) ? (int)vh_n(G, 60) : -1;
        for(int k = 0; k < 20 + (int)(len); k++){
            if(k == at){ bool x = stream_reader_cancel(&SR); if(x == sr_done) viol("reader-cancel", "stream_reader_cancel returns %d, done %d", x, sr_done); sr_canceled = x; vh_count("stream_readers_canceled"); }
            turn(vh_pct(G, 50));
            if(sr_done) break;
        }
        settle();
        if(V_OK && !sr_done) viol("reader-stuck", "the stream reader never calls back");
        if(V_OK){
            bool f = sr_e != NULL;
            if(!f && sr_canceled) viol("cancel-lost", "canceled, but the stream reader reports success");
            if(!f && (SROUT.len != len || memcmp(SROUT.data, data, len))) viol("reader-data", "the stream reader reports success with %zu of %zu bytes", SROUT.len, len);
            if(SROUT.len > len || memcmp(SROUT.data, data, SROUT.len)) viol("reader-data", "the stream reader read something else");
            if(!f && must_fail) viol("error-lost", "a damaged stream is read without an error");
            if(f && !may_fail && !sr_canceled) viol("error-unfounded", "the stream reader fails with %p although nothing failed", (const void*)sr_e);
            if(f && sr_e == E_CANCELED && !sr_canceled) viol("cancel-unfounded", "E_CANCELED without a cancel");
        }
        dstr_free(&SROUT);
    }else{
        C = mc_new("top", r, NULL);
        C->exp = data; C->explen = &len;
        if(vh_pct(G, 30)) C->p_cancel = (int)vh_n(G, 40);
        if(vh_pct(G, 50)) mc_await(C);
        int steps = (int)vh_n(G, vh_pct(G, 20) ? 20 : 400);
        for(int k = 0; k < steps && V_OK; k++){
            switch(vh_n(G, 12)){
                case 0: case 1: case 2: case 3: mc_read(C); break;
                case 4: if(vh_n(G, 1000) < (unsigned)C->p_cancel) mc_cancel(C); break;
                case 5: if(vh_pct(G, 4)) mc_await(C); break;
                default: turn(false);
            }
        }
        /* read to the end, or cancel, or wait */
        if(V_OK){
            int how = (int)vh_n(G, 4);
            if(how == 0){ mc_cancel(C); settle(); mc_await(C); settle(); }
            else {
                bool first = vh_pct(G, 50);
                if(first) mc_await(C);
                C->p_cancel = 0; C->p_more = 100;
                for(size_t k = 0; k < len * 2 + 1000 && V_OK && !r->awaited && !r->eof && !r->canceled; k++){
                    int out = 0; for(int x = 0; x < MC_NR; x++) out += C->rd[x].out;
                    unsigned long p = PROGRESS;
                    mc_read(C); turn(true);
                    if(p == PROGRESS && out) { /* nothing happens */ settle(); if(p == PROGRESS) break; }
                }
                settle();
                /* a failing stream may wait for its await */
                if(!first){ mc_await(C); settle(); }
            }
            if(V_OK && !C->awaited) viol(C->eof || C->canceled ? "never-awaited" : "stuck", "%s: the await callback never comes (EOF %d canceled %d, %zu of %zu bytes)", desc, C->eof, C->canceled, C->got, len);
            if(V_OK && C->etype && C->etype != E_CANCELED && !may_fail) viol("error-unfounded", "%s: fails with %s although nothing failed", desc, C->emsg);
            if(V_OK && !C->etype && must_fail) viol("error-lost", "%s: a damaged stream is read without an error", desc);
            if(V_OK && C->eof && must_fail) viol("eof-of-damaged", "%s: EOF of a damaged stream", desc);
            if(V_OK && C->neof && C->got != len) viol("eof-early", "%s: EOF after %zu of %zu bytes", desc, C->got, len);
            if(V_OK && C->awaited) for(int k = 0; k < 3; k++){ if(vh_pct(G, 50)) mc_read(C); if(vh_pct(G, 30)) mc_cancel(C); if(vh_pct(G, 20)){ if(r->await(r, mcr_await_cb) != NULL) viol("await-late", "await() on an awaited stream returns a callback"); } turn(true); }
            if(C->eof) vh_count("read_to_eof");
            if(C->canceled) vh_count("ended_canceled");
            if(C->etype && C->etype != E_CANCELED) vh_count("ended_failed");
        }
    }
    /* trailers come before EOF */
    if(V_OK) for(size_t k = 0; k < nn; k++) if(N[k]->kind == 5 && N[k] == top && C && C->eof && N[k]->hdrs != N[k]->nhdr) viol("trailers", "EOF after %d of %d trailer lines", N[k]->hdrs, N[k]->nhdr);
    done_top = true;
    /* detached bases go on where the filter stopped */
    if(V_OK) for(size_t k = 0; k < naft && V_OK; k++){
        mc_t *c = AFT[k]; c->depth = 1; 
        for(int x = 0; x < 3000 && V_OK && !c->awaited; x++){
            if(!c->r->eof && !c->r->canceled && vh_pct(G, 90)) mc_read(c);
            else if(c->r->eof && vh_pct(G, 50)) {}
            unsigned long p = PROGRESS; turn(true);
            if(p == PROGRESS){ settle(); if(p == PROGRESS) break; }
        }
        if(V_OK && !c->awaited && c->r->eof) viol("never-awaited", "%s: a detached base which hit EOF is never awaited", desc);
        else if(V_OK && !c->awaited){ mc_cancel(c); settle(); if(!c->awaited) viol("never-awaited", "%s: a detached base which was canceled is never awaited", desc); }
        if(V_OK && c->eof) vh_count("detached_read_to_eof");
    }
    /* nothing is left behind */
    if(V_OK) for(size_t k = 0; k < nb; k++){
        mb_t *m = B[k];
        if(!MBF(m, awaited)) { viol("base-left-behind", "%s: base %zu is not awaited although the stream over it is", desc, k); break; }
    }
    if(V_OK && M.scheduled.next && !link_list_isempty(&M.scheduled)) { manual_scheduler_run(&M); }
    vh_distinct(H);
    if(vh_want_sample()) vh_sample("%s", desc);
    /* a reader, filter or base which is still referenced would now be found by ASan */
    for(size_t k = 0; k < nb; k++) mq_free(&Q[k]);
    if(C){ mc_free(C); C = NULL; }
    for(size_t k = 0; k < naft; k++) mc_free(AFT[k]);
    if(!V_OK){ /* the state is unknown */ M = (manual_scheduler_t){0}; NARENA = 0; nb = 0; }
    else xfree_all();
}
int main(int argc, char **argv){
    return vh_main(argc, argv, "streams", one_case);
}
