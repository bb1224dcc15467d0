/* Monitored ends for the stream contract of libduv/stream.h: a base stream
   with a scripted input (mb_t) which answers in any legal way, and a consumer
   (mc_t) which uses a stream in any legal way and judges what it is told. */
#ifndef MSTREAM_H
#define MSTREAM_H
#include "vh.h"
#include "libduv/libduv.h"

static vh_rng_t *G;
static uint64_t H;              /* hash of the events of the case */
static bool V_OK;               /* no violation so far in this case */
static unsigned long PROGRESS;  /* bumped by every event */
static void ev(char c, uint64_t x){ PROGRESS++; unsigned char b[9] = {(unsigned char)c}; memcpy(b + 1, &x, 8); H = vh_hash(b, 9, H);
    if(VH.verbose) fprintf(stderr, "  %c %llu\n", c, (unsigned long long)x); }
static void viol(const char *key, const char *fmt, ...){
    char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    V_OK = false;
    vh_violation(key, "%s", b);
}

/* ---- memory of one case ---- */
static void *ARENA[4096]; static size_t NARENA;
static void *xalloc(size_t n){ void *p = calloc(1, n ? n : 1); if(!p || NARENA == 4096) vh_fatal("arena"); ARENA[NARENA++] = p; return p; }
static void xfree_all(void){ while(NARENA) free(ARENA[--NARENA]); }
static const char *ename(derr_t e){ static char b[64]; if(!is_error(e)) return "OK"; dstr_t d = error_to_dstr(e.type); snprintf(b, sizeof(b), "%.*s", (int)d.len, d.data); return b; }

/* ---- a byte queue between a producer and a base stream ---- */
typedef struct { char *b; size_t len, cap, rd; bool closed, dead; /* dead: nothing gets through any more */ } mq_t;
static void mq_put(mq_t *q, const char *p, size_t n){
    if(!n || q->dead) return;
    if(q->len + n > q->cap){
        q->cap = (q->len + n) * 2 + 64; q->b = realloc(q->b, q->cap); if(!q->b) vh_fatal("nomem");
    }
    memcpy(q->b + q->len, p, n); q->len += n;
}
static void mq_free(mq_t *q){ free(q->b); *q = (mq_t){0}; }

/* ---- the base: an rstream_i or a stream_i over an input and an output queue ---- */
typedef struct mb_t {
    rstream_i r; stream_i s;
    bool rw;
    const char *name;
    mq_t *in, *out;
    link_t reads, writes;
    void *await_cb_; /* set? */
    rstream_await_cb rawait; stream_await_cb sawait;
    stream_shutdown_cb shutdown_cb; bool shutdown_done;
    bool shut_req, shut_lost;
    derr_type_t err; long err_at;   /* fail with err once in->rd >= err_at (-1 never) */
    bool err_fired;
    bool cancel_seen; int dead_ops;
    int slow;                       /* percent of refused ticks */
    size_t wpart;                   /* bytes of the oldest write already taken */
    size_t nread, nwritten; unsigned maxread;
    long in_limit;                  /* only serve so many bytes for now (-1 all) */
    bool stuck_writes;              /* a peer which does not read */
    bool close_out;                 /* its end closes the output */
} mb_t;
DEF_CONTAINER_OF(mb_t, r, rstream_i)
DEF_CONTAINER_OF(mb_t, s, stream_i)

#define MBF(m, f) ((m)->rw ? (m)->s.f : (m)->r.f)
#define MBSET(m, f, v) do { if((m)->rw) (m)->s.f = (v); else (m)->r.f = (v); } while(0)

static bool mbr_read(rstream_i *i, rstream_read_t *q, dstr_t buf, rstream_read_cb cb){
    mb_t *m = CONTAINER_OF(i, mb_t, r);
    if(!stream_read_checks(i, buf)){ m->dead_ops++; return false; }
    rstream_read_prep(q, buf, cb); link_list_append(&m->reads, &q->link); ev('r', buf.size); vh_count("base_reads"); return true;
}
static void mbr_cancel(rstream_i *i){ mb_t *m = CONTAINER_OF(i, mb_t, r); if(i->awaited) return; i->canceled = true; ev('c', 0); vh_count("base_cancels"); }
static rstream_await_cb mbr_await(rstream_i *i, rstream_await_cb cb){
    mb_t *m = CONTAINER_OF(i, mb_t, r); if(i->awaited) return NULL;
    rstream_await_cb o = m->rawait; m->rawait = cb; return o;
}
static bool mbs_read(stream_i *i, stream_read_t *q, dstr_t buf, stream_read_cb cb){
    mb_t *m = CONTAINER_OF(i, mb_t, s);
    if(!stream_read_checks(i, buf)){ m->dead_ops++; return false; }
    stream_read_prep(q, buf, cb); link_list_append(&m->reads, &q->link); ev('r', buf.size); vh_count("base_reads"); return true;
}
static bool mbs_write(stream_i *i, stream_write_t *q, const dstr_t bufs[], unsigned int n, stream_write_cb cb){
    mb_t *m = CONTAINER_OF(i, mb_t, s);
    if(!stream_write_checks(i, bufs, n)){ m->dead_ops++; return false; }
    derr_t e = stream_write_init(q, bufs, n, cb);
    if(is_error(e)) vh_fatal("write init");
    link_list_append(&m->writes, &q->link); ev('w', n); vh_count("base_writes"); return true;
}
static void mbs_shutdown(stream_i *i, stream_shutdown_cb cb){
    mb_t *m = CONTAINER_OF(i, mb_t, s); if(i->awaited || i->is_shutdown) return;
    i->is_shutdown = true; m->shutdown_cb = cb; ev('s', 0);
}
static void mbs_cancel(stream_i *i){ if(i->awaited) return; i->canceled = true; ev('c', 0); vh_count("base_cancels"); }
static stream_await_cb mbs_await(stream_i *i, stream_await_cb cb){
    mb_t *m = CONTAINER_OF(i, mb_t, s); if(i->awaited) return NULL;
    stream_await_cb o = m->sawait; m->sawait = cb; return o;
}
static mb_t *mb_new(const char *name, bool rw, mq_t *in, mq_t *out){
    mb_t *m = xalloc(sizeof(*m));
    m->rw = rw; m->name = name; m->in = in; m->out = out; m->err_at = -1; m->in_limit = -1;
    link_init(&m->reads); link_init(&m->writes);
    m->r = (rstream_i){.read = mbr_read, .cancel = mbr_cancel, .await = mbr_await};
    m->s = (stream_i){.read = mbs_read, .write = mbs_write, .shutdown = mbs_shutdown, .cancel = mbs_cancel, .await = mbs_await};
    m->slow = (int)vh_n(G, 60);
    m->maxread = vh_pct(G, 30) ? 1 + (unsigned)vh_n(G, 3) : vh_pct(G, 50) ? 1 + (unsigned)vh_n(G, 50) : 1u << 30;
    return m;
}
static void mb_answer(mb_t *m, size_t n){
    link_t *l = link_list_pop_first(&m->reads);
    if(m->rw){ stream_read_t *q = CONTAINER_OF(l, stream_read_t, link); q->buf.len = n; if(n) memcpy(q->buf.data, m->in->b + m->in->rd, n); m->in->rd += n; m->nread += n; ev('a', n); q->cb(&m->s, q, q->buf); }
    else { rstream_read_t *q = CONTAINER_OF(l, rstream_read_t, link); q->buf.len = n; if(n) memcpy(q->buf.data, m->in->b + m->in->rd, n); m->in->rd += n; m->nread += n; ev('a', n); q->cb(&m->r, q, q->buf); }
}
static void mb_await_now(mb_t *m, derr_type_t t){
    derr_t e = E_OK;
    if(t == E_CANCELED) e.type = E_CANCELED;
    else if(t) TRACE_ORIG(&e, t, "injected");
    MBSET(m, awaited, true);
    if(m->close_out && m->out) m->out->closed = true;
    link_t rs = {0}, ws = {0};
    link_list_append_list(&rs, &m->reads); link_list_append_list(&ws, &m->writes);
    ev('A', (uint64_t)(t != 0)); vh_count("base_awaits");
    for(link_t *l = ws.next; l && l != &ws; l = l->next) stream_write_free(CONTAINER_OF(l, stream_write_t, link));
    if(m->rw) m->sawait(&m->s, e, &rs, &ws); else m->rawait(&m->r, e, &rs);
}
static bool mb_has_await(mb_t *m){ return m->rw ? m->sawait != NULL : m->rawait != NULL; }
/* one step of the base; returns whether something happened */
static bool mb_tick(mb_t *m, bool forced){
    if(MBF(m, awaited)) return false;
    if(!forced && vh_pct(G, (unsigned)m->slow)) return false;
    /* the ways to die */
    if(!m->err_fired && m->err_at >= 0 && (long)m->in->rd >= m->err_at){
        m->err_fired = true; vh_count("base_errors");
        /* no reads or writes complete after this */
    }
    if(m->err_fired){ if(mb_has_await(m)){ mb_await_now(m, m->err); return true; } return false; }
    if(MBF(m, canceled)){
        /* some bytes may or may not get out */
        if(mb_has_await(m)){
            mb_await_now(m, E_CANCELED); return true;
        }
        return false;
    }
    bool w = m->rw && !link_list_isempty(&m->writes) && !m->stuck_writes;
    bool r = !link_list_isempty(&m->reads);
    size_t avail = m->in->len - m->in->rd;
    if(m->in_limit >= 0 && (long)avail > m->in_limit) avail = (size_t)m->in_limit;
    if(r && !avail && !m->in->closed) r = false;
    if(w && (!r || vh_pct(G, 50))){
        stream_write_t *q = CONTAINER_OF(m->writes.next, stream_write_t, link);
        dstr_t *bufs = get_bufs_ptr(q); size_t tot = 0;
        for(unsigned i = 0; i < q->nbufs; i++) tot += bufs[i].len;
        size_t k = forced || vh_pct(G, 60) ? tot - m->wpart : vh_n(G, tot - m->wpart + 1), off = 0;
        for(unsigned i = 0; i < q->nbufs && k; i++){
            size_t a = bufs[i].len, skip = m->wpart > off ? m->wpart - off : 0; off += a;
            if(skip >= a) continue;
            size_t n = a - skip < k ? a - skip : k;
            mq_put(m->out, bufs[i].data + skip, n); m->wpart += n; k -= n; m->nwritten += n;
        }
        if(m->wpart == tot && (forced || vh_pct(G, 60))){
            link_list_pop_first(&m->writes); m->wpart = 0;
            stream_write_free(q); ev('W', tot); q->cb(&m->s, q);
        }else PROGRESS++;
        return true;
    }
    if(r){
        if(!avail){
            MBSET(m, eof, true); ev('E', 0); vh_count("base_eofs");
            while(!link_list_isempty(&m->reads) && !MBF(m, canceled)) mb_answer(m, 0);
            return true;
        }
        size_t size = m->rw ? CONTAINER_OF(m->reads.next, stream_read_t, link)->buf.size : CONTAINER_OF(m->reads.next, rstream_read_t, link)->buf.size;
        size_t n = avail < size ? avail : size;
        if(n > m->maxread) n = m->maxread;
        if(n > 1 && vh_pct(G, 40)) n = 1 + vh_n(G, n);
        if(m->err_at >= 0 && (long)(m->in->rd + n) > m->err_at) n = (size_t)(m->err_at - (long)m->in->rd);
        if(!n) return false;
        mb_answer(m, n); return true;
    }
    if(m->rw && m->shutdown_cb && !m->shutdown_done && link_list_isempty(&m->writes)){
        m->shutdown_done = true; ev('S', 0); if(m->out) m->out->closed = true; m->shutdown_cb(&m->s); return true;
    }
    if(MBF(m, eof) && (!m->rw || m->shutdown_done) && mb_has_await(m)){ mb_await_now(m, E_NONE); return true; }
    return false;
}

/* ---- the consumer ---- */
#define MC_NR 6
#define MC_NW 20
typedef struct mc_t mc_t;
typedef struct { rstream_read_t r; stream_read_t s; char *buf; size_t size; bool out; uint64_t seq; mc_t *c; } mcr_t;
typedef struct { stream_write_t w; char *buf; bool out; uint64_t seq; size_t len; unsigned nb; dstr_t d[7]; mc_t *c; } mcw_t;
struct mc_t {
    const char *name;
    bool rw; rstream_i *r; stream_i *s;
    mcr_t rd[MC_NR]; mcw_t wr[MC_NW];
    uint64_t rseq, rnext, wseq, wnext; /* sequence numbers submitted, answered */
    /* expected input: bytes [0,*explen) of exp; a longer input is a violation */
    const char *exp; const size_t *explen; const bool *expeof; const char *const *expp; /* expp: moving buffer */
    size_t got; bool eof; unsigned long neof;
    mq_t *sent;                 /* what it wrote */
    size_t wdone;               /* bytes of completed writes */
    bool shut_called, shut_cbd, want_shut;
    bool canceled, cancel_in_cb;
    bool await_set, awaited; derr_type_t etype; char emsg[64];
    bool second_await; int first_calls, second_calls;
    int p_cancel, p_more;       /* behaviour in callbacks */
    size_t maxbuf; unsigned wdepth, depth; /* depth of reads in flight */
    bool stop_reading, lossy;   /* lossy: the connection was reset, data may be lost */
    unsigned nread_cbs, nwrite_cbs, returned_reads, returned_writes;
    void (*on_await)(mc_t*);
    void (*on_write)(mc_t*);
    void *data;
};
DEF_CONTAINER_OF(mcr_t, r, rstream_read_t)
DEF_CONTAINER_OF(mcr_t, s, stream_read_t)
DEF_CONTAINER_OF(mcw_t, w, stream_write_t)
#define MCF(c, f) ((c)->rw ? (c)->s->f : (c)->r->f)
static mc_t *mc_of_r(rstream_i *r){ return r->data; }
static mc_t *mc_of_s(stream_i *s){ return s->data; }
static void mc_act(mc_t *c, bool in_cb);

static void mc_on_read(mc_t *c, mcr_t *q, dstr_t buf, bool ok_ptr){
    ev('R', buf.len); c->nread_cbs++; vh_count("read_callbacks");
    if(!ok_ptr) viol("read-wrong-stream", "%s: read callback of another stream", c->name);
    if(c->awaited) viol("callback-after-await", "%s: a read callback after the await callback", c->name);
    if(!q->out){ viol("read-answered-twice", "%s: a read which is not outstanding is answered", c->name); return; }
    if(q->seq != c->rnext) viol("read-order", "%s: read %llu answered before read %llu", c->name, (unsigned long long)q->seq, (unsigned long long)c->rnext);
    c->rnext = q->seq + 1; q->out = false;
    if(c->canceled && !c->cancel_in_cb) {} /* answering after a cancel is allowed */
    if(buf.len > q->size) viol("read-too-long", "%s: %zu bytes answered into a buffer of %zu", c->name, buf.len, q->size);
    if(buf.len && buf.data != q->buf) viol("read-buffer", "%s: the answer is not in the buffer of the read", c->name);
    if(!buf.len){
        c->neof++;
        if(!MCF(c, eof)) viol("eof-flag", "%s: an empty read callback while the eof flag is not set", c->name);
        if(!c->eof){
            c->eof = true;
            if(c->explen && c->got != *c->explen && !c->lossy) viol("eof-early", "%s: EOF after %zu of %zu bytes", c->name, c->got, *c->explen);
            if(c->expeof && !*c->expeof && !c->lossy) viol("eof-unfounded", "%s: EOF although the other end has not ended", c->name);
        }
    }else{
        if(c->eof) viol("data-after-eof", "%s: %zu bytes after EOF", c->name, buf.len);
        const char *x = c->expp ? *c->expp : c->exp;
        if(c->got + buf.len > *c->explen) viol("data-invented", "%s: %zu bytes at offset %zu, only %zu exist", c->name, buf.len, c->got, *c->explen);
        else if(memcmp(x + c->got, q->buf, buf.len)) viol("data-differs", "%s: %zu bytes at offset %zu differ", c->name, buf.len, c->got);
        c->got += buf.len; vh_count_n("bytes_read", (int64_t)buf.len);
    }
    if(V_OK) mc_act(c, true);
}
static void mcr_cb(rstream_i *r, rstream_read_t *q, dstr_t buf){ mcr_t *m = CONTAINER_OF(q, mcr_t, r); mc_on_read(m->c, m, buf, r == m->c->r); }
static void mcs_cb(stream_i *s, stream_read_t *q, dstr_t buf){ mcr_t *m = CONTAINER_OF(q, mcr_t, s); mc_on_read(m->c, m, buf, s == m->c->s); }
static void mcw_cb(stream_i *s, stream_write_t *q){
    mcw_t *m = CONTAINER_OF(q, mcw_t, w); mc_t *c = m->c;
    ev('X', m->len); c->nwrite_cbs++; vh_count("write_callbacks");
    if(s != c->s) viol("write-wrong-stream", "%s: write callback of another stream", c->name);
    if(c->awaited) viol("callback-after-await", "%s: a write callback after the await callback", c->name);
    if(!m->out){ viol("write-answered-twice", "%s: a write which is not outstanding is answered", c->name); return; }
    if(m->seq != c->wnext) viol("write-order", "%s: write %llu answered before write %llu", c->name, (unsigned long long)m->seq, (unsigned long long)c->wnext);
    if(c->shut_cbd) viol("write-after-shutdown", "%s: a write completes after the shutdown callback", c->name);
    c->wnext = m->seq + 1; m->out = false; c->wdone += m->len;
    if(c->on_write) c->on_write(c);
    memset(m->buf, 0xEE, m->len); /* the memory is ours again */
    if(V_OK) mc_act(c, true);
}
static void mc_shut_cb(stream_i *s){
    mc_t *c = mc_of_s(s); ev('Z', 0); vh_count("shutdown_callbacks");
    if(c->awaited) viol("callback-after-await", "%s: a shutdown callback after the await callback", c->name);
    if(c->shut_cbd || !c->shut_called) viol("shutdown-twice", "%s: a shutdown callback too many", c->name);
    for(int i = 0; i < MC_NW; i++) if(c->wr[i].out){ viol("shutdown-early", "%s: shutdown completes before write %llu", c->name, (unsigned long long)c->wr[i].seq); break; }
    c->shut_cbd = true;
    if(V_OK) mc_act(c, true);
}
static void mc_take_back(mc_t *c, link_t *reads, link_t *writes){
    link_t *l;
    uint64_t prev = 0; bool first = true;
    while((l = link_list_pop_first(reads))){
        mcr_t *q; bool ok;
        if(c->rw){ stream_read_t *x = CONTAINER_OF(l, stream_read_t, link); ok = x->cb == mcs_cb; q = CONTAINER_OF(x, mcr_t, s); }
        else { rstream_read_t *x = CONTAINER_OF(l, rstream_read_t, link); ok = x->cb == mcr_cb; q = CONTAINER_OF(x, mcr_t, r); }
        if(!ok){ viol("returned-foreign-read", "%s: a read which is returned does not have the callback of its user", c->name); continue; }
        if(!q->out) viol("read-answered-twice", "%s: a read is returned which was already answered", c->name);
        if(!first && q->seq <= prev) viol("returned-order", "%s: reads are returned out of order", c->name);
        first = false; prev = q->seq; q->out = false; c->returned_reads++; vh_count("reads_returned");
    }
    first = true;
    while(writes && (l = link_list_pop_first(writes))){
        stream_write_t *x = CONTAINER_OF(l, stream_write_t, link);
        if(x->cb != mcw_cb){ viol("returned-foreign-write", "%s: a write which is returned does not have the callback of its user", c->name); continue; }
        mcw_t *q = CONTAINER_OF(x, mcw_t, w);
        if(!q->out) viol("write-answered-twice", "%s: a write is returned which was already answered", c->name);
        if(!first && q->seq <= prev) viol("returned-order", "%s: writes are returned out of order", c->name);
        first = false; prev = q->seq; q->out = false; c->returned_writes++; vh_count("writes_returned");
    }
}
static void mc_await_common(mc_t *c, derr_t e, link_t *reads, link_t *writes){
    ev('Y', (uint64_t)(e.type != NULL)); c->first_calls++;
    if(c->awaited){ viol("await-twice", "%s: a second await callback", c->name); return; }
    c->awaited = true; vh_count("awaits");
    if(!MCF(c, awaited)) viol("awaited-flag", "%s: the await callback came while the awaited flag is not set", c->name);
    c->etype = e.type; snprintf(c->emsg, sizeof(c->emsg), "%s", ename(e));
    bool failed = is_error(e), cancel = e.type == E_CANCELED;
    if(!c->second_await){
        if(!failed && c->canceled) viol("cancel-lost", "%s: canceled before the await callback, which reports no error", c->name);
        if(!failed && !c->eof) viol("await-without-eof", "%s: awaited without error before EOF", c->name);
        if(!failed && c->rw && !c->shut_cbd) viol("await-without-shutdown", "%s: awaited without error before the shutdown callback", c->name);
        if(cancel && !c->canceled) viol("cancel-unfounded", "%s: awaited with E_CANCELED but nobody canceled it", c->name);
    }
    mc_take_back(c, reads, writes);
    for(int i = 0; i < MC_NR; i++) if(c->rd[i].out) viol("read-lost", "%s: read %llu is neither answered nor returned (error %s)", c->name, (unsigned long long)c->rd[i].seq, c->emsg);
    for(int i = 0; i < MC_NW; i++) if(c->wr[i].out) viol("write-lost", "%s: write %llu is neither answered nor returned (error %s)", c->name, (unsigned long long)c->wr[i].seq, c->emsg);
    DROP_VAR(&e);
    if(c->on_await) c->on_await(c);
}
static void mcr_await_cb(rstream_i *r, derr_t e, link_t *reads){ mc_await_common(mc_of_r(r), e, reads, NULL); }
static void mcs_await_cb(stream_i *s, derr_t e, link_t *reads, link_t *writes){ mc_await_common(mc_of_s(s), e, reads, writes); }
/* a second entity which awaits the same stream and passes the call down */
static derr_t AW2; 
static void mcr_await2_cb(rstream_i *r, derr_t e, link_t *reads){
    mc_t *c = mc_of_r(r); c->second_calls++; AW2 = e; mcr_await_cb(r, e, reads);
}
static void mcs_await2_cb(stream_i *s, derr_t e, link_t *reads, link_t *writes){
    mc_t *c = mc_of_s(s); c->second_calls++; mcs_await_cb(s, e, reads, writes);
}
static void mc_await(mc_t *c){
    if(c->await_set) return;
    c->await_set = true; ev('y', 0);
    bool twice = vh_pct(G, 15);
    if(c->rw){
        stream_await_cb o = c->s->await(c->s, mcs_await_cb);
        if(o && !c->awaited) viol("await-first", "%s: the first await returned a callback", c->name);
        if(twice && !c->s->awaited){ o = c->s->await(c->s, mcs_await2_cb); if(o != mcs_await_cb) viol("await-chain", "%s: the second await does not return the callback of the first", c->name); vh_count("second_awaits"); }
    }else{
        rstream_await_cb o = c->r->await(c->r, mcr_await_cb);
        if(o && !c->awaited) viol("await-first", "%s: the first await returned a callback", c->name);
        if(twice && !c->r->awaited){ o = c->r->await(c->r, mcr_await2_cb); if(o != mcr_await_cb) viol("await-chain", "%s: the second await does not return the callback of the first", c->name); vh_count("second_awaits"); }
    }
}
static void mc_cancel(mc_t *c){
    if(c->awaited && vh_pct(G, 50)) return;
    ev('k', 0);
    if(!c->awaited && !c->canceled) vh_count("cancels");
    if(!c->awaited) c->canceled = true;
    if(c->rw) c->s->cancel(c->s); else c->r->cancel(c->r);
    if(!c->awaited && !MCF(c, canceled)) viol("cancel-flag", "%s: the canceled flag is not set by cancel", c->name);
}
static void mc_read(mc_t *c){
    unsigned out = 0; mcr_t *q = NULL;
    for(int i = 0; i < MC_NR; i++){ if(c->rd[i].out) out++; else if(!q) q = &c->rd[i]; }
    if(out >= c->depth || !q) return;
    bool want = !MCF(c, eof) && !MCF(c, canceled) && !MCF(c, awaited);
    size_t size = 1 + vh_n(G, c->maxbuf);
    bool empty = vh_pct(G, 1);
    free(q->buf); q->buf = malloc(size); q->size = size; q->c = c;
    dstr_t d = {.data = q->buf, .size = empty ? 0 : size, .fixed_size = true};
    uint64_t seq = c->rseq;
    q->seq = seq; q->out = want && !empty; if(q->out) c->rseq++;
    bool ok;
    if(c->rw) ok = c->s->read(c->s, &q->s, d, mcs_cb); else ok = c->r->read(c->r, &q->r, d, mcr_cb);
    if(ok != (want && !empty)) viol("read-verdict", "%s: read() returns %d (eof %d canceled %d awaited %d, buffer of %zu)", c->name, ok, MCF(c, eof), MCF(c, canceled), MCF(c, awaited), d.size);
    if(ok) vh_count("reads"); else vh_count("reads_refused");
    if(!q->out && ok) return;
}
static void mc_write(mc_t *c, size_t maxlen){
    mcw_t *q = NULL;
    unsigned nout = 0;
    for(int i = 0; i < MC_NW; i++) if(c->wr[i].out) nout++;
    if(nout < c->wdepth) for(int i = 0; i < MC_NW; i++) if(!c->wr[i].out){ q = &c->wr[i]; break; }
    if(!q) return;
    bool want = !c->s->is_shutdown && !c->s->canceled && !c->s->awaited;
    unsigned nb = 1 + (unsigned)vh_n(G, vh_pct(G, 80) ? 3 : 7);
    size_t len = vh_pct(G, 3) ? 0 : 1 + vh_n(G, maxlen);
    free(q->buf); q->buf = malloc(len ? len : 1); q->len = len; q->nb = nb; q->c = c;
    for(size_t i = 0; i < len; i++) q->buf[i] = (char)vh_u64(G);
    dstr_t d[7]; size_t off = 0;
    for(unsigned i = 0; i < nb; i++){
        size_t n = i + 1 == nb ? len - off : vh_n(G, len - off + 1);
        d[i] = (dstr_t){.data = q->buf + off, .len = n, .size = n, .fixed_size = true}; off += n;
    }
    q->seq = c->wseq; q->out = want && len; if(q->out){ c->wseq++; mq_put(c->sent, q->buf, len); }
    bool ok = c->s->write(c->s, &q->w, d, nb, mcw_cb);
    if(ok != (want && len)) viol("write-verdict", "%s: write() returns %d (shutdown %d canceled %d awaited %d, %zu bytes)", c->name, ok, c->s->is_shutdown, c->s->canceled, c->s->awaited, len);
    if(ok) vh_count("writes"); else vh_count("writes_refused");
}
static void mc_shutdown(mc_t *c){
    bool was = c->s->is_shutdown, dead = c->s->awaited || c->s->canceled;
    ev('z', 0); c->want_shut = true;
    if(!was && !dead) { c->shut_called = true; if(c->sent) c->sent->closed = true; }
    c->s->shutdown(c->s, mc_shut_cb);
}
static void mc_free(mc_t *c){ for(int i = 0; i < MC_NR; i++) free(c->rd[i].buf); for(int i = 0; i < MC_NW; i++) free(c->wr[i].buf); }
static mc_t *mc_new(const char *name, rstream_i *r, stream_i *s){
    mc_t *c = xalloc(sizeof(*c));
    c->name = name; c->r = r; c->s = s; c->rw = s != NULL;
    if(r) r->data = c; else s->data = c;
    c->wdepth = 1 + (unsigned)vh_n(G, vh_pct(G, 60) ? 6 : MC_NW);
    c->depth = 1 + (unsigned)vh_n(G, MC_NR);
    c->maxbuf = vh_pct(G, 30) ? 4 : vh_pct(G, 50) ? 100 : 9000;
    c->p_more = (int)vh_n(G, 100);
    return c;
}
#endif
