/* duv_http over a real libuv loop, driven in batches; what the request's
   stream promised is monitored while it runs. */
#include "drv.h"
#include "libhttp/libhttp.h"

static uv_loop_t loop;
static duv_scheduler_t sched;
static duv_http_t http;
static bool http_closed;
static bool timed_out;
static ssl_context_t TRUST;
static uv_timer_t watchdog;
static char faults[4096];
static void fault(const char *s, int i){
    size_t n = strlen(faults);
    snprintf(faults + n, sizeof(faults) - n, "%s(req %d);", s, i);
}
typedef struct rbuf_t rbuf_t;
typedef struct {
    int idx;
    duv_http_req_t req;
    dstr_t bufsizes; /* 4-byte little numbers */
    size_t nsizes;
    int parallel;       /* reads kept in flight */
    int cancel_reads;   /* cancel after that many read callbacks, -1 never */
    int cancel_hdrs;    /* cancel after that many headers, -1 never */
    int close_reads;    /* close the whole http_t after that many reads */
    int cancel_ms;      /* cancel that long after the start, -1 never */
    int await_ms;       /* await that late, -1 at once */
    uv_timer_t tcancel, tawait; bool timers;
    int trigger;        /* submit only after request #trigger is awaited, -1 at once */
    http_method_e meth;
    url_t url; dstr_t urltext; char vname[64];
    http_pairs_t *params, *hdrs;
    dstr_t body;
    rbuf_t *reads; size_t nreads, capreads;
    int inflight; int nrcb, nhdr, nawait, ndone;
    bool eof, awaited, submitted;
    derr_type_t etype;
    char *msg;
    char *out; size_t outlen;
    char *hdr; size_t hdrlen;
    int status;
    char reason[300]; size_t reasonlen;
    uint64_t seq_next_issue, seq_next_cb;
} rq_t;
struct rbuf_t { rstream_read_t r; rq_t *q; char *mem; int state; /* 1 out 2 cb 3 returned */ uint64_t seq; };
static rq_t **rqs; static size_t nrqs; static size_t nawaited;
static dstr_t *sizes_arg;

static void rcb(rstream_i *s, rstream_read_t *read, dstr_t buf);
static void close_cb(duv_http_t *h);
static void submit(rq_t *q);

static void issue(rq_t *q){
    while(!q->eof && !q->awaited && !q->req.iface.canceled && q->inflight < q->parallel){
        if(q->nreads == q->capreads){ fault("too many reads", q->idx); return; }
        rbuf_t *rb = &q->reads[q->nreads];
        uint32_t sz; memcpy(&sz, q->bufsizes.data + 4 * (q->nreads % q->nsizes), 4);
        if(sz == 0) sz = 1;
        rb->q = q; rb->mem = malloc(sz);
        rb->seq = q->seq_next_issue++;
        dstr_t d = { .data = rb->mem, .size = sz, .fixed_size = true };
        q->nreads++;
        if(!q->req.iface.read(&q->req.iface, &rb->r, d, rcb)){
            fault("read refused", q->idx); rb->state = 3; return;
        }
        rb->state = 1; q->inflight++;
    }
}
static void rcb(rstream_i *s, rstream_read_t *read, dstr_t buf){
    rbuf_t *rb = (rbuf_t*)((char*)read - offsetof(rbuf_t, r));
    rq_t *q = rb->q;
    if(s != &q->req.iface) fault("wrong stream in read cb", q->idx);
    if(q->awaited) fault("read cb after await cb", q->idx);
    if(rb->state != 1) fault("read answered twice", q->idx);
    if(rb->seq != q->seq_next_cb) fault("reads answered out of order", q->idx);
    q->seq_next_cb = rb->seq + 1;
    rb->state = 2; q->inflight--; q->nrcb++;
    if(buf.len && buf.data != rb->mem) fault("foreign buffer", q->idx);
    if(buf.len && q->eof) fault("content after eof", q->idx);
    if(buf.len == 0){
        if(!q->eof && !s->eof) fault("eof without the eof flag", q->idx);
        q->eof = true;
    }else{
        q->out = realloc(q->out, q->outlen + buf.len);
        memcpy(q->out + q->outlen, buf.data, buf.len); q->outlen += buf.len;
    }
    if(q->cancel_reads >= 0 && q->nrcb > q->cancel_reads){ s->cancel(s); return; }
    if(q->close_reads >= 0 && q->nrcb > q->close_reads) duv_http_close(&http, close_cb);
    issue(q);
}
static void hcb(duv_http_req_t *req, const http_pair_t hdr){
    rq_t *q = (rq_t*)((char*)req - offsetof(rq_t, req));
    if(q->awaited) fault("header after await cb", q->idx);
    if(req->status == 0) fault("header before the status is known", q->idx);
    uint32_t a = (uint32_t)hdr.key.len, b = (uint32_t)hdr.value.len;
    q->hdr = realloc(q->hdr, q->hdrlen + 8 + a + b);
    char *p = q->hdr + q->hdrlen;
    memcpy(p, &a, 4); memcpy(p + 4, &b, 4);
    if(a) memcpy(p + 8, hdr.key.data, a);
    if(b) memcpy(p + 8 + a, hdr.value.data, b);
    q->hdrlen += 8 + a + b;
    q->nhdr++;
    if(q->cancel_hdrs >= 0 && q->nhdr > q->cancel_hdrs) req->iface.cancel(&req->iface);
}
static void acb(rstream_i *s, derr_t e, link_t *reads){
    rq_t *q = s->data;
    q->nawait++;
    if(q->awaited) fault("awaited twice", q->idx);
    q->awaited = true;
    if(!s->awaited) fault("await cb without the flag", q->idx);
    q->etype = e.type;
    q->msg = e.msg.len ? strndup(e.msg.data, e.msg.len) : NULL;
    link_t *l;
    while((l = link_list_pop_first(reads))){
        rstream_read_t *r = CONTAINER_OF(l, rstream_read_t, link);
        rbuf_t *rb = (rbuf_t*)((char*)r - offsetof(rbuf_t, r));
        if(rb->q != q) fault("foreign read returned", q->idx);
        if(rb->state != 1) fault("read returned after it was answered", q->idx);
        rb->state = 3; q->inflight--;
    }
    if(q->inflight) fault("reads neither answered nor returned", q->idx);
    if(!e.type && !q->eof) fault("success without eof", q->idx);
    q->status = q->req.status;
    q->reasonlen = q->req.reason.len < 300 ? q->req.reason.len : 300;
    if(q->reasonlen) memcpy(q->reason, q->req.reason.data, q->reasonlen);
    DROP_VAR(&e);
    nawaited++;
    for(size_t i = 0; i < nrqs; i++)
        if(!rqs[i]->submitted && rqs[i]->trigger == q->idx) submit(rqs[i]);
}
static void tcancel_cb(uv_timer_t *t){
    rq_t *q = t->data;
    q->req.iface.cancel(&q->req.iface);
}
static void tawait_cb(uv_timer_t *t){
    rq_t *q = t->data;
    if(q->req.iface.await(&q->req.iface, acb)) fault("there was an await cb already", q->idx);
}
static void submit(rq_t *q){
    q->submitted = true;
    memset(&q->req, 0, sizeof(q->req));
    q->req.iface.data = q;
    rstream_i *s = duv_http_req_ex(&q->req, &http, q->meth, q->url, q->params, q->hdrs, q->body, hcb, q->vname[0] ? q->vname : NULL);
    uv_timer_init(&loop, &q->tcancel); uv_timer_init(&loop, &q->tawait); q->timers = true;
    q->tcancel.data = q; q->tawait.data = q;
    if(q->await_ms < 0){
        if(s->await(s, acb)) fault("there was an await cb already", q->idx);
    }else uv_timer_start(&q->tawait, tawait_cb, (uint64_t)q->await_ms, 0);
    if(q->cancel_ms >= 0) uv_timer_start(&q->tcancel, tcancel_cb, (uint64_t)q->cancel_ms, 0);
    issue(q);
}
static void close_cb(duv_http_t *h){ (void)h; http_closed = true; }
static void watchdog_cb(uv_timer_t *t){ (void)t; timed_out = true; uv_stop(&loop); }

static http_pairs_t *pairs(dstr_t *a, size_t n, http_pairs_t *mem){
    for(size_t i = 0; i < n; i++){
        mem[i] = (http_pairs_t){ .pair = { a[2*i], a[2*i+1] }, .prev = i + 1 < n ? &mem[i+1] : NULL };
    }
    return n ? mem : NULL;
}
static http_method_e meth(dstr_t d){
    if(!dstr_cmp2(d, DSTR_LIT("GET"))) return HTTP_METHOD_GET;
    if(!dstr_cmp2(d, DSTR_LIT("HEAD"))) return HTTP_METHOD_HEAD;
    if(!dstr_cmp2(d, DSTR_LIT("POST"))) return HTTP_METHOD_POST;
    if(!dstr_cmp2(d, DSTR_LIT("PUT"))) return HTTP_METHOD_PUT;
    return HTTP_METHOD_DELETE;
}
/* batch timeout_ms nreq (method url bufsizes parallel cancel_reads cancel_hdrs close_reads trigger
   body nparams nhdrs params.. hdrs..)* */
static void op_batch(dstr_t *a, size_t n){
    size_t i = 0;
    uint64_t timeout = drv_uint(a[i++]);
    nrqs = (size_t)drv_int(a[i++]);
    rqs = calloc(nrqs + 1, sizeof(*rqs));
    nawaited = 0; faults[0] = 0; http_closed = false; timed_out = false;
    memset(&http, 0, sizeof(http));
    derr_t e = duv_loop_init(&loop); if(e.type) abort();
    e = duv_scheduler_init(&sched, &loop); if(e.type) abort();
    e = duv_http_init(&http, &loop, &sched, TRUST.ctx); if(e.type) abort();
    for(size_t k = 0; k < nrqs; k++){
        rq_t *q = rqs[k] = calloc(1, sizeof(*q));
        q->idx = (int)k;
        q->meth = meth(a[i++]);
        q->urltext = a[i++];
        memcpy(q->vname, a[i].data, a[i].len); i++;
        derr_t e2 = parse_url(&q->urltext, &q->url);
        if(e2.type){ fault("url not parsed", (int)k); DROP_VAR(&e2); }
        q->bufsizes = a[i++]; q->nsizes = q->bufsizes.len / 4;
        q->parallel = (int)drv_int(a[i++]);
        q->cancel_reads = (int)drv_int(a[i++]);
        q->cancel_hdrs = (int)drv_int(a[i++]);
        q->close_reads = (int)drv_int(a[i++]);
        q->cancel_ms = (int)drv_int(a[i++]);
        q->await_ms = (int)drv_int(a[i++]);
        q->trigger = (int)drv_int(a[i++]);
        q->body = a[i++];
        size_t np = (size_t)drv_int(a[i++]), nh = (size_t)drv_int(a[i++]);
        q->params = pairs(&a[i], np, calloc(np + 1, sizeof(http_pairs_t))); i += 2 * np;
        q->hdrs = pairs(&a[i], nh, calloc(nh + 1, sizeof(http_pairs_t))); i += 2 * nh;
        q->capreads = 200000; q->reads = calloc(q->capreads, sizeof(*q->reads));
    }
    (void)n; (void)sizes_arg;
    for(size_t k = 0; k < nrqs; k++) if(rqs[k]->trigger < 0) submit(rqs[k]);
    uv_timer_init(&loop, &watchdog);
    uv_timer_start(&watchdog, watchdog_cb, timeout, 0);
    while(nawaited < nrqs && !timed_out) uv_run(&loop, UV_RUN_ONCE);
    bool hung = timed_out;
    if(hung){
        /* nothing more can be judged; the process must be replaced */
        drv_s("HANG"); drv_s(faults); drv_u(nawaited);
        return;
    }
    uv_close((uv_handle_t*)&watchdog, NULL);
    for(size_t k = 0; k < nrqs; k++) if(rqs[k]->timers){
        uv_close((uv_handle_t*)&rqs[k]->tcancel, NULL);
        uv_close((uv_handle_t*)&rqs[k]->tawait, NULL);
    }
    bool expect = duv_http_close(&http, close_cb);
    (void)expect;
    e = duv_run(&loop); if(e.type) abort();
    duv_scheduler_close(&sched);
    uv_loop_close(&loop);
    e = duv_run(&loop); if(e.type) abort();
    drv_s("DONE"); drv_s(faults); drv_i(http_closed);
    for(size_t k = 0; k < nrqs; k++){
        rq_t *q = rqs[k];
        drv_et(q->etype); drv_s(q->msg ? q->msg : "");
        drv_i(q->status); drv_field(q->reason, q->reasonlen);
        drv_field(q->hdr, q->hdrlen); drv_field(q->out, q->outlen);
        drv_i(q->nrcb); drv_i(q->nawait);
        for(size_t j = 0; j < q->nreads; j++) free(q->reads[j].mem);
        free(q->reads); free(q->out); free(q->hdr); free(q->msg);
        free(q);
    }
    free(rqs);
}
int main(int argc, char **argv){
    signal(SIGPIPE, SIG_IGN);
    if(argc > 1){
        const char *ca = argv[1];
        derr_t e = ssl_context_new_client_ex(&TRUST, false, &ca, 1); if(e.type) abort();
    }
    static const drv_op_t ops[] = {{"batch", op_batch}, {0}};
    return drv_main(ops);
}
