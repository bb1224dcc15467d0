#include "drv.h"
#include "libweb/libweb.h"
#include "libhttp/libhttp.h"

static void off(const dstr_t *base, dstr_off_t o){
    /* the text, and where it starts; an offset must lie inside the input */
    if(o.buf != base || o.start + o.len > base->len){ drv_s("!"); return; }
    char b[64]; snprintf(b, sizeof(b), "%zu:%zu", o.start, o.len); drv_s(b);
}
static void put_url(const dstr_t *t, url_t u){
    off(t, u.scheme); off(t, u.user); off(t, u.pass); off(t, u.host);
    off(t, u.port); off(t, u.path); off(t, u.query); off(t, u.fragment);
}
static void url_op(dstr_t *a, bool ref, bool quiet){
    DSTR_VAR(err, 512);
    url_t u;
    bool ok = ref ? parse_url_reference_ex(&a[0], &u, quiet ? NULL : &err) : parse_url_ex(&a[0], &u, quiet ? NULL : &err);
    url_t v;
    derr_t e = ref ? parse_url_reference(&a[0], &v) : parse_url(&a[0], &v);
    drv_s(ok ? "ok" : "bad");
    drv_e(e);
    if(ok){ put_url(&a[0], u); drv_d(url_text(u)); }
    else drv_d(err);
}
static void op_url(dstr_t *a, size_t n){ url_op(a, false, n > 1); }
static void op_urlref(dstr_t *a, size_t n){ url_op(a, true, n > 1); }
static void op_addrspec(dstr_t *a, size_t n){
    DSTR_VAR(err, 512);
    addrspec_t u, v;
    bool ok = parse_addrspec_ex(&a[0], &u, n > 1 ? NULL : &err);
    derr_t e = parse_addrspec(&a[0], &v);
    drv_s(ok ? "ok" : "bad");
    drv_e(e);
    if(ok){ off(&a[0], u.scheme); off(&a[0], u.host); off(&a[0], u.port); drv_d(addrspec_text(u)); }
    else drv_d(err);
}
static void op_retry(dstr_t *a, size_t n){
    DSTR_VAR(err, 512);
    time_t t0, t, t1, v;
    dtime_quiet(&t0);
    bool ok = parse_retry_after_ex(a[0], &t, n > 1 ? NULL : &err);
    dtime_quiet(&t1);
    derr_t e = parse_retry_after(a[0], &v);
    drv_s(ok ? "ok" : "bad"); drv_e(e);
    drv_i(t0); drv_i(t); drv_i(t1);
}
/* links text mode: mode bit 0: skip the params of every even link; everything is copied as it is returned */
static void op_links(dstr_t *a, size_t n){
    (void)n;
    int mode = (int)drv_int(a[1]);
    weblinks_t *p = malloc(sizeof(*p));
    int k = 0;
    for(url_t *u = weblinks_iter(p, &a[0]); u; u = weblinks_next(p), k++){
        drv_s("L");
        put_url(&a[0], *u);
        if((mode & 1) && (k & 1)) continue;
        weblink_param_t *q;
        while((q = weblinks_next_param(p))){ drv_s("P"); drv_d(q->key); drv_d(q->value); }
        if(mode & 2){ if(weblinks_next_param(p)) drv_s("!more params after the end"); }
    }
    if(weblinks_next(p)) drv_s("!another link after the end");
    drv_s("E"); drv_et(weblinks_status(p)); drv_d(weblinks_errbuf(p));
    free(p);
}
static void op_qstr(dstr_t *a, size_t n){
    (void)n;
    size_t cap = (size_t)drv_int(a[1]);
    char *m = malloc(cap + 1);
    dstr_t out = { .data = m, .size = cap, .fixed_size = true };
    drv_et(http_quoted_string_decode(a[0], &out));
    drv_d(out);
    free(m);
}
/* hread bufsize piece...: the reader over a message delivered in pieces into a buffer of the given size.
   headers: H key value; end: B offset-text; incomplete at the end: I; error: X type */
static void op_hread(dstr_t *a, size_t n){
    size_t cap = (size_t)drv_int(a[0]);
    char *m = malloc(cap);
    dstr_t buf = { .data = m, .size = cap, .fixed_size = true };
    http_reader_t *r = malloc(sizeof(*r));
    http_reader_init(r, &buf);
    size_t i = 1, at = 0;
    bool gotstatus = false;
    while(true){
        http_pair_t h; int st;
        derr_t e = http_read(r, &h, &st);
        if(e.type){ drv_s("X"); drv_e(e); break; }
        if(st == -1){
            if(!gotstatus){ gotstatus = true; drv_s("S"); drv_i(r->status); drv_d(r->reason); }
            drv_s("H"); drv_d(h.key); drv_d(h.value);
            continue;
        }
        if(st >= 0){
            if(!gotstatus){ gotstatus = true; drv_s("S"); drv_i(r->status); drv_d(r->reason); }
            drv_s("B"); drv_d(dstr_sub2(buf, (size_t)st, SIZE_MAX));
            /* the rest of the pieces belongs to the body too */
            for(; i < n; i++){ drv_d(dstr_sub2(a[i], at, SIZE_MAX)); at = 0; }
            break;
        }
        if(st != -2){ drv_s("!state"); break; }
        while(i < n && at == a[i].len){ i++; at = 0; }
        if(i == n){ drv_s("I"); break; }
        size_t sp = buf.size - buf.len;
        if(!sp){ drv_s("F"); break; }
        size_t k = a[i].len - at < sp ? a[i].len - at : sp;
        memcpy(buf.data + buf.len, a[i].data + at, k);
        buf.len += k; at += k;
    }
    http_reader_free(r);
    free(r); free(m);
}
/* marshal method url nparams k v .. nhdrs k v .. bodylen size...: bytes produced with buffers of the given sizes (cycled) */
static void op_marshal(dstr_t *a, size_t n){
    http_method_e meth = (http_method_e)drv_int(a[0]);
    url_t u;
    if(!parse_url_ex(&a[1], &u, NULL)){ drv_s("badurl"); return; }
    drv_s("ok");
    size_t i = 2;
    size_t np = (size_t)drv_int(a[i++]);
    http_pairs_t *ps = calloc(np + 1, sizeof(*ps)), *params = NULL;
    for(size_t k = 0; k < np; k++){
        ps[k].pair = (http_pair_t){ a[i + 2 * k], a[i + 2 * k + 1] };
    }
    for(size_t k = np; k > 0; k--){ ps[k - 1].prev = params; params = &ps[k - 1]; }
    i += 2 * np;
    size_t nh = (size_t)drv_int(a[i++]);
    http_pairs_t *hs = calloc(nh + 1, sizeof(*hs)), *hdrs = NULL;
    for(size_t k = 0; k < nh; k++) hs[k].pair = (http_pair_t){ a[i + 2 * k], a[i + 2 * k + 1] };
    for(size_t k = nh; k > 0; k--){ hs[k - 1].prev = hdrs; hdrs = &hs[k - 1]; }
    i += 2 * nh;
    size_t blen = (size_t)drv_uint(a[i++]);
    http_marshaler_t m = http_marshaler(meth, u, params, hdrs, blen);
    for(int round = 0; round < 2; round++){
        char *out = NULL; size_t len = 0;
        bool done = false;
        size_t stall = 0, k = 0, calls = 0;
        while(!done && stall < 4 + (n - i)){
            size_t sz = (size_t)drv_int(a[i + (k++ % (n - i))]);
            char *b = malloc(sz ? sz : 1);
            dstr_t d = { .data = b, .size = sz, .fixed_size = true };
            done = http_marshal_req(&m, &d);
            calls++;
            if(d.len == 0 && sz) stall++; else stall = 0;
            out = realloc(out, len + d.len + 1);
            memcpy(out + len, d.data, d.len); len += d.len;
            free(b);
        }
        drv_s(done ? "done" : "stuck"); drv_u(calls);
        drv_field(out, len);
        free(out);
        m = http_marshaler_reset(m);
    }
    free(ps); free(hs);
}
int main(void){
    static const drv_op_t ops[] = {
        {"url", op_url}, {"urlref", op_urlref}, {"addrspec", op_addrspec}, {"retry", op_retry},
        {"links", op_links}, {"qstr", op_qstr}, {"hread", op_hread}, {"marshal", op_marshal}, {0},
    };
    return drv_main(ops);
}
