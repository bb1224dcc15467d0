/* API tokens, nonces, installations and API calls, driven from Python. */
#include "drv.h"
#include "fsfault.h"
#include "libcrypto/libcrypto.h"
#include "api_client.h"

static char PB[8192];
static const char *cstr(dstr_t d){ size_t n = d.len < sizeof(PB) - 1 ? d.len : sizeof(PB) - 1; memcpy(PB, d.data, n); PB[n] = 0; return PB; }
static void op_fs(dstr_t *a, size_t n){
    (void)n; memcpy(fs_root, a[0].data, a[0].len); fs_root[a[0].len] = 0;
    fs_ops = 0; fs_at = drv_int(a[1]); fs_mode = (int)drv_int(a[2]); fs_what[0] = 0; drv_s("ok");
}
static void op_fsops(dstr_t *a, size_t n){ (void)a; (void)n; drv_u((unsigned long long)fs_ops); drv_s(fs_what); }
/* by path string or string builder; they must agree */
static string_builder_t sbp(dstr_t d){ return SBD(d); }
static void put_tok(api_token_t *t){ drv_u(t->key); drv_d(t->secret); drv_u(t->nonce); api_token_free0(t); }
static void op_riw(dstr_t *a, size_t n){
    (void)n; api_token_t t = {0}; bool ok = false; derr_t e;
    if(drv_int(a[1])){ string_builder_t sb = sbp(a[0]); e = api_token_read_increment_write_path(&sb, &t, &ok); }
    else e = api_token_read_increment_write(cstr(a[0]), &t, &ok);
    bool err = is_error(e);
    drv_e(e); drv_i(ok);
    if(err) api_token_free0(&t);
    put_tok(&t);
}
static void op_tokr(dstr_t *a, size_t n){
    (void)n; api_token_t t = {0}; derr_t e;
    if(drv_int(a[1])){ string_builder_t sb = sbp(a[0]); e = api_token_read_path(&sb, &t); }
    else e = api_token_read(cstr(a[0]), &t);
    drv_e(e); put_tok(&t);
}
static void op_tokw(dstr_t *a, size_t n){
    (void)n; api_token_t t = { .key = (unsigned)drv_uint(a[2]), .secret = a[3], .nonce = drv_uint(a[4]) };
    if(drv_int(a[1])){ string_builder_t sb = sbp(a[0]); drv_e(api_token_write_path(t, &sb)); }
    else drv_e(api_token_write(t, cstr(a[0])));
}
static void op_nonce(dstr_t *a, size_t n){
    (void)n; uint64_t x = 77; derr_t e;
    if(drv_int(a[1])){ string_builder_t sb = sbp(a[0]); e = nonce_read_increment_write_path(&sb, &x); }
    else e = nonce_read_increment_write(cstr(a[0]), &x);
    drv_e(e); drv_u(x);
}
static void put_inst(installation_t *i){
    drv_u(i->token.key); drv_d(i->token.secret); drv_d(i->subdomain); drv_d(i->email); installation_free0(i);
}
static void op_instw(dstr_t *a, size_t n){
    (void)n; installation_t i = { .token = { .key = (unsigned)drv_uint(a[2]), .secret = a[3] }, .subdomain = a[4], .email = a[5] };
    if(drv_int(a[1])) drv_e(installation_write_path(i, sbp(a[0])));
    else drv_e(installation_write(i, cstr(a[0])));
}
static void op_instr(dstr_t *a, size_t n){
    (void)n; installation_t i = {0}; derr_t e;
    if(drv_int(a[1])) e = installation_read_path(sbp(a[0]), &i);
    else e = installation_read_file(cstr(a[0]), &i);
    drv_e(e); put_inst(&i);
}
static void op_instp(dstr_t *a, size_t n){
    (void)n; installation_t i = {0}; drv_e(installation_read_dstr(a[0], &i)); put_inst(&i);
}
/* ---- calls ---- */
static uv_loop_t loop; static duv_scheduler_t sched; static duv_http_t http; static api_client_t apic;
static uv_timer_t watchdog, next; static bool timed_out;
typedef struct { dstr_t kind, path, arg, user, pass, secret; unsigned key; uint64_t nonce; int cancel_ms, chain;
    uv_timer_t tc; bool timer; json_t json; int ncb; derr_type_t et; char *msg; bool wrong_json; int canceled; bool cancel_ret;
    bool jok; derr_type_t jet; installation_t inst; } call_t;
static call_t *CL; static size_t NC, CUR;
static void start(void);
static void look(call_t *c, json_t *j){
    DSTR_VAR(err, 1024);
    derr_t e = jspec_read_ex(JAPI(JINST(&c->inst)), j->root, &c->jok, &err);
    c->jet = e.type; DROP_VAR(&e);
}
static void next_cb(uv_timer_t *t){ (void)t; start(); }
static void done_cb(void *data, derr_t e, json_t *json){
    call_t *c = data;
    c->ncb++;
    if(c->ncb > 1) return;
    if(json != &c->json) c->wrong_json = true;
    c->et = e.type; c->msg = e.msg.len ? strndup(e.msg.data, e.msg.len) : NULL;
    if(!e.type) look(c, &c->json);
    DROP_VAR(&e);
    if(c->timer) uv_timer_stop(&c->tc);
    CUR++;
    if(c->chain) start(); else uv_timer_start(&next, next_cb, 0, 0);
}
static void tc_cb(uv_timer_t *t){ call_t *c = t->data; c->canceled = 1; c->cancel_ret = api_client_cancel(&apic); }
static void wd_cb(uv_timer_t *t){ (void)t; timed_out = true; uv_stop(&loop); }
static void start(void){
    if(CUR == NC){ uv_stop(&loop); return; }
    call_t *c = &CL[CUR];
    json_prep(&c->json);
    uv_timer_init(&loop, &c->tc); c->tc.data = c; c->timer = true;
    if(!dstr_cmp2(c->kind, DSTR_LIT("pass")))
        apic_pass(&apic, c->path, c->arg, c->user, c->pass, &c->json, done_cb, c);
    else{
        api_token_t t = { .key = c->key, .secret = c->secret, .nonce = c->nonce };
        apic_token(&apic, c->path, c->arg, t, &c->json, done_cb, c);
    }
    if(c->ncb){ c->wrong_json = true; return; }
    if(c->cancel_ms == 0) tc_cb(&c->tc);
    else if(c->cancel_ms > 0) uv_timer_start(&c->tc, tc_cb, (uint64_t)c->cancel_ms, 0);
}
/* calls mode timeout baseurl n (kind path arg user pass key secret nonce cancel_ms chain)*; mode sync|async */
static void op_calls(dstr_t *a, size_t n){
    (void)n; bool sync = !dstr_cmp2(a[0], DSTR_LIT("sync"));
    uint64_t timeout = drv_uint(a[1]); dstr_t base = a[2]; NC = (size_t)drv_int(a[3]); CUR = 0;
    CL = calloc(NC + 1, sizeof(*CL)); timed_out = false;
    for(size_t k = 0; k < NC; k++){
        dstr_t *b = a + 4 + 10 * k;
        CL[k] = (call_t){ .kind = b[0], .path = b[1], .arg = b[2], .user = b[3], .pass = b[4], .key = (unsigned)drv_uint(b[5]), .secret = b[6], .nonce = drv_uint(b[7]), .cancel_ms = (int)drv_int(b[8]), .chain = (int)drv_int(b[9]) };
    }
    derr_t e;
    if(sync){
        http_sync_t s; e = http_sync_init(&s, NULL); if(e.type) abort();
        for(; CUR < NC; CUR++){
            call_t *c = &CL[CUR];
            json_prep(&c->json); c->ncb = 1;
            if(!dstr_cmp2(c->kind, DSTR_LIT("pass"))) e = api_pass_sync(&s, base, c->path, c->arg, c->user, c->pass, &c->json);
            else{ api_token_t t = { .key = c->key, .secret = c->secret, .nonce = c->nonce }; e = api_token_sync(&s, base, c->path, c->arg, t, &c->json); }
            c->et = e.type; c->msg = e.msg.len ? strndup(e.msg.data, e.msg.len) : NULL;
            if(!e.type) look(c, &c->json);
            DROP_VAR(&e);
        }
        http_sync_free(&s);
    }else{
        memset(&http, 0, sizeof(http));
        e = duv_loop_init(&loop); if(e.type) abort();
        e = duv_scheduler_init(&sched, &loop); if(e.type) abort();
        e = duv_http_init(&http, &loop, &sched, NULL); if(e.type) abort();
        e = api_client_init(&apic, &http, base); if(e.type) abort();
        uv_timer_init(&loop, &watchdog); uv_timer_start(&watchdog, wd_cb, timeout, 0); uv_timer_init(&loop, &next);
        start();
        while(CUR < NC && !timed_out) uv_run(&loop, UV_RUN_ONCE);
        if(timed_out){ drv_s("HANG"); drv_u(CUR); return; }
        /* anything left over must not call back again */
        for(int i = 0; i < 3; i++) uv_run(&loop, UV_RUN_NOWAIT);
        uv_close((uv_handle_t*)&watchdog, NULL); uv_close((uv_handle_t*)&next, NULL);
        for(size_t k = 0; k < NC; k++) if(CL[k].timer) uv_close((uv_handle_t*)&CL[k].tc, NULL);
        duv_http_close(&http, NULL);
        e = duv_run(&loop); if(e.type) abort();
        api_client_free(&apic);
        duv_scheduler_close(&sched); uv_loop_close(&loop);
        e = duv_run(&loop); if(e.type) abort();
    }
    drv_s("DONE");
    for(size_t k = 0; k < NC; k++){
        call_t *c = &CL[k];
        drv_i(c->ncb); drv_et(c->et); drv_s(c->msg ? c->msg : ""); drv_i(c->wrong_json); drv_i(c->canceled); drv_i(c->cancel_ret);
        drv_i(c->jok); drv_et(c->jet); put_inst(&c->inst);
        json_free(&c->json); free(c->msg);
    }
    free(CL);
}
/* register baseurl user pass path by_sb */
static void op_register(dstr_t *a, size_t n){
    (void)n; http_sync_t s; derr_t e = http_sync_init(&s, NULL); if(e.type) abort();
    if(drv_int(a[4])){ string_builder_t sb = sbp(a[3]); e = register_api_token_path_sync(&s, a[0], a[1], a[2], &sb); }
    else e = register_api_token_sync(&s, a[0], a[1], a[2], cstr(a[3]));
    drv_e(e); http_sync_free(&s);
}
int main(void){
    signal(SIGPIPE, SIG_IGN);
    static const drv_op_t ops[] = {{"fs", op_fs}, {"fsops", op_fsops}, {"riw", op_riw}, {"tokr", op_tokr}, {"tokw", op_tokw}, {"nonce", op_nonce},
        {"instw", op_instw}, {"instr", op_instr}, {"instp", op_instp}, {"calls", op_calls}, {"register", op_register}, {0}};
    return drv_main(ops);
}
