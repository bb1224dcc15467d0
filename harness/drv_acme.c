/* JWS, account keys and the ACME client on a real loop */
#include "drv.h"
#include "libacme/libacme.h"
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#include <openssl/bn.h>
#include <sys/stat.h>
static char *cstr(const dstr_t d){ char *p = malloc(d.len + 1); memcpy(p, d.data, d.len); p[d.len] = 0; return p; }

/* keys and accounts live in slots */
static key_i *KEY[16];
static acme_account_t ACCT[16];
static dstr_t KIDS[16];
static key_i *key(const dstr_t slot){ int i = (int)drv_int(slot); return KEY[i] ? KEY[i] : ACCT[i].key; }
static void drop(int i){
    if(KEY[i]){ KEY[i]->free(KEY[i]); KEY[i] = NULL; }
    acme_account_free(&ACCT[i]);
    dstr_free(&KIDS[i]);
}
static void op_key(dstr_t *a, size_t n){
    (void)n; int i = (int)drv_int(a[0]); drop(i); key_i *k = NULL; derr_t e = E_OK;
    switch(a[1].data[0]){
        case 'e': e = gen_es256(&k); break;
        case 'd': e = gen_ed25519(&k); break;
        case 'b': e = ed25519_from_bytes(a[2], &k); break;
        case 'j': e = json_to_key(a[2], &k); break;
    }
    drv_i(k != NULL); drv_e(e); KEY[i] = k;
}
static void op_keyinfo(dstr_t *a, size_t n){
    (void)n; key_i *k = key(a[0]); dstr_t d = {0};
    drv_e(jdump(DJWKPVT(k), WD(&d), (int)drv_int(a[1]))); drv_d(d); d.len = 0;
    drv_e(jdump(DJWKPUB(k), WD(&d), 0)); drv_d(d); d.len = 0;
    drv_s("OK"); drv_e(k->to_pem_pub(k, &d)); drv_d(d); d.len = 0;
    drv_e(dstr_append(&d, &a[2])); drv_e(jwk_thumbprint(k, &d)); drv_d(d);
    dstr_free(&d); drv_d(k->protected_params);
}
/* out starts with what was there before */
static void op_authz(dstr_t *a, size_t n){ (void)n; dstr_t d = {0}; drv_e(dstr_append(&d, &a[2])); drv_e(dns01_key_authz_string(a[1], key(a[0]), &d)); drv_d(d); dstr_free(&d); }
static void op_sign(dstr_t *a, size_t n){ (void)n; key_i *k = key(a[0]); dstr_t d = {0}; drv_e(dstr_append(&d, &a[2])); drv_e(k->sign(k, a[1], &d)); drv_d(d); dstr_free(&d); }
static void op_hs(dstr_t *a, size_t n){
    (void)n; dstr_t d = {0};
    /* a buffer of the given size, with the prefix in it */
    size_t sz = drv_uint(a[3]);
    if(sz){ d = (dstr_t){ .data = malloc(sz), .size = sz, .fixed_size = true }; memcpy(d.data, a[2].data, a[2].len); d.len = a[2].len; }
    else DROP_CMD(dstr_append(&d, &a[2]));
    drv_e(sign_hs256(a[0], a[1], &d)); drv_d(d);
    if(sz) free(d.data); else dstr_free(&d);
}
static void op_jws(dstr_t *a, size_t n){
    (void)n; dstr_t d = {0}; DROP_CMD(dstr_append(&d, &a[3]));
    if(a[4].len){ drv_e(jws(a[1], a[2], SIGN_HS256(&a[4]), &d)); }
    else{ key_i *k = key(a[0]); drv_e(jws(a[1], a[2], SIGN_KEY(k), &d)); }
    drv_d(d); dstr_free(&d);
}
static void op_ajws(dstr_t *a, size_t n){ (void)n; dstr_t d = {0}; drv_e(acme_jws(key(a[0]), a[1], a[2], a[3], a[4], &d)); drv_d(d); dstr_free(&d); }
static void op_b64(dstr_t *a, size_t n){
    (void)n; size_t sz = drv_uint(a[2]); dstr_t d = {0};
    if(sz){ d = (dstr_t){ .data = malloc(sz), .size = sz, .fixed_size = true }; }
    if(a[0].data[0] == 'e') drv_e(bin2b64url(a[1], &d));
    else if(a[0].data[0] == 'd') drv_e(b64url2bin(a[1], &d));
    else drv_e(FMT(&d, "<%x>", FB64URL(a[1])));
    drv_d(d);
    if(sz) free(d.data); else dstr_free(&d);
}
/* pem alg msg sig -> 1 if an independent verifier accepts it */
static void op_verify(dstr_t *a, size_t n){
    (void)n; BIO *b = BIO_new_mem_buf(a[0].data, (int)a[0].len);
    EVP_PKEY *p = PEM_read_bio_PUBKEY(b, NULL, NULL, NULL); BIO_free(b);
    if(!p){ drv_i(-1); return; }
    int ok = 0; EVP_MD_CTX *m = EVP_MD_CTX_new();
    if(EVP_PKEY_id(p) == EVP_PKEY_EC){
        if(a[2].len == 64){
            ECDSA_SIG *s = ECDSA_SIG_new();
            ECDSA_SIG_set0(s, BN_bin2bn((unsigned char*)a[2].data, 32, NULL), BN_bin2bn((unsigned char*)a[2].data + 32, 32, NULL));
            unsigned char *der = NULL; int dl = i2d_ECDSA_SIG(s, &der);
            EVP_DigestVerifyInit(m, NULL, EVP_sha256(), NULL, p);
            ok = EVP_DigestVerify(m, der, (size_t)dl, (unsigned char*)a[1].data, a[1].len) == 1;
            OPENSSL_free(der); ECDSA_SIG_free(s);
        }
    }else{
        EVP_DigestVerifyInit(m, NULL, NULL, NULL, p);
        ok = EVP_DigestVerify(m, (unsigned char*)a[2].data, a[2].len, (unsigned char*)a[1].data, a[1].len) == 1;
    }
    EVP_MD_CTX_free(m); EVP_PKEY_free(p); drv_i(ok);
}
/* csr(der) -> ok, pubkey pem, then a text dump */
static void op_csr(dstr_t *a, size_t n){
    (void)n; const unsigned char *q = (unsigned char*)a[0].data;
    X509_REQ *r = d2i_X509_REQ(NULL, &q, (long)a[0].len);
    if(!r || (size_t)(q - (unsigned char*)a[0].data) != a[0].len){ drv_i(0); drv_s(""); drv_s(""); X509_REQ_free(r); return; }
    EVP_PKEY *p = X509_REQ_get0_pubkey(r); drv_i(p && X509_REQ_verify(r, p) == 1);
    char *s; long l; BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_PUBKEY(b, p); l = BIO_get_mem_data(b, &s); drv_field(s, (size_t)l); BIO_free(b);
    b = BIO_new(BIO_s_mem()); X509_REQ_print_ex(b, r, 0, X509_FLAG_NO_PUBKEY | X509_FLAG_NO_SIGDUMP); l = BIO_get_mem_data(b, &s); drv_field(s, (size_t)l); BIO_free(b);
    X509_REQ_free(r);
}
/* slot -> kid of an account put in a slot: put key into account */
static void op_acct(dstr_t *a, size_t n){ (void)n; int i = (int)drv_int(a[0]); ACCT[i].key = KEY[i]; KEY[i] = NULL; dstr_free(&ACCT[i].kid); DROP_CMD(dstr_copy(&a[1], &ACCT[i].kid)); drv_s("OK"); }
static string_builder_t sbp(char *p){ char *q = strrchr(p, '/'); static string_builder_t b; if(!q) return SBS(p); *q = 0; b = SBS(p); return sb_append(&b, SBS(q + 1)); }
static void op_acct_to(dstr_t *a, size_t n){ (void)n; acme_account_t *t = &ACCT[drv_int(a[0])]; char *p = cstr(a[1]); if(drv_int(a[2])) drv_e(acme_account_to_path(*t, sbp(p))); else drv_e(acme_account_to_file(*t, p)); free(p); }
static void op_acct_from(dstr_t *a, size_t n){
    (void)n; int i = (int)drv_int(a[0]); drop(i); int mode = (int)drv_int(a[2]); acme_account_t t; memset(&t, 0xa5, sizeof(t));
    char *p = cstr(a[1]); derr_t e = mode == 0 ? acme_account_from_file(&t, p) : mode == 1 ? acme_account_from_path(&t, sbp(p)) : acme_account_from_dstr(&t, a[1]);
    free(p); bool ok = !e.type; drv_e(e); drv_i(t.key != NULL); drv_d(t.kid);
    if(ok) ACCT[i] = t; else acme_account_free(&t);
}
static void op_free(dstr_t *a, size_t n){ (void)n; drop((int)drv_int(a[0])); drv_s("OK"); }

/* the client */
static uv_loop_t loop; static duv_scheduler_t sched; static duv_http_t http; static acme_t *acme; static bool open_, closed, acme_closed;
static uv_timer_t watchdog, tclose; static bool timed_out;
static char timers[4096]; static bool slow; static int close_at_timer, ntimers;
static struct { int n; char err[64]; long long v[4]; dstr_t s[6]; size_t ns, nv; char order[8]; size_t no; bool close; } R;
static void wd_cb(uv_timer_t *t){ (void)t; timed_out = true; uv_stop(&loop); }
static void acme_close_cb_(void *d){ (void)d; if(acme_closed) abort(); acme_closed = true; if(R.no < 7) R.order[R.no++] = 'X'; }
static void do_close(void){ closed = true; acme_close(acme, acme_close_cb_, NULL); }
static void tclose_cb(uv_timer_t *t){ (void)t; if(!closed) do_close(); }
void __real_duv_timer_must_start(uv_timer_t *t, uv_timer_cb cb, uint64_t ms);
void __wrap_duv_timer_must_start(uv_timer_t *t, uv_timer_cb cb, uint64_t ms){
    if(t->data != acme){ __real_duv_timer_must_start(t, cb, ms); return; }
    size_t k = strlen(timers);
    if(k < sizeof(timers) - 32) snprintf(timers + k, 32, "%llu ", (unsigned long long)ms);
    if(++ntimers == close_at_timer){
        __real_duv_timer_must_start(t, cb, 600000);
        uv_timer_start(&tclose, tclose_cb, 1, 0);
    }else __real_duv_timer_must_start(t, cb, 1);
}
static void op_open(dstr_t *a, size_t n){
    (void)n; memset(&http, 0, sizeof(http)); closed = acme_closed = false;
    derr_t e = duv_loop_init(&loop); if(e.type) abort();
    e = duv_scheduler_init(&sched, &loop); if(e.type) abort();
    e = duv_http_init(&http, &loop, &sched, NULL); if(e.type) abort();
    acme = NULL;
    e = acme_new(&acme, &http, a[0]); open_ = acme != NULL;
    memset(&watchdog, 0, sizeof(watchdog)); memset(&tclose, 0, sizeof(tclose));
    uv_timer_init(&loop, &watchdog); uv_timer_init(&loop, &tclose);
    drv_e(e);
}
static void done(derr_t e){
    R.n++; if(R.no < 7) R.order[R.no++] = 'C';
    dstr_t d = e.type ? error_to_dstr(e.type) : DSTR_LIT("OK");
    snprintf(R.err, sizeof R.err, "%.*s", (int)d.len, d.data); DROP_VAR(&e);
    if(R.close) do_close();
}
static void take(dstr_t d){ R.s[R.ns++] = d; }
static void cb_acct(void *d, derr_t e, acme_account_t t){ int *i = d; drop(*i); ACCT[*i] = t; R.v[R.nv++] = t.key != NULL; dstr_t c = {0}; if(t.kid.len) DROP_CMD(dstr_copy(&t.kid, &c)); take(c); done(e); }
static void cb_order(void *d, derr_t e, dstr_t o, dstr_t x, dstr_t z, dstr_t f){ (void)d; take(o); take(x); take(z); take(f); done(e); }
static void cb_get_order(void *d, derr_t e, acme_status_e st, dstr_t dom, dstr_t x, dstr_t z, dstr_t f, dstr_t c, time_t ra){ (void)d; take(dom); take(x); take(z); take(f); take(c); R.v[R.nv++] = st; R.v[R.nv++] = ra; done(e); }
static void cb_get_authz(void *d, derr_t e, acme_status_e st, acme_status_e cs, dstr_t dom, dstr_t x, dstr_t c, dstr_t t, time_t ra){ (void)d; take(dom); take(x); take(c); take(t); R.v[R.nv++] = st; R.v[R.nv++] = cs; R.v[R.nv++] = ra; done(e); }
static void cb_plain(void *d, derr_t e){ (void)d; done(e); }
static void cb_cert(void *d, derr_t e, dstr_t c){ (void)d; take(c); done(e); }
/* act kind slot closemode closearg args... ; closemode 0 no, 1 after ms, 2 while waiting in the Nth timer, 3 in the callback, 4 at once */
static void op_act(dstr_t *a, size_t n){
    char kind = a[0].data[0]; static int slot; slot = (int)drv_int(a[1]); int cm = (int)drv_int(a[2]); int ca = (int)drv_int(a[3]);
    dstr_t *b = a + 4; (void)n;
    memset(&R, 0, sizeof R); timers[0] = 0; ntimers = 0; timed_out = false; close_at_timer = cm == 2 ? ca : 0; R.close = cm == 3;
    EVP_PKEY *pk = NULL;
    switch(kind){
        case 'a': acme_new_account(acme, &KEY[slot], b[0], cb_acct, &slot); if(KEY[slot]) abort(); break;
        case 'o': acme_new_order(acme, ACCT[slot], b[0], cb_order, NULL); break;
        case 'g': acme_get_order(acme, ACCT[slot], b[0], cb_get_order, NULL); break;
        case 'z': acme_get_authz(acme, ACCT[slot], b[0], cb_get_authz, NULL); break;
        case 'c': acme_challenge(acme, ACCT[slot], b[0], b[1], cb_plain, NULL); break;
        case 'C': acme_challenge_finish(acme, ACCT[slot], b[0], drv_int(b[1]), cb_plain, NULL); break;
        case 'f': { BIO *i = BIO_new_mem_buf(b[3].data, (int)b[3].len); pk = PEM_read_bio_PrivateKey(i, NULL, NULL, NULL); BIO_free(i); if(!pk) abort();
            acme_finalize(acme, ACCT[slot], b[0], b[1], b[2], pk, cb_cert, NULL); EVP_PKEY_free(pk); break; }
        case 'F': acme_finalize_from_processing(acme, ACCT[slot], b[0], drv_int(b[1]), cb_cert, NULL); break;
        case 'V': acme_finalize_from_valid(acme, ACCT[slot], b[0], cb_cert, NULL); break;
    }
    if(R.n) drv_s("EARLY"); else drv_s("LATER");
    if(cm == 4) do_close();
    if(cm == 1) uv_timer_start(&tclose, tclose_cb, (uint64_t)ca, 0);
    uv_timer_start(&watchdog, wd_cb, 20000, 0);
    while((!R.n || (closed && !acme_closed)) && !timed_out) uv_run(&loop, UV_RUN_ONCE);
    if(timed_out){ drv_s("HUNG"); return; }
    uv_timer_stop(&watchdog); uv_timer_stop(&tclose);
    drv_s("DONE"); drv_i(R.n); drv_s(R.err); drv_s(timers); drv_s(R.order); drv_i(closed);
    drv_i((long long)R.nv); for(size_t i = 0; i < R.nv; i++) drv_i(R.v[i]);
    for(size_t i = 0; i < R.ns; i++){ drv_d(R.s[i]); dstr_free(&R.s[i]); }
}
/* close everything; nothing may be left in the loop */
static void op_close(dstr_t *a, size_t n){
    (void)a; (void)n; timed_out = false; R.no = 0; R.n = 0;
    uv_timer_start(&watchdog, wd_cb, 20000, 0);
    if(acme && !closed) do_close();
    while(acme && !acme_closed && !timed_out) uv_run(&loop, UV_RUN_ONCE);
    if(timed_out){ drv_s("HUNG"); return; }
    acme_free(&acme);
    uv_close((uv_handle_t*)&watchdog, NULL); uv_close((uv_handle_t*)&tclose, NULL);
    duv_http_close(&http, NULL);
    DROP_CMD(duv_run(&loop));
    duv_scheduler_close(&sched);
    DROP_CMD(duv_run(&loop));
    drv_s("DONE"); drv_i(uv_loop_close(&loop)); open_ = false;
}
extern int __lsan_do_recoverable_leak_check(void);
static void op_leak(dstr_t *a, size_t n){ (void)a; (void)n; for(int i = 0; i < 16; i++) drop(i); drv_i(__lsan_do_recoverable_leak_check()); }
int main(void){
    DROP_CMD(ssl_library_init());
    static const drv_op_t ops[] = {
        {"key", op_key}, {"keyinfo", op_keyinfo}, {"authz", op_authz}, {"sign", op_sign}, {"hs", op_hs}, {"jws", op_jws}, {"ajws", op_ajws}, {"b64", op_b64},
        {"verify", op_verify}, {"csr", op_csr}, {"acct", op_acct}, {"acct_to", op_acct_to}, {"acct_from", op_acct_from}, {"free", op_free},
        {"open", op_open}, {"act", op_act}, {"close", op_close}, {"leak", op_leak}, {NULL, NULL},
    };
    return drv_main(ops);
}
