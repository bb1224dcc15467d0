/* The acme_manager_t (libcitm) with its real files, between a model CA, a
   model of the splintermail API, and a virtual clock.  Each life of the
   process is a forked child; the world outlives it in shared memory. */
#include "libcitm/libcitm.h"
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include <openssl/pem.h>
#include <sys/wait.h>
#include "vh.h"
#include "fsfault.h"

#define DOMAIN "yomamma.user.splintermail.com"
#define DAY 86400
enum { A_ACCT, A_NEWORDER, A_GETORDER, A_AUTHZ, A_CHAL, A_FIN, A_PREP, A_UNPREP, A_KEYGEN, A_N };
static const char *aname[] = { "new_account", "new_order", "get_order", "get_authz", "challenge", "finalize", "prepare", "unprepare", "keygen" };

typedef struct {
    int status, chal;       /* acme_status_e */
    time_t valid_at;        /* PROCESSING until then */
    time_t chal_at;         /* the challenge is judged then */
    time_t created;
    bool used;              /* its certificate was downloaded and put in use */
    time_t from, to;        /* of the certificate */
    char cert[3000]; int certlen;
    char pub[200]; int publen;  /* finalized for this key */
} order_t;
#define NORD 2000
typedef struct {
    time_t now;
    int norders; order_t o[NORD];
    char thumb[400][64]; int nthumb; /* accounts */
    int naccts_granted;
    char dns[64]; bool dns_ok;
    uint64_t nonce_seen;
    long lives, crashes, fsfails, readfails, dones, calls, failed, renewals, certs, nulls, keygens, resumed, backoffs, closes, final_ok, prepares, unprepares, statuses, timeouts, init_errors, fatal, invalidated, reused_authz, processing, unprep_retries, in_flight_closes;
    /* of the current life */
    bool graceful, clean_exit;
    char viol[40][700]; int nviol;
    time_t in_use_to; /* expiry of the certificate last put in use */
    bool faults_ever, reads_failed_ever;
    /* carried over lives */
    uint64_t hash;
} world_t;
static world_t *W;
static vh_rng_t *R;

static void viol(const char *key, const char *fmt, ...){
    if(W->nviol >= 40) return;
    va_list ap; va_start(ap, fmt);
    char b[560]; vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    snprintf(W->viol[W->nviol++], 700, "%s %s", key, b);
}
#define V(...) do { if(VH.verbose){ fprintf(stderr, "[%ld] ", (long)W->now); fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\n"); } } while(0)

/* ---- the process ---- */
typedef struct { bool on; time_t at; int ord; int failed; char s[128]; char dom[80]; EVP_PKEY *pk; key_i *key; json_t *json; bool from_valid, from_proc, finish; } act_t;
static struct {
    acme_manager_t am; acme_manager_i iface;
    string_builder_t dir;
    act_t a[A_N];
    time_t t_cert, t_back, t_unprep; bool s_cert, s_back, s_unprep;
    int fail_pct, slow; bool honest; time_t healthy_since;
    SSL_CTX *ctx; time_t ctx_issue, ctx_expiry;
    bool close_called, closed, done, closing;
    int maj, min;
    int nfail; time_t not_before; int nfail_acct;
    int last_order_usable; /* get_order of this attempt found a usable order */
    bool prep_ok; char prep_proof[64];
    bool unprep_ok; time_t unprep_failed;
    bool fs_faulty;
    int dl; bool late;      /* 1 + the order last downloaded; its certificate was due for renewal by then */
} P;

static dstr_t cp(const char *s){ dstr_t d = {0}; if(dstr_copystr(s, &d).type) vh_fatal("nomem"); return d; }
static void ds(char *out, size_t n, const dstr_t d){ size_t l = d.len < n - 1 ? d.len : n - 1; memcpy(out, d.data ? d.data : "", l); out[l] = 0; }
static derr_t err_of(int f){
    derr_t e = E_OK;
    if(f == 1) ORIG(&e, E_CONN, "injected"); else if(f == 2) ORIG(&e, E_SOCK, "injected");
    else if(f == 3) ORIG(&e, E_RESPONSE, "injected"); else if(f == 4) ORIG(&e, E_CANCELED, "canceled");
    return e;
}
static int ord_of(const char *s, const char *pre){
    size_t l = strlen(pre);
    if(strncmp(s, pre, l)) return -1;
    int n = atoi(s + l); return n >= 0 && n < W->norders ? n : -1;
}
static void order_tick(order_t *o){
    if(o->chal == ACME_PROCESSING && W->now >= o->chal_at){ o->chal = ACME_VALID; if(o->status == ACME_PENDING) o->status = ACME_READY; }
    if(o->status == ACME_PROCESSING && W->now >= o->valid_at) o->status = ACME_VALID;
    if((o->status == ACME_PENDING || o->status == ACME_READY) && W->now > o->created + 7*DAY) o->status = ACME_INVALID;
}
static void make_cert(order_t *o, EVP_PKEY *pk){
    EVP_PKEY *cak = EVP_EC_gen("P-256");
    X509 *x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), 7 + (long)(o - W->o));
    time_t from = W->now - (time_t)vh_n(R, 3600), to = from + (time_t)(vh_pct(R, 70) ? 90 : vh_range(R, 7, 47)) * DAY;
    o->from = from; o->to = to;
    ASN1_TIME *t = ASN1_TIME_set(NULL, from); X509_set1_notBefore(x, t); ASN1_TIME_free(t);
    t = ASN1_TIME_set(NULL, to); X509_set1_notAfter(x, t); ASN1_TIME_free(t);
    X509_NAME *n = X509_get_subject_name(x); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char*)DOMAIN, -1, -1, 0);
    X509_set_issuer_name(x, n); X509_set_pubkey(x, pk);
    X509V3_CTX c; X509V3_set_ctx_nodb(&c); X509V3_set_ctx(&c, x, x, NULL, NULL, 0);
    X509_EXTENSION *e = X509V3_EXT_conf_nid(NULL, &c, NID_subject_alt_name, "DNS:" DOMAIN); X509_add_ext(x, e, -1); X509_EXTENSION_free(e);
    if(!X509_sign(x, cak, EVP_sha256())) vh_fatal("sign");
    BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_X509(b, x);
    if(vh_pct(R, 50)){ /* a chain */ PEM_write_bio_X509(b, x); }
    char *p; long l = BIO_get_mem_data(b, &p); if(l > (long)sizeof(o->cert)) vh_fatal("cert size");
    memcpy(o->cert, p, (size_t)l); o->certlen = (int)l;
    BIO_free(b); X509_free(x); EVP_PKEY_free(cak);
    W->certs++;
}

/* ---- monitors of what the manager asks for ---- */
static bool is_acme(int k){ return k <= A_FIN; }
static act_t *begin(int k){
    W->calls++; W->hash = vh_hash(&k, sizeof(k), W->hash);
    V("call %s", aname[k]);
    if(P.closing) viol("call-after-close", "%s was called after the manager was closed", aname[k]);
    if(P.a[k].on) viol("call-twice", "%s was called while the previous call was still in flight", aname[k]);
    if(is_acme(k)) for(int j = 0; j <= A_FIN; j++) if(j != k && P.a[j].on) viol("calls-overlap", "%s was called while %s was in flight", aname[k], aname[j]);
    if(k == A_PREP || k == A_UNPREP) if(P.a[k == A_PREP ? A_UNPREP : A_PREP].on) viol("calls-overlap", "prepare and unprepare at once");
    if(is_acme(k) && W->now < P.not_before) viol("no-backoff", "%s was called %ld s before the pause after failure %d was over", aname[k], (long)(P.not_before - W->now), P.nfail);
    if(P.a[k].pk){ EVP_PKEY_free(P.a[k].pk); }
    P.a[k] = (act_t){ .on = true, .at = W->now + 1 + (time_t)vh_n(R, (uint64_t)P.slow) };
    if(k != A_KEYGEN && vh_pct(R, (unsigned)P.fail_pct)) P.a[k].failed = 1 + (int)vh_n(R, 6);
    return &P.a[k];
}
static time_t m_now(acme_manager_i *i){ (void)i; return W->now; }
static void m_dcert(acme_manager_i *i, time_t t){ (void)i; P.t_cert = t; P.s_cert = true; V("deadline cert %ld", (long)t); }
static void m_dback(acme_manager_i *i, time_t t){ (void)i; P.t_back = t; P.s_back = true; V("deadline backoff %ld", (long)t); }
static void m_dunprep(acme_manager_i *i, time_t t){ (void)i; P.t_unprep = t; P.s_unprep = true; V("deadline unprep %ld", (long)t); }
static void nonce(api_token_t t){
    char b[32]; ds(b, 32, t.secret);
    if(t.key != 777 || strcmp(b, "shhh")) viol("wrong-token", "API called with token %u %s", t.key, b);
    if(t.nonce <= W->nonce_seen) viol("nonce-reused", "API called with nonce %llu after %llu", (unsigned long long)t.nonce, (unsigned long long)W->nonce_seen);
    W->nonce_seen = t.nonce;
}
static void m_prepare(acme_manager_i *i, api_token_t t, json_t *json, dstr_t proof){
    (void)i; act_t *a = begin(A_PREP); nonce(t); a->json = json; ds(a->s, 64, proof); W->prepares++; P.unprep_ok = false;
}
static void m_unprepare(acme_manager_i *i, api_token_t t, json_t *json){
    (void)i; act_t *a = begin(A_UNPREP); nonce(t); a->json = json; W->unprepares++;
    if(P.unprep_failed){ W->unprep_retries++; if(W->now < P.unprep_failed + 600) viol("no-backoff", "unprepare repeated %ld s after it failed", (long)(W->now - P.unprep_failed)); P.unprep_failed = 0; }
}
static derr_t m_keygen(acme_manager_i *i, string_builder_t path){
    (void)i; begin(A_KEYGEN); W->keygens++;
    DSTR_VAR(b, 600); derr_t e = FMT(&b, "%x", FSB(path)); DROP_VAR(&e);
    if(b.len < 11 || memcmp(b.data + b.len - 11, "/keynew.pem", 11)) viol("keygen-path", "%.*s", (int)b.len, b.data);
    if(vh_pct(R, 20)) P.a[A_KEYGEN].at += (time_t)vh_n(R, 300);
    return E_OK;
}
static void m_new_account(acme_manager_i *i, key_i **k, const dstr_t email){
    (void)i; act_t *a = begin(A_ACCT); a->key = *k; *k = NULL;
    char b[64]; ds(b, 64, email); if(strcmp(b, "me@yo.com")) viol("wrong-email", "%s", b);
}
static void chk_acct(const acme_account_t ac){
    DSTR_VAR(bin, 64); DSTR_VAR(t, 128); derr_t e = E_OK;
    PROP_GO(&e, jwk_thumbprint(ac.key, &bin), bad); PROP_GO(&e, bin2b64url(bin, &t), bad);
    char kid[64], s[64], want[80]; ds(kid, 64, ac.kid); ds(s, 64, t);
    int n = atoi(kid + 3);
    snprintf(want, 80, "kid%d", n);
    if(strncmp(kid, "kid", 3) || n < 0 || n >= W->nthumb || strcmp(kid, want) || strcmp(W->thumb[n], s)) viol("wrong-account", "call with account %s and key %s", kid, s);
bad: DROP_VAR(&e);
}
static void m_new_order(acme_manager_i *i, const acme_account_t ac, const dstr_t domain){
    (void)i; begin(A_NEWORDER); chk_acct(ac);
    char b[80]; ds(b, 80, domain); if(strcmp(b, DOMAIN)) viol("wrong-domain", "new_order(%s)", b);
    if(P.last_order_usable) viol("order-abandoned", "a new order although the saved one could be finished (status %d)", P.last_order_usable);
}
static act_t *with_order(int k, const dstr_t d, const char *pre){
    act_t *a = begin(k); char b[128]; ds(b, 128, d); snprintf(a->s, 128, "%s", b);
    a->ord = ord_of(b, pre);
    if(a->ord < 0) viol("wrong-object", "%s for %s", aname[k], b);
    else if(k != A_GETORDER && a->ord != W->norders - 1){ /* an older order may only be one which was resumed */ }
    return a;
}
static void m_get_order(acme_manager_i *i, const acme_account_t ac, const dstr_t order){ (void)i; with_order(A_GETORDER, order, "order"); chk_acct(ac); P.last_order_usable = 0; }
static void m_get_authz(acme_manager_i *i, const acme_account_t ac, const dstr_t az){ (void)i; with_order(A_AUTHZ, az, "authz"); chk_acct(ac); }
static void m_challenge(acme_manager_i *i, const acme_account_t ac, const dstr_t az, const dstr_t ch){
    (void)i; act_t *a = with_order(A_CHAL, az, "authz"); chk_acct(ac);
    char b[64], w[64]; ds(b, 64, ch); snprintf(w, 64, "chal%d", a->ord);
    if(strcmp(b, w)) viol("wrong-object", "challenge %s of authorization %s", b, a->s);
    snprintf(w, 64, "proof%d", a->ord);
    if(!P.prep_ok || strcmp(P.prep_proof, w)) viol("challenge-unprepared", "the challenge of %s was started though its proof was not confirmed to be in the DNS (prepared: %s)", a->s, P.prep_ok ? P.prep_proof : "nothing");
}
static void m_challenge_finish(acme_manager_i *i, const acme_account_t ac, const dstr_t az, time_t ra){ (void)i; act_t *a = with_order(A_CHAL, az, "authz"); chk_acct(ac); a->finish = true; if(ra < 0) viol("retry-after", "%ld", (long)ra); }
static void m_finalize(acme_manager_i *i, const acme_account_t ac, const dstr_t order, const dstr_t fin, const dstr_t domain, EVP_PKEY *pk){
    (void)i; act_t *a = with_order(A_FIN, order, "order"); chk_acct(ac);
    char b[80], w[80]; ds(b, 80, fin); snprintf(w, 80, "fin%d", a->ord);
    if(strcmp(b, w)) viol("wrong-object", "finalize %s of %s", b, a->s);
    ds(b, 80, domain); if(strcmp(b, DOMAIN)) viol("wrong-domain", "finalize(%s)", b);
    if(!pk) viol("no-key", "finalize without a key"); else { EVP_PKEY_up_ref(pk); a->pk = pk; }
}
static void m_fin_proc(acme_manager_i *i, const acme_account_t ac, const dstr_t order, time_t ra){ (void)i; act_t *a = with_order(A_FIN, order, "order"); chk_acct(ac); a->from_proc = true; (void)ra; }
static void m_fin_valid(acme_manager_i *i, const acme_account_t ac, const dstr_t cu){ (void)i; act_t *a = with_order(A_FIN, cu, "cert"); chk_acct(ac); a->from_valid = true; }
static void m_close(acme_manager_i *i){ (void)i; V("close"); if(P.close_called) viol("closed-twice", ""); P.close_called = true; }

static void take_ctx(SSL_CTX *c, const char *where){
    SSL_CTX_free(P.ctx); P.ctx = c;
    if(!c) return;
    X509 *x = SSL_CTX_get0_certificate(c);
    if(!x){ viol("no-certificate", "%s: context without certificate", where); return; }
    if(SSL_CTX_check_private_key(c) != 1) viol("key-mismatch", "%s: the certificate and its key do not belong together", where);
    if(X509_check_host(x, DOMAIN, 0, 0, NULL) != 1) viol("wrong-name", "%s: certificate for another name", where);
    struct tm tm; ASN1_TIME_to_tm(X509_get0_notBefore(x), &tm); P.ctx_issue = timegm(&tm);
    ASN1_TIME_to_tm(X509_get0_notAfter(x), &tm); P.ctx_expiry = timegm(&tm);
    W->in_use_to = P.ctx_expiry;
    if(W->now >= P.ctx_expiry) viol(P.late && !strcmp(where, "update") ? "late-order-fatal" : "expired-certificate", "%s: a certificate which expired %ld s ago was put in use", where, (long)(W->now - P.ctx_expiry));
}
static void st_check(int maj){
    bool act = P.ctx != NULL;
    if((maj == STATUS_MAJ_TLS_GOOD || maj == STATUS_MAJ_TLS_RENEW) != act) viol("status-wrong", "status %d while %s certificate is in use", maj, act ? "a" : "no");
}
static void cb_status(void *d, status_maj_e maj, status_min_e min, dstr_t fd){
    (void)d; W->statuses++; V("status %d %d", (int)maj, (int)min);
    if(P.closing) viol("call-after-close", "status_cb");
    char b[80]; ds(b, 80, fd); if(strcmp(b, DOMAIN)) viol("wrong-domain", "status for %s", b);
    if((int)maj == P.maj && (int)min == P.min) viol("status-repeated", "%d %d", (int)maj, (int)min);
    P.maj = (int)maj; P.min = (int)min; st_check(P.maj);
}
static void cb_update(void *d, SSL_CTX *c){
    (void)d; V("update %s", c ? "cert" : "none");
    if(P.closing) viol("call-after-close", "update_cb");
    if(!c){
        W->nulls++;
        if(!P.ctx) viol("update-repeated", "no certificate, again");
        else if(W->now < P.ctx_expiry) viol("dropped-early", "the certificate was dropped %ld s before it expires", (long)(P.ctx_expiry - W->now));
        if(P.ctx && P.healthy_since && P.ctx_expiry - P.healthy_since > 5*DAY && (P.ctx_expiry - P.ctx_issue) / 3 > 4*DAY && W->now - P.healthy_since > 5*DAY) viol("certificate-lapsed", "the certificate ran out though all services worked for %ld days", (long)(W->now - P.healthy_since)/DAY);
    }else{
        W->renewals++; P.nfail = 0; P.not_before = 0; P.last_order_usable = 0;
        if(P.dl) W->o[P.dl - 1].used = true;
    }
    take_ctx(c, "update");
}
static void cb_done(void *d, derr_t err){
    (void)d; V("done %s", error_to_dstr(err.type).data);
    if(P.done) viol("done-twice", "");
    P.done = true; W->dones++;
    if(!P.closed) viol("done-early", "done before the resources were closed");
    if(err.type != E_CANCELED){
        W->fatal++;
        if(!P.fs_faulty && !W->reads_failed_ever){ DSTR_VAR(b, 400); derr_t e = FMT(&b, "%x: %x", FD(error_to_dstr(err.type)), FD(err.msg)); DROP_VAR(&e); viol(P.late && err.type == E_INTERNAL ? "late-order-fatal" : "gave-up", "the manager gave up though no file operation failed: %.*s", (int)b.len, b.data); }
    }else if(!P.closing) viol("canceled-unasked", "");
    DROP_VAR(&err);
}

/* ---- answers ---- */
static bool eff(act_t *a){ return a->failed == 0 || a->failed > 3; } /* did it take effect at the other side? */
static int etype(act_t *a){ return a->failed ? 1 + (a->failed - 1) % 3 : 0; }
static void failed_attempt(void){
    static const int d[] = { 15, 30, 60, 300, 900, 1800 };
    P.nfail++; W->backoffs++;
    P.not_before = W->now + d[P.nfail > 6 ? 5 : P.nfail - 1];
    P.last_order_usable = 0; P.prep_ok = false;
}
static void fill(json_t *j, const char *s){ DSTR_VAR(b, 512); derr_t e = dstr_append(&b, &(dstr_t){ .data = (char*)(uintptr_t)s, .len = strlen(s) }); if(!is_error(e)) e = json_parse(b, j); if(is_error(e)) vh_fatal("json"); }
static void answer(int k){
    act_t a = P.a[k]; P.a[k] = (act_t){0};
    if(P.close_called && k != A_KEYGEN) a.failed = 7; /* canceled */
    order_t *o = a.ord >= 0 && a.ord < W->norders ? &W->o[a.ord] : &W->o[0];
    for(int i = 0; i < W->norders; i++) order_tick(&W->o[i]);
    int et = a.failed == 7 ? 4 : etype(&a);
    if(a.failed) W->failed++;
    V("answer %s fail=%d", aname[k], a.failed);
    bool okeff = a.failed == 7 ? vh_pct(R, 50) : eff(&a);
    switch(k){
    case A_ACCT: {
        if(et == 3) et = 1; /* only network trouble is survivable here */
        char t[64] = ""; int n = -1;
        DSTR_VAR(bin, 64); DSTR_VAR(tb, 128); DROP_CMD( jwk_thumbprint(a.key, &bin) ); DROP_CMD( bin2b64url(bin, &tb) ); ds(t, 64, tb);
        for(int i = 0; i < W->nthumb; i++) if(!strcmp(W->thumb[i], t)) n = i;
        if(n < 0 && okeff){
            if(W->nthumb == 400) W->nthumb = 399;
            if(W->nthumb && !W->reads_failed_ever && !W->fsfails) viol("account-repeated", "a second account with another key");
            n = W->nthumb++; snprintf(W->thumb[n], 64, "%s", t); }
        if(et){
            a.key->free(a.key);
            if(et != 4){ static const int d[] = { 1, 5, 15, 30, 45, 60 }; P.nfail_acct++; P.not_before = W->now + d[P.nfail_acct > 6 ? 5 : P.nfail_acct - 1]; }
            am_new_account_done(&P.am, err_of(et), (acme_account_t){0});
        }else{ char kid[16]; snprintf(kid, 16, "kid%d", n); P.not_before = 0; P.nfail_acct = 0; W->naccts_granted++; am_new_account_done(&P.am, E_OK, (acme_account_t){ .key = a.key, .kid = cp(kid) }); }
        break; }
    case A_NEWORDER: {
        int n = -1;
        if(okeff){
            if(W->norders == NORD){ memset(W->o, 0, sizeof(W->o)); vh_fatal("orders"); }
            n = W->norders++; W->o[n] = (order_t){ .status = ACME_PENDING, .chal = ACME_PENDING, .created = W->now };
            if(vh_pct(R, 10)){ W->o[n].chal = ACME_VALID; W->o[n].status = ACME_READY; W->reused_authz++; }
        }
        if(et){ if(et != 4) failed_attempt(); am_new_order_done(&P.am, err_of(et), (dstr_t){0}, (dstr_t){0}, (dstr_t){0}, (dstr_t){0}); }
        else { char b[4][20]; snprintf(b[0], 20, "order%d", n); snprintf(b[1], 20, "authz%d", n); snprintf(b[2], 20, "fin%d", n); am_new_order_done(&P.am, E_OK, cp(b[0]), cp("2099-01-01T00:00:00Z"), cp(b[1]), cp(b[2])); }
        break; }
    case A_GETORDER: {
        if(et){ am_get_order_done(&P.am, err_of(et), ACME_INVALID, (dstr_t){0}, (dstr_t){0}, (dstr_t){0}, (dstr_t){0}, (dstr_t){0}, 0); break; }
        char b[4][20]; snprintf(b[1], 20, "authz%d", a.ord); snprintf(b[2], 20, "fin%d", a.ord); snprintf(b[3], 20, "cert%d", a.ord);
        if(o->status >= ACME_PENDING){ P.last_order_usable = o->status; W->resumed++; }
        am_get_order_done(&P.am, E_OK, (acme_status_e)o->status, cp(DOMAIN), cp("2099-01-01T00:00:00Z"), cp(b[1]), cp(b[2]), o->status == ACME_VALID ? cp(b[3]) : (dstr_t){0}, o->status == ACME_PROCESSING ? W->now + 3 : 0);
        break; }
    case A_AUTHZ: {
        if(et){ if(et != 4) failed_attempt(); am_get_authz_done(&P.am, err_of(et), ACME_INVALID, ACME_INVALID, (dstr_t){0}, (dstr_t){0}, (dstr_t){0}, (dstr_t){0}, 0); break; }
        char b[2][20]; snprintf(b[0], 20, "chal%d", a.ord); snprintf(b[1], 20, "proof%d", a.ord);
        if(o->chal != ACME_PENDING && o->chal != ACME_PROCESSING && o->chal != ACME_VALID) failed_attempt();
        am_get_authz_done(&P.am, E_OK, (acme_status_e)(o->chal == ACME_PROCESSING ? ACME_PENDING : o->chal), (acme_status_e)o->chal, cp(DOMAIN), cp("2099-01-01T00:00:00Z"), cp(b[0]), cp(b[1]), o->chal == ACME_PROCESSING ? W->now + 2 : 0);
        break; }
    case A_CHAL: {
        if(!a.finish && okeff && o->chal == ACME_PENDING){
            char w[64]; snprintf(w, 64, "proof%d", a.ord);
            bool good = W->dns_ok && !strcmp(W->dns, w);
            if(!good || (P.fail_pct && vh_pct(R, 10))){ o->chal = ACME_INVALID; o->status = ACME_INVALID; W->invalidated++; }
            else if(et && vh_pct(R, 50)){ o->chal = ACME_PROCESSING; o->chal_at = W->now + 1 + (time_t)vh_n(R, 100); W->processing++; }
            else { o->chal = ACME_VALID; o->status = ACME_READY; }
        }
        if(!et && a.finish){ if(o->chal == ACME_PROCESSING){ o->chal_at = 0; order_tick(o); } }
        if(!et && o->chal != ACME_VALID) et = 3;
        if(et && et != 4) failed_attempt();
        am_challenge_done(&P.am, err_of(et));
        break; }
    case A_FIN: {
        if(!a.from_valid && !a.from_proc){
            if(okeff && o->status == ACME_READY && a.pk){
                make_cert(o, a.pk); o->status = ACME_VALID;
                if(et && vh_pct(R, 50)){ o->status = ACME_PROCESSING; o->valid_at = W->now + 1 + (time_t)vh_n(R, 100); W->processing++; }
            }
        }else if(a.from_proc && o->status == ACME_PROCESSING && !et){ o->valid_at = 0; order_tick(o); }
        EVP_PKEY_free(a.pk);
        if(!et && o->status != ACME_VALID) et = 3;
        if(et){ if(et != 4) failed_attempt(); am_finalize_done(&P.am, err_of(et), (dstr_t){0}); }
        else { dstr_t d = {0}; if(dstr_copy(&(dstr_t){ .data = o->cert, .len = (size_t)o->certlen, .size = sizeof(o->cert), .fixed_size = true }, &d).type) vh_fatal("nomem");
            if(o->used && W->now > o->created + 30*DAY) viol("order-reused", "the certificate of an order which is %ld days old was fetched again", (long)(W->now - o->created)/DAY);
            P.dl = 1 + (int)(o - W->o); P.late = W->now + 3*DAY >= o->from + (o->to - o->from) / 3 * 2;
            am_finalize_done(&P.am, E_OK, d); }
        break; }
    case A_PREP: {
        bool to = !et && vh_pct(R, 20);
        if(to) W->timeouts++;
        if(okeff){ snprintf(W->dns, 64, "%s", a.s); W->dns_ok = !to || vh_pct(R, 50); }
        bool apierr = et == 3 && vh_pct(R, 50);
        if(apierr){ fill(a.json, "{\"status\":\"error\",\"contents\":\"nope\"}"); et = 0; }
        else if(!et) fill(a.json, to ? "{\"status\":\"success\",\"contents\":{\"result\":\"timeout\"}}" : "{\"status\":\"success\",\"contents\":{\"result\":\"ok\"}}");
        if((et && et != 4) || apierr) failed_attempt();
        else if(!et && !to){ P.prep_ok = true; snprintf(P.prep_proof, 64, "%s", a.s); }
        am_prepare_done(&P.am, err_of(et), a.json);
        break; }
    case A_UNPREP: {
        if(okeff){ W->dns[0] = 0; W->dns_ok = false; }
        bool apierr = et == 3 && vh_pct(R, 50);
        if(apierr){ fill(a.json, "{\"status\":\"error\",\"contents\":\"nope\"}"); et = 0; }
        else if(!et) fill(a.json, "{\"status\":\"success\",\"contents\":\"ok\"}");
        if((et && et != 4) || apierr) P.unprep_failed = W->now; else if(!et) P.unprep_ok = true;
        am_unprepare_done(&P.am, err_of(et), a.json);
        break; }
    case A_KEYGEN: {
        string_builder_t path = sb_append(&P.dir, SBS("keynew.pem"));
        derr_t e = E_OK; bool ok = false; EVP_PKEY *pk = NULL;
        PROP_GO(&e, exists_path(&path, &ok), kd);
        if(!ok){
            /* as gen_key_path would, but faster */
            EVP_PKEY *n = EVP_EC_gen("P-256"); BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, n, NULL, NULL, 0, NULL, NULL);
            char *p; long l = BIO_get_mem_data(b, &p);
            dstr_t d = { .data = p, .len = (size_t)l, .size = (size_t)l, .fixed_size = true };
            derr_t e2 = dstr_write_path(&path, &d);
            BIO_free(b); EVP_PKEY_free(n);
            PROP_VAR_GO(&e, &e2, kd);
        }
        PROP_GO(&e, keygen_or_load(path, &pk), kd);
    kd:
        am_keygen_done(&P.am, e, pk);
        break; }
    }
}
static bool next_event(time_t *t, int *what){
    bool any = false;
    #define CAND(tt, w) do { if(!any || (tt) < *t){ any = true; *t = (tt); *what = (w); } } while(0)
    for(int k = 0; k < A_N; k++) if(P.a[k].on) CAND(P.a[k].at, k);
    if(P.s_cert) CAND(P.t_cert, 100); if(P.s_back) CAND(P.t_back, 101); if(P.s_unprep) CAND(P.t_unprep, 102);
    return any;
}
static void after_step(void){
    if(P.done) return;
    if(P.ctx && !P.closing && !P.close_called && W->now >= P.ctx_expiry + 1 && !(P.s_cert && P.t_cert <= W->now)) viol("expired-in-use", "a certificate is in use %ld s after it expired", (long)(W->now - P.ctx_expiry));
}
/* one life of the process; returns at its graceful end */
static void life(time_t until, bool graceful, long kill_at, bool final){
    P.iface = (acme_manager_i){ .now = m_now, .deadline_cert = m_dcert, .deadline_backoff = m_dback, .deadline_unprepare = m_dunprep, .prepare = m_prepare, .unprepare = m_unprepare, .keygen = m_keygen,
        .new_account = m_new_account, .new_order = m_new_order, .get_order = m_get_order, .get_authz = m_get_authz, .challenge = m_challenge, .challenge_finish = m_challenge_finish,
        .finalize = m_finalize, .finalize_from_processing = m_fin_proc, .finalize_from_valid = m_fin_valid, .close = m_close };
    SSL_CTX *c; status_maj_e maj; status_min_e min; dstr_t fd;
    derr_t e = acme_manager_init(&P.am, &P.iface, P.dir, cb_status, cb_update, cb_done, NULL, &c, &maj, &min, &fd);
    if(is_error(e)){
        W->init_errors++;
        if(W->reads_failed_ever) P.done = true; else if(!P.fs_faulty){ DSTR_VAR(b, 500); derr_t e2 = FMT(&b, "%x: %x", FD(error_to_dstr(e.type)), FD(e.msg)); DROP_VAR(&e2); viol("start-failed", "the manager did not start though no file operation fails: %.*s", (int)b.len, b.data); }
        DROP_VAR(&e); return;
    }
    V("init maj=%d min=%d ctx=%d", (int)maj, (int)min, c != NULL);
    P.maj = (int)maj; P.min = (int)min;
    take_ctx(c, "start"); st_check(P.maj);
    am_advance_state(&P.am);
    long step = 0;
    while(!P.done){
        after_step();
        if(++step == kill_at){ V("killed"); _exit(77); }
        if(step > 60000){ viol("busy", "no rest after 60000 steps"); _exit(77); }
        if(P.close_called && !P.closed){
            /* cancel everything, wait for the key generation */
            for(int k = 0; k < A_N; k++) if(P.a[k].on){ W->in_flight_closes++; answer(k); }
            P.closed = true; am_close_done(&P.am);
            am_advance_state(&P.am);
            if(!P.done){ viol("never-done", "closed but not done"); return; }
            break;
        }
        time_t t; int what;
        bool any = next_event(&t, &what);
        if(!P.closing && (!any || t > until)){
            if(!any && !final) { }
            if(!any) viol("stuck", "nothing is in flight and no timer is set (status %d %d)", P.maj, P.min);
            if(until > W->now) W->now = until;
            if(final) return;
            if(!graceful){ V("killed"); _exit(77); }
            W->closes++; am_close(&P.am); P.closing = true; am_advance_state(&P.am);
            if(!P.close_called && !P.done) viol("not-closing", "");
            continue;
        }
        if(P.closing && !P.close_called) { viol("not-closing", ""); return; }
        if(t > W->now) W->now = t;
        if(what == 100) P.s_cert = false; else if(what == 101) P.s_back = false; else if(what == 102) P.s_unprep = false; else answer(what);
        am_advance_state(&P.am);
        if(vh_pct(R, 3)){ am_check(&P.am); am_advance_state(&P.am); }
    }
}
static void child(uint64_t seed, time_t until, bool graceful, long kill_at, bool final, int mode, long at, int fail_pct, bool no_inst){
    vh_rng_t r = { seed }; R = &r;
    memset(&P, 0, sizeof(P));
    static string_builder_t base; base = SBS(fs_root); P.dir = base;
    P.fail_pct = fail_pct; P.slow = 1 + (int)vh_n(R, 30);
    if(!fail_pct) P.healthy_since = W->now;
    if(no_inst){ /* configured later */ }
    fs_mode = mode; fs_at = at; fs_ops = fs_rops = 0; P.fs_faulty = mode >= 3;
    life(until, graceful, kill_at, final);
    if(final && !P.done){ /* (what gave up has been reported) */
        fs_mode = 0;
        if(!P.ctx) viol("no-certificate", "no certificate after days with everything working (status %d %d)", P.maj, P.min);
        else if(P.maj != STATUS_MAJ_TLS_GOOD && W->now < P.ctx_issue + (P.ctx_expiry - P.ctx_issue) * 2 / 3) viol("status-wrong", "status %d with a fresh certificate", P.maj);
        else if(W->now > P.ctx_issue + (P.ctx_expiry - P.ctx_issue) * 2 / 3 + DAY) viol("renewal-late", "not renewed %ld days after it was due", (long)(W->now - (P.ctx_issue + (P.ctx_expiry - P.ctx_issue) * 2 / 3))/DAY);
        if(W->dns[0] && !P.a[A_PREP].on && P.maj == STATUS_MAJ_TLS_GOOD) viol("challenge-left", "the DNS still holds %s", W->dns);
        W->final_ok++;
        if(VH.nviols == 0 && vh_pct(R, 50)){ am_close(&P.am); P.closing = true; am_advance_state(&P.am);
            for(int k = 0; k < A_N; k++) if(P.a[k].on) answer(k);
            P.closed = true; am_close_done(&P.am); am_advance_state(&P.am); if(!P.done) viol("never-done", ""); SSL_CTX_free(P.ctx); P.ctx = NULL; }
    }
    _exit(fs_mode >= 3 && fs_what[0] ? 78 : 0);
}
static void one(vh_rng_t *r, uint64_t i){
    (void)i; R = r;
    memset(W, 0, sizeof(*W)); W->now = 1700000000 + (time_t)vh_n(r, 100000000);
    snprintf(fs_root, sizeof(fs_root), "%s/acme", VH.tmp);
    string_builder_t base = SBS(fs_root);
    DROP_CMD( rm_rf_path(&base) );
    DROP_CMD( mkdirs_path(&base, 0700) );
    const char *inst = "{\"email\":\"me@yo.com\",\"secret\":\"shhh\",\"subdomain\":\"yomamma\",\"token\":777}";
    char ip[4200]; snprintf(ip, sizeof(ip), "%s/installation.json", fs_root);
    bool late = vh_pct(r, 10);
    if(!late){ FILE *f = fopen(ip, "w"); fputs(inst, f); fclose(f); }
    int nlives = (int)vh_n(r, 6);
    for(int l = 0; l <= nlives; l++){
        bool final = l == nlives;
        if(late && (final || vh_pct(r, 50))){ late = false; FILE *f = fopen(ip, "w"); fputs(inst, f); fclose(f); }
        time_t dur = final ? 2*DAY + (time_t)vh_n(r, 200*DAY) : vh_pct(r, 50) ? (time_t)vh_n(r, 3600) : (time_t)vh_n(r, 100*DAY);
        int mode = 0; long at = 0, kill_at = 0;
        if(!final){
            if(vh_pct(r, 50)){ mode = 1 + (int)vh_n(r, 2); at = 1 + (long)vh_n(r, 60); }
            else if(vh_pct(r, 15)){ mode = vh_pct(r, 50) ? 3 : 4; at = 1 + (long)vh_n(r, 60); }
            else if(vh_pct(r, 8)){ mode = 6 + (int)vh_n(r, 2); at = 1 + (long)vh_n(r, 60); W->reads_failed_ever = true; }
            if(vh_pct(r, 50)) kill_at = 1 + (long)vh_n(r, 30);
        }
        if(mode >= 3) W->fsfails++;
        bool near = W->in_use_to > W->now && W->in_use_to < W->now + 8*DAY;
        int fp = final ? 0 : near && vh_pct(r, 60) ? 100 : vh_pct(r, 40) ? 0 : vh_pct(r, 85) ? (int)vh_n(r, 50) : 100;
        bool graceful = vh_pct(r, 40);
        if(fp >= 40 && dur > 8*DAY) dur = dur % (8*DAY);
        if(late) dur %= 7200;
        uint64_t seed = vh_u64(r);
        fflush(VH.fstats); fflush(stderr);
        W->lives++;
        V("---- life %d of %d: %ld s, fail %d%%, fs mode %d at %ld, kill at %ld, final %d", l, nlives, (long)dur, fp, mode, at, kill_at, final);
        pid_t p = fork();
        if(p < 0) vh_fatal("fork");
        if(!p){ vh_arm(0); alarm(15); child(seed, W->now + dur, graceful, kill_at, final, mode, at, fp, late); }
        int st; while(waitpid(p, &st, 0) < 0 && errno == EINTR);
        if(WIFEXITED(st) && WEXITSTATUS(st) == 77) W->crashes++;
        else if(WIFSIGNALED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 78)){
            /* a sanitizer report or an abort: its text is on our stderr */
            vh_flush(); _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 97);
        }
        if(!final && W->in_use_to > W->now + DAY && vh_pct(r, 15)) W->now = W->in_use_to - 1 - (time_t)vh_n(r, 7*DAY < W->in_use_to - W->now ? 7*DAY : W->in_use_to - W->now);
        else if(!final && vh_pct(r, 30)) W->now += (time_t)vh_n(r, 100*DAY);
        if(W->nviol) break;
    }
    for(int v = 0; v < W->nviol; v++){ char *s = strchr(W->viol[v], ' '); *s = 0; vh_violation(W->viol[v], "%s", s + 1); }
    #define C(x) vh_count_n(#x, W->x)
    C(lives); C(crashes); C(fsfails); C(dones); C(calls); C(failed); C(renewals); C(certs); C(nulls); C(keygens); C(resumed); C(backoffs); C(closes); C(final_ok); C(prepares); C(unprepares);
    C(statuses); C(timeouts); C(init_errors); C(fatal); C(invalidated); C(reused_authz); C(processing); C(unprep_retries); C(in_flight_closes); C(naccts_granted);
    vh_distinct(W->hash);
}
int main(int argc, char **argv){
    vh_init(argc, argv);
    if(!VH.tmp) VH.tmp = "/tmp/h_acmemgr";
    mkdir(VH.tmp, 0700);
    W = mmap(NULL, sizeof(*W), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if(W == MAP_FAILED) vh_fatal("mmap");
    derr_t e = ssl_library_init(); if(is_error(e)) vh_fatal("ssl");
    if(VH.verbose) logger_add_fileptr(LOG_LVL_INFO, stderr);
    return vh_main(argc, argv, "h_acmemgr", one);
}
