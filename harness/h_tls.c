/* TLS streams: two of them back to back, or one against OpenSSL itself, over
   bases which deliver in any legal way, are cut short, altered, or fail. */
#include "mstream.h"
#include "libcrypto/libcrypto.h"
#include "libduvtls/libduvtls.h"
#include "certgen.h"

static SSL_CTX *CCTX, *SCTX, *CCTX12, *SCTX12, *RC, *RS;
static void setup(void){
    EVP_PKEY *cak = cg_key(0), *k = cg_key(0);
    X509 *ca = cg_make((cg_t){.cn = "test ca", .key = cak, .from = -CG_DAY, .to = 9*CG_DAY, .ca = 1, .pathlen = -1});
    X509 *x = cg_make((cg_t){.cn = "x", .san = "DNS:localhost", .issuer = ca, .issuer_key = cak, .key = k, .from = -CG_DAY, .to = 9*CG_DAY, .pathlen = -1});
    BIO *c = BIO_new(BIO_s_mem()), *kb = BIO_new(BIO_s_mem()); cg_pem(c, x); cg_keypem(kb, k);
    for(int i = 0; i < 2; i++){
        ssl_context_t s = {0}, cl = {0};
        derr_t e = ssl_context_new_server_pem(&s, cg_dstr(c), cg_dstr(kb)); if(is_error(e)) vh_fatal("server context");
        e = ssl_context_new_client_ex(&cl, false, NULL, 0); if(is_error(e)) vh_fatal("client context");
        X509_STORE_add_cert(SSL_CTX_get_cert_store(cl.ctx), ca);
        if(i){ SSL_CTX_set_max_proto_version(cl.ctx, TLS1_2_VERSION); SCTX12 = s.ctx; CCTX12 = cl.ctx; } else { SCTX = s.ctx; CCTX = cl.ctx; }
    }
    RC = SSL_CTX_new(TLS_client_method()); RS = SSL_CTX_new(TLS_server_method());
    SSL_CTX_use_certificate(RS, x); SSL_CTX_use_PrivateKey(RS, k);
    SSL_CTX_set_verify(RC, SSL_VERIFY_NONE, NULL);
    SSL_CTX_set_mode(RC, SSL_MODE_ENABLE_PARTIAL_WRITE|SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER); SSL_CTX_set_mode(RS, SSL_MODE_ENABLE_PARTIAL_WRITE|SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
    BIO_free(c); BIO_free(kb); X509_free(ca); X509_free(x); EVP_PKEY_free(cak); EVP_PKEY_free(k);
}

typedef struct { const char *name; mb_t *b; duv_tls_t *t; stream_i *s; mc_t *c; mq_t sent; manual_scheduler_t m; bool first_set; int first; stream_read_t pre; char prebuf[8]; } side_t;
static side_t SD[2]; static mq_t Q[2]; /* Q[0]: client to server */
static bool lazy, mangled, cut, berr;
static bool reneg; /* OpenSSL itself refuses to shut down in the middle of one */

static void mc_act(mc_t *c, bool in_cb){
    (void)in_cb;
    if(lazy || c->awaited) return;
    if((int)vh_n(G, 100) < c->p_more) mc_read(c);
    if(vh_pct(G, 10)) mc_write(c, vh_pct(G, 80) ? 200 : 40000);
    if(vh_n(G, 1000) < (unsigned)c->p_cancel){ mc_cancel(c); vh_count("cancels_in_callbacks"); }
    if(!c->await_set && vh_pct(G, 3)) mc_await(c);
    if(vh_n(G, 1000) < 5 && !c->s->is_shutdown) mc_shutdown(c);
}
/* a write is only done once the stream below has taken all of it */
static void write_done(mc_t *c){
    side_t *d = c->data;
    if(d->t->handshake_done) vh_count("write_callbacks_checked");
    if(!link_list_isempty(&d->b->writes)) viol("write-early", "%s: a write is called done while its bytes are still being written", c->name);
}
/* whoever used the base before must not be given what is not his */
static void first_await_cb(stream_i *s, derr_t e, link_t *reads, link_t *writes){
    side_t *d = s->data; d->first++;
    if(!link_list_isempty(reads) || !link_list_isempty(writes)) viol("foreign-returned", "%s: reads or writes of the TLS stream are passed to the former user of its base", d->name);
    if(d->first > 1) viol("await-twice", "%s: the former user of the base is awaited twice", d->name);
    DROP_VAR(&e);
}
static void side_init(side_t *d, const char *name, bool client, SSL_CTX *ctx, mq_t *in, mq_t *out, side_t *peer, mq_t *peersent){
    (void)peer;
    *d = (side_t){.name = name};
    d->b = mb_new(client ? "client base" : "server base", true, in, out); d->b->close_out = true;
    d->b->s.data = d; d->t = xalloc(sizeof(*d->t));
    if(vh_pct(G, 20)){ d->first_set = true; d->b->s.await(&d->b->s, first_await_cb); }
    scheduler_i *sc = manual_scheduler(&d->m); derr_t e;
    dstr_t name_ = dstr_from_cstr("localhost");
    if(client) e = duv_tls_wrap_client(d->t, ctx, name_, sc, &d->b->s, &d->s);
    else {
        /* the start of the client's bytes may have been read before */
        size_t n = in->len > in->rd && vh_pct(G, 70) ? vh_n(G, in->len - in->rd + 1) : 0;
        if(n) vh_count("preinputs");
        char *p = xalloc(n); if(n) memcpy(p, in->b + in->rd, n);
        in->rd += n;
        e = duv_tls_wrap_server(d->t, ctx, sc, &d->b->s, (dstr_t){.data = p, .len = n, .size = n, .fixed_size = true}, &d->s);
        if(n) memset(p, 0xEE, n);
    }
    if(is_error(e)){ viol("wrap", "wrapping a fresh stream fails"); DROP_VAR(&e); return; }
    d->c = mc_new(name, NULL, d->s); d->c->data = d; d->c->on_write = write_done;
    d->c->sent = &d->sent; d->c->expp = (const char *const*)&peersent->b; d->c->explen = &peersent->len; d->c->expeof = &peersent->closed;
    if(vh_pct(G, 20)) d->c->p_cancel = (int)vh_n(G, 15);
    if(vh_pct(G, 60)) mc_await(d->c);
}
static bool side_step(side_t *d, bool forced){
    bool x = false; unsigned long p = PROGRESS;
    if(!d->c) return false;
    manual_scheduler_run(&d->m); x = PROGRESS != p;
    if(V_OK && mb_tick(d->b, forced)) x = true;
    return x;
}
static void side_act(side_t *d){
    mc_t *c = d->c;
    switch(vh_n(G, 12)){
        case 0: case 1: mc_read(c); break;
        case 2: case 3: mc_write(c, vh_pct(G, 70) ? 300 : 60000); break;
        case 4: if(vh_pct(G, 4) && !c->s->is_shutdown) mc_shutdown(c); break;
        case 5: if(vh_n(G, 1000) < (unsigned)c->p_cancel) mc_cancel(c); break;
        case 6: if(!c->await_set && vh_pct(G, 5)) mc_await(c); break;
        case 7: manual_scheduler_run(&d->m); break;
        default: mb_tick(d->b, false);
    }
}
static void mangle(mq_t *q){
    size_t n = q->len - q->rd; if(!n) return;
    size_t at = q->rd + vh_n(G, n); mangled = true; vh_count("wire_altered"); ev('!', 0);
    switch(vh_n(G, 4)){
        case 0: q->b[at] ^= (char)(1 << vh_n(G, 8)); break;
        case 1: { size_t k = 1 + vh_n(G, q->len - at); memmove(q->b + at, q->b + at + k, q->len - at - k); q->len -= k; break; }
        case 2: { char x[300]; size_t k = 1 + vh_n(G, sizeof(x)); if(k > q->len - at) k = q->len - at; memcpy(x, q->b + at, k); mq_put(q, x, k); break; }
        case 3: { char x[16]; size_t k = 1 + vh_n(G, 16); for(size_t i = 0; i < k; i++) x[i] = (char)vh_u64(G); size_t tail = q->len - at; char *t = xalloc(tail); memcpy(t, q->b + at, tail); q->len = at; mq_put(q, x, k); mq_put(q, t, tail); break; }
    }
}
/* ---- OpenSSL as the other end ---- */
static SSL *PS; static BIO *PI, *PO; static mq_t psent; static mq_t *pin_, *pout_; static size_t pgot; static bool p_shut, p_eof, p_fail, p_closed; static bool p12;
static bool raw_pump(mc_t *c, bool forced){
    bool x = false;
    char b[20000]; bool drained = true;
    /* wire in */
    if(!p_closed){
        size_t n = pin_->len - pin_->rd;
        if(n && (forced || vh_pct(G, 60))){ size_t k = forced ? n : 1 + vh_n(G, n); BIO_write(PI, pin_->b + pin_->rd, (int)k); pin_->rd += k; x = true; PROGRESS++; }
    }
    if(!p_fail && !p_closed){
        ERR_clear_error();
        int sz = 1 + (int)vh_n(G, vh_pct(G, 50) ? 50 : sizeof(b)); int r = SSL_read(PS, b, sz);
        if(r > 0){
            x = true; PROGRESS++; drained = false;
            if(pgot + (size_t)r > c->sent->len) viol("wire-invented", "the peer decrypts %zu bytes, only %zu were written", pgot + (size_t)r, c->sent->len);
            else if(memcmp(c->sent->b + pgot, b, (size_t)r)) viol("wire-differs", "the peer decrypts other bytes at offset %zu", pgot);
            pgot += (size_t)r; vh_count_n("peer_bytes_decrypted", r); ev('<', (uint64_t)r);
        }else{
            int er = SSL_get_error(PS, r);
            if(er == SSL_ERROR_ZERO_RETURN){
                if(!p_eof){ p_eof = true; x = true; ev('e', 0);
                    if(!c->sent->closed) viol("wire-eof", "the peer is told of an end nobody asked for");
                    if(pgot != c->sent->len) viol("wire-lost", "the peer is told of the end after %zu of %zu bytes", pgot, c->sent->len); }
            }else if(er != SSL_ERROR_WANT_READ){ p_fail = true; x = true; ev('f', 0); if(VH.verbose) ERR_print_errors_fp(stderr); }
        }
    }
    /* wire out */
    if(!p_closed){ long n; while((n = BIO_read(PO, b, forced ? (int)sizeof(b) : 1 + (int)vh_n(G, sizeof(b)))) > 0){ mq_put(pout_, b, (size_t)n); x = true; PROGRESS++; if(!forced) break; } }
    if(!p_closed && drained && ((pin_->closed && pin_->rd == pin_->len) || p_fail) && !BIO_ctrl_pending(PO)){ p_closed = true; pout_->closed = true; x = true; }
    return x;
}
static void raw_act(void){
    if(p_fail || p_closed) return;
    ERR_clear_error();
    switch(vh_n(G, 12)){
        case 0: case 1: case 2: {
            if(p_shut || !SSL_is_init_finished(PS)) return;
            char b[30000]; int n = 1 + (int)vh_n(G, vh_pct(G, 70) ? 200 : sizeof(b)); for(int i = 0; i < n; i++) b[i] = (char)vh_u64(G);
            int r = SSL_write(PS, b, n); if(r > 0){ mq_put(&psent, b, (size_t)r); ev('>', (uint64_t)r); vh_count_n("peer_bytes_encrypted", r); } break; }
        case 3: if(SSL_is_init_finished(PS) && SSL_version(PS) == TLS1_3_VERSION && vh_pct(G, 20)){ if(SSL_key_update(PS, vh_pct(G, 60) ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED) == 1 && SSL_do_handshake(PS) == 1) vh_count("key_updates"); } break;
        case 4: if(SSL_is_init_finished(PS) && SSL_version(PS) == TLS1_2_VERSION && SSL_is_server(PS) && vh_pct(G, 20) && !p_shut){ if(SSL_renegotiate(PS) == 1){ SSL_do_handshake(PS); vh_count("renegotiations"); reneg = true; } } break;
        case 5: if(SSL_is_init_finished(PS)) SSL_set_max_send_fragment(PS, 512 + vh_n(G, 15000)); break;
        case 6: if(!p_shut && SSL_is_init_finished(PS) && vh_pct(G, 5)){ psent.closed = true; p_shut = true; SSL_shutdown(PS); ev('d', 0); } break;
    }
}
static void one_case(vh_rng_t *g, uint64_t i){
    (void)i; G = g; H = 0; V_OK = true; lazy = false; mangled = cut = berr = reneg = false;
    Q[0] = Q[1] = psent = (mq_t){0}; PS = NULL; pgot = 0; p_shut = p_eof = p_fail = p_closed = false; SD[0] = SD[1] = (side_t){0};
    bool raw = vh_pct(G, 50), tls12 = vh_pct(G, 30); int me = raw ? (int)vh_n(G, 2) : -1; /* me: 0 the client */
    int fault = vh_pct(G, 45) ? 0 : 1 + (int)vh_n(G, 3); /* 1 cut 2 altered 3 base fails */
    int fq = (int)vh_n(G, 2); size_t fat = vh_n(G, vh_pct(G, 50) ? 3000 : 60000);
    if(raw){
        PS = SSL_new(me ? RC : RS); PI = BIO_new(BIO_s_mem()); PO = BIO_new(BIO_s_mem()); SSL_set_bio(PS, PI, PO);
        BIO_set_mem_eof_return(PI, -1); BIO_set_mem_eof_return(PO, -1);
        if(tls12) SSL_set_max_proto_version(PS, TLS1_2_VERSION);
        if(me){ SSL_set_connect_state(PS); if(vh_pct(G, 70)) SSL_do_handshake(PS); } else SSL_set_accept_state(PS);
        pin_ = me ? &Q[1] : &Q[0]; pout_ = me ? &Q[0] : &Q[1];
        if(me && vh_pct(G, 70)){ char b[4000]; int n = BIO_read(PO, b, sizeof(b)); if(n > 0) mq_put(pout_, b, (size_t)n); }
        side_init(&SD[0], me ? "server" : "client", !me, me ? SCTX : CCTX, pout_, pin_, NULL, &psent);
        vh_count(me ? "as_server" : "as_client");
    }else{
        side_init(&SD[0], "client", true, tls12 ? CCTX12 : CCTX, &Q[1], &Q[0], &SD[1], &SD[1].sent);
        if(vh_pct(G, 40)) for(int k = 0; k < 10 && V_OK; k++) side_step(&SD[0], true);
        if(V_OK){ side_init(&SD[1], "server", false, tls12 ? SCTX12 : SCTX, &Q[0], &Q[1], &SD[0], &SD[0].sent); }
        vh_count("pairs");
    }
    int nsides = raw ? 1 : 2;
    derr_type_t ETS[3] = {E_CONN, E_UV_ECONNRESET, E_UV_ETIMEDOUT};
    if(V_OK && fault == 3){ berr = true; side_t *d = &SD[vh_n(G, (unsigned)nsides)]; d->b->err_at = (long)fat; d->b->err = ETS[vh_n(G, 3)]; }
    int steps = (int)vh_n(G, vh_pct(G, 60) ? 150 : 700);
    bool stop = false;
    for(int k = 0; k < steps && V_OK && !stop; k++){
        int s = (int)vh_n(G, raw ? 3 : 2);
        if(raw && s){ if(s == 1) raw_pump(SD[0].c, false); else raw_act(); }
        else side_act(&SD[raw ? 0 : s]);
        if(fault == 1 && !cut && Q[fq].len >= fat){ cut = true; Q[fq].dead = true; Q[fq].closed = true; Q[fq].len = Q[fq].rd > fat ? Q[fq].rd : fat; vh_count("wires_cut"); ev('|', fat); }
        if(fault == 2 && Q[fq].len >= fat && Q[fq].rd < Q[fq].len && !mangled) mangle(&Q[fq]);
        if(vh_pct(G, 2)) for(int j = 0; j < 30 && V_OK; j++){ for(int q = 0; q < nsides; q++) side_step(&SD[q], false); if(raw) raw_pump(SD[0].c, false); }
    }
    bool canceled = false;
    for(int q = 0; q < nsides && V_OK; q++) if(SD[q].c->canceled) canceled = true;
    /* how it ends */
    bool cancelend = vh_pct(G, 15);
    for(int q = 0; q < nsides && V_OK; q++){
        mc_t *c = SD[q].c; c->p_cancel = 0; c->p_more = 100;
        if(cancelend && vh_pct(G, 60)){ mc_cancel(c); canceled = true; }
    }
    int shutat[2] = {(int)vh_n(G, 40), (int)vh_n(G, 40)}, idle = 0;
    for(int k = 0; k < 200000 && V_OK && idle < 60; k++){
        bool x = false;
        if(k == 3000) for(int q = 0; q < nsides; q++){ SD[q].b->maxread = 1u << 30; SD[q].c->maxbuf = 9000; } /* not forever byte by byte */
        for(int q = 0; q < nsides && V_OK; q++){
            mc_t *c = SD[q].c;
            if(!c->s->eof && !c->s->canceled && !c->s->awaited) mc_read(c);
            if(k >= shutat[q] && !c->s->is_shutdown && !c->s->canceled && !c->s->awaited) mc_shutdown(c);
            if(!c->await_set && (k > 20 || vh_pct(G, 10))) mc_await(c);
            if(V_OK && side_step(&SD[q], true)) x = true;
        }
        if(raw && V_OK){
            if(raw_pump(SD[0].c, true)) x = true;
            if(k >= shutat[1] && !p_shut && !p_fail && !p_closed && SSL_is_init_finished(PS)){ psent.closed = true; p_shut = true; SSL_shutdown(PS); ev('d', 0); x = true; }
            if(p_shut && p_eof && !p_closed && !BIO_ctrl_pending(PO)){ p_closed = true; pout_->closed = true; x = true; }
        }
        idle = x ? 0 : idle + 1;
        if(idle > 30) lazy = true;
    }
    for(int q = 0; q < nsides && V_OK; q++){
        mc_t *c = SD[q].c; mc_t *o = raw ? NULL : SD[1 - q].c;
        bool clean = !fault && !canceled && !reneg;
        if(!c->awaited){
            bool fired = cut || SD[0].b->err_fired || (SD[1].b && SD[1].b->err_fired);
            if(clean || fired || (!reneg && fault != 2) || c->canceled) viol("never-awaited", "%s: never ends (EOF %d, shutdown callback %d, canceled %d, fault %d)", c->name, c->eof, c->shut_cbd, c->canceled, fault);
            else vh_count("silent_ends");
        }else{
            bool fail = c->etype && c->etype != E_CANCELED;
            if(fail && clean) viol("error-unfounded", "%s: fails with %s on a perfect wire%s", c->name, c->emsg, o && o->awaited && !o->etype ? " after the other end has ended cleanly" : "");
            if(!c->etype && (!c->expeof || !*c->expeof || c->got != *c->explen)) viol("truncation-unnoticed", "%s: ends cleanly with %zu of %zu bytes", c->name, c->got, *c->explen);
            if(fault == 3 && !raw && 0) {}
            if(c->etype && !fail) vh_count("ended_canceled"); else vh_count(fail ? "ended_failed" : "ended_clean");
            if(fail && fault == 1) vh_count("truncations_noticed");
            if(fail && fault == 2) vh_count("alterations_noticed");
            if(SD[q].b->err_fired && SD[q].b->s.awaited && !canceled && c->etype != SD[q].b->err && !(c->etype && SD[q].b->in->closed) ) viol("error-differs", "%s: its base failed, but it ends with %s", c->name, c->emsg);
        }
        if(SD[q].first_set && SD[q].b->s.awaited && SD[q].first != 1) viol("await-chain", "%s: the former user of the base is called %d times", c->name, SD[q].first);
        if(c->awaited && !SD[q].b->s.awaited) viol("base-left", "%s: awaited but its base is not", c->name);
    }
    if(raw && V_OK && !fault && !canceled && !reneg){
        if(!p_eof) viol("wire-open", "the stream ended cleanly but the peer was not told of the end (failed %d)", p_fail);
        if(pgot != SD[0].sent.len) viol("wire-lost", "the peer decrypts %zu of %zu bytes", pgot, SD[0].sent.len);
        vh_count("peers_checked");
    }
    if(V_OK && vh_pct(G, 1)){ char b[120]; snprintf(b, 120, "%s tls1.%d fault %d steps %d bytes %zu/%zu", raw ? SD[0].name : "pair", tls12 ? 2 : 3, fault, steps, SD[0].c->got, SD[0].sent.len); vh_sample("%s", b); }
    vh_distinct(H);
    /* force the rest to end */
    for(int q = 0; q < nsides && V_OK; q++){
        mc_t *c = SD[q].c; lazy = true;
        if(!c->awaited){ mc_cancel(c); mc_await(c); for(int k = 0; k < 50 && V_OK && !c->awaited; k++) side_step(&SD[q], true); if(V_OK && !c->awaited) viol("never-awaited", "%s: canceled but never awaited", c->name); }
        for(int k = 0; k < 3 && V_OK; k++){ if(vh_pct(G, 50)) mc_read(c); if(vh_pct(G, 50)) mc_write(c, 10); if(vh_pct(G, 30)) mc_cancel(c); if(vh_pct(G, 30) && c->s->await(c->s, mcs_await_cb)) viol("await-late", "await() on an awaited stream returns a callback"); manual_scheduler_run(&SD[q].m); }
    }
    for(int q = 0; q < nsides; q++){ if(SD[q].c) mc_free(SD[q].c); mq_free(&SD[q].sent); }
    if(PS) SSL_free(PS);
    mq_free(&Q[0]); mq_free(&Q[1]); mq_free(&psent);
    if(V_OK) xfree_all(); else NARENA = 0;
}
int main(int argc, char **argv){
    signal(SIGPIPE, SIG_IGN);
    setup();
    int r = vh_main(argc, argv, "tls", one_case);
    SSL_CTX *all[] = {CCTX, SCTX, CCTX12, SCTX12, RC, RS}; for(int i = 0; i < 6; i++) SSL_CTX_free(all[i]);
    return r;
}
