/* The stream contract on the real event loop: passthru streams over sockets
   whose other end is driven by the test, dstr streams, and connecting. */
#include "mstream.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <fcntl.h>
#include <netdb.h>

static uv_loop_t LOOP; static duv_scheduler_t DS; static bool loop_up;
static mc_t *C; static bool lazy;
static schedulable_t later; static bool later_up, later_on; static void later_cb(schedulable_t *s);
static void loop_init(void){
    if(loop_up) return;
    later_up = true; schedulable_prep(&later, later_cb);
    uv_loop_init(&LOOP); if(is_error(duv_scheduler_init(&DS, &LOOP))) vh_fatal("scheduler"); loop_up = true;
}
/* injected failures of libuv's writes: W_NOW: the Nth uv_write is refused;
   W_LATE: the Nth uv_write and all later ones fail in their callbacks;
   W_SHUT: uv_shutdown is refused */
static int INJ_KIND, INJ_N; static bool INJ_FAILED; static unsigned INJ_CBS; static uv_write_cb real_write_cb;
int __real_uv_write(uv_write_t *q, uv_stream_t *s, const uv_buf_t b[], unsigned n, uv_write_cb cb);
int __wrap_uv_write(uv_write_t *q, uv_stream_t *s, const uv_buf_t b[], unsigned n, uv_write_cb cb);
int __real_uv_shutdown(uv_shutdown_t *q, uv_stream_t *s, uv_shutdown_cb cb);
int __wrap_uv_shutdown(uv_shutdown_t *q, uv_stream_t *s, uv_shutdown_cb cb);
static void late_cb(uv_write_t *q, int status){
    if(!INJ_FAILED){ INJ_FAILED = true; INJ_CBS = C->nwrite_cbs; vh_count("writes_failed_late"); }
    real_write_cb(q, status < 0 ? status : UV_EPIPE);
}
int __wrap_uv_write(uv_write_t *q, uv_stream_t *s, const uv_buf_t b[], unsigned n, uv_write_cb cb){
    if(INJ_KIND == 1 && INJ_N-- == 0){ if(!INJ_FAILED){ INJ_FAILED = true; INJ_CBS = ~0u; } vh_count("writes_failed_now"); return UV_ENOMEM; }
    if(INJ_KIND == 2 && INJ_N-- <= 0){ real_write_cb = cb; cb = late_cb; }
    return __real_uv_write(q, s, b, n, cb);
}
int __wrap_uv_shutdown(uv_shutdown_t *q, uv_stream_t *s, uv_shutdown_cb cb){
    if(INJ_KIND == 3){ INJ_FAILED = true; INJ_CBS = ~0u; vh_count("shutdowns_failed"); return UV_ENOTCONN; }
    return __real_uv_shutdown(q, s, cb);
}
/* a layer above which acts from the scheduler, as a TLS stream does */
static mc_t *later_c;
static void later_cb(schedulable_t *s){
    (void)s; if(!V_OK || later_c != C || lazy || C->awaited) return;
    vh_count("scheduled_actions");
    switch(vh_n(G, 12)){
        case 0: mc_write(C, 300); break;
        case 1: if(vh_n(G, 100) < (unsigned)C->p_cancel) mc_cancel(C); break;
        default: mc_read(C);
    }
}
static void mc_act(mc_t *c, bool in_cb){
    (void)in_cb;
    if(INJ_FAILED && c->nwrite_cbs > INJ_CBS){ viol("failed-write-done", "%s: a write is called done after a write has failed", c->name); return; }
    if(lazy || c->awaited) return;
    if(later_on && vh_pct(G, 30)){ later_c = c; DS.iface.schedule(&DS.iface, &later); return; }
    if((int)vh_n(G, 100) < c->p_more) mc_read(c);
    if(vh_pct(G, 10)) mc_write(c, vh_pct(G, 80) ? 200 : 60000);
    if(vh_n(G, 1000) < (unsigned)c->p_cancel){ mc_cancel(c); vh_count("cancels_in_callbacks"); }
    if(!c->await_set && vh_pct(G, 3)) mc_await(c);
    if(vh_n(G, 1000) < 5 && !c->s->is_shutdown) mc_shutdown(c);
}

/* ---- passthru ---- */
static int P = -1;            /* the other end, a raw socket */
static mq_t pin, pout;        /* what it received, what it sent */
static bool p_eof, p_closed, p_rst, p_shut, p_goterr; static bool p_frozen;
static bool peer_step(int what){
    char b[70000];
    if(P < 0) return false;
    switch(what){
        case 0: { /* send */
            if(p_shut) return false;
            size_t n = 1 + vh_n(G, vh_pct(G, 80) ? 300 : 60000);
            for(size_t i = 0; i < n; i++) b[i] = (char)vh_u64(G);
            ssize_t k = send(P, b, n, MSG_DONTWAIT|MSG_NOSIGNAL);
            if(k > 0){ mq_put(&pout, b, (size_t)k); ev('>', (uint64_t)k); vh_count_n("peer_bytes_sent", k); return true; }
            return false; }
        case 1: { /* receive */
            ssize_t k = recv(P, b, 1 + vh_n(G, vh_pct(G, 50) ? 100 : sizeof(b)), MSG_DONTWAIT);
            if(k > 0){
                if(pin.len + (size_t)k > C->sent->len) viol("wire-invented", "the peer received %zu bytes, only %zu were written", pin.len + (size_t)k, C->sent->len);
                else if(memcmp(C->sent->b + pin.len, b, (size_t)k)) viol("wire-differs", "bytes at offset %zu differ on the wire", pin.len);
                mq_put(&pin, b, (size_t)k); ev('<', (uint64_t)k); vh_count_n("peer_bytes_received", k); return true;
            }
            if(k == 0){ if(!p_eof) ev('e', 0); bool was = p_eof; p_eof = true;
                if(!was && !C->canceled && !C->shut_called && !C->etype && !p_rst && !p_closed && !INJ_FAILED) viol("wire-eof", "the peer sees EOF but nobody shut down or canceled");
                if(!was && C->shut_cbd && pin.len != C->sent->len && !C->canceled) viol("wire-lost", "the peer sees EOF after %zu of %zu bytes", pin.len, C->sent->len);
                return !was; }
            if(errno != EAGAIN) p_goterr = true;
            return false; }
        case 2: if(!p_shut){ p_shut = true; shutdown(P, SHUT_WR); pout.closed = true; ev('d', 0); vh_count("peer_shutdowns"); return true; } return false;
        case 3: { close(P); P = -1; p_closed = true; p_shut = true; pout.closed = true; ev('l', 0); vh_count("peer_closes"); return true; }
        case 4: { struct linger l = {1, 0}; setsockopt(P, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); close(P); P = -1; p_rst = true; C->lossy = true; ev('L', 0); vh_count("peer_resets"); return true; }
    }
    return false;
}
static bool run_loop(void){ unsigned long p = PROGRESS; uv_run(&LOOP, UV_RUN_NOWAIT); return p != PROGRESS; }
/* run until nothing happens; the peer takes part */
static void settle(bool peer){
    for(int k = 0; k < 30;){
        bool x = run_loop();
        if(peer) while(peer_step(1) && V_OK) x = true;
        if(x) k = 0; else k++;
        if(!V_OK) return;
    }
}
static bool wait_for(bool (*f)(void), bool peer){
    unsigned long last = PROGRESS;
    for(int k = 0; k < 3000; k++){ settle(peer); if(!V_OK || f()) return true; if(PROGRESS != last){ last = PROGRESS; k = 0; } usleep(1000); }
    return f();
}
static bool f_awaited(void){ return C->awaited; }
static void nop_close(uv_handle_t *h){ (void)h; }
static bool closed_pipe; static void closed_cb(uv_handle_t *h){ (void)h; closed_pipe = true; }
static void pass_case(void){
    loop_init();
    p_eof = p_closed = p_rst = p_shut = p_goterr = false; lazy = false;
    bool tcp = vh_pct(G, 70);
    later_on = vh_pct(G, 50);
    INJ_FAILED = false; INJ_KIND = vh_pct(G, 75) ? 0 : 1 + (int)vh_n(G, 3); INJ_N = (int)vh_n(G, vh_pct(G, 50) ? 4 : 25);
    int fd[2];
    if(!tcp){ if(socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) vh_fatal("socketpair"); }
    else {
        int l = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = {.sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK)}; socklen_t n = sizeof(a);
        if(l < 0 || bind(l, (void*)&a, sizeof(a)) || listen(l, 1) || getsockname(l, (void*)&a, &n)) vh_fatal("listen");
        fd[0] = socket(AF_INET, SOCK_STREAM, 0);
        if(connect(fd[0], (void*)&a, sizeof(a)) || (fd[1] = accept(l, NULL, NULL)) < 0) vh_fatal("connect");
        close(l);
        int one = 1; setsockopt(fd[1], IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
    }
    if(vh_pct(G, 50)){ int sz = 4096; setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz)); setsockopt(fd[1], SOL_SOCKET, SO_RCVBUF, &sz, sizeof(sz)); }
    P = fd[1];
    union { uv_tcp_t t; uv_pipe_t p; } *U = xalloc(sizeof(*U));
    duv_passthru_t *p = xalloc(sizeof(*p)); stream_i *s;
    if(tcp){ uv_tcp_init(&LOOP, &U->t); if(uv_tcp_open(&U->t, fd[0])) vh_fatal("open"); s = duv_passthru_init_tcp(p, &DS, &U->t); }
    else { uv_pipe_init(&LOOP, &U->p, 0); if(uv_pipe_open(&U->p, fd[0])) vh_fatal("open"); s = duv_passthru_init_pipe(p, &DS, &U->p); }
    mq_t sent = {0};
    C = mc_new(tcp ? "tcp passthru" : "pipe passthru", NULL, s);
    C->sent = &sent; C->expp = (const char *const*)&pout.b; C->explen = &pout.len; C->expeof = &pout.closed;
    if(vh_pct(G, 30)) C->p_cancel = (int)vh_n(G, 20);
    if(vh_pct(G, 60)) mc_await(C);
    bool frozen = vh_pct(G, 20); /* a peer which does not read */
    int pdie = vh_pct(G, 25) ? (vh_pct(G, 50) ? 4 : 3) : 0, steps = (int)vh_n(G, vh_pct(G, 50) ? 30 : 200);
    for(int k = 0; k < steps && V_OK && !C->awaited; k++){
        switch(vh_n(G, 14)){
            case 0: case 1: mc_read(C); break;
            case 2: case 3: mc_write(C, vh_pct(G, 70) ? 300 : 60000); if(vh_pct(G, 10)) for(int j = 0; j < 15; j++) mc_write(C, 300); break;
            case 4: case 5: peer_step(0); break;
            case 6: case 7: if(!frozen) peer_step(1); break;
            case 8: if(vh_pct(G, 5)) peer_step(2); break;
            case 9: if(vh_pct(G, 3) && !s->is_shutdown) mc_shutdown(C); break;
            case 10: if(vh_n(G, 1000) < (unsigned)C->p_cancel) mc_cancel(C); break;
            case 11: if(pdie && vh_pct(G, 6)) peer_step(pdie); break;
            case 12: if(!C->await_set && vh_pct(G, 5)) mc_await(C); break;
            default: run_loop();
        }
    }
    if(V_OK && !C->awaited && !C->canceled && !C->eof && !INJ_FAILED && P >= 0 && vh_pct(G, 50)){
        /* a read which waits is answered as soon as there is something */
        lazy = true; settle(!frozen);
        bool waits = false; for(int i = 0; i < MC_NR; i++) waits |= C->rd[i].out;
        if(V_OK && waits && !C->awaited && !C->eof && C->got == pout.len){
            for(int k = 0; k < 100 && !peer_step(0); k++) settle(!frozen);
        }
        if(V_OK && waits && C->got < pout.len){
            unsigned n0 = C->nread_cbs; size_t g0 = C->got;
            for(int k = 0; k < 2000 && V_OK && C->nread_cbs == n0 && !C->awaited; k++){ settle(!frozen); usleep(500); }
            if(V_OK && C->nread_cbs == n0 && !C->awaited && !INJ_FAILED){
                bool still = false; for(int i = 0; i < MC_NR; i++) still |= C->rd[i].out;
                if(still) viol("read-stuck", "%s: %zu bytes wait for a read which is not answered (%zu before)", C->name, pout.len - C->got, g0);
            }
            vh_count("waiting_reads_checked");
        }
        lazy = false;
    }
    int how = (int)vh_n(G, 4);
    if(V_OK && !C->awaited){
        C->p_cancel = 0;
        if(how == 0){ /* cancel */
            mc_cancel(C); lazy = true;
            if(vh_pct(G, 50)) settle(false);
            mc_await(C);
            if(!wait_for(f_awaited, false)) viol("never-awaited", "%s: canceled but never awaited", C->name);
        }else if(how == 1 && P >= 0){ /* the peer dies while the consumer only writes, only reads, or both */
            mc_await(C);
            peer_step(vh_pct(G, 50) ? 4 : 3);
            bool rd = vh_pct(G, 60); lazy = true; /* nothing new in callbacks */
            settle(false);
            C->maxbuf = 9000;
            unsigned long last = PROGRESS;
            for(int k = 0; k < 40 && V_OK && !C->awaited; k++){
                if(rd){ if(s->eof) break; mc_read(C); }
                else { if(s->is_shutdown) break; mc_write(C, 3000); }
                settle(false);
                if(rd && PROGRESS != last){ last = PROGRESS; k = 0; } /* as long as there is something to read */
            }
            if(!C->awaited && !C->eof && !s->is_shutdown && !wait_for(f_awaited, false)) viol("failure-unnoticed", "%s: the peer is gone, %s goes on but the stream neither ends nor fails (%u writes done)", C->name, rd ? "reading" : "writing", C->nwrite_cbs);
            if(V_OK && !C->awaited){ mc_cancel(C); if(!wait_for(f_awaited, false)) viol("never-awaited", "%s: canceled after the peer died but never awaited", C->name); }
        }else{ /* both ends finish */
            bool pfirst = vh_pct(G, 50); lazy = false;
            if(pfirst && P >= 0) peer_step(2);
            C->p_more = 100; later_on = false;
            settle(P >= 0);
            for(int k = 0; k < 3000 && V_OK && !C->awaited && !C->eof; k++){ if(!s->eof && !s->canceled) mc_read(C); settle(P >= 0); if(P >= 0 && !p_shut && k > 3) peer_step(2); if(k > 200) usleep(200); if(p_rst && k > 50) break; }
            if(V_OK && !s->is_shutdown && !s->canceled && !s->awaited) mc_shutdown(C);
            mc_await(C);
            bool ok = wait_for(f_awaited, P >= 0);
            if(V_OK && !ok && C->eof) viol("never-awaited", "%s: EOF and shutdown (callback %d) but never awaited", C->name, C->shut_cbd);
            else if(V_OK && !ok){
                /* reset connections may stay silent when nobody reads */
                viol("stuck", "%s: neither EOF nor an error (peer reset %d closed %d)", C->name, p_rst, p_closed);
            }
        }
    }
    if(V_OK && C->awaited){
        bool fail = C->etype && C->etype != E_CANCELED;
        if(fail && !p_rst && !p_closed && !INJ_FAILED) viol("error-unfounded", "%s: fails with %s although the peer lives", C->name, C->emsg);
        if(INJ_FAILED && !C->etype) viol("failure-hidden", "%s: a write or shutdown failed, but no error is reported", C->name);
        if(fail) vh_count("ended_failed"); else if(C->canceled) vh_count("ended_canceled"); else vh_count("ended_clean");
        if(!C->etype && C->got != pout.len && !C->lossy) viol("data-lost", "%s: ended cleanly with %zu of %zu bytes", C->name, C->got, pout.len);
        if(fcntl(fd[0], F_GETFD) != -1) viol("wire-open", "%s: awaited but its socket is still open", C->name);
        if(P >= 0){
            for(int k = 0; k < (C->etype ? 20 : 5000) && !p_eof && !p_goterr && V_OK; k++){ while(peer_step(1) && V_OK); if(!p_eof && !p_goterr) usleep(1000); }
            if(V_OK && !p_eof && !p_goterr && !C->etype) viol("wire-open", "%s: awaited but its connection is still open", C->name);
            if(V_OK && !C->etype && pin.len != sent.len) viol("wire-lost", "%s: ended cleanly but the peer has %zu of %zu bytes", C->name, pin.len, sent.len);
        }
        for(int k = 0; k < 3; k++){ if(vh_pct(G, 50)) mc_read(C); if(vh_pct(G, 50)) mc_write(C, 10); if(vh_pct(G, 30)) mc_cancel(C); if(vh_pct(G, 30) && s->await(s, mcs_await_cb)) viol("await-late", "await() on an awaited stream returns a callback"); run_loop(); }
    }
    if(P >= 0) close(P);
    P = -1; INJ_KIND = 0; later_on = false; if(V_OK) schedulable_cancel(&later);
    if(V_OK && uv_loop_alive(&LOOP) && 0) viol("loop-alive", "something is still active");
    mc_free(C); mq_free(&sent); mq_free(&pin); mq_free(&pout);
    if(!V_OK){ loop_up = false; NARENA = 0; } /* the state is unknown */
    (void)nop_close; (void)closed_cb; (void)closed_pipe;
}

/* ---- dstr_stream ---- */
static void dstr_case(void){
    static manual_scheduler_t M; scheduler_i *sch = manual_scheduler(&M); lazy = false;
    size_t len = vh_pct(G, 20) ? 0 : vh_n(G, 2000); char *data = xalloc(len); for(size_t k = 0; k < len; k++) data[k] = (char)vh_u64(G);
    bool fixed = vh_pct(G, 30); size_t cap = vh_n(G, 3000);
    char *ob = xalloc(cap); dstr_t out = {0};
    if(fixed) out = (dstr_t){.data = ob, .size = cap, .fixed_size = true};
    dstr_stream_t *d = xalloc(sizeof(*d));
    stream_i *s = dstr_stream(d, sch, (dstr_t){.data = data, .len = len, .size = len, .fixed_size = true}, &out);
    mq_t sent = {0}; C = mc_new("dstr stream", NULL, s); C->sent = &sent; C->exp = data; C->explen = &len;
    if(vh_pct(G, 30)) C->p_cancel = (int)vh_n(G, 40);
    if(vh_pct(G, 60)) mc_await(C);
    int steps = (int)vh_n(G, 100);
    for(int k = 0; k < steps && V_OK && !C->awaited; k++){
        switch(vh_n(G, 8)){
            case 0: case 1: mc_read(C); break;
            case 2: case 3: mc_write(C, 300); break;
            case 4: if(vh_pct(G, 10) && !s->is_shutdown) mc_shutdown(C); break;
            case 5: if(vh_n(G, 1000) < (unsigned)C->p_cancel) mc_cancel(C); break;
            default: manual_scheduler_run(&M);
        }
    }
    if(V_OK && !C->awaited){
        if(vh_pct(G, 30)) mc_cancel(C);
        else {
            C->p_cancel = 0; C->p_more = 100;
            for(int k = 0; k < 10000 && !s->eof && !s->canceled && !s->awaited && V_OK; k++){ mc_read(C); manual_scheduler_run(&M); }
            if(!s->is_shutdown && !s->canceled && !s->awaited) mc_shutdown(C);
        }
        for(int k = 0; k < 10; k++) manual_scheduler_run(&M);
        mc_await(C);
        for(int k = 0; k < 10; k++) manual_scheduler_run(&M);
        if(V_OK && !C->awaited) viol("never-awaited", "dstr stream: never awaited (EOF %d shutdown %d canceled %d)", C->eof, C->shut_cbd, C->canceled);
    }
    if(V_OK){
        bool fail = C->etype && C->etype != E_CANCELED;
        if(fail && (!fixed || sent.len <= cap)) viol("error-unfounded", "dstr stream: fails with %s", C->emsg);
        if(!C->etype && fixed && sent.len > cap) viol("error-lost", "dstr stream: %zu bytes written into %zu", sent.len, cap);
        if(!C->etype && (out.len != sent.len || (out.len && memcmp(out.data, sent.b, out.len)))) viol("wire-differs", "dstr stream: other bytes arrive (%zu of %zu)", out.len, sent.len);
        if(out.len > sent.len || (out.len && memcmp(out.data, sent.b, out.len))) viol("wire-invented", "dstr stream: %zu bytes of %zu arrive differently", out.len, sent.len);
        if(fail) vh_count("dstr_failed"); else vh_count("dstr_streams");
        for(int k = 0; k < 3; k++){ mc_read(C); mc_write(C, 10); if(s->await(s, mcs_await_cb)) viol("await-late", "await() on an awaited stream returns a callback"); manual_scheduler_run(&M); }
    }
    if(!fixed) dstr_free(&out);
    mc_free(C); mq_free(&sent);
    if(!V_OK){ M = (manual_scheduler_t){0}; NARENA = 0; }
}

/* ---- connecting ---- */
static int ncb; static derr_type_t ce; static uv_tcp_t *T; static bool conn_canceled;
static void connect_cb(duv_connect_t *c, derr_t e){
    ev('C', e.type != NULL); ncb++; ce = e.type;
    if(c->active) viol("connect-active", "the connector is still active in its callback");
    if(e.type && T->type != UV_UNKNOWN_HANDLE && uv_is_active((uv_handle_t*)T)) viol("connect-handle", "the handle is still active after a failed connect");
    DROP_VAR(&e);
}
static bool f_cb(void){ return ncb > 0; }
static void connect_case(void){
    loop_init(); ncb = 0; ce = NULL; conn_canceled = false;
    int l = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = {.sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK)}; socklen_t n = sizeof(a);
    if(l < 0 || bind(l, (void*)&a, sizeof(a)) || listen(l, 5) || getsockname(l, (void*)&a, &n)) vh_fatal("listen");
    char port[16]; snprintf(port, 16, "%d", ntohs(a.sin_port));
    int kind = (int)vh_n(G, 4); /* 0,1 open 2 closed 3 no such name */
    if(kind == 2){ close(l); l = -1; }
    const char *node = kind == 3 ? "256.256.256.256" : kind == 1 && vh_pct(G, 50) ? "localhost" : "127.0.0.1";
    duv_connect_t *c = xalloc(sizeof(*c)); uv_tcp_t *t = xalloc(sizeof(*t)); T = t;
    struct addrinfo hints = {.ai_family = AF_UNSPEC, .ai_socktype = SOCK_STREAM, .ai_flags = kind == 3 ? AI_NUMERICHOST : 0};
    derr_t e = duv_connect(&LOOP, t, 0, c, connect_cb, dstr_from_cstr((char*)node), dstr_from_cstr(port), &hints);
    if(is_error(e)){ DROP_VAR(&e); viol("connect-start", "duv_connect fails at once"); if(l >= 0) close(l); return; }
    if(!c->active) viol("connect-active", "the connector is not active after duv_connect");
    int cancel_at = vh_pct(G, 50) ? (int)vh_n(G, 40) : -1;
    for(int k = 0; k < 3000 && !ncb; k++){
        if(k == cancel_at){ conn_canceled = true; duv_connect_cancel(c); if(vh_pct(G, 20)) duv_connect_cancel(c); ev('k', 0); }
        run_loop(); if(vh_pct(G, 30) || k > 40) usleep(k > 100 ? 1000 : 30);
    }
    if(!wait_for(f_cb, false)) viol("connect-stuck", "the connect callback never comes (kind %d, canceled %d)", kind, conn_canceled);
    else{
        bool can = ce == E_CANCELED;
        if(can && !conn_canceled) viol("cancel-unfounded", "E_CANCELED without a cancel");
        if(!ce && kind >= 2) viol("connect-unfounded", "connected to nothing");
        if(ce && !can && kind < 2) viol("connect-failed", "connecting to an open port fails");
        if(conn_canceled && !ce) viol("cancel-lost", "canceled before the callback, but it reports success");
        vh_count(can ? "connects_canceled" : ce ? "connects_refused" : "connects");
        duv_connect_cancel(c); settle(false);
        if(ncb != 1) viol("connect-twice", "%d callbacks", ncb);
        if(!ce){
            /* the connection works */
            int fd = accept(l, NULL, NULL); uv_buf_t b = uv_buf_init("x", 1);
            if(uv_try_write((uv_stream_t*)t, &b, 1) != 1) viol("connect-useless", "the connection does not work");
            char x; if(recv(fd, &x, 1, 0) != 1 || x != 'x') viol("connect-useless", "the connection does not work");
            close(fd); uv_close((uv_handle_t*)t, nop_close);
        }
        settle(false);
    }
    if(l >= 0) close(l);
    if(!V_OK){ loop_up = false; NARENA = 0; }
}
static void one_case(vh_rng_t *g, uint64_t i){
    INJ_KIND = 0; INJ_FAILED = false; later_on = false;
    (void)i; G = g; H = 0; V_OK = true;
    int k = (int)vh_n(G, 10);
    if(k < 6) pass_case(); else if(k < 9) dstr_case(); else connect_case();
    vh_distinct(H);
    if(V_OK) xfree_all();
}
int main(int argc, char **argv){
    signal(SIGPIPE, SIG_IGN);
    int r = vh_main(argc, argv, "duv", one_case);
    if(loop_up){
        duv_scheduler_close(&DS);
        uv_run(&LOOP, UV_RUN_NOWAIT);
        if(uv_loop_close(&LOOP)) vh_violation("loop-alive", "the loop still has handles at the end");
        vh_flush();
    }
    return r;
}
