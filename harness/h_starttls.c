/* STARTTLS on both sides of the citm: a model client talks to an
   imap_server_t, a model server to an imap_client_t, over a wire which
   delivers in any pieces, and says things before, around and after STARTTLS
   which must not reach the encrypted session. */
#include "mstream.h"
#include "libcitm/libcitm.h"
#include "certgen.h"

static SSL_CTX *CCTX, *CBAD, *SCTX, *RC, *RS;
static void mc_act(mc_t *c, bool in_cb){ (void)c; (void)in_cb; }
static void setup(void){
    EVP_PKEY *cak = cg_key(0), *k = cg_key(0);
    X509 *ca = cg_make((cg_t){.cn = "test ca", .key = cak, .from = -CG_DAY, .to = 9*CG_DAY, .ca = 1, .pathlen = -1});
    X509 *x = cg_make((cg_t){.cn = "x", .san = "DNS:localhost", .issuer = ca, .issuer_key = cak, .key = k, .from = -CG_DAY, .to = 9*CG_DAY, .pathlen = -1});
    BIO *c = BIO_new(BIO_s_mem()), *kb = BIO_new(BIO_s_mem()); cg_pem(c, x); cg_keypem(kb, k);
    ssl_context_t s = {0}, cl = {0}, cb = {0};
    derr_t e = ssl_context_new_server_pem(&s, cg_dstr(c), cg_dstr(kb)); if(is_error(e)) vh_fatal("server context");
    e = ssl_context_new_client_ex(&cl, false, NULL, 0); if(is_error(e)) vh_fatal("client context");
    e = ssl_context_new_client_ex(&cb, false, NULL, 0); if(is_error(e)) vh_fatal("client context");
    X509_STORE_add_cert(SSL_CTX_get_cert_store(cl.ctx), ca);
    SCTX = s.ctx; CCTX = cl.ctx; CBAD = cb.ctx;
    RC = SSL_CTX_new(TLS_client_method()); RS = SSL_CTX_new(TLS_server_method());
    SSL_CTX_use_certificate(RS, x); SSL_CTX_use_PrivateKey(RS, k);
    SSL_CTX_set_verify(RC, SSL_VERIFY_NONE, NULL);
    BIO_free(c); BIO_free(kb); X509_free(ca); X509_free(x); EVP_PKEY_free(cak); EVP_PKEY_free(k);
}

/* ---- the case ---- */
static mq_t IN, OUT;            /* to and from the code under test */
static mb_t *B; static manual_scheduler_t M; static scheduler_i *SCH;
static citm_conn_t CONN; static int freed;
static void conn_free(citm_conn_t *c){ (void)c; freed++; }
static imap_server_t *SV; static imap_client_t *CL;
static bool awaited; static derr_type_t etype; static int nreads_back;
static char relayed[8192]; static size_t nrelayed;     /* what the code under test handed on */
static char expect[8192]; static size_t nexpect;       /* what was said inside TLS */
static bool tls_said;           /* the TLS session of the peer is up */
static bool reading, writing;
static void put(char *buf, size_t *n, const char *fmt, ...){ va_list ap; va_start(ap, fmt); *n += (size_t)vsnprintf(buf + *n, 8192 - *n, fmt, ap); va_end(ap); if(*n >= 8192) vh_fatal("log full"); }
static void say(const char *p, size_t n){ mq_put(&IN, p, n); if(VH.verbose) fprintf(stderr, "  -> %.*s", (int)n, p); for(size_t i = 0; i < n; i++) H = vh_hash((const unsigned char*)p + i, 1, H); }
static void sayz(const char *p){ say(p, strlen(p)); }

/* OpenSSL as the peer */
static SSL *PS; static BIO *PI, *PO; static bool p_fail, p_eof; static mq_t clear; /* what it decrypts */
static void peer_new(bool server){
    PS = SSL_new(server ? RS : RC); PI = BIO_new(BIO_s_mem()); PO = BIO_new(BIO_s_mem()); SSL_set_bio(PS, PI, PO);
    BIO_set_mem_eof_return(PI, -1); BIO_set_mem_eof_return(PO, -1);
    if(server) SSL_set_accept_state(PS); else SSL_set_connect_state(PS);
    if(vh_pct(G, 30)) SSL_set_max_proto_version(PS, TLS1_2_VERSION);
}
static size_t outrd;            /* how much of OUT is no plaintext any more or has been read */
static bool peer_pump(void){
    bool x = false; char b[8192];
    if(!PS) return false;
    if(OUT.len > outrd){ BIO_write(PI, OUT.b + outrd, (int)(OUT.len - outrd)); outrd = OUT.len; x = true; }
    if(!p_fail){
        ERR_clear_error();
        int r = SSL_read(PS, b, sizeof(b));
        if(r > 0){ mq_put(&clear, b, (size_t)r); x = true; }
        else { int er = SSL_get_error(PS, r); if(er == SSL_ERROR_ZERO_RETURN) p_eof = true; else if(er != SSL_ERROR_WANT_READ){ p_fail = true; x = true; } }
    }
    long n; while((n = BIO_read(PO, b, sizeof(b))) > 0){ mq_put(&IN, b, (size_t)n); x = true; }
    return x;
}
static void psay(const char *p, size_t n){ if(SSL_write(PS, p, (int)n) != (int)n) vh_fatal("SSL_write"); if(VH.verbose) fprintf(stderr, "  => %.*s", (int)n, p); peer_pump(); for(size_t i = 0; i < n; i++) H = vh_hash((const unsigned char*)p + i, 1, H); }

static bool tick(bool forced){
    unsigned long p = PROGRESS; bool x = false; size_t o = OUT.len, rd = IN.rd;
    manual_scheduler_run(&M);
    if(!awaited && mb_tick(B, forced)) x = true;
    return x || PROGRESS != p || OUT.len != o || IN.rd != rd;
}
static void quiet(bool peer){
    int idle = 0;
    for(int k = 0; k < 20000 && V_OK && idle < 12; k++){ bool x = tick(idle > 4 || vh_pct(G, 80)); if(peer && peer_pump()) x = true; idle = x ? 0 : idle + 1; }
}
static void conn_new(imap_security_e sec, SSL_CTX *ctx){
    B = mb_new("wire", true, &IN, &OUT); B->close_out = true;
    SCH = manual_scheduler(&M); freed = 0;
    CONN = (citm_conn_t){.stream = &B->s, .security = sec, .ctx = ctx, .verify_name = dstr_from_cstr("localhost"), .free = conn_free};
}

/* ---- the server side ---- */
static imap_server_read_t sreq; typedef struct { imap_server_write_t w; } sw_t;
static void sread_cb(imap_server_t *s, imap_server_read_t *r, imap_cmd_t *cmd);
static void swrite_cb(imap_server_t *s, imap_server_write_t *w){ (void)s; (void)w; }
static void srelay(imap_server_t *s, ie_dstr_t **tag){
    derr_t e = E_OK; link_t out = {0};
    e = RESP_OK(tag, "relayed", &out); if(is_error(e)) vh_fatal("RESP_OK");
    link_t *l; while((l = link_list_pop_first(&out))){ sw_t *w = xalloc(sizeof(*w)); imap_server_must_write(s, &w->w, CONTAINER_OF(l, imap_resp_t, link), swrite_cb); }
}
static void sread_cb(imap_server_t *s, imap_server_read_t *r, imap_cmd_t *cmd){
    (void)r; reading = false; PROGRESS++;
    dstr_t t = cmd->tag ? cmd->tag->dstr : (dstr_t){0};
    if(VH.verbose) fprintf(stderr, "  relayed %d %.*s\n", cmd->type, (int)t.len, t.data);
    if(cmd->type == IMAP_CMD_PLUS_REQ){ derr_t e = E_OK; link_t out = {0}; e = RESP_OK(&cmd->tag, "x", &out); DROP_VAR(&e); link_t *l; while((l = link_list_pop_first(&out))) imap_resp_free(CONTAINER_OF(l, imap_resp_t, link)); }
    else {
        put(relayed, &nrelayed, "%d %.*s", (int)cmd->type, (int)t.len, t.data);
        if(cmd->type == IMAP_CMD_LOGIN) put(relayed, &nrelayed, " %.*s %.*s", (int)cmd->arg.login->user->dstr.len, cmd->arg.login->user->dstr.data, (int)cmd->arg.login->pass->dstr.len, cmd->arg.login->pass->dstr.data);
        put(relayed, &nrelayed, "\n"); vh_count("commands_relayed");
        if(cmd->tag) srelay(s, &cmd->tag);
    }
    imap_cmd_free(cmd);
    reading = true; imap_server_must_read(s, &sreq, sread_cb);
}
static void sawait(imap_server_t *s, derr_t e, link_t *reads, link_t *writes){
    (void)s; awaited = true; etype = e.type; PROGRESS++;
    while(link_list_pop_first(reads)) nreads_back++;
    while(link_list_pop_first(writes)){}
    if(VH.verbose && is_error(e)) DUMP(e);
    DROP_VAR(&e);
}
typedef struct { const char *text; imap_cmd_type_t t; int reply; } pc_t; /* reply: 0 OK 1 NO 2 BAD 3 not OK */
static const pc_t PC[] = {{"NOOP", IMAP_CMD_NOOP, 0}, {"CAPABILITY", IMAP_CMD_CAPA, 0}, {"LOGIN joe hunter2", IMAP_CMD_LOGIN, 1}, {"LOGIN \"joe\" \"hunter 2\"", IMAP_CMD_LOGIN, 1},
    {"SELECT INBOX", IMAP_CMD_SELECT, 3}, {"FETCH 1 BODY[]", IMAP_CMD_FETCH, 3}, {"ENABLE CONDSTORE", IMAP_CMD_ENABLE, 3}, {"garbage here", IMAP_CMD_ERROR, 3}, {"STATUS INBOX (MESSAGES)", IMAP_CMD_STATUS, 3}, {"STARTTLS now", IMAP_CMD_ERROR, 3}};
static int find(const char *hay, size_t n, const char *pat){ size_t l = strlen(pat); for(size_t i = 0; i + l <= n; i++) if(!memcmp(hay + i, pat, l)) return (int)i; return -1; }
static void wait_for_out(const char *pat){ /* in what has been written in the clear */
    for(int k = 0; k < 40 && V_OK && !awaited && find(OUT.b + outrd, OUT.len - outrd, pat) < 0; k++) quiet(false);
}
/* the tagged reply to a plaintext command, consumed */
static void plain_reply(const char *tag, int want, const char *cmd){
    char pat[40]; snprintf(pat, 40, "%s ", tag);
    for(int k = 0; k < 5; k++){
        size_t from = outrd;
        while(from < OUT.len){
            char *nl = memchr(OUT.b + from, '\n', OUT.len - from); if(!nl) break;
            size_t n = (size_t)(nl - (OUT.b + from)) + 1;
            if(n > strlen(pat) && !memcmp(OUT.b + from, pat, strlen(pat))){
                const char *st = OUT.b + from + strlen(pat); bool ok = !memcmp(st, "OK ", 3), no = !memcmp(st, "NO ", 3), bad = !memcmp(st, "BAD ", 4);
                if(!(ok || no || bad) || (want == 0 && !ok) || (want == 1 && !no) || (want == 2 && !bad) || (want == 3 && ok)) viol("plain-reply", "%s before STARTTLS is answered %.*s", cmd, (int)n, OUT.b + from);
                outrd = from + n; vh_count("plain_replies"); return;
            }
            if(OUT.b[from] != '*' && OUT.b[from] != '+'){ viol("plain-reply-order", "%.*s while waiting for the reply to %s %s", (int)n, OUT.b + from, tag, cmd); return; }
            from += n;
        }
        quiet(false);
        if(!V_OK) return;
    }
    viol("plain-no-reply", "%s %s before STARTTLS is not answered%s", tag, cmd, awaited ? ": the connection ended" : "");
}
static void tls_command(int k, char *b, size_t bn){
    static const char *const C[] = {"NOOP", "CAPABILITY", "SELECT INBOX", "LOGOUT", "CHECK"}; static const int T[] = {IMAP_CMD_NOOP, IMAP_CMD_CAPA, IMAP_CMD_SELECT, IMAP_CMD_LOGOUT, IMAP_CMD_CHECK};
    unsigned i = (unsigned)vh_n(G, 6);
    if(i == 5){ snprintf(b, bn, "S%d LOGIN u%d secret%d\r\n", k, k, k); put(expect, &nexpect, "%d S%d u%d secret%d\n", (int)IMAP_CMD_LOGIN, k, k, k); }
    else { snprintf(b, bn, "S%d %s\r\n", k, C[i]); put(expect, &nexpect, "%d S%d\n", T[i], k); }
}
static void server_case(void){
    bool direct = vh_pct(G, 15);    /* TLS from the start */
    conn_new(direct ? IMAP_SEC_TLS : IMAP_SEC_STARTTLS, SCTX);
    derr_t e = imap_server_new(&SV, SCH, &CONN); if(is_error(e)) vh_fatal("imap_server_new");
    imap_server_must_await(SV, sawait, NULL);
    reading = true; imap_server_must_read(SV, &sreq, sread_cb);
    bool inject = false, gone = false; char b[400]; int ntag = 0;
    if(!direct){
        wait_for_out("\n");
        char *nl = OUT.len ? memchr(OUT.b, '\n', OUT.len) : NULL;
        if(!nl){ if(V_OK) viol("no-greeting", "no greeting"); return; }
        size_t n = (size_t)(nl - OUT.b) + 1;
        if(memcmp(OUT.b, "* OK ", 5) || find(OUT.b, n, "LOGINDISABLED") < 0 || find(OUT.b, n, "STARTTLS") < 0) viol("greeting", "the greeting of an unencrypted connection is %.*s", (int)n, OUT.b);
        outrd = n;
        int np = (int)vh_n(G, 5); bool pipeline = vh_pct(G, 40); const pc_t *sent[8]; int ns = 0;
        for(int i = 0; i < np && V_OK; i++){
            const pc_t *p = &PC[vh_n(G, sizeof(PC)/sizeof(*PC))]; sent[ns++] = p;
            snprintf(b, sizeof(b), "P%d %s\r\n", i, p->text); sayz(b); ntag++;
            if(!pipeline){ snprintf(b, sizeof(b), "P%d", i); plain_reply(b, p->reply, p->text); vh_count("plain_commands"); }
        }
        if(vh_pct(G, 5)){ /* leaves without encryption */
            sayz("PL LOGOUT\r\nPX LOGIN joe hunter2\r\n"); if(vh_pct(G, 50)) quiet(false);
            if(pipeline) for(int i = 0; i < ns && V_OK; i++){ snprintf(b, sizeof(b), "P%d", i); plain_reply(b, sent[i]->reply, sent[i]->text); }
            if(V_OK) plain_reply("PL", 0, "LOGOUT"); gone = true; vh_count("left_unencrypted");
            IN.closed = true; quiet(false);
        }else{
            /* nothing was relayed so far */
            if(nrelayed) viol("relayed-before-tls", "commands sent in the clear were handed on: %.*s", (int)nrelayed, relayed);
            int how = (int)vh_n(G, 4);
            const char *st = vh_pct(G, 50) ? "PT STARTTLS\r\n" : "PT starttls\r\n";
            if(how == 0){ sayz(st); }
            else if(how == 1){ /* the handshake directly behind it */
                sayz(st); peer_new(false); SSL_do_handshake(PS); char h[4000]; int hn = BIO_read(PO, h, sizeof(h)); if(hn > 0) mq_put(&IN, h, (size_t)hn); vh_count("handshakes_pipelined"); }
            else if(how == 2 && vh_pct(G, 50)){ /* commands behind it, in the clear */
                static const char *const J[] = {"X LOGIN evil evil\r\n", "X NOOP\r\n", "X", "X LOGIN {4}\r\n", "X APPEND INBOX {100}\r\n", "\r\n", " "};
                snprintf(b, sizeof(b), "%s%s", st, J[vh_n(G, 7)]); sayz(b); inject = true; vh_count("commands_injected"); }
            else { sayz(st); }
            if(pipeline) for(int i = 0; i < ns && V_OK; i++){ snprintf(b, sizeof(b), "P%d", i); plain_reply(b, sent[i]->reply, sent[i]->text); vh_count("plain_commands"); }
            if(V_OK) plain_reply("PT", 0, "STARTTLS");
            if(VH.verbose) fprintf(stderr, "  STARTTLS answered\n");
        }
    }
    if(V_OK && !gone){
        if(nrelayed) viol("relayed-before-tls", "commands sent in the clear were handed on: %.*s", (int)nrelayed, relayed);
        /* from here on only TLS */
        size_t mark = outrd;
        if(!PS) peer_new(false);
        SSL_do_handshake(PS); quiet(true);
        if(OUT.len > mark && (OUT.b[mark] < 20 || OUT.b[mark] > 23)) viol("plaintext-after-starttls", "sends %.*s after STARTTLS", (int)(OUT.len - mark > 60 ? 60 : OUT.len - mark), OUT.b + mark);
        if(inject){
            if(SSL_is_init_finished(PS) && !p_fail) viol("injection-skipped", "plaintext behind STARTTLS is dropped and the session goes on");
            if(nrelayed) viol("injected-relayed", "commands sent in the clear were handed on: %.*s", (int)nrelayed, relayed);
            vh_count("injections_refused");
        }else if(V_OK){
            if(!SSL_is_init_finished(PS)){ viol("handshake", "the handshake does not finish%s", p_fail ? ": failed" : awaited ? ": connection ended" : ""); return; }
            tls_said = true; vh_count("sessions_encrypted");
            if(direct && (clear.len < 5 || memcmp(clear.b, "* OK ", 5) || find(clear.b, clear.len, "LOGINDISABLED") >= 0)) viol("greeting", "the greeting inside TLS is %.*s", (int)clear.len, clear.b);
            int nc = 1 + (int)vh_n(G, 6);
            for(int i = 0; i < nc && V_OK; i++){
                tls_command(i, b, sizeof(b)); psay(b, strlen(b));
                if(vh_pct(G, 60)){ quiet(true); char t[20]; snprintf(t, 20, "S%d OK", i); if(find(clear.b, clear.len, t) < 0) viol("reply-lost", "no reply inside TLS to command %d (%.*s)", i, (int)(clear.len > 200 ? 200 : clear.len), clear.b); }
            }
            quiet(true);
            if(nrelayed != nexpect || memcmp(relayed, expect, nexpect)) viol("relayed-differs", "commands sent inside TLS:\n%.*s\nhanded on:\n%.*s", (int)nexpect, expect, (int)nrelayed, relayed);
            vh_count("relays_compared");
            for(size_t p = mark; p + 5 <= OUT.len && V_OK;){ unsigned char *q = (unsigned char*)OUT.b + p; if(q[0] < 20 || q[0] > 23 || q[1] != 3){ viol("plaintext-after-starttls", "the bytes sent are no TLS records at offset %zu", p); } p += 5 + (size_t)(q[3] << 8 | q[4]); }
        }
    }
}

/* ---- the client side ---- */
static imap_client_read_t creq; static imap_client_write_t cw[4]; static int cwrites;
static void cwrite_cb(imap_client_t *c, imap_client_write_t *w){ (void)c; (void)w; cwrites++; PROGRESS++; }
static void cread_cb(imap_client_t *c, imap_client_read_t *r, imap_resp_t *resp){
    (void)r; reading = false; PROGRESS++;
    if(!tls_said) viol("response-before-tls", "a response is handed on before there is encryption");
    static char out[4096]; size_t skip = 0, want = 0; dstr_t d = {.data = out, .len = 0, .size = sizeof(out), .fixed_size = true}; extensions_t x = {.idle = EXT_STATE_ON, .uidplus = EXT_STATE_ON};
    derr_t e = imap_resp_write(resp, &d, &skip, &want, &x); if(is_error(e)) DROP_VAR(&e);
    put(relayed, &nrelayed, "%.*s", (int)d.len, out); vh_count("responses_relayed");
    imap_resp_free(resp);
    reading = true; imap_client_must_read(c, &creq, cread_cb);
}
static void cawait(imap_client_t *c, derr_t e, link_t *reads, link_t *writes){
    (void)c; awaited = true; etype = e.type; PROGRESS++;
    while(link_list_pop_first(reads)) nreads_back++;
    while(link_list_pop_first(writes)){}
    if(VH.verbose && is_error(e)) DUMP(e);
    DROP_VAR(&e);
}
static const char *const PASS = "c0rrect-h0rse";
static void client_login(int n){
    derr_t e = E_OK; char t[10]; snprintf(t, 10, "L%d", n); dstr_t td = dstr_from_cstr(t), pd = dstr_from_cstr((char*)PASS);
    ie_login_cmd_t *l = ie_login_cmd_new(&e, ie_dstr_new2(&e, DSTR_LIT("joe")), ie_dstr_new2(&e, pd));
    imap_cmd_t *cmd = imap_cmd_new(&e, ie_dstr_new2(&e, td), IMAP_CMD_LOGIN, (imap_cmd_arg_t){.login = l});
    if(is_error(e)) vh_fatal("login");
    imap_client_must_write(CL, &cw[n], cmd, cwrite_cb);
}
static void client_case(void){
    bool direct = vh_pct(G, 15), badcert = vh_pct(G, 15);
    conn_new(direct ? IMAP_SEC_TLS : IMAP_SEC_STARTTLS, badcert ? CBAD : CCTX);
    derr_t e = imap_client_new(&CL, SCH, &CONN); if(is_error(e)) vh_fatal("imap_client_new");
    imap_client_must_await(CL, cawait, NULL);
    reading = true; imap_client_must_read(CL, &creq, cread_cb);
    int nlogin = 0;
    if(vh_pct(G, 70)) client_login(nlogin++);
    bool refused = false, inject = false, partial = false; char b[600]; size_t mark = 0;
    static const char *const J[] = {"* 1 EXISTS\r\n", "L0 OK welcome\r\n", "* OK hi\r\n", "* CAPABILITY IMAP4rev1\r\n", "* XKEYSYNC OK\r\n", "* BYE go away\r\n"};
    static const char *const P[] = {"* OK inj", "*", "* BYE x", "L0 OK ", "* LIST () \"/\" {100000}\r\n", "* LIST () \"/\" \"", "L0 NO", "+", " ", "X"};
    if(!direct){
        static const char *const GR[] = {"* OK hello\r\n", "* OK [CAPABILITY IMAP4rev1 STARTTLS LOGINDISABLED] hello\r\n", "* OK [CAPABILITY IMAP4rev1] no starttls\r\n"};
        static const char *const BG[] = {"* BYE no\r\n", "* NO hello\r\n", "* PREAUTH hello\r\n", "hello there\r\n", "* 1 EXISTS\r\n", "\r\n"};
        if(vh_pct(G, 15)){ sayz(BG[vh_n(G, 6)]); quiet(false); vh_count("bad_greetings"); refused = true;
            if(OUT.len) viol("talks-after-bad-greeting", "sends %.*s", (int)OUT.len, OUT.b); }
        else{
            sayz(GR[vh_n(G, 3)]);
            wait_for_out("\n");
            if(!V_OK) return;
            /* exactly one STARTTLS command, and nothing else in the clear */
            quiet(false);
            char *sp = OUT.len ? memchr(OUT.b, ' ', OUT.len) : NULL;
            if(!sp || (size_t)(OUT.b + OUT.len - sp) != 11 || strncasecmp(sp, " STARTTLS\r\n", 11)){ viol("plain-command", "sends in the clear: %.*s", (int)OUT.len, OUT.len ? OUT.b : ""); return; }
            mark = OUT.len; outrd = mark; vh_count("starttls_sent");
            int tl = (int)(sp - OUT.b); const char *tg = OUT.b;
            if(vh_pct(G, 30)){ sayz("* OK [ALERT] soon\r\n"); vh_count("infos"); }
            int how = (int)vh_n(G, 10);
            if(how == 0){ static const char *const R[] = {"NO not now", "BAD what"}; snprintf(b, sizeof(b), "%.*s %s\r\n", tl, tg, R[vh_n(G, 2)]); sayz(b); refused = true; vh_count("starttls_refused"); }
            else if(how == 1){ sayz(vh_pct(G, 50) ? "OTHER OK go\r\n" : "* 1 FETCH (FLAGS ())\r\n"); refused = true; vh_count("starttls_strange"); }
            else if(how == 2 || how == 3){ /* more behind the OK */
                snprintf(b, sizeof(b), "%.*s OK go\r\n%s", tl, tg, J[vh_n(G, 6)]); sayz(b); inject = true; vh_count("responses_injected"); }
            else if(how == 4 || how == 5){
                const char *p = P[vh_n(G, 10)]; snprintf(b, sizeof(b), "%.*s OK go\r\n%s", tl, tg, p); sayz(b); partial = true; vh_count("fragments_injected"); }
            else { snprintf(b, sizeof(b), "%.*s OK go\r\n", tl, tg); sayz(b); }
            if(refused){ quiet(false); if(OUT.len > mark) viol("talks-after-refusal", "sends %.*s", (int)(OUT.len - mark > 60 ? 60 : OUT.len - mark), OUT.b + mark); }
        }
        if(refused && V_OK && !awaited) viol("refusal-unnoticed", "the connection goes on");
        if(refused && V_OK && (etype == E_NONE || etype == E_CANCELED)) viol("refusal-no-error", "ends without an error");
    }
    if(V_OK && !refused){
        peer_new(true); quiet(false);
        if(OUT.len > mark && OUT.b[mark] != 22) viol("plaintext-after-starttls", "sends %.*s", (int)(OUT.len - mark > 60 ? 60 : OUT.len - mark), OUT.b + mark);
        if(!awaited && OUT.len > mark && nrelayed == 0) quiet(true);
        if(badcert){
            quiet(true);
            if(clear.len) viol("spoke-to-stranger", "sends %.*s to a server it can not verify", (int)clear.len, clear.b);
            if(!awaited && !inject && !partial) viol("stranger-accepted", "goes on with a server it can not verify");
            vh_count("bad_certificates");
        }else if(SSL_is_init_finished(PS) && !p_fail && !awaited){
            tls_said = true; vh_count("sessions_encrypted");
            if(direct) psay("* OK inside\r\n", 13);
            if(!nlogin) client_login(nlogin++);
            quiet(true);
            snprintf(b, sizeof(b), "L0 LOGIN joe %s\r\n", PASS);
            if(V_OK && (clear.len != strlen(b) || memcmp(clear.b, b, clear.len))) viol("command-lost", "inside TLS the server reads: %.*s", (int)clear.len, clear.len ? clear.b : "");
            int nr = 1 + (int)vh_n(G, 5);
            for(int i = 0; i < nr && V_OK; i++){
                switch(vh_n(G, 3)){ case 0: snprintf(b, sizeof(b), "* OK inside %d\r\n", i); break; case 1: snprintf(b, sizeof(b), "* %d EXISTS\r\n", i + 1); break; default: snprintf(b, sizeof(b), "L0 OK done %d\r\n", i); }
                if(p_fail || awaited) break;
                psay(b, strlen(b)); put(expect, &nexpect, "%s", b);
                if(vh_pct(G, 60)) quiet(true);
            }
            quiet(true);
            if(V_OK && (nrelayed != nexpect || memcmp(relayed, expect, nexpect))) viol(inject || partial ? "injected-response" : "relayed-differs", "the server said inside TLS:\n%.*s\nhanded on:\n%.*s", (int)nexpect, expect, (int)nrelayed, relayed);
            vh_count("relays_compared");
        }else{
            if(!inject && !partial && V_OK) viol("handshake", "the handshake does not finish%s", p_fail ? ": failed" : awaited ? ": connection ended" : "");
            if(nrelayed) viol("injected-response", "handed on: %.*s", (int)nrelayed, relayed);
            vh_count("injections_refused");
        }
    }
    if(V_OK && find(OUT.b, OUT.len, PASS) >= 0) viol("password-in-clear", "the password was sent unencrypted");
    if(V_OK && find(OUT.b, OUT.len, "LOGIN") >= 0) viol("login-in-clear", "LOGIN was sent unencrypted");
}

static void one_case(vh_rng_t *g, uint64_t i){
    (void)i; G = g; H = 0; V_OK = true;
    IN = OUT = clear = (mq_t){0}; PS = NULL; p_fail = p_eof = false; SV = NULL; CL = NULL; awaited = false; etype = E_NONE; nreads_back = 0; nrelayed = nexpect = 0; tls_said = false; reading = writing = false; outrd = 0; cwrites = 0;
    if(vh_pct(G, 50)){ vh_count("as_server"); server_case(); } else { vh_count("as_client"); client_case(); }
    vh_distinct(H);
    /* the end */
    if(V_OK){
        if(SV) imap_server_cancel(SV, false); else imap_client_cancel(CL);
        for(int k = 0; k < 3000 && V_OK && !awaited; k++) tick(true);
        if(V_OK && !awaited) viol("never-awaited", "canceled but never awaited");
        if(V_OK && freed != 1) viol("conn-free", "the connection was freed %d times", freed);
        if(V_OK && nreads_back != (reading ? 1 : 0)) viol("read-lost", "%d reads returned", nreads_back);
    }
    if(V_OK){ imap_server_free(&SV); imap_client_free(&CL); }
    if(PS) SSL_free(PS);
    mq_free(&IN); mq_free(&OUT); mq_free(&clear);
    if(V_OK) xfree_all(); else NARENA = 0;
}
int main(int argc, char **argv){
    signal(SIGPIPE, SIG_IGN);
    setup();
    int r = vh_main(argc, argv, "starttls", one_case);
    SSL_CTX *all[] = {CCTX, CBAD, SCTX, RC, RS}; for(int i = 0; i < 5; i++) SSL_CTX_free(all[i]);
    return r;
}
