/* A real kvpsend_t and 1-4 real kvpsync receivers joined by a simulated
   network, with a simulated database and subscribers, on a virtual clock. */
#include "vh.h"
#include "server/kvpsend/kvpsend.h"

#define NSUB 5          /* subdomains / installations */
#define MAXEV 6000
#define MAXC 400
#define MAXW 400

typedef struct { bool used; bool to_recv; int peer; xtime_t at; char buf[1024]; size_t len; int sgen, rgen; uint8_t type; uint32_t sync; } ev_t;
typedef struct { subscriber_t sub; bool used, waiting, answered, health; int inst; char chal[64]; xtime_t asked; char ans; int db_ver; xtime_t anstime; } wait_t;

DEF_CONTAINER_OF(wait_t, sub, subscriber_t)
static kvpsend_t K; static bool k_up;
static kvpsync_recv_t R[4]; static bool r_up[4]; static int rgen[4];
static int np, sgen;
static xtime_t now, k_boot;
static ev_t EV[MAXEV]; static size_t nev;
static wait_t W[MAXW]; static size_t nw;
static int db[NSUB];            /* version number, 0 = none */
static int view[NSUB];          /* what kvpsend has last seen */
static bool said[NSUB];         /* ... by this kvpsend */
static bool confirmed[NSUB];    /* 'k' was said for view[] */
static bool conf_peer[NSUB][4]; /* peers in sync at that time */
static xtime_t conf_time[NSUB];
static bool sub_used[NSUB];
static xtime_t scan_at, tmo_at, snd_timer[4], snd_done[4];
static bool any_ok[NSUB];       /* some peer was in sync since the view changed */
static bool reached[4];         /* peer acknowledged something to this kvpsend */
static vh_rng_t *G;
static int p_loss, p_dup; static bool dead[4]; static bool healthy; static int snd_slow;
static int db_fail;             /* countdown to a database error, 0 never */
static bool failed;             /* kvpsend reported an application failure */
static xtime_t good_since[4];
static size_t iter_pos; static bool iter_open;
static struct sockaddr_storage peers[4];
static uint64_t H;

static const char *subname(int i){ static const char *n[NSUB] = {"aaaaaaaa", "aaaab", "m", "zz", "zzzzzzzz"}; return n[i]; }
static const char *vername(int v){ static char b[4][300]; static int k; k = (k + 1) % 4; snprintf(b[k], 300, "chal-%d", v); if(v % 7 == 3){ size_t l = strlen(b[k]); memset(b[k] + l, 'x', 255 - l); b[k][255] = 0; } return b[k]; }
static void viol(const char *key, const char *fmt, ...){
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    vh_violation(key, "%s: %s (t=%.3fs kvpsend gen %d)", key, b, (double)now / 1e9, sgen);
}
/* ---- interface ---- */
static void i_scan(kvpsend_i *I, xtime_t d){ (void)I; if(scan_at != XTIME_MAX) viol("scan-double", "scan timer started twice"); scan_at = d; if(d > now + FULL_SCAN_PERIOD || d < now) viol("scan-time", "scan timer %f s away", (double)(int64_t)(d - now) / 1e9); }
static void i_tstart(kvpsend_i *I, xtime_t d){ (void)I; if(tmo_at != XTIME_MAX) viol("tmo-double", "timeout timer started twice"); tmo_at = d; }
static void i_tstop(kvpsend_i *I){ (void)I; if(tmo_at == XTIME_MAX) viol("tmo-stop", "timeout timer stopped while not running"); tmo_at = XTIME_MAX; }
static void i_close(kvpsend_i *I, subscriber_t *s){
    (void)I; wait_t *w = CONTAINER_OF(s, wait_t, sub);
    if(w->answered){ viol("answer-twice", "subscriber closed after being answered '%c'", w->ans); return; }
    w->answered = true; w->ans = 'x'; w->anstime = now; vh_count("closed");
}
static void i_respond(kvpsend_i *I, subscriber_t *s, dstr_t msg){
    (void)I; wait_t *w = CONTAINER_OF(s, wait_t, sub);
    if(w->answered){ viol("answer-twice", "subscriber answered again after '%c'", w->ans); return; }
    w->answered = true; w->anstime = now;
    if(w->health){
        char want[16]; int n = 0;
        for(int i = 0; i < np; i++) want[n++] = K.senders[i].send.recv_ok || (K.okmask & (1u << i)) ? ((K.okmask & (1u << i)) ? 'y' : 'n') : 'n';
        want[n++] = '\n';
        if(msg.len != (size_t)n || memcmp(msg.data, want, (size_t)n)) viol("health", "healthcheck answered \"%.*s\"", (int)msg.len, msg.data);
        w->ans = 'h';
        for(int i = 0; i < np && i < (int)msg.len; i++){
            if(msg.data[i] == 'y') vh_count("health_y"); else vh_count("health_n");
            if(msg.data[i] == 'y' && !reached[i]) viol("health-unreached", "healthcheck says peer %d is in sync, which never answered", i);
        }
        return;
    }
    if(msg.len != 1 || (msg.data[0] != 'k' && msg.data[0] != 't')){ viol("answer-text", "subscriber got \"%.*s\"", (int)msg.len, msg.data); return; }
    w->ans = msg.data[0];
    if(w->ans == 't'){
        vh_count("timeouts");
        if(now < w->asked + SUBSCRIBER_TIMEOUT) viol("early-timeout", "timeout after %.3fs", (double)(now - w->asked) / 1e9);
        return;
    }
    vh_count("ks");
    if(VH.verbose) fprintf(stderr, "  k for %d %s okmask %x\n", w->inst, w->chal, K.okmask);
    int i = w->inst;
    if(!view[i] || strcmp(vername(view[i]), w->chal)){ viol("k-wrong", "k for a challenge which kvpsend's database does not have"); return; }
    bool any = false;
    for(int p = 0; p < np; p++) if(K.okmask & (1u << p)) any = true;
    if(!any && !any_ok[i]) viol("k-no-peer", "k though no peer was in sync since this challenge is known");
    if(!confirmed[i]) conf_time[i] = now;
    if(!said[i]) for(int p = 0; p < np; p++) conf_peer[i][p] = reached[p] && (K.okmask & (1u << p));
    confirmed[i] = said[i] = true;
}
static derr_t i_send(kvpsend_i *I, sender_t *s, const kvp_update_t *p){
    (void)I;
    int i = (int)(s - K.senders);
    if(i < 0 || i >= np) vh_fatal("bad sender");
    if(snd_done[i] != XTIME_MAX) viol("send-overlap", "packet sent while the last is being written");
    dstr_t out = {0};
    derr_t e = kvpsync_update_write(p, &out);
    if(is_error(e)) vh_fatal("update write");
    if(p->ok_expiry > now + MIN_RESPONSE) viol("ok-too-long", "ok_expiry grants more than 15s");
    ev_t ev = { .used = true, .to_recv = true, .peer = i, .sgen = sgen, .rgen = rgen[i], .type = p->type, .sync = p->sync_id, .len = out.len };
    memcpy(ev.buf, out.data, out.len);
    dstr_free(&out);
    int copies = 1;
    vh_count("pkts_sent");
    if(VH.verbose) fprintf(stderr, "  send peer %d type %d sync %x up %u del %u key %.*s val %.*s expiry %.3f\n", i, p->type, p->sync_id, p->update_id, p->delete_id, p->klen, p->key, p->vlen, p->val, (double)(int64_t)(p->ok_expiry - now) / 1e9);
    if(dead[i]) copies = 0;
    if(!healthy){ if((int)vh_n(G, 100) < p_loss) copies = 0; if((int)vh_n(G, 100) < p_dup) copies++; }
    if(!copies) vh_count("pkts_lost");
    while(copies-- > 0){
        ev.at = now + (xtime_t)(healthy || vh_pct(G, 80) ? vh_range(G, 1, 200) : vh_range(G, 1, 4000)) * MILLISECOND;
        for(size_t k = 0; k < MAXEV; k++) if(!EV[k].used){ EV[k] = ev; if(k >= nev) nev = k + 1; break; }
    }
    snd_done[i] = now + (xtime_t)(vh_pct(G, 90) ? 0 : vh_range(G, 0, snd_slow)) * MILLISECOND;
    return E_OK;
}
static void i_sstart(kvpsend_i *I, sender_t *s, xtime_t d){ (void)I; long i = s - K.senders; if(snd_timer[i] != XTIME_MAX) viol("snd-double", "sender timer started twice"); snd_timer[i] = d; }
static void i_sstop(kvpsend_i *I, sender_t *s){ (void)I; long i = s - K.senders; if(snd_timer[i] == XTIME_MAX) viol("snd-stop", "sender timer stopped while not running"); snd_timer[i] = XTIME_MAX; }
static derr_t dbfail(const char *what){
    derr_t e = E_OK;
    if(db_fail && --db_fail == 0){ vh_count("db_errors"); ORIG(&e, E_SQL, "injected %x", FS(what)); }
    return e;
}
static int scanview[NSUB];
static void it_set(challenge_iter_t *it){
    while(iter_pos < NSUB && !db[iter_pos]) iter_pos++;
    it->ok = iter_pos < NSUB;
    if(!it->ok) return;
    DSTR_WRAP_ARRAY(it->subdomain, it->_subdomainbuf); DSTR_WRAP_ARRAY(it->challenge, it->_challengebuf);
    const char *s = subname((int)iter_pos), *c = vername(db[iter_pos]);
    memcpy(it->subdomain.data, s, strlen(s)); it->subdomain.len = strlen(s);
    memcpy(it->challenge.data, c, strlen(c)); it->challenge.len = strlen(c);
}
static void see(int i, int ver){ if(view[i] != ver){ view[i] = ver; any_ok[i] = false; confirmed[i] = said[i] = false; memset(conf_peer[i], 0, sizeof(conf_peer[i])); } }
/* note: views change at the moment the code learns of the new state */
static derr_t i_first(kvpsend_i *I, challenge_iter_t *it){
    (void)I; derr_t e = E_OK;
    memset(it, 0, sizeof(*it));
    if(iter_open) viol("iter-leak", "second scan while one is open");
    iter_open = true;
    PROP(&e, dbfail("first") );
    iter_pos = 0; it_set(it);
    for(int i = 0; i < NSUB; i++) see(i, db[i]);
    return e;
}
static derr_t i_next(kvpsend_i *I, challenge_iter_t *it){
    (void)I; derr_t e = E_OK;
    PROP(&e, dbfail("next") );
    iter_pos++; it_set(it);
    return e;
}
static void i_free(kvpsend_i *I, challenge_iter_t *it){ (void)I; (void)it; iter_open = false; }
static derr_t i_get(kvpsend_i *I, const dstr_t uuid, dstr_t *sub, bool *sub_ok, dstr_t *chal, bool *chal_ok){
    (void)I; derr_t e = E_OK;
    *sub_ok = *chal_ok = false;
    PROP(&e, dbfail("get") );
    if(uuid.len != 1) return e;
    int i = uuid.data[0] - '0';
    if(i < 0 || i >= NSUB) return e;
    *sub_ok = true;
    dstr_append_quiet(sub, &(dstr_t){ .data = (char*)subname(i), .len = strlen(subname(i)), .size = 9, .fixed_size = true });
    if(db[i]){ *chal_ok = true; dstr_t c = dstr_from_cstr((char*)vername(db[i])); dstr_append_quiet(chal, &c); }
    see(i, db[i]);
    return e;
}
static kvpsend_i IF = { i_scan, i_tstart, i_tstop, i_close, i_respond, i_send, i_sstart, i_sstop, i_first, i_next, i_free, i_get };

static void app_err(derr_t e, const char *what){
    if(!is_error(e)) return;
    if(db_fail || e.type != E_SQL) { viol("app-failure", "%s failed without a database error", what); }
    DROP_VAR(&e);
    failed = true;
}
static void k_stop(void){
    if(!k_up) return;
    kvpsend_free(&K); k_up = false;
    for(size_t i = 0; i < nw; i++) if(W[i].waiting && !W[i].answered && W[i].used) viol("unanswered", "subscriber neither answered nor closed at shutdown");
    for(size_t i = 0; i < nw; i++) W[i].waiting = false;
    scan_at = tmo_at = XTIME_MAX;
    for(int i = 0; i < 4; i++) snd_timer[i] = snd_done[i] = XTIME_MAX;
}
static void k_start(void){
    sgen++; k_boot = now; failed = false; memset(said, 0, sizeof(said)); memset(any_ok, 0, sizeof(any_ok));
    scan_at = tmo_at = XTIME_MAX;
    for(int i = 0; i < 4; i++){ snd_timer[i] = snd_done[i] = XTIME_MAX; reached[i] = false; good_since[i] = now; }
    db_fail = 0; iter_open = false;
    derr_t e = kvpsend_init(&K, &IF, now, peers, (size_t)np);
    if(is_error(e)) vh_fatal("kvpsend_init");
    k_up = true;
    app_err(initial_actions(&K, now), "initial_actions");
}
static void r_start(int i){ rgen[i]++; r_up[i] = true; derr_t e = kvpsync_recv_init(&R[i]); if(is_error(e)) vh_fatal("recv_init"); }
static void r_stop(int i){ if(r_up[i]){ kvpsync_recv_free(&R[i]); r_up[i] = false; } }

static void query(void){
    for(int p = 0; p < np; p++) if(r_up[p]) for(int i = 0; i < NSUB; i++){
        dstr_t ks = dstr_from_cstr((char*)subname(i));
        const dstr_t *v = kvpsync_recv_get_value(&R[p], now, ks);
        vh_count(v == UNSURE ? "ans_unsure" : v ? "ans_value" : "ans_none");
        if(!k_up || !confirmed[i] || view[i] != db[i]) continue;
        vh_count("checked_after_k");
        if(v == UNSURE) continue;
        /* the receiver may still be on the sync of an older kvpsend */
        bool old = R[p].sync_id != K.senders[p].send.sync_id;
        if(v == NULL){
            const char *k = !old ? "none-after-k" : now < k_boot + MIN_RESPONSE ? "none-before-resync-after-restart" : "none-from-old-sync";
            viol(k, "peer %d answers none for subdomain %d, %.3fs after its challenge was reported ready", p, i, (double)(now - conf_time[i]) / 1e9);
            continue;
        }
        const char *c = vername(view[i]);
        bool same = v->len == strlen(c) && !memcmp(v->data, c, v->len);
        if(!same && conf_peer[i][p]) viol(old ? "stale-before-flush-after-restart" : "stale-after-k", "peer %d answers %.*s instead of %s after it was reported ready", p, (int)v->len, v->data, c);
    }
}
static void check_waiters(void){
    for(size_t i = 0; i < nw; i++) if(W[i].waiting && !W[i].answered){
        wait_t *w = &W[i];
        if(now > w->asked + SUBSCRIBER_TIMEOUT + 50 * MILLISECOND) viol("no-timeout", "subscriber still waiting after %.3fs", (double)(now - w->asked) / 1e9);
        if(!view[w->inst] || strcmp(vername(view[w->inst]), w->chal)) viol("stale-waiter", "subscriber still waits for a challenge which was replaced");
        if(said[w->inst]) viol("waiter-left", "subscriber still waits though the challenge was reported ready");
    }
}
static void ask(void){
    if(nw == MAXW || !k_up || failed) return;
    wait_t *w = &W[nw++];
    memset(w, 0, sizeof(*w));
    w->used = true; w->asked = now; w->waiting = true;
    if(vh_pct(G, 10)){ w->health = true; healthcheck_read_cb(&K, &w->sub); if(!w->answered) viol("health-none", "healthcheck not answered"); vh_count("healthchecks"); return; }
    char u[2] = "0"; w->inst = (int)vh_n(G, NSUB); u[0] = (char)('0' + w->inst);
    bool bad = vh_pct(G, 5); if(bad) u[0] = 'Z';
    int v = db[w->inst];
    bool mism = !v || vh_pct(G, 10);
    snprintf(w->chal, sizeof(w->chal), "%s", "");
    static char full[300]; snprintf(full, 300, "%s", mism ? (v && vh_pct(G, 30) ? vername(v + 1) : "nope") : vername(v));
    bool longc = strlen(full) >= sizeof(w->chal);
    if(!longc) snprintf(w->chal, sizeof(w->chal), "%s", full);
    if(longc){ /* too long for the record: use it, but judge nothing but the count */ nw--; return; }
    bool was_conf = said[w->inst] && view[w->inst] == v;
    bool dberr = db_fail == 1;
    dstr_t du = dstr_from_cstr(u), dc = dstr_from_cstr(w->chal);
    vh_count("asked");
    app_err(subscriber_read_cb(&K, &w->sub, du, dc, now), "subscriber_read_cb");
    if(dberr || failed){ if(!w->answered) viol("err-open", "subscriber left open after a database error"); return; }
    if(bad || mism){ if(!w->answered || w->ans != 'x') viol("not-closed", "subscriber with wrong installation or challenge was not closed"); }
    else if(w->answered && w->ans == 'x') viol("closed-wrongly", "subscriber with the right challenge was closed");
    else if(was_conf && !(w->answered && w->ans == 'k')) viol("k-forgotten", "second subscriber is not answered k at once");
}
static void one(vh_rng_t *r, uint64_t idx){
    (void)idx; G = r;
    for(size_t i = 0; i < nev; i++) EV[i].used = false;
    nev = 0; nw = 0; sgen = 0; H = 0; healthy = false; failed = false; k_up = false;
    memset(confirmed, 0, sizeof(confirmed)); memset(view, 0, sizeof(view)); memset(conf_peer, 0, sizeof(conf_peer)); memset(db, 0, sizeof(db)); memset(rgen, 0, sizeof(rgen));
    np = (int)vh_range(r, 1, 4);
    now = (xtime_t)vh_range(r, 1000, 2000000) * SECOND;
    p_loss = vh_pct(r, 40) ? 0 : (int)vh_n(r, 40); p_dup = vh_pct(r, 40) ? 0 : (int)vh_n(r, 30);
    snd_slow = vh_pct(r, 70) ? 50 : 1500;
    int nver = 0;
    bool all_dead = vh_pct(r, 10);
    for(int i = 0; i < np; i++){ r_up[i] = false; dead[i] = all_dead || vh_pct(r, 15); r_start(i); good_since[i] = now; }
    for(int i = 0; i < NSUB; i++) if(vh_pct(r, 50)) db[i] = ++nver;
    k_start();
    xtime_t heal = now + (xtime_t)vh_range(r, 20, 150) * SECOND, end = heal + 140 * SECOND;
    xtime_t next_op = now, next_q = now;
    int rate = (int)vh_range(r, 100, 8000);
    bool db_faults = vh_pct(r, 20);
    while(now < end){
        xtime_t t = next_op; int what = 0, who = 0;
        if(next_q < t){ t = next_q; what = 1; }
        if(k_up && scan_at < t){ t = scan_at; what = 2; }
        if(k_up && tmo_at < t){ t = tmo_at; what = 3; }
        if(k_up) for(int i = 0; i < np; i++){
            if(snd_timer[i] < t){ t = snd_timer[i]; what = 4; who = i; }
            if(snd_done[i] < t){ t = snd_done[i]; what = 5; who = i; }
        }
        size_t pick = (size_t)-1;
        for(size_t i = 0; i < nev; i++) if(EV[i].used && EV[i].at < t){ t = EV[i].at; pick = i; what = 6; }
        if(t > now) now = t;
        if(!healthy && now >= heal){
            healthy = true; for(int i = 0; i < np; i++){ dead[i] = false; good_since[i] = now; if(!r_up[i]) r_start(i); }
            if(failed) k_stop();
            if(!k_up) k_start();
        }
        if(VH.verbose) fprintf(stderr, "%.3f what %d who %d okmask %x", (double)now / 1e9, what, who, K.okmask);
        if(VH.verbose){ for(int q = 0; q < np; q++) fprintf(stderr, " [%d %x/%x exp %.3f ok %d]", q, R[q].sync_id, K.senders[q].send.sync_id, (double)(int64_t)(R[q].ok_expiry - now)/1e9, K.senders[q].send.recv_ok); if(pick != (size_t)-1) fprintf(stderr, " ev recv %d peer %d type %d sync %x sgen %d", EV[pick].to_recv, EV[pick].peer, EV[pick].type, EV[pick].sync, EV[pick].sgen); fprintf(stderr, "\n"); }
        if(what == 0){
            next_op = now + (xtime_t)vh_range(r, 1, rate) * MILLISECOND;
            int w = (int)vh_n(r, 100);
            if(healthy){ if(w < 30 && now < heal + 70 * SECOND) ask(); goto chk; }
            int i = (int)vh_n(r, NSUB), p = (int)vh_n(r, (uint64_t)np);
            if(w < 25){ db[i] = ++nver; vh_count("db_set"); if(vh_pct(r, 60)) ask(); }
            else if(w < 35){ db[i] = 0; vh_count("db_del"); }
            else if(w < 75) ask();
            else if(w < 79){ k_stop(); if(vh_pct(r, 70)) k_start(); vh_count("kvpsend_restarts"); }
            else if(w < 84){ r_stop(p); if(vh_pct(r, 70)) r_start(p); vh_count("receiver_restarts"); good_since[p] = now; }
            else if(w < 90){ if(!all_dead) dead[p] = !dead[p]; good_since[p] = now; }
            else if(w < 92 && db_faults){ db_fail = (int)vh_range(r, 1, 8); }
            else { if(failed) k_stop(); if(!k_up) k_start(); for(int q = 0; q < np; q++) if(!r_up[q]){ r_start(q); good_since[q] = now; } }
        }else if(what == 1){ query(); next_q = now + (xtime_t)vh_range(r, 100, 2000) * MILLISECOND; }
        else if(what == 2){ scan_at = XTIME_MAX; bool h = db_fail != 0; app_err(scan_timer_cb(&K, now), "scan"); if(!failed && scan_at == XTIME_MAX) viol("scan-lost", "no further scan scheduled"); (void)h; vh_count("scans"); }
        else if(what == 3){ tmo_at = XTIME_MAX; app_err(timeout_timer_cb(&K, now), "timeout"); }
        else if(what == 4){ snd_timer[who] = XTIME_MAX; app_err(sender_timer_cb(&K, &K.senders[who], now), "sender timer"); }
        else if(what == 5){ snd_done[who] = XTIME_MAX; app_err(sender_send_cb(&K, &K.senders[who], now), "send cb"); }
        else if(what == 6){
            ev_t ev = EV[pick]; EV[pick].used = false;
            dstr_t d = { .data = ev.buf, .len = ev.len, .size = ev.len, .fixed_size = true };
            H = vh_hash(&ev.type, 1, H); H = vh_hash(&ev.peer, sizeof(int), H); H = vh_hash(&what, 4, H);
            if(ev.to_recv){
                if(dead[ev.peer] || !r_up[ev.peer]) goto chk;
                /* see C25 for control packets which outlive their sync */
                if((ev.sgen != sgen || ev.rgen != rgen[ev.peer] || !k_up || ev.sync != K.senders[ev.peer].send.sync_id) && (ev.type == KVP_UPDATE_FLUSH || ev.type == KVP_UPDATE_START)) goto chk;
                kvp_update_t u; kvp_ack_t a;
                if(!kvpsync_update_read(d, &u)) vh_fatal("unreadable");
                if(VH.verbose) fprintf(stderr, "  deliver type %d up %u\n", u.type, u.update_id);
                derr_t e = kvpsync_recv_handle_update(&R[ev.peer], now, u, &a);
                if(is_error(e)) vh_fatal("handle_update");
                dstr_t out = {0};
                e = kvpsync_ack_write(&a, &out); if(is_error(e)) vh_fatal("ack write");
                ev_t b = { .used = true, .peer = ev.peer, .sgen = sgen, .rgen = rgen[ev.peer], .len = out.len };
                memcpy(b.buf, out.data, out.len); dstr_free(&out);
                bool lost = !healthy && (int)vh_n(r, 100) < p_loss;
                b.at = now + (xtime_t)(healthy || vh_pct(r, 80) ? vh_range(r, 1, 200) : vh_range(r, 1, 4000)) * MILLISECOND;
                if(!lost) for(size_t k = 0; k < MAXEV; k++) if(!EV[k].used){ EV[k] = b; if(k >= nev) nev = k + 1; break; }
            }else if(k_up && !dead[ev.peer] && !failed){
                /* the socket of an older kvpsend is gone */
                kvp_ack_t a;
                if(!kvpsync_ack_read(d, &a)) vh_fatal("unreadable ack");
                if(ev.sgen == sgen && a.update_id != 0 && a.sync_id == K.senders[ev.peer].send.sync_id) reached[ev.peer] = true;
                app_err(sender_recv_cb(&K, &K.senders[ev.peer], a, now), "recv cb");
            }
        }
chk:
        if(k_up && K.okmask) for(int i = 0; i < NSUB; i++) any_ok[i] = true;
        if(failed && k_up){ k_stop(); if(vh_pct(r, 50) || healthy) k_start(); }
        if(k_up) check_waiters();
        for(int i = 0; i < np && k_up; i++) if(snd_timer[i] == XTIME_MAX && snd_done[i] == XTIME_MAX) viol("sender-asleep", "sender %d waits for neither a timer nor a write", i);
        /* some peer has been in good condition for long: nobody waits in vain */
        if(healthy && k_up && now > heal + 45 * SECOND) for(size_t i = 0; i < nw; i++) if(W[i].waiting && !W[i].answered && !W[i].health && now > W[i].asked + 10 * SECOND) { viol("wait-in-vain", "subscriber waits for %.1fs on a healthy system", (double)(now - W[i].asked) / 1e9); W[i].asked = now; }
    }
    query();
    for(int p = 0; p < np; p++) if(!(K.okmask & (1u << p))) viol("final-not-ok", "peer %d not in sync at the end", p);
    for(int i = 0; i < NSUB; i++) if(view[i] != db[i]) viol("final-view", "scan missed a change");
    for(int p = 0; p < np; p++) for(int i = 0; i < NSUB; i++){
        const dstr_t *v = kvpsync_recv_get_value(&R[p], now, dstr_from_cstr((char*)subname(i)));
        const char *c = db[i] ? vername(db[i]) : NULL;
        if(v == UNSURE || (!v && c) || (v && !c) || (v && (v->len != strlen(c) || memcmp(v->data, c, v->len)))) viol("final-data", "peer %d does not answer the database's state for %d", p, i);
    }
    vh_distinct(H);
    k_stop();
    for(int i = 0; i < np; i++) r_stop(i);
}
int main(int argc, char **argv){ return vh_main(argc, argv, "kvpsend", one); }
