/* Simulated network between a real kvpsync sender and a real kvpsync receiver.
   A model of the database and of the packets the receiver got judges every
   answer the receiver gives and every callback the sender makes. */
#include "vh.h"
#include "server/libkvpsync/libkvpsync.h"

#define NKEYS 8
#define MAXEV 4000
#define MAXADD 600
#define MAXUP 20000

typedef struct { int key; char val[16]; xtime_t added, ended; bool live; int cbs; bool deleted; int sender_gen; bool cb_void; int cb_gen; int cb_recv_gen; uint32_t cb_sync; } add_t;
typedef struct { bool used; bool to_recv; xtime_t at; char buf[1024]; size_t len; int sgen, rgen; uint8_t type; uint32_t sync, up; xtime_t sent; } ev_t;

static kvpsync_send_t S; static kvpsync_recv_t R;
static bool s_up, r_up;
static int sgen, rgen;
static xtime_t now;
static ev_t EV[MAXEV]; static size_t nev;
static add_t A[MAXADD]; static size_t nadd;
static int cur[NKEYS];         /* index into A or -1 */
static bool send_ok;
static xtime_t last_rx_sent, r_boot;
static bool r_flushed; static uint32_t r_sync;   /* what the receiver finished */
static struct { uint32_t sync, up; int add; bool dead; } U[MAXUP]; static size_t nu;
static bool stale_mode; static const char *kprefix;
static char keybuf[32];
static vh_rng_t *G;
static int p_loss, p_dup, p_slow, healthy;

static dstr_t kstr(int k){
    if(k == 0) return (dstr_t){ .data = keybuf, .len = 0, .size = 1, .fixed_size = true };
    snprintf(keybuf, sizeof(keybuf), "key-%d", k);
    return dstr_from_cstr(keybuf);
}
static void viol(const char *key, const char *fmt, ...){
    char b[512], k[128]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
    snprintf(k, sizeof(k), "%s", *kprefix ? kprefix : key);
    vh_violation(k, "%s: %s (t=%.3fs sender gen %d receiver gen %d)", key, b, (double)now / 1e9, sgen, rgen);
}
static void state_cb(kvpsync_send_t *s, bool ok, void *d){ (void)s; (void)d; if(ok == send_ok) viol("state-cb-repeat", "state callback repeated %d", ok); send_ok = ok; vh_count(ok ? "state_ok" : "state_not_ok"); }
static void add_cb(kvpsync_send_t *s, void *d){
    (void)s;
    add_t *a = d;
    if(a->cb_void) viol("cb-after-delete", "callback for deleted key %d", a->key);
    if(a->sender_gen != sgen) viol("cb-wrong-sender", "callback from an older sender");
    if(++a->cbs > 1) viol("cb-twice", "callback for key %d called %d times", a->key, a->cbs);
    a->cb_recv_gen = rgen; a->cb_sync = S.sync_id;
    vh_count("add_acked");
}
static void ev_add(ev_t e){
    for(size_t i = 0; i < MAXEV; i++) if(!EV[i].used){ EV[i] = e; EV[i].used = true; if(i >= nev) nev = i + 1; return; }
}
static xtime_t delay(void){
    if(healthy) return (xtime_t)vh_range(G, 5, 60) * MILLISECOND;
    if((int)vh_n(G, 1000) < p_slow) return (xtime_t)vh_range(G, 1000, 120000) * MILLISECOND;
    return (xtime_t)vh_range(G, 1, vh_pct(G, 20) ? 4000 : 300) * MILLISECOND;
}
static void net_send(ev_t e){
    vh_count(e.to_recv ? "updates_sent" : "acks_sent");
    int copies = 1;
    if(!healthy){
        if((int)vh_n(G, 100) < p_loss){ vh_count("lost"); copies = 0; }
        if((int)vh_n(G, 100) < p_dup){ copies += 1 + (int)vh_n(G, 2); vh_count("duplicated"); }
    }
    while(copies--){ e.at = now + delay(); ev_add(e); }
}
static void s_start(void){
    sgen++; s_up = true; send_ok = false;
    derr_t e = kvpsync_send_init(&S, now, state_cb, NULL);
    if(is_error(e)) vh_fatal("send_init");
    for(int k = 0; k < NKEYS; k++) if(cur[k] >= 0){
        add_t *a = &A[cur[k]];
        a->sender_gen = sgen; a->cbs = 0;
        kvpsync_send_add_key(&S, now, kstr(k), dstr_from_cstr(a->val), add_cb, a);
    }
}
static void s_stop(void){ if(s_up){ kvpsync_send_free(&S); s_up = false; } }
static void r_start(void){
    rgen++; r_up = true; r_flushed = false; r_sync = 0; last_rx_sent = 0; r_boot = now;
    derr_t e = kvpsync_recv_init(&R);
    if(is_error(e)) vh_fatal("recv_init");
}
static void r_stop(void){ if(r_up){ kvpsync_recv_free(&R); r_up = false; } }
static void set_key(int k, const char *val){
    if(nadd == MAXADD) return;
    if(cur[k] >= 0){
        add_t *o = &A[cur[k]];
        o->live = false; o->ended = now;
        if(s_up && vh_pct(G, 70)){ o->cb_void = true; kvpsync_send_delete_key(&S, kstr(k)); }
    }
    add_t *a = &A[nadd];
    *a = (add_t){ .key = k, .added = now, .live = true, .sender_gen = sgen };
    snprintf(a->val, sizeof(a->val), "%s", val);
    cur[k] = (int)nadd++;
    if(s_up) kvpsync_send_add_key(&S, now, kstr(k), dstr_from_cstr(a->val), add_cb, a);
    vh_count("key_set");
}
static void del_key(int k){
    if(cur[k] < 0) return;
    add_t *a = &A[cur[k]];
    a->live = false; a->ended = now; a->cb_void = true; cur[k] = -1;
    if(s_up) kvpsync_send_delete_key(&S, kstr(k));
    vh_count("key_deleted");
}
static xtime_t s_run(void){
    if(!s_up) return XTIME_MAX;
    for(int n = 0; n < 5000; n++){
        kvpsync_run_t r = kvpsync_send_run(&S, now);
        if(r.pkt){
            const kvp_update_t *p = r.pkt;
            dstr_t out = {0};
            derr_t e = kvpsync_update_write(p, &out);
            if(is_error(e)){ viol("write-fail", "sender packet type %d cannot be written", p->type); DROP_VAR(&e); dstr_free(&out); continue; }
            if(p->ok_expiry > now + MIN_RESPONSE) viol("ok-too-long", "ok_expiry grants more than 15s");
            ev_t ev = { .to_recv = true, .sgen = sgen, .rgen = rgen, .type = p->type, .sync = p->sync_id, .up = p->update_id, .len = out.len, .sent = now };
            if(out.len > sizeof(ev.buf)) vh_fatal("packet size");
            memcpy(ev.buf, out.data, out.len);
            if(p->type == KVP_UPDATE_INSERT){
                /* remember which version this update id stands for */
                bool known = false;
                for(size_t i = nu; i-- > 0;) if(U[i].sync == p->sync_id && U[i].up == p->update_id){ known = true; break; }
                if(!known && nu < MAXUP){
                    int found = -1;
                    for(size_t i = nadd; i-- > 0;) if(strlen(A[i].val) == p->vlen && !memcmp(A[i].val, p->val, p->vlen) && kstr(A[i].key).len == p->klen && !memcmp(kstr(A[i].key).data, p->key, p->klen)){ found = (int)i; break; }
                    if(found < 0) viol("unknown-insert", "sender sent a value that was never added");
                    U[nu].sync = p->sync_id; U[nu].up = p->update_id; U[nu].add = found; U[nu].dead = false; nu++;
                }
            }
            dstr_free(&out);
            net_send(ev);
        }
        if(r.deadline > now) return r.deadline;
        if(!r.pkt){ viol("busy-deadline", "no packet but a deadline in the past"); return now + SECOND; }
    }
    viol("endless-send", "sender wants to send forever");
    return now + SECOND;
}
static void codec_check(const ev_t *ev){
    /* the wire format carries every field, and nothing shorter is accepted */
    char *ex = malloc(ev->len ? ev->len : 1);
    for(size_t n = 0; n < ev->len; n++) if(vh_pct(G, 20)){
        char *q = malloc(n ? n : 1); memcpy(q, ev->buf, n);
        dstr_t d = { .data = q, .len = n, .size = n, .fixed_size = true };
        if(ev->to_recv){ kvp_update_t u; if(kvpsync_update_read(d, &u)) viol("short-update", "update cut to %zu of %zu bytes accepted", n, ev->len); }
        else { kvp_ack_t u; if(kvpsync_ack_read(d, &u)) viol("short-ack", "ack cut to %zu bytes accepted", n); }
        free(q);
    }
    /* damaged packets must not crash the reader */
    memcpy(ex, ev->buf, ev->len);
    if(ev->len) ex[vh_n(G, ev->len)] = (char)vh_u64(G);
    dstr_t d = { .data = ex, .len = ev->len, .size = ev->len, .fixed_size = true };
    kvp_update_t u; kvp_ack_t a;
    if(kvpsync_update_read(d, &u)) vh_count("damaged_readable");
    (void)!kvpsync_ack_read(d, &a);
    free(ex);
}
static void deliver(ev_t *ev){
    char *ex = malloc(ev->len ? ev->len : 1);
    memcpy(ex, ev->buf, ev->len);
    dstr_t d = { .data = ex, .len = ev->len, .size = ev->len, .fixed_size = true };
    if(vh_pct(G, 5)) codec_check(ev);
    if(ev->to_recv && r_up){
        kvp_update_t u;
        if(!kvpsync_update_read(d, &u)){ viol("unreadable", "written packet of type %d cannot be read", ev->type); goto out; }
        if(u.sync_id != ev->sync || u.update_id != ev->up || (uint8_t)u.type != ev->type) viol("misread", "packet fields changed");
        dstr_t again = {0};
        derr_t e = kvpsync_update_write(&u, &again);
        if(is_error(e) || again.len != ev->len || memcmp(again.data, ev->buf, ev->len)) viol("codec", "packet of type %d reads and writes differently", ev->type);
        DROP_VAR(&e); dstr_free(&again);
        kvp_ack_t ack;
        e = kvpsync_recv_handle_update(&R, now, u, &ack);
        if(is_error(e)){ viol("handle-error", "receiver failed on a valid packet"); DROP_VAR(&e); goto out; }
        vh_count("updates_delivered");
        bool reset = ack.update_id == 0;
        if(!reset){
            if(ack.sync_id != u.sync_id || ack.update_id != u.update_id) viol("ack-wrong", "ack does not name its packet");
            if(ev->sent > last_rx_sent) last_rx_sent = ev->sent;
            if(u.type == KVP_UPDATE_FLUSH){ r_sync = u.sync_id; r_flushed = true; vh_count("flushes"); }
            if(u.type == KVP_UPDATE_DELETE) for(size_t i = 0; i < nu; i++) if(U[i].sync == u.sync_id && U[i].up == u.delete_id){ U[i].dead = true; break; }
        }else vh_count("resets");
        dstr_t out = {0};
        e = kvpsync_ack_write(&ack, &out);
        kvp_ack_t back;
        if(is_error(e) || !kvpsync_ack_read(out, &back) || back.sync_id != ack.sync_id || back.update_id != ack.update_id) viol("ack-codec", "ack reads differently");
        DROP_VAR(&e);
        ev_t a = { .to_recv = false, .len = out.len, .sgen = sgen, .rgen = rgen, .sync = ack.sync_id, .up = ack.update_id, .sent = now };
        memcpy(a.buf, out.data, out.len);
        dstr_free(&out);
        net_send(a);
    }else if(!ev->to_recv && s_up){
        kvp_ack_t a;
        if(!kvpsync_ack_read(d, &a)){ viol("unreadable-ack", "ack cannot be read"); goto out; }
        kvpsync_send_handle_ack(&S, a, now);
        vh_count("acks_delivered");
    }
out:
    free(ex);
}
static void query(bool final){
    if(!r_up) return;
    for(int k = 0; k < NKEYS + 1; k++){
        if(!final && !vh_pct(G, 60)) continue;
        dstr_t ks = kstr(k);
        const dstr_t *v = kvpsync_recv_get_value(&R, now, ks);
        if(v == UNSURE){
            vh_count("ans_unsure");
            if(final) viol("final-unsure", "key %d still unsure after the network healed", k);
            continue;
        }
        int c = k < NKEYS ? cur[k] : -1;
        if(v == NULL){
            vh_count("ans_null");
            if(now > last_rx_sent + MIN_RESPONSE) viol("null-too-late", "confident no for key %d more than 15s after the last packet", k);
            if(c >= 0 && now >= A[c].added + MIN_RESPONSE) viol("null-old-key", "confident no for key %d which was added %.3fs ago", k, (double)(now - A[c].added) / 1e9);
            if(c >= 0 && A[c].cbs && A[c].sender_gen == sgen && A[c].cb_recv_gen == rgen && r_flushed && r_sync == A[c].cb_sync) viol("null-acked-key", "confident no for key %d which the receiver acknowledged", k);
            if(final && c >= 0) viol("final-null", "key %d missing after the network healed", k);
            continue;
        }
        vh_count("ans_value");
        /* which version is it? */
        int ai = -1;
        for(size_t i = 0; i < nadd; i++) if(A[i].key == k && strlen(A[i].val) == v->len && !memcmp(A[i].val, v->data, v->len)) ai = (int)i;
        if(ai < 0){ viol("invented-value", "answer for key %d was never stored", k); continue; }
        if(final && ai != c) viol("final-stale", "key %d answers %.*s after the network healed, want %s", k, (int)v->len, v->data, c < 0 ? "nothing" : A[c].val);
        /* a deletion the receiver was told about must hold */
        bool any = false, alive = false;
        for(size_t i = 0; i < nu; i++) if(U[i].sync == r_sync && U[i].add == ai){ any = true; if(!U[i].dead) alive = true; }
        if(any && !alive) viol("deleted-served", "key %d answers a value whose deletion was received", k);
        if(c >= 0 && c > ai && A[c].cbs && A[c].sender_gen == sgen && A[c].cb_recv_gen == rgen && r_flushed && r_sync == A[c].cb_sync) viol("old-served", "key %d answers an older value after the new one was acknowledged", k);
    }
}
static void one(vh_rng_t *r, uint64_t idx){
    (void)idx;
    G = r;
    memset(EV, 0, sizeof(EV[0]) * nev); nev = 0; nadd = 0; nu = 0; sgen = rgen = 0; send_ok = false;
    now = (xtime_t)vh_range(r, 1000, 2000000) * SECOND;
    for(int k = 0; k < NKEYS; k++) cur[k] = -1;
    stale_mode = vh_pct(r, 4);
    kprefix = "";
    p_loss = vh_pct(r, 30) ? 0 : (int)vh_n(r, 40);
    p_dup = vh_pct(r, 30) ? 0 : (int)vh_n(r, 30);
    p_slow = vh_pct(r, 50) ? 0 : (int)vh_n(r, 100);
    healthy = 0;
    int nver = 0;
    r_start();
    for(int i = (int)vh_n(r, NKEYS); i--;){ char b[16]; snprintf(b, 16, "v%d", ++nver); int k = (int)vh_n(r, NKEYS); if(cur[k] < 0) set_key(k, b); }
    s_start();
    xtime_t end = now + (xtime_t)vh_range(r, 20, vh_pct(r, 20) ? 600 : 90) * SECOND;
    xtime_t heal = end;
    end += 150 * SECOND;
    xtime_t next_op = now, next_q = now;
    int restarts = 0;
    int rate = (int)vh_range(r, 50, 8000);
    uint64_t h = 0;
    while(now < end){
        xtime_t dl = s_run();
        xtime_t t = dl;
        if(next_op < t) t = next_op;
        if(next_q < t) t = next_q;
        size_t pick = (size_t)-1;
        for(size_t i = 0; i < nev; i++) if(EV[i].used && (pick == (size_t)-1 || EV[i].at < EV[pick].at)) pick = i;
        if(pick != (size_t)-1 && EV[pick].at <= t) t = EV[pick].at; else pick = (size_t)-1;
        if(t > now) now = t;
        if(!healthy && now >= heal){ healthy = 1; if(!s_up) s_start(); if(!r_up) r_start(); }
        if(pick != (size_t)-1){
            ev_t ev = EV[pick]; EV[pick].used = false;
            /* control packets from before a restart or resync are a separate situation */
            bool stale = ev.to_recv && (ev.sgen != sgen || ev.rgen != rgen || !s_up || ev.sync != S.sync_id) && (ev.type == KVP_UPDATE_FLUSH || ev.type == KVP_UPDATE_START);
            bool dup_same = stale && ev.type == KVP_UPDATE_FLUSH && r_flushed && ev.sync == r_sync;
            if(stale && !dup_same){
                if(!stale_mode){ vh_count("stale_dropped"); continue; }
                kprefix = "stale-control-packet"; vh_count("stale_delivered");
            }
            h = vh_hash(&ev.type, 1, h); h = vh_hash(&ev.up, 4, h);
            if(VH.verbose) fprintf(stderr, "%.3f deliver %s type %d sync %x up %u (sgen %d rgen %d, now %d %d) inflight %d limit %d blocked %d synced %d recv_ok %d\n", (double)now/1e9, ev.to_recv?"upd":"ack", ev.type, ev.sync, ev.up, ev.sgen, ev.rgen, sgen, rgen, S.inflight, S.inflight_limit, S.blocked, S.synced, S.recv_ok);
            deliver(&ev);
            query(false);
            continue;
        }
        if(now >= next_q){ query(false); next_q = now + (xtime_t)vh_range(r, 100, 3000) * MILLISECOND; }
        if(now >= next_op){
            next_op = now + (xtime_t)vh_range(r, 1, rate) * MILLISECOND;
            if(healthy){ next_op = end; continue; }
            int k = (int)vh_n(r, NKEYS);
            int w = (int)vh_n(r, 100);
            if(w < 45){ char b[16]; snprintf(b, 16, "v%d", ++nver); if(!vh_n(r, 30)) b[0] = 0, nver--; if(b[0] || cur[k] < 0 || strlen(A[cur[k]].val)) { bool emp = !b[0]; for(size_t i = 0; emp && i < nadd; i++) if(A[i].key == k && !A[i].val[0]) emp = false, b[0] = 'e'; set_key(k, b[0] == 'e' ? "" : b); } }
            else if(w < 85) del_key(k);
            else if(w < 90){ s_stop(); if(vh_pct(r, 70)) s_start(); restarts++; vh_count("sender_restarts"); }
            else if(w < 95){ r_stop(); if(vh_pct(r, 70)) r_start(); restarts++; vh_count("receiver_restarts"); }
            else { if(!s_up) s_start(); if(!r_up) r_start(); }
        }
    }
    query(true);
    for(int k = 0; k < NKEYS; k++) if(cur[k] >= 0 && A[cur[k]].sender_gen == sgen && A[cur[k]].cbs != 1) viol("final-cb", "add of key %d acknowledged %d times at the end", k, A[cur[k]].cbs);
    if(!send_ok) viol("final-state", "sender does not consider the receiver ok at the end");
    if(restarts) vh_count("cases_with_restarts");
    vh_distinct(h);
    if(vh_want_sample()) vh_sample("loss %d%% dup %d%% restarts %d keys set %zu update ids %zu simulated %.0fs", p_loss, p_dup, restarts, nadd, nu, (double)(end - heal) / 1e9);
    s_stop(); r_stop();
}
int main(int argc, char **argv){ return vh_main(argc, argv, "kvpsync", one); }
