/* Drives the real dns server (server/dns/main.c) with its I/O replaced by the
   driver protocol and a virtual clock. */
#include "drv.h"
#include <sys/socket.h>
#include <netinet/in.h>

#define BUILD_TEST
#include "server/dns/main.c"

#undef A
#undef NS

static globals_t *g;
static link_t sends;
static bool receiving_dns, receiving_sync;
static xtime_t vclock = 1000 * SECOND;
xtime_t __wrap_xtime(void);
xtime_t __wrap_xtime(void){ return vclock; }
static int nstops, nstarts;

static derr_t recv_start(uv_udp_t *udp, uv_alloc_cb a, uv_udp_recv_cb b){
    (void)a; (void)b;
    nstarts++;
    if(g == NULL || udp == &g->dns_udp) receiving_dns = true;
    if(g == NULL || udp == &g->sync_udp) receiving_sync = true;
    return E_OK;
}
static int recv_stop(uv_udp_t *udp){
    nstops++;
    if(udp == &g->dns_udp) receiving_dns = false;
    if(udp == &g->sync_udp) receiving_sync = false;
    return 0;
}
static derr_t udp_send(uv_udp_send_t *req, uv_udp_t *udp, const uv_buf_t bufs[], unsigned int n, const struct sockaddr *dst, uv_udp_send_cb cb){
    (void)dst;
    if(n != 1){ fprintf(stderr, "VH_HARNESS_ERROR: nbufs\n"); exit(98); }
    membuf_t *m = CONTAINER_OF(req, membuf_t, req);
    req->handle = udp;
    req->cb = cb;
    req->bufsml[0] = bufs[0];
    link_list_append(&sends, &m->link);
    return E_OK;
}
static size_t listlen(link_t *l){ size_t n = 0; for(link_t *p = l->next; p && p != l; p = p->next) n++; return n; }

static struct sockaddr_storage mkaddr(dstr_t ip, unsigned port){
    struct sockaddr_storage ss = {0};
    if(ip.len == 4){
        struct sockaddr_in *s = (void*)&ss;
        s->sin_family = AF_INET; s->sin_port = htons((uint16_t)port);
        memcpy(&s->sin_addr, ip.data, 4);
    }else{
        struct sockaddr_in6 *s = (void*)&ss;
        s->sin6_family = AF_INET6; s->sin6_port = htons((uint16_t)port);
        memcpy(&s->sin6_addr, ip.data, 16);
    }
    return ss;
}

/* recv dns|sync ip port bytes -> "nobuf" | "ok" [reply ip port] */
static void op_recv(dstr_t *a, size_t n){
    (void)n;
    bool dns = a[0].data[0] == 'd';
    uv_udp_t *udp = dns ? &g->dns_udp : &g->sync_udp;
    if(!(dns ? receiving_dns : receiving_sync)){ drv_s("stopped"); return; }
    uv_buf_t buf = {0};
    allocator((uv_handle_t*)udp, 65536, &buf);
    if(!buf.base){ drv_s("nobuf"); return; }
    struct sockaddr_storage ss = mkaddr(a[1], (unsigned)drv_uint(a[2]));
    size_t len = a[3].len < buf.len ? a[3].len : buf.len;
    memcpy(buf.base, a[3].data, len);
    size_t before = listlen(&sends);
    on_recv(udp, (ssize_t)len, &buf, (struct sockaddr*)&ss, a[3].len > buf.len ? UV_UDP_PARTIAL : 0);
    drv_s("ok");
    if(listlen(&sends) > before){
        membuf_t *m = CONTAINER_OF(sends.prev, membuf_t, link);
        drv_field(m->req.bufsml[0].base, m->req.bufsml[0].len);
        drv_s(m->req.handle == &g->dns_udp ? "dns" : "sync");
        if(m->ss.ss_family == AF_INET){ struct sockaddr_in *s = (void*)&m->ss; drv_field(&s->sin_addr, 4); drv_u(ntohs(s->sin_port)); }
        else { struct sockaddr_in6 *s = (void*)&m->ss; drv_field(&s->sin6_addr, 16); drv_u(ntohs(s->sin6_port)); }
    }
}
/* eagain dns|sync: libuv allocated a buffer but there was nothing to read */
static void op_eagain(dstr_t *a, size_t n){
    (void)n;
    bool dns = a[0].data[0] == 'd';
    uv_udp_t *udp = dns ? &g->dns_udp : &g->sync_udp;
    if(!(dns ? receiving_dns : receiving_sync)) { drv_s("stopped"); return; }
    uv_buf_t buf = {0};
    allocator((uv_handle_t*)udp, 65536, &buf);
    if(!buf.base){ drv_s("nobuf"); return; }
    on_recv(udp, 0, &buf, NULL, 0);
    drv_s("ok");
}
/* done idx status: complete the idx-th outstanding send */
static void op_done(dstr_t *a, size_t n){
    (void)n;
    size_t idx = (size_t)drv_uint(a[0]);
    link_t *p = sends.next;
    while(idx-- && p != &sends) p = p->next;
    if(p == &sends){ drv_s("none"); return; }
    membuf_t *m = CONTAINER_OF(p, membuf_t, link);
    link_remove(&m->link);
    m->req.cb(&m->req, (int)drv_int(a[1]));
    drv_s("ok");
}
static void op_state(dstr_t *a, size_t n){
    (void)a; (void)n;
    drv_u(listlen(&g->membufs)); drv_u(listlen(&sends)); drv_u(receiving_dns && receiving_sync); drv_u(g->closing); drv_u(NMEMBUFS);
}
static void op_now(dstr_t *a, size_t n){ (void)n; vclock = (xtime_t)drv_uint(a[0]); drv_s("ok"); }

/* ---- the packet handler alone, on exact-size buffers ---- */
typedef struct { kvp_i iface; dstr_t *a; size_t n; dstr_t val; char asked[64]; size_t nasked; bool called; } tkvp_t;
DEF_CONTAINER_OF(tkvp_t, iface, kvp_i)
static const dstr_t *tkvp_iget(kvp_i *i, lstr_t user){
    tkvp_t *k = CONTAINER_OF(i, tkvp_t, iface);
    k->called = true;
    k->nasked = user.len < 64 ? user.len : 64;
    memcpy(k->asked, user.str, k->nasked);
    char m = k->a[0].data[0];
    if(m == 'U') return UNSURE;
    if(m == 'N') return NULL;
    k->val = k->a[1];
    return &k->val;
}
/* pkt bytes rcap mode secret -> reply asked */
static void op_pkt(dstr_t *a, size_t n){
    (void)n;
    size_t rcap = (size_t)drv_uint(a[1]);
    char *out = malloc(rcap ? rcap : 1);
    tkvp_t k = { .iface = { .iget = tkvp_iget }, .a = &a[2] };
    size_t r = handle_packet(a[0].data, a[0].len, &k.iface, out, rcap);
    if(r > rcap){ drv_s("OVER"); free(out); return; }
    drv_field(out, r);
    drv_u(k.called);
    drv_field(k.asked, k.nasked);
    /* debug formatting walks everything the parser accepted */
    dns_pkt_t pkt;
    if(!is_bad_parse(parse_pkt(&pkt, a[0].data, a[0].len))){
        dstr_t s = {0};
        derr_type_t t = FMT_QUIET(&s, "%x", FPKT(pkt));
        (void)t;
        dstr_free(&s);
        drv_u(1); drv_u(pkt.edns.found); drv_u(pkt.edns.udp_size); drv_u(pkt.edns.optcount);
    }else{ drv_u(0); }
    free(out);
}
static rrl_t RRL; static bool have_rrl;
static void op_rrlnew(dstr_t *a, size_t n){
    (void)n;
    if(have_rrl) rrl_free(&RRL);
    drv_e(rrl_init(&RRL, (size_t)drv_uint(a[0])));
    have_rrl = true;
}
/* rrl (ip now)* -> string of y/n */
static void op_rrl(dstr_t *a, size_t n){
    dstr_t out = {0};
    for(size_t i = 0; i + 1 < n; i += 2){
        struct sockaddr_storage ss = mkaddr(a[i], 1234);
        bool ok = rrl_check(&RRL, (struct sockaddr*)&ss, (xtime_t)drv_uint(a[i+1]));
        derr_t e = dstr_append(&out, ok ? &DSTR_LIT("y") : &DSTR_LIT("n")); DROP_VAR(&e);
    }
    drv_d(out);
    dstr_free(&out);
}
static const drv_op_t OPS[] = {
    {"recv", op_recv}, {"eagain", op_eagain}, {"done", op_done}, {"state", op_state}, {"now", op_now},
    {"pkt", op_pkt}, {"rrlnew", op_rrlnew}, {"rrl", op_rrl}, {NULL, NULL},
};
static derr_t runloop(uv_loop_t *loop){
    g = loop->data;
    g->now = vclock;
    drv_main(OPS);
    return E_OK;
}
int main(int argc, char **argv){
    /* argv: nbuckets peer-port... (peers are 10.0.0.<i>:port) */
    struct sockaddr_storage peers[MAX_PEERS];
    size_t np = 0;
    link_init(&sends);
    for(int i = 2; i < argc && np < MAX_PEERS; i++){
        unsigned char ip[4] = {10, 0, 0, (unsigned char)(i - 1)};
        dstr_t d = { .data = (char*)ip, .len = 4, .size = 4, .fixed_size = true };
        peers[np++] = mkaddr(d, (unsigned)atoi(argv[i]));
    }
    int fd1 = socket(AF_INET, SOCK_DGRAM, 0), fd2 = socket(AF_INET, SOCK_DGRAM, 0), tcp = -1;
    addrspec_t none = {0};
    derr_t e = dns_main(none, &fd1, &tcp, none, &fd2, peers, np, argc > 1 ? (size_t)atol(argv[1]) : 0);
    if(is_error(e)){ DUMP(e); DROP_VAR(&e); }
    return 0;
}
