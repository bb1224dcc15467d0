#include "drv.h"

/* ---------- number conversions: cvt type base text ---------- */
static void op_cvt(dstr_t *a, size_t n){
    (void)n;
    int base = (int)drv_int(a[1]);
    derr_type_t t = NULL;
    char k[16]; size_t l = a[0].len < 15 ? a[0].len : 15; memcpy(k, a[0].data, l); k[l] = 0;
    bool is_u = true; uintmax_t u = 0; intmax_t i = 0;
    bool loud = k[0] == '!';
    char *kk = loud ? k + 1 : k;
    derr_t e = E_OK;
    #define U(sfx, CT) if(!strcmp(kk, #sfx)){ CT v = (CT)77; if(loud){ e = dstr_to##sfx(&a[2], &v, base); t = e.type; } else t = dstr_to##sfx##_quiet(a[2], &v, base); u = (uintmax_t)v; is_u = true; }
    #define I(sfx, CT) if(!strcmp(kk, #sfx)){ CT v = (CT)77; if(loud){ e = dstr_to##sfx(&a[2], &v, base); t = e.type; } else t = dstr_to##sfx##_quiet(a[2], &v, base); i = (intmax_t)v; is_u = false; }
    U(u, unsigned int) U(ul, unsigned long) U(size, size_t) U(ull, unsigned long long) U(u64, uint64_t) U(umax, uintmax_t)
    I(i, int) I(l, long) I(ll, long long) I(i64, int64_t) I(imax, intmax_t)
    drv_et(t);
    if(is_u) drv_u(u); else drv_i(i);
    DROP_VAR(&e);
}

/* ---------- base64 / hex ---------- */
/* b64enc width mode chunks... : stream-encode the chunks */
static void op_b64enc(dstr_t *a, size_t n){
    size_t width = (size_t)drv_uint(a[0]);
    dstr_t in = {0}, out = {0};
    derr_t e = E_OK;
    for(size_t i = 1; i < n; i++){
        e = dstr_append(&in, &a[i]);
        if(e.type) break;
        e = bin2b64_stream(&in, &out, width, i == n - 1);
        if(e.type) break;
    }
    drv_e(e);
    drv_d(out);
    drv_u(in.len);
    dstr_free(&in); dstr_free(&out);
}
/* b64enc1 outcap bin -> bin2b64 into a fixed-size buffer */
static void op_b64enc1(dstr_t *a, size_t n){
    (void)n;
    size_t cap = (size_t)drv_uint(a[0]);
    dstr_t out = { .data = malloc(cap ? cap : 1), .size = cap, .fixed_size = true };
    derr_t e = bin2b64(&a[1], &out);
    drv_e(e);
    drv_d(out);
    drv_u(bin2b64_output_len(a[1].len));
    free(out.data);
}
/* b64fmt pieces... : one FB64F stream over several args, and FB64D of the concatenation, and WB64 */
static void op_b64fmt(dstr_t *a, size_t n){
    dstr_t out = {0}, out2 = {0}, out3 = {0};
    dstr_t z = {0};
    #define G(i) ((i) < n ? a[i] : z)
    derr_type_t t = FMT_QUIET(&out, "%x", FB64F("%x%x%x%x", FD(G(0)), FD(G(1)), FD(G(2)), FD(G(3))));
    drv_et(t); drv_d(out);
    t = FMT_QUIET(&out2, "%x|%x", FB64D(G(0)), FB64SN(G(1).data, G(1).len));
    drv_et(t); drv_d(out2);
    writer_i *w = WB64(WD(&out3));
    t = WFMT_QUIET(w, "%x%x", FD(G(2)), FD(G(3)));
    drv_et(t); drv_d(out3);
    dstr_free(&out); dstr_free(&out2); dstr_free(&out3);
}
/* b64dec chunks... : stream decode */
static void op_b64dec(dstr_t *a, size_t n){
    dstr_t in = {0}, out = {0};
    derr_t e = E_OK;
    for(size_t i = 0; i < n; i++){
        e = dstr_append(&in, &a[i]);
        if(e.type) break;
        e = b642bin_stream(&in, &out);
        if(e.type) break;
    }
    drv_e(e); drv_d(out); drv_u(in.len);
    dstr_free(&in); dstr_free(&out);
}
static void op_b64dec1(dstr_t *a, size_t n){
    (void)n;
    size_t cap = (size_t)drv_uint(a[0]);
    dstr_t out = { .data = malloc(cap ? cap : 1), .size = cap, .fixed_size = true };
    derr_t e = b642bin(&a[1], &out);
    drv_e(e); drv_d(out);
    drv_u(b642bin_output_len(a[1].len));
    free(out.data);
}
static void op_hex(dstr_t *a, size_t n){
    (void)n;
    dstr_t out = {0}, back = {0}, f = {0};
    derr_t e = bin2hex(&a[0], &out);
    drv_e(e); drv_d(out);
    e = hex2bin(&out, &back);
    drv_e(e); drv_d(back);
    derr_type_t t = FMT_QUIET(&f, "%x", FX(a[0]));
    drv_et(t); drv_d(f);
    dstr_free(&out); dstr_free(&back); dstr_free(&f);
}
static void op_unhex(dstr_t *a, size_t n){
    (void)n;
    dstr_t out = {0};
    derr_t e = hex2bin(&a[0], &out);
    drv_e(e); drv_d(out);
    dstr_free(&out);
}

/* ---------- unicode ---------- */
static derr_type_t cp_each(uint32_t cp, void *data){
    dstr_t *d = data;
    DSTR_VAR(b, 4);
    memcpy(b.data, &cp, 4); b.len = 4;
    return dstr_append_quiet(d, &b);
}
static derr_type_t c_each(char c, void *data){
    return dstr_append_char(data, c);
}
static derr_type_t u16_each(uint16_t u, void *data){
    derr_type_t t = dstr_append_char(data, uchar_to_char((unsigned char)(u >> 8)));
    if(t) return t;
    return dstr_append_char(data, uchar_to_char((unsigned char)(u & 0xff)));
}
static void op_utf8dec(dstr_t *a, size_t n){
    dstr_t out = {0};
    uint32_t cp = 0; size_t tail = 0;
    derr_type_t t = NULL;
    for(size_t i = 0; i < n && !t; i++){
        t = utf8_decode_stream(a[i].data, a[i].len, cp_each, &out, &cp, &tail);
    }
    drv_et(t); drv_d(out); drv_u(tail);
    dstr_free(&out);
}
static void op_utf8dec1(dstr_t *a, size_t n){
    (void)n;
    dstr_t out = {0};
    derr_type_t t = utf8_decode_quiet(a[0].data, a[0].len, cp_each, &out);
    drv_et(t); drv_d(out);
    dstr_free(&out);
}
/* utf16dec start(bom|be|le) chunks... */
static void op_utf16dec(dstr_t *a, size_t n){
    dstr_t out = {0};
    utf16_state_t s = {0};
    if(!strncmp(a[0].data, "be", 2)) s = utf16_start_be();
    else if(!strncmp(a[0].data, "le", 2)) s = utf16_start_le();
    derr_type_t t = NULL;
    for(size_t i = 1; i < n && !t; i++) t = utf16_decode_stream(a[i].data, a[i].len, cp_each, &out, &s);
    drv_et(t); drv_d(out); drv_u(s.state); drv_u(s.have_bom);
    dstr_free(&out);
}
static void op_utf16dec1(dstr_t *a, size_t n){
    (void)n;
    dstr_t out = {0};
    derr_type_t t;
    if(!strncmp(a[0].data, "be", 2)) t = utf16_be_decode_quiet(a[1].data, a[1].len, cp_each, &out);
    else if(!strncmp(a[0].data, "le", 2)) t = utf16_le_decode_quiet(a[1].data, a[1].len, cp_each, &out);
    else t = utf16_decode_quiet(a[1].data, a[1].len, cp_each, &out);
    drv_et(t); drv_d(out);
    dstr_free(&out);
}
static void op_cpenc(dstr_t *a, size_t n){
    (void)n;
    dstr_t o8 = {0}, o16 = {0};
    uint32_t cp = (uint32_t)drv_uint(a[0]);
    derr_type_t t = utf8_encode_quiet(cp, c_each, &o8);
    drv_et(t); drv_d(o8);
    t = utf16_encode_quiet(cp, u16_each, &o16);
    drv_et(t); drv_d(o16);
    dstr_free(&o8); dstr_free(&o16);
}

/* ---------- json ---------- */
static void tok(dstr_t *out, char c, const dstr_t *s){
    DSTR_VAR(b, 16);
    b.len = (size_t)snprintf(b.data, 16, "%c%zu:", c, s ? s->len : 0);
    dstr_append(out, &b);
    if(s && s->len) dstr_append(out, s);
}
static derr_t jvisit(json_node_t *node, const dstr_t *key, bool closing, void *data){
    dstr_t *out = data;
    if(key) tok(out, 'K', key);
    char c = '?';
    switch(node->type){
        case JSON_STRING: c = 'S'; break;
        case JSON_NUMBER: c = '#'; break;
        case JSON_TRUE: c = 'T'; break;
        case JSON_FALSE: c = 'F'; break;
        case JSON_NULL: c = 'N'; break;
        case JSON_OBJECT: c = closing ? '}' : '{'; break;
        case JSON_ARRAY: c = closing ? ']' : '['; break;
    }
    bool txt = node->type == JSON_STRING || node->type == JSON_NUMBER;
    tok(out, c, txt ? &node->text : NULL);
    return E_OK;
}
/* json prealloc(0|1|2) textcap nnodes chunks... -> etype, token stream, fdump text */
static void op_json(dstr_t *a, size_t n){
    int mode = (int)drv_int(a[0]);
    size_t tcap = (size_t)drv_uint(a[1]), nn = (size_t)drv_uint(a[2]);
    dstr_t tb = { .data = malloc(tcap ? tcap : 1), .size = tcap, .fixed_size = true };
    json_node_t *nodes = malloc(sizeof(*nodes) * (nn ? nn : 1));
    json_t j;
    if(mode) json_prep_preallocated(&j, &tb, nodes, nn, mode == 2);
    else json_prep(&j);
    json_parser_t p = json_parser(&j);
    derr_t e = E_OK;
    for(size_t i = 3; i < n; i++){
        e = json_parse_chunk(&p, a[i]);
        if(e.type) break;
    }
    if(!e.type) e = json_parse_finish(&p);
    bool ok = !e.type;
    drv_e(e);
    dstr_t out = {0};
    if(ok){
        e = json_walk(j.root, jvisit, &out);
        if(e.type){ drv_s("WALKERR"); DROP_VAR(&e); }
        else drv_d(out);
        char *mem = NULL; size_t ml = 0;
        FILE *f = open_memstream(&mem, &ml);
        e = json_fdump(j.root, f);
        fclose(f);
        drv_e(e);
        drv_field(mem, ml);
        free(mem);
    }
    dstr_free(&out);
    json_free(&j);
    free(tb.data);
    free(nodes);
}
/* jsonenc outcap(0=growable) pieces... */
static void op_jsonenc(dstr_t *a, size_t n){
    size_t cap = (size_t)drv_uint(a[0]);
    dstr_t out = {0};
    if(cap) out = (dstr_t){ .data = malloc(cap), .size = cap, .fixed_size = true };
    derr_t e = json_encode(a[1], WD(&out));
    drv_e(e); drv_d(out);
    if(cap) free(out.data); else dstr_free(&out);
    /* streaming writer */
    dstr_t o2 = {0};
    writer_i *w = WJSON(WD(&o2));
    derr_type_t t = NULL;
    w->w->lock(w);
    for(size_t i = 2; i < n && !t; i++) t = w->w->puts(w, a[i].data, a[i].len);
    if(!t) t = w->w->unlock(w);
    drv_et(t); drv_d(o2);
    dstr_free(&o2);
}
/* jdump: build from a prefix token program:
   tokens: N T F i<num> u<num> s<text> a<count> o<count> (key field precedes each value) f<text> (DFMT "%x-%x") */
typedef struct { dstr_t *a; size_t n, i; } prog_t;
static jdump_i *jbuild(prog_t *p);
typedef struct { jdump_i **items; size_t n; } lst_t;
static derr_type_t lst_items(void *data, jdump_list_i *out){
    lst_t *l = data;
    for(size_t i = 0; i < l->n; i++){
        derr_type_t t = out->item(out, l->items[i]);
        if(t) return t;
    }
    return NULL;
}
static void *dup_(const void *p, size_t n){ void *o = malloc(n); memcpy(o, p, n); return o; }
#define KEEP(x, T) ((jdump_i*)dup_(x, sizeof(T)))
static jdump_i *jbuild(prog_t *p){
    dstr_t t = p->a[p->i++];
    dstr_t rest = dstr_sub2(t, 1, SIZE_MAX);
    switch(t.data[0]){
        case 'N': return KEEP(DNULL, jdump_i);
        case 'T': return KEEP(DB(true), jdump_i);
        case 'F': return KEEP(DB(false), jdump_i);
        case 'i': return KEEP(DI(drv_int(rest)), _jdump_int_t);
        case 'u': return KEEP(DU(drv_uint(rest)), _jdump_uint_t);
        case 's': return KEEP(DD(rest), _jdump_dstr_t);
        case 'n': return KEEP(DSN(rest.data, rest.len), _jdump_strn_t);
        case 'f': {
            static const fmt_i **args; (void)args;
            const fmt_i **av = malloc(sizeof(*av) * 2);
            av[0] = dup_(FD(rest), sizeof(_fmt_dstr_t));
            av[1] = dup_(FI(-5), sizeof(_fmt_int_t));
            _jdump_fmt_t f = { { _jdump_fmt }, "%x-%x", av, 2 };
            return KEEP(&f, _jdump_fmt_t);
        }
        case 'p': return KEEP(DSNIPPET(rest), _jdump_dstr_t);
        case 'l': case 'a': {
            size_t c = (size_t)drv_uint(rest);
            jdump_i **items = malloc(sizeof(*items) * (c + 1));
            for(size_t i = 0; i < c; i++) items[i] = jbuild(p);
            if(t.data[0] == 'a'){
                _jdump_arr_t x = { { _jdump_arr }, items, c };
                return KEEP(&x, _jdump_arr_t);
            }
            lst_t *l = malloc(sizeof(*l));
            *l = (lst_t){ items, c };
            return KEEP(DLIST(lst_items, l), _jdump_list_t);
        }
        case 'o': {
            size_t c = (size_t)drv_uint(rest);
            jdump_kvp_t *k = malloc(sizeof(*k) * (c + 1));
            for(size_t i = 0; i < c; i++){
                dstr_t key = p->a[p->i++];
                k[i].key = key;
                k[i].val = jbuild(p);
            }
            _jdump_obj_t x = { { _jdump_obj }, k, c };
            return KEEP(&x, _jdump_obj_t);
        }
    }
    exit(98);
}
static void op_jdump(dstr_t *a, size_t n){
    int indent = (int)drv_int(a[0]);
    size_t cap = (size_t)drv_uint(a[1]);
    prog_t p = { a, n, 2 };
    jdump_i *j = jbuild(&p);
    dstr_t out = {0};
    if(cap) out = (dstr_t){ .data = malloc(cap), .size = cap, .fixed_size = true };
    derr_t e = jdump(j, WD(&out), indent);
    drv_e(e); drv_d(out);
    if(cap) free(out.data); else dstr_free(&out);
}

/* ---------- strings ---------- */
static void put_list(const LIST(dstr_t) *l){
    for(size_t i = 0; i < l->len; i++) drv_d(l->data[i]);
}
static void op_cmp(dstr_t *a, size_t n){
    (void)n;
    int c = dstr_cmp(&a[0], &a[1]), ic = dstr_icmp(&a[0], &a[1]);
    drv_i(c < 0 ? -1 : c > 0); drv_i(ic < 0 ? -1 : ic > 0);
    drv_i(dstr_eq(a[0], a[1])); drv_i(dstr_ieq(a[0], a[1]));
    drv_i(dstr_beginswith2(a[0], a[1])); drv_i(dstr_ibeginswith2(a[0], a[1]));
    drv_i(dstr_endswith2(a[0], a[1])); drv_i(dstr_iendswith2(a[0], a[1]));
    if(a[1].len){
        drv_u(dstr_count2(a[0], a[1])); drv_u(dstr_icount2(a[0], a[1]));
        drv_i(dstr_contains(a[0], a[1])); drv_i(dstr_icontains(a[0], a[1]));
    }else{ drv_i(0); drv_i(0); drv_i(0); drv_i(0); }
    c = dstr_cmp2(a[1], a[0]); drv_i(c < 0 ? -1 : c > 0);
    ic = dstr_icmp2(a[1], a[0]); drv_i(ic < 0 ? -1 : ic > 0);
}
static void op_case(dstr_t *a, size_t n){
    (void)n;
    dstr_t x = {0}; dstr_copy(&a[0], &x);
    dstr_upper(&x); drv_d(x);
    dstr_copy(&a[0], &x);
    dstr_lower(&x); drv_d(x);
    dstr_free(&x);
    drv_d(dstr_strip_chars(a[0], ' ', 'x')); drv_d(dstr_lstrip_chars(a[0], ' ', 'x')); drv_d(dstr_rstrip_chars(a[0], ' ', 'x'));
}
/* find text pats... */
static void op_find(dstr_t *a, size_t n){
    LIST(dstr_t) pats; 
    if(list_dstr_t_new(&pats, n).type) exit(98);
    for(size_t i = 1; i < n; i++) DROP_CMD( LIST_APPEND(dstr_t, &pats, a[i]) );
    size_t which = 999, part = 999;
    char *p = dstr_find(&a[0], &pats, &which, &part);
    drv_i(p ? p - a[0].data : -1); drv_u(which); drv_u(part);
    LIST_FREE(dstr_t, &pats);
}
/* recode nchunks chunks.. then pairs search,replace.. : stream recode with final force_end */
static void op_recode(dstr_t *a, size_t n){
    size_t nch = (size_t)drv_uint(a[0]);
    LIST(dstr_t) s, r;
    if(list_dstr_t_new(&s, n).type || list_dstr_t_new(&r, n).type) exit(98);
    for(size_t i = 1 + nch; i + 1 < n; i += 2){
        DROP_CMD( LIST_APPEND(dstr_t, &s, a[i]) );
        DROP_CMD( LIST_APPEND(dstr_t, &r, a[i+1]) );
    }
    dstr_t in = {0}, out = {0}, o2 = {0}, all = {0};
    derr_t e = E_OK;
    for(size_t i = 0; i < nch; i++){
        dstr_append(&in, &a[1 + i]);
        dstr_append(&all, &a[1 + i]);
        e = dstr_recode_stream(&in, &out, &s, &r, i == nch - 1, 0, NULL);
        if(e.type) break;
    }
    drv_e(e); drv_d(out); drv_u(in.len);
    e = dstr_recode(&all, &o2, &s, &r, false);
    drv_e(e); drv_d(o2);
    /* stop at the first pattern: one call, whole input, at its end and not */
    for(int fe = 0; fe < 2; fe++){
        bool stop = false; in.len = 0; out.len = 0; dstr_append(&in, &all);
        e = dstr_recode_stream(&in, &out, &s, &r, fe, 0, &stop);
        drv_e(e); drv_d(out); drv_u(in.len); drv_i(stop);
    }
    dstr_free(&in); dstr_free(&out); dstr_free(&o2); dstr_free(&all);
    LIST_FREE(dstr_t, &s); LIST_FREE(dstr_t, &r);
}
/* split text pat : dstr_split, then soft with cap 3 for all variants */
static void op_split(dstr_t *a, size_t n){
    (void)n;
    LIST(dstr_t) l;
    if(list_dstr_t_new(&l, 4).type) exit(98);
    derr_t e = dstr_split(&a[0], &a[1], &l);
    drv_e(e); drv_u(l.len); put_list(&l);
    LIST_FREE(dstr_t, &l);
    LIST_VAR(dstr_t, f, 3);
    e = dstr_split_soft(&a[0], &a[1], &f);
    drv_e(e); drv_u(f.len); put_list(&f);
    dstr_t x, y, z; size_t k;
    dstr_split2_soft(a[0], a[1], &k, &x, &y, &z);
    drv_u(k); if(k > 0) drv_d(x); if(k > 1) drv_d(y); if(k > 2) drv_d(z);
    e = dstr_split2(a[0], a[1], &k, &x, &y, &z);
    bool ok = !e.type;
    drv_e(e); drv_u(ok ? k : 0); if(ok){ if(k > 0) drv_d(x); if(k > 1) drv_d(y); if(k > 2) drv_d(z); }
}
static void op_sub(dstr_t *a, size_t n){
    (void)n;
    dstr_t s = dstr_sub2(a[0], (size_t)drv_uint(a[1]), (size_t)drv_uint(a[2]));
    drv_d(s);
    dstr_t c = {0}; dstr_copy(&a[0], &c);
    dstr_leftshift(&c, (size_t)drv_uint(a[1]));
    drv_d(c);
    dstr_free(&c);
}
/* listmem null_term elems... -> list contents after all appends */
static void op_listmem(dstr_t *a, size_t n){
    bool nt = drv_int(a[0]);
    LIST(dstr_t) l; dstr_t mem = {0};
    if(list_dstr_t_new(&l, 1).type || dstr_new(&mem, 2).type) exit(98);
    derr_t e = E_OK;
    for(size_t i = 1; i < n && !e.type; i++) e = list_append_with_mem(&l, &mem, a[i], nt);
    drv_e(e); put_list(&l);
    LIST_FREE(dstr_t, &l); dstr_free(&mem);
}
/* fmt cap fstr args...; args: i<n> u<n> s<text> d<text>(dbg) x<text>(hex) c<ch> b0/b1 */
static void op_fmt(dstr_t *a, size_t n){
    size_t cap = (size_t)drv_uint(a[0]);
    char *fs = malloc(a[1].len + 1); memcpy(fs, a[1].data, a[1].len); fs[a[1].len] = 0;
    const fmt_i **av = calloc(n + 1, sizeof(*av));
    size_t k = 0;
    for(size_t i = 2; i < n; i++){
        dstr_t r = dstr_sub2(a[i], 1, SIZE_MAX);
        switch(a[i].data[0]){
            case 'i': av[k++] = dup_(FI(drv_int(r)), sizeof(_fmt_int_t)); break;
            case 'u': av[k++] = dup_(FU(drv_uint(r)), sizeof(_fmt_uint_t)); break;
            case 's': av[k++] = dup_(FD(r), sizeof(_fmt_dstr_t)); break;
            case 'n': av[k++] = dup_(FSN(r.data, r.len), sizeof(_fmt_cstrn_t)); break;
            case 'd': av[k++] = dup_(FD_DBG(r), sizeof(_fmt_dstr_t)); break;
            case 'x': av[k++] = dup_(FX(r), sizeof(_fmt_dstr_t)); break;
            case 'c': av[k++] = dup_(FC(r.data[0]), sizeof(_fmt_char_t)); break;
            case 'b': av[k++] = dup_(FB(r.data[0] == '1'), sizeof(fmt_i)); break;
        }
    }
    dstr_t out = {0};
    if(cap) out = (dstr_t){ .data = malloc(cap), .size = cap, .fixed_size = true };
    derr_type_t t = _fmt_quiet(WD(&out), fs, av, k);
    drv_et(t); drv_d(out);
    drv_i(out.len < out.size && out.data[out.len] == 0);
    if(cap) free(out.data); else dstr_free(&out);
    /* same through a FILE */
    char *mem = NULL; size_t ml = 0;
    FILE *f = open_memstream(&mem, &ml);
    t = _fmt_quiet(WF(f), fs, av, k);
    fclose(f);
    drv_et(t); drv_field(mem, ml);
    free(mem);
    for(size_t i = 0; i < k; i++) free((void*)av[i]);
    free(av); free(fs);
}
/* append cap pieces... : every append either lands whole or fails leaving the text as it was */
static void op_append(dstr_t *a, size_t n){
    size_t cap = (size_t)drv_uint(a[0]);
    int how = (int)drv_int(a[1]);
    dstr_t out = {0};
    if(cap) out = (dstr_t){ .data = malloc(cap), .size = cap, .fixed_size = true };
    for(size_t i = 2; i < n; i++){
        derr_t e = E_OK;
        derr_type_t t = NULL;
        switch(how){
            case 0: e = dstr_append(&out, &a[i]); t = e.type; DROP_VAR(&e); break;
            case 1: t = dstr_append_quiet(&out, &a[i]); break;
            case 2: t = dstr_append0_quiet(&out, &a[i]); break;
            case 3: e = dstr_append0(&out, &a[i]); t = e.type; DROP_VAR(&e); break;
            case 4: t = a[i].len ? dstr_append_char_n(&out, a[i].data[0], a[i].len) : NULL; break;
        }
        drv_et(t); drv_d(out); drv_i(out.len <= out.size);
    }
    if(cap) free(out.data); else dstr_free(&out);
}
/* sb stackcap joinermode pieces... : sb_expand result */
static void op_sb(dstr_t *a, size_t n){
    size_t cap = (size_t)drv_uint(a[0]);
    string_builder_t *s = calloc(n + 1, sizeof(*s));
    size_t k = 0;
    bool pre = drv_int(a[1]);
    for(size_t i = 2; i < n; i++){
        if(k == 0) s[k] = SBD(a[i]);
        else if(pre) s[k] = sb_prepend(&s[k-1], SBD(a[i]));
        else s[k] = sb_append(&s[k-1], SBD(a[i]));
        k++;
    }
    dstr_t st = { .data = malloc(cap), .size = cap, .fixed_size = true };
    dstr_t heap = {0}, *out = NULL;
    derr_t e = sb_expand(&s[k-1], &st, &heap, &out);
    bool ok = !e.type;
    drv_e(e);
    if(ok){ drv_d(*out); drv_i(out->data[out->len] == 0); }
    dstr_free(&heap); free(st.data); free(s);
}
/* off: dstr_off get_token_context */
static const drv_op_t ops[] = {
    {"cvt", op_cvt}, {"b64enc", op_b64enc}, {"b64enc1", op_b64enc1}, {"b64fmt", op_b64fmt},
    {"b64dec", op_b64dec}, {"b64dec1", op_b64dec1}, {"hex", op_hex}, {"unhex", op_unhex},
    {"utf8dec", op_utf8dec}, {"utf8dec1", op_utf8dec1}, {"utf16dec", op_utf16dec}, {"utf16dec1", op_utf16dec1},
    {"cpenc", op_cpenc}, {"json", op_json}, {"jsonenc", op_jsonenc}, {"jdump", op_jdump},
    {"cmp", op_cmp}, {"case", op_case}, {"find", op_find}, {"recode", op_recode}, {"split", op_split},
    {"sub", op_sub}, {"listmem", op_listmem}, {"fmt", op_fmt}, {"append", op_append}, {"sb", op_sb},
    {0},
};
int main(void){ return drv_main(ops); }
