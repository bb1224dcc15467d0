#include "drv.h"
#include "imap_dump.h"

/* exts: 7 characters, one per extension: 0 disabled, 1 off, 2 on */
static extensions_t mkexts(const dstr_t d){
    extension_state_e s[7];
    for(int i = 0; i < 7; i++) s[i] = d.data[i] == '0' ? EXT_STATE_DISABLED : d.data[i] == '1' ? EXT_STATE_OFF : EXT_STATE_ON;
    return (extensions_t){ .uidplus = s[0], .enable = s[1], .condstore = s[2], .qresync = s[3], .unselect = s[4], .idle = s[5], .xkey = s[6] };
}
static link_t keepc, keepr;   /* parsed objects kept for writing */

static void drop_all(void){
    link_t *l;
    while(keepc.next && (l = link_list_pop_first(&keepc))) imap_cmd_free(CONTAINER_OF(l, imap_cmd_t, link));
    while(keepr.next && (l = link_list_pop_first(&keepr))) imap_resp_free(CONTAINER_OF(l, imap_resp_t, link));
}
/* exact-size copy of a chunk, so that overruns are caught */
static dstr_t cpy(const dstr_t d){
    char *p = malloc(d.len ? d.len : 1);
    memcpy(p, d.data, d.len);
    return (dstr_t){ .data = p, .size = d.len, .len = d.len, .fixed_size = true };
}

/* cmds|resps exts chunk... -> error, exts after, dump after each chunk as "k:json" records */
static void do_read_op(dstr_t *a, size_t n, bool client){
    drop_all();
    extensions_t exts = mkexts(a[0]);
    derr_t e = E_OK;
    imap_cmd_reader_t cr; imap_resp_reader_t rr;
    buf_t b = {0}; bs(&b, "[");
    if(client) e = imap_resp_reader_init(&rr, &exts); else e = imap_cmd_reader_init(&cr, &exts);
    bool first = true;
    for(size_t i = 1; i < n && e.type == NULL; i++){
        dstr_t in = cpy(a[i]);
        link_t out = {0};
        if(client) e = imap_resp_read(&rr, in, &out); else e = imap_cmd_read(&cr, in, &out);
        free(in.data);
        link_t *l;
        while((l = link_list_pop_first(&out))){
            bf(&b, first ? "[%zu," : ",[%zu,", i - 1); first = false;
            if(client){ dump_resp(&b, CONTAINER_OF(l, imap_resp_t, link)); link_list_append(&keepr, l); }
            else { dump_cmd(&b, CONTAINER_OF(l, imap_cmd_t, link)); link_list_append(&keepc, l); }
            bs(&b, "]");
        }
    }
    bs(&b, "]");
    drv_e(e);
    drv_s(b.p);
    char x[8]; extension_state_e s[7] = {exts.uidplus, exts.enable, exts.condstore, exts.qresync, exts.unselect, exts.idle, exts.xkey};
    for(int i = 0; i < 7; i++) x[i] = s[i] == EXT_STATE_DISABLED ? '0' : s[i] == EXT_STATE_OFF ? '1' : '2';
    x[7] = 0; drv_s(x);
    if(client) imap_resp_reader_free(&rr); else imap_cmd_reader_free(&cr);
    free(b.p);
}
static void op_cmds(dstr_t *a, size_t n){ do_read_op(a, n, false); }
static void op_resps(dstr_t *a, size_t n){ do_read_op(a, n, true); }

/* write exts bufsize...: every kept object written with the given buffer sizes (cycled);
   per object: error, bytes, bytes from _print, ok-flags */
static void op_write(dstr_t *a, size_t n){
    extensions_t exts = mkexts(a[0]);
    for(int kind = 0; kind < 2; kind++){
        link_t *head = kind ? &keepr : &keepc;
        link_t *l;
        if(!head->next) continue;
        for(l = head->next; l != head; l = l->next){
            dstr_t all = {0}, pr = {0};
            derr_t e = E_OK;
            size_t skip = 0, want = 1, k = 0, rounds = 0; bool badwant = false, wrote_more = false;
            size_t pwant = 0;
            while(want && e.type == NULL && rounds < 200000){
                size_t sz = (size_t)drv_uint(a[1 + (k++ % (n - 1))]);
                dstr_t o = { .data = malloc(sz ? sz : 1), .size = sz, .fixed_size = true };
                size_t before = skip;
                if(kind) e = imap_resp_write(CONTAINER_OF(l, imap_resp_t, link), &o, &skip, &want, &exts);
                else e = imap_cmd_write(CONTAINER_OF(l, imap_cmd_t, link), &o, &skip, &want, &exts);
                if(o.len > o.size) wrote_more = true;
                /* want is what is still needed: it must shrink by exactly what was written */
                if(rounds && e.type == NULL && pwant != o.len + want) badwant = true;
                if(rounds && sz >= 2 && e.type == NULL && skip == before) { badwant = true; free(o.data); break; }
                pwant = want;
                if(e.type == NULL) dstr_append_quiet(&all, &o);
                free(o.data);
                rounds++;
            }
            drv_e(e);
            drv_d(all);
            if(kind) e = imap_resp_print(CONTAINER_OF(l, imap_resp_t, link), &pr, &exts);
            else e = imap_cmd_print(CONTAINER_OF(l, imap_cmd_t, link), &pr, &exts);
            drv_e(e); drv_d(pr);
            drv_i(badwant ? 1 : wrote_more ? 2 : 0);
            dstr_free(&all); dstr_free(&pr);
        }
    }
}

/* starttls exts chunk... -> error, dump, total bytes consumed up to and including STARTTLS or -1 */
static void op_starttls(dstr_t *a, size_t n){
    drop_all();
    extensions_t exts = mkexts(a[0]);
    imap_cmd_reader_t cr;
    derr_t e = imap_cmd_reader_init(&cr, &exts);
    buf_t b = {0}; bs(&b, "[");
    bool first = true; long long at = -1; size_t base = 0;
    for(size_t i = 1; i < n && e.type == NULL && at < 0; i++){
        dstr_t in = cpy(a[i]);
        link_t out = {0};
        size_t skip = 0;
        e = imap_cmd_read_starttls(&cr, in, &out, &skip);
        free(in.data);
        if(e.type == NULL && skip != SIZE_MAX) at = (long long)(base + skip);
        base += a[i].len;
        link_t *l;
        while((l = link_list_pop_first(&out))){
            if(!first) bs(&b, ","); first = false;
            dump_cmd(&b, CONTAINER_OF(l, imap_cmd_t, link));
            link_list_append(&keepc, l);
        }
    }
    bs(&b, "]");
    drv_e(e); drv_s(b.p); drv_i(at);
    imap_cmd_reader_free(&cr);
    free(b.p);
}

static void op_drop(dstr_t *a, size_t n){ (void)a; (void)n; drop_all(); drv_s("ok"); }
static const drv_op_t ops[] = { {"cmds", op_cmds}, {"resps", op_resps}, {"write", op_write}, {"starttls", op_starttls}, {"drop", op_drop}, {NULL, NULL} };
int main(void){ return drv_main(ops); }
