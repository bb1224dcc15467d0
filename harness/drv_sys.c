/* options, configuration files, file operations */
#include "drv.h"
#include "fsfault.h"
#include <grp.h>
static char *cstr(const dstr_t d){ char *p = malloc(d.len + 1); memcpy(p, d.data, d.len); p[d.len] = 0; return p; }
/* a path made of the given number of pieces, so that string builders are used the way the code uses them */
static char *KEEP[64]; static size_t NKEEP;
static char *keep(const dstr_t d){ return KEEP[NKEEP++] = cstr(d); }
static string_builder_t SB[4];
static string_builder_t *sbp(int slot, const dstr_t d){
    /* split at the last slash unless the path has none or ends with one */
    char *p = keep(d), *q = strrchr(p, '/');
    static string_builder_t base[4];
    if(q && q != p && q[1]){ *q = 0; base[slot] = SBS(p); SB[slot] = sb_append(&base[slot], SBS(q + 1)); }
    else SB[slot] = SBS(p);
    return &SB[slot];
}

typedef struct { opt_spec_t s; int failat; int ncb; } xs_t;
static xs_t X[64]; static opt_spec_t *XP[64]; static size_t NX;
typedef struct { size_t i; } cbd_t; static cbd_t CBD[64];
static dstr_t CBLOG;
static derr_t on_cb(void *data, dstr_t val){
    cbd_t *c = data; derr_t e = E_OK; char b[48];
    snprintf(b, sizeof b, "%zu:%d:", c->i, val.data ? 1 : 0);
    dstr_append_quiet(&CBLOG, &(dstr_t){ .data = b, .len = strlen(b), .size = strlen(b), .fixed_size = true });
    dstr_append_quiet(&CBLOG, &val); dstr_append_quiet(&CBLOG, &DSTR_LIT("\n"));
    if(++X[c->i].ncb == X[c->i].failat) ORIG(&e, E_CONN, "told to fail");
    return e;
}
/* specs: n, then per spec: short char or "", long or "-", val_req, has_cb, failat */
static size_t specs(dstr_t *a){
    NX = drv_uint(a[0]);
    for(size_t i = 0; i < NX; i++){
        dstr_t *b = a + 1 + 5 * i;
        X[i] = (xs_t){ .s = { .oshort = b[0].len ? b[0].data[0] : '\0', .olong = b[1].len == 1 && b[1].data[0] == '-' ? NULL : cstr(b[1]), .val_req = drv_int(b[2]) },
            .failat = (int)drv_int(b[4]) };
        CBD[i].i = i;
        if(drv_int(b[3])){ X[i].s.cb = on_cb; X[i].s.cb_data = &CBD[i]; }
        XP[i] = &X[i].s;
    }
    CBLOG.len = 0;
    return 1 + 5 * NX;
}
static void put_specs(void){
    for(size_t i = 0; i < NX; i++){ drv_i(X[i].s.found); drv_i(X[i].s.count); drv_i(X[i].s.val.data != NULL); drv_d(X[i].s.val); free(X[i].s.olong); }
    drv_d(CBLOG);
}
/* opts mode specs... argv...  -> err newargc argv.. specs */
static void op_opts(dstr_t *a, size_t n){
    int mode = (int)drv_int(a[0]); size_t k = 1 + specs(a + 1);
    /* as if something before (a configuration file) had given the last option */
    if(mode & 8){ mode &= 7; X[NX - 1].s.found = 7; }
    int argc = (int)(n - k), na = -7;
    char **argv = malloc(sizeof(*argv) * (size_t)(argc + 1)), **orig = malloc(sizeof(*argv) * (size_t)(argc + 1));
    for(int i = 0; i < argc; i++) orig[i] = argv[i] = cstr(a[k + (size_t)i]);
    derr_t e = mode == 0 ? opt_parse(argc, argv, XP, NX, &na) : mode == 1 ? opt_parse_soft(argc, argv, XP, NX, &na) : opt_parse_ex(argc, argv, XP, NX, &na, mode == 3);
    drv_e(e); drv_i(na);
    for(int i = 0; i < argc; i++){ int j = 0; while(j < argc && orig[j] != argv[i]) j++; drv_i(j); }
    put_specs();
    for(int i = 0; i < argc; i++) free(orig[i]);
    free(argv); free(orig);
}
/* conf ntexts specs... texts... -> err per text until the first failure; specs */
static void op_conf(dstr_t *a, size_t n){
    size_t k = specs(a); char *t[8]; size_t nt = 0;
    for(; k < n; k++){
        /* exact-size buffer, so that reading past the end is seen */
        t[nt] = malloc(a[k].len ? a[k].len : 1); memcpy(t[nt], a[k].data, a[k].len);
        dstr_t d = { .data = t[nt], .len = a[k].len, .size = a[k].len, .fixed_size = true }; nt++;
        derr_t e = conf_parse(&d, XP, NX); drv_e(e);
    }
    drv_s("SPECS"); put_specs();
    for(size_t i = 0; i < nt; i++) free(t[i]);
}
/* root uid: confine this process to the files of an unprivileged user */
static void op_drop(dstr_t *a, size_t n){
    (void)n; char *p = cstr(a[0]); snprintf(fs_root, sizeof(fs_root), "%s", p); free(p);
    umask(022); uid_t u = (uid_t)drv_uint(a[1]);
    if(setgroups(0, NULL) || setresgid(u, u, u) || setresuid(u, u, u)) drv_s("FAIL"); else drv_s("OK");
    prctl(PR_SET_PDEATHSIG, SIGKILL);
}
static void op_fs(dstr_t *a, size_t n){ (void)n; fs_at = (long)drv_int(a[0]); fs_mode = (int)drv_int(a[1]); fs_ops = 0; fs_what[0] = 0; drv_s("OK"); }
static void op_fsops(dstr_t *a, size_t n){ (void)a; (void)n; drv_i(fs_ops); }
static size_t NHOOK; static size_t hook_fail;
static derr_t fe_hook(const string_builder_t *base, const dstr_t *file, bool isdir, void *u){
    derr_t e = E_OK; (void)u; DSTR_VAR(b, 4096);
    e = FMT(&b, "%x", FSB(*base)); if(e.type) abort();
    drv_d(b); drv_d(*file); drv_i(isdir);
    if(++NHOOK == hook_fail) ORIG(&e, E_CONN, "told to fail");
    return e;
}
static void pb(derr_t e, bool b){ drv_e(e); drv_i(b); }
/* f name by_sb path [path2] [data] */
static void op_f(dstr_t *a, size_t n){
    (void)n; for(size_t i = 0; i < NKEEP; i++) free(KEEP[i]);
    NKEEP = 0; char *op = keep(a[0]); bool sb = drv_int(a[1]) != 0; char *p = keep(a[2]); bool r = false; derr_t e;
    #define IS(s) (!strcmp(op, s))
    #define ALT(plain, viasb) do { if(sb) e = viasb; else e = plain; } while(0)
    if(IS("rm_rf")){ ALT(rm_rf(p), rm_rf_path(sbp(0, a[2]))); drv_e(e); }
    else if(IS("empty")){ e = empty_dir(sbp(0, a[2])); drv_e(e); }
    else if(IS("mkdirs")){ e = mkdirs_path(sbp(0, a[2]), (mode_t)drv_uint(a[3])); drv_e(e); }
    else if(IS("mkdir")){ ALT(dmkdir(p, (mode_t)drv_uint(a[3]), drv_int(a[4])), mkdir_path(sbp(0, a[2]), (mode_t)drv_uint(a[3]), drv_int(a[4]))); drv_e(e); }
    else if(IS("copy")){ ALT(file_copy(p, keep(a[3]), (mode_t)drv_uint(a[4])), file_copy_path(sbp(0, a[2]), sbp(1, a[3]), (mode_t)drv_uint(a[4]))); drv_e(e); }
    else if(IS("touch")){ ALT(touch(p), touch_path(sbp(0, a[2]))); drv_e(e); }
    else if(IS("rename")){ bool at = drv_int(a[4]);
        if(at) ALT(drename_atomic(p, keep(a[3])), drename_atomic_path(sbp(0, a[2]), sbp(1, a[3]))); else ALT(drename(p, keep(a[3])), drename_path(sbp(0, a[2]), sbp(1, a[3]))); drv_e(e); }
    else if(IS("write")){ if(sb) e = drv_int(a[4]) ? dstr_write_path2(a[3], *sbp(0, a[2])) : dstr_write_path(sbp(0, a[2]), &a[3]); else e = drv_int(a[4]) ? dstr_write_file2(a[3], p) : dstr_write_file(p, &a[3]); drv_e(e); }
    else if(IS("read")){
        /* prefix, initial size (0: empty dstr), fixed */
        size_t sz = drv_uint(a[4]); bool fixed = drv_int(a[5]); dstr_t b = {0};
        if(sz){ if(sz < a[3].len) sz = a[3].len; b.data = malloc(sz); b.size = sz; b.fixed_size = fixed; }
        if(a[3].len){ if(!b.data){ b.data = malloc(a[3].len); b.size = a[3].len; } memcpy(b.data, a[3].data, a[3].len); b.len = a[3].len; }
        ALT(dstr_read_file(p, &b), dstr_read_path(sbp(0, a[2]), &b)); drv_e(e); drv_d(b);
        free(b.data);
    }
    else if(IS("remove")){ ALT(dremove(p), remove_path(sbp(0, a[2]))); drv_e(e); }
    else if(IS("unlink")){ ALT(dunlink(p), dunlink_path(sbp(0, a[2]))); drv_e(e); }
    else if(IS("rmdir")){ ALT(drmdir(p), drmdir_path(sbp(0, a[2]))); drv_e(e); }
    else if(IS("exists")){ if(sb){ e = drv_int(a[3]) ? exists_path2(*sbp(0, a[2]), &r) : exists_path(sbp(0, a[2]), &r); } else e = dexists(p, &r); pb(e, r); }
    else if(IS("is_file")){ ALT(is_file(p, &r), is_file_path(sbp(0, a[2]), &r)); pb(e, r); }
    else if(IS("is_dir")){ ALT(is_dir(p, &r), is_dir_path(sbp(0, a[2]), &r)); pb(e, r); }
    else if(IS("access")){ /* kind: fr fw frw dr dw drw ; create */
        bool c = drv_int(a[4]); char *k = keep(a[3]); string_builder_t *s = sbp(0, a[2]); e = E_OK;
        if(!strcmp(k, "fr")){ if(sb) e = file_r_access_path(s, &r); else r = file_r_access(p); }
        if(!strcmp(k, "fw")){ if(sb) e = file_w_access_path(s, &r); else r = file_w_access(p); }
        if(!strcmp(k, "frw")){ if(sb) e = file_rw_access_path(s, &r); else r = file_rw_access(p); }
        if(!strcmp(k, "dr")){ if(sb) e = dir_r_access_path(s, c, &r); else r = dir_r_access(p, c); }
        if(!strcmp(k, "dw")){ if(sb) e = dir_w_access_path(s, c, &r); else r = dir_w_access(p, c); }
        if(!strcmp(k, "drw")){ if(sb) e = dir_rw_access_path(s, c, &r); else r = dir_rw_access(p, c); }
        pb(e, r); }
    else if(IS("each")){ NHOOK = 0; hook_fail = drv_uint(a[3]); e = for_each_file_in_dir(sbp(0, a[2]), fe_hook, NULL); drv_s("END"); drv_e(e); }
    else if(IS("stat")){ struct stat s; bool ex = true; if(drv_int(a[3])) ALT(dstat(p, &s, &ex), dstat_path(sbp(0, a[2]), &s, &ex)); else ALT(dstat(p, &s, NULL), dstat_path(sbp(0, a[2]), &s, NULL));
        drv_e(e); drv_i(ex); }
    else if(IS("readlink")){ DSTR_VAR(st, 16); dstr_t heap = {0}, *out = NULL; e = readlink_path(sbp(0, a[2]), &st, &heap, &out); bool bad = e.type != NULL; drv_e(e); if(!bad){ drv_d(*out); drv_i(out->data[out->len]); } dstr_free(&heap); }
    else if(IS("symlink")){ e = symlink_path(sbp(1, a[3]), sbp(0, a[2])); drv_e(e); }
    else drv_s("?");
}
static void op_names(dstr_t *a, size_t n){
    (void)n; char *p = malloc(a[0].len ? a[0].len : 1); memcpy(p, a[0].data, a[0].len);
    dstr_t d = { .data = p, .len = a[0].len, .size = a[0].len, .fixed_size = true };
    drv_d(ddirname(d)); drv_d(dbasename(d)); drv_i(isabs(d)); free(p);
}
static flock_t LK[8];
/* lock slot path block by_sb */
static void op_lock(dstr_t *a, size_t n){
    (void)n; for(size_t i = 0; i < NKEEP; i++) free(KEEP[i]);
    NKEEP = 0; size_t s = drv_uint(a[0]); bool ok = false; bool blk = drv_int(a[2]);
    derr_t e = drv_int(a[3]) ? dflock_path(&LK[s], *sbp(0, a[1]), blk ? NULL : &ok) : dflock(&LK[s], keep(a[1]), blk ? NULL : &ok);
    drv_e(e); drv_i(blk ? LK[s].locked : ok);
}
static void op_unlock(dstr_t *a, size_t n){ (void)n; dflock_release(&LK[drv_uint(a[0])]); drv_s("OK"); }
static void op_fds(dstr_t *a, size_t n){ (void)a; (void)n; int c = 0; for(int i = 0; i < 1024; i++) if(fcntl(i, F_GETFD) >= 0) c++; drv_i(c); }
int main(void){
    static const drv_op_t ops[] = {{"opts", op_opts}, {"conf", op_conf}, {"drop", op_drop}, {"fs", op_fs}, {"fsops", op_fsops}, {"f", op_f}, {"names", op_names},
        {"lock", op_lock}, {"unlock", op_unlock}, {"fds", op_fds}, {0}};
    return drv_main(ops);
}
