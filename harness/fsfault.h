/* a file system which can stop the process before an operation, tear a write,
   or fail; only below fs_root. Link with FSWRAP (harness.cmake). */
#ifndef FSFAULT_H
#define FSFAULT_H
#include <stdio.h>
#include <stdio_ext.h>
#include <fcntl.h>
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>
static long fs_ops, fs_at; static int fs_mode; /* 0 none 1 crash before 2 crash after partial write 3 ENOSPC/EIO once 4 fail from there on 5 short writes 6 opening for reading fails once 7 ... from there on */ static long fs_rops;
static char fs_what[300];
static char fs_root[4096];
static bool fs_log; static dstr_t fs_trace;
static bool in_root(const char *p){ return fs_root[0] && !strncmp(p, fs_root, strlen(fs_root)); }
static bool fd_in_root(int fd){
    char l[64], b[4096]; snprintf(l, 64, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof(b) - 1); if(n <= 0) return false;
    b[n] = 0; return in_root(b);
}
/* confinement: an operation whose path does not stay below fs_conf levels of
   directories below fs_root (its own ones) is recorded and refused */
static int fs_conf; static dstr_t fs_esc;
static bool fs_escapes(const char *op, const char *p){
    if(!fs_conf || !fs_root[0] || p[0] != '/') return false;
    bool bad = false;
    if(!in_root(p)){
        bad = true;
    }else{
        const char *q = p + strlen(fs_root);
        int depth = 0;
        while(*q){
            while(*q == '/') q++;
            size_t l = strcspn(q, "/"); if(!l) break;
            if(l == 1 && q[0] == '.'){ }
            else if(l == 2 && q[0] == '.' && q[1] == '.'){ depth--; if(depth < fs_conf) bad = true; if(depth < 0) break; }
            else depth++;
            q += l;
        }
    }
    if(bad){
        char b[1200]; int n = snprintf(b, sizeof(b), "%s %.1000s\n", op, p);
        dstr_t d = { .data = b, .len = (size_t)n, .size = sizeof(b), .fixed_size = true };
        DROP_CMD( dstr_append(&fs_esc, &d) );
        errno = EACCES;
    }
    return bad;
}
#define FS_ESC(op, p, ret) if(fs_escapes(op, p)) return ret
/* returns true if the operation must fail; *partial: write only part, then die */
static bool fs_hit(const char *op, const char *arg, bool *partial){
    fs_ops++;
    if(fs_log){ char b[600]; int n = snprintf(b, 600, "%ld %s %.500s\n", fs_ops, op, arg); dstr_t d = { .data = b, .len = (size_t)n, .size = 600, .fixed_size = true }; DROP_CMD( dstr_append(&fs_trace, &d) ); }
    if(partial) *partial = false;
    if(!fs_mode || fs_mode >= 5 || fs_ops < fs_at) return false;
    if(fs_mode == 4 || fs_ops == fs_at){
        snprintf(fs_what, sizeof(fs_what), "%s %.200s", op, arg);
        if(fs_mode == 1 || (fs_mode == 2 && !partial)){ fprintf(stderr, "VH_CRASH at op %ld %s\n", fs_ops, fs_what); _exit(77); }
        if(fs_mode == 2){ *partial = true; return false; }
        errno = fs_ops % 2 ? ENOSPC : EIO;
        return true;
    }
    return false;
}
int __real_rename(const char*, const char*); int __wrap_rename(const char *a, const char *b);
int __wrap_rename(const char *a, const char *b){ FS_ESC("rename", a, -1); FS_ESC("rename", b, -1);  if(in_root(b) && fs_hit("rename", b, NULL)) return -1; return __real_rename(a, b); }
int __real_remove(const char*); int __wrap_remove(const char *a);
int __wrap_remove(const char *a){ FS_ESC("remove", a, -1);  if(in_root(a) && fs_hit("remove", a, NULL)) return -1; return __real_remove(a); }
int __real_unlink(const char*); int __wrap_unlink(const char *a);
int __wrap_unlink(const char *a){ FS_ESC("unlink", a, -1);  if(in_root(a) && fs_hit("unlink", a, NULL)) return -1; return __real_unlink(a); }
int __real_rmdir(const char*); int __wrap_rmdir(const char *a);
int __wrap_rmdir(const char *a){ FS_ESC("rmdir", a, -1);  if(in_root(a) && fs_hit("rmdir", a, NULL)) return -1; return __real_rmdir(a); }
int __real_mkdir(const char*, mode_t); int __wrap_mkdir(const char *a, mode_t m);
int __wrap_mkdir(const char *a, mode_t m){ FS_ESC("mkdir", a, -1);  if(in_root(a) && fs_hit("mkdir", a, NULL)) return -1; return __real_mkdir(a, m); }
int __real_open(const char*, int, ...); int __wrap_open(const char *a, int f, mode_t m);
int __wrap_open(const char *a, int f, mode_t m){ if(f & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) { FS_ESC("open", a, -1); }  if(fs_mode >= 6 && !(f & (O_CREAT | O_TRUNC)) && in_root(a)){ fs_rops++; if(fs_rops == fs_at || (fs_mode == 7 && fs_rops > fs_at)){ errno = EIO; return -1; } }
    if((f & (O_CREAT | O_TRUNC)) && in_root(a) && fs_hit("open", a, NULL)) return -1; return __real_open(a, f, m); }
FILE *__real_fopen(const char*, const char*); FILE *__wrap_fopen(const char *a, const char *m);
FILE *__wrap_fopen(const char *a, const char *m){ if(m[0] != 'r') { FS_ESC("fopen", a, NULL); }  if(m[0] != 'r' && in_root(a) && fs_hit("fopen", a, NULL)) return NULL; return __real_fopen(a, m); }
static void part_flush(FILE *f){
    size_t n = __fpending(f);
    if(n) { ssize_t w = write(fileno(f), f->_IO_write_base, 1 + (size_t)fs_at % n); (void)w; }
    fprintf(stderr, "VH_CRASH in op %ld %s\n", fs_ops, fs_what); _exit(77);
}
int __real_fflush(FILE*); int __wrap_fflush(FILE *f);
int __wrap_fflush(FILE *f){
    if(f && __fpending(f) && fd_in_root(fileno(f))){ bool p; if(fs_hit("fflush", "", &p)) return EOF; if(p) part_flush(f); }
    return __real_fflush(f);
}
int __real_fclose(FILE*); int __wrap_fclose(FILE *f);
int __wrap_fclose(FILE *f){
    if(f && __fwritable(f) && __fpending(f) && fd_in_root(fileno(f))){ bool p; if(fs_hit("fclose", "", &p)){ __fpurge(f); __real_fclose(f); errno = ENOSPC; return EOF; } if(p) part_flush(f); }
    return __real_fclose(f);
}
ssize_t __real_write(int, const void*, size_t); ssize_t __wrap_write(int fd, const void *p, size_t n);
ssize_t __wrap_write(int fd, const void *p, size_t n){
    if(n && fd_in_root(fd)){
        if(fs_mode == 5 && n > 1){ fs_ops++; return __real_write(fd, p, 1 + (n + (size_t)fs_ops) % n / 2); }
        bool part; if(fs_hit("write", "", &part)) return -1;
        if(part){ ssize_t w = __real_write(fd, p, n / 2); (void)w; fprintf(stderr, "VH_CRASH in op %ld write\n", fs_ops); _exit(77); }
    }
    return __real_write(fd, p, n);
}
/* mode 8: closing a written file fails */
int __real_close(int); int __wrap_close(int fd);
int __wrap_close(int fd){
    bool hit = false; int fl;
    if(fs_mode == 8 && (fl = fcntl(fd, F_GETFL)) >= 0 && (fl & O_ACCMODE) != O_RDONLY && fd_in_root(fd)) hit = ++fs_ops >= fs_at;
    int r = __real_close(fd);
    if(hit){ errno = EIO; return -1; }
    return r;
}
int __real_fsync(int); int __wrap_fsync(int fd);
int __wrap_fsync(int fd){ if(fd_in_root(fd) && fs_hit("fsync", "", NULL)) return -1; return 0; }
#endif
