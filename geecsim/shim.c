/* Simulated operating system layer for GEEC processes (LD_PRELOAD).
 *
 * Off (pass-through) until sim_arm() is called in a process.  When armed:
 *  - file operations on managed paths (prefix rules, optionally redirected) are numbered, logged in
 *    shared memory, and may be faulted by the plan: errno, short transfer, torn write, crash,
 *    SIGINT, clock step;
 *  - if a scheduler is attached, every managed operation first asks it for permission;
 *  - clock, pid and entropy are simulated.
 * Nothing here draws randomness: every decision comes from the plan.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXRULE 32
#define MAXPLAN 64
#define MAXFD 4096
#define PLEN 256

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_FSYNC, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_RMDIR,
       OP_TRUNC, OP_CHMOD, OP_LINK, OP_SYMLINK, OP_UTIME, OP_OPENDIR };
#define CLS_TMP 8
#define CLS_OUT 99 /* a change outside the simulated world: refused and recorded */
enum { A_ERR = 1, A_SHORT, A_CRASH, A_CRASH_AFTER, A_TORN, A_SIGINT, A_CLOCK, A_STICKY, A_SWAP };

struct rule { char prefix[PLEN]; int plen; int cls; char to[PLEN]; };
struct plan { int op, cls, nth, action; long arg; int used; }; /* op, cls: 0 is any */
struct entry { int32_t idx, op, cls, fd, res, err, flags, fault; int64_t off, len, arena; char path[PLEN], path2[PLEN]; };
struct shared { int32_t n, cap, nops, crashed; int64_t arena_used, arena_cap, clock_calls; };

static int armed;
static struct rule rules[MAXRULE]; static int nrules;
static struct plan plans[MAXPLAN]; static int nplans;
static struct { int cls; int64_t off; int append; char path[PLEN]; } fds[MAXFD];
static struct shared *sh; static struct entry *ents; static char *arena;
static int sticky_op[16], sticky_cls[16], sticky_err[16], nsticky;
static int sched_w = -1, sched_r = -1;
static char cwd[PLEN];
static int64_t clk_real, clk_mono, clk_tick, clk_op; static int clk_on, guard;
static int fake_pid; static uint64_t ent_state; static int ent_on;
static long max_ops;
static char swaps[8][2][PLEN]; static int nswaps; /* files that another program replaces (or removes) */

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
static void die(int code) { raw(SYS_exit_group, code, 0, 0, 0, 0, 0); for (;;) ; }

/* ---- control interface (ctypes) ---- */
void sim_reset(void) { armed = 0; nrules = nplans = nsticky = 0; clk_on = ent_on = 0; fake_pid = 0; sched_w = sched_r = -1; max_ops = 0; guard = 0; clk_op = 0; nswaps = 0; memset(fds, 0, sizeof fds); }
int sim_rule(const char *prefix, int cls, const char *to) {
  if (nrules >= MAXRULE || strlen(prefix) >= PLEN || strlen(to) >= PLEN) return -1;
  struct rule *r = &rules[nrules++]; strcpy(r->prefix, prefix); r->plen = strlen(prefix); r->cls = cls; strcpy(r->to, to); return 0; }
int sim_plan(int op, int cls, int nth, int action, long arg) { if (nplans >= MAXPLAN) return -1; plans[nplans++] = (struct plan){op, cls, nth, action, arg, 0}; return 0; }
void sim_guard(int on, int64_t op_ns) { guard = on; clk_op = op_ns; }
void sim_noplan(void) { nplans = nsticky = 0; }
void sim_shared(void *mem, int cap, long arena_cap) { sh = mem; sh->n = 0; sh->cap = cap; sh->nops = 0; sh->crashed = 0; sh->arena_used = 0; sh->arena_cap = arena_cap;
  sh->clock_calls = 0; ents = (struct entry *)((char *)mem + 256); arena = (char *)(ents + cap); }
long sim_shared_size(int cap, long arena_cap) { return 256 + (long)cap * sizeof(struct entry) + arena_cap; }
int sim_entry_size(void) { return sizeof(struct entry); }
void sim_clock(int64_t real_ns, int64_t mono_ns, int64_t tick_ns) { clk_real = real_ns; clk_mono = mono_ns; clk_tick = tick_ns; clk_on = 1; }
void sim_clock_advance(int64_t ns) { clk_real += ns; clk_mono += ns; }
void sim_clock_step(int64_t ns) { clk_real += ns; }
void sim_clock_on(int on) { clk_on = on; }
int64_t sim_clock_mono(void) { return clk_mono; }
void sim_ident(int pid, uint64_t entropy) { fake_pid = pid; ent_state = entropy; ent_on = 1; }
void sim_sched(int w, int r) { sched_w = w; sched_r = r; }
void sim_limit(long n) { max_ops = n; }
int sim_swap(const char *from, const char *to) { if (nswaps >= 8 || strlen(from) >= PLEN || strlen(to) >= PLEN) return -1; strcpy(swaps[nswaps][0], from); strcpy(swaps[nswaps][1], to); return nswaps++; }
void sim_fd(int fd, int cls, const char *name) { fds[fd].cls = cls; fds[fd].append = 1; strncpy(fds[fd].path, name, PLEN - 1); }
void sim_forget(int fd) { if (fd >= 0 && fd < MAXFD) fds[fd].cls = 0; }
void sim_arm(int on) { if (on) { if (raw(SYS_getcwd, (long)cwd, PLEN, 0, 0, 0, 0) < 0) cwd[0] = 0; } armed = on; }

/* ---- helpers ---- */
static int absify(const char *p, char *out) {
  if (!p || !p[0]) return -1;
  int n = 0;
  if (p[0] != '/') { n = strlen(cwd); memcpy(out, cwd, n); }
  while (*p) { /* lexical normalisation */
    while (*p == '/') p++;
    int k = 0; while (p[k] && p[k] != '/') k++;
    if (!k) break;
    if (k == 1 && p[0] == '.') ;
    else if (k == 2 && p[0] == '.' && p[1] == '.') { while (n > 0 && out[--n] != '/') ; }
    else { if (n + k + 2 > PLEN) return -1; out[n++] = '/'; memcpy(out + n, p, k); n += k; }
    p += k;
  }
  if (!n) out[n++] = '/';
  out[n] = 0; return 0;
}
/* class of a path (0: not managed); *use is the path to operate on */
static int classify(const char *p, char *abs, char *redir, const char **use) {
  *use = p;
  if (!armed || absify(p, abs)) return 0;
  for (int i = 0; i < nrules; i++) {
    struct rule *r = &rules[i];
    if (!strncmp(abs, r->prefix, r->plen) && (r->prefix[r->plen - 1] == '/' || abs[r->plen] == 0 || abs[r->plen] == '/')) {
      if (r->to[0]) { if (strlen(r->to) + strlen(abs + r->plen) >= PLEN) return 0; strcpy(redir, r->to); strcat(redir, abs + r->plen); strcpy(abs, redir); *use = redir; }
      return r->cls;
    }
  }
  return 0;
}
static struct entry *note(int op, int cls, int fd, const char *path, const char *path2, int flags);
/* a change outside the simulated world */
static int outside(int op, const char *p) {
  if (!armed || !guard || !p) return 0;
  char abs[PLEN]; if (absify(p, abs)) strcpy(abs, "?");
  if (!strncmp(abs, "/dev/", 5) || !strncmp(abs, "/proc/", 6)) return 0;
  struct stat st; int there = raw(SYS_newfstatat, AT_FDCWD, (long)p, (long)&st, AT_SYMLINK_NOFOLLOW, 0, 0) == 0;
  if (op == OP_MKDIR && there) { errno = EEXIST; return -1; }
  if ((op == OP_UNLINK || op == OP_RMDIR || op == OP_CHMOD) && !there) { errno = ENOENT; return -1; }
  struct entry *e = note(op, CLS_OUT, -1, abs, NULL, 0); errno = EROFS; e->res = -1; e->err = EROFS; return -1;
}
/* wait for one's turn */
static void permission(void) {
  if (sched_w < 0) return;
  char c = 'r', g; if (raw(SYS_write, sched_w, (long)&c, 1, 0, 0, 0) != 1 || raw(SYS_read, sched_r, (long)&g, 1, 0, 0, 0) != 1) die(97);
  if (g == 'k') { sh->crashed = 1; die(137); }
}
void sim_ask(void) { permission(); }
/* the same for one who cannot go on before another one has */
static void waiting(void) {
  clk_real += 1000000; clk_mono += 1000000;
  if (max_ops && sh->nops++ > max_ops) { sh->crashed = 2; die(96); }
  if (sched_w < 0) return;
  char c = 'w', g; if (raw(SYS_write, sched_w, (long)&c, 1, 0, 0, 0) != 1 || raw(SYS_read, sched_r, (long)&g, 1, 0, 0, 0) != 1) die(97);
  if (g == 'k') { sh->crashed = 1; die(137); }
}
static struct entry *note(int op, int cls, int fd, const char *path, const char *path2, int flags) {
  int idx = sh->nops++; clk_real += clk_op; clk_mono += clk_op;
  if (max_ops && idx > max_ops) { sh->crashed = 2; die(96); }
  permission();
  static struct entry dummy; struct entry *e = sh->n < sh->cap ? &ents[sh->n++] : &dummy;
  memset(e, 0, sizeof *e); e->idx = idx; e->op = op; e->cls = cls; e->fd = fd; e->flags = flags; e->off = -1; e->arena = -1;
  if (path) strncpy(e->path, path, PLEN - 1); if (path2) strncpy(e->path2, path2, PLEN - 1);
  return e;
}
/* returns: 0 go on, -1 fail with errno, else *lim limits the transfer; *after: crash after */
static int faults(struct entry *e, long *lim, int *after) {
  int rc = 0; *after = 0;
  for (int i = 0; i < nsticky; i++)
    if (sticky_op[i] == e->op && sticky_cls[i] == e->cls) { errno = sticky_err[i]; e->fault = A_STICKY; rc = -1; }
  for (int i = 0; i < nplans; i++) {
    struct plan *p = &plans[i];
    if (p->used || (p->op && p->op != e->op) || (p->cls ? p->cls != e->cls : e->cls == CLS_OUT) || p->nth-- > 0) continue;
    p->used = 1; if (!rc) e->fault = p->action;
    switch (p->action) {
    case A_ERR: errno = (int)p->arg; e->fault = A_ERR; rc = -1; break;
    case A_STICKY: if (nsticky < 16) { sticky_op[nsticky] = e->op; sticky_cls[nsticky] = e->cls; sticky_err[nsticky++] = (int)p->arg; } errno = (int)p->arg; rc = -1; break;
    case A_SHORT: if (lim) *lim = p->arg; break;
    case A_TORN: if (lim) *lim = p->arg; *after = 1; break;
    case A_CRASH: sh->crashed = 1; die(137); break;
    case A_CRASH_AFTER: *after = 1; break;
    case A_SIGINT: raw(SYS_kill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGINT, 0, 0, 0, 0); break;
    case A_SWAP: if (p->arg < nswaps) { if (swaps[p->arg][0][0]) raw(SYS_rename, (long)swaps[p->arg][0], (long)swaps[p->arg][1], 0, 0, 0, 0); else raw(SYS_unlink, (long)swaps[p->arg][1], 0, 0, 0, 0, 0); } break;
    case A_CLOCK: clk_real += p->arg * 1000000000LL; break;
    }
  }
  if (rc) e->err = errno;
  return rc;
}
static long done(struct entry *e, long r, int after) {
  e->res = (int)r; if (r < 0) e->err = errno;
  if (after) { sh->crashed = 1; die(137); }
  return r;
}

/* ---- opening ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char abs[PLEN], red[PLEN]; const char *use;
  int cls = (dirfd == AT_FDCWD || (path && path[0] == '/')) ? classify(path, abs, red, &use) : (use = path, 0);
  if (!cls && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && (dirfd == AT_FDCWD || (path && path[0] == '/')) && outside(OP_OPEN, path)) return -1;
  if (!cls) { int fd = ret(raw(SYS_openat, dirfd, (long)use, flags, mode, 0, 0)); if (armed && fd >= 0 && fd < MAXFD) fds[fd].cls = 0; return fd; }
  struct entry *e = note(OP_OPEN, cls, -1, abs, NULL, flags); int after;
  if (faults(e, NULL, &after)) return done(e, -1, 0);
  int fd = ret(raw(SYS_openat, AT_FDCWD, (long)use, flags, mode, 0, 0));
  e->fd = fd;
  if (fd >= 0 && fd < MAXFD) { fds[fd].cls = cls; fds[fd].append = !!(flags & O_APPEND); strcpy(fds[fd].path, abs); }
  return done(e, fd, after);
}
#define MODE(f) mode_t mode = 0; if ((f) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, f); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int f, ...) { MODE(f) return do_open(AT_FDCWD, p, f, mode); }
int open64(const char *p, int f, ...) { MODE(f) return do_open(AT_FDCWD, p, f, mode); }
int openat(int d, const char *p, int f, ...) { MODE(f) return do_open(d, p, f, mode); }
int openat64(int d, const char *p, int f, ...) { MODE(f) return do_open(d, p, f, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
FILE *fopen64(const char *p, const char *m) {
  static FILE *(*real)(const char *, const char *); if (!real) real = dlsym(RTLD_NEXT, "fopen64");
  char abs[PLEN], red[PLEN]; const char *use; int cls = classify(p, abs, red, &use);
  if (!cls && m[0] != 'r' && outside(OP_OPEN, p)) return NULL;
  if (!cls) return real(use, m);
  int after; struct entry *e = note(OP_OPEN, cls, -1, abs, NULL, m[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | O_TRUNC);
  if (faults(e, NULL, &after)) { done(e, -1, 0); return NULL; }
  FILE *f = real(use, m); done(e, f ? fileno(f) : -1, after); return f;
}
FILE *fopen(const char *p, const char *m) { return fopen64(p, m); }

/* ---- transfers ---- */
static int managed(int fd) { return armed && fd >= 0 && fd < MAXFD && fds[fd].cls; }
ssize_t read(int fd, void *b, size_t n) {
  if (!managed(fd)) return ret(raw(SYS_read, fd, (long)b, n, 0, 0, 0));
  long lim = n; int after; struct entry *e = note(OP_READ, fds[fd].cls, fd, fds[fd].path, NULL, 0); e->len = n;
  if (faults(e, &lim, &after)) return done(e, -1, 0);
  if (lim < (long)n && lim > 0) n = lim;
  return done(e, ret(raw(SYS_read, fd, (long)b, n, 0, 0, 0)), after);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
  if (!managed(fd)) return ret(raw(SYS_pread64, fd, (long)b, n, o, 0, 0));
  long lim = n; int after; struct entry *e = note(OP_READ, fds[fd].cls, fd, fds[fd].path, NULL, 0); e->len = n; e->off = o;
  if (faults(e, &lim, &after)) return done(e, -1, 0);
  if (lim < (long)n && lim > 0) n = lim;
  return done(e, ret(raw(SYS_pread64, fd, (long)b, n, o, 0, 0)), after);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
static ssize_t do_write(int fd, const void *b, size_t n, off_t o) {
  long lim = n; int after; struct entry *e = note(OP_WRITE, fds[fd].cls, fd, fds[fd].path, NULL, 0); e->len = n;
  if (faults(e, &lim, &after)) return done(e, -1, 0);
  if (lim < (long)n && lim >= 0) n = lim;
  long pos = o >= 0 ? o : fds[fd].append ? -2 : raw(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
  long r = n == 0 ? 0 : o >= 0 ? ret(raw(SYS_pwrite64, fd, (long)b, n, o, 0, 0)) : ret(raw(SYS_write, fd, (long)b, n, 0, 0, 0));
  e->off = pos;
  if (r > 0 && sh->arena_used + r <= sh->arena_cap) { memcpy(arena + sh->arena_used, b, r); e->arena = sh->arena_used; sh->arena_used += r; }
  return done(e, r, after);
}
ssize_t write(int fd, const void *b, size_t n) { if (!managed(fd)) return ret(raw(SYS_write, fd, (long)b, n, 0, 0, 0)); return do_write(fd, b, n, -1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { if (!managed(fd)) return ret(raw(SYS_pwrite64, fd, (long)b, n, o, 0, 0)); return do_write(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!managed(fd)) return ret(raw(SYS_writev, fd, (long)v, c, 0, 0, 0));
  for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, -1); /* a legal short write */
  return 0;
}
ssize_t sendfile64(int out, int in, off_t *o, size_t n) {
  if (managed(out) || managed(in)) { errno = EINVAL; return -1; } /* legal: callers fall back to read and write */
  return ret(raw(SYS_sendfile, out, in, (long)o, n, 0, 0));
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) { return sendfile64(out, in, o, n); }
ssize_t copy_file_range(int in, off_t *oi, int out, off_t *oo, size_t n, unsigned f) {
  if (managed(out) || managed(in)) { errno = EXDEV; return -1; }
  return ret(raw(SYS_copy_file_range, in, (long)oi, out, (long)oo, n, f));
}
int close(int fd) {
  if (!managed(fd)) return ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
  int after; struct entry *e = note(OP_CLOSE, fds[fd].cls, fd, fds[fd].path, NULL, 0);
  fds[fd].cls = 0;
  if (faults(e, NULL, &after)) { raw(SYS_close, fd, 0, 0, 0, 0, 0); errno = e->err; return done(e, -1, 0); } /* as on Linux: the fd is gone */
  return done(e, ret(raw(SYS_close, fd, 0, 0, 0, 0, 0)), after);
}
int fclose(FILE *f) {
  static int (*real)(FILE *); if (!real) real = dlsym(RTLD_NEXT, "fclose");
  int fd = fileno(f); if (fd >= 0 && fd < MAXFD) fds[fd].cls = 0;
  return real(f);
}
static int do_sync(long nr, int fd) {
  if (!managed(fd)) return ret(raw(nr, fd, 0, 0, 0, 0, 0));
  int after; struct entry *e = note(OP_FSYNC, fds[fd].cls, fd, fds[fd].path, NULL, 0);
  if (faults(e, NULL, &after)) return done(e, -1, 0);
  return done(e, 0, after);
}
int fsync(int fd) { return do_sync(SYS_fsync, fd); }
int fdatasync(int fd) { return do_sync(SYS_fdatasync, fd); }
int ftruncate64(int fd, off_t n) {
  if (!managed(fd)) return ret(raw(SYS_ftruncate, fd, n, 0, 0, 0, 0));
  int after; struct entry *e = note(OP_TRUNC, fds[fd].cls, fd, fds[fd].path, NULL, 0); e->len = n;
  if (faults(e, NULL, &after)) return done(e, -1, 0);
  return done(e, ret(raw(SYS_ftruncate, fd, n, 0, 0, 0, 0)), after);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int dup(int fd) { int r = ret(raw(SYS_dup, fd, 0, 0, 0, 0, 0)); if (armed && r >= 0 && r < MAXFD) { if (fd >= 0 && fd < MAXFD) fds[r] = fds[fd]; } return r; }

/* ---- names ---- */
#define PATHOP(OP, PATH, PATH2, CALL) \
  char abs[PLEN], red[PLEN]; const char *use; int cls = classify(PATH, abs, red, &use); \
  if (!cls && outside(OP, PATH)) return -1; \
  if (!cls) return ret(CALL); \
  int after; struct entry *e = note(OP, cls, -1, abs, PATH2, 0); \
  if (faults(e, NULL, &after)) return done(e, -1, 0); \
  return done(e, ret(CALL), after);
int unlink(const char *p) { PATHOP(OP_UNLINK, p, NULL, raw(SYS_unlink, (long)use, 0, 0, 0, 0, 0)) }
int unlinkat(int d, const char *p, int f) { if (d != AT_FDCWD && p[0] != '/') return ret(raw(SYS_unlinkat, d, (long)p, f, 0, 0, 0)); PATHOP(f & AT_REMOVEDIR ? OP_RMDIR : OP_UNLINK, p, NULL, raw(SYS_unlinkat, AT_FDCWD, (long)use, f, 0, 0, 0)) }
int remove(const char *p) { PATHOP(OP_UNLINK, p, NULL, raw(SYS_unlink, (long)use, 0, 0, 0, 0, 0)) }
int rmdir(const char *p) { PATHOP(OP_RMDIR, p, NULL, raw(SYS_rmdir, (long)use, 0, 0, 0, 0, 0)) }
int mkdir(const char *p, mode_t m) { PATHOP(OP_MKDIR, p, NULL, raw(SYS_mkdir, (long)use, m, 0, 0, 0, 0)) }
int mkdirat(int d, const char *p, mode_t m) { if (d != AT_FDCWD && p[0] != '/') return ret(raw(SYS_mkdirat, d, (long)p, m, 0, 0, 0)); PATHOP(OP_MKDIR, p, NULL, raw(SYS_mkdir, (long)use, m, 0, 0, 0, 0)) }
int chmod(const char *p, mode_t m) { PATHOP(OP_CHMOD, p, NULL, raw(SYS_chmod, (long)use, m, 0, 0, 0, 0)) }
int fchmodat(int d, const char *p, mode_t m, int f) { if (d != AT_FDCWD && p[0] != '/') return ret(raw(SYS_fchmodat, d, (long)p, m, 0, 0, 0)); return chmod(p, m); }
int fchmod(int fd, mode_t m) {
  if (!managed(fd)) return ret(raw(SYS_fchmod, fd, m, 0, 0, 0, 0));
  int after; struct entry *e = note(OP_CHMOD, fds[fd].cls, fd, fds[fd].path, NULL, 0);
  if (faults(e, NULL, &after)) return done(e, -1, 0);
  return done(e, ret(raw(SYS_fchmod, fd, m, 0, 0, 0, 0)), after);
}
int truncate64(const char *p, off_t n) { PATHOP(OP_TRUNC, p, NULL, raw(SYS_truncate, (long)use, n, 0, 0, 0, 0)) }
int truncate(const char *p, off_t n) { return truncate64(p, n); }
int symlink(const char *t, const char *p) { PATHOP(OP_SYMLINK, p, t, raw(SYS_symlink, (long)t, (long)use, 0, 0, 0, 0)) }
static int two(int op, long nr, const char *a, const char *b) {
  char aa[PLEN], ar[PLEN], ba[PLEN], br[PLEN]; const char *ua, *ub; int ca = classify(a, aa, ar, &ua), cb = classify(b, ba, br, &ub);
  if (!ca && outside(op, a)) return -1; if (!cb && outside(op, b)) return -1;
  if (!ca && !cb) return ret(raw(nr, (long)ua, (long)ub, 0, 0, 0, 0));
  if (!ca) absify(a, aa); if (!cb) absify(b, ba);
  int after; struct entry *e = note(op, cb ? cb : ca, -1, aa, ba, 0);
  if (faults(e, NULL, &after)) return done(e, -1, 0);
  if ((ca == CLS_TMP) != (cb == CLS_TMP)) { errno = EXDEV; return done(e, -1, 0); } /* temporary files are on a file system of their own */
  return done(e, ret(raw(nr, (long)ua, (long)ub, 0, 0, 0, 0)), after);
}
int rename(const char *a, const char *b) { return two(OP_RENAME, SYS_rename, a, b); }
int renameat(int da, const char *a, int db, const char *b) {
  if ((da != AT_FDCWD && a[0] != '/') || (db != AT_FDCWD && b[0] != '/')) return ret(raw(SYS_renameat, da, (long)a, db, (long)b, 0, 0));
  return two(OP_RENAME, SYS_rename, a, b); }
int link(const char *a, const char *b) { return two(OP_LINK, SYS_link, a, b); }
int linkat(int da, const char *a, int db, const char *b, int f) {
  if ((da != AT_FDCWD && a[0] != '/') || (db != AT_FDCWD && b[0] != '/')) return ret(raw(SYS_linkat, da, (long)a, db, (long)b, f, 0));
  return two(OP_LINK, SYS_link, a, b); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
  if (!p || (d != AT_FDCWD && p[0] != '/')) return ret(raw(SYS_utimensat, d, (long)p, (long)t, f, 0, 0));
  PATHOP(OP_UTIME, p, NULL, raw(SYS_utimensat, AT_FDCWD, (long)use, (long)t, f, 0, 0)) }

/* ---- looking (redirected, scheduled, never faulted, not recorded) ---- */
#define LOOK(p) char abs_[PLEN], red_[PLEN]; const char *use_; if (classify(p, abs_, red_, &use_)) permission();
static int do_fstatat(int d, const char *p, struct stat *st, int f) {
  if (p && (d == AT_FDCWD || p[0] == '/')) { LOOK(p) return ret(raw(SYS_newfstatat, AT_FDCWD, (long)use_, (long)st, f, 0, 0)); }
  return ret(raw(SYS_newfstatat, d, (long)p, (long)st, f, 0, 0)); }
int __xstat(int v, const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, 0); }
int __xstat64(int v, const char *p, struct stat64 *st) { return do_fstatat(AT_FDCWD, p, (struct stat *)st, 0); }
int __lxstat(int v, const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int __lxstat64(int v, const char *p, struct stat64 *st) { return do_fstatat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int __fxstatat64(int v, int d, const char *p, struct stat64 *st, int f) { return do_fstatat(d, p, (struct stat *)st, f); }
int stat(const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return do_fstatat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat(const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) { return do_fstatat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char *p, struct stat *st, int f) { return do_fstatat(d, p, st, f); }
int fstatat64(int d, const char *p, struct stat64 *st, int f) { return do_fstatat(d, p, (struct stat *)st, f); }
int access(const char *p, int m) { LOOK(p) return ret(raw(SYS_access, (long)use_, m, 0, 0, 0, 0)); }
ssize_t readlink(const char *p, char *b, size_t n) { LOOK(p) return ret(raw(SYS_readlink, (long)use_, (long)b, n, 0, 0, 0)); }
void *opendir(const char *p) { static void *(*real)(const char *); if (!real) real = dlsym(RTLD_NEXT, "opendir"); LOOK(p) return real(use_); }

/* ---- clock, identity, entropy ---- */
static int64_t now(int mono) { clk_real += clk_tick; clk_mono += clk_tick; if (sh) sh->clock_calls++; return mono ? clk_mono : clk_real; }
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!armed || !clk_on || raw(SYS_gettid, 0, 0, 0, 0, 0, 0) != raw(SYS_getpid, 0, 0, 0, 0, 0, 0) || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return ret(raw(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0));
  int64_t v = now(!(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI)); t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL; return 0; }
int gettimeofday(struct timeval *t, void *tz) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
/* time passes while one sleeps, and others go on */
static int simulated_sleep(void) { return armed && clk_on && raw(SYS_gettid, 0, 0, 0, 0, 0, 0) == raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }
static int slept(int64_t ns) { if (ns > 0) { clk_real += ns; clk_mono += ns; } waiting(); return 0; }
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
  if (!simulated_sleep()) { long r = raw(SYS_clock_nanosleep, c, flags, (long)t, (long)rem, 0, 0); return (int)-r; }
  int64_t ns = t->tv_sec * 1000000000LL + t->tv_nsec; if (flags & TIMER_ABSTIME) ns -= c == CLOCK_REALTIME ? clk_real : clk_mono;
  return slept(ns); }
int nanosleep(const struct timespec *t, struct timespec *rem) {
  if (!simulated_sleep()) return ret(raw(SYS_nanosleep, (long)t, (long)rem, 0, 0, 0, 0));
  return slept(t->tv_sec * 1000000000LL + t->tv_nsec); }
int usleep(useconds_t us) { struct timespec t = {us / 1000000, us % 1000000 * 1000L}; return nanosleep(&t, NULL); }
/* locks: wait by asking again */
int flock(int fd, int op) {
  if (!managed(fd)) return ret(raw(SYS_flock, fd, op, 0, 0, 0, 0));
  permission();
  if (op & LOCK_NB) return ret(raw(SYS_flock, fd, op, 0, 0, 0, 0));
  for (;;) { int r = ret(raw(SYS_flock, fd, op | LOCK_NB, 0, 0, 0, 0)); if (!r || errno != EWOULDBLOCK) return r; waiting(); } }
static int do_fcntl(int fd, int cmd, long a) {
  if ((cmd == F_SETLKW || cmd == F_SETLK) && managed(fd)) permission();
  if (cmd == F_SETLKW && managed(fd)) for (;;) { int r = ret(raw(SYS_fcntl, fd, F_SETLK, a, 0, 0, 0)); if (!r || (errno != EAGAIN && errno != EACCES)) return r; waiting(); }
  int r = ret(raw(SYS_fcntl, fd, cmd, a, 0, 0, 0));
  if (armed && r >= 0 && r < MAXFD && fd >= 0 && fd < MAXFD && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) fds[r] = fds[fd];
  return r; }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
pid_t getpid(void) { return armed && fake_pid ? fake_pid : raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }
static void entropy(unsigned char *b, size_t n) { for (size_t i = 0; i < n; i++) { ent_state += 0x9E3779B97F4A7C15ULL; uint64_t z = ent_state; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; b[i] = (z ^ (z >> 31)) & 255; } }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (!armed || !ent_on) return ret(raw(SYS_getrandom, (long)b, n, f, 0, 0, 0)); entropy(b, n); return n; }
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
long syscall(long nr, ...) {
  va_list ap; va_start(ap, nr); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
  if (nr == SYS_getrandom && armed && ent_on) { entropy((unsigned char *)a[0], a[1]); return a[1]; }
  return ret(raw(nr, a[0], a[1], a[2], a[3], a[4], a[5]));
}
