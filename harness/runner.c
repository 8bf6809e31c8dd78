// Replays concrete inputs against the natively compiled posy code: runner LIB.so ENTRY CASES
// CASES: "case", "in HEX", "param K V", ..., "end" per case.  Every case runs in a child process with a scratch directory of its own.
// File-system calls of the library resolve to the wrappers below, which replay crash points, failing calls and process switches
// exactly where the symbolic run had them, and refuse any change outside the scratch directory.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#define MAXP 4
static unsigned char *in; static size_t in_n, in_cap;
static struct Sh { volatile size_t in_p; volatile uint64_t crash, fault, preempt, flags; volatile int turn, n; volatile int done[MAXP], blocked[MAXP]; volatile uint64_t res[MAXP]; volatile int stop; volatile uint64_t clock; } *sh;
static char pk[256][64]; static uint64_t pv[256]; static int pn; static int panic_ok_flag;
static char scratch[PATH_MAX], rootdir[PATH_MAX]; static int active, me = -1, gated; static char locked[4096];
static void out(const char *s) { size_t n = strlen(s); while (n) { ssize_t r = syscall(SYS_write, 1, s, n); if (r <= 0) _exit(9); s += r; n -= r; } }
static void leave(int code) { if (me >= 0) { sh->stop = 1; sh->turn = -1; _exit(77); } _exit(code); }
static void take(uint8_t *p, size_t n, const char *nm, size_t nl) { if (sh->in_p + n > in_n) { char b[200]; snprintf(b, 200, "UNDERRUN %.*s\n", (int)nl, nm); out(b); leave(3); } memcpy(p, in + sh->in_p, n); sh->in_p += n; }
void vsym_bytes(uint8_t *p, size_t n, const char *nm, size_t nl) { take(p, n, nm, nl); }
void vsym_assume(_Bool b) { if (!b) { out("ASSUME\n"); leave(0); } }
void vsym_assert(_Bool b, const char *id, size_t n) { if (!b) { char t[300]; snprintf(t, 300, "FAIL %.*s\n", (int)n, id); out(t); } }
void vsym_reach(const char *id, size_t n) {}
void vsym_log(const char *t, size_t n, uint64_t v) { char b[300]; snprintf(b, 300, "LOG %.*s %llu\n", (int)n, t, (unsigned long long)v); out(b); }
uint64_t vsym_concretize(uint64_t v) { return v; }
uint64_t vsym_param(const char *n, size_t l, uint64_t d) { for (int i = 0; i < pn; i++) if (strlen(pk[i]) == l && !memcmp(pk[i], n, l)) return pv[i]; return d; }
void vsym_panic_ok(uint64_t v) { panic_ok_flag = v; }
void vsym_end(void) { out("END\n"); leave(0); }
uint64_t vsym_native(void) { return 1; }
void vsym_dump(const char *t, size_t n, uint64_t v) { fprintf(stderr, "[dump] %.*s = %llu\n", (int)n, t, (unsigned long long)v); }
static void onabort(int s) { out(panic_ok_flag ? "PANICOK\n" : "PANIC\n"); leave(0); }
static void onsegv(int s) { out("CRASH\n"); leave(0); }
// ---- processes
void vsym_budget(uint64_t c, uint64_t f, uint64_t p) { sh->crash = c; sh->fault = f; sh->preempt = p; }
uint64_t vsym_left(uint64_t k) { return k == 0 ? sh->crash : k == 1 ? sh->fault : sh->preempt; }
size_t vsym_fs_root(uint8_t *p, size_t n) { size_t l = strlen(rootdir); if (l > n) _exit(9); memcpy(p, rootdir, l); return l; }
// wall clock: set by the harness, advanced by sleeping (nobody really sleeps)
void vsym_clock(uint64_t t) { sh->clock = t * 1000000000ull; }
int clock_gettime(clockid_t id, struct timespec *t) { if (active && id == CLOCK_REALTIME) { t->tv_sec = sh->clock / 1000000000ull; t->tv_nsec = sh->clock % 1000000000ull; return 0; } return syscall(SYS_clock_gettime, id, t); }
int nanosleep(const struct timespec *t, struct timespec *r) { if (!active) return syscall(SYS_nanosleep, t, r); sh->clock += t->tv_sec * 1000000000ull + t->tv_nsec; return 0; }
static int other(void) { for (int i = 1; i < sh->n; i++) { int k = (me + i) % sh->n; if (!sh->done[k] && !sh->blocked[k]) return k; } return -1; }
static void await(void) { while (sh->turn != me) { if (sh->stop) _exit(77); sched_yield(); } }
static void handover(int k) { sh->turn = k; await(); }
static void unblock(void) { for (int i = 0; i < MAXP; i++) sh->blocked[i] = 0; }
static void finish(uint64_t r) { sh->res[me] = r; sh->done[me] = 1; unblock(); }
void vsym_par(uint64_t (**fns)(uint64_t), const uint64_t *args, uint64_t n, uint64_t *res, uint64_t flags) {
  memset((void *)sh->done, 0, sizeof sh->done); unblock(); sh->n = n; sh->flags = flags; sh->turn = -1; sh->stop = 0; pid_t pid[MAXP];
  for (uint64_t i = 0; i < n; i++) { pid[i] = fork(); if (!pid[i]) { me = i; gated = 0; active = 1; await(); uint64_t r = fns[i](args[i]); finish(r); _exit(0); } }
  int cur = 0; sh->turn = 0;
  for (uint64_t left = n; left; left--) { // wait for the running child to end; its locks and descriptors are gone before another one runs
    int st; pid_t p = wait(&st); if (p < 0) break; int k = -1; for (uint64_t i = 0; i < n; i++) if (pid[i] == p) k = i;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { sh->stop = 1; while (wait(&st) > 0); _exit(0); }
    if (!sh->done[k]) { char b[80]; snprintf(b, 80, "CHILD DIED %d\n", st); out(b); sh->stop = 1; while (wait(&st) > 0); _exit(0); }
    if (left > 1) { me = k; int o = other(); me = -1; if (o < 0) { out("FAIL deadlock\n"); sh->stop = 1; while (wait(&st) > 0); _exit(0); } sh->turn = o; }
  }
  (void)cur; for (uint64_t i = 0; i < n; i++) res[i] = sh->res[i];
}
enum { OP_PRE = 1, OP_MUT = 2, OP_ERR = 4, OP_INTR = 8, OP_SHORT = 16, OP_PART = 32 };
enum { EF_NONE, EF_DONE, EF_ERR, EF_INTR, EF_SHORT, EF_PART };
static int gate(unsigned k) {
  if (me < 0) return EF_NONE;
  if ((k & OP_PRE) && !gated && sh->preempt && other() >= 0) { uint8_t c; take(&c, 1, "sched", 5); gated = 1; if (c) { sh->preempt--; handover(other()); } }
  int opt[6], n = 0; opt[n++] = EF_NONE; int cr = (sh->flags & 1) && sh->crash, fa = (sh->flags & 2) && sh->fault;
  if (cr && (k & OP_MUT)) opt[n++] = EF_DONE; if (cr && (k & OP_PART)) opt[n++] = EF_PART; if (fa && (k & OP_ERR)) opt[n++] = EF_ERR; if (fa && (k & OP_INTR)) opt[n++] = EF_INTR; if (fa && (k & OP_SHORT)) opt[n++] = EF_SHORT;
  int e = EF_NONE; if (n > 1) { uint8_t c; take(&c, 1, "fault", 5); if (c >= n) { out("BADCHOICE\n"); leave(0); } e = opt[c]; }
  gated = 0; if (e == EF_NONE) return e;
  if (e == EF_DONE) { sh->crash--; finish(~0ull); _exit(0); }
  if (e == EF_PART) sh->crash--; else sh->fault--;
  return e;
}
#define GATE(k) int ef = gate(k); if (ef == EF_ERR) { errno = EIO; return -1; } if (ef == EF_INTR) { errno = EINTR; return -1; }
static void escape(const char *w, const char *p) { char b[PATH_MAX + 100]; snprintf(b, sizeof b, "FAIL file system change outside the scratch directory\nNOTE %s %.200s\n", w, p); out(b); leave(0); }
// the directory that would be changed must be inside the scratch directory
static void guard(const char *w, int at, const char *p, int follow) {
  if (!active) return; char t[PATH_MAX * 2], d[PATH_MAX];
  for (int depth = 0; depth < 40; depth++) {
    if (p[0] == '/' ) snprintf(t, sizeof t, "%s", p); else if (at == AT_FDCWD) { char c[PATH_MAX]; if (!getcwd(c, sizeof c)) return; snprintf(t, sizeof t, "%s/%s", c, p); } else { char l[64], c[PATH_MAX]; snprintf(l, 64, "/proc/self/fd/%d", at); ssize_t n = readlink(l, c, sizeof c - 1); if (n < 0) return; c[n] = 0; snprintf(t, sizeof t, "%s/%s", c, p); }
    size_t n = strlen(t); while (n > 1 && t[n - 1] == '/') t[--n] = 0; 
    char *s = strrchr(t, '/'); char base[PATH_MAX]; snprintf(base, sizeof base, "%s", s + 1); char par[PATH_MAX * 2]; snprintf(par, sizeof par, "%.*s", (int)(s == t ? 1 : s - t), t);
    if (!realpath(par, d)) return; // the call itself will fail
    size_t L = strlen(scratch); if (strncmp(d, scratch, L) || (d[L] && d[L] != '/')) escape(w, p);
    if (!follow) return; struct stat st; if (lstat(t, &st) || !S_ISLNK(st.st_mode)) return; static char nt[PATH_MAX * 2]; char l[PATH_MAX]; ssize_t k = readlink(t, l, sizeof l - 1); if (k < 0) return; l[k] = 0; if (l[0] == '/') snprintf(nt, sizeof nt, "%s", l); else snprintf(nt, sizeof nt, "%s/%s", d, l); p = nt; at = AT_FDCWD;
  }
}
static int doopen(int at, const char *p, int fl, int md) { int mut = (fl & O_CREAT) || (fl & O_TRUNC); GATE(OP_PRE | OP_ERR | (mut ? OP_MUT : 0)); if (active && (fl & O_TMPFILE) == O_TMPFILE) { errno = EOPNOTSUPP; return -1; } if (mut || (fl & 3)) guard("open", at, p, !(fl & O_NOFOLLOW) && !((fl & O_CREAT) && (fl & O_EXCL))); int r = syscall(SYS_openat, at, p, fl, md); if (r >= 0 && r < 4096) locked[r] = 0; return r; }
#define VMODE int md = 0; if ((fl & O_CREAT) || (fl & O_TMPFILE) == O_TMPFILE) { va_list ap; va_start(ap, fl); md = va_arg(ap, int); va_end(ap); }
int open64(const char *p, int fl, ...) { VMODE return doopen(AT_FDCWD, p, fl, md); }
int open(const char *p, int fl, ...) { VMODE return doopen(AT_FDCWD, p, fl, md); }
int openat64(int at, const char *p, int fl, ...) { VMODE return doopen(at, p, fl, md); }
int openat(int at, const char *p, int fl, ...) { VMODE return doopen(at, p, fl, md); }
int close(int fd) { if (me >= 0 && fd >= 0 && fd < 4096 && locked[fd]) { gate(OP_PRE); unblock(); locked[fd] = 0; } return syscall(SYS_close, fd); }
ssize_t write(int fd, const void *b, size_t n) { if (fd == 1 || fd == 2) return active ? (ssize_t)n : syscall(SYS_write, fd, b, n); GATE(OP_PRE | OP_MUT | OP_ERR | OP_INTR | (n > 1 ? OP_PART | OP_SHORT : 0)); if (ef == EF_SHORT) n = 1; if (ef == EF_PART) { syscall(SYS_write, fd, b, (n + 1) / 2); finish(~0ull); _exit(0); } return syscall(SYS_write, fd, b, n); }
ssize_t read(int fd, void *b, size_t n) { GATE(OP_PRE | OP_ERR | OP_INTR | (n > 1 ? OP_SHORT : 0)); if (ef == EF_SHORT) n = 1; return syscall(SYS_read, fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { GATE(OP_PRE | OP_ERR); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int n) { int i = 0; while (i < n - 1 && !v[i].iov_len) i++; size_t l = n ? v[i].iov_len : 0; GATE(OP_PRE | OP_ERR | OP_INTR | (l > 1 ? OP_SHORT : 0)); if (!n) return 0; if (ef == EF_SHORT) l = 1; return syscall(SYS_read, fd, v[i].iov_base, l); }
int mkdir(const char *p, mode_t m) { GATE(OP_PRE | OP_MUT | OP_ERR); guard("mkdir", AT_FDCWD, p, 0); return syscall(SYS_mkdir, p, m); }
int unlink(const char *p) { GATE(OP_PRE | OP_MUT | OP_ERR); guard("unlink", AT_FDCWD, p, 0); return syscall(SYS_unlink, p); }
int rmdir(const char *p) { GATE(OP_PRE | OP_MUT | OP_ERR); guard("rmdir", AT_FDCWD, p, 0); return syscall(SYS_rmdir, p); }
int unlinkat(int at, const char *p, int fl) { GATE(OP_PRE | OP_MUT | OP_ERR); guard("unlinkat", at, p, 0); return syscall(SYS_unlinkat, at, p, fl); }
int rename(const char *a, const char *b) { GATE(OP_PRE | OP_MUT | OP_ERR); guard("rename", AT_FDCWD, a, 0); guard("rename", AT_FDCWD, b, 0); return syscall(SYS_rename, a, b); }
int symlink(const char *t, const char *p) { GATE(OP_PRE | OP_MUT | OP_ERR); guard("symlink", AT_FDCWD, p, 0); return syscall(SYS_symlink, t, p); }
int link(const char *a, const char *b) { GATE(OP_PRE | OP_MUT | OP_ERR); guard("link", AT_FDCWD, b, 0); return syscall(SYS_link, a, b); }
int linkat(int x, const char *a, int y, const char *b, int fl) { GATE(OP_PRE | OP_MUT | OP_ERR); guard("link", y, b, 0); return syscall(SYS_linkat, x, a, y, b, fl); }
int fsync(int fd) { GATE(OP_PRE | OP_MUT | OP_ERR); return active ? 0 : syscall(SYS_fsync, fd); }
int fdatasync(int fd) { GATE(OP_PRE | OP_MUT | OP_ERR); return active ? 0 : syscall(SYS_fdatasync, fd); }
int ftruncate64(int fd, off_t n) { GATE(OP_PRE | OP_MUT | OP_ERR); return syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int chmod(const char *p, mode_t m) { GATE(OP_PRE | OP_MUT | OP_ERR); guard("chmod", AT_FDCWD, p, 1); return syscall(SYS_chmod, p, m); }
int fchmod(int fd, mode_t m) { GATE(OP_PRE | OP_MUT | OP_ERR); return syscall(SYS_fchmod, fd, m); }
int flock(int fd, int op) {
  if (me < 0) return syscall(SYS_flock, fd, op);
  if (op & LOCK_UN) { if (fd < 4096 && locked[fd]) gate(OP_PRE); int r = syscall(SYS_flock, fd, op); if (fd < 4096) locked[fd] = 0; unblock(); return r; }
  for (;;) { GATE(OP_PRE | OP_ERR | OP_INTR); int r = syscall(SYS_flock, fd, op | LOCK_NB); if (!r) { if (fd < 4096) locked[fd] = 1; return 0; } if (errno != EWOULDBLOCK || (op & LOCK_NB)) return r;
    sh->blocked[me] = 1; int o = other(); if (o < 0) { out("FAIL deadlock\n"); leave(0); } gated = 1; handover(o); }
}
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
static int rmone(const char *p, const struct stat *st, int t, struct FTW *f) { return (t == FTW_DP || t == FTW_D || t == FTW_DNR) ? (int)syscall(SYS_rmdir, p) : (int)syscall(SYS_unlink, p); }
static int hx(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
int main(int argc, char **argv) {
  sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL); if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 2; }
  void (*f)(void) = (void (*)(void))dlsym(h, argv[2]); if (!f) { fprintf(stderr, "dlsym %s\n", argv[2]); return 2; }
  FILE *c = fopen(argv[3], "r"); if (!c) return 2; char *line = 0; size_t cap = 0; ssize_t n; int k = 0;
  while ((n = getline(&line, &cap, c)) > 0) {
    while (n && (line[n - 1] == '\n')) line[--n] = 0;
    if (!strcmp(line, "case")) { in_n = 0; pn = 0; panic_ok_flag = 0; }
    else if (!strncmp(line, "in ", 3)) { for (char *q = line + 3; q[0] && q[1]; q += 2) { if (in_n == in_cap) in = realloc(in, in_cap = in_cap * 2 + 64); in[in_n++] = hx(q[0]) * 16 + hx(q[1]); } }
    else if (!strncmp(line, "param ", 6)) { unsigned long long v; sscanf(line + 6, "%63s %llu", pk[pn], &v); pv[pn++] = v; }
    else if (!strcmp(line, "end")) {
      printf("CASE %d\n", k++); fflush(stdout); memset(sh, 0, sizeof *sh); sh->clock = 1700000000ull * 1000000000ull;
      char tmpl[] = "/tmp/vsymrun.XXXXXX"; if (!mkdtemp(tmpl) || !realpath(tmpl, scratch)) return 2;
      snprintf(rootdir, sizeof rootdir, "%s/vfs", scratch); char tdir[PATH_MAX]; snprintf(tdir, sizeof tdir, "%s/tmp", scratch); if (syscall(SYS_mkdir, rootdir, 0755) || syscall(SYS_mkdir, tdir, 0755)) return 2;
      pid_t p = fork();
      if (!p) { setpgid(0, 0); umask(022); setenv("TMPDIR", tdir, 1); unsetenv("POSY_DEBUG"); if (chdir(rootdir)) _exit(2); signal(SIGABRT, onabort); signal(SIGILL, onabort); signal(SIGSEGV, onsegv); signal(SIGBUS, onsegv); signal(SIGFPE, onsegv); alarm(20); freopen("/dev/null", "w", stderr); active = 1; f(); out("RETURN\n"); _exit(0); }
      int st; waitpid(p, &st, 0); kill(-p, SIGKILL); if (WIFSIGNALED(st)) printf("SIGNAL %d\n", WTERMSIG(st)); fflush(stdout);
      if (!strncmp(scratch, "/tmp/vsymrun.", 13)) nftw(scratch, rmone, 16, FTW_DEPTH | FTW_PHYS);
    }
  }
  return 0;
}
