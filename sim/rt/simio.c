/* Simulated system for the target-table generator: files, pipes, child processes, and what can go
 * wrong with them. Linked, with simrt.c (-DSIM_IO), into the real generator program. File operations
 * reach real files of a scratch directory, but only after the fault plan has had its say. Child
 * processes (the compiler, the formatter) exist only here: scripts of timed events that write into
 * real pipes, rewrite files, exit.
 */
#define _GNU_SOURCE
#include "simio.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include "simint.h"

#define README "README.md"
#define TABLE "src/targets/builtins.rs"
#define PID0 100000
#define MAXCHILD 2048
#define MAXFD 4096

static su_shm *S;
static struct { uint8_t kind; uint8_t readme; int child; } g_fd[MAXFD]; /* kind: 1 file read, 2 file written, 3 pipe read end, 4 pipe write end */
enum { FK_NONE, FK_R, FK_W, FK_PR, FK_PW };
static struct child {
  int used, done, reaped, status, kind, q;
  int killed;
  su_resp *r;
  uint32_t outp, errp;
  int wout, werr;
  int blocked;
  uint64_t when;      /* next event */
  int phase;
  char path[256];
  char *buf; uint32_t blen, bpos; int ffd;
} g_ch[MAXCHILD];
static int g_nch;
static uint64_t g_disk;
static uint64_t g_readme0, g_last_r, g_last_t;
static int g_eintr_run;
static uint64_t g_w_op, g_w_step; /* when the first file was opened for writing */
static int kill_now(void) {
  if (!S->kill_op) return 0;
  if (S->kill_rel) return g_w_op && S->ops - g_w_op + 1 >= S->kill_op;
  return S->ops >= S->kill_op;
}

static long R(long n, long a, long b, long c, long d) { return sim_raw(n, a, b, c, d, 0, 0); }
static int seterr(long r) { errno = (int)-r; return -1; }
static uint64_t hsh(uint64_t h, uint64_t v) { h ^= v; h *= 0x9e3779b97f4a7c15ull; return h ^ (h >> 31); }

static void note(const char *fmt, ...) {
  if (!S->log) return;
  char b[400];
  int n = snprintf(b, sizeof b, "%10.3f us step %llu thread %d: ", (double)sim_now / 1000.0, (unsigned long long)sim_step(), sim_tid());
  va_list ap;
  va_start(ap, fmt);
  n += vsnprintf(b + n, sizeof b - (size_t)n, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = (int)sizeof b - 2;
  b[n++] = '\n';
  if (S->log_len + (uint32_t)n <= SU_LOG) { memcpy(S->logbuf + S->log_len, b, (size_t)n); S->log_len += (uint32_t)n; }
}

/* ---------------------------------------------------------------- snapshots of the two files */
static uint64_t slurp(const char *path, uint8_t *buf, uint32_t room, uint32_t *len) {
  uint64_t h = 1469598103934665603ull;
  *len = 0;
  long fd = R(SYS_openat, AT_FDCWD, (long)path, O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) return 1;
  for (;;) {
    if (*len >= room) break;
    long n = R(SYS_read, fd, (long)(buf + *len), (long)(room - *len), 0);
    if (n <= 0) break;
    *len += (uint32_t)n;
  }
  R(SYS_close, fd, 0, 0, 0);
  for (uint32_t i = 0; i < *len; i++) { h ^= buf[i]; h *= 1099511628211ull; }
  return h;
}
static void snapshot(void) {
  uint32_t rl, tl, at = S->arena_used;
  uint64_t rh = slurp(README, S->arena + at, (SU_ARENA - at) / 2, &rl);
  if (rh == g_readme0) return;
  uint64_t th = slurp(TABLE, S->arena + at + rl, SU_ARENA - at - rl, &tl);
  if (rh == g_last_r && th == g_last_t) return;
  g_last_r = rh; g_last_t = th;
  if (S->nsnap >= SU_MAXSNAP || at + rl + tl + 16 > SU_ARENA) { S->snap_lost++; return; }
  su_snap *s = &S->snap[S->nsnap++];
  s->step = sim_step(); s->readme_off = at; s->readme_len = rl; s->table_off = at + rl; s->table_len = tl;
  S->arena_used = at + rl + tl;
}

/* ---------------------------------------------------------------- faults */
static void child_events(int all);
static void killed(void) {
  note("killed");
  S->benign[B_KILL]++;
  if (S->orphans) { S->benign[B_ORPHAN]++; child_events(1); }
  sim_verdict(SV_KILLED, 97);
}
/* An operation of class k is about to happen: 0, or the errno it must fail with. */
static int op(int k, const char *what) {
  sim_point(SIM_PLACE_IO + (uint32_t)k);
  sim_rt(1);
  child_events(0);
  sim_charge(200 + sim_rand() % 3000);
  S->ops++;
  S->cnt[k]++;
  S->ops_hash = hsh(hsh(S->ops_hash, (uint64_t)k), (uint64_t)sim_tid());
  if (k == K_OPEN_W && !g_w_op) { g_w_op = S->ops; g_w_step = sim_step(); sim_renext(); }
  if (kill_now() && !(k == K_WRITE && S->kill_partial)) killed();
  int e = 0;
  for (uint32_t i = 0; i < S->nfault && !e; i++) {
    su_fault *f = &S->fault[i];
    if ((int)f->cls == k && (S->cnt[k] == f->nth || (f->sticky && S->cnt[k] >= f->nth))) { f->fired++; e = f->err; }
  }
  note("%s%s%s", what, e ? " fails: " : "", e ? strerror(e) : "");
  sim_rt(-1);
  return e;
}
static int eintr(void) {
  if (S->eintr_ppm && g_eintr_run < 3 && sim_rand() % 1000000 < S->eintr_ppm) { g_eintr_run++; S->benign[B_EINTR]++; return 1; }
  g_eintr_run = 0;
  return 0;
}
static size_t shorten(size_t n, int b) {
  if (n > 1 && S->short_ppm && sim_rand() % 1000000 < S->short_ppm) { S->benign[b]++; return 1 + sim_rand() % (sim_rand() & 1 ? n - 1 : (n < 16 ? n - 1 : 16)); }
  return n;
}
static uint64_t kill_at(void) {
  if (!S || !S->kill_step) return UINT64_MAX;
  if (S->kill_rel) return g_w_op ? g_w_step + S->kill_step : UINT64_MAX;
  return S->kill_step;
}
uint64_t simio_next(uint64_t step) { uint64_t k = kill_at(); return k > step ? k : UINT64_MAX; }
void simio_at_step(uint64_t step) { if (step >= kill_at()) killed(); }
int simio_thread_fault(void) { return op(K_THREAD, "start a thread"); }

/* ---------------------------------------------------------------- child processes */
static void child_close(struct child *c) {
  if (c->wout >= 0) R(SYS_close, c->wout, 0, 0, 0);
  if (c->werr >= 0) R(SYS_close, c->werr, 0, 0, 0);
  c->wout = c->werr = -1;
}
static void child_exit(struct child *c, int status) {
  child_close(c);
  if (c->ffd >= 0) { R(SYS_close, c->ffd, 0, 0, 0); c->ffd = -1; }
  c->done = 1; c->status = status; c->when = UINT64_MAX;
  S->q[c->q].exited = 1; S->q[c->q].status = status;
  if (status & 0x7f) S->benign[B_CHILD_SIGNAL]++;
  else if (status) S->benign[B_CHILD_FAIL]++;
  note("process %d ends with status %#x", (int)(c - g_ch), status);
}
static uint64_t delay(struct child *c) {
  uint64_t d = c->r->delay_ns;
  if (!d) return 0;
  uint64_t k = sim_rand() % 8;
  if (k == 0) { S->benign[B_SLOW_CHILD]++; return d * (10 + sim_rand() % 90); }
  return 1 + sim_rand() % (2 * d);
}
/* What the stand-in for rustfmt makes of a file; 0 if it is not acceptable. */
static int fmt(const char *in, uint32_t n, char *out, uint32_t *m) {
  uint32_t k = 0, i = 0;
  int depth = 0, blank = 1;
  while (i < n) {
    while (i < n && (in[i] == ' ' || in[i] == '\t' || in[i] == '\r')) i++;
    uint32_t s = k;
    while (i < n && in[i] != '\n') {
      char ch = in[i++];
      if (ch == '{' || ch == '(' || ch == '[') depth++;
      if (ch == '}' || ch == ')' || ch == ']') depth--;
      out[k++] = ch;
    }
    i++;
    while (k > s && (out[k - 1] == ' ' || out[k - 1] == '\t' || out[k - 1] == '\r')) k--;
    if (k == s) { if (blank) continue; blank = 1; } else blank = 0;
    out[k++] = '\n';
  }
  while (k > 1 && out[k - 1] == '\n' && out[k - 2] == '\n') k--;
  *m = k;
  return depth == 0;
}
static int run_fmt(struct child *c) { /* one step of the formatter; 1: done */
  su_resp *r = c->r;
  if (c->phase == 0) {
    if (r->fmt_mode == 1) { child_exit(c, r->status ? r->status : 1 << 8); return 1; }
    struct stat st;
    memset(&st, 0, sizeof st);
    long fd = R(SYS_openat, AT_FDCWD, (long)c->path, O_RDONLY | O_CLOEXEC, 0);
    if (fd < 0) { child_exit(c, 1 << 8); return 1; }
    uint32_t cap = 1 << 22;
    char *in = malloc(cap);
    uint32_t n = 0;
    for (;;) { long k = R(SYS_read, fd, (long)(in + n), (long)(cap - n), 0); if (k <= 0) break; n += (uint32_t)k; }
    R(SYS_close, fd, 0, 0, 0);
    c->buf = malloc(n + 16);
    int ok = fmt(in, n, c->buf, &c->blen);
    int same = ok && c->blen == n && !memcmp(in, c->buf, n);
    free(in);
    if (!ok) { child_exit(c, 1 << 8); return 1; }
    if (same && r->fmt_mode == 0) { child_exit(c, 0); return 1; }
    c->phase = 1;
    return 0;
  }
  if (c->phase == 1) {
    c->ffd = (int)R(SYS_openat, AT_FDCWD, (long)c->path, O_WRONLY | O_TRUNC | O_CLOEXEC, 0);
    if (c->ffd < 0) { child_exit(c, 1 << 8); return 1; }
    snapshot();
    c->phase = 2;
    return 0;
  }
  if (c->phase == 2) {
    uint32_t n = c->blen - c->bpos, lim = c->blen / 4 + 1;
    if (n > lim) n = lim;
    if (r->fmt_mode == 2 && c->bpos + n > c->blen / 2) { child_exit(c, r->status & 0x7f ? r->status : SIGKILL); return 1; }
    if (g_disk < n) { S->benign[B_DISK_FULL]++; n = (uint32_t)g_disk; R(SYS_write, c->ffd, (long)(c->buf + c->bpos), n, 0); g_disk = 0; snapshot(); child_exit(c, 1 << 8); return 1; }
    if (S->disk_cap != UINT64_MAX) g_disk -= n;
    R(SYS_write, c->ffd, (long)(c->buf + c->bpos), n, 0);
    c->bpos += n;
    snapshot();
    if (c->bpos >= c->blen) c->phase = 3;
    return 0;
  }
  R(SYS_close, c->ffd, 0, 0, 0); c->ffd = -1;
  child_exit(c, r->fmt_mode == 3 ? (r->status ? r->status : 1 << 8) : 0);
  return 1;
}
static void step_child(struct child *c) {
  su_resp *r = c->r;
  if (c->killed) { child_exit(c, c->killed); return; }
  uint32_t lo = r->out_len - c->outp, le = r->err_len - c->errp;
  if (c->phase == 0 || c->kind != Q_FMT) {
    if (lo || le) {
      int err = le && (!lo || sim_rand() % 3 == 0);
      uint32_t n = err ? le : lo, m = r->chunk ? r->chunk : 65536;
      if (n > m) n = 1 + (uint32_t)(sim_rand() % m);
      int fd = err ? c->werr : c->wout;
      long w = n;
      if (fd >= 0) {
        w = R(SYS_write, fd, (long)(S->blob + (err ? r->err_off + c->errp : r->out_off + c->outp)), n, 0);
        if (w == -EAGAIN) { S->benign[B_PIPE_FULL]++; c->blocked = 1; c->when = UINT64_MAX; note("process %d waits: its %s pipe is full", (int)(c - g_ch), err ? "error" : "output"); return; }
        if (w < 0) { S->benign[B_CHILD_SIGPIPE]++; child_exit(c, SIGPIPE); return; }
      }
      if (err) { c->errp += (uint32_t)w; S->benign[B_STDERR_NOISE]++; } else c->outp += (uint32_t)w;
      c->when = sim_now + delay(c);
      return;
    }
    if (r->early_close && c->wout >= 0) { child_close(c); c->when = sim_now + delay(c); return; }
  }
  if (c->kind == Q_FMT) { if (!run_fmt(c)) c->when = sim_now + delay(c); return; }
  child_exit(c, r->status);
}
static void child_events(int all) {
  sim_rt(1);
  for (;;) {
    int b = -1;
    for (int i = 0; i < g_nch; i++)
      if (!g_ch[i].done && g_ch[i].when != UINT64_MAX && (all || g_ch[i].when <= sim_now) && (b < 0 || g_ch[i].when < g_ch[b].when)) b = i;
    if (b < 0) break;
    if (g_ch[b].when > sim_now && all) sim_charge(g_ch[b].when - sim_now);
    if (all && g_ch[b].kind != Q_FMT) { child_exit(&g_ch[b], SIGPIPE); continue; }
    step_child(&g_ch[b]);
  }
  sim_rt(-1);
}
uint64_t simio_next_event(void) {
  uint64_t t = UINT64_MAX;
  for (int i = 0; i < g_nch; i++) if (!g_ch[i].done && g_ch[i].when < t) t = g_ch[i].when;
  return t;
}
void simio_run_events(void) { child_events(0); }
static void unblock(void) {
  for (int i = 0; i < g_nch; i++) if (g_ch[i].blocked) { g_ch[i].blocked = 0; g_ch[i].when = sim_now + 1 + sim_rand() % 2000; }
}

/* which invocation is it? */
static int classify(char *const argv[], const char *path, char *key, size_t room, int *nightly, char *file, size_t froom) {
  const char *prog = path;
  const char *base = strrchr(prog, '/');
  base = base ? base + 1 : prog;
  int version = 0;
  const char *print = NULL, *target = NULL, *last = NULL;
  *nightly = 0;
  key[0] = 0; file[0] = 0;
  int is_fmt = !strcmp(base, "rustfmt");
  int is_rustc = strlen(prog) == S->rustc_len && !memcmp(prog, S->blob + S->rustc_off, S->rustc_len);
  for (int i = 1; argv[0] && argv[i]; i++) {
    const char *a = argv[i];
    if (!strcmp(a, "--version") || !strcmp(a, "-V")) version = 1;
    else if (a[0] == '+') *nightly = 1;
    else if (!strcmp(a, "--print")) { if (argv[i + 1]) print = argv[++i]; }
    else if (!strncmp(a, "--print=", 8)) print = a + 8;
    else if (!strcmp(a, "--target")) { if (argv[i + 1]) target = argv[++i]; }
    else if (!strncmp(a, "--target=", 9)) target = a + 9;
    else if (is_fmt && (!strcmp(a, "--edition") || !strcmp(a, "--config") || !strcmp(a, "--config-path"))) { if (argv[i + 1]) i++; }
    else if (a[0] != '-') last = a;
  }
  if (is_fmt) { snprintf(file, froom, "%s", last ? last : TABLE); return last ? Q_FMT : Q_OTHER; }
  if (!is_rustc) return Q_OTHER;
  if (version && !print) return Q_VERSION;
  if (print && !strcmp(print, "target-list")) return Q_LIST;
  if (print && !strcmp(print, "cfg")) { snprintf(key, room, "%s", target ? target : ""); return Q_CFG; }
  return Q_OTHER;
}
static struct { const void *fa; int n; struct { int fd, to; } d[8]; } g_fa[16];
static int fa_slot(const void *fa, int make) {
  for (int i = 0; i < 16; i++) if (g_fa[i].fa == fa) return i;
  if (make) for (int i = 0; i < 16; i++) if (!g_fa[i].fa) { g_fa[i].fa = fa; g_fa[i].n = 0; return i; }
  return -1;
}
int posix_spawn_file_actions_init(posix_spawn_file_actions_t *fa) {
  static int (*f)(posix_spawn_file_actions_t *);
  if (!f) f = dlsym(RTLD_NEXT, "posix_spawn_file_actions_init");
  int s = fa_slot(fa, 0);
  if (s >= 0) g_fa[s].n = 0;
  return f(fa);
}
int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *fa) {
  static int (*f)(posix_spawn_file_actions_t *);
  if (!f) f = dlsym(RTLD_NEXT, "posix_spawn_file_actions_destroy");
  int s = fa_slot(fa, 0);
  if (s >= 0) g_fa[s].fa = NULL;
  return f(fa);
}
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *fa, int fd, int to) {
  static int (*f)(posix_spawn_file_actions_t *, int, int);
  if (!f) f = dlsym(RTLD_NEXT, "posix_spawn_file_actions_adddup2");
  int s = fa_slot(fa, 1);
  if (s >= 0 && g_fa[s].n < 8) { g_fa[s].d[g_fa[s].n].fd = fd; g_fa[s].d[g_fa[s].n].to = to; g_fa[s].n++; }
  return f(fa, fd, to);
}
static int do_spawn(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, char *const argv[]) {
  char key[84], file[256], line[300];
  int nightly, n = 0;
  line[0] = 0;
  for (int i = 0; argv && argv[i] && n < (int)sizeof line - 1; i++) n += snprintf(line + n, sizeof line - (size_t)n, " %s", argv[i]);
  char what[340];
  snprintf(what, sizeof what, "start process %d:%s", g_nch, line);
  int e = op(K_SPAWN, what);
  sim_rt(1);
  int kind = classify(argv, path, key, sizeof key, &nightly, file, sizeof file);
  if (S->nq >= SU_MAXQ || g_nch >= MAXCHILD) sim_verdict(SV_LIVELOCK, 95); /* thousands of children for a few dozen targets */
  su_query *q = &S->q[S->nq++];
  memset(q, 0, sizeof *q);
  q->kind = (uint32_t)kind; q->nightly = (uint32_t)nightly; q->key_len = (uint32_t)strlen(key); q->resp = ~0u;
  memcpy(q->key, key, sizeof q->key);
  S->ops_hash = hsh(S->ops_hash, (uint64_t)kind);
  uint32_t occ = 0;
  for (uint32_t i = 0; i < S->nq; i++) if (S->q[i].kind == (uint32_t)kind && S->q[i].nightly == (uint32_t)nightly && S->q[i].key_len == q->key_len && !memcmp(S->q[i].key, key, q->key_len)) occ++;
  su_resp *r = NULL;
  for (uint32_t i = 0; i < S->nresp && !r; i++) {
    su_resp *x = &S->resp[i];
    if (x->kind != (uint32_t)kind || (kind == Q_CFG && (x->nightly != (uint32_t)nightly || x->key_len != q->key_len || memcmp(S->blob + x->key_off, key, q->key_len)))) continue;
    if (x->occ && x->occ != occ) continue;
    r = x; q->resp = i;
  }
  static su_resp unknown = {.kind = Q_OTHER, .status = 1 << 8};
  if (!r) {
    r = &unknown;
    if (kind == Q_OTHER && !strchr(path, '/') && strcmp(path, "rustc")) { q->spawn_err = ENOENT; sim_rt(-1); return ENOENT; }
  }
  if (!e && r->spawn_err) { e = r->spawn_err; S->benign[B_SPAWN_FAIL]++; note("which fails: %s", strerror(e)); }
  if (e) { q->spawn_err = e; sim_rt(-1); return e; }
  struct child *c = &g_ch[g_nch];
  memset(c, 0, sizeof *c);
  c->used = 1; c->kind = kind; c->r = r; c->q = (int)S->nq - 1;
  c->wout = c->werr = c->ffd = -1;
  snprintf(c->path, sizeof c->path, "%s", file);
  if (kind == Q_FMT && (file[0] == '/' || strstr(file, ".."))) c->path[0] = 0;
  int s = fa ? fa_slot(fa, 0) : -1;
  if (s >= 0) for (int i = 0; i < g_fa[s].n; i++) {
    int fd = g_fa[s].d[i].fd, to = g_fa[s].d[i].to;
    if (to != 1 && to != 2) continue;
    if (fd < 0 || fd >= MAXFD || g_fd[fd].kind != FK_PW) continue;
    int k = (int)R(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 600, 0);
    R(SYS_fcntl, k, F_SETFL, O_NONBLOCK | O_WRONLY, 0);
    if (to == 1) c->wout = k; else c->werr = k;
    for (int j = 0; j < MAXFD; j++) if (g_fd[j].kind == FK_PR && g_fd[j].child == g_fd[fd].child) g_fd[j].child = -2 - g_nch;
  }
  c->when = sim_now + 1 + delay(c);
  g_nch++;
  if (pid) *pid = PID0 + g_nch - 1;
  sim_rt(-1);
  return 0;
}
int posix_spawnp(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  (void)at; (void)envp;
  if (sim_active()) return do_spawn(pid, path, fa, argv);
  return ENOSYS;
}
int posix_spawn(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  return posix_spawnp(pid, path, fa, at, argv, envp);
}
pid_t fork(void) {
  if (sim_active()) { S->unsupported = 1; sim_verdict(SV_UNSUPPORTED, 98); }
  errno = ENOSYS;
  return -1;
}
static int ch_done(void *v) { return ((struct child *)v)->done; }
static int any_done(void *v) {
  (void)v;
  int live = 0;
  for (int i = 0; i < g_nch; i++) if (!g_ch[i].reaped) { live = 1; if (g_ch[i].done) return 1; }
  return !live;
}
static long do_wait(long pid, int *st, int fl) {
  char w[60];
  snprintf(w, sizeof w, "wait for process %ld", pid >= PID0 ? pid - PID0 : pid);
  int e = op(K_WAIT, w);
  if (e) return -e;
  if (!(fl & WNOHANG) && eintr()) return -EINTR;
  struct child *c = NULL;
  if (pid >= PID0 && pid < PID0 + g_nch) {
    c = &g_ch[pid - PID0];
    if (c->reaped) return -ECHILD;
  } else if (pid != -1 && pid != 0) return -ECHILD;
  for (;;) {
    if (c ? c->done : any_done(NULL)) break;
    if (fl & WNOHANG) return 0;
    struct sim_thr *t = &sim_thr[sim_self];
    t->state = ST_IO; t->deadline = UINT64_MAX; t->timedout = 0;
    t->ready = c ? ch_done : any_done; t->arg = c;
    sim_block(SIM_PLACE_IO + K_WAIT);
  }
  if (!c) for (int i = 0; i < g_nch && !c; i++) if (!g_ch[i].reaped && g_ch[i].done) c = &g_ch[i];
  if (!c) return -ECHILD;
  c->reaped = 1;
  S->q[c->q].reaped = 1;
  if (st) *st = c->status;
  return PID0 + (long)(c - g_ch);
}
pid_t waitpid(pid_t pid, int *st, int fl) {
  if (!sim_enter()) { errno = ECHILD; return -1; }
  long r = do_wait(pid, st, fl);
  return r < 0 ? seterr(r) : (pid_t)r;
}
pid_t wait4(pid_t pid, int *st, int fl, struct rusage *ru) { if (ru) memset(ru, 0, sizeof *ru); return waitpid(pid, st, fl); }
pid_t wait(int *st) { return waitpid(-1, st, 0); }
int waitid(idtype_t t, id_t id, siginfo_t *si, int fl) {
  int st = 0;
  long r = do_wait(t == P_PID ? (long)id : -1, &st, fl & WNOHANG);
  if (r < 0) return seterr(r);
  if (si) {
    memset(si, 0, sizeof *si);
    if (r) { si->si_pid = (pid_t)r; si->si_signo = SIGCHLD; si->si_code = st & 0x7f ? CLD_KILLED : CLD_EXITED; si->si_status = st & 0x7f ? st & 0x7f : st >> 8; }
  }
  return 0;
}
int kill(pid_t pid, int sig) {
  if (sim_active() && pid >= PID0) {
    struct child *c = &g_ch[pid - PID0];
    if (pid >= PID0 + g_nch || c->reaped) { errno = ESRCH; return -1; }
    if (!c->done && sig) { c->killed = sig; c->blocked = 0; c->when = sim_now; }
    return 0;
  }
  errno = EPERM;
  return -1;
}

/* ---------------------------------------------------------------- files */
static int outside(const char *p) {
  if (!strcmp(p, "/dev/null")) return 0;
  if (p[0] == '/' || !strncmp(p, "../", 3) || strstr(p, "/../")) return 1;
  return 0;
}
static int deny(const char *p) {
  S->outside++;
  snprintf(S->outside_path, sizeof S->outside_path, "%s", p);
  note("a change outside the repository is refused: %s", p);
  return -EACCES;
}
static void fd_new(long fd, int kind, const char *p) {
  if (fd >= 0 && fd < MAXFD) { g_fd[fd].kind = (uint8_t)kind; g_fd[fd].child = -1; g_fd[fd].readme = p && !strcmp(p, README); }
}
static long do_open(int at, const char *p, int fl, int mode) {
  if (!sim_enter()) return R(SYS_openat, at, (long)p, fl, mode);
  int w = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC));
  if (!strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5)) return R(SYS_openat, at, (long)p, fl, mode);
  char wh[200];
  snprintf(wh, sizeof wh, "open %s %s", p, w ? "for writing" : "for reading");
  int e = op(w ? K_OPEN_W : K_OPEN_R, wh);
  if (e) return -e;
  if (eintr()) return -EINTR;
  if (w && outside(p)) return deny(p);
  if ((fl & O_CREAT) && g_disk == 0 && R(SYS_faccessat, at, (long)p, 0, 0) < 0) { S->benign[B_DISK_FULL]++; return -ENOSPC; }
  long fd = R(SYS_openat, at, (long)p, fl, mode);
  fd_new(fd, w ? FK_W : FK_R, p);
  if (w) { sim_rt(1); snapshot(); sim_rt(-1); }
  return fd;
}
#define OPENARGS(last) va_list ap; va_start(ap, last); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
#define RET(x) do { long r_ = (x); return r_ < 0 ? seterr(r_) : r_; } while (0)
int open64(const char *p, int fl, ...) { OPENARGS(fl) RET((int)do_open(AT_FDCWD, p, fl, mode)); }
int open(const char *p, int fl, ...) { OPENARGS(fl) RET((int)do_open(AT_FDCWD, p, fl, mode)); }
int openat64(int d, const char *p, int fl, ...) { OPENARGS(fl) RET((int)do_open(d, p, fl, mode)); }
int openat(int d, const char *p, int fl, ...) { OPENARGS(fl) RET((int)do_open(d, p, fl, mode)); }

static int rd_ready(void *v) {
  struct pollfd p = {.fd = (int)(long)v, .events = POLLIN};
  return R(SYS_poll, (long)&p, 1, 0, 0) > 0;
}
static void q_mark(int fd, int err) {
  int c = fd >= 0 && fd < MAXFD ? g_fd[fd].child : -1;
  if (c <= -2 && -2 - c < g_nch && err) S->q[g_ch[-2 - c].q].io_err = 1;
}
static ssize_t do_read(int fd, void *b, size_t n) {
  if (!sim_enter() || fd < 0 || fd >= MAXFD || (g_fd[fd].kind != FK_R && g_fd[fd].kind != FK_PR)) return R(SYS_read, fd, (long)b, (long)n, 0);
  int pipe = g_fd[fd].kind == FK_PR;
  char wh[60];
  snprintf(wh, sizeof wh, pipe ? "read from the pipe %d" : "read from file %d", fd);
  int e = op(pipe ? K_PREAD : K_READ, wh);
  if (e) { q_mark(fd, 1); return -e; }
  if (eintr()) return -EINTR;
  n = shorten(n, B_SHORT_READ);
  if (!pipe) {
    ssize_t r = R(SYS_read, fd, (long)b, (long)n, 0);
    if (r == 0 && n && g_fd[fd].readme) S->readme_ok = 1;
    return r;
  }
  if (!(R(SYS_fcntl, fd, F_GETFL, 0, 0) & O_NONBLOCK))
    while (!rd_ready((void *)(long)fd)) {
      struct sim_thr *t = &sim_thr[sim_self];
      t->state = ST_IO; t->deadline = UINT64_MAX; t->timedout = 0; t->ready = rd_ready; t->arg = (void *)(long)fd;
      sim_block(SIM_PLACE_IO + K_PREAD);
    }
  ssize_t r = R(SYS_read, fd, (long)b, (long)n, 0);
  if (r > 0) { unblock(); sim_charge((uint64_t)r / 8); }
  return r;
}
ssize_t read(int fd, void *b, size_t n) { RET(do_read(fd, b, n)); }
ssize_t readv(int fd, const struct iovec *v, int n) {
  for (int i = 0; i < n; i++) if (v[i].iov_len) RET(do_read(fd, v[i].iov_base, v[i].iov_len));
  return 0;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (!sim_enter() || fd < 0 || fd >= MAXFD || g_fd[fd].kind != FK_R) RET(R(SYS_pread64, fd, (long)b, (long)n, o));
  int e = op(K_READ, "read from a file");
  if (e) return seterr(-e);
  if (eintr()) return seterr(-EINTR);
  ssize_t r = R(SYS_pread64, fd, (long)b, (long)shorten(n, B_SHORT_READ), o);
  if (r == 0 && n && g_fd[fd].readme) S->readme_ok = 1;
  RET(r);
}
static ssize_t do_write(int fd, const void *b, size_t n, off64_t off) {
  if (!sim_enter() || fd < 0 || fd >= MAXFD || g_fd[fd].kind != FK_W) return off >= 0 ? R(SYS_pwrite64, fd, (long)b, (long)n, off) : R(SYS_write, fd, (long)b, (long)n, 0);
  char wh[60];
  snprintf(wh, sizeof wh, "write %zu bytes to file %d", n, fd);
  int e = op(K_WRITE, wh);
  if (e && e != EINTR && n > 8 && (sim_rand() & 1)) { /* some of it may have been written */
    size_t k = sim_rand() % n;
    if (off >= 0) R(SYS_pwrite64, fd, (long)b, (long)k, off); else R(SYS_write, fd, (long)b, (long)k, 0);
    sim_rt(1); snapshot(); sim_rt(-1);
  }
  if (e) return -e;
  if (eintr()) return -EINTR;
  if (S->kill_partial && kill_now()) {
    size_t k = n > 1 ? 1 + sim_rand() % (n - 1) : 0;
    S->benign[B_KILL_PARTIAL]++;
    if (off >= 0) R(SYS_pwrite64, fd, (long)b, (long)k, off); else R(SYS_write, fd, (long)b, (long)k, 0);
    sim_rt(1); snapshot(); killed();
  }
  n = shorten(n, B_SHORT_WRITE);
  if (n > g_disk) {
    S->benign[B_DISK_FULL]++;
    n = g_disk;
    note("the disk is full after %zu bytes", n);
    if (!n) return -ENOSPC;
  }
  ssize_t r = off >= 0 ? R(SYS_pwrite64, fd, (long)b, (long)n, off) : R(SYS_write, fd, (long)b, (long)n, 0);
  if (r > 0 && S->disk_cap != UINT64_MAX) g_disk -= (uint64_t)r;
  sim_rt(1); snapshot(); sim_rt(-1);
  return r;
}
ssize_t write(int fd, const void *b, size_t n) { RET(do_write(fd, b, n, -1)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { RET(do_write(fd, b, n, o)); }
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (!sim_enter() || fd < 0 || fd >= MAXFD || g_fd[fd].kind != FK_W) RET(R(SYS_writev, fd, (long)v, n, 0));
  for (int i = 0; i < n; i++) if (v[i].iov_len) RET(do_write(fd, v[i].iov_base, v[i].iov_len, -1));
  return 0;
}
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)n; (void)f; errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t n) { (void)a; (void)b; (void)c; (void)n; errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)n; (void)f; errno = EINVAL; return -1; }
static long two(int k, const char *what, long n, int da, const char *a, int db, const char *b, int fl) {
  if (sim_enter()) {
    char wh[300];
    snprintf(wh, sizeof wh, "%s %s %s", what, a, b);
    int e = op(k, wh);
    if (e) return -e;
    if (outside(a)) return deny(a);
    if (outside(b)) return deny(b);
  }
  long r = sim_raw(n, da, (long)a, db, (long)b, fl, 0);
  if (sim_active()) { sim_rt(1); snapshot(); sim_rt(-1); }
  return r;
}
int rename(const char *a, const char *b) { RET(two(K_RENAME, "rename", SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0)); }
int renameat(int da, const char *a, int db, const char *b) { RET(two(K_RENAME, "rename", SYS_renameat2, da, a, db, b, 0)); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { RET(two(K_RENAME, "rename", SYS_renameat2, da, a, db, b, (int)f)); }
int link(const char *a, const char *b) { RET(two(K_META, "link", SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0)); }
int linkat(int da, const char *a, int db, const char *b, int f) { RET(two(K_META, "link", SYS_linkat, da, a, db, b, f)); }
int symlink(const char *a, const char *b) { if (sim_enter() && outside(b)) return seterr(deny(b)); RET(R(SYS_symlinkat, (long)a, AT_FDCWD, (long)b, 0)); }
static long one(int k, const char *what, long n, int d, const char *p, long x) {
  if (sim_enter()) {
    char wh[200];
    snprintf(wh, sizeof wh, "%s %s", what, p);
    int e = op(k, wh);
    if (e) return -e;
    if (outside(p)) return deny(p);
  }
  long r = R(n, d, (long)p, x, 0);
  if (sim_active()) { sim_rt(1); snapshot(); sim_rt(-1); }
  return r;
}
int unlink(const char *p) { RET(one(K_UNLINK, "unlink", SYS_unlinkat, AT_FDCWD, p, 0)); }
int unlinkat(int d, const char *p, int f) { RET(one(K_UNLINK, "unlink", SYS_unlinkat, d, p, f)); }
int rmdir(const char *p) { RET(one(K_UNLINK, "rmdir", SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)); }
int mkdir(const char *p, mode_t m) { RET(one(K_META, "mkdir", SYS_mkdirat, AT_FDCWD, p, (long)m)); }
int chmod(const char *p, mode_t m) { RET(one(K_META, "chmod", SYS_fchmodat, AT_FDCWD, p, (long)m)); }
int truncate64(const char *p, off64_t o) {
  if (sim_enter()) { int e = op(K_TRUNC, "truncate"); if (e) return seterr(-e); if (outside(p)) return seterr(deny(p)); }
  long r = R(SYS_truncate, (long)p, o, 0, 0);
  if (sim_active()) { sim_rt(1); snapshot(); sim_rt(-1); }
  RET(r);
}
int ftruncate64(int fd, off64_t o) {
  if (sim_enter()) { int e = op(K_TRUNC, "truncate a file"); if (e) return seterr(-e); }
  long r = R(SYS_ftruncate, fd, o, 0, 0);
  if (sim_active()) { sim_rt(1); snapshot(); sim_rt(-1); }
  RET(r);
}
int fsync(int fd) { (void)fd; if (sim_enter()) { int e = op(K_SYNC, "fsync"); if (e) return seterr(-e); } return 0; }
int fdatasync(int fd) { return fsync(fd); }

/* ---------------------------------------------------------------- pipes and polling */
int pipe2(int p[2], int fl) {
  if (!sim_enter()) RET(R(SYS_pipe2, (long)p, fl, 0, 0));
  int e = op(K_PIPE, "make a pipe");
  if (e) return seterr(-e);
  long r = R(SYS_pipe2, (long)p, fl, 0, 0);
  if (r < 0) return seterr(r);
  if (S->pipe_cap) R(SYS_fcntl, p[1], F_SETPIPE_SZ, S->pipe_cap, 0);
  static int serial;
  serial++;
  fd_new(p[0], FK_PR, NULL); fd_new(p[1], FK_PW, NULL);
  g_fd[p[0]].child = g_fd[p[1]].child = 1000 + serial;
  return 0;
}
int pipe(int p[2]) { return pipe2(p, 0); }
struct pl { struct pollfd *p; nfds_t n; };
static int pl_ready(void *v) { struct pl *x = v; return R(SYS_poll, (long)x->p, (long)x->n, 0, 0) != 0; }
int poll(struct pollfd *p, nfds_t n, int ms) {
  int mine = 0;
  for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && p[i].fd < MAXFD && g_fd[p[i].fd].kind) mine = 1;
  if (!sim_enter() || (!mine && n)) RET((int)R(SYS_poll, (long)p, (long)n, ms < 0 ? 0 : ms, 0));
  int e = op(K_POLL, "poll");
  if (e) { for (nfds_t i = 0; i < n; i++) q_mark(p[i].fd, 1); return seterr(-e); }
  if (eintr()) return seterr(-EINTR);
  struct pl x = {p, n};
  uint64_t dl = ms < 0 ? UINT64_MAX : sim_now + (uint64_t)ms * 1000000ull;
  while (!pl_ready(&x)) {
    if (ms >= 0 && sim_now >= dl) return 0;
    struct sim_thr *t = &sim_thr[sim_self];
    t->state = ST_IO; t->deadline = dl; t->timedout = 0; t->ready = pl_ready; t->arg = &x;
    sim_block(SIM_PLACE_IO + K_POLL);
  }
  RET((int)R(SYS_poll, (long)p, (long)n, 0, 0));
}
int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); long a = va_arg(ap, long); va_end(ap);
  if (sim_enter() && fd >= 0 && fd < MAXFD && g_fd[fd].kind) { int e = op(K_FCNTL, "ioctl"); if (e) { q_mark(fd, 1); return seterr(-e); } }
  RET((int)R(SYS_ioctl, fd, (long)rq, a, 0));
}
static int do_fcntl(int fd, int cmd, long a) {
  long r = R(SYS_fcntl, fd, cmd, a, 0);
  if (r >= 0 && r < MAXFD && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && fd >= 0 && fd < MAXFD) g_fd[r] = g_fd[fd];
  RET((int)r);
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int close(int fd) {
  if (sim_enter() && fd >= 0 && fd < MAXFD && g_fd[fd].kind) {
    op(K_CLOSE, "close");
    int rd = g_fd[fd].kind == FK_PR;
    g_fd[fd].kind = 0;
    long r = R(SYS_close, fd, 0, 0, 0);
    if (rd) unblock();
    RET((int)r);
  }
  RET((int)R(SYS_close, fd, 0, 0, 0));
}
int simio_syscall(long n, long a, long b, long c, long d, long e, long f, long *ret) {
  (void)f;
  switch (n) {
    case SYS_openat: *ret = do_open((int)a, (const char *)b, (int)c, (int)d); return 1;
    case SYS_renameat2: *ret = two(K_RENAME, "rename", SYS_renameat2, (int)a, (const char *)b, (int)c, (const char *)d, (int)e); return 1;
    case SYS_copy_file_range: *ret = -ENOSYS; return 1;
    case SYS_clone: case SYS_clone3: case SYS_fork: case SYS_vfork: case SYS_execve: case SYS_execveat:
      S->unsupported = 3; sim_verdict(SV_UNSUPPORTED, 98);
  }
  return 0;
}

/* ---------------------------------------------------------------- start and end */
void simio_flush(void) {
  if (!S) return;
  S->ended = 1;
  for (int i = 0; i < g_nch; i++) if (!g_ch[i].done) { S->q[g_ch[i].q].left = 1; }
}
void exit(int code) {
  static void (*f)(int);
  if (!f) f = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  if (sim_active()) {
    /* the other threads go on for a while */
    int n = (int)(sim_rand() % 24);
    for (int i = 0; i < n; i++) { sim_point(SIM_PLACE_YIELD); child_events(0); }
    note("exit with status %d", code);
    simio_flush();
    sim_stop();
  }
  f(code);
  __builtin_unreachable();
}
__attribute__((destructor)) static void at_end(void) {
  if (S && sim_active()) { note("exit"); simio_flush(); sim_stop(); }
}
__attribute__((constructor)) static void at_start(void) {
  const char *s = getenv("SIMU_FD");
  if (!s) return;
  void *p = (void *)sim_raw(SYS_mmap, 0, sizeof(su_shm), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(s), 0);
  if ((long)p < 0 && (long)p > -4096) sim_raw(SYS_exit_group, 99, 0, 0, 0, 0, 0);
  sim_raw(SYS_close, atoi(s), 0, 0, 0, 0, 0);
  unsetenv("SIMU_FD");
  S = p;
  S->started = 1;
  g_disk = S->disk_cap;
  mallopt(M_ARENA_MAX, 1);
  uint32_t l;
  g_readme0 = slurp(README, S->arena, SU_ARENA, &l);
  g_last_r = g_last_t = 0;
  sim_cfg c = S->cfg;
  c.sched = S->sched;
  sim_start(&c, &S->sh);
}
