/* Deterministic simulation runtime.
 *
 * Linked into the simulated program. The symbols defined here take precedence over those of the
 * shared C library, so everything the Rust standard library asks of the system comes through here:
 * threads, futexes, sleeping, clocks, randomness, CPU counts (and, with -DSIM_IO, files, pipes and
 * child processes: simio.c). Threads are real, but exactly one of them runs at any time: at each
 * scheduling point (every branch of the instrumented code under test, every callback and every
 * intercepted call) a seeded generator, or a recorded list of decisions, says who runs next.
 */
#define _GNU_SOURCE
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "simint.h"
#include <fcntl.h>

long sim_raw(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static long sret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

struct sim_thr sim_thr[SIM_MAXTHR];
static int g_n;                 /* threads ever registered */
int sim_cur = -1;
static volatile int g_on;
__thread int sim_self = -1;
static __thread int t_inrt;     /* inside the runtime: no scheduling points */
static sim_cfg g_cfg;
sim_shared *sim_sh;
static sim_shared g_dummy;
static uint64_t g_step, g_next, g_next_switch, g_last_switch;
uint64_t sim_now;
static uint64_t g_rng[2], g_srng[2], g_rnd;  /* environment, scheduler, getrandom */
static __thread uint64_t t_edges;
static __thread char *t_top;    /* end of this thread's stack */
static uint32_t g_si;           /* index into explicit schedule */
static pthread_key_t g_key;
static int64_t g_jump;

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t xs(uint64_t *g) {
  uint64_t s1 = g[0], s0 = g[1], r = s0 + s1;
  g[0] = s0;
  s1 ^= s1 << 23;
  g[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}
uint64_t sim_rand(void) { return xs(g_rng); }
static double frand(void) { return ((xs(g_srng) >> 11) + 1) * (1.0 / 9007199254740993.0); }

int sim_active(void) { return g_on && sim_self >= 0; }
int sim_tid(void) { return sim_self; }
uint64_t sim_step(void) { return g_step; }
void sim_charge(uint64_t ns) { sim_now += ns; }

void sim_finish(void) { /* publish counters */
  sim_shared *s = sim_sh;
  if (!s) return;
  s->steps = g_step; s->now_ns = sim_now; s->nthreads = g_n;
}
void sim_die(int code) {
  sim_finish();
#ifdef SIM_IO
  simio_flush();
#endif
  for (;;) sim_raw(SYS_exit_group, code, 0, 0, 0, 0, 0);
}
void sim_verdict(uint32_t v, int code) {
  if (sim_sh->verdict == SV_NONE) sim_sh->verdict = v;
  sim_die(code);
}

static void draw_gap(void) {
  if (g_cfg.explicit_sched || g_cfg.gap <= 0) { g_next_switch = UINT64_MAX; return; }
  double k = -log(frand()) * g_cfg.gap;
  if (k > 1e15) k = 1e15;
  g_next_switch = g_step + 1 + (uint64_t)k;
}
static void set_next(void) {
  uint64_t n = g_next_switch;
  if (g_cfg.explicit_sched) {
    while (g_si < g_cfg.nsched && g_cfg.sched[g_si].step <= g_step) g_si++;
    n = g_si < g_cfg.nsched ? g_cfg.sched[g_si].step : UINT64_MAX;
  }
  if (g_last_switch + g_cfg.fair < n) n = g_last_switch + g_cfg.fair;
  if (g_cfg.max_steps < n) n = g_cfg.max_steps;
#ifdef SIM_IO
  { uint64_t k = simio_next(g_step); if (k < n) n = k; }
#endif
  if (n <= g_step) n = g_step + 1;
  g_next = n;
}

void sim_renext(void) { set_next(); }

static int g_dying; /* system id of a thread that has handed over and is leaving */
static void park(int id) {
  struct sim_thr *t = &sim_thr[id];
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
    sim_raw(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
  if (g_dying) { /* what the C library does on its way out must not overlap with anything */
    long pid = sim_raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
    while (sim_raw(SYS_tgkill, pid, g_dying, 0, 0, 0, 0) == 0) sim_raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    g_dying = 0;
  }
}
static void unpark(int id) {
  struct sim_thr *t = &sim_thr[id];
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  sim_raw(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static int runnable(int i) {
  struct sim_thr *t = &sim_thr[i];
  if (t->state == ST_RUN) return 1;
#ifdef SIM_IO
  if (t->state == ST_IO && t->ready && t->ready(t->arg)) { t->state = ST_RUN; return 1; }
#endif
  return 0;
}
static void logdec(int to, int forced) {
  sim_shared *s = sim_sh;
  if (s->nsched < SIM_MAXSCHED) { s->sched[s->nsched].step = g_step; s->sched[s->nsched].tid = (uint32_t)to; s->sched[s->nsched].forced = (uint32_t)forced; s->nsched++; }
}
/* expire sleepers and timed waits */
static void timers(void) {
  for (int i = 0; i < g_n; i++) {
    struct sim_thr *t = &sim_thr[i];
    if ((t->state == ST_SLEEP || t->state == ST_FUTEX || t->state == ST_IO) && t->deadline <= sim_now) {
      if (t->state != ST_SLEEP) t->timedout = 1;
      t->state = ST_RUN;
    }
  }
}
static uint64_t next_timer(void) {
  uint64_t d = UINT64_MAX;
  for (int i = 0; i < g_n; i++) {
    struct sim_thr *t = &sim_thr[i];
    if ((t->state == ST_SLEEP || t->state == ST_FUTEX || t->state == ST_IO) && t->deadline < d) d = t->deadline;
  }
  return d;
}
/* Who runs next, given that the current thread cannot (or should not) continue. */
static int pick(int self, int forced) {
  int c[SIM_MAXTHR], n;
  for (;;) {
    timers();
    n = 0;
    for (int i = 0; i < g_n; i++) if ((forced || i != self) && runnable(i)) c[n++] = i;
    if (n || !forced) break;
    uint64_t d = next_timer();
#ifdef SIM_IO
    uint64_t e = simio_next_event();
    if (e <= d && e != UINT64_MAX) { if (e > sim_now) sim_now = e; simio_run_events(); continue; }
#endif
    if (d == UINT64_MAX) sim_verdict(SV_DEADLOCK, 96);
    if (d > sim_now) sim_now = d;
  }
  if (!n) return -1;
  if (g_cfg.explicit_sched) {
    if (g_si < g_cfg.nsched && g_cfg.sched[g_si].step == g_step) {
      int want = (int)g_cfg.sched[g_si].tid;
      for (int k = 0; k < n; k++) if (c[k] == want) return want;
    }
    if (!forced) return -1;
    return c[0];
  }
  if (forced && g_cfg.gap <= 0) return c[0];
  return c[xs(g_srng) % (uint64_t)n];
}
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v; h *= 0x100000001b3ull; h ^= h >> 29; return h * 0x9e3779b97f4a7c15ull; }

static void switch_to(int to, uint32_t place, int forced) {
  int self = sim_self;
  sim_shared *s = sim_sh;
  if (self >= 0) sim_thr[self].place = place;
  if (to == self) return;
  logdec(to, forced);
  s->trace_hash = mix(mix(mix(s->trace_hash, g_step), (uint64_t)to), place);
  if (forced) s->forced++;
  else {
    s->preempts++;
    if (place >= SIM_PLACE_EDGE) s->lib_preempts++;
    uint64_t h = mix(mix(7, place), sim_thr[to].place) % (sizeof s->pairs * 8);
    s->pairs[h >> 3] |= (uint8_t)(1u << (h & 7));
  }
  g_last_switch = g_step;
  sim_cur = to;
  unpark(to);
  if (self >= 0 && sim_thr[self].state != ST_DEAD) park(self);
}
static void slow_point(uint32_t place, int hot) {
  t_inrt++;
  if (g_step >= g_cfg.max_steps) sim_verdict(SV_LIVELOCK, 95);
#ifdef SIM_IO
  simio_at_step(g_step);
#endif
  int to = -1;
  if (g_cfg.explicit_sched) {
    if (g_si < g_cfg.nsched && g_cfg.sched[g_si].step == g_step) to = pick(sim_self, 0);
  } else if (sim_sh->nsched < SIM_MAXSCHED - 8192 && (hot || g_step >= g_next_switch)) {
    if (hot) sim_sh->hot_preempts++;
    to = pick(sim_self, 0);
    draw_gap();
  }
  if (to < 0 && g_step >= g_last_switch + g_cfg.fair) { /* fairness: next runnable id */
    timers();
    for (int k = 1; k < g_n && to < 0; k++) { int i = (sim_self + k) % g_n; if (runnable(i)) to = i; }
    g_last_switch = g_step;
  }
  if (to >= 0) switch_to(to, place, 0);
  set_next();
  t_inrt--;
}
void sim_point(uint32_t place) {
  if (!g_on || sim_self < 0 || t_inrt) return;
  g_step++;
  sim_now += 50;
  if (__builtin_expect(g_step < g_next, 1)) return;
  int e = errno;
  slow_point(place, 0);
  errno = e;
}
/* The current thread's state has been set to something other than ST_RUN. */
void sim_block(uint32_t place) {
  t_inrt++;
  g_step++;
  sim_now += 50;
  if (g_step >= g_cfg.max_steps) sim_verdict(SV_LIVELOCK, 95);
  if (g_cfg.explicit_sched) while (g_si < g_cfg.nsched && g_cfg.sched[g_si].step < g_step) g_si++;
  int to = pick(sim_self, 1);
  if (to == sim_self) g_last_switch = g_step;
  switch_to(to, place, 1);
  set_next();
  t_inrt--;
}
int sim_enter(void) { if (!g_on || sim_self < 0 || t_inrt) return 0; return 1; }
void sim_rt(int d) { t_inrt += d; }

/* ---------------------------------------------------------------- threads */
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static void resolve(void) {
  if (!real_create) {
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
  }
}
static void thread_end(void *v) { /* last thing a simulated thread does */
  int id = (int)(long)v - 1;
  if (id < 0 || sim_self != id || !g_on) return;
  t_inrt++;
  struct sim_thr *t = &sim_thr[id];
  t->state = ST_DEAD;
  for (int i = 0; i < g_n; i++) if (sim_thr[i].state == ST_JOIN && sim_thr[i].target == id) sim_thr[i].state = ST_RUN;
  g_step++;
  if (g_cfg.explicit_sched) while (g_si < g_cfg.nsched && g_cfg.sched[g_si].step < g_step) g_si++;
  int to = pick(id, 1);
  sim_self = -1;                       /* from here on this thread only leaves */
  { /* hand over without parking */
    sim_shared *s = sim_sh;
    logdec(to, 1);
    s->trace_hash = mix(mix(s->trace_hash, g_step), (uint64_t)to);
    s->forced++;
    g_last_switch = g_step;
    sim_cur = to;
    set_next();
    g_dying = (int)sim_raw(SYS_gettid, 0, 0, 0, 0, 0, 0);
    unpark(to);
  }
}
static void *thread_main(void *v) {
  struct sim_thr *t = v;
  int id = (int)(t - sim_thr);
  sim_self = id;
  t_inrt = 1;
  t_top = (char *)__builtin_frame_address(0) + 256;
  park(id);
  pthread_setspecific(g_key, (void *)(long)(id + 1));
  t_inrt = 0;
  return t->fn(t->arg0);
}
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  resolve();
  if (!sim_enter()) return real_create(p, a, fn, arg);
#ifdef SIM_IO
  { int e = simio_thread_fault(); if (e) return e; }
#endif
  t_inrt++;
  if (g_n >= SIM_MAXTHR) { t_inrt--; return EAGAIN; }
  struct sim_thr *t = &sim_thr[g_n];
  memset(t, 0, sizeof *t);
  t->fn = fn; t->arg0 = arg; t->state = ST_RUN; t->deadline = UINT64_MAX;
  int r = real_create(p, a, thread_main, t);
  if (r == 0) { t->real = *p; g_n++; sim_sh->thread_creates++; }
  t_inrt--;
  sim_point(SIM_PLACE_SPAWN);
  return r;
}
int pthread_join(pthread_t p, void **ret) {
  resolve();
  if (sim_enter()) {
    int id = -1;
    for (int i = g_n - 1; i >= 0; i--) if (sim_thr[i].fn && pthread_equal(sim_thr[i].real, p)) { id = i; break; }
    if (id >= 0) {
      sim_point(SIM_PLACE_JOIN);
      if (sim_thr[id].state != ST_DEAD) {
        sim_thr[sim_self].state = ST_JOIN;
        sim_thr[sim_self].target = id;
        sim_thr[sim_self].deadline = UINT64_MAX;
        sim_block(SIM_PLACE_JOIN);
      }
    }
  }
  return real_join(p, ret);
}

/* ---------------------------------------------------------------- futex, clock, sleep */
static uint64_t abs_ns(const struct timespec *ts) { return (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec; }
#define MONO_BASE 1000000000000ull

static long do_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t mask) {
  int cmd = op & 127;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sim_point(SIM_PLACE_FUTEX);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    sim_sh->futex_waits++;
    if (g_cfg.spurious_ppm && sim_rand() % 1000000 < g_cfg.spurious_ppm) { sim_sh->spurious++; return sim_rand() & 1 ? 0 : -EINTR; }
    struct sim_thr *t = &sim_thr[sim_self];
    t->state = ST_FUTEX; t->addr = addr; t->mask = cmd == FUTEX_WAIT ? ~0u : mask; t->timedout = 0;
    t->deadline = UINT64_MAX;
    if (ts) {
      uint64_t v = abs_ns(ts);
      if (cmd == FUTEX_WAIT) t->deadline = sim_now + v;
      else {
        int64_t base = (int64_t)MONO_BASE + ((op & FUTEX_CLOCK_REALTIME) ? g_cfg.real_off_ns + g_jump : 0);
        int64_t d = (int64_t)v - base;
        t->deadline = d < 0 ? 0 : (uint64_t)d;
      }
    }
    sim_block(SIM_PLACE_FUTEX);
    return t->timedout ? -ETIMEDOUT : 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    sim_sh->futex_wakes++;
    long n = 0;
    uint32_t m = cmd == FUTEX_WAKE ? ~0u : mask;
    int first = g_n ? (int)(sim_rand() % (uint64_t)g_n) : 0;
    for (int k = 0; k < g_n && n < (long)(int)val; k++) {
      struct sim_thr *t = &sim_thr[(first + k) % g_n];
      if (t->state == ST_FUTEX && t->addr == addr && (t->mask & m)) { t->state = ST_RUN; t->timedout = 0; n++; }
    }
    sim_point(SIM_PLACE_FUTEX);
    return n;
  }
  return -ENOSYS;
}
static int do_gettime(clockid_t c, struct timespec *ts) {
  sim_sh->clock_reads++;
  if (g_cfg.clock_jump_ppm && sim_rand() % 1000000 < g_cfg.clock_jump_ppm) {
    sim_sh->clock_jumps++;
    int64_t j = (int64_t)(sim_rand() % 7200000000000ull);
    if (sim_rand() & 1) g_jump -= j; else g_jump += j;
    /* monotonic time only moves forwards: by seconds, or (the machine slept) by up to a day */
    uint64_t leap = sim_rand();
    sim_now += leap % (leap >> 60 ? 60000000000ull : 86400000000000ull);
  }
  sim_now += 30;
  int64_t v = (int64_t)(MONO_BASE + sim_now);
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) v += g_cfg.real_off_ns + g_jump;
  if (v < 0) v = 0;
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
  return 0;
}
static long rnd_fill(void *b, size_t n) {
  sim_sh->rand_reads++;
  unsigned char *p = b;
  for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(splitmix(&g_rnd) >> 24);
  return (long)n;
}
static void do_sleep(uint64_t deadline) {
  sim_sh->sleeps++;
  struct sim_thr *t = &sim_thr[sim_self];
  t->state = ST_SLEEP; t->deadline = deadline;
  sim_block(SIM_PLACE_SLEEP);
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (sim_enter()) {
    if (n == SYS_futex) {
      int cmd = (int)b & 127;
      if (cmd == FUTEX_WAIT || cmd == FUTEX_WAKE || cmd == FUTEX_WAIT_BITSET || cmd == FUTEX_WAKE_BITSET)
        return sret(do_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f));
    } else if (n == SYS_getrandom) return rnd_fill((void *)a, (size_t)b);
    else if (n == SYS_clock_gettime) return do_gettime((clockid_t)a, (struct timespec *)b);
    else if (n == SYS_sched_yield) { sim_point(SIM_PLACE_YIELD); return 0; }
    else if (n == SYS_gettid) return 1000 + sim_self;
#ifdef SIM_IO
    else { long r; if (simio_syscall(n, a, b, c, d, e, f, &r)) return sret(r); }
#endif
  }
  return sret(sim_raw(n, a, b, c, d, e, f));
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (sim_enter()) return rnd_fill(b, n);
  return sret(sim_raw(SYS_getrandom, (long)b, (long)n, fl, 0, 0, 0));
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (sim_enter()) return do_gettime(c, ts);
  return (int)sret(sim_raw(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0));
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
  if (sim_enter()) { do_sleep(sim_now + abs_ns(ts)); return 0; }
  return (int)sret(sim_raw(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0));
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *ts, struct timespec *rem) {
  if (sim_enter()) {
    uint64_t v = abs_ns(ts);
    if (fl & TIMER_ABSTIME) {
      int64_t d = (int64_t)v - (int64_t)MONO_BASE;
      if (c == CLOCK_REALTIME) d -= g_cfg.real_off_ns + g_jump;
      do_sleep(d < 0 ? 0 : (uint64_t)d);
    } else do_sleep(sim_now + v);
    return 0;
  }
  return (int)-sim_raw(SYS_clock_nanosleep, c, fl, (long)ts, (long)rem, 0, 0);
}
int usleep(useconds_t us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000}; return nanosleep(&t, 0); }
int sched_yield(void) {
  if (sim_enter()) { sim_point(SIM_PLACE_YIELD); return 0; }
  return (int)sret(sim_raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
}
int pause(void) {
  if (sim_enter()) { struct sim_thr *t = &sim_thr[sim_self]; t->state = ST_FOREVER; t->deadline = UINT64_MAX; sim_block(SIM_PLACE_YIELD); }
  return (int)sret(sim_raw(SYS_pause, 0, 0, 0, 0, 0, 0));
}
pid_t getpid(void) {
  if (sim_enter() && g_cfg.fake_pid) return (pid_t)g_cfg.fake_pid;
  return (pid_t)sim_raw(SYS_getpid, 0, 0, 0, 0, 0, 0);
}
pid_t gettid(void) {
  if (sim_enter()) return 1000 + sim_self;
  return (pid_t)sim_raw(SYS_gettid, 0, 0, 0, 0, 0, 0);
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  if (sim_enter() && g_cfg.ncpus) {
    memset(s, 0, n);
    for (uint32_t i = 0; i < g_cfg.ncpus && i < n * 8; i++) ((unsigned char *)s)[i >> 3] |= (unsigned char)(1u << (i & 7));
    return 0;
  }
  long r = sim_raw(SYS_sched_getaffinity, p, (long)n, (long)s, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  if ((size_t)r < n) memset((char *)s + r, 0, n - (size_t)r);
  return 0;
}

#ifndef SIM_IO
/* Ambient inputs that a library has no business reading: answered by the simulator, so that a
 * result that depends on them differs between the reference and the run. */
extern char **environ;
static const char *const k_env[] = {"", "1", "0", "true", "x86_64-unknown-linux-gnu", "/nonexistent", "unix"};
static uint64_t name_hash(const char *n) { uint64_t h = g_cfg.env_seed; for (; *n; n++) h = mix(h, (unsigned char)*n); return h; }
char *getenv(const char *name) {
  if (sim_enter() && strncmp(name, "RUST_", 5) != 0) {
    sim_sh->env_reads++;
    if (!g_cfg.env_seed) return NULL;
    uint64_t k = name_hash(name) >> 20;
    k %= 9;
    return k < 7 ? (char *)k_env[k] : NULL;
  }
  size_t l = strlen(name);
  for (char **e = environ; e && *e; e++) if (!strncmp(*e, name, l) && (*e)[l] == '=') return *e + l + 1;
  return NULL;
}
char *secure_getenv(const char *name) { return getenv(name); }
int open64(const char *path, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (sim_enter()) {
    sim_sh->file_reads++;
    sim_point(SIM_PLACE_IO);
    uint64_t k = g_cfg.env_seed ? (name_hash(path) >> 20) % 5 : 0;
    if (k < 2) { errno = k ? EMFILE : ENOENT; return -1; }
    static const char *const c[] = {"", "1\n", "unix\ntarget_os=\"linux\"\n"};
    long fd = sim_raw(SYS_memfd_create, (long)"sim", 0, 0, 0, 0, 0);
    if (fd >= 0) { sim_raw(SYS_write, fd, (long)c[k - 2], (long)strlen(c[k - 2]), 0, 0, 0); sim_raw(SYS_lseek, fd, 0, 0, 0, 0, 0); }
    return (int)sret(fd);
  }
  return (int)sret(sim_raw(SYS_openat, -100, (long)path, fl, mode, 0, 0));
}
int open(const char *path, int fl, ...) {
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  return open64(path, fl, mode);
}
/* Does a file exist? As the seed says; the reference sees none. */
static int there(const char *path) { sim_sh->file_reads++; sim_point(SIM_PLACE_IO); return g_cfg.env_seed && (name_hash(path) >> 20) % 5 >= 2; }
int statx(int at, const char *restrict path, int fl, unsigned mask, struct statx *restrict b) {
  const char *volatile vp = path; /* (std probes with a null path; the header says that nobody does) */
  if (vp && *vp && sim_enter()) {
    if (!there(path)) { errno = ENOENT; return -1; }
    memset(b, 0, sizeof *b);
    b->stx_mask = mask & STATX_BASIC_STATS; b->stx_mode = (name_hash(path) >> 30) & 1 ? S_IFDIR | 0755 : S_IFREG | 0644;
    b->stx_nlink = 1; b->stx_size = (name_hash(path) >> 31) % 5000; b->stx_mtime.tv_sec = (int64_t)(name_hash(path) >> 34);
    return 0;
  }
  return (int)sret(sim_raw(SYS_statx, at, (long)path, fl, mask, (long)b, 0));
}
int access(const char *path, int m) {
  if (sim_enter()) { if (there(path)) return 0; errno = ENOENT; return -1; }
  return (int)sret(sim_raw(SYS_access, (long)path, m, 0, 0, 0, 0));
}
int isatty(int fd) {
  if (sim_enter()) { sim_sh->env_reads++; if (g_cfg.env_seed & 1) return 1; errno = ENOTTY; return 0; }
  char t[64];
  return sim_raw(SYS_ioctl, fd, 0x5401, (long)t, 0, 0, 0) >= 0;
}
int gethostname(char *b, size_t n) {
  if (sim_enter()) { sim_sh->env_reads++; if (n) snprintf(b, n, "host%llu", (unsigned long long)(g_cfg.env_seed % 7)); return 0; }
  if (n) *b = 0;
  return 0;
}
uid_t getuid(void) { if (sim_enter()) return (uid_t)(g_cfg.env_seed % 3 ? 1000 : 0); return (uid_t)sim_raw(SYS_getuid, 0, 0, 0, 0, 0, 0); }
uid_t geteuid(void) { if (sim_enter()) return (uid_t)(g_cfg.env_seed % 3 ? 1000 : 0); return (uid_t)sim_raw(SYS_geteuid, 0, 0, 0, 0, 0, 0); }
char *getcwd(char *buf, size_t n) {
  if (sim_enter() && buf) {
    char t[64];
    snprintf(t, sizeof t, "/sim/%llx", (unsigned long long)(g_cfg.env_seed & 0xffff));
    if (strlen(t) + 1 > n) { errno = ERANGE; return NULL; }
    return strcpy(buf, t);
  }
  if (!buf) { errno = EINVAL; return NULL; }
  long r = sim_raw(SYS_getcwd, (long)buf, (long)n, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return NULL; }
  return buf;
}
#endif

/* ---------------------------------------------------------------- branches and memory accesses of the code under test */
static uint32_t g_edges;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  for (; a < b; a++) *a = ++g_edges;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!g_on || sim_self < 0 || t_inrt) return;
  uint32_t id = *g;
  sim_sh->edges[(id >> 3) & 8191] |= (uint8_t)(1u << (id & 7));
  t_edges++;
  sim_sh->edge_hits++;
  g_step++;
  sim_now += 50;
  if (__builtin_expect(g_step < g_next, 1)) return;
  int e = errno;
  slow_point(SIM_PLACE_EDGE + id, 0);
  errno = e;
}
/* Branches of the standard library (where it is instrumented too) and memory moved for the code under test
 * are only counted; they are not scheduling points. */
static __thread uint64_t t_std;
static __thread int t_lib;
void sim_inlib(int v) { t_lib = v; }
void __sanitizer_cov_trace_pc(void) { if (t_lib) t_std++; }
void sim_moved(size_t n) { if (t_lib) t_std += n; }
uint64_t sim_edges_of_thread(void) { return t_edges + t_std; }
void sim_thread_top(void) { t_top = (char *)__builtin_frame_address(0) + 256; }

extern char __executable_start[], __data_start[], _end[];
#define GRAN 16384
static struct { uintptr_t a; int8_t tid, w; } g_gran[GRAN];
/* An access to memory that is not on the own stack is a scheduling point. One to a writable global, or
 * one that conflicts with another thread's last access, is "hot": a place where preemption pays. */
static void mem(char *addr, int write, uintptr_t pc) {
  if (!g_on || sim_self < 0 || t_inrt) return;
  if (addr >= (char *)__builtin_frame_address(0) && addr < t_top) return;
  if (addr >= __executable_start && addr < __data_start) return;
  int hot = addr >= __data_start && addr < _end;
  uintptr_t k = (uintptr_t)addr >> 3;
  unsigned h = (unsigned)((k * 0x9e3779b97f4a7c15ull) >> 50) % GRAN;
  if (g_gran[h].a == k && g_gran[h].tid != sim_self) {
    if (write || g_gran[h].w) hot = 1;
    g_gran[h].tid = (int8_t)sim_self; g_gran[h].w = (int8_t)write;
  } else if (g_gran[h].a != k) {
    g_gran[h].a = k; g_gran[h].tid = (int8_t)sim_self; g_gran[h].w = (int8_t)write;
  } else if (write) g_gran[h].w = 1;
  g_step++;
  sim_now += 50;
  if (hot) {
    sim_sh->hot_points++;
    hot = !g_cfg.explicit_sched && g_cfg.hot && (xs(g_srng) & 255) < g_cfg.hot;
  }
  if (__builtin_expect(!hot && g_step < g_next, 1)) return;
  int e = errno;
  slow_point(SIM_PLACE_MEM + (uint32_t)((pc - (uintptr_t)__executable_start) & 0xffffff), hot);
  errno = e;
}
#define MEM(n) \
  void __sanitizer_cov_load##n(char *a) { mem(a, 0, (uintptr_t)__builtin_return_address(0)); } \
  void __sanitizer_cov_store##n(char *a) { mem(a, 1, (uintptr_t)__builtin_return_address(0)); }
MEM(1) MEM(2) MEM(4) MEM(8) MEM(16)

void sim_start(const sim_cfg *cfg, sim_shared *sh) {
  resolve();
  g_cfg = *cfg;
  sim_sh = sh ? sh : &g_dummy;
  uint64_t s = cfg->seed;
  g_rng[0] = splitmix(&s); g_rng[1] = splitmix(&s) | 1;
  g_srng[0] = splitmix(&s); g_srng[1] = splitmix(&s) | 1;
  memset(g_gran, 0, sizeof g_gran);
  t_edges = t_std = 0;
  g_rnd = cfg->rand_seed;
  g_n = 1; g_step = 0; sim_now = 0; g_si = 0; g_jump = 0; g_last_switch = 0;
  if (!g_cfg.fair) g_cfg.fair = 50000;
  if (!g_cfg.max_steps) g_cfg.max_steps = UINT64_MAX / 4;
  memset(&sim_thr[0], 0, sizeof sim_thr[0]);
  sim_thr[0].state = ST_RUN; sim_thr[0].deadline = UINT64_MAX;
  sim_self = 0; sim_cur = 0;
  sim_sh->nedges = g_edges;
  pthread_key_create(&g_key, thread_end);
  draw_gap();
  set_next();
  g_on = 1;
}
void sim_stop(void) { sim_finish(); g_on = 0; sim_self = -1; }
