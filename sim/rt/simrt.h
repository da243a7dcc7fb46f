/* Deterministic simulation runtime: interface. See DESIGN.md. */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>

#define SIM_MAXTHR 64
#define SIM_MAXSCHED 65536

/* verdicts in sim_shared.verdict */
enum { SV_NONE = 0, SV_DEADLOCK = 1, SV_LIVELOCK = 2, SV_UNSUPPORTED = 3, SV_KILLED = 4 };

typedef struct { uint64_t step; uint32_t tid; uint32_t forced; } sim_dec;

/* Written by the run, read by the driver (shared memory). */
typedef struct {
  uint32_t verdict;
  uint32_t nthreads;
  uint64_t steps;        /* scheduling points passed */
  uint64_t now_ns;       /* simulated time */
  uint64_t preempts;     /* switches away from a runnable thread */
  uint64_t lib_preempts; /* ... of which at an instrumented branch */
  uint64_t forced;       /* switches because the running thread blocked or ended */
  uint64_t hot_points, hot_preempts, env_reads, file_reads;
  uint64_t edge_hits;    /* instrumented branches executed */
  uint64_t futex_waits, futex_wakes, spurious, clock_reads, clock_jumps, rand_reads, thread_creates, sleeps;
  uint64_t trace_hash;   /* hash of (step, thread, place) of all switches */
  uint32_t nsched;       /* decisions logged */
  uint32_t nedges;       /* instrumented branches in the binary */
  sim_dec sched[SIM_MAXSCHED];
  uint8_t pairs[8192];   /* bitmap: hashed (place left, place resumed) pairs of preemptions */
  uint8_t edges[65536 / 8];
} sim_shared;

/* Read by the run. */
typedef struct {
  uint64_t seed;
  uint32_t hot;          /* chance (of 256) to preempt at an access to shared memory */
  uint64_t env_seed;     /* what environment variables and files read by the library contain; 0: absent */
  double gap;            /* mean number of points between preemptions; 0 = none */
  uint32_t explicit_sched; /* follow sched[] instead of the generator */
  uint32_t nsched;
  const sim_dec *sched;
  uint64_t max_steps;
  uint64_t fair;         /* a runnable thread waits at most this many points */
  uint64_t spurious_ppm; /* spurious futex wake-ups */
  uint64_t clock_jump_ppm;
  int64_t real_off_ns;   /* offset of the wall clock */
  uint64_t rand_seed;    /* what getrandom yields */
  uint32_t ncpus;
  uint32_t fake_pid;
} sim_cfg;

void sim_start(const sim_cfg *cfg, sim_shared *sh);
void sim_stop(void);
void sim_point(uint32_t place);  /* a scheduling point */
int sim_active(void);
int sim_tid(void);
uint64_t sim_step(void);
void sim_die(int code) __attribute__((noreturn));
void sim_charge(uint64_t ns);
uint64_t sim_edges_of_thread(void); /* branches executed so far by this thread */
void sim_thread_top(void);
#endif
