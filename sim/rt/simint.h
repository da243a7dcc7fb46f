/* Internal interface between simrt.c and simio.c */
#ifndef SIMINT_H
#define SIMINT_H
#include "simrt.h"
#include <pthread.h>
enum { ST_FREE = 0, ST_RUN, ST_FUTEX, ST_JOIN, ST_SLEEP, ST_IO, ST_FOREVER, ST_DEAD };
enum { SIM_PLACE_NONE = 0, SIM_PLACE_SPAWN = 1, SIM_PLACE_JOIN, SIM_PLACE_FUTEX, SIM_PLACE_SLEEP, SIM_PLACE_YIELD,
       SIM_PLACE_CALLBACK = 16, SIM_PLACE_IO = 64, SIM_PLACE_EDGE = 1024, SIM_PLACE_MEM = 1 << 24 };
struct sim_thr {
  int state;
  volatile int go;
  pthread_t real;
  void *(*fn)(void *);
  void *arg0;
  uint32_t *addr;
  uint32_t mask;
  uint64_t deadline;
  int timedout, target;
  uint32_t place;
  int (*ready)(void *);
  void *arg;
};
extern struct sim_thr sim_thr[SIM_MAXTHR];
extern __thread int sim_self;
extern int sim_cur;
extern sim_shared *sim_sh;
extern uint64_t sim_now;
long sim_raw(long n, long a, long b, long c, long d, long e, long f);
uint64_t sim_rand(void);   /* environment: clock jumps, spurious wake-ups, faults */
void sim_block(uint32_t place);
int sim_enter(void);
void sim_rt(int d);
void sim_finish(void);
void sim_verdict(uint32_t v, int code);
void sim_renext(void);
#ifdef SIM_IO
uint64_t simio_next(uint64_t step);       /* next step at which simio_at_step must be called */
void simio_at_step(uint64_t step);
uint64_t simio_next_event(void);          /* simulated time of the next child event */
void simio_run_events(void);
int simio_thread_fault(void);
int simio_syscall(long n, long a, long b, long c, long d, long e, long f, long *ret);
void simio_flush(void);
#endif
#endif
