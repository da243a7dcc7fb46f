/* Shared memory between updsim (the driver) and a simulated run of the generator. Mirrored in
 * updsim/src/shm.rs. */
#ifndef SIMIO_H
#define SIMIO_H
#include "simrt.h"

/* classes of operations, counted and faulted separately */
enum { K_OPEN_R = 0, K_OPEN_W, K_READ, K_WRITE, K_RENAME, K_UNLINK, K_TRUNC, K_SYNC, K_META, K_PIPE, K_SPAWN, K_POLL,
       K_PREAD, K_WAIT, K_THREAD, K_FCNTL, K_CLOSE, K_N };
/* benign faults, counted */
enum { B_EINTR = 0, B_SHORT_READ, B_SHORT_WRITE, B_PIPE_FULL, B_SLOW_CHILD, B_ORPHAN, B_DISK_FULL, B_KILL, B_KILL_PARTIAL,
       B_STDERR_NOISE, B_CHILD_FAIL, B_CHILD_SIGNAL, B_CHILD_GARBAGE, B_SPAWN_FAIL, B_FMT_FAIL, B_CHILD_SIGPIPE, B_N };
enum { Q_VERSION = 0, Q_LIST, Q_CFG, Q_FMT, Q_OTHER };

#define SU_MAXRESP 1024
#define SU_MAXFAULT 16
#define SU_MAXQ 2048
#define SU_MAXSNAP 64
#define SU_BLOB (8u << 20)
#define SU_ARENA (16u << 20)
#define SU_LOG (1u << 18)

typedef struct {
  uint32_t kind, nightly;      /* which invocation this answers; nightly: 0 without, 1 with +toolchain */
  uint32_t occ;                /* only the occ-th such invocation (from 1); 0: any */
  int32_t spawn_err;
  uint32_t key_off, key_len;   /* target */
  uint32_t out_off, out_len, err_off, err_len;
  int32_t status;              /* wait status */
  uint32_t fmt_mode;           /* rustfmt: 0 formats, 1 fails before, 2 dies while writing, 3 fails after */
  uint32_t chunk;
  uint32_t early_close;        /* closes its output before it exits */
  uint64_t delay_ns;
} su_resp;
typedef struct { uint32_t cls, nth; int32_t err; uint32_t sticky; uint32_t fired, pad; } su_fault;
typedef struct {
  uint32_t kind, nightly, resp;
  int32_t spawn_err, status;
  uint32_t reaped, io_err, exited, truncated, left;
  uint32_t key_len;
  char key[84];
} su_query;
typedef struct { uint64_t step; uint32_t readme_off, readme_len, table_off, table_len; } su_snap;

typedef struct {
  /* in */
  sim_cfg cfg;
  uint32_t nresp, nfault;
  uint64_t kill_step, kill_op;
  uint32_t kill_partial, orphans, kill_rel, pad0; /* kill_rel: counted from the first file opened for writing */
  uint32_t eintr_ppm, short_ppm;
  uint64_t disk_cap;
  uint32_t pipe_cap, log;
  uint32_t rustc_off, rustc_len;
  su_resp resp[SU_MAXRESP];
  su_fault fault[SU_MAXFAULT];
  uint8_t blob[SU_BLOB];
  sim_dec sched[SIM_MAXSCHED];
  /* out */
  uint32_t started, ended;
  uint32_t nq, nsnap, arena_used, log_len;
  uint32_t outside, unsupported;
  uint32_t snap_lost, readme_ok;
  uint64_t ops, ops_hash;
  uint64_t cnt[K_N], benign[B_N];
  char outside_path[128];
  su_query q[SU_MAXQ];
  su_snap snap[SU_MAXSNAP];
  sim_shared sh;
  uint8_t arena[SU_ARENA];
  char logbuf[SU_LOG];
} su_shm;
#endif
