//! The C runtime (sim/rt/simrt.c).
#![allow(dead_code)]
use std::os::raw::{c_char, c_int, c_long, c_void};

pub const MAXSCHED: usize = 65536;
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Dec {
    pub step: u64,
    pub tid: u32,
    pub forced: u32,
}
#[repr(C)]
pub struct SimShared {
    pub verdict: u32,
    pub nthreads: u32,
    pub steps: u64,
    pub now_ns: u64,
    pub preempts: u64,
    pub lib_preempts: u64,
    pub forced: u64,
    pub hot_points: u64,
    pub hot_preempts: u64,
    pub env_reads: u64,
    pub file_reads: u64,
    pub edge_hits: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub spurious: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub rand_reads: u64,
    pub thread_creates: u64,
    pub sleeps: u64,
    pub trace_hash: u64,
    pub nsched: u32,
    pub nedges: u32,
    pub sched: [Dec; MAXSCHED],
    pub pairs: [u8; 8192],
    pub edges: [u8; 8192],
}
#[repr(C)]
pub struct SimCfg {
    pub seed: u64,
    pub hot: u32,
    pub env_seed: u64,
    pub gap: f64,
    pub explicit_sched: u32,
    pub nsched: u32,
    pub sched: *const Dec,
    pub max_steps: u64,
    pub fair: u64,
    pub spurious_ppm: u64,
    pub clock_jump_ppm: u64,
    pub real_off_ns: i64,
    pub rand_seed: u64,
    pub ncpus: u32,
    pub fake_pid: u32,
}
extern "C" {
    pub fn sim_start(cfg: *const SimCfg, sh: *mut SimShared);
    pub fn sim_stop();
    pub fn sim_finish();
    pub fn sim_point(place: u32);
    pub fn sim_die(code: c_int) -> !;
    pub fn sim_tid() -> c_int;
    pub fn sim_step() -> u64;
    pub fn sim_edges_of_thread() -> u64;
    pub fn sim_inlib(v: c_int);
    pub fn sim_thread_top();
    pub fn sim_active() -> c_int;

    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn mmap(a: *mut c_void, n: usize, prot: c_int, fl: c_int, fd: c_int, off: c_long) -> *mut c_void;
    pub fn munmap(a: *mut c_void, n: usize) -> c_int;
    pub fn personality(p: std::os::raw::c_ulong) -> c_int;
    pub fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn execv(p: *const c_char, a: *const *const c_char) -> c_int;
    pub fn kill(p: c_int, s: c_int) -> c_int;
    pub fn prctl(o: c_int, a: usize, b: usize, c: usize, d: usize) -> c_int;
}
pub const PLACE_CALLBACK: u32 = 16;
pub const PLACE_ALLOC: u32 = 24;

pub fn shm<T>() -> *mut T {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap");
        p as *mut T
    }
}
