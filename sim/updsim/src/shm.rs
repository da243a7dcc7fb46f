//! Memory shared with the simulated generator: mirrors sim/rt/simio.h.
use crate::ffi::*;
use std::os::raw::c_int;

pub const KN: usize = 17;
pub const KNAMES: [&str; KN] = ["open_for_reading", "open_for_writing", "read", "write", "rename", "unlink", "truncate", "sync", "metadata", "pipe", "spawn", "poll", "pipe_read", "wait", "thread", "fcntl", "close"];
pub const K_OPEN_R: u32 = 0;
pub const K_OPEN_W: u32 = 1;
pub const K_READ: u32 = 2;
pub const K_WRITE: u32 = 3;
pub const K_RENAME: u32 = 4;
pub const K_UNLINK: u32 = 5;
pub const K_TRUNC: u32 = 6;
pub const K_SYNC: u32 = 7;
pub const K_META: u32 = 8;
pub const K_PIPE: u32 = 9;
pub const K_SPAWN: u32 = 10;
pub const K_POLL: u32 = 11;
pub const K_PREAD: u32 = 12;
pub const K_WAIT: u32 = 13;
pub const K_THREAD: u32 = 14;
pub const K_FCNTL: u32 = 15;
pub const BN: usize = 16;
pub const BNAMES: [&str; BN] = [
    "interrupted_call", "short_read", "short_write", "pipe_full", "slow_child", "orphan_goes_on", "disk_full", "kill", "kill_inside_write", "stderr_output", "child_fails", "child_killed",
    "child_garbage", "spawn_fails", "formatter_fails", "child_broken_pipe",
];
pub const B_DISK_FULL: usize = 6;
pub const B_CHILD_GARBAGE: usize = 12;
pub const B_FMT_FAIL: usize = 14;
pub const Q_VERSION: u32 = 0;
pub const Q_LIST: u32 = 1;
pub const Q_CFG: u32 = 2;
pub const Q_FMT: u32 = 3;
pub const MAXRESP: usize = 1024;
pub const MAXFAULT: usize = 16;
pub const MAXQ: usize = 2048;
pub const MAXSNAP: usize = 64;
pub const BLOB: usize = 8 << 20;
pub const ARENA: usize = 16 << 20;
pub const LOG: usize = 1 << 18;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Resp {
    pub kind: u32,
    pub nightly: u32,
    pub occ: u32,
    pub spawn_err: i32,
    pub key_off: u32,
    pub key_len: u32,
    pub out_off: u32,
    pub out_len: u32,
    pub err_off: u32,
    pub err_len: u32,
    pub status: i32,
    pub fmt_mode: u32,
    pub chunk: u32,
    pub early_close: u32,
    pub delay_ns: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CFault {
    pub cls: u32,
    pub nth: u32,
    pub err: i32,
    pub sticky: u32,
    pub fired: u32,
    pub pad: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Query {
    pub kind: u32,
    pub nightly: u32,
    pub resp: u32,
    pub spawn_err: i32,
    pub status: i32,
    pub reaped: u32,
    pub io_err: u32,
    pub exited: u32,
    pub truncated: u32,
    pub left: u32,
    pub key_len: u32,
    pub key: [u8; 84],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Snap {
    pub step: u64,
    pub readme_off: u32,
    pub readme_len: u32,
    pub table_off: u32,
    pub table_len: u32,
}
#[repr(C)]
pub struct Shm {
    pub cfg: SimCfg,
    pub nresp: u32,
    pub nfault: u32,
    pub kill_step: u64,
    pub kill_op: u64,
    pub kill_partial: u32,
    pub orphans: u32,
    pub kill_rel: u32,
    pub pad0: u32,
    pub eintr_ppm: u32,
    pub short_ppm: u32,
    pub disk_cap: u64,
    pub pipe_cap: u32,
    pub log: u32,
    pub rustc_off: u32,
    pub rustc_len: u32,
    pub resp: [Resp; MAXRESP],
    pub fault: [CFault; MAXFAULT],
    pub blob: [u8; BLOB],
    pub sched: [Dec; MAXSCHED],
    pub started: u32,
    pub ended: u32,
    pub nq: u32,
    pub nsnap: u32,
    pub arena_used: u32,
    pub log_len: u32,
    pub outside: u32,
    pub unsupported: u32,
    pub snap_lost: u32,
    pub readme_ok: u32,
    pub ops: u64,
    pub ops_hash: u64,
    pub cnt: [u64; KN],
    pub benign: [u64; BN],
    pub outside_path: [u8; 128],
    pub q: [Query; MAXQ],
    pub snap: [Snap; MAXSNAP],
    pub sh: SimShared,
    pub arena: [u8; ARENA],
    pub logbuf: [u8; LOG],
}
extern "C" {
    pub fn memfd_create(n: *const std::os::raw::c_char, fl: u32) -> c_int;
    pub fn ftruncate(fd: c_int, n: i64) -> c_int;
    pub fn lseek(fd: c_int, o: i64, w: c_int) -> i64;
    pub fn alarm(n: u32) -> u32;
    pub fn setgroups(n: usize, g: *const u32) -> c_int;
    pub fn setgid(g: u32) -> c_int;
    pub fn setuid(g: u32) -> c_int;
    pub fn chown(p: *const std::os::raw::c_char, u: u32, g: u32) -> c_int;
    pub fn geteuid() -> u32;
    pub fn umask(m: u32) -> u32;
}
impl Shm {
    pub fn reset(&mut self) {
        unsafe {
            let a = std::mem::offset_of!(Shm, started);
            let b = std::mem::offset_of!(Shm, q);
            std::ptr::write_bytes((self as *mut Shm as *mut u8).add(a), 0, b - a);
            let s = &mut self.sh;
            std::ptr::write_bytes(s as *mut SimShared as *mut u8, 0, std::mem::offset_of!(SimShared, sched));
            s.pairs = [0; 8192];
            s.edges = [0; 8192];
        }
    }
}
