//! Runs the real generator once, under the simulator, in a scratch directory.
use crate::ffi::*;
use crate::plan::*;
use crate::shm::*;
use crate::util::*;
use crate::world::*;
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub const MAX_STEPS: u64 = 40_000_000;
pub const README: &str = "README.md";
pub const TABLE: &str = "src/targets/builtins.rs";
pub type Files = BTreeMap<String, Vec<u8>>;

/// Where the simulated generator runs.
pub struct Slot {
    pub shm: &'static mut Shm,
    fd: i32,
    dir: PathBuf,
    bin: PathBuf,
}
unsafe impl Send for Slot {}
pub struct Outcome {
    pub code: i32, // exit status; 256 + signal when killed by one
    pub verdict: u32,
    pub harness: Option<String>,
    pub files: Files,
    pub queries: Vec<Query>,
    pub snaps: Vec<(u64, Vec<u8>, Vec<u8>)>,
    pub fired: Vec<u32>, // per class fault
    pub readme_ok: bool,
    pub outside: Option<String>,
    pub disk_full: bool,
    pub hash: u64,
    pub sched: Vec<(u64, u32)>,
    pub log: String,
}
impl Query {
    pub fn name(&self) -> String {
        String::from_utf8_lossy(&self.key[..(self.key_len as usize).min(84)]).into_owned()
    }
}
impl Outcome {
    pub fn killed(&self) -> bool {
        self.verdict == 4
    }
    pub fn ended(&self) -> String {
        match self.verdict {
            1 => "is blocked forever".into(),
            2 => "does not end".into(),
            4 => "was killed".into(),
            _ if self.code >= 256 => format!("died of signal {}", self.code - 256),
            _ => format!("exited with status {}", self.code),
        }
    }
}
/// A directory that the simulated generator (an unprivileged user) can run in.
pub fn scratch_root() -> PathBuf {
    unsafe { umask(0) };
    for base in ["/dev/shm", "/tmp"] {
        let d = PathBuf::from(format!("{base}/updsim.{}", std::process::id()));
        if std::fs::create_dir(&d).is_err() {
            continue;
        }
        let t = d.join("test");
        let ok = std::fs::write(&t, "#!/bin/sh\nexit 7\n").is_ok()
            && std::fs::set_permissions(&t, std::os::unix::fs::PermissionsExt::from_mode(0o755)).is_ok()
            && Command::new(&t).status().map(|s| s.code() == Some(7)).unwrap_or(false);
        let _ = std::fs::remove_file(&t);
        if ok {
            return d;
        }
        let _ = std::fs::remove_dir(&d);
    }
    eprintln!("no scratch directory can be made in /dev/shm or /tmp");
    std::process::exit(2);
}
impl Slot {
    pub fn new(root: &Path, k: usize, build: &str) -> Slot {
        let bin = root.join("update.bin");
        if !bin.exists() {
            std::fs::copy(format!("{build}/update.bin"), &bin).expect("the generator's binary");
            std::fs::set_permissions(&bin, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
        }
        let dir = root.join(format!("w{k}"));
        std::fs::create_dir_all(&dir).unwrap();
        unsafe {
            let fd = memfd_create(c"updsim".as_ptr(), 1);
            assert!(fd >= 0 && ftruncate(fd, std::mem::size_of::<Shm>() as i64) == 0);
            let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), 3, 1, fd, 0);
            assert!(p as isize != -1);
            Slot { shm: &mut *(p as *mut Shm), fd, dir, bin }
        }
    }
    fn clear(d: &Path) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                Self::clear(&p);
                let _ = std::fs::remove_dir(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
    /// Makes the scratch directory hold exactly these files.
    pub fn put(&self, f: &Files) {
        Self::clear(&self.dir);
        let _ = std::fs::create_dir_all(self.dir.join("src/targets"));
        for (n, b) in f {
            std::fs::write(self.dir.join(n), b).expect("scratch file");
        }
    }
    pub fn get(&self) -> Files {
        fn walk(d: &Path, pre: &str, m: &mut Files) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let n = format!("{pre}{}", e.file_name().to_string_lossy());
                match e.file_type() {
                    Ok(t) if t.is_dir() => {
                        if !["src", "src/targets"].contains(&n.as_str()) {
                            m.insert(format!("{n}/"), vec![]);
                        }
                        walk(&e.path(), &format!("{n}/"), m);
                    }
                    _ => {
                        m.insert(n, std::fs::read(e.path()).unwrap_or_default());
                    }
                }
            }
        }
        let mut m = Files::new();
        walk(&self.dir, "", &mut m);
        m
    }
    pub fn run(&mut self, w: &World, p: &RunPlan, log: bool) -> Outcome {
        let s = &mut *self.shm;
        s.reset();
        fill(s, w, p);
        s.log = log as u32;
        let fd = self.fd;
        let root = unsafe { geteuid() } == 0;
        let mut c = Command::new(&self.bin);
        c.env_clear().env("PATH", "/nonexistent").env("SIMU_FD", "500").env("RUST_BACKTRACE", "0");
        if w.rustc != "rustc" {
            c.env("RUSTC", &w.rustc);
        }
        c.current_dir(&self.dir).stdin(Stdio::null()).stdout(Stdio::null());
        if std::env::var_os("SIM_STDERR").is_some() {
            c.stderr(Stdio::inherit());
        } else {
            c.stderr(Stdio::null());
        }
        unsafe {
            c.pre_exec(move || {
                dup2(fd, 500);
                alarm(60);
                prctl(1, 9, 0, 0, 0);
                if root && (setgroups(0, std::ptr::null()) != 0 || setgid(65534) != 0 || setuid(65534) != 0) {
                    return Err(std::io::Error::last_os_error());
                }
                umask(0);
                Ok(())
            });
        }
        let st = match c.status() {
            Ok(st) => st,
            Err(e) => {
                eprintln!("cannot run the generator: {e}");
                std::process::exit(2);
            }
        };
        let s = &*self.shm;
        let n = (s.sh.nsched as usize).min(MAXSCHED);
        let mut o = Outcome {
            code: st.code().unwrap_or_else(|| 256 + st.signal().unwrap_or(0)),
            verdict: s.sh.verdict,
            harness: None,
            files: self.get(),
            queries: s.q[..s.nq as usize].to_vec(),
            snaps: s.snap[..s.nsnap as usize]
                .iter()
                .map(|x| {
                    let f = |o: u32, l: u32| s.arena[o as usize..(o + l) as usize].to_vec();
                    (x.step, f(x.readme_off, x.readme_len), f(x.table_off, x.table_len))
                })
                .collect(),
            fired: s.fault[..s.nfault as usize].iter().map(|f| f.fired).collect(),
            readme_ok: s.readme_ok != 0,
            outside: if s.outside > 0 { Some(String::from_utf8_lossy(&s.outside_path).trim_end_matches('\0').to_string()) } else { None },
            disk_full: s.benign[B_DISK_FULL] > 0,
            hash: 0,
            sched: s.sh.sched[..n].iter().map(|d| (d.step, d.tid)).collect(),
            log: String::from_utf8_lossy(&s.logbuf[..s.log_len as usize]).into_owned(),
        };
        if s.started == 0 {
            o.harness = Some(format!("the generator did not start ({})", o.ended()));
        } else if s.unsupported != 0 || s.sh.verdict == 3 {
            o.harness = Some(format!("the generator uses something that is not simulated ({})", s.unsupported));
        } else if st.signal() == Some(14) {
            o.harness = Some("the generator was stuck outside the simulation".into());
        } else if s.snap_lost > 0 {
            o.harness = Some("too many snapshots".into());
        }
        let mut h = h2(h2(s.sh.trace_hash, s.ops_hash), h2(s.sh.steps, o.code as u64));
        for (n, b) in &o.files {
            h = h2(h2(h, hs(n)), hs(&String::from_utf8_lossy(b)));
        }
        o.hash = h;
        o
    }
}
/// Puts a run's plan into the shared memory.
fn fill(s: &mut Shm, w: &World, p: &RunPlan) {
    s.cfg = SimCfg {
        seed: p.seed,
        hot: p.hot,
        env_seed: 0,
        gap: p.gap,
        explicit_sched: p.sched.is_some() as u32,
        nsched: 0,
        sched: std::ptr::null(),
        max_steps: MAX_STEPS,
        fair: 0,
        spurious_ppm: p.spurious,
        clock_jump_ppm: p.jump,
        real_off_ns: p.real_off,
        rand_seed: p.rand_seed,
        ncpus: p.ncpus,
        fake_pid: p.pid,
    };
    if let Some(v) = &p.sched {
        s.cfg.nsched = v.len().min(MAXSCHED) as u32;
        for (i, d) in v.iter().take(MAXSCHED).enumerate() {
            s.sched[i] = Dec { step: d.0, tid: d.1, forced: 0 };
        }
    }
    s.kill_step = p.kill_step;
    s.kill_op = p.kill_op;
    s.kill_rel = p.kill_rel as u32;
    s.kill_partial = p.kill_partial as u32;
    s.orphans = p.orphans as u32;
    s.eintr_ppm = p.eintr;
    s.short_ppm = p.short;
    s.disk_cap = p.disk_cap;
    s.pipe_cap = p.pipe_cap;
    s.nfault = p.faults.len().min(MAXFAULT) as u32;
    for (i, f) in p.faults.iter().take(MAXFAULT).enumerate() {
        s.fault[i] = CFault { cls: f.cls, nth: f.nth, err: f.err, sticky: f.sticky as u32, fired: 0, pad: 0 };
    }
    let mut at = 0usize;
    let mut put = |s: &mut Shm, b: &[u8]| -> (u32, u32) {
        assert!(at + b.len() <= BLOB, "blob");
        s.blob[at..at + b.len()].copy_from_slice(b);
        at += b.len();
        ((at - b.len()) as u32, b.len() as u32)
    };
    let (o, l) = put(s, w.rustc.as_bytes());
    s.rustc_off = o;
    s.rustc_len = l;
    let mut noise = vec![];
    while noise.len() < 150_000 {
        noise.extend_from_slice(format!("warning: something {} happened\n", noise.len()).as_bytes());
    }
    let (noise_off, noise_len) = put(s, &noise);
    let (bad_off, bad_len) = put(s, b"error: this target is only supported by nightly\n");
    let mut n = 0usize;
    let mut list = String::new();
    for t in &w.targets {
        list.push_str(&t.triple);
        list.push('\n');
    }
    let mut queries: Vec<(u32, String, Vec<u8>, bool)> = vec![(Q_VERSION, String::new(), w.version_line.clone().into_bytes(), false), (Q_LIST, String::new(), list.into_bytes(), false)];
    for t in &w.targets {
        let mut b = t.lines.join("\n");
        b.push('\n');
        queries.push((Q_CFG, t.triple.clone(), b.into_bytes(), t.nightly_only));
    }
    queries.push((Q_FMT, String::new(), vec![], false));
    let total = queries.len();
    for (i, (kind, key, out, nightly_only)) in queries.iter().enumerate() {
        let (key_off, key_len) = put(s, key.as_bytes());
        let (out_off, out_len) = put(s, out);
        let k = h2(p.rand_seed, i as u64);
        let delay = match p.delay {
            0 => 0,
            1 => 1 + k % 50_000,
            2 => 1 + k % 2_000_000,
            3 => 1 + (total - i) as u64 * 100_000,
            // one child, or every third, takes seconds to minutes; the formatter is one of them now and then
            m => {
                let slow = if m == 4 { p.rand_seed as usize % (total + 2) } else { usize::MAX };
                let is = if m == 4 { i == slow.min(total - 1) } else { k % 3 == 0 };
                if is { 1_000_000_000 * (1 + (k >> 8) % if m == 4 { 200 } else { 20 }) } else { 1 + k % 50_000 }
            }
        };
        let noise_n = match p.noise {
            0 => 0,
            1 => (k >> 20) as u32 % 100,
            2 => [0, 0, 60, 3000, 5000][(k >> 20) as usize % 5],
            3 => [0, 4096, 9000, 20_000, 70_000][(k >> 20) as usize % 5],
            _ => [0, 8192, 70_000, 140_000][(k >> 20) as usize % 4],
        }
        .min(noise_len);
        // a chunk size that keeps the number of events in bounds
        let most = out_len.max(noise_n);
        let chunk = if p.chunk == 0 { 0 } else { p.chunk.max(most / 300) };
        // (in total, over the pieces it writes)
        let delay = if p.delay > 3 && delay > 1_000_000 { delay / (if chunk == 0 { 4 } else { (out_len + noise_n) / chunk + 4 }) as u64 } else { delay };
        for nightly in [0u32, 1] {
            if nightly == 1 && *kind != Q_CFG {
                continue;
            }
            let base = Resp {
                kind: *kind,
                nightly,
                occ: 0,
                spawn_err: 0,
                key_off,
                key_len,
                out_off,
                out_len,
                err_off: noise_off,
                err_len: noise_n,
                status: 0,
                fmt_mode: 0,
                chunk,
                early_close: p.early_close as u32,
                delay_ns: delay,
            };
            for f in p.children.iter().filter(|f| f.kind == *kind && (*kind != Q_CFG || f.target == *key)) {
                let mut x = base;
                x.occ = f.occ;
                match f.mode {
                    M_SPAWN => x.spawn_err = f.val,
                    M_EXIT => x.status = f.val << 8,
                    M_SIGNAL => x.status = f.val,
                    M_GARBAGE => {
                        let mut b = out.clone();
                        let i = b.len() / 2;
                        b.insert(i, 0xff);
                        let (o, l) = put(s, &b);
                        x.out_off = o;
                        x.out_len = l;
                    }
                    M_DAMAGED => {
                        let (o, l) = put(s, damage(&String::from_utf8_lossy(out), f.val).as_bytes());
                        x.out_off = o;
                        x.out_len = l;
                    }
                    _ => x.out_len = 0,
                }
                if f.mode == M_EXIT || f.mode == M_SIGNAL {
                    x.out_len = (x.out_len as u64 * f.part.min(256) as u64 / 256) as u32;
                    if *kind == Q_FMT {
                        x.fmt_mode = p.fmt_mode;
                    }
                }
                s.resp[n] = x;
                n += 1;
            }
            let mut x = base;
            if nightly == 1 && key != WATCHOS {
                // another compiler's answer
                let b = String::from_utf8_lossy(out).replace("target_os=\"", "target_os=\"nightly-").replace("target_abi=\"\"", "target_abi=\"new\"");
                let (o, l) = put(s, b.as_bytes());
                x.out_off = o;
                x.out_len = l;
            }
            if *nightly_only && nightly == 0 {
                x.out_len = 0;
                x.err_off = bad_off;
                x.err_len = bad_len;
                x.status = 1 << 8;
            }
            s.resp[n] = x;
            n += 1;
        }
    }
    s.nresp = n as u32;
}
/// The files that the first run finds.
pub fn initial(c: &Case) -> Files {
    let w = &c.worlds[0];
    let mut f = Files::new();
    let old = format!(
        "/*\n * AUTO-GENERATED\n */\n\nuse super::*;\n\npub(crate) const RUSTC_VERSION: &str = \"{}\";\n\npub const ALL_BUILTINS: &[TargetInfo] = &[];\n",
        w.old_version
    );
    match c.table0 {
        0 => drop(f.insert(TABLE.into(), old.into_bytes())),
        1 => drop(f.insert(TABLE.into(), old.as_bytes()[..old.len() / 2].to_vec())),
        2 => drop(f.insert(TABLE.into(), old.replace(&w.old_version, w.version()).into_bytes())),
        3 => drop(f.insert(TABLE.into(), vec![])),
        4 => drop(f.insert(TABLE.into(), old.repeat(200).into_bytes())),
        _ => {}
    }
    let mut rm = w.old_readme();
    match c.readme_fault {
        2 => rm = String::from_utf8_lossy(&rm).replace("]:", "] :").into_bytes(),
        3 => {
            let i = rm.len() / 2;
            rm.insert(i, 0xff);
            rm.insert(0, 0xfe);
        }
        4 => rm = String::from_utf8_lossy(&rm).replace('[', "(").into_bytes(),
        5 => rm = vec![],
        _ => {}
    }
    if c.readme_fault != 1 {
        f.insert(README.into(), rm);
    }
    f.insert("Cargo.toml".into(), format!("[package]\nname = \"cfg-expr\"\n# {}\n", w.old_version).into_bytes());
    f.insert("CHANGELOG.md".into(), format!("# {}\n[x]: y\n", w.old_version).into_bytes());
    f.insert("src/targets.rs".into(), b"mod builtins;\n".to_vec());
    f.insert("src/lib.rs".into(), format!("//! {}\n", w.old_version).into_bytes());
    f
}
