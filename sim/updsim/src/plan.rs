//! A case: a compiler world, the files found, and one or more runs of the generator with their faults.
use crate::shm::*;
use crate::util::*;
use crate::world::*;

/// A failure of one class of operations: the nth of them (and, if sticky, all later ones).
#[derive(Clone, Debug, PartialEq)]
pub struct ClassFault {
    pub cls: u32,
    pub nth: u32,
    pub err: i32,
    pub sticky: bool,
}
pub const M_SPAWN: u32 = 0; // cannot be started (errno)
pub const M_EXIT: u32 = 1; // writes part of its output and exits with a status
pub const M_SIGNAL: u32 = 2; // writes part of its output and is killed
pub const M_GARBAGE: u32 = 3; // output is not UTF-8
pub const M_EMPTY: u32 = 4; // no output, but success
pub const M_DAMAGED: u32 = 5; // a cfg that makes no sense, see `damage`
pub const MODES: [&str; 6] = ["cannot_start", "exits", "killed", "not_utf8", "silent", "damaged"];
/// Spoils the cfg of a target: `how` is 0 to 6.
pub fn damage(out: &str, how: i32) -> String {
    let lacks = |k: &str| out.lines().filter(|l| !l.starts_with(k)).map(|l| format!("{l}\n")).collect::<String>();
    match how {
        0 => format!("{out}target_flavour=\"sweet\"\n"),
        1 => lacks("target_arch="),
        2 => lacks("target_endian="),
        3 => lacks("target_pointer_width="),
        4 => lacks("panic="),
        5 => format!("{out}target_has_atomic=\"some\"\n"),
        _ => format!("{out}target_os="),
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct ChildFault {
    pub kind: u32,
    pub target: String, // Q_CFG only
    pub occ: u32,       // only this occurrence (0: all)
    pub mode: u32,
    pub val: i32,
    pub part: u32, // of 256: how much output comes before the failure
}
pub const QNAMES: [&str; 4] = ["version", "target-list", "cfg", "rustfmt"];
#[derive(Clone, Debug, PartialEq)]
pub struct RunPlan {
    pub world: usize, // which compiler (0 or 1)
    pub seed: u64,    // schedule and environment
    pub gap: f64,
    pub hot: u32,
    pub eintr: u32,
    pub short: u32,
    pub spurious: u64,
    pub jump: u64,
    pub real_off: i64,
    pub rand_seed: u64,
    pub ncpus: u32,
    pub pid: u32,
    pub delay: u32, // 0 none, 1 short, 2 mixed, 3 the first are the slowest
    pub chunk: u32,
    pub noise: u32, // how much goes to standard error
    pub early_close: bool,
    pub pipe_cap: u32,
    pub disk_cap: u64,
    pub kill_op: u64,
    pub kill_step: u64,
    pub kill_rel: bool,
    pub kill_partial: bool,
    pub orphans: bool,
    pub faults: Vec<ClassFault>,
    pub children: Vec<ChildFault>,
    pub fmt_mode: u32,
    pub sched: Option<Vec<(u64, u32)>>,
}
impl RunPlan {
    pub fn plain() -> RunPlan {
        RunPlan {
            world: 0,
            seed: 1,
            gap: 0.0,
            hot: 0,
            eintr: 0,
            short: 0,
            spurious: 0,
            jump: 0,
            real_off: 1_700_000_000_000_000_000,
            rand_seed: 1,
            ncpus: 4,
            pid: 4242,
            delay: 0,
            chunk: 0,
            noise: 0,
            early_close: false,
            pipe_cap: 0,
            disk_cap: u64::MAX,
            kill_op: 0,
            kill_step: 0,
            kill_rel: false,
            kill_partial: false,
            orphans: false,
            faults: vec![],
            children: vec![],
            fmt_mode: 0,
            sched: None,
        }
    }
    pub fn kills(&self) -> bool {
        self.kill_op > 0 || self.kill_step > 0
    }
}
pub const README_FAULTS: [&str; 6] = ["none", "missing", "no_marker", "not_utf8", "no_opening_bracket", "empty"];
pub const TABLES: [&str; 6] = ["old", "truncated", "newer_but_incomplete", "empty", "longer", "missing"];
#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub worlds: Vec<World>,
    pub table0: u32,
    pub readme_fault: u32,
    pub runs: Vec<RunPlan>,
}

fn benign(r: &mut Rng) -> RunPlan {
    let mut p = RunPlan::plain();
    p.seed = r.next() >> 1;
    p.gap = *r.pick(&[0.0, 3.0, 20.0, 20.0, 100.0, 100.0, 1000.0]);
    p.hot = *r.pick(&[0, 0, 16, 64, 200]);
    p.eintr = *r.pick(&[0, 0, 20_000, 100_000, 400_000]);
    p.short = *r.pick(&[0, 0, 50_000, 300_000, 900_000]);
    p.spurious = *r.pick(&[0, 0, 100_000]);
    p.jump = *r.pick(&[0, 0, 100_000]);
    p.real_off = *r.pick(&[0, 1_700_000_000_000_000_000, 4_000_000_000_000_000_000, -3]);
    p.rand_seed = r.next() >> 1;
    p.ncpus = *r.pick(&[1, 2, 4, 64]);
    p.pid = r.range(2, 4_000_000) as u32;
    p.delay = r.below(6) as u32;
    p.chunk = *r.pick(&[0, 0, 1, 7, 64, 512]);
    p.noise = *r.pick(&[0, 0, 1, 2, 3]);
    p.early_close = r.chance(1, 4);
    p.pipe_cap = *r.pick(&[0, 4096, 4096, 8192]);
    p
}
fn nth(r: &mut Rng, per: usize, n: usize) -> u32 {
    if r.chance(1, 4) {
        return r.range(1, 3) as u32;
    }
    r.range(1, per * (n + 2) + 1) as u32
}
/// A failure of the operations that gather the compiler's answers and read the README.
fn gather_fault(r: &mut Rng, n: usize) -> ClassFault {
    let (cls, per, errs): (u32, usize, &[i32]) = *r.pick(&[
        (K_OPEN_R, 0, &[13, 24, 5][..]),
        (K_READ, 1, &[5, 116][..]),
        (K_PIPE, 2, &[24, 23][..]),
        (K_SPAWN, 1, &[2, 11, 12, 13][..]),
        (K_SPAWN, 1, &[11, 7][..]),
        (K_POLL, 4, &[12, 22][..]),
        (K_PREAD, 5, &[5, 22][..]),
        (K_WAIT, 1, &[10][..]),
        (K_FCNTL, 2, &[25, 9][..]),
        (K_THREAD, 0, &[11][..]),
    ]);
    let nth = match cls {
        K_READ => r.range(1, 4) as u32,
        K_THREAD => r.range(1, 2) as u32,
        _ => nth(r, per, n),
    };
    ClassFault { cls, nth, err: *r.pick(errs), sticky: r.chance(1, 3) }
}
fn final_fault(r: &mut Rng) -> ClassFault {
    let (cls, top, errs): (u32, usize, &[i32]) = *r.pick(&[
        (K_OPEN_W, 3, &[13, 28, 24, 30][..]),
        (K_WRITE, 4, &[5, 28, 122, 27][..]),
        (K_WRITE, 2, &[28, 5][..]),
        (K_RENAME, 1, &[5, 28, 13][..]),
        (K_SYNC, 2, &[5][..]),
        (K_TRUNC, 1, &[5][..]),
        (K_UNLINK, 1, &[5][..]),
    ]);
    ClassFault { cls, nth: r.range(1, top) as u32, err: *r.pick(errs), sticky: r.chance(1, 3) }
}
fn child_fault(r: &mut Rng, w: &World) -> ChildFault {
    let kind = if w.targets.is_empty() { r.below(2) as u32 } else { *r.pick(&[Q_VERSION, Q_LIST, Q_CFG, Q_CFG, Q_CFG, Q_CFG]) };
    let mode = *r.pick(&[M_SPAWN, M_EXIT, M_EXIT, M_SIGNAL, M_SIGNAL, M_GARBAGE, M_EMPTY, M_DAMAGED]);
    let mode = if mode == M_DAMAGED && kind != Q_CFG { M_EXIT } else { mode };
    let mode = if mode == M_EMPTY && kind == Q_LIST { M_SIGNAL } else { mode };
    let target = if kind == Q_CFG { if r.chance(1, 3) { w.targets[w.targets.len() - 1].triple.clone() } else { r.pick(&w.targets).triple.clone() } } else { String::new() };
    let val = match mode {
        M_SPAWN => *r.pick(&[2, 13, 11, 12, 8]),
        M_EXIT => *r.pick(&[1, 1, 2, 101, 127, 255]),
        M_SIGNAL => *r.pick(&[9, 11, 6, 15, 13]),
        M_DAMAGED => r.below(7) as i32,
        _ => 0,
    };
    let part = if mode == M_EXIT || mode == M_SIGNAL { *r.pick(&[0, 64, 128, 256, 256, 256]) } else { 256 };
    ChildFault { kind, target, occ: 0, mode, val, part }
}
fn fmt_fault(r: &mut Rng, p: &mut RunPlan) {
    match r.below(5) {
        0 => p.children.push(ChildFault { kind: Q_FMT, target: String::new(), occ: 0, mode: M_SPAWN, val: *r.pick(&[2, 13, 11]), part: 256 }),
        k => {
            p.fmt_mode = [1, 2, 3, 3][k - 1];
            let sig = r.chance(1, 2);
            p.children.push(ChildFault { kind: Q_FMT, target: String::new(), occ: 0, mode: if sig { M_SIGNAL } else { M_EXIT }, val: if sig { *r.pick(&[9, 11, 15]) } else { *r.pick(&[1, 2, 101]) }, part: 256 });
        }
    }
}
fn hard(r: &mut Rng, w: &World, p: &mut RunPlan) {
    match r.below(10) {
        0 | 1 => p.faults.push(gather_fault(r, w.targets.len())),
        2 | 3 => p.children.push(child_fault(r, w)),
        4 | 5 | 6 => p.faults.push(final_fault(r)),
        7 => p.disk_cap = *r.pick(&[0, 1, 100, 1000, 3000, 5000, 8000, 12000, 20000]),
        _ => fmt_fault(r, p),
    }
}
fn kill(r: &mut Rng, w: &World, p: &mut RunPlan) {
    p.orphans = r.chance(1, 2);
    let n = w.targets.len() as u64;
    match r.below(8) {
        // while gathering
        0 => p.kill_op = 1 + r.next() % (25 * (n + 3)),
        1 => p.kill_step = 1 + r.next() % (3000 * (n + 3)),
        // while writing
        2 => {
            p.kill_rel = true;
            p.kill_step = 1 + r.next() % 400;
        }
        3 | 4 => {
            p.kill_rel = true;
            p.kill_partial = true;
            p.kill_op = 1 + r.next() % 10;
        }
        _ => {
            p.kill_rel = true;
            p.kill_op = 1 + r.next() % if p.short > 0 { 40 } else { 14 };
        }
    }
}
pub fn generate(prop: &str, seed: u64, n: u64, thorough: bool) -> Case {
    let mut r = Rng::new(h2(h2(hs(prop), seed), n));
    let r = &mut r;
    let big = thorough || r.chance(1, 6);
    let w = gen_world(r, big);
    let mut c = Case { worlds: vec![w], table0: *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5]), readme_fault: 0, runs: vec![] };
    let w = c.worlds[0].clone();
    match prop {
        "C10" => {
            let mut p = benign(r);
            match r.below(8) {
                0 | 1 => c.readme_fault = r.range(1, 5) as u32,
                2 | 3 => p.faults.push(gather_fault(r, w.targets.len())),
                4 => {
                    p.faults.push(gather_fault(r, w.targets.len()));
                    c.readme_fault = r.below(6) as u32;
                }
                5 => {
                    p.children.push(child_fault(r, &w));
                    c.readme_fault = r.below(6) as u32;
                }
                _ => {
                    p.children.push(child_fault(r, &w));
                    if r.chance(1, 4) {
                        p.children.push(child_fault(r, &w));
                    }
                }
            }
            c.runs.push(p);
        }
        "C11" => {
            let mut p = benign(r);
            if r.chance(3, 5) {
                hard(r, &w, &mut p);
                if r.chance(1, 6) {
                    hard(r, &w, &mut p);
                }
            }
            c.runs.push(p);
        }
        "C12" => {
            let mut p = benign(r);
            match r.below(6) {
                0 => {}
                1 => hard(r, &w, &mut p),
                2 => p.faults.push(final_fault(r)),
                3 => fmt_fault(r, &mut p),
                4 => kill(r, &w, &mut p),
                _ => {
                    kill(r, &w, &mut p);
                    hard(r, &w, &mut p);
                }
            }
            // what an earlier, disturbed run left is where this one starts
            for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2]) {
                if c.runs.is_empty() && r.chance(1, 3) {
                    let mut w2 = gen_world(r, false);
                    w2.rustc = w.rustc.clone();
                    w2.readme = w.readme.clone();
                    w2.old_version = w.old_version.clone();
                    c.worlds.push(w2);
                }
                let mut p = benign(r);
                p.world = r.below(c.worlds.len());
                let w = c.worlds[p.world].clone();
                if r.chance(1, 4) {
                    hard(r, &w, &mut p);
                } else {
                    kill(r, &w, &mut p);
                }
                c.runs.push(p);
            }
            c.runs.push(p);
        }
        "C13" => {
            if r.chance(1, 3) {
                // a newer compiler in between
                let mut w2 = gen_world(r, false);
                w2.rustc = w.rustc.clone();
                w2.readme = w.readme.clone();
                w2.old_version = w.old_version.clone();
                c.worlds.push(w2);
            }
            let k = *r.pick(&[1, 1, 1, 2, 2, 3]);
            for _ in 0..k {
                let mut p = benign(r);
                p.world = r.below(c.worlds.len());
                let w = c.worlds[p.world].clone();
                match r.below(4) {
                    0 => hard(r, &w, &mut p),
                    1 => {
                        let f = final_fault(r);
                        p.faults.push(f);
                    }
                    _ => kill(r, &w, &mut p),
                }
                c.runs.push(p);
            }
            let mut p = benign(r);
            p.world = c.worlds.len() - 1;
            if r.chance(1, 2) {
                p = RunPlan { world: p.world, ..RunPlan::plain() };
            }
            c.runs.push(p);
        }
        "C14" => {
            for _ in 0..3 {
                c.runs.push(benign(r));
            }
        }
        _ => {
            let mut p = benign(r);
            p.noise = *r.pick(&[0, 1, 2, 3, 3, 4]);
            p.pipe_cap = *r.pick(&[0, 4096, 4096, 4096, 8192]);
            if r.chance(1, 4) {
                if r.chance(1, 2) {
                    p.children.push(child_fault(r, &w));
                } else {
                    hard(r, &w, &mut p);
                }
            }
            c.runs.push(p);
        }
    }
    if c.worlds.iter().any(|w| w.targets.len() > 50) {
        for p in &mut c.runs {
            p.gap = p.gap.max(if p.gap > 0.0 { 100.0 } else { 0.0 });
            p.chunk = *r.pick(&[0, 0, 512]);
            p.noise = p.noise.min(2);
            p.short = p.short.min(50_000);
            p.eintr = p.eintr.min(20_000);
        }
    } else if prop == "C15" || r.chance(1, 6) {
        // some answers are longer than a pipe holds
        for w in &mut c.worlds {
            for t in &mut w.targets {
                if r.chance(1, 3) {
                    let at = r.below(t.lines.len() + 1);
                    for k in 0..*r.pick(&[150, 300, 600, 3000]) {
                        t.lines.insert(at, format!("target_feature=\"feature-{k}\""));
                    }
                }
            }
        }
    }
    c
}

// ------------------------------------------------------------------ JSON
fn run_json(p: &RunPlan) -> J {
    let mut j = J::obj()
        .with("world", p.world)
        .with("seed", p.seed)
        .with("gap", p.gap)
        .with("hot", p.hot)
        .with("eintr_ppm", p.eintr)
        .with("short_ppm", p.short)
        .with("spurious_ppm", p.spurious)
        .with("clock_jump_ppm", p.jump)
        .with("clock_offset", p.real_off)
        .with("rand_seed", p.rand_seed)
        .with("ncpus", p.ncpus)
        .with("pid", p.pid)
        .with("delay", p.delay)
        .with("chunk", p.chunk)
        .with("noise", p.noise)
        .with("early_close", p.early_close)
        .with("pipe_cap", p.pipe_cap)
        .with("kill_op", p.kill_op)
        .with("kill_step", p.kill_step)
        .with("kill_rel", p.kill_rel)
        .with("kill_partial", p.kill_partial)
        .with("orphans", p.orphans)
        .with("fmt_mode", p.fmt_mode)
        .with("faults", J::Arr(p.faults.iter().map(|f| J::obj().with("class", KNAMES[f.cls as usize]).with("nth", f.nth).with("errno", f.err).with("sticky", f.sticky)).collect()))
        .with(
            "children",
            J::Arr(
                p.children
                    .iter()
                    .map(|f| J::obj().with("query", QNAMES[f.kind as usize]).with("target", f.target.as_str()).with("occ", f.occ).with("mode", MODES[f.mode as usize]).with("value", f.val).with("part", f.part))
                    .collect(),
            ),
        );
    if p.disk_cap != u64::MAX {
        j.set("disk_cap", p.disk_cap);
    }
    if let Some(s) = &p.sched {
        j.set("schedule", J::Arr(s.iter().map(|d| J::Arr(vec![d.0.into(), d.1.into()])).collect()));
    }
    j
}
fn idx(v: &[&str], s: &str) -> u32 {
    v.iter().position(|x| *x == s).unwrap_or(0) as u32
}
fn run_from(j: &J) -> RunPlan {
    RunPlan {
        world: j.get("world").u() as usize,
        seed: j.get("seed").u(),
        gap: j.get("gap").f(),
        hot: j.get("hot").u() as u32,
        eintr: j.get("eintr_ppm").u() as u32,
        short: j.get("short_ppm").u() as u32,
        spurious: j.get("spurious_ppm").u(),
        jump: j.get("clock_jump_ppm").u(),
        real_off: j.get("clock_offset").i(),
        rand_seed: j.get("rand_seed").u(),
        ncpus: j.get("ncpus").u() as u32,
        pid: j.get("pid").u() as u32,
        delay: j.get("delay").u() as u32,
        chunk: j.get("chunk").u() as u32,
        noise: j.get("noise").u() as u32,
        early_close: j.get("early_close").b(),
        pipe_cap: j.get("pipe_cap").u() as u32,
        disk_cap: if *j.get("disk_cap") == J::Null { u64::MAX } else { j.get("disk_cap").u() },
        kill_op: j.get("kill_op").u(),
        kill_step: j.get("kill_step").u(),
        kill_rel: j.get("kill_rel").b(),
        kill_partial: j.get("kill_partial").b(),
        orphans: j.get("orphans").b(),
        fmt_mode: j.get("fmt_mode").u() as u32,
        faults: j
            .get("faults")
            .a()
            .iter()
            .map(|f| ClassFault { cls: idx(&KNAMES, f.get("class").s()), nth: f.get("nth").u() as u32, err: f.get("errno").i() as i32, sticky: f.get("sticky").b() })
            .collect(),
        children: j
            .get("children")
            .a()
            .iter()
            .map(|f| ChildFault {
                kind: idx(&QNAMES, f.get("query").s()),
                target: f.get("target").s().into(),
                occ: f.get("occ").u() as u32,
                mode: idx(&MODES, f.get("mode").s()),
                val: f.get("value").i() as i32,
                part: f.get("part").u() as u32,
            })
            .collect(),
        sched: match j.get("schedule") {
            J::Arr(v) => Some(v.iter().map(|d| (d.a()[0].u(), d.a()[1].u() as u32)).collect()),
            _ => None,
        },
    }
}
impl Case {
    pub fn json(&self) -> J {
        J::obj()
            .with("worlds", J::Arr(self.worlds.iter().map(|w| w.json()).collect()))
            .with("table_before", TABLES[self.table0 as usize])
            .with("readme_fault", README_FAULTS[self.readme_fault as usize])
            .with("runs", J::Arr(self.runs.iter().map(run_json).collect()))
    }
    pub fn from_json(j: &J) -> Case {
        Case {
            worlds: j.get("worlds").a().iter().map(World::from_json).collect(),
            table0: idx(&TABLES, j.get("table_before").s()),
            readme_fault: idx(&README_FAULTS, j.get("readme_fault").s()),
            runs: j.get("runs").a().iter().map(run_from).collect(),
        }
    }
}
