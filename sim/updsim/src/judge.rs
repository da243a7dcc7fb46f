//! Executes a case and judges what was observed.
use crate::plan::*;
use crate::run::*;
use crate::shm::*;
use crate::util::*;
use crate::world::*;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub struct Verdict {
    pub viol: Option<Viol>,
    pub harness: Option<String>,
    pub hash: u64,
    pub nontrivial: bool,
    pub scheds: Vec<Vec<(u64, u32)>>,
    pub log: String,
}
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub sim_ns: u64,
    pub preempts: u64,
    pub lib_preempts: u64,
    pub forced: u64,
    pub spurious: u64,
    pub clock_jumps: u64,
    pub nedges: u64,
    pub ok: u64,
    pub failed: u64,
    pub killed: u64,
    pub killed_writing: u64,
    pub snaps: u64,
    pub queries: u64,
    pub left: u64,
    pub readme_faults: u64,
    pub benign: [u64; BN],
    pub fired: [u64; KN],
    pub ops: [u64; KN],
    pub pairs: Vec<u8>,
    pub edges: Vec<u8>,
}
impl Default for Stats {
    fn default() -> Stats {
        Stats {
            runs: 0,
            steps: 0,
            max_steps: 0,
            sim_ns: 0,
            preempts: 0,
            lib_preempts: 0,
            forced: 0,
            spurious: 0,
            clock_jumps: 0,
            nedges: 0,
            ok: 0,
            failed: 0,
            killed: 0,
            killed_writing: 0,
            snaps: 0,
            queries: 0,
            left: 0,
            readme_faults: 0,
            benign: [0; BN],
            fired: [0; KN],
            ops: [0; KN],
            pairs: vec![0; 8192],
            edges: vec![0; 8192],
        }
    }
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.max_steps = self.max_steps.max(o.max_steps);
        self.sim_ns += o.sim_ns;
        self.preempts += o.preempts;
        self.lib_preempts += o.lib_preempts;
        self.forced += o.forced;
        self.spurious += o.spurious;
        self.clock_jumps += o.clock_jumps;
        self.nedges = self.nedges.max(o.nedges);
        self.ok += o.ok;
        self.failed += o.failed;
        self.killed += o.killed;
        self.killed_writing += o.killed_writing;
        self.snaps += o.snaps;
        self.queries += o.queries;
        self.left += o.left;
        self.readme_faults += o.readme_faults;
        for k in 0..BN {
            self.benign[k] += o.benign[k];
        }
        for k in 0..KN {
            self.fired[k] += o.fired[k];
            self.ops[k] += o.ops[k];
        }
        for k in 0..8192 {
            self.pairs[k] |= o.pairs[k];
            self.edges[k] |= o.edges[k];
        }
    }
    fn take(&mut self, s: &Shm, p: &RunPlan, o: &Outcome) {
        self.runs += 1;
        self.steps += s.sh.steps;
        self.max_steps = self.max_steps.max(s.sh.steps);
        self.sim_ns += s.sh.now_ns;
        self.preempts += s.sh.preempts;
        self.lib_preempts += s.sh.lib_preempts;
        self.forced += s.sh.forced;
        self.spurious += s.sh.spurious;
        self.clock_jumps += s.sh.clock_jumps;
        self.nedges = s.sh.nedges as u64;
        if o.killed() {
            self.killed += 1;
            self.killed_writing += (s.cnt[K_OPEN_W as usize] > 0) as u64;
        } else if o.code == 0 {
            self.ok += 1;
        } else {
            self.failed += 1;
        }
        self.snaps += s.nsnap as u64 + 1;
        self.queries += s.nq as u64;
        self.left += o.queries.iter().filter(|q| q.left != 0).count() as u64;
        for k in 0..BN {
            self.benign[k] += s.benign[k];
        }
        for k in 0..KN {
            self.ops[k] += s.cnt[k];
        }
        for q in &o.queries {
            if let Some(f) = p.children.iter().find(|f| f.kind == q.kind && (q.kind != Q_CFG || f.target == q.name())) {
                self.benign[B_CHILD_GARBAGE] += (f.mode >= M_GARBAGE) as u64;
                self.benign[B_FMT_FAIL] += (q.kind == Q_FMT) as u64;
            }
        }
        for (f, n) in p.faults.iter().zip(&o.fired) {
            self.fired[f.cls as usize] += *n as u64;
        }
        for k in 0..8192 {
            self.pairs[k] |= s.sh.pairs[k];
            self.edges[k] |= s.sh.edges[k];
        }
    }
}
fn show(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    if t.len() > 400 {
        let a: String = t.chars().take(200).collect();
        let mut z: Vec<char> = t.chars().rev().take(150).collect();
        z.reverse();
        format!("{a:?} ... {:?} ({} bytes)", z.into_iter().collect::<String>(), b.len())
    } else {
        format!("{t:?}")
    }
}
/// What differs between two states of the files.
fn diff(a: &Files, b: &Files, skip: &[&str]) -> Option<String> {
    for (n, x) in a {
        if skip.contains(&n.as_str()) {
            continue;
        }
        match b.get(n) {
            None => return Some(format!("{n} is gone")),
            Some(y) if x != y => {
                let i = x.iter().zip(y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
                let w = |v: &[u8]| show(&v[i.saturating_sub(20).min(v.len())..(i + 60).min(v.len())]);
                return Some(format!("{n} differs at byte {i}: {} became {}", w(x), w(y)));
            }
            _ => {}
        }
    }
    b.keys().find(|n| !a.contains_key(*n) && !skip.contains(&n.as_str())).map(|n| format!("{n} is new"))
}
/// Is this an answer the generator can use?
fn usable(q: &Query, p: &RunPlan) -> bool {
    let spoilt = p.children.iter().any(|f| f.kind == q.kind && (q.kind != Q_CFG || f.target == q.name()) && (f.mode == M_GARBAGE || f.mode == M_EMPTY || f.mode == M_DAMAGED));
    q.spawn_err == 0 && q.exited != 0 && q.status == 0 && q.io_err == 0 && !spoilt
}
fn gathered(w: &World, p: &RunPlan, o: &Outcome) -> Result<(), String> {
    let has = |kind: u32, key: &str| o.queries.iter().any(|q| q.kind == kind && (kind != Q_CFG || q.name() == key) && usable(q, p));
    if !has(Q_VERSION, "") {
        return Err("the compiler's version".into());
    }
    if !has(Q_LIST, "") {
        return Err("the list of targets".into());
    }
    if let Some(t) = w.targets.iter().find(|t| !has(Q_CFG, &t.triple)) {
        return Err(format!("the cfg of {}", t.triple));
    }
    if !o.readme_ok {
        return Err("the README".into());
    }
    Ok(())
}
fn unavailable(c: &Case, w: &World, p: &RunPlan, o: &Outcome) -> Option<String> {
    let injected = o.fired.iter().any(|f| *f > 0) || !p.children.is_empty() || c.readme_fault != 0;
    if !injected {
        return None;
    }
    if c.readme_fault != 0 {
        return Some(format!("the version in the README ({})", README_FAULTS[c.readme_fault as usize]));
    }
    gathered(w, p, o).err()
}
fn hard_fault(c: &Case, p: &RunPlan, o: &Outcome) -> bool {
    o.fired.iter().any(|f| *f > 0) || !p.children.is_empty() || c.readme_fault != 0 || o.disk_full || p.kills()
}

pub fn judge(prop: &str, c: &Case, slot: &mut Slot, st: &mut Stats, log: bool) -> Verdict {
    let mut v = Verdict { viol: None, harness: None, hash: 0, nontrivial: false, scheds: vec![], log: String::new() };
    let init = initial(c);
    st.readme_faults += (c.readme_fault != 0) as u64;
    let mut go = |slot: &mut Slot, v: &mut Verdict, p: &RunPlan, what: &str| -> Outcome {
        let o = slot.run(&c.worlds[p.world.min(c.worlds.len() - 1)], p, log);
        st.take(slot.shm, p, &o);
        v.hash = h2(v.hash, o.hash);
        v.scheds.push(o.sched.clone());
        if log {
            v.log.push_str(&format!("{what}:\n{}  it {}\n", o.log, o.ended()));
        }
        if v.harness.is_none() {
            v.harness = o.harness.clone();
        }
        o
    };
    macro_rules! bad {
        ($class:expr, $($a:tt)*) => {{
            if v.viol.is_none() {
                v.viol = Some(Viol { class: $class.into(), msg: format!($($a)*) });
            }
        }};
    }
    let w = c.worlds[0].clone();
    match prop {
        "C10" => {
            slot.put(&init);
            let p = &c.runs[0];
            let o = go(slot, &mut v, p, "run");
            if let Some(what) = unavailable(c, &w, p, &o) {
                v.nontrivial = true;
                if o.verdict != 0 {
                    bad!("no-exit", "{what} could not be had, and the generator {}", o.ended());
                }
                if o.code == 0 {
                    bad!("false-success", "{what} could not be had, but the generator exited with status 0");
                }
                if let Some(d) = diff(&init, &o.files, &[]) {
                    bad!("partial-change", "{what} could not be had, and the generator {}, but it changed files: {d}", o.ended());
                }
                if let Some(p) = &o.outside {
                    bad!("outside", "it tried to change {p}");
                }
            }
        }
        "C11" => {
            slot.put(&init);
            let p = &c.runs[0];
            let o = go(slot, &mut v, p, "run");
            let hard = hard_fault(c, p, &o);
            let b = &slot.shm.benign;
            v.nontrivial = hard || b.iter().sum::<u64>() > 0;
            if o.verdict == 0 && o.code == 0 {
                let none = vec![];
                let table = o.files.get(TABLE).unwrap_or(&none);
                if let Err(e) = w.check_table(table, false) {
                    bad!("incomplete-table", "success was reported, but the table is not what the compiler said: {e}");
                }
                match o.files.get(README) {
                    Some(r) if *r == w.new_readme() => {}
                    r => bad!("wrong-readme", "success was reported, but the README is {}, should be {}", r.map_or("gone".into(), |r| show(r)), show(&w.new_readme())),
                }
                if let Some(d) = diff(&init, &o.files, &[README, TABLE]) {
                    bad!("other-file", "success was reported, but another file changed: {d}");
                }
                if let Some(p) = &o.outside {
                    bad!("outside", "it tried to change {p}");
                }
                if let Some(q) = o.queries.iter().filter(|q| q.kind == Q_FMT).next_back() {
                    if q.spawn_err != 0 || (q.exited != 0 && q.status != 0) {
                        bad!("formatter-failure-ignored", "the formatter {}, but success was reported", if q.spawn_err != 0 { "could not be started" } else { "failed" });
                    }
                }
            } else if o.verdict == 0 && !hard {
                bad!("spurious-failure", "nothing failed that was asked of the system (interrupted, short and slow calls aside), but the generator {}", o.ended());
            }
        }
        "C12" => {
            slot.put(&init);
            let mut before = init.get(README).cloned();
            for (k, p) in c.runs.iter().enumerate() {
                let w = &c.worlds[p.world.min(c.worlds.len() - 1)];
                let o = go(slot, &mut v, p, &format!("run {}", k + 1));
                v.nontrivial |= !o.snaps.is_empty() || o.killed() || hard_fault(c, p, &o);
                for (step, readme, table) in &o.snaps {
                    if let Err(e) = w.check_table(table, false) {
                        bad!("readme-first", "run {}: at step {step} the README is already {}, but the table is not complete: {e}", k + 1, show(readme));
                    }
                }
                let none = vec![];
                if o.files.get(README) != before.as_ref() {
                    if let Err(e) = w.check_table(o.files.get(TABLE).unwrap_or(&none), false) {
                        bad!("readme-first", "after run {} (it {}) the README is {}, but the table is not complete: {e}", k + 1, o.ended(), show(o.files.get(README).unwrap_or(&none)));
                    }
                }
                before = o.files.get(README).cloned();
            }
        }
        "C13" => {
            let (last, first) = c.runs.split_last().unwrap();
            let lw = &c.worlds[last.world.min(c.worlds.len() - 1)];
            slot.put(&init);
            let plain = RunPlan { world: last.world, ..RunPlan::plain() };
            let rf = go(slot, &mut v, &plain, "undisturbed run");
            if rf.code == 0 && rf.verdict == 0 {
                slot.put(&init);
                let mut ends = vec![];
                for (k, p) in first.iter().enumerate() {
                    let o = go(slot, &mut v, p, &format!("run {}", k + 1));
                    v.nontrivial |= o.killed() || o.code != 0;
                    ends.push(format!("run {} {}", k + 1, o.ended()));
                }
                let o = go(slot, &mut v, last, "last run");
                let ends = ends.join(", ");
                if o.code != 0 || o.verdict != 0 {
                    bad!("no-recovery", "{ends}; run again without faults, the generator {}", o.ended());
                } else if let Some(d) = diff(&rf.files, &o.files, &[]) {
                    bad!("wrong-recovery", "{ends}; run again without faults, it left other files than an undisturbed run (for rustc {}): {d}", lw.version());
                }
            }
        }
        "C14" => {
            slot.put(&init);
            let rf = go(slot, &mut v, &RunPlan::plain(), "reference run");
            let mut seen = vec![rf.hash];
            if rf.code == 0 && rf.verdict == 0 {
                let none = vec![];
                if let Err(e) = w.check_table(rf.files.get(TABLE).unwrap_or(&none), true) {
                    bad!("wrong-order", "the table is not in the compiler's order: {e}");
                }
                for (k, p) in c.runs.iter().enumerate() {
                    slot.put(&init);
                    let o = go(slot, &mut v, p, &format!("run {}", k + 1));
                    if !seen.contains(&o.hash) {
                        seen.push(o.hash);
                    }
                    if o.code != 0 || o.verdict != 0 {
                        bad!("timing-failure", "the reference run succeeded; with another timing the generator {}", o.ended());
                    } else if let Some(d) = diff(&rf.files, &o.files, &[]) {
                        bad!("timing-dependent", "with another timing the result is different: {d}");
                    }
                }
            }
            v.nontrivial = seen.len() > 2;
        }
        _ => {
            slot.put(&init);
            let p = &c.runs[0];
            let o = go(slot, &mut v, p, "run");
            let b = &slot.shm.benign;
            v.nontrivial = b[0] + b[3] + b[4] + b[9] > 0;
            match o.verdict {
                1 => bad!("deadlock", "the generator and its children wait for each other forever (step {})", slot.shm.sh.steps),
                2 => bad!("livelock", "no end after {} steps", slot.shm.sh.steps),
                _ => {}
            }
            if o.verdict == 0 && o.code == 0 {
                for t in &w.targets {
                    let n = o.queries.iter().filter(|q| q.kind == Q_CFG && q.name() == t.triple).count();
                    if n != 1 && !hard_fault(c, p, &o) {
                        bad!("query-count", "the compiler was asked {n} times for the cfg of {}", t.triple);
                    }
                }
                if let Some(q) = o.queries.iter().find(|q| q.kind == Q_CFG && !w.targets.iter().any(|t| t.triple == q.name())) {
                    bad!("query-count", "the compiler was asked for {}, which it did not list", q.name());
                }
                if let Some(q) = o.queries.iter().find(|q| q.spawn_err == 0 && q.reaped == 0) {
                    bad!("child-left", "success was reported, but a child process ({} {}) was never waited for{}", QNAMES.get(q.kind as usize).unwrap_or(&"other"), q.name(), if q.exited == 0 { " and still runs" } else { "" });
                }
            }
        }
    }
    v
}
