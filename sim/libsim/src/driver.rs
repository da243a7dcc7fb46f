//! Seeded search over runs, minimisation, replay, evidence.
use crate::exec::{self, *};
use crate::ffi::{self, *};
use crate::model::Model;
use crate::plan::*;
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Instant;

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub runs: u64,
    pub secs: f64,
    pub workers: usize,
    pub dir: String,
    pub repo_hash: String,
    pub verbose: bool,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub struct Res {
    pub viol: Option<Viol>,
    pub sched: Vec<Dec>,
    pub hash: u64,
    pub aborted: bool,
}

fn out_mut(o: *mut Out) -> &'static mut Out {
    unsafe { &mut *o }
}
fn wait(pid: i32) -> (bool, i32) {
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    if st & 0x7f == 0 {
        (true, (st >> 8) & 0xff)
    } else {
        (false, st & 0x7f)
    }
}
fn signame(s: i32) -> &'static str {
    match s {
        4 => "SIGILL",
        6 => "SIGABRT",
        7 => "SIGBUS",
        8 => "SIGFPE",
        9 => "SIGKILL",
        11 => "SIGSEGV",
        24 => "SIGXCPU",
        _ => "a signal",
    }
}
/// Makes sure that everything the plan will be compared with is known.
pub fn prepare(p: &Plan, or: &mut Oracle, o: *mut Out) {
    for t in &p.texts {
        if !or.models.contains_key(t) {
            or.weight += 20 * t.len();
            or.models.insert(t.clone(), Model::parse(t).map(Arc::new));
        }
    }
    for n in needs(p, &or.models) {
        if by_model(&n) && or.models.get(&n.text).map(|m| m.is_some()).unwrap_or(false) {
            continue;
        }
        let k = n.key();
        if or.iso.contains_key(&k) {
            continue;
        }
        out_mut(o).reset();
        let pid = unsafe { fork() };
        if pid == 0 {
            exec::run_query(&n, o);
        }
        assert!(pid > 0, "fork");
        let (exited, code) = wait(pid);
        let ob = out_mut(o);
        let mut iso = Iso::default();
        if ob.viol != 0 {
            iso.crash = Some(ob.message());
        } else if !exited {
            iso.crash = Some(format!("killed by {}", signame(code)));
        } else if ob.done == 0 {
            iso.crash = Some(if ob.sim.verdict == 1 { "blocks forever".into() } else { format!("ended with status {code}") });
        }
        iso.items = ob.iso[..ob.iso_len as usize].to_vec();
        iso.full = String::from_utf8_lossy(&ob.text[..ob.iso_str as usize]).into_owned();
        or.weight += k.len() + iso.full.len() + 8 * iso.items.len();
        or.iso.insert(k, iso);
    }
}
pub fn execute(p: &Plan, sched: Option<&[Dec]>, or: &'static Oracle, o: *mut Out) -> Res {
    out_mut(o).reset();
    let plan = p.clone();
    let pid = unsafe { fork() };
    if pid == 0 {
        exec::run(plan, or, sched, o);
    }
    assert!(pid > 0, "fork");
    let (exited, code) = wait(pid);
    let ob = out_mut(o);
    let n = (ob.sim.nsched as usize).min(MAXSCHED);
    let mut r = Res { viol: None, sched: ob.sim.sched[..n].to_vec(), hash: h2(ob.hash, ob.sim.trace_hash), aborted: false };
    let v = |class: &str, msg: String| Some(Viol { class: class.into(), msg });
    if ob.viol != 0 {
        r.viol = Some(Viol { class: ob.class(), msg: ob.message() });
    } else if !exited {
        if code == 6 && ob.failing != 0 {
            r.aborted = true;
            ob.cnt[C::f_alloc_abort as usize] += 1;
        } else if code == 24 || code == 9 {
            r.viol = v("hang", format!("a call does not return: the run used up its processor time (killed by {})", signame(code)));
        } else {
            r.viol = v("crash", format!("the process was killed by {} ({})", signame(code), if p.stack < 1 << 20 { "stack overflow on a small stack, or memory corruption" } else { "stack overflow or memory corruption" }));
        }
    } else if ob.sim.verdict == 1 {
        r.viol = v("deadlock", format!("all threads are blocked forever (step {})", ob.sim.steps));
    } else if ob.sim.verdict == 2 {
        r.viol = v("livelock", format!("no end after {} steps", ob.sim.steps));
    } else if ob.done == 0 {
        r.viol = v("exit", format!("the process ended with status {code} in the middle of the run"));
    }
    r
}
fn leak_oracle(or: Oracle) -> &'static mut Oracle {
    Box::leak(Box::new(or))
}

// ------------------------------------------------------------------ workers
#[repr(C)]
struct Stats {
    runs: AtomicU64,
    stop: AtomicU64,
    found: AtomicU64, // lowest run with a violation + 1
}
#[repr(C)]
struct WOut {
    runs: u64,
    steps: u64,
    sim_ns: u64,
    preempts: u64,
    lib_preempts: u64,
    forced: u64,
    hot_points: u64,
    hot_preempts: u64,
    env_reads: u64,
    file_reads: u64,
    futex_waits: u64,
    spurious: u64,
    clock_reads: u64,
    clock_jumps: u64,
    rand_reads: u64,
    threads: u64,
    nontrivial: u64,
    redo: u64,
    redo_diff: u64,
    aborted: u64,
    multi: u64,
    nedges: u64,
    cnt: [u64; NC],
    pairs: [u8; 8192],
    edges: [u8; 8192],
    nhash: u64,
    hashes: [u64; 1 << 18],
    found: u64, // run + 1
    harness: u32,
    class: [u8; 48],
    msg_len: u32,
    msg: [u8; 6000],
}
fn nontrivial(prop: &str, ob: &Out) -> bool {
    let c = |k: C| ob.cnt[k as usize];
    let faults = c(C::f_panic_predicate) + c(C::f_panic_logic) + c(C::f_panic_iterator) + c(C::f_panic_sink);
    let work = c(C::op_parse) + c(C::op_eval) + c(C::op_list) + c(C::op_format) + c(C::op_poll) + c(C::op_match) > 0;
    work
        && match prop {
            "C01" => ob.sim.lib_preempts > 0,
            "C02" => c(C::predicates_answered) > 0 && (ob.sim.lib_preempts > 0 || faults + c(C::nested_calls) > 0 || c(C::logic_ops) > 1),
            "C03" => faults > 0,
            "C04" => c(C::nested_calls) > 0,
            "C05" => c(C::op_poll) > 0 && (c(C::f_stream_handover) + c(C::f_abandoned_stream) + c(C::f_abandoned_listing) + c(C::f_poll_after_end) + c(C::f_poll_after_error) > 0 || ob.sim.lib_preempts > 0),
            "C06" => c(C::f_sink_failure) + c(C::f_panic_sink) > 0,
            "C07" => c(C::f_small_stack) > 0,
            "C08" => c(C::f_alloc_failure) > 0 || c(C::rounds) > 10,
            _ => true,
        }
}
fn worker(w: usize, op: &Opts, st: &Stats, wo: &mut WOut, start: Instant) {
    let or = leak_oracle(Oracle::default());
    let o: *mut Out = ffi::shm();
    let mut n = w as u64;
    while n < op.runs && st.stop.load(SeqCst) == 0 && start.elapsed().as_secs_f64() < op.secs {
        let p = generate(&op.prop, op.seed, n, op.thorough);
        if or.iso.len() > 30_000 || or.models.len() > 8_000 || or.weight > 400_000_000 {
            or.iso.clear();
            or.models.clear();
            or.weight = 0;
        }
        prepare(&p, or, o);
        let orr: &'static Oracle = unsafe { &*(or as *const Oracle) };
        let r = execute(&p, None, orr, o);
        let ob = out_mut(o);
        let s = &ob.sim;
        wo.runs += 1;
        wo.steps += s.steps;
        wo.sim_ns += s.now_ns;
        wo.preempts += s.preempts;
        wo.lib_preempts += s.lib_preempts;
        wo.forced += s.forced;
        wo.hot_points += s.hot_points;
        wo.hot_preempts += s.hot_preempts;
        wo.env_reads += s.env_reads;
        wo.file_reads += s.file_reads;
        wo.futex_waits += s.futex_waits;
        wo.spurious += s.spurious;
        wo.clock_reads += s.clock_reads;
        wo.clock_jumps += s.clock_jumps;
        wo.rand_reads += s.rand_reads;
        wo.threads += s.thread_creates;
        wo.aborted += r.aborted as u64;
        wo.multi += (p.threads.len() > 1) as u64;
        wo.nedges = s.nedges as u64;
        for k in 0..NC {
            if k == C::max_edges_per_kb as usize || k == C::max_bytes_per_kb as usize {
                wo.cnt[k] = wo.cnt[k].max(ob.cnt[k]);
            } else {
                wo.cnt[k] += ob.cnt[k];
            }
        }
        for k in 0..8192 {
            wo.pairs[k] |= s.pairs[k];
            wo.edges[k] |= s.edges[k];
        }
        if nontrivial(&op.prop, ob) {
            wo.nontrivial += 1;
            if (wo.nhash as usize) < wo.hashes.len() {
                wo.hashes[wo.nhash as usize] = h2(r.hash, hs(&p.texts.join("\u{1}")));
                wo.nhash += 1;
            }
        }
        if let Some(v) = r.viol {
            wo.harness = (v.class == "harness") as u32;
            wo.found = n + 1;
            wo.class = ob.class;
            let b = v.class.as_bytes();
            wo.class = [0; 48];
            wo.class[..b.len().min(47)].copy_from_slice(&b[..b.len().min(47)]);
            let m = v.msg.as_bytes();
            let l = m.len().min(5990);
            wo.msg[..l].copy_from_slice(&m[..l]);
            wo.msg_len = l as u32;
            st.stop.store(1, SeqCst);
            st.found.fetch_min(n + 1, SeqCst);
            return;
        }
        if n % 64 < op.workers as u64 && !r.aborted {
            // the same run once more must be the same run
            let h = r.hash;
            let r2 = execute(&p, None, orr, o);
            wo.redo += 1;
            if r2.hash != h {
                wo.redo_diff += 1;
            }
        }
        n += op.workers as u64;
        st.runs.fetch_add(1, SeqCst);
    }
}

// ------------------------------------------------------------------ minimisation
struct Min {
    or: &'static mut Oracle,
    o: *mut Out,
    class: String,
    trials: u32,
    budget: u32,
    t0: Instant,
}
impl Min {
    /// Does the plan still fail in the same way (with this schedule, or under some other)?
    fn fails(&mut self, p: &Plan, s: &[Dec]) -> Option<(Plan, Vec<Dec>, Viol)> {
        if self.trials >= self.budget || self.t0.elapsed().as_secs() > 100 {
            return None;
        }
        prepare(p, self.or, self.o);
        let orr: &'static Oracle = unsafe { &*(self.or as *const Oracle) };
        let tries = if p.threads.len() > 1 { 7 } else { 2 };
        for k in 0..tries {
            self.trials += 1;
            let mut q = p.clone();
            let r = match k {
                0 => execute(&q, Some(s), orr, self.o),
                1 => {
                    q.gap = 0.0;
                    q.hot = 0;
                    execute(&q, None, orr, self.o)
                }
                k => {
                    q.sched_seed = h2(p.sched_seed, k);
                    q.gap = [0.0, 5.0, 30.0, 5.0, 120.0, 30.0, 600.0][k as usize % 7];
                    q.hot = [0, 128, 32, 255, 64, 200, 0][k as usize % 7];
                    execute(&q, None, orr, self.o)
                }
            };
            if let Some(v) = r.viol {
                if v.class == self.class {
                    return Some((q, r.sched, v));
                }
            }
        }
        None
    }
}
fn has_ref(p: &Plan, t: usize) -> bool {
    fn in_op(o: &Op, t: usize) -> bool {
        let acts: &[Act] = match o {
            Op::Eval { acts, .. } | Op::List { acts, .. } | Op::Fmt { acts, .. } | Op::Fams { acts, .. } | Op::Atoms { acts, .. } => acts,
            _ => &[],
        };
        acts.iter().any(|a| matches!(&a.what, Do::Nest(o) if in_op(o, t)))
            || match o {
                Op::Parse { t: x, .. } | Op::FromStr { t: x } | Op::SLex { t: x, .. } => *x == t,
                Op::Fmt { what: What::Err(x) | What::Reason(x) | What::Tok(x, _) | What::AtomErr(x) | What::Expr(x), .. } => *x == t,
                _ => false,
            }
    }
    p.shared.contains(&t) || p.threads.iter().flatten().any(|o| in_op(o, t))
}
fn op_variants(o: &Op) -> Vec<Op> {
    let mut v = vec![];
    let shrink_acts = |acts: &Vec<Act>| -> Vec<Vec<Act>> {
        let mut r = vec![];
        for k in 0..acts.len() {
            let mut a = acts.clone();
            a.remove(k);
            r.push(a);
            if acts[k].at > 0 {
                for at in [0, acts[k].at / 2, acts[k].at - 1] {
                    let mut a = acts.clone();
                    a[k].at = at;
                    r.push(a);
                }
            }
            if let Do::Nest(o) = &acts[k].what {
                for n in op_variants(o) {
                    let mut a = acts.clone();
                    a[k].what = Do::Nest(Box::new(n));
                    r.push(a);
                }
            }
        }
        r
    };
    match o {
        Op::Eval { e, m, seed, acts } => {
            for a in shrink_acts(acts) {
                v.push(Op::Eval { e: *e, m: *m, seed: *seed, acts: a });
            }
            if *m != Mode::Bool {
                v.push(Op::Eval { e: *e, m: Mode::Bool, seed: *seed, acts: acts.clone() });
            }
        }
        Op::Sweep { seed, n, len } => {
            for k in [*n / 2, n * 7 / 8, n - 1] {
                if k > 0 && k < *n {
                    v.push(Op::Sweep { seed: *seed, n: k, len: *len });
                }
            }
        }
        Op::List { e, acts } => {
            for a in shrink_acts(acts) {
                v.push(Op::List { e: *e, acts: a });
            }
        }
        Op::Fmt { what, spec, limit, acts } => {
            for a in shrink_acts(acts) {
                v.push(Op::Fmt { what: what.clone(), spec: *spec, limit: *limit, acts: a });
            }
            if *limit >= 0 {
                v.push(Op::Fmt { what: what.clone(), spec: *spec, limit: -1, acts: acts.clone() });
                if *limit > 0 {
                    v.push(Op::Fmt { what: what.clone(), spec: *spec, limit: *limit / 2, acts: acts.clone() });
                }
            }
        }
        Op::Fams { seed, acts } => {
            for a in shrink_acts(acts) {
                v.push(Op::Fams { seed: *seed, acts: a });
            }
        }
        Op::Atoms { seed, acts } => {
            for a in shrink_acts(acts) {
                v.push(Op::Atoms { seed: *seed, acts: a });
            }
        }
        Op::Poll { s, n } if *n > 1 && *n < 200 => v.push(Op::Poll { s: *s, n: n / 2 }),
        _ => {}
    }
    v
}
fn text_variants(t: &str) -> Vec<String> {
    let mut v = vec!["a".to_string(), "all(a, b)".to_string(), "unix".to_string(), "any(a, not(b))".to_string()];
    if t.starts_with("cfg(") && t.ends_with(')') {
        v.push(t[4..t.len() - 1].to_string());
    }
    let n = t.chars().count();
    let chars: Vec<char> = t.chars().collect();
    // halves and chunks
    for k in [2usize, 4, 8, 16] {
        for i in 0..k {
            let (a, b) = (n * i / k, n * (i + 1) / k);
            if a < b {
                v.push(chars[..a].iter().chain(chars[b..].iter()).collect());
            }
        }
    }
    // items of lists
    let mut depth = 0;
    let mut starts: Vec<usize> = vec![0];
    let mut pieces: Vec<(usize, usize)> = vec![];
    for (i, c) in chars.iter().enumerate() {
        match c {
            '(' => {
                depth += 1;
                starts.push(i + 1);
            }
            ')' if depth > 0 => {
                let s = starts.pop().unwrap();
                pieces.push((s, i));
                depth -= 1;
            }
            ',' => {
                let s = starts.pop().unwrap();
                pieces.push((s, i + 1));
                starts.push(i + 1);
            }
            _ => {}
        }
    }
    let keep = pieces.len().div_ceil(60).max(1);
    for (a, b) in pieces.iter().step_by(keep) {
        v.push(chars[..*a].iter().chain(chars[*b..].iter()).collect());
        v.push(chars[*a..*b].iter().filter(|c| **c != ',').collect());
    }
    if n < 80 {
        for i in 0..n {
            v.push(chars[..i].iter().chain(chars[i + 1..].iter()).collect());
        }
    }
    // halves of the nesting or of the list at once
    for (pat, _) in [("not(", 0), ("all(", 0), ("any(", 0)] {
        let c = t.matches(pat).count();
        if c > 4 {
            let m = c / 2;
            let mut s = t.to_string();
            for _ in 0..m {
                s = s.replacen(pat, "", 1);
            }
            if s.ends_with(&")".repeat(m)) {
                s.truncate(s.len() - m);
                v.push(s);
            }
        }
    }
    v.retain(|x| x.len() < t.len());
    v
}
pub fn minimise(p0: &Plan, s0: Vec<Dec>, v0: Viol, o: *mut Out, budget: u32) -> (Plan, Vec<Dec>, Viol, u32) {
    let mut m = Min { or: leak_oracle(Oracle::default()), o, class: v0.class.clone(), trials: 0, budget, t0: Instant::now() };
    let (mut p, mut s, mut v) = (p0.clone(), s0, v0);
    macro_rules! attempt {
        ($q:expr) => {{
            let q: Plan = $q;
            match m.fails(&q, &s) {
                Some((q, sc, vi)) => {
                    p = q;
                    s = sc;
                    v = vi;
                    true
                }
                None => false,
            }
        }};
    }
    loop {
        let mut progress = false;
        // threads
        let mut k = 0;
        while p.threads.len() > 1 && k < p.threads.len() {
            let mut q = p.clone();
            q.threads.remove(k);
            q.alloc_fail.retain(|a| a.0 != k);
            for a in &mut q.alloc_fail {
                if a.0 > k {
                    a.0 -= 1;
                }
            }
            if attempt!(q) {
                progress = true;
            } else {
                k += 1;
            }
        }
        // operations, in chunks and one by one
        for t in 0..p.threads.len() {
            let mut size = p.threads[t].len();
            while size >= 1 {
                let mut i = 0;
                while i < p.threads[t].len() {
                    let mut q = p.clone();
                    let e = (i + size).min(q.threads[t].len());
                    q.threads[t].drain(i..e);
                    if attempt!(q) {
                        progress = true;
                    } else {
                        i += size;
                    }
                }
                size /= 2;
            }
        }
        // arguments and faults inside operations
        for t in 0..p.threads.len() {
            let mut i = 0;
            while i < p.threads[t].len() {
                let mut again = false;
                for n in op_variants(&p.threads[t][i]) {
                    let mut q = p.clone();
                    q.threads[t][i] = n;
                    if attempt!(q) {
                        progress = true;
                        again = true;
                        break;
                    }
                }
                if !again {
                    i += 1;
                }
            }
        }
        // the rest of the configuration
        let mut cands: Vec<Plan> = vec![];
        if !p.shared.is_empty() {
            for k in 0..p.shared.len() {
                let mut q = p.clone();
                q.shared.remove(k);
                cands.push(q);
            }
        }
        if p.rounds > 1 {
            for r in [1, 12, p.rounds / 2] {
                if r < p.rounds {
                    let mut q = p.clone();
                    q.rounds = r;
                    cands.push(q);
                }
            }
        }
        let mut set = |f: &dyn Fn(&mut Plan)| {
            let mut q = p.clone();
            f(&mut q);
            if format!("{q:?}") != format!("{p:?}") {
                cands.push(q);
            }
        };
        set(&|q| q.alloc_fail.clear());
        set(&|q| q.fresh = false);
        set(&|q| q.env_seed = 0);
        set(&|q| q.jump_ppm = 0);
        set(&|q| q.spurious_ppm = 0);
        set(&|q| q.policy = 0);
        set(&|q| q.pad = 0);
        set(&|q| q.real_off = 1_600_000_000_000_000_000);
        set(&|q| q.rand_seed = 1);
        set(&|q| q.pid = 4242);
        set(&|q| q.ncpus = 4);
        for q in cands {
            // each candidate was made from an older plan: apply only if nothing changed meanwhile
            if q.threads == p.threads && q.texts == p.texts && attempt!(q) {
                progress = true;
            }
        }
        // texts
        for t in 0..p.texts.len() {
            if !has_ref(&p, t) {
                if p.texts[t] != "a" {
                    let mut q = p.clone();
                    q.texts[t] = "a".into();
                    attempt!(q);
                }
                continue;
            }
            loop {
                let mut again = false;
                for n in text_variants(&p.texts[t]) {
                    let mut q = p.clone();
                    q.texts[t] = n;
                    if attempt!(q) {
                        progress = true;
                        again = true;
                        break;
                    }
                }
                if !again {
                    break;
                }
            }
        }
        while p.texts.len() > 1 && !has_ref(&p, p.texts.len() - 1) {
            let mut q = p.clone();
            q.texts.pop();
            if !attempt!(q) {
                break;
            }
        }
        if !progress || m.trials >= m.budget {
            break;
        }
    }
    // schedule: drop decisions that are not needed
    let only = |m: &mut Min, p: &Plan, s: &[Dec]| -> Option<(Vec<Dec>, Viol)> {
        m.trials += 1;
        prepare(p, m.or, m.o);
        let orr: &'static Oracle = unsafe { &*(m.or as *const Oracle) };
        let r = execute(p, Some(s), orr, m.o);
        match r.viol {
            Some(v) if v.class == m.class => Some((s.to_vec(), v)),
            _ => None,
        }
    };
    m.budget += 600;
    if let Some((_, vi)) = only(&mut m, &p, &s) {
        v = vi;
        let mut size = s.len();
        while size >= 1 && m.trials < m.budget {
            let mut i = 0;
            while i < s.len() && m.trials < m.budget {
                let mut q = s.clone();
                let e = (i + size).min(q.len());
                q.drain(i..e);
                if let Some((n, vi)) = only(&mut m, &p, &q) {
                    s = n;
                    v = vi;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
    }
    (p, s, v, m.trials)
}

// ------------------------------------------------------------------ replay files
fn sched_json(s: &[Dec]) -> J {
    J::Arr(s.iter().map(|d| J::Arr(vec![d.step.into(), d.tid.into()])).collect())
}
pub fn replay_file(op: &Opts, run: u64, p: &Plan, s: &[Dec], v: &Viol, minimised: bool) -> String {
    let j = J::obj()
        .with("simulator", "L")
        .with("property", op.prop.as_str())
        .with("seed", op.seed)
        .with("run", run)
        .with("violation", J::obj().with("class", v.class.as_str()).with("what", v.msg.as_str()))
        .with("minimised", minimised)
        .with("plan", p.json())
        .with("schedule", sched_json(s));
    let dir = format!("{}/replays", op.dir);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-seed{}-run{}.json", op.prop, op.seed, run);
    std::fs::write(&path, j.text()).expect("write replay file");
    path
}
pub fn replay(path: &str) -> Result<(String, Option<Viol>, Viol), String> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let j = J::parse(&t)?;
    let p = Plan::from_json(j.get("plan"));
    let s: Vec<Dec> = j.get("schedule").a().iter().map(|d| Dec { step: d.a()[0].u(), tid: d.a()[1].u() as u32, forced: 0 }).collect();
    let want = Viol { class: j.get("violation").get("class").s().into(), msg: j.get("violation").get("what").s().into() };
    let prop = j.get("property").s().to_string();
    if want.class == "not-shareable" {
        let v = crate::static_check(&prop);
        return Ok((prop, v, want));
    }
    let o: *mut Out = ffi::shm();
    let or = leak_oracle(Oracle::default());
    prepare(&p, or, o);
    let r = execute(&p, Some(&s), or, o);
    Ok((prop, r.viol, want))
}

// ------------------------------------------------------------------ a whole check
pub fn check(op: &Opts) -> i32 {
    let start = Instant::now();
    if op.prop == "C01" || op.prop == "C05" {
        if let Some(v) = crate::static_check(&op.prop) {
            let p = generate(&op.prop, op.seed, 0, false);
            let path = replay_file(op, 0, &p, &[], &v, true);
            println!("{}", v.msg);
            println!("VIOLATION property={} replay={}", op.prop, path);
            write_evidence(op, &[], 1, start.elapsed().as_secs_f64(), vec![], Some(&v));
            return 1;
        }
    }
    let st: &'static Stats = unsafe { &*ffi::shm::<Stats>() };
    st.found.store(u64::MAX, SeqCst);
    let wos: Vec<*mut WOut> = (0..op.workers).map(|_| ffi::shm()).collect();
    let mut pids = vec![];
    for (w, wo) in wos.iter().enumerate() {
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            worker(w, op, st, unsafe { &mut **wo }, start);
            unsafe { _exit(0) };
        }
        pids.push(pid);
    }
    let mut bad = false;
    for p in pids {
        let (ex, code) = wait(p);
        if !ex || code != 0 {
            eprintln!("worker ended: exited={ex} code={code}");
            bad = true;
        }
    }
    let ws: Vec<&WOut> = wos.iter().map(|w| unsafe { &**w }).collect();
    let wall = start.elapsed().as_secs_f64();
    let total: u64 = ws.iter().map(|w| w.runs).sum();
    let found = ws.iter().filter(|w| w.found != 0).min_by_key(|w| w.found);
    // sample runs for the evidence
    let samples: Vec<J> = (0..3u64)
        .map(|k| {
            let n = k * (total.max(3) / 3) + 1;
            let p = generate(&op.prop, op.seed, n, op.thorough);
            let mut j = p.json().with("run", n);
            if p.texts.iter().map(|t| t.len()).sum::<usize>() > 2000 {
                j.set("texts", J::Arr(p.texts.iter().map(|t| format!("{}... ({} bytes)", t.chars().take(80).collect::<String>(), t.len()).into()).collect()));
            }
            j
        })
        .collect();
    let Some(f) = found else {
        write_evidence(op, &ws, 0, wall, samples, None);
        if bad {
            eprintln!("{}: a worker failed", op.prop);
            return 2;
        }
        println!("{}: held in {} simulated runs ({:.1} s)", op.prop, total, wall);
        return 0;
    };
    let run = f.found - 1;
    let n = f.class.iter().position(|b| *b == 0).unwrap_or(48);
    let v = Viol { class: String::from_utf8_lossy(&f.class[..n]).into_owned(), msg: String::from_utf8_lossy(&f.msg[..f.msg_len as usize]).into_owned() };
    if f.harness != 0 {
        eprintln!("{}: harness error in run {run}: {}", op.prop, v.msg);
        return 2;
    }
    println!("{}: seed {} run {run}: {}: {}", op.prop, op.seed, v.class, v.msg);
    // reproduce here, then minimise
    let p = generate(&op.prop, op.seed, run, op.thorough);
    let o: *mut Out = ffi::shm();
    let or = leak_oracle(Oracle::default());
    prepare(&p, or, o);
    let orr: &'static Oracle = unsafe { &*(or as *const Oracle) };
    let r = execute(&p, None, orr, o);
    let (mp, ms, mv, done) = match r.viol {
        Some(v1) => {
            let (mp, ms, mv, trials) = minimise(&p, r.sched.clone(), v1.clone(), o, 2500);
            let path = replay_file(op, run, &mp, &ms, &mv, true);
            // must fail the same way in a fresh process
            let again = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &path]).output();
            let ok = again.map(|a| a.status.code() == Some(1)).unwrap_or(false);
            println!("minimised in {trials} trials to {} threads, {} operations, {} texts, {} scheduling decisions", mp.threads.len(), mp.threads.iter().map(|t| t.len()).sum::<usize>(), mp.texts.len(), ms.len());
            if ok {
                (mp, ms, mv, true)
            } else {
                println!("the minimised run does not replay; keeping the original run");
                (p.clone(), r.sched, v1, false)
            }
        }
        None => {
            println!("the run does not fail again when repeated: its outcome depends on something other than its arguments");
            (p, vec![], v, false)
        }
    };
    let path = replay_file(op, run, &mp, &ms, &mv, done);
    println!("{}: {}", mv.class, mv.msg);
    write_evidence(op, &ws, 1, wall, samples, Some(&mv));
    println!("VIOLATION property={} replay={}", op.prop, path);
    1
}
fn write_evidence(op: &Opts, ws: &[&WOut], violations: u64, wall: f64, samples: Vec<J>, v: Option<&Viol>) {
    let sum = |f: &dyn Fn(&WOut) -> u64| -> u64 { ws.iter().map(|w| f(w)).sum() };
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut pairs = [0u8; 8192];
    let mut edges = [0u8; 8192];
    let mut cnt: BTreeMap<&str, u64> = BTreeMap::new();
    for w in ws {
        distinct.extend(&w.hashes[..w.nhash as usize]);
        for k in 0..8192 {
            pairs[k] |= w.pairs[k];
            edges[k] |= w.edges[k];
        }
        for (k, n) in COUNTERS.iter().enumerate() {
            let e = cnt.entry(n).or_default();
            *e = if n.starts_with("max_") { (*e).max(w.cnt[k]) } else { *e + w.cnt[k] };
        }
    }
    let bits = |b: &[u8]| -> u64 { b.iter().map(|x| x.count_ones() as u64).sum() };
    let group = |pre: &str| {
        let mut j = J::obj();
        for (k, n) in &cnt {
            if let Some(s) = k.strip_prefix(pre) {
                j.set(s, *n);
            }
        }
        j
    };
    let runs = sum(&|w| w.runs);
    let mut faults = group("f_");
    for (k, n) in [
        ("spurious_futex_wakeup", sum(&|w| w.spurious)),
        ("clock_jump_seen", sum(&|w| w.clock_jumps)),
        ("environment_variable_answered", sum(&|w| w.env_reads)),
        ("file_open_answered", sum(&|w| w.file_reads)),
        ("randomness_answered", sum(&|w| w.rand_reads)),
        ("preemption", sum(&|w| w.preempts)),
    ] {
        faults.set(k, n);
    }
    let mut probes = J::obj();
    for k in ["callbacks", "logic_ops", "nested_calls", "calls_unwinding", "calls_at_drop", "ok_values", "errors_returned", "predicates_answered", "lib_allocs", "rounds", "max_edges_per_kb", "max_bytes_per_kb"] {
        probes.set(k, cnt.get(k).copied().unwrap_or(0));
    }
    let rule = format!(
        "A case is one simulated process: {} Counted as distinct: different hash of (texts, results in order, every scheduling decision with its place). Counted as non-trivial: {}",
        "1-4 threads running a seeded list of library calls with faults placed inside them, under a seeded schedule and surroundings.",
        match op.prop.as_str() {
            "C01" => "at least one preemption at a branch, memory access or allocation inside the library.",
            "C02" => "at least one predicate answered, and a preemption inside the library, a nested call, a panic, or at least two Logic operations.",
            "C03" => "at least one injected panic was raised inside a callback.",
            "C04" => "at least one library call was made from inside a callback.",
            "C05" => "a stream was polled, and handed to another thread, abandoned, polled after its end or error, or interrupted by a preemption inside the library.",
            "C06" => "a sink failed or panicked at a write.",
            "C07" => "the calls ran on a 256 KiB stack over texts of thousands of items or levels.",
            "C08" => "an allocation inside the library failed, or the calls were repeated more than ten times with memory accounted.",
            _ => "the run made calls whose results were compared with a fresh process under reference surroundings.",
        }
    );
    let cov = J::obj()
        .with("evaluations", runs)
        .with("distinct_nontrivial", distinct.len())
        .with("nontrivial_runs", sum(&|w| w.nontrivial))
        .with("rule", rule)
        .with("samples", J::Arr(samples))
        .with("exhaustive", false)
        .with("runs_per_hour", if wall > 0.0 { (runs as f64 / wall * 3600.0) as u64 } else { 0 })
        .with("seeds_per_hour", if wall > 0.0 { (runs as f64 / wall * 3600.0) as u64 } else { 0 })
        .with("simulated_seconds", sum(&|w| w.sim_ns) as f64 / 1e9)
        .with("scheduling_points", sum(&|w| w.steps))
        .with("interleavings", J::obj()
            .with("multi_threaded_runs", sum(&|w| w.multi))
            .with("preemptions", sum(&|w| w.preempts))
            .with("preemptions_inside_library", sum(&|w| w.lib_preempts))
            .with("switches_forced_by_blocking", sum(&|w| w.forced))
            .with("accesses_to_contended_memory", sum(&|w| w.hot_points))
            .with("distinct_preemption_pairs", bits(&pairs))
            .with("measure", "distinct (place left, place resumed) pairs of preemptions, hashed into 65536 buckets"))
        .with("library_branches_reached", bits(&edges))
        .with("library_branches_total", ws.iter().map(|w| w.nedges).max().unwrap_or(0))
        .with("faults_injected", faults)
        .with("operations", group("op_"))
        .with("probes", probes)
        .with("determinism", J::obj().with("runs_executed_twice", sum(&|w| w.redo)).with("differing", sum(&|w| w.redo_diff)))
        .with("real_code", J::Arr(vec!["cfg-expr (all of src/, features: targets)".into(), "smallvec, target-lexicon, std (threads, locks, collections)".into()]))
        .with("stubs", J::Arr(vec!["futex, clocks, randomness, environment, files, CPU count: sim/rt/simrt.c".into(), "memory allocator: sim/libsim/src/alloc.rs".into(), "callers, Logic type, sinks: sim/libsim/src/exec.rs".into()]));
    let mut j = J::obj()
        .with("property", op.prop.as_str())
        .with("tier", if op.thorough { "thorough" } else { "quick" })
        .with("seed", op.seed)
        .with("level", if op.prop == "C03" || op.prop == "C06" || op.prop == "C08" { "fault_enumeration" } else { "exploration" })
        .with("coverage", cov)
        .with("wall_s", wall)
        .with("violations", violations)
        .with("assumptions", J::Arr(vec![
            "Threads interleave at branches, memory accesses outside their own stack and allocations of the instrumented library, sequentially consistently; weak-memory reorderings are not simulated.".into(),
            "Reference answers for texts outside the model come from the same call made in a fresh process under reference surroundings.".into(),
            "Sampled, not exhaustive.".into(),
        ]))
        .with("source_hash", op.repo_hash.as_str());
    if let Some(v) = v {
        j.set("violation", J::obj().with("class", v.class.as_str()).with("what", v.msg.as_str()));
    }
    let dir = format!("{}/../evidence", op.dir);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{}.json", op.prop), j.text());
}
