#[path = "../../libsim/src/ffi.rs"]
mod ffi;
mod judge;
mod plan;
mod run;
mod shm;
mod table;
#[allow(dead_code)]
#[path = "../../libsim/src/util.rs"]
mod util;
mod world;
use judge::*;
use plan::*;
use run::*;
use shm::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Instant;
use util::*;

struct Opts {
    prop: String,
    seed: u64,
    thorough: bool,
    runs: u64,
    secs: f64,
    workers: usize,
    out: String,
    build: String,
    hash: String,
}
struct Total {
    st: Stats,
    cases: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    redo: u64,
    redo_diff: u64,
    harness: Option<(u64, String)>,
    found: Option<(u64, Viol)>,
}

fn check(op: &Opts) -> i32 {
    let start = Instant::now();
    let root = scratch_root();
    let code = check_in(op, &root, start);
    let _ = std::fs::remove_dir_all(&root);
    code
}
fn check_in(op: &Opts, root: &std::path::Path, start: Instant) -> i32 {
    let next = AtomicU64::new(0);
    let redo_all = std::env::var_os("SIM_REDO_ALL").is_some();
    let stop = AtomicBool::new(false);
    let tot = Mutex::new(Total { st: Stats::default(), cases: 0, nontrivial: 0, hashes: HashSet::new(), redo: 0, redo_diff: 0, harness: None, found: None });
    let slots: Vec<Slot> = (0..op.workers).map(|k| Slot::new(root, k, &op.build)).collect();
    std::thread::scope(|s| {
        for mut slot in slots {
            let (next, stop, tot) = (&next, &stop, &tot);
            s.spawn(move || {
                let mut st = Stats::default();
                let (mut cases, mut nontrivial, mut redo, mut redo_diff) = (0, 0, 0, 0);
                let mut hashes = HashSet::new();
                loop {
                    let n = next.fetch_add(1, SeqCst);
                    if n >= op.runs || stop.load(SeqCst) || start.elapsed().as_secs_f64() >= op.secs {
                        break;
                    }
                    let c = generate(&op.prop, op.seed, n, op.thorough);
                    let r = judge(&op.prop, &c, &mut slot, &mut st, false);
                    cases += 1;
                    if r.nontrivial {
                        nontrivial += 1;
                        hashes.insert(r.hash);
                    }
                    if let Some(h) = r.harness {
                        let mut t = tot.lock().unwrap();
                        if t.harness.as_ref().is_none_or(|x| x.0 > n) {
                            t.harness = Some((n, h));
                        }
                        stop.store(true, SeqCst);
                        break;
                    }
                    if let Some(v) = r.viol {
                        let mut t = tot.lock().unwrap();
                        if t.found.as_ref().is_none_or(|x| x.0 > n) {
                            t.found = Some((n, v));
                        }
                        stop.store(true, SeqCst);
                        break;
                    }
                    if n % 64 == 0 || redo_all {
                        let mut dummy = Stats::default();
                        redo += 1;
                        if judge(&op.prop, &c, &mut slot, &mut dummy, false).hash != r.hash {
                            redo_diff += 1;
                            eprintln!("{}: run {n} does not repeat exactly", op.prop);
                        }
                    }
                }
                let mut t = tot.lock().unwrap();
                t.st.add(&st);
                t.cases += cases;
                t.nontrivial += nontrivial;
                t.redo += redo;
                t.redo_diff += redo_diff;
                t.hashes.extend(hashes);
            });
        }
    });
    let t = tot.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let samples: Vec<J> = (0..3u64)
        .map(|k| {
            let n = k * (t.cases.max(3) / 3) + 1;
            let mut c = generate(&op.prop, op.seed, n, op.thorough);
            for w in &mut c.worlds {
                w.targets.truncate(2);
                w.readme.truncate(w.readme.char_indices().nth(200).map_or(w.readme.len(), |x| x.0));
                for t in &mut w.targets {
                    t.lines.truncate(15);
                }
            }
            c.json().with("run", n).with("note", "shortened")
        })
        .collect();
    if let (Some((n, h)), None) = (&t.harness, &t.found) {
        eprintln!("{}: harness error in run {n}: {h}", op.prop);
        write_evidence(op, &t, 0, wall, samples, None);
        return 2;
    }
    let Some((n, v)) = t.found.clone() else {
        write_evidence(op, &t, 0, wall, samples, None);
        println!("{}: held in {} cases, {} simulated runs of the generator ({wall:.1} s)", op.prop, t.cases, t.st.runs);
        return 0;
    };
    println!("{}: seed {} run {n}: {}: {}", op.prop, op.seed, v.class, v.msg);
    let mut slot = Slot::new(root, op.workers, &op.build);
    let c0 = generate(&op.prop, op.seed, n, op.thorough);
    let mut dummy = Stats::default();
    let r = judge(&op.prop, &c0, &mut slot, &mut dummy, false);
    let (c, v, trials) = match r.viol {
        Some(v) => minimise(&op.prop, &c0, v, &mut slot),
        None => {
            println!("the run does not fail again when repeated: its outcome depends on something other than its arguments");
            (c0.clone(), v, 0)
        }
    };
    println!(
        "minimised in {trials} trials to {} runs, {} targets, {} faults, {} scheduling decisions",
        c.runs.len(),
        c.worlds[0].targets.len(),
        c.runs.iter().map(|p| p.faults.len() + p.children.len() + p.kills() as usize + (p.disk_cap != u64::MAX) as usize).sum::<usize>() + (c.readme_fault != 0) as usize,
        c.runs.iter().map(|p| p.sched.as_ref().map_or(0, |s| s.len())).sum::<usize>()
    );
    let mut path = replay_file(op, n, &c, &v, true, &mut slot);
    let again = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &path]).output();
    if again.map(|a| a.status.code() != Some(1)).unwrap_or(true) {
        println!("the minimised run does not replay; keeping the original run");
        path = replay_file(op, n, &c0, &t.found.as_ref().unwrap().1, false, &mut slot);
    }
    println!("{}: {}", v.class, v.msg);
    write_evidence(op, &t, 1, wall, samples, Some(&v));
    println!("VIOLATION property={} replay={}", op.prop, path);
    1
}

// ------------------------------------------------------------------ minimisation
fn minimise(prop: &str, c0: &Case, v0: Viol, slot: &mut Slot) -> (Case, Viol, u32) {
    let t0 = Instant::now();
    let mut trials = 0u32;
    let (mut c, mut v) = (c0.clone(), v0);
    let mut fails = |q: &Case, class: &str, slot: &mut Slot| -> Option<(Viol, Vec<Vec<(u64, u32)>>)> {
        if trials > 3000 || t0.elapsed().as_secs() > 120 {
            return None;
        }
        trials += 1;
        let mut dummy = Stats::default();
        let r = judge(prop, q, slot, &mut dummy, true);
        match r.viol {
            Some(v) if v.class == class && r.harness.is_none() => Some((v, r.scheds)),
            _ => None,
        }
    };
    loop {
        let mut progress = false;
        for q in simpler(&c) {
            // (made from an older case: only useful as long as it is smaller than the current one)
            if size(&q) >= size(&c) {
                continue;
            }
            if let Some((vi, _)) = fails(&q, &v.class, slot) {
                c = q;
                v = vi;
                progress = true;
                break;
            }
        }
        if !progress {
            break;
        }
    }
    // the schedule: explicit, then without what is not needed
    for k in 0..c.runs.len() {
        let Some((_, scheds)) = fails(&c, &v.class, slot) else { break };
        if c.runs[k].gap == 0.0 && c.runs[k].hot == 0 {
            continue;
        }
        let mut q = c.clone();
        // the last runs in `scheds` are those of the plan (a reference run may come first)
        let off = scheds.len() - c.runs.len().min(scheds.len());
        let Some(s) = scheds.get(off + k) else { continue };
        q.runs[k].sched = Some(s.clone());
        q.runs[k].gap = 0.0;
        q.runs[k].hot = 0;
        let Some((vi, _)) = fails(&q, &v.class, slot) else { continue };
        c = q;
        v = vi;
        let mut chunk = c.runs[k].sched.as_ref().unwrap().len();
        while chunk >= 1 {
            let mut i = 0;
            while i < c.runs[k].sched.as_ref().unwrap().len() {
                let mut q = c.clone();
                let s = q.runs[k].sched.as_mut().unwrap();
                let e = (i + chunk).min(s.len());
                s.drain(i..e);
                if let Some((vi, _)) = fails(&q, &v.class, slot) {
                    c = q;
                    v = vi;
                } else {
                    i += chunk;
                }
            }
            chunk /= 2;
        }
    }
    (c, v, trials)
}
fn size(c: &Case) -> usize {
    let mut n = c.runs.len() * 100 + (c.table0 != 0) as usize * 5 + (c.readme_fault != 0) as usize * 20;
    for w in &c.worlds {
        n += 50 + w.readme.len() + w.targets.iter().map(|t| 40 + t.lines.iter().map(|l| l.len()).sum::<usize>()).sum::<usize>();
    }
    for p in &c.runs {
        let b = |x: bool| x as usize;
        n += (p.faults.len() + p.children.len()) * 20
            + p.faults.iter().map(|f| f.nth as usize + b(f.sticky)).sum::<usize>()
            + b(p.gap != 0.0) * 10
            + b(p.hot != 0) * 5
            + b(p.eintr != 0) * 4
            + b(p.short != 0) * 4
            + b(p.spurious != 0)
            + b(p.jump != 0)
            + b(p.delay != 0) * 2
            + b(p.chunk != 0) * 2
            + p.noise as usize * 2
            + b(p.early_close)
            + b(p.pipe_cap != 0)
            + b(p.disk_cap != u64::MAX) * 20
            + b(p.kills()) * 20
            + b(p.orphans)
            + b(p.kill_partial)
            + b(p.real_off != RunPlan::plain().real_off)
            + b(p.ncpus != 4)
            + b(p.pid != 4242)
            + b(p.rand_seed != 1)
            + b(p.world != 0);
    }
    n
}
fn simpler(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    macro_rules! with {
        (|$q:ident| $b:expr) => {{
            let mut $q = c.clone();
            $b;
            v.push($q);
        }};
    }
    for k in 0..c.runs.len() {
        if c.runs.len() > 1 {
            with!(|q| q.runs.remove(k));
        }
        with!(|q| {
            let p = &c.runs[k];
            q.runs[k] = RunPlan {
                world: p.world,
                seed: p.seed,
                disk_cap: p.disk_cap,
                kill_op: p.kill_op,
                kill_step: p.kill_step,
                kill_rel: p.kill_rel,
                kill_partial: p.kill_partial,
                orphans: p.orphans,
                faults: p.faults.clone(),
                children: p.children.clone(),
                fmt_mode: p.fmt_mode,
                ..RunPlan::plain()
            }
        });
    }
    if c.worlds.len() > 1 {
        with!(|q| {
            q.worlds.pop();
            q.runs.iter_mut().for_each(|p| p.world = 0)
        });
        with!(|q| q.runs.iter_mut().for_each(|p| p.world = 0));
    }
    for w in 0..c.worlds.len() {
        let n = c.worlds[w].targets.len();
        let mut step = n;
        while step >= 1 {
            for i in (0..n).step_by(step) {
                with!(|q| drop(q.worlds[w].targets.drain(i..(i + step).min(n))));
            }
            step /= 2;
        }
        for t in 0..n {
            let m = c.worlds[w].targets[t].lines.len();
            let mut step = m;
            while step >= 1 && n <= 3 {
                for i in (0..m).step_by(step) {
                    with!(|q| {
                        let l = &mut q.worlds[w].targets[t].lines;
                        let cut: Vec<String> = l.drain(i..(i + step).min(m)).collect();
                        // what every target has stays
                        for x in cut.into_iter().rev() {
                            if ["panic=", "target_arch=", "target_endian=", "target_pointer_width="].iter().any(|k| x.starts_with(k)) {
                                l.insert(i.min(l.len()), x);
                            }
                        }
                    });
                }
                step /= 2;
            }
        }
        with!(|q| q.worlds[w].readme = "[{V}]\n[{V}]: x\n".into());
    }
    with!(|q| q.table0 = 0);
    with!(|q| q.readme_fault = 0);
    for k in 0..c.runs.len() {
        let p = &c.runs[k];
        let plain = RunPlan::plain();
        for i in 0..p.faults.len() {
            with!(|q| q.runs[k].faults.remove(i));
            with!(|q| q.runs[k].faults[i].sticky = false);
            with!(|q| q.runs[k].faults[i].nth = 1);
            with!(|q| q.runs[k].faults[i].nth -= (p.faults[i].nth > 1) as u32);
        }
        for i in 0..p.children.len() {
            with!(|q| q.runs[k].children.remove(i));
        }
        with!(|q| {
            q.runs[k].gap = 0.0;
            q.runs[k].hot = 0;
        });
        with!(|q| q.runs[k].hot = 0);
        with!(|q| q.runs[k].eintr = 0);
        with!(|q| q.runs[k].short = 0);
        with!(|q| q.runs[k].spurious = 0);
        with!(|q| q.runs[k].jump = 0);
        with!(|q| q.runs[k].delay = 0);
        with!(|q| q.runs[k].chunk = 0);
        with!(|q| q.runs[k].noise = 0);
        with!(|q| q.runs[k].noise -= (p.noise > 0) as u32);
        with!(|q| q.runs[k].early_close = false);
        with!(|q| q.runs[k].pipe_cap = 0);
        with!(|q| q.runs[k].disk_cap = u64::MAX);
        with!(|q| {
            q.runs[k].kill_op = 0;
            q.runs[k].kill_step = 0;
        });
        with!(|q| q.runs[k].orphans = false);
        with!(|q| q.runs[k].kill_partial = false);
        with!(|q| q.runs[k].real_off = plain.real_off);
        with!(|q| q.runs[k].ncpus = 4);
        with!(|q| q.runs[k].pid = 4242);
        with!(|q| q.runs[k].rand_seed = 1);
    }
    v.retain(|q| q != c);
    v
}

// ------------------------------------------------------------------ replay, evidence
fn replay_file(op: &Opts, run: u64, c: &Case, v: &Viol, minimised: bool, slot: &mut Slot) -> String {
    let mut dummy = Stats::default();
    let r = judge(&op.prop, c, slot, &mut dummy, true);
    let trace: Vec<J> = r.log.lines().map(|l| l.into()).collect();
    let from = trace.len().saturating_sub(400);
    let j = J::obj()
        .with("simulator", "U")
        .with("property", op.prop.as_str())
        .with("seed", op.seed)
        .with("run", run)
        .with("violation", J::obj().with("class", v.class.as_str()).with("what", v.msg.as_str()))
        .with("minimised", minimised)
        .with("plan", c.json())
        .with("trace", J::Arr(trace[from..].to_vec()));
    let dir = format!("{}/replays", op.out);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-seed{}-run{}.json", op.prop, op.seed, run);
    let t = j.text().replace("\", \"", "\",\n  \"");
    std::fs::write(&path, t).expect("write replay file");
    path
}
fn replay(path: &str, build: &str) -> i32 {
    let j = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| J::parse(&t)) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("replay: {path}: {e}");
            return 2;
        }
    };
    let root = scratch_root();
    let mut slot = Slot::new(&root, 0, build);
    let prop = j.get("property").s().to_string();
    let c = Case::from_json(j.get("plan"));
    let mut dummy = Stats::default();
    let r = judge(&prop, &c, &mut slot, &mut dummy, true);
    let _ = std::fs::remove_dir_all(&root);
    print!("{}", r.log);
    let want = j.get("violation").get("class").s();
    if let Some(h) = r.harness {
        eprintln!("harness error: {h}");
        return 2;
    }
    match r.viol {
        Some(v) => {
            println!("{}: {}", v.class, v.msg);
            if v.class != want {
                println!("a different violation than the recorded {want}");
            }
            println!("VIOLATION property={prop} replay={path}");
            if v.class == want {
                1
            } else {
                3
            }
        }
        None => {
            println!("{prop}: the recorded violation ({want}) does not occur");
            0
        }
    }
}
fn write_evidence(op: &Opts, t: &Total, violations: u64, wall: f64, samples: Vec<J>, v: Option<&Viol>) {
    let st = &t.st;
    let bits = |b: &[u8]| -> u64 { b.iter().map(|x| x.count_ones() as u64).sum() };
    let mut faults = J::obj();
    for (k, n) in BNAMES.iter().enumerate() {
        faults.set(n, st.benign[k]);
    }
    for (k, n) in KNAMES.iter().enumerate() {
        if st.fired[k] > 0 {
            faults.set(&format!("{n}_fails"), st.fired[k]);
        }
    }
    faults.set("spurious_futex_wakeup", st.spurious);
    faults.set("clock_jump_seen", st.clock_jumps);
    faults.set("preemption", st.preempts);
    faults.set("readme_missing_or_damaged", st.readme_faults);
    let mut ops = J::obj();
    for (k, n) in KNAMES.iter().enumerate() {
        ops.set(n, st.ops[k]);
    }
    let rule = format!(
        "A case is a seeded compiler world (targets and their cfg), files found, and 1-4 simulated runs of the real generator (each one process with its threads and simulated children) under a seeded schedule, timing and fault plan. Counted as distinct: different hash of all scheduling decisions with their places, all operations in order, exit statuses and files afterwards. Counted as non-trivial: {}",
        match op.prop.as_str() {
            "C10" => "something needed could not be gathered (a query or the README failed).",
            "C11" => "a fault was injected: interrupted or short I/O, a full pipe, a slow or chatty child, or a hard fault.",
            "C12" => "the README changed during the run, or the run was killed or hit by a hard fault.",
            "C13" => "at least one earlier run was killed or failed before the last, undisturbed one.",
            "C14" => "at least two runs took different schedules.",
            _ => "a child had to wait for a full pipe, wrote to standard error, or was slow, or a call was interrupted.",
        }
    );
    let per_hour = |n: u64| if wall > 0.0 { (n as f64 / wall * 3600.0) as u64 } else { 0 };
    let cov = J::obj()
        .with("evaluations", t.cases)
        .with("simulated_runs", st.runs)
        .with("distinct_nontrivial", t.hashes.len())
        .with("nontrivial_cases", t.nontrivial)
        .with("rule", rule)
        .with("samples", J::Arr(samples))
        .with("exhaustive", false)
        .with("runs_per_hour", per_hour(st.runs))
        .with("seeds_per_hour", per_hour(t.cases))
        .with("simulated_seconds", st.sim_ns as f64 / 1e9)
        .with("scheduling_points", st.steps)
        .with(
            "interleavings",
            J::obj()
                .with("preemptions", st.preempts)
                .with("preemptions_inside_generator", st.lib_preempts)
                .with("switches_forced_by_blocking", st.forced)
                .with("distinct_preemption_pairs", bits(&st.pairs))
                .with("measure", "distinct (place left, place resumed) pairs of preemptions, hashed into 65536 buckets"),
        )
        .with("generator_branches_reached", bits(&st.edges))
        .with("generator_branches_total", st.nedges)
        .with("faults_injected", faults)
        .with("operations", ops)
        .with(
            "probes",
            J::obj()
                .with("runs_that_succeeded", st.ok)
                .with("runs_that_failed", st.failed)
                .with("runs_killed", st.killed)
                .with("killed_after_first_write", st.killed_writing)
                .with("file_states_examined", st.snaps)
                .with("queries_answered", st.queries)
                .with("children_left_at_exit", st.left)
                .with("max_steps_of_a_run", st.max_steps),
        )
        .with("determinism", J::obj().with("cases_executed_twice", t.redo).with("differing", t.redo_diff))
        .with("real_code", J::Arr(vec!["update/src/main.rs (the whole generator)".into(), "std: process, fs, thread, io".into()]))
        .with(
            "stubs",
            J::Arr(vec![
                "rustc and rustfmt: scripted child processes that write into real pipes (sim/rt/simio.c)".into(),
                "file, pipe, wait, thread, futex, clock and randomness calls pass through sim/rt/simio.c and simrt.c; files are real files in a scratch directory".into(),
            ]),
        );
    let mut j = J::obj()
        .with("property", op.prop.as_str())
        .with("tier", if op.thorough { "thorough" } else { "quick" })
        .with("seed", op.seed)
        .with("level", "exploration")
        .with("coverage", cov)
        .with("wall_s", wall)
        .with("violations", violations)
        .with(
            "assumptions",
            J::Arr(vec![
                "A kill stops the generator; what it wrote stays (no loss of power: the order in which data reaches the disk is not simulated).".into(),
                "The stand-in for rustfmt reads, truncates and rewrites the file in pieces, as the real one does; its formatting only strips indentation and repeated blank lines.".into(),
                "Sampled, not exhaustive.".into(),
            ]),
        )
        .with("source_hash", op.hash.as_str());
    if let Some(v) = v {
        j.set("violation", J::obj().with("class", v.class.as_str()).with("what", v.msg.as_str()));
    }
    let dir = format!("{}/../evidence", op.out);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{}.json", op.prop), j.text());
}
fn main() {
    unsafe {
        // fixed addresses: once, re-executing this program (the generator inherits this)
        if ffi::personality(0xffffffff) & 0x0040000 == 0 && std::env::var_os("SIM_PERS").is_none() {
            ffi::personality(0x0040000);
            std::env::set_var("SIM_PERS", "1");
            use std::os::unix::process::CommandExt;
            let a: Vec<_> = std::env::args_os().skip(1).collect();
            let e = std::process::Command::new("/proc/self/exe").args(a).exec();
            eprintln!("exec: {e}");
            std::process::exit(2);
        }
        std::env::remove_var("SIM_PERS");
    }
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
    let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let build = env("SIM_DIR").unwrap_or_else(|| ".".into());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let (runs, secs) = if thorough { (u64::MAX / 2, 780.0) } else { (quick(&a[2]), 160.0) };
            let op = Opts {
                prop: a[2].clone(),
                seed,
                thorough,
                runs: env("SIM_RUNS").and_then(|s| s.parse().ok()).unwrap_or(runs),
                secs: env("SIM_SECS").and_then(|s| s.parse().ok()).unwrap_or(secs),
                workers: env("SIM_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(8),
                out: env("SIM_OUT").unwrap_or_else(|| "/verif/out".into()),
                build,
                hash: env("SIM_HASH").unwrap_or_default(),
            };
            check(&op)
        }
        Some("replay") => replay(&a[2], &build),
        Some("show") => {
            print!("{}", generate(&a[2], seed, a[3].parse().unwrap(), thorough).json().text());
            0
        }
        Some("one") => {
            let root = scratch_root();
            let mut slot = Slot::new(&root, 0, &build);
            let mut st = Stats::default();
            let r = judge(&a[2], &generate(&a[2], seed, a[3].parse().unwrap(), thorough), &mut slot, &mut st, true);
            print!("{}", r.log);
            println!("{:?} {:?} hash {:016x} steps {} nontrivial {}", r.viol.map(|v| format!("{}: {}", v.class, v.msg)), r.harness, r.hash, st.steps, r.nontrivial);
            let _ = std::fs::remove_dir_all(&root);
            0
        }
        Some("hashes") => {
            let root = scratch_root();
            let mut slot = Slot::new(&root, 0, &build);
            let mut st = Stats::default();
            for n in a[3].parse::<u64>().unwrap()..a[4].parse::<u64>().unwrap() {
                let r = judge(&a[2], &generate(&a[2], seed, n, thorough), &mut slot, &mut st, false);
                println!("{n} {:016x} {:?}", r.hash, r.viol.map(|v| v.class));
            }
            let _ = std::fs::remove_dir_all(&root);
            0
        }
        _ => {
            eprintln!("usage: updsim check PROP | replay FILE | show PROP RUN | one PROP RUN | hashes PROP FROM TO");
            2
        }
    };
    std::process::exit(code);
}
fn quick(prop: &str) -> u64 {
    match prop {
        "C13" | "C14" => 10_000,
        _ => 30_000,
    }
}
