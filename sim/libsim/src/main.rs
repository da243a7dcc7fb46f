mod alloc;
mod driver;
mod exec;
mod ffi;
mod model;
mod plan;
mod util;
use driver::*;
use std::marker::PhantomData;

struct Probe<T>(PhantomData<T>);
#[allow(dead_code)] // used by the types that are not shareable
trait No {
    fn send_(&self) -> bool {
        false
    }
    fn sync_(&self) -> bool {
        false
    }
}
impl<T> No for &Probe<T> {}
impl<T: Send> Probe<T> {
    fn send_(&self) -> bool {
        true
    }
}
struct Probe2<T>(PhantomData<T>);
impl<T> No for &Probe2<T> {}
impl<T: Sync> Probe2<T> {
    fn sync_(&self) -> bool {
        true
    }
}
macro_rules! shareable {
    ($($t:ty),* $(,)?) => {
        vec![$((stringify!($t), (&Probe::<$t>(PhantomData)).send_() && (&Probe2::<$t>(PhantomData)).sync_())),*]
    };
}
/// Types of which values can be given to and shared with other threads.
pub fn static_check(prop: &str) -> Option<Viol> {
    if prop == "C05" {
        return movable();
    }
    use glue::cfg_expr::{error::*, expr::*, targets::*};
    let v = shareable![
        Expression, ParseError, Reason, HasAtomicParseError, Predicate<'static>, TargetPredicate, Func, TargetInfo, Triple, Abi, Arch, Vendor, Os, Family, Env, Panic, Families,
        HasAtomic, HasAtomics, Endian, lexer::Lexer<'static>, lexer::Token<'static>, lexer::LexerToken<'static>,
    ];
    let bad: Vec<&str> = v.iter().filter(|x| !x.1).map(|x| x.0).collect();
    if bad.is_empty() {
        None
    } else {
        Some(Viol { class: "not-shareable".into(), msg: format!("values of these types cannot be moved to or shared with other threads (not Send + Sync): {}", bad.join(", ")) })
    }
}
/// Streams can be handed to other threads.
fn movable() -> Option<Viol> {
    fn probe<T>(_: &T) -> Probe<T> {
        Probe(PhantomData)
    }
    let e = glue::cfg_expr::Expression::parse("any(a, b)").ok()?;
    let p = e.predicates();
    let l = glue::cfg_expr::expr::lexer::Lexer::new("a");
    for (ok, what) in [((&probe(&p)).send_(), "predicate listing"), ((&probe(&l)).send_(), "token stream")] {
        if !ok {
            return Some(Viol { class: "not-shareable".into(), msg: format!("a {what} cannot be handed to another thread (not Send)") });
        }
    }
    None
}
fn budget(prop: &str, thorough: bool) -> (u64, f64) {
    if thorough {
        return (u64::MAX / 2, 780.0);
    }
    let n = match prop {
        "C07" => 3500,
        "C08" => 30000,
        _ => 40000,
    };
    (n, 160.0)
}
fn main() {
    unsafe {
        // fixed addresses: once, re-executing this program
        if ffi::personality(0xffffffff) & 0x0040000 == 0 && std::env::var_os("SIM_PERS").is_none() {
            ffi::personality(0x0040000);
            std::env::set_var("SIM_PERS", "1");
            use std::os::unix::process::CommandExt;
            let a: Vec<_> = std::env::args_os().skip(1).collect();
            let e = std::process::Command::new("/proc/self/exe").args(a).exec();
            eprintln!("exec: {e}");
            std::process::exit(2);
        }
        std::env::remove_var("SIM_PERS");
    }
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
    let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[2].clone();
            let (mut runs, mut secs) = budget(&prop, thorough);
            if let Some(n) = env("SIM_RUNS").and_then(|s| s.parse().ok()) {
                runs = n;
            }
            if let Some(n) = env("SIM_SECS").and_then(|s| s.parse().ok()) {
                secs = n;
            }
            let op = Opts {
                prop,
                seed,
                thorough,
                runs,
                secs,
                workers: env("SIM_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(8),
                dir: env("SIM_OUT").unwrap_or_else(|| "/verif/out".into()),
                repo_hash: env("SIM_HASH").unwrap_or_default(),
                verbose: false,
            };
            let _ = op.verbose;
            check(&op)
        }
        Some("replay") => match replay(&a[2]) {
            Ok((prop, Some(v), want)) => {
                println!("{}: {}", v.class, v.msg);
                if v.class == want.class {
                    println!("VIOLATION property={prop} replay={}", a[2]);
                    1
                } else {
                    println!("a different violation than the recorded {}: {}", want.class, want.msg);
                    println!("VIOLATION property={prop} replay={}", a[2]);
                    3
                }
            }
            Ok((prop, None, want)) => {
                println!("{prop}: the recorded violation ({}: {}) does not occur", want.class, want.msg);
                0
            }
            Err(e) => {
                eprintln!("replay: {e}");
                2
            }
        },
        Some("show") => {
            // the plan of one run
            let p = plan::generate(&a[2], seed, a[3].parse().unwrap(), thorough);
            print!("{}", p.json().text());
            0
        }
        Some("hashes") => {
            // event-log hashes of runs, to compare executions: hashes PROP FROM TO
            let o: *mut exec::Out = ffi::shm();
            let or: &'static mut exec::Oracle = Box::leak(Box::default());
            for n in a[3].parse::<u64>().unwrap()..a[4].parse::<u64>().unwrap() {
                let p = plan::generate(&a[2], seed, n, thorough);
                prepare(&p, or, o);
                let orr: &'static exec::Oracle = unsafe { &*(or as *const exec::Oracle) };
                let r = execute(&p, None, orr, o);
                println!("{n} {:016x} {} {:?}", r.hash, r.sched.len(), r.viol.map(|v| v.class));
            }
            0
        }
        _ => {
            eprintln!("usage: libsim check PROP | replay FILE | show PROP RUN | hashes PROP FROM TO");
            2
        }
    };
    std::process::exit(code);
}
