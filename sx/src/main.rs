//! sx: symbolic execution of LLVM IR with an SMT solver, spread over processes.
//!
//!     sx MODULE.ll ENTRY OUTDIR [--jobs N] [--secs S] [--branch-ms N] [--check-ms N]
//!        [--steps N] [--viol N] [--samples N]
//!
//! Every process writes OUTDIR/part-<pid>.json; the caller merges them.
mod big;
mod exec;
mod ir;
mod mem;
mod solver;
mod term;
use std::sync::atomic::{AtomicI32, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn alarm(s: u32) -> u32;
    fn _exit(c: i32) -> !;
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<A>(v: impl IntoIterator<Item = A>, f: impl Fn(A) -> String) -> String {
    format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(","))
}
fn dump(x: &exec::X, path: &str, wall: f64, load_s: f64) {
    let st = &x.st;
    let so = &x.sol.stats;
    let mut o = String::from("{");
    let mut kv = |k: &str, v: String| {
        if o.len() > 1 {
            o.push(',');
        }
        o.push_str(&format!("{}:{}", esc(k), v));
    };
    for (k, v) in [
        ("paths", st.paths),
        ("forks", st.forks),
        ("steps", st.steps),
        ("checks_folded", st.checks_folded),
        ("checks_solver", st.checks_solver),
        ("checks_undecided", st.checks_undecided),
        ("checks_violated", st.checks_violated),
        ("branch_queries", st.branch_queries),
        ("undecided_branches", st.undecided_branches),
        ("specialised_paths", st.specialised_paths),
        ("unexplored", st.unexplored),
        ("max_depth", st.max_depth),
        ("q", so.queries),
        ("q_sat", so.sat),
        ("q_unsat", so.unsat),
        ("q_unknown", so.unknown),
        ("q_cached", so.cache_hits),
        ("q_guessed", x.sol.guessed),
    ] {
        kv(k, v.to_string());
    }
    kv("solver_s", format!("{:.3}", so.time_s));
    kv("solver_max_s", format!("{:.3}", so.max_s));
    kv("wall", format!("{:.3}", wall));
    kv("load_s", format!("{:.3}", load_s));
    kv("killed", format!("{{{}}}", st.killed.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")));
    kv("unsupported", format!("{{{}}}", x.unsupported.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")));
    kv("reached", format!("{{{}}}", st.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
    kv("check_ids", format!("{{{}}}", st.check_ids.iter().map(|(k, v)| format!("\"{}\":{:?}", k, v)).collect::<Vec<_>>().join(",")));
    kv("conds", list(&st.sample_conds, |s| esc(&s.chars().take(600).collect::<String>())));
    kv("errors", list(&x.sol.errors, |s| esc(&s.chars().take(3000).collect::<String>())));
    kv("transcripts", list(x.sol.transcripts.iter().take(2), |s| esc(s)));
    kv("functions", format!("{{{}}}", x.m.fns.iter().filter(|f| f.text.is_some() && f.calls.get() > 0).map(|f| format!("{}:{}", esc(f.name), f.calls.get())).collect::<Vec<_>>().join(",")));
    kv(
        "violations",
        list(&x.viol, |v| {
            format!("{{\"kind\":{},\"id\":{},\"msg\":{},\"place\":{},\"inputs\":{}}}", esc(&v.kind), v.id, esc(&v.msg), esc(&v.place), list(&v.inputs, |c| list(c, |s| esc(s))))
        }),
    );
    kv("samples", list(&x.samples, |(c, n, r)| format!("{{\"inputs\":{},\"checks\":{},\"reached\":{:?}}}", list(c, |s| esc(s)), n, r)));
    o.push('}');
    let tmp = format!("{}.tmp", path);
    std::fs::write(&tmp, o).expect("write part");
    std::fs::rename(&tmp, path).expect("rename part");
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: u64| args.iter().position(|a| a == n).map(|i| args[i + 1].parse().unwrap()).unwrap_or(d);
    let t0 = Instant::now();
    let m = ir::Module::load(&args[1]);
    let load_s = t0.elapsed().as_secs_f64();
    let cfg = exec::Cfg {
        max_steps: opt("--steps", 400_000_000),
        branch_ms: opt("--branch-ms", 3000),
        check_ms: opt("--check-ms", 10000),
        deadline: Instant::now() + Duration::from_secs(opt("--secs", 600)),
        max_viol: opt("--viol", 6) as usize,
    };
    let jobs = opt("--jobs", 8) as i32;
    let dir = args[3].clone();
    let free: &AtomicI32 = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const AtomicI32)
    };
    free.store(jobs - 1, Ordering::SeqCst);
    let mut x = exec::X::new(m, cfg);
    x.max_samples = opt("--samples", 6) as usize;
    let s = x.start(&args[2]);
    x.work.push(s);
    let mut kids: Vec<i32> = vec![];
    let mut t0 = t0;
    let mut fail = 0;
    // a worker that does not notice the deadline is ended; what it found is written as it is found
    let grace = 20;
    unsafe { alarm(opt("--secs", 600) as u32 + grace) };
    while let Some(s) = x.work.pop() {
        let found = x.viol.len();
        x.run_state(s);
        if x.viol.len() > found {
            dump(&x, &format!("{}/part-{}.json", dir, std::process::id()), t0.elapsed().as_secs_f64(), load_s);
        }
        if Instant::now() > x.cfg.deadline && !x.work.is_empty() {
            x.st.unexplored += x.work.len() as u64;
            x.work.clear();
            break;
        }
        while x.work.len() >= 2 && t0.elapsed().as_millis() > 200 {
            // claim a slot
            let mut f = free.load(Ordering::SeqCst);
            let mut got = false;
            while f > 0 {
                match free.compare_exchange(f, f - 1, Ordering::SeqCst, Ordering::SeqCst) {
                    Ok(_) => {
                        got = true;
                        break;
                    }
                    Err(v) => f = v,
                }
            }
            if !got {
                break;
            }
            let pid = unsafe { fork() };
            if pid < 0 {
                free.fetch_add(1, Ordering::SeqCst);
                break;
            }
            let n = x.work.len();
            if pid == 0 {
                // the child takes the older (larger) half
                unsafe { prctl(1, 9, 0, 0, 0) };
                x.work.truncate(n / 2);
                x.reset();
                kids.clear();
                let left = x.cfg.deadline.saturating_duration_since(Instant::now()).as_secs();
                unsafe { alarm(left as u32 + grace) };
                t0 = Instant::now();
            } else {
                x.work.drain(..n / 2);
                kids.push(pid);
            }
        }
        // children that ended badly give their slot back here
        kids.retain(|&k| {
            let mut st = 0;
            let r = unsafe { waitpid(k, &mut st, 1) };
            if r == k {
                if st != 0 {
                    fail += 1;
                    if st & 0x7f != 0 {
                        free.fetch_add(1, Ordering::SeqCst);
                    }
                }
                false
            } else {
                true
            }
        });
    }
    let late = Instant::now() > x.cfg.deadline;
    unsafe { alarm(0) };
    x.sol.stop();
    dump(&x, &format!("{}/part-{}.json", dir, std::process::id()), t0.elapsed().as_secs_f64(), load_s);
    free.fetch_add(1, Ordering::SeqCst);
    for k in kids {
        let mut st = 0;
        unsafe { waitpid(k, &mut st, 0) };
        if st != 0 {
            fail += 1;
            if st & 0x7f != 0 {
                free.fetch_add(1, Ordering::SeqCst);
            }
        }
    }
    if fail > 0 {
        eprintln!("sx: {} worker(s) lost", fail);
    }
    unsafe { _exit(if fail > 0 { if late { 5 } else { 4 } } else { 0 }) }
}
