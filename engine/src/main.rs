mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
mod val;
use exec::*;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn wait(s: *mut i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    let ir = get("--ir", "");
    let entry = get("--entry", "");
    let out = get("--out", "out");
    let timeout: u64 = get("--timeout", "600").parse().unwrap();
    let procs: u64 = get("--procs", "8").parse().unwrap();
    let max_steps: u64 = get("--max-steps", "20000000").parse().unwrap();
    let max_errors: u64 = get("--max-errors", "1").parse().unwrap();
    let z3t: u32 = get("--z3-timeout", "30000").parse().unwrap();
    let t0 = Instant::now();
    std::fs::create_dir_all(&out).unwrap();
    for e in std::fs::read_dir(&out).unwrap() {
        let p = e.unwrap().path();
        if p.is_file() {
            std::fs::remove_file(p).unwrap();
        }
    }
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(!p.is_null() && p as isize != -1);
        &*(p as *const Shared)
    };
    unsafe {
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
    }
    let root = std::process::id();
    let a2 = a.clone();
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let a = a2;
            let get = |k: &str, d: &str| -> String {
                a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string())
            };
            let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ir)));
            let nf = m.funcs.iter().filter(|f| f.range.is_some()).count();
            let load_s = t0.elapsed().as_secs_f64();
            let cfg = Cfg {
                max_steps,
                max_errors,
                deep: get("--deep", "16").parse().unwrap(),
                deadline: t0 + Duration::from_secs(timeout),
                outdir: out.clone(),
                procs,
                trace: std::env::var("SYM_TRACE").is_ok(),
                panic_ok: false,
                params: get("--params", "").split(',').filter(|x| !x.is_empty()).map(|x| {
                    let (k, v) = x.split_once('=').unwrap();
                    (k.to_string(), v.parse().unwrap())
                }).collect(),
            };
            sh.live.store(1, SeqCst);
            let mut ex = Exec::new(m, cfg, sh, z3t);
            let st = ex.initial(&entry);
            ex.work.push(st);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.run()));
            if r.is_err() {
                sh.unsup.fetch_add(1, SeqCst);
                sh.stop.store(1, SeqCst);
                ex.unsup_msgs.insert("engine panic".into());
            }
            ex.flush();
            sh.live.fetch_sub(1, SeqCst);
            if std::process::id() != root {
                unsafe { _exit(0) }
            }
            let mut bad = 0;
            loop {
                let mut s = 0;
                let p = unsafe { wait(&mut s) };
                if p < 0 {
                    break;
                }
                if s != 0 {
                    bad += 1;
                }
            }
            let g = |x: &std::sync::atomic::AtomicU64| x.load(SeqCst);
            let js = format!(
                "{{\"functions_in_module\": {}, \"load_s\": {:.2}, \"wall_s\": {:.2}, \"errors\": {}, \"unsupported\": {}, \"timeout\": {}, \"dead_workers\": {}, \"paths\": {}, \"assumed_away\": {}, \"instructions\": {}, \"max_path_instructions\": {}, \"forks\": {}, \"assertions\": {}, \"assertions_symbolic\": {}, \"z3_queries\": {}, \"z3_sat\": {}, \"z3_unsat\": {}, \"z3_unknown\": {}, \"z3_s\": {:.3}, \"byte_domain_queries\": {}, \"case_analysis_queries\": {}, \"case_analysis_confirmed_by_z3\": {}, \"query_cache_hits\": {}, \"workers\": {}}}",
                nf, load_s, t0.elapsed().as_secs_f64(), g(&sh.errors), g(&sh.unsup), g(&sh.timeout), bad, g(&sh.paths), g(&sh.assumed), g(&sh.steps), g(&sh.maxsteps), g(&sh.forks), g(&sh.asserts), g(&sh.asserts_sym), g(&sh.z3), g(&sh.sat), g(&sh.unsat), g(&sh.unknown), g(&sh.z3_ns) as f64 / 1e9, g(&sh.domain), g(&sh.csp), g(&sh.xchk), g(&sh.cache), g(&sh.procs) + 1
            );
            std::fs::write(format!("{}/summary.json", out), &js).unwrap();
            println!("{}", js);
        })
        .unwrap();
    h.join().unwrap();
}
