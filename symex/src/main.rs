//! symex: symbolic execution of rustc-emitted LLVM IR, decided by Z3.
mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod solver;
mod z3;

use exec::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn wait4(pid: i32, st: *mut i32, opt: i32, ru: *mut u8) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn usleep(us: u32) -> i32;
    fn getpid() -> i32;
}

struct Shared {
    active: AtomicI64,
    stop: AtomicU64,
    paths: AtomicU64,
    vios: AtomicU64,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn rec_json(p: &PathRec) -> String {
    let i: Vec<String> = p.inputs.iter().map(|(n, v)| format!("[\"{}\",{}]", esc(n), v)).collect();
    let o: Vec<String> = p.obs.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let c: Vec<String> = p.covers.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    format!("{{\"outcome\":\"{}\",\"inputs\":[{}],\"obs\":[{}],\"covers\":[{}]}}", esc(&p.outcome), i.join(","), o.join(","), c.join(","))
}
fn map_json(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn result_json(e: &Exec) -> String {
    let r = &e.r;
    let v: Vec<String> = r.violations.iter().map(|(m, p)| format!("{{\"msg\":\"{}\",\"rec\":{}}}", esc(m), rec_json(p))).collect();
    let s: Vec<String> = r.samples.iter().map(rec_json).collect();
    let st = &e.s.st;
    let mut funcs: Vec<String> = vec![];
    for f in &e.p.funcs {
        if f.called > 0 {
            let n = String::from_utf8_lossy(f.name);
            if n.contains("7chopper") || n.starts_with("h_") {
                funcs.push(format!("\"{}\"", esc(&n)));
            }
        }
    }
    let nf = e.p.funcs.iter().filter(|f| f.called > 0 && !f.text.is_empty()).count();
    format!(
        "{{\"ends\":{},\"violations\":[{}],\"problems\":{},\"covers\":{},\"samples\":[{}],\"paths\":{},\"steps\":{},\"forks\":{},\"obligations\":{},\"obl_z3\":{},\"confirmed\":{},\"max_forks\":{},\"leftover\":{},\"z3_calls\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"z3_ms\":{},\"z3_max_ms\":{},\"dom_decided\":{},\"cache_hits\":{},\"xchecked\":{},\"funcs\":[{}],\"nfuncs\":{},\"z3_version\":\"{}\"}}\n",
        map_json(&r.ends),
        v.join(","),
        map_json(&r.problems),
        map_json(&r.covers),
        s.join(","),
        r.paths,
        r.steps,
        r.forks,
        r.obligations,
        r.obl_z3,
        r.confirmed,
        r.max_forks,
        r.leftover,
        st.z3_calls,
        st.z3_sat,
        st.z3_unsat,
        st.z3_unknown,
        st.z3_ns / 1_000_000,
        st.max_ns / 1_000_000,
        st.dom_decided,
        st.cache_hits,
        st.xchecked,
        funcs.join(","),
        nf,
        esc(&e.s.z.version)
    )
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut dir = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut workers = 1i64;
    let mut time = 600u64;
    let mut samples = 24usize;
    let mut steps = 30_000_000u64;
    let mut xcheck = false;
    let mut seed = 1u64;
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--ll-dir" => dir = v,
            "--entry" => entry = v,
            "--out" => out = v,
            "--workers" => workers = v.parse().unwrap(),
            "--time" => time = v.parse().unwrap(),
            "--seed" => seed = v.parse().unwrap(),
            "--samples" => samples = v.parse().unwrap(),
            "--steps" => steps = v.parse().unwrap(),
            "--texts" => {
                ext::TEXTS.store(true, std::sync::atomic::Ordering::Relaxed);
                i += 1;
                continue;
            }
            "--xcheck" => {
                xcheck = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let start = Instant::now();
    let mut p = ir::Prog::new();
    let mut files: Vec<_> = std::fs::read_dir(&dir).expect("ll dir").map(|e| e.unwrap().path()).filter(|p| p.extension().map(|e| e == "ll").unwrap_or(false)).collect();
    files.sort();
    for f in &files {
        p.load(f.to_str().unwrap()).expect("load");
    }
    let load_ms = start.elapsed().as_millis();
    let f = match p.find_func(&entry) {
        Some(f) => f,
        None => {
            eprintln!("no entry {}", entry);
            std::process::exit(2);
        }
    };
    let sh: &'static Shared = unsafe {
        let m = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(m as *const Shared)
    };
    sh.active.store(1, Ordering::SeqCst);
    let mut e = Exec::new(p);
    e.max_samples = samples;
    e.step_limit = steps;
    e.s.xcheck = xcheck;
    let st = e.initial(f);
    e.work.push_back(st);
    unsafe {
        prctl(36, 1, 0, 0, 0);
    }
    let root = unsafe { getpid() };
    let deadline = start + Duration::from_secs(time);
    e.deadline = deadline;
    e.s.deadline = deadline + Duration::from_secs(10);
    e.rng ^= seed.wrapping_mul(0xD1342543DE82EF95);
    let dbg = std::env::var("SYMEX_PROGRESS").is_ok();
    let mut last = Instant::now();
    loop {
        if sh.stop.load(Ordering::Relaxed) != 0 || Instant::now() > deadline {
            e.r.leftover += e.work.len() as u64;
            break;
        }
        let Some(st) = e.work.pop_back() else { break };
        e.run_path(st);
        if dbg && last.elapsed().as_secs() >= 5 {
            last = Instant::now();
            eprintln!("[{}] {} paths {:?} work {} z3 {} ({} ms) dom {} vios {}", unsafe { getpid() }, e.r.paths, e.r.ends, e.work.len(), e.s.st.z3_calls, e.s.st.z3_ns / 1_000_000, e.s.st.dom_decided, e.r.violations.len());
        }
        if e.r.violations.len() > 40 {
            sh.stop.store(1, Ordering::Relaxed);
        }
        while e.work.len() >= 2 && workers > 1 {
            let n = sh.active.fetch_add(1, Ordering::SeqCst);
            if n >= workers {
                sh.active.fetch_sub(1, Ordering::SeqCst);
                break;
            }
            let pid = unsafe { fork() };
            if pid == 0 {
                let keep = e.work.pop_front().unwrap();
                e.work.clear();
                e.work.push_back(keep);
                e.r = Results::default();
                e.s.st = Default::default();
                e.rng ^= unsafe { getpid() } as u64 * 0x9E3779B97F4A7C15;
                for f in e.p.funcs.iter_mut() {
                    f.called = 0;
                }
                break;
            } else if pid < 0 {
                sh.active.fetch_sub(1, Ordering::SeqCst);
                break;
            } else {
                e.work.pop_front();
            }
        }
    }
    let me = unsafe { getpid() };
    if let Some(h) = &e.hot {
        let mut v: Vec<_> = h.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (n, c) in v.iter().take(25) {
            eprintln!("{:8} {}", c, n);
        }
    }
    let js = result_json(&e);
    std::fs::write(format!("{}.{}", out, me), js).expect("write results");
    sh.active.fetch_sub(1, Ordering::SeqCst);
    if me != root {
        unsafe { _exit(0) }
    }
    // wait for every descendant
    let mut bad = 0;
    loop {
        let mut s = 0i32;
        let r = unsafe { wait4(-1, &mut s, 0, std::ptr::null_mut()) };
        if r < 0 {
            break;
        }
        if s != 0 {
            bad += 1;
        }
        unsafe {
            usleep(0);
        }
    }
    std::fs::write(&out, format!("{{\"failed_workers\":{},\"load_ms\":{},\"wall_ms\":{}}}\n", bad, load_ms, start.elapsed().as_millis())).unwrap();
    unsafe { _exit(0) }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
