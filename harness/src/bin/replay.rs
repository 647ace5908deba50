//! Runs one harness natively on recorded inputs: replay HARNESS INPUTS-FILE
//! Prints OBS/COVER/FAIL/OUTCOME lines. The file has one "name value" pair per line.
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::TcpListener;
use std::sync::Mutex;
use std::sync::atomic::{AtomicI32, AtomicU64, AtomicUsize, Ordering};

struct Limit;
static MAX: AtomicUsize = AtomicUsize::new(64 << 20);
fn huge(n: usize) -> ! {
    MAX.store(usize::MAX, Ordering::SeqCst);
    println!("\nINFO allocation of {} bytes\nOUTCOME huge-alloc", n);
    let _ = std::io::stdout().flush();
    unsafe { _exit(0) }
}
unsafe impl GlobalAlloc for Limit {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX.load(Ordering::Relaxed) {
            huge(l.size())
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX.load(Ordering::Relaxed) {
            huge(l.size())
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > MAX.load(Ordering::Relaxed) {
            huge(n)
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Limit = Limit;

extern "C" {
    fn _exit(c: i32) -> !;
    fn on_exit(f: extern "C" fn(i32, *mut u8), a: *mut u8) -> i32;
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
    fn dlsym(h: *mut u8, n: *const u8) -> *mut u8;
    fn dup(a: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const u8, f: i32, ...) -> i32;
    #[link_name = "__init_array_start"]
    static INIT_START: [Option<Init>; 0];
    #[link_name = "__init_array_end"]
    static INIT_END: [Option<Init>; 0];
}

type Init = extern "C" fn(usize, *const *const u8, *const *const u8);
static REPORT: AtomicI32 = AtomicI32::new(-1);
static ALLOW: AtomicU64 = AtomicU64::new(0);

static mut VALS: Option<HashMap<String, u64>> = None;
fn val(n: &str) -> u64 {
    #[allow(static_mut_refs)]
    unsafe {
        VALS.as_ref().unwrap().get(n).copied().unwrap_or(0)
    }
}
unsafe fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
/// standard output is the report again
fn report() {
    let _ = std::io::stdout().flush();
    let r = REPORT.swap(-1, Ordering::SeqCst);
    if r >= 0 {
        unsafe { dup2(r, 1) };
    }
}
fn finish(o: &str) -> ! {
    report();
    println!("\nOUTCOME {}", o);
    let _ = std::io::stdout().flush();
    unsafe { _exit(0) }
}
extern "C" fn at_exit(code: i32, _: *mut u8) {
    report();
    if ALLOW.load(Ordering::SeqCst) & if code & 0xff == 0 { 16 } else { 2 } != 0 {
        println!("\nALLOWED");
    }
    finish(if code & 0xff == 0 { "exit0" } else { "exit" })
}

#[no_mangle]
unsafe extern "C" fn sx_sym(p: *const u8, n: usize, i: usize, _w: usize) -> u64 {
    val(&format!("{}_{}", s(p, n), i))
}
#[no_mangle]
unsafe extern "C" fn sx_choose(p: *const u8, n: usize, i: usize, _k: usize) -> u64 {
    val(&format!("{}_{}", s(p, n), i))
}
#[no_mangle]
unsafe extern "C" fn sx_assume(c: u64) {
    if c == 0 {
        finish("assume")
    }
}
#[no_mangle]
unsafe extern "C" fn sx_assert(c: u64, p: *const u8, n: usize) {
    if c == 0 {
        println!("\nFAIL {}", s(p, n));
    }
}
#[no_mangle]
unsafe extern "C" fn sx_fail(p: *const u8, n: usize) {
    report();
    println!("\nFAIL {}", s(p, n));
    finish("fail")
}
#[no_mangle]
unsafe extern "C" fn sx_cover(p: *const u8, n: usize) {
    println!("\nCOVER {}", s(p, n));
}
#[no_mangle]
unsafe extern "C" fn sx_observe(p: *const u8, n: usize, v: u64) {
    println!("\nOBS {}={}", s(p, n), v);
}
#[no_mangle]
unsafe extern "C" fn sx_observe_bytes(p: *const u8, n: usize, q: *const u8, k: usize) {
    let b = if k == 0 { &[][..] } else { std::slice::from_raw_parts(q, k) };
    let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    println!("\nOBS {}={}", s(p, n), h);
}
#[no_mangle]
unsafe extern "C" fn sx_allow(m: u64) {
    ALLOW.store(m, Ordering::SeqCst)
}
/// std keeps what its start-up function was given
#[no_mangle]
unsafe extern "C" fn sx_args(n: usize, p: *const *const u8) {
    let mut f = std::ptr::addr_of!(INIT_START) as *const Option<Init>;
    let end = std::ptr::addr_of!(INIT_END) as *const Option<Init>;
    while f < end {
        if let Some(g) = *f {
            g(n, p, p.add(n));
        }
        f = f.add(1);
    }
}
static ASKED: Mutex<Vec<u8>> = Mutex::new(Vec::new());
#[no_mangle]
unsafe extern "C" fn sx_serve(p: *const u8, n: usize, step: usize) -> u64 {
    let answer = std::slice::from_raw_parts(p, n).to_vec();
    let l = TcpListener::bind(("127.0.0.1", 0)).expect("loopback");
    let port = l.local_addr().unwrap().port();
    std::thread::spawn(move || {
        for s in l.incoming() {
            let mut s = s.unwrap();
            let mut all = vec![];
            let mut b = [0u8; 1];
            while !all.ends_with(b"\r\n\r\n") {
                match s.read(&mut b) {
                    Ok(1) => all.push(b[0]),
                    _ => break,
                }
            }
            ASKED.lock().unwrap().extend(all);
            let _ = s.set_nodelay(true);
            for c in answer.chunks(if step == 0 { usize::MAX } else { step }) {
                let _ = s.write_all(c);
            }
        }
    });
    port as u64
}
#[no_mangle]
unsafe extern "C" fn sx_asked(p: *mut u8, n: usize) -> u64 {
    let a = ASKED.lock().unwrap();
    let k = n.min(a.len());
    std::ptr::copy_nonoverlapping(a.as_ptr(), p, k);
    k as u64
}
/// reads (0), writes (1) of files or listings of directories (2) of which some fail: which, first, how many, errno, most at a time, seen
struct Fault(u64, u64, u64, i32, u64, u64);
static FAULT: Mutex<Option<Fault>> = Mutex::new(None);
#[no_mangle]
extern "C" fn sx_fault(op: u64, at: u64, times: u64, errno: u64, piece: u64) {
    *FAULT.lock().unwrap() = Some(Fault(op, at, times, errno as i32, piece, 0));
}
#[no_mangle]
extern "C" fn sx_fault_end() -> u64 {
    match FAULT.lock().unwrap().take() {
        Some(f) => f.5.saturating_sub(f.1).min(f.2),
        None => 0,
    }
}
fn regular(fd: i32) -> bool {
    std::fs::metadata(format!("/proc/self/fd/{}", fd)).is_ok_and(|m| m.is_file())
}
fn fault(fd: i32, op: u64, n: usize) -> Result<usize, i32> {
    match FAULT.lock().unwrap().as_mut() {
        // only files, and not the report
        Some(f) if f.0 == op && (op == 2 || (fd != 1 || REPORT.load(Ordering::SeqCst) >= 0) && regular(fd)) => {
            let i = f.5;
            f.5 += 1;
            let now = i >= f.1 && i - f.1 < f.2;
            if now && f.3 != 0 {
                Err(f.3)
            } else if f.4 > 0 && (now || f.3 != 0) {
                Ok(n.min(f.4 as usize))
            } else {
                Ok(n)
            }
        }
        _ => Ok(n),
    }
}
unsafe fn call(number: i64, fd: i32, op: u64, p: *mut u8, n: usize) -> isize {
    match fault(fd, op, n) {
        Ok(n) => syscall(number, fd, p, n) as isize,
        Err(e) => {
            *__errno_location() = e;
            -1
        }
    }
}
#[no_mangle]
unsafe extern "C" fn readdir64(d: *mut u8) -> *mut u8 {
    if let Err(e) = fault(-1, 2, 0) {
        *__errno_location() = e;
        return std::ptr::null_mut();
    }
    let next: extern "C" fn(*mut u8) -> *mut u8 = std::mem::transmute(dlsym(usize::MAX as *mut u8, b"readdir64\0".as_ptr()));
    next(d)
}
// in place of libc's, for std too
#[cfg(target_arch = "x86_64")]
#[no_mangle]
unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    call(0, fd, 0, p, n)
}
#[cfg(target_arch = "x86_64")]
#[no_mangle]
unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    call(1, fd, 1, p as *mut u8, n)
}
#[no_mangle]
unsafe extern "C" fn sx_stdio(i: *const u8, il: usize, o: *const u8, ol: usize) {
    let file = |p: *const u8, n: usize, f: i32| {
        let mut b = std::slice::from_raw_parts(p, n).to_vec();
        b.push(0);
        open(b.as_ptr(), f)
    };
    if il > 0 {
        dup2(file(i, il, 0), 0);
    }
    if ol > 0 {
        let _ = std::io::stdout().flush();
        REPORT.store(dup(1), Ordering::SeqCst);
        dup2(file(o, ol, 0o2001), 1);
    } else {
        report();
    }
}
#[no_mangle]
unsafe extern "C" fn sx_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
unsafe extern "C" fn sx_and(a: u64, b: u64) -> u64 {
    (a != 0 && b != 0) as u64
}
#[no_mangle]
unsafe extern "C" fn sx_or(a: u64, b: u64) -> u64 {
    (a != 0 || b != 0) as u64
}
#[no_mangle]
unsafe extern "C" fn sx_ite(c: u64, a: u64, b: u64) -> u64 {
    if c != 0 {
        a
    } else {
        b
    }
}
#[no_mangle]
unsafe extern "C" fn sx_put(p: *mut u8, n: usize, q: *const u8, l: usize) {
    let nm = s(q, l);
    for i in 0..n {
        *p.add(i) = val(&format!("{}_{}", nm, i)) as u8;
    }
}
#[no_mangle]
unsafe extern "C" fn sx_bytes_eq(p: *const u8, q: *const u8, n: usize) -> u64 {
    (0..n).all(|i| *p.add(i) == *q.add(i)) as u64
}
#[no_mangle]
unsafe extern "C" fn sx_trace(p: *const u8, n: usize, v: u64) {
    println!("\nTRACE {}={}", s(p, n), v);
}
#[no_mangle]
unsafe extern "C" fn sx_symbolic() -> u64 {
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("inputs file");
    let mut m = HashMap::new();
    for l in text.lines() {
        let mut p = l.split_whitespace();
        if let (Some(n), Some(v)) = (p.next(), p.next()) {
            if let Ok(v) = v.parse() {
                m.insert(n.to_string(), v);
            }
        }
    }
    unsafe {
        VALS = Some(m);
        on_exit(at_exit, std::ptr::null_mut());
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        report();
        println!("\nINFO panic {}", i.to_string().replace('\n', " "));
        finish(&format!("panic {}", loc))
    }));
    let f = harness::find(&a[1]).unwrap_or_else(|| {
        println!("no harness {}", a[1]);
        unsafe { _exit(2) }
    });
    if let Ok(n) = std::env::var("SX_HUGE") {
        MAX.store(n.parse().unwrap(), Ordering::SeqCst);
    }
    f();
    finish("ok");
}
