//! Runs one harness on the real machine with concrete inputs.
//!   replay HARNESS PARAMS INPUTS      lists separated by '/', '-' for empty
//!   replay -                          one such triple per line on stdin; each runs in a process of its own
//! prints {"outcome":..,"msg":..,"obs":[..]}
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

static INPUTS: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));
static PARAMS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static OBS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
static BOUND: AtomicU64 = AtomicU64::new(u64::MAX);
static EXPECT: AtomicBool = AtomicBool::new(false);
static OVER: AtomicU64 = AtomicU64::new(0);

struct A;
fn note(n: usize) { if n as u64 > BOUND.load(SeqCst) { OVER.store(n as u64, SeqCst) } }
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n); System.realloc(p, l, n) }
}
#[global_allocator]
static G: A = A;

fn finish(outcome: &str, msg: &str) -> ! {
    BOUND.store(u64::MAX, SeqCst);
    let (mut outcome, mut msg) = (outcome, msg.to_string());
    if OVER.load(SeqCst) > 0 { outcome = "alloc"; msg = format!("allocation of {} bytes", OVER.load(SeqCst)) }
    let obs = match OBS.try_lock() { Ok(o) => o.clone(), _ => vec![] };
    let obs: Vec<String> = obs.iter().map(|x| x.to_string()).collect();
    let m: String = msg.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { ' ' } else { c }).collect();
    let mut so = std::io::stdout();
    let _ = writeln!(so, "{{\"outcome\":\"{outcome}\",\"msg\":\"{m}\",\"obs\":[{}]}}", obs.join(","));
    let _ = so.flush();
    std::process::exit(0)
}
#[no_mangle] extern "C" fn sx_any(bits: u32) -> u64 {
    let mut i = INPUTS.lock().unwrap();
    let k = i.1; i.1 += 1;
    let v = i.0.get(k).copied().unwrap_or(0);
    if bits >= 64 { v } else { v & ((1 << bits) - 1) }
}
#[no_mangle] extern "C" fn sx_assume(c: bool) { if !c { finish("assume", "") } }
#[no_mangle] extern "C" fn sx_assert(c: bool, id: u64) { if !c { finish("assert", &format!("assertion {id}")) } }
#[no_mangle] extern "C" fn sx_cover(_: u64) {}
#[no_mangle] extern "C" fn sx_obs(v: u64) { let b = BOUND.swap(u64::MAX, SeqCst); OBS.lock().unwrap().push(v); BOUND.store(b, SeqCst) }
#[no_mangle] extern "C" fn sx_conc(v: u64) -> u64 { v }
#[no_mangle] extern "C" fn sx_param(i: u64) -> u64 { PARAMS.lock().unwrap().get(i as usize).copied().unwrap_or(0) }
#[no_mangle] extern "C" fn sx_alloc_bound(v: u64) { BOUND.store(v, SeqCst) }
#[no_mangle] extern "C" fn sx_expect_panic(c: bool) { if EXPECT.swap(c, SeqCst) { finish("nopanic", "expected a panic, none happened") } }
#[no_mangle] extern "C" fn sx_and(a: bool, b: bool) -> bool { a && b }
#[no_mangle] extern "C" fn sx_or(a: bool, b: bool) -> bool { a || b }
#[no_mangle] extern "C" fn sx_not(a: bool) -> bool { !a }
#[no_mangle] extern "C" fn sx_ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }

fn list(s: &str) -> Vec<u64> { s.split('/').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect() }

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.len() == 1 && a[0] == "-" {
        let me = std::env::current_exe().unwrap();
        for l in std::io::stdin().lock().lines() {
            let l = l.unwrap();
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() < 3 { continue }
            let o = std::process::Command::new(&me).args(&w[..3]).output().unwrap();
            let s = String::from_utf8_lossy(&o.stdout);
            match s.lines().last() {
                Some(x) if x.starts_with('{') => println!("{x}"),
                _ => println!("{{\"outcome\":\"crash\",\"msg\":\"{}\",\"obs\":[]}}", o.status),
            }
        }
        return;
    }
    if a.len() < 3 { eprintln!("usage: replay HARNESS PARAMS INPUTS | replay -"); std::process::exit(2) }
    let f = match hx::TABLE.iter().find(|x| x.0 == a[0]) { Some(x) => x.1, None => { eprintln!("no such harness"); std::process::exit(2) } };
    *PARAMS.lock().unwrap() = list(&a[1]);
    INPUTS.lock().unwrap().0 = list(&a[2]);
    std::panic::set_hook(Box::new(|i| {
        BOUND.store(u64::MAX, SeqCst);
        let m = i.to_string();
        finish(if EXPECT.load(SeqCst) { "expected" } else { "panic" }, &m)
    }));
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        finish("hang", "no result within 20 s")
    });
    f();
    if EXPECT.load(SeqCst) { finish("nopanic", "expected a panic, none happened") }
    finish("ok", "")
}
