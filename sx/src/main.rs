//! Path-forking symbolic executor for LLVM IR; see DESIGN.md.
mod expr; mod ir; mod solver; mod exec;
use std::sync::{Arc, Mutex};
use std::io::Write;
pub static FUNCS: Mutex<Vec<(String, u64)>> = Mutex::new(vec![]);

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
fn arr(v: &[u64]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

const USAGE: &str = "usage: sx FILE.ll [-v] JOB...   with JOB = harness[:p0,p1,..][@key=value]*
  keys: threads time samples seed steps ite all inputs (inputs=a/b/c: concrete run)";

fn main() {
    let mut a: Vec<String> = std::env::args().skip(1).collect();
    let verbose = a.iter().any(|x| x == "-v");
    a.retain(|x| x != "-v");
    if a.len() < 2 { eprintln!("{USAGE}"); std::process::exit(2) }
    let m = match ir::Module::load(&a[0]) { Ok(m) => Arc::new(m), Err(e) => { eprintln!("{e}"); std::process::exit(2) } };
    let list = |s: &str, c: char| -> Vec<u64> { s.split(c).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    for job in &a[1..] {
        let mut it = job.split('@');
        let h = it.next().unwrap();
        let (name, params) = h.split_once(':').unwrap_or((h, ""));
        let mut cfg = exec::Config { harness: name.into(), params: list(params, ','), threads: 8, max_steps: 200_000_000, time_s: 3600, samples: 4, stop_on_fail: true, ite_max: 4096, settle: 16, max_fails: 50, seed: 1, input_file: None, verbose };
        for o in it {
            let (k, v) = o.split_once('=').unwrap_or((o, "1"));
            let n = || -> u64 { v.parse().unwrap() };
            match k {
                "threads" => cfg.threads = n() as usize, "time" => cfg.time_s = n(), "samples" => cfg.samples = n() as usize, "seed" => cfg.seed = n(),
                "steps" => cfg.max_steps = n(), "ite" => cfg.ite_max = n(), "settle" => cfg.settle = n(), "all" => cfg.stop_on_fail = false, "inputs" => cfg.input_file = Some(list(v, '/')),
                _ => { eprintln!("unknown option {o}\n{USAGE}"); std::process::exit(2) }
            }
        }
        FUNCS.lock().unwrap().clear();
        let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (d2, j2, lim) = (done.clone(), job.clone(), cfg.time_s + 20);
        std::thread::spawn(move || {
            let t0 = std::time::Instant::now();
            while t0.elapsed().as_secs() < lim { std::thread::sleep(std::time::Duration::from_millis(200)); if d2.load(std::sync::atomic::Ordering::SeqCst) { return } }
            println!("{{\"job\":{},\"timed_out\":true,\"errors\":[\"solver did not return in time\"],\"fails\":[]}}", js(&j2));
            let _ = std::io::stdout().flush();
            std::process::exit(3);
        });
        let (t, timed_out, el) = exec::run(m.clone(), cfg);
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        let rep = |v: &[exec::PathReport]| v.iter().map(|r| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"obs\":{},\"steps\":{}}}", js(&r.kind), js(&r.msg), arr(&r.inputs), arr(&r.obs), r.steps)).collect::<Vec<_>>().join(",");
        let s = &t.stats;
        println!("{{\"job\":{},\"paths\":{},\"sym_paths\":{},\"forks\":{},\"steps\":{},\"infeasible\":{},\"cut\":{},\"asserts_solver\":{},\"asserts_trivial\":{},\"expected_panics\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"max_inputs\":{},\"max_pc\":{},\"max_path_steps\":{},\"nodes\":{},\"covers\":{},\"timed_out\":{},\"wall_s\":{:.2},\"errors\":[{}],\"fails\":[{}],\"samples\":[{}],\"funcs\":[{}]}}",
            js(job), t.paths, t.sym_done, t.forks, t.steps, t.infeasible, t.cut, t.asserts_solver, t.asserts_trivial, t.expected_panics, s.queries, s.sat, s.unsat, t.unknown, s.cache_hits, s.solver_ns as f64 / 1e9, s.max_ns as f64 / 1e9, t.max_inputs, t.max_pc, t.max_path_steps, t.nodes, t.covers, timed_out, el,
            t.errors.iter().take(5).map(|e| js(e)).collect::<Vec<_>>().join(","), rep(&t.fails), rep(&t.samples),
            FUNCS.lock().unwrap().iter().map(|(n, c)| format!("[{},{}]", js(n), c)).collect::<Vec<_>>().join(","));
        let _ = std::io::stdout().flush();
    }
}
