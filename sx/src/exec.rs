//! Path-forking symbolic executor for the lowered IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V { C(u64), E(Eid), A(Rc<Vec<V>>) }

const NOSYM: u32 = u32::MAX;

#[derive(Clone)]
pub struct Obj { data: Vec<u8>, sym: Option<Box<Vec<Eid>>>, ro: bool }

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Dec { val: u64, taken: bool, implied: bool }

#[derive(Clone)]
struct Frame { f: *const Func, pc: usize, block: u32, regs: Vec<V>, allocas: Vec<u32>, ret_reg: Option<u32>, normal: Option<u32> }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    gover: FxMap<u32, Rc<Obj>>,
    pc: Vec<Eid>,
    model: Rc<Vec<u64>>,
    inputs: Vec<(u32, Eid)>, // width, expr
    /// every symbolic decision so far; `tr0` is its length when the current instruction started.
    /// A forked state executes its instruction again and takes the decisions from `rp` on from here.
    trace: Vec<Dec>,
    tr0: usize,
    rp: usize,
    restart: bool,
    /// expressions whose value follows from the path condition; `learned` joins after the current instruction
    subst: FxMap<Eid, u64>,
    learned: Vec<(Eid, u64)>,
    steps: u64,
    obs: Vec<V>,
    covers: u64,
    alloc_bound: Option<V>,
    expect_panic: Option<V>,
    asserts: u64,
}

#[derive(Clone, Debug)]
pub enum End {
    Done,
    Infeasible,
    /// outcome kind, message
    Fail(&'static str, String),
    Error(String),
    Cut,
}

#[derive(Clone, Debug)]
pub struct PathReport { pub kind: String, pub msg: String, pub inputs: Vec<u64>, pub obs: Vec<u64>, pub steps: u64 }

pub struct Config { pub harness: String, pub params: Vec<u64>, pub threads: usize, pub max_steps: u64, pub time_s: u64, pub samples: usize, pub stop_on_fail: bool, pub ite_max: u64, pub settle: u64, pub max_fails: usize, pub seed: u64, pub input_file: Option<Vec<u64>>, pub verbose: bool }

#[derive(Default)]
pub struct Totals {
    pub paths: u64, pub forks: u64, pub steps: u64, pub infeasible: u64, pub asserts_solver: u64, pub asserts_trivial: u64, pub cut: u64,
    pub stats: Stats, pub covers: u64, pub fails: Vec<PathReport>, pub errors: Vec<String>, pub samples: Vec<PathReport>, pub unknown: u64,
    pub funcs: Vec<u64>, pub max_pc: usize, pub max_inputs: usize, pub nodes: u64, pub sym_done: u64, pub seen: u64, pub expected_panics: u64, pub max_path_steps: u64,
}

pub struct Shared {
    pub m: Arc<Module>,
    pub cfg: Config,
    queue: Mutex<Vec<Vec<Dec>>>,
    cv: Condvar,
    busy: AtomicUsize,
    idle: AtomicUsize,
    stop: AtomicBool,
    timed_out: AtomicBool,
    pub totals: Mutex<Totals>,
    start: Instant,
    pub icpt: Vec<u8>,
    live_paths: AtomicU64,
}

struct Worker<'a> {
    sh: &'a Shared,
    x: Ctx,
    s: Solver,
    stack: Vec<State>,
    globals: Vec<Rc<Obj>>,
    fcache: Vec<Option<*const Func>>,
    fcount: Vec<u64>,
    t: Totals,
    prefix: Vec<Dec>,
    ppos: usize,
    rng: u64,
    sites: FxMap<(usize, usize), (u64, u64, u64)>,
}

fn m64(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
fn sx64(v: u64, w: u32) -> i64 { ((v << (64 - w)) as i64) >> (64 - w) }

const I_PANIC: u8 = 1;
const I_HASHKEYS: u8 = 2;
const I_HASH_CONST: u8 = 3;

pub fn run(m: Arc<Module>, cfg: Config) -> (Totals, bool, f64) {
    let icpt = m.funcs.iter().map(|f| {
        let n = &*f.name;
        if n.contains("4core9panicking") || (n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("rust_panic") || n.contains("panic_with_hook") || n.contains("default_hook")))
            || n.contains("handle_alloc_error") || n.contains("alloc_error_handler") || n.contains("rust_oom") || n.contains("capacity_overflow") { I_PANIC }
        else if n.contains("hashmap_random_keys") { I_HASHKEYS }
        else if n.contains("8hash_one") { I_HASH_CONST }
        else { 0 }
    }).collect();
    let sh = Shared { m, cfg, queue: Mutex::new(vec![vec![]]), cv: Condvar::new(), busy: AtomicUsize::new(0), idle: AtomicUsize::new(0), stop: AtomicBool::new(false), timed_out: AtomicBool::new(false), totals: Mutex::new(Totals::default()), start: Instant::now(), icpt, live_paths: AtomicU64::new(0) };
    let n = sh.cfg.threads;
    std::thread::scope(|sc| {
        for i in 0..n {
            let sh = &sh;
            std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(sc, move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(sh, i as u64)));
                if let Err(e) = r {
                    let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    sh.totals.lock().unwrap().errors.push(format!("executor panicked: {msg}"));
                    sh.stop.store(true, SeqCst);
                    sh.cv.notify_all();
                }
            }).unwrap();
        }
    });
    let el = sh.start.elapsed().as_secs_f64();
    let to = sh.timed_out.load(SeqCst);
    let mut t = sh.totals.into_inner().unwrap();
    t.funcs.truncate(sh.m.funcs.len());
    // print function names executed
    let mut v: Vec<(u64, &str)> = t.funcs.iter().enumerate().filter(|(_, &c)| c > 0).map(|(i, &c)| (c, &*sh.m.funcs[i].name)).collect();
    v.sort_by(|a, b| b.0.cmp(&a.0));
    crate::FUNCS.lock().unwrap().extend(v.into_iter().map(|(c, n)| (n.to_string(), c)));
    (t, to, el)
}

fn worker(sh: &Shared, idx: u64) {
    let mut w = Worker {
        sh, x: Ctx::new(), s: Solver::new(60_000), stack: vec![],
        globals: sh.m.globals.iter().map(|g| Rc::new(Obj { data: g.bytes.clone(), sym: None, ro: g.konst })).collect(),
        fcache: vec![None; sh.m.funcs.len()], fcount: vec![0; sh.m.funcs.len()], t: Totals::default(), prefix: vec![], ppos: 0,
        rng: (sh.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (idx + 1).wrapping_mul(0xD1B54A32D192ED03)) | 1, sites: Default::default(),
    };
    sh.busy.fetch_add(1, SeqCst);
    loop {
        let job = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(SeqCst) { break None }
                if let Some(j) = q.pop() { break Some(j) }
                // become idle
                let b = sh.busy.fetch_sub(1, SeqCst) - 1;
                sh.idle.fetch_add(1, SeqCst);
                if b == 0 && sh.start.elapsed() > Duration::from_millis(20) { // nobody working, queue empty
                    sh.stop.store(true, SeqCst);
                    sh.cv.notify_all();
                    sh.idle.fetch_sub(1, SeqCst);
                    sh.busy.fetch_add(1, SeqCst);
                    break None;
                }
                let (q2, _) = sh.cv.wait_timeout(q, Duration::from_millis(5)).unwrap();
                q = q2;
                sh.idle.fetch_sub(1, SeqCst);
                sh.busy.fetch_add(1, SeqCst);
            }
        };
        match job { Some(p) => w.job(p), None => break }
        if sh.stop.load(SeqCst) { break }
    }
    sh.busy.fetch_sub(1, SeqCst);
    w.finish();
}

type R<T> = Result<T, End>;

impl<'a> Worker<'a> {
    fn finish(&mut self) {
        let mut t = self.sh.totals.lock().unwrap();
        let mut v: Vec<_> = self.sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1.1));
        for (k, z) in v.into_iter().take(12) { eprintln!("site {} pc {}: {} queries {:.2}s {} forks", unsafe { &(*(k.0 as *const Func)).name }, k.1, z.0, z.1 as f64 / 1e9, z.2) }
        let o = &mut self.t;
        t.paths += o.paths; t.forks += o.forks; t.steps += o.steps; t.infeasible += o.infeasible; t.asserts_solver += o.asserts_solver; t.asserts_trivial += o.asserts_trivial; t.cut += o.cut;
        t.covers |= o.covers; t.fails.append(&mut o.fails); t.errors.append(&mut o.errors); t.samples.append(&mut o.samples); t.unknown += o.unknown;
        t.max_pc = t.max_pc.max(o.max_pc); t.max_inputs = t.max_inputs.max(o.max_inputs); t.nodes += self.x.nodes.len() as u64; t.sym_done += o.sym_done; t.expected_panics += o.expected_panics; t.max_path_steps = t.max_path_steps.max(o.max_path_steps);
        let s = &self.s.stats;
        let ts = &mut t.stats;
        ts.queries += s.queries; ts.sat += s.sat; ts.unsat += s.unsat; ts.unknown += s.unknown; ts.cache_hits += s.cache_hits; ts.model_hits += s.model_hits; ts.solver_ns += s.solver_ns; ts.max_ns = ts.max_ns.max(s.max_ns);
        if t.funcs.is_empty() { t.funcs = vec![0; self.fcount.len()] }
        for (i, c) in self.fcount.iter().enumerate() { t.funcs[i] += c }
    }

    fn func(&mut self, i: u32) -> R<*const Func> {
        if let Some(p) = self.fcache[i as usize] { return Ok(p) }
        match self.sh.m.func(i) {
            Some(Ok(f)) => { let p = Arc::as_ptr(&f); self.fcache[i as usize] = Some(p); Ok(p) }
            Some(Err(e)) => Err(End::Error(e)),
            None => Err(End::Error(format!("call of undefined function {}", self.sh.m.funcs[i as usize].name))),
        }
    }

    fn job(&mut self, prefix: Vec<Dec>) {
        let fi = match self.sh.m.fmap.get(self.sh.cfg.harness.as_str()) { Some(&i) => i, None => { self.t.errors.push(format!("no function {}", self.sh.cfg.harness)); self.sh.stop.store(true, SeqCst); return } };
        let f = match self.func(fi) { Ok(f) => f, Err(e) => { self.t.errors.push(format!("{e:?}")); return } };
        let mut st = State { frames: vec![], objs: vec![], free: vec![], gover: Default::default(), pc: vec![], model: Rc::new(vec![]), inputs: vec![], trace: vec![], tr0: 0, rp: 0, restart: false, subst: Default::default(), learned: vec![], steps: 0, obs: vec![], covers: 0, alloc_bound: None, expect_panic: None, asserts: 0 };
        self.push_frame(&mut st, f, vec![], None, None);
        self.prefix = prefix;
        self.ppos = 0;
        self.stack.push(st);
        let mut tick = 0u32;
        while let Some(mut st) = self.stack.pop() {
            let end = self.run(&mut st);
            self.path_end(st, end);
            tick += 1;
            if self.sh.stop.load(Relaxed) { return }
            if tick % 16 == 0 && self.sh.start.elapsed().as_secs() >= self.sh.cfg.time_s { self.sh.timed_out.store(true, SeqCst); self.sh.stop.store(true, SeqCst); self.sh.cv.notify_all(); return }
        }
    }

    fn donate(&mut self) {
        if self.ppos < self.prefix.len() || self.stack.is_empty() { return }
        let idle = self.sh.idle.load(Relaxed);
        if idle == 0 { return }
        let mut q = self.sh.queue.lock().unwrap();
        let mut k = 0;
        while q.len() < idle * 2 && k < 4 && self.stack.len() > k {
            // oldest states first
            let s = self.stack.remove(0);
            q.push(s.trace);
            k += 1;
        }
        drop(q);
        self.sh.cv.notify_all();
    }

    fn rand(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }

    fn report(&mut self, st: &State, model: &[u64], kind: &str, msg: &str) -> PathReport {
        let inputs = st.inputs.iter().map(|&(_, e)| self.x.eval(e, model) as u64).collect();
        let obs = st.obs.iter().map(|v| match v { V::C(k) => *k, V::E(e) => self.x.eval(*e, model) as u64, _ => 0 }).collect();
        PathReport { kind: kind.into(), msg: msg.into(), inputs, obs, steps: st.steps }
    }

    fn fail(&mut self, st: &State, model: &[u64], kind: &str, msg: &str) {
        let r = self.report(st, model, kind, msg);
        self.t.fails.push(r);
        if self.sh.cfg.stop_on_fail || self.t.fails.len() >= self.sh.cfg.max_fails { self.sh.stop.store(true, SeqCst); self.sh.cv.notify_all(); }
    }

    fn path_end(&mut self, st: State, end: End) {
        self.t.steps += st.steps;
        self.t.max_pc = self.t.max_pc.max(st.pc.len());
        self.t.max_inputs = self.t.max_inputs.max(st.inputs.len());
        self.t.max_path_steps = self.t.max_path_steps.max(st.steps);
        let model = st.model.clone();
        let mut kind = "ok"; let mut msg = String::new();
        match end {
            End::Infeasible => { self.t.infeasible += 1; return }
            End::Cut => { self.t.cut += 1; self.t.covers |= st.covers; return }
            End::Error(e) => {
                let mut e = e;
                if let Some(fr) = st.frames.last() { e = format!("{e} in {} pc {}", unsafe { &(*fr.f).name }, fr.pc) }
                let r = self.report(&st, &model, "error", &e);
                self.t.errors.push(format!("{e}; inputs {:?}", r.inputs));
                self.sh.stop.store(true, SeqCst); self.sh.cv.notify_all();
                return;
            }
            End::Done => {
                self.t.paths += 1;
                if let Some(V::E(e)) = st.expect_panic {
                    // no panic happened: must not have been expected
                    self.t.asserts_solver += 1;
                    match self.s.check(&mut self.x, &st.pc, e) {
                        Res::Sat(m) => { let mm = self.merge(&model, &m); self.fail(&st, &mm, "nopanic", "expected a panic, none happened"); return }
                        Res::Unknown => self.t.unknown += 1,
                        Res::Unsat => {}
                    }
                } else if let Some(V::C(1)) = st.expect_panic { self.fail(&st, &model, "nopanic", "expected a panic, none happened"); return }
            }
            End::Fail(k, m) => {
                self.t.paths += 1;
                kind = k; msg = m;
                if k == "panic" && st.expect_panic.is_some() {
                    let c = match st.expect_panic { Some(V::E(e)) => e, Some(V::C(k)) => self.x.bool(k & 1 == 1), _ => self.x.f };
                    let nc = self.x.not(c);
                    if self.x.cv(nc) != Some(0) { self.t.asserts_solver += 1 } else { self.t.asserts_trivial += 1 }
                    match self.s.check(&mut self.x, &st.pc, nc) {
                        Res::Sat(m2) => { let mm = self.merge(&model, &m2); self.fail(&st, &mm, "panic", &msg); return }
                        Res::Unknown => self.t.unknown += 1,
                        Res::Unsat => { self.t.expected_panics += 1; kind = "expected" }
                    }
                } else {
                    self.fail(&st, &model, k, &msg);
                    return;
                }
            }
        }
        self.t.covers |= st.covers;
        if !st.inputs.is_empty() { self.t.sym_done += 1 }
        // reservoir sample of finished paths for validation against the native build
        self.t.seen += 1;
        let k = self.sh.cfg.samples as u64;
        if k > 0 {
            if self.t.samples.len() < k as usize { let r = self.report(&st, &model, kind, &msg); self.t.samples.push(r) }
            else { let j = self.rand() % self.t.seen; if j < k { let r = self.report(&st, &model, kind, &msg); self.t.samples[j as usize] = r } }
        }
        self.sh.live_paths.fetch_add(1, Relaxed);
    }

    fn merge(&self, base: &[u64], m: &[(u32, u64)]) -> Vec<u64> {
        let mut v = base.to_vec();
        v.resize(self.x.vars.len(), 0);
        for &(i, k) in m { v[i as usize] = k }
        v
    }

    fn push_frame(&mut self, st: &mut State, f: *const Func, args: Vec<V>, ret_reg: Option<u32>, normal: Option<u32>) {
        let func = unsafe { &*f };
        let mut regs = args;
        regs.resize(func.nregs as usize, V::C(0));
        st.frames.push(Frame { f, pc: func.blocks[0].start, block: 0, regs, allocas: vec![], ret_reg, normal });
    }

    // ---------- decisions ----------
    fn known(&self, st: &State, c: Eid, nc: Eid) -> Option<bool> {
        for &e in st.pc.iter().rev() { if e == c { return Some(true) } if e == nc { return Some(false) } }
        None
    }

    fn learn(&mut self, st: &mut State, c: Eid, taken: bool) {
        st.learned.push((c, taken as u64));
        let n = self.x.not(c);
        st.learned.push((n, !taken as u64));
        let (l, t) = if let N::Bin(Op::Xor, a, b) = self.x.n(c) { if self.x.cv(b) == Some(1) { (a, !taken) } else { (c, taken) } } else { (c, taken) };
        match self.x.n(l) {
            N::Eq(a, b) if t && self.x.w(a) <= 64 => if let Some(k) = self.x.cv(b) { st.learned.push((a, k as u64)) },
            N::Bin(Op::And, a, b) if t => { self.learn(st, a, true); self.learn(st, b, true) }
            N::Bin(Op::Or, a, b) if !t => { self.learn(st, a, false); self.learn(st, b, false) }
            _ => {}
        }
    }

    fn decide(&mut self, st: &mut State, c: Eid, val: u64) -> R<bool> {
        if let Some(k) = self.x.cv(c) { return Ok(k == 1) }
        if st.rp < st.trace.len() {
            let d = st.trace[st.rp];
            st.rp += 1;
            if d.val != val { return Err(End::Error("restart divergence".into())) }
            self.learn(st, c, d.taken);
            return Ok(d.taken);
        }
        let nc = self.x.not(c);
        let kn = self.known(st, c, nc);
        if self.ppos < self.prefix.len() {
            let d = self.prefix[self.ppos];
            self.ppos += 1;
            if d.val != val { return Err(End::Error("replay divergence".into())) }
            st.trace.push(d);
            st.rp += 1;
            match kn {
                Some(b) => if b != d.taken { return Err(End::Error("replay divergence (known)".into())) },
                None => if !d.implied { st.pc.push(if d.taken { c } else { nc }) },
            }
            if self.ppos == self.prefix.len() {
                // establish a model for the whole prefix
                let mut model: Vec<u64> = vec![0; self.x.vars.len()];
                let mut ok = true;
                for e in st.pc.clone() {
                    if self.x.eval(e, &model) == 1 { continue }
                    match self.s.check(&mut self.x, &st.pc, e) {
                        Res::Sat(m) => for (i, k) in m { model[i as usize] = k },
                        _ => ok = false,
                    }
                }
                if !ok { return Err(End::Error("prefix model".into())) }
                st.model = Rc::new(model);
            }
            self.learn(st, c, d.taken);
            return Ok(d.taken);
        }
        if let Some(b) = kn { st.trace.push(Dec { val, taken: b, implied: true }); st.rp += 1; return Ok(b) }
        let m = st.model.clone();
        let cur = self.x.eval(c, &m) == 1;
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        if self.sh.cfg.verbose && std::env::var("SX_SHOW").is_ok() { let fr = st.frames.last().unwrap(); eprintln!("decide {} pc {} {}", unsafe { &(*fr.f).name }, fr.pc, self.x.show(c, 12)) }
        let mut implied = false;
        let t0 = if self.sh.cfg.verbose { Some((self.s.stats.queries, self.s.stats.solver_ns)) } else { None };
        let res = self.s.check(&mut self.x, &st.pc, other);
        if let Some((q, ns)) = t0 {
            let fr = st.frames.last().unwrap();
            let z = self.sites.entry((fr.f as usize, fr.pc)).or_insert((0, 0, 0));
            z.0 += self.s.stats.queries - q; z.1 += self.s.stats.solver_ns - ns; z.2 += matches!(res, Res::Sat(_)) as u64;
        }
        match res {
            Res::Sat(mm) => {
                self.t.forks += 1;
                let mut o = st.clone();
                let v = self.merge(&m, &mm);
                o.model = Rc::new(v);
                o.pc.push(other);
                // the instruction is executed again, with the decisions made so far and this one flipped
                o.trace.push(Dec { val, taken: !cur, implied: false });
                o.rp = o.tr0;
                o.restart = true;
                o.learned.clear();
                self.stack.push(o);
                if self.stack.len() > 1 { self.donate() }
            }
            Res::Unsat => implied = true,
            Res::Unknown => { self.t.unknown += 1; }
        }
        if !implied { st.pc.push(mine) }
        st.trace.push(Dec { val, taken: cur, implied });
        st.rp += 1;
        self.learn(st, c, cur);
        Ok(cur)
    }

    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        match v {
            V::C(k) => Ok(*k),
            V::E(e) => {
                if let Some(k) = self.x.cv(*e) { return Ok(k as u64) }
                let mut n = 0;
                loop {
                    let k = if st.rp < st.trace.len() { st.trace[st.rp].val } else if self.ppos < self.prefix.len() { self.prefix[self.ppos].val } else { let m = st.model.clone(); self.x.eval(*e, &m) as u64 };
                    let kc = self.x.konst(k as u128, w);
                    let c = self.x.eq(*e, kc);
                    if self.decide(st, c, k)? { st.learned.push((*e, k)); return Ok(k) }
                    n += 1;
                    if n > 70000 { return Err(End::Error("concretisation explosion".into())) }
                }
            }
            V::A(_) => Err(End::Error("concretise aggregate".into())),
        }
    }

    /// A length-like value (64 bits, few possible values) is explored value by value.
    fn settle(&mut self, st: &mut State, ty: &Ty, v: V) -> R<V> {
        if let (Ty::Int(64), V::E(e)) = (ty, &v) {
            let n = &self.x.nodes[*e as usize];
            // not the bit buffer of the LZW decoder
            let lzw = || { let f = st.frames.last().unwrap().f; unsafe { &(*f).name }.contains("5weezl") };
            if n.hi - n.lo <= self.sh.cfg.settle as u128 && !lzw() { return Ok(V::C(self.conc(st, &v, 64)?)) }
        }
        Ok(v)
    }

    fn e(&mut self, v: &V, w: u32) -> Eid { match v { V::C(k) => self.x.konst(*k as u128, w), V::E(e) => *e, V::A(_) => panic!("aggregate as expr") } }
    fn v(&self, e: Eid) -> V { if self.x.w(e) <= 64 { if let Some(k) = self.x.cv(e) { return V::C(k as u64) } } V::E(e) }

    fn opv(&mut self, fr: &Frame, o: &Opnd) -> V {
        match o {
            Opnd::R(r) => fr.regs[*r as usize].clone(),
            Opnd::C(k) => V::C(*k),
            Opnd::W(k, w) => V::E(self.x.konst(*k, *w)),
            Opnd::A(a) => { let mut v = vec![]; for o in a.iter() { v.push(self.opv(fr, o)) } V::A(Rc::new(v)) }
        }
    }
    #[inline(always)]
    fn get(&mut self, st: &State, o: &Opnd) -> V {
        match o {
            Opnd::R(r) => {
                let v = st.frames[st.frames.len() - 1].regs[*r as usize].clone();
                if let V::E(e) = &v { if let Some(&k) = st.subst.get(e) { return V::C(k) } }
                v
            }
            Opnd::C(k) => V::C(*k),
            _ => { let fr = unsafe { &*(st.frames.last().unwrap() as *const Frame) }; self.opv(fr, o) }
        }
    }

    // ---------- memory ----------
    fn new_obj(&mut self, st: &mut State, size: u64) -> R<u64> {
        if size > 1 << 31 { return Err(End::Error(format!("allocation of {size} bytes"))) }
        let o = Some(Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false }));
        let base = 2 + self.globals.len() as u64;
        if let Some(i) = st.free.pop() { st.objs[i as usize] = o; return Ok(obj_addr(base + i as u64)) }
        st.objs.push(o);
        Ok(obj_addr(base + st.objs.len() as u64 - 1))
    }
    fn free_obj(&mut self, st: &mut State, addr: u64) -> R<()> {
        let id = addr >> 32;
        let base = 2 + self.globals.len() as u64;
        if addr & 0xffff_ffff != OBJ_BASE || id < base || id - base >= st.objs.len() as u64 || st.objs[(id - base) as usize].is_none() { return Err(End::Fail("memory", format!("invalid free of {addr:#x}"))) }
        st.objs[(id - base) as usize] = None;
        st.free.push((id - base) as u32);
        Ok(())
    }
    fn obj<'s>(&'s self, st: &'s State, addr: u64, n: u64) -> R<(&'s Obj, usize)> {
        let id = addr >> 32;
        let base = 2 + self.globals.len() as u64;
        let o: &Rc<Obj> = if id >= base {
            match st.objs.get((id - base) as usize) { Some(Some(o)) => o, _ => return Err(End::Fail("memory", format!("access to freed or invalid address {addr:#x}"))) }
        } else if id >= 2 {
            match st.gover.get(&(id as u32)) { Some(o) => o, None => &self.globals[id as usize - 2] }
        } else { return Err(End::Fail("memory", format!("access to invalid address {addr:#x}"))) };
        let off = (addr & 0xffff_ffff).wrapping_sub(OBJ_BASE);
        if off.checked_add(n).map_or(true, |e| e > o.data.len() as u64) { return Err(End::Fail("memory", format!("out-of-bounds access: offset {} size {n} of object with {} bytes", off as i64, o.data.len()))) }
        Ok((o, off as usize))
    }
    fn obj_mut<'s>(&self, st: &'s mut State, addr: u64, n: u64) -> R<(&'s mut Obj, usize)> {
        let (o, off) = self.obj(st, addr, n)?;
        if o.ro { return Err(End::Fail("memory", format!("write to constant memory {addr:#x}"))) }
        let id = addr >> 32;
        let base = 2 + self.globals.len() as u64;
        if id >= base {
            let o = st.objs[(id - base) as usize].as_mut().unwrap();
            Ok((Rc::make_mut(o), off))
        } else {
            let g = &self.globals[id as usize - 2];
            let o = st.gover.entry(id as u32).or_insert_with(|| g.clone());
            Ok((Rc::make_mut(o), off))
        }
    }
    fn rd(&mut self, st: &State, addr: u64, w: u32) -> R<V> {
        let n = (w as u64 + 7) / 8;
        let (o, off) = self.obj(st, addr, n)?;
        let n = n as usize;
        if o.sym.as_ref().map_or(true, |s| s[off..off + n].iter().all(|&e| e == NOSYM)) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(V::C(u64::from_le_bytes(b) & m64(w)));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let k = u128::from_le_bytes(b);
            return Ok(V::E(self.x.konst(k, w)));
        }
        let s = o.sym.as_ref().unwrap();
        let bytes: Vec<(u32, u8)> = (0..n).map(|i| (s[off + i], o.data[off + i])).collect();
        let mut acc = None;
        for &(e, k) in bytes.iter().rev() {
            let e = if e == NOSYM { self.x.konst(k as u128, 8) } else { e };
            acc = Some(match acc { None => e, Some(a) => self.x.concat(a, e) });
        }
        let mut r = acc.unwrap();
        if self.x.w(r) > w { r = self.x.extract(r, 0, w) }
        Ok(self.v(r))
    }
    fn wr(&mut self, st: &mut State, addr: u64, w: u32, v: &V) -> R<()> {
        let n = ((w as u64 + 7) / 8) as usize;
        match v {
            V::C(k) => {
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                let b = k.to_le_bytes();
                if n <= 8 { o.data[off..off + n].copy_from_slice(&b[..n]); } else { o.data[off..off + 8].copy_from_slice(&b); for i in 8..n { o.data[off + i] = 0 } }
                if let Some(s) = o.sym.as_mut() { for i in 0..n { s[off + i] = NOSYM } }
            }
            V::E(e) => {
                let mut e = *e;
                let we = self.x.w(e);
                if (we as usize) < n * 8 { e = self.x.zext(e, n as u32 * 8) }
                let parts: Vec<Eid> = (0..n).map(|i| self.x.extract(e, i as u32 * 8, 8)).collect();
                let consts: Vec<Option<u128>> = parts.iter().map(|&p| self.x.cv(p)).collect();
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                for i in 0..n {
                    match consts[i] {
                        Some(k) => { o.data[off + i] = k as u8; if let Some(s) = o.sym.as_mut() { s[off + i] = NOSYM } }
                        None => {
                            let len = o.data.len();
                            o.sym.get_or_insert_with(|| Box::new(vec![NOSYM; len]))[off + i] = parts[i];
                        }
                    }
                }
            }
            V::A(_) => return Err(End::Error("wr aggregate".into())),
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, addr: &V, ty: &Ty) -> R<V> {
        match ty {
            Ty::Arr(n, _) => self.load_agg(st, addr, ty, *n),
            Ty::Struct(f, _) => self.load_agg(st, addr, ty, f.len() as u64),
            Ty::Vec(n, t) => {
                if t.bits() % 8 == 0 { self.load_agg(st, addr, ty, *n as u64) }
                else { let w = ty.bits(); let v = self.load(st, addr, &Ty::Int(w))?; Ok(self.unpack(&v, w, *n, t.bits())) }
            }
            _ => {
                let w = ty.bits();
                match addr {
                    V::C(a) => self.rd(st, *a, w),
                    V::E(e) => self.load_sym(st, *e, w),
                    _ => Err(End::Error("address".into())),
                }
            }
        }
    }
    fn load_agg(&mut self, st: &mut State, addr: &V, ty: &Ty, n: u64) -> R<V> {
        let a = self.conc(st, addr, 64)?;
        let mut v = vec![];
        for i in 0..n { let (o, t) = ty.field_off(i); v.push(self.load(st, &V::C(a + o), &t)?) }
        Ok(V::A(Rc::new(v)))
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Vec(n, t), V::A(_)) if t.bits() % 8 != 0 => { let p = self.pack(v, *n, t.bits()); self.wr(st, addr, n * t.bits(), &p) }
            (Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..), V::A(x)) => { for (i, e) in x.iter().enumerate() { let (o, t) = ty.field_off(i as u64); self.store(st, addr + o, &t, e)? } Ok(()) }
            (Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..), _) => Err(End::Error("store scalar as aggregate".into())),
            _ => self.wr(st, addr, ty.bits(), v),
        }
    }
    /// Load through a symbolic address: if-then-else over all addresses it can take.
    fn load_sym(&mut self, st: &mut State, e: Eid, w: u32) -> R<V> {
        if let Some(k) = self.x.cv(e) { return self.rd(st, k as u64, w) }
        if self.ppos < self.prefix.len() {
            // during prefix replay there is no model; the object is found from the interval below
        }
        let n = (w as u64 + 7) / 8;
        let (lo, hi) = { let nd = &self.x.nodes[e as usize]; (nd.lo as u64, nd.hi as u64) };
        let stride = self.x.stride(e).max(1) as u64;
        // the object is determined by the concrete base address in the expression
        if lo >> 32 == hi >> 32 {
            let (osz, base) = {
                let base = obj_addr(lo >> 32);
                let (o, _) = self.obj(st, base, 0)?;
                (o.data.len() as u64, base)
            };
            // in bounds?
            let end = base + osz;
            if lo < base || hi + n > end {
                let lim = self.x.konst((end as u128).wrapping_sub(n as u128), 64);
                let bad1 = self.x.ult(lim, e);
                let bc = self.x.konst(base as u128, 64);
                let bad0 = self.x.ult(e, bc);
                let bad = if osz < n { self.x.t } else { self.x.bin(Op::Or, bad0, bad1) };
                if self.decide(st, bad, 0)? { return Err(End::Fail("memory", format!("out-of-bounds symbolic read in object of {osz} bytes"))) }
            }
            let first = if lo >= base { lo } else { lo + (base - lo + stride - 1) / stride * stride };
            let last = hi.min(end - n);
            let cnt = (last - first) / stride + 1;
            if cnt <= self.sh.cfg.ite_max {
                return self.mux(st, e, first, last, stride, w);
            }
        }
        let a = self.conc(st, &V::E(e), 64)?;
        self.rd(st, a, w)
    }
    fn mux(&mut self, st: &mut State, e: Eid, first: u64, last: u64, stride: u64, w: u32) -> R<V> {
        let mut vals: Vec<(u64, Eid)> = vec![];
        let mut a = first;
        while a <= last {
            let v = self.rd(st, a, w)?;
            let ve = self.e(&v, w);
            vals.push((a, ve));
            a += stride;
        }
        let mut freq: FxMap<Eid, u32> = Default::default();
        for &(_, v) in &vals { *freq.entry(v).or_insert(0) += 1 }
        let (&def, &nd) = freq.iter().max_by_key(|(v, c)| (**c, u32::MAX - **v)).unwrap();
        // segments on which the value is an affine function of the index
        let m = mask(w);
        let mut segs: Vec<(usize, usize, u128, Eid)> = vec![]; // start, end, slope, first value
        let mut i = 0;
        while i < vals.len() {
            let v0 = vals[i].1;
            let mut j = i + 1;
            let mut k = 0u128;
            match self.x.cv(v0) {
                Some(c0) => if let Some(c1) = vals.get(j).and_then(|v| self.x.cv(v.1)) {
                    k = c1.wrapping_sub(c0) & m;
                    let mut p = c1; j += 1;
                    while let Some(c) = vals.get(j).and_then(|v| self.x.cv(v.1)) { if c.wrapping_sub(p) & m != k { break } p = c; j += 1 }
                    // two values are always affine: only worth it when constant or long
                    if j - i < 3 && k != 0 { j = i + 1; k = 0 }
                },
                None => while vals.get(j).map_or(false, |v| v.1 == v0) { j += 1 },
            }
            segs.push((i, j, k, v0));
            i = j;
        }
        if segs.len() <= vals.len() - nd as usize {
            let base = self.x.konst(first as u128, 64);
            let off = self.x.bin(Op::Sub, e, base);
            let idx = if stride.is_power_of_two() { let k = self.x.konst(stride.trailing_zeros() as u128, 64); self.x.bin(Op::LShr, off, k) } else { let k = self.x.konst(stride as u128, 64); self.x.bin(Op::UDiv, off, k) };
            let nb = (64 - (vals.len() as u64).leading_zeros()).max(1);
            let idx = self.x.extract(idx, 0, nb);
            let iw = if nb == w { idx } else if nb < w { self.x.zext(idx, w) } else { self.x.extract(idx, 0, w) };
            let mut acc = None;
            for &(i, j, k, v0) in segs.iter().rev() {
                let v = if k == 0 { v0 } else {
                    let c0 = self.x.cv(v0).unwrap().wrapping_sub(k.wrapping_mul(i as u128)) & m;
                    let kk = self.x.konst(k, w); let t = self.x.bin(Op::Mul, iw, kk); let c = self.x.konst(c0, w);
                    self.x.bin(Op::Add, t, c)
                };
                acc = Some(match acc { None => v, Some(a) => { let lim = self.x.konst(j as u128, nb); let c = self.x.ult(idx, lim); self.x.ite(c, v, a) } });
            }
            return Ok(self.v(acc.unwrap()));
        }
        let mut acc = def;
        for &(a, v) in vals.iter().rev() {
            if v == def { continue }
            let k = self.x.konst(a as u128, 64);
            let c = self.x.eq(e, k);
            acc = self.x.ite(c, v, acc);
        }
        Ok(self.v(acc))
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        let (data, sym) = {
            let (o, off) = self.obj(st, src, n)?;
            let r = off..off + n as usize;
            (o.data[r.clone()].to_vec(), o.sym.as_ref().and_then(|s| if s[r.clone()].iter().any(|&e| e != NOSYM) { Some(s[r].to_vec()) } else { None }))
        };
        let (o, off) = self.obj_mut(st, dst, n)?;
        o.data[off..off + n as usize].copy_from_slice(&data);
        let len = o.data.len();
        match sym {
            Some(s) => o.sym.get_or_insert_with(|| Box::new(vec![NOSYM; len]))[off..off + n as usize].copy_from_slice(&s),
            None => if let Some(x) = o.sym.as_mut() { x[off..off + n as usize].fill(NOSYM) },
        }
        Ok(())
    }
    fn fill(&mut self, st: &mut State, dst: u64, v: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        let (o, off) = self.obj_mut(st, dst, n)?;
        let len = o.data.len();
        match v {
            V::C(k) => { o.data[off..off + n as usize].fill(*k as u8); if let Some(x) = o.sym.as_mut() { x[off..off + n as usize].fill(NOSYM) } }
            V::E(e) => o.sym.get_or_insert_with(|| Box::new(vec![NOSYM; len]))[off..off + n as usize].fill(*e),
            _ => return Err(End::Error("memset".into())),
        }
        Ok(())
    }

    // ---------- scalar helpers ----------
    fn pack(&mut self, v: &V, n: u32, w: u32) -> V {
        let V::A(x) = v else { panic!("pack") };
        let mut acc = None;
        for i in (0..n as usize).rev() {
            let e = self.e(&x[i], w);
            acc = Some(match acc { None => e, Some(a) => self.x.concat(a, e) });
        }
        self.v(acc.unwrap())
    }
    fn unpack(&mut self, v: &V, tot: u32, n: u32, w: u32) -> V {
        let e = self.e(v, tot);
        let mut o = vec![];
        for i in 0..n { let p = self.x.extract(e, i * w, w); o.push(self.v(p)) }
        V::A(Rc::new(o))
    }
    fn bin1(&mut self, op: BOp, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(a), V::C(b)) = (a, b) {
            let (a, b) = (*a, *b);
            if w <= 64 {
                let m = m64(w);
                return Ok(V::C(match op {
                    BOp::Add => a.wrapping_add(b) & m,
                    BOp::Sub => a.wrapping_sub(b) & m,
                    BOp::Mul => a.wrapping_mul(b) & m,
                    BOp::And => a & b, BOp::Or => a | b, BOp::Xor => a ^ b,
                    BOp::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
                    BOp::LShr => if b >= w as u64 { 0 } else { a >> b },
                    BOp::AShr => (sx64(a, w) >> b.min(63)) as u64 & m,
                    BOp::UDiv => if b == 0 { return Err(End::Fail("memory", "division by zero".into())) } else { a / b },
                    BOp::URem => if b == 0 { return Err(End::Fail("memory", "division by zero".into())) } else { a % b },
                    BOp::SDiv => if b == 0 { return Err(End::Fail("memory", "division by zero".into())) } else { sx64(a, w).wrapping_div(sx64(b, w)) as u64 & m },
                    BOp::SRem => if b == 0 { return Err(End::Fail("memory", "division by zero".into())) } else { sx64(a, w).wrapping_rem(sx64(b, w)) as u64 & m },
                    BOp::FAdd | BOp::FSub | BOp::FMul | BOp::FDiv | BOp::FRem => if w == 64 {
                        let (x, y) = (f64::from_bits(a), f64::from_bits(b));
                        (match op { BOp::FAdd => x + y, BOp::FSub => x - y, BOp::FMul => x * y, BOp::FDiv => x / y, _ => x % y }).to_bits()
                    } else {
                        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                        (match op { BOp::FAdd => x + y, BOp::FSub => x - y, BOp::FMul => x * y, BOp::FDiv => x / y, _ => x % y }).to_bits() as u64
                    },
                }));
            }
        }
        let o = match op {
            BOp::Add => Op::Add, BOp::Sub => Op::Sub, BOp::Mul => Op::Mul, BOp::UDiv => Op::UDiv, BOp::SDiv => Op::SDiv, BOp::URem => Op::URem, BOp::SRem => Op::SRem,
            BOp::And => Op::And, BOp::Or => Op::Or, BOp::Xor => Op::Xor, BOp::Shl => Op::Shl, BOp::LShr => Op::LShr, BOp::AShr => Op::AShr,
            _ => return Err(End::Error("symbolic floating point".into())),
        };
        let x = self.e(a, w); let y = self.e(b, w);
        let r = self.x.bin(o, x, y);
        Ok(self.v(r))
    }
    fn icmp1(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(a), V::C(b)) = (a, b) {
            let (a, b) = (*a, *b);
            return V::C(match p {
                Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Ugt => a > b, Pred::Uge => a >= b,
                Pred::Slt => sx64(a, w) < sx64(b, w), Pred::Sle => sx64(a, w) <= sx64(b, w), Pred::Sgt => sx64(a, w) > sx64(b, w), Pred::Sge => sx64(a, w) >= sx64(b, w),
            } as u64);
        }
        let x = self.e(a, w); let y = self.e(b, w);
        let r = match p {
            Pred::Eq => self.x.eq(x, y), Pred::Ne => { let e = self.x.eq(x, y); self.x.not(e) }
            Pred::Ult => self.x.ult(x, y), Pred::Ule => self.x.ule(x, y), Pred::Ugt => self.x.ult(y, x), Pred::Uge => self.x.ule(y, x),
            Pred::Slt => self.x.slt(x, y), Pred::Sle => self.x.sle(x, y), Pred::Sgt => self.x.slt(y, x), Pred::Sge => self.x.sle(y, x),
        };
        self.v(r)
    }
    fn sel(&mut self, c: Eid, ty: &Ty, a: &V, b: &V) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => { let mut o = vec![]; for i in 0..x.len() { let (_, t) = ty.field_off(i as u64); o.push(self.sel(c, &t, &x[i], &y[i])) } V::A(Rc::new(o)) }
            _ => { let w = ty.bits(); let x = self.e(a, w); let y = self.e(b, w); let r = self.x.ite(c, x, y); self.v(r) }
        }
    }
    fn trunc(&mut self, v: &V, w: u32) -> V { match v { V::C(k) => V::C(k & m64(w)), V::E(e) => { let r = self.x.extract(*e, 0, w); self.v(r) } _ => panic!() } }
    fn zx(&mut self, v: &V, from: u32, to: u32) -> V { match v { V::C(k) if to <= 64 => V::C(*k), _ => { let e = self.e(v, from); let r = self.x.zext(e, to); self.v(r) } } }
    fn sxv(&mut self, v: &V, from: u32, to: u32) -> V { match v { V::C(k) if to <= 64 => V::C(sx64(*k, from) as u64 & m64(to)), _ => { let e = self.e(v, from); let r = self.x.sext(e, to); self.v(r) } } }

    fn set(&mut self, st: &mut State, d: u32, v: V) { let n = st.frames.len() - 1; st.frames[n].regs[d as usize] = v }

    fn goto(&mut self, st: &mut State, t: u32) {
        let n = st.frames.len() - 1;
        let f = unsafe { &*st.frames[n].f };
        let b = &f.blocks[t as usize];
        let from = st.frames[n].block;
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|(k, _)| *k == from).expect("phi edge").1;
                let v = self.get(st, o);
                st.frames[n].regs[*d as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (d, inc) in &b.phis {
                    let o = &inc.iter().find(|(k, _)| *k == from).expect("phi edge").1;
                    vals.push((*d, self.get(st, o)));
                }
                for (d, v) in vals { st.frames[n].regs[d as usize] = v }
            }
        }
        st.frames[n].block = t;
        st.frames[n].pc = b.start;
    }

    // ---------- main loop ----------
    fn run(&mut self, st: &mut State) -> End {
        loop {
            if st.steps & 0xffff == 0 {
                if self.sh.stop.load(Relaxed) { return End::Cut }
                if self.sh.start.elapsed().as_secs() >= self.sh.cfg.time_s { self.sh.timed_out.store(true, SeqCst); self.sh.stop.store(true, SeqCst); self.sh.cv.notify_all(); return End::Cut }
            }
            st.steps += 1;
            if !st.learned.is_empty() { let l = std::mem::take(&mut st.learned); st.subst.extend(l) }
            if st.restart { st.restart = false } else { st.tr0 = st.trace.len(); st.rp = st.tr0 }
            if st.steps > self.sh.cfg.max_steps { return End::Fail("hang", format!("more than {} steps", self.sh.cfg.max_steps)) }
            match self.step(st) {
                Ok(false) => {}
                Ok(true) => return End::Done,
                Err(e) => {
                    if let End::Fail("memory", _) = &e { if self.sh.cfg.verbose { self.dump(st) } }
                    return e;
                }
            }
        }
    }
    fn dump(&self, st: &State) { for f in st.frames.iter().rev() { eprintln!("  at {} pc {} block {}", unsafe { &(*f.f).name }, f.pc, f.block) } }

    #[inline(always)]
    fn step(&mut self, st: &mut State) -> R<bool> {
        let n = st.frames.len() - 1;
        let fr = &mut st.frames[n];
        let f = unsafe { &*fr.f };
        let ins = &f.code[fr.pc];
        match ins {
            I::Bin { op, w, lanes, d, a, b } => {
                let x = self.get(st, a); let mut y = self.get(st, b);
                if *lanes == 0 && matches!(op, BOp::Shl | BOp::LShr | BOp::AShr) { if let V::E(_) = y { y = V::C(self.conc(st, &y, *w)?) } }
                let r = if *lanes == 0 { self.bin1(*op, *w, &x, &y)? } else {
                    let (V::A(x), V::A(y)) = (&x, &y) else { return Err(End::Error("vector".into())) };
                    let mut o = vec![]; for i in 0..*lanes as usize { o.push(self.bin1(*op, *w, &x[i], &y[i])?) } V::A(Rc::new(o))
                };
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = r; fr.pc += 1;
            }
            I::Icmp { p, w, lanes, d, a, b } => {
                let x = self.get(st, a); let y = self.get(st, b);
                let r = if *lanes == 0 { self.icmp1(*p, *w, &x, &y) } else {
                    let (V::A(x), V::A(y)) = (&x, &y) else { return Err(End::Error("vector".into())) };
                    let mut o = vec![]; for i in 0..*lanes as usize { o.push(self.icmp1(*p, *w, &x[i], &y[i])) } V::A(Rc::new(o))
                };
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = r; fr.pc += 1;
            }
            I::Load { d, ty, p } => {
                let a = self.get(st, p);
                let v = self.load(st, &a, ty)?;
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = v; fr.pc += 1;
            }
            I::Store { ty, v, p } => {
                let a = self.get(st, p); let v = self.get(st, v);
                let a = self.conc(st, &a, 64)?;
                let v = self.settle(st, ty, v)?;
                self.store(st, a, ty, &v)?;
                st.frames[n].pc += 1;
            }
            I::Gep { d, base, off, terms } => {
                let b = self.get(st, base);
                let mut acc = match b { V::C(k) => V::C(k.wrapping_add(*off as u64)), b => self.bin1(BOp::Add, 64, &b, &V::C(*off as u64))? };
                for (o, s, w) in terms {
                    let i = self.get(st, o);
                    match (&acc, &i) {
                        (V::C(a), V::C(i)) => acc = V::C(a.wrapping_add((sx64(*i, *w) as u64).wrapping_mul(*s as u64))),
                        _ => { let i = if *w < 64 { self.sxv(&i, *w, 64) } else { i }; let t = self.bin1(BOp::Mul, 64, &i, &V::C(*s as u64))?; acc = self.bin1(BOp::Add, 64, &acc, &t)? }
                    }
                }
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = acc; fr.pc += 1;
            }
            I::CondBr { c, t, f: e } => {
                let v = self.get(st, c);
                let b = match v { V::C(k) => k & 1 == 1, V::E(x) => self.decide(st, x, 0)?, _ => return Err(End::Error("br".into())) };
                self.goto(st, if b { *t } else { *e });
            }
            I::Br { t } => self.goto(st, *t),
            I::Select { d, ty, vec_cond, c, a, b } => {
                let cv = self.get(st, c);
                let r = if *vec_cond {
                    let x = self.get(st, a); let y = self.get(st, b);
                    let (V::A(cs), V::A(x), V::A(y)) = (&cv, &x, &y) else { return Err(End::Error("vselect".into())) };
                    let mut o = vec![];
                    for i in 0..x.len() { let (_, t) = ty.field_off(i as u64); let ce = self.e(&cs[i], 1); o.push(self.sel(ce, &t, &x[i], &y[i])) }
                    V::A(Rc::new(o))
                } else {
                    match cv {
                        V::C(k) => if k & 1 == 1 { self.get(st, a) } else { self.get(st, b) },
                        V::E(ce) => {
                            let x = self.get(st, a); let y = self.get(st, b);
                            // a choice between different pointers is a fork, not an expression
                            if *ty == Ty::Ptr && !matches!((&x, &y), (V::C(p), V::C(q)) if p == q) {
                                if self.decide(st, ce, 1)? { x } else { y }
                            } else { self.sel(ce, ty, &x, &y) }
                        }
                        _ => return Err(End::Error("select".into())),
                    }
                };
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = r; fr.pc += 1;
            }
            I::Cast { k, from, to, d, a } => {
                let v = self.get(st, a);
                let r = self.cast(*k, from, to, &v)?;
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = r; fr.pc += 1;
            }
            I::Switch { w, v, def, cases } => {
                let v = self.get(st, v);
                let t = match v {
                    V::C(k) => cases.iter().find(|(c, _)| *c == k).map_or(*def, |c| c.1),
                    V::E(e) => {
                        let mut done: Vec<u32> = vec![];
                        let mut r = None;
                        for (_, t) in cases {
                            if *t == *def || done.contains(t) { continue }
                            done.push(*t);
                            let mut c = self.x.f;
                            for (k, t2) in cases { if t2 == t { let kc = self.x.konst(*k as u128, *w); let q = self.x.eq(e, kc); c = self.x.bin(Op::Or, c, q) } }
                            if self.decide(st, c, *t as u64)? { r = Some(*t); break }
                        }
                        r.unwrap_or(*def)
                    }
                    _ => return Err(End::Error("switch".into())),
                };
                self.goto(st, t);
            }
            I::Call { d, ret, callee, args, normal } => return self.call(st, *d, ret, callee, args, *normal),
            I::Ret { v } => {
                let v = match v { Some(o) => Some(self.get(st, o)), None => None };
                let fr = st.frames.pop().unwrap();
                let base = 2 + self.globals.len() as u64;
                let _ = base;
                for i in fr.allocas { st.objs[i as usize] = None; st.free.push(i) }
                if st.frames.is_empty() { return Ok(true) }
                let k = st.frames.len() - 1;
                if let (Some(r), Some(v)) = (fr.ret_reg, v) { st.frames[k].regs[r as usize] = v }
                match fr.normal { Some(t) => self.goto(st, t), None => st.frames[k].pc += 1 }
            }
            I::Alloca { d, size, count } => {
                let c = self.get(st, count);
                let c = self.conc(st, &c, 64)?;
                let a = self.new_obj(st, size * c)?;
                let base = 2 + self.globals.len() as u64;
                let fr = &mut st.frames[n];
                fr.allocas.push(((a >> 32) - base) as u32);
                fr.regs[*d as usize] = V::C(a); fr.pc += 1;
            }
            I::ExtractValue { d, a, idx } => {
                let mut v = self.get(st, a);
                for &i in idx { v = match &v { V::A(x) => x[i as usize].clone(), _ => return Err(End::Error("extractvalue".into())) } }
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = v; fr.pc += 1;
            }
            I::InsertValue { d, a, v, idx } => {
                let a = self.get(st, a); let v = self.get(st, v);
                fn ins(a: &V, v: V, idx: &[u32]) -> V { if idx.is_empty() { return v } if let V::A(x) = a { let mut y = (**x).clone(); y[idx[0] as usize] = ins(&x[idx[0] as usize], v, &idx[1..]); V::A(Rc::new(y)) } else { panic!("insertvalue") } }
                let r = ins(&a, v, idx);
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = r; fr.pc += 1;
            }
            I::ExtractElem { d, a, i } => {
                let a = self.get(st, a); let i = self.get(st, i); let i = self.conc(st, &i, 64)?;
                let V::A(x) = &a else { return Err(End::Error("extractelement".into())) };
                let r = x[i as usize].clone();
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = r; fr.pc += 1;
            }
            I::InsertElem { d, a, v, i } => {
                let a = self.get(st, a); let v = self.get(st, v); let i = self.get(st, i); let i = self.conc(st, &i, 64)?;
                let V::A(x) = &a else { return Err(End::Error("insertelement".into())) };
                let mut y = (**x).clone(); y[i as usize] = v;
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = V::A(Rc::new(y)); fr.pc += 1;
            }
            I::Shuffle { d, a, b, mask, n: k } => {
                let a = self.get(st, a); let b = self.get(st, b);
                let (V::A(x), V::A(y)) = (&a, &b) else { return Err(End::Error("shuffle".into())) };
                let o = mask.iter().map(|&i| if i < *k { x[i as usize].clone() } else { y[(i - k) as usize].clone() }).collect();
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = V::A(Rc::new(o)); fr.pc += 1;
            }
            I::AtomicRmw { op, w, d, p, v } => {
                let a = self.get(st, p); let a = self.conc(st, &a, 64)?; let v = self.get(st, v);
                let old = self.rd(st, a, *w)?;
                let new = match &op[..] {
                    "add" => self.bin1(BOp::Add, *w, &old, &v)?, "sub" => self.bin1(BOp::Sub, *w, &old, &v)?, "xchg" => v,
                    "and" => self.bin1(BOp::And, *w, &old, &v)?, "or" => self.bin1(BOp::Or, *w, &old, &v)?, "xor" => self.bin1(BOp::Xor, *w, &old, &v)?,
                    o => return Err(End::Error(format!("atomicrmw {o}"))),
                };
                self.wr(st, a, *w, &new)?;
                let fr = &mut st.frames[n]; if *d != u32::MAX { fr.regs[*d as usize] = old } fr.pc += 1;
            }
            I::CmpXchg { w, d, p, c, n: nv } => {
                let a = self.get(st, p); let a = self.conc(st, &a, 64)?; let c = self.get(st, c); let nv = self.get(st, nv);
                let old = self.rd(st, a, *w)?;
                let eq = self.icmp1(Pred::Eq, *w, &old, &c);
                let b = match eq { V::C(k) => k == 1, V::E(e) => self.decide(st, e, 0)?, _ => unreachable!() };
                if b { self.wr(st, a, *w, &nv)? }
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = V::A(Rc::new(vec![old, V::C(b as u64)])); fr.pc += 1;
            }
            I::Freeze { d, a } => { let v = self.get(st, a); let fr = &mut st.frames[n]; fr.regs[*d as usize] = v; fr.pc += 1 }
            I::Fcmp { p, w, d, a, b } => {
                let x = self.get(st, a); let y = self.get(st, b);
                let (V::C(x), V::C(y)) = (x, y) else { return Err(End::Error("symbolic fcmp".into())) };
                let (x, y) = if *w == 64 { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match &p[..] { "oeq" => x == y, "one" => !un && x != y, "olt" => x < y, "ole" => x <= y, "ogt" => x > y, "oge" => x >= y, "ord" => !un, "uno" => un, "ueq" => un || x == y, "une" => un || x != y, "ult" => un || x < y, "ule" => un || x <= y, "ugt" => un || x > y, "uge" => un || x >= y, o => return Err(End::Error(format!("fcmp {o}"))) };
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = V::C(r as u64); fr.pc += 1;
            }
            I::Fneg { w, d, a } => {
                let v = self.get(st, a); let V::C(k) = v else { return Err(End::Error("symbolic fneg".into())) };
                let fr = &mut st.frames[n]; fr.regs[*d as usize] = V::C(k ^ (1u64 << (w - 1))); fr.pc += 1;
            }
            I::Nop => fr.pc += 1,
            I::Unreachable => return Err(End::Fail("memory", "reached code marked unreachable".into())),
        }
        Ok(false)
    }

    fn cast(&mut self, k: Cast, from: &Ty, to: &Ty, v: &V) -> R<V> {
        Ok(match k {
            Cast::Bit => match (from, to) {
                (Ty::Vec(n, t), Ty::Vec(n2, t2)) => { if n == n2 { v.clone() } else { let p = self.pack(v, *n, t.bits()); self.unpack(&p, n * t.bits(), *n2, t2.bits()) } }
                (Ty::Vec(n, t), _) => self.pack(v, *n, t.bits()),
                (_, Ty::Vec(n, t)) => self.unpack(v, from.bits(), *n, t.bits()),
                _ => v.clone(),
            },
            Cast::Trunc | Cast::ZExt | Cast::SExt => {
                if let (Ty::Vec(_, f), Ty::Vec(_, t)) = (from, to) {
                    let V::A(x) = v else { return Err(End::Error("vcast".into())) };
                    let mut o = vec![];
                    for e in x.iter() { o.push(self.cast(k, f, t, e)?) }
                    return Ok(V::A(Rc::new(o)));
                }
                let (fw, tw) = (from.bits(), to.bits());
                match k { Cast::Trunc => self.trunc(v, tw), Cast::ZExt => self.zx(v, fw, tw), _ => self.sxv(v, fw, tw) }
            }
            _ => {
                let V::C(x) = v else { return Err(End::Error("symbolic float conversion".into())) };
                let f = |ty: &Ty, x: u64| if *ty == Ty::F64 { f64::from_bits(x) } else { f32::from_bits(x as u32) as f64 };
                let to_f = |ty: &Ty, d: f64| if *ty == Ty::F64 { d.to_bits() } else { (d as f32).to_bits() as u64 };
                V::C(match k {
                    Cast::FToU => f(from, *x) as u64 & m64(to.bits()),
                    Cast::FToS => f(from, *x) as i64 as u64 & m64(to.bits()),
                    Cast::UToF => if *to == Ty::F64 { (*x as f64).to_bits() } else { (*x as f32).to_bits() as u64 },
                    Cast::SToF => { let s = sx64(*x, from.bits()); if *to == Ty::F64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 } }
                    _ => to_f(to, f(from, *x)),
                })
            }
        })
    }

    fn cstr(&self, st: &State, addr: u64, n: u64) -> String {
        match self.obj(st, addr, n) { Ok((o, off)) => String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned(), _ => String::new() }
    }
    fn location(&mut self, st: &State, a: &V) -> String {
        if let V::C(a) = a {
            if let (Ok(V::C(p)), Ok(V::C(n)), Ok(V::C(l))) = (self.rd(st, *a, 64), self.rd(st, a + 8, 64), self.rd(st, a + 16, 32)) {
                if n < 400 { let s = self.cstr(st, p, n); if s.contains(".rs") { return format!("{}:{}", s.trim_end_matches('\0'), l) } }
            }
        }
        String::new()
    }

    fn finish_call(&mut self, st: &mut State, d: Option<u32>, v: Option<V>, normal: Option<u32>) -> R<bool> {
        if let (Some(d), Some(v)) = (d, v) { self.set(st, d, v) }
        match normal { Some(t) => self.goto(st, t), None => st.frames.last_mut().unwrap().pc += 1 }
        Ok(false)
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, ret: &Ty, callee: &Callee, args: &[(Ty, Opnd, Option<u64>)], normal: Option<u32>) -> R<bool> {
        let mut av: Vec<V> = Vec::with_capacity(args.len());
        for (_, o, _) in args { av.push(self.get(st, o)) }
        let fi = match callee {
            Callee::F(i) => *i,
            Callee::Ind(o) => {
                let p = self.get(st, o);
                let a = self.conc(st, &p, 64)?;
                if a >> 32 != FUNC_ID { return Err(End::Fail("memory", format!("call of non-function {a:#x}"))) }
                let i = ((a - obj_addr(FUNC_ID)) / 16) as u32;
                if i as usize >= self.sh.m.funcs.len() { return Err(End::Error("bad function pointer".into())) }
                let nm = self.sh.m.funcs[i as usize].name.clone();
                if self.sh.m.func(i).is_none() { return self.ext(st, d, ret, &nm, &av, args, normal) }
                i
            }
            Callee::Ext(n) => { let n = n.clone(); return self.ext(st, d, ret, &n, &av, args, normal) }
            Callee::Asm => { // optimisation barriers only
                return self.finish_call(st, d, Some(av.get(0).cloned().unwrap_or(V::C(0))), normal);
            }
        };
        match self.sh.icpt[fi as usize] {
            I_PANIC => {
                let mut loc = String::new();
                for a in av.iter().rev() { loc = self.location(st, a); if !loc.is_empty() { break } }
                let mut msg = String::new();
                if let (Some(V::C(p)), Some(V::C(n))) = (av.get(0), av.get(1)) { if *n < 300 && *n > 0 { msg = self.cstr(st, *p, *n) } }
                let nm = &self.sh.m.funcs[fi as usize].name;
                return Err(End::Fail("panic", format!("{msg} at {loc} [{}]", nm.rsplit(|c: char| c.is_ascii_digit()).next().unwrap_or(""))));
            }
            I_HASHKEYS => return self.finish_call(st, d, Some(V::A(Rc::new(vec![V::C(0), V::C(0)]))), normal),
            I_HASH_CONST => return self.finish_call(st, d, Some(V::C(0)), normal),
            _ => {}
        }
        self.fcount[fi as usize] += 1;
        let f = self.func(fi)?;
        for (i, (_, _, bv)) in args.iter().enumerate() {
            if let Some(sz) = bv { let src = self.conc(st, &av[i].clone(), 64)?; let a = self.new_obj(st, *sz)?; self.copy(st, a, src, *sz)?; av[i] = V::C(a) }
        }
        if st.frames.len() > 400 { return Err(End::Fail("panic", "stack overflow (call depth)".into())) }
        self.push_frame(st, f, av, d, normal);
        Ok(false)
    }

    fn alloc_check(&mut self, st: &mut State, size: &V) -> R<()> {
        if let Some(b) = st.alloc_bound.clone() {
            let bad = self.icmp1(Pred::Ugt, 64, size, &b);
            match bad {
                V::C(0) => { self.t.asserts_trivial += 1 }
                V::C(_) => return Err(End::Fail("alloc", format!("allocation of {size:?} exceeds the bound"))),
                V::E(e) => {
                    self.t.asserts_solver += 1;
                    match self.s.check(&mut self.x, &st.pc, e) {
                        Res::Sat(m) => { let mm = self.merge(&st.model.clone(), &m); st.model = Rc::new(mm); st.pc.push(e); return Err(End::Fail("alloc", "allocation exceeds the bound".into())) }
                        Res::Unsat => {}
                        Res::Unknown => self.t.unknown += 1,
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
    /// A symbolic allocation size is a meta-property: explored for every value when the
    /// range is small, otherwise the path is cut here (counted).
    fn alloc_size(&mut self, st: &mut State, size: &V) -> R<u64> {
        match size {
            V::C(k) => { if *k > 1 << 30 { if st.alloc_bound.is_some() { return Err(End::Cut) } } Ok(*k) }
            V::E(e) => {
                let (lo, hi) = { let n = &self.x.nodes[*e as usize]; (n.lo, n.hi) };
                if hi - lo > 8192 && st.alloc_bound.is_some() { return Err(End::Cut) }
                self.conc(st, size, 64)
            }
            _ => Err(End::Error("alloc size".into())),
        }
    }

    fn bytes_eq(&mut self, st: &mut State, a: u64, b: u64, n: u64) -> R<Vec<(Eid, Eid)>> {
        let mut o = vec![];
        for i in 0..n { let x = self.rd(st, a + i, 8)?; let y = self.rd(st, b + i, 8)?; o.push((self.e(&x, 8), self.e(&y, 8))) }
        Ok(o)
    }

    fn assert_(&mut self, st: &mut State, c: &V, id: u64) -> R<()> {
        match c {
            V::C(k) => { self.t.asserts_trivial += 1; if k & 1 == 0 { return Err(End::Fail("assert", format!("assertion {id}"))) } }
            V::E(e) => {
                self.t.asserts_solver += 1;
                st.asserts += 1;
                if self.ppos < self.prefix.len() { return Ok(()) } // already checked by the path that was split here
                // a conjunction holds iff every conjunct does: one (much smaller) query each
                let mut todo = vec![*e];
                let mut parts = vec![];
                while let Some(e) = todo.pop() {
                    if let N::Bin(Op::And, a, b) = self.x.n(e) { todo.push(a); todo.push(b) } else { parts.push(e) }
                }
                parts.sort_unstable(); parts.dedup();
                for e in parts {
                let ne = self.x.not(e);
                match self.s.check(&mut self.x, &st.pc, ne) {
                    Res::Sat(m) => { let mm = self.merge(&st.model.clone(), &m); st.model = Rc::new(mm); st.pc.push(ne); return Err(End::Fail("assert", format!("assertion {id}"))) }
                    Res::Unsat => {}
                    Res::Unknown => { self.t.unknown += 1 }
                }
                }
            }
            _ => return Err(End::Error("assert".into())),
        }
        Ok(())
    }

    fn ext(&mut self, st: &mut State, d: Option<u32>, ret: &Ty, name: &str, av: &[V], args: &[(Ty, Opnd, Option<u64>)], normal: Option<u32>) -> R<bool> {
        let w = if matches!(ret, Ty::Int(_) | Ty::Ptr) { ret.bits() } else { 0 };
        let mut out: Option<V> = None;
        let c = |s: &mut Self, st: &mut State, i: usize| -> R<u64> { let v = av[i].clone(); s.conc(st, &v, 64) };
        if let Some(r) = name.strip_prefix("llvm.") {
            let base = r.split('.').next().unwrap();
            if base == "memcpy" || base == "memmove" {
                let n = c(self, st, 2)?;
                if n > 0 { let a = c(self, st, 0)?; let b = c(self, st, 1)?; self.copy(st, a, b, n)? }
                return self.finish_call(st, d, None, normal);
            }
            if base == "memset" {
                let n = c(self, st, 2)?;
                if n > 0 { let a = c(self, st, 0)?; self.fill(st, a, &av[1].clone(), n)? }
                return self.finish_call(st, d, None, normal);
            }
            if let Ty::Vec(n, t) = ret { // lane-wise
                let mut o = vec![];
                for i in 0..*n as usize {
                    let lane: Vec<V> = av.iter().map(|v| if let V::A(x) = v { x[i].clone() } else { v.clone() }).collect();
                    o.push(self.intrinsic(st, r, t.bits(), &lane)?.ok_or(End::Error(format!("vector intrinsic {name}")))?);
                }
                return self.finish_call(st, d, Some(V::A(Rc::new(o))), normal);
            }
            if r.starts_with("vector.reduce") {
                let Ty::Vec(n, t) = &args[0].0 else { return Err(End::Error("reduce".into())) };
                let V::A(x) = &av[0] else { return Err(End::Error("reduce".into())) };
                let op = match r.split('.').nth(2).unwrap() { "or" => BOp::Or, "and" => BOp::And, "add" => BOp::Add, "xor" => BOp::Xor, o => return Err(End::Error(format!("reduce {o}"))) };
                let mut acc = x[0].clone();
                for i in 1..*n as usize { acc = self.bin1(op, t.bits(), &acc, &x[i])? }
                return self.finish_call(st, d, Some(acc), normal);
            }
            let wi = args.get(0).map_or(0, |a| if matches!(a.0, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) { a.0.bits() } else { 0 });
            out = self.intrinsic(st, r, wi, av)?;
            return self.finish_call(st, d, out, normal);
        }
        match name {
            "sx_any" => {
                let bits = c(self, st, 0)? as u32;
                let k = st.inputs.len() as u32;
                if let Some(f) = &self.sh.cfg.input_file {
                    let v = f.get(k as usize).copied().unwrap_or(0) & m64(bits);
                    let e = self.x.konst(v as u128, bits);
                    st.inputs.push((bits, e));
                    out = Some(V::C(v));
                } else {
                    let e = self.x.var(k, bits);
                    st.inputs.push((bits, e));
                    let z = self.x.zext(e, 64);
                    out = Some(self.v(z));
                }
            }
            "sx_assume" => {
                match &av[0] {
                    V::C(k) => if k & 1 == 0 { return Err(End::Infeasible) },
                    V::E(e) => {
                        let e = *e;
                        let ne = self.x.not(e);
                        match self.known(st, e, ne) {
                            Some(true) => {}
                            Some(false) => return Err(End::Infeasible),
                            None => {
                                if self.ppos < self.prefix.len() { st.pc.push(e) }
                                else {
                                    let m = st.model.clone();
                                    if self.x.eval(e, &m) != 1 {
                                        match self.s.check(&mut self.x, &st.pc, e) {
                                            Res::Sat(mm) => { let v = self.merge(&m, &mm); st.model = Rc::new(v) }
                                            Res::Unsat => return Err(End::Infeasible),
                                            Res::Unknown => { self.t.unknown += 1; return Err(End::Infeasible) }
                                        }
                                    }
                                    st.pc.push(e);
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            "sx_assert" => { let id = c(self, st, 1)?; let v = av[0].clone(); self.assert_(st, &v, id)? }
            "sx_cover" => { let id = c(self, st, 0)?; st.covers |= 1 << (id & 63) }
            "sx_obs" => st.obs.push(av[0].clone()),
            "sx_conc" => { let k = c(self, st, 0)?; out = Some(V::C(k)) }
            "sx_param" => { let i = c(self, st, 0)?; out = Some(V::C(self.sh.cfg.params.get(i as usize).copied().unwrap_or(0))) }
            "sx_alloc_bound" => { st.alloc_bound = Some(av[0].clone()) }
            "sx_expect_panic" => {
                // the panic expected up to here did not happen
                let bad = match st.expect_panic.take() {
                    Some(V::C(1)) => true,
                    Some(V::E(e)) => {
                        self.t.asserts_solver += 1;
                        if self.ppos < self.prefix.len() { false } else {
                            match self.s.check(&mut self.x, &st.pc, e) {
                                Res::Sat(m) => { let mm = self.merge(&st.model.clone(), &m); st.model = Rc::new(mm); st.pc.push(e); true }
                                Res::Unsat => false,
                                Res::Unknown => { self.t.unknown += 1; false }
                            }
                        }
                    }
                    _ => false,
                };
                if bad { return Err(End::Fail("nopanic", "expected a panic, none happened".into())) }
                st.expect_panic = Some(av[0].clone())
            }
            "sx_and" => { out = Some(self.bin1(BOp::And, 1, &av[0], &av[1])?) }
            "sx_or" => { out = Some(self.bin1(BOp::Or, 1, &av[0], &av[1])?) }
            "sx_ite" => { let ce = self.e(&av[0].clone(), 1); out = Some(self.sel(ce, &Ty::Int(64), &av[1], &av[2])) }
            "sx_not" => { let ce = self.e(&av[0].clone(), 1); let r = self.x.not(ce); out = Some(self.v(r)) }
            "malloc" => { let z = av[0].clone(); self.alloc_check(st, &z)?; let n = self.alloc_size(st, &z)?; out = Some(V::C(self.new_obj(st, n)?)) }
            "calloc" => {
                let z = self.bin1(BOp::Mul, 64, &av[0], &av[1])?; self.alloc_check(st, &z)?; let n = self.alloc_size(st, &z)?; out = Some(V::C(self.new_obj(st, n)?))
            }
            "posix_memalign" => {
                let z = av[2].clone(); self.alloc_check(st, &z)?; let n = self.alloc_size(st, &z)?;
                let p = c(self, st, 0)?; let a = self.new_obj(st, n)?; self.wr(st, p, 64, &V::C(a))?; out = Some(V::C(0));
            }
            "aligned_alloc" => { let z = av[1].clone(); self.alloc_check(st, &z)?; let n = self.alloc_size(st, &z)?; out = Some(V::C(self.new_obj(st, n)?)) }
            "realloc" => {
                let z = av[1].clone(); self.alloc_check(st, &z)?; let n = self.alloc_size(st, &z)?;
                let old = c(self, st, 0)?;
                let a = self.new_obj(st, n)?;
                if old != 0 {
                    let osz = self.obj(st, old, 0)?.0.data.len() as u64;
                    self.copy(st, a, old, osz.min(n))?;
                    self.free_obj(st, old)?;
                }
                out = Some(V::C(a));
            }
            "free" => { let p = c(self, st, 0)?; if p != 0 { self.free_obj(st, p)? } }
            "memcpy" | "memmove" => { let n = c(self, st, 2)?; let a = c(self, st, 0)?; if n > 0 { let b = c(self, st, 1)?; self.copy(st, a, b, n)? } out = Some(V::C(a)) }
            "memset" => { let n = c(self, st, 2)?; let a = c(self, st, 0)?; if n > 0 { let v = self.trunc(&av[1].clone(), 8); self.fill(st, a, &v, n)? } out = Some(V::C(a)) }
            "bcmp" | "memcmp" => {
                let n = c(self, st, 2)?;
                if n == 0 { out = Some(V::C(0)) } else {
                    let (a, b) = (c(self, st, 0)?, c(self, st, 1)?);
                    let ps = self.bytes_eq(st, a, b, n)?;
                    if name == "bcmp" {
                        let mut all = self.x.t;
                        for (p, q) in ps { let e = self.x.eq(p, q); all = self.x.bin(Op::And, all, e) }
                        let z = self.x.konst(0, 32); let o = self.x.konst(1, 32);
                        let r = self.x.ite(all, z, o); out = Some(self.v(r));
                    } else {
                        let mut acc = self.x.konst(0, 32);
                        let one = self.x.konst(1, 32); let mone = self.x.konst(!0, 32);
                        for (p, q) in ps.into_iter().rev() {
                            let e = self.x.eq(p, q); let l = self.x.ult(p, q);
                            let s = self.x.ite(l, mone, one);
                            acc = self.x.ite(e, acc, s);
                        }
                        out = Some(self.v(acc));
                    }
                }
            }
            "strlen" => { let a = c(self, st, 0)?; let mut n = 0; loop { if let V::C(0) = self.rd(st, a + n, 8)? { break } n += 1 } out = Some(V::C(n)) }
            "getrandom" => { let n = c(self, st, 1)?; let a = c(self, st, 0)?; self.fill(st, a, &V::C(0), n)?; out = Some(V::C(n)) }
            "__errno_location" => { let a = self.new_obj(st, 8)?; out = Some(V::C(a)) }
            "__cxa_thread_atexit_impl" => out = Some(V::C(0)),
            "abort" => return Err(End::Fail("panic", "abort".into())),
            n if n.contains("rust_no_alloc_shim") => {}
            n => return Err(End::Error(format!("external function {n}"))),
        }
        let _ = w;
        self.finish_call(st, d, out, normal)
    }

    fn intrinsic(&mut self, st: &mut State, r: &str, w: u32, av: &[V]) -> R<Option<V>> {
        let two = |s: &mut Self| -> (Eid, Eid) { (s.e(&av[0], w), s.e(&av[1], w)) };
        let base = r.split('.').take_while(|p| !(p.starts_with('i') && p[1..].parse::<u32>().is_ok()) && !(p.starts_with('v') && p.len() > 1 && p.as_bytes()[1].is_ascii_digit()) && !(*p == "f64" || *p == "f32" || *p == "p0")).collect::<Vec<_>>().join(".");
        let pick = |s: &mut Self, c: Eid, a: Eid, b: Eid| { let e = s.x.ite(c, a, b); s.v(e) };
        Ok(Some(match base.as_str() {
            "umin" => { let (a, b) = two(self); let c = self.x.ult(a, b); pick(self, c, a, b) }
            "umax" => { let (a, b) = two(self); let c = self.x.ult(a, b); pick(self, c, b, a) }
            "smin" => { let (a, b) = two(self); let c = self.x.slt(a, b); pick(self, c, a, b) }
            "smax" => { let (a, b) = two(self); let c = self.x.slt(a, b); pick(self, c, b, a) }
            "abs" => { let a = self.e(&av[0], w); let z = self.x.konst(0, w); let c = self.x.slt(a, z); let ng = self.x.bin(Op::Sub, z, a); pick(self, c, ng, a) }
            "ucmp" | "scmp" => {
                let wa = match &av[0] { V::E(e) => self.x.w(*e), _ => match &av[1] { V::E(e) => self.x.w(*e), _ => w } };
                let (a, b) = (self.e(&av[0], wa), self.e(&av[1], wa));
                let l = if base == "ucmp" { self.x.ult(a, b) } else { self.x.slt(a, b) };
                let e = self.x.eq(a, b);
                let wr = r.split('.').nth(1).and_then(|s| s[1..].parse().ok()).unwrap_or(8);
                let (m1, z, o) = (self.x.konst(!0, wr), self.x.konst(0, wr), self.x.konst(1, wr));
                let t = self.x.ite(e, z, o);
                pick(self, l, m1, t)
            }
            "usub.sat" => { let (a, b) = two(self); let c = self.x.ult(a, b); let z = self.x.konst(0, w); let s = self.x.bin(Op::Sub, a, b); pick(self, c, z, s) }
            "uadd.sat" => { let (a, b) = two(self); let s = self.x.bin(Op::Add, a, b); let c = self.x.ult(s, a); let m = self.x.konst(!0, w); pick(self, c, m, s) }
            "uadd.with.overflow" => {
                if let (V::C(a), V::C(b)) = (&av[0], &av[1]) { if w <= 64 { let s = (*a as u128) + (*b as u128); return Ok(Some(V::A(Rc::new(vec![V::C(s as u64 & m64(w)), V::C((s > m64(w) as u128) as u64)])))) } }
                let (a, b) = two(self); let s = self.x.bin(Op::Add, a, b);
                let no = self.x.nodes[a as usize].hi.checked_add(self.x.nodes[b as usize].hi).map_or(false, |h| h <= mask(w));
                let c = if no { self.x.f } else { let nb = self.x.konst(mask(w), w); let lim = self.x.bin(Op::Sub, nb, b); self.x.ult(lim, a) };
                V::A(Rc::new(vec![self.v(s), self.v(c)]))
            }
            "usub.with.overflow" => { let (a, b) = two(self); let s = self.x.bin(Op::Sub, a, b); let c = self.x.ult(a, b); V::A(Rc::new(vec![self.v(s), self.v(c)])) }
            "umul.with.overflow" => {
                let (a, b) = two(self); let s = self.x.bin(Op::Mul, a, b);
                let no = self.x.nodes[a as usize].hi.checked_mul(self.x.nodes[b as usize].hi).map_or(false, |h| h <= mask(w));
                let c = if no { self.x.f } else { let p = self.x.zext(a, 2 * w); let q = self.x.zext(b, 2 * w); let m = self.x.bin(Op::Mul, p, q); let h = self.x.extract(m, w, w); let z = self.x.konst(0, w); let e = self.x.eq(h, z); self.x.not(e) };
                V::A(Rc::new(vec![self.v(s), self.v(c)]))
            }
            "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let (a, b) = two(self);
                let op = match &base[..4] { "sadd" => Op::Add, "ssub" => Op::Sub, _ => Op::Mul };
                let s = self.x.bin(op, a, b);
                let w2 = if op == Op::Mul { 2 * w } else { w + 1 };
                let p = self.x.sext(a, w2); let q = self.x.sext(b, w2); let m = self.x.bin(op, p, q); let t = self.x.sext(s, w2);
                let e = self.x.eq(m, t); let c = self.x.not(e);
                V::A(Rc::new(vec![self.v(s), self.v(c)]))
            }
            "ctpop" => { let a = self.e(&av[0], w); let mut acc = self.x.konst(0, w); for i in 0..w { let b = self.x.extract(a, i, 1); let z = if w == 1 { b } else { self.x.zext(b, w) }; acc = self.x.bin(Op::Add, acc, z) } self.v(acc) }
            "ctlz" => { let a = self.e(&av[0], w); let mut acc = self.x.konst(w as u128, w); for i in 0..w { let b = self.x.extract(a, i, 1); let k = self.x.konst((w - 1 - i) as u128, w); acc = self.x.ite(b, k, acc) } self.v(acc) }
            "cttz" => { let a = self.e(&av[0], w); let mut acc = self.x.konst(w as u128, w); for i in (0..w).rev() { let b = self.x.extract(a, i, 1); let k = self.x.konst(i as u128, w); acc = self.x.ite(b, k, acc) } self.v(acc) }
            "bswap" => { let a = self.e(&av[0], w); let mut acc = self.x.extract(a, 0, 8); for i in 1..w / 8 { let b = self.x.extract(a, i * 8, 8); acc = self.x.concat(acc, b) } self.v(acc) }
            "bitreverse" => { let a = self.e(&av[0], w); let mut acc = self.x.extract(a, 0, 1); for i in 1..w { let b = self.x.extract(a, i, 1); acc = self.x.concat(acc, b) } self.v(acc) }
            "fshl" | "fshr" => {
                let k = match &av[2] { V::C(k) => (*k % w as u64) as u32, _ => return Err(End::Error("symbolic funnel shift".into())) };
                let (a, b) = two(self);
                if 2 * w > 128 { return Err(End::Error("funnel shift width".into())) }
                let cc = self.x.concat(a, b);
                let r = if base == "fshl" { self.x.extract(cc, w - k, w) } else { self.x.extract(cc, k, w) };
                self.v(r)
            }
            "expect" | "launder.invariant.group" | "threadlocal.address" | "ssa.copy" => av[0].clone(),
            "is.constant" => V::C(0),
            "trap" | "ubsantrap" => return Err(End::Fail("panic", "trap".into())),
            "assume" | "donothing" | "prefetch" | "lifetime.start" | "lifetime.end" => return Ok(None),
            "ptrmask" => self.bin1(BOp::And, 64, &av[0], &av[1])?,
            "fabs" => match &av[0] { V::C(k) => V::C(k & !(1u64 << (w - 1))), _ => return Err(End::Error("symbolic float".into())) },
            "fptosi.sat" | "fptoui.sat" => {
                let V::C(k) = av[0] else { return Err(End::Error("symbolic float".into())) };
                let tw: u32 = r.split('.').nth(2).unwrap()[1..].parse().unwrap();
                let f = if r.ends_with("f64") { f64::from_bits(k) } else { f32::from_bits(k as u32) as f64 };
                if base == "fptosi.sat" { let lim = 1i128 << (tw - 1); V::C((if f.is_nan() { 0 } else { (f as i128).clamp(-lim, lim - 1) }) as u64 & m64(tw)) }
                else { V::C((if f.is_nan() { 0 } else { (f as i128).clamp(0, m64(tw) as i128) }) as u64) }
            }
            "floor" | "round" | "ceil" | "trunc" | "sqrt" => {
                let V::C(k) = av[0] else { return Err(End::Error("symbolic float".into())) };
                let g = |f: f64| match base.as_str() { "floor" => f.floor(), "round" => f.round(), "ceil" => f.ceil(), "sqrt" => f.sqrt(), _ => f.trunc() };
                if w == 64 { V::C(g(f64::from_bits(k)).to_bits()) } else { V::C((g(f32::from_bits(k as u32) as f64) as f32).to_bits() as u64) }
            }
            _ => { let _ = st; return Err(End::Error(format!("intrinsic llvm.{r}"))) }
        }))
    }
}
