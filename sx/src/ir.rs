//! Textual LLVM IR reader: only what rustc emits, functions lowered on demand.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, Arc<Ty>), Struct(Arc<Vec<Ty>>, bool), Vec(u32, Arc<Ty>), Other }

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Void | Ty::Other => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        let s = match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(n, t) => return n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() { if !p { o = up(o, t.align()) } o += t.size() }
                return if *p { o } else { up(o, self.align()) };
            }
            Ty::Vec(n, t) => return (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Void | Ty::Other => return 0,
        };
        up(s, self.align())
    }
    /// bytes actually touched by a load or store
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => (*w as u64 + 7) / 8, _ => self.size() } }
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => n * t.bits(), _ => panic!("bits of {self:?}") } }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() { if !p { o = up(o, t.align()) } if k as u64 == i { return (o, t.clone()) } o += t.size() }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i, (**t).clone()),
            _ => panic!("field_off of {self:?}"),
        }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..)) }
}
pub fn up(o: u64, a: u64) -> u64 { (o + a - 1) / a * a }

/// constants and registers
#[derive(Clone, Debug, PartialEq)]
pub enum Opnd { R(u32), C(u64), W(u128, u32), A(Arc<Vec<Opnd>>) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FToU, FToS, UToF, SToF, FExt, FTrunc }
#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ext(Arc<str>), Ind(Opnd), Asm }

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BOp, w: u32, lanes: u32, d: u32, a: Opnd, b: Opnd },
    Icmp { p: Pred, w: u32, lanes: u32, d: u32, a: Opnd, b: Opnd },
    Fcmp { p: String, w: u32, d: u32, a: Opnd, b: Opnd },
    Fneg { w: u32, d: u32, a: Opnd },
    Cast { k: Cast, from: Ty, to: Ty, d: u32, a: Opnd },
    Load { d: u32, ty: Ty, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: i64, terms: Vec<(Opnd, i64, u32)> },
    Select { d: u32, ty: Ty, vec_cond: bool, c: Opnd, a: Opnd, b: Opnd },
    Call { d: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Opnd, Option<u64>)>, normal: Option<u32> },
    Alloca { d: u32, size: u64, count: Opnd },
    Br { t: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<Opnd> },
    Unreachable,
    ExtractValue { d: u32, a: Opnd, idx: Vec<u32> },
    InsertValue { d: u32, a: Opnd, v: Opnd, idx: Vec<u32> },
    ExtractElem { d: u32, a: Opnd, i: Opnd },
    InsertElem { d: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, a: Opnd, b: Opnd, mask: Vec<u32>, n: u32 },
    AtomicRmw { op: String, w: u32, d: u32, p: Opnd, v: Opnd },
    CmpXchg { w: u32, d: u32, p: Opnd, c: Opnd, n: Opnd },
    Freeze { d: u32, a: Opnd },
    Nop,
}

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opnd)>)>, pub start: usize }
pub struct Func { pub name: Arc<str>, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block>, pub code: Vec<I>, pub ret: Ty, pub byval: Vec<Option<u64>> }

pub struct FuncSlot { pub name: Arc<str>, text: (usize, usize), pub f: OnceLock<Result<Arc<Func>, String>> }
pub struct Global { pub name: Arc<str>, pub size: u64, pub bytes: Vec<u8>, pub konst: bool, pub ext: bool }

pub const OBJ_BASE: u64 = 0x1000;
pub const FUNC_ID: u64 = 1;
pub fn obj_addr(id: u64) -> u64 { (id << 32) + OBJ_BASE }
pub fn func_addr(i: u64) -> u64 { obj_addr(FUNC_ID) + i * 16 }

pub struct Module {
    pub text: String,
    pub funcs: Vec<FuncSlot>,
    pub fmap: HashMap<Arc<str>, u32>,
    pub globals: Vec<Global>,
    gmap: HashMap<Arc<str>, u64>,
    named: HashMap<String, Ty>,
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> { Id(&'a str), Loc(&'a str), Glob(&'a str), Int(&'a str), Str(&'a str), Meta, Attr, P(u8), End }

#[derive(Clone)]
struct Lx<'a> { s: &'a str, i: usize, pk: Option<T<'a>> }
impl<'a> Lx<'a> {
    fn new(s: &'a str) -> Self { Lx { s, i: 0, pk: None } }
    fn peek(&mut self) -> T<'a> { if self.pk.is_none() { let t = self.lex(); self.pk = Some(t) } self.pk.clone().unwrap() }
    fn next(&mut self) -> T<'a> { match self.pk.take() { Some(t) => t, None => self.lex() } }
    fn lex(&mut self) -> T<'a> {
        let b = self.s.as_bytes();
        while self.i < b.len() && (b[self.i] == b' ' || b[self.i] == b'\n' || b[self.i] == b'\t') { self.i += 1 }
        if self.i >= b.len() { return T::End }
        let st = self.i;
        let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
        match b[st] {
            b';' => { while self.i < b.len() && b[self.i] != b'\n' { self.i += 1 } self.lex() }
            c @ (b'%' | b'@') => {
                self.i += 1;
                let name = if b.get(self.i) == Some(&b'"') {
                    let q = self.i + 1; let mut k = q; while b[k] != b'"' { k += 1 } self.i = k + 1; &self.s[q..k]
                } else { let q = self.i; while self.i < b.len() && idc(b[self.i]) { self.i += 1 } &self.s[q..self.i] };
                if c == b'%' { T::Loc(name) } else { T::Glob(name) }
            }
            b'c' if b.get(st + 1) == Some(&b'"') => { let q = st + 2; let mut k = q; while b[k] != b'"' { k += 1 } self.i = k + 1; T::Str(&self.s[q..k]) }
            b'"' => { let q = st + 1; let mut k = q; while b[k] != b'"' { k += 1 } self.i = k + 1; T::Attr }
            b'!' => { self.i += 1; while self.i < b.len() && (idc(b[self.i])) { self.i += 1 } T::Meta }
            b'#' => { self.i += 1; while self.i < b.len() && (idc(b[self.i])) { self.i += 1 } T::Attr }
            c if c.is_ascii_digit() || (c == b'-' && b.get(st + 1).map_or(false, |d| d.is_ascii_digit())) => {
                self.i += 1;
                while self.i < b.len() && (idc(b[self.i]) || b[self.i] == b'+') { self.i += 1 }
                T::Int(&self.s[st..self.i])
            }
            c if c.is_ascii_alphabetic() || c == b'_' => { while self.i < b.len() && idc(b[self.i]) { self.i += 1 } T::Id(&self.s[st..self.i]) }
            b'.' if self.s[st..].starts_with("...") => { self.i += 3; T::Id("...") }
            c => { self.i += 1; T::P(c) }
        }
    }
    fn p(&mut self, c: u8) { let t = self.next(); if t != T::P(c) { panic!("expected {:?} got {:?} in `{}`", c as char, t, &self.s[..self.s.len().min(300)]) } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == T::P(c) { self.next(); true } else { false } }
    fn eat_id(&mut self, s: &str) -> bool { if self.peek() == T::Id(s) { self.next(); true } else { false } }
    fn skip_paren(&mut self) { // current token is '('
        let mut d = 0;
        loop { match self.next() { T::P(b'(') => d += 1, T::P(b')') => { d -= 1; if d == 0 { return } } T::End => panic!("paren"), _ => {} } }
    }
    fn int(&mut self) -> i128 { match self.next() { T::Int(s) => parse_int(s), t => panic!("int expected, got {t:?}") } }
}
fn parse_int(s: &str) -> i128 {
    if let Ok(v) = s.parse::<i128>() { return v }
    if let Ok(v) = s.parse::<u128>() { return v as i128 }
    panic!("int {s}")
}

fn str_bytes(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' { if b[i + 1] == b'\\' { o.push(b'\\'); i += 2 } else { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3 } }
        else { o.push(b[i]); i += 1 }
    }
    o
}

impl Module {
    pub fn load(path: &str) -> Result<Module, String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let mut m = Module { text: String::new(), funcs: vec![], fmap: HashMap::new(), globals: vec![], gmap: HashMap::new(), named: HashMap::new() };
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut aliases: Vec<(String, String)> = vec![];
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = text[i..].find('\n').map_or(b.len(), |k| i + k);
            let l = &text[i..e];
            if l.starts_with('@') {
                let mut lx = Lx::new(l);
                if let T::Glob(n) = lx.next() {
                    if l.contains(" alias ") {
                        let tgt = l.rsplit('@').next().unwrap().split(|c: char| c == ',' || c == ' ').next().unwrap().trim_matches('"').to_string();
                        aliases.push((n.into(), tgt));
                    } else {
                        let id = 2 + glines.len() as u64;
                        m.gmap.insert(n.into(), id);
                        glines.push((i, e));
                    }
                }
            } else if l.starts_with('%') {
                let mut lx = Lx::new(l);
                if let T::Loc(n) = lx.next() {
                    lx.p(b'=');
                    if lx.eat_id("type") { let t = if lx.eat_id("opaque") { Ty::Other } else { m.ty(&mut lx) }; m.named.insert(n.to_string(), t); }
                }
            } else if l.starts_with("define ") {
                let at = l.find('@').ok_or("define without name")?;
                let mut lx = Lx::new(&l[at..]);
                let n = if let T::Glob(n) = lx.next() { n } else { return Err("define".into()) };
                let end = text[i..].find("\n}\n").map_or(b.len(), |k| i + k + 1);
                let idx = m.funcs.len() as u32;
                let name: Arc<str> = n.into();
                m.fmap.insert(name.clone(), idx);
                m.funcs.push(FuncSlot { name, text: (i, end), f: OnceLock::new() });
                i = end + 1;
                continue;
            } else if l.starts_with("declare ") {
                let at = l.find('@').ok_or("declare")?;
                let mut lx = Lx::new(&l[at..]);
                if let T::Glob(n) = lx.next() {
                    let idx = m.funcs.len() as u32;
                    let name: Arc<str> = n.into();
                    m.fmap.insert(name.clone(), idx);
                    let s = FuncSlot { name, text: (0, 0), f: OnceLock::new() };
                    m.funcs.push(s);
                }
            }
            i = e + 1;
        }
        for (a, t) in aliases {
            if let Some(&f) = m.fmap.get(t.as_str()) { m.fmap.insert(a.as_str().into(), f); }
            else if let Some(&g) = m.gmap.get(t.as_str()) { m.gmap.insert(a.as_str().into(), g); }
        }
        for (s, e) in glines {
            let g = m.global(&text[s..e]);
            m.globals.push(g);
        }
        m.text = text;
        Ok(m)
    }

    fn global(&self, l: &str) -> Global {
        let mut lx = Lx::new(l);
        let name: Arc<str> = if let T::Glob(n) = lx.next() { n.into() } else { unreachable!() };
        lx.p(b'=');
        let (mut ext, konst);
        ext = false;
        loop {
            match lx.next() {
                T::Id("global") => { konst = false; break }
                T::Id("constant") => { konst = true; break }
                T::Id("external") | T::Id("extern_weak") => ext = true,
                T::Id(_) => { if lx.peek() == T::P(b'(') { lx.skip_paren() } }
                t => panic!("global {l}: {t:?}"),
            }
        }
        let ty = self.ty(&mut lx);
        let size = ty.size();
        let mut bytes = vec![0u8; size as usize];
        if !ext { let v = self.konst(&mut lx, &ty); Self::flat(&v, &ty, &mut bytes) }
        Global { name, size, bytes, konst, ext }
    }
    fn flat(v: &Opnd, ty: &Ty, out: &mut [u8]) {
        match (v, ty) {
            (Opnd::C(k), Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..)) => assert!(*k == 0),
            (Opnd::C(k), _) => { let n = ty.store_size() as usize; if n <= 8 { out[..n].copy_from_slice(&k.to_le_bytes()[..n]) } else { out[..8].copy_from_slice(&k.to_le_bytes()) } }
            (Opnd::W(k, _), _) => { let n = ty.store_size() as usize; out[..n].copy_from_slice(&k.to_le_bytes()[..n]) }
            (Opnd::A(x), _) => for (i, e) in x.iter().enumerate() { let (o, t) = ty.field_off(i as u64); Self::flat(e, &t, &mut out[o as usize..]) },
            _ => panic!("flat"),
        }
    }

    fn is_ty(t: &T) -> bool {
        match t {
            T::Id(s) => matches!(*s, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "bfloat") || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit())),
            T::P(b'{' | b'[' | b'<') => true,
            T::Loc(_) => true,
            _ => false,
        }
    }
    fn ty(&self, lx: &mut Lx) -> Ty {
        let t = match lx.next() {
            T::Id("void") => Ty::Void,
            T::Id("ptr") => { if lx.peek() == T::Id("addrspace") { lx.next(); lx.skip_paren() } Ty::Ptr }
            T::Id("float") => Ty::F32,
            T::Id("double") => Ty::F64,
            T::Id("label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat") => Ty::Other,
            T::Id(s) if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {s}"))),
            T::P(b'[') => { let n = lx.int() as u64; assert!(lx.eat_id("x")); let t = self.ty(lx); lx.p(b']'); Ty::Arr(n, Arc::new(t)) }
            T::P(b'{') => { let v = self.tys(lx, b'}'); Ty::Struct(Arc::new(v), false) }
            T::P(b'<') => {
                if lx.eat(b'{') { let v = self.tys(lx, b'}'); lx.p(b'>'); Ty::Struct(Arc::new(v), true) }
                else { let n = lx.int() as u32; assert!(lx.eat_id("x")); let t = self.ty(lx); lx.p(b'>'); Ty::Vec(n, Arc::new(t)) }
            }
            T::Loc(n) => self.named.get(n).cloned().unwrap_or(Ty::Other),
            t => panic!("type expected, got {t:?} in `{}`", &lx.s[..lx.s.len().min(300)]),
        };
        t
    }
    fn tys(&self, lx: &mut Lx, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if lx.eat(end) { return v }
        loop { v.push(self.ty(lx)); if lx.eat(end) { return v } lx.p(b',') }
    }
    fn sym(&self, n: &str) -> u64 {
        if let Some(&g) = self.gmap.get(n) { return obj_addr(g) }
        if let Some(&f) = self.fmap.get(n) { return func_addr(f as u64) }
        panic!("unknown symbol {n}")
    }
    fn konst(&self, lx: &mut Lx, ty: &Ty) -> Opnd {
        let mk = |v: i128, ty: &Ty| -> Opnd {
            let w = ty.bits();
            if w <= 64 { Opnd::C((v as u128 & crate::expr::mask(w)) as u64) } else { Opnd::W(v as u128 & crate::expr::mask(w), w) }
        };
        match lx.next() {
            T::Int(s) => {
                match ty {
                    Ty::F32 | Ty::F64 => {
                        let bits = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse::<f64>().unwrap() };
                        Opnd::C(if *ty == Ty::F32 { (bits as f32).to_bits() as u64 } else { bits.to_bits() })
                    }
                    _ => mk(parse_int(s), ty),
                }
            }
            T::Id(s) if s.starts_with("f0x") && matches!(ty, Ty::F32 | Ty::F64) => Opnd::C(u64::from_str_radix(&s[3..], 16).unwrap()),
            T::Id("true") => Opnd::C(1),
            T::Id("false" | "null") => Opnd::C(0),
            T::Id("zeroinitializer" | "undef" | "poison") => self.zero(ty),
            T::Glob(n) => Opnd::C(self.sym(n)),
            T::Str(s) => Opnd::A(Arc::new(str_bytes(s).into_iter().map(|b| Opnd::C(b as u64)).collect())),
            T::Id("splat") => {
                lx.p(b'('); let t = self.ty(lx); let v = self.konst(lx, &t); lx.p(b')');
                if let Ty::Vec(n, _) = ty { Opnd::A(Arc::new(vec![v; *n as usize])) } else { panic!("splat") }
            }
            T::P(b'<') => { let pk = lx.eat(b'{'); let v = self.konsts(lx, if pk { b'}' } else { b'>' }); if pk { lx.p(b'>') } Opnd::A(Arc::new(v)) }
            T::P(b'{') => Opnd::A(Arc::new(self.konsts(lx, b'}'))),
            T::P(b'[') => Opnd::A(Arc::new(self.konsts(lx, b']'))),
            T::Id("getelementptr") => {
                while lx.peek() != T::P(b'(') { if let T::Id("inrange") = lx.next() { lx.skip_paren() } }
                lx.p(b'(');
                let t = self.ty(lx); lx.p(b',');
                let pt = self.ty(lx); let base = self.konst(lx, &pt);
                let mut off = if let Opnd::C(k) = base { k } else { panic!() };
                let mut cur = t.clone(); let mut first = true;
                while lx.eat(b',') {
                    let it = self.ty(lx);
                    let iv = match self.konst(lx, &it) { Opnd::C(k) => crate::expr::sext(k as u128, it.bits()) as i64, _ => panic!() };
                    if first { off = off.wrapping_add((iv as u64).wrapping_mul(cur.size())); first = false }
                    else { let (o, t2) = cur.field_off(iv as u64); off = off.wrapping_add(o); cur = t2 }
                }
                lx.p(b')');
                Opnd::C(off)
            }
            T::Id(c @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr")) => {
                lx.p(b'('); let t = self.ty(lx); let v = self.konst(lx, &t); assert!(lx.eat_id("to")); let t2 = self.ty(lx); lx.p(b')');
                match v { Opnd::C(k) if c != "bitcast" || !t.is_agg() => mk(k as i128, &t2), v => v }
            }
            T::Id(c @ ("add" | "sub" | "xor" | "mul" | "and" | "or")) => {
                while lx.peek() != T::P(b'(') { lx.next(); }
                lx.p(b'('); let t = self.ty(lx); let a = self.konst(lx, &t); lx.p(b','); let t2 = self.ty(lx); let b = self.konst(lx, &t2); lx.p(b')');
                let (Opnd::C(a), Opnd::C(b)) = (a, b) else { panic!("constexpr") };
                let r = match c { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "xor" => a ^ b, "mul" => a.wrapping_mul(b), "and" => a & b, _ => a | b };
                mk(r as i128, &t)
            }
            t => panic!("constant: {t:?} in `{}`", &lx.s[..lx.s.len().min(400)]),
        }
    }
    fn konsts(&self, lx: &mut Lx, end: u8) -> Vec<Opnd> {
        let mut v = vec![];
        if lx.eat(end) { return v }
        loop { let t = self.ty(lx); v.push(self.konst(lx, &t)); if lx.eat(end) { return v } lx.p(b',') }
    }
    pub fn zero(&self, ty: &Ty) -> Opnd {
        match ty {
            Ty::Int(w) if *w > 64 => Opnd::W(0, *w),
            Ty::Arr(n, t) => Opnd::A(Arc::new(vec![self.zero(t); *n as usize])),
            Ty::Vec(n, t) => Opnd::A(Arc::new(vec![self.zero(t); *n as usize])),
            Ty::Struct(f, _) => Opnd::A(Arc::new(f.iter().map(|t| self.zero(t)).collect())),
            _ => Opnd::C(0),
        }
    }

    pub fn func(&self, i: u32) -> Option<Result<Arc<Func>, String>> {
        let s = &self.funcs[i as usize];
        if s.text.1 == 0 { return None }
        Some(s.f.get_or_init(|| {
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Arc::new(self.lower(s)))).map_err(|e| {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("cannot lower {}: {m}", s.name)
            })
        }).clone())
    }

    fn skip_attrs(lx: &mut Lx) -> Option<u64> {
        let mut byval = None;
        loop {
            match lx.peek() {
                T::Id(s) if !Self::is_ty(&T::Id(s)) && !matches!(s, "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "splat" | "trunc" | "zext" | "add" | "sub" | "xor" | "asm") => {
                    lx.next();
                    if lx.peek() == T::P(b'(') {
                        if s == "byval" { byval = Some(0) }
                        lx.skip_paren()
                    } else if s == "align" { if let T::Int(_) = lx.peek() { lx.next(); } }
                }
                T::Attr => { lx.next(); if lx.eat(b'=') { lx.next(); } }
                _ => return byval,
            }
        }
    }

    fn lower(&self, s: &FuncSlot) -> Func {
        let text = &self.text[s.text.0..s.text.1];
        let hl = text.find('\n').unwrap();
        let mut lx = Lx::new(&text[..hl]);
        lx.next(); // define
        Self::skip_attrs(&mut lx);
        let ret = self.ty(&mut lx);
        lx.next(); // name
        lx.p(b'(');
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        let mut byval = vec![];
        let mut unnamed = 0;
        if !lx.eat(b')') {
            loop {
                if lx.eat_id("...") { lx.p(b')'); break }
                let _t = self.ty(&mut lx);
                let mut probe = lx.clone();
                let bv = { let mut r = None; loop { match probe.next() { T::Id("byval") => { probe.p(b'('); let t = self.ty(&mut probe); r = Some(t.size()); break } T::Id(s) => { if probe.peek() == T::P(b'(') { probe.skip_paren() } else if s == "align" { probe.next(); } } _ => break } } r };
                Self::skip_attrs(&mut lx);
                let n = regs.len() as u32;
                if let T::Loc(nm) = lx.peek() { lx.next(); regs.insert(nm.to_string(), n); if nm.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1 } } else { regs.insert(format!("?{n}"), n); unnamed += 1 }
                params.push(n);
                byval.push(bv);
                if lx.eat(b')') { break }
                lx.p(b',');
            }
        }
        // split body into statements
        let body = &text[hl + 1..];
        let mut stmts: Vec<(bool, String)> = vec![]; // (is_label, text)
        let mut cur = String::new();
        let mut depth = 0i32;
        for l in body.lines() {
            let t = l.trim();
            if t.is_empty() || t == "}" || t.starts_with(';') || t.starts_with("#dbg") { continue }
            if !l.starts_with(' ') && depth == 0 && cur.is_empty() {
                // label
                let lab = if let Some(r) = t.strip_prefix('"') { r[..r.find('"').unwrap()].to_string() } else { t[..t.find(':').unwrap()].to_string() };
                stmts.push((true, lab));
                continue;
            }
            let cont = t.starts_with("to label") || t.starts_with("catch ") || t.starts_with("cleanup") || t.starts_with("filter ");
            if cont && depth == 0 && cur.is_empty() { let k = stmts.len() - 1; stmts[k].1.push(' '); stmts[k].1.push_str(t); continue }
            if !cur.is_empty() { cur.push(' ') }
            cur.push_str(t);
            let mut inq = false;
            for c in t.bytes() { match c { b'"' => inq = !inq, b'[' if !inq => depth += 1, b']' if !inq => depth -= 1, _ => {} } }
            if depth == 0 { stmts.push((false, std::mem::take(&mut cur))) }
        }
        // blocks
        let mut bmap: HashMap<String, u32> = HashMap::new();
        if !stmts[0].0 { stmts.insert(0, (true, unnamed.to_string())) }
        for (l, t) in &stmts { if *l { let n = bmap.len() as u32; bmap.insert(t.clone(), n); } }
        // registers
        for (l, t) in &stmts {
            if !*l && t.starts_with('%') {
                let mut lx = Lx::new(t);
                if let T::Loc(n) = lx.next() { let k = regs.len() as u32; regs.entry(n.to_string()).or_insert(k); }
            }
        }
        let mut f = Func { name: s.name.clone(), params, nregs: regs.len() as u32, blocks: vec![], code: vec![], ret, byval };
        for (l, t) in &stmts {
            if *l { let start = f.code.len(); f.blocks.push(Block { phis: vec![], start }); continue }
            self.stmt(t, &regs, &bmap, &mut f);
        }
        f
    }

    fn opnd(&self, lx: &mut Lx, ty: &Ty, regs: &HashMap<String, u32>) -> Opnd {
        if let T::Loc(n) = lx.peek() { lx.next(); return Opnd::R(*regs.get(n).unwrap_or_else(|| panic!("reg {n}"))) }
        self.konst(lx, ty)
    }

    fn stmt(&self, t: &str, regs: &HashMap<String, u32>, bmap: &HashMap<String, u32>, f: &mut Func) {
        let mut lx = Lx::new(t);
        let mut d = None;
        if let T::Loc(n) = lx.peek() { lx.next(); lx.p(b'='); d = Some(regs[n]) }
        let lab = |lx: &mut Lx| -> u32 { assert!(lx.eat_id("label")); if let T::Loc(n) = lx.next() { *bmap.get(n).unwrap_or_else(|| panic!("label {n}")) } else { panic!("label") } };
        let mut op = if let T::Id(s) = lx.next() { s } else { panic!("stmt {t}") };
        while matches!(op, "tail" | "musttail" | "notail") { op = if let T::Id(s) = lx.next() { s } else { panic!() } }
        let lanes = |ty: &Ty| match ty { Ty::Vec(n, t) => (*n, t.bits()), t => (0, t.bits()) };
        let i = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                Self::skip_attrs(&mut lx);
                let ty = self.ty(&mut lx);
                let a = self.opnd(&mut lx, &ty, regs); lx.p(b','); let b = self.opnd(&mut lx, &ty, regs);
                let (l, w) = lanes(&ty);
                let o = match op { "add" => BOp::Add, "sub" => BOp::Sub, "mul" => BOp::Mul, "udiv" => BOp::UDiv, "sdiv" => BOp::SDiv, "urem" => BOp::URem, "srem" => BOp::SRem, "and" => BOp::And, "or" => BOp::Or, "xor" => BOp::Xor, "shl" => BOp::Shl, "lshr" => BOp::LShr, "ashr" => BOp::AShr, "fadd" => BOp::FAdd, "fsub" => BOp::FSub, "fmul" => BOp::FMul, "fdiv" => BOp::FDiv, _ => BOp::FRem };
                I::Bin { op: o, w, lanes: l, d: d.unwrap(), a, b }
            }
            "fneg" => { Self::skip_attrs(&mut lx); let ty = self.ty(&mut lx); let a = self.opnd(&mut lx, &ty, regs); I::Fneg { w: ty.bits(), d: d.unwrap(), a } }
            "icmp" => {
                let mut p = lx.next();
                while matches!(p, T::Id("samesign")) { p = lx.next() }
                let p = match p { T::Id("eq") => Pred::Eq, T::Id("ne") => Pred::Ne, T::Id("ult") => Pred::Ult, T::Id("ule") => Pred::Ule, T::Id("ugt") => Pred::Ugt, T::Id("uge") => Pred::Uge, T::Id("slt") => Pred::Slt, T::Id("sle") => Pred::Sle, T::Id("sgt") => Pred::Sgt, T::Id("sge") => Pred::Sge, t => panic!("icmp {t:?}") };
                let ty = self.ty(&mut lx);
                let a = self.opnd(&mut lx, &ty, regs); lx.p(b','); let b = self.opnd(&mut lx, &ty, regs);
                let (l, w) = lanes(&ty);
                I::Icmp { p, w, lanes: l, d: d.unwrap(), a, b }
            }
            "fcmp" => {
                let mut p = String::new();
                while let T::Id(s) = lx.peek() { if Self::is_ty(&T::Id(s)) { break } p = s.to_string(); lx.next(); }
                let ty = self.ty(&mut lx);
                let a = self.opnd(&mut lx, &ty, regs); lx.p(b','); let b = self.opnd(&mut lx, &ty, regs);
                I::Fcmp { p, w: ty.bits(), d: d.unwrap(), a, b }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
                Self::skip_attrs(&mut lx);
                let from = self.ty(&mut lx); let a = self.opnd(&mut lx, &from, regs); assert!(lx.eat_id("to")); let to = self.ty(&mut lx);
                let k = match op {
                    "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt,
                    "fptoui" => Cast::FToU, "fptosi" => Cast::FToS, "uitofp" => Cast::UToF, "sitofp" => Cast::SToF, "fpext" => Cast::FExt, "fptrunc" => Cast::FTrunc,
                    "ptrtoint" => if to.bits() < 64 { Cast::Trunc } else { Cast::Bit },
                    "inttoptr" => if from.bits() < 64 { Cast::ZExt } else { Cast::Bit },
                    _ => Cast::Bit,
                };
                I::Cast { k, from, to, d: d.unwrap(), a }
            }
            "load" => {
                while lx.eat_id("volatile") || lx.eat_id("atomic") {}
                let ty = self.ty(&mut lx); lx.p(b','); let pt = self.ty(&mut lx); let p = self.opnd(&mut lx, &pt, regs);
                I::Load { d: d.unwrap(), ty, p }
            }
            "store" => {
                while lx.eat_id("volatile") || lx.eat_id("atomic") {}
                let ty = self.ty(&mut lx); let v = self.opnd(&mut lx, &ty, regs); lx.p(b','); let pt = self.ty(&mut lx); let p = self.opnd(&mut lx, &pt, regs);
                I::Store { ty, v, p }
            }
            "getelementptr" => {
                Self::skip_attrs(&mut lx);
                let ty = self.ty(&mut lx); lx.p(b',');
                let pt = self.ty(&mut lx); let base = self.opnd(&mut lx, &pt, regs);
                let mut off = 0i64; let mut terms = vec![]; let mut cur = ty; let mut first = true;
                while lx.eat(b',') {
                    if matches!(lx.peek(), T::Meta) { break }
                    let it = self.ty(&mut lx); let iv = self.opnd(&mut lx, &it, regs);
                    let (scale, next) = if first { (cur.size() as i64, None) } else {
                        match (&cur, &iv) { (Ty::Struct(..), Opnd::C(k)) => { let (o, t2) = cur.field_off(*k); off += o as i64; cur = t2; first = false; continue } _ => { let (_, t2) = cur.field_off(0); (t2.size() as i64, Some(t2)) } }
                    };
                    match iv { Opnd::C(k) => off = off.wrapping_add((crate::expr::sext(k as u128, it.bits()) as i64).wrapping_mul(scale)), o => terms.push((o, scale, it.bits())) }
                    if let Some(n) = next { cur = n }
                    first = false;
                }
                I::Gep { d: d.unwrap(), base, off, terms }
            }
            "select" => {
                Self::skip_attrs(&mut lx);
                let ct = self.ty(&mut lx); let c = self.opnd(&mut lx, &ct, regs); lx.p(b',');
                let ty = self.ty(&mut lx); let a = self.opnd(&mut lx, &ty, regs); lx.p(b',');
                let ty2 = self.ty(&mut lx); let b = self.opnd(&mut lx, &ty2, regs);
                I::Select { d: d.unwrap(), ty, vec_cond: matches!(ct, Ty::Vec(..)), c, a, b }
            }
            "alloca" => {
                let ty = self.ty(&mut lx);
                let mut count = Opnd::C(1);
                if lx.eat(b',') { if !matches!(lx.peek(), T::Id("align")) && !matches!(lx.peek(), T::Meta) { let it = self.ty(&mut lx); count = self.opnd(&mut lx, &it, regs) } }
                I::Alloca { d: d.unwrap(), size: ty.size(), count }
            }
            "br" => {
                if matches!(lx.peek(), T::Id("label")) { I::Br { t: lab(&mut lx) } }
                else { let ty = self.ty(&mut lx); let c = self.opnd(&mut lx, &ty, regs); lx.p(b','); let t = lab(&mut lx); lx.p(b','); let e = lab(&mut lx); I::CondBr { c, t, f: e } }
            }
            "switch" => {
                let ty = self.ty(&mut lx); let v = self.opnd(&mut lx, &ty, regs); lx.p(b','); let def = lab(&mut lx); lx.p(b'[');
                let mut cases = vec![];
                while !lx.eat(b']') { let t = self.ty(&mut lx); let k = self.konst(&mut lx, &t); lx.p(b','); let l = lab(&mut lx); if let Opnd::C(k) = k { cases.push((k, l)) } else { panic!("wide switch") } }
                I::Switch { w: ty.bits(), v, def, cases }
            }
            "ret" => { let ty = self.ty(&mut lx); I::Ret { v: if ty == Ty::Void { None } else { Some(self.opnd(&mut lx, &ty, regs)) } } }
            "unreachable" => I::Unreachable,
            "phi" => {
                Self::skip_attrs(&mut lx);
                let ty = self.ty(&mut lx);
                let mut inc = vec![];
                loop {
                    lx.p(b'['); let v = self.opnd(&mut lx, &ty, regs); lx.p(b',');
                    if let T::Loc(n) = lx.next() { inc.push((bmap[n], v)) } else { panic!("phi") }
                    lx.p(b']');
                    if !lx.eat(b',') || matches!(lx.peek(), T::Meta) { break }
                }
                f.blocks.last_mut().unwrap().phis.push((d.unwrap(), inc));
                return;
            }
            "call" | "invoke" => {
                Self::skip_attrs(&mut lx);
                let ret = self.ty(&mut lx);
                Self::skip_attrs(&mut lx);
                if lx.peek() == T::P(b'(') { lx.skip_paren() }
                let callee = match lx.next() {
                    T::Glob(n) => match self.fmap.get(n) { Some(&i) if self.funcs[i as usize].text.1 != 0 => Callee::F(i), _ => Callee::Ext(n.into()) },
                    T::Loc(n) => Callee::Ind(Opnd::R(regs[n])),
                    T::Id("asm") => Callee::Asm,
                    t => panic!("callee {t:?}"),
                };
                let mut args = vec![];
                if let Callee::Asm = callee { f.code.push(I::Call { d, ret, callee, args, normal: None }); return }
                lx.p(b'(');
                if !lx.eat(b')') {
                    loop {
                        let ty = self.ty(&mut lx);
                        if ty == Ty::Other { // metadata argument
                            let mut dep = 0;
                            loop { match lx.peek() { T::P(b'(') => { dep += 1; lx.next(); } T::P(b')') if dep > 0 => { dep -= 1; lx.next(); } T::P(b')') | T::P(b',') if dep == 0 => break, _ => { lx.next(); } } }
                            args.push((ty, Opnd::C(0), None));
                        } else {
                            let mut probe = lx.clone();
                            let bv = { let mut r = None; loop { match probe.next() { T::Id("byval") => { probe.p(b'('); let t = self.ty(&mut probe); r = Some(t.size()); break } T::Id(s) if !matches!(s, "null" | "undef" | "poison" | "true" | "false" | "getelementptr") => { if probe.peek() == T::P(b'(') { probe.skip_paren() } else if s == "align" { probe.next(); } } _ => break } } r };
                            Self::skip_attrs(&mut lx);
                            let v = self.opnd(&mut lx, &ty, regs);
                            args.push((ty, v, bv));
                        }
                        if lx.eat(b')') { break }
                        lx.p(b',');
                    }
                }
                let mut normal = None;
                if op == "invoke" { loop { match lx.next() { T::Id("to") => { normal = Some(lab(&mut lx)); break } T::End => panic!("invoke"), _ => {} } } }
                if let Callee::Ext(n) = &callee { if n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || &**n == "llvm.assume" { if let Some(t) = normal { f.code.push(I::Br { t }) } return } }
                I::Call { d, ret, callee, args, normal }
            }
            "extractvalue" => {
                let ty = self.ty(&mut lx); let a = self.opnd(&mut lx, &ty, regs);
                let mut idx = vec![]; while lx.eat(b',') { if let T::Int(_) = lx.peek() { idx.push(lx.int() as u32) } else { break } }
                I::ExtractValue { d: d.unwrap(), a, idx }
            }
            "insertvalue" => {
                let ty = self.ty(&mut lx); let a = self.opnd(&mut lx, &ty, regs); lx.p(b',');
                let t2 = self.ty(&mut lx); let v = self.opnd(&mut lx, &t2, regs);
                let mut idx = vec![]; while lx.eat(b',') { if let T::Int(_) = lx.peek() { idx.push(lx.int() as u32) } else { break } }
                I::InsertValue { d: d.unwrap(), a, v, idx }
            }
            "extractelement" => { let ty = self.ty(&mut lx); let a = self.opnd(&mut lx, &ty, regs); lx.p(b','); let t2 = self.ty(&mut lx); let i = self.opnd(&mut lx, &t2, regs); I::ExtractElem { d: d.unwrap(), a, i } }
            "insertelement" => { let ty = self.ty(&mut lx); let a = self.opnd(&mut lx, &ty, regs); lx.p(b','); let t1 = self.ty(&mut lx); let v = self.opnd(&mut lx, &t1, regs); lx.p(b','); let t2 = self.ty(&mut lx); let i = self.opnd(&mut lx, &t2, regs); I::InsertElem { d: d.unwrap(), a, v, i } }
            "shufflevector" => {
                let ty = self.ty(&mut lx); let a = self.opnd(&mut lx, &ty, regs); lx.p(b','); let t1 = self.ty(&mut lx); let b = self.opnd(&mut lx, &t1, regs); lx.p(b',');
                let t2 = self.ty(&mut lx); let m = self.konst(&mut lx, &t2);
                let mask = if let Opnd::A(x) = m { x.iter().map(|o| if let Opnd::C(k) = o { *k as u32 } else { 0 }).collect() } else { panic!() };
                let n = if let Ty::Vec(n, _) = ty { n } else { panic!() };
                I::Shuffle { d: d.unwrap(), a, b, mask, n }
            }
            "atomicrmw" => {
                lx.eat_id("volatile");
                let o = if let T::Id(s) = lx.next() { s.to_string() } else { panic!() };
                let pt = self.ty(&mut lx); let p = self.opnd(&mut lx, &pt, regs); lx.p(b','); let ty = self.ty(&mut lx); let v = self.opnd(&mut lx, &ty, regs);
                I::AtomicRmw { op: o, w: ty.bits(), d: d.unwrap_or(u32::MAX), p, v }
            }
            "cmpxchg" => {
                while lx.eat_id("weak") || lx.eat_id("volatile") {}
                let pt = self.ty(&mut lx); let p = self.opnd(&mut lx, &pt, regs); lx.p(b','); let ty = self.ty(&mut lx); let c = self.opnd(&mut lx, &ty, regs); lx.p(b','); let t2 = self.ty(&mut lx); let n = self.opnd(&mut lx, &t2, regs);
                I::CmpXchg { w: ty.bits(), d: d.unwrap(), p, c, n }
            }
            "freeze" => { let ty = self.ty(&mut lx); let a = self.opnd(&mut lx, &ty, regs); I::Freeze { d: d.unwrap(), a } }
            "fence" => I::Nop,
            "landingpad" | "resume" | "cleanuppad" | "cleanupret" | "catchswitch" => I::Unreachable,
            o => panic!("instruction {o}: {t}"),
        };
        f.code.push(i);
    }
}
