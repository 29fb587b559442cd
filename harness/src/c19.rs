//! Write failures surface and never corrupt or crash.
use crate::h::*; use crate::util::*;
use crate::c13::some_frame;
use crate::c18::code;
use gif::*;
use std::io::{self, Write};

const KINDS: [io::ErrorKind; 6] = [io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::PermissionDenied, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof, io::ErrorKind::InvalidInput];
/// Writer that accepts at most `step` bytes per call, fails after `left` bytes (if any), and is interrupted before byte `intr`
pub struct W { pub out: Vec<u8>, pub step: usize, pub left: Option<usize>, pub kind: u64, pub once: bool, pub intr: Option<usize>, pub failed: bool }
impl W {
    pub fn new() -> W { W { out: vec![], step: usize::MAX, left: None, kind: 0, once: false, intr: None, failed: false } }
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut n = b.len().min(self.step);
        if let Some(i) = self.intr {
            if self.out.len() >= i { self.intr = None; return Err(io::ErrorKind::Interrupted.into()) }
        }
        if let Some(l) = self.left {
            if l == 0 && n > 0 {
                self.failed = true;
                if self.once { self.left = None }
                return if self.kind == 6 { Ok(0) } else { Err(KINDS[self.kind as usize].into()) }
            }
            if n > l { n = conc(l as u64) as usize }
            self.left = Some(l - n);
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
pub fn want_code(kind: u64) -> u64 { 100 + if kind == 6 { 11 } else { iocode(&KINDS[kind as usize].into()) } }
/// what is written; k: kind of call
pub enum Call { Repeat(Repeat), Frame(Frame<'static>), Pre(Frame<'static>), Raw(u8, Vec<Vec<u8>>), Ext(u16) }
pub fn call(k: u64) -> Call {
    match k {
        0 => Call::Repeat(if pickb() { Repeat::Infinite } else { Repeat::Finite(3) }),
        1 => { let mut f = some_frame(1); f.make_lzw_pre_encoded(); Call::Pre(f) }
        2 => Call::Raw(any8(), vec![bytes(2), vec![], bytes(3)]),
        3 => Call::Ext(any16()),
        4 => { let mut f = Frame::default(); f.width = 40; f.height = 40; f.buffer = noise(1600, 3, 256).into(); Call::Frame(f) }
        5 => { let mut f = Frame::default(); f.delay = any16(); f.width = 1; f.height = 1; f.palette = Some(bytes(9)); f.buffer = vec![1].into(); Call::Frame(f) }
        6 => Call::Raw(any8(), vec![many(300)]),
        _ => { let mut f = Frame::default(); f.left = any16(); f.transparent = Some(any8()); f.width = 2; f.height = 1; f.buffer = vec![1, 0].into(); Call::Frame(f) }
    }
}
pub fn doit<X: Write>(e: &mut Encoder<X>, c: &Call) -> Result<(), EncodingError> {
    match c {
        Call::Repeat(r) => e.set_repeat(*r),
        Call::Frame(f) => e.write_frame(f),
        Call::Pre(f) => e.write_lzw_pre_encoded_frame(f),
        Call::Raw(l, b) => { let r: Vec<&[u8]> = b.iter().map(|x| &x[..]).collect(); e.write_raw_extension(AnyExtension(*l), &r).map_err(Into::into) }
        Call::Ext(d) => e.write_extension(ExtensionData::new_control_ext(*d, DisposalMethod::Keep, false, None)),
    }
}
/// failure at any byte; params: calls a, b; way to finish (0 into_inner, 1 drop); error kind (6: no progress); fails once; bytes per write;
/// continue with further calls after the failure
#[no_mangle]
pub extern "C" fn c19_fail() {
    let gp = bytes(6);
    let (sw, sh) = (any16(), any16());
    let calls = [call(param(0)), call(param(1))];
    // the normal output
    let mut e = ok!(Encoder::new(vec![], sw, sh, &gp));
    for c in &calls { ok!(doit(&mut e, c)) }
    let full = ok!(e.into_inner());
    let mut w = W::new();
    w.kind = param(3); w.once = param(4) == 1; w.step = param(5) as usize;
    let at = below(full.len() as u64, 16) as usize;
    w.left = Some(at);
    let want = want_code(param(3));
    let mut got = 0;
    match Encoder::new(&mut w, sw, sh, &gp) {
        Err(x) => { got = code(&x); cover(1) }
        Ok(mut e) => {
            for c in &calls {
                match doit(&mut e, c) {
                    Err(x) => { chk!(e.get_ref().failed); if got == 0 { got = code(&x) } cover(2); if param(6) == 0 { break } }
                    // no call succeeds that could not write
                    Ok(()) => { chk!(got != 0 || !e.get_ref().failed) }
                }
            }
            if param(2) == 1 || (got != 0 && param(6) == 0) { drop(e); if got == 0 { cover(3) } }
            else { match e.into_inner() { Err(x) => { if got == 0 { got = 100 + iocode(&x) } cover(4) } Ok(_) => { chk!(got != 0) } } }
        }
    }
    // everything fits except for the trailer that dropping writes
    if got == 0 { chk!(param(2) == 1 && w.failed); } else { chk!(got == want) }
    chk!(w.failed);
    if param(4) == 0 || param(6) == 0 {
        let n = at;
        let n = conc(n as u64) as usize;
        chk!(w.out.len() >= n);
        chk!(same(&w.out[..n], &full[..n]));
        if param(4) == 0 { chk!(w.out.len() == n) }
    }
    obs(got); obs_bytes(&w.out);
}
/// short writes and interruption make no difference; params: calls a, b, bytes per write, interrupted
#[no_mangle]
pub extern "C" fn c19_short() {
    let gp = bytes(6);
    let calls = [call(param(0)), call(param(1))];
    let mut e = ok!(Encoder::new(vec![], 5, 4, &gp));
    for c in &calls { ok!(doit(&mut e, c)) }
    let full = ok!(e.into_inner());
    let mut w = W::new();
    w.step = param(2) as usize;
    if param(3) == 1 { w.intr = Some(below(full.len() as u64, 16) as usize) }
    {
        let mut e = ok!(Encoder::new(&mut w, 5, 4, &gp));
        for c in &calls { ok!(doit(&mut e, c)) }
        if pickb() { ok!(e.into_inner()); } else { drop(e) }
    }
    chk!(same(&w.out, &full));
    obs_bytes(&w.out);
    cover(1);
}
/// frames that are rejected do not prevent proper output, and the writer is handed back unchanged; params: call
#[no_mangle]
pub extern "C" fn c19_back() {
    let c = call(param(0));
    let mut e = ok!(Encoder::new(W::new(), 5, 4, &[9; 6]));
    let mut f = Frame::default();
    f.width = 3; f.height = 3; f.buffer = vec![1; 8].into();
    chk!(e.write_frame(&f).is_err());
    ok!(doit(&mut e, &c));
    let n = e.get_ref().out.len();
    e.get_mut().out.len();
    let w = ok!(e.into_inner());
    chk!(w.out.len() == n + 1);
    let mut e = ok!(Encoder::new(vec![], 5, 4, &[9; 6]));
    ok!(doit(&mut e, &c));
    chk!(same(&w.out, &ok!(e.into_inner())));
    obs_bytes(&w.out);
    cover(1);
}
