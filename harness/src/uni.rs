//! Streams whose structure is drawn from a seed, with symbolic contents, against a complete prediction.
//! Every combination of frame shapes, palettes, kinds of image data, blocks in between, options and ways to read can occur.
//! A job covers a range of seeds; which of the differences it reports depends on the property (the "class").
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x5851F42D4C957F2D); for _ in 0..3 { r.n(2); } r }
    pub fn n(&mut self, k: u64) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; (self.0 >> 30) % k }
    /// true in one of k cases
    pub fn one(&mut self, k: u64) -> bool { self.n(k) == 0 }
}
pub struct Fr { pub f: Frame<'static>, pub code: u8, pub have: Vec<u8>, pub end: bool, pub bad: bool, pub unknown: bool, pub outside: bool, pub lzw: Vec<u8> }
pub struct Plan { pub d: Vec<u8>, pub w: u16, pub h: u16, pub gp: Vec<u8>, pub bg: u8, pub v89: bool, pub rep: u64, pub frames: Vec<Fr>, pub unknown_end: bool, pub exts: Vec<(u8, Vec<Vec<u8>>)> }

fn some_block(g: &mut G, r: &mut Rng) {
    match r.n(5) {
        0 => { g.ext(0xFE, &[&bytes(2)]); }
        1 => { g.ext(0xFF, &[b"ANIMEXTS1.0", &[1, any8(), any8()]]); }
        2 => { g.ext(0x01, &[&bytes(3), &bytes(1)]); }
        3 => { g.ext(0xFE, &[]); }
        _ => { g.ext(0xFF, &[b"XMP DataXMP", &bytes(1)]); }
    }
}
fn unknown_block(g: &mut G, r: &mut Rng) {
    let l = [0u8, 1, 0x20, 0x2D, 0x3A, 0xF9, 0xFF][r.n(7) as usize];
    g.bytes(&[l]);
    if r.one(2) { g.bytes(&[2, any8(), 0x3B]); }
    if l > 0 && r.one(3) { g.bytes(&[l]).bytes(&vec![0x2C; l as usize]); }
    g.bytes(&[0]);
}
fn val(r: &mut Rng, sym: &mut u32, bits: u32) -> u8 { if *sym > 0 && r.one(2) { *sym -= 1; any(bits) as u8 } else { r.n(1 << bits) as u8 } }
/// `faults`: how many of 16 streams have something wrong in every way possible; `o`: the options it is going to be read with
pub fn plan(r: &mut Rng, o: u64, faults: u64) -> Plan { plan_n(r, o, faults, 0) }
/// with that many frames (0: drawn)
pub fn plan_n(r: &mut Rng, o: u64, faults: u64, frames_wanted: u64) -> Plan {
    let fault = |r: &mut Rng| r.n(64) < faults;
    let v89 = !r.one(4);
    let mut g = G { o: if v89 { b"GIF89a".to_vec() } else { b"GIF87a".to_vec() }, gct: 0, exts: vec![] };
    let bits = if r.one(6) { 0 } else { 1 + r.n(3) as u8 };
    let gp = if bits > 0 { bytes(3 << bits) } else { vec![] };
    let (w, h) = if o & CONSIST != 0 { (7 + r.n(4) as u16, 7 + r.n(4) as u16) } else { (any16(), any16()) };
    let bg = any(4) as u8;
    g.screen(w, h, if bits > 0 { 0x80 | bits - 1 } else { r.n(8) as u8 } | (r.n(16) as u8) << 3, bg, any8()).bytes(&gp);
    let mut rep = 0;
    let mut bad_block = false;
    for _ in 0..r.n(3) {
        match r.n(4) {
            0 => { let n = 1 + any(8) as u16; g.netscape(n); rep = n as u64; }
            1 => { let n = 0; g.netscape(n); rep = 65536; }
            _ => some_block(&mut g, r),
        }
        if o & UNKNOWN != 0 && r.one(3) { unknown_block(&mut g, r) }
    }
    let mut frames = vec![];
    // that many pixels have symbolic values
    let mut sym = if faults > 0 || o & RGBA != 0 { 6 } else { 40 };
    let n = if frames_wanted > 0 { frames_wanted } else { 1 + r.n(3) };
    for _ in 0..n {
        let mut f = Frame::default();
        let mut unknown = std::mem::take(&mut bad_block);
        for _ in 0..r.n(3) {
            if r.one(2) {
                let (fl, d, t) = (r.n(256) as u8, any16(), any(3) as u8);
                g.gce(fl, d, t);
                f.delay = d; f.needs_user_input = fl & 2 != 0; f.transparent = if fl & 1 != 0 { Some(t) } else { None };
                f.dispose = match (fl >> 2) & 7 { 1 => DisposalMethod::Keep, 2 => DisposalMethod::Background, 3 => DisposalMethod::Previous, _ => DisposalMethod::Any };
            } else { some_block(&mut g, r) }
            if o & UNKNOWN != 0 && r.one(4) { unknown_block(&mut g, r) }
        }
        if o & UNKNOWN == 0 && fault(r) { unknown_block(&mut g, r); unknown = true }
        let size = |r: &mut Rng| [0u16, 1, 1, 2, 2, 3, 4, 5, 6, 9][r.n(10) as usize];
        f.width = size(r); f.height = size(r);
        if f.width > 3 && f.height > 4 { if r.one(2) { f.width = 2 } else { f.height = 2 } }
        if r.one(40) { f.height = 0; f.width = 65535 } else if r.one(40) { f.height = 900; f.width = 0 }
        f.interlaced = r.one(2);
        let mut outside = false;
        if o & CONSIST != 0 {
            f.width = f.width.min(w); f.height = f.height.min(h);
            f.left = r.n((w - f.width) as u64 + 1) as u16; f.top = r.n((h - f.height) as u64 + 1) as u16;
            if fault(r) { outside = true; if r.one(2) { f.left = w - f.width + 1 + r.n(3) as u16 } else { f.top = h - f.height + 1 } }
        } else { f.left = any16(); f.top = any16() }
        let pb = if r.one(2) || gp.is_empty() && !fault(r) { 1 + r.n(3) as u8 } else { 0 };
        g.desc(f.left, f.top, f.width, f.height, if pb > 0 { 0x80 | pb - 1 } else { r.n(8) as u8 } | (r.n(8) as u8) << 3 & 0x38 | (f.interlaced as u8) << 6);
        if pb > 0 { let p = bytes(3 << pb); g.bytes(&p); f.palette = Some(p) }
        // image data
        let n = f.width as usize * f.height as usize;
        let m = [2u8, 2, 3, 3, 4, 8, 1, 5][r.n(8) as usize];
        let vb = m.min(3) as u32;
        let kind = r.n(8);
        let short = n > 0 && fault(r);
        let count = if short { r.n(n as u64) as usize } else if kind == 1 { n + 1 + r.n(5) as usize } else { n };
        let noend = !short && (if o & ENDCODE != 0 { fault(r) } else { r.one(4) });
        let bad = !noend && m > 1 && fault(r);
        let (mut z, mut have) = if kind < 4 && !bad || m == 1 {
            let px: Vec<u8> = (0..count).map(|_| val(r, &mut sym, vb)).collect();
            (lzw_literals(m, &px, !noend), px)
        } else {
            let mut l = Lzw::new(m);
            while l.px.len() < count {
                let k = l.refs();
                if r.one(9) { l.clear() } else if k > 0 && r.one(2) && !short { l.refer(r.n(k as u64) as usize) } else { let x = val(r, &mut sym, vb); l.lit(x) }
            }
            if bad {
                // a code that is not defined yet
                let mut b = l;
                b.invalid();
                b.end(r.one(2))
            } else { l.end(!noend) }
        };
        let mut end = !noend;
        if bad { end = false }
        if short && !bad && !end { have.truncate(count) }
        let mut code = m;
        if fault(r) { code = [0u8, 12, 13, 200][r.n(4) as usize] }
        // anything may follow the end code
        if end && r.one(4) { z.extend_from_slice(&bytes(1 + r.n(3) as usize)) }
        let sub = [255usize, 255, 1, 2, 3, 5][r.n(6) as usize];
        // nothing at all instead of no pixels
        if n == 0 && kind == 5 { z.clear(); have.clear(); end = false }
        g.data(code, &z, sub);
        frames.push(Fr { f, code, have, end, bad, unknown, outside, lzw: z });
        if o & UNKNOWN != 0 && r.one(4) { unknown_block(&mut g, r) }
        if r.one(5) { some_block(&mut g, r) }
        if r.one(9) { let n = any16(); g.netscape(n); }
    }
    let unknown_end = o & UNKNOWN == 0 && fault(r);
    if unknown_end { unknown_block(&mut g, r) }
    let exts = std::mem::take(&mut g.exts);
    Plan { d: g.end(), w, h, gp, bg, v89, rep, frames, unknown_end, exts }
}
pub fn options(r: &mut Rng) -> u64 { let mut o = 0; if r.one(2) { o |= RGBA } if r.one(4) { o |= CONSIST } if r.one(3) { o |= ENDCODE } if r.one(3) { o |= UNKNOWN } o }

// classes
const META: u64 = 1; const INDEXED: u64 = 2; const COLOUR: u64 = 4; const READ: u64 = 8; const CODE: u64 = 16; const BLOCK: u64 = 32; const OUTSIDE: u64 = 64; const HEADER: u64 = 128;
const NOERR: u64 = 256; const SIZES: u64 = 512; const PALETTE: u64 = 1024; const FINAL: u64 = 2048;
/// only for frames after one that was not read completely
const AFTER: u64 = 1 << 20;

struct Run<'a> { p: &'a Plan, o: u64, cls: u64, clean: bool }
enum Next { Go, Stop }
macro_rules! want { ($cls:expr, $bits:expr, $c:expr) => { if $cls & ($bits) != 0 { chk!($c) } }; }
impl Run<'_> {
    fn header(&self, dec: &Decoder<Src>) {
        let p = self.p;
        if self.cls & HEADER == 0 { return }
        chk!(and(dec.width() == p.w, dec.height() == p.h));
        match dec.global_palette() { Some(x) => chk!(same(x, &p.gp)), None => chk!(p.gp.is_empty()) }
        chk!(rep(dec.repeat()) == p.rep);
        let inside = p.gp.is_empty() | ((p.bg as usize) < p.gp.len() / 3);
        match dec.bg_color() { Some(b) => { chk!(inside); chk!(b == p.bg as usize) } None => chk!(not(inside)) }
    }
    /// which kinds of error asking for frame `i` has to give (0: none)
    fn expect(&self, i: usize) -> u64 {
        let x = &self.p.frames[i];
        let mut e = 0;
        // image data before this frame without the end code
        if i > 0 && self.late(i - 1) { e |= CODE }
        if x.unknown { e |= BLOCK }
        if e == 0 && x.outside { e |= OUTSIDE }
        if e == 0 && !(x.code >= 1 && x.code <= 11) { e |= CODE }
        if e == 0 && x.f.palette.is_none() && self.p.gp.is_empty() { e |= PALETTE }
        e
    }
    fn late(&self, i: usize) -> bool { self.o & ENDCODE != 0 && self.o & SKIP == 0 && !self.p.frames[i].end }
    fn bpp(&self) -> usize { if self.o & RGBA != 0 { 4 } else { 1 } }
    fn pixels(&self, px: &[u8], f: &Frame<'_>) -> Vec<u8> { if self.o & RGBA != 0 { rgba(px, f.palette.as_ref().unwrap_or(&self.p.gp), f.transparent) } else { px.to_vec() } }
    fn colour(&self) -> u64 { if self.o & RGBA != 0 { COLOUR } else { INDEXED } }
    fn frame(&mut self, i: usize, dec: &mut Decoder<Src>, r: &mut Rng) -> Next {
        let x = &self.p.frames[i];
        let c = if self.cls & AFTER != 0 { if self.clean { 0 } else { !AFTER } } else { self.cls };
        let how = r.n(7);
        let e = self.expect(i);
        let n = x.f.width as usize * x.f.height as usize;
        let enough = x.have.len() >= n;
        let b = self.bpp();
        let late = self.late(i);
        if how == 6 {
            // all at once
            match dec.read_next_frame() {
                Ok(Some(f)) => {
                    want!(c, e, e == 0); if e != 0 { return Next::Stop }
                    want!(c, READ, enough); if !enough { return Next::Stop }
                    let mut m = x.f.clone(); m.interlaced = false;
                    want!(c, META, same_frame_meta(f, &m));
                    let px = if x.f.interlaced { deinterlace(&x.have, x.f.width as usize, x.f.height as usize) } else { x.have[..n].to_vec() };
                    want!(c, self.colour(), same(&f.buffer, &self.pixels(&px, &x.f)));
                    obs_frame(f);
                }
                Ok(None) => { want!(c, e | NOERR, false); return Next::Stop }
                Err(e_) => { dbg(&e_); want!(c, NOERR, e != 0 || !enough || late || n * b > 50_000_000); return Next::Stop }
            }
            return Next::Go;
        }
        match dec.next_frame_info() {
            Ok(Some(f)) => {
                want!(c, e, e == 0); if e != 0 { return Next::Stop }
                want!(c, META, same_frame_meta(f, &x.f));
                obs_frame(f);
            }
            Ok(None) => { want!(c, e | NOERR, false); return Next::Stop }
            Err(e_) => { dbg(&e_); want!(c, NOERR, e != 0); return Next::Stop }
        }
        want!(c, SIZES, dec.buffer_size() == n * b);
        want!(c, SIZES, dec.line_length() == x.f.width as usize * b);
        match dec.palette() { Ok(p) => want!(c, PALETTE, same(p, x.f.palette.as_ref().unwrap_or(&self.p.gp))), Err(_) => want!(c, PALETTE, false) }
        let sent = &x.have[..n.min(x.have.len())];
        match how {
            0 => { self.clean = false }
            1 => {
                // some of the pixels, as they come
                let k = r.n(sent.len() as u64 + 1) as usize;
                let mut v = vec![0x77; k * b];
                match dec.fill_buffer(&mut v) {
                    Ok(full) => { want!(c, READ, full); want!(c, self.colour(), same(&v, &self.pixels(&sent[..k], &x.f))); obs_bytes(&v) }
                    Err(e_) => { dbg(&e_); want!(c, NOERR, late); return Next::Stop }
                }
                if k < n { self.clean = false }
            }
            2 => {
                // all pixels in pieces
                let k = 1 + r.n(5) as usize;
                let mut v = vec![0x77; n * b];
                for (j, p) in v.chunks_mut(k * b).enumerate() {
                    match dec.fill_buffer(p) {
                        Ok(full) => { let there = (j * k + p.len() / b) <= x.have.len(); want!(c, READ, full == there); if !full { return Next::Stop } }
                        Err(e_) => { dbg(&e_); want!(c, NOERR, late || !enough); return Next::Stop }
                    }
                }
                want!(c, READ, enough); if !enough { return Next::Stop }
                want!(c, self.colour(), same(&v, &self.pixels(sent, &x.f))); obs_bytes(&v);
            }
            5 => {
                // all at once, and then what there is behind the pixels
                r.n(6);
                let mut v = vec![0x77; n * b];
                match dec.fill_buffer(&mut v) {
                    Ok(full) => { want!(c, READ, full == enough); if !full { return Next::Stop } }
                    Err(e_) => { dbg(&e_); want!(c, NOERR, late || !enough); return Next::Stop }
                }
                want!(c, self.colour(), same(&v, &self.pixels(sent, &x.f))); obs_bytes(&v);
                let mut v = vec![0x77; b];
                for k in 0.. {
                    chk!(k < 100);
                    match dec.fill_buffer(&mut v) { Ok(true) => {} Ok(false) => break, Err(e_) => { dbg(&e_); want!(c, NOERR, late || x.bad); return Next::Stop } }
                }
                self.clean = false;
            }
            _ => {
                let more = if how == 3 { 0 } else { [0, 1, 3, 4, 8, 40][r.n(6) as usize] };
                let mut v = vec![0x77; n * b + more];
                match dec.read_into_buffer(&mut v) {
                    Ok(()) => {
                        want!(c, READ, enough); if !enough { return Next::Stop }
                        let px = if x.f.interlaced { deinterlace(sent, x.f.width as usize, x.f.height as usize) } else { sent.to_vec() };
                        want!(c, self.colour(), same(&v[..n * b], &self.pixels(&px, &x.f)));
                        want!(c, SIZES, v[n * b..].iter().all(|&y| y == 0x77));
                        obs_bytes(&v);
                    }
                    Err(e_) => { dbg(&e_); want!(c, NOERR, !enough || late); return Next::Stop }
                }
            }
        }
        Next::Go
    }
}
/// params: first seed, number of seeds, class, faults in 64, options that are added, options that are left out, bytes per read (0: drawn)
#[no_mangle]
pub extern "C" fn uni_decode() {
    let mut r = Rng::new(param(0) + pick(param(1)));
    let cls = param(2);
    let o = (options(&mut r) | param(4)) & !param(5);
    let p = plan(&mut r, o, param(3));
    let step = if param(6) > 0 { param(6) as usize } else { [1usize, 2, 7, 10000, 10000][r.n(5) as usize] };
    let mut dec = match opts(o).read_info(Src::new(&p.d, step)) {
        Ok(x) => x,
        Err(e_) => { dbg(&e_); want!(cls, NOERR | HEADER, p.frames[0].unknown); if p.frames[0].unknown { cover(2) } return }
    };
    let mut run = Run { p: &p, o, cls, clean: true };
    run.header(&dec);
    for i in 0..p.frames.len() {
        if let Next::Stop = run.frame(i, &mut dec, &mut r) {
            cover(2);
            // it is not reported as complete later either
            if run.expect(i) != 0 || !p.frames[i].end { for _ in 0..2 { if let Ok(None) = dec.next_frame_info() { } } }
            return;
        }
    }
    let late = run.late(p.frames.len() - 1);
    let c = if cls & AFTER != 0 { if run.clean { 0 } else { !AFTER } } else { cls };
    match dec.next_frame_info() {
        Ok(Some(_)) => want!(c, FINAL, false),
        Ok(None) => { want!(c, CODE, !late); want!(c, BLOCK, !p.unknown_end); cover(1) }
        Err(e_) => { dbg(&e_); want!(c, NOERR, late || p.unknown_end); cover(3) }
    }
}

/// what the whole of a frame has to look like
fn whole(p: &Plan, x: &Fr, o: u64) -> Vec<u8> {
    let (w, h) = (x.f.width as usize, x.f.height as usize);
    let px = if x.f.interlaced { deinterlace(&x.have, w, h) } else { x.have[..w * h].to_vec() };
    if o & RGBA != 0 { rgba(&px, x.f.palette.as_ref().unwrap_or(&p.gp), x.f.transparent) } else { px }
}
/// the iterator; frames may be read before it is made; params: first seed, number of seeds, faults in 64
#[no_mangle]
pub extern "C" fn uni_iter() {
    let mut r = Rng::new(param(0) + pick(param(1)));
    let o = options(&mut r);
    let mut p = plan(&mut r, o, param(2));
    // the stream may be cut off
    if param(2) > 0 && r.one(2) { let n = 13 + r.n(p.d.len() as u64 - 13) as usize; p.d.truncate(n) }
    let step = [1usize, 5, 10000][r.n(3) as usize];
    let mut a = match opts(o).read_info(Src::new(&p.d, 10000)) { Ok(x) => x, Err(_) => { chk!(opts(o).read_info(Src::new(&p.d, step)).is_err()); cover(3); return } };
    let mut b = ok!(opts(o).read_info(Src::new(&p.d, step)));
    let before = if r.one(3) { r.n(3) } else { 0 };
    for _ in 0..before { let x = a.read_next_frame().is_ok(); chk!(b.read_next_frame().is_ok() == x); if !x { cover(4); return } }
    // some of a frame, or its description only
    if r.one(4) {
        let k = r.n(3) as usize;
        let mut v = [vec![0u8; k * 4], vec![0u8; k * 4]];
        let (x, y) = (a.next_frame_info().is_ok(), b.next_frame_info().is_ok());
        chk!(x == y);
        if !x { return }
        if r.one(2) && before < p.frames.len() as u64 && k * 4 <= a.buffer_size() { let x = a.fill_buffer(&mut v[0]).is_ok(); chk!(x == b.fill_buffer(&mut v[1]).is_ok()); if !x { return } chk!(same(&v[0], &v[1])) }
    }
    let mut it = b.into_iter();
    let mut n = 0;
    loop {
        n += 1;
        chk!(n < 9);
        let x = a.read_next_frame().map(|f| f.cloned());
        match (x, it.next()) {
            (Ok(Some(x)), Some(Ok(y))) => { chk!(same_frame_meta(&x, &y)); chk!(same(&x.buffer, &y.buffer)); obs_frame(&y); cover(1) }
            (Ok(None), None) => { cover(2); break }
            (Err(x), Some(Err(y))) => { chk!(errcode(&x) == errcode(&y)); cover(3); break }
            _ => { unreachable_chk!() }
        }
    }
    for _ in 0..3 { chk!(it.next().is_none()) }
}
/// pieces do not matter; params: first seed, number of seeds, faults in 64
#[no_mangle]
pub extern "C" fn uni_split() {
    let mut r = Rng::new(param(0) + pick(param(1)));
    let o = r.n(32) & !RGBA & UNKNOWN;
    let mut p = plan(&mut r, o, param(2));
    let cut = param(2) > 0 && r.one(4);
    if cut { let n = r.n(p.d.len() as u64) as usize; p.d.truncate(n) }
    let discard = r.one(3);
    let a = crate::c02::feed(&p.d, &[], discard);
    let mut cuts: Vec<usize> = (0..1 + r.n(9)).map(|_| r.n(p.d.len() as u64 + 1) as usize).collect();
    if r.one(4) { cuts = (0..p.d.len()).collect() }
    cuts.sort();
    let b = crate::c02::feed(&p.d, &cuts, discard);
    for &x in &b.ev { obs(x) }
    obs_bytes(&b.out);
    chk!(a.ok == b.ok && a.out.len() == b.out.len());
    chk!(a.ev == b.ev); chk!(same(&a.out, &b.out));
    cover(1);
}
/// the events, in order; params: first seed, number of seeds
#[no_mangle]
pub extern "C" fn uni_events() {
    let mut r = Rng::new(param(0) + pick(param(1)));
    // without the end code padding bits may be pixels
    let p = plan(&mut r, RGBA | ENDCODE, 0);
    let step = [1usize, 2, 7, 100000][r.n(4) as usize];
    let room = [0usize, 1, 3, 64][r.n(4) as usize];
    let (px, e, m, ok) = some!(crate::c12::run(&p.d, step, room));
    chk!(ok);
    let n = p.frames.len() as u64;
    chk!(m.trailer && m.header && m.ends == n && m.imgs == n);
    chk!(e.len() == p.exts.len());
    for (a, (label, blocks)) in e.iter().zip(&p.exts) {
        chk!(a.0 == *label);
        let mut x = vec![blocks.first().map_or(0, |b| b.len() as u8)]; let mut cuts = vec![];
        for (i, b) in blocks.iter().enumerate() { if i > 0 { cuts.push(x.len()) } x.extend_from_slice(b) }
        chk!(same(&a.1, &x)); chk!(a.2 == cuts);
        obs_bytes(&a.1);
    }
    if room > 0 { let all: Vec<u8> = p.frames.iter().flat_map(|f| f.have.iter().copied()).collect(); chk!(same(&px, &all)); obs_bytes(&px) } else { chk!(px.is_empty()) }
    cover(1);
}
/// compressed data as stored, written again and decoded separately; params: first seed, number of seeds
#[no_mangle]
pub extern "C" fn uni_skip() {
    let mut r = Rng::new(param(0) + pick(param(1)));
    let o = options(&mut r);
    let p = plan(&mut r, o, 0);
    let mut dec = ok!(opts(o | SKIP).read_info(Src::new(&p.d, [1usize, 3, 10000][r.n(3) as usize])));
    let mut fd = gif::streaming_decoder::FrameDecoder::new(opts(o));
    if !p.gp.is_empty() { fd.set_global_palette(p.gp.clone()) }
    let mut out = ok!(Encoder::new(vec![], p.w, p.h, &p.gp));
    let mut again = vec![];
    for x in &p.frames {
        let info = r.one(3);
        let f = if info { some!(ok!(dec.next_frame_info())).clone() } else { some!(ok!(dec.read_next_frame())).clone() };
        chk!(same_frame_meta(&f, &x.f));
        if info { continue }
        chk!(f.buffer.len() == x.lzw.len() + 1);
        chk!(f.buffer[0] == x.code);
        chk!(same(&f.buffer[1..], &x.lzw));
        if x.code > 1 { ok!(out.write_lzw_pre_encoded_frame(&f)); again.push(x) }
        let b = if o & RGBA != 0 { 4 } else { 1 };
        let n = x.f.width as usize * x.f.height as usize * b;
        chk!(fd.buffer_size(&f) == n);
        if r.one(2) {
            let mut v = vec![0x55; n];
            match fd.decode_lzw_encoded_frame_into_buffer(&f, &mut v) {
                Ok(()) => { chk!(x.have.len() * b >= n); chk!(same(&v, &whole(&p, x, o))); obs_bytes(&v); cover(2) }
                Err(_) => { chk!(x.have.len() * b < n || o & ENDCODE != 0 && !x.end); break }
            }
        } else {
            let mut f = f.clone();
            match fd.decode_lzw_encoded_frame(&mut f) {
                Ok(()) => { chk!(!f.interlaced); chk!(same(&f.buffer, &whole(&p, x, o))); f.interlaced = x.f.interlaced; chk!(same_frame_meta(&f, &x.f)); obs_frame(&f); cover(3) }
                Err(_) => { chk!(x.have.len() * b < n || o & ENDCODE != 0 && !x.end); break }
            }
        }
    }
    let out = ok!(out.into_inner());
    let mut dec = ok!(opts(o & !UNKNOWN & !CONSIST).read_info(&out[..]));
    let mut late = false;
    for x in again {
        late |= !x.end;
        if x.f.palette.is_none() && p.gp.is_empty() { return }
        match dec.read_next_frame() {
            Ok(f) => { let f = some!(f); chk!(same(&f.buffer, &whole(&p, x, o))); let mut m = x.f.clone(); m.interlaced = false; m.palette = m.palette.map(|q| crate::c13::pad(&q)); chk!(same_frame_meta(f, &m)) }
            Err(e) => { dbg(&e); chk!(o & ENDCODE != 0 && late); return }
        }
    }
    cover(1);
}
/// nothing but an error or a result, whatever some of the bytes are; params: first seed, number of seeds, symbolic structural bytes
#[no_mangle]
pub extern "C" fn uni_raw() {
    let mut r = Rng::new(param(0) + pick(param(1)));
    let o = options(&mut r) | if r.one(4) { SKIP } else { 0 };
    let mut p = plan(&mut r, o, 3);
    let n = p.d.len() as u64;
    for k in 0..1 + r.n(3) { let i = r.n(n.min(p.d.len() as u64)) as usize; match r.n(3) { _ if k < param(2) => p.d[i] = any8(), 0 => p.d[i] = r.n(256) as u8, 1 => { p.d.remove(i); } _ => p.d.insert(i, r.n(256) as u8) } }
    if r.one(4) { let k = r.n(n) as usize; p.d.truncate(k) }
    let mut dec = match opts(o).read_info(Src::new(&p.d, [1usize, 2, 9, 10000][r.n(4) as usize])) { Ok(x) => x, Err(e) => { obs(errcode(&e)); cover(2); return } };
    let small = |d: &Decoder<Src>| d.buffer_size() < 3000;
    for _ in 0..9 {
        let e = match r.n(3) {
            0 => match dec.read_next_frame() { Ok(Some(f)) => { obs(f.buffer.len() as u64); None } Ok(None) => { cover(1); Some(0) } Err(e) => Some(errcode(&e)) },
            k => match dec.next_frame_info() {
                Ok(Some(f)) => {
                    obs(f.width as u64);
                    let n = if small(&dec) { dec.buffer_size() } else { 9 };
                    let _ = (dec.line_length(), dec.palette().is_ok());
                    if k == 1 && o & SKIP == 0 {
                        let mut v = vec![0; n + r.n(3) as usize];
                        match r.n(3) { 0 if n != 9 => dec.read_into_buffer(&mut v).err().map(|e| errcode(&e)), 1 => { let c = r.n(n as u64 + 1) as usize / 4 * 4; dec.fill_buffer(&mut v[..c]).err().map(|e| errcode(&e)) } _ => None }
                    } else { None }
                }
                Ok(None) => { cover(1); Some(0) }
                Err(e) => Some(errcode(&e)),
            },
        };
        if let Some(e) = e { obs(e); if r.one(2) { break } }
    }
}
/// what the encoder makes of a sequence of calls
/// params: first seed, number of seeds, class (1 blocks, 2 pixels, 4 palettes, 8 loop count, 16 compressed beforehand, 32 refusals)
#[no_mangle]
pub extern "C" fn uni_enc() {
    use crate::c13::{dispose, pad, check_frame}; use crate::c18::res;
    const BLOCKS: u64 = 1; const PIXELS: u64 = 2; const PAL: u64 = 4; const LOOPS: u64 = 8; const PRE: u64 = 16; const REFUSE: u64 = 32;
    let mut r = Rng::new(param(0) + pick(param(1)));
    let cls = param(2);
    let colours = |r: &mut Rng| [0usize, 1, 2, 3, 4, 5, 8, 9, 17, 64, 65, 128, 129, 255, 256][r.n(15) as usize] * 3 + if r.one(5) { 1 + r.n(2) as usize } else { 0 };
    let few = |n: usize| -> Vec<u8> { (0..n).map(|i| if i < 6 || i + 3 >= n { any8() } else { (i * 7) as u8 }).collect() };
    let gp = { let n = colours(&mut r); few(n) };
    let (w, h) = (any16(), any16());
    let mut e = ok!(Encoder::new(vec![], w, h, &gp));
    enum W { F(Frame<'static>, Vec<u8>), E(u8, Vec<Vec<u8>>) }
    let gce = |f: &Frame<'_>| W::E(0xF9, vec![vec![f.transparent.is_some() as u8 | (f.needs_user_input as u8) << 1 | (f.dispose as u8) << 2, f.delay as u8, (f.delay >> 8) as u8, f.transparent.unwrap_or(0)]]);
    let mut want = vec![];
    let mut rep_want = 0;
    let mut images = 0;
    let mut sym = 4;
    for _ in 0..2 + r.n(6) {
        match r.n(10) {
            0 => {
                let v = [Repeat::Infinite, Repeat::Finite(1 + any(8) as u16), Repeat::Finite(65535), Repeat::Finite(0)][r.n(4) as usize];
                if let Repeat::Finite(0) = v { continue }
                ok!(e.set_repeat(v));
                let x = match v { Repeat::Infinite => 0, Repeat::Finite(n) => n };
                want.push(W::E(0xFF, vec![b"NETSCAPE2.0".to_vec(), vec![1, x as u8, (x >> 8) as u8]]));
                if images == 0 { rep_want = rep(v) }
            }
            1 => {
                let l = [0xFEu8, 0xFF, 0x01][r.n(3) as usize];
                let b: Vec<Vec<u8>> = (0..r.n(4)).map(|_| { let n = [0usize, 1, 2, 12, 255, 256, 300][r.n(7) as usize]; few(n) }).collect();
                let s: Vec<&[u8]> = b.iter().map(|x| &x[..]).collect();
                ok!(e.write_raw_extension(AnyExtension(l), &s));
                want.push(W::E(l, b.iter().flat_map(|x| x.chunks(255)).map(|x| x.to_vec()).collect()));
            }
            2 => {
                let (v, d, u, t) = (any16(), r.n(4), r.one(2), if r.one(2) { Some(any8()) } else { None });
                ok!(e.write_extension(ExtensionData::new_control_ext(v, dispose(d), u, t)));
                want.push(W::E(0xF9, vec![vec![t.is_some() as u8 | (u as u8) << 1 | (d as u8) << 2, v as u8, (v >> 8) as u8, t.unwrap_or(0)]]));
            }
            k => {
                let mut f = Frame::default();
                f.delay = any16(); f.dispose = dispose(r.n(4)); f.needs_user_input = r.one(2); f.transparent = if r.one(2) { Some(any8()) } else { None };
                f.left = any16(); f.top = any16(); f.interlaced = r.one(2);
                f.width = [0u16, 1, 2, 3, 5, 8, 20, 100][r.n(8) as usize]; f.height = [0u16, 1, 1, 2, 3, 5, 9][r.n(7) as usize];
                f.palette = if r.one(2) { let n = colours(&mut r); Some(few(n)) } else { None };
                let n = f.width as usize * f.height as usize;
                let bits = [1u32, 1, 2, 3, 4, 5, 8, 8][r.n(8) as usize];
                let runs = r.one(2);
                let mut px: Vec<u8> = vec![];
                while px.len() < n { if runs && !px.is_empty() && !r.one(5) { let x = px[px.len() - 1]; px.push(x) } else if sym > 0 && r.one(3) { sym -= 1; px.push(any(1) as u8 * [1u8, 2, 3][r.n(3) as usize].min(((1u16 << bits) - 1) as u8)) } else { px.push(r.n(1 << bits) as u8) } }
                // pixels beyond the frame
                if n > 0 && r.one(8) { px.extend_from_slice(&[1, 0, 255]) }
                // refused, without a trace
                let at = e.get_ref().len();
                let missing = f.palette.is_none() && gp.len() < 3;
                if k == 3 {
                    let (mut b, c) = (f.clone(), r.n(4));
                    b.buffer = px.clone().into();
                    let x = match c {
                        0 if n > 0 => { b.buffer = px[..n - 1].to_vec().into(); res(e.write_frame(&b)) }
                        1 => { b.palette = Some(few(257 * 3 + r.n(4) as usize)); res(e.write_frame(&b)) }
                        2 => { b.buffer = vec![[0u8, 1, 12, 13, 255][r.n(5) as usize], any8()].into(); res(e.write_lzw_pre_encoded_frame(&b)) }
                        _ => { b.palette = Some(few(300 * 3)); b.make_lzw_pre_encoded(); res(e.write_lzw_pre_encoded_frame(&b)) }
                    };
                    want!(cls, REFUSE, x == match c { 0 if n > 0 => if missing { 2 } else { 103 }, 2 => if missing { 2 } else { 3 }, _ => 1 } || missing && x == 2 || x == 103 && missing || x == 3 && missing);
                    if x == 0 { return }
                    // the control extension may have been written before the palette was looked at
                    let grown = e.get_ref().len() - at;
                    want!(cls, REFUSE, grown == 0 || (x == 1 || x == 2) && grown == 8);
                    if grown > 0 { want.push(gce(&b)) }
                    cover(3);
                    continue;
                }
                f.buffer = px.clone().into();
                if missing {
                    let x = res(if k < 6 { f.make_lzw_pre_encoded(); e.write_lzw_pre_encoded_frame(&f) } else { e.write_frame(&f) });
                    want!(cls, REFUSE, x == 2);
                    let grown = e.get_ref().len() - at;
                    if x == 0 { return }
                    if grown > 0 { want.push(gce(&f)) }
                    cover(4);
                    continue;
                }
                let x = if k < 6 {
                    let mut z = f.clone();
                    z.make_lzw_pre_encoded();
                    want!(cls, PRE, same_frame_meta(&z, &f));
                    e.write_lzw_pre_encoded_frame(&z)
                } else { e.write_frame(&f) };
                let x = res(x);
                want!(cls, REFUSE, x == 0);
                if x != 0 { return }
                px.truncate(n);
                images += 1;
                want.push(W::F(f, px));
            }
        }
    }
    let out = if r.one(2) { ok!(e.into_inner()) } else { let mut v = e.get_ref().clone(); v.push(0x3B); v };
    obs_bytes(&out);
    if cls & (BLOCKS | PRE) != 0 {
        let p = some!(parse(&out, true));
        chk!(and(p.w == w, p.h == h));
        chk!(p.flags & 0x80 != 0); chk!(same(&p.pal, &pad(&gp)));
        let mut k = 0;
        for x in &want {
            match x {
                W::F(f, px) => { chk!(k + 1 < p.parts.len()); let ok = match &p.parts[k + 1] { Part::Img(i) => { let all = if px.len() < f.buffer.len() { unlzw(i.m, &i.lzw).map_or(false, |(g, _)| g.len() >= px.len() && same(&g[..px.len()], px)) && check_frame(&p.parts[k], &p.parts[k + 1], f, None, Some(&[&[i.m], &i.lzw[..]].concat())) } else { check_frame(&p.parts[k], &p.parts[k + 1], f, Some(px), None) }; all } _ => false }; chk!(ok); k += 2 }
                W::E(l, s) => { chk!(k < p.parts.len()); let Part::Ext(e) = &p.parts[k] else { unreachable_chk!() }; chk!(e.label == *l); chk!(e.blocks.len() == s.len()); for (a, b) in e.blocks.iter().zip(s) { chk!(same(a, b)) } k += 1 }
            }
        }
        chk!(k == p.parts.len());
    }
    if cls & (PIXELS | PAL | LOOPS | PRE) != 0 {
        let mut dec = match opts(ENDCODE).read_info(Src::new(&out, [1usize, 10000][r.n(2) as usize])) { Ok(x) => x, Err(e) => { dbg(&e); unreachable_chk!() } };
        want!(cls, PAL, match dec.global_palette() { Some(x) => same(x, &pad(&gp)), None => false });
        want!(cls, PAL, and(dec.width() == w, dec.height() == h));
        want!(cls, LOOPS, rep(dec.repeat()) == rep_want);
        for x in &want {
            let W::F(f, px) = x else { continue };
            let g = match dec.read_next_frame() { Ok(g) => some!(g), Err(e) => { dbg(&e); unreachable_chk!() } };
            let mut m = f.clone(); m.interlaced = false; m.palette = m.palette.map(|q| pad(&q));
            want!(cls, PAL, same_frame_meta(g, &m));
            let px = if f.interlaced { deinterlace(px, f.width as usize, f.height as usize) } else { px.clone() };
            want!(cls, PIXELS | PRE, same(&g.buffer, &px));
        }
        chk!(ok!(dec.read_next_frame()).is_none());
    }
    cover(1);
}
/// the memory limit decides about each frame for itself; params: first seed, number of seeds
#[no_mangle]
pub extern "C" fn uni_limit() {
    let mut r = Rng::new(param(0) + pick(param(1)));
    let o = (options(&mut r) | if r.one(4) { SKIP } else { 0 }) & !ENDCODE & !UNKNOWN;
    let p = plan(&mut r, o, 0);
    // no extension is that long
    let lim = 30 + any(6);
    let mut op = opts(o);
    op.set_memory_limit(limit(lim));
    let mut dec = ok!(op.read_info(Src::new(&p.d, [1usize, 3, 10000][r.n(3) as usize])));
    for x in &p.frames {
        let n = x.f.width as u64 * x.f.height as u64 * if o & RGBA != 0 { 4 } else { 1 };
        let n = if o & SKIP != 0 { x.lzw.len() as u64 + 1 } else { n };
        let fits = n <= lim;
        if o & SKIP == 0 && r.one(5) { chk!(same_frame_meta(some!(ok!(dec.next_frame_info())), &x.f)); cover(4); continue }
        match dec.read_next_frame() {
            Ok(Some(f)) => {
                chk!(fits); chk!(f.buffer.len() as u64 == n);
                if o & SKIP == 0 { chk!(same(&f.buffer, &whole(&p, x, o))) } else { chk!(same(&f.buffer[1..], &x.lzw)) }
                obs_frame(f);
                cover(1)
            }
            Ok(None) => { unreachable_chk!() }
            // where compressed data that is too long ends isn't known
            Err(e) => { dbg(&e); chk!(not(fits)); chk!(errcode(&e) != 1); cover(2); if o & SKIP != 0 { return } }
        }
    }
    chk!(ok!(dec.next_frame_info()).is_none());
    cover(3);
}
/// writers that fail, are interrupted or take part of the data in longer sequences of calls; params: first seed, number of seeds
#[no_mangle]
pub extern "C" fn uni_fail() {
    use crate::c19::*; use crate::c18::code;
    let mut r = Rng::new(param(0) + pick(param(1)));
    let gp = bytes(3 * [1usize, 2, 3, 5][r.n(4) as usize]);
    let (sw, sh) = (any16(), any16());
    let mut calls = vec![];
    for _ in 0..1 + r.n(5) { calls.push(match r.n(8) { 0 => Call::Raw(any8(), vec![(0..300).map(|i| i as u8).collect()]), k => call([0u64, 1, 2, 3, 5, 7, 7][k as usize - 1]) }) }
    let mut e = ok!(Encoder::new(vec![], sw, sh, &gp));
    // where which call ends
    let mut ends = vec![e.get_ref().len()];
    for c in &calls { ok!(doit(&mut e, c)); ends.push(e.get_ref().len()) }
    let full = ok!(e.into_inner());
    let mut w = W::new();
    w.kind = r.n(7); w.once = r.one(3); w.step = [1usize, 2, 3, 7, 1000][r.n(5) as usize];
    let (cont, back) = (r.one(2), r.one(2));
    if r.one(3) { w.intr = Some(r.n(full.len() as u64) as usize) }
    let fail = !r.one(5);
    let mut at = usize::MAX;
    if fail {
        let from = r.n((full.len() as u64).saturating_sub(16) + 1);
        at = (from + below((full.len() as u64 - from).min(16), 4)) as usize;
        at = conc(at as u64) as usize;
        w.left = Some(at);
    }
    let want = want_code(w.kind);
    let mut got = 0;
    match Encoder::new(&mut w, sw, sh, &gp) {
        Err(x) => { chk!(at < ends[0]); got = code(&x); cover(1) }
        Ok(mut e) => {
            chk!(at >= ends[0]);
            for (i, c) in calls.iter().enumerate() {
                match doit(&mut e, c) {
                    Err(x) => { chk!(got != 0 || at < ends[i + 1]); if got == 0 { got = code(&x) } cover(2); if !cont { break } }
                    Ok(()) => { chk!(got != 0 || at >= ends[i + 1]) }
                }
            }
            if back && (got == 0 || cont) { match e.into_inner() { Err(x) => { if got == 0 { chk!(at + 1 == full.len()); got = 100 + iocode(&x) } cover(3) } Ok(_) => { chk!(got != 0 || !fail) } } }
            else { drop(e); cover(4) }
        }
    }
    obs(got); obs_bytes(&w.out);
    if !fail { chk!(got == 0); chk!(same(&w.out, &full)); cover(5); return }
    chk!(w.failed);
    if got == 0 { chk!(!back && at + 1 == full.len()) } else { chk!(got == want) }
    chk!(w.out.len() >= at); chk!(same(&w.out[..at], &full[..at]));
    if !w.once { chk!(w.out.len() == at) }
}
/// many frames: each one as if it were the only one; params: first seed, number of seeds
#[no_mangle]
pub extern "C" fn uni_many() {
    let mut r = Rng::new(param(0) + pick(param(1)));
    let o = options(&mut r) & !ENDCODE;
    let n = 5 + r.n(8);
    let p = plan_n(&mut r, o, 0, n);
    let mut dec = ok!(opts(o).read_info(Src::new(&p.d, [1usize, 3, 10000][r.n(3) as usize])));
    let ways = r.n(4);
    for x in &p.frames {
        let (w, h) = (x.f.width as usize, x.f.height as usize);
        let b = if o & RGBA != 0 { 4 } else { 1 };
        let how = if ways < 3 { ways } else { r.n(4) };
        let px = whole(&p, x, o);
        match how {
            0 => { let f = some!(ok!(dec.read_next_frame())); let mut m = x.f.clone(); m.interlaced = false; chk!(same_frame_meta(f, &m)); chk!(same(&f.buffer, &px)); obs_frame(f) }
            1 => { chk!(same_frame_meta(some!(ok!(dec.next_frame_info())), &x.f)); let mut v = vec![0x77; w * h * b]; ok!(dec.read_into_buffer(&mut v)); chk!(same(&v, &px)); obs_bytes(&v) }
            2 => {
                chk!(same_frame_meta(some!(ok!(dec.next_frame_info())), &x.f));
                let mut v = vec![0x77; w * h * b];
                let k = if ways == 2 { w } else { 1 + r.n(9) as usize };
                if k > 0 { for c in v.chunks_mut(k * b) { chk!(ok!(dec.fill_buffer(c))) } }
                let v = if x.f.interlaced { deinterlace(&v, w * b, h) } else { v };
                chk!(same(&v, &px)); obs_bytes(&v)
            }
            _ => { chk!(same_frame_meta(some!(ok!(dec.next_frame_info())), &x.f)) }
        }
    }
    chk!(ok!(dec.next_frame_info()).is_none());
    cover(1);
}
/// what is written for a call does not depend on the calls before it; params: first seed, number of seeds
#[no_mangle]
pub extern "C" fn uni_calls() {
    use crate::c13::dispose;
    let mut r = Rng::new(param(0) + pick(param(1)));
    let gp = bytes(3 * [1usize, 2, 4, 5][r.n(4) as usize]);
    // few different frames and many calls
    let mut frames = vec![];
    for _ in 0..1 + r.n(3) {
        let mut f = Frame::default();
        f.delay = if r.one(2) { any16() } else { 0 }; f.dispose = dispose(r.n(4)); f.needs_user_input = r.one(3); f.transparent = if r.one(2) { Some(any8()) } else { None };
        f.left = any16(); f.interlaced = r.one(3);
        f.width = [0u16, 1, 1, 2, 3, 16][r.n(6) as usize]; f.height = [1u16, 1, 2, 3, 20][r.n(5) as usize];
        f.palette = if r.one(3) { let n = [0usize, 3, 6, 7, 9, 48][r.n(6) as usize]; Some(bytes(n)) } else { None };
        let n = f.width as usize * f.height as usize;
        let v = [1u64, 2, 2, 4, 256][r.n(5) as usize];
        f.buffer = (0..n).map(|_| r.n(v) as u8).collect::<Vec<u8>>().into();
        frames.push(f);
    }
    let mut e = ok!(Encoder::new(vec![], 7, 7, &gp));
    for _ in 0..3 + r.n(12) {
        let at = e.get_ref().len();
        let mut one = ok!(Encoder::new(vec![], 7, 7, &gp));
        let head = one.get_ref().len();
        match r.n(9) {
            0 => { let v = [Repeat::Infinite, Repeat::Finite(0), Repeat::Finite(any16())][r.n(3) as usize]; ok!(e.set_repeat(v)); ok!(one.set_repeat(v)) }
            1 => { let n = [0usize, 1, 255, 256][r.n(4) as usize]; let b: Vec<u8> = (0..n).map(|i| i as u8).collect(); let l = any8(); ok!(e.write_raw_extension(AnyExtension(l), &[&b, &[1]])); ok!(one.write_raw_extension(AnyExtension(l), &[&b, &[1]])) }
            2 => { let v = any16(); for e in [&mut e, &mut one] { ok!(e.write_extension(ExtensionData::new_control_ext(v, DisposalMethod::Keep, true, None))) } }
            k => {
                let f = &frames[r.n(frames.len() as u64) as usize];
                if k == 3 {
                    let mut f = f.clone(); f.make_lzw_pre_encoded();
                    ok!(e.write_lzw_pre_encoded_frame(&f)); ok!(one.write_lzw_pre_encoded_frame(&f));
                } else { ok!(e.write_frame(f)); ok!(one.write_frame(f)); cover(2) }
            }
        }
        chk!(same(&e.get_ref()[at..], &one.get_ref()[head..]));
        obs_bytes(&e.get_ref()[at..]);
    }
    let n = e.get_ref().len();
    let out = ok!(e.into_inner());
    chk!(out.len() == n + 1); chk!(out[n] == 0x3B);
    cover(1);
}
#[cfg(feature = "native")] fn dbg<T: std::fmt::Debug>(e: &T) { eprintln!("{e:?}") }
#[cfg(not(feature = "native"))] fn dbg<T>(_: &T) {}
