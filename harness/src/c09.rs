//! Damaged, truncated or unreadable input is reported, never passed off as complete.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*;
use std::io::{ErrorKind, Read};

pub struct S { pub d: Vec<u8>, pub ends: Vec<usize>, pub starts: Vec<usize>, pub px: Vec<Vec<u8>>, pub data: Vec<Vec<u8>>, pub meta: Vec<Frame<'static>> }
/// stream of three frames with symbolic settings and pixels; kind: 0 plain, 1 with extensions, interlacing and local palettes,
/// 2 empty frames, 3 like 0 with one byte sub-blocks
pub fn stream(kind: u64) -> S {
    let mut g = G::new(7, 7, 1, 0);
    let mut s = S { d: vec![], ends: vec![], starts: vec![], px: vec![], data: vec![], meta: vec![] };
    if kind == 1 { g.ext(0xFE, &[&bytes(2), &bytes(1)]).netscape(any16()); }
    for i in 0..3usize {
        let mut f = Frame::default();
        if kind == 1 || i == 1 {
            let t = any(2) as u8; f.delay = any16(); f.transparent = Some(t);
            g.gce(1, f.delay, t);
            f.dispose = DisposalMethod::Any;
        }
        if kind == 1 && i == 2 { g.ext(0x01, &[&bytes(1)]).ext(0xFF, &[b"12345678901", &bytes(3)]); }
        let (w, h) = if kind == 2 { [(0, 2), (1, 1), (3, 0)][i] } else { [(2, 1), (1, 3), (2, 2)][i] };
        f.width = w; f.height = h; f.left = any16(); f.top = any16();
        let mut fl = 0;
        f.interlaced = kind == 1 && i != 0;
        if f.interlaced { fl |= 0x40 }
        if kind == 1 && i == 1 { fl |= 0x80 }
        g.desc(f.left, f.top, w, h, fl);
        if fl & 0x80 != 0 { let p = bytes(6); g.bytes(&p); f.palette = Some(p) }
        let n = (w * h) as usize;
        let px = vals(n, 2);
        let m = 2 + i as u8;
        let z = lzw_literals(m, &px, true);
        s.starts.push(g.o.len());
        g.data(m, &z, if kind == 3 { 1 } else { 255 });
        s.ends.push(g.o.len());
        let mut c = vec![m]; c.extend_from_slice(&z);
        s.data.push(c);
        s.px.push(if f.interlaced { deinterlace(&px, w as usize, h as usize) } else { px });
        s.meta.push(f);
    }
    s.d = g.end();
    s
}
/// whether a call succeeds after the error
fn again<R: Read>(dec: &mut Decoder<R>) -> bool {
    let a = dec.read_next_frame().is_ok();
    let b = dec.next_frame_info().is_ok();
    a || b
}
/// reads frames until there are none or an error, checks them: (frames, error code or 0 at the regular end, whether anything but errors was returned after the error)
/// access: 0 read_next_frame, 1 iterator, 2 next_frame_info and read_into_buffer, 3 metadata only, 4 fill_buffer pixel by pixel; with o & SKIP: compressed data
fn read<R: Read>(r: R, s: &S, o: u64, access: u64) -> Option<(usize, u64, bool)> {
    let mut n = 0;
    let mut dec = match opts(o).read_info(r) { Ok(d) => d, Err(e) => return Some((0, errcode(&e), false)) };
    let good = |n: usize, f: &Frame<'_>, b: Option<&[u8]>, di: bool| {
        if n >= 3 { return false }
        let mut m = s.meta[n].clone();
        if di { m.interlaced = false }
        and(same_frame_meta(f, &m), match b { Some(b) => same(b, if o & SKIP != 0 { &s.data[n] } else { &s.px[n] }), None => true })
    };
    if access == 1 {
        for x in dec {
            match x { Ok(f) => { chk!(good(n, &f, Some(&f.buffer), o & SKIP == 0)); n += 1 } Err(e) => return Some((n, errcode(&e), false)) }
        }
        return Some((n, 0, false));
    }
    loop {
        match access {
            0 => match dec.read_next_frame() { Ok(Some(f)) => { chk!(good(n, f, Some(&f.buffer), o & SKIP == 0)) } Ok(None) => return Some((n, 0, false)), Err(e) => { let c = errcode(&e); return Some((n, c, again(&mut dec))) } },
            _ => {
                match dec.next_frame_info() { Ok(Some(f)) => { chk!(good(n, f, None, false)) } Ok(None) => return Some((n, 0, false)), Err(e) => { let c = errcode(&e); return Some((n, c, again(&mut dec))) } }
                if access == 2 {
                    let mut b = vec![0; dec.buffer_size()];
                    if let Err(e) = dec.read_into_buffer(&mut b) { let c = errcode(&e); return Some((n, c, again(&mut dec))) }
                    chk!(n < 3 && same(&b, &s.px[n]));
                }
                if access == 4 {
                    for _ in 0..dec.buffer_size() { let mut b = [0]; match dec.fill_buffer(&mut b) { Ok(true) => {} Ok(false) => return Some((n, 2000, again(&mut dec))), Err(e) => { let c = errcode(&e); return Some((n, c, again(&mut dec))) } } }
                }
            }
        }
        n += 1;
    }
}
/// truncated anywhere; params: kind, options, access, bytes per read
#[no_mangle]
pub extern "C" fn c09_trunc() {
    let s = stream(param(0));
    let (o, acc) = (param(1), param(2));
    let cut = pick(s.d.len() as u64 + 1) as usize;
    let (n, e, more) = some!(read(Src::new(&s.d[..cut], param(3) as usize), &s, o, acc));
    chk!(!more);
    obs(n as u64); obs(e);
    let complete = s.ends.iter().filter(|&&x| x <= cut).count();
    let begun = if acc == 3 { s.starts.iter().filter(|&&x| x < cut).count() } else { s.starts.iter().filter(|&&x| x + 1 < cut).count() };
    chk!(n >= complete); chk!(n <= begun.max(complete));
    if cut == s.d.len() { cover(1); chk!(e == 0); chk!(n == 3) }
    else { cover(2); chk!(e != 0); chk!(e == 1 || e == 1000 || e == 2000) }
}
/// the source fails at any point; params: kind, options, access, bytes per read
#[no_mangle]
pub extern "C" fn c09_io() {
    let s = stream(param(0));
    let (o, acc) = (param(1), param(2));
    let at = pick(s.d.len() as u64 + 1) as usize;
    let mut src = Src::new(&s.d, param(3) as usize);
    src.fail_at = Some(at);
    src.kind = [ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::Other, ErrorKind::UnexpectedEof][pick(4) as usize];
    src.once = pickb();
    let code = [7, 13, 5, 1][match src.kind { ErrorKind::PermissionDenied => 0, ErrorKind::ConnectionReset => 1, ErrorKind::Other => 2, _ => 3 }];
    let once = src.once;
    let (n, e, more) = some!(read(src, &s, o, acc));
    chk!(once || !more);
    obs(n as u64); obs(e);
    let complete = s.ends.iter().filter(|&&x| x <= at).count();
    chk!(n >= complete);
    // everything was there before the failure
    if at == s.d.len() { cover(1); chk!(e == 0); chk!(n == 3) } else { cover(2); chk!(e == code) }
}
/// nothing behind the trailer is consumed, and the end is final; params: kind, options, access, bytes per read, bytes behind
#[no_mangle]
pub extern "C" fn c09_rest() {
    let s = stream(param(0));
    let mut d = s.d.clone();
    let rest = bytes(param(4) as usize);
    d.extend_from_slice(&rest);
    let mut left = vec![];
    if param(2) == 1 {
        let mut it = ok!(opts(param(1)).read_info(Src::new(&d, param(3) as usize))).into_iter();
        for _ in 0..3 { chk!(matches!(it.next(), Some(Ok(_)))) }
        for _ in 0..1 + pick(3) { chk!(it.next().is_none()) }
        ok!(it.into_inner().read_to_end(&mut left));
    } else {
        let mut dec = ok!(opts(param(1)).read_info(Src::new(&d, param(3) as usize)));
        for _ in 0..3 { chk!(ok!(if param(2) == 0 { dec.read_next_frame() } else { dec.next_frame_info() }).is_some()) }
        for _ in 0..1 + pick(3) { chk!(ok!(if pickb() { dec.read_next_frame() } else { dec.next_frame_info() }).is_none()) }
        ok!(dec.into_inner().read_to_end(&mut left));
    }
    chk!(same(&left, &rest));
    cover(1);
    obs_bytes(&left);
}
/// a frame with fewer (or more) pixels than its size; params: options, access, width, height, pixels offered at most, end code present, frames follow
#[no_mangle]
pub extern "C" fn c09_short() {
    let (o, acc) = (param(0), param(1));
    let (w, h) = (param(2) as u16, param(3) as u16);
    let k = pick(param(4) + 1) as usize;
    let px = vals(k, 2);
    let mut g = G::new(7, 7, 1, 0);
    g.desc(0, 0, w, h, 0x40 * pick(2) as u8).data(2, &lzw_literals(2, &px, param(5) == 1), [255, 1][pick(2) as usize]);
    if param(6) == 1 { g.frame(2, 2, 0, 2, &[1, 2, 3, 0]); }
    let d = g.end();
    let need = w as usize * h as usize;
    // without an end code the padding bits may count as codes of further pixels
    let bits = 3 * (k + ((k + 1) / 2).max(1));
    let extra = if param(5) == 1 { 0 } else { (8 - bits % 8) % 8 / 3 };
    let mut dec = ok!(opts(o).read_info(&d[..]));
    let bpp = if o & RGBA != 0 { 4 } else { 1 };
    let r = match acc {
        0 => dec.read_next_frame().map(|f| f.is_some()),
        1 => match dec.into_iter().next() { Some(Ok(_)) => Ok(true), None => Ok(false), Some(Err(e)) => Err(e) },
        2 => { some!(ok!(dec.next_frame_info())); let mut b = vec![0; need * bpp]; dec.read_into_buffer(&mut b).map(|_| true) }
        _ => { some!(ok!(dec.next_frame_info())); let mut b = vec![0; need * bpp]; match dec.fill_buffer(&mut b) { Ok(true) => Ok(true), Ok(false) => { cover(3); obs(0); chk!(k < need); return } Err(e) => Err(e) } }
    };
    match r {
        Ok(x) => { cover(1); chk!(x); chk!(k + extra >= need); obs(1) }
        Err(e) => { cover(2); chk!(k < need); obs(errcode(&e)) }
    }
}
/// length of a graphic control extension, and bytes where a terminator has to be
#[no_mangle]
pub extern "C" fn c09_control() {
    let n = pick(9);
    let mut g = G::new(7, 7, 1, 0);
    let b = bytes(n as usize);
    g.bytes(&[0x21, 0xF9, n as u8]).bytes(&b).bytes(&[0]);
    g.frame(1, 1, 0, 2, &[1]);
    let d = g.end();
    let r = DecodeOptions::new().read_info(&d[..]).and_then(|mut x| x.read_next_frame().map(|f| f.map(|f| f.delay)));
    match r {
        Ok(Some(v)) => { cover(1); chk!(n == 4); chk!(v == b[1] as u16 | (b[2] as u16) << 8); obs(v as u64) }
        Ok(None) => { unreachable_chk!() }
        Err(e) => { cover(2); chk!(n != 4); obs(errcode(&e)) }
    }
}
