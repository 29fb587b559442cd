//! The memory limit is enforced exactly and bounds allocations.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*; use gif::streaming_decoder::*;

/// tables of the LZW decoder, a read buffer, palettes
const K: u64 = 40_000;
fn head(w: u16, h: u16, il: bool) -> G { let mut g = G::new(w, h, 1, 0); g.desc(0, 0, w, h, if il { 0x40 } else { 0 }); g }
/// result of reading the first frame: length of the buffer. access: 0 read_next_frame, 1 iterator, 2 frame decoder
fn first(op: DecodeOptions, w: u16, h: u16, il: bool, m: u8, z: &[u8], access: u64, bound: u64) -> Result<u64, DecodingError> {
    if access == 2 {
        let mut f = Frame::default();
        f.width = w; f.height = h; f.interlaced = il;
        let mut b = vec![m]; b.extend_from_slice(z);
        f.buffer = b.into();
        let mut d = FrameDecoder::new(op);
        alloc_bound(bound);
        let r = d.decode_lzw_encoded_frame(&mut f);
        alloc_bound(u64::MAX);
        return r.map(|_| f.buffer.len() as u64);
    }
    let mut g = head(w, h, il);
    g.data(m, z, 255);
    let d = g.end();
    let src = Src::new(&d, 10000);
    let mut dec = op.read_info(src)?;
    alloc_bound(bound);
    let r = match access {
        0 => dec.read_next_frame().map(|f| f.map(|f| f.buffer.len() as u64)),
        _ => dec.into_iter().next().transpose().map(|f| f.map(|f| f.buffer.len() as u64)),
    };
    alloc_bound(u64::MAX);
    match r { Ok(Some(n)) => Ok(n), Ok(None) => { unreachable_chk!() } Err(e) => Err(e) }
}
/// frame sizes around a small limit; params: limit, options, access
#[no_mangle]
pub extern "C" fn c07_frame() {
    let lim = param(0); let o = param(1);
    let bpp = if o & RGBA != 0 { 4u64 } else { 1 };
    let (w, h) = match pick(3) {
        0 => (0, [0, 1, 7, 9, 256, 65535][pick(6) as usize]),
        1 => ([0, 1, 7, 9, 256, 65535][pick(6) as usize], 0),
        _ => { let w = 1 + pick(lim + 1); (w as u16, 1 + pick(lim / (w * bpp) + 1) as u16) }
    };
    let size = w as u64 * h as u64 * bpp;
    let mut op = opts(o);
    op.set_memory_limit(limit(lim));
    // enough pixels for any accepted frame
    let px = vec![1u8; 2 * lim as usize + 2];
    let fits = size <= lim;
    match first(op, w, h, pickb(), 2, &lzw_literals(2, &px, true), param(2), 2 * lim + K) {
        Ok(n) => { cover(1); chk!(fits); chk!(n == size) }
        Err(e) => { cover(2); chk!(not(fits)); obs(errcode(&e)) }
    }
}
/// one frame size, any limit; params: width, height, options, access
#[no_mangle]
pub extern "C" fn c07_fit() {
    let (w, h, o) = (param(0) as u16, param(1) as u16, param(2));
    let lim = any(64);
    assume(lim > 0);
    let size = w as u64 * h as u64 * if o & RGBA != 0 { 4 } else { 1 };
    let mut op = opts(o);
    op.set_memory_limit(limit(lim));
    let px = vec![2u8; w as usize * h as usize];
    let fits = size <= lim;
    match first(op, w, h, pickb(), 2, &lzw_literals(2, &px, true), param(3), u64::MAX) {
        Ok(n) => { cover(1); chk!(fits); chk!(n == size) }
        Err(e) => { cover(2); chk!(not(fits)); obs(errcode(&e)) }
    }
}
/// any limit and any frame size that exceeds it; params: options, access
#[no_mangle]
pub extern "C" fn c07_any() {
    let o = param(0);
    let lim = any(64);
    assume(lim > 0);
    let (w, h) = (any16(), any16());
    let size = w as u64 * h as u64 * if o & RGBA != 0 { 4 } else { 1 };
    assume(size > lim);
    let mut op = opts(o);
    op.set_memory_limit(limit(lim));
    match first(op, w, h, pickb(), 2, &[0x44, 1], param(1), K) { Ok(_) => { unreachable_chk!() } Err(e) => { cover(1); chk!(errcode(&e) != 1); obs(errcode(&e)) } }
}
/// the default limit is 50 MB; params: width, height, accepted
#[no_mangle]
pub extern "C" fn c07_default() {
    let (w, h) = (param(0) as u16, param(1) as u16);
    let mut g = head(w, h, false);
    g.data(2, &[0x44, 1], 255);
    let d = g.end();
    let mut dec = ok!(opts(param(3)).read_info(&d[..]));
    let size = w as u64 * h as u64 * if param(3) & RGBA != 0 { 4 } else { 1 };
    let fits = size <= 50_000_000;
    chk!(fits == (param(2) == 1));
    match dec.read_next_frame() {
        Ok(_) => { unreachable_chk!() }
        // one pixel only
        Err(DecodingError::Format(_)) => { cover(1); chk!(fits) }
        Err(DecodingError::Io(e)) => { cover(2); chk!(!fits); chk!(e.kind() == std::io::ErrorKind::OutOfMemory) }
    }
}
/// compressed frames: params: limit, bytes of data, sub-block size
#[no_mangle]
pub extern "C" fn c07_skip() {
    let lim = param(0); let n = param(1) as usize;
    let (w, h) = match pick(4) { 0 => (1, 1), 1 => (65535, 65535), 2 => (20, 300), _ => (any8() as u16, 1) };
    let mut g = head(w, h, pickb());
    let z = (0..n).map(|i| if i < 50 { any8() } else { i as u8 }).collect::<Vec<_>>();
    g.data(2, &z, param(2) as usize);
    let d = g.end();
    let mut op = opts(SKIP);
    op.set_memory_limit(limit(lim));
    let mut dec = ok!(op.read_info(Src::new(&d, 100000)));
    alloc_bound(2 * lim + K);
    let r = dec.read_next_frame().map(|f| f.map(|f| f.buffer.len()));
    alloc_bound(u64::MAX);
    match r {
        Ok(Some(l)) => { cover(1); chk!(l == n + 1); chk!(n as u64 + 1 <= lim) }
        Ok(None) => { unreachable_chk!() }
        Err(e) => { cover(2); chk!(n as u64 + 1 > lim); obs(errcode(&e)) }
    }
}
/// extension data; params: limit, sub-blocks, size of each
#[no_mangle]
pub extern "C" fn c07_ext() {
    let lim = param(0); let n = param(1); let k = param(2) as usize;
    let mut g = G::new(1, 1, 1, 0);
    let label = [0xFE, 0x01, 0xFF][pick(3) as usize];
    let b: Vec<u8> = (0..k).map(|i| if i < 9 { any8() } else { i as u8 }).collect();
    g.bytes(&[0x21, label]);
    for _ in 0..n { g.bytes(&[k as u8]).bytes(&b); }
    g.bytes(&[0]);
    g.frame(1, 1, 0, 2, &[1]);
    let d = g.end();
    let mut op = opts(0);
    op.set_memory_limit(limit(lim));
    alloc_bound(2 * lim + K);
    let r = op.read_info(Src::new(&d, 100000)).map(|_| ());
    alloc_bound(u64::MAX);
    match r {
        Ok(()) => { cover(1); chk!(n * k as u64 + 1 <= lim) }
        Err(e) => { cover(2); chk!(n * k as u64 + 1 > lim); obs(errcode(&e)) }
    }
}
/// unlimited: any frame is accepted (only metadata is read here), small frames decode
#[no_mangle]
pub extern "C" fn c07_unlimited() {
    let (w, h) = (below(5, 3) as u16, below(5, 3) as u16);
    let mut g = head(w, h, false);
    let px = vec![1u8; 16];
    g.data(2, &lzw_literals(2, &px, true), 255);
    g.desc(0, 0, any16(), any16(), 0).data(2, &[0x44, 1], 255);
    let d = g.end();
    let mut dec = ok!(opts(UNLIM).read_info(&d[..]));
    let f = some!(ok!(dec.read_next_frame()));
    chk!(f.buffer.len() == w as usize * h as usize);
    chk!(ok!(dec.next_frame_info()).is_some());
    cover(1);
}
/// palettes and the like do not make the decoder allocate much, whatever bytes come; params: prefix, symbolic bytes, options
#[no_mangle]
pub extern "C" fn c07_raw() {
    let mut d = crate::c01::prefix(param(0));
    d.extend_from_slice(&bytes(param(1) as usize));
    let mut op = opts(param(2));
    op.set_memory_limit(limit(20));
    let src = Src::new(&d, 100);
    alloc_bound(40 + K);
    if let Ok(mut dec) = op.read_info(src) {
        cover(1);
        for _ in 0..4 { match dec.read_next_frame() { Ok(Some(_)) => { cover(2) } Ok(None) => break, Err(_) => { cover(3) } } }
    }
    alloc_bound(u64::MAX);
}
/// the limit decides in the same way whatever was done before; params: options, width and height of the first frame, what is done with it
/// (0 skipped, 1 read into a buffer, 2 in part, 3 read as a whole, which may be refused), width and height of the second one
#[no_mangle]
pub extern "C" fn c07_history() {
    let o = param(0);
    let (w, h) = (param(1) as u16, param(2) as u16);
    let bpp = if o & RGBA != 0 { 4u64 } else { 1 };
    let px = vec![1u8; w as usize * h as usize];
    let mut g = G::new(9, 9, 1, 0);
    g.desc(0, 0, w, h, if pickb() { 0x40 } else { 0 }).data(2, &lzw_literals(2, &px, true), 255);
    let (w2, h2) = (param(4) as u16, param(5) as u16);
    for _ in 0..2 { g.desc(0, 0, w2, h2, if pickb() { 0x40 } else { 0 }).data(2, &lzw_literals(2, &vec![1u8; w2 as usize * h2 as usize], true), 255); }
    let d = g.end();
    let lim = 1 + any(16);
    let mut op = opts(o);
    op.set_memory_limit(limit(lim));
    let mut dec = ok!(op.read_info(Src::new(&d, 10000)));
    let (n, n2) = (w as u64 * h as u64 * bpp, w2 as u64 * h2 as u64 * bpp);
    let mut b = vec![0; n as usize];
    match param(3) {
        3 => match dec.read_next_frame() { Ok(f) => { chk!(n <= lim); chk!(some!(f).buffer.len() as u64 == n) } Err(e) => { chk!(errcode(&e) != 1); chk!(n > lim) } },
        k => {
            some!(ok!(dec.next_frame_info()));
            // one's own buffer isn't limited
            if k == 1 { ok!(dec.read_into_buffer(&mut b)); chk!(same(&b[..bpp as usize], &b[(n - bpp) as usize..])) }
            if k == 2 { chk!(ok!(dec.fill_buffer(&mut b[..(n / bpp / 2 * bpp) as usize]))); }
        }
    }
    for _ in 0..2 {
        match dec.read_next_frame() {
            Ok(f) => { cover(1); chk!(n2 <= lim); chk!(some!(f).buffer.len() as u64 == n2) }
            Err(e) => { cover(2); chk!(errcode(&e) != 1); chk!(n2 > lim) }
        }
    }
    chk!(ok!(dec.read_next_frame()).is_none());
}
/// extensions of many small sub-blocks, before or between frames; params: sub-blocks, size of each, frames before
#[no_mangle]
pub extern "C" fn c07_blocks() {
    let (n, k) = (param(0), param(1));
    let mut g = G::new(1, 1, 1, 0);
    if param(2) > 0 { g.frame(1, 1, 0, 2, &[1]); }
    let label = [0xFE, 0x01, 0xFF][pick(3) as usize];
    g.bytes(&[0x21, label]);
    let b = any8();
    for _ in 0..n { g.bytes(&[k as u8]).bytes(&vec![b; k as usize]); }
    g.bytes(&[0]).frame(1, 1, 0, 2, &[1]);
    let d = g.end();
    let t = n * k + 1;
    let lim = [9, t / 2, t - 1, t, t + 1, t + 1000][pick(6) as usize];
    let mut op = opts(0);
    op.set_memory_limit(limit(lim));
    alloc_bound(2 * lim + K);
    let r = (|| -> Result<u64, DecodingError> { let mut x = op.read_info(Src::new(&d, 100000))?; let mut c = 0; while x.read_next_frame()?.is_some() { c += 1 } Ok(c) })();
    alloc_bound(u64::MAX);
    match r {
        Ok(c) => { cover(1); chk!(t <= lim); chk!(c == 1 + (param(2) > 0) as u64) }
        Err(e) => { cover(2); chk!(t > lim); obs(errcode(&e)) }
    }
}
