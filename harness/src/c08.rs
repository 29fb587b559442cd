//! All ways to obtain the pixels of a frame agree.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*; use gif::streaming_decoder::*;

/// reads all frames in some way: per frame metadata, pixels, and a final code
fn run(d: &[u8], o: u64, how: u64, piece: usize) -> (Vec<(Frame<'static>, Vec<u8>)>, u64) {
    let mut v = vec![];
    let mut op = opts(o);
    op.set_memory_limit(limit(100_000));
    let mut dec = match op.read_info(d) { Ok(d) => d, Err(e) => return (v, 10 + errcode(&e)) };
    let bpp = if o & RGBA != 0 { 4 } else { 1 };
    if how == 1 {
        let mut r = 1;
        for f in dec { match f { Ok(mut f) => { let b = std::mem::take(&mut f.buffer).into_owned(); v.push((f, b)) } Err(e) => r = 10 + errcode(&e) } }
        return (v, r);
    }
    loop {
        if how == 0 {
            match dec.read_next_frame() {
                Ok(Some(f)) => { let mut f = f.clone(); let b = std::mem::take(&mut f.buffer).into_owned(); v.push((f, b)) }
                Ok(None) => return (v, 1),
                Err(e) => return (v, 10 + errcode(&e)),
            }
            continue;
        }
        let mut f = match dec.next_frame_info() { Ok(Some(f)) => f.clone(), Ok(None) => return (v, 1), Err(e) => return (v, 10 + errcode(&e)) };
        let n = f.width as usize * f.height as usize * bpp;
        chk!(dec.buffer_size() == n);
        chk!(dec.line_length() == f.width as usize * bpp);
        let mut b = vec![0xC3; n];
        if how == 2 {
            // a buffer that is larger than necessary
            b.resize(n + piece.max(1) - 1, 0x5A);
            if let Err(e) = dec.read_into_buffer(&mut b) { return (v, 10 + errcode(&e)) }
            for &x in &b[n..] { chk!(x == 0x5A) }
            b.truncate(n);
        } else {
            for c in b.chunks_mut(piece * bpp) {
                match dec.fill_buffer(c) { Ok(true) => {} Ok(false) => return (v, 1010), Err(e) => return (v, 10 + errcode(&e)) }
            }
            if f.interlaced { b = deinterlace(&b, f.width as usize * bpp, f.height as usize) }
        }
        f.interlaced = false;
        v.push((f, b));
    }
}
fn compare(a: &(Vec<(Frame<'static>, Vec<u8>)>, u64), b: &(Vec<(Frame<'static>, Vec<u8>)>, u64)) {
    chk!(a.1 == b.1);
    chk!(a.0.len() == b.0.len());
    for (x, y) in a.0.iter().zip(&b.0) { chk!(same_frame_meta(&x.0, &y.0)); chk!(same(&x.1, &y.1)); obs_bytes(&x.1) }
    obs(a.1);
    if a.1 == 1 { cover(1) } else { cover(2) }
}
/// well-formed streams; params: options, width, height, interlaced
#[no_mangle]
pub extern "C" fn c08_valid() {
    let o = param(0);
    let (w, h, il) = (param(1) as u16, param(2) as u16, param(3) as u8 * 0x40);
    let mut g = G::new(9, 9, 2, 0);
    let n = w as usize * h as usize;
    let px = vals(n.min(6), 3); let px: Vec<u8> = (0..n).map(|i| px[i % px.len()]).collect();
    g.gce(any8() & 0x1C | 1, any16(), any(3) as u8).desc(any16(), any16(), w, h, il).data(3, &lzw_literals(3, &px, true), 255);
    let px2 = vals(2, 2);
    g.desc(0, 1, 1, 2, 0x80).bytes(&bytes(6)).data(2, &lzw_literals(2, &px2, true), 255);
    // one pixel missing in the last frame
    if pickb() { g.frame(2, 2, 0, 2, &[1, 2, 3]); } else { cover(2) }
    let d = g.end();
    let a = run(&d, o, 0, 0);
    let how = 1 + pick(3);
    let piece = match how { 3 => 1 + pick(n as u64 + 1) as usize, 2 => 1 + 3 * pick(3) as usize, _ => 1 };
    compare(&a, &run(&d, o, how, piece));
}
/// frames with too few or too many pixels; params: options, width, height, interlaced, pixels there are, end code
#[no_mangle]
pub extern "C" fn c08_short() {
    let o = param(0);
    let (w, h, il) = (param(1) as u16, param(2) as u16, param(3) as u8 * 0x40);
    let mut g = G::new(9, 9, 2, 0);
    let px = vals(param(4) as usize, 2);
    g.gce(any8() & 0x1C | 1, any16(), any(2) as u8).desc(any16(), any16(), w, h, il).data(2, &lzw_literals(2, &px, param(5) == 1), 255);
    g.frame(1, 2, 0, 2, &[1, 3]);
    let d = g.end();
    let a = run(&d, o, 0, 0);
    let how = 1 + pick(3);
    let piece = match how { 3 => 1 + pick(w as u64 * h as u64 + 1) as usize, 2 => 1 + 4 * pick(4) as usize, _ => 1 };
    compare(&a, &run(&d, o, how, piece));
}
/// arbitrary LZW data; params: options, code size, bytes, interlaced, how, piece
#[no_mangle]
pub extern "C" fn c08_lzw() {
    let o = param(0);
    let mut g = G::new(9, 9, 1, 0);
    g.desc(0, 0, 2, 2, param(3) as u8 * 0x40).data(param(1) as u8, &bytes(param(2) as usize), 255);
    g.frame(1, 1, 0, 2, &[1]);
    let d = g.end();
    let a = run(&d, o, 0, 0);
    compare(&a, &run(&d, o, param(4), param(5) as usize));
}
/// sizes in which the number of pieces matters; concrete pixels with symbolic ones among them
/// params: options, width, height, interlaced, code size
#[no_mangle]
pub extern "C" fn c08_big() {
    let o = param(0);
    let (w, h, il) = (param(1) as u16, param(2) as u16, param(3) as u8 * 0x40);
    let m = param(4) as u8;
    let n = w as usize * h as usize;
    let mut l = Lzw::new(m);
    let mut s = 99u32; let mut syms = 0;
    while l.px.len() < n {
        s ^= s << 13; s ^= s >> 17; s ^= s << 5;
        let r = l.refs();
        if r == 0 || s % 3 == 0 { if s % 32 < 3 && syms < 6 { syms += 1; l.lit(any(m as u32) as u8) } else { l.lit((s >> 8) as u8) } } else { l.refer((s >> 9) as usize % r) }
    }
    let (z, _) = l.end(true);
    let mut g = G::new(9, 9, m, 0);
    g.desc(0, 0, w, h, il).data(m, &z, 255);
    g.frame(1, 1, 0, 2, &[1]);
    let d = g.end();
    let a = run(&d, o, 0, 0);
    let k = pick(6);
    let b = match k { 0 => run(&d, o, 1, 0), 1 => run(&d, o, 2, 40), _ => run(&d, o, 3, [1, 7, w as usize, w as usize + 1][k as usize - 2]) };
    chk!(a.0.len() == 2);
    compare(&a, &b);
}
/// the low-level decoder with output slices of any sizes; params: width, height, sizes picked
#[no_mangle]
pub extern "C" fn c08_stream() {
    let (w, h) = (param(0) as u16, param(1) as u16);
    let n = w as usize * h as usize;
    let px = vals(n, 2);
    let mut g = G::new(9, 9, 1, 0);
    g.desc(0, 0, w, h, 0).data(2, &lzw_literals(2, &px, true), 255);
    let d = g.end();
    let mut s = StreamingDecoder::new();
    let mut out: Vec<u8> = vec![];
    let mut p = 0; let mut picks = 0; let mut ended = 0;
    while p < d.len() {
        let k = if out.len() < n && picks < param(2) { picks += 1; 1 + pick(n as u64) as usize } else { 1 };
        let mut b = vec![0xAA; k];
        let (c, e) = ok!(s.update(&d[p..], &mut OutputBuffer::Slice(&mut b)));
        p += c;
        match e {
            Decoded::BytesDecoded(m) => { chk!(m.get() <= k); out.extend_from_slice(&b[..m.get()]); chk!(ended == 0) }
            Decoded::DataEnd => ended += 1,
            _ => {}
        }
    }
    chk!(ended == 1);
    chk!(same(&out, &px));
    cover(1);
    obs_bytes(&out);
}
/// large frames of few colours, which are symbolic; params: options, width, height, interlaced, pattern (0 one value, 1 rows, 2 the last pixel differs, 3 the first)
#[no_mangle]
pub extern "C" fn c08_plain() {
    let o = param(0);
    let (w, h, il) = (param(1) as u16, param(2) as u16, param(3) as u8 * 0x40);
    let n = w as usize * h as usize;
    let px: Vec<u8> = (0..n).map(|i| match param(4) { 0 => 1, 1 => (i / w as usize % 2) as u8, 2 => (i == n - 1) as u8, _ => (i == 0) as u8 }).collect();
    let mut g = G::new(9, 9, 1, 0);
    g.gce(1, any16(), 2 + any(2) as u8).desc(0, 0, w, h, il | 0x80).bytes(&bytes(6)).data(2, &lzw_literals(2, &px, true), 255);
    g.frame(1, 1, 0, 2, &[1]);
    let d = g.end();
    let a = run(&d, o, 0, 0);
    let k = pick(4);
    let b = match k { 0 => run(&d, o, 1, 0), 1 => run(&d, o, 2, 40), _ => run(&d, o, 3, [w as usize, n][k as usize - 2]) };
    chk!(a.0.len() == 2);
    chk!(a.0[0].1.len() == n * if o & RGBA != 0 { 4 } else { 1 });
    compare(&a, &b);
}
