//! Code size and end-code checks reject exactly the bad image data.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*; use gif::streaming_decoder::FrameDecoder;

/// any code size byte; params: options, local palette, interlaced
#[no_mangle]
pub extern "C" fn c24_size() {
    let o = param(0);
    let m = any8();
    let mut g = G::new(2, 2, 1, 0);
    if pickb() { g.frame(1, 1, 0, 2, &[1]); }
    let n = g.o.len() > 19 && g.o[19..].len() > 0;
    g.desc(0, 0, any16(), any16(), param(1) as u8 * 0x80 | param(2) as u8 * 0x40);
    if param(1) == 1 { g.bytes(&bytes(6)); }
    g.o.push(m);
    g.bytes(&[1, any8(), 0]);
    let s = g.end();
    let mut dec = ok!(opts(o).read_info(&s[..]));
    if n { some!(ok!(dec.next_frame_info())); }
    let good = and(m >= 1, m <= 11);
    match dec.next_frame_info() {
        Ok(f) => { some!(f); chk!(good); obs(1); cover(1) }
        Err(e) => { chk!(not(good)); obs(errcode(&e)); cover(2) }
    }
}
/// a frame decoded on its own: any first byte; params: options, bytes
#[no_mangle]
pub extern "C" fn c24_frame_size() {
    let z = bytes(param(1) as usize);
    let mut f = Frame::default();
    f.buffer = z.clone().into();
    // no pixels are wanted: only the code size matters
    let mut fd = FrameDecoder::new(opts(param(0)));
    fd.set_global_palette(vec![1; 6]);
    // nothing at all is taken as code size 2
    let good = z.len() == 0 || and(z[0] >= 1, z[0] <= 11);
    match fd.decode_lzw_encoded_frame(&mut f) {
        Ok(()) => { chk!(good); obs(1); cover(1) }
        Err(_) => { if param(0) & ENDCODE == 0 { chk!(not(good)) } obs(2); cover(2) }
    }
}
/// end code present or not; params: options, code size, width, height, pixels in the data (at least w*h), end code, sub-block size,
/// access (0 read_next_frame, 1 metadata only, 2 part of the pixels, 3 the iterator)
#[no_mangle]
pub extern "C" fn c24_end() {
    let (o, m, w, h, n, has) = (param(0), param(1) as u8, param(2) as u16, param(3) as u16, param(4) as usize, param(5) == 1);
    let px: Vec<u8> = (0..n).map(|i| if i < 30 { any(m as u32 & 3) as u8 } else { 1 }).collect();
    let z = lzw_literals(m, &px, has);
    let mut g = G::new(2, 2, 2, 0);
    g.desc(any16(), any16(), w, h, 0).data(m, &z, param(6) as usize);
    g.frame(1, 1, 0, 2, &[1]);
    let s = g.end();
    let fine = has || o & ENDCODE == 0 || o & SKIP != 0;
    let mut dec = ok!(opts(o).read_info(&s[..]));
    let bpp = if o & RGBA != 0 { 4 } else { 1 };
    let r = match param(7) {
        0 => dec.read_next_frame().map(|f| f.map(|f| f.buffer.to_vec())),
        1 => dec.next_frame_info().map(|_| None),
        2 => { some!(ok!(dec.next_frame_info())); let mut b = vec![0; w as usize * bpp]; dec.fill_buffer(&mut b).map(|_| Some(b)) }
        _ => {
            let mut it = dec.into_iter();
            let a = some!(it.next());
            match a { Ok(f) => { obs_frame(&f); match it.next() { Some(Ok(_)) => { chk!(fine); cover(1) } Some(Err(_)) => { chk!(!fine); cover(2) } None => { unreachable_chk!() } } } Err(_) => { chk!(!fine); cover(2) } }
            return;
        }
    };
    // the error may come with the frame itself, or when going on to the next one
    match r {
        Ok(b) => {
            if let Some(b) = b { obs_bytes(&b); if o & (RGBA | SKIP) == 0 { chk!(same(&b, &px[..b.len()])) } }
            match dec.next_frame_info() { Ok(f) => { let f = some!(f); chk!(and(f.width == 1, f.height == 1)); chk!(fine); obs(1); cover(1) } Err(e) => { chk!(!fine); obs(errcode(&e)); cover(2) } }
        }
        Err(e) => { chk!(!fine); obs(errcode(&e)); cover(2) }
    }
}
/// frames decoded on their own, which stops at the last pixel, are not rejected; params: as above (no options that need the end code, or an end code)
#[no_mangle]
pub extern "C" fn c24_frame_end() {
    let (o, m, w, h, n, has) = (param(0), param(1) as u8, param(2) as u16, param(3) as u16, param(4) as usize, param(5) == 1);
    let px: Vec<u8> = (0..n).map(|i| if i < 30 { any(m as u32 & 3) as u8 } else { 1 }).collect();
    let mut f = Frame::default();
    f.width = w; f.height = h;
    let mut z = vec![m];
    z.extend_from_slice(&lzw_literals(m, &px, has));
    f.buffer = z.into();
    let mut fd = FrameDecoder::new(opts(o));
    fd.set_global_palette(vec![1; 12]);
    match fd.decode_lzw_encoded_frame(&mut f) {
        Ok(()) => { if o & RGBA == 0 { chk!(same(&f.buffer, &px[..w as usize * h as usize])) } obs_frame(&f); cover(1) }
        Err(_) => { unreachable_chk!() }
    }
}
/// any bytes as image data, against the model; params: code size, bytes, width, height, options, sub-block size
#[no_mangle]
pub extern "C" fn c24_codes() {
    let (m, w, h, o) = (param(0) as u8, param(2) as u16, param(3) as u16, param(4));
    let d = bytes(param(1) as usize);
    let mut g = G::new(2, 2, 2, 0);
    g.desc(0, 0, w, h, 0).data(m, &d, param(5) as usize);
    g.frame(1, 1, 0, 2, &[1]);
    let s = g.end();
    let need = w as usize * h as usize;
    let (px, bad, end) = codes(m, &d);
    let fine = px.len() >= need && (o & ENDCODE == 0 || (end && !bad));
    let mut dec = ok!(opts(o).read_info(&s[..]));
    match dec.read_next_frame() {
        Ok(f) => {
            let b = some!(f).buffer.to_vec();
            chk!(same(&b, &px[..need.min(px.len())]));
            obs_bytes(&b);
            match dec.next_frame_info() { Ok(f) => { some!(f); chk!(fine); cover(1) } Err(_) => { chk!(!fine); cover(2) } }
        }
        Err(_) => { chk!(!fine); obs(3); cover(3) }
    }
}
/// pixels before an invalid code or the end, whether there is an invalid code, whether there is an end code before it
fn codes(m: u8, d: &[u8]) -> (Vec<u8>, bool, bool) {
    let m = m as u32;
    let (clear, end) = (1u32 << m, (1u32 << m) + 1);
    let (mut acc, mut n, mut i) = (0u32, 0u32, 0);
    let mut width = m + 1;
    let mut tab: Vec<Vec<u8>> = vec![];
    let mut prev: Vec<u8> = vec![];
    let mut out = vec![];
    loop {
        while n < width { if i >= d.len() { return (out, false, false) } acc |= (d[i] as u32) << n; i += 1; n += 8 }
        let c = acc & ((1 << width) - 1); acc >>= width; n -= width;
        if c == clear { width = m + 1; tab.clear(); prev.clear(); continue }
        if c == end { return (out, false, true) }
        let s = if c < clear { vec![c as u8] } else {
            let k = (c - end - 1) as usize;
            if k < tab.len() { tab[k].clone() } else if k == tab.len() && !prev.is_empty() { let mut e = prev.clone(); e.push(prev[0]); e } else { return (out, true, false) }
        };
        if !prev.is_empty() && tab.len() + (end as usize) + 1 < 4096 {
            let mut e = prev; e.push(s[0]); tab.push(e);
            if tab.len() + end as usize + 1 >= 1 << width && width < 12 { width += 1 }
        }
        out.extend_from_slice(&s);
        prev = s;
    }
}
