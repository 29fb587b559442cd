//! Pre-compressed frames are equivalent to ordinary ones.
use crate::h::*; use crate::model::*; use crate::util::*;
use crate::c13::some_frame;
use gif::*; use gif::streaming_decoder::FrameDecoder;

/// params: kind of frame, symbolic pixels as bits (0: those of the kind)
#[no_mangle]
pub extern "C" fn c16_write() {
    let mut f = some_frame(param(0));
    if param(1) > 0 { f.buffer = vals(f.width as usize * f.height as usize, param(1) as u32).into() }
    // the encoder's own buffer has been used before
    let used = pickb();
    let mut a = ok!(Encoder::new(vec![], 3, 3, &[1; 6]));
    let mut b = ok!(Encoder::new(vec![], 3, 3, &[1; 6]));
    if used { let g = some_frame(5); ok!(a.write_frame(&g)); ok!(b.write_frame(&g)); }
    ok!(a.write_frame(&f));
    let mut g = f.clone();
    g.make_lzw_pre_encoded();
    chk!(same_frame_meta(&f, &g));
    ok!(b.write_lzw_pre_encoded_frame(&g));
    let (x, y) = (ok!(a.into_inner()), ok!(b.into_inner()));
    chk!(same(&x, &y));
    obs_bytes(&x);
    cover(1);
}
/// a stream with local palette, interlacing and several sub-blocks: skip, write again, decode separately
/// params: options (RGBA, ENDCODE), width, height, interlaced, code size, sub-block size, literal bits
#[no_mangle]
pub extern "C" fn c16_read() {
    let o = param(0);
    let (w, h, il) = (param(1) as u16, param(2) as u16, param(3) == 1);
    let m = param(4) as u8;
    let n = w as usize * h as usize;
    let px: Vec<u8> = (0..n).map(|i| if i < 40 { any(param(6) as u32) as u8 } else { (i * 3) as u8 & 3 }).collect();
    let local = pickb();
    let mut g = G::new(9, 9, 2, 0);
    let (d, t) = (any16(), if o & RGBA != 0 { any(2) as u8 } else { any8() });
    g.gce(5, d, t);
    g.desc(any16(), any16(), w, h, if il { 0x40 } else { 0 } | if local { 0x81 } else { 0 });
    if local { g.bytes(&bytes(12)); }
    let z = lzw_literals(m, &px, param(7) == 0);
    g.data(m, &z, param(5) as usize);
    g.frame(1, 1, 0, 2, &[1]);
    let s = g.end();
    let mut plain = ok!(opts(o).read_info(&s[..]));
    let mut skip = ok!(opts(o | SKIP).read_info(&s[..]));
    let a = some!(ok!(plain.read_next_frame())).clone();
    let b = some!(ok!(skip.read_next_frame())).clone();
    chk!(b.interlaced == il);
    // the compressed data as stored
    chk!(b.buffer.len() == z.len() + 1);
    chk!(b.buffer[0] == m);
    chk!(same(&b.buffer[1..], &z));
    let mut meta = b.clone(); meta.interlaced = false;
    chk!(same_frame_meta(&a, &meta));
    // written again
    if m >= 2 {
        let mut e = ok!(Encoder::new(vec![], 9, 9, skip.global_palette().unwrap()));
        ok!(e.write_lzw_pre_encoded_frame(&b));
        let again = ok!(e.into_inner());
        let mut dec = ok!(opts(SKIP).read_info(&again[..]));
        let c = some!(ok!(dec.read_next_frame()));
        chk!(same_frame_meta(c, &b));
        chk!(same(&c.buffer, &b.buffer));
    }
    // decoded on its own, twice with the same decoder
    let mut fd = FrameDecoder::new(opts(o));
    fd.set_global_palette(skip.global_palette().unwrap().to_vec());
    let size = n * if o & RGBA != 0 { 4 } else { 1 };
    chk!(fd.buffer_size(&b) == size);
    chk!(a.buffer.len() == size);
    for _ in 0..2 {
        let mut c = b.clone();
        ok!(fd.decode_lzw_encoded_frame(&mut c));
        chk!(!c.interlaced);
        chk!(same_frame_meta(&a, &c));
        chk!(same(&a.buffer, &c.buffer));
        let mut buf = vec![0x77; size];
        ok!(fd.decode_lzw_encoded_frame_into_buffer(&b, &mut buf));
        chk!(same(&a.buffer, &buf));
    }
    obs_frame(&a);
    cover(1);
    let a = some!(ok!(plain.read_next_frame())); let b = some!(ok!(skip.read_next_frame()));
    chk!(and(a.width == b.width, a.height == b.height));
    let mut c = b.clone();
    ok!(fd.decode_lzw_encoded_frame(&mut c));
    chk!(same(&a.buffer, &c.buffer));
    chk!(ok!(skip.read_next_frame()).is_none());
}
/// frames compressed by the library are decoded by the frame decoder; params: kind, interlaced data, options
#[no_mangle]
pub extern "C" fn c16_decoder() {
    let mut f = some_frame(param(0));
    f.interlaced = param(1) == 1;
    if param(0) == 2 { f.height = pick(6) as u16 }
    let px = f.buffer.to_vec();
    let pal = f.palette.clone();
    f.make_lzw_pre_encoded();
    let (w, h) = (f.width as usize, f.height as usize);
    let o = param(2);
    let mut fd = FrameDecoder::new(opts(o));
    let gp = bytes(9);
    fd.set_global_palette(gp.clone());
    ok!(fd.decode_lzw_encoded_frame(&mut f));
    let mut want = if param(1) == 1 { deinterlace(&px, w, h) } else { px[..w * h].to_vec() };
    if o & RGBA != 0 { want = rgba(&want, pal.as_ref().unwrap_or(&gp), f.transparent) }
    chk!(same(&f.buffer, &want));
    obs_bytes(&f.buffer);
    // again with the same decoder, and another frame in between
    for k in [1, pick(3), 1] {
        let (w, h) = [(3u16, 2u16), (1, 5), (2, 0)][k as usize];
        let mut g = Frame::default();
        g.width = w; g.height = h; g.interlaced = pickb(); g.palette = if k == 1 { Some(bytes(12)) } else { None };
        let px = [[1, 0, 2, any(1) as u8, 3, 2], [3, 2, 1, 0, any(1) as u8, 0]][(k & 1) as usize][..w as usize * h as usize].to_vec();
        g.buffer = px.clone().into();
        let (w, h) = (w as usize, h as usize);
        let mut want = if g.interlaced { deinterlace(&px, w, h) } else { px };
        if o & RGBA != 0 { want = rgba(&want, g.palette.as_deref().unwrap_or(&gp), None) }
        g.make_lzw_pre_encoded();
        let mut b = vec![0x33; fd.buffer_size(&g)];
        ok!(fd.decode_lzw_encoded_frame_into_buffer(&g, &mut b));
        chk!(same(&b, &want));
    }
    cover(1);
}
/// damaged or short data: separate decoding succeeds exactly if direct decoding does; params: code size, bytes, width, height, options, interlaced
#[no_mangle]
pub extern "C" fn c16_damaged() {
    let (w, h) = (param(2) as u16, param(3) as u16);
    let o = param(4);
    let mut g = G::new(9, 9, 1, 0);
    g.desc(0, 0, w, h, param(5) as u8 * 0x40).data(param(0) as u8, &bytes(param(1) as usize), 255);
    let s = g.end();
    let mut plain = ok!(opts(o).read_info(&s[..]));
    let mut skip = ok!(opts(o | SKIP).read_info(&s[..]));
    let mut b = match skip.read_next_frame() { Ok(f) => some!(f).clone(), Err(_) => { chk!(plain.read_next_frame().is_err()); cover(3); return } };
    let mut fd = FrameDecoder::new(opts(o));
    fd.set_global_palette(skip.global_palette().unwrap().to_vec());
    match (plain.read_next_frame(), fd.decode_lzw_encoded_frame(&mut b)) {
        (Ok(a), Ok(())) => { let a = some!(a); chk!(same_frame_meta(a, &b)); chk!(same(&a.buffer, &b.buffer)); cover(1); obs_frame(&b) }
        (Err(_), Err(_)) => { cover(2); obs(1) }
        _ => { unreachable_chk!() }
    }
}
/// a frame decoder is used again and again, with other palettes; params: options, colours of the first, second and third palette
#[no_mangle]
pub extern "C" fn c16_reuse() {
    let o = param(0);
    let mut fd = FrameDecoder::new(opts(o));
    for i in 0..3u64 {
        let gp = bytes(3 * param(1 + i) as usize);
        if i > 0 || pickb() { fd.set_global_palette(gp.clone()) } else { continue }
        for _ in 0..1 + pick(2) {
            let mut f = Frame::default();
            let (w, h) = [(2u16, 3u16), (1, 1), (3, 1)][i as usize];
            f.width = w; f.height = h; f.interlaced = h > 1 && pickb();
            f.transparent = if i == 1 { Some(any8()) } else { None };
            f.palette = if i == 2 && pickb() { Some(bytes(6)) } else { None };
            let px: Vec<u8> = (0..w as usize * h as usize).map(|j| if j == 0 { any(1) as u8 } else { (j % 3) as u8 }).collect();
            let want = if f.interlaced { deinterlace(&px, w as usize, h as usize) } else { px.clone() };
            let want = if o & RGBA != 0 { rgba(&want, f.palette.as_deref().unwrap_or(&gp), f.transparent) } else { want };
            f.buffer = px.into();
            f.make_lzw_pre_encoded();
            let mut b = vec![0x55; fd.buffer_size(&f)];
            ok!(fd.decode_lzw_encoded_frame_into_buffer(&f, &mut b));
            chk!(same(&b, &want));
            ok!(fd.decode_lzw_encoded_frame(&mut f));
            chk!(same(&f.buffer, &want)); chk!(!f.interlaced);
            obs_bytes(&b);
        }
    }
    cover(1);
}
