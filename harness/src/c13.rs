//! Everything the encoder writes is a well-formed GIF89a stream.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*;

/// what was asked for, and what has to be in the stream
pub enum Want { Frame { f: Frame<'static>, px: Option<Vec<u8>>, lzw: Option<Vec<u8>> }, Ext(u8, Vec<Vec<u8>>) }
pub fn dispose(k: u64) -> DisposalMethod { [DisposalMethod::Any, DisposalMethod::Keep, DisposalMethod::Background, DisposalMethod::Previous][k as usize] }
pub fn pad(p: &[u8]) -> Vec<u8> {
    let n = (p.len() / 3).max(2).next_power_of_two();
    let mut v = p[..p.len() / 3 * 3].to_vec();
    v.resize(n * 3, 0);
    v
}
/// a frame with symbolic settings; k selects palette and size
pub fn some_frame(k: u64) -> Frame<'static> {
    let mut f = Frame::default();
    f.delay = any16(); f.dispose = dispose(pick(4)); f.needs_user_input = anyb();
    f.transparent = if pickb() { Some(any8()) } else { None };
    f.left = any16(); f.top = any16();
    f.interlaced = anyb();
    let (w, h, pal, px): (u16, u16, Option<usize>, Vec<u8>) = match k {
        0 => (2, 1, None, vec![1, 0]),
        1 => (1, 3, Some(6), vec![0, 1, 1]),
        2 => (0, any16(), Some(0), vec![]),
        3 => (3, 2, Some(15), vec![4, 2, 0, 1, 3, 2]),
        4 => (1, 1, Some(7), vec![255]),
        5 => (20, 30, Some(300), (0..600).map(|i| (i % 100) as u8).collect()),
        6 => (2, 2, Some(3), vec![any(1) as u8, 1, any(1) as u8, 0]),
        _ => (1, 1, None, vec![any(2) as u8, 9, 9]),
    };
    f.width = w; f.height = h; f.palette = pal.map(|n| many(n)); f.buffer = px.into();
    f
}
/// blocks of an extension; sub-blocks as they have to be written
pub fn some_ext(k: u64) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let sizes: &[usize] = [&[][..], &[0], &[3], &[2, 0, 1], &[255], &[256, 1], &[600]][k as usize];
    let b: Vec<Vec<u8>> = sizes.iter().map(|&n| many(n)).collect();
    let s = b.iter().flat_map(|x| x.chunks(255)).map(|x| x.to_vec()).collect();
    (b, s)
}
/// checks one frame of the parsed stream: its control extension and its image
pub fn check_frame(ext: &Part, img: &Part, f: &Frame<'_>, px: Option<&[u8]>, lzw: Option<&[u8]>) -> bool {
    let (Part::Ext(e), Part::Img(i)) = (ext, img) else { return false };
    if e.label != 0xF9 || e.blocks.len() != 1 || e.blocks[0].len() != 4 { return false }
    let b = &e.blocks[0];
    let fl = f.transparent.is_some() as u8 | (f.needs_user_input as u8) << 1 | (f.dispose as u8) << 2;
    let mut c = and(b[0] == fl, b[1] as u16 | (b[2] as u16) << 8 == f.delay);
    c = and(c, b[3] == f.transparent.unwrap_or(0));
    c = and(c, and(and(i.l == f.left, i.t == f.top), and(i.w == f.width, i.h == f.height)));
    let fl = match &f.palette { Some(p) => 0x80 | (pad(p).len() / 3).trailing_zeros() as u8 - 1, None => 0 } | ite(f.interlaced, 0x40, 0) as u8;
    c = and(c, i.flags & 0xC7 == fl);
    c = and(c, match &f.palette { Some(p) => same(&pad(p), &i.pal), None => i.pal.is_empty() });
    // full sub-blocks, then the rest
    for (k, &n) in i.blocks.iter().enumerate() { if n > 255 || (k + 1 < i.blocks.len() && n != 255) { return false } }
    if let Some(z) = lzw { return and(c, and(i.m == z[0], same(&i.lzw, &z[1..]))) }
    let px = px.unwrap();
    if i.m < 2 || i.m > 8 { return false }
    match unlzw(i.m, &i.lzw) { Some((got, end)) => and(c, and(end, same(&got, px))), None => false }
}
/// params: calls, kinds of frames from..to, global palette bytes, way to finish (0 drop, 1 into_inner)
#[no_mangle]
pub extern "C" fn c13_calls() {
    let (n, lo, hi) = (param(0), param(1), param(2));
    let gp = many(param(3) as usize);
    let (w, h) = (any16(), any16());
    let mut out = vec![];
    let mut want = vec![];
    let mut e = ok!(Encoder::new(&mut out, w, h, &gp));
    for _ in 0..n {
        match pick(4) {
            0 | 1 => {
                let mut f = some_frame(lo + pick(hi - lo));
                if f.palette.is_none() && gp.len() < 3 { f.palette = Some(bytes(6)) }
                let px = f.buffer.to_vec();
                if pickb() {
                    f.make_lzw_pre_encoded();
                    ok!(e.write_lzw_pre_encoded_frame(&f));
                    let z = f.buffer.to_vec();
                    want.push(Want::Frame { f, px: Some(px), lzw: Some(z) });
                    cover(1);
                } else {
                    ok!(e.write_frame(&f));
                    want.push(Want::Frame { f, px: Some(px), lzw: None });
                    cover(2);
                }
            }
            2 => {
                let l = any8();
                let (b, s) = some_ext(pick(5));
                let r: Vec<&[u8]> = b.iter().map(|x| &x[..]).collect();
                ok!(e.write_raw_extension(AnyExtension(l), &r));
                want.push(Want::Ext(l, s));
                cover(3);
            }
            _ => {
                let v = any16();
                match pick(3) {
                    0 => { ok!(e.set_repeat(Repeat::Infinite)); want.push(Want::Ext(0xFF, vec![b"NETSCAPE2.0".to_vec(), vec![1, 0, 0]])); }
                    1 => { assume(v != 0); ok!(e.set_repeat(Repeat::Finite(v))); want.push(Want::Ext(0xFF, vec![b"NETSCAPE2.0".to_vec(), vec![1, v as u8, (v >> 8) as u8]])); }
                    _ => {
                        let (d, u, t) = (dispose(pick(4)), anyb(), if pickb() { Some(any8()) } else { None });
                        ok!(e.write_extension(ExtensionData::new_control_ext(v, d, u, t)));
                        want.push(Want::Ext(0xF9, vec![vec![t.is_some() as u8 | (u as u8) << 1 | (d as u8) << 2, v as u8, (v >> 8) as u8, t.unwrap_or(0)]]));
                    }
                }
                cover(4);
            }
        }
    }
    if param(4) == 0 { drop(e) } else { ok!(e.into_inner()); }
    obs_bytes(&out);
    let p = some!(parse(&out, true));
    chk!(and(p.w == w, p.h == h));
    chk!(p.flags & 0x80 != 0);
    chk!(same(&p.pal, &pad(&gp)));
    chk!(p.bg == 0);
    let mut k = 0;
    for x in &want {
        match x {
            Want::Frame { f, px, lzw } => {
                chk!(k + 1 < p.parts.len());
                chk!(check_frame(&p.parts[k], &p.parts[k + 1], f, if lzw.is_some() { None } else { px.as_deref() }, lzw.as_deref()));
                k += 2;
            }
            Want::Ext(l, s) => {
                chk!(k < p.parts.len());
                let Part::Ext(e) = &p.parts[k] else { unreachable_chk!() };
                chk!(e.label == *l);
                chk!(e.blocks.len() == s.len());
                for (a, b) in e.blocks.iter().zip(s) { chk!(same(a, b)) }
                k += 1;
            }
        }
    }
    chk!(k == p.parts.len());
}
/// palettes of all sizes; params: colours, extra bytes, local
#[no_mangle]
pub extern "C" fn c13_palette() {
    let n = param(0) as usize * 3 + param(1) as usize;
    let pal = many(n);
    let mut out = vec![];
    if param(2) == 0 {
        let e = ok!(Encoder::new(&mut out, 1, 1, &pal));
        drop(e);
        let p = some!(parse(&out, true));
        chk!(p.flags & 0x80 != 0);
        chk!(same(&p.pal, &pad(&pal)));
        chk!(p.parts.is_empty());
    } else {
        let mut f = Frame::default();
        f.width = 1; f.height = 1; f.buffer = vec![0].into(); f.palette = Some(pal.clone());
        let mut e = ok!(Encoder::new(&mut out, 1, 1, &[1, 2, 3, 4, 5, 6]));
        ok!(e.write_frame(&f));
        drop(e);
        let p = some!(parse(&out, true));
        chk!(p.parts.len() == 2);
        chk!(check_frame(&p.parts[0], &p.parts[1], &f, Some(&[0]), None));
    }
    obs_bytes(&out);
    cover(1);
}
/// what is written for a frame or extension does not depend on what was written before; params: kind before, kind
#[no_mangle]
pub extern "C" fn c13_history() {
    let gp = bytes(6);
    let mut a = ok!(Encoder::new(vec![], 3, 3, &gp));
    let mut b = ok!(Encoder::new(vec![], 3, 3, &gp));
    match param(0) {
        8 => { ok!(a.set_repeat(Repeat::Infinite)) }
        9 => { ok!(a.write_raw_extension(AnyExtension(any8()), &[&bytes(3)])) }
        // a rejected frame
        10 => { let mut f = some_frame(0); f.buffer = vec![1].into(); chk!(a.write_frame(&f).is_err()) }
        11 => { let mut f = some_frame(0); f.buffer = vec![12, 1].into(); chk!(a.write_lzw_pre_encoded_frame(&f).is_err()) }
        12 => { let mut f = some_frame(5); f.make_lzw_pre_encoded(); ok!(a.write_lzw_pre_encoded_frame(&f)) }
        k => { ok!(a.write_frame(&some_frame(k))); }
    }
    let n = a.get_ref().len(); let m = b.get_ref().len();
    let f = some_frame(param(1));
    ok!(a.write_frame(&f)); ok!(b.write_frame(&f));
    let (x, y) = (ok!(a.into_inner()), ok!(b.into_inner()));
    chk!(same(&x[n..], &y[m..]));
    chk!(x.last() == Some(&0x3B));
    obs_bytes(&x);
    cover(1);
}
/// image data of any length is divided into sub-blocks; params: compressed bytes, min code size
#[no_mangle]
pub extern "C" fn c13_blocks() {
    let n = param(0) as usize;
    let mut z = vec![param(1) as u8];
    z.extend_from_slice(&many(n));
    let mut f = Frame::default();
    f.width = any16(); f.height = any16();
    let px = z.clone();
    f.buffer = px.into();
    let mut e = ok!(Encoder::new(vec![], 3, 3, &[0; 6]));
    ok!(e.write_lzw_pre_encoded_frame(&f));
    let out = ok!(e.into_inner());
    let p = some!(parse(&out, true));
    chk!(p.parts.len() == 2);
    chk!(check_frame(&p.parts[0], &p.parts[1], &f, None, Some(&z)));
    obs_bytes(&out);
    cover(1);
}
/// dropping and taking apart write one trailer
#[no_mangle]
pub extern "C" fn c13_trailer() {
    let gp = bytes(param(0) as usize);
    let mut a = vec![];
    { let mut e = ok!(Encoder::new(&mut a, 1, 2, &gp)); if pickb() { ok!(e.set_repeat(Repeat::Infinite)) } if pickb() { e.get_mut().len(); } }
    chk!(parse(&a, true).is_some());
    let e = ok!(Encoder::new(vec![], 1, 2, &gp));
    let before = e.get_ref().clone();
    chk!(parse(&before, false).is_some());
    let b = ok!(e.into_inner());
    chk!(same(&b[..before.len()], &before));
    chk!(b.len() == before.len() + 1);
    chk!(b[before.len()] == 0x3B);
    obs_bytes(&a); obs_bytes(&b);
    cover(1);
}
