//! Skipped or partly read frames do not disturb the following ones.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*;

/// image data of `px` with something superfluous: 0 nothing, 1 more pixels, 2 bytes after the end code, 3 sub-blocks after the end code,
/// 4 no end code, 5 clear codes and more pixels, 6 invalid code after the pixels, 7 one byte sub-blocks and more sub-blocks
fn data(g: &mut G, m: u8, px: &[u8], x: u64) {
    let bits = m.min(2) as u32;
    let mut more = px.to_vec();
    match x {
        0 => { g.data(m, &lzw_literals(m, px, true), 255); }
        1 => { more.extend_from_slice(&vals(1 + pick(4) as usize, bits)); g.data(m, &lzw_literals(m, &more, pickb()), 255); }
        2 => { let mut z = lzw_literals(m, px, true); z.extend_from_slice(&bytes(2)); g.data(m, &z, 255); }
        3 => { g.data(m, &lzw_literals(m, px, true), 255); g.o.pop(); g.bytes(&[1, any8(), 2, any8(), any8(), 0]); }
        4 => { g.data(m, &lzw_literals(m, px, false), 255); }
        5 => { let mut l = Lzw::new(m); for &p in px { l.lit(p) } l.clear(); l.clear(); for _ in 0..3 { l.lit(any(bits) as u8) } let (z, _) = l.end(true); g.data(m, &z, 3); }
        6 => { let mut b = Bits::new(); for (i, &p) in px.iter().enumerate() { let w = m as u32 + 1; if m == 1 || i % 2 == 0 { b.put(1 << m, w) } b.put(p as u32, w) } b.put(1 << m, m as u32 + 1); if m == 1 { b.put(any(1) as u32, 2); b.put(5 + any(1) as u32 * 2, 3) } else { b.put(any(1) as u32 + (1 << m) + 2, m as u32 + 1) } b.put(any8() as u32, 8); g.data(m, &b.end(), 255); }
        _ => { g.data(m, &lzw_literals(m, px, true), 1); g.o.pop(); g.bytes(&[1, any8(), 1, any8(), 0]); }
    }
}
fn meta(g: &mut G, w: u16, h: u16, il: bool, local: bool) -> Frame<'static> {
    let mut f = Frame::default();
    f.delay = any16(); f.transparent = Some(any8()); f.dispose = DisposalMethod::Background; f.left = any16(); f.top = any16(); f.width = w; f.height = h; f.interlaced = il;
    g.gce(9, f.delay, f.transparent.unwrap());
    g.desc(f.left, f.top, w, h, if il { 0x40 } else { 0 } | if local { 0x81 } else { 0 });
    if local { let p = bytes(12); g.bytes(&p); f.palette = Some(p) }
    f
}
/// params: options, superfluous data, interlaced, order, code size (0: 2), bytes per read (0: all),
/// bits: second frame interlaced, second frame with palette, third frame with the other interlacing, first frame without palette
#[no_mangle]
pub extern "C" fn c11_next() {
    let (o, x, il) = (param(0), param(1), param(2) == 1);
    let mut g = G::new(9, 9, 2, 0);
    let m = if param(4) == 0 { 2 } else { param(4) as u8 };
    let bits = m.min(2) as u32;
    let p1 = vals(6, bits); let p2 = vals(4, bits); let p3 = vals(4, bits);
    let v = param(6);
    let f1 = meta(&mut g, 3, 2, il, v & 8 == 0); data(&mut g, m, &p1, x);
    let f2 = meta(&mut g, 1, 4, v & 1 != 0, v & 2 != 0); data(&mut g, m, &p2, if param(3) == 1 { x } else { 0 });
    let f3 = meta(&mut g, 1, 4, il != (v & 4 != 0), true); data(&mut g, m, &p3, 0);
    let d = g.end();
    let mut dec = ok!(opts(o).read_info(Src::new(&d, if param(5) == 0 { 10000 } else { param(5) as usize })));
    let gp = dec.global_palette().unwrap().to_vec();
    let bpp = if o & RGBA != 0 { 4 } else { 1 };
    for (i, (f, px)) in [(f1, &p1), (f2, &p2), (f3, &p3)].into_iter().enumerate() {
        let n = f.width as usize * f.height as usize;
        let mut want = if f.interlaced { deinterlace(px, f.width as usize, f.height as usize) } else { px.to_vec() };
        let mut sent = px.to_vec();
        if bpp == 4 { let pal = f.palette.clone().unwrap_or(gp.clone()); want = rgba(&want, &pal, f.transparent); sent = rgba(&sent, &pal, f.transparent) }
        let how = if i == 2 { if pickb() { 3 } else { 5 } } else { pick(6) };
        if how == 4 {
            let r = some!(ok!(dec.read_next_frame()));
            let mut m = f.clone(); m.interlaced = false;
            chk!(same_frame_meta(r, &m)); chk!(same(&r.buffer, &want)); obs_frame(r);
            continue;
        }
        chk!(same_frame_meta(some!(ok!(dec.next_frame_info())), &f));
        obs(dec.buffer_size() as u64);
        match how {
            0 => { cover(1) }
            1 => { cover(2); let k = (1 + pick(n as u64) as usize) * bpp; let mut b = vec![0; k]; chk!(ok!(dec.fill_buffer(&mut b))); chk!(same(&b, &sent[..k])); obs_bytes(&b) }
            2 => { cover(3); for k in 0..2.min(n) { let mut b = vec![0; bpp]; chk!(ok!(dec.fill_buffer(&mut b))); chk!(same(&b, &sent[k * bpp..][..bpp])) } }
            5 => {
                // more is asked for than there is
                let mut b = vec![0; n * bpp];
                chk!(ok!(dec.fill_buffer(&mut b))); chk!(same(&b, &sent)); obs_bytes(&b);
                for k in 0.. {
                    chk!(k < 50);
                    match dec.fill_buffer(&mut b[..bpp]) { Ok(true) => {} Ok(false) => { cover(6); break } Err(_) => { chk!(x == 6 || o & ENDCODE != 0); return } }
                }
            }
            _ => { cover(4); let mut b = vec![0; n * bpp]; ok!(dec.read_into_buffer(&mut b)); chk!(same(&b, &want)); obs_bytes(&b) }
        }
    }
    chk!(ok!(dec.next_frame_info()).is_none());
    cover(5);
}
/// with compressed frames; params: superfluous data, code size, where reads are divided (0: nowhere, 1: at one place, else: pieces of that many bytes)
#[no_mangle]
pub extern "C" fn c11_skip() {
    let mut g = G::new(9, 9, 2, 0);
    let m = param(1) as u8;
    let bits = m.min(2) as u32;
    let p1 = vals(6, bits); let p2 = vals(4, bits);
    let f1 = meta(&mut g, 3, 2, true, true);
    let from = g.o.len();
    data(&mut g, m, &p1, param(0));
    let to = g.o.len();
    let f2 = meta(&mut g, 2, 2, false, false); data(&mut g, m, &p2, 0);
    let d = g.end();
    let mut src = Src::new(&d, if param(2) < 2 { 10000 } else { param(2) as usize });
    if param(2) == 1 { src.cut = from + pick((to - from) as u64) as usize }
    let mut dec = ok!(opts(SKIP).read_info(src));
    if pickb() { chk!(same_frame_meta(some!(ok!(dec.next_frame_info())), &f1)); cover(1) } else { chk!(same_frame_meta(some!(ok!(dec.read_next_frame())), &f1)); cover(2) }
    let f = some!(ok!(dec.read_next_frame()));
    chk!(same_frame_meta(f, &f2));
    let mut z = vec![m]; z.extend_from_slice(&lzw_literals(m, &p2, true));
    chk!(same(&f.buffer, &z));
    obs_frame(f);
    chk!(ok!(dec.read_next_frame()).is_none());
}
/// more data than pixels in bulk: the rest of a large frame is skipped; params: options, code size, codes, sub-block size, pixels wanted
#[no_mangle]
pub extern "C" fn c11_bulk() {
    let m = param(1) as u8;
    let mut l = Lzw::new(m);
    let mut s = 7u32;
    while (l.px.len() as u64) < param(2) {
        s ^= s << 13; s ^= s >> 17; s ^= s << 5;
        let r = l.refs();
        if r == 0 || s % 3 == 0 { l.lit(if s % 64 < 3 { any(m as u32) as u8 } else { (s >> 8) as u8 }) } else { l.refer((s >> 9) as usize % r) }
    }
    let (z, px) = l.end(true);
    let k = param(4) as usize;
    let mut g = G::new(9, 9, m, 0);
    g.desc(0, 0, k as u16, 1, 0).data(m, &z, param(3) as usize);
    let q = vals(2, 2);
    let f2 = meta(&mut g, 2, 1, false, false); data(&mut g, 2, &q, 0);
    let d = g.end();
    let mut dec = ok!(opts(param(0)).read_info(&d[..]));
    some!(ok!(dec.next_frame_info()));
    let part = [0, 1, k / 2, k][pick(4) as usize];
    if part > 0 { let mut b = vec![0; part]; chk!(ok!(dec.fill_buffer(&mut b))); chk!(same(&b, &px[..part])); }
    let f = some!(ok!(dec.read_next_frame()));
    chk!(same_frame_meta(f, &f2)); chk!(same(&f.buffer, &q)); obs_frame(f);
    cover(1);
    chk!(ok!(dec.read_next_frame()).is_none());
}
/// extensions of many sub-blocks between the frames; params: options, sub-blocks, size of each, pixels read of the first frame
#[no_mangle]
pub extern "C" fn c11_blocks() {
    let mut g = G::new(9, 9, 2, 0);
    let a = vals(3, 2);
    let f1 = meta(&mut g, 3, 1, false, false); data(&mut g, 2, &a, 0);
    g.bytes(&[0x21, [0xFE, 0x01, 0xFF][pick(3) as usize]]);
    let b = bytes(param(2) as usize);
    for _ in 0..param(1) { g.bytes(&[param(2) as u8]).bytes(&b); }
    g.bytes(&[0]);
    let q = vals(2, 2);
    let f2 = meta(&mut g, 2, 1, false, false); data(&mut g, 2, &q, 0);
    let d = g.end();
    let mut dec = ok!(opts(param(0)).read_info(Src::new(&d, 100000)));
    chk!(same_frame_meta(some!(ok!(dec.next_frame_info())), &f1));
    let k = param(3) as usize;
    if k > 0 { let mut b = vec![0; k]; chk!(ok!(dec.fill_buffer(&mut b))); chk!(same(&b, &a[..k])) }
    let f = some!(ok!(dec.read_next_frame()));
    chk!(same_frame_meta(f, &f2)); chk!(same(&f.buffer, &q)); obs_frame(f);
    cover(1);
    chk!(ok!(dec.read_next_frame()).is_none());
}
