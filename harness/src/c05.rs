//! Image data is decompressed in order and rows end up where they belong.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*;

fn image(w: u16, h: u16, il: bool, m: u8, z: &[u8], sub: usize) -> Vec<u8> {
    let mut g = G::new(w, h, 1, 0);
    g.desc(0, 0, w, h, if il { 0x40 } else { 0 }).data(m, z, sub);
    g.end()
}
/// read with `read_next_frame` (0) or `read_into_buffer` into a larger buffer (1), and compare
fn expect(d: &[u8], px: &[u8], w: u16, h: u16, how: u64) {
    let mut dec = ok!(DecodeOptions::new().read_info(d));
    if how == 0 {
        let f = some!(ok!(dec.read_next_frame()));
        chk!(and(f.width == w, f.height == h));
        chk!(!f.interlaced);
        chk!(same(&f.buffer, px));
        obs_bytes(&f.buffer);
    } else {
        some!(ok!(dec.next_frame_info()));
        let mut b = vec![0xEE; px.len() + 3];
        ok!(dec.read_into_buffer(&mut b));
        chk!(same(&b[..px.len()], px));
        chk!(same(&b[px.len()..], &[0xEE; 3]));
        obs_bytes(&b);
    }
    chk!(ok!(dec.next_frame_info()).is_none());
}
/// params: width, height, interlaced, sub-block size, minimum code size, access
#[no_mangle]
pub extern "C" fn c05_rows() {
    let (w, h, il) = (param(0) as u16, param(1) as u16, param(2) == 1);
    let m = param(4) as u8;
    let n = w as usize * h as usize;
    // symbolic pixels, at most about 400 of them
    let px: Vec<u8> = (0..n).map(|i| if n <= 400 || i % (n / 300) == 0 { any(m.min(8) as u32) as u8 } else { (i % (1 << m)) as u8 }).collect();
    let d = image(w, h, il, m, &lzw_literals(m, &px, pickb()), param(3) as usize);
    let want = if il { deinterlace(&px, w as usize, h as usize) } else { px };
    expect(&d, &want, w, h, param(5));
    cover(1);
}
/// all heights up to a bound; params: width, first height, number of heights
#[no_mangle]
pub extern "C" fn c05_heights() {
    let w = param(0) as u16;
    let h = (param(1) + pick(param(2))) as u16;
    let n = w as usize * h as usize;
    // of tall images not every third pixel is symbolic
    let k = 3.max(n / 300);
    let px: Vec<u8> = (0..n).map(|i| if i % k == 0 { any(3) as u8 } else { (i * 5 / 3 % 8) as u8 }).collect();
    let d = image(w, h, true, 3, &lzw_literals(3, &px, true), 255);
    expect(&d, &deinterlace(&px, w as usize, h as usize), w, h, 0);
    cover(1);
}
/// LZW streams that reference the table; the code sequence is explored, the literals are symbolic
/// params: minimum code size, number of codes, sub-block size
#[no_mangle]
pub extern "C" fn c05_table() {
    let m = param(0) as u8;
    let mut l = Lzw::new(m);
    for _ in 0..param(1) {
        let r = l.refs() as u64;
        let k = pick(r + 2);
        if k == 0 { l.lit(any(m as u32) as u8) } else if k == 1 { l.clear() } else { l.refer(k as usize - 2) }
    }
    let (z, px) = l.end(pickb());
    if px.is_empty() { return }
    let d = image(px.len() as u16, 1, false, m, &z, param(2) as usize);
    expect(&d, &px, px.len() as u16, 1, 0);
    cover(1);
}
/// long streams: code width growth to 12 bits, a full table, references of all kinds, clears
/// params: minimum code size, codes, pattern, sub-block size
#[no_mangle]
pub extern "C" fn c05_long() {
    let m = param(0) as u8;
    let pat = param(2);
    let mut l = Lzw::new(m);
    let mut s = 12345u32;
    for i in 0..param(1) {
        s ^= s << 13; s ^= s >> 17; s ^= s << 5;
        let r = l.refs();
        let lit = match pat { 0 => true, 1 => s % 3 != 0, 2 => s % 7 == 0, _ => s % 2 == 0 };
        if pat == 3 && i % 700 == 699 { l.clear() }
        else if lit || r == 0 || l.px.len() > 20000 { if i % 16 == 0 && (m < 7 || pat == 0 || i < 80) { l.lit(any(m.min(8) as u32) as u8) } else { l.lit((s >> 8) as u8) } }
        else { l.refer(if s % 5 == 0 { r - 1 } else { (s >> 9) as usize % r }) }
    }
    let (z, mut px) = l.end(true);
    // a frame of full rows
    let w = 64u16;
    let h = (px.len() / 64) as u16;
    px.truncate(64 * h as usize);
    let il = pickb();
    let want = if il { deinterlace(&px, 64, h as usize) } else { px };
    let d = image(w, h, il, m, &z, param(3) as usize);
    expect(&d, &want, w, h, 0);
    cover(1);
}
/// sub-blocks of any sizes, also of length one; params: pixels, blocks picked
#[no_mangle]
pub extern "C" fn c05_blocks() {
    let n = param(0) as usize;
    let px = vals(n, 2);
    let z = lzw_literals(2, &px, true);
    let mut g = G::new(1, 1, 1, 0);
    g.desc(0, 0, n as u16, 1, 0).bytes(&[2]);
    let mut r = &z[..];
    for _ in 0..param(1) {
        if r.is_empty() { break }
        let k = 1 + pick(r.len() as u64) as usize;
        g.bytes(&[k as u8]).bytes(&r[..k]);
        r = &r[k..];
    }
    if !r.is_empty() { g.bytes(&[r.len() as u8]).bytes(r); }
    g.bytes(&[0]);
    let d = g.end();
    expect(&d, &px, n as u16, 1, 1);
    cover(1);
}
/// repeated clear codes anywhere; params: minimum code size, pixels, clear codes at each place (picked up to), sub-block size
#[no_mangle]
pub extern "C" fn c05_clears() {
    let m = param(0) as u8;
    let mut l = Lzw::new(m);
    let px = vals(param(1) as usize, m as u32);
    for &p in &px { for _ in 0..pick(param(2)) { l.clear() } l.lit(p) }
    for _ in 0..pick(3) { l.clear() }
    let (z, _) = l.end(pickb());
    let d = image(px.len() as u16, 1, false, m, &z, param(3) as usize);
    expect(&d, &px, px.len() as u16, 1, 0);
    cover(1);
}
