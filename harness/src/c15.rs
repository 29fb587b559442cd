//! Pixels survive encoding and decoding.
use crate::h::*; use crate::util::*;
use gif::*;

fn pal(n: usize) -> Vec<u8> { (0..n * 3).map(|i| (i * 5) as u8).collect() }
/// encodes the frames (w, h, pixels, interlaced) with one encoder, decodes and compares; pre: compressed beforehand
fn round(frames: &[(u16, u16, Vec<u8>)], colours: usize, pre: bool) { round_local(frames, colours, 0, pre) }
/// the same, with local palettes
fn round_local(frames: &[(u16, u16, Vec<u8>)], colours: usize, local: usize, pre: bool) {
    let mut out = vec![];
    {
        let mut e = ok!(Encoder::new(&mut out, 9, 9, &pal(colours)));
        for (w, h, px) in frames {
            let mut f = Frame::default();
            f.width = *w; f.height = *h;
            let b = px.clone();
            f.buffer = b.into();
            if local > 0 { f.palette = Some(pal(local)) }
            if pre { f.make_lzw_pre_encoded(); ok!(e.write_lzw_pre_encoded_frame(&f)) } else { ok!(e.write_frame(&f)) }
        }
    }
    let mut o = opts(ENDCODE);
    o.set_memory_limit(MemoryLimit::Unlimited);
    let mut dec = ok!(o.read_info(&out[..]));
    for (w, h, px) in frames {
        let f = some!(ok!(dec.read_next_frame()));
        chk!(and(f.width == *w, f.height == *h));
        let n = *w as usize * *h as usize;
        chk!(same(&f.buffer, &px[..n]));
        obs_bytes(&f.buffer);
    }
    chk!(ok!(dec.read_next_frame()).is_none());
    cover(1);
}
/// any pixels, also without a colour; params: width, height, bits per pixel, compressed beforehand, colours (0: 256), colours of the local palette (0: none)
#[no_mangle]
pub extern "C" fn c15_any() {
    let (w, h) = (param(0) as u16, param(1) as u16);
    let n = if param(4) == 0 { 256 } else { param(4) as usize };
    round_local(&[(w, h, vals(w as usize * h as usize, param(2) as u32))], n, param(5) as usize, param(3) == 1);
}
/// any three values of 0..256 in a frame, the largest of which decides the code size
#[no_mangle]
pub extern "C" fn c15_values() {
    let a = [0u8, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129, 254, 255];
    let p: Vec<u8> = (0..param(0)).map(|_| a[pick(18) as usize]).collect();
    round(&[(p.len() as u16, 1, p)], 256, param(1) == 1);
}
/// long frames in patterns that build up the table, with arbitrary pixels at selected places
/// params: pixels, values, pattern, arbitrary pixels
#[no_mangle]
pub extern "C" fn c15_long() {
    let (n, v, pat) = (param(0) as usize, param(1) as u32, param(2));
    let mut px: Vec<u8> = match pat {
        0 => vec![(v - 1) as u8; n],
        1 => (0..n).map(|i| (i as u32 % v) as u8).collect(),
        2 => noise(n, 77, v),
        3 => (0..n).map(|i| ((i / 3) as u32 % v) as u8).collect(),
        // slowly varying
        4 => { let s = noise(n, 5, 3); let mut x = 0u32; s.iter().map(|d| { x = (x + *d as u32 + v - 1) % v; x as u8 }).collect() }
        // no repetition: all pairs once
        _ => { let mut o = vec![]; 'a: for a in 0..v { for b in 0..v { o.push(a as u8); o.push(b as u8); if o.len() >= n { break 'a } } } o.resize(n, 0); o }
    };
    let c = param(3) as usize;
    for i in 0..c { let at = (i + 1) * n / (c + 1); px[at] = below(v as u64, 9) as u8 }
    let w = 50.min(n);
    px.truncate(n / w * w);
    round(&[(w as u16, (n / w) as u16, px)], 256, false);
}
/// sequences of frames of different sizes and values in one encoder; params: frames, compressed beforehand
#[no_mangle]
pub extern "C" fn c15_seq() {
    let mut v = vec![];
    for _ in 0..param(0) {
        v.push(match pick(7) {
            0 => (0, 5, vec![]), 1 => (5, 0, vec![]), 2 => (1, 1, vec![any(1) as u8 * 255]), 3 => (2, 2, vec![3, 3, 3, 3]),
            4 => (300, 1, noise(300, 3, 256)), 5 => (3, 1, vec![any(2) as u8, 0, 1]), _ => (10, 10, vec![0; 100]),
        });
    }
    round(&v, 256, param(1) == 1);
}
/// pixels beyond width*height do no harm; params: extra
#[no_mangle]
pub extern "C" fn c15_extra() {
    let mut px = vals(3, 2);
    px.extend_from_slice(&noise(param(0) as usize, 9, 256));
    round(&[(3, 1, px), (1, 1, vec![1])], 256, false);
}
/// one colour, or few long runs of colours; params: width, height, runs, bits per pixel, compressed beforehand
#[no_mangle]
pub extern "C" fn c15_plain() {
    let (w, h) = (param(0) as u16, param(1) as u16);
    let n = w as usize * h as usize;
    let v = [0u8, 1, ((1u16 << param(3)) - 1) as u8][pick(3) as usize];
    let px: Vec<u8> = (0..n).map(|i| if i * param(2) as usize / n % 2 == 0 { v } else { v ^ 1 }).collect();
    round(&[(w, h, px), (1, 1, vec![any(1) as u8])], 256, param(4) == 1);
}
/// frame sizes; params: width, height (concrete pixels)
#[no_mangle]
pub extern "C" fn c15_size() {
    let (w, h) = (param(0) as u16, param(1) as u16);
    let n = w as usize * h as usize;
    let mut px = noise(n, 4, 5);
    if n > 0 { px[n - 1] = any(2) as u8; px[n / 2] = any(2) as u8 }
    round(&[(w, h, px)], 8, false);
}
/// one colour with a single pixel of another; params: width, height, where (of 1000), compressed beforehand
#[no_mangle]
pub extern "C" fn c15_spot() {
    let (w, h) = (param(0) as u16, param(1) as u16);
    let n = w as usize * h as usize;
    let mut px = vec![pick(2) as u8; n];
    px[(n - 1) * param(2) as usize / 1000] = [2u8, 3, 4, 9, 128, 255][pick(6) as usize];
    round(&[(w, h, px), (1, 1, vec![any(1) as u8])], 256, param(3) == 1);
}
