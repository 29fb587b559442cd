//! RGB and RGBA conversion is lossless up to 256 colours.
use crate::h::*; use crate::util::*;
use gif::*;

/// checks a frame made of RGBA pixels
fn frame_ok(f: &Frame<'_>, w: u16, h: u16, px: &[u8]) -> bool {
    let n = px.len() / 4;
    let mut c = and(f.width == w, f.height == h);
    c = and(c, and(f.delay == 0, f.dispose as u8 == 1));
    c = and(c, and(not(f.needs_user_input), not(f.interlaced)));
    c = and(c, and(f.left == 0, f.top == 0));
    c = and(c, f.buffer.len() == n);
    let Some(p) = &f.palette else { return false };
    if p.len() % 3 != 0 || f.buffer.len() != n { return false }
    let colours = p.len() / 3;
    let mut any_clear = false;
    for (i, x) in px.chunks_exact(4).enumerate() {
        let k = f.buffer[i];
        let clear = x[3] == 0;
        any_clear = or(any_clear, clear);
        let mut found = clear;
        let mut inside = false;
        for j in 0..colours {
            let here = k as usize == j;
            inside = or(inside, here);
            found = or(found, and(here, and(p[j * 3] == x[0], and(p[j * 3 + 1] == x[1], p[j * 3 + 2] == x[2]))));
        }
        c = and(c, and(found, inside));
        let t = match f.transparent { Some(t) => t == k, None => false };
        c = and(c, iff(clear, t));
    }
    c = and(c, iff(any_clear, f.transparent.is_some()));
    // every palette entry is used, and no colour occurs twice
    for j in 0..colours {
        let mut used = false;
        for &k in f.buffer.iter() { used = or(used, k as usize == j) }
        c = and(c, used);
        for i in 0..j {
            let eq = and(p[i * 3] == p[j * 3], and(p[i * 3 + 1] == p[j * 3 + 1], p[i * 3 + 2] == p[j * 3 + 2]));
            // only the transparent entry may have the colour of another
            let tr = match f.transparent { Some(t) => or(t as usize == i, t as usize == j), None => false };
            c = and(c, or(not(eq), tr));
        }
    }
    c
}
/// any pixels; params: width, height, channels (3, 4), speed (0: default)
#[no_mangle]
pub extern "C" fn c20_any() {
    let (w, h) = (param(0) as u16, param(1) as u16);
    let n = w as usize * h as usize;
    let f;
    let mut px;
    if param(2) == 4 {
        px = bytes(n * 4);
        let mut arg = px.clone();
        f = if param(3) == 0 { Frame::from_rgba(w, h, &mut arg) } else { Frame::from_rgba_speed(w, h, &mut arg, param(3) as i32) };
    } else {
        let rgb = bytes(n * 3);
        px = vec![];
        for x in rgb.chunks_exact(3) { px.extend_from_slice(x); px.push(255) }
        f = if param(3) == 0 { Frame::from_rgb(w, h, &rgb) } else { Frame::from_rgb_speed(w, h, &rgb, param(3) as i32) };
    }
    chk!(frame_ok(&f, w, h, &px));
    obs_bytes(&f.buffer); obs_bytes(f.palette.as_ref().unwrap()); obs(f.transparent.map_or(256, |t| t as u64));
    cover(1);
    if f.transparent.is_some() { cover(2) }
}
/// many colours, up to the limit of 256; params: distinct opaque colours, arbitrary pixels, channels, only the alpha of these is arbitrary, further pixels of the same colours
#[no_mangle]
pub extern "C" fn c20_many() {
    let (n, a, ch) = (param(0) as usize, param(1) as usize, param(2) as usize);
    let mut px = vec![];
    for i in 0..n { px.extend_from_slice(&[(i * 7) as u8, i as u8, (i / 3) as u8, 255 - (i % 3) as u8]) }
    for i in 0..a { px.extend_from_slice(&[if param(3) == 1 { (i * 31 * 7) as u8 } else { any8() }, (i * 31) as u8, (i * 31 / 3) as u8, if ch == 3 { 255 } else { any8() }]) }
    let more = param(4) as usize;
    for i in 0..more { let k = i * 5 % n; px.extend_from_slice(&[(k * 7) as u8, k as u8, (k / 3) as u8, 200 - (i % 50) as u8]) }
    if ch == 3 { for x in px.chunks_exact_mut(4) { x[3] = 255 } }
    let w = (n + a + more) as u16;
    let f;
    if ch == 3 {
        let rgb: Vec<u8> = px.chunks_exact(4).flat_map(|x| [x[0], x[1], x[2]]).collect();
        f = Frame::from_rgb(w, 1, &rgb);
    } else { let mut arg = px.clone(); f = Frame::from_rgba_speed(1, w, &mut arg, 30) }
    let (fw, fh) = if ch == 3 { (w, 1) } else { (1, w) };
    // colours are the index order of the palette: cheap check for many of them
    chk!(and(f.width == fw, f.height == fh));
    let p = some!(&f.palette);
    chk!(f.buffer.len() == n + a + more);
    let mut clear = false;
    for (i, x) in px.chunks_exact(4).enumerate() {
        let k = f.buffer[i] as usize;
        let k = conc(k as u64) as usize;
        chk!(k * 3 + 3 <= p.len());
        let cl = x[3] == 0;
        clear = or(clear, cl);
        chk!(or(cl, same(&p[k * 3..][..3], &x[..3])));
        chk!(iff(cl, f.transparent == Some(k as u8)));
    }
    chk!(iff(clear, f.transparent.is_some()));
    obs_bytes(&f.buffer); obs_bytes(p);
    cover(1);
}
