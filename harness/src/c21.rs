//! Frame constructors reject inconsistent sizes and keep everything else.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*;

fn check_rest(f: &Frame<'_>, w: u16, h: u16, t: Option<u8>) -> bool {
    let mut d = Frame::default();
    let mut c = and(and(d.delay == 0, d.dispose as u8 == 1), and(not(d.needs_user_input), not(d.interlaced)));
    c = and(c, and(and(d.left == 0, d.top == 0), and(d.width == 0, d.height == 0)));
    c = and(c, and(d.transparent.is_none(), and(d.palette.is_none(), d.buffer.is_empty())));
    d.width = w; d.height = h; d.transparent = t; d.palette = f.palette.clone();
    and(c, same_frame_meta(f, &d))
}
fn opt() -> Option<u8> { if pickb() { Some(any8()) } else { None } }
/// params: pixels, palette bytes
#[no_mangle]
pub extern "C" fn c21_palette() {
    let (w, h) = (any16(), any16());
    let (n, m) = (param(0) as usize, param(1) as usize);
    let (px, pal, t) = (many(n), many(m), opt());
    expect_panic(or(w as usize * h as usize != n, m > 768));
    let f = Frame::from_palette_pixels(w, h, px.clone(), pal.clone(), t);
    expect_panic(false);
    chk!(check_rest(&f, w, h, t));
    chk!(same(&f.buffer, &px));
    chk!(match &f.palette { Some(p) => same(p, &pal), None => false });
    obs_frame(&f);
    cover(1);
}
/// param: pixels
#[no_mangle]
pub extern "C" fn c21_indexed() {
    let (w, h) = (any16(), any16());
    let n = param(0) as usize;
    let (px, t) = (many(n), opt());
    expect_panic(w as usize * h as usize != n);
    let f = Frame::from_indexed_pixels(w, h, px.clone(), t);
    expect_panic(false);
    chk!(check_rest(&f, w, h, t));
    chk!(same(&f.buffer, &px));
    chk!(f.palette.is_none());
    obs_frame(&f);
    cover(1);
}
/// RGB(A) data of any number of bytes; params: bytes, way (0 from_rgba, 1 from_rgba_speed, 2 from_rgb, 3 from_rgb_speed), channels as given
#[no_mangle]
pub extern "C" fn c21_rgb() {
    let (w, h) = (any16(), any16());
    let n = param(0) as usize;
    let way = param(1);
    let mut px: Vec<u8> = (0..n).map(|i| (i * 3) as u8).collect();
    let speed = any(32) as u32 as i32;
    let ch = if way < 2 { 4 } else { 3 };
    let mut bad = w as usize * h as usize * ch != n;
    if way % 2 == 1 { bad = or(bad, or(speed < 1, speed > 30)) }
    expect_panic(bad);
    let f = match way { 0 => Frame::from_rgba(w, h, &mut px), 1 => Frame::from_rgba_speed(w, h, &mut px, speed), 2 => Frame::from_rgb(w, h, &px), _ => Frame::from_rgb_speed(w, h, &px, speed) };
    expect_panic(false);
    chk!(and(f.width == w, f.height == h));
    chk!(f.buffer.len() == n / ch);
    chk!(f.palette.is_some());
    obs_frame(&f);
    cover(1);
}
/// large sizes; params: width, height, pixels
#[no_mangle]
pub extern "C" fn c21_large() {
    let (w, h) = (param(0) as u16, param(1) as u16);
    let n = param(2) as usize;
    let t = opt();
    let px = vec![3; n];
    expect_panic(w as usize * h as usize != n);
    let f = if pickb() { Frame::from_indexed_pixels(w, h, px, t) } else { Frame::from_palette_pixels(w, h, px, bytes(6), t) };
    expect_panic(false);
    chk!(check_rest(&f, w, h, t));
    chk!(f.buffer.len() == n);
    cover(1);
}
