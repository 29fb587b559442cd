//! RGBA output is the palette lookup of the indexed output.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*;

/// params: global exponent (0 none), local exponent (0 none), code size, width, height, interlaced, access
#[no_mangle]
pub extern "C" fn c06_lookup() {
    let (gp, lp, m) = (param(0), param(1), param(2) as u8);
    let (w, h, il) = (param(3) as u16, param(4) as u16, param(5) == 1);
    let n = w as usize * h as usize;
    let mut g = G { o: b"GIF89a".to_vec(), gct: 0, exts: vec![] };
    g.screen(9, 9, if gp > 0 { 0x80 | (gp as u8 - 1) } else { 0 }, 0, 0);
    let gpal = if gp > 0 { many(3 << gp) } else { vec![] };
    g.bytes(&gpal);
    let tr = pickb();
    let t = any8();
    if tr { g.gce(1 | any8() & 0xFE, 0, t); } else if pickb() { g.gce(any8() & 0xFE, 0, t); }
    g.desc(0, 0, w, h, if lp > 0 { 0x80 | (lp as u8 - 1) } else { 0 } | if il { 0x40 } else { 0 });
    let lpal = if lp > 0 { many(3 << lp) } else { vec![] };
    g.bytes(&lpal);
    let px = vals(n, m as u32);
    g.data(m, &lzw_literals(m, &px, true), 255);
    let d = g.end();
    let pal = if lp > 0 { &lpal } else { &gpal };
    let src = if il { deinterlace(&px, w as usize, h as usize) } else { px.clone() };
    let t = if tr { Some(t) } else { None };
    let mut dec = ok!(opts(RGBA).read_info(&d[..]));
    if gp == 0 && lp == 0 {
        cover(1);
        match dec.read_next_frame() { Err(DecodingError::Format(_)) => {} _ => { unreachable_chk!() } }
        return;
    }
    cover(2);
    match param(6) {
        0 => {
            let f = some!(ok!(dec.read_next_frame()));
            let want = rgba(&src, pal, t);
            chk!(same(&f.buffer, &want));
            obs_bytes(&f.buffer);
        }
        1 => {
            some!(ok!(dec.next_frame_info()));
            chk!(dec.buffer_size() == 4 * n);
            let mut b = vec![0xC3; 4 * n];
            ok!(dec.read_into_buffer(&mut b));
            chk!(same(&b, &rgba(&src, pal, t)));
            obs_bytes(&b);
        }
        _ => {
            // rows one at a time, in the order of transmission
            some!(ok!(dec.next_frame_info()));
            let want = rgba(&px, pal, t);
            for y in 0..h as usize {
                let mut b = vec![0xC3; 4 * w as usize];
                chk!(ok!(dec.fill_buffer(&mut b)));
                chk!(same(&b, &want[y * b.len()..][..b.len()]));
                obs_bytes(&b);
            }
        }
    }
    chk!(match dec.palette() { Ok(p) => same(p, pal), Err(_) => false });
}
/// several frames: local and global palettes alternate, transparency is per frame
#[no_mangle]
pub extern "C" fn c06_frames() {
    let mut g = G::new(2, 1, 2, 0);
    let gpal = g.o[13..].to_vec();
    let mut want = vec![];
    for i in 0..param(0) {
        let lp = pickb();
        let tr = pickb();
        let t = any(3) as u8;
        if tr { g.gce(1, 0, t); } else if i == 1 { g.gce(0, 5, t); }
        g.desc(0, 0, 2, 1, if lp { 0x80 } else { 0 });
        let lpal = if lp { bytes(6) } else { vec![] };
        g.bytes(&lpal);
        let px = vals(2, 3);
        g.data(3, &lzw_literals(3, &px, true), 255);
        want.push((px, if lp { lpal } else { gpal.clone() }, if tr { Some(t) } else { None }));
    }
    let d = g.end();
    let dec = ok!(opts(RGBA).read_info(&d[..]));
    let mut n = 0;
    for f in dec {
        let f = ok!(f);
        let (px, pal, t) = &want[n];
        chk!(same(&f.buffer, &rgba(px, pal, *t)));
        obs_bytes(&f.buffer);
        n += 1;
    }
    chk!(n == want.len());
    cover(1);
}
/// all 256 entries of a full palette are reachable and distinct from each other, larger images
/// params: width, height, interlaced
#[no_mangle]
pub extern "C" fn c06_big() {
    let (w, h, il) = (param(0) as u16, param(1) as u16, param(2) == 1);
    let n = w as usize * h as usize;
    let pal: Vec<u8> = (0..768).map(|i| ((i * 7919) >> 3) as u8).collect();
    let mut l = Lzw::new(8);
    let t = any8();
    for i in 0..n { l.lit(if i % 61 == 7 { any8() } else { (i * 3) as u8 }) }
    let (z, px) = l.end(true);
    let mut g = G::new(1, 1, 3, 0);
    g.gce(1, 0, t).desc(0, 0, w, h, 0x87 | if il { 0x40 } else { 0 }).bytes(&pal).data(8, &z, 255);
    let d = g.end();
    let src = if il { deinterlace(&px, w as usize, h as usize) } else { px };
    let mut dec = ok!(opts(RGBA).read_info(&d[..]));
    let f = some!(ok!(dec.read_next_frame()));
    let want = rgba(&src, &pal, Some(t));
    chk!(f.buffer.len() == want.len());
    for (a, b) in f.buffer.chunks(64).zip(want.chunks(64)) { chk!(same(a, b)) }
    cover(1);
}
