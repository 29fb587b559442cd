//! Unknown blocks are rejected by default and skipped completely when allowed.
use crate::h::*; use crate::model::*; use crate::util::*;

fn known(b: u8) -> bool { or(b == 0x2C, or(b == 0x21, b == 0x3B)) }
/// parts of a stream with places between them
fn parts(seed: bool) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut g = G::new(4, 4, 1, 0); v.push(std::mem::take(&mut g.o));
    g.netscape(if seed { any16() } else { 5 }); v.push(std::mem::take(&mut g.o));
    g.ext(0xFE, &[b"ab"]); v.push(std::mem::take(&mut g.o));
    g.gce(5, any16(), any8()); v.push(std::mem::take(&mut g.o));
    g.frame(2, 1, 0, 2, &[1, 0]); v.push(std::mem::take(&mut g.o));
    g.gce(8, any16(), any8()); v.push(std::mem::take(&mut g.o));
    g.desc(1, 1, 1, 1, 0x80).bytes(&bytes(6)).data(2, &lzw_literals(2, &[1], true), 1); v.push(std::mem::take(&mut g.o));
    g.ext(0xFF, &[b"abcabcabcab", &[1, 2, 3]]); v.push(std::mem::take(&mut g.o));
    v
}
/// default options: any byte at any place between blocks; params: place 0..8, options, access (0 metadata, 1 pixels)
#[no_mangle]
pub extern "C" fn c23_reject() {
    let at = param(0) as usize;
    let p = parts(false);
    let mut s = vec![];
    for x in &p[..=at] { s.extend_from_slice(x) }
    let b = any8();
    assume(not(known(b)));
    s.push(b);
    s.extend_from_slice(&bytes(2));
    s.extend_from_slice(&[0, 0x3B]);
    let frames = [0, 0, 0, 0, 1, 1, 2, 2][at];
    let r = opts(param(1)).read_info(&s[..]);
    let mut dec = match r { Ok(d) => d, Err(e) => { chk!(frames == 0); chk!(errcode(&e) == 1000); obs(1); return } };
    for _ in 0..frames { some!(ok!(if param(2) == 0 { dec.next_frame_info() } else { dec.read_next_frame() })); }
    match dec.next_frame_info() { Ok(_) => { unreachable_chk!() } Err(e) => { chk!(errcode(&e) == 1000); obs(2) } }
    cover(1);
}
/// blocks of the stream that are known are never rejected as unknown; param: place
#[no_mangle]
pub extern "C" fn c23_known() {
    let at = param(0) as usize;
    let p = parts(true);
    let mut s = vec![];
    for x in &p[..=at] { s.extend_from_slice(x) }
    let b = any8();
    assume(known(b));
    s.push(b);
    if b == 0x21 { s.extend_from_slice(&[0xFE, 0, 0x3B]) } else if b == 0x2C { s.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0x3B]) }
    let frames = [0, 0, 0, 0, 1, 1, 2, 2][at] + (b == 0x2C) as usize;
    let mut dec = ok!(opts(if pickb() { UNKNOWN } else { 0 }).read_info(&s[..]));
    for _ in 0..frames { some!(ok!(dec.next_frame_info())); }
    chk!(ok!(dec.next_frame_info()).is_none());
    cover(1);
}
/// skipped when allowed; params: place 0..8, sub-blocks (0 none, 1 one byte, 2 three bytes, 3 two sub-blocks, 4 255 bytes, 5 looks like a stream, 6 loop extension, 7 control block), how many blocks in a row, options, source step, access (0 pixels, 1 metadata, 2 iterator)
#[no_mangle]
pub extern "C" fn c23_skip() {
    let (at, k, o) = (param(0) as usize, param(1), param(3));
    let p = parts(true);
    let mut plain = vec![]; let mut s = vec![];
    for (i, x) in p.iter().enumerate() {
        plain.extend_from_slice(x); s.extend_from_slice(x);
        if i == at {
            for _ in 0..param(2) {
                let b = any8();
                assume(not(known(b)));
                s.push(b);
                let d: Vec<Vec<u8>> = match k {
                    0 => vec![], 1 => vec![bytes(1)], 2 => vec![bytes(3)], 3 => vec![bytes(2), bytes(1)], 4 => vec![many(255)],
                    5 => vec![{ let mut g = G::new(4, 4, 1, 0); g.netscape(9); g.frame(1, 1, 0, 2, &[1]); let mut v = g.end(); v.truncate(250); v }, bytes(1)],
                    6 => vec![b"NETSCAPE2.0".to_vec(), vec![1, any8(), any8()]],
                    _ => vec![bytes(4)],
                };
                for x in &d { s.push(x.len() as u8); s.extend_from_slice(x) }
                s.push(0);
            }
        }
    }
    plain.push(0x3B); s.push(0x3B);
    let mut a = ok!(opts(o).read_info(&plain[..]));
    let mut b = ok!(opts(o | UNKNOWN).read_info(Src::new(&s, param(4) as usize)));
    chk!(rep(a.repeat()) == rep(b.repeat()));
    chk!(match (a.global_palette(), b.global_palette()) { (Some(x), Some(y)) => same(x, y), _ => false });
    if param(5) == 2 {
        let (x, y): (Vec<_>, Vec<_>) = (a.into_iter().collect(), b.into_iter().collect());
        chk!(x.len() == 2 && y.len() == 2);
        for (x, y) in x.into_iter().zip(y) { let (x, y) = (ok!(x), ok!(y)); chk!(same_frame_meta(&x, &y)); chk!(same(&x.buffer, &y.buffer)); obs_frame(&y) }
        cover(1);
        return;
    }
    for _ in 0..2 {
        let (x, y) = if param(5) == 0 { (ok!(a.read_next_frame()), ok!(b.read_next_frame())) } else { (ok!(a.next_frame_info()), ok!(b.next_frame_info())) };
        let (x, y) = (some!(x), some!(y));
        chk!(same_frame_meta(x, y));
        chk!(same(&x.buffer, &y.buffer));
        obs_frame(y);
    }
    chk!(ok!(a.read_next_frame()).is_none());
    chk!(ok!(b.read_next_frame()).is_none());
    chk!(rep(a.repeat()) == rep(b.repeat()));
    cover(1);
}
