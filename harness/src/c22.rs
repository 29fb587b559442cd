//! The frame consistency option rejects exactly the frames outside the screen.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*;

/// any sizes and positions; params: options, second frame as well, flags of the descriptor (interlaced, local palette)
#[no_mangle]
pub extern "C" fn c22_any() {
    let o = param(0);
    let (sw, sh) = (any16(), any16());
    let mut g = G::new(0, 0, 1, 0);
    g.o[6..10].copy_from_slice(&[sw as u8, (sw >> 8) as u8, sh as u8, (sh >> 8) as u8]);
    let mut fr = vec![];
    let fl = param(2) as u8;
    for _ in 0..1 + param(1) {
        let d = [any16(), any16(), any16(), any16()];
        if pickb() { g.gce(any8() & 0x1F, any16(), any8()); }
        g.desc(d[0], d[1], d[2], d[3], fl & 0xC0);
        if fl & 0x80 != 0 { g.bytes(&bytes(6)); }
        // no pixels are read here
        g.data(2, &[0x4C, 1], 255);
        fr.push(d);
    }
    let s = g.end();
    let mut dec = ok!(opts(o).read_info(&s[..]));
    chk!(and(dec.width() == sw, dec.height() == sh));
    for d in fr {
        let outside = or(d[0] as u32 + d[2] as u32 > sw as u32, d[1] as u32 + d[3] as u32 > sh as u32);
        match dec.next_frame_info() {
            Ok(f) => {
                let f = some!(f);
                if o & CONSIST != 0 { chk!(not(outside)) }
                chk!(and(and(f.left == d[0], f.top == d[1]), and(f.width == d[2], f.height == d[3])));
                obs(1); cover(1);
            }
            Err(e) => { chk!(o & CONSIST != 0); chk!(outside); chk!(errcode(&e) == 1000); obs(2); cover(2); return }
        }
    }
    chk!(ok!(dec.next_frame_info()).is_none());
}
/// frames that are read with their pixels; params: options, width, height, access (0 read_next_frame, 1 iterator, 2 read_into_buffer, 3 skipped by next_frame_info)
#[no_mangle]
pub extern "C" fn c22_read() {
    let (o, w, h, acc) = (param(0), param(1) as u16, param(2) as u16, param(3));
    let (sw, sh, l, t) = (any16(), any16(), any16(), any16());
    let mut g = G::new(0, 0, 1, 0);
    g.o[6..10].copy_from_slice(&[sw as u8, (sw >> 8) as u8, sh as u8, (sh >> 8) as u8]);
    let px = vec![1; w as usize * h as usize];
    g.desc(l, t, w, h, 0);
    let z = lzw_literals(2, &px, true);
    g.data(2, &z, 255);
    let s = g.end();
    let outside = or(l as u32 + w as u32 > sw as u32, t as u32 + h as u32 > sh as u32);
    let mut dec = ok!(opts(o).read_info(&s[..]));
    let r = match acc {
        0 => dec.read_next_frame().map(|f| f.is_some()),
        1 => dec.next_frame().map(|f| f),
        2 => { match dec.next_frame_info() { Ok(_) => { let mut b = vec![0; px.len() * 4]; let n = dec.buffer_size(); dec.read_into_buffer(&mut b[..n]).map(|_| true) } Err(e) => Err(e) } }
        _ => { match dec.next_frame_info() { Ok(_) => dec.next_frame_info().map(|f| f.is_none()), Err(e) => Err(e) } }
    };
    match r {
        Ok(some) => { chk!(some); if o & CONSIST != 0 { chk!(not(outside)) } obs(1); cover(1) }
        Err(e) => { chk!(o & CONSIST != 0); chk!(outside); chk!(errcode(&e) == 1000); obs(2); cover(2) }
    }
}
trait Next { fn next_frame(&mut self) -> Result<bool, DecodingError>; }
impl<R: std::io::Read> Next for Decoder<R> {
    fn next_frame(&mut self) -> Result<bool, DecodingError> { match self.read_next_frame() { Ok(f) => Ok(f.is_some()), Err(e) => Err(e) } }
}
/// the iterator stops after reporting a frame outside; params: width, height
#[no_mangle]
pub extern "C" fn c22_iter() {
    let (sw, sh, l, t) = (any16(), any16(), any16(), any16());
    let (w, h) = (param(0) as u16, param(1) as u16);
    let mut g = G::new(0, 0, 1, 0);
    g.o[6..10].copy_from_slice(&[sw as u8, (sw >> 8) as u8, sh as u8, (sh >> 8) as u8]);
    g.desc(l, t, w, h, 0);
    let z = lzw_literals(2, &vec![1; w as usize * h as usize], true);
    g.data(2, &z, 255);
    let s = g.end();
    let outside = or(l as u32 + w as u32 > sw as u32, t as u32 + h as u32 > sh as u32);
    let dec = ok!(opts(CONSIST).read_info(&s[..]));
    let mut n = 0;
    for f in dec {
        n += 1; chk!(n < 3);
        match f { Ok(f) => { chk!(not(outside)); chk!(and(f.left == l, f.top == t)); obs(1); cover(1) } Err(_) => { chk!(outside); obs(2); cover(2); break } }
    }
    chk!(n == 1);
}
