//! The low-level decoder reports the stream's structure in order and without loss.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::streaming_decoder::*;

/// what the events have to look like; state of the protocol
#[derive(Default)]
pub struct Mon { st: u32, pub header: bool, pub trailer: bool, in_ext: bool, in_img: bool, meta: bool, pub ends: u64, pub imgs: u64, finished: bool }
impl Mon {
    /// st: 0 start, 1 background seen, 2 palette seen
    fn step(&mut self, e: &Decoded, room: usize) -> bool {
        if self.trailer { return ev(e) == 0 }
        match e {
            Decoded::Nothing => true,
            Decoded::BackgroundColor(_) => { let ok = self.st == 0; self.st = 1; ok }
            Decoded::GlobalPalette(_) => { let ok = self.st == 1; self.st = 2; ok }
            Decoded::HeaderEnd => { let ok = self.st == 2 && !self.header && !self.in_img; self.header = true; self.in_ext = false; ok }
            Decoded::BlockStart(Block::Image) => { let ok = self.header && !self.in_img; self.in_img = true; self.meta = false; self.imgs += 1; self.in_ext = false; ok }
            Decoded::BlockStart(Block::Trailer) => { let ok = self.header && !self.in_img; self.trailer = true; ok }
            Decoded::BlockStart(Block::Extension) => { let ok = self.st == 2 && !self.in_img; self.in_ext = true; self.finished = false; ok }
            Decoded::SubBlockFinished(_) => self.in_ext && !self.finished,
            Decoded::BlockFinished(_) => { let ok = self.in_ext && !self.finished; self.finished = true; ok }
            Decoded::Repetitions(_) => self.in_ext && self.finished,
            Decoded::FrameMetadata(_) => { let ok = self.in_img && !self.meta; self.meta = true; ok }
            Decoded::BytesDecoded(n) => self.in_img && self.meta && n.get() <= room,
            Decoded::LzwDataCopied(_) => false,
            Decoded::DataEnd => { let ok = self.in_img && self.meta; self.in_img = false; self.ends += 1; ok }
            _ => false,
        }
    }
}
/// runs the decoder over `d` in pieces of `step` bytes, with output slices of `room` bytes (0: none); checks the protocol
/// and that exactly the announced bytes are written; returns (pixels, extensions as (label, data, sub-block boundaries), ok)
pub fn run(d: &[u8], step: usize, room: usize) -> Option<(Vec<u8>, Vec<(u8, Vec<u8>, Vec<usize>)>, Mon, bool)> {
    let mut s = StreamingDecoder::new();
    let mut m = Mon::default();
    let mut px = vec![]; let mut exts = vec![]; let mut cuts = vec![];
    let mut p = 0;
    let mut idle = 0;
    while p < d.len() {
        let mut b = vec![0xA5u8; room];
        let end = (p + step).min(d.len());
        let r = { let mut w = if room > 0 { OutputBuffer::Slice(&mut b) } else { OutputBuffer::None }; s.update(&d[p..end], &mut w) };
        let (c, e) = match r { Ok(x) => x, Err(e) => { obs(errcode(&e)); return Some((px, exts, m, false)) } };
        chk!(c <= end - p);
        // no event, no progress: an endless loop for the caller
        if c == 0 { if let Decoded::BytesDecoded(_) = e { idle = 0 } else { idle += 1 } chk!(idle < 9); chk!(ev(&e) != 0) } else { idle = 0 }
        p += c;
        obs(ev(&e));
        let good = m.step(&e, room);
        chk!(good);
        match &e {
            Decoded::BytesDecoded(n) => { px.extend_from_slice(&b[..n.get()]); }
            Decoded::BlockStart(Block::Extension) => { cuts = vec![] }
            Decoded::SubBlockFinished(id) => { let (l, x, fin) = s.last_ext(); chk!(l.0 == id.0); chk!(!fin); cuts.push(x.len()) }
            Decoded::BlockFinished(id) => { let (l, x, fin) = s.last_ext(); chk!(l.0 == id.0); chk!(fin); exts.push((l.0, x.to_vec(), cuts.clone())) }
            _ => {}
        }
    }
    Some((px, exts, m, true))
}
/// valid streams; params: extensions before the first image, images, step, room
#[no_mangle]
pub extern "C" fn c12_valid() {
    let mut g = G::new(any16(), any16(), pick(2) as u8, 0);
    let mut want: Vec<(u8, Vec<u8>, Vec<usize>)> = vec![];
    fn ext(g: &mut G, want: &mut Vec<(u8, Vec<u8>, Vec<usize>)>) {
        let (label, sizes): (u8, &[usize]) = [(0xFE, &[1usize, 3, 2][..]), (0xFF, &[11, 3]), (0x01, &[4]), (0xFE, &[]), (0xFF, &[11, 2, 1, 5])][pick(5) as usize];
        let blocks: Vec<Vec<u8>> = sizes.iter().map(|&n| bytes(n)).collect();
        let r: Vec<&[u8]> = blocks.iter().map(|x| &x[..]).collect();
        g.ext(label, &r);
        // length of the first block, then all data
        let mut x = vec![sizes.first().map_or(0, |&n| n as u8)]; let mut cuts = vec![];
        for (i, b) in blocks.iter().enumerate() { if i > 0 { cuts.push(x.len()) } x.extend_from_slice(b) }
        want.push((label, x, cuts));
    }
    for _ in 0..param(0) { ext(&mut g, &mut want) }
    let mut px = vec![];
    for i in 0..param(1) {
        if pickb() { let (f, d, t) = (any8(), any16(), any8()); g.gce(f, d, t); want.push((0xF9, vec![4, f, d as u8, (d >> 8) as u8, t], vec![])) }
        let k = [3u16, 0, 1][i as usize % 3];
        let p = vals(k as usize, 2);
        g.desc(any16(), any16(), k, 1, if i == 1 { 0x80 } else { 0 });
        if i == 1 { g.bytes(&bytes(6)); }
        // sometimes without any data, sometimes cut into single bytes
        match pick(3) { 0 => { g.data(2, &lzw_literals(2, &p, true), 255); px.extend_from_slice(&p) } 1 => { g.data(2, &lzw_literals(2, &p, p.is_empty()), 1); px.extend_from_slice(&p) } _ => { g.data(2, &[], 255); } }
        if i == 0 && param(1) > 1 { ext(&mut g, &mut want) }
    }
    let d = g.end();
    let (p, e, m, ok) = some!(run(&d, param(2) as usize, param(3) as usize));
    chk!(ok);
    chk!(m.trailer && m.header && m.ends == param(1) && m.imgs == param(1));
    chk!(e.len() == want.len());
    for (a, b) in e.iter().zip(&want) { chk!(a.0 == b.0); chk!(same(&a.1, &b.1)); chk!(a.2 == b.2); obs_bytes(&a.1) }
    if param(3) > 0 { chk!(same(&p, &px)); obs_bytes(&p) } else { chk!(p.is_empty()) }
    cover(1);
}
/// arbitrary bytes; params: prefix, symbolic bytes, step, room
#[no_mangle]
pub extern "C" fn c12_raw() {
    let mut d = crate::c01::prefix(param(0));
    d.extend_from_slice(&bytes(param(1) as usize));
    let (px, e, m, ok) = some!(run(&d, param(2) as usize, param(3) as usize));
    obs_bytes(&px); obs(e.len() as u64);
    chk!(m.ends <= m.imgs);
    if ok { cover(1) } else { cover(2) }
}
/// the frame's description is available with its metadata event; params: step
#[no_mangle]
pub extern "C" fn c12_frame() {
    let mut g = G::new(3, 3, 1, 0);
    let (fl, dl, t) = (any8(), any16(), any8());
    g.gce(fl, dl, t);
    let (l, tp, w, h) = (any16(), any16(), any16(), any16());
    let il = any8() & 0x40;
    let p = bytes(12);
    let m = 1 + pick(11) as u8;
    g.desc(l, tp, w, h, 0x81 | il).bytes(&p).bytes(&[m, 0]);
    let d = g.end();
    let mut s = StreamingDecoder::new();
    let mut at = 0; let mut seen = false;
    while at < d.len() {
        let end = (at + param(0) as usize).min(d.len());
        let (c, e) = ok!(s.update(&d[at..end], &mut OutputBuffer::None));
        at += c;
        if let Decoded::FrameMetadata(x) = e {
            chk!(matches!(x, FrameDataType::Pixels));
            let f = s.current_frame();
            chk!(and(and(f.left == l, f.top == tp), and(f.width == w, f.height == h)));
            chk!(f.interlaced == (il != 0));
            chk!(and(f.delay == dl, f.needs_user_input == (fl & 2 != 0)));
            chk!(same_opt(f.transparent, if fl & 1 != 0 { Some(t) } else { None }));
            chk!(same(f.palette.as_ref().unwrap(), &p));
            obs_frame(f);
            seen = true;
        }
    }
    chk!(seen);
    cover(1);
}
