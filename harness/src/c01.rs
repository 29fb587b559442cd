//! Decoding untrusted bytes never panics, overflows or hangs.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*; use gif::streaming_decoder::*;

/// concrete beginnings that lead into every state of the decoder
pub fn prefix(k: u64) -> Vec<u8> {
    let mut g = G::new(2, 2, if k == 2 || k == 18 { 0 } else { 1 }, 1);
    match k {
        0 => return vec![],
        1 => return b"GIF89a".to_vec(),
        2 | 3 => {}
        4 => { g.bytes(&[0x21]); }
        5 => { g.bytes(&[0x21, 0xF9]); }
        6 => { g.bytes(&[0x21, 0xFF, 11]).bytes(b"NETSCAPE2."); }
        7 => { g.bytes(&[0x21, 0xFF, 11]).bytes(b"NETSCAPE2.0"); }
        8 => { g.bytes(&[0x2C, 0, 0, 0, 0]); }
        9 => { g.desc(0, 0, 2, 2, 0); }
        10 => { g.desc(0, 0, 2, 2, 0x40).bytes(&[2]); }
        11 => { g.desc(1, 0, 3, 1, 0x80).bytes(b"abcde"); }
        12 => { g.frame(2, 1, 0, 2, &[1, 0]); }
        13 => { g.bytes(&[0x99]); }
        14 => { g.frame(1, 1, 0, 2, &[1]).bytes(&[0x3B]); }
        15 => { g.desc(0, 0, 1, 3, 0x40).bytes(&[2, 1, 0x44]); }
        16 => { g.gce(1, 2, 3).desc(0, 0, 2, 1, 0).bytes(&[3, 4, 0x08, 0x10]); }
        17 => { g.desc(0, 0, 0, 3, 0x40).bytes(&[2, 2, 0x4c, 1]); }
        18 => { g.frame(1, 1, 0, 2, &[1]); }
        19 => { g.bytes(&[0x21, 0xF9, 4, 9, 1]); }
        20 => { g.desc(0, 0, 2, 2, 0).bytes(&[11]); }
        21 => { g.bytes(&[0x21, 0xFE, 2, b'x']); }
        22 => { g.bytes(&[0x21, 0xFF, 11]).bytes(b"NETSCAPE2.0").bytes(&[2, 1]); }
        23 => { g.bytes(&[0x21, 0xF9, 4, 9, 1, 0, 1]); }
        24 => { g.bytes(&[0x21, 0xFF, 11]).bytes(b"NETSCAPE2.0").bytes(&[3, 1, 5, 0]); }
        25 => { g.bytes(&[0x99, 1, 7]); }
        27 => { g.bytes(&[0x21, 0xF9, 3, 1, 2]); }
        28 => { g.bytes(&[0x21, 0xF9, 2, 1]); }
        29 => { g.bytes(&[0x21, 0xF9, 5, 1, 2, 3, 4]); }
        30 => { g.bytes(&[0x21, 0xFF, 11]).bytes(b"NETSCAPE2.0").bytes(&[1]); }
        31 => { g.gce(1, 2, 3).bytes(&[0x21, 0xF9, 4, 0, 9, 9, 1, 0]); }
        32 => { g.ext(0xFE, &[b"abc"]).bytes(&[0x21, 0xF9]); }
        _ => return { g.screen(1, 1, 0, 0, 0); g.o.truncate(10); g.o },
    }
    g.o
}

/// params: prefix, symbolic bytes, options
#[no_mangle]
pub extern "C" fn c01_stream() {
    let mut d = prefix(param(0));
    let n = param(1) as usize;
    let o = param(2);
    let start = d.len();
    d.extend_from_slice(&bytes(n));
    let mut op = opts(o);
    op.set_memory_limit(limit(64));
    let mut s = StreamingDecoder::new();
    if o != 0 { s = match mk(op) { Some(s) => s, None => s } }
    let mut p = 0;
    let mut idle = 0;
    let mut buf = [0u8; 5];
    let mut v = Vec::new();
    let mut outs = 0;
    let mut calls = 0;
    while p < d.len() && calls < 60 {
        calls += 1;
        let mode = if p < start { 0 } else if outs < 3 { outs += 1; param(3 + outs) } else { 0 };
        let mut w = match mode { 0 => OutputBuffer::None, 1 => OutputBuffer::Slice(&mut buf[..1]), 2 => OutputBuffer::Vec(&mut v), 3 => OutputBuffer::Slice(&mut buf[..0]), _ => OutputBuffer::Slice(&mut buf) };
        match s.update(&d[p..], &mut w) {
            Ok((c, e)) => {
                chk!(c <= d.len() - p);
                if c == 0 { idle += 1; chk!(ev(&e) != 0) } else { idle = 0 }
                chk!(idle <= 6);
                obs(c as u64); obs(ev(&e));
                if ev(&e) == 0 { cover(1) } else { cover(2) }
                let (id, x, _) = s.last_ext();
                obs(id.0 as u64); obs(x.len() as u64);
                p += c;
            }
            Err(e) => { cover(3); obs(errcode(&e)); p += 1; idle = 0 }
        }
    }
}
/// a streaming decoder with options can only be had through `Decoder`, or with the defaults
fn mk(_o: DecodeOptions) -> Option<StreamingDecoder> { None }

/// params: prefix, symbolic bytes, options, bytes per read, calls
#[no_mangle]
pub extern "C" fn c01_decoder() {
    let mut d = prefix(param(0));
    d.extend_from_slice(&bytes(param(1) as usize));
    let o = param(2);
    let mut op = opts(o);
    if o & UNLIM == 0 { op.set_memory_limit(limit(12)) }
    let src = Src::new(&d, param(3) as usize);
    let mut dec = match op.read_info(src) { Ok(d) => d, Err(e) => { cover(1); obs(errcode(&e)); return } };
    let calls = param(4);
    let mut buf = [7u8; 13];
    for _ in 0..calls {
        let c = pick(8);
        obs(c);
        match c {
            0 => match dec.next_frame_info() { Ok(f) => { cover(2); obs(f.is_some() as u64) } Err(e) => { cover(3); obs(errcode(&e)) } },
            1 => match dec.read_next_frame() { Ok(f) => { cover(4); obs(f.is_some() as u64) } Err(e) => { cover(5); obs(errcode(&e)) } },
            2 => match dec.read_into_buffer(&mut buf) { Ok(()) => { cover(6); obs(1) } Err(e) => { cover(7); obs(errcode(&e)) } },
            3 => match dec.fill_buffer(&mut buf[..5]) { Ok(b) => { cover(8); obs(b as u64) } Err(e) => { cover(9); obs(errcode(&e)) } },
            4 => { let _ = dec.read_into_buffer(&mut buf[..1]); }
            5 => { let _ = dec.fill_buffer(&mut buf[..1]); let _ = dec.fill_buffer(&mut []); }
            6 => { obs(dec.buffer_size() as u64); obs(dec.line_length() as u64); obs(dec.palette().is_ok() as u64); }
            _ => { obs(rep(dec.repeat())); obs(dec.bg_color().map_or(999, |x| x as u64)); obs(dec.global_palette().map_or(0, |x| x.len()) as u64); break }
        }
    }
    obs_bytes(&buf);
}
/// read everything, going on after errors; params: prefix, symbolic bytes, options, bytes per read, whether an image and the trailer follow
#[no_mangle]
pub extern "C" fn c01_frames() {
    let mut d = prefix(param(0));
    d.extend_from_slice(&bytes(param(1) as usize));
    if param(4) == 1 { d.extend_from_slice(&[0, 0x2C, 0, 0, 0, 0, 2, 0, 1, 0, 0, 2, 2, 0x0C, 0x0A, 0, 0x3B]) }
    let o = param(2);
    let mut op = opts(o);
    if o & UNLIM == 0 { op.set_memory_limit(limit(12)) }
    let src = Src::new(&d, param(3) as usize);
    let mut dec = match op.read_info(src) { Ok(d) => d, Err(e) => { cover(1); obs(errcode(&e)); return } };
    for _ in 0..d.len() + 5 {
        match dec.read_next_frame() {
            Ok(Some(f)) => { cover(2); obs_bytes(&f.buffer) }
            Ok(None) => { cover(3); obs(1); return }
            Err(e) => { cover(4); obs(errcode(&e)); if errcode(&e) == 1 { return } }
        }
    }
}
/// frames decoded on their own; params: symbolic bytes, options, buffer length for the second call
#[no_mangle]
pub extern "C" fn c01_frame_decoder() {
    let mut f = Frame::default();
    f.width = below(4, 2) as u16; f.height = below(4, 2) as u16;
    f.interlaced = pickb();
    f.transparent = if anyb() { Some(any8()) } else { None };
    if pickb() { f.palette = Some(bytes([7, 5, 2, 0][pick(4) as usize])) }
    f.buffer = bytes(param(0) as usize).into();
    let mut op = opts(param(1));
    op.set_memory_limit(limit(30));
    let mut d = FrameDecoder::new(op);
    let gp = if f.palette.is_none() { pick(4) } else { 0 };
    if gp > 0 { d.set_global_palette(bytes([0, 1, 5, 6][gp as usize])) }
    let mut out = vec![0; param(2) as usize];
    match d.decode_lzw_encoded_frame_into_buffer(&f, &mut out) { Ok(()) => { cover(1) } Err(e) => { cover(2); obs(errcode(&e)) } }
    obs_bytes(&out);
    obs(d.buffer_size(&f) as u64);
    match d.decode_lzw_encoded_frame(&mut f) { Ok(()) => { cover(3); obs_bytes(&f.buffer) } Err(e) => { cover(4); obs(errcode(&e)) } }
}
/// accessors of frames of any size
#[no_mangle]
pub extern "C" fn c01_sizes() {
    let mut g = G::new(any16(), any16(), 1, any8());
    let (w, h) = (any16(), any16());
    g.desc(any16(), any16(), w, h, 0).bytes(&[2, 1, 0x44, 0]);
    let d = g.end();
    let o = param(0);
    let mut dec = ok!(opts(o & RGBA).read_info(&d[..]));
    let f = some!(ok!(dec.next_frame_info()));
    chk!(and(f.width == w, f.height == h));
    let b = if o & RGBA != 0 { 4 } else { 1 };
    chk!(dec.line_length() == w as usize * b);
    chk!(dec.buffer_size() == w as usize * b * h as usize);
    obs(dec.buffer_size() as u64);
}
