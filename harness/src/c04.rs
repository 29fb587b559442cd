//! Each frame carries exactly its own metadata.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*; use gif::streaming_decoder::*;

/// appends a frame with symbolic settings and returns what has to be reported
/// `gce`: 0 none, 1 one, 2 two (the second counts), 3 one followed by a comment and an application extension
fn frame(g: &mut G, gce: u64, pal: u64, dims: Option<(u16, u16)>) -> Frame<'static> {
    let mut f = Frame::default();
    if gce == 2 { g.gce(any8(), any16(), any8()); }
    if gce > 0 {
        let (fl, d, t) = (any8(), any16(), any8());
        g.gce(fl, d, t);
        f.delay = d;
        f.transparent = if fl & 1 != 0 { Some(t) } else { None };
        f.needs_user_input = fl & 2 != 0;
        f.dispose = match (fl >> 2) & 7 { 1 => DisposalMethod::Keep, 2 => DisposalMethod::Background, 3 => DisposalMethod::Previous, _ => DisposalMethod::Any };
    }
    if gce == 3 { g.ext(0xFE, &[&bytes(2)]).ext(0xFF, &[b"NETSCAPE2.0", &[1, any8(), any8()]]); }
    f.left = any16(); f.top = any16();
    let (w, h) = dims.unwrap_or_else(|| (any16(), any16()));
    f.width = w; f.height = h;
    let il = any8() & 0x40;
    // sort flag and reserved bits
    let junk = any8() & 0x38;
    f.interlaced = il != 0;
    let size = if pal > 0 { pal as u8 - 1 } else { any8() & 7 };
    g.desc(f.left, f.top, w, h, (if pal > 0 { 0x80 } else { 0 }) | size | il | junk);
    if pal > 0 { let p = many(3 << pal); g.bytes(&p); f.palette = Some(p) }
    f
}
/// params: number of frames, access, options
/// access 0: next_frame_info with any sizes; 1: read_next_frame; 2: iterator; 3: low level; 4: next_frame_info and read_into_buffer
#[no_mangle]
pub extern "C" fn c04_frames() {
    let n = param(0); let acc = param(1);
    let mut g = G::new(9, 9, 1, 0);
    let mut want = vec![];
    for i in 0..n {
        let gce = pick(4);
        let pal = if i == 1 { pick(2) * 2 } else { pick(2) };
        let dims = if acc == 0 || acc == 3 { None } else { Some((2, 1)) };
        let f = frame(&mut g, gce, pal, dims);
        let px = vals(2, 2);
        g.data(2, &lzw_literals(2, &px, true), 255);
        want.push((f, px));
    }
    let d = g.end();
    if acc == 3 {
        let mut s = StreamingDecoder::new();
        let mut p = 0; let mut k = 0;
        while p < d.len() {
            let (c, e) = ok!(s.update(&d[p..], &mut OutputBuffer::None));
            p += c;
            if let Decoded::FrameMetadata(t) = e {
                chk!(matches!(t, FrameDataType::Pixels));
                chk!(k < want.len());
                let f = s.current_frame();
                chk!(same_frame_meta(f, &want[k].0));
                chk!(f.buffer.is_empty());
                obs_frame(f);
                k += 1;
            }
        }
        chk!(k == want.len());
        return;
    }
    let skip = param(2) & SKIP != 0;
    let mut dec = ok!(opts(param(2)).read_info(&d[..]));
    let gp = dec.global_palette().unwrap().to_vec();
    if acc == 2 {
        let mut it = dec.into_iter();
        for (w, px) in &mut want {
            let f = ok!(some!(it.next()));
            if !skip { w.interlaced = false }
            chk!(same_frame_meta(&f, w));
            if !skip { chk!(same(&f.buffer, px)) }
            obs_frame(&f);
        }
        chk!(it.next().is_none());
        return;
    }
    for (w, px) in &mut want {
        let pal = w.palette.clone();
        if acc == 1 {
            let f = some!(ok!(dec.read_next_frame()));
            if !skip { w.interlaced = false } // undone by the decoder
            chk!(same_frame_meta(f, w));
            if !skip { chk!(same(&f.buffer, px)) }
            obs_frame(f);
        } else {
            let f = some!(ok!(dec.next_frame_info()));
            chk!(same_frame_meta(f, w));
            obs_frame(f);
            if acc == 4 { let mut b = [0; 2]; ok!(dec.read_into_buffer(&mut b)); chk!(same(&b, px)) }
        }
        // the palette in force
        match dec.palette() { Ok(p) => { chk!(same(p, pal.as_ref().unwrap_or(&gp))) } Err(_) => { unreachable_chk!() } }
    }
    match dec.next_frame_info() { Ok(None) => { cover(1) } _ => { unreachable_chk!() } }
}
/// local palettes of all sizes; params: exponent
#[no_mangle]
pub extern "C" fn c04_palette() {
    let k = param(0);
    let gl = pick(2) as u8;
    let mut g = G::new(1, 1, gl, 0);
    let f = frame(&mut g, 1, k, Some((1, 1)));
    let t = any(2) as u8;
    g.data(2, &lzw_literals(2, &[t], true), 255);
    // followed by a frame without palette
    let f2 = frame(&mut g, 0, 0, Some((1, 1)));
    g.data(2, &lzw_literals(2, &[t], true), 255);
    let d = g.end();
    let mut dec = ok!(DecodeOptions::new().read_info(&d[..]));
    {
        let x = some!(ok!(dec.next_frame_info()));
        chk!(same_frame_meta(x, &f));
        obs_frame(x);
    }
    if pickb() { let mut b = [0]; ok!(dec.read_into_buffer(&mut b)); chk!(b[0] == t) }
    chk!(match dec.palette() { Ok(p) => same(p, f.palette.as_ref().unwrap()), Err(_) => false });
    match dec.next_frame_info() {
        Ok(Some(x)) => { cover(1); chk!(gl > 0); chk!(same_frame_meta(x, &f2)); obs_frame(x) }
        Ok(None) => { unreachable_chk!() }
        Err(_) => { cover(2); chk!(gl == 0) }
    }
}
