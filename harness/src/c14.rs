//! Frame metadata and palettes survive encoding and decoding.
use crate::h::*; use crate::util::*; use crate::model::*;
use crate::c13::{dispose, pad};
use gif::*;

fn frame(pal: u64) -> Frame<'static> {
    let mut f = Frame::default();
    f.delay = any16(); f.dispose = dispose(pick(4)); f.needs_user_input = anyb();
    f.transparent = if pickb() { Some(any8()) } else { None };
    f.left = any16(); f.top = any16(); f.interlaced = anyb();
    f.width = 1; f.height = 2; f.buffer = vec![1, 0].into();
    f.palette = match pal { 0 => None, 1 => Some(bytes(6)), 2 => Some(bytes(9)), _ => Some(vec![]) };
    f
}
/// params: frames, access (0 next_frame_info, 1 read_next_frame, 2 iterator), written 0 directly 1 compressed beforehand
#[no_mangle]
pub extern "C" fn c14_frames() {
    let (n, acc) = (param(0), param(1));
    let (w, h) = (any16(), any16());
    let gp = bytes(9);
    let mut out = vec![];
    let mut want = vec![];
    {
        let mut e = ok!(Encoder::new(&mut out, w, h, &gp));
        for i in 0..n {
            let mut f = frame(if i < 2 { pick(4) } else { 0 });
            if param(2) == 1 { let mut c = f.clone(); c.make_lzw_pre_encoded(); ok!(e.write_lzw_pre_encoded_frame(&c)) } else { ok!(e.write_frame(&f)) }
            f.palette = f.palette.map(|p| pad(&p));
            want.push(f);
        }
    }
    let mut dec = ok!(DecodeOptions::new().read_info(&out[..]));
    chk!(and(dec.width() == w, dec.height() == h));
    chk!(match dec.global_palette() { Some(p) => same(p, &pad(&gp)), None => false });
    chk!(dec.bg_color() == Some(0));
    chk!(dec.repeat() == Repeat::Finite(0));
    if acc == 2 {
        let mut k = 0;
        for f in dec { let f = ok!(f); chk!(k < want.len()); want[k].interlaced = false; chk!(same_frame_meta(&f, &want[k])); obs_frame(&f); k += 1 }
        chk!(k == want.len());
        return;
    }
    for f in &mut want {
        if acc == 1 { f.interlaced = false }
        let x = some!(ok!(if acc == 0 { dec.next_frame_info() } else { dec.read_next_frame() }));
        chk!(same_frame_meta(x, f));
        obs_frame(x);
    }
    chk!(ok!(dec.next_frame_info()).is_none());
    cover(1);
}
/// palettes of any number of colours; params: global colours, local colours, bytes beyond whole colours
#[no_mangle]
pub extern "C" fn c14_palette() {
    let (g, l) = (many(param(0) as usize * 3 + param(2) as usize), many(param(1) as usize * 3 + param(2) as usize));
    let mut f = frame(0);
    f.palette = Some(l.clone());
    f.width = any16(); f.height = 0; f.buffer = vec![].into();
    let mut f2 = f.clone();
    f2.palette = if param(0) > 0 { None } else { Some(vec![]) };
    let mut out = vec![];
    {
        let mut e = ok!(Encoder::new(&mut out, 1, 1, &g));
        ok!(e.write_frame(&f)); ok!(e.write_frame(&f2));
    }
    let mut dec = ok!(DecodeOptions::new().read_info(&out[..]));
    chk!(match dec.global_palette() { Some(p) => same(p, &pad(&g)), None => false });
    f.palette = Some(pad(&l));
    let x = some!(ok!(dec.next_frame_info()));
    chk!(same_frame_meta(x, &f)); obs_frame(x);
    chk!(match dec.palette() { Ok(p) => same(p, &pad(&l)), Err(_) => false });
    f2.palette = f2.palette.map(|p| pad(&p));
    let x = some!(ok!(dec.next_frame_info()));
    chk!(same_frame_meta(x, &f2)); obs_frame(x);
    chk!(match dec.palette() { Ok(p) => same(p, &pad(&g)), Err(_) => false });
    cover(1);
}
/// sizes: any width and height at the descriptor level (frames without data, compressed)
#[no_mangle]
pub extern "C" fn c14_size() {
    let mut f = frame(pick(3));
    f.width = any16(); f.height = any16();
    f.buffer = match pick(3) { 0 => vec![].into(), 1 => vec![2].into(), _ => vec![3, any8(), any8()].into() };
    let mut out = vec![];
    { let mut e = ok!(Encoder::new(&mut out, 1, 1, &[1; 9])); ok!(e.write_lzw_pre_encoded_frame(&f)); }
    f.palette = f.palette.map(|p| pad(&p));
    let mut dec = ok!(DecodeOptions::new().read_info(&out[..]));
    let x = some!(ok!(dec.next_frame_info()));
    chk!(same_frame_meta(x, &f)); obs_frame(x);
    cover(1);
}
