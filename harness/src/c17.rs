//! Loop count and raw extensions survive encoding and decoding.
use crate::h::*; use crate::model::*; use crate::util::*;
use crate::c13::some_ext;
use gif::*; use gif::streaming_decoder::*;

fn px(k: u8) -> Frame<'static> { let mut f = Frame::default(); f.width = 1; f.height = 1; f.buffer = vec![k].into(); f }
/// params: times set, frames, way (0 set_repeat, 1 write_extension, 2 raw extension), options, source step
#[no_mangle]
pub extern "C" fn c17_repeat() {
    let (n, way) = (param(0), param(2));
    let mut out = vec![];
    let mut want = Repeat::Finite(0);
    {
        let mut e = ok!(Encoder::new(&mut out, 1, 1, &[1, 2, 3, 4, 5, 6]));
        if pickb() { ok!(e.write_raw_extension(AnyExtension(0xFE), &[&bytes(2)])) }
        for _ in 0..n {
            let v = any16();
            let r = if pickb() { Repeat::Infinite } else { Repeat::Finite(v) };
            match way {
                0 => { ok!(e.set_repeat(r)) }
                1 => { ok!(e.write_extension(ExtensionData::Repetitions(r))) }
                _ => {
                    let k = match r { Repeat::Infinite => 0, Repeat::Finite(k) => { assume(k != 0); k } };
                    ok!(e.write_raw_extension(Extension::Application.into(), &[b"NETSCAPE2.0", &[1, k as u8, (k >> 8) as u8]]))
                }
            }
            // no repetitions: nothing is written, what was set before stays
            if r != Repeat::Finite(0) { want = r }
        }
        if pickb() {
            // some other application extension
            let (a, b) = (bytes(11), bytes(3));
            assume(not(and(same(&a, b"NETSCAPE2.0"), b[0] == 1)));
            ok!(e.write_raw_extension(AnyExtension(0xFF), &[&a, &b]))
        }
        for k in 0..param(1) { ok!(e.write_frame(&px(k as u8 & 1))) }
    }
    let mut dec = ok!(opts(param(3)).read_info(Src::new(&out, param(4) as usize)));
    chk!(rep(dec.repeat()) == rep(want));
    obs(rep(dec.repeat()));
    for k in 0..param(1) { let f = some!(ok!(dec.read_next_frame())); chk!(f.buffer.len() > 0); obs(f.buffer[0] as u64); if param(3) & (RGBA | SKIP) == 0 { chk!(f.buffer[0] == k as u8 & 1) } }
    chk!(ok!(dec.read_next_frame()).is_none());
    chk!(rep(dec.repeat()) == rep(want));
    cover(1);
}
/// the loop extension is written as specified; zero repetitions write nothing
#[no_mangle]
pub extern "C" fn c17_bytes() {
    let mut e = ok!(Encoder::new(vec![], 1, 1, &[]));
    let n = e.get_ref().len();
    let v = any16();
    let (a, b) = (pickb(), pickb());
    let r = if a { Repeat::Infinite } else { Repeat::Finite(v) };
    if b { ok!(e.set_repeat(r)) } else { ok!(e.write_extension(ExtensionData::Repetitions(r))) }
    let got = e.get_ref()[n..].to_vec();
    if !a && v == 0 { chk!(got.is_empty()); cover(1) }
    else {
        let mut want = b"\x21\xFF\x0BNETSCAPE2.0\x03\x01".to_vec();
        let k = if a { 0 } else { v };
        want.extend_from_slice(&[k as u8, (k >> 8) as u8, 0]);
        chk!(same(&got, &want));
        cover(2);
    }
    obs_bytes(&got);
}
/// raw extensions with any label: bytes written; params: kinds of payload of two extensions
#[no_mangle]
pub extern "C" fn c17_raw() {
    let mut e = ok!(Encoder::new(vec![], 1, 1, &[]));
    let mut n = e.get_ref().len();
    for i in 0..2 {
        let l = any8();
        let (b, s) = some_ext(param(i));
        let r: Vec<&[u8]> = b.iter().map(|x| &x[..]).collect();
        ok!(e.write_raw_extension(AnyExtension(l), &r));
        let mut want = vec![0x21, l];
        for x in &s { want.push(x.len() as u8); want.extend_from_slice(x); }
        want.push(0);
        let got = &e.get_ref()[n..];
        chk!(same(got, &want));
        obs_bytes(got);
        n += want.len();
    }
    cover(1);
}
/// any split of a payload of some bytes into slices; params: bytes, slices
#[no_mangle]
pub extern "C" fn c17_split() {
    let d = many(param(0) as usize);
    let mut cuts = vec![0usize];
    for _ in 1..param(1) {
        let lo = *cuts.last().unwrap();
        let c = below(d.len() as u64 + 1, 12) as usize;
        assume(c >= lo);
        cuts.push(conc(c as u64) as usize);
    }
    cuts.push(d.len());
    let r: Vec<&[u8]> = cuts.windows(2).map(|w| &d[w[0]..w[1]]).collect();
    let mut e = ok!(Encoder::new(vec![], 1, 1, &[]));
    let n = e.get_ref().len();
    let l = any8();
    ok!(e.write_raw_extension(AnyExtension(l), &r));
    let out = ok!(e.into_inner());
    let p = some!(parse(&out, true));
    chk!(p.parts.len() == 1);
    let Part::Ext(x) = &p.parts[0] else { unreachable_chk!() };
    chk!(x.label == l);
    chk!(x.blocks.iter().all(|b| b.len() <= 255));
    chk!(same(&x.blocks.concat(), &d));
    // slices start sub-blocks of their own
    let want: Vec<usize> = r.iter().flat_map(|s| s.chunks(255)).map(|c| c.len()).collect();
    let got: Vec<usize> = x.blocks.iter().map(|b| b.len()).collect();
    chk!(want == got);
    obs_bytes(&out[n..]);
    cover(1);
}
/// reading them back; params: label (0 text, 1 comment, 2 application, 3 control), kind of payload, bytes per update
#[no_mangle]
pub extern "C" fn c17_back() {
    let l = [Extension::Text, Extension::Comment, Extension::Application, Extension::Control][param(0) as usize];
    let (b, s) = if param(0) == 3 { let b = vec![bytes(4)]; (b.clone(), b) } else { some_ext(param(1)) };
    let r: Vec<&[u8]> = b.iter().map(|x| &x[..]).collect();
    let mut e = ok!(Encoder::new(vec![], 1, 1, &[1, 2, 3, 4, 5, 6]));
    if pickb() { ok!(e.write_frame(&px(1))) }
    ok!(e.write_raw_extension(l.into(), &r));
    ok!(e.write_raw_extension(Extension::Comment.into(), &[b"x"]));
    ok!(e.write_frame(&px(0)));
    let out = ok!(e.into_inner());
    let mut want = vec![s.first().map_or(0, |x| x.len() as u8)];
    for x in &s { want.extend_from_slice(x) }
    let mut sd = StreamingDecoder::new();
    let mut p = 0; let mut seen = 0; let mut ends = 0;
    let step = param(2) as usize;
    while p < out.len() {
        let (c, ev) = ok!(sd.update(&out[p..(p + step).min(out.len())], &mut OutputBuffer::None));
        p += c;
        let kind = match &ev { Decoded::BlockFinished(id) => { if ends == 0 { Some(*id) } else { None } } Decoded::DataEnd => { None } _ => None };
        if let Some(id) = kind {
            let (l2, d, fin) = sd.last_ext();
            chk!(and(l2.0 == id.0, fin));
            let ctl = id.0 == 0xF9 && param(0) != 3;
            if !ctl && seen == 0 && !(param(0) == 3 && !same(d, &want)) {
                chk!(id.0 == l as u8);
                chk!(same(d, &want));
                obs_bytes(d);
                seen = 1;
            } else if seen == 1 && id.0 == 0xFE {
                chk!(same(d, b"\x01x"));
                seen = 2; ends = 1;
            }
        }
    }
    chk!(seen == 2);
    cover(1);
}
/// extensions do not disturb the frames around them; params: label (0 text, 1 comment, 2 application), kind of payload, options
#[no_mangle]
pub extern "C" fn c17_frames() {
    let l = [Extension::Text, Extension::Comment, Extension::Application][param(0) as usize];
    let (b, s) = some_ext(param(1));
    if param(0) == 2 { let d = s.concat(); if d.len() >= 14 { assume(not(same(&d[..12], b"NETSCAPE2.0\x01"))) } }
    let r: Vec<&[u8]> = b.iter().map(|x| &x[..]).collect();
    let at = pick(3);
    let mut e = ok!(Encoder::new(vec![], 1, 1, &[1, 2, 3, 4, 5, 6]));
    ok!(e.set_repeat(Repeat::Finite(7)));
    let mut fs = vec![];
    for k in 0..2 {
        if at == k { ok!(e.write_raw_extension(l.into(), &r)) }
        let mut f = px(k as u8);
        f.delay = any16(); f.left = any16();
        ok!(e.write_frame(&f));
        fs.push(f);
    }
    if at == 2 { ok!(e.write_raw_extension(l.into(), &r)) }
    let out = ok!(e.into_inner());
    let mut dec = ok!(opts(param(2)).read_info(&out[..]));
    for f in &fs { let x = some!(ok!(dec.read_next_frame())); chk!(same_frame_meta(x, f)); obs_frame(x); if param(2) == 0 { chk!(same(&x.buffer, &f.buffer)) } }
    chk!(ok!(dec.read_next_frame()).is_none());
    chk!(rep(dec.repeat()) == 7);
    cover(1);
}
/// the names of labels stand for the values of the specification, in both directions
#[no_mangle]
pub extern "C" fn c17_label() {
    let b = any8();
    let name = AnyExtension(b).into_known();
    let spec = [0x01, 0xF9, 0xFE, 0xFF];
    let names = [Extension::Text, Extension::Control, Extension::Comment, Extension::Application];
    match name {
        Some(x) => { let v = AnyExtension::from(x).0; chk!(v == b); chk!(spec.contains(&b)); cover(1) }
        None => { chk!(not(spec.contains(&b))); cover(2) }
    }
    let k = pick(4) as usize;
    chk!(AnyExtension::from(names[k]).0 == spec[k]);
    chk!(AnyExtension(spec[k]).into_known() == Some(names[k]));
    if k == 1 { return }
    let mut e = ok!(Encoder::new(vec![], 1, 1, &[1, 2, 3, 4, 5, 6]));
    let at = e.get_ref().len();
    ok!(e.write_raw_extension(names[k].into(), &[&[b]]));
    chk!(e.get_ref()[at + 1] == spec[k]);
    obs_bytes(&e.get_ref()[at..]);
    let out = ok!(e.into_inner());
    let mut d = gif::streaming_decoder::StreamingDecoder::new();
    let mut i = 0;
    while i < out.len() {
        let (n, x) = ok!(d.update(&out[i..], &mut gif::streaming_decoder::OutputBuffer::None));
        i += n;
        if let gif::streaming_decoder::Decoded::BlockFinished(l) = x { chk!(l.into_known() == Some(names[k])); cover(3) }
    }
}
