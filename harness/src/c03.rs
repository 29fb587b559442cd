//! Screen descriptor, global palette and loop count are reported as stored.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*; use gif::streaming_decoder::*;

/// params: table exponent 0..=8, what follows
#[no_mangle]
pub extern "C" fn c03_screen() {
    let k = param(0);
    let v87 = pickb();
    let mut d = if v87 { b"GIF87a".to_vec() } else { b"GIF89a".to_vec() };
    let (w, h, bg) = (any16(), any16(), any8());
    let mut g = G { o: vec![], gct: 0, exts: vec![] };
    // without a table the size bits mean nothing
    let flags = if k > 0 { 0x80 | (k as u8 - 1) | any8() & 0x78 } else { any8() & 0x7F };
    g.screen(w, h, flags, bg, any8());
    let pal = if k > 0 { many(3 << k) } else { vec![] };
    g.bytes(&pal);
    match param(1) {
        0 => {}
        1 => { g.desc(0, 0, 1, 1, 0x80).bytes(&bytes(6)).data(2, &[0x44, 1], 255); }
        2 => { g.ext(0xFE, &[&bytes(2)]); g.desc(any16(), any16(), any16(), any16(), any8() & 0x7F).data(2, &[0x44, 1], 255); }
        _ => { g.gce(any8(), any16(), any8()); }
    }
    d.extend_from_slice(&g.end());
    let dec = ok!(DecodeOptions::new().read_info(&d[..]));
    chk!(dec.width() == w); chk!(dec.height() == h);
    match dec.global_palette() { None => { chk!(k == 0) } Some(p) => { chk!(k > 0); chk!(same(p, &pal)) } }
    let n = if k > 0 { 1u64 << k } else { 256 };
    match dec.bg_color() { None => { cover(1); chk!(bg as u64 >= n) } Some(b) => { cover(2); chk!(b as u64 == bg as u64); chk!((bg as u64) < n) } }
    chk!(dec.repeat() == Repeat::Finite(0));
    obs(dec.width() as u64); obs(dec.height() as u64); obs(dec.bg_color().map_or(999, |x| x as u64)); obs_bytes(dec.global_palette().unwrap_or(&[]));
    // the same from the low-level decoder
    let mut s = StreamingDecoder::new();
    let mut p = 0;
    let mut seen = 0;
    while p < d.len() {
        let (c, e) = ok!(s.update(&d[p..], &mut OutputBuffer::None));
        p += c;
        match e {
            Decoded::BackgroundColor(b) => { chk!(seen == 0); seen = 1; chk!(b == bg); chk!(and(s.width() == w, s.height() == h)); }
            Decoded::GlobalPalette(x) => { chk!(seen == 1); seen = 2; chk!(same(&x, &pal)) }
            _ => {}
        }
    }
    chk!(seen == 2);
    chk!(s.version() == if v87 { Version::V87a } else { Version::V89a });
    chk!(and(s.width() == w, s.height() == h));
}
/// any six first bytes: accepted exactly if they are one of the two signatures
#[no_mangle]
pub extern "C" fn c03_magic() {
    let mut d = bytes(6);
    let m = d.clone();
    d.extend_from_slice(&[1, 0, 1, 0, 0, 0, 0, 0x3B]);
    let good = or(same(&m, b"GIF87a"), same(&m, b"GIF89a"));
    match DecodeOptions::new().read_info(&d[..]) {
        Ok(x) => { cover(1); chk!(good); chk!(x.width() == 1) }
        Err(e) => { cover(2); chk!(not(good)); obs(errcode(&e)) }
    }
}
/// loop count; params: arrangement
#[no_mangle]
pub extern "C" fn c03_repeat() {
    let k = param(0);
    let pal = pick(2) as u8;
    let mut g = G::new(1, 1, pal, 0);
    let (n, n2) = (any16(), any16());
    let mut want = n;
    let mut present = true;
    match k {
        0 => { g.netscape(n); }
        1 => { g.ext(0xFE, &[&bytes(5)]).netscape(n).gce(any8(), any16(), any8()); }
        // another application between and around
        2 => { g.ext(0xFF, &[b"XMP DataXMP", &bytes(4)]).netscape(n).ext(0xFF, &[b"ICCRGBG1012", &[1, any8(), any8()]]); }
        // the last one counts
        3 => { g.netscape(n).netscape(n2); want = n2; }
        4 => { present = false; }
        5 => { g.ext(0xFF, &[b"XMP DataXMP", &[1, any8(), any8()]]).ext(0xFE, &[b"NETSCAPE2.0", &[1, any8(), any8()]]); present = false; }
        // any identifier, any sub-block id
        6 => {
            let id = bytes(11); let sub = any8();
            g.ext(0xFF, &[&id, &[sub, n as u8, (n >> 8) as u8]]);
            present = and(same(&id, b"NETSCAPE2.0"), sub == 1);
        }
        // too short to hold a count
        7 => { g.ext(0xFF, &[b"NETSCAPE2.0", &[1, any8()]]); present = false; }
        8 => { g.ext(0xFF, &[b"NETSCAPE2.0"]); present = false; }
        // identifier of a wrong length that contains the right one
        9 => { g.ext(0xFF, &[b"\x01NETSCAPE2.0", &[1, any8(), any8()]]); present = false; }
        // more sub-blocks behind the first
        10 => { g.ext(0xFF, &[b"NETSCAPE2.0", &[1, n as u8, (n >> 8) as u8], &[2, any8(), any8(), any8(), any8()]]); }
        11 => { g.ext(0xFF, &[&[], b"NETSCAPE2.0"]); return }
        // longer first data block
        _ => { g.ext(0xFF, &[b"NETSCAPE2.0", &[1, n as u8, (n >> 8) as u8, any8()]]); }
    }
    let frames = pick(3);
    if frames > 0 { g.desc(0, 0, 1, 1, 0x80).bytes(&[1, 2, 3, 4, 5, 6]).data(2, &[0x44, 1], 255); cover(1) }
    // behind the first image it does not count any more
    if frames > 1 { g.netscape(any16()).desc(0, 0, 1, 1, 0x80).bytes(&[1, 2, 3, 4, 5, 6]).data(2, &[0x44, 1], 255).netscape(any16()); }
    let d = g.end();
    let mut dec = ok!(DecodeOptions::new().read_info(&d[..]));
    let exp = ite(present, ite(want == 0, 65536, want as u64), 0);
    chk!(rep(dec.repeat()) == exp);
    obs(rep(dec.repeat()));
    chk!(and(dec.width() == 1, dec.global_palette().is_some() == (pal == 1)));
    let mut seen = 0;
    while ok!(dec.next_frame_info()).is_some() { seen += 1; chk!(rep(dec.repeat()) == exp) }
    chk!(seen == frames);
    chk!(rep(dec.repeat()) == exp);
    chk!(and(dec.width() == 1, dec.global_palette().is_some() == (pal == 1)));
}
