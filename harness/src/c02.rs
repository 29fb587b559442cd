//! Decoding does not depend on how the input is split into chunks.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*; use gif::streaming_decoder::*;

pub struct Log { pub ev: Vec<u64>, pub out: Vec<u8>, pub ok: bool }
fn log_frame(l: &mut Vec<u64>, f: &Frame<'_>) {
    for v in [f.delay as u64, f.dispose as u64, f.transparent.is_some() as u64, f.transparent.unwrap_or(0) as u64, f.needs_user_input as u64, f.left as u64, f.top as u64, f.width as u64, f.height as u64, f.interlaced as u64] { l.push(v) }
    match &f.palette { Some(p) => { l.push(p.len() as u64); for &b in p { l.push(b as u64) } } None => l.push(0) }
}
/// feed the chunks that `cut` makes of `d`
pub fn feed(d: &[u8], cuts: &[usize], discard: bool) -> Log {
    let mut s = StreamingDecoder::new();
    let mut l = Log { ev: vec![], out: vec![], ok: true };
    let mut out = [0u8; 40];
    let mut n = 0;
    let mut a = 0;
    let mut ends: Vec<usize> = cuts.to_vec();
    ends.push(d.len());
    for e in ends {
        while a < e {
            let (c, r) = {
                let mut w = if discard || n >= 40 { OutputBuffer::None } else { OutputBuffer::Slice(&mut out[n..]) };
                match s.update(&d[a..e], &mut w) {
                    Ok(x) => x,
                    Err(x) => { l.ev.push(5000 + errcode(&x)); l.ok = false; l.out = out[..n].to_vec(); return l }
                }
            };
            chk!(c <= e - a);
            a += c;
            let k = ev(&r);
            if k != 0 && k != 11 { l.ev.push(k) }
            match r {
                Decoded::GlobalPalette(p) => { l.ev.push(p.len() as u64); for &b in p.iter() { l.ev.push(b as u64) } }
                Decoded::BackgroundColor(b) => l.ev.push(b as u64),
                Decoded::Repetitions(r) => l.ev.push(rep(r)),
                Decoded::SubBlockFinished(x) | Decoded::BlockFinished(x) => {
                    l.ev.push(x.0 as u64);
                    let (id, data, end) = s.last_ext();
                    l.ev.push(id.0 as u64); l.ev.push(end as u64); l.ev.push(data.len() as u64);
                    for &b in data { l.ev.push(b as u64) }
                }
                Decoded::FrameMetadata(_) => log_frame(&mut l.ev, s.current_frame()),
                Decoded::BytesDecoded(k) => n += k.get(),
                _ => {}
            }
        }
    }
    l.ev.push(s.width() as u64); l.ev.push(s.height() as u64); l.ev.push(s.version() as u64);
    l.out = out[..n].to_vec();
    l
}
pub fn eq(a: &Log, b: &Log) -> bool { and(a.ok == b.ok, and(a.ev == b.ev, a.out == b.out)) }

/// params: prefix, symbolic bytes, way to cut, discard the pixels (prefixes that do not reach image data)
#[no_mangle]
pub extern "C" fn c02_raw() {
    let mut d = crate::c01::prefix(param(0));
    let start = d.len();
    d.extend_from_slice(&bytes(param(1) as usize));
    let one = feed(&d, &[], param(3) == 1);
    let cuts: Vec<usize> = match param(2) {
        1 => (1..d.len()).collect(),
        2 => vec![start + pick(param(1)) as usize],
        3 => { let a = start + pick(param(1)) as usize; let b = start + pick(param(1)) as usize; assume(a <= b); vec![a, b] }
        k => (1..d.len()).filter(|x| x % k as usize == 0).collect(),
    };
    let two = feed(&d, &cuts, param(3) == 1);
    chk!(one.ok == two.ok);
    chk!(one.ev == two.ev);
    chk!(one.out == two.out);
    if one.ok { cover(1) } else { cover(2) }
    obs(one.ok as u64); obs_bytes(&one.out); for v in one.ev { obs(v) }
}
/// any LZW data in a complete stream; params: minimum code size, LZW bytes, sub-block size, way to cut, interlaced
#[no_mangle]
pub extern "C" fn c02_lzw() {
    let mut g = G::new(3, 3, 1, 0);
    let lzw = bytes(param(1) as usize);
    g.desc(0, 0, 2, 1, param(4) as u8 * 0x40).data(param(0) as u8, &lzw, param(2) as usize);
    g.frame(1, 1, 0, 2, &[1]);
    let d = g.end();
    let one = feed(&d, &[], false);
    let cuts: Vec<usize> = match param(3) {
        1 => (1..d.len()).collect(),
        2 => vec![29 + pick(param(1) + 4) as usize],
        k => (1..d.len()).filter(|x| x % k as usize == 0).collect(),
    };
    let two = feed(&d, &cuts, false);
    chk!(one.ok == two.ok);
    if one.ok { cover(1); chk!(one.ev == two.ev); chk!(one.out == two.out); }
    else { cover(2); let n = one.out.len().min(two.out.len()); chk!(one.out[..n] == two.out[..n]); chk!(one.ev.last() == two.ev.last()) }
    obs(one.ok as u64); if one.ok { obs_bytes(&one.out) }
    // the same through short reads
    let a = all(&d, 0, 10000);
    let b = all(&d, 0, 1);
    chk!(a.0 == b.0); chk!(a.1 == b.1);
}
/// a stream with one of everything and symbolic contents
pub fn rich(k: u64) -> Vec<u8> {
    let mut g = G { o: b"GIF89a".to_vec(), gct: 1, exts: vec![] };
    let m = 2;
    g.screen(any16(), any16(), 0x81 | any8() & 0x78, any8() & 3, any8()).bytes(&bytes(12));
    if k == 0 || k == 3 { g.netscape(any16() | 1).ext(0xFE, &[&bytes(3), &bytes(1)]); }
    g.gce(6, any16(), any8());
    if k == 1 || k == 3 { g.ext(0x01, &[&bytes(2)]).ext(0xFF, &[b"XMP DataXMP", &bytes(2), &bytes(2)]); }
    if k != 2 {
        g.desc(any16(), any16(), 3, 2, 0xC0).bytes(&bytes(6));
        let px = vals(6, 2);
        g.data(m, &lzw_literals(m, &px, true), 2);
    }
    if k == 2 { g.desc(any16(), any16(), 4, 1, any8() & 0x3F); let px = vals(4, 2); g.data(m, &lzw_literals(m, &px, false), 3); }
    g.gce(0x0D, any16(), any8()).desc(1, 2, 1, 1, 0).data(3, &lzw_literals(3, &[any(3) as u8], true), 1);
    g.end()
}
/// params: kind, way to cut, discard
#[no_mangle]
pub extern "C" fn c02_rich() {
    let d = rich(param(0));
    let dis = param(2) == 1;
    let one = feed(&d, &[], dis);
    chk!(one.ok);
    let cuts: Vec<usize> = match param(1) {
        0 => vec![pick(d.len() as u64) as usize],
        1 => (1..d.len()).collect(),
        2 => { let a = pick(d.len() as u64) as usize; let b = (a + 1 + pick(9) as usize).min(d.len()); vec![a, b] }
        k => { let s = pick(k) as usize; (1..d.len()).filter(|x| x % k as usize == s).collect() }
    };
    let two = feed(&d, &cuts, dis);
    chk!(eq(&one, &two));
    cover(1);
    obs(one.ev.len() as u64); obs_bytes(&one.out); for v in one.ev { obs(v) }
}
fn all(d: &[u8], o: u64, step: usize) -> (Vec<u64>, Vec<u8>) {
    let mut l = vec![]; let mut px = vec![];
    let mut op = opts(o);
    op.set_memory_limit(limit(100));
    let mut dec = match op.read_info(Src::new(d, step)) { Ok(d) => d, Err(e) => return (vec![errcode(&e)], px) };
    l.push(dec.width() as u64); l.push(dec.height() as u64); l.push(rep(dec.repeat())); l.push(dec.bg_color().map_or(999, |x| x as u64));
    px.extend_from_slice(dec.global_palette().unwrap_or(&[]));
    for _ in 0..9 {
        match dec.read_next_frame() {
            Ok(Some(f)) => { log_frame(&mut l, f); px.extend_from_slice(&f.buffer) }
            Ok(None) => { l.push(7777); break }
            Err(e) => { l.push(8000 + errcode(&e)); break }
        }
    }
    (l, px)
}
/// short reads; params: kind, options, bytes per read (0: any up to 8)
#[no_mangle]
pub extern "C" fn c02_reader() {
    let d = rich(param(0));
    let k = if param(2) == 0 { 1 + pick(8) as usize } else { param(2) as usize };
    let a = all(&d, param(1), 10000);
    let b = all(&d, param(1), k);
    chk!(a.0 == b.0);
    chk!(a.1 == b.1);
    cover(1);
    for &v in &a.0 { obs(v) } obs_bytes(&a.1);
}
/// short reads of arbitrary bytes; params: prefix, symbolic bytes, options, bytes per read
#[no_mangle]
pub extern "C" fn c02_raw_reader() {
    let mut d = crate::c01::prefix(param(0));
    d.extend_from_slice(&bytes(param(1) as usize));
    let a = all(&d, param(2), 10000);
    let b = all(&d, param(2), param(3) as usize);
    chk!(a.0 == b.0);
    chk!(a.1 == b.1);
    cover(1);
    for &v in &a.0 { obs(v) } obs_bytes(&a.1);
}
/// long sub-blocks and many of them, concrete stream with a few symbolic pixels; params: pixels, sub-block size, options
#[no_mangle]
pub extern "C" fn c02_long() {
    let n = param(0) as usize;
    let mut l = Lzw::new(7);
    for i in 0..n { l.lit(if i % 97 == 5 { any(7) as u8 } else { (i * 31 % 128) as u8 }) }
    let (z, _) = l.end(true);
    let mut g = G::new(5, 5, 1, 0);
    g.ext(0xFE, &[&noise(200, 1, 256), &noise(255, 2, 256)]);
    g.desc(0, 0, n as u16, 1, 0x87).bytes(&noise(768, 3, 256)).data(7, &z, param(1) as usize);
    g.frame(1, 1, 0, 2, &[1]);
    let d = g.end();
    let k = [1usize, 2, 7, 64, 100, 254, 255, 256, 257, 1000][pick(10) as usize];
    let a = all2(&d, param(2), 100000);
    let b = all2(&d, param(2), k);
    chk!(a.0 == b.0);
    chk!(a.1 == b.1);
    cover(1);
    obs_bytes(&a.1);
}
fn all2(d: &[u8], o: u64, step: usize) -> (Vec<u64>, Vec<u8>) {
    let mut l = vec![]; let mut px = vec![];
    let mut dec = match opts(o).read_info(Src::new(d, step)) { Ok(d) => d, Err(e) => return (vec![errcode(&e)], px) };
    loop {
        match dec.read_next_frame() {
            Ok(Some(f)) => { log_frame(&mut l, f); px.extend_from_slice(&f.buffer) }
            Ok(None) => { l.push(7777); break }
            Err(e) => { l.push(8000 + errcode(&e)); break }
        }
    }
    (l, px)
}
