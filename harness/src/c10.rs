//! The frame iterator yields every frame and at most one error, then ends.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*;

/// streams: 0 valid, 1 truncated anywhere, 2 bad data in the middle, 3 missing pixels in the middle, 4 empty frames, 5 junk after a frame,
/// 6 no frames, 7 unknown extension between frames
fn stream(kind: u64) -> Vec<u8> {
    let mut g = G::new(4, 4, 1, 0);
    if kind == 6 { return g.end() }
    let px = vals(4, 2);
    g.gce(1, any16(), any8()).frame(2, 2, 0x40, 2, &px);
    match kind {
        2 => { g.desc(0, 0, 2, 2, 0).data(2, &[0xFC, any8(), any8()], 255); }
        3 => { g.desc(0, 0, 2, 2, 0).data(2, &lzw_literals(2, &px[..3], pickb()), 255); }
        4 => { g.desc(any16(), 0, 0, any16(), 0).data(2, &lzw_literals(2, &[], pickb()), 255); }
        5 => { let x = any8(); assume(x != 0x2C); assume(x != 0x21); assume(x != 0x3B); g.bytes(&[x, any8(), any8()]); }
        7 => { g.bytes(&[0x21, any8()]).bytes(&[1, 5, 0]); }
        _ => { g.desc(any16(), 1, 1, 1, 0x80).bytes(&bytes(6)).data(2, &lzw_literals(2, &px[..1], true), 255); }
    }
    g.gce(9, any16(), 0).frame(1, 2, 0, 2, &px[2..]);
    let mut d = g.end();
    if kind == 1 { let n = pick(d.len() as u64) as usize; d.truncate(n) }
    d
}
fn code(r: &Result<Option<Frame<'static>>, DecodingError>) -> u64 { match r { Ok(Some(_)) => 1, Ok(None) => 2, Err(e) => 10 + errcode(e) } }
/// params: kind, options, frames read before iterating
#[no_mangle]
pub extern "C" fn c10_same() {
    let d = stream(param(0));
    let mut a = match opts(param(1)).read_info(&d[..]) { Ok(x) => x, Err(_) => { cover(4); return } };
    let mut b = ok!(opts(param(1)).read_info(&d[..]));
    for _ in 0..param(2) { let _ = a.read_next_frame(); let _ = b.read_next_frame(); }
    let mut it = b.into_iter();
    let mut n = 0;
    loop {
        n += 1;
        chk!(n < 9);
        let r = a.read_next_frame().map(|f| f.cloned());
        obs(code(&r));
        match (r, it.next()) {
            (Ok(Some(x)), Some(Ok(y))) => { cover(1); chk!(same_frame_meta(&x, &y)); chk!(same(&x.buffer, &y.buffer)); obs_frame(&y) }
            (Ok(None), None) => { cover(2); break }
            (Err(x), Some(Err(y))) => { cover(3); chk!(errcode(&x) == errcode(&y)); break }
            _ => { unreachable_chk!() }
        }
    }
    for _ in 0..5 { chk!(it.next().is_none()) }
}
/// the source fails once and then goes on; params: kind, options, bytes per read
#[no_mangle]
pub extern "C" fn c10_resume() {
    let d = stream(param(0));
    let mut s = Src::new(&d, param(2) as usize);
    s.once = true;
    s.fail_at = Some(pick(d.len() as u64) as usize);
    s.kind = [std::io::ErrorKind::WouldBlock, std::io::ErrorKind::Interrupted, std::io::ErrorKind::Other][pick(3) as usize];
    let dec = match opts(param(1)).read_info(s) { Ok(x) => x, Err(e) => { cover(2); obs(errcode(&e)); return } };
    let mut it = dec.into_iter();
    let (mut frames, mut errs, mut ended) = (0u64, 0u64, false);
    for _ in 0..9 {
        match it.next() {
            None => ended = true,
            Some(Ok(_)) => { chk!(!ended); chk!(errs == 0); frames += 1 }
            Some(Err(_)) => { chk!(!ended); errs += 1; ended = true }
        }
    }
    chk!(ended); chk!(errs <= 1); chk!(frames <= 3);
    if errs == 1 { cover(1) }
    obs(frames); obs(errs);
}
/// arbitrary bytes after a frame; params: bytes, options
#[no_mangle]
pub extern "C" fn c10_raw() {
    let mut g = G::new(4, 4, 1, 0);
    g.frame(1, 1, 0, 2, &[1]);
    g.bytes(&bytes(param(0) as usize));
    let d = g.o;
    let mut op = opts(param(1));
    op.set_memory_limit(limit(50));
    let mut op2 = opts(param(1));
    op2.set_memory_limit(limit(50));
    let mut a = ok!(op.read_info(&d[..]));
    let mut it = ok!(op2.read_info(&d[..])).into_iter();
    for _ in 0..6 {
        match (a.read_next_frame(), it.next()) {
            (Ok(Some(x)), Some(Ok(y))) => { cover(1); chk!(same_frame_meta(x, &y)); chk!(same(&x.buffer, &y.buffer)); obs_frame(&y) }
            (Ok(None), None) => { cover(2); break }
            (Err(x), Some(Err(y))) => { cover(3); chk!(errcode(&x) == errcode(&y)); obs(errcode(&y)); break }
            _ => { unreachable_chk!() }
        }
    }
    for _ in 0..3 { chk!(it.next().is_none()) }
}
type Item = Result<Frame<'static>, DecodingError>;
fn same_item(a: &Item, b: &Item) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => same_frame_meta(x, y) & same(&x.buffer, &y.buffer),
        (Err(x), Err(y)) => errcode(x) == errcode(y),
        _ => false,
    }
}
/// the items of `it` are those of `all` from `k` on
fn rest(it: &mut dyn Iterator<Item = Item>, all: &[Item], k: usize) {
    let left = all.len() - k;
    let (lo, hi) = it.size_hint();
    chk!(lo <= left);
    if let Some(h) = hi { chk!(h >= left) }
    for x in all.iter().skip(k) { let y = some!(it.next()); chk!(same_item(x, &y)) }
    for _ in 0..3 { chk!(it.next().is_none()) }
    chk!(it.size_hint().0 == 0);
}
/// other ways to go through an iterator agree with `next`; params: kind of stream, options, way
/// ways: 0 nth, 1 count, 2 last, 3 skip, 4 take by reference, 5 fold, 6 collect, 7 every second item, 8 nth twice, 9 partition by find
#[no_mangle]
pub extern "C" fn c10_adapt() {
    let d = stream(param(0));
    let get = || opts(param(1)).read_info(&d[..]).map(|d| d.into_iter());
    let mut it = match get() { Ok(x) => x, Err(_) => { cover(4); return } };
    let mut all: Vec<Item> = vec![];
    while let Some(x) = it.next() { chk!(all.len() < 6); all.push(x) }
    let n = all.len();
    let mut it = ok!(get());
    match param(2) {
        0 | 8 => {
            let mut p = 0;
            for _ in 0..=param(2) / 8 {
                let k = pick(n as u64 + 2) as usize;
                match it.nth(k) { Some(y) => { chk!(p + k < n); chk!(same_item(&all[p + k], &y)); cover(1) } None => chk!(p + k >= n) }
                p = n.min(p + k + 1);
            }
            rest(&mut it, &all, p);
        }
        1 => chk!(it.count() == n),
        2 => match it.last() { Some(y) => { chk!(n > 0); chk!(same_item(&all[n - 1], &y)) } None => chk!(n == 0) },
        3 => {
            let k = pick(n as u64 + 2) as usize;
            let v: Vec<Item> = it.skip(k).collect();
            chk!(v.len() == n - k.min(n));
            for (x, y) in all[k.min(n)..].iter().zip(&v) { chk!(same_item(x, y)) }
        }
        4 => {
            let k = pick(n as u64 + 2) as usize;
            let v: Vec<Item> = it.by_ref().take(k).collect();
            chk!(v.len() == k.min(n));
            for (x, y) in all.iter().zip(&v) { chk!(same_item(x, y)) }
            rest(&mut it, &all, k.min(n));
        }
        5 => { let v = it.fold(vec![], |mut v, x| { v.push(x); v }); chk!(v.len() == n); for (x, y) in all.iter().zip(&v) { chk!(same_item(x, y)) } }
        6 => { let v: Vec<Item> = it.collect(); chk!(v.len() == n); for (x, y) in all.iter().zip(&v) { chk!(same_item(x, y)) } }
        7 => { let v: Vec<Item> = it.step_by(2).collect(); chk!(v.len() == (n + 1) / 2); for (x, y) in all.iter().step_by(2).zip(&v) { chk!(same_item(x, y)) } }
        _ => {
            // the first error, and then nothing
            match it.find(|x| x.is_err()) { Some(y) => { chk!(same_item(&all[n - 1], &y)); cover(2) } None => chk!(all.iter().all(|x| x.is_ok())) }
            rest(&mut it, &[], 0);
        }
    }
    obs(n as u64);
}
