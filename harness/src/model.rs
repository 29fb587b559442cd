//! Reference models, written from the GIF89a specification, independent of the library.
use crate::h::*;

/// bit writer, least significant bit first
pub struct Bits { pub out: Vec<u8>, acc: u32, n: u32 }
impl Bits {
    pub fn new() -> Self { Bits { out: vec![], acc: 0, n: 0 } }
    pub fn put(&mut self, v: u32, w: u32) {
        self.acc |= v << self.n;
        self.n += w;
        while self.n >= 8 { self.out.push(self.acc as u8); self.acc >>= 8; self.n -= 8 }
    }
    pub fn end(mut self) -> Vec<u8> { if self.n > 0 { self.out.push(self.acc as u8) } self.out }
}
/// LZW writer that is told which codes to use. The code width follows the specification:
/// it grows when the next table entry does not fit, up to 12 bits.
pub struct Lzw { b: Bits, m: u32, width: u32, next: u32, started: bool, table: Vec<Vec<u8>>, prev: Vec<u8>, pub px: Vec<u8> }
impl Lzw {
    pub fn new(m: u8) -> Self {
        let m = m as u32;
        let mut l = Lzw { b: Bits::new(), m, width: m + 1, next: (1 << m) + 2, started: false, table: vec![], prev: vec![], px: vec![] };
        l.clear();
        l
    }
    pub fn clear(&mut self) {
        self.b.put(1 << self.m, self.width);
        self.width = self.m + 1; self.next = (1 << self.m) + 2; self.started = false; self.table.clear(); self.prev.clear();
    }
    fn emit(&mut self, code: u32, s: Vec<u8>) {
        self.b.put(code, self.width);
        if self.started && self.next < 4096 {
            let mut e = self.prev.clone(); e.push(s[0]);
            self.table.push(e);
            self.next += 1;
            if self.next >= 1 << self.width && self.width < 12 { self.width += 1 }
        }
        self.started = true;
        self.px.extend_from_slice(&s);
        self.prev = s;
    }
    /// a pixel on its own
    pub fn lit(&mut self, p: u8) { let mask = (1u32 << self.m) - 1; self.emit(p as u32 & mask, vec![(p as u32 & mask) as u8]) }
    /// number of table entries that can be referenced, including the one being defined by this very code
    pub fn refs(&self) -> usize { self.table.len() + (self.started && self.next < 4096 && self.next < 1 << self.width) as usize }
    pub fn full(&self) -> bool { self.next >= 4096 }
    /// a reference to table entry `k`, counted from the first one after the literals
    pub fn refer(&mut self, k: usize) {
        let s = if k < self.table.len() { self.table[k].clone() } else { let mut e = self.prev.clone(); e.push(self.prev[0]); e };
        self.emit((1 << self.m) + 2 + k as u32, s)
    }
    /// a code that is beyond the table; nothing counts after it
    pub fn invalid(&mut self) {
        // the widest code is free unless the table is about to grow
        if self.next + 1 >= (1 << self.width) - 1 { self.clear() }
        self.b.put((1 << self.width) - 1, self.width);
    }
    pub fn end(mut self, end_code: bool) -> (Vec<u8>, Vec<u8>) {
        if end_code { self.b.put((1 << self.m) + 1, self.width) }
        (self.b.end(), self.px)
    }
}
/// LZW stream that holds the pixels as literals only (the table is cleared before the code size grows)
pub fn lzw_literals(m: u8, px: &[u8], end_code: bool) -> Vec<u8> {
    let m = m as u32;
    let mask = (1u32 << m) - 1;
    let mut b = Bits::new();
    let per = (1usize << m) - 2;
    let mut k = per;
    for &p in px {
        if k >= per { b.put(1 << m, m + 1); k = 0 }
        b.put(p as u32 & mask, m + 1);
        k += 1;
    }
    if px.is_empty() { b.put(1 << m, m + 1) }
    if end_code { b.put((1 << m) + 1, m + 1) }
    b.end()
}

/// Stream builder
#[derive(Clone)]
pub struct G { pub o: Vec<u8>, pub gct: usize, pub exts: Vec<(u8, Vec<Vec<u8>>)> }
impl G {
    /// `gct`: number of global colours as a power of two exponent 1..=8, 0 for no table. Colours are `fill`ed by the caller.
    pub fn new(w: u16, h: u16, gct: u8, bg: u8) -> G {
        let mut g = G { o: b"GIF89a".to_vec(), gct: 0, exts: vec![] };
        g.screen(w, h, if gct > 0 { 0x80 | (gct - 1) } else { 0 }, bg, 0);
        if gct > 0 { for i in 0..3usize << gct { g.o.push((i * 7 + 1) as u8) } }
        g
    }
    pub fn u16(&mut self, v: u16) -> &mut G { self.o.extend_from_slice(&[v as u8, (v >> 8) as u8]); self }
    pub fn bytes(&mut self, b: &[u8]) -> &mut G { self.o.extend_from_slice(b); self }
    pub fn screen(&mut self, w: u16, h: u16, flags: u8, bg: u8, aspect: u8) -> &mut G { self.u16(w).u16(h).bytes(&[flags, bg, aspect]) }
    pub fn gce(&mut self, flags: u8, delay: u16, t: u8) -> &mut G { self.ext(0xF9, &[&[flags, delay as u8, (delay >> 8) as u8, t]]) }
    pub fn ext(&mut self, label: u8, blocks: &[&[u8]]) -> &mut G {
        self.exts.push((label, blocks.iter().map(|b| b.to_vec()).collect()));
        self.bytes(&[0x21, label]);
        for b in blocks { self.o.push(b.len() as u8); self.bytes(b); }
        self.bytes(&[0])
    }
    pub fn netscape(&mut self, n: u16) -> &mut G { self.ext(0xFF, &[b"NETSCAPE2.0", &[1, n as u8, (n >> 8) as u8]]) }
    pub fn desc(&mut self, l: u16, t: u16, w: u16, h: u16, flags: u8) -> &mut G { self.bytes(&[0x2C]).u16(l).u16(t).u16(w).u16(h).bytes(&[flags]) }
    /// minimum code size, sub-blocks of at most `sub` bytes, terminator
    pub fn data(&mut self, m: u8, lzw: &[u8], sub: usize) -> &mut G {
        self.o.push(m);
        for c in lzw.chunks(sub) { self.o.push(c.len() as u8); self.o.extend_from_slice(c) }
        self.bytes(&[0])
    }
    /// plain frame with the given pixels as literals
    pub fn frame(&mut self, w: u16, h: u16, flags: u8, m: u8, px: &[u8]) -> &mut G {
        self.desc(0, 0, w, h, flags);
        let l = lzw_literals(m, px, true);
        self.data(m, &l, 255)
    }
    pub fn end(&mut self) -> Vec<u8> { self.o.push(0x3B); std::mem::take(&mut self.o) }
}
/// row in the image of the k-th transmitted row of an interlaced image (GIF89a appendix E)
pub fn interlaced_rows(h: usize) -> Vec<usize> {
    let mut r = vec![];
    for (start, step) in [(0, 8), (4, 8), (2, 4), (1, 2)] { let mut y = start; while y < h { r.push(y); y += step } }
    r
}
/// pixels in image order from transmission order
pub fn deinterlace(px: &[u8], w: usize, h: usize) -> Vec<u8> {
    let mut o = vec![0; w * h];
    for (k, y) in interlaced_rows(h).into_iter().enumerate() { o[y * w..][..w].copy_from_slice(&px[k * w..][..w]) }
    o
}
/// RGBA by palette lookup; indices without an entry give zeros
pub fn rgba(px: &[u8], pal: &[u8], t: Option<u8>) -> Vec<u8> {
    let mut o = vec![];
    for &p in px {
        let k = p as usize * 3;
        if k + 3 <= pal.len() {
            o.extend_from_slice(&[pal[k], pal[k + 1], pal[k + 2]]);
            let tr = match t { Some(t) => t == p, None => false };
            o.push(ite(tr, 0, 255) as u8);
        } else { o.extend_from_slice(&[0; 4]) }
    }
    o
}

/// Independent parser of what the encoder wrote. `None`: not a well-formed GIF89a stream.
pub struct Ext { pub label: u8, pub blocks: Vec<Vec<u8>> }
pub struct Img { pub l: u16, pub t: u16, pub w: u16, pub h: u16, pub flags: u8, pub pal: Vec<u8>, pub m: u8, pub blocks: Vec<usize>, pub lzw: Vec<u8> }
pub enum Part { Ext(Ext), Img(Img) }
pub struct Parsed { pub w: u16, pub h: u16, pub flags: u8, pub bg: u8, pub aspect: u8, pub pal: Vec<u8>, pub parts: Vec<Part>, pub trailer: bool }
pub struct P<'a> { b: &'a [u8], pos: usize }
impl<'a> P<'a> {
    fn u8(&mut self) -> Option<u8> { let v = *self.b.get(self.pos)?; self.pos += 1; Some(v) }
    fn u16(&mut self) -> Option<u16> { let a = self.u8()?; let b = self.u8()?; Some(a as u16 | (b as u16) << 8) }
    fn take(&mut self, n: usize) -> Option<&'a [u8]> { let s = self.b.get(self.pos..self.pos.checked_add(n)?)?; self.pos += n; Some(s) }
}
/// `trailer`: the stream must be complete, with nothing behind the trailer; otherwise it must end between two blocks
pub fn parse(b: &[u8], trailer: bool) -> Option<Parsed> {
    let mut p = P { b, pos: 0 };
    if p.take(6)? != b"GIF89a" { return None }
    let w = p.u16()?; let h = p.u16()?; let flags = p.u8()?; let bg = p.u8()?; let aspect = p.u8()?;
    let pal = if flags & 0x80 != 0 { p.take(6 << (flags & 7))?.to_vec() } else { vec![] };
    let mut parts = vec![];
    loop {
        if p.pos == b.len() { return if trailer { None } else { Some(Parsed { w, h, flags, bg, aspect, pal, parts, trailer: false }) } }
        match p.u8()? {
            0x3B => return if trailer && p.pos == b.len() { Some(Parsed { w, h, flags, bg, aspect, pal, parts, trailer: true }) } else { None },
            0x21 => {
                let label = p.u8()?;
                let mut blocks = vec![];
                loop { let n = p.u8()? as usize; if n == 0 { break } blocks.push(p.take(n)?.to_vec()) }
                parts.push(Part::Ext(Ext { label, blocks }));
            }
            0x2C => {
                let l = p.u16()?; let t = p.u16()?; let w = p.u16()?; let h = p.u16()?; let flags = p.u8()?;
                let pal = if flags & 0x80 != 0 { p.take(6 << (flags & 7))?.to_vec() } else { vec![] };
                let m = p.u8()?;
                let mut lzw = vec![]; let mut blocks = vec![];
                loop { let n = p.u8()? as usize; if n == 0 { break } blocks.push(n); lzw.extend_from_slice(p.take(n)?) }
                parts.push(Part::Img(Img { l, t, w, h, flags, pal, m, blocks, lzw }));
            }
            _ => return None,
        }
    }
}
/// Independent LZW decoder (concrete code streams; symbolic ones are explored code by code).
/// Returns pixels and whether the end code was found with nothing but padding behind it.
pub fn unlzw(m: u8, d: &[u8]) -> Option<(Vec<u8>, bool)> {
    let m = m as u32;
    let (clear, end) = (1u32 << m, (1u32 << m) + 1);
    let (mut acc, mut n, mut i) = (0u32, 0u32, 0);
    let mut width = m + 1;
    let mut tab: Vec<Vec<u8>> = vec![];
    let mut prev: Vec<u8> = vec![];
    let mut out = vec![];
    loop {
        while n < width { if i >= d.len() { return Some((out, false)) } acc |= (d[i] as u32) << n; i += 1; n += 8 }
        let c = acc & ((1 << width) - 1); acc >>= width; n -= width;
        if c == clear { width = m + 1; tab.clear(); prev.clear(); continue }
        if c == end { return Some((out, i == d.len() && n < 8)) }
        let s = if c < clear { vec![c as u8] } else {
            let k = (c - end - 1) as usize;
            if k < tab.len() { tab[k].clone() } else if k == tab.len() && !prev.is_empty() { let mut e = prev.clone(); e.push(prev[0]); e } else { return None }
        };
        if !prev.is_empty() && tab.len() + (end as usize) + 1 < 4096 {
            let mut e = prev; e.push(s[0]); tab.push(e);
            if tab.len() + end as usize + 1 >= 1 << width && width < 12 { width += 1 }
        }
        out.extend_from_slice(&s);
        prev = s;
    }
}

/// Source that returns at most `step` bytes per read, fails at `fail_at` with `kind` (if any), and counts reads
pub struct Src<'a> { pub d: &'a [u8], pub pos: usize, pub step: usize, pub fail_at: Option<usize>, pub kind: std::io::ErrorKind, pub once: bool, pub cut: usize }
impl<'a> Src<'a> {
    pub fn new(d: &'a [u8], step: usize) -> Self { Src { d, pos: 0, step, fail_at: None, kind: std::io::ErrorKind::Other, once: false, cut: 0 } }
}
impl std::io::Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let mut n = b.len().min(self.step).min(self.d.len() - self.pos);
        if self.pos < self.cut { n = n.min(self.cut - self.pos) }
        if let Some(f) = self.fail_at {
            if self.pos >= f { if self.once { self.fail_at = None } return Err(self.kind.into()) }
            n = n.min(f - self.pos);
        }
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn same_frame_meta(a: &gif::Frame<'_>, b: &gif::Frame<'_>) -> bool {
    let mut c = and(a.delay == b.delay, a.dispose as u8 == b.dispose as u8);
    c = and(c, a.needs_user_input == b.needs_user_input);
    c = and(c, same_opt(a.transparent, b.transparent));
    c = and(c, and(a.left == b.left, a.top == b.top));
    c = and(c, and(a.width == b.width, a.height == b.height));
    c = and(c, a.interlaced == b.interlaced);
    and(c, match (&a.palette, &b.palette) { (Some(x), Some(y)) => same(x, y), (None, None) => true, _ => false })
}
pub fn same_opt(a: Option<u8>, b: Option<u8>) -> bool {
    or(and(a.is_none(), b.is_none()), and(and(a.is_some(), b.is_some()), a.unwrap_or(0) == b.unwrap_or(0)))
}
pub fn obs_frame(f: &gif::Frame<'_>) {
    for v in [f.delay as u64, f.dispose as u64, f.transparent.map_or(256, |x| x as u64), f.needs_user_input as u64, f.left as u64, f.top as u64, f.width as u64, f.height as u64, f.interlaced as u64] { obs(v) }
    match &f.palette { Some(p) => obs_bytes(p), None => obs(99999) }
    obs_bytes(&f.buffer);
}
