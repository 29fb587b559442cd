//! Errors say what went wrong and keep their cause.
use crate::h::*; use crate::model::*; use crate::util::*;
use gif::*; use gif::streaming_decoder::*;
use std::error::Error;
use std::io::{self, Read, Write};
use std::fmt;

/// where a description goes; only its length counts
struct Len(usize);
impl fmt::Write for Len { fn write_str(&mut self, s: &str) -> fmt::Result { self.0 += s.len(); Ok(()) } }
fn len<T: fmt::Display + ?Sized>(e: &T) -> usize { let mut l = Len(0); chk!(fmt::Write::write_fmt(&mut l, format_args!("{}", e)).is_ok()); l.0 }
/// an error of one's own
#[derive(Debug)]
struct Mine(u64);
impl fmt::Display for Mine { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("mine") } }
impl Error for Mine {}
fn mine(kind: io::ErrorKind, v: u64) -> io::Error { io::Error::new(kind, Mine(v)) }
const KINDS: [io::ErrorKind; 6] = [io::ErrorKind::Other, io::ErrorKind::PermissionDenied, io::ErrorKind::InvalidData, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::OutOfMemory];

/// every error has a description and a cause
fn sound(e: &DecodingError) {
    let n = len(e);
    chk!(n > 0);
    let s = some!(e.source());
    chk!(len(s) == n);
    match e {
        DecodingError::Io(i) => { cover(1); let c = some!(s.downcast_ref::<io::Error>()); chk!(c.kind() == i.kind()); chk!(!s.is::<DecodingFormatError>()) }
        DecodingError::Format(f) => { cover(2); chk!(len(f) == n); chk!(s.is::<DecodingFormatError>()); chk!(len(some!(f.source())) == n) }
    }
    obs(n as u64);
}
fn is_mine(i: &io::Error, kind: io::ErrorKind, v: u64) { chk!(i.kind() == kind); chk!(some!(some!(i.get_ref()).downcast_ref::<Mine>()).0 == v) }

/// all errors of the decoder; params: prefix of c01, symbolic bytes, options, way (0 decoder, 1 low-level)
#[no_mangle]
pub extern "C" fn c25_decode() {
    let mut d = crate::c01::prefix(param(0));
    d.extend_from_slice(&bytes(param(1) as usize));
    let mut op = opts(param(2));
    op.set_memory_limit(limit(64));
    if param(3) == 0 {
        match op.read_info(Src::new(&d, 1000)) {
            Err(e) => sound(&e),
            Ok(mut dec) => loop { match dec.read_next_frame() { Ok(Some(_)) => {} Ok(None) => { cover(3); break } Err(e) => { sound(&e); break } } },
        }
    } else {
        let mut s = StreamingDecoder::new();
        let (mut p, mut idle, mut v) = (0, 0, vec![]);
        while p < d.len() && idle < 20 {
            match s.update(&d[p..], &mut OutputBuffer::Vec(&mut v)) { Ok((n, _)) => { p += n; idle = if n == 0 { idle + 1 } else { 0 } } Err(e) => { sound(&e); break } }
        }
        cover(3);
    }
}
struct Bad<'a> { d: &'a [u8], kind: io::ErrorKind, v: u64 }
impl Read for Bad<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.d.is_empty() { return Err(mine(self.kind, self.v)) }
        let n = b.len().min(self.d.len());
        b[..n].copy_from_slice(&self.d[..n]);
        self.d = &self.d[n..];
        Ok(n)
    }
}
/// the very error of the source arrives, wherever it happens; params: stream of c09, options, access (0 frames, 1 iterator, 2 into a buffer)
#[no_mangle]
pub extern "C" fn c25_source() {
    let s = crate::c09::stream(param(0));
    let at = pick(s.d.len() as u64) as usize;
    let kind = KINDS[pick(6) as usize];
    let v = any(64);
    let e = (|| -> Result<(), DecodingError> {
        let mut dec = opts(param(1)).read_info(Bad { d: &s.d[..at], kind, v })?;
        match param(2) {
            0 => while dec.read_next_frame()?.is_some() {},
            1 => for x in dec { x?; },
            _ => while dec.next_frame_info()?.is_some() { let mut b = vec![0; dec.buffer_size()]; dec.read_into_buffer(&mut b)? },
        }
        Ok(())
    })();
    match e {
        Err(e) => {
            sound(&e);
            match &e { DecodingError::Io(i) => is_mine(i, kind, v), _ => chk!(false) }
            is_mine(some!(some!(e.source()).downcast_ref::<io::Error>()), kind, v);
        }
        Ok(()) => chk!(false),
    }
}
struct Full { left: usize, kind: io::ErrorKind, v: u64 }
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 { return Err(mine(self.kind, self.v)) }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn sound_enc(e: &EncodingError) {
    let n = len(e);
    chk!(n > 0);
    let s = some!(e.source());
    chk!(len(s) == n);
    match e {
        EncodingError::Io(i) => { cover(1); chk!(some!(s.downcast_ref::<io::Error>()).kind() == i.kind()) }
        EncodingError::Format(_) => { cover(2); chk!(s.is::<EncodingFormatError>()) }
    }
    obs(n as u64);
}
/// the very error of the sink arrives; params: call (as in c19)
#[no_mangle]
pub extern "C" fn c25_sink() {
    let gp = bytes(6);
    let c = crate::c19::call(param(0));
    let mut e = ok!(Encoder::new(vec![], 5, 5, &gp));
    ok!(crate::c19::doit(&mut e, &c));
    let n = e.get_ref().len() + 1;
    let kind = KINDS[pick(6) as usize];
    let v = any(64);
    let left = pick(n as u64) as usize;
    let r = (|| -> Result<(), EncodingError> { let mut e = Encoder::new(Full { left, kind, v }, 5, 5, &gp)?; crate::c19::doit(&mut e, &c)?; e.into_inner()?; Ok(()) })();
    match r {
        Err(e) => {
            sound_enc(&e);
            match &e { EncodingError::Io(i) => is_mine(i, kind, v), _ => chk!(false) }
            is_mine(some!(some!(e.source()).downcast_ref::<io::Error>()), kind, v);
        }
        Ok(()) => chk!(false),
    }
}
/// refused arguments: which error it is; params: case
#[no_mangle]
pub extern "C" fn c25_refused() {
    let big = vec![any8(); 257 * 3];
    let r = (|| -> Result<(), EncodingError> {
        let mut e = Encoder::new(vec![], any16(), 3, if param(0) == 0 { &big } else { &[] })?;
        let mut f = Frame::default();
        f.delay = any16(); f.width = 1; f.height = 1; f.buffer = vec![1].into();
        match param(0) {
            1 => f.palette = Some(big.clone()),
            3 => { f.palette = Some(bytes(6)); f.buffer = vec![].into() }
            4 => { f.palette = Some(bytes(6)); f.buffer = vec![12 + pick(200) as u8, 1, 1].into(); return e.write_lzw_pre_encoded_frame(&f) }
            _ => {}
        }
        e.write_frame(&f)
    })();
    match r {
        Err(e) => {
            sound_enc(&e);
            chk!(match (&e, param(0)) {
                (EncodingError::Format(EncodingFormatError::TooManyColors), 0 | 1) | (EncodingError::Format(EncodingFormatError::MissingColorPalette), 2) | (EncodingError::Format(EncodingFormatError::InvalidMinCodeSize), 4) => true,
                (EncodingError::Io(i), 3) => i.kind() == io::ErrorKind::InvalidInput,
                _ => false,
            });
        }
        Ok(()) => chk!(false),
    }
}
/// conversions from I/O errors; no params
#[no_mangle]
pub extern "C" fn c25_from() {
    let kind = KINDS[pick(6) as usize];
    let v = any(64);
    let d: DecodingError = mine(kind, v).into();
    sound(&d);
    match &d { DecodingError::Io(i) => is_mine(i, kind, v), _ => chk!(false) }
    let d: DecodingError = kind.into();
    sound(&d);
    match &d { DecodingError::Io(i) => { chk!(i.kind() == kind); chk!(i.get_ref().is_none()) } _ => chk!(false) }
    let e: EncodingError = mine(kind, v).into();
    sound_enc(&e);
    match &e { EncodingError::Io(i) => is_mine(i, kind, v), _ => chk!(false) }
    let mut all = vec![];
    for f in [EncodingFormatError::TooManyColors, EncodingFormatError::MissingColorPalette, EncodingFormatError::InvalidMinCodeSize] {
        let n = len(&f);
        let e: EncodingError = f.into();
        sound_enc(&e);
        chk!(len(&e) == n);
        let t = e.to_string();
        for x in &all { chk!(*x != t) }
        all.push(t);
    }
}
