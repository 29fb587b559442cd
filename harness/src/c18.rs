//! The encoder accepts exactly the frames that can be represented.
use crate::h::*; use crate::util::*;
use crate::c13::dispose;
use gif::*;
use std::io::{self, Write};

/// counts the bytes
pub struct Count(pub usize);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0 += b.len(); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// 1 too many colours, 2 missing palette, 3 invalid code size, 100.. I/O errors
pub fn code(e: &EncodingError) -> u64 {
    match e {
        EncodingError::Format(EncodingFormatError::TooManyColors) => 1,
        EncodingError::Format(EncodingFormatError::MissingColorPalette) => 2,
        EncodingError::Format(EncodingFormatError::InvalidMinCodeSize) => 3,
        EncodingError::Io(e) => 100 + iocode(e),
        _ => 50,
    }
}
pub fn res<T>(r: Result<T, EncodingError>) -> u64 { match r { Ok(_) => 0, Err(e) => code(&e) } }
/// arbitrary settings that do not matter
fn settings(f: &mut Frame<'_>) {
    f.delay = any16(); f.dispose = dispose(pick(4)); f.needs_user_input = anyb(); f.transparent = if pickb() { Some(any8()) } else { None };
    f.left = any16(); f.top = any16(); f.interlaced = anyb();
}
/// global palette of any length up to the bound; param: bound
#[no_mangle]
pub extern "C" fn c18_global() {
    let all = vec![7u8; param(0) as usize];
    let n = conc(below(param(0) + 1, 16)) as usize;
    let mut c = Count(0);
    let many = n >= 257 * 3;
    let r = res(Encoder::new(&mut c, any16(), any16(), &all[..n]));
    obs(r);
    if r == 0 { chk!(!many); cover(1) } else { chk!(many && r == 1); cover(2) }
}
/// local palette of any length; params: bound, way of writing
#[no_mangle]
pub extern "C" fn c18_local() {
    let n = below(param(0) + 1, 16) as usize;
    let n = conc(n as u64) as usize;
    let mut c = Count(0);
    let mut e = ok!(Encoder::new(&mut c, 1, 1, &[1, 2, 3][..pick(2) as usize * 3]));
    let mut f = Frame::default();
    f.delay = any16(); f.left = any16(); f.interlaced = anyb();
    f.width = 1; f.height = 1; f.buffer = vec![0].into();
    f.palette = Some(vec![9; n]);
    let r = if param(1) == 0 { res(e.write_frame(&f)) } else { f.make_lzw_pre_encoded(); res(e.write_lzw_pre_encoded_frame(&f)) };
    obs(r);
    if r == 0 { chk!(n < 257 * 3); cover(1) } else { chk!(and(n >= 257 * 3, r == 1)); cover(2) }
}
/// no palette at all; param: way of writing
#[no_mangle]
pub extern "C" fn c18_missing() {
    let g = pick(8) as usize;
    let mut c = Count(0);
    let mut e = ok!(Encoder::new(&mut c, 1, 1, &[7; 8][..g]));
    let mut f = Frame::default();
    settings(&mut f);
    let l = pick(5) as usize;
    f.palette = if l == 4 { None } else { Some(vec![1; l * 2]) };
    f.width = 1; f.height = 1; f.buffer = vec![2].into();
    let n = e.get_ref().0;
    let r = if param(0) == 0 { res(e.write_frame(&f)) } else { res(e.write_lzw_pre_encoded_frame(&f)) };
    obs(r);
    // less than a colour is no palette
    let missing = and(f.palette.is_none(), g < 3);
    chk!(r == ite(missing, 2, 0));
    if r == 2 { cover(2) } else { chk!(e.get_ref().0 > n); cover(1) }
    // the encoder can still be used
    f.palette = Some(vec![1; 6]);
    chk!(res(e.write_frame(&f)) == 0);
}
/// pixel buffer against any width and height; param: buffer length
#[no_mangle]
pub extern "C" fn c18_short() {
    let n = param(0) as usize;
    let mut c = Count(0);
    let mut e = ok!(Encoder::new(&mut c, 1, 1, &[1, 2, 3]));
    let mut f = Frame::default();
    f.delay = any16(); f.left = any16(); f.interlaced = anyb();
    if pickb() { f.palette = Some(vec![1; 6]) }
    f.width = any16(); f.height = any16();
    f.buffer = vec![1; n].into();
    let need = f.width as usize * f.height as usize;
    // documented as misuse (debug assertion)
    if n > 0 { assume(need > 0) }
    let before = e.get_ref().0;
    let r = res(e.write_frame(&f));
    obs(r);
    let short = need > n;
    if r == 0 { chk!(not(short)); cover(1) } else { chk!(and(short, r == 103)); chk!(e.get_ref().0 == before); cover(2) }
}
/// large frames; params: width, height, buffer length
#[no_mangle]
pub extern "C" fn c18_large() {
    let n = param(2) as usize;
    let mut c = Count(0);
    let mut e = ok!(Encoder::new(&mut c, 1, 1, &[1, 2, 3]));
    let mut f = Frame::default();
    f.left = any16(); f.delay = any16();
    f.width = param(0) as u16; f.height = param(1) as u16;
    f.buffer = vec![1; n].into();
    let before = e.get_ref().0;
    let r = res(e.write_frame(&f));
    obs(r);
    let short = f.width as usize * f.height as usize > n;
    if r == 0 { chk!(!short); cover(1) } else { chk!(short && r == 103); chk!(e.get_ref().0 == before); cover(2) }
}
/// compressed data with any code size and any further bytes; param: length
#[no_mangle]
pub extern "C" fn c18_code() {
    let n = param(0) as usize;
    let mut c = Count(0);
    let mut e = ok!(Encoder::new(&mut c, 1, 1, &[1, 2, 3]));
    let mut f = Frame::default();
    settings(&mut f);
    f.width = any16(); f.height = any16();
    let z = bytes(n);
    f.buffer = z.clone().into();
    let before = e.get_ref().0;
    let r = res(e.write_lzw_pre_encoded_frame(&f));
    obs(r);
    let bad = n > 0 && or(z[0] < 2, z[0] > 11);
    if r == 0 { chk!(not(bad)); chk!(e.get_ref().0 > before); cover(1) } else { chk!(and(bad, r == 3)); chk!(e.get_ref().0 == before); cover(2) }
    if bad { cover(3) }
    // and what follows is not affected
    f.buffer = vec![2].into();
    chk!(res(e.write_lzw_pre_encoded_frame(&f)) == 0);
}
/// errors take precedence over writing: a frame with several faults leaves nothing behind; param: fault of the buffer (0 short, 1 code size)
#[no_mangle]
pub extern "C" fn c18_both() {
    let mut c = Count(0);
    let mut e = ok!(Encoder::new(&mut c, 1, 1, &[][..]));
    let mut f = Frame::default();
    settings(&mut f);
    f.width = 2; f.height = 2;
    f.palette = match pick(3) { 0 => None, 1 => Some(vec![0; 800]), _ => Some(vec![1; 3]) };
    let before = e.get_ref().0;
    let r = if param(0) == 0 { f.buffer = bytes(3).into(); res(e.write_frame(&f)) }
        else { let m = any8(); assume(or(m < 2, m > 11)); f.buffer = vec![m, 1, 2].into(); res(e.write_lzw_pre_encoded_frame(&f)) };
    obs(r);
    chk!(r != 0);
    chk!(e.get_ref().0 == before);
    cover(1);
}
