//! Helpers shared by the harnesses.
use crate::h::*;
use gif::*;
use gif::streaming_decoder::*;
use std::num::NonZeroU64;

pub fn limit(n: u64) -> MemoryLimit { MemoryLimit::Bytes(NonZeroU64::new(n).unwrap()) }
pub const RGBA: u64 = 1; pub const CONSIST: u64 = 2; pub const SKIP: u64 = 4; pub const ENDCODE: u64 = 8; pub const UNKNOWN: u64 = 16; pub const UNLIM: u64 = 32;
/// options from a bit set
pub fn opts(o: u64) -> DecodeOptions {
    let mut d = DecodeOptions::new();
    if o & RGBA != 0 { d.set_color_output(ColorOutput::RGBA) }
    if o & CONSIST != 0 { d.check_frame_consistency(true) }
    if o & SKIP != 0 { d.skip_frame_decoding(true) }
    if o & ENDCODE != 0 { d.check_lzw_end_code(true) }
    if o & UNKNOWN != 0 { d.allow_unknown_blocks(true) }
    if o & UNLIM != 0 { d.set_memory_limit(MemoryLimit::Unlimited) }
    d
}
pub fn rep(r: Repeat) -> u64 { match r { Repeat::Finite(n) => n as u64, Repeat::Infinite => 65536 } }
/// error as a number: the kind of a wrapped I/O error, 1000 for format errors
pub fn errcode(e: &DecodingError) -> u64 { match e { DecodingError::Format(_) => 1000, DecodingError::Io(e) => iocode(e) } }
pub fn iocode(e: &std::io::Error) -> u64 {
    use std::io::ErrorKind::*;
    match e.kind() { UnexpectedEof => 1, InvalidData => 2, InvalidInput => 3, OutOfMemory => 4, Other => 5, BrokenPipe => 6, PermissionDenied => 7, WouldBlock => 8, Interrupted => 9, Unsupported => 10, WriteZero => 11, TimedOut => 12, ConnectionReset => 13, _ => 99 }
}
/// `n` symbolic bytes
pub fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| any8()).collect() }
/// `n` bytes, of which up to about 200 at both ends and in between are symbolic
pub fn many(n: usize) -> Vec<u8> {
    if n <= 200 { return bytes(n) }
    (0..n).map(|i| if i < 64 || i + 64 >= n || i % 12 == 7 && i < 3000 { any8() } else { (i * 37 + 11) as u8 }).collect()
}
/// `n` symbolic values of `bits` bits
pub fn vals(n: usize, bits: u32) -> Vec<u8> { (0..n).map(|_| any(bits) as u8).collect() }
/// deterministic filler
pub fn noise(n: usize, seed: u32, max: u32) -> Vec<u8> {
    let mut s = seed.wrapping_mul(2654435761).wrapping_add(12345);
    (0..n).map(|_| { s ^= s << 13; s ^= s >> 17; s ^= s << 5; (s % max) as u8 }).collect()
}
pub fn ev(d: &Decoded) -> u64 {
    match d {
        Decoded::Nothing => 0, Decoded::GlobalPalette(_) => 1, Decoded::BackgroundColor(_) => 2, Decoded::Repetitions(_) => 3, Decoded::HeaderEnd => 4,
        Decoded::BlockStart(Block::Image) => 5, Decoded::BlockStart(Block::Extension) => 6, Decoded::BlockStart(Block::Trailer) => 7,
        Decoded::SubBlockFinished(_) => 8, Decoded::BlockFinished(_) => 9, Decoded::FrameMetadata(_) => 10, Decoded::BytesDecoded(_) => 11, Decoded::LzwDataCopied(_) => 12, Decoded::DataEnd => 13, _ => 99,
    }
}
