//! Harnesses: one function per claim, executed symbolically by `sx` (LLVM IR)
//! and natively by `replay` with concrete inputs.
#![allow(clippy::all)]
#[macro_use]
pub mod h;
#[macro_use]
mod table;
pub mod model;
pub mod util;

harnesses! {
    c02: c02_raw, c02_lzw, c02_rich, c02_reader, c02_raw_reader, c02_long;
    c03: c03_screen, c03_magic, c03_repeat;
    c04: c04_frames, c04_palette;
    c05: c05_rows, c05_heights, c05_table, c05_long, c05_blocks, c05_clears;
    c06: c06_lookup, c06_frames, c06_big;
    c07: c07_frame, c07_fit, c07_any, c07_default, c07_history, c07_skip, c07_ext, c07_blocks, c07_unlimited, c07_raw;
    c08: c08_valid, c08_short, c08_lzw, c08_big, c08_plain, c08_stream;
    c09: c09_trunc, c09_io, c09_rest, c09_short, c09_control;
    c10: c10_same, c10_resume, c10_raw, c10_adapt;
    c11: c11_next, c11_skip, c11_bulk, c11_blocks;
    c12: c12_valid, c12_raw, c12_frame;
    c13: c13_calls, c13_palette, c13_history, c13_blocks, c13_trailer;
    c14: c14_frames, c14_palette, c14_size;
    c15: c15_any, c15_values, c15_long, c15_plain, c15_spot, c15_seq, c15_extra, c15_size;
    c16: c16_write, c16_read, c16_decoder, c16_reuse, c16_damaged;
    c17: c17_repeat, c17_label, c17_bytes, c17_raw, c17_split, c17_back, c17_frames;
    c18: c18_global, c18_local, c18_missing, c18_short, c18_large, c18_code, c18_both;
    c19: c19_fail, c19_short, c19_back;
    c20: c20_any, c20_many;
    c21: c21_palette, c21_indexed, c21_rgb, c21_large;
    c22: c22_any, c22_read, c22_iter;
    c23: c23_reject, c23_known, c23_skip;
    c24: c24_size, c24_frame_size, c24_end, c24_frame_end, c24_codes;
    c25: c25_decode, c25_source, c25_sink, c25_refused, c25_from;
    uni: uni_decode, uni_iter, uni_split, uni_events, uni_skip, uni_raw, uni_enc, uni_limit, uni_fail, uni_many, uni_calls;
    c01: c01_stream, c01_decoder, c01_frames, c01_frame_decoder, c01_sizes;
}
