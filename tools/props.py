#!/usr/bin/env python3
"""Source of properties.jsonl (run it to rewrite the file)."""
import json, os
D, C, M, E, K, T = "src/reader/decoder.rs", "src/reader/converter.rs", "src/reader/mod.rs", "src/encoder.rs", "src/common.rs", "src/traits.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Decoding untrusted bytes never panics, overflows or hangs",
  "For every byte string, every combination of decoder options and every order of calls a user may make (also after an error was returned), each decoder entry point returns a value or an error after a number of steps bounded by the input length. It never panics, overflows an integer, reads or writes out of bounds, or loops forever.",
  ["inputs", "configurations", "histories"], "all byte strings (also fed in pieces), all option combinations, all call orders",
  "tests decode a few dozen sample files; a panic needs one particular byte in one particular decoder state", [D, C, M],
  [("state machine of the streaming decoder", D+": next_state"), ("size checks before slicing", C+": fill_buffer, read_into_buffer"), ("ReadDecoder loop", M+": decode_next")],
  [("state", "where in the stream the decoder is", D+": StreamingDecoder.state")], ["return values of StreamingDecoder::update, Decoder::*"])
p("C02", "Decoding does not depend on how the input is split into chunks",
  "Feeding a stream to the streaming decoder in pieces of any sizes, or reading it from a source that returns any number of bytes per read, gives the same dimensions, palettes, frame metadata, extension data, pixels and errors as feeding it at once. The number of bytes reported as consumed never exceeds what was supplied, and input is never lost or used twice.",
  ["inputs", "histories"], "all streams, all ways to cut them into pieces",
  "tests only feed whole files or byte by byte for a few samples", [D, M],
  [("internal_buffer collects short reads", D+": ensure_min_length_buffer!"), ("per-state byte counters", D+": GlobalPalette, LocalPalette, ExtensionDataBlock, DecodeSubBlock, CopySubBlock")],
  [("internal_buffer", "bytes of an incomplete fixed-size header", D)], ["Decoded events, output bytes"])
p("C03", "Screen descriptor, global palette and loop count are reported as stored",
  "After the header of a stream was read, the reported version, width, height, global palette bytes and loop count are exactly those stored in it: a NETSCAPE2.0 looping extension before the first image gives the count (0 meaning infinite), other extensions do not change it, and without one it is finite zero. The background colour index is the stored one, or none when it lies outside of the global palette.",
  ["inputs"], "all headers: versions, dimensions, flags, palette sizes and contents, application extensions",
  "tests assert a handful of fixed headers; each field and each of 8 palette sizes has to be right for every value", [D, M, C],
  [("header states", D+": Magic, ScreenDescriptor, GlobalPalette, ApplicationExtension"), ("Decoder::init", M)], [], ["Decoder::{width,height,global_palette,bg_color,repeat}, StreamingDecoder::{version,width,height}"])
p("C04", "Each frame carries exactly its own metadata",
  "For every frame the decoder reports exactly the offsets, size, interlace flag and local palette of its image descriptor, and the delay, disposal method, transparent index and user-input flag of the graphic control extension that precedes it. A frame without such an extension or without a local palette gets the defaults; nothing carries over from one frame to the next.",
  ["inputs", "histories"], "all field values and all sequences of frames with and without control extensions and local palettes",
  "sample files rarely mix frames with and without extensions and use few field values", [D, M, K],
  [("frame header parsing", D+": ImageBlockStart, LocalPalette, read_control_extension, add_frame"), ("hand-over of the frame", M+": next_frame_info; "+K+": Frame::take")],
  [("current", "frame being assembled", D+": StreamingDecoder.current")], ["Decoder::next_frame_info, read_next_frame, palette(), iterator items"])
p("C05", "Image data is decompressed in order and rows end up where they belong",
  "The indexed pixels of a frame are the first width*height values of its LZW stream, whatever the code size, the growth of the code width, the use of table references and the division into sub-blocks. For interlaced frames the four-pass row order is undone, so that the row transmitted for line y is delivered as line y.",
  ["inputs"], "all pixel values, frame sizes, minimum code sizes, sub-block divisions, interlaced or not",
  "reference images cover a few sizes; interlacing and block boundaries are sensitive to exact heights and lengths", [D, C, M],
  [("sub-block loop", D+": DecodeSubBlock, LzwReader"), ("InterlaceIterator and read_into_buffer", C)], [], ["Frame.buffer, read_into_buffer"])
p("C06", "RGBA output is the palette lookup of the indexed output",
  "With RGBA output every pixel is the palette colour of its index, taken from the frame's local palette or else the global one, with alpha 0 if and only if the index is the frame's transparent index and 255 otherwise. An index without a palette entry gives a pixel of four zero bytes, and a frame for which there is no palette at all is reported as an error.",
  ["inputs", "configurations"], "all palettes, pixel values and transparent indices, local or global palette, interlaced or not",
  "tests compare a few images; wrong palette choice or bounds show only for particular indices and palette sizes", [C, M, D],
  [("fill_buffer conversion", C), ("palette check", M+": next_frame_info")], [], ["Frame.buffer, fill_buffer, read_into_buffer, palette()"])
p("C07", "The memory limit is enforced exactly and bounds allocations",
  "A frame is rejected with an error if its output buffer would be larger than the configured limit, and is never rejected because of the limit otherwise. No decoder call allocates more than a small constant plus a small multiple of the limit, whatever sizes the stream announces; this includes extension data and frames kept compressed.",
  ["inputs", "configurations"], "all limits, frame dimensions, colour modes, stream contents",
  "tests check single sizes; an overflow or wrong comparison needs specific dimensions", [M, C, D],
  [("MemoryLimit::buffer_size, check_size", M), ("check_buffer_size", C), ("OutputBuffer::append, ExtensionDataBlock", D)], [("memory_limit", "limit in bytes", M)], ["error or success of read_next_frame, allocation sizes"])
p("C08", "All ways to obtain the pixels of a frame agree",
  "Reading a frame as a whole, into a caller's buffer, in pieces of any sizes, through the iterator or through the low-level decoder yields the same pixels, metadata and success or failure. The announced buffer size and line length are exactly width*height and width pixels, of one or four bytes.",
  ["inputs", "histories"], "all streams and all ways to split the output buffer",
  "tests use one access path per file", [M, C, D],
  [("read_frame, read_into_buffer, fill_buffer", C), ("Decoder methods", M)], [], ["Decoder::{read_next_frame, read_into_buffer, fill_buffer, into_iter, buffer_size, line_length}"])
p("C09", "Damaged, truncated or unreadable input is reported, never passed off as complete",
  "If the input ends before the trailer, a fixed header field is invalid, a frame has fewer pixels than its size requires, or the source fails, the decoder returns an error (the source's own error kind if it failed); frames that are complete before that point are still delivered. The regular end is reported only once the trailer was read, and nothing after the trailer is consumed.",
  ["inputs", "fault_sequences"], "all cut positions, all invalid header values, all read failures",
  "tests truncate a few files; every position in every structure has to be handled", [M, D, C],
  [("at_eof and UnexpectedEof", M+": decode_next"), ("format errors", D+": next_state, read_control_extension, check_code_size"), ("'image truncated'", C)], [("at_eof", "trailer seen", M)], ["results of read_info, next_frame_info, read_next_frame; into_inner"])
p("C10", "The frame iterator yields every frame and at most one error, then ends",
  "Iterating a decoder yields, in order, the same frames as reading them one by one, then ends; an error is yielded at most once and is the last item. After the end or an error the iterator yields nothing forever, even if more input is available.",
  ["inputs", "histories"], "all streams, all points of failure, any number of further calls",
  "tests iterate valid files to their end only once", [M], [("DecoderIter::next", M)], [("ended", "no more items", M+": DecoderIter.ended")], ["items of into_iter()"])
p("C11", "Skipped or partly read frames do not disturb the following ones",
  "Whether the pixels of a frame are read fully, in part or not at all, and whether its data holds more than its pixels (also after the end code or in further sub-blocks), all later frames have the same metadata and pixels. The number of frames found is the same too.",
  ["inputs", "histories"], "all sequences of full, partial and skipped reads over all frame contents",
  "tests skip frames of a few files only", [M, D, C], [("events ignored until the next frame", M+": next_frame_info"), ("discarding data", D+": DecodeSubBlock, CopySubBlock")], [], ["later frames"])
p("C12", "The low-level decoder reports the stream's structure in order and without loss",
  "The streaming decoder's events follow the order of the stream: background colour, global palette, header end exactly once before the first image or the trailer, and for each image its block start, metadata, data and exactly one data end, with the trailer as the last event. The sum of announced decoded bytes is the number written to the output, and when an extension ends its label and its complete payload (first block's length byte, then the data of all its sub-blocks) are available, with each sub-block boundary reported once.",
  ["inputs", "histories"], "all streams of extensions and images, all payloads, output buffers of all sizes",
  "tests do not look at events or at extension payloads beyond one file", [D], [("event emission", D+": next_state"), ("last_ext", D)], [("ext", "last extension", D+": ExtensionData")], ["Decoded values, last_ext()"])
p("C13", "Everything the encoder writes is a well-formed GIF89a stream",
  "For every sequence of successful calls the output is a valid GIF89a stream: header, screen descriptor and colour tables padded to the announced power of two, extensions and image data in sub-blocks of at most 255 bytes ended by a terminator. It ends with exactly one trailer, whether the encoder is dropped or taken apart, and what is written for a call does not depend on earlier calls.",
  ["inputs", "histories", "configurations"], "all sizes, palettes (also not a power of two or not a multiple of three), frames, extensions and call sequences",
  "tests only decode the output with the same library, which forgives errors", [E, T, K],
  [("write_screen_desc, write_color_table, check_color_table, flag_size", E), ("write_encoded_image_block, write_raw_extension", E), ("Drop and into_inner", E)], [], ["bytes given to the writer"])
p("C14", "Frame metadata and palettes survive encoding and decoding",
  "Encoding frames and decoding the result gives back the image size, global palette, and for every frame its offsets, size, delay, disposal method, transparent index, user-input flag and palette, apart from padding of palettes with black to a power of two. This holds for every sequence of frames with different settings.",
  ["inputs", "histories"], "all values of all fields in all sequences of frames",
  "tests round-trip a few files whose fields take few values", [E, D, M, K], [("write_frame_header, new_control_ext", E), ("parsing", D)], [], ["decoded frames"])
p("C15", "Pixels survive encoding and decoding",
  "Encoding indexed pixels and decoding the result returns the same pixels in order, for every pixel content, frame size and number of colours, for any sequence of frames written to one encoder. Frames without pixels survive as well.",
  ["inputs", "histories"], "all pixel buffers and frame sizes, including those that cross sub-block and code width boundaries",
  "tests round-trip a few pictures; the code size choice and block splitting have boundaries at particular values and lengths", [E, D, C],
  [("lzw_encode: code size", E), ("write_image_block, write_encoded_image_block", E)], [("buffer", "compressed data, reused between frames", E+": Encoder.buffer")], ["decoded pixels"])
p("C16", "Pre-compressed frames are equivalent to ordinary ones",
  "Compressing a frame beforehand and writing it produces the same bytes as writing the frame directly. Reading a stream with frame decoding skipped gives the same metadata and compressed data which can be written again unchanged, or be decoded separately to the same pixels (deinterlaced, indexed or RGBA) as decoding the stream directly.",
  ["inputs", "configurations"], "all frames, sub-block divisions, colour modes and code sizes",
  "tests cover one file for this path", [E, D, M, C], [("make_lzw_pre_encoded, write_lzw_pre_encoded_frame", E), ("CopySubBlock, FrameDecoder", D), ("copy_lzw_into_buffer", M)], [], ["written bytes, FrameDecoder output"])
p("C17", "Loop count and raw extensions survive encoding and decoding",
  "Setting a loop count and decoding gives the same count back, zero finite repetitions being expressed by writing nothing. A raw extension with any label and any payload blocks is written with that label and the payload in order, divided into sub-blocks of at most 255 bytes, and is read back completely.",
  ["inputs"], "all loop counts; all labels, numbers and lengths of payload blocks",
  "tests use one loop count and no long extension payload", [E, D, M], [("write_extension, write_raw_extension", E), ("ExtensionDataBlock, ApplicationExtension", D)], [], ["Decoder::repeat, last_ext, written bytes"])
p("C18", "The encoder accepts exactly the frames that can be represented",
  "Writing fails with the documented error if a palette has more than 256 colours, if neither a local nor a global palette exists, if the pixel buffer is shorter than width*height, or if pre-compressed data has an invalid code size; every other frame is accepted. A rejected frame with a too short buffer or invalid code size leaves no bytes in the output.",
  ["inputs", "configurations"], "all palette lengths, frame sizes, buffer lengths and code sizes",
  "tests check one too large palette", [E], [("check_color_table, write_frame, write_lzw_pre_encoded_frame", E)], [], ["Result of Encoder::new, write_frame, write_lzw_pre_encoded_frame"])
p("C19", "Write failures surface and never corrupt or crash",
  "If the underlying writer fails at any point, the call in progress returns that error, what was written before is an unchanged prefix of the normal output, and dropping the encoder afterwards does not panic. A writer that accepts only part of the data at a time, or is interrupted, receives the same bytes as any other.",
  ["fault_sequences", "histories"], "all positions of the first failure and all short-write patterns",
  "tests write to in-memory buffers that never fail", [E, T], [("? on every write", E), ("write_all", T), ("Drop", "src/lib.rs")], [], ["Result of each call, bytes accepted by the writer"])
p("C20", "RGB and RGBA conversion is lossless up to 256 colours",
  "A frame built from RGBA or RGB pixels with at most 256 distinct colours has a palette of exactly these colours, and each pixel's index refers to its own colour; pixels with alpha zero and only those have the transparent index, other alpha values count as opaque. A transparent index is set if and only if there is a transparent pixel, and the other fields have their defaults.",
  ["inputs"], "all pixel contents with up to 256 colours, with and without transparency",
  "tests convert one or two pixel arrays", [K], [("from_rgba_speed", K)], [], ["Frame fields"])
p("C21", "Frame constructors reject inconsistent sizes and keep everything else",
  "The frame constructors panic if and only if the number of pixel bytes is not what width and height require, the palette is longer than 768 bytes, or the speed is outside of 1 to 30. Otherwise the frame has the given size, pixels, palette and transparent index, and default values elsewhere.",
  ["inputs"], "all sizes, buffer lengths, palette lengths and speeds",
  "tests only build valid frames", [K], [("assertions in from_palette_pixels, from_indexed_pixels, from_rgba_speed, from_rgb_speed", K)], [], ["panic or Frame fields"])
p("C22", "The frame consistency option rejects exactly the frames outside the screen",
  "With the option on, a frame is rejected if and only if it does not lie completely within the logical screen. With the option off no frame is rejected for its position or size.",
  ["inputs", "configurations"], "all 16-bit screen sizes, offsets and frame sizes",
  "tests use one file; the comparison has to hold for all 2^96 combinations", [D], [("ImageBlockStart", D)], [("check_frame_consistency", "option", D)], ["Result of next_frame_info"])
p("C23", "Unknown blocks are rejected by default and skipped completely when allowed",
  "A byte at block position that starts neither an image, an extension nor the trailer is an error by default. When unknown blocks are allowed, such a block is skipped over its sub-blocks whatever they contain, and does not change the frames, metadata and loop count around it.",
  ["inputs", "configurations"], "all block codes, contents and positions",
  "tests contain one file with an unknown block", [D], [("BlockStart", D)], [("allow_unknown_blocks", "option", D)], ["Result of read_info and next_frame_info, later frames"])
p("C24", "Code size and end-code checks reject exactly the bad image data",
  "Image data is rejected if its minimum code size is outside of 1 to 11, whatever is done with the frame. Apart from that, reading a frame fails if and only if an invalid LZW code or the end of the data comes before its last pixel. If the end code is required, image data in which it is missing is rejected in addition when going through the stream, whether or not the pixels are read (but not if frame decoding is switched off); otherwise a missing end code is tolerated.",
  ["inputs", "configurations"], "all code size bytes, all short code streams, end code present or not, pixels read or skipped",
  "tests use one or two hand-made streams", [D], [("LzwReader", D), ("DecodeSubBlock", D)], [("check_for_end_code", "option", D)], ["Result of next_frame_info, read_next_frame"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
