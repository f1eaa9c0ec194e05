#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

RD, DC, CV, EN, CM = "src/reader/mod.rs", "src/reader/decoder.rs", "src/reader/converter.rs", "src/encoder.rs", "src/common.rs"

prop("C01", "Decoding does not depend on how the input is delivered",
 "Decoding a byte sequence gives the same stream information, the same frames and the same kind of ending no matter into which chunks the reader splits the bytes, and no matter how often a read is interrupted (ErrorKind::Interrupted) before it succeeds. This holds for well-formed streams and for streams damaged outside compressed pixel data or cut short; only a frame whose data is itself cut by the end of the input, or contains an invalid code after its last pixel, may be delivered or not.",
 ["inputs","schedules","fault_sequences"], "every byte sequence of that kind, every partition of it into reads, every placement of interruptions, every decoding option and access path",
 "Tests read whole files from slices; the decoder's state machine has a different path for nearly every position at which a chunk can end, and no test delivers bytes in pieces or interrupts a read.",
 [RD, DC], [("short-input accumulation for fixed-size structures", DC+" ensure_min_length_buffer"), ("pull loop over the buffered reader", RD+" ReadDecoder::decode_next")],
 ["Decoder::read_next_frame","Decoder::next_frame_info","DecoderIter::next"],
 [("state / internal_buffer", "where in the format the next byte is, and bytes collected so far of a fixed-size structure", DC+" StreamingDecoder")])
prop("C02", "Well-formed streams decode to exactly what the format says",
 "Every well-formed GIF stream is accepted and decodes, under every delivery of its bytes, to exactly the screen size, global palette, background colour, loop count and sequence of frames it encodes: each frame with its position, size, control data and local palette, and with the right pixels in row order, deinterlaced, as indices or as RGBA from the palette in force with the transparent index fully transparent. After the last frame the decoder reports the orderly end of the image.",
 ["inputs","schedules"], "every well-formed stream (any legal code sequence, sub-block sizes, extensions between any structures, interlacing, frames without pixels, streams without frames), every delivery",
 "The sample files exercise the encoders that made them: greedy LZW, full 255-byte sub-blocks, a few extensions; the format allows far more, and tests compare with stored hashes for those few files only.",
 [RD, DC, CV], [("format state machine", DC+" StreamingDecoder::next_state"), ("deinterlacing and RGBA expansion", CV+" PixelConverter")], ["Decoder frames and metadata"])
prop("C03", "All ways of reading a frame deliver the same pixels",
 "Whole-frame reads, the iterator, reading into a caller's buffer, and piecewise filling of buffers of any sizes all deliver the same frame metadata and pixels, in any mixture within one stream; reported buffer size, line length and effective palette agree with what is delivered. A piece larger than the rest of the frame receives that rest and the answer that it was not filled; in RGBA a piece that is no whole number of pixels is refused. A caller may skip a frame or abandon it after any number of pixels and still gets every later frame unharmed; bytes of a caller's buffer beyond the frame are left alone.",
 ["histories","schedules","inputs"], "every sequence of access calls per frame, every piece size, every point at which a frame is abandoned, every delivery of the input",
 "Tests use one access path per file; the interaction of a partly read frame with the next call depends on decoder, LZW and buffer state left behind.",
 [RD, DC, CV], [("separate access paths over one pull loop", RD), ("discarding unread pixel data", DC+" DecodeSubBlock")], ["Decoder::{read_next_frame,next_frame_info,read_into_buffer,fill_buffer,buffer_size,line_length,palette}"])
prop("C04", "A stream cut at any byte fails cleanly after its intact frames",
 "When the input ends at any byte before the trailer, the decoder delivers every frame whose data is complete, with the right contents, and then reports an unexpected end of file, as often as it is asked; it never reports an orderly end of the image and never invents or alters a frame. An iterator yields that error once and then ends.",
 ["crash_points","inputs","schedules"], "every well-formed stream, every byte offset at which it is cut, every delivery, every access path",
 "A handful of truncated samples exist; the guarantee quantifies over every cut position, including inside each kind of structure.",
 [RD, DC], [("end-of-file detection", RD+" ReadDecoder::decode_next"), ("iterator latch", RD+" DecoderIter::next")], ["results of each call after the cut"])
prop("C05", "Read errors are reported as they are and decoding can go on",
 "Every error the reader returns, other than an interruption, is reported to the caller unchanged in kind and payload, exactly as often as it happened; interruptions are never reported. When the caller simply asks again after a transient error the decoder goes on where it was: each frame is delivered intact unless the error struck inside that frame's own compressed data, no frame is delivered twice, altered or mixed up with another, and the end of the image is reached.",
 ["fault_sequences","schedules","inputs"], "every placement and kind of read faults (would-block, timeout, reset, custom, premature end of file, EINTR), every well-formed stream and delivery",
 "No test uses a reader that ever fails.", [RD, DC],
 [("error propagation from the buffered reader", RD+" ReadDecoder::decode_next"), ("position kept across errors", DC+" StreamingDecoder state")], ["Decoder results interleaved with injected errors"])
prop("C06", "Arbitrary bytes, faults and call orders never panic, hang or blow up",
 "Whatever bytes the input contains, whatever errors the reader injects and in whatever order the decoding API is called (also after errors), no call panics or overflows, every call returns after a bounded amount of work, and memory stays bounded by the configured limit. Buffers that are too small or oddly sized are refused with an error.",
 ["inputs","histories","fault_sequences","schedules"], "every byte string (mutated streams and noise), every option set, every call sequence on the pull decoder, the streaming decoder and the frame decoder",
 "A few crash samples are replayed; hostile input and call orders form an unbounded space and interact with leftover state.",
 [RD, DC, CV], [("bounds-checked slicing and fallible reservations", DC+" next_state"), ("buffer checks", CV+" read_into_buffer / fill_buffer")], ["panics, non-termination, peak heap"])
prop("C07", "The memory limit is honoured exactly and is recoverable",
 "With a memory limit of L bytes a frame whose output needs at most L bytes is decoded and one that needs more is refused with an error before such memory is taken, whichever of the decoders is used; compressed data kept for a frame and data kept for an extension are bounded by L in the same way. Peak heap use stays within a small multiple of L plus a constant, does not grow with the number or the claimed size of frames, and frames within the limit that come before a refusal are delivered intact, as are those after a frame whose pixels were refused.",
 ["inputs","configurations","schedules"], "every limit, frame size, colour mode, extension size, number of frames, and delivery",
 "One test checks one refused file; sharpness at the boundary, heap use and recovery are not observed at all.",
 [RD, DC, CV], [("limit on output", RD+" MemoryLimit::buffer_size"), ("limit on copied data and extensions", RD+" MemoryLimit::check_size")], ["Decoder / FrameDecoder results", "heap high-water mark (global allocator)"])
prop("C08", "The decoder never needs, loses or consumes bytes beyond the image",
 "Recovering the reader after the last frame yields exactly the bytes that follow the trailer, all of them in order, and recovering it earlier yields a suffix of the input that starts inside or right after the structure being decoded, so that nothing unread is lost. The decoder never waits for bytes beyond the structure it has been asked for: each frame is delivered as soon as its data is complete, the orderly end as soon as the trailer arrived, and nothing is read after that.",
 ["schedules","inputs","crash_points"], "every stream with any bytes after it, every delivery, every stall point, every moment of recovery",
 "No test recovers the reader mid-stream or feeds a reader that stalls after a complete frame.",
 [RD, DC], [("consumption bookkeeping", RD+" ReadDecoder::decode_next / into_inner"), ("trailer latch", RD+" at_eof")], ["into_inner contents", "reads issued by the decoder"])
prop("C09", "The push decoder's events do not depend on how bytes are fed to it",
 "Feeding the streaming decoder the same bytes in any pieces, with any output buffers, produces the same sequence of events, the same pixels or compressed data and the same metadata; every event sequence follows the block structure of the stream. Each call consumes no more than it is given, and feeding it the rest again always makes progress until all bytes, also those after the trailer, are consumed.",
 ["schedules","inputs"], "every partition of every well-formed stream into update calls, every sequence of output buffer sizes and kinds",
 "The streaming decoder is only tested through the pull decoder, which feeds it large chunks.",
 [DC], [("sans-IO state machine", DC+" StreamingDecoder::update / next_state")], ["Decoded events", "consumed counts", "current_frame / last_ext"])
prop("C10", "Strictness options reject exactly the streams they are meant to",
 "With frame consistency checking a stream is refused exactly at the first frame that reaches outside the screen; with end code checking exactly at the first frame whose compressed data has no end code; unknown blocks are refused unless allowed, and when allowed are skipped without a trace. Conforming streams and frames before the offending one decode as they do without the options, whichever way the frames are read or skipped and however the input is delivered.",
 ["configurations","inputs","schedules","histories"], "every combination of options, every placement of the violation among frames, every access path per frame, every delivery",
 "Two fixed files exercise single options with one access path.",
 [RD, DC], [("consistency check", DC+" ImageBlockStart"), ("end code check", DC+" LzwReader"), ("unknown block handling", DC+" BlockStart")], ["Decoder results with options on and off"])
prop("C11", "Malformed structure is refused, and only from there on",
 "A stream with a wrong signature, an unknown block, an unknown extension label, a control block of the wrong shape, an impossible code size, an invalid code or too few pixels, or a frame without any palette, is refused with an error at the offending structure and not before: all frames before it are delivered intact, the offending frame is never delivered as good, under every delivery. A stream that contains no image data does not yield frames.",
 ["inputs","schedules"], "every kind of malformation at every position of every otherwise well-formed stream, every delivery, every access path",
 "Sample files contain a few malformations at one place each.",
 [RD, DC, CV], [("format errors", DC+" next_state / read_control_extension"), ("palette check", RD+" next_frame_info"), ("truncation check", CV+" read_into_buffer")], ["Decoder results"])
prop("C12", "Compressed frames pass through unchanged and decode later to the same image",
 "With decompression skipped the decoder delivers for each frame its metadata, its code size and exactly its compressed bytes, however the input is delivered. Decoding those frames later with the frame decoder, in any order and with one decoder reused, gives the pixels direct decoding gives, and writing them with the pre-encoded writer gives a stream that decodes to the same image.",
 ["histories","inputs","schedules"], "every well-formed stream, every order of later decoding, every delivery, any sink behaviour in between",
 "One round trip test covers ordinary files in order.",
 [RD, DC, EN], [("raw data copy", DC+" CopySubBlock"), ("frame decoder", DC+" FrameDecoder"), ("pre-encoded writer", EN+" write_lzw_pre_encoded_frame")], ["frame buffers", "FrameDecoder output", "re-encoded stream"])
prop("C13", "What is encoded decodes to the same animation",
 "Every sequence of valid frames, extensions and repeat settings written with the encoder, through a sink that accepts bytes in any pieces with interruptions, decodes again under any delivery to the same screen size, palettes (padded to a power of two), loop count and frames with identical metadata and pixels.",
 ["inputs","schedules","fault_sequences","histories"], "every valid sequence of encoder calls, every frame content and size (also empty), every sink and reader schedule",
 "Round trip tests re-encode the sample files to a Vec.",
 [EN, RD, DC], [("block writers", EN), ("LZW encoding", EN+" lzw_encode")], ["Encoder output decoded again"])
prop("C14", "The encoder's bytes are valid GIF and independent of the sink",
 "The bytes produced for a sequence of encoder calls are the same however many bytes the sink accepts per write and however often it is interrupted, and they form a strictly valid GIF stream: every structure, palette, sub-block and code is as the format demands and nothing is left over.",
 ["schedules","fault_sequences","inputs","histories"], "every valid call sequence, every partial-write schedule, every placement of interruptions",
 "Tests write to vectors, which accept everything; validity is judged with the library's own lenient decoder.",
 [EN], [("complete writes", EN+" write_all / write_le"), ("sub-block framing", EN+" write_encoded_image_block"), ("palette rounding", EN+" check_color_table")], ["sink contents, parsed by an independent strict parser"])
prop("C15", "Write errors are reported and acknowledged frames survive",
 "When the sink fails (error, full disk, accepts nothing) at any byte, the encoder call in progress reports that error unchanged and what the sink accepted is an exact prefix of the fault-free output. Every frame acknowledged with success before a failure or crash at any byte is fully contained in the accepted bytes and decodes intact from them.",
 ["fault_sequences","crash_points","histories"], "every call sequence, every byte position and kind of the fault, single and persistent faults, crash at any byte",
 "No test uses a failing writer beyond one trivial case.",
 [EN], [("error propagation", EN+" ? on every write")], ["results of encoder calls", "bytes accepted by the sink"])
prop("C16", "An encoder finishes its stream exactly once",
 "Finishing an encoder explicitly, or dropping it, adds exactly one trailer at the end and nothing else; explicit finishing returns the sink, or reports the error when the trailer could not be written. Dropping never panics, whatever the sink does, also during unwinding, and bytes after the trailer never appear.",
 ["histories","fault_sequences","crash_points"], "every call sequence ended by finishing, dropping or a panic of the caller, with and without sink faults, including before any frame",
 "Tests look at complete files only.",
 [EN], [("trailer", EN+" into_inner / Drop / write_trailer")], ["sink contents", "into_inner result", "panics"])
prop("C17", "Rejected encoder calls leave no trace",
 "Every encoder call rejected because of its arguments (too many colours, no palette, a buffer too small for the frame, an invalid code size) reports an error without writing a single byte, and leaves the encoder as if the call had not happened: the output of all other calls is the same as without it.",
 ["histories","inputs"], "every interleaving of valid and invalid calls on one encoder",
 "Tests check that a few invalid calls fail, not what they leave behind.",
 [EN], [("validation before writing", EN+" new / write_frame / write_frame_header")], ["sink contents with and without the rejected calls"])
prop("C18", "Compressing frames separately, in any order, changes nothing",
 "Compressing frames ahead of time on any threads, in any order and interleaving, and then writing them in order gives byte for byte the stream that writing the frames directly gives.",
 ["schedules","inputs"], "every set of frames, every interleaving of compression across threads and with the encoder",
 "One test compares a handful of frames in order on one thread.",
 [EN], [("separate compression", EN+" Frame::make_lzw_pre_encoded"), ("shared encoding routine", EN+" lzw_encode")], ["bytes of both streams"])
prop("C19", "Frames made from few colours are exact and reproducible",
 "A frame made from RGB or RGBA pixels with at most 256 distinct colours reproduces every pixel exactly: opaque pixels keep their colour, invisible pixels are transparent and no visible pixel is. The result (also with more colours) is the same in every process and thread, whatever the hash seed, and survives encoding and decoding.",
 ["inputs","schedules"], "every image with at most 256 colours, every process-wide or per-thread random hash seed",
 "Tests check single images under whatever hash seed the process happened to have.",
 [CM], [("exact palette", CM+" Frame::from_rgba_speed")], ["Frame fields", "decoded RGBA"])
prop("C20", "Decoders and encoders used at the same time do not influence each other",
 "Any number of decoders and encoders, in one thread or several, whose calls are interleaved in any way each behave exactly as if they ran alone.",
 ["schedules","histories"], "every interleaving of several instances at I/O granularity, every mixture of instance kinds",
 "Every test drives one instance at a time.",
 [RD, DC, EN], [("no shared state", "src/")], ["per-instance results and bytes"])
prop("C21", "Failing allocations become errors where the decoder promises it",
 "When memory for data whose size the input controls (palettes, extension data, compressed frame data) cannot be had, opening a stream or reading its frames in compressed form reports an out-of-memory error instead of aborting, panicking or going on with damaged data; everything delivered before that is intact.",
 ["fault_sequences","inputs"], "failure of any single allocation from the first byte read on, while opening and in compressed-data decoding of every well-formed stream, every delivery",
 "Allocation failure cannot be provoked by ordinary tests.",
 [DC, RD], [("fallible reservations", DC+" try_reserve")], ["results under a failing global allocator"])
prop("C22", "Extensions pass through intact and never disturb the frames",
 "Every extension with a known label (comments, application data, plain text, control), including empty ones and any sub-block sizes, is reported by the streaming decoder once, complete and in order, and its presence changes neither frames nor metadata; extensions written with the encoder come out again as they went in. Only a looping extension before the first frame changes the loop count.",
 ["inputs","schedules","histories"], "every extension content and sub-block partition at every position in the stream, every delivery, encoder and decoder",
 "Tests check the comment of one file.",
 [DC, EN], [("extension buffering", DC+" ExtensionDataBlock"), ("sub-block division", EN+" write_raw_extension")], ["Decoded events and last_ext", "frames with and without extensions"])
prop("C23", "Frames with more than 256 colours are quantised sensibly",
 "A frame made from pixels with more than 256 distinct colours has a palette of at most 256 colours, every index refers to it, and each pixel maps to a palette colour near its own.",
 ["inputs"], "every image with more than 256 colours, every speed", "Quality over all images is not sampled by tests.",
 [CM], [("NeuQuant", CM+" Frame::from_rgba_speed")], ["Frame fields"])
prop("C24", "Constructors and conversions check and keep their arguments",
 "Frame constructors refuse pixel buffers of the wrong size and over-long palettes and otherwise keep what they are given; conversions between raw values and the format's labels are exact inverses on known values; error values describe their cause.",
 ["inputs"], "every argument", "Only a few values are tested.",
 [CM, EN], [("assertions in constructors", CM)], ["Frame fields, panics, conversions"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
