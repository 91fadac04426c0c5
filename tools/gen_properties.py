#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept in one reviewable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Every successful encode is one complete, standard-conforming JPEG stream",
  "Whenever encoding reports success, the emitted bytes are exactly one complete JPEG/JFIF interchange stream of ITU-T T.81: legal marker order and segment lengths, legal frame/scan parameters, prefix-free Huffman tables that define every symbol used, correctly stuffed and 1-padded entropy data that decodes to exactly the declared number of blocks with every coefficient sent exactly once, and nothing after EOI. The frame declares exactly the given width and height and the number of components of the colour type. Independent decoders accept the stream without error or warning.",
  ["inputs", "configurations"], "every image content, size, colour type and every combination of quality, sampling, quantization tables, progressive scans, restart interval, Huffman optimization and metadata",
  "The tests decode about 20 fixed gradient images in a few configurations with one lenient decoder; combinations (e.g. optimization with restarts, many progressive scans, custom tables) and extreme content are never reached.",
  ["src/encoder.rs", "src/writer.rs", "src/huffman.rs", "src/marker.rs"],
  [("marker/segment/scan emission and bit packing with byte stuffing", "src/writer.rs: JfifWriter"), ("scan drivers", "src/encoder.rs: encode_image_interleaved / _sequential / _progressive"), ("table construction", "src/huffman.rs")],
  ["bytes received by the writer passed to Encoder::new"])

p("C02", "The stream carries the source picture to within quantization error",
  "In every successful encode, each DCT coefficient stored for each component, multiplied by its entry in the quantization table stored in the stream, differs from the exact DCT of the corresponding (colour-converted, level-shifted, decimated, edge-replicated) source samples by less than half of that entry plus a fixed-point rounding allowance of 0.5 (none for the DC coefficient, whose sum is exact) plus the precision of a 15-bit reciprocal (1/8000 of the exact value plus half the entry, times the entry). Blocks appear at their own position in their own component; nothing is shifted, swapped, dropped or leaked between blocks.",
  ["inputs", "configurations"], "every image content and size, every colour type and configuration",
  "The tests compare four gradients after decoding with a tolerance of 20 grey levels; they sample no extreme, high-frequency or odd-sized content and hide errors below 20.",
  ["src/encoder.rs", "src/fdct.rs", "src/quantization.rs", "src/image_buffer.rs", "src/avx2/fdct.rs", "src/avx2/ycbcr.rs"],
  [("block extraction", "src/encoder.rs: get_block, encode_blocks, encode_image_interleaved"), ("forward DCT", "src/fdct.rs, src/avx2/fdct.rs"), ("reciprocal quantization", "src/quantization.rs: quantize")],
  ["quantized coefficients and DQT segments decoded from the output"])

p("C03", "Coding mode never changes the encoded picture",
  "For the same image, quality, quantization tables and sampling, all coding options that are lossless by design - baseline or progressive with any number of scans, interleaved or one scan per component, default or optimized Huffman tables, any restart interval, any metadata - produce streams whose quantized coefficients are identical for every block of the image and whose quantization tables are identical.",
  ["inputs", "configurations"], "every image and every pair of lossless coding configurations",
  "No test compares two encodes; each mode is tested alone on one gradient with a tolerance that hides coefficient differences.",
  ["src/encoder.rs", "src/writer.rs", "src/huffman.rs"],
  [("three separate scan drivers that must agree", "src/encoder.rs: encode_image_interleaved, encode_image_sequential, encode_image_progressive, encode_blocks"), ("Huffman optimization statistics", "src/encoder.rs: optimize_huffman_table")],
  ["quantized coefficients decoded from both outputs"])

p("C04", "Encoding is total: valid requests succeed, nothing panics",
  "For every image with non-zero dimensions and enough data, and every configuration reachable through the public setters with arguments in their documented ranges, encoding to a working writer returns success, and no call panics, overflows or trips an internal assertion (in builds with and without overflow checks). Arguments outside their documented range are reported through the documented error or panic, never accepted into a broken stream.",
  ["inputs", "configurations", "histories"], "every image, every setter sequence with in-range arguments, every feature set, with debug assertions on and off, including adversarial symbol statistics",
  "The tests use one image per configuration; arithmetic overflow, missing Huffman codes and degenerate scan splits need specific option combinations or adversarial content.",
  ["src/encoder.rs", "src/huffman.rs", "src/quantization.rs", "src/writer.rs"],
  [("range assertions and clamps", "src/encoder.rs: set_progressive_scans; src/quantization.rs: clamp"), ("code length limiting", "src/huffman.rs: new_optimized"), ("scan splitting", "src/encoder.rs: encode_image_progressive")],
  ["return value / unwinding of encode and of each setter"])

p("C05", "Invalid input is rejected exactly, with nothing written",
  "Encoding returns a bad-image-data error exactly when the slice is shorter than width*height*bytes-per-pixel (reporting the actual and required lengths), and a zero-dimension error exactly when a dimension is zero; app segments are refused exactly when the number is outside 1..=15 or the payload exceeds 65533 bytes, and ICC profiles exactly when they exceed the documented 16,707,345 bytes. A refused call writes no byte and leaves the encoder as it was, and this holds on 32-bit targets too.",
  ["inputs", "configurations", "histories"], "every data length, dimension pair, colour type, segment number, payload size, including both sides of each limit",
  "No existing test exercises any error path or any limit.",
  ["src/encoder.rs", "src/error.rs"],
  [("length and dimension checks", "src/encoder.rs: encode, encode_image_internal"), ("segment limits", "src/encoder.rs: add_app_segment, add_icc_profile")],
  ["EncodingError values, bytes received by the writer"])

p("C06", "Output bytes do not depend on build features or platform",
  "The same calls with the same arguments produce byte-identical streams (and the same results) in every build of the crate: with the SIMD feature on an AVX2 machine, with only std, and with no_std; with or without debug assertions; on 32-bit or 64-bit, little- or big-endian targets.",
  ["inputs", "configurations"], "every image and configuration, over all pairs of builds",
  "Each feature set runs the same tolerant tests on its own; no test compares outputs across builds, and 32-bit or big-endian builds are never run.",
  ["src/avx2.rs", "src/avx2/fdct.rs", "src/avx2/ycbcr.rs", "src/fdct.rs", "src/image_buffer.rs", "src/writer.rs"],
  [("vectorised forward DCT and colour conversion mirroring the scalar code", "src/avx2/fdct.rs, src/avx2/ycbcr.rs"), ("word-size dependent bit buffer", "src/writer.rs: BUFFER_SIZE, write_bits")],
  ["bytes received by the writer in each build"])

p("C07", "The safe API never causes undefined behaviour",
  "No use of the safe public API - any slice length, dimension, colour type, configuration, writer or user-written image source, including misbehaving ones - reads outside the supplied data, reads uninitialised memory, or writes outside an allocation, and encodes on several threads do not race, whether or not the SIMD feature is enabled.",
  ["inputs", "configurations", "fault_sequences"], "every slice (exactly sized, longer, too short), every size modulo the vector width, every configuration and adversarial image source",
  "The SIMD code uses raw pointers and set_len; an out-of-bounds access rarely changes a test's result and the suite runs without a sanitizer.",
  ["src/avx2/ycbcr.rs", "src/avx2/fdct.rs", "src/encoder.rs"],
  [("length check before raw-pointer row access", "src/encoder.rs: encode"), ("capacity reserved before set_len", "src/encoder.rs: init_rows; src/avx2/ycbcr.rs: fill_buffers_avx2")],
  ["AddressSanitizer / Miri / library precondition checks while encoding"])

p("C08", "Pixel formats mean what they say",
  "RGB to YCbCr conversion follows the JFIF (BT.601 full range) equations to within rounding for all 2^24 colours; the RGB, BGR, RGBA and BGRA forms of the same picture, and the YCbCr form holding its converted samples, produce byte-identical streams, as do CMYK-as-YCCK input and the YCCK form holding its converted samples. Alpha bytes and bytes after the last pixel never influence the output, and CMYK is stored inverted with an Adobe marker so that decoders reproduce the original inks.",
  ["inputs", "configurations"], "every colour, every picture in every pair of equivalent pixel formats, every configuration",
  "The conversion is tested on about 90 colours and each format on one gradient with tolerance 20; equivalence between formats is never tested.",
  ["src/image_buffer.rs", "src/avx2/ycbcr.rs", "src/encoder.rs"],
  [("format adapters", "src/image_buffer.rs: ycbcr_image!, CmykImage, CmykAsYcckImage, YcckImage"), ("vectorised adapters", "src/avx2/ycbcr.rs")],
  ["rgb_to_ycbcr / cmyk_to_ycck results, bytes of paired encodes"])

p("C09", "User-written image sources are honoured like the built-in ones",
  "Encoding a user-implemented image source yields exactly the bytes produced for a built-in format holding the same samples. The source is only asked for rows that exist (0 <= y < height), every row is requested, and sample buffers for unused channels are left to the encoder and never influence the output.",
  ["inputs", "configurations"], "every picture served through a user image source, for all four JPEG colour types and every configuration",
  "No existing test implements an image source.",
  ["src/image_buffer.rs", "src/encoder.rs"],
  [("row requests clamped to the last row", "src/encoder.rs: encode_image_interleaved, encode_blocks"), ("shared generic driver", "src/encoder.rs: encode_image")],
  ["sequence of row requests seen by the image source, output bytes"])

p("C10", "Metadata is embedded verbatim and in order",
  "Every accepted app segment appears exactly once in the header, in call order, with its marker number and payload unchanged; an ICC profile of any accepted size is split so that standard reassembly (sequence numbers 1..n of n) restores it byte for byte. The JFIF header carries the configured density and unit, comes first, and an Adobe marker with the right transform is present exactly for the CMYK and YCCK colour types.",
  ["inputs", "histories", "configurations"], "every sequence of accepted metadata calls with arbitrary payloads and sizes up to the limits, in every coding mode",
  "Tests add one 7-byte segment and one 128 KiB profile and only search for a byte pattern.",
  ["src/encoder.rs", "src/writer.rs"],
  [("segment queue and ICC chunking", "src/encoder.rs: add_app_segment, add_icc_profile"), ("header emission", "src/writer.rs: write_header, write_segment")],
  ["header segments parsed from the output"])

p("C11", "A failing writer fails the encode, cleanly",
  "If the writer reports an error on any write, the encode stops and returns that very error: no panic, no later write to the same writer, and what was written before is a prefix of the stream a working writer would have received. Success is never reported when a write failed.",
  ["fault_sequences", "inputs", "configurations"], "every write position of every encode as the failing one, every error kind, every coding mode",
  "Every test writes to an in-memory vector that cannot fail.",
  ["src/writer.rs", "src/encoder.rs", "src/error.rs"],
  [("error propagation from each write", "src/writer.rs: JfifWriter; src/encoder.rs")],
  ["result of encode, log of writes seen by an instrumented writer"])

p("C12", "Success means the whole stream reached its destination",
  "When encoding reports success, the complete stream has been delivered through the writer: identical bytes for an in-memory vector, a writer that accepts arbitrary short writes or is interrupted, a borrowed or boxed writer, a buffered writer dropped right afterwards, and a file created by the file constructor (whose previous content is replaced). Data still held back in a buffered destination that cannot be delivered makes the encode return the error instead of success.",
  ["fault_sequences", "inputs", "configurations"], "every writer behaviour allowed by the write contract, every point at which a buffered destination can start failing",
  "Tests never write to a file, a buffered writer or a partial writer.",
  ["src/encoder.rs", "src/writer.rs"],
  [("write_all based output", "src/writer.rs: JfifWrite"), ("file constructor", "src/encoder.rs: new_file")],
  ["destination content and encode result"])

p("C13", "Restart intervals divide the stream into independent pieces",
  "With restart interval N > 0 the stream declares N, and in every scan a restart marker follows exactly every N coded units except after the last, numbered cyclically 0..7 from 0 in each scan, byte aligned, with all prediction reset, so every piece decodes on its own. With interval 0 (or unset) there is no restart declaration and no restart marker.",
  ["inputs", "configurations"], "every interval 0..=65535, every image, every coding mode and sampling factor",
  "Three tests use interval 32 only and a decoder that would tolerate missing markers.",
  ["src/encoder.rs", "src/writer.rs"],
  [("restart bookkeeping in each scan driver", "src/encoder.rs: restarts_to_go / restarts"), ("statistics must see the same resets", "src/encoder.rs: optimize_huffman_table")],
  ["DRI segment, RST markers and separately decoded pieces of the output"])

p("C14", "Quantization tables are the ones selected",
  "The tables in the stream are, for each preset, the published base table scaled by the IJG quality formula and clamped to 1..=255 (qualities above 100 or below 1 act as 100 and 1), and, for a custom table, its entries unchanged in row-major order, clamped to 1..=255. Luma (and black) components use the first table and the others the second, and raising the quality never makes a preset entry coarser.",
  ["inputs", "configurations"], "every preset, every quality 0..=255, every custom table of 64 16-bit values, every colour type and mode",
  "Tests cover the default preset at quality 100 and one all-ones custom table.",
  ["src/quantization.rs", "src/writer.rs", "src/encoder.rs"],
  [("quality scaling and user table import", "src/quantization.rs: get_with_quality, get_user_table"), ("zigzag emission", "src/writer.rs: write_quantization_segment")],
  ["DQT segments and component table selectors of the output"])

p("C15", "Optimized Huffman tables are complete, legal and optimal",
  "With optimization on, every Huffman table in the stream is a legal length-limited prefix code (at most 16 bits, all-ones code unused) that defines exactly the symbols the image uses, and its total coded length for that image is the Huffman optimum whenever that optimum needs no length limiting, and otherwise within the limit it still encodes everything. Optimized entropy data is never longer than with the default tables in the same scan structure.",
  ["inputs", "configurations"], "every symbol distribution an image can produce, including single-symbol, full-alphabet and extremely skewed ones, with any restart interval and scan split",
  "Tests decode three optimized images and never look at the tables.",
  ["src/huffman.rs", "src/encoder.rs"],
  [("Annex K.2 table generation", "src/huffman.rs: new_optimized"), ("symbol statistics", "src/encoder.rs: optimize_huffman_table")],
  ["DHT segments and decoded symbol counts of the output"])

p("C16", "Configuration behaves like independent last-write-wins settings",
  "After any sequence of setter calls the getters report the last value set (progressive on means 4 scans, restart interval 0 means none, sampling defaults to 2x2 below quality 90 and 1x1 from 90), refused calls change nothing, and the output depends only on the final settings and the accepted metadata calls, never on the order or number of setter calls. The scan-count setter accepts exactly 2..=64.",
  ["histories", "configurations"], "every sequence of setter calls including refused and redundant ones",
  "One test toggles progressive mode twice; interactions between settings are not tested.",
  ["src/encoder.rs"],
  [("plain fields", "src/encoder.rs: Encoder setters/getters")],
  ["getter results after every call, output bytes"],
  [("encoder settings", "quality, density, sampling, tables, progressive, restart, optimize, segments", "src/encoder.rs: struct Encoder")])

p("C17", "Encoding is local and edges are replicated",
  "Changing pixels changes only the coefficients of the blocks whose area contains them, and moving content by whole coding units moves its coefficients with it. Partial units at the right and bottom edge are filled by repeating the last column and row: extending an image by such repetition up to the coding-unit boundary leaves the entropy-coded data unchanged apart from the declared size.",
  ["inputs", "configurations"], "every image, every changed pixel set, every size modulo the coding unit, every mode",
  "Tests use two fixed sizes and never compare two encodes.",
  ["src/encoder.rs"],
  [("row and column padding", "src/encoder.rs: encode_image_interleaved, encode_blocks"), ("block addressing", "src/encoder.rs: get_block")],
  ["coefficients and scan data of paired encodes"])

p("C18", "Progressive encoding sends the requested scans",
  "A progressive encode with n scans (2..=64) emits exactly n scans per component: one with only the DC coefficient, all components' DC scans before any AC scan, and n-1 non-empty, ascending, non-overlapping bands that together cover coefficients 1..63 exactly. Non-progressive encodes are declared baseline and carry all coefficients of each component in a single scan.",
  ["configurations", "inputs"], "every scan count, colour type, sampling, restart interval, optimization setting and image",
  "Tests use the default count of 4 only.",
  ["src/encoder.rs", "src/writer.rs"],
  [("spectral band split", "src/encoder.rs: encode_image_progressive, optimize_huffman_table"), ("scan header", "src/writer.rs: write_scan_header")],
  ["frame and scan headers of the output"])

p("C19", "Encodes are deterministic and isolated from each other",
  "An encode's result depends only on its own image and configuration: repeating it, running it after any other encodes (including failed or panicking ones), or running it while other threads encode other images yields the same bytes.",
  ["histories", "schedules"], "every sequence of encodes in a process and every set of concurrent encodes",
  "Every test runs one encode and looks at it alone.",
  ["src/encoder.rs", "src/writer.rs", "src/quantization.rs", "src/huffman.rs"],
  [("no shared mutable state", "whole crate")],
  ["bytes of repeated, interleaved and concurrent encodes"])

p("C20", "Independent decoders reproduce the pixels",
  "Decoding the output with independent JPEG decoders gives an image of the original size and colour type whose pixels differ from the source only by quantization, rounding and chroma decimation: at all-ones quantization tables and no subsampling every channel of every pixel is within 5 levels (9 for formats whose colours are converted), in every coding mode.",
  ["inputs", "configurations"], "every image content, size, pixel format and lossless coding option",
  "Tests check this for smooth gradients only, with a tolerance of 20 levels.",
  ["src/encoder.rs", "src/image_buffer.rs", "src/writer.rs", "src/fdct.rs"],
  [("whole pipeline", "src/encoder.rs: encode")],
  ["pixels decoded by libjpeg-turbo and by jpeg-decoder"])

p("C21", "Chroma subsampling is applied exactly as selected",
  "The frame declares the selected factors for the luma (and black) component and 1x1 for the others (always 1x1 for grayscale); each alias gives the same bytes as its h/v form, and a factor pair is accepted exactly when it is one of the eight supported ones. A decimated sample is the source sample at the top-left of its h x v cell, full-resolution components are untouched by the choice, and data are interleaved only where the standard permits it.",
  ["inputs", "configurations"], "all 16 sampling settings, all 65536 factor pairs, all colour types, modes and sizes",
  "Tests cover 5 of the 16 settings on one smooth gradient, for which the choice of sample is invisible.",
  ["src/encoder.rs"],
  [("sampling factor encoding", "src/encoder.rs: SamplingFactor"), ("component set-up and decimating block fetch", "src/encoder.rs: init_components, get_block")],
  ["frame header and coefficients of the output"])

p("C22", "Encoding needs bounded memory and gives all of it back",
  "When a call returns or unwinds - with success, a writer's error, a refused request, or a panic in the writer or the image source - every byte the crate allocated has been freed. What it holds at once is bounded: a refused request allocates nothing in proportion to the declared size; a baseline encode without table optimization, with all sampling factors at most 2, holds a few rows of coding units however high the picture is; every other encode at most a small multiple of the padded picture.",
  ["inputs", "configurations", "fault_sequences"], "every image, configuration, size, and every point at which the writer or the image source fails or panics",
  "No test looks at memory, and none lets an encode fail half-way.",
  ["src/encoder.rs", "src/writer.rs"],
  [("row buffer reused for each row of units", "src/encoder.rs: encode_image_interleaved, init_rows"), ("whole-image buffers", "src/encoder.rs: encode_blocks, init_block_buffers"), ("owned encoder, no globals", "src/encoder.rs: encode, encode_image")],
  ["allocations made through the global allocator, by size"])

p("C23", "Errors say what was wrong",
  "Every error a call returns can be understood and traced: its text contains the values that were refused (the segment number, the payload or profile length, the actual and the required data length, width and height), the text of a writer's error is the writer's own text, and the underlying io error with its kind is available as the error's source, while errors without an underlying one have no source. A user's own writer type gets back exactly the error value it returned.",
  ["inputs"], "every refused call with any values, and every error a writer can report",
  "The tests only match on a few variants; they never read an error's text or its source.",
  ["src/error.rs", "src/encoder.rs", "src/writer.rs"],
  [("texts and sources", "src/error.rs: Display, Error::source, From<io::Error>"), ("values put into the errors", "src/encoder.rs: add_app_segment, add_icc_profile, encode, encode_image"), ("conversion of writer errors", "src/writer.rs: impl JfifWrite for W")],
  ["the error value returned, its Display text and Error::source"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
