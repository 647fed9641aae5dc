HOOK_COMMITS = ["1514828"]
J = "openjp2-rs/src/"
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, note, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, **k))

P("C01", "Packet-header bit I/O is lossless and marker-safe",
  "Any sequence of fixed-width unsigned values written to a packet-header bit stream and flushed is read back unchanged, and the encoded bytes are exactly those of the JPEG 2000 bit-stuffing rule, so no byte after 0xFF exceeds 0x7F and the last byte is never 0xFF. Writing into a buffer that is too small reports failure at flush or stays within the buffer, and reading past the end of the data never touches memory outside of it.",
  ["inputs"], "every sequence of 2 fields of 1..=12 bits and 1 field of up to 32 bits (thorough: 3 fields), every buffer length 0..=4 and every byte content when reading",
  "No test reaches the bit writer; only a decode of one sample file reaches the reader. The claim quantifies over all values and widths.",
  [J+"bio.rs"], [("bit stuffing on byte out / byte in", J+"bio.rs opj_bio_byteout/bytein"), ("flush and alignment", J+"bio.rs opj_bio_flush/inalign")],
  "All values within the stated bounds, on the compiled code with memory-safety checks; assumes callers pass values that fit their width.")
P("L01", "IIIF region, size, rotation, quality and format parameters parse exactly",
  "Each IIIF Image API 3.0 region, size, rotation, quality and format parameter is accepted exactly when it is well formed with in-range, finite numbers, and the parsed value carries precisely the numbers, keyword, mirroring and upscaling flag that were written. Anything else is rejected with the error naming the offending parameter; no text makes the parser panic.",
  ["inputs"], "every u32 and every f32 (including NaN, infinities, signed zero) in every numeric position of the parameter grammar, some 60 malformed shapes, and every string of up to 3 characters (8/5 bytes for quality/format)",
  "The tests check a few dozen literal strings; numeric ranges, NaN/infinity and zero in each position, and arbitrary text are not sampled.",
  ["src/iiif/parse.rs", "src/iiif.rs"], [("FromStr impls", "src/iiif/parse.rs"), ("bounds checks on numbers", "src/iiif/parse.rs")],
  "All outcomes of each number are decided; std's digit-to-number conversion is replaced by an arbitrary outcome (trusted), and error texts are outside the claim.")
P("L02", "Image request paths decode to exactly the request that was written",
  "A path of the form /identifier/region/size/rotation/quality.format decodes to a request whose fields are the percent-decoded identifier and the values of exactly those segments, in release builds as in debug builds. If a segment is missing, malformed or not UTF-8, decoding fails with an error for the first such element and no request is produced.",
  ["inputs", "configurations"], "every combination of accepted values and errors of the five parameters, every truncation of the path and every empty segment, selected encoded identifiers; with and without debug assertions",
  "Two literal paths are tested, only in a debug build.",
  ["src/http.rs"], [("segment-by-segment decoding", "src/http.rs decode_image_request")],
  "The parameter parsers' outcomes are arbitrary (their own behaviour is L01); identifiers are a few concrete shapes because symbolic text cannot be pushed through the percent decoder within reach.")
P("L03", "Every request is answered with the right status, without panicking",
  "An image request whose parameters are invalid or whose file cannot be opened is answered with status 400, one whose file opens with status 200, a GET of an info.json path with 501, and any request with another method or a path outside the prefix with 404. No outcome of parameter decoding or of the file layer leaves a request unanswered or panics.",
  ["inputs", "fault_sequences"], "every outcome of parameter decoding and of opening the file; methods GET, POST, PUT, DELETE, OPTIONS, PATCH; image, info.json and prefix-less paths",
  "No test reaches the request handler or its error paths.",
  ["src/http.rs", "src/lib.rs"], [("dispatch and status mapping", "src/http.rs handle_request/image_request/info_request/bad_request")],
  "All outcomes of decoding and opening are decided; the step that routes a GET to the image handler is not encoded, the handler itself is.")
P("L04", "Image identifiers never name a file outside the image directory",
  "Whatever identifier a request carries, the file opened for it is the one of that name below the configured image directory. Identifiers that are absolute or contain a parent-directory component are refused without opening anything.",
  ["inputs"], "every identifier of 3 ASCII bytes and several longer shapes with one arbitrary byte (thorough: 4 bytes)",
  "No test calls the resolver; the claim is about all identifiers an attacker may send.",
  ["src/resolve.rs"], [("component filter before join", "src/resolve.rs DiskImageSource::resolve")],
  "Symbolic execution through std's real path code; symbolic links inside the image directory are outside the claim.")
P("L05", "The connection adapter passes socket data, errors and bodies through unchanged",
  "Bytes read from a connection are delivered completely and in order after whatever was already buffered, an I/O error or not-ready result is reported as such and never as data or end of stream, and writes, flushes and shutdowns reach the socket exactly once with their result passed back. A response body yields its bytes exactly once.",
  ["inputs", "fault_sequences"], "every outcome (data, end, error, pending) of the socket, buffers of 0..=6 free bytes after 0..=2 filled ones, writes of 0..=4 bytes, bodies of 0..=4 bytes",
  "No test drives the adapter; socket faults cannot be provoked reliably by a test.",
  ["src/lib.rs"], [("HyperStream read/write", "src/lib.rs hyper_compat"), ("ResponseBody frames", "src/lib.rs hyper_compat")],
  "The socket is a stand-in with arbitrary outcomes; assumes a socket never claims more bytes than it was given room for.")
P("C02", "Tag trees code every value at every threshold",
  "A tag tree built for any number of leaves links every node to the node covering it on the next level, and re-initialising a used tree to another size gives the same tree as creating it afresh. Values set at the leaves and encoded up to any thresholds produce exactly the bits of the JPEG 2000 tag-tree procedure, and decoding them tells for each leaf and threshold whether the value is below it, and its value once known.",
  ["inputs", "histories"], "structure of trees of up to 4x4, 5x2 and 1x9 leaves; all leaf values 0..=3 and two rounds of thresholds 0..=3 on 2x2 and 3x1 leaves (thorough: also 3x2, 1x4, values to 4)",
  "No test encodes; tree shapes, values and threshold sequences are not sampled by decoding one file.",
  [J+"tgt.rs"], [("tree construction", J+"tgt.rs opj_tgt_create/init/reset"), ("coding", J+"tgt.rs opj_tgt_setvalue/encode/decode")],
  "Compared with an independent reference encoder; bit I/O is replaced by a bit queue (C01), memory requests succeed.")
P("C03", "The MQ coder follows the standard for every state and decodes what it encodes",
  "Every coding and decoding step of the arithmetic coder, from any reachable register and context state, yields the registers, bytes and next state prescribed by ISO 15444-1 Annex C, so no byte above 0x8F follows 0xFF and no segment ends in 0xFF. Flushed, terminated and bypass segments decode to the bits that were coded, and decoding an arbitrary segment reads only ones past its end and leaves the bytes after it as they were.",
  ["inputs", "histories"], "one step from every valid register/context state and neighbouring bytes; initialisation on every segment of 0..=3 bytes; up to 10 bypass bits; restarted segments of one decision (thorough: longer sequences)",
  "The step-wise claim covers all histories; tests decode one image and never encode.",
  [J+"mqc.rs"], [("coding steps and byte-out", J+"mqc.rs opj_mqc_encode/byteout/flush/erterm"), ("decoding steps and byte-in", J+"mqc.rs opj_mqc_decode_macro/bytein/raw_decode"), ("probability state table", J+"mqc.rs mqc_states")],
  "Steps are compared with a reference transcription of the standard's flow charts, the table with Table C.2; longer sequences follow by the preserved invariants.")
P("C04", "Marker and box integers are stored big-endian in exactly their width",
  "Writing an unsigned value of 1 to 4 bytes, or a float or double, stores its big-endian bytes in exactly that many positions and nothing else. Reading gives back the value that was written, from exactly those bytes and into exactly the destination.",
  ["inputs"], "every width, every 32-bit value, every float and double bit pattern",
  "Tests read a handful of values; nothing writes floats.",
  [J+"cio.rs"], [("byte order conversion", J+"cio.rs opj_write_bytes/opj_read_bytes/…")],
  "Complete for all values; buffers are exactly sized so that any access beyond the width is caught.")
P("C05", "Coordinate arithmetic equals its mathematical definition without overflow",
  "Rounded-up and rounded-down divisions (by powers of two and by arbitrary divisors), logarithms, saturating addition and subtraction, clamping, extrema and rounding return the mathematically defined result for every coordinate value, including those next to 2^31 and 2^32, without intermediate overflow.",
  ["inputs"], "every 32-bit value and exponent 0..=31; general divisions with operands within 2^8 (thorough: 2^12) of 0, 2^31, 2^32 (and 2^40 for the 64-bit one)",
  "Tests never probe coordinates near the type limits, which a crafted file can contain.",
  [J+"math.rs"], [("ceil/floor divisions", J+"math.rs opj_*_ceildiv*/floordivpow2"), ("saturation", J+"math.rs opj_uint_adds/subs")],
  "Oracle: 128-bit arithmetic. Signed general division is claimed for non-negative dividends, the 64-bit ones for quotients that fit.")
P("C08", "Component transforms invert each other and follow the standard",
  "The reversible component transform maps any three samples to the standard's values and its inverse gives back exactly the same samples, changing nothing beyond the given count. The irreversible transform uses the standard's coefficients in both directions, and a custom transform computes the matrix product for every sample of every component.",
  ["inputs"], "every sample value below 2^28, 0..=2 samples (reversible); every single-component value within 255 (irreversible); integer matrices within 3 and samples within 1000, 2 components (custom)",
  "No test uses the encoder or checks colour values.",
  [J+"mct.rs"], [("reversible transform", J+"mct.rs opj_mct_encode/decode"), ("irreversible and custom", J+"mct.rs opj_mct_*_real/custom")],
  "The irreversible coefficients are checked to 0.0006 one component at a time, since products of several symbolic floats are out of the solver's reach.")
P("C06", "The reversible wavelet transform is lossless and follows the standard",
  "Forward-transforming a tile component with the reversible 5/3 wavelet yields, for every resolution level and sub-band, exactly the coefficients of the JPEG 2000 standard. The inverse transform gives back exactly the original samples for every tile position parity, size and number of levels, and neither touches memory outside the tile component.",
  ["inputs"], "every sample value below 2^24 in ten tile components of 1x1 to 9x2 samples at even and odd positions with 0 to 2 levels (thorough: also 10x2, 6x6, 7x5, 9x3, 2x9 with up to 3 levels)",
  "No test encodes; sizes of one, odd positions and narrow remainders never occur in the decoded sample file.",
  [J+"dwt.rs"], [("forward transform", J+"dwt.rs opj_dwt_encode"), ("inverse transform of whole tiles", J+"dwt.rs opj_dwt_decode")],
  "All values for each fixed shape, compared with an independent lifting reference; scratch memory is a checked static buffer.")

P("C14", "Codestream header markers are validated and stored as the standard says",
  "Reading a COD, COC, QCD, QCC, POC, RGN, CRG, SOT, TLM or PLT marker segment accepts exactly the segments whose length and fields the JPEG 2000 standard (and the decoder's limits: 33 resolutions, code-blocks of at most 4096 samples, fewer than 32 progression changes) allow, whatever the bytes. An accepted segment stores every field for exactly the components it addresses, in the tile being read or in the defaults, and changes no other component or tile. No segment makes the reader panic or reach outside its memory.",
  ["inputs"], "every segment content for the listed lengths, 2 or 3 components, up to 3 resolutions (and 33), 97 derived or up to 6 explicit step sizes, up to 2 new progression changes after 0..=31, every tile-part state",
  "Header bytes are attacker-controlled; the tests decode a few well-formed files, so limits, short segments and fields stored for the wrong component or tile never occur.",
  [J+"j2k.rs"], [("coding style", J+"j2k.rs opj_j2k_read_cod/coc"), ("quantization", J+"j2k.rs opj_j2k_read_qcd/qcc"), ("progression changes, ROI, tile-parts", J+"j2k.rs opj_j2k_read_poc/rgn/sot")],
  "The decoder's other state is arbitrary; SIZ and the COM, PPM, PPT and MCT family of markers are not covered.")

P("C09", "The sparse coefficient array behaves like a zero-initialised image",
  "Writing a region of a sparse array replaces exactly the samples of that region, and reading a region gives the samples last written there and zero where nothing was written, placed with the requested column and line stride and leaving the rest of the caller's buffer alone. Regions that are empty or reach outside the array are refused (or skipped when forgiving) without touching anything, arrays whose size would overflow are refused, and freeing releases every block once.",
  ["inputs", "histories"], "every region of arrays of up to 4x3, 6x2, 5x1 and 9x1 samples in blocks of 2x2, 4x1, 4x2, 5x1 and 8x2, column strides 1, 2 and 8, arbitrary samples; region validity for all 32-bit sizes; creation for all widths needing at most 12 blocks or too many",
  "Only partial decoding uses the array, with one geometry per file; block borders, strides and unwritten blocks are not sampled by tests.",
  [J+"sparse_array.rs"], [("region transfer", J+"sparse_array.rs opj_sparse_array_int32_read/write"), ("creation", J+"sparse_array.rs opj_sparse_array_int32_create/free")],
  "All regions of each listed geometry with arbitrary samples; memory requests succeed.")

P("C16", "JP2 boxes are validated, stored and written as the file format says",
  "Reading a JP2 image header, bit depth, palette, component mapping, channel definition, colour, signature or file type box accepts exactly the boxes whose length and fields are valid and in their place, stores every field (CIELab parameters and ICC profiles included), keeps the first where only one is allowed, and never panics on other contents. Box headers with normal, extended and open-ended lengths are understood, and boxes that are written are read back with the same values.",
  ["inputs"], "every content of boxes of 0 to 17 bytes (35 for CIELab), palettes of up to 3 entries and 1, 2 or 17 columns, 1 to 3 components and channels, every reader state; header boxes of up to three sub-boxes",
  "File headers are attacker-controlled; the tests decode one or two well-formed files.",
  [J+"jp2.rs"], [("box readers", J+"jp2.rs opj_jp2_read_*"), ("box headers", J+"jp2.rs Jp2BoxHeader::read"), ("box writers", J+"jp2.rs opj_jp2_write_ihdr/bpcc/cdef/colr")],
  "All contents for the listed lengths; the loop over the boxes of a file, which reads from a stream, is not covered.")

P("C17", "Palettes and channel definitions give every channel the right samples",
  "Applying a palette gives every channel its own samples: the palette entry selected by the source component's sample, limited to the palette's range, or the source sample itself for direct mappings, with the palette's precision and sign and the component's geometry. Channel definitions are accepted exactly when they name existing channels and define each of them; applying them puts every colour channel at its place, keeps every channel's samples and marks opacity channels. All sample memory is released exactly once.",
  ["inputs"], "mappings of 1 or 2 components to 1 to 3 channels with palettes of 1 and 3 entries, every sample and entry; every list of 1 to 3 channel definitions for 1 to 3 components; every valid assignment for 2 channels (thorough: 3)",
  "The tests decode files without palette or channel definitions.",
  [J+"jp2.rs", J+"image.rs"], [("palette", J+"jp2.rs opj_jp2_apply_pclr"), ("channel definitions", J+"jp2.rs opj_jp2_check_color/apply_cdef"), ("sample memory", J+"image.rs opj_image")],
  "Validation of component mappings (which uses a B-tree the engine cannot unroll) and of definitions combined with a palette is not covered.")

P("C29", "Images own their samples and colour profile exclusively",
  "Creating an image stores every component parameter and gives each component its own cleared samples, or fails leaving nothing allocated when a size overflows. Cloning an image copies every field, sample and profile byte into storage of its own; copying a header takes everything but the samples, replaces whatever profile the destination had, and leaves the source untouched. Decoded component sizes follow the tile grid, subsampling and reduction factor, and releasing an image releases each allocation exactly once.",
  ["inputs"], "images of 0 to 2 components of up to two samples, with and without samples and profiles of up to 4 bytes, every field; every image area, tile size and reduction factor for subsampling 1, 2 and 4 (3 and 255 for coordinates below 2^10)",
  "Sharing or leaking storage shows only when one copy outlives or changes after the other; the tests decode and drop one image.",
  [J+"image.rs"], [("creation and release", J+"image.rs opj_image_create/destroy"), ("copying", J+"image.rs Clone, opj_copy_image_header, take_comps"), ("component geometry", J+"image.rs opj_image_comp_header_update")],
  "Memory requests succeed and go to a checked stand-in allocator.")
