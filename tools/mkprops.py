#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["blend2d/"+f for f in files],
            state=[dict(name=a, meaning=b, where="blend2d/"+c) for a,b,c in state],
            mechanism=[dict(name=a, where="blend2d/"+b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Arrays behave as sequences of values",
 "Every array operation (assign, append, insert, replace, remove, resize, reserve, shrink, clear, modify/insert in place, equality) has on the observable content exactly the effect of the corresponding operation on a mathematical sequence, for every item type; ranges are clamped to the size, and replacing an item at an invalid index, exceeding the maximum size, or adopting external memory of insufficient capacity fails and changes nothing. The effect never depends on whether the storage is inline, on the heap, shared with another array or external, nor on whether the source data is the array's own content. Capacity is always at least the size, and at least what was reserved.",
 ["histories","inputs"], "All finite histories of array operations on any number of arrays sharing storage, all item types, sizes crossing every storage boundary, self-aliasing sources.",
 "Tests run a handful of fixed sequences per item type; storage-mode x operation x aliasing combinations are not enumerated.",
 ["core/array.cpp","core/array.h","core/array_p.h","core/object_p.h"],
 [("copy-on-write check and growth","core/array.cpp: bl_array_modify_op, bl_array_insert_op, bl_array_replace_data"),("inline storage","core/array_p.h")],
 [("size/capacity/data","sequence content","core/array.h: BLArrayImpl")], ["bl_array_* return values","bl_array_get_data/size/capacity"])

prop("C02", "Strings behave as byte sequences and stay terminated",
 "Every string operation has exactly the effect of the corresponding operation on a byte sequence, for every size, every storage mode and also when the source bytes belong to the string itself, and an operation that would exceed the maximum size fails and changes nothing. The data is always followed by a zero byte. Comparison is the lexicographic order of unsigned bytes, equality agrees with it, and searching returns the first or last index at which a byte occurs, from a given start.",
 ["histories","inputs"], "All finite histories of string operations, all byte values, all lengths around inline/heap boundaries, aliased sources.",
 "Tests use short literal strings and few lengths; transitions between inline, heap, shared storage for each operation are not enumerated.",
 ["core/string.cpp","core/string.h","core/string_p.h"],
 [("inline (SSO) storage with size encoded in the object","core/string_p.h"),("modify/insert ops","core/string.cpp")],
 [("content","bytes + terminator","core/string.h")], ["bl_string_* return values and data"])

prop("C03", "Values are isolated: changing one object never changes another",
 "Copying, moving or assigning any value object (array, string, bit array, bit set, path, gradient, pattern, stroke options, font, image pixel data, variant) yields an object whose observable value is that of the source at that time, and any later operation on one object never changes what any other object reads. A moved-from object (stroke options, a plain structure, excepted) reads as the default value of its type, and destroying or resetting one object never affects the others.",
 ["histories"], "All interleavings of copy/move/assign/mutate/destroy over any number of handles of every value class.",
 "Tests copy an object once and mutate one side in a few methods; each mutator x sharing topology (weak, deep, nested in array or variant) is needed.",
 ["core/object.cpp","core/object_p.h","core/array.cpp","core/path.cpp","core/gradient.cpp","core/pattern.cpp","core/image.cpp","core/var.cpp"],
 [("reference count and is-mutable test before in-place mutation","core/object_p.h"),("make_mutable per class","core/*.cpp")],
 [("reference count","number of handles of a shared impl","core/object.h")], ["full readable state of every handle after each operation"])

prop("C04", "Bit arrays behave as sequences of bits",
 "Every bit-array operation (set, clear, fill, replace, append, resize, assign words, queries, comparison) has exactly the effect of the corresponding operation on a finite sequence of bits, for every size and every bit position relative to word boundaries. Bits beyond the size are never visible in data, cardinality, range or comparison results. Out-of-range arguments fail without changing the array.",
 ["histories","inputs"], "All histories; all sizes, offsets and word counts around word and inline-storage boundaries.",
 "Tests sample few sizes; word-boundary x storage-mode x operation combinations are not enumerated.",
 ["core/bitarray.cpp","core/bitarray.h","core/bitarray_p.h","support/bitops_p.h"],
 [("bit-order and masks of partial words","support/bitops_p.h, core/bitarray.cpp")],
 [("size, words","bit sequence","core/bitarray.h")], ["bl_bit_array_* results"])

prop("C05", "Bit sets behave as mathematical sets of indexes",
 "A bit set is exactly the set of indexes obtained by applying its history of operations (add/clear bit, add/clear range, add words, chop, assign, builder commits) to a mathematical set, whatever its internal representation (inline words, inline range, dense or range segments). Cardinality, membership, range queries, equality, ordering, subset/intersection tests, segment data and all iterators are functions of that set only. Invalid arguments fail and change nothing.",
 ["histories","inputs"], "All histories over the full 32-bit index space including its end, all representations.",
 "Tests cover chosen ranges; equality of result across all representation transitions (dense<->range segments, inline<->dynamic) is combinatorial.",
 ["core/bitset.cpp","core/bitset.h","core/bitset_p.h"],
 [("segment splitting/merging, SSO range and dense encodings","core/bitset.cpp"),("iterators over segments","core/bitset.h")],
 [("segments","ordered, disjoint description of the set","core/bitset.h")], ["bl_bit_set_* results","BLBitSetWordIterator"])

prop("C06", "Path building appends exactly the specified commands",
 "A path is exactly the sequence of (command, vertex) pairs obtained from its history: each drawing command, geometry, range append, translate/transform, reversal, removal and vertex replacement adds or changes precisely the documented vertices, in order, and leaves every other vertex untouched, also when the source is the path itself. Drawing without a current point, invalid ranges or indexes fail and leave the path unchanged. Figure ranges, last vertex, closest vertex, control box and equality agree with that sequence.",
 ["histories","inputs"], "All histories of path operations over all ranges, including self-append and storage growth.",
 "Tests check a few sequences; reversal, smooth commands, growth and range boundary cases are only sampled.",
 ["core/path.cpp","core/path.h","core/path_p.h"],
 [("append commit helpers","core/path.cpp: PathAppender"),("range check","core/path.cpp: bl_path_*_range"),("cached info flags invalidation","core/path.cpp")],
 [("command and vertex arrays","path content","core/path.h: BLPathImpl")], ["bl_path_get_command_data/vertex_data/size"])

prop("C07", "Gradient stops stay sorted and edits are exact",
 "The stops of a gradient are always ordered by offset, ties in insertion order as documented (at most the visible pair for equal offsets is kept by consumers, none is lost by editing), and adding, replacing, removing (by index, by offset, by ranges) and assigning stops changes exactly the stops concerned. Type, extend mode, values and transformation are independent of the stops and of each other, and survive every stop edit. Invalid arguments fail and change nothing.",
 ["histories","inputs"], "All histories of gradient edits, duplicates, unsorted input, shared storage.",
 "Tests check a few additions; replace/remove with equal offsets and shared or growing storage are not enumerated.",
 ["core/gradient.cpp","core/gradient.h","core/gradient_p.h"],
 [("sorted insertion / stable sort on assign","core/gradient.cpp"),("cached LUT invalidation","core/gradient.cpp")],
 [("stops, values, transform","gradient value","core/gradient.h: BLGradientImpl")], ["bl_gradient_get_* results"])

prop("C08", "Font feature and variation settings are exact tag maps",
 "A font feature settings object is exactly the map from valid tag to value in 0..65535 that results from its history, and a variation settings object is exactly a map from valid tag to number; set, get, has, remove, equality and enumeration in ascending tag order agree with that map for every number of entries. Invalid tags or values fail and change nothing, and unknown tags read as the documented 'no value'. The result never depends on whether the map is stored inline or on the heap.",
 ["histories","inputs"], "All histories of set/remove/copy over any tags and values, sizes across the inline limit.",
 "Tests insert a few tags in order; inline-to-heap transitions with removal and special tag encodings are not enumerated.",
 ["core/fontfeaturesettings.cpp","core/fontvariationsettings.cpp","core/fonttagdata_p.h","core/fonttagset.cpp"],
 [("inline packed encodings of tags and bits","core/fontfeaturesettings.cpp"),("sorted dynamic array","core/fontvariationsettings.cpp")],
 [("map","tag -> value","core/fontfeaturesettings.h")], ["get_value/has_value/get_view"])

prop("C09", "Variants and properties convert and round-trip exactly",
 "A variant holds exactly the last value assigned to it, reports its type, converts to bool/int/uint/double only as documented (exact or saturated values with the documented result code) and compares equal exactly when the held values are equal, strictly or by type-tolerant numeric equality (fonts compare by identity). Setting an object property and reading it back returns the value set, when that value is accepted; an unknown name, an unconvertible or out-of-range value is rejected with an error and changes nothing.",
 ["inputs","histories"], "All value kinds, numeric extremes, all object types and property names.",
 "Tests probe a few conversions; the boundary matrix of types x targets x extremes is not enumerated.",
 ["core/var.cpp","core/var.h","core/object.cpp","core/context.cpp"],
 [("conversion tables","core/var.cpp"),("property dispatch","core/object.cpp")],
 [("variant payload","typed value","core/var.h")], ["bl_var_* and bl_object_*_property results"])

prop("C10", "External data lives as long as needed and is released once",
 "When an array, image or font data object is created over caller-provided memory, the caller's destroy callback is invoked exactly once, with the original pointers, at the moment the last object sharing that memory goes away (or switches to other storage), never before and never twice, also when the handles are copied and released concurrently from several threads. Memory declared read-only is never written by the library, and mutating an object over read-only memory first moves it to its own storage. When creation fails the callback is not invoked and the target is unchanged.",
 ["histories","schedules"], "All histories of create/copy/mutate/release across handles and threads, and all schedules of concurrent copy/release.",
 "Tests create one external object; release order, mutation and concurrent copies are not explored.",
 ["core/object.cpp","core/object_p.h","core/array.cpp","core/image.cpp","core/fontdata.cpp","threading/atomic_p.h"],
 [("external-data trailer with destroy function","core/object_p.h"),("atomic reference counting","core/object_p.h")],
 [("reference count","handles alive","core/object.h"),("destroy_func","release callback","core/object.h")], ["callback log, content of buffers"])

prop("C11", "Context state follows stack discipline",
 "After any sequence of state setters, saves and restores, every readable piece of context state (composition operator, alphas, styles and their alphas, swaps, fill rule, all stroke options, hints, approximation options, transformations, clip) equals what a stack model predicts: restore brings back exactly the state at the matching save, all of it and nothing else. Saves with a cookie can only be restored by that cookie, restoring with nothing (or nothing matching) fails, and rejected setters change nothing. Drawing after a restore uses the restored state and resets of styles held by saved states neither leak nor corrupt memory.",
 ["histories"], "All sequences of setters/save/restore with and without cookies, any nesting, on synchronous and multithreaded contexts.",
 "Tests verify few setters around one save/restore; each setter x lazy-save combination and cookie misuse must be covered.",
 ["raster/rastercontext.cpp","raster/rastercontext_p.h","raster/statedata_p.h","core/context.cpp"],
 [("lazy saving by per-group weak flags","raster/rastercontext.cpp: save/restore, on_before_*_change"),("cookie ids","raster/rastercontext.cpp")],
 [("saved state list","stack of saved states","raster/rastercontext_p.h")], ["context getters after each call","pixels of a probe drawing"])

prop("C12", "Transformations compose by matrix algebra",
 "Every sequence of transformation operations (reset, assign, translate, scale, skew, rotate, transform, and the post- variants) applied to a matrix, context, gradient or pattern results in the composition defined by matrix algebra in the documented order; inversion yields the inverse or reports failure; mapping points and vectors agrees with the matrix; and the reported transformation type is a correct classification. On the context the user and meta parts compose to the final one, applying the user part to meta resets it, and resets restore exactly the documented state. Exact for inputs whose arithmetic is exactly representable.",
 ["histories","inputs"], "All sequences of transform operations; exact on dyadic inputs.",
 "Tests check few sequences with tolerance; order and aliasing of pre/post forms on each carrier is not enumerated.",
 ["core/matrix.cpp","core/matrix.h","raster/rastercontext.cpp","core/gradient.cpp","core/pattern.cpp"],
 [("apply_transform_op dispatch","core/matrix.cpp: bl_matrix2d_apply_op"),("transform type classification","core/matrix.cpp")],
 [("matrix","6 coefficients","core/matrix.h")], ["matrix values, mapped points, final/user/meta transforms"])

prop("C13", "Drawing is confined to the clip",
 "No drawing operation of any kind changes a pixel outside the current clip region, which is the intersection of the image and all clip rectangles applied since the last clip reset (or the saved state being restored), under the transformation in effect when each was applied. Inside the clip, results equal those of the unclipped drawing, for pixel-aligned clips. Clipping only ever shrinks the region until it is restored, whatever the coordinates, including huge, negative, NaN or degenerate ones, and nothing outside the image memory is ever written.",
 ["programs","inputs"], "All sequences of clip/restore/transform/draw calls and extreme coordinates, sync or multithreaded.",
 "Tests draw with simple rectangles; extremes and combinations of integer/floating clips with save/restore are not enumerated.",
 ["raster/rastercontext.cpp","raster/rendercommandprocsync_p.h","raster/edgebuilder_p.h","core/geometry.h"],
 [("clip boxes (final/meta, integer and fixed-point)","raster/rastercontext.cpp: clip_to_rect_*, restore_clipping"),("command clipping","raster/rastercontext.cpp")],
 [("clip box","region","raster/rastercontext_p.h")], ["every pixel and guard bytes around the image"])

prop("C14", "Pixel-aligned drawing is exact on every pixel",
 "For pixel-aligned geometry, a fill, clear, or image blit sets each covered pixel to exactly the value the operator assigns to source and destination at that pixel and leaves all others untouched, for every format combination, position, size and origin. Solid sources supply their colour; images and patterns supply the texel selected by offset and by the extend mode (pad, repeat, reflect, per axis), limited to the selected area. The result is independent of row stride, memory alignment, width, and how a region is divided into operations.",
 ["programs","inputs"], "All rectangles, offsets, areas, extend modes and formats; all sequences of operations.",
 "Tests compare a reference only for a few sizes; each width residue, offset sign and extend combination must be covered.",
 ["raster/rastercontext.cpp","pipeline/reference","pipeline/piperuntime.cpp","pixelops","pipeline/reference/fetchgeneric_p.h"],
 [("aligned box fill and blit pipelines","pipeline/reference/*"),("fetch-pattern initialisation","pipeline/pipedefs.cpp")],
 [("pixels","image content","core/image.h")], ["every pixel after each operation"])

prop("C15", "Composition operators compute the documented formulas",
 "For every composition operator, source/destination format, source kind, global and style alpha, and for full or partial masks, the resulting pixel is the documented operator formula on premultiplied 8-bit components, with the library's integer rounding, the same at every position and run length. Results are always valid premultiplied pixels when inputs are; a fully transparent source-over leaves the destination unchanged and a fully opaque source-copy replaces it.",
 ["inputs"], "All operators x formats x alphas x component values, all run lengths.",
 "Tests compare engines with each other on random drawings, not with an independent formula; component values are only sampled.",
 ["pipeline/reference/compopgeneric_p.h","core/compop.cpp","core/compopinfo.cpp","core/compopsimplifyinfo.cpp","raster/rastercontext.cpp"],
 [("operator implementations","pipeline/reference/compopgeneric_p.h"),("operator simplification table","core/compopsimplifyinfo.cpp")],
 [("pixel","premultiplied components","core/rgba.h")], ["resulting pixels"])

prop("C16", "Multithreaded rendering equals synchronous rendering",
 "For every sequence of context calls, the pixels produced by a multithreaded context after a flush or end are identical to those of a synchronous context given the same calls, for every thread count, image size, interleaving of workers, number of queued commands and placement of flushes. Images, gradients, patterns and other sources may be changed or destroyed right after the call that used them without affecting the result.",
 ["programs","schedules"], "All command programs, all thread counts, all worker interleavings and flush points, all batch and band boundaries.",
 "Tests render random content with few configurations; batch/queue boundaries, state interleavings and late source mutation are not covered.",
 ["raster/rastercontext.cpp","raster/workermanager.cpp","raster/workerproc.cpp","raster/renderbatch_p.h","raster/renderqueue_p.h"],
 [("deferred commands with retained sources","raster/rastercontext.cpp"),("jobs and bands","raster/workerproc.cpp")],
 [("batch","queued jobs and commands","raster/renderbatch_p.h")], ["image pixels after flush/end","reference counts after end"])

prop("C17", "Render batches execute each job and command exactly once",
 "In every schedule, a flushed batch executes every queued job exactly once and only then its commands, each band of the image is processed by exactly one worker which runs that band's commands in submission order, and the flush returns only after every worker is done with the batch; afterwards no worker touches the batch or its synchronisation state again. Threads handed out by a pool are each owned by at most one user at a time and all come back, and a thread runs each work item given to it exactly once, without deadlock or lost wake-up.",
 ["schedules"], "All interleavings of worker threads, pool users and shutdown.",
 "Tests see the few schedules that the OS produces; lost wake-ups and use-after-free need rare interleavings.",
 ["raster/workersynchronization_p.h","raster/workersynchronization.cpp","raster/workerproc.cpp","raster/workermanager.cpp","threading/thread.cpp","threading/threadpool.cpp"],
 [("barrier counters (futex and portable variants)","raster/workersynchronization_p.h"),("thread work slot protocol","threading/thread.cpp")],
 [("waiting/running counters","progress of a batch","raster/workersynchronization_p.h")], ["per-thread event traces"])

prop("C18", "Allocation failure is reported and leaves objects intact",
 "If any memory allocation fails during an operation on a value object, the operation reports an out-of-memory error, every object keeps a valid observable value (the old one for operations documented as all-or-nothing), no memory is leaked or released twice, and the same operation succeeds later when memory is available. The same holds for whole operations - converting and scaling images, encoding and decoding, files, loading fonts, shaping and outlines, font managers, and rendering, also in worker threads: they either report the failure (a context that renders asynchronously in its error flags) or give the complete result of an undisturbed run. The library never crashes or loops because of an allocation failure.",
 ["fault_sequences","histories"], "Every allocation point of every operation in every history.",
 "Tests never make an allocation fail.",
 ["core/object.cpp","core/array.cpp","core/string.cpp","core/path.cpp","core/bitset.cpp","core/bitarray.cpp","core/gradient.cpp","core/image.cpp","core/imagescale.cpp","codec/*.cpp","core/font.cpp","core/fontmanager.cpp","raster/rastercontext.cpp","raster/workerproc.cpp","raster/rendercommandprocasync_p.h"],
 [("two-phase modification: allocate first, then commit","core/*.cpp")],
 [("object state","value","core/object.h")], ["results, values and live allocations after injected failures"])

prop("C19", "Lossless image codecs round-trip every image",
 "Encoding an image with a lossless codec (PNG, QOI, BMP) and decoding the result yields an image of the same size whose pixels are equal to the original (an alpha-only image comes back as grey), for every size, format, content, stride and compression level, whatever the output array held before. Every conforming PNG (all bit depths, colour types, filters, interlacing, palettes with transparency, any split of the data into chunks), animated PNG, BMP (all header versions, channel masks, run-length encoded) and QOI file within supported features decodes to the (premultiplied) pixels its format defines, and the encoded bytes are a conforming file.",
 ["inputs"], "All image sizes, formats, contents and encoder options.",
 "Tests encode a few random images; encoder states (runs, index hits, diffs, filters, bit depths) depend on content.",
 ["codec/pngcodec.cpp","codec/qoicodec.cpp","codec/bmpcodec.cpp","core/imagecodec.cpp","core/imageencoder.cpp","core/imagedecoder.cpp"],
 [("format encoders/decoders","codec/*.cpp"),("inverse filters","codec/pngopssimd*")],
 [("pixels","image content","core/image.h")], ["decoded pixels, encoded bytes"])

prop("C20", "Decoders reject broken input without damage",
 "Given any byte string, every image decoder either produces an image of the declared size or reports an error, in bounded time and without reading outside the input or writing outside its own memory; a failed decode leaves the destination a valid image, unchanged or of the declared size, and never changes other images sharing its pixels. A decoder that failed keeps reporting the same error until restarted, one that decoded its only frame reports that there is no more data, a restarted decoder gives the same result again, and reading information first or decoding directly gives the same result. A file whose information can be read is also recognised by its signature.",
 ["inputs","histories"], "All byte strings, all truncation points and corruptions, all orders of decoder calls.",
 "Tests decode well-formed images only.",
 ["codec/pngcodec.cpp","codec/qoicodec.cpp","codec/bmpcodec.cpp","codec/jpegcodec.cpp","core/imagedecoder.cpp","compression/deflatedecoder.cpp"],
 [("decoder status machine","codec/*codec.cpp: decoder_read_info_impl/read_frame_impl"),("bounds checks","codec/*.cpp")],
 [("last_result, frame_index, buffer_index","decoder progress","core/imagedecoder.h")], ["results, properties, destination image"])

prop("C21", "Deflate decoding and encoding are exact inverses",
 "Decompressing any conforming raw or zlib stream yields exactly the bytes it encodes, independent of how input is split into chunks or output buffers are sized; compressing any data at any level yields a conforming stream that decompresses to the same data. Ill-formed deflate data and streams that end before their final block are reported as errors or as needing more input, never as success. Checksums (Adler-32, CRC-32) equal their mathematical definition however the data is split and aligned.",
 ["inputs","histories"], "All data, levels, chunkings, window distances and block types.",
 "Tests check a few buffers; bit-level states of the streaming decoder at chunk boundaries are not enumerated.",
 ["compression/deflatedecoder.cpp","compression/deflateencoder.cpp","compression/checksum.cpp","compression/deflatedecoderfast_p.h"],
 [("resumable decoder state machine","compression/deflatedecoder.cpp"),("block splitting and Huffman building","compression/deflateencoder.cpp")],
 [("bit buffer, window, copy state","decoder progress","compression/deflatedecoder_p.h")], ["decoded bytes, status per chunk"])

prop("C23", "Pixel conversion depends only on pixel values",
 "Converting a rectangle between any two supported pixel formats maps every pixel by the formats' definition (component extraction, scaling, premultiply/unpremultiply rounding, byte order, palette), writes exactly the requested pixels plus the requested gap fill, and nothing else. The result does not depend on position, row length, stride sign, alignment or the chosen implementation.",
 ["inputs"], "All format pairs, component masks, widths, strides, alignments and pixel values.",
 "Tests compare a few formats at one width; residues of vector widths and component values are sampled only.",
 ["core/pixelconverter.cpp","core/pixelconverter_p.h","core/pixelconverter_avx2.cpp","core/pixelconverter_sse2.cpp","core/pixelconverter_ssse3.cpp","core/format.cpp"],
 [("converter selection and specialised loops","core/pixelconverter*.cpp")],
 [("format info","component layout","core/format.h")], ["destination bytes including guards"])

prop("C24", "Text encodings decode to the same characters",
 "Setting text as UTF-8, UTF-16, UTF-32, wide or Latin-1 yields the sequence of characters defined by that encoding, so equal texts give equal results in every encoding, with explicit length or zero-terminated; strict validation and conversion reject text with an ill-formed or truncated sequence with the documented error and stop exactly before it; a glyph buffer replaces each ill-formed UTF-8 part by U+FFFD (and keeps lone UTF-16 surrogates) and flags the text, and never decodes it into other characters. Nothing outside the destination is written.",
 ["inputs"], "All code-unit sequences, lengths and terminations.",
 "Tests check selected sequences; ill-formed and truncated sequences at every position are not enumerated.",
 ["unicode/unicode.cpp","unicode/unicode_p.h","core/glyphbuffer.cpp","core/string.cpp"],
 [("UTF readers and validators","unicode/unicode_p.h"),("glyph buffer text setters","core/glyphbuffer.cpp")],
 [("content","code points and clusters","core/glyphbuffer.h")], ["glyph buffer content, string content, result codes"])

prop("C25", "File objects follow the file model",
 "Reads, writes, seeks, truncation and size queries through a file object behave as on a byte sequence with a position, transferring exactly the reported number of bytes; opening honours the access and creation flags (existing, exclusive, truncate); whole-file read and write transfer the complete content, limited by the given maximum. Errors leave the file object's state and target arrays as documented, and closing releases the file exactly once.",
 ["histories"], "All histories of file operations, flags, offsets and sizes.",
 "No existing test covers file objects beyond trivial use.",
 ["core/filesystem.cpp","core/filesystem.h","core/filesystem_p.h"],
 [("flag translation to the OS","core/filesystem.cpp: bl_file_open"),("read/write loops","core/filesystem.cpp")],
 [("handle, position","open file","core/filesystem.h")], ["results and bytes in a scratch directory"])

prop("C26", "Point hit-testing agrees with the path's geometry",
 "Point hit-testing of a path reports inside exactly when the winding number of the path around that point satisfies the fill rule (non-zero or even-odd), for every path made of lines, quadratic and cubic curves, including unclosed (implicitly closed), nested, reversed, self-intersecting and degenerate figures, and for points exactly at the height of a vertex, an end point or an extremum. Points lying on the outline itself may be reported either way.",
 ["inputs"], "All figures of lines, quadratics and cubics, both fill rules, all sample points.",
 "Tests check few points of few shapes.",
 ["core/path.cpp","support/math.cpp","geometry/bezier_p.h"],
 [("winding computation","core/path.cpp: bl_path_hit_test"),("monotone splitting and root finding","geometry/bezier_p.h, support/math.cpp")],
 [("vertices","path content","core/path.h")], ["bl_path_hit_test"])

prop("C27", "Filling polygons yields exact area coverage",
 "Filling any set of polygons with vertices on the 1/256 subpixel grid paints each pixel with the coverage given by the signed area the polygons accumulate inside that pixel under the fill rule (non-zero: clamped, even-odd: folded), up to a few quantisation levels out of 255 on slanted edges; overlapping, reversed, nested, degenerate, partly or entirely out-of-view figures included. The result does not depend on figure order, image format, image position, size, clipping or the number of rendering threads, no byte outside the image's pixels is touched.",
 ["inputs","programs"], "All polygons on the subpixel grid, both fill rules, any placement relative to the image, clip and band boundaries, sync and multithreaded contexts.",
 "Tests compare renderings between engines, not with a geometric definition.",
 ["raster/edgebuilder_p.h","raster/analyticrasterizer_p.h","raster/rastercontext.cpp","pipeline/reference/fillgeneric_p.h"],
 [("edge building and clipping","raster/edgebuilder_p.h"),("cell accumulation","raster/analyticrasterizer_p.h")],
 [("cover/area cells","coverage accumulation","raster/analyticrasterizer_p.h")], ["pixels of A8, PRGB32 and XRGB32 images"])

prop("C29", "Random generator produces the defined sequence",
 "A random generator's output is fully determined by its seed and the number and kind of values drawn, equals the defined recurrence, and equal generators produce equal sequences; resetting restarts the sequence. Doubles are in [0, 1), 32-bit and 64-bit outputs follow from the same recurrence, and zero seeds are valid.",
 ["inputs","histories"], "All seeds and draw sequences.",
 "Tests compare a few outputs against constants.",
 ["core/random.cpp","core/random_p.h"],
 [("xorshift128+ step and seeding","core/random_p.h")],
 [("128-bit state","generator","core/random.h")], ["drawn values, equality"])

prop("C31", "Font manager indexes faces exactly",
 "A font manager contains exactly the faces added to it: each face once, found by family name regardless of letter case and not under any other name; queries return the documented best match for the requested properties and otherwise an error, leaving outputs in the documented state. Additions and copies from several threads are safe and linearizable.",
 ["histories","schedules"], "All histories of add/query/copy with arbitrary names and properties, and concurrent additions.",
 "Tests add a few faces and query them.",
 ["core/fontmanager.cpp","core/fontmanager_p.h"],
 [("family hash map with prioritised face lists","core/fontmanager.cpp"),("read/write lock","core/fontmanager.cpp")],
 [("face map","family -> faces","core/fontmanager_p.h")], ["query results, face counts"])

prop("C32", "Character-to-glyph mapping follows the font's tables",
 "For every font whose character map, metrics, kerning and layout (GSUB, GPOS) tables are well-formed, mapping text to glyphs, substitution, advances, kerning and positioning give exactly the values these tables define, for every character, also those outside every range, and independent of the text around it for mapping. Malformed tables are rejected or treated as absent without reading outside the font data.",
 ["inputs"], "All well-formed character maps (supported formats), metrics and kerning tables, and all malformed variants.",
 "Tests use one real font file at most.",
 ["opentype/otcmap.cpp","opentype/otmetrics.cpp","opentype/otkern.cpp","opentype/otface.cpp","core/font.cpp"],
 [("cmap format readers","opentype/otcmap.cpp"),("metrics lookup","opentype/otmetrics.cpp"),("kern pair search","opentype/otkern.cpp")],
 [("tables","font data","opentype/otcmap_p.h")], ["glyph ids, advances"])

prop("C33", "Image scaling computes the filter's weighted mean",
 "Scaling an image yields an image of the requested size and the source's format in which every pixel is the mean of the source pixels around its position weighted by the selected filter (nearest, bilinear, bicubic, Lanczos; stretched when the image shrinks; edge pixels repeated outside the image), up to the precision of 8-bit weights; images of one colour keep it exactly, premultiplied pixels stay valid. The source and everything sharing its pixels keep their values, also when the destination is the source; an empty source gives an empty image; invalid sizes and filters are refused and change nothing.",
 ["inputs"], "All sizes, formats, filters, strides and pixel contents, all aliasing of source and destination.",
 "No existing test covers scaling.",
 ["core/imagescale.cpp","core/imagescale_p.h","core/image.cpp"],
 [("weights of each output position","core/imagescale.cpp: image_scale_weights"),("horizontal and vertical passes per format","core/imagescale.cpp"),("orchestration and aliasing","core/image.cpp: bl_image_scale")],
 [("weight and record lists","scale context","core/imagescale_p.h")], ["pixels of the destination, source and sharing images"])

prop("C34", "Strokes cover the outline's neighbourhood",
 "Stroking a figure paints exactly the union of the boxes of its segments (half the width to each side), the corner piece its join defines at every turn (mitre within its limit, else clip, bevel or round as selected; bevel; round) and the selected cap at each end of an open figure; closed figures have no caps and a join at every vertex. This holds for every number of figures, direction, length, repeated point, turn, join, cap, width and transformation, with the transformation applied after or before the stroke as selected (the meta transformation always after), for paths, polylines, polygons, rectangles, lines and circles, for strokes added to a path, and for synchronous and asynchronous rendering; the fill rule in effect does not matter. Straight curves are stroked as lines; strokes of circles are rings. Edges that are not on the pixel grid may deviate by the approximation tolerance.",
 ["inputs","programs"], "All polylines, stroke options and transformations.",
 "Tests compare strokes of one engine with another, not with a definition.",
 ["core/pathstroke.cpp","core/path.cpp","raster/rastercontextops_p.h","raster/rastercontext.cpp"],
 [("joins, caps, offsets","core/pathstroke.cpp"),("stroke sinks and transformation order","raster/rastercontextops_p.h, core/path.cpp: bl_path_add_stroked_path")],
 [("side paths","figure being stroked","core/pathstroke.cpp")], ["pixels of stroked images"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+"\n")
print(len(P))
