#!/usr/bin/env python3
"""Writes properties.jsonl (the single place the property texts are edited)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("C01", "Command-line options: every value read is the one the command line dictates",
     """After a successful parse, every declared option reads back the last value given for it under either of its
     names, or else its declared default (also when the same set is parsed again with another command line), its
     set flag is true exactly when it was given, and all arguments that are not options or option values are handed
     back in their original order.  A missing option value, a missing required option or rest argument, a wrong-type or
     unknown-name read and a duplicate or illegal declaration end in the fatal handler instead of returning a value; the
     help option prints the usage and exits, and printed values and usage reflect the declarations and current values.
     The C++ wrapper gives the same answers.""",
     ["inputs", "histories"],
     """all option sets, all argument vectors and all sequences of declare/parse/set/read calls""",
     """The tests parse a handful of fixed command lines once; repeated parses, either-name lookups, last-wins ordering
     and interleavings of options and plain arguments are unbounded.""",
     ["src/nx_options.c", "include/virg/nexus/nx_options.h", "src/vg_options.cc"],
     [("option table with long/short lookup and default/current value pairs", "src/nx_options.c"),
      ("argv walk and rest gathering", "src/nx_options.c:nx_options_set_from_args")],
     observe=["nx_options_get_*", "nx_options_is_set", "nx_options_rest", "VGOptions accessors"])

prop("C02", "Python options: parse, dictionary and YAML views agree",
     """After parsing an argument list every option's value is the one given last or its default, and the same mapping
     is visible in the returned dictionary, in the option items and in the dictionary export.  Saving options to YAML
     and loading that file into a fresh copy of the same option set reproduces every value; loading a mapping that
     lacks a key resets that option to its default.""",
     ["inputs", "histories"],
     """all option groups (types, names with dashes, defaults), argument lists and sequences of parse/save/load""",
     """Three pytest cases cover one fixed option set; value/type/name combinations and histories of parse, save and
     load are unbounded.""",
     ["pyvirg/virg/nexus/options.py"],
     [("key name derivation and from_dict/to_dict", "pyvirg/virg/nexus/options.py:OptionGroup"),
      ("argparse binding and YAML text", "pyvirg/virg/nexus/options.py:Options")],
     observe=["Options.parse_args", "Options.to_dict", "Options.save_yaml/load_yaml"])

prop("C03", "Memory blocks and vectors keep contents and respect memory ownership",
     """Under every sequence of create, reserve, resize, append, copy, swap, wrap, release and free calls, a block or
     vector shows exactly the cells that were stored in it, its size never exceeds its capacity, and the whole capacity
     is usable.  Memory lent by the caller is never freed, grown in place or changed except through the handle that
     borrows it; memory handed over or allocated is freed exactly once, and none is left after the handle is freed.""",
     ["histories"],
     """all sequences of operations on any number of handles, all sizes, lent and handed-over buffers""",
     """The tests exercise single calls on fresh blocks; ownership errors need particular sequences (wrap then grow,
     swap then free, copy into a borrowed block) and leave values intact until later.""",
     ["src/nx_mem_block.c", "src/nx_vector_gen.c", "src/nx_keypoint_vector.c", "src/nx_alloc.c"],
     [("own_memory flag and capacity test in reserve/release/wrap", "src/nx_mem_block.c"),
      ("vector size/capacity/data mirror of its block", "src/nx_vector_gen.c:_update_vector_fields")],
     state=[("own_memory", "the block must free its memory", "struct NXMemBlock")],
     observe=["struct NXMemBlock fields", "struct NXKeypointVector fields"])

prop("C04", "String arrays behave as ordered lists of strings and survive binary streams",
     """A string array always equals the list its append, set, resize and clear calls describe: order,
     length, content (unset elements included) and first-match lookup, with every element an independent copy of what
     the caller passed, even when that is an element of the array itself.  Writing an array whose elements are all set to a binary stream and reading it back yields the same list and leaves the stream positioned
     right after it; a stream that ends early is reported as a failure.""",
     ["histories", "inputs"],
     """all operation sequences and element contents (empty, long, arbitrary bytes)""",
     """Tests append a few short literals; growth boundaries, shrink/regrow, unset elements and stream positions need
     long histories and arbitrary contents.""",
     ["src/nx_string_array.c", "src/nx_string.c", "src/nx_io.c"],
     [("capacity growth and per-element ownership", "src/nx_string_array.c"),
      ("length-prefixed element encoding", "src/nx_string.c, src/nx_string_array.c")],
     observe=["NX_STRING_ARRAY accessors", "nx_string_array_write/read"])

prop("C05", "Data frames are typed tables: reads return the last write, nothing else changes",
     """Each cell of a data frame reads back the last value written to it or NA, whatever rows and columns were added
     in between, with new cells NA; writing one cell, adding rows or adding columns never alters any other cell, name
     or level.  Factor cells decode to the label stored and levels keep first-appearance order; turning a column into
     a factor column keeps every value as its text and every NA.  Reads or writes through the wrong type and reads of an
     NA cell end in the fatal handler.""",
     ["histories", "inputs"],
     """all sequences of add-rows, add-column, set, set-NA, make-factor and read operations over all column types""",
     """Tests build one small frame each; capacity growth, level table growth and NA bookkeeping interact only over long
     mixed histories.""",
     ["src/nx_data_frame.c", "include/virg/nexus/nx_data_frame.h"],
     [("per-column NA mask and value arrays grown with the row capacity", "src/nx_data_frame.c"),
      ("factor level table", "src/nx_data_frame.c")],
     observe=["nx_data_frame_* accessors"])

prop("C06", "CSV text is read as the table it denotes and saved frames reload unchanged",
     """For every CSV text, the loaded frame has one row per record and one column per header field, every cell is the
     text of its field with quoting undone (empty unquoted fields are NA; in a one-column table so is an empty line),
     and each column has the narrowest of boolean, integer, real and string types that fits all of its non-NA fields
     (quoted fields are strings), or becomes a factor column where that was asked for strings.  Malformed text (unterminated
     or stray quotes, records with too many or too few fields, empty records of wider tables) ends in the fatal handler.
     Every saved frame has a text that denotes the same column names, the same NA cells and exactly the same values, so
     that loading it reproduces them.""",
     ["inputs"],
     """all CSV texts without zero bytes and all frames, read from memory, streams or files""",
     """Tests parse a few fixed strings; the lexer's state machine has edge cases at quotes, empty fields, line ends,
     end of input and number syntax that only arbitrary texts reach.""",
     ["src/nx_csv_lexer.c", "src/nx_csv_parser.c", "src/nx_data_frame.c", "src/nx_lexer.c"],
     [("character-level tokenizer", "src/nx_csv_lexer.c"), ("column type inference", "src/nx_csv_parser.c"),
      ("frame save/load", "src/nx_data_frame.c")],
     observe=["nx_csv_lexer_next_token", "nx_data_frame_load_csv*", "nx_data_frame_save_csv"])

prop("C07", "JSON is accepted exactly when well-formed and parsed to the tree it denotes",
     """A text that is one array or object in JSON syntax (escapes \\" \\\\ \\/ \\b \\f \\n \\r \\t; any byte but quote and backslash
     may appear raw in a string) is accepted whatever its nesting, white space or length and whether it comes from memory, a stream
     or a file, and the resulting tree has its structure, member order, names, strings (escapes undone), number texts and
     number kinds (integer or floating-point).  A text that does not begin with a complete well-formed array or object
     ends in the fatal handler.  Printing any tree, at any pretty-print level, gives a text that denotes an equal tree,
     and freeing a tree releases all of it.""",
     ["inputs"],
     """all byte strings without zero bytes, all trees""",
     """Lexer tests check token sequences of a few literals and the parser has none; the grammar's error cases and
     nesting are unbounded.""",
     ["src/nx_lexer.c", "src/nx_json_lexer.c", "src/nx_json_parser.c", "src/nx_json_tree.c", "src/nx_string.c", "src/nx_io.c"],
     [("token rules", "src/nx_json_lexer.c"), ("recursive-descent grammar", "src/nx_json_parser.c"),
      ("tree builders and printer", "src/nx_json_tree.c")],
     observe=["nx_json_tree_from_string/stream/file", "nx_json_tree_fprint"])

prop("C08", "JSON trees hold what was added and typed values survive bundling",
     """Objects and arrays built through the API list exactly the members added, in order; lookup by position, or by name
     (first member of that name), returns the member if its type is among the asked ones and nothing otherwise, or ends
     in the fatal handler in the checked variants.  Every typed value (boolean, character, byte, integer, size, float, double, string, arrays of them,
     keypoints) bundled into a tree unbundles to the same value, directly and after the tree was printed and parsed; unbundling
     an array with an element of the wrong type or a keypoint with a missing or wrong-typed field ends in the fatal
     handler.  A log stream lists exactly what was logged to it since it was last cleared, independent of other streams.""",
     ["histories", "inputs"],
     """all trees built by any sequence of add calls, all finite values of the supported types, all sequences of log calls""",
     """There is no test of bundling at all and tree building is only reached through parsing.""",
     ["src/nx_json_tree.c", "src/nx_json_bundle.c", "src/nx_json_log.c", "include/virg/nexus/nx_json_log.h"],
     [("typed node constructors", "src/nx_json_tree.c"), ("bundle/unbundle pairs", "src/nx_json_bundle.c")],
     observe=["nx_json_object_get/array_get", "nx_json_unbundle_*", "nx_json_log_get_stream"])

prop("C09", "Graphs: both representations report the same edges, weights and counts",
     """After any sequence of edge insertions, a graph (adjacency matrix or adjacency list) has an edge between two
     vertices exactly when one was inserted, in both directions with the weight inserted last, and the edge count
     equals the number of distinct connected pairs.  Both representations, given the same insertions, answer every
     question (membership, weight, counts) identically, a self edge is ignored, and the graph's name is kept.""",
     ["histories"],
     """all insertion sequences including repeats, both orientations and self edges""",
     """The graph tests insert a few distinct edges into one representation; duplicates and orientation interact only
     over histories.""",
     ["src/nx_graph.c", "include/virg/nexus/nx_graph.h"],
     [("symmetric insert", "src/nx_graph.c")],
     observe=["nx_graph_* accessors"])

prop("C10", "SHA-256 digests equal the standard for every message and every splitting",
     """The digest of a message equals the FIPS 180-4 SHA-256 of its bytes for every length, whether computed in one
     call or given split over any list of buffers (including empty ones), and it does not depend on earlier calls.""",
     ["inputs", "histories"],
     """all messages, all splittings into chunks, all reuse histories""",
     """Tests check a few published vectors; block-boundary lengths, chunk patterns and reuse are unbounded.""",
     ["src/nx_hash_sha256.c", "include/virg/nexus/nx_hash_sha256.h"],
     [("buffered block absorption and length counter", "src/nx_hash_sha256.c")],
     observe=["digest bytes"])

prop("C11", "Bit and byte primitives compute their mathematical definitions",
     """Bit counts, rotations by 1 to width-1 positions and big-endian splits and joins return the value defined by the
     binary representation for every argument.  A bit array reads back the last value set at every index, and setting one
     bit changes only that bit.""",
     ["inputs", "histories"],
     """all words, lengths and indices""",
     """Tests sample a few words; every bit position and every array length matters.""",
     ["include/virg/nexus/nx_bit_ops.h", "src/nx_bit_ops.c"],
     [("word kernels", "include/virg/nexus/nx_bit_ops.h")],
     observe=["function results"])

prop("C12", "Images keep their pixels through copy, resize, wrap and conversion",
     """Every pixel an image shows is the one last stored there, under every sequence of create, resize, fill, copy, swap,
     wrap, release and set-by-copy calls and for every row stride; copies are deep and wrapped pixels stay the
     caller's.  Converting between gray and color or between byte and float pixels maps every pixel by the documented
     rule (saturating), independent of stride.""",
     ["histories", "inputs"],
     """all operation sequences, sizes, strides, pixel types and pixel values""",
     """Tests use one or two small images with default stride; stride, wrap and conversion corner values multiply.""",
     ["src/nx_image.c", "src/nx_colorspace.c", "src/vg_image.cc"],
     [("stride-aware row loops", "src/nx_image.c"), ("memory block ownership", "src/nx_mem_block.c")],
     observe=["pixel data", "image geometry fields"])

prop("C13", "Image resampling and arithmetic compute their per-pixel definitions everywhere",
     """Down- and up-sampling (plain and anti-aliased), bilinear scaling, box filtering, smoothing, derivatives, scaled
     addition, subtraction, normalization to 0..1 and color mapping give, at every pixel including
     the borders and for every size and stride, the value their per-pixel definition prescribes, with the documented
     output size, and never read or write outside the images.""",
     ["inputs"],
     """all image sizes, strides and contents""",
     """Tests compare a few fixed images; border handling and odd sizes are where definitions break.""",
     ["src/nx_image.c"],
     [("row/column kernels with explicit border code", "src/nx_image.c")],
     observe=["pixel data"])

prop("C14", "Image files: saved images reload identically and bad files never load",
     """An image written as PNM or PNG and loaded back as-is is identical in size, type and pixels (PNM keeps no alpha:
     it comes back opaque), JPEG keeps size and type and nearly the pixels, and loading as gray or color applies the
     gray/color conversion (PNG: within one level).  Files of other writers (header spellings and comments, palettes,
     16-bit, transparent and interlaced PNG) load the same way.  Files are recognised by content when loading and by
     name when saving, a missing, truncated or malformed PNM/PNG file makes the loader report failure (or end in the
     fatal handler for the x-variants), and saving to a device without space reports failure.""",
     ["inputs", "fault_sequences"],
     """all images, load modes, header spellings and truncation points""",
     """Tests round-trip one or two images; every truncation point and header spelling is a separate path.""",
     ["src/nx_image_io.c", "src/nx_image_io_pnm.c", "src/nx_image_io_png.c", "src/nx_image_io_jpeg.c"],
     [("header reader and pixel reader", "src/nx_image_io_pnm.c"), ("format dispatch", "src/nx_image_io.c")],
     observe=["nx_image_load/xload/save results"])

prop("C15", "Image pyramids have the documented geometry for every configuration and history",
     """A built pyramid has exactly the configured number of levels, each with the size, scale and blur its
     configuration prescribes, level contents depend only on the input image and configuration, and rebuilding or
     updating an already used pyramid gives the same result as a fresh one.""",
     ["configurations", "histories"],
     """all builder configurations, image sizes and reuse sequences""",
     """Tests build a couple of configurations once; reuse with changing sizes is never tested.""",
     ["src/nx_image_pyr.c", "src/nx_image_pyr_builder.c", "src/vg_image_pyr.cc"],
     [("builder configuration and level loop", "src/nx_image_pyr_builder.c")],
     observe=["pyramid level fields and pixels"])

prop("C16", "FAST corners are exactly the segment-test pixels, correctly scored",
     """The detector reports exactly the interior pixels whose 16-pixel ring holds at least nine contiguous pixels all
     brighter or all darker than the center by more than the threshold; a corner's score is the largest threshold that
     keeps it a corner, and suppression keeps exactly the corners that beat all adjacent corners.  A limit on the number
     of keypoints keeps the first ones in raster order, pyramids are searched from the coarsest level to the finest, ids
     are consecutive, and every reported position, level and scale is consistent.""",
     ["inputs"],
     """all images, strides, thresholds and limits""",
     """The generated decision tree has thousands of branches; tests reach a few dozen.""",
     ["src/fast/fast_9.c", "src/fast/fast_nonmax.c", "src/nx_fast_detector.c"],
     [("generated segment test and binary-search score", "src/fast/fast_9.c"),
      ("raster-order neighbour scan", "src/fast/fast_nonmax.c")],
     observe=["reported keypoints"])

prop("C17", "Harris keypoints are exactly the strict local maxima above threshold",
     """The detector reports exactly the interior pixels whose score exceeds the threshold and every one of its eight
     neighbours, in raster order, up to the requested maximum; scores follow the documented corner measure of the image and
     do not depend on earlier detections with the same detector; settings changed on a detector are the ones used.""",
     ["inputs", "histories"],
     """all images, thresholds, limits and reuse sequences""",
     """There is no Harris test at all.""",
     ["src/nx_harris_detector.c", "src/vg_harris_detector.cc"],
     [("score image and 3x3 scan", "src/nx_harris_detector.c")],
     observe=["reported keypoints"])

prop("C18", "BRIEF descriptors are the bit string of their pixel comparisons",
     """Bit i of a descriptor is the outcome of comparison i of the extractor at the keypoint's position; extractors made
     with equal seeds and sizes give equal descriptors, an extractor written to a stream and read back gives equal
     descriptors (a truncated one is refused), and a position is accepted exactly when every comparison falls inside the sampled image.  Descriptor
     maps return for each query the stored descriptor at minimum Hamming distance.""",
     ["inputs", "configurations"],
     """all images, keypoints, extractor sizes, seeds""",
     """Tests check sizes only; bounds and bit order need arbitrary positions and patterns.""",
     ["src/nx_brief_extractor.c", "src/vg_brief_extractor.cc", "src/vg_descriptor_map.cc"],
     [("offset table and limits", "src/nx_brief_extractor.c")],
     observe=["descriptor bytes"])

prop("C19", "Robust estimation returns the best hypothesis it ever accepted",
     """The sample-consensus loop checks the sample before fitting, scores only models whose check passed, accepts a model
     only if it scores better than the best so far and passes the degeneracy check, keeps a local or global refinement only
     if that scores better still, and stops exactly when the termination test says so; it returns the best accepted model
     with its score (a zero model if none was).  Homography estimation by RANSAC and USAC keeps every correspondence as it
     was (ordered by match cost), returns the number of inliers it marked, marks exactly the correspondences the returned
     homography explains within the tolerance, finds the homography when all correspondences agree on one, and reports no
     inliers for fewer than four correspondences.  Minimal samples never contain the same correspondence twice.""",
     ["histories", "schedules", "inputs"],
     """all sequences of callback outcomes; all correspondence sets, orders, seeds and iteration limits""",
     """The loop has no test; wrong bookkeeping only shows for particular sequences of rejected, accepted and refined
     models, and a repeated correspondence in a sample only for particular random streams.""",
     ["src/nx_usac.c", "src/nx_usac_homography.c", "src/nx_homography.c", "src/vg_homography.cc"],
     [("best-so-far bookkeeping", "src/nx_usac.c"), ("distinct sampling", "src/nx_usac_homography.c"),
      ("RANSAC loop and relabelling", "src/nx_homography.c")],
     observe=["callback sequence and returned model", "inlier marks"])

prop("C20", "Homographies map the points they were estimated from",
     """Transferring a point through a homography is the projective map it denotes; marking inliers marks and counts exactly
     the correspondences whose transfer (forward or backward) falls strictly inside the tolerance; the sanity check accepts
     exactly the maps that keep the orientation of the unit square with diagonals no closer to parallel than the bound,
     whatever the scale of the map; the four point solution and the DLT (over all or over the marked correspondences) map
     the given points onto their partners whenever these are in general position and refuse fewer than four; transfer
     errors are the mean squared distances; normalising correspondences centres them, scales them to unit mean distance
     and is undone exactly by denormalising the points and the homography.""",
     ["inputs"],
     """all quadrilaterals in general position (degenerate ones included for refusal), integer matrices, inlier subsets""",
     """Tests estimate one homography from friendly points; column order, inverse use and degenerate sources need
     arbitrary configurations.""",
     ["src/nx_homography.c", "src/nx_point_match_2d_stats.c", "src/vg_homography.cc", "include/virg/nexus/nx_homography.h"],
     [("four point and DLT solutions", "src/nx_homography.c"), ("normalisation", "src/nx_point_match_2d_stats.c")],
     observe=["mapped points", "inlier marks"])

prop("C21", "Random streams are determined by their seed alone",
     """A uniform sampler made or reseeded with a seed yields the SFMT-19937 stream of that seed, word for word, through
     single draws and bulk fills alike and independently of every other sampler; 64-bit, float and double samples are
     built from the stream in order, floats and doubles lie in [0,1); Gaussian samples are the polar transform of the
     uniform stream scaled by sigma, in bulk and singly, without writing past the requested count.""",
     ["inputs", "histories"],
     """all seeds and interleavings of draws, fills and reseeds on several samplers""",
     """Tests check only ranges; range errors need one value in 2^25, and stream bookkeeping particular draw sequences.""",
     ["src/nx_uniform_sampler.c", "src/nx_gaussian_sampler.c", "src/SFMT/SFMT.c"],
     [("seeding and conversion", "src/nx_uniform_sampler.c"), ("polar method", "src/nx_gaussian_sampler.c")],
     observe=["sampled values"])

prop("C22", "Summary statistics and scalar comparisons are exact",
     """The summary of a sample of doubles or integers (count, minimum, maximum, median, lower and upper quartile as the
     medians of the halves, interquartile range, mean, sample standard deviation) is what the definition gives for every
     sample, whatever its length, order and repetitions, and up to the extremes of the integer range; the sample is only
     rearranged.  The comparison functions order all values, extremes included, as sorting requires; sign, minimum and
     maximum helpers agree with them, and the error function is odd and accurate to a millionth.""",
     ["inputs"],
     """all samples over a small value set, scaled up to the extremes of each type""",
     """Tests summarise one sample; quartile indices depend on the length modulo four, comparisons fail at extremes.""",
     ["src/nx_statistics.c", "src/nx_math.c", "include/virg/nexus/nx_math.h"],
     [("summary", "src/nx_statistics.c"), ("scalar helpers", "include/virg/nexus/nx_math.h")],
     observe=["NXStatistics1D", "comparison results"])

prop("C23", "Vectors, matrices and solvers compute what linear algebra says",
     """Vector and matrix operations (sums, products, norms, transposition in and out of place, copies with strides,
     the 2/3/4 dimensional inlines), the linear solver, the singular value decomposition and quaternion rotations give
     the mathematical result for every shape, layout and aliasing their interface allows, touch nothing outside the
     destination, and a matrix written as text reads back as itself.""",
     ["inputs"],
     """all shapes up to 5, integer matrices including singular ones, every aliasing the interface allows""",
     """Tests use square or single examples; layout and stride mistakes show only on rectangular and aliased operands.""",
     ["src/nx_mat.c", "include/virg/nexus/nx_vec.h", "include/virg/nexus/nx_mat234.h", "src/nx_svd.c", "src/nx_linear_solvers.c",
      "src/nx_quaternion.c"],
     [("matrix operations", "src/nx_mat.c"), ("vector operations", "include/virg/nexus/nx_vec.h"), ("solver", "src/nx_linear_solvers.c")],
     observe=["result elements", "text form"])

prop("C24", "Text and record encodings are lossless and refuse what is malformed",
     """A string written in readable or double quoted form, and a string or keypoint record written to a stream, read
     back as itself; decoding refuses malformed escapes and truncated or oversized records instead of inventing or
     overrunning text; lines are delivered one by one with their terminator, whatever the size of the buffer, and the
     end of the stream is reported as such; formatted, duplicated, hexadecimal and gathered copies hold exactly the
     bytes asked for and own their memory.""",
     ["inputs", "histories", "faults"],
     """all byte strings over the special characters, truncations at every byte, interleaved writes and reads""",
     """Tests round trip a few strings; the encodings must be injective for every string and every cut.""",
     ["src/nx_string.c", "src/nx_io.c", "src/nx_keypoint.c", "src/nx_alloc.c"],
     [("encodings", "src/nx_string.c"), ("lines", "src/nx_io.c"), ("keypoint records", "src/nx_keypoint.c")],
     observe=["decoded text", "stream position", "refusals"])

prop("C25", "Filters compute the convolution of the extended signal",
     """A line of samples copied into a filter buffer appears there unchanged between two borders that are zero, the
     nearest sample, or the mirror image, for every border length (longer than the line included), element stride and
     sample type; symmetric and box convolution give the weighted sums of that extended line, in place, touching nothing
     beyond the line; Gaussian kernels are symmetric, sum to one and have the odd size the truncation factor calls for.""",
     ["inputs", "histories"],
     """all lines up to length four, borders up to four and the three modes in the model; random longer ones, every stride and type""",
     """Tests convolve a few long lines; borders longer than the data, strides and in-place sliding sums are never sampled.""",
     ["src/nx_filter.c", "include/virg/nexus/nx_filter.h"],
     [("borders", "src/nx_filter.c:fill_buffer_border"), ("convolution", "src/nx_filter.c:nx_convolve_sym")],
     observe=["buffer contents"])

prop("C26", "Warped images hold the source resampled at the mapped positions",
     """Every pixel of an affine warp is the bilinear mixture of the source at the position the map gives it, with
     positions outside treated as the background mode says (black, white, noise, nearest pixel, mirrored), for every
     source and destination size and stride; rotations by 45 degrees do the same about the centre for byte and float
     images; similarity, affine and perspective transforms built from parameters map points as those parameters say; the
     warp processor's result has the extent of the warped image, its forward and inverse transforms relate positions in
     the two images, its content is the source seen through them, blurred as much as tilt, scale and post blur call for,
     and everything outside is the requested background.""",
     ["inputs", "histories"],
     """coefficients in quarters (exact), all background modes, images from one pixel up, reused processors""",
     """Tests warp by the identity or compare sizes only; positions just outside, far outside and one pixel images are never sampled.""",
     ["src/nx_image_warp.c", "src/nx_affine_warp_processor.c", "src/nx_transform_2d.c"],
     [("affine warp", "src/nx_image_warp.c"), ("warp processor", "src/nx_affine_warp_processor.c"), ("transforms", "src/nx_transform_2d.c")],
     observe=["result pixels", "transforms"])

prop("C27", "Gray and color conversions and color maps give the defined colors",
     """Gray to color copies the level to the three channels, opaque; color to gray is the weighted sum 0.30 0.59 0.11,
     so that gray colors keep their level; both respect the two strides and touch nothing else.  A color map applied to a
     value or to a byte or float image gives the linear interpolation of its table, the ends for values beyond the unit
     interval, always opaque.""",
     ["inputs"],
     """all gray levels, random colors, all strides, a fine grid of map values on every map, values beyond the interval""",
     """Tests convert one image; rounding at particular levels and table ends must be right for every value.""",
     ["src/nx_colorspace.c", "include/virg/nexus/nx_colorspace.h", "src/nx_image.c", "include/virg/nexus/vg_color_map.hpp"],
     [("conversion", "src/nx_colorspace.c"), ("color maps", "src/nx_colorspace.c:nx_color_map_apply")],
     observe=["result pixels"])

prop("C28", "Image collections are read as they lie on disk",
     """Directory listings hold every entry once in byte order; directory and file checks tell what is there and ensuring
     a directory creates it or reports failure.  Opening a Kitti odometry, VGG affine or Temple Color 128 sequence yields
     exactly the poses, times, calibrations, homographies, attributes and boxes of its files, in the documented matrix
     order, marks missing cameras, lidar and ground truth as missing, refuses missing, short or inconsistent files and
     unknown names, and loads for every frame number the file of that frame.""",
     ["inputs", "histories", "faults"],
     """collections of every subset of the files, counts around the buffer growth points, files appearing and disappearing between calls""",
     """Tests have no collection at all: the data is not in the repository.""",
     ["src/nx_kitti_slam.c", "src/nx_vgg_affine_dataset.c", "src/nx_temple_color_128.c", "src/nx_filesystem.c"],
     [("Kitti", "src/nx_kitti_slam.c"), ("VGG affine", "src/nx_vgg_affine_dataset.c"), ("Temple Color", "src/nx_temple_color_128.c"), ("directories", "src/nx_filesystem.c")],
     observe=["sequence structures", "loaded frames", "refusals"])

prop("C29", "Cameras and two-view geometry agree with projective geometry",
     """Rotation matrices built from angles or from an axis of any length are the rotations of their convention, and
     inversion transposes them.  Projecting points through a camera built from calibration, rotation and translation
     (each optional) is the pinhole map; triangulation recovers, for the first inliers in order and at most as many as the
     caller has room for, the points that were projected.  An essential matrix is the one of its pose or of its fundamental
     matrix and calibrations; its decomposition gives four distinct poses that explain it, and the pose picked for points in
     front of both cameras is the true one.  Marking inliers of a fundamental matrix marks and counts exactly the
     correspondences closer to their epipolar line than the tolerance; a fundamental matrix estimated from eight or more
     exact correspondences in general position is the true one, always singular; estimation by sampling only reorders the
     correspondences by cost, leaves marks and count consistent with the matrix it returns, and finds the exact
     correspondences among outliers; with fewer than eight correspondences nothing is estimated.""",
     ["inputs", "histories"],
     """all angles, axes, calibrations, poses, points, correspondence lists, tolerances, inlier patterns and seeds""",
     """Tests try one camera and one synthetic scene; conventions, signs and inlier bookkeeping must hold for every one.""",
     ["src/nx_pinhole.c", "src/nx_rotation_3d.c", "src/nx_epipolar.c", "include/virg/nexus/vg_fundamental_matrix.hpp"],
     [("pinhole camera", "src/nx_pinhole.c"), ("rotations", "src/nx_rotation_3d.c"), ("epipolar geometry", "src/nx_epipolar.c")],
     observe=["matrices", "projected and triangulated points", "inlier marks and counts"])

prop("C30", "SIFT keys depend only on the image; cached results and matches are exact",
     """The keys and descriptors detected in an image depend only on its pixels, size, pixel type and the parameters: not on
     what the detector processed before, the padding of rows or the capacity of the caller's buffers, which grow from any
     size as needed; the image is not changed.  Keys are numbered in order, octaves ascending, lie inside the image of
     their octave, have the scale of their octave, a size and score the parameters allow and a unit-length descriptor
     (512 before rounding).  A round blob gives a key at its centre, of its size, contrast and sign; on a slope the
     orientation points along the gradient (y axis up), and the descriptor is laid out along it.  A higher peak or lower
     edge threshold or a wider border only removes keys; negating a float image negates the scores, doubling it together
     with the threshold changes nothing else.  Detection and matching through a cache directory return exactly what the
     direct computation returns, keep one entry per distinct input (image, type, shape and every parameter; keys,
     descriptors and ratio threshold), use an existing entry without altering any file, and end fatally on an entry that is
     short or holds an impossible count.  A match pairs every key with its first nearest descriptor, filtered by the ratio
     test when the threshold is inside (0,1), with positions, uncertainties, ids and cost of the two keys; without
     candidates there is none.  Saved keys load back identically, damaged files are fatal; command line options set
     exactly the parameters they name.""",
     ["inputs", "histories"],
     """all images, parameters, buffer capacities, detector and cache histories, damaged cache entries and files, descriptor sets and thresholds""",
     """There are no tests of the detector; caches and reused detectors only fail in particular histories, matches only on particular descriptor orders.""",
     ["src/nx_sift_detector.c", "src/nx_keypoint.c", "include/virg/nexus/nx_sift_detector.h", "include/virg/nexus/nx_point_match_2d.h"],
     [("detection and descriptors", "src/nx_sift_detector.c"), ("result cache", "src/nx_sift_detector.c"), ("key files", "src/nx_keypoint.c")],
     observe=["keys and descriptors", "files of the cache directory", "matches", "fatal end"])

prop("C31", "Correspondence sets keep every match; normalisation is undone exactly",
     """A set of point correspondences holds the matches added to it in the order they were added, with the positions,
     scales, identities, cost and inlier mark they were given; a match of two keypoints carries their full-image positions,
     their scales times the base uncertainty and their identities.  Sets are values: nothing done to a set shows in another,
     not even in its clone, and a cleared set is like a new one.  Normalising maps the positions of both sides to zero mean
     and the documented spread, scales the uncertainties alike and keeps order, identity, cost and marks; denormalising
     gives the original positions back, and on a set that is not normalised changes nothing.  Sorting only reorders, by
     ascending cost; the inlier count is the number of marked matches.  Empty, single and coinciding matches are no exception.""",
     ["inputs", "histories"],
     """all lists of matches and all histories of adding, marking, sorting, cloning, clearing, normalising and denormalising over several sets""",
     """Tests normalise one random set; aliasing between clones and stale statistics only show in particular histories.""",
     ["src/vg_point_correspondence_2d.cc", "src/nx_point_match_2d_stats.c", "include/virg/nexus/vg_point_correspondence_2d.hpp", "include/virg/nexus/nx_point_match_2d.h", "include/virg/nexus/nx_keypoint.h"],
     [("correspondence set", "src/vg_point_correspondence_2d.cc"), ("normalisation", "src/nx_point_match_2d_stats.c"), ("match of keypoints", "include/virg/nexus/nx_point_match_2d.h")],
     observe=["matches in order", "inlier count", "statistics"])

prop("C32", "Running out of disk or memory is reported, never silently ignored",
     """Whatever the point at which a device runs full, every function that saves an image or a table, or writes strings,
     keypoints, descriptors, matrices or JSON, reports the loss: the x-variants end in the fatal handler, the others return
     failure, and a loss the writing call could not see yet (buffered output) is reported when the stream is closed.  What
     fits is written in full and reported as written.  The same holds for places that cannot be opened (missing, a directory).
     A memory request is met in full (as many bytes as asked for, zeroed where promised, aligned where asked, earlier
     contents kept when growing) or refused; requests whose size overflows are refused.""",
     ["inputs", "fault_sequences", "histories"],
     """all values written, every byte at which the device can run full, all buffer sizes, all histories of stream operations and memory requests""",
     """Tests never run out of anything; each cut point and each buffering is a path of its own.""",
     ["src/nx_io.c", "src/nx_alloc.c", "src/nx_mat.c", "src/nx_image_io_pnm.c", "src/nx_image_io_png.c", "src/nx_image_io_jpeg.c", "src/nx_data_frame.c", "src/nx_string.c",
      "src/nx_string_array.c", "src/nx_keypoint.c", "src/nx_brief_extractor.c"],
     [("stream primitives", "src/nx_io.c"), ("allocation", "src/nx_alloc.c"), ("savers", "src/nx_image_io_pnm.c")],
     observe=["return values", "fatal handler", "file size", "block contents"])

prop("C33", "Messages are filtered by verbosity only; fatal errors never return",
     """A diagnostic message appears exactly when the verbosity in force does not exclude its level, whole and in order,
     with level, tag, place and text as given, and errors are never excluded; on a terminal the line has the color of its level.
     A fatal error (and an assertion, range or index check that does not hold, whatever the verbosity) goes to the handler in
     force with its text and the call never returns; taking the handler away puts the default back, which shows the error and
     ends the program with a failure.  Checks that hold have no effect, and nothing else changes verbosity or handler.""",
     ["inputs", "histories"],
     """all levels, tags, texts, argument values and all histories of setting verbosity and handlers, messages, checks and fatal errors""",
     """Tests install one handler and never look at the output; filtering and handler replacement are properties of histories.""",
     ["src/nx_log_c_impl.c", "include/virg/nexus/nx_log.h", "include/virg/nexus/nx_assert.h"],
     [("message filter and handler", "src/nx_log_c_impl.c"), ("assertions", "include/virg/nexus/nx_assert.h")],
     state=[("verbosity and fatal handler", "what is in force for the process", "src/nx_log_c_impl.c")],
     observe=["output text", "handler called", "end of the process"])

prop("C34", "Plot scripts put in force exactly what the calls asked for",
     """Read as a plotting program reads it, the script a plot sends (to a pipe or to a file) leaves in force exactly what
     the calls asked for: terminal kind, size and unit, window name and number, output file or none, form feed, title and
     axis labels, and named or inline data with every value of the table; a later call replaces what an earlier one set, and
     leaves the rest alone.  Commands are complete when the call returns, plots do not mix, and the program is started to stay
     or to go as asked.""",
     ["inputs", "histories"],
     """all sizes, names, labels, tables and all histories of calls over several plots""",
     """Tests do not plot; a script that is wrong only shows when a plotting program reads it.""",
     ["src/nx_gnuplot.c", "include/virg/nexus/nx_gnuplot.h"],
     [("command stream", "src/nx_gnuplot.c"), ("terminal choice", "src/nx_gnuplot.c")],
     observe=["script text", "arguments of the started program"])

prop("C35", "The checkerboard response is the contrast of means along four directions",
     """Whatever the four result images and the score image held before, and whatever the picture's row padding, the local
     Radon images have the picture's size and hold, at every pixel, its mean over 2 r + 1 pixels along the row, along the
     column (borders repeated) and along the two diagonals, in that order (the diagonals as the row means of the picture
     turned by 45 degrees and turned back, zero where the turned picture does not reach).  The score at a pixel is the square
     of the range of the four means, as a part of the full range, smoothed with a Gaussian of 1.3 pixels; it is zero on
     flat pictures.  The inputs are left alone.""",
     ["inputs", "histories"],
     """all pictures, sizes (down to one pixel), paddings, radii (including those larger than the picture) and earlier contents of the result images""",
     """There are no tests of the detector; exchanged directions, borders and reused images only show on particular pictures.""",
     ["src/nx_checkerboard_detector.c", "src/nx_image_warp.c", "src/nx_filter.c"],
     [("directional means", "src/nx_checkerboard_detector.c"), ("rotation by 45 degrees", "src/nx_image_warp.c")],
     observe=["four mean images", "score image"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
