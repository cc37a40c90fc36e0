#!/usr/bin/env python3
"""Single source of properties.jsonl (kept as code so that it is easy to edit and validate)."""
import json, sys, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook, **({"state": state} if state else {}))))

D, L, PR, G = "src/decode.rs", "src/lib.rs", "src/prepare.rs", "src/geometry.rs"
IG, IM, DT, V = "src/identify/grid.rs", "src/identify/match_capstones.rs", "src/detect.rs", "src/version_db.rs"

p("C01", "Raw bit stream is exactly the data modules in ISO 18004 order",
  "For every grid whose size is that of a QR version 1 to 40, whatever its modules contain, get_raw_data returns the modules outside all function patterns (finders, separators, timing, alignment, format, version information, dark module) in the standard's zigzag order, each with the colour the grid reports and none skipped, duplicated or altered. The reported length is exactly the number of such modules, packed most significant bit first, and the rest of the buffer is zero.",
  ["inputs"], "all 40 versions x all module contents (2^31329 for the largest)",
  "Tests decode a handful of symbols of five versions; a wrong reserved area or column order in any of the other 35 versions, or at one module, is never sampled.",
  [D, V], [("zigzag walk", D + ": read_data"), ("function-pattern geometry", D + ": reserved_cell"), ("alignment centres", V + ": apat")],
  ["Grid::get_raw_data"])
p("C02", "Decoding removes exactly the announced mask, on every module",
  "For every version and each of the eight mask patterns, the bits handed to error correction by decode are the module colours with exactly the ISO 18004 mask condition for that pattern (as a function of row and column) inverted, while get_raw_data never unmasks.",
  ["inputs", "configurations"], "8 masks x every data module of all 40 versions x all module contents",
  "The mask tests look at a 7x7 corner; the symbols decoded end to end use two or three masks on small versions.",
  [D], [("mask condition", D + ": mask_bit"), ("unmasking read", D + ": read_bit, read_data")], ["Grid::decode_to", "Grid::get_raw_data"])
p("C03", "Every version and EC level is split into blocks and reassembled per ISO",
  "For each of the 160 combinations of version and error correction level, and for all data contents, decoding an undamaged symbol recovers exactly the data codewords that the standard's block structure and interleaving placed there, in their original order and in full, and nothing else. The capacity used is exactly the standard's number of data codewords.",
  ["inputs", "configurations"], "160 version/level combinations x all data contents",
  "The suite covers about six of the 160 combinations; a wrong table entry or block boundary shows only in its own combination.",
  [D, V], [("block parameters", V + ": VERSION_DATA_BASE"), ("de-interleaving", D + ": codestream_ecc")], ["Grid::decode_to"])
p("C04", "Format information: both copies, up to three bit errors, right fields",
  "For every content of the two 15-bit format fields, decoding uses the error correction level and mask number of the unique valid format word within Hamming distance 3 of the first copy when there is one, and otherwise that of the second copy when there is one. Copies more than three bits from every valid word are rejected or, at most, read as a valid word nearest to them; the format used is always a valid format word. If neither copy is readable the outcome is a format error, and the metadata returned names the level and mask actually used and the version given by the grid size.",
  ["inputs"], "all 2^15 first copies x all 2^15 second copies (exactly for distances up to 3), each version",
  "Tests contain a few intact format fields and one hopeless one; no test damages one copy or needs the second.",
  [D], [("format read and fallback", D + ": read_format"), ("BCH(15,5) correction", D + ": correct_format, format_syndromes, berlekamp_massey")],
  ["Grid::get_raw_data", "Grid::decode_to"])
p("C05", "No block is used unless it is a Reed-Solomon codeword",
  "Whenever error correction reports success for a block, the block contents that are handed on satisfy every one of the block's Reed-Solomon parity checks (as many as it has error correction codewords), whether or not anything was corrected and whatever the damage was; otherwise decoding of the symbol fails with a data error.",
  ["inputs", "fault_sequences"], "all damage patterns in all blocks, including those far beyond the correction capacity",
  "A miscorrection is only accepted for rare error patterns; no finite set of images samples them.",
  [D], [("syndromes", D + ": block_syndromes"), ("re-check after correction", D + ": correct_block"), ("error propagation", D + ": codestream_ecc")],
  ["Grid::decode_to"])
p("C06", "Damage up to half the EC codewords of a block is repaired",
  "If in every block at most floor(n/2) codewords are damaged, n being the block's number of error correction codewords, decoding returns exactly what the undamaged symbol returns, whatever the data and wherever in the block (data or parity, first to last codeword) the damage lies.",
  ["inputs", "fault_sequences"], "all 160 version/level combinations, all data, damage patterns up to the capacity",
  "Existing images contain few damaged codewords and only in small symbols; capacity-size patterns never occur.",
  [D, V], [("Berlekamp-Massey", D + ": berlekamp_massey"), ("error location and Forney magnitudes", D + ": correct_block, eloc_poly, poly_eval")], ["Grid::decode_to"])
p("C07", "Numeric and alphanumeric segments decode exactly",
  "For every version, a numeric segment of any length decodes to precisely its digits (leading zeros included) and an alphanumeric segment of any length to precisely its characters from the 45-character set, using the character-count width the standard gives for the version; no character is added, lost or replaced.",
  ["inputs"], "all versions, all segment lengths that fit, all digit / character values",
  "Tests have one 31-digit and no alphanumeric symbol.",
  [D], [("numeric groups", D + ": decode_numeric, numeric_tuple"), ("alphanumeric pairs", D + ": decode_alpha, alpha_tuple")], ["Grid::decode_to"])
p("C08", "Byte and kanji segments decode exactly",
  "For every version, a byte segment of any length is written out unchanged byte for byte, and a kanji segment of any length is written as the two-byte Shift JIS codes (trail byte up to FC) that its 13-bit values stand for, using the character-count width the standard gives for the version.",
  ["inputs"], "all versions, all segment lengths that fit, all byte values and all 13-bit values in the kanji range",
  "Tests have ASCII byte segments only, in versions up to 14; kanji mode is never decoded.",
  [D], [("byte segment", D + ": decode_byte"), ("kanji segment", D + ": decode_kanji")], ["Grid::decode_to"])
p("C09", "Segments are read in sequence up to the terminator",
  "A message made of several segments in any mix of modes decodes to the concatenation of their contents in order. ECI designators of one, two or three bytes (first bits 0, 10, 110) are skipped without output, decoding stops at the terminator or when fewer than four bits remain, and any mode indicator other than numeric, alphanumeric, byte, kanji, ECI or terminator (with four bits left to read it from) yields an unknown-data-type error.",
  ["inputs", "histories"], "all segment sequences, all ECI designators, all sixteen mode indicators",
  "Every existing symbol has a single segment followed by a terminator.",
  [D], [("segment loop", D + ": decode_payload"), ("ECI skipping", D + ": decode_eci")], ["Grid::decode_to"])
p("C10", "A segment longer than the remaining data is an underflow error",
  "If a segment (or ECI designator) announces more characters than the remaining data bits can hold, decoding returns a data-underflow error; bits beyond the end of the data codewords are never turned into output, and a segment that fits exactly is accepted. (When the character count itself is cut off by the end of the data and its present bits are all zero, either reading is allowed.)",
  ["inputs"], "all versions' capacities, all modes, all announced lengths against all remaining lengths",
  "No test contains a truncated or over-long segment.",
  [D], [("length checks", D + ": decode_kanji, decode_byte, alpha_tuple, numeric_tuple, decode_eci"), ("bit cursor", D + ": CorrectedDataStream")], ["Grid::decode_to"])
p("C11", "Writer failures are reported and no output is lost",
  "If the caller's writer fails at any point, decode_to stops writing and returns an I/O error; if it returns success, the writer has accepted every byte of the content exactly once and in order, even when it accepts only part of a buffer at a time or is interrupted.",
  ["inputs", "fault_sequences"], "a failure, short write or interruption at every write call, in every segment mode",
  "The one I/O test uses a writer that always fails, on a byte segment.",
  [D], [("write_all and error mapping", D + ": decode_kanji, decode_byte, decode_alpha, decode_numeric")], ["Grid::decode_to"])
p("C12", "Nothing is written before the whole symbol is verified",
  "When decode_to fails because of the grid size, the format information or uncorrectable data, the writer has received no byte at all: output starts only after every block of the symbol passed error correction, and the bytes written come from the reading (plain or mirrored) that was verified.",
  ["inputs", "fault_sequences"], "all damage patterns, including damage confined to the last block",
  "Failing tests do not look at the writer, and only the first block is ever damaged.",
  [D, L], [("correct first, then write", D + ": decode")], ["Grid::decode_to"])
p("C13", "String decoding is decode_to plus strict UTF-8",
  "decode succeeds exactly when decode_to into a byte buffer succeeds and those bytes are valid UTF-8; it then returns those bytes unchanged as the string together with the same metadata, returns an encoding error for any invalid sequence, and otherwise returns the same error as decode_to.",
  ["inputs"], "all byte contents",
  "Tests only decode ASCII; the encoding error is documented in the suite as never exercised.",
  [L], [("strict conversion", L + ": Grid::decode, From<FromUtf8Error>")], ["Grid::decode"])
p("C14", "Mirrored symbols decode; the plain reading has priority",
  "A symbol whose grid is transposed decodes to the same content and metadata as the original whenever the plain reading is not acceptable. A grid whose plain reading is acceptable is never re-read transposed, and when both readings fail the error returned is that of the plain reading.",
  ["inputs"], "all contents, versions, levels and masks",
  "One mirrored version 1 symbol is tested.",
  [D, L], [("fallback", D + ": decode"), ("transposition", L + ": MirroredGrid")], ["Grid::decode_to"])
p("C15", "Decoding never panics",
  "Decoding or reading raw data from any grid, of any size and any contents, returns a result or an error value: it never panics, overflows, indexes out of bounds or divides by zero, as long as the caller's grid answers every query inside its size.",
  ["inputs"], "all grid sizes, all module contents",
  "Tests use well-formed sizes and near-valid contents only.",
  [D, L, V], [("size validation", D + ": Version::from_size, read_format"), ("bounds by construction", D + ": read_data, codestream_ecc, correct_block, berlekamp_massey, CorrectedDataStream")], ["Grid::decode_to", "Grid::get_raw_data", "Grid::decode"])
p("C16", "The grid is only queried inside its bounds",
  "Whatever size a caller's grid reports, decoding and raw reading ask it only for modules whose row and column are both smaller than that size, and sizes below 21 or above 180 are rejected with an error.",
  ["inputs"], "all grid sizes from 0 up, all contents",
  "Tests only use sizes of real versions on grids that tolerate any query.",
  [D, L], [("size check before reading", D + ": read_format"), ("walk bounds", D + ": read_data"), ("transposition", L + ": MirroredGrid")], ["BitGrid::bit"])
p("C17", "A grid built from a function reports that function",
  "For every size, a grid built from a function answers, for each row y and column x below the size, exactly the value the function returned for (x, y), and reports the size it was given.",
  ["inputs"], "all sizes, all fill functions, all coordinates",
  "Tests use sizes 21 and 29 only.",
  [L], [("bit packing", L + ": SimpleGrid::from_func, SimpleGrid::bit")], ["SimpleGrid::from_func", "BitGrid for SimpleGrid"])
p("C18", "Versions and sizes correspond one to one",
  "Every version 1 to 40 has size 4v+17 and that size gives back the version; sizes below 21 or above 180 are rejected with an invalid-version error, and no input yields a version outside 1 to 40.",
  ["inputs"], "all sizes (all machine words)",
  "Only a few sizes are ever used.",
  [D], [("conversion", D + ": Version::from_size, Version::to_size")], ["Version::from_size", "Version::to_size"])
p("C19", "Image constructors keep every pixel in place",
  "An image prepared from a bitmap function has, at each (x, y), black exactly where the function returned true and white elsewhere, for every width and height; constructing from already binary data keeps every pixel and refuses any value other than the two colours.",
  ["inputs"], "all dimensions, all pixel contents",
  "Tests use 3x3 images.",
  [PR], [("row-major buffer", PR + ": BasicImageBuffer, prepare_from_bitmap"), ("precondition", PR + ": without_preparation")], ["PreparedImage::prepare_from_bitmap", "PreparedImage::without_preparation"])
p("C20", "Binarisation leaves only black and white and never panics",
  "Preparing a greyscale image of any width and height (zero included) and any pixel values does not panic and leaves every pixel either black or white; each pixel is decided from the original pixel values and written once.",
  ["inputs"], "all dimensions and all pixel values",
  "Tests prepare a dozen photographs.",
  [PR], [("adaptive threshold", PR + ": PreparedImage::prepare")], ["PreparedImage::prepare", "PreparedImage::prepare_from_greyscale"])
p("C21", "Pixel colours survive storage in a byte",
  "Every colour class the detector stores in the image reads back as the same class, distinct classes never share a byte value, and every byte value reads back to a class that stores as that same byte; this holds for all region numbers the detector can assign.",
  ["inputs"], "all 256 byte values, all colour classes and region numbers",
  "Tests use three of the 256 values.",
  [PR], [("colour codes", PR + ": From<u8> for PixelColor, From<PixelColor> for u8")], ["PreparedImage::get_pixel_at"])
p("C22", "The perspective transform sends the rectangle to its four corners",
  "For any four corner points accepted as a perspective, the transform built for a w by h rectangle sends (0,0), (w,0), (w,h) and (0,h) to the first, second, third and fourth corner respectively, up to floating point rounding.",
  ["inputs"], "all corner quadruples and rectangle sizes for which a transform is produced",
  "Only indirectly tested through a few images, whose alignment search hides small errors.",
  [G], [("coefficients", G + ": Perspective::create"), ("mapping", G + ": Perspective::map")], ["grid bounds and sampled modules"])
p("C23", "Unmapping is the inverse of mapping",
  "For every perspective transform and every point where both are defined, translating image coordinates back to grid coordinates undoes the translation from grid to image coordinates, up to rounding.",
  ["inputs"], "all transform coefficients, all points",
  "Only indirectly tested.",
  [G], [("inverse transform", G + ": Perspective::unmap")], ["capstone grouping, alignment pattern search"])
p("C24", "Line intersection is the common point of both lines",
  "For any two lines given by two points each, with coordinates up to 2^16 in magnitude, parallel lines have no intersection, and otherwise the point reported is the point common to both lines, rounded towards zero to whole pixels (nothing is reported if it does not fit the coordinate type); nothing overflows.",
  ["inputs"], "all quadruples of points",
  "Tests use two quadruples.",
  [G], [("Cramer's rule", G + ": line_intersect")], ["alignment pattern estimate"])
p("C25", "Detected grids sample the centre of each module",
  "A detected grid answers the module at row y and column x with the colour of the image pixel nearest to the module's centre under its perspective, coordinates outside the image are answered from the nearest border pixel, every colour other than white counts as dark, and reading never modifies the image.",
  ["inputs"], "all perspectives, all modules, all image sizes and contents",
  "Tests compare three small grids.",
  [IG, PR], [("sampling", IG + ": RefGridImage::bit"), ("clamping", PR + ": get_pixel_at_point")], ["BitGrid of detected grids"])
p("C26", "Recycling a region colour un-paints the old region first",
  "When all region numbers are in use, the region chosen to give up its number is painted back to unclaimed black before its number is given to another region, so no two live regions ever share a colour; the number assigned, the colour painted and the number recorded are the same, and region numbers never collide with the reserved colours.",
  ["inputs", "histories"], "all region numbers, cache full or not",
  "No test creates more than a few regions; recycling needs more than 250.",
  [PR], [("region cache", PR + ": get_region"), ("painting", PR + ": repaint_and_apply, flood_fill")], ["PreparedImage::detect_grids"])
p("C27", "Trying a grouping never alters the searched image",
  "While candidate groups of finder patterns are being tested, only private copies of the image are modified: the image that later candidates and the final grids see is the same whether a candidate was tried and rejected or never tried.",
  ["inputs", "histories"], "all images, all candidate groupings",
  "Needs images with many overlapping candidates.",
  [PR, IG], [("trial on a clone", PR + ": find_groupings")], ["PreparedImage::detect_grids"])
p("C28", "The library is free of unsafe code and hidden state",
  "The crate contains no unsafe code, no mutable or interior-mutable global state and no thread-local state, and apart from the two explicit debug dump functions nothing it calls touches files, network, environment, processes, threads, clocks or standard streams: results depend only on the arguments.",
  ["inputs", "schedules", "histories"], "all calls, all interleavings, all histories",
  "Tests cannot show the absence of an effect.",
  [L, D, PR, DT, G, IG, IM], [("safe Rust, pure functions", "whole crate")], ["whole API"])
p("C29", "Detected grids keep the image borrowed and types stay thread-safe",
  "While any detected grid is alive the image it refers to can be neither modified, searched again nor dropped; a grid whose backing type is shareable between threads is itself shareable, and decoding needs only shared access.",
  ["programs", "schedules"], "all programs that compile against the API",
  "Run-time tests cannot show that a program is rejected.",
  [PR, L, IG], [("lifetimes", PR + ": detect_grids"), ("auto traits", L + ": Grid, SimpleGrid")], ["rustc"])
p("C30", "Every detected grid has a size a QR version can have",
  "Every grid returned by detection reports a size of the form 4v+17 with v from 1 to 40, whatever number of colour changes is counted along the timing lines; when both timing lines show the number an undamaged symbol of size n has (n - 13 as counted from finder to finder), the size reported is n.",
  ["inputs"], "all images",
  "Tests see sizes of six versions.",
  [IG], [("size from timing pattern", IG + ": measure_timing_pattern"), ("upper bound", IG + ": from_group")], ["BitGrid::size of detected grids"])
p("C31", "Detection never panics and terminates",
  "Searching any image of any size and contents for grids returns a (possibly empty) list: it does not panic, overflow or loop forever.",
  ["inputs"], "all images", "Tests have a dozen images.",
  [DT, IG, PR, G, IM], [("bounds by construction", "whole detection pipeline")], ["PreparedImage::detect_grids"])
p("C32", "Undistorted symbols are found wherever they are in the image",
  "A clean rendering of a valid symbol with quiet zone, at any position, quarter-turn rotation and module size of at least a few pixels, is detected as exactly one grid and decodes to its content.",
  ["inputs"], "all symbols, positions, rotations and scales", "Tests have a dozen images.",
  [DT, IG, PR, IM], [("finder detection, grouping, alignment", "whole detection pipeline")], ["PreparedImage::detect_grids"])
p("C33", "Flood fill paints exactly the connected region",
  "Painting a region changes the colour of all pixels 4-connected to the start through pixels of the same colour and of no other pixel, and reports each painted row segment exactly once.",
  ["inputs"], "all images and start points", "Tests use 3x3 images.",
  [PR], [("scan-line fill", PR + ": flood_fill")], ["PreparedImage::detect_grids"])

p("C34", "Binarisation keeps blank areas white and strong contrast visible",
  "When an image is prepared from grey values, an evenly lit image of any size and any brightness contains no black pixel, a pixel of the highest brightness (248 and above) is never turned black whatever surrounds it, and in an image at least 16 pixels wide a dark pixel (below 32) whose surroundings are all bright (192 and above) is turned black; both constructors (buffer and closure) agree.",
  ["inputs"], "all brightness values and all surroundings, all dimensions",
  "Tests binarise a few photographs and look only at the decoded text.",
  [PR], [("running average in both directions", PR + ": prepare"), ("threshold", PR + ": prepare")], ["PreparedImage::prepare", "PreparedImage::prepare_from_greyscale"])

p("C35", "A group of finder patterns that does not fit is rejected, never a panic",
  "Testing three finder patterns as the corners of a symbol ends with a grid or with a rejection whichever of the geometric steps fail: a rotated finder pattern without perspective, parallel edges, no alignment pattern, no perspective of the whole symbol, any number (at least one) of colour changes on the timing lines. The search for the alignment pattern ends for estimates anywhere in the 32 bit plane, and mapping a point through a perspective returns a point for every coefficient and argument, also at and beyond the horizon.",
  ["inputs"], "all outcomes of the geometric steps, all estimates and coefficients",
  "Tests see symbols for which every step succeeds.",
  [IG, G], [("failing steps", IG + ": from_group, rotate_capstone, setup_perspective"), ("bounded search", IG + ": find_alignment_pattern"), ("points at the horizon", G + ": Perspective::map")], ["PreparedImage::detect_grids"])

p("C36", "An image without room for a symbol contains no grids",
  "Searching an image without any pixels (either dimension or both zero), an image of a few pixels with any contents, or an image with one single finder pattern and arbitrary surroundings returns an empty list of grids without a panic.",
  ["inputs"], "all contents of small images, all dimensions including zero",
  "Tests use images of hundreds of pixels.",
  [DT, PR, IG], [("line scan", DT + ": capstones_from_image"), ("region and finder tests", DT + ": is_capstone, create_capstone"), ("grouping", PR + ": find_groupings")], ["PreparedImage::prepare_from_bitmap", "PreparedImage::detect_grids"])

p("C37", "Each finder pattern belongs to one grid, and every symbol is tried",
  "The grids returned by one search are built from disjoint sets of three different finder patterns, as many grids as groups passed the test; three finder patterns at the corners of a square that no returned grid uses have been tested as a symbol, whatever other finder patterns are in the image and whichever groups were rejected before.",
  ["inputs", "histories"], "all outcomes of the tests of groups",
  "Tests have at most two symbols in an image and every group is accepted at the first test.",
  [PR, IG], [("use of finder patterns", PR + ": find_groupings"), ("candidates", "src/identify/match_capstones.rs: find_and_rank_possible_neighbors")], ["PreparedImage::detect_grids"])

p("C38", "Line scans visit every step of the line and count colour changes exactly",
  "Walking along a line between any two points visits max(|dx|,|dy|)+1 points, the first and last being the two ends, one step of the longer side at a time and never more than one pixel beside the line; the number of colour changes along a timing line is the number of neighbouring visited pixels that differ, pixels outside the image being those of its border.",
  ["inputs"], "all start points and directions, all pixel contents",
  "Tests walk four lines.",
  [G, IG], [("stepping", G + ": BresenhamScan"), ("counting", IG + ": timing_scan")], ["PreparedImage::detect_grids"])

p("C39", "A row of 1:1:3:1:1 runs is noticed at any scale, at the right place",
  "Scanning a row of pixels reports a candidate finder pattern exactly at the pixel after five alternating runs whose lengths are k, k, 3k, k, k, for every k, whatever precedes them, also when each run is off by up to an eighth of a module; every report names the start of the first, third and fifth of the five last runs, which begin and end black and of which the middle one is the longest.",
  ["inputs"], "all rows, all scales",
  "Tests scan three rows.",
  [DT], [("run lengths and positions", DT + ": LineScanner::advance"), ("tolerance", DT + ": LineScanner::test_for_capstone")], ["PreparedImage::detect_grids"])

p("C40", "Corners of a finder pattern are the extreme points of its ring",
  "While a region is filled, the point remembered as farthest from the start, as farthest out in each of the four directions given by the start and that corner, or as the leftmost along a given line, is a point of the region and no point of the rows seen so far (nor the start, for directions) lies further out.",
  ["inputs", "histories"], "all rows; by induction all regions",
  "Tests see the corners of three regions.",
  [DT, IG], [("farthest point", DT + ": FirstCornerFinder"), ("four extreme points", DT + ": AllCornerFinder"), ("alignment pattern", IG + ": LeftMostFinder")], ["PreparedImage::detect_grids"])

ids = [q["id"] for q in P]
assert len(set(ids)) == len(ids)
for q in P:
    assert len(q["title"]) <= 80, q["id"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
