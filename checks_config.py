"""What each check enumerates and how its verdict is reached (see DESIGN.md)."""

# large symbols first, for an even load, and some small ones at once, for an early verdict
VERSIONS = [40, 39, 38, 37, 1, 2, 3, 7] + list(range(36, 7, -1)) + [6, 5, 4]
AI = "abstract interpretation of the crate's MIR (affine forms over GF(2), finite tables, trace partitioning)"


CHECKS = {
    "C01": dict(
        units=VERSIONS, level="proof", technique=AI, min_obligations=80,
        rule="abstract interpretation of get_raw_data over MIR with one unknown per module: every output bit must be the "
             "affine form consisting of exactly the module ISO 18004 places there; all 40 versions, two formats each",
        note="every version, every module content, exact; two of the 32 format words per version (reading is shown independent of the rest)",
    ),
    "C02": dict(
        units=VERSIONS, level="proof", technique=AI, private=True, min_obligations=320,
        rule="abstract interpretation of the raw reader with one unknown per module: each bit must be the module, "
             "complemented exactly where the ISO mask condition holds; 40 versions x 8 masks, masked and unmasked",
        note="every version, mask and module content, exact",
    ),
    "C03": dict(
        units=VERSIONS, level="proof", technique=AI, min_obligations=160,
        rule="abstract interpretation of decode_to on symbols encoded from unknown data bits (affine over GF(2)): the bytes "
             "written must be the unknown data, in full and in order, and one character more must be an underflow; 160 combinations",
        note="every version and level, every content of the data codewords behind a byte-mode header, exact",
    ),
    "C04": dict(
        units=VERSIONS, level="proof", technique=AI, min_obligations=2000,
        rule="abstract interpretation of get_raw_data with an unknown valid format word plus each of the 1024 coset patterns, "
             "in the first copy (second copy valid) and in the second copy (first copy uncorrectable): version, level and mask "
             "reported must be those of the valid word within distance 3, otherwise of the second copy, otherwise a format error",
        note="all 2^15 contents of either copy; the content of the other copy is one constant per pattern; the 18 coset patterns of weight 4 and 5 that a Berlekamp-Massey decoder may still resolve are only checked for panics; patterns are distributed over versions 1 to 12, the other versions get a few each",
    ),
    "C05": dict(
        units=list(range(72, 40, -1)) + VERSIONS, level="other", technique=AI + ", value-set abstraction for arbitrary blocks", private=True, min_obligations=599,
        rule="abstract interpretation of the block decoder on a block of entirely unknown bytes: whenever it accepts, the bytes left in the block satisfy every parity check "
             "(linear facts known on the accepting path, against an independent formula); of the splitting of every version and level with unknown verdicts per block: accepted only if "
             "every block, as ISO 18004 interleaves it, was found good; and of decode_to with unknown data and constant damage no correction explains (each single parity check violated "
             "alone, and weights ec/2+1, ec/2+2, ec): the outcome must be DataEcc",
        note="quick: shortest and longest block for each of the 13 numbers of parity codewords (thorough: every kind of block), all contents; damage patterns are an enumerated family",
    ),
    "C06": dict(
        units=VERSIONS, level="other", technique=AI, min_obligations=160,
        rule="abstract interpretation of decode_to with unknown data and ec/2 damaged codewords in every block (constant damage, "
             "windows covering every codeword position and scattered patterns), and one codeword damaged in any way: the unknown data must be written",
        note="all data contents; damage patterns are an enumerated family (up to the full correction capacity, every version and level)",
    ),
    "C07": dict(
        units=VERSIONS, level="other", technique=AI, min_obligations=250,
        rule="abstract interpretation of decode_to on numeric and alphanumeric segments of unknown characters: every byte written must be the "
             "table of the unknown characters; all lengths in versions 1 and 2, capacity and count-field boundaries in the others",
        note="all characters; lengths enumerated",
    ),
    "C08": dict(
        units=VERSIONS, level="other", technique=AI, min_obligations=200,
        rule="abstract interpretation of decode_to on byte and kanji segments of unknown characters: the bytes written must be the unknown "
             "bytes, or the Shift JIS code of the unknown 13-bit values (all 2^13)",
        note="all characters; lengths enumerated",
    ),
    "C09": dict(
        units=VERSIONS, level="other", technique=AI, min_obligations=150,
        rule="abstract interpretation of decode_to on sequences of segments with unknown contents followed by a terminator and unknown bits, "
             "by any mode indicator, or by fewer than four bits",
        note="all contents and all 16 mode indicators; segment sequences enumerated (all pairs)",
    ),
    "C10": dict(
        units=VERSIONS, level="other", technique=AI, min_obligations=200,
        rule="abstract interpretation of decode_to on segments whose character count is unknown, or one or two above what fits (unknown data up to "
             "the end), and on ECI designators cut off by the end: the outcome must be DataUnderflow exactly when the count does not fit",
        note="all counts in versions 1, 2, 10 and 27 (low 12 bits unknown), the boundary counts elsewhere",
    ),
    "C11": dict(
        units=VERSIONS, level="other", technique=AI, min_obligations=60,
        rule="abstract interpretation of decode_to with a writer whose answer to each single request is unknown (accept, fail, accept nothing, accept one byte), "
             "and with writers that accept one byte at a time or are interrupted: IoError exactly when the writer fails, written bytes are a prefix",
        note="every segment kind and every request position of 22 messages with unknown contents",
    ),
    "C12": dict(
        units=VERSIONS, level="other", technique=AI, min_obligations=150,
        rule="abstract interpretation of decode_to with unknown data where one block (each block in turn) or the format is uncorrectable: error and no write on any path",
        note="all data contents; one damage pattern per block, every block up to four per symbol, the last and one more above",
    ),
    "C13": dict(
        units=VERSIONS, level="other", technique=AI, min_obligations=40,
        rule="abstract interpretation of Grid::decode on byte segments with up to 14 unknown bits arranged around every UTF-8 boundary: the string is the bytes "
             "decode_to writes when they are UTF-8, otherwise EncodingError",
        note="byte patterns enumerated around every boundary of the UTF-8 grammar, unknown bits within them",
    ),
    "C14": dict(
        units=VERSIONS, level="other", technique=AI, min_obligations=150,
        rule="abstract interpretation of decode_to on transposed symbols with unknown data, on grids where both readings fail in different ways, and on grids "
             "that are error-free symbols both ways (solution space of the parity equations of both readings)",
        note="all data contents; versions 1 to 6 with every level, the others with one",
    ),
    "C15": dict(
        units=list(range(51, 19, -1)) + list(range(10, 18)) + list(range(1, 9)), level="other", technique=AI + ", value-set abstraction for arbitrary data", private=True, min_obligations=284,
        rule="no panic (assertion, index, overflow, division) is reachable in raw reading of grids of every size with unknown modules, in splitting unknown codewords of every version and level "
             "with any verdict on each block, in correcting a block of unknown bytes, and in interpreting unknown corrected data",
        note="blocks: shortest and longest for each number of parity codewords (thorough: all kinds), every content; corrected data: streams of 1 to 14 bytes (thorough: 19) with every content, "
             "in both versions at the ends of each size class; longer data in C07 to C10 for valid segments only; format information: all contents in C04",
        assumptions=["the grid answers every query inside its size", "the writer does not panic"],
    ),
    "C16": dict(
        units=VERSIONS, level="proof", technique=AI, min_obligations=180,
        rule="abstract interpretation of get_raw_data and decode_to for every grid size 0..190 and huge ones, all modules unknown: no module outside the grid is "
             "asked for on any path, impossible sizes are rejected",
        note="every size up to 190 and representatives of larger ones",
    ),
    "C17": dict(
        units=VERSIONS, level="proof", technique=AI, min_obligations=40,
        rule="abstract interpretation of SimpleGrid::from_func with one unknown per module: module (y, x) read back is the one supplied for column x, row y",
        note="all contents, sizes enumerated",
    ),
    "C18": dict(
        units=[1], level="proof", technique=AI, min_obligations=300,
        rule="abstract interpretation of Version::from_size and to_size for each size and version: inverse functions, out of range rejected",
        note="sizes enumerated",
    ),
    "C19": dict(
        units=list(range(1, 9)), level="proof", technique=AI, min_obligations=1000,
        rule="abstract interpretation of the image constructors with one unknown per pixel (bitmap function, existing buffer, image crate buffer): "
             "pixel (x, y) read back is the one supplied, any byte other than the two colours is refused",
        note="all contents; dimensions 0..12 squared and a list of elongated ones",
    ),
    "C20": dict(
        units=list(range(1, 17)), level="proof", technique=AI + ", with pixels as independent intervals", min_obligations=1000,
        rule="interval analysis of prepare with every pixel in 0..255: no overflow, division by zero or out of bounds access on any path; typestate of each pixel "
             "(read only before it is written, written exactly once, with 0 or 1) checked at every buffer access",
        note="all contents; dimensions 0..18 squared and a list of larger and elongated ones",
    ),
    "C21": dict(
        units=[1], level="proof", technique=AI, private=True, min_obligations=7,
        rule="abstract interpretation of the conversions between bytes and colour classes with an unknown byte and an unknown region number",
        note="all bytes, all classes",
    ),
    "C22": dict(
        units=[1, 2, 3, 4], level="proof", technique=AI + ", with real arithmetic as residues of rational functions", private=True, min_obligations=4,
        rule="abstract interpretation of the perspective transforms with unknown corners: the corner coordinates and their images are rational functions of the unknowns, "
             "compared as residues at random points modulo 2^61 - 1 (identity testing)",
        note="every choice of corners for which the denominators do not vanish; floating point rounding is not modelled",
        assumptions=["floating point rounding stays below half a pixel", "identity testing errs with probability below 2^-100"],
    ),
    "C23": dict(
        units=[1], level="proof", technique=AI + ", with real arithmetic as residues of rational functions", private=True, min_obligations=1,
        rule="abstract interpretation of map followed by unmap on an unknown point with unknown corners: equal rational functions up to rounding to a pixel",
        note="every choice of corners and point for which the denominators do not vanish; floating point rounding is not modelled",
        assumptions=["floating point rounding stays below half a pixel", "identity testing errs with probability below 2^-100"],
    ),
    "C24": dict(
        units=[1], level="proof", technique=AI + ", with real arithmetic as residues of rational functions", private=True, min_obligations=1,
        rule="abstract interpretation of line_intersect with unknown points: the result is the rational function that satisfies both line equations",
        note="every pair of lines; coordinates up to 2^16 for overflow",
        assumptions=["identity testing errs with probability below 2^-100"],
    ),
    "C25": dict(
        units=list(range(1, 9)), level="proof", technique=AI + ", with real arithmetic as residues of rational functions", private=True, min_obligations=12,
        rule="abstract interpretation of bit() of a detected grid with an unknown transform: the pixel asked for is the image of the module's centre, clamped into the image, "
             "and the answer is that pixel's blackness",
        note="every transform and every module; image sizes enumerated",
        assumptions=["floating point rounding stays below half a pixel", "identity testing errs with probability below 2^-100"],
    ),
    "C26": dict(
        units=list(range(1, 25)), level="proof", technique=AI + "; the region table is replaced by an arbitrary consistent one", private=True, min_obligations=150,
        rule="abstract interpretation of get_region from an arbitrary consistent state (table not full with unknown length, or full with an unknown number given up; "
             "unknown pixels around the start): old region painted black first, the same number assigned, painted and recorded",
        note="inductive: any number and any history; image shapes enumerated (5 by 3, 9 shapes of the old region, 6 starts)",
        assumptions=["lru::LruCache behaves as documented"],
    ),
    "C27": dict(
        units=list(range(1, 9)), level="other", technique=AI + " (typestate of the image each trial works on)", private=True, min_obligations=13,
        rule="abstract interpretation of detect_grids with the test of one group replaced by an unknown answer that leaves a mark on the image it got: "
             "no test, and not the searched image, sees the mark of a rejected test; a copy of an image shares no state with it",
        note="7 arrangements of up to 6 finder patterns, every pattern of acceptances and rejections",
        assumptions=["lru::LruCache behaves as documented"],
    ),
    "C28": dict(
        units=[1], level="proof", technique="effect analysis over the MIR call graph of the crate and its dependencies, and a lint over the crate's HIR", min_obligations=100,
        rule="no user-written unsafe block, function or impl, foreign function, assembly, mutable, interior-mutable or thread-local static in the crate; from every public function and "
             "trait method (the two dump functions excepted) no call path through crate, dependencies or standard library reaches a function or a global with effects outside "
             "the program (files, environment, time, threads, streams, random numbers, order of hash tables, foreign functions), cut at panics and at the caller's own trait implementations",
        note="every public function, all paths of the call graph with the default features; calls through function pointers are covered by the places that create them",
        assumptions=["panicking and memory allocation are not counted as effects", "lru::LruCache and hashbrown do not expose the seed of the hash table"],
        trusted=["rustc front end: type checking, MIR construction, instance resolution", "the list of functions with effects in qrai/src/props/lint.rs"],
    ),
    "C29": dict(
        special="borrow", level="proof", technique="type-level witnesses: programs the compiler must accept and programs it must reject with a given error", min_obligations=15,
        rule="each witness program against the public interface is accepted, or rejected with the expected borrow or trait error while its control without the offending line is accepted",
        note="the programs listed in /verif/witness; generic ones stand for every backing type",
        trusted=["rustc: type and borrow checking"],
    ),
    "C30": dict(
        units=list(range(1, 9)), level="other", technique=AI, private=True, min_obligations=2900,
        rule="abstract interpretation of from_group with the numbers of colour changes on the two timing lines supplied by the analysis: the size of the grid, if there is one, "
             "is 21 to 177 and of the form 4v+17, and the one an undamaged symbol's timing lines stand for",
        note="numbers of colour changes 0 to 700 on either line and powers of two; alignment pattern search and fitting are replaced by stand-ins",
    ),
    "C33": dict(
        units=list(range(1, 25)), level="other", technique=AI, private=True, min_obligations=100,
        rule="abstract interpretation of repaint_and_apply with every pixel unknown (region colour or another): the pixels repainted are the connected component, "
             "rows reported cover each of them exactly once",
        note="every content of images up to 4 by 3 and 9 by 1 and every start; larger images are not covered",
    ),
    "C34": dict(
        units=list(range(1, 17)), level="other", technique=AI + ", with pixels as independent intervals", min_obligations=400,
        rule="abstract interpretation of prepare: with one unknown grey value everywhere nothing is black; interval analysis: a pixel of 248..255 in an unknown image is white, "
             "a pixel of 0..31 among 192..255 is black",
        note="all brightness values in the stated intervals; dimensions and pixel positions enumerated",
    ),
    "C35": dict(
        units=list(range(1, 9)), level="other", technique=AI + ", every geometric step an unknown outcome", private=True, min_obligations=8500,
        rule="abstract interpretation of from_group with perspective, line intersection, alignment search and colour counts replaced by unknown outcomes: every path returns; "
             "of find_alignment_pattern with corner estimates from the whole 32 bit range: every path returns within the step bound; of Perspective::map over special coefficients",
        note="orientations and placements of the finder patterns are enumerated; colour counts enumerated from 1; estimates and coefficients from a table of extreme and ordinary values",
        assumptions=["lru::LruCache behaves as documented", "at least one colour change is seen between two finder patterns"],
    ),
    "C36": dict(
        units=list(range(1, 9)), level="other", technique=AI, private=True, min_obligations=200,
        rule="abstract interpretation of the whole search with unknown pixels: every path returns an empty list",
        note="all contents of all images of at most 11 pixels (13 thorough) and all with a dimension of zero up to 20; one finder pattern with windows of 4 to 6 unknown pixels",
        assumptions=["lru::LruCache behaves as documented"],
    ),
    "C37": dict(
        units=list(range(1, 9)), level="other", technique=AI + " (ownership of finder patterns over all histories of group tests)", private=True, min_obligations=15,
        rule="abstract interpretation of detect_grids with an unknown answer to each test of a group: on every path the accepted groups are disjoint, and each right-angled group "
             "none of whose patterns is used was tested",
        note="16 arrangements of up to 12 finder patterns, every pattern of acceptances and rejections",
        assumptions=["lru::LruCache behaves as documented"],
    ),
    "C38": dict(
        units=list(range(1, 9)), level="other", technique=AI, private=True, min_obligations=1500,
        rule="abstract interpretation of BresenhamScan from an unknown start and of timing_scan over unknown pixels: each point visited satisfies the line's bounds, and the count is "
             "the number of differing neighbours, on every path",
        note="all start points in a window, all directions up to 16 by 16 (thorough 40) and longer ones up to 200; lines of up to 8 steps with every pixel content, also outside the image",
    ),
    "C39": dict(
        units=list(range(1, 9)), level="other", technique=AI, private=True, min_obligations=4500,
        rule="abstract interpretation of LineScanner on rows of unknown pixels: a report is made only after five runs, names their starts, and is made for exact ratios",
        note="every row of up to 12 pixels (thorough 14); scales 1 to 40 and up to 1000 after every prefix of up to 7 pixels; deviations of an eighth in every combination up to scale 24, a sample up to 40",
    ),
    "C40": dict(
        units=list(range(1, 9)), level="other", technique=AI + " (inductive step over rows)", private=True, min_obligations=650,
        rule="abstract interpretation of the update functions with a row of unknown ends after an enumerated one: the remembered point is a point seen and none seen lies further out",
        note="every row in a 16 by 16 window after enumerated first rows, starts and directions; the state carried from row to row is the remembered point and its score, so the step extends to any number of rows",
    ),
}

NOT_APPLICABLE = {
    "C31": "panic-freedom and termination of the whole search depend on floating-point geometry (perspective coefficients, fitness scores, truncated intersections) and on the "
           "shape of arbitrary pixel regions; no abstract domain in reach bounds these relations without reporting impossible panics, and running concrete images would be testing. "
           "The separable parts are claimed elsewhere: binarisation (C20), flood fill (C33), region bookkeeping (C26), line intersection (C24), grid size (C30), failing geometric steps (C35), tiny images (C36), grouping (C37).",
    "C32": "that a rendered symbol is found at every position, rotation and scale is an end-to-end statement about thresholding, blob tracing and an iterative numeric fit; its "
           "quantities (errors of the fit against a fitness threshold) have no sound static bound in reach, so only concrete renderings could be tried. "
           "The exact parts are claimed elsewhere (C20, C22, C23, C24, C25, C30, C33, C34).",
}
