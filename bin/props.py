"""What each check runs: harness entries, bounds, assumptions."""

CRATES = {
    "gmat": {"overflow_checks": False},
    "geqs": {},
    "nexs": {},
    "neap": {},
    "cnxc": {},
    "cneap": {},
}
COMMON_ASSUMPTIONS = [
    "f64 arithmetic on symbolic values is exact real arithmetic: rounding, overflow to infinity and signed zero are outside the claim; on values that are concrete on a path it is IEEE double arithmetic",
    "allocation never fails; thread-locals and the environment are those of a fresh single-threaded process",
    "the text of panic messages is not computed",
    "executor, LLVM IR produced by rustc (opt-level 1, fat LTO) and z3 are trusted; completed paths are cross-checked by native replay",
]


def E(crate, name, **kw):
    return dict(crate=crate, name=name, **kw)


PROPS = {
    "M01": dict(
        entries=[E("gmat", "m01_construct", reach=[1]), E("gmat", "m01_index", reach=[2, 3, 4, 5]), E("gmat", "m01_big", reach=[6])],
        bounds=["Vec lengths 0..9 with 0..5 columns; Matrix::new up to 4x4, identity up to 5, row/column vectors up to 5", "indexing: shapes 1..3 x 1..4, both indices any 64-bit value", "shapes up to 17x1, 1x17, 8x8, 2x33, 33x2 and 16x3 (nine in all): contents, one read and write at the start, middle, end or outside", "element type f64 (all elements symbolic)"],
        outside=["other element types for this property", "other larger shapes"],
    ),
    "M02": dict(
        entries=[E("gmat", "m02_rows", reach=[1, 2]), E("gmat", "m02_big", reach=[3])],
        bounds=["all shapes 1..4 x 1..4, both row numbers any 64-bit value, all elements and the scalar symbolic", "shapes up to 17x1, 1x17, 8x8, 2x33, 33x2 and 16x3 (nine in all), rows at the start, middle, end or outside"],
        outside=["larger shapes; integer element types"],
    ),
    "M03": dict(
        entries=[E("gmat", "m03_arith", reach=[1, 2]), E("gmat", "m03_scalar", reach=[3]), E("gmat", "m03_int", reach=[4]), E("gmat", "m03_big", reach=[5])],
        bounds=["all pairs of shapes up to 3x3 for + - += -= in every owned/borrowed form, shapes up to 4x4 for scalar products, all elements symbolic reals", "i64 elements below 2^16 for shapes up to 2x3", "shapes up to 17x1, 1x17, 8x8, 2x33, 33x2 and 16x3 (nine in all) against the same, the transposed and the neighbouring shapes"],
        outside=["larger shapes; integer overflow"],
    ),
    "M04": dict(
        entries=[E("gmat", "m04_product", reach=[1]), E("gmat", "m04_big", reach=[2])],
        bounds=["all shapes r x k times l x c with r,c up to 3 and k,l up to 4, all elements symbolic reals", "eight larger products up to 9x2x9, 1x17x1, 2x33x3 and 8x8x8"],
        outside=["larger shapes; integer element types"],
    ),
    "M05": dict(
        entries=[E("gmat", "m05_augment", reach=[1]), E("gmat", "m05_subset", reach=[2]), E("gmat", "m05_transpose_trace", reach=[3]), E("gmat", "m05_big", reach=[4])],
        bounds=["augment/subset on all shapes up to 3x3 with corners from 0 to one past the end in any order, transpose and trace up to 4x4, all elements symbolic reals; integer overflow checks off as in a release build", "shapes up to 17x1, 1x17, 8x8, 2x33, 33x2 and 16x3 (nine in all) with corners at the start, middle, end or outside"],
        outside=["larger shapes; integer element types"],
    ),
    "M06": dict(
        entries=[E("gmat", "m06_dense", reach=[1, 2, 3, 4, 11, 12, 13, 14]), E("gmat", "m06_sparse", reach=[5, 6, 15, 16]), E("gmat", "m06_errors", reach=[20]), E("gmat", "m06_big", reach=[21, 22]), E("gmat", "m06_full", reach=[5, 6])],
        bounds=["n = 1..4 with every element a symbolic real", "n = 5, 6: five permutation patterns with a symbolic diagonal, a symbolic 2x2 block at either end, or a symbolic last row", "n = 5, 6: three matrices of small whole numbers with any one element symbolic", "n = 7, 8, 12: permuted diagonals with one row symbolic, or twice another one", "non-square shapes up to 4x4"],
        outside=["n > 12, n = 5 and more with more symbolic elements; near-singular matrices where rounding decides; integer element types"],
    ),
    "M07": dict(
        entries=[E("gmat", "m07_ops", reach=[1, 2, 3, 4]), E("gmat", "m07_lifetime", reach=[5])],
        bounds=["every exported function on matrices up to 3x2 with row and column arguments from 0 to one past the end; one operation followed by reads of every operand and release", "two failing operations in sequence (12 kinds, invalid indices any 32-bit value outside the matrix), then use, release and heap balance"],
        outside=["null or foreign pointers; use from several threads"],
    ),
    "M08": dict(
        entries=[E("gmat", "m08_print", reach=[1, 2]), E("gmat", "m08_same", reach=[3]), E("gmat", "m08_literals", reach=[4]), E("gmat", "m08_big", reach=[1])],
        bounds=["printing: all shapes up to 3x4, also without elements, i8 elements of which any one is any 8-bit value; also 5x7, 1x17, 17x1, 8x8, 2x11, 11x2", "comparison, iteration, conversion: all shapes up to 3x3, all elements symbolic reals", "literals with 1 and 4 elements, symbolic"],
        outside=["larger shapes; the decimal form of floating-point elements (that is std's)"],
    ),
    "E01": dict(
        entries=[E("geqs", "e01_struct", reach=[1, 2]), E("geqs", "e01_lex", reach=[1]), E("geqs", "e01_struct5", reach=[1], thorough=True)],
        bounds=["every well-formed expression with up to 4 operands (5 in the thorough tier) over + - * / ^, unary minus, parentheses, a constant, variables and functions of one and two arguments, within the generator's limits on signs and parentheses; variable values are symbolic reals", "number formats, scientific notation, whitespace of every kind around every token of sample expressions"],
        outside=["longer expressions; powers with a negative or zero symbolic base and a symbolic exponent"],
        assume=["x ^ y with symbolic y is explored for x > 0 only; pow, exp, ln and the trigonometric functions of symbolic values are uninterpreted functions shared by code and oracle"],
    ),
    "E02": dict(
        entries=[E("geqs", "e02_tokens", reach=[1, 3]), E("geqs", "e02_bytes", reach=[1, 2]), E("geqs", "e02_wide", reach=[3, 4]), E("geqs", "e02_bytes4", reach=[1, 2]), E("geqs", "e02_tokens6", thorough=True)],
        bounds=["every sequence of up to 5 tokens (6 in the thorough tier) over operand, constant, function names, operators, comma and parentheses", "every ASCII string of length up to 4 (digits other than 0 and 1 stand for themselves only through those two)", "four expressions with a Greek letter, four other characters beyond ASCII or four kinds of wide white space inserted at or replacing any place"],
        outside=["longer texts; other characters beyond ASCII; digits other than 0 and 1 in the byte strings"],
    ),
    "E03": dict(
        entries=[E("geqs", "e03_single", reach=[1]), E("geqs", "e03_map", reach=[2]), E("geqs", "e03_names", reach=[3, 4])],
        bounds=["expressions of the harness list with one or two variables, three calls in sequence, all arguments and domain bounds symbolic reals"],
        outside=["other expressions; longer call sequences"],
    ),
    "E04": dict(
        entries=[E("geqs", "e04_if", reach=[1]), E("geqs", "e04_named", reach=[1, 2, 3, 4, 5])],
        bounds=["the conditional with all five arguments symbolic reals", "every name of the default context called on symbolic reals and on sample points"],
        outside=["NaN arguments; accuracy of the platform's libm"],
    ),
    "V01": dict(
        entries=[E("geqs", "v01", reach=[1]), E("geqs", "v01_special", reach=[2]), E("geqs", "v01_3", thorough=True)],
        bounds=["sequences of 2 assignments or compound assignments (3 in the thorough tier), bounds, values and operands symbolic reals, bounds also infinite", "infinite and zero operands as concrete IEEE values"],
        outside=["NaN operands; unordered bounds; rounding"],
    ),
    "N01": dict(
        entries=[E("geqs", "n01_any", reach=[1, 2]), E("geqs", "n01_line", reach=[3]), E("geqs", "n01_parabola", reach=[4], secs=150), E("geqs", "n01_special", reach=[5, 6]), E("geqs", "n01_any3", reach=[1, 2], thorough=True)],
        bounds=["an arbitrary function (every evaluation is an unconstrained real or an error) for up to 2 iterations (3 in the thorough tier); all lines; parabolas with symbolic offset and guess; guess and margin symbolic reals", "functions that yield NaN, an infinity, zero or a small value at any of their points"],
        outside=["more iterations; rounding in the difference quotient"],
    ),
    "N02": dict(
        entries=[E("geqs", "n02_affine1", reach=[1, 2]), E("geqs", "n02_affine2", reach=[1, 2]), E("geqs", "n02_any1", reach=[3, 4]), E("geqs", "n02_any2", reach=[3, 4]), E("geqs", "n02_refused", reach=[5]), E("geqs", "n02_special1", reach=[6, 7]), E("geqs", "n02_special2", reach=[6, 7])],
        bounds=["affine systems of 1 and 2 unknowns with symbolic coefficients, arbitrary functions of 1 and 2 unknowns (every evaluation unconstrained) for the acceptance rule, guess and margin symbolic reals, up to 2 iterations", "functions of 1 and 2 unknowns that yield NaN, an infinity or a small value at any of their points"],
        outside=["three and more unknowns; more iterations; rounding"],
    ),
    "S01": dict(
        entries=[E("geqs", "s01", reach=[1, 2, 3, 4, 5, 6]), E("geqs", "s01_many", reach=[7, 8]), E("geqs", "s01_3", thorough=True)],
        bounds=["every history of a first equation and 2 more (3 in the thorough tier) from a vocabulary of 12 valid and malformed equations over 4 names and one known constant", "every order and subset of a chain of four equations offered as a list"],
        outside=["longer histories, other vocabularies; HashMap iteration orders other than those of the fixed hasher keys"],
    ),
    "S02": dict(
        entries=[E("geqs", "s02_slope", reach=[1, 2]), E("geqs", "s02_domain", reach=[1, 2]), E("geqs", "s02_refused", reach=[3]), E("geqs", "s02_from_str", reach=[4]), E("geqs", "s02_system", reach=[5, 6]), E("geqs", "s02_sysdom", reach=[5, 6])],
        bounds=["affine equations in several forms: any slope, offset and guess on the unbounded domain; several slopes with any domain, guess and margin; limits up to 2", "affine systems of 1 to 3 equations with symbolic right-hand sides, guess and margin, and with a few concrete domains"],
        outside=["nonlinear equations; more iterations; rounding"],
    ),
    "F01": dict(
        entries=[E("geqs", "f01_context", reach=[1, 2, 3]), E("geqs", "f01_system", reach=[4, 5, 6]), E("nexs", "f01_nexsys", reach=[1, 2, 3, 4])],
        bounds=["geqslib: two calls in sequence out of the context operations with valid, unsolvable and malformed equations; builder life cycles with up to two further equations", "nexsys: two solves in sequence of five systems with limits 1 and 15 on the same context and declaration handles, then a solve with preprocessors", "heap balance and use-after-free checked on every path"],
        outside=["null or foreign pointers; use from several threads; non-UTF-8 text"],
    ),
    "U01": dict(
        entries=[E("nexs", "u01_pairs", reach=[1, 2]), E("nexs", "u01_pairs3", reach=[3]), E("nexs", "u01_raw", reach=[4]), E("nexs", "u01_real", reach=[5])],
        bounds=["base tables with one or two units per quantity, every size a symbolic positive real; every pair of units within and across the 14 quantities built from them; compositions of three", "the shipped table: 48 sizes and 8 conversions against known values"],
        outside=["tables with more units per quantity; units whose name occurs in two quantities; rounding"],
        assume=["the hook (feature verif_hooks of nexsys) replaces the shipped base table by the symbolic one; the derivation and conversion code is the real one"],
    ),
    "P01": dict(
        entries=[E("nexs", "p01_comments", reach=[1, 2]), E("nexs", "p01_consts", reach=[3, 4]), E("nexs", "p01_const_table", reach=[5]), E("nexs", "p01_convs", reach=[6, 7]), E("nexs", "p01_all", reach=[8]), E("nexs", "p01_order", reach=[9]), E("nexs", "p01_conv_table", reach=[10]), E("nexs", "p01_wide", reach=[11, 12]),
                 E("nexs", "p01_comments7", reach=[1, 2], thorough=True), E("nexs", "p01_consts3", reach=[3, 4], thorough=True), E("nexs", "p01_convs3", reach=[6, 7], thorough=True)],
        bounds=["comments: every ASCII text of up to 5 bytes (7 in the thorough tier)", "constants, conversions: up to 2 (3 in the thorough tier) occurrences of the harness's constants, unknown names, conversions and look-alikes between arbitrary ASCII bytes", "combinations of comment, constant, conversion and equation in one text", "four texts with any character of two or three bytes (outside the blocks next to ASCII) or one of four bytes inserted in any place"],
        outside=["longer texts; several characters beyond ASCII"],
    ),
    "P02": dict(
        entries=[E("nexs", "p02_numbers", reach=[1, 2, 3]), E("nexs", "p02_const", reach=[4]), E("nexs", "p02_mix", reach=[5]), E("nexs", "p02_near", reach=[6, 7]), E("nexs", "p02_wide", reach=[8, 9])],
        bounds=["every number of the harness's grammar (sign, blank after it, one or two digits, fraction) in guesses, domains and constants", "every combination and order of a guess, a domain and constants for two variables among equations", "one arbitrary ASCII byte at each place of a declaration", "a Greek letter or one of four other characters beyond ASCII inserted in any place of a declaration"],
        outside=["longer numbers; declarations split over lines; more than two variables"],
    ),
    "P03": dict(
        entries=[E("nexs", "p03_flat", reach=[1]), E("nexs", "p03_nested", reach=[2]), E("nexs", "p03_names", reach=[3]), E("nexs", "p03_ops", reach=[4, 5, 6]), E("nexs", "p03_solve", reach=[7]), E("nexs", "p03_wide", reach=[8, 9])],
        bounds=["all six comparisons, six forms of branch each side, symbolic values of the variables; nesting of depth two in either branch; names that contain the key words; any two ASCII characters as the comparison", "lines that end in a line feed, a carriage return and a line feed, or blanks", "a Greek letter or one of four other characters beyond ASCII inserted in any place of a block"],
        outside=["deeper nesting; other branch expressions; blanks inside names"],
    ),
    "Q01": dict(
        entries=[E("nexs", "q01_chain", reach=[1]), E("nexs", "q01_coupled", reach=[2]), E("nexs", "q01_coupled_after", reach=[2]), E("nexs", "q01_coupled3", reach=[2]), E("nexs", "q01_coupled_mid", reach=[2]), E("nexs", "q01_wide", reach=[3]), E("nexs", "q01_guess", reach=[4, 5, 6, 7]), E("nexs", "q01_domain", reach=[8, 9]), E("nexs", "q01_text", reach=[10])],
        bounds=["chains and coupled affine systems of 2 to 5 equations in every order, known constants symbolic in [-1000, 1000], up to 3 iterations (20 for the concrete five-equation systems)", "one unknown with symbolic guess, domain and right-hand side", "whole texts with declarations"],
        outside=["nonlinear systems beyond the sample texts; systems with more equations than unknowns; rounding"],
    ),
    "K01": dict(
        entries=[E("neap", "k01_two", reach=[1, 2]), E("neap", "k01_two3", reach=[1, 2]), E("neap", "k01_heat", reach=[1]), E("neap", "k01_three_rv", reach=[1, 2]), E("neap", "k01_ring0", reach=[1]), E("neap", "k01_tree0", reach=[1]), E("neap", "k02_fixed", reach=[1]),
                 E("neap", "k01_three", reach=[1, 2], thorough=True), E("neap", "k01_star", reach=[1], thorough=True), E("neap", "k01_mesh0", reach=[1], thorough=True)],
        bounds=["every network of 2 nodes with 2 or 3 elements and of 3 nodes with 3 elements out of resistors and voltage sources (and current sources in the thorough tier) in every orientation, order and arrangement, node 0 fixed; the same with 2 elements out of the heat transfer kinds", "rings and trees of 4 nodes with 4 resistors or voltage sources in every orientation and two orders (stars and a 5-element mesh in the thorough tier)", "gains and the fixed potential symbolic in [-100, 100] (resistances and conductances in [0.01, 100]; in networks of 3 and 4 nodes all or all but one conducting gain given); margin 0.5, up to 4 iterations"],
        outside=["larger networks; other margins; more iterations; nodes without elements", "rounding: potentials of nodes are only accurate to the solver margin anyway, driven nodes and fixed potentials are compared exactly in real arithmetic"],
        assume=["HashMap iteration follows one fixed hasher key, so one iteration order per set of keys"],
    ),
    "K02": dict(
        entries=[E("neap", "k02_two", reach=[1, 2]), E("neap", "k02_heat", reach=[1]), E("neap", "k02_rc", reach=[1]), E("neap", "k02_fixed", reach=[1]), E("neap", "k01_two3", reach=[1, 2]),
                 E("neap", "k01_heat3", reach=[1], thorough=True)],
        bounds=["every network of 2 nodes with 2 or 3 circuit elements, of 3 nodes with 2 heat transfer elements (3 in the thorough tier) or 2 circuit elements, node 0 fixed, and of 2 nodes configured in any way, in every orientation and order; gains and potentials symbolic in [-100, 100], resistances and conductances in [0.01, 100]"],
        outside=["larger networks; gains outside the range; rounding"],
    ),
    "K03": dict(
        entries=[E("neap", "k03_fixed", reach=[1, 2]), E("neap", "k03_heat", reach=[1, 2]), E("neap", "k03_cur", reach=[1, 2], thorough=True), E("neap", "k03_heat2", reach=[1, 2], thorough=True)],
        bounds=["3 nodes, each without configuration, with a potential, or fixed at a potential, with any 2 elements out of resistors and voltage sources (current sources in the thorough tier) or any one heat transfer element (2 in the thorough tier); all potentials and gains symbolic"],
        outside=["more nodes and elements"],
    ),
    "K04": dict(
        entries=[E("neap", "k04_json", reach=[1, 2]), E("neap", "k04_elements", reach=[1, 2]), E("neap", "k04_builder", reach=[4, 5]), E("neap", "k04_loops", reach=[6, 7]), E("neap", "k04_text", reach=[8, 9]), E("neap", "k04_elements2", thorough=True), E("neap", "k04_loops3", thorough=True)],
        bounds=["models with any study type, 0 to 3 nodes and up to 2 configured nodes with node numbers 0..4 and potentials of 0 to 2 values", "one element (2 in the thorough tier) of any of 8 type names, node numbers 0..3 in a model of 2 nodes, 0 to 3 gains, all values symbolic reals", "any two potential sources (3 in the thorough tier) between 3 nodes, self loops included, nodes fixed in any way", "node numbers given to the builder: any 64-bit value", "the text of a model with any one ASCII character in any place, or cut anywhere"],
        outside=["texts of models that differ from a valid one in more than one character or a cut", "a resistor with more than one gain: no claim which"],
    ),
    "K05": dict(
        entries=[E("neap", "k05_elements", reach=[1]), E("neap", "k05_sources", reach=[2, 3]), E("neap", "k05_dropped", reach=[4, 5])],
        bounds=["every element kind between two nodes with symbolic potentials and gains, each fixed or not; one later change of a potential; a potential source with one further element at its driven node, in either direction", "nodes released before or after the element is made"],
        outside=["several sources in sequence (see K01, K04)"],
    ),
    "K06": dict(
        entries=[E("neap", "k06_run", reach=[3, 4]), E("neap", "k06_names", reach=[2]), E("neap", "k06_save", reach=[1])],
        bounds=["every model of up to two building steps (nodes, configured nodes with any of eleven lists of values, with and without metadata, elements), element names of any one or two ASCII characters and with quotes, backslashes and accents, node numbers in range", "studies of four circuits and four heat transfer models in two orientations, run before and after saving", "cut-off texts"],
        outside=["other numbers than the harness's (they are printed and parsed by the code of serde_json, not of this repository); larger models; values that JSON cannot hold"],
    ),
    "K07": dict(
        entries=[E("neap", "k07_refused", reach=[7]), E("neap", "k07_dims", reach=[5, 6]), E("neap", "k07_dims3", reach=[5, 6]), E("neap", "k07_dims_all", reach=[5, 6], thorough=True)],
        bounds=["dimensions 1 to 3; 2 nodes with 2 elements and 3 nodes in a ring of 3 elements, out of resistors, sources and two kinds registered by the harness (one whose flux in a component also follows the component before), in every orientation; one component of each potential and source symbolic in [-100, 100] (all of them in the thorough tier for 2 nodes)", "potentials and source values of 0 to 4 components against dimensions 1 to 3"],
        outside=["larger networks and dimensions; flux formulas that are not affine; rounding"],
        assume=["HashMap iteration follows one fixed hasher key, so one iteration order per set of keys"],
    ),
    "C01": dict(
        entries=[E("cnxc", "c01_help", reach=[5]), E("cnxc", "c01_files", reach=[1, 2, 3, 4]), E("cnxc", "c01_options3", reach=[2, 3, 4]), E("cnxc", "c01_values2", reach=[3, 4]), E("cnxc", "c01_texts", reach=[2, 3, 4]),
                 E("cnxc", "c01_options4", reach=[2, 3, 4], thorough=True)],
        bounds=["every sequence of up to 3 arguments (4 in the thorough tier) out of all options, good and bad values and an unknown word", "values of options: any text of up to 2 ASCII characters", "6 file names times 7 texts times 4 sets of options, with the input or the output closed", "a short equation cut anywhere and followed by any ASCII character"],
        outside=["the real file system, terminal and exit of the process (the tool's main function runs against a world held in memory); command lines that are not UTF-8"],
        assume=["std::env, std::fs, std::process and std::io as used by the tool behave as harness/clistd says"],
    ),
    "C02": dict(
        entries=[E("cneap", "c02_nothing", reach=[4]), E("cneap", "c02_files", reach=[1, 2, 3]), E("cneap", "c02_options", reach=[1, 3]), E("cneap", "c02_values2", reach=[1, 3]), E("cneap", "c02_texts", reach=[1, 3]),
                 E("cneap", "c02_options4", reach=[1, 3], thorough=True)],
        bounds=["every sequence of up to 3 arguments (4 in the thorough tier) out of all options, good and bad values and an unknown word", "values of options: any text of up to 2 ASCII characters", "6 file names times 8 models times 4 sets of options, with the input or the output closed", "the text of a model with any ASCII character in any place"],
        outside=["the real file system, terminal and exit of the process (the tool's main function runs against a world held in memory); command lines that are not UTF-8"],
        assume=["std::env, std::fs, std::process and std::io as used by the tool behave as harness/clistd says"],
    ),
}

import os as _os
if _os.environ.get("SX_TRY"):
    _c, _e = _os.environ["SX_TRY"].split(":")
    PROPS["TMP"] = dict(entries=[E(_c, x) for x in _e.split(",")], bounds=[])
