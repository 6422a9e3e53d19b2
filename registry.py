"""What each check builds and how its evidence is described."""

import os

NEON = os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "neon")
TECH = "explicit-state enumeration of executions of the real code against an executable model"
PLAIN = {"name": "plain"}
SAN = {"name": "asan-ubsan", "san": True}


def parts(n, san=False, flags=()):
    return [{"name": "p%d" % i, "san": san, "flags": ["-O1", "-DPART=%d" % i] + list(flags)} for i in range(n)]


CHECKS = {
    "C01": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; the whole-buffer result is the oracle, itself decided against a reference in C02-C04",
        "configs": [PLAIN],
        "rule": "one execution = one text, one partition of it into buffers, one way of handing them over; "
                "non-trivial = at least one cut and at least two tokens; state = distinct observed token sequence and outcome",
        "bounds": {"quick": "texts of up to 6-7 symbols over 8 alphabets with all 2^(n-1) partitions; long lexemes of 0..36 "
                            "bytes with all partitions into 2-3 buffers; whole documents into up to 4 buffers",
                   "thorough": "texts of up to 7-8 symbols, long lexemes of 0..70 bytes, all three ways of handing over"},
    },
    "C02": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; trusts the reference tokenizer in lib/ref_tok.h",
        "configs": [PLAIN],
        "rule": "one execution = one text; non-trivial = at least two tokens; state = distinct token sequence and outcome",
        "bounds": {"quick": "all texts of up to 8 symbols over the 12-symbol structural alphabet, 9 over lexemes, 12 over whole values, 6-9 over number, keyword, escape and white space alphabets behind prefixes, each also behind tails; one symbol past every error; brackets to length 20; all 256 byte values at every position of short texts; one large thing up to 70000",
                   "thorough": "one symbol more everywhere, brackets to 24"},
    },
    "C03": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; trusts the reference tokenizer in lib/ref_tok.h",
        "configs": [PLAIN],
        "rule": "one execution = one text under all 16 option sets; non-trivial = two option sets give different results; state = distinct result",
        "bounds": {"quick": "all texts of up to 6-7 symbols over alphabets of the characters the options give meaning to, x 16 option sets",
                   "thorough": "one to two symbols longer"},
    },
    "C04": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; the scalar build is the oracle for the vector builds; the NEON build runs on the intrinsics of lib/neon",
        "configs": [{"name": "units", "units": [
            {"src": "C04_unit.cpp", "flags": ["-DUNIT=scalar", "-DJS_DISABLE_SIMD"]},
            {"src": "C04_unit.cpp", "flags": ["-DUNIT=sse2"]},
            {"src": "C04_unit.cpp", "flags": ["-DUNIT=sse42", "-msse4.2"]},
            {"src": "C04_unit.cpp", "flags": ["-DUNIT=avx2", "-mavx2", "-mbmi"], "needs_cpu": "avx2"},
            {"src": "C04_unit.cpp", "flags": ["-DUNIT=neon", "-U__SSE2__", "-D__ARM_NEON=1", "-I" + NEON], "if_it_compiles": True},
        ]}],
        "rule": "one execution = one text and alignment through all five builds; non-trivial = the text fills a vector block; state = distinct result",
        "bounds": {"quick": "lexemes and gaps of 0..100 bytes x position of each special byte x 256 byte values x alignments; all short texts",
                   "thorough": "more lengths and alignments"},
    },
    "C05": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; address and undefined-behaviour sanitizers are the monitor for memory",
        "configs": parts(4, san=True),
        "rule": "one execution = one text parsed into one target type; non-trivial = the parse stored or rejected something after its first token; state = distinct outcome",
        "bounds": {"quick": "about 90 target types; all texts of up to 5-6 symbols over structural and lexical alphabets; of up to 5 values per type all prefixes and all changes of one byte; one large thing up to 520; address and undefined-behaviour sanitizers",
                   "thorough": "texts of up to 7-8 symbols, 40 values per type, large things up to 66000"},
    },
    "C06": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; values are compared with an independent reading of the output",
        "configs": parts(7),
        "rule": "one execution = one value of one type in one style; non-trivial = the output has at least two tokens; state = distinct output",
        "bounds": {"quick": "about 240 type compositions; up to 5000 values of each (all when fewer) x 4 styles, fresh and filled targets; one large thing up to 260",
                   "thorough": "up to 200000 values of each; large things up to 4100"},
    },
    "C18": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; trusts the reference binding in lib/model.h",
        "configs": parts(7),
        "rule": "one execution = one document parsed into one type, fresh or filled; non-trivial = the document has at least two tokens; state = distinct outcome and value",
        "bounds": {"quick": "about 190 type compositions, each alone, as a member, in a tuple, a vector and a map, x about 150 values of every kind in first, middle and last position, plus up to 12 valid values of the type with every single sub-value replaced; fresh and filled targets",
                   "thorough": "24 values and the full replacement alphabet"},
    },
    "C07": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; trusts the 128-bit decimal reading in lib/ref_num.h",
        "configs": [{"name": "plain", "std": "gnu++17"}],
        "rule": "one execution = one text read into one integer type, or one value written; non-trivial = text of two or more characters; state = distinct type and outcome",
        "bounds": {"quick": "all texts of up to 6 symbols over the number alphabet, every value of the 8- and 16-bit types, every neighbourhood of the limits and powers of the wide types", "thorough": "texts of up to 8 symbols"},
    },
    "C08": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; the C library's correctly rounded strtod/strtof is the oracle",
        "configs": [{"name": "plain", "std": "gnu++17"}, {"name": "no-int128", "std": "gnu++17", "flags": ["-DFT_NO_INT128"]}, {"name": "all-floats", "std": "gnu++17", "flags": ["-DALL_FLOATS"], "thorough_only": True}],
        "rule": "one execution = one text or one binary value; non-trivial = the text has a fraction or an exponent; state = distinct value",
        "bounds": {"quick": "all texts of up to 6 symbols, all digit strings x exponents, structured bit patterns of float and double; the 26000 values whose digits and 40000 decimals whose rounding are the closest calls; with and without a 128-bit integer type", "thorough": "all 2^32 floats written and read back; longer texts"},
    },
    "C09": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; trusts the reference escape coder in lib/ref_str.h",
        "configs": [PLAIN, {"name": "avx2", "flags": ["-mavx2"], "needs_cpu": "avx2"}, {"name": "scalar", "flags": ["-DJS_DISABLE_SIMD"]}],
        "rule": "one execution = one byte string written and read, or one string token read; non-trivial = an escape is involved; state = distinct output",
        "bounds": {"quick": "all byte strings of length 2, strings of up to 4 symbols over the escape alphabets, all 65536 \\u escapes, all surrogate boundaries in pairs, every special byte at every offset 0..70, lengths to 66000; vector, AVX2 and scalar builds",
                   "thorough": "strings of up to 5-6 symbols, offsets to 140, lengths to 140000"},
    },
    "C10": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds",
        "configs": [PLAIN, SAN],
        "rule": "one execution = one value, one style and one buffer schedule; non-trivial = the output does not fit the first buffer; state = distinct output",
        "bounds": {"quick": "all partitions of outputs of up to 13 bytes, all two- and three-buffer partitions and all uniform sizes of larger ones, a refusal at every request; values and token sequences; lengths to 140000; guard bytes and sanitizers",
                   "thorough": "outputs of up to 17 bytes, lengths to 600000"},
    },
    "C11": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; trusts the strict JSON reader in lib/jv.h",
        "configs": [PLAIN] + [{"name": "w%d" % i, "src": "C06.cpp", "flags": ["-O1", "-DWELL_FORMED", "-DPART=%d" % i]} for i in range(7)],
        "rule": "one execution = one value or one sequence of serializer calls in one style; non-trivial = two or more tokens; state = distinct output",
        "bounds": {"quick": "all token trees of up to 5 nodes (3 with the rich alphabet) x style x shift -1..5 x depth; nesting 1..600 and about 65536; every value of C06 in every style read by a strict reader",
                   "thorough": "6 nodes, shift to 12"},
    },
    "C12": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; trusts the reference binding in lib/model.h",
        "configs": parts(4),
        "rule": "one execution = one document and one set of parse options for one structure; non-trivial = a member is missing or unknown; state = distinct report",
        "bounds": {"quick": "all sequences of up to 5 properties from names, aliases, inherited and unknown names with scalar and nested values x all option sets; four structures with up to three super classes that have super classes; up to 2050 unknown members and name lengths",
                   "thorough": "sequences of 6, up to 10001"},
    },
    "C13": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; trusts the strict JSON reader in lib/jv.h",
        "configs": [PLAIN],
        "rule": "one execution = one text reformatted in one style; non-trivial = two or more tokens; state = distinct output",
        "bounds": {"quick": "all texts of up to 7 symbols over the structural and 6 over the lexical alphabet, all trees of up to 5 nodes with white space, x styles x options; nesting 1..600 and about 65536; sizes to 2000 and one large thing",
                   "thorough": "one symbol or node more"},
    },
    "C14": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; the model is a plain tree of values",
        "configs": [PLAIN, {"name": "asan-ubsan", "san": True, "thorough_only": True}],
        "rule": "one execution = one history of map operations; non-trivial = two or more operations; state = distinct map content",
        "bounds": {"quick": "all sequences of 3 operations from a set of about 40 on each of the starting documents, all trees of up to 5 nodes; one large thing to 300; 260 properties",
                   "thorough": "sequences of 4, 6 nodes, address sanitizer, large things to 66000"},
    },
    "C15": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; the model is a table of the declared functions and a list of the calls they saw",
        "configs": [{"name": "plain", "std": "gnu++17"}, {"name": "asan-ubsan", "std": "gnu++17", "san": True, "thorough_only": True}],
        "rule": "one execution = one document of calls under one setting; non-trivial = two or more calls; state = distinct record of calls, results and errors",
        "bounds": {"quick": "all sequences of 4 calls (5 from the short list) x 8 settings, all texts of up to 6 symbols, every output buffer; large arguments to 5000, 1030 calls",
                   "thorough": "sequences of 5 and 7, address sanitizer"},
    },
    "C16": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; the model compares two trees recursively",
        "configs": [{"name": "plain", "std": "gnu++17"}, {"name": "asan-ubsan", "std": "gnu++17", "san": True}],
        "rule": "one execution = one pair (or triple) of documents diffed; non-trivial = the documents differ or are malformed; state = distinct report",
        "bounds": {"quick": "all pairs of documents of up to 4 nodes over several value alphabets, triples of a reused context, all texts of up to 7 symbols against fixed documents; one large thing to 520-5000; sanitizers",
                   "thorough": "5 nodes, 8 symbols"},
    },
    "C17": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; trusts the strict JSON reader in lib/jv.h",
        "configs": [{"name": "plain", "std": "gnu++17"}, {"name": "asan-ubsan", "std": "gnu++17", "san": True, "thorough_only": True}],
        "rule": "one execution = one document, one partition into buffers and one capture type; non-trivial = a container is captured; state = distinct capture and outcome",
        "bounds": {"quick": "all values of up to 4 nodes (3 with the rich alphabet) in every spelling x every capture type x all partitions (texts of up to 9 bytes) or all 2-3 cuts; lexeme lengths 0..40; all texts of up to 6 symbols",
                   "thorough": "5 nodes, all partitions to 12 bytes, address sanitizer"},
    },
    "C19": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; trusts the strict JSON reader in lib/jv.h",
        "configs": [{"name": "plain", "std": "gnu++17", "if_it_compiles": ["-DINTERNALS"]},
                    {"name": "asan-ubsan", "std": "gnu++17", "san": True, "if_it_compiles": ["-DINTERNALS"]}],
        "rule": "one execution = one document and its metadata; non-trivial = two or more containers; state = distinct metadata",
        "bounds": {"quick": "all trees of up to 8 nodes over the structural, 5 over the mixed and 3 over the rich alphabet; one large thing to 66000; sanitizers",
                   "thorough": "9, 6 and 4 nodes"},
    },
    "C20": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; a fresh tokenizer or parse context is the oracle, itself decided in C01-C03 and C18",
        "configs": [{"name": "plain", "std": "gnu++17"}, {"name": "asan-ubsan", "std": "gnu++17", "san": True, "thorough_only": True}],
        "rule": "one execution = one history of inputs and stopping points followed by one document; non-trivial = the history has at least one token; state = distinct result",
        "bounds": {"quick": "all histories of two inputs of up to 4-6 symbols stopped at every token, triples on a grid, every scope position of all trees of up to 5 nodes, stored tokens of all texts of up to 7 symbols; large things to 2050, depths and sizes about 65536, 300 reuses",
                   "thorough": "one symbol or node more, denser grid, address sanitizer"},
    },
    "C21": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; the place of an error is computed from the text by the reference reader in lib/ref_tok.h",
        "configs": [{"name": "plain", "std": "gnu++17"}, {"name": "asan-ubsan", "std": "gnu++17", "san": True}],
        "rule": "one execution = one malformed text, one context setting and one partition; non-trivial = the report has two or more lines; state = distinct report",
        "bounds": {"quick": "all malformed texts of up to 5-6 symbols over three alphabets x context settings x partitions; lines of 0..90 bytes with the error at every column; 300 lines; sanitizers",
                   "thorough": "one symbol more, lines to 300 bytes"},
    },
    "C22": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; trusts the reference binding in lib/model.h",
        "configs": parts(4, flags=["-DPARTS=4"]),
        "rule": "one execution = one document and prior content for one structure of three members; non-trivial = a member is absent or null; state = distinct outcome and value",
        "bounds": {"quick": "all triples of member types from every optional, nullable and pointer type x all combinations of absent, null, value and wrong kind x empty or filled",
                   "thorough": "the same space (it is complete)"},
    },
    "C23": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; released buffers are overwritten and every reference is checked against the buffers still held",
        "configs": [{"name": "plain", "std": "gnu++17"}, {"name": "asan-ubsan", "std": "gnu++17", "san": True, "thorough_only": True}],
        "rule": "one execution = one text, one partition into buffers and one way of handing them over; non-trivial = at least one release before the last token; state = distinct order of releases and tokens",
        "bounds": {"quick": "all texts of up to 5-6 symbols over five alphabets x all partitions x three ways of handing over; lexemes of 0..40 bytes; histories of two cuts; large things to 5000",
                   "thorough": "one symbol more, lexemes to 70, address sanitizer"},
    },
    "C24": {
        "level": "model_checking", "technique": TECH,
        "note": "exhaustive within the bounds; the model is the list of declared names",
        "configs": [{"name": "plain", "std": "gnu++17", "if_it_compiles": ["-DINTERNALS"]},
                    {"name": "asan-ubsan", "std": "gnu++17", "san": True, "if_it_compiles": ["-DINTERNALS"]}],
        "rule": "one execution = one text read as one enum, or one enumerator written; non-trivial = the text is near a declared name; state = distinct outcome",
        "bounds": {"quick": "enums of 1..301 enumerators in every layout of the declaration; all texts of up to 6 symbols over the letters of their names; all prefixes, extensions and single edits of every name; all numbers around the range; lengths to 5000; sanitizers",
                   "thorough": "texts of 7 symbols"},
    },
}
