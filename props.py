"""Which harnesses decide which property, and within what bounds."""

ASSUME = [
    "encoded: the optimised (opt-level 1, overflow checks and debug assertions on) LLVM IR of the yason crate together with its dependencies and the Rust standard library, x86-64; rustc's own translation is trusted",
    "allocation never fails; memory is freshly poisoned, aligned exactly as requested, and every access is checked for bounds, liveness, alignment and initialisation",
    "symx (the symbolic executor) and Z3 4.8.12 are trusted; every counterexample is replayed on the natively compiled crate before it is reported, and passing paths are sampled and compared with it",
    "documents come from the crate's own builders or JSON reader (malformed bytes are outside the API contract); object keys within one object are distinct",
]


def H(*names, **kw):
    return {"H_" + n: dict(kw) for n in names}


# instructions (in millions) after which a path is suspected not to end: quick, thorough
STEPS = {"": (100, 3000), "H_json_over": (400, 4000), "H_serde_wide": (250, 4000), "H_json_wide": (200, 4000)}


PROPS = {
    "P01": {
        "harnesses": {**H("room_str"), **H("str_any", "str_ascii", "str_bound", "str_huge", "str_refuse")},
        "kani": ["string_fits", "string_too_long"],
        "bounds": "content: every Unicode string of up to 2 characters (3 thorough) and every ASCII string of up to 8 bytes, as scalar, array element, object value and through parsing; lengths: 0..130, both sides of every change of the length prefix up to 2097152 and seven lengths up to 268435455 with symbolic first and last byte, and (Kani, length fully symbolic) every length up to 268435455 round-trips with an arbitrary byte compared, every length from 268435456 to 2^30 is refused; strings pushed at every fill of the buffer from 0 to 149 (299 thorough) bytes, fresh or with 0, 24 or 200 bytes of capacity",
        "assume": ["Kani harnesses: allocation of the symbolic length succeeds, content of the string is nondeterministic bytes taken as UTF-8"],
    },
    "P02": {
        "harnesses": {**H("room_num"), **H("num_all", covers=[0, 1, 2, 3, 4]), **H("num_int")},
        "bounds": "all 128-bit coefficients below 10^38, every scale class and both signs (see num_all), and all i64/u64 integers; as scalar, array element and object value; numbers pushed at every fill of the buffer from 0 to 149 (299 thorough) bytes",
    },
    "P03": {
        "harnesses": {**H("lookup_huge"), **H("lookup_gaps", "lookup_mixed", covers=[0, 1, 2]), **H("lookup3", "lookup4", "lookup_n", "lookup_utf8", "lookup_many", covers=[0, 1, 2]), **H("lookup_sorted", "lookup_long", "lookup_far", "lookup_count"), **H("lookup_lens", covers=[0, 1, 2])}, "bounds": "objects of 0..4 keys of 0..2 symbolic bytes in every insertion order and a symbolic probe key; larger objects (up to 300 keys) with one symbolic probe; keys up to 65535 bytes; values of every type before and after; every division of 2..9 (14 thorough) keys into three lengths; keys of any UTF-8 content of up to 3 bytes; values beyond 2^24; objects of 33 sizes from 4 to 1000 members (24 to 513 quick) and any probe of 3 bytes (1 to 3 for keys of two lengths); objects of 16385 and 20000 (65535 thorough) members at positions around every power of two",
    },
    "P04": {"harnesses": {**H("iter_huge", "iter_adapt"), **H("iter_many", "iter_among"), **H("iter_keys", "iter_values"), **H("iter_wide", "iter_long")}, "bounds": "objects of up to 4 entries (5 thorough) with symbolic keys of 0..2 bytes and symbolic scalar or small container values; keys of any UTF-8 content of up to 3 bytes, keys of up to 65535 bytes between short ones, values beyond 2^24; objects of up to 1000 (513 quick) members of all types in three push orders; one key of up to 3 arbitrary bytes among up to 16; objects of 16385 (65535 thorough) members; nth, count, last, skip, step_by, take, fold, position, collect and size_hint from every position of objects of up to 4 (7 thorough) members"},
    "P05": {"harnesses": {**H("array_huge", "array_adapt"), **H("array_any", covers=[0, 1, 2]), **H("array_mix", "array_big", "array_far"), **H("array_index", covers=[0, 1, 2])}, "bounds": "arrays of up to 3 elements of any type with symbolic content, symbolic 64-bit index, and arrays up to 65535 elements / offsets beyond 2^16 at chosen positions; arrays of 24 sizes up to 129 and up to 1000 elements, any 64-bit index for sizes up to 300; arrays of 16385 and 32769 (65535 thorough) elements; nth, count, last, skip, step_by, take, fold, position, collect and size_hint from every position of arrays of up to 4 (7 thorough) elements"},
    "P06": {"harnesses": {**H("room_any"), **H("nest_tree", "nest_chain", "nest_grow"), **H("nest_far", "nest_rich")}, "bounds": "trees of depth 2 (3 thorough), chains of depth 4 (6 thorough) with siblings before and after at every level, buffers growing at every level; nested containers of more than 2^16 and 2^24 bytes with siblings on both sides; every kind and position of an inner container with 7 contents; values of every type pushed at every fill of the buffer from 0 to 149 (299 thorough) bytes"},
    "P07": {"harnesses": {**H("count_big", covers=[0, 1, 2]), **H("arr_owned", "obj_owned", "arr_ref", "obj_ref", "key_limit", covers=[0, 1, 2]), **H("refuse_long")}, "bounds": "every sequence of up to 4 (5 thorough) builder operations over up to 3 nesting levels, declared counts 0..3, children finished, dropped or left incomplete; keys of 65534..65537 bytes; strings of 2^28 bytes refused before, between and after other pushes in every builder; declared counts up to 65535 with one push less, as many and one more"},
    "P08": {"harnesses": {**H("deep_ref", "deep_siblings", "deep_use"), **H("deep_owned", "deep_json", covers=[0, 1, 2])}, "bounds": "chains of arrays and objects of every depth 1..104 (JSON text 1..140) in every pattern of period 3, with and without finished siblings before or after at every level, with an empty or non-empty innermost container, up to 300 finished siblings"},
    "P09": {"harnesses": {**H("typed_spread", covers=[0, 1, 2, 3, 4, 5, 6]), **H("typed_doc", "typed_arr", covers=[0, 1, 2, 3, 4, 5, 6]), **H("typed_obj", covers=[0, 1, 2, 3, 4, 5, 6, 7]), **H("typed_byte", covers=[0, 1, 2])}, "bounds": "every typed accessor on every value type with symbolic content, on documents, array elements and object members; every type byte; every accessor next to and on an arbitrary value among up to 300 elements or members of all types"},
    "P10": {"harnesses": {**H("room_any"), **H("layout_tree", "layout_flat", "layout_sizes", "layout_counts"), **H("layout_rich")}, "bounds": "trees of depth 2 (3 thorough), flat containers of up to 3 (4) elements with symbolic keys and content, payloads around every varint boundary, counts up to 65535; payloads beyond 2^24; values of every type pushed at every fill of the buffer from 0 to 149 (299 thorough) bytes"},
    "P11": {"harnesses": {**H("append_scalar", "append_tree", "append_json", "append_value"), **H("append_far", "append_rich", "append_len")}, "bounds": "destination vectors of 0..3 symbolic bytes at several capacities, documents of depth 1; destinations holding more than 2^16 and 2^24 bytes; strings at every size of the length prefix"},
    "P12": {"harnesses": {**H("eq_huge", covers=[0, 1, 2]), **H("eq_pos", "eq_many", "eq_count", "eq_digits", covers=[0, 1, 2]), **H("eq_any", "eq_shape", "eq_order", "eq_keys", "eq_num", "eq_num_in", "eq_len", covers=[0, 1, 2]), **H("eq_nested"), **H("eq_rich", "eq_more", covers=[0, 1, 2])}, "bounds": "pairs of documents of depth 1 with symbolic content, pairs of numbers with 8-bit coefficients over scales -2..3, every insertion order of 3 keys; nested documents and the same with any one leaf replaced, or with a member added, removed, replaced or renamed; strings and keys of 46 lengths up to 65535 differing in one byte at 13 places; up to 300 members with one replaced or one more; 16-bit coefficients times powers of ten; arrays and objects of 16385 (65535 thorough) entries with one replaced or one less"},
    "P13": {"harnesses": {**H("compact_huge"), **H("compact_tight", covers=[0, 1]), **H("compact_placed", "compact_pairs", "compact_crowd"), **H("compact_str", "compact_shape", "compact_chain", "compact_num"), **H("compact_rich", "compact_long")}, "bounds": "strings with up to 2 arbitrary ASCII bytes or any single Unicode character in several positions, as value and as key; every document shape of depth 2 and fan-out 2, chains of depth 3 (4); 16-bit integers, 8-bit coefficients over scales -3..5, extreme numbers; strings of up to 300 characters with an escape and an arbitrary byte at the end, containers of up to 300 members; any ASCII byte at 13 places of strings and keys of 43 lengths; containers of up to 300 members holding containers; strings of 65536 bytes, keys and arrays of 16385 (65535 thorough) bytes or elements, objects of 1100 members; writers that fail after any number of bytes of a short text"},
    "P14": {"harnesses": {**H("pretty_huge"), **H("pretty_tight", covers=[0, 1]), **H("pretty_placed", "pretty_crowd"), **H("pretty_str", "pretty_shape", "pretty_chain", "pretty_num", "pretty_deep"), **H("pretty_rich", "pretty_long")}, "bounds": "as compact formatting; indentation up to 100 levels; any ASCII byte at 13 places of strings and keys of 43 lengths; containers of up to 300 members holding containers; strings of 65536 bytes, keys and arrays of 16385 (65535 thorough) bytes or elements, objects of 1100 members; writers that fail after any number of bytes of a short text"},
    "P15": {
        "harnesses": {**H("parse_long", "parse_many", covers=[0, 1]), **H("parse_lead", "parse_free", "parse_sub", "parse_name", "parse_func", "parse_quote", "parse_utf8", "parse_edit", covers=[0, 1]), **H("parse_index", covers=[0, 1])},
        "bounds": "texts made of a prefix out of 38 covering every parser state and up to 5 (7 thorough) arbitrary ASCII bytes, every one-byte insertion, replacement and deletion in four expressions of 25 to 33 bytes, any character beyond ASCII at 30 places, indices of up to 20 digits with the last 3 arbitrary; accepted expressions are also evaluated on one document; names of up to 300 bytes, lists of up to 33 subscripts, up to 40 steps and whitespace of up to 64 characters with one arbitrary byte in them; lists of 40000 (100000 thorough) subscripts",
    },
    "P16": {
        "harnesses": {**H("sub_huge", covers=[0, 1, 2]), **H("sub_big", "sub_among", covers=[0, 1, 2]), **H("sub_one", "sub_list", "sub_nested", "sub_long", covers=[0, 1, 2])},
        "bounds": "arrays of 0..4 and 9..12 elements and every non-array; indices of one and two arbitrary digits, last minus one or two arbitrary digits, ranges of all four kinds, lists of two and three subscripts, the largest indices 2147483646 and 2147483647; two consecutive subscript steps; arrays of 99 to 257 elements with any index below 300; arrays among other values; arrays of 16385 and 65535 elements with indices around every power of two up to 2147483647",
    },
    "P17": {
        "harnesses": {**H("steps_huge"), **H("steps_deep", "steps_crowd", covers=[0, 1, 2]), **H("steps_shape", "steps_chain", "steps_keys", "steps_names", covers=[0, 1, 2]), **H("steps_quoted", "steps_many", covers=[0, 1]), **H("steps_rich", covers=[0, 1, 2])}, "bounds": "expressions of up to 2 (3 thorough) steps with arbitrary one-byte names and digits over every document of depth 2 and fan-out 2 with arbitrary one-byte keys and leaves, 3 steps over every chain of depth 4 (5); names of two arbitrary characters against keys that share bytes; any character beyond ASCII in names; 110 expressions over nested documents; 50 expressions over documents of depth 5 and 8 (12 thorough) with an arbitrary key at any level; 13 expressions over containers of up to 300 members; objects and arrays of 16385 (65535 thorough) entries with one arbitrary value among them; 20000 (60000 thorough) array steps in a row on values that are not arrays",
    },
    "P18": {
        "harnesses": {**H("exists_huge", covers=[0, 1]), **H("exists_deep", "exists_crowd", covers=[0, 1]), **H("exists_shape", "exists_chain", "exists_sub", "exists_keys", covers=[0, 1]), **H("exists_method", covers=[2]), **H("exists_rich", "exists_after", "exists_members", covers=[0, 1])}, "bounds": "as for key steps and subscripts: expressions of up to 2 (3) steps over every document of depth 2 and fan-out 2, 3 steps over chains of depth 4 (5), symbolic names, keys, positions and subscripts; the three item methods; subscripts and steps followed by further steps over every order of matching and other elements; 50 expressions over documents of depth 5 and 8 (12 thorough); 13 expressions over containers of up to 300 members; arrays of 16385 (65535 thorough) elements with indices around every power of two",
    },
    "P19": {
        "harnesses": {**H("forms_over", covers=[0, 1, 2]), **H("forms_far"), **H("forms_many", covers=[0, 3, 4, 5]), **H("forms_two", covers=[0, 1, 2, 3, 4, 5, 6]), **H("forms_method", covers=[0, 3, 4, 5, 6]), **H("forms_reuse"), **H("forms_rich", covers=[0, 1, 2, 3, 4, 5, 6])}, "bounds": "0, 1 and 2 selected values of every type with symbolic content, with and without wrapper, query buffer (empty or holding values), result buffer (empty or holding arbitrary bytes), compact and pretty; two consecutive queries on the same buffers; up to 9 values and nested containers as results; up to 300 results, results beyond 2^16 bytes, results at the nesting limit; one result of each type among them; 65535 to 70000 results",
    },
    "P20": {
        "harnesses": {**H("method_big"), **H("method_crowd", covers=[0, 1, 2]), **H("method_shape", "method_sub", "method_type", covers=[0, 1, 2]), **H("method_len", covers=[1, 2]), **H("method_rich", covers=[0, 1, 2])}, "bounds": "each method behind up to 2 (3) steps over every document of depth 2 and fan-out 2, behind symbolic subscripts, on values of every type, and on arrays of up to 300 elements; 110 expressions with each method over nested documents; containers of up to 300 members; arrays of up to 65535 elements",
    },
    "P21": {
        "harnesses": {**H("json_fixed", first=True), **H("json_over", covers=[1]), **H("json_wide"), **H("json_value"), **H("json_free", "json_edit", "json_str", "json_inner", covers=[0, 1]), **H("json_num", "json_long", covers=[0, 1, 2]), **H("json_range", covers=[0, 2]), **H("json_digits", "json_round", "json_dup", "json_magic"), **H("json_count", covers=[0, 1]), **H("json_rich", "json_keys", "json_big")}, "bounds": "every ASCII text of up to 4 bytes (5 thorough), up to 3 (4) arbitrary bytes inside containers and strings, every one-byte edit of four texts, number texts of up to 4 (5) bytes, 53 numbers that machine numbers would change, at four places; numbers of 38..40 digits and around the magnitude limits, number texts up to 1100 characters, escapes with arbitrary digits, three members with arbitrary keys, arrays of 65535..65537 elements; nested documents with arbitrary keys of up to 3 bytes, strings and keys of up to 70000 bytes; JSON values built in memory; arrays and objects of up to 16385 (65535 thorough) entries in text; objects of 65536 and 65537 members are refused",
        "assume": ["numbers are rounded half up to 38 significant digits, magnitudes of 1e126 and more are refused, below 1e-130 become zero (documented by the crate's tests)"],
    },
    "P22": {
        "harnesses": {**H("serde_wide", "serde_ways"), **H("serde_scalar", "serde_shape", "serde_tree", "serde_within", "serde_magic"), **H("serde_bad", covers=[0, 1]), **H("serde_rich", "serde_big")}, "bounds": "scalars of every type with symbolic content, containers of up to 2 (3) elements and nesting 4 with symbolic keys and content, through serde_json (string, value) and bincode (slice, reader), alone and inside a vector; documents of up to 70000 bytes in the binary form; arrays and objects of up to 16385 (65535 thorough) entries",
    },
    "P23": {"harnesses": {**H("copies", "rebuild"), **H("copies_rich", "copies_big", "rebuild_rich", "rebuild_behind")}, "bounds": "documents of depth 1 with symbolic content; values of every type; nested documents, documents beyond 2^24 bytes; values of every kind written behind 14 lengths of up to 2^24+3 bytes"},
    "P24": {"harnesses": {**H("oom_scalar", "oom_build", "oom_wide", covers=[0, 1]), **H("oom_copy", "oom_path", covers=[0, 1, 2]), **H("oom_many", covers=[0, 1, 2, 3])},
        "bounds": "documents of up to 4 entries and depth 4 and containers of up to 300, in an owning builder or behind 700 bytes; every request of 500 bytes and more refused, and all after it, from any one operation of the build on, then granted; copies, extracted values, parsing of 8 expressions and their queries with the first to fifth large request refused; up to 300 results, steps and subscripts",
        "assume": ["requests below 500 bytes are granted; reading JSON text, serde and the standard Clone are not covered: they allocate through the standard library, which aborts"],
    },
    "P25": {"harnesses": {**H("fail_write", "fail_rich", covers=[0, 1])}, "bounds": "documents of depth 2 with symbolic content and a nested one with every kind of value, compact and pretty, alone and as query results; a writer that fails from any of its first 14 (30 thorough) calls on"},
}
