#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables here and in props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS

# id, title, statement, over, quantifier, why, files, mechanisms[(name, where)]
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})

p("P01", "A stored string is read back unchanged, or refused when too long",
  "Every string, of any content and any length up to 268435455 bytes, that is written as a document, an array element or an object value is read back byte for byte; every longer string is refused with an error and nothing is stored for it.",
  ["inputs"], "all strings (content and length), all places a string can be stored",
  "tests write a handful of short ASCII strings; the length prefix changes size at 128, 16384, 2097152 and the limit is at 2^28, none of which is reached",
  ["src/util.rs", "src/vec.rs", "src/builder/scalar.rs", "src/builder/array.rs", "src/builder/object.rs", "src/yason/mod.rs"],
  [("variable-length length prefix, encoder and size computation", "src/util.rs, src/vec.rs"), ("length prefix decoder and string reader", "src/yason/mod.rs")])
p("P02", "A stored number is read back with the same value",
  "Every decimal number the number type can represent (sign, up to 38 digits, scale -126..130) is read back numerically equal from a document, an array element and an object value, and reading it never touches bytes outside its own encoding.",
  ["inputs"], "all representable numbers, all places a number can be stored",
  "tests use a few small numbers; the encoding has different lengths by coefficient size and scale",
  ["src/builder/scalar.rs", "src/builder/array.rs", "src/builder/object.rs", "src/yason/mod.rs", "src/vec.rs"],
  [("compact number encoding with a length byte", "src/vec.rs push_number"), ("number reader", "src/yason/mod.rs read_number")])
p("P03", "Object lookup finds exactly the keys that were stored",
  "For every object and every probe key, lookup (value, existence, type and typed access) succeeds exactly when the key was pushed and yields the value pushed under that key, whatever the order of the pushes and whatever other keys the object holds.",
  ["inputs", "histories"], "all sets of distinct keys, all insertion orders, all probe keys",
  "tests look up a few fixed keys in one object; lookup is a binary search over keys ordered by length and bytes, so it depends on every pair of keys and on the position of the probe",
  ["src/yason/object.rs", "src/builder/object.rs"],
  [("binary search over the key offset table", "src/yason/object.rs find_key"), ("sorting of key offsets when the object is finished", "src/builder/object.rs sort_key_offset")])
p("P04", "Iterating an object yields each member once, in key order",
  "Iterating entries, keys or values of an object yields every pushed member exactly once with its own value, ordered by key length and then by key bytes, and reports the number of members; the three iterators agree with each other.",
  ["inputs", "histories"], "all sets of distinct keys, all insertion orders, all values",
  "tests iterate one or two fixed objects; the order depends on all keys and the original insertion order",
  ["src/yason/object.rs", "src/builder/object.rs"],
  [("iterators over the key offset table", "src/yason/object.rs"), ("key ordering", "src/builder/object.rs, src/util.rs cmp_key")])
p("P05", "Array access by index returns the element pushed at that position",
  "For every array and every index, access by index (value and typed) returns the element that was pushed at that position when the index is smaller than the length and an index error otherwise; iteration yields the same elements in order.",
  ["inputs"], "all element sequences of all types, all 64-bit indices",
  "tests read a few positions of one array; inline values (null, bool) and offset values share the element table, so errors depend on neighbours and position",
  ["src/yason/array.rs", "src/builder/array.rs"],
  [("element table with inline values", "src/builder/array.rs"), ("index check and element reader", "src/yason/array.rs")])
p("P06", "Nested documents read back as built at every level",
  "Every tree of arrays, objects and scalars built through nested builders reads back as the same tree, at every level and through every access path (iteration, lookup, index, nested views), no matter what precedes or follows a nested container.",
  ["inputs", "histories"], "all trees up to the nesting limit, all positions of containers among siblings",
  "tests build two or three fixed nestings; offsets of later siblings depend on the encoded size of everything before them",
  ["src/builder/array.rs", "src/builder/object.rs", "src/yason/array.rs", "src/yason/object.rs", "src/yason/mod.rs"],
  [("size and offset patching when a nested builder finishes", "src/builder/*.rs finish"), ("nested views at offsets", "src/yason/*.rs")])
p("P07", "Builders enforce the declared count and refuse incomplete nesting",
  "A builder accepts exactly the declared number of elements and finishes successfully if and only if exactly that many were pushed and every nested builder was itself finished; every refused operation reports an error and leaves the document under construction as if it had not been attempted.",
  ["histories", "inputs"], "all sequences of push, finish and drop operations, including failing ones, over nested builders",
  "tests exercise a few wrong counts; the guarantee is about every interleaving of pushes, refused pushes, dropped and finished nested builders",
  ["src/builder/array.rs", "src/builder/object.rs", "src/builder/mod.rs"],
  [("element count and depth checks before each push and at finish", "src/builder/array.rs, src/builder/object.rs")])
p("P08", "Nesting is accepted to depth 100 and refused beyond, consistently",
  "Documents nested up to 100 containers deep are accepted by every way of building one, and deeper nesting is refused with an error by all of them; what counts is the depth, not the number of containers, and a refusal leaves the builder usable. Accepted documents can be read, compared, formatted and queried.",
  ["inputs", "histories"], "all mixtures of nested arrays and objects, owned and appending builders, JSON input, finished siblings",
  "tests nest one fixed chain; the depth counter is shared between parents, children and siblings and must come back after each of them",
  ["src/builder/mod.rs", "src/builder/array.rs", "src/builder/object.rs", "src/json.rs"],
  [("depth counter shared along the chain of builders", "src/builder/mod.rs Depth"), ("decrement at finish", "src/builder/*.rs")])
p("P09", "Typed access answers by the stored type and never misreads",
  "Asking a document, an array element or an object member for a type returns the stored value if it has that type and a type error naming the expected and the actual type otherwise; type queries agree with it, and an invalid type byte is reported as an error.",
  ["inputs"], "all combinations of requested and stored type, in all positions, with all contents",
  "tests cover a few mismatches; there are separate readers for documents, array elements (with inline values) and object members",
  ["src/yason/mod.rs", "src/yason/array.rs", "src/yason/object.rs", "src/data_type.rs"],
  [("type check before reading", "src/yason/mod.rs check_type, src/yason/array.rs check_type, src/yason/object.rs check_type")])
p("P10", "Encoded bytes follow the documented binary layout exactly",
  "The bytes of every built document are exactly those of the binary layout (type byte, 4-byte sizes, 2-byte counts, sorted key offsets relative to the container, inline null and bool elements, length-prefixed strings and numbers), with no uninitialised or stale byte; the same content always gives the same bytes.",
  ["inputs", "histories"], "all documents and insertion orders",
  "stored documents outlive the code that wrote them, so every byte matters; tests compare round trips, which cannot see a change made consistently on both sides, or bytes that are never read",
  ["src/binary.rs", "src/builder/array.rs", "src/builder/object.rs", "src/builder/scalar.rs", "src/vec.rs", "src/util.rs"],
  [("layout constants", "src/binary.rs"), ("writers", "src/builder/*.rs, src/vec.rs")])
p("P11", "Appending into a caller's buffer keeps what is there",
  "Writing a document into a caller's vector (builders, scalars, JSON text) leaves the bytes already there unchanged, appends exactly the bytes that the owning form of the same call produces, and returns a view of just the appended document, for every prior content, length and capacity; turning a value taken from a document into a document of its own likewise keeps what the vector holds (a scalar is appended, a nested container is returned as the view it already is).",
  ["inputs", "histories"], "all documents, all prior contents and capacities, repeated appends",
  "tests append to an empty vector or one fixed vector; offsets must be relative to the start of the document, which only shows with earlier content",
  ["src/builder/array.rs", "src/builder/object.rs", "src/builder/scalar.rs", "src/json.rs", "src/yason/mod.rs"],
  [("start position remembered by the appending builders", "src/builder/*.rs"), ("parse_to, try_to_yason", "src/json.rs, src/yason/mod.rs")])
p("P12", "Documents are equal exactly when they hold the same JSON value",
  "Two documents compare equal if and only if they denote the same JSON value: same type, numbers equal by value, strings by content, arrays element by element, objects by key and value regardless of insertion order; the comparison is symmetric and agrees for whole documents and nested values.",
  ["inputs"], "all pairs of documents",
  "tests compare a few pairs; the property ranges over pairs, where short cuts on type, size or bytes can be wrong in either direction",
  ["src/yason/mod.rs", "src/yason/array.rs", "src/yason/object.rs"],
  [("structural comparison", "src/yason/mod.rs equals, src/yason/array.rs equals, src/yason/object.rs equals")])
p("P13", "Compact text is valid JSON that denotes the same document",
  "The compact text of every document is a strictly valid JSON text without insignificant whitespace that denotes exactly the document's value, with every character that needs it escaped; both ways of asking for the text produce the same.",
  ["inputs"], "all documents, strings and numbers",
  "tests print a few documents; escaping is a table over all bytes and separators depend on shape",
  ["src/format/mod.rs"],
  [("formatter with escape table", "src/format/mod.rs")])
p("P14", "Pretty text differs from the compact text only by whitespace",
  "The pretty text of every document is valid JSON which becomes the compact text when whitespace outside strings is removed; formatting never fails or panics, whatever the depth and width of the document.",
  ["inputs"], "all documents up to the nesting limit, all widths, query results one level deeper",
  "tests print a few shallow documents; indentation and separators depend on shape, emptiness and depth",
  ["src/format/pretty.rs", "src/format/mod.rs"],
  [("indenting formatter", "src/format/pretty.rs")])
p("P15", "The path grammar is accepted exactly and parsing never panics",
  "Every text is either accepted as a path expression or rejected with an error, never a panic; it is accepted exactly when it follows the documented grammar, and an accepted expression selects what its steps say.",
  ["inputs"], "all texts",
  "tests parse listed good and bad paths; a hand-written parser has states between every two characters",
  ["src/path/parse.rs", "src/path/mod.rs"],
  [("path parser", "src/path/parse.rs")])
p("P16", "Array subscripts select exactly the documented positions",
  "Subscripts (single indices, ranges in either order, last and last minus a number, lists, wildcard) select exactly the documented positions in the order written, for every array length including empty, and apply to a non-array as to a one-element array.",
  ["inputs"], "all subscripts and numbers, all array lengths, non-arrays",
  "tests use a few subscripts on one array; clamping and the boundaries depend on the combination of bounds and length",
  ["src/path/query.rs", "src/path/parse.rs"],
  [("subscript evaluation", "src/path/query.rs")])
p("P17", "Key, wildcard and descendant steps select exactly the matching nodes",
  "A key step selects the member of that name (of every element when applied to an array), a wildcard every member or element, and a descendant step every member of that name at any depth, in document order, for every combination of steps and documents.",
  ["inputs"], "all combinations of steps and document shapes, all key texts",
  "tests query one document with listed paths; the result depends on the combination of step sequence and shape",
  ["src/path/query.rs", "src/path/parse.rs"],
  [("step evaluation", "src/path/query.rs")])
p("P18", "exists is true exactly when the query selects something",
  "For every path expression without an item method and every document, exists answers true if and only if the query selects at least one value; with an item method it is an error.",
  ["inputs"], "all path expressions and documents",
  "there are two separate evaluators, one stopping early; tests compare them on a few examples",
  ["src/path/query.rs", "src/path/mod.rs"],
  [("existence evaluator", "src/path/query.rs exists"), ("query evaluator", "src/path/query.rs")])
p("P19", "Query results are delivered the same in every form",
  "Whatever buffers are supplied and whatever they held before, a query delivers the same selected values in the same order: a single value or none without wrapper, an error for several, all of them with wrapper, and as an encoded array when a result buffer is given; formatting the result prints those values.",
  ["inputs", "histories"], "all selections of 0 to several values, both wrapper settings, all buffer combinations and prior contents",
  "tests use fresh buffers and few combinations; reuse of a buffer from an earlier query is a history",
  ["src/path/mod.rs", "src/path/query.rs"],
  [("query entry point and buffers", "src/path/mod.rs")])
p("P20", "Item methods report count, size and type of what was selected",
  "count reports the number of selected values, size the length of each selected array and 1 for anything else, type the type name of each selected value; they need the wrapper and deliver their results in selection order.",
  ["inputs"], "all selections and documents",
  "tests call each method on one or two documents",
  ["src/path/query.rs", "src/path/mod.rs", "src/path/parse.rs"],
  [("item method evaluation", "src/path/query.rs")])
p("P21", "JSON import accepts exactly valid JSON and preserves its value",
  "Every text is either imported, and then the document denotes exactly the value of the JSON text, or rejected with an error and without a panic; valid JSON within the documented limits is always imported, invalid JSON never is.",
  ["inputs"], "all texts",
  "tests import a few valid texts; the import passes through a general JSON value and re-encodes it, with limits on counts, depth and number range",
  ["src/json.rs", "src/builder/array.rs", "src/builder/object.rs"],
  [("conversion from JSON values", "src/json.rs")])
p("P22", "Serialisation through serde is lossless",
  "Serialising any document through serde and deserialising it gives an equal document, in human-readable formats as JSON of the same value and in binary formats as the same bytes.",
  ["inputs"], "all documents, human-readable and binary formats",
  "tests round-trip one or two documents",
  ["src/serde.rs"],
  [("serde implementations", "src/serde.rs")])
p("P23", "Copies and re-encoded values equal their source",
  "Copying a document, cloning into an existing buffer, converting an element or member back into a document, and rebuilding a document from its parts give documents equal to the source and independent of it, whatever the destination held before.",
  ["inputs", "histories"], "all documents, all values, all prior destination contents",
  "tests copy one document; re-encoding has a separate branch per type",
  ["src/yason/mod.rs"],
  [("copies", "src/yason/mod.rs to_yason_buf, clone_from_yason, try_to_yason")])
p("P24", "Running out of memory is reported and leaves documents intact",
  "When memory for a document being built, a copy, a parsed path or a query result cannot be obtained, the operation returns its out-of-memory error instead of aborting or panicking; the caller's vector keeps what it held and no part of a refused value is counted or read, and a builder that refused a value for this reason still accepts the same value later and finishes into the intended document.",
  ["inputs", "faults"], "every operation, every allocation of it refused",
  "tests never let an allocation fail; each operation has many places where memory may run out, and the state left behind differs at each",
  ["src/builder/array.rs", "src/builder/object.rs", "src/builder/scalar.rs", "src/vec.rs", "src/path/parse.rs", "src/path/mod.rs", "src/yason/mod.rs"],
  [("oom_build", "src/builder push_*, try_reserve on every push"), ("oom_copy", "src/yason/mod.rs try_to_yason and copies"), ("oom_path", "src/path/parse.rs and mod.rs try_push")])
p("P25", "Formatting reports a failing writer",
  "When the writer that a document is formatted into fails, formatting returns that failure, writes nothing more, and what was written before is a prefix of the full text; when the writer does not fail, formatting succeeds and the whole text was written.",
  ["inputs", "faults"], "all documents, a writer failing at any call",
  "tests format into buffers that never fail; an error dropped in one branch silently truncates the text",
  ["src/format/mod.rs", "src/format/pretty.rs", "src/path/query.rs"],
  [("fail_write", "src/format/*.rs, every write")])

SYM = "symbolic execution of the compiled crate (symx, Z3), counterexamples replayed natively"
NOTE = ("Decided by SMT over all inputs within the stated bounds (evidence lists them with the functions encoded); every path inside the bounds is explored or the check reports an error. "
        "Trusts rustc's IR, symx and Z3; nothing is claimed outside the bounds.")
NA = {}

def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
    for x in P:
        i = x["id"]
        if i in PROPS:
            m["checks"].append({
                "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                "technique": SYM + (" and Kani/CBMC" if PROPS[i].get("kani") else ""), "level": "model_checking",
                "level_note": "Bounds: " + PROPS[i]["bounds"] + ". " + NOTE})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
    json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)

main()
