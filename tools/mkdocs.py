#!/usr/bin/env python3
"""Writes properties.jsonl, rules.json and MANIFEST.json from one table (so that they stay in step)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "bondrewd-derive/src/"
INTO, FROM, COMMON, PARSE, LIB = D + "structs/into_bytes.rs", D + "structs/from_bytes.rs", D + "structs/common.rs", \
    D + "structs/parse.rs", D + "lib.rs"
FNS = D + "structs/struct_fns.rs"
EP, EF, EI, EE = D + "enums/parse.rs", D + "enums/from_bytes.rs", D + "enums/into_bytes.rs", D + "enums/partial_eq.rs"
TRAIT, ERR = "bondrewd/src/lib.rs", "bondrewd/src/error.rs"

TESTS = "The existing tests fix a few dozen declarations and check a value or two of each; "
MODEL = ("Populations are generated from VERIF_SEED: decks of (type, bit length, bit offset modulo 8, byte order) packed "
         "into structures, and random declarations. Each type is compiled with the derive macro of /repo and driven with "
         "boundary, all-ones, single-bit and random inputs; every call of generated code is one observation, judged "
         "against an independent bit-position model. ")
TRUST = ["the bit-position model in bwv/model.py and rt/src/model.rs states the documented layout",
         "rustc and the pinned toolchain are correct", "what was not generated was not observed"]

P = []


def prop(id, title, statement, over, text, why, files, mech, rule, note, technique="runtime monitoring: generated programs, online reference-model monitor",
         assume=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=TESTS + why, files=files, mech=mech,
                  rule=rule, note=note, technique=technique, assume=list(assume)))


prop("C01", "Encoding then decoding returns every value that fits its bits",
     "For any structure or enum with derived bit fields, converting a value whose parts fit their declared bits into bytes and back yields the same value. The conversion is deterministic, and bits which belong to no field have no influence on the decoded value.",
     ["programs", "inputs"], "every valid declaration (types, lengths, orders, modes, nesting) and every value that fits",
     "they never vary lengths and offsets systematically, nor values over their range.",
     [INTO, FROM, COMMON], [("encoding of one field", INTO), ("decoding of one field", FROM), ("field ranges", COMMON)],
     MODEL + "Non-trivial: the value is not all zero; distinct by type and encoded bytes.",
     "Round trips of fitting values over decks and random types; held on what was observed.")
prop("C02", "Bits land where the declaration puts them, for both byte orders",
     "Fields occupy consecutive bits from the most significant bit of the first byte, in declaration order; big-endian numbers are stored most significant bit first and little-endian numbers least significant byte first, with the last partial byte holding the remaining high bits. All bits of the output which belong to no field are zero.",
     ["programs", "inputs"], "every primitive type, bit length and bit offset, for both byte orders, alone and among other fields",
     "the byte-level code differs for every length and offset, of which the tests touch a handful.",
     [INTO, FROM, COMMON], [("byte order and shifts on write", INTO), ("byte order and shifts on read", FROM)],
     MODEL + "All combinations of u8..u64, i8..i64, length, offset modulo 8 and byte order occur in every run; 128-bit numbers, characters, floats and arrays are sampled. Non-trivial: non-zero bytes; distinct by type and bytes.",
     "Exhaustive over (type up to 64 bits, length, offset, byte order), sampled over values and neighbours.")
prop("C03", "Reversed, lsb0, explicit and out-of-order positions are honoured",
     "Reading from the least significant end, reversing the byte order of the whole buffer, explicit bit ranges and fields declared out of order place each bit exactly where the documentation says, alone and in combination. This holds for structures and for enums, including the id of the enum.",
     ["programs", "inputs"], "every combination of reverse, read_from, bits and declaration order with any field types",
     "position modifiers are tested one at a time on one layout each.",
     [INTO, FROM, COMMON], [("flipping of positions", COMMON), ("reversed byte indexes", INTO), ("reversed byte indexes", FROM)],
     MODEL + "Non-trivial: non-zero bytes; distinct by type and bytes.",
     "Decks in the three modified modes plus random explicit and shuffled positions.")
prop("C04", "Field reads look at their own bits and agree with full decoding",
     "Reading one field out of any buffer yields exactly the value held by that field's bits, whatever the other bits are. It equals the value of that field when the whole buffer is decoded.",
     ["programs", "inputs"], "every field of every declaration, and every buffer content",
     "single reads are tested on encodings of one value, not on arbitrary bytes.",
     [FROM, FNS], [("read functions", FROM)],
     MODEL + "Buffers: all zero, all one, every single bit set and cleared, valid encodings, corrupted encodings, noise. Non-trivial: non-zero buffer; distinct by type and buffer.",
     "Every field is read from every walked buffer and compared with the model and with from_bytes.")
prop("C05", "Field writes change only their own bits and read back",
     "Writing one field into any buffer changes no bit outside of that field, leaves none of the field's old bits behind, and reading the field afterwards returns what was written. Writing back a value that was just read changes nothing.",
     ["programs", "inputs"], "every field of every declaration, every previous buffer content and every value",
     "writes are tested into zeroed buffers, where stale and clobbered bits do not show.",
     [INTO, FNS], [("write functions", INTO), ("clearing of old bits", INTO)],
     MODEL + "Backgrounds: zero, one, noise. Non-trivial: the write changes the buffer; distinct by type and resulting buffer.",
     "Every field is written over dirty buffers and the whole buffer compared.")
prop("C06", "Values too large for their bits are truncated and never spill",
     "A value with more significant bits than its field stores exactly its low bits, in full encoding as well as in single writes. No neighbouring field changes, and decoding yields the truncated value.",
     ["programs", "inputs"], "every field shorter than its type and every value of the type",
     "no test encodes a value that exceeds its field.",
     [INTO], [("masks on write", INTO)],
     MODEL + "Non-trivial: the value did exceed its field; distinct by type and bytes.",
     "Over-wide values in every short length and offset, compared bit by bit.")
prop("C07", "Signed fields of any length decode with their sign",
     "A signed number stored in fewer bits than its type decodes to the two's complement value of these bits, for reads of one field and of the whole buffer. Writing it back stores the same bits.",
     ["programs", "inputs"], "every signed type, length, offset, byte order and mode; all stored patterns up to 8 bits, boundary and random patterns above",
     "negative values in short fields are tested for one length.",
     [FROM, INTO], [("sign extension", FROM)],
     MODEL + "Non-trivial: every judged pattern; distinct by type and buffer.",
     "Decks of signed fields in all modes, exhaustive patterns up to 8 bits.")
prop("C08", "Conversions are total and settle after one step",
     "No byte pattern makes decoding or reading a field panic, and no value makes encoding or writing a field panic. Re-encoding what was decoded from arbitrary bytes reaches a fixed point after one step.",
     ["programs", "inputs"], "every buffer content and every value of every declaration",
     "tests decode only what they encoded; invalid characters, ids and over-wide values never occur.",
     [FROM, INTO, EF, EI], [("fallback for invalid characters", FROM), ("catch-all variants", COMMON)],
     MODEL + "Generated code runs with overflow checks, debug assertions and bounds checks as the sanitizer of safe Rust; a panic is a violation. Non-trivial: non-zero input; distinct by type and input.",
     "Arbitrary bytes and values through checked builds; settling is not judged where nested values are cut or fields share bits.",
     technique="runtime monitoring: checked builds on hostile inputs, panics and fixed points observed")
prop("C09", "Enum ids select their variant, all other ids the catch-all",
     "An encoded enum carries the id of its variant (explicit, discriminant or the lowest unused number) in the id bits; decoding selects the variant with that id. Every other id selects the variant marked as catch-all, or the last one, and reading and writing only the id touches only the id bits.",
     ["programs", "inputs"], "every id length from 1 to 128 bits, every numbering, every stored id (all of them up to 10 bits)",
     "a few enums with a handful of ids are tested.",
     [COMMON, INTO, FROM, LIB], [("id assignment", COMMON), ("id reads and writes", LIB)],
     MODEL + "Non-trivial: every judged id; distinct by type and buffer.",
     "All id lengths 1..32 and selected longer ones in every run, all four position modes.")
prop("C10", "Enum payloads, padding, sizes, captured ids and variant accessors",
     "The size of an enum is that of its largest variant; the payload of the selected variant follows the id, and bits beyond it are zero. A captured id holds the id found in the bytes, and accessors of one variant read and write that variant's bits only.",
     ["programs", "inputs"], "every enum declaration, every variant and every payload",
     "variant accessors and padding of unequal variants are tested on one or two enums.",
     [COMMON, INTO, FROM, LIB], [("size of the largest variant", COMMON), ("variant functions", LIB)],
     MODEL + "Non-trivial: non-zero bytes; distinct by type and bytes.",
     "Random enums with unequal variants, captures, per-variant settings.")
prop("C11", "Enums of single bytes convert for all 256 values",
     "A field-less enum derived as a byte converts each of the 256 byte values to the variant with that number, or to its catch-all, and each variant to its number; a catch-all which stores the byte keeps it. This also holds when the enum is a field of fewer than eight bits.",
     ["programs", "inputs"], "every numbering and catch-all form; all 256 values of each",
     "the tests look at four enums.",
     [EP, EF, EI, EE], [("numbering", EP), ("from primitive", EF), ("into primitive", EI)],
     MODEL + "For each enum all 256 byte values and all variants. Non-trivial: every judged value; distinct by type and value.",
     "Exhaustive values over random enums of all catch-all forms.")
prop("C12", "Arrays: element and block lengths for numbers, types and nests",
     "Arrays store their elements in order, each with the given bit length, or as one block whose first element loses the dropped bits. This holds for every element type including floats, characters, booleans, enums and structures, in full conversions and in accessors.",
     ["programs", "inputs"], "every element type, count, form, length, offset, byte order and mode",
     "each form is tested with one or two element types and lengths.",
     [INTO, FROM, PARSE], [("element arrays", INTO), ("block arrays", FROM), ("array lengths", PARSE)],
     MODEL + "Every element is also checked on its own. Non-trivial: non-zero bytes; distinct by type and bytes.",
     "Decks of element and block arrays over types, lengths, offsets and modes.")
prop("C13", "Nested structures and enums keep their own layout at any offset",
     "A structure or enum used as a field occupies its bits as if encoded on its own, moved to the field's position, at any bit offset and nesting depth. Reading or writing it touches nothing after or before it.",
     ["programs", "inputs"], "every nested type, size in bits, offset, mode of inner and outer type, up to three levels",
     "tests nest at one or two offsets.",
     [INTO, FROM], [("nested structures", INTO), ("nested structures", FROM)],
     MODEL + "Non-trivial: non-zero bytes; distinct by type and bytes.",
     "Decks of inner sizes 1..65 bits at every offset in every mode, random nests.")
prop("C14", "Reserved, read-only, redundant and overlapping fields do as told",
     "Reserved fields are neither written nor read by conversions of whole buffers, read-only and redundant fields are read but not written, and overlapping fields share their bits. Their accessors and all other fields behave as for ordinary fields.",
     ["programs", "inputs"], "every placement of such fields in any declaration, and all contents",
     "each attribute appears in one test with one value.",
     [COMMON, INTO, FROM, PARSE], [("reserve and redundant", COMMON), ("overlaps", COMMON)],
     MODEL + "Values of fields which share bits agree there. Non-trivial: non-zero bytes; distinct by type and bytes.",
     "Random placements, whole conversions, accessors and conversions from slices.")
prop("C15", "Declared sizes are exact and fillers stay zero",
     "The size constants equal the bits of the fields rounded up to bytes, or the demanded fill size. Filling adds zero bits at the end which are ignored on reading and moves no field from where the modes put it.",
     ["programs", "inputs"], "every declaration with any total of bits, filler and mode",
     "sizes are compared for a few structures.",
     [COMMON, LIB], [("size constants", LIB), ("filler", COMMON)],
     MODEL + "Non-trivial: non-zero bytes; distinct by type and bytes.",
     "Sizes, unused bits and layouts of filled structures, enums and variants.")
prop("C16", "Size enforcement and accidental overlaps are decided correctly",
     "A declaration which enforces a size compiles exactly when its fields add up to it, with fillers, redundant and overlapping bits counted as documented. Fields which share bits without saying so are rejected, also within enum variants and against the id.",
     ["programs"], "every declaration and enforced size, every placement of two fields",
     "a rejected declaration cannot be part of the test suite, which has none.",
     [COMMON, PARSE], [("enforcement", COMMON), ("overlap check", COMMON)],
     "Random declarations with the right and with wrong enforced sizes, and with one field moved onto another; each compilation is one observation of the macro (code, diagnostic or panic). Accepted ones are run through the layout monitor. Non-trivial: every compiled declaration; distinct by its text without its name, and by bytes for accepted ones.",
     "Acceptance and rejection observed on random declarations around the limit.",
     technique="runtime monitoring of the macro: generated declarations, accept/reject oracle")
prop("C17", "Slice accessors need exactly their bytes and else act the same",
     "Reading or writing a field through a slice succeeds exactly when the slice holds all bytes of that field, and then acts like the fixed-size accessor. Otherwise it reports the sizes and changes nothing.",
     ["programs", "inputs"], "every field, slice length from zero to beyond the buffer, and content",
     "no test uses short slices for more than one structure.",
     [FNS, INTO, FROM], [("slice length checks", FROM), ("slice length checks", INTO)],
     MODEL + "Every slice length from 0 to size + 3. Non-trivial: every judged call; distinct by type and slice.",
     "All lengths for every field in every mode.")
prop("C18", "Checked views check once and then act like the accessors",
     "A view over a slice is created exactly when the slice holds the whole type, and reports the sizes otherwise. Reads and writes through immutable, mutable and unchecked views equal those of the plain accessors and touch nothing else.",
     ["programs", "inputs", "histories"], "every declaration, slice length and content, and sequences of writes through one view",
     "views are tested on one structure.",
     [FNS, LIB], [("views", LIB)],
     MODEL + "Non-trivial: every judged call; distinct by type and slice.",
     "All lengths, all fields, all three kinds of views.")
prop("C19", "Decoding from slices and vectors is exact about lengths",
     "Decoding from a slice or vector that is long enough equals decoding its first bytes; a vector loses exactly these bytes, so repeated decoding walks a stream of packets. Shorter input is refused with both sizes and stays untouched.",
     ["programs", "inputs", "histories"], "every declaration, input length and content, and streams of packets",
     "tests use exact lengths.",
     [LIB, TRAIT, FROM], [("from_slice", FROM), ("from_vec", FROM)],
     MODEL + "Lengths from zero to beyond the size and streams of several packets with a rest. Non-trivial: every judged call; distinct by type and input.",
     "All lengths and random streams over random types.")
prop("C20", "Hex text is the encoding, in both cases, and decodes back",
     "Text made from a value is two digits for each byte of its encoding, most significant digit first, in upper or lower case. Decoding text in any mixture of cases equals decoding the bytes it spells, for fixed, slice and vector input.",
     ["programs", "inputs"], "every declaration, value, byte and case pattern",
     "two values are converted.",
     [TRAIT, LIB], [("hex conversions", TRAIT)],
     MODEL + "All 256 byte values occur. Non-trivial: non-zero bytes for encoding, every text for decoding; distinct by type and text.",
     "Random types up to 300 bytes, with and without dynamic functions.")
prop("C21", "Text that is not hex is refused with the first bad character",
     "Text with a character which is no hex digit is refused and the error names the first such character and its index. Too short text is refused with both lengths, and longer text is judged by its leading part only.",
     ["programs", "inputs"], "every position and byte value, several faults at once, every length",
     "one bad character is tested.",
     [TRAIT, ERR, LIB], [("hex errors", TRAIT)],
     MODEL + "All 256 byte values at random positions, and selected ones at every position. Non-trivial: the text has a fault; distinct by type and text.",
     "Every position of every type with the characters next to the digit ranges.")
prop("C22", "Enums equal exactly their own id",
     "Asking a value for its id gives the id its encoding holds, with the captured id for a catch-all that stores it. Comparing a value with a number is true exactly for that id, whichever optional features are enabled.",
     ["programs", "inputs", "configurations"], "every enum, variant and number (all of them up to 8 bits), with and without optional features",
     "comparison is tested with two features and four values.",
     [LIB, EE], [("comparison", LIB), ("comparison of byte enums", EE), ("id", LIB)],
     MODEL + "Non-trivial: every judged comparison; distinct by type, variant and number.",
     "Enums of all id lengths and byte enums, in two feature sets.")
prop("C23", "Any history of writes through any interface equals a shadow buffer",
     "After any sequence of whole encodings and single writes through fixed, slice, view and id functions, the buffer equals what the writes prescribe bit by bit. Every interface reads the same values out of it.",
     ["programs", "histories"], "every declaration and every sequence of up to 40 operations on one buffer",
     "no test writes more than a couple of fields, through one interface.",
     [INTO, FROM, FNS, LIB], [("write functions", INTO), ("views", LIB), ("slice functions", FNS)],
     MODEL + "Each step is judged against a shadow buffer. Non-trivial: every step; distinct by type and buffer.",
     "Random histories over all interfaces at once.")
prop("C24", "Impossible declarations are refused with a diagnostic",
     "A declaration that cannot be laid out (lengths beyond the type, positions outside of the buffer, ids and numbers that do not fit, contradicting lengths, unknown settings of fields, values of the wrong kind) is rejected at compile time. The rejection is a diagnostic, not a crash of the macro, and declarations right inside of the limits are accepted.",
     ["programs"], "every family of malformed declaration in any surroundings, and its valid neighbour",
     "a rejected declaration cannot be part of the test suite.",
     [COMMON, PARSE, EP], [("field checks", PARSE), ("range checks", COMMON), ("enum checks", COMMON)],
     "Families of malformed declarations and their valid neighbours in random surroundings; each compilation is one observation of the macro (code, diagnostic or panic). Non-trivial: every compiled declaration; distinct by its text without its name.",
     "Acceptance, rejection and macro panics observed on generated declarations.",
     technique="runtime monitoring of the macro: generated declarations, accept/reject/panic oracle")
prop("C25", "Documented declarations compile, as safe code, in every setting",
     "Every declaration built from documented attributes compiles, with any combination of optional features, without the standard library, in every language edition, and next to attributes and derives of others; what is generated for a public type can be used from another crate. The generated code contains no unsafe code.",
     ["programs", "configurations"], "every valid declaration, feature set, edition, visibility and decoration",
     "the tests compile their own few declarations with one feature set.",
     [LIB, COMMON, INTO, FROM, D + "structs/struct_fns.rs", EP], [("generated code", LIB), ("attributes", PARSE)],
     "Random valid declarations compiled with four feature sets, two of them also without std, in the editions 2018, 2021 and 2024, decorated with visibilities, documentation, compiler attributes and derives; each compilation is one observation. The expansion is searched for unsafe. Some are also run through the layout monitor, and some are declared in one crate and used through all generated interfaces from another. Non-trivial: every compiled declaration; distinct by its text without its name, and by bytes for executed ones.",
     "Acceptance observed on generated declarations; dyn_fns needs an allocator and is not tried without std.",
     technique="runtime monitoring of the macro: generated declarations, acceptance and expansion observed")
prop("C26", "Bytes mean the same on every machine",
     "What a declaration generates gives the same results on machines of either byte order, with 32 or 64 bit pointers: encodings, decoded values, single field accessors on arrays, slices and views, ids, hex text, sizes and errors. A declaration that compiles for one machine compiles for the others.",
     ["programs", "inputs", "configurations"], "every valid declaration and input, on big-endian and little-endian machines with 32 and 64 bit pointers",
     "tests run on one machine.",
     [INTO, FROM, FNS, LIB, TRAIT], [("encoding of one field", INTO), ("decoding of one field", FROM), ("slice functions", FNS), ("hex conversions", TRAIT)],
     "Populations are generated from VERIF_SEED. What every call has to give is computed by the independent bit-position model and recorded; Miri then interprets the same generated code as compiled for another machine (quick: powerpc, which is big-endian and has 32 bit pointers; thorough also s390x and i686), makes each of the recorded calls and compares. Non-trivial: input or result are not all zero; distinct by type, call, input and result.",
     "Recorded calls made on interpreted machines; 16 bit machines are not tried, as Miri has no standard library for them.",
     technique="runtime monitoring under Miri: generated code interpreted as another machine, offline comparison with a reference model",
     assume=["Miri interprets machines of another byte order and pointer width faithfully"])

prop("C27", "The same declaration always generates the same code",
     "What the macros generate depends on the declaration and the enabled features alone. It does not depend on the process, the environment, the profile the macro was built with, how often it is used, other declarations compiled before or after, white space, comments, or how settings are grouped into attributes.",
     ["programs", "histories", "configurations"], "every valid declaration, in any order and company, expanded any number of times",
     "each of their declarations is expanded once.",
     [LIB, PARSE, COMMON, EP], [("code generation", LIB), ("attributes", PARSE), ("byte enums", EP)],
     "Random valid declarations are expanded three times: once in a row; and twice, once as they are and once with other white space, comments and grouping of settings, in the opposite order next to other declarations of the same name in other processes with another environment and with a macro that was built without debug assertions and overflow checks. The texts of the generated code are compared. Non-trivial: every declaration; distinct by the generated code.",
     "Expansions observed on generated declarations.",
     technique="runtime monitoring of the macro: repeated expansions in varied surroundings, outputs compared",
     assume=["the printed expansion shows the generated code"])


def main():
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": ["public functions of derived types"], "hook_needed": None}}) + "\n")
    with open(f"{HERE}/rules.json", "w") as f:
        json.dump({p["id"]: {"rule": p["rule"], "assumptions": TRUST + p["assume"]} for p in P}, f, indent=1)
        f.write("\n")
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump({
            "version": 1, "setup_cmd": "python3 tools/setup.py",
            "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}", "technique": p["technique"],
                        "level": "exploration", "level_note": p["note"] + " Held on K executions, not proved."} for p in P],
            "not_applicable": [],
            "notes": "No hooks: everything is observed at the public interface of generated code and at the output of the compiler."},
            f, indent=1)
        f.write("\n")


main()
