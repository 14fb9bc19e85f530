"""The catalogue of properties; `python3 gen.py` writes properties.jsonl and
MANIFEST.json from it."""

BFS = ("explicit-state model checking of the real code: breadth-first "
       "exploration of all operation histories to a fixpoint, in lock-step "
       "with a reference model")
ENUM = ("bounded exhaustive enumeration of executions of the real code against "
        "a reference model")

SCHED = ("stateless model checking of the real code: all thread interleavings "
         "up to a preemption bound under a controlled scheduler")

HIST_FILES = ["src/rw.cxx", "src/gear.cxx", "src/ro.cxx", "src/scan_AVX2.cxx",
              "fast_positive/tuples/details/rw.h",
              "fast_positive/tuples/details/meta.h",
              "fast_positive/tuples/details/getter.h"]


def anchors(files, mech, observe=(), state=()):
    return {"files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "state": [{"name": n, "meaning": m, "where": w}
                      for n, m, w in state],
            "hook_needed": None}


CATALOG = [
    dict(
        id="P01", title="Every history of tuple updates reads back as a simple map of fields",
        statement="After any sequence of setting, inserting, updating, "
        "erasing, resetting, sorting, optimizing and compacting operations on "
        "a writable tuple, every field that the sequence left present reads "
        "back with exactly the last value written, collections hold exactly "
        "the items inserted and not erased, and everything else reads as "
        "absent. No operation ever changes the value or the presence of a "
        "field it was not asked to change.",
        over=["histories", "inputs", "configurations"],
        text="for all schemas, field kinds (loose, collection, preplaced), "
        "values and operation sequences",
        why="Tests run a few fixed or random sequences; defects of the "
        "allocator of field payloads need particular combinations of holes, "
        "sizes and index positions (several were found here, e.g. a partially "
        "reused hole).",
        anchors=anchors(HIST_FILES,
                        [("realloc_data/release_data/append_field", "src/gear.cxx"),
                         ("set_*/insert_*/erase*", "src/rw.cxx"),
                         ("collect and find", "src/scan_*.cxx, src/gear.cxx")],
                        ["tuple_rw_fixed getters", "tuple_ro_weak getters"]),
        technique=BFS,
        note="Exhaustive within the listed configurations (15 of them, "
        "fixpoint of states); a state is the raw bytes of the tuple and the "
        "content of the model, hashed to 128 bits. Run on a build with "
        "AddressSanitizer, so a memory error on any explored transition is a "
        "violation too."),
    dict(
        id="P02", title="No payload space is ever lost, and compaction recovers all of it",
        statement="At every moment of any history the space of a writable "
        "tuple is fully accounted for: occupied data, reusable junk and free "
        "tail together equal the capacity the tuple was created with, and no "
        "two fields share space. An update that fits into the space the tuple "
        "reports as available after compacting never fails for lack of space, "
        "and compacting leaves no junk while preserving all the content.",
        over=["histories", "configurations"],
        text="for all histories of updates that create, split, merge and "
        "reuse holes",
        why="Leaks of a unit or a slot per particular update pattern are "
        "invisible until a tuple unexpectedly overflows; tests never exhaust "
        "a tuple through such a pattern.",
        anchors=anchors(HIST_FILES,
                        [("holes list, junk_ counters", "src/gear.cxx"),
                         ("compactify()", "src/rw.cxx, src/gear.cxx")],
                        ["tuple_rw::loose_count/space/junk accounting",
                         "serialized size after optimize()"]),
        technique=BFS,
        note="Same exploration as P01 with the accounting invariants checked "
        "in every state and refusals compared with what the model says must "
        "fit."),
    dict(
        id="P03", title="A refused or failed tuple operation changes nothing",
        statement="Whenever an operation on a writable tuple throws (no "
        "space, no index slots, wrong type, missing field, too long value, "
        "out of range), all fields, collections, sizes and reported free space "
        "are the same as before the call, and all further operations behave as "
        "if the failed call had never been made.",
        over=["histories", "inputs"],
        text="for all states reachable by any history and all operations that "
        "are refused in that state",
        why="A test checks that an error is raised in one state; the partial "
        "effects of an error depend on the state in which it happens.",
        anchors=anchors(HIST_FILES,
                        [("strong exception guarantee of realloc_data, "
                          "append_field, release_data", "src/gear.cxx")],
                        ["byte image and getters around each refused call"]),
        technique=BFS,
        note="Every refused transition of the exploration is compared with the "
        "logical content and the accounting before it."),
    dict(
        id="P04", title="A serialized tuple carries the whole content to any address",
        statement="At any moment of any history the serialized form of a "
        "writable tuple is accepted by the validator, holds exactly the "
        "fields of the tuple with the same values, and gives the same answers "
        "when copied to any other properly aligned address. A writable tuple "
        "re-created from the serialized form has the same content and "
        "serializes again to a form with the same content.",
        over=["histories", "inputs"],
        text="for all states reachable by any history, sorted or not, with "
        "holes or compacted",
        why="Tests serialize a few hand-made tuples; defects hide in states "
        "with holes, sorted index or empty preplaced fields.",
        anchors=anchors(HIST_FILES + ["src/audit.cxx"],
                        [("take_weak/take_weak_asis, optimize", "src/rw.cxx"),
                         ("fetch constructor of tuple_rw_fixed", "src/rw.cxx"),
                         ("tuple audit", "src/audit.cxx")],
                        ["fptu::check, tuple_ro_weak getters, re-created "
                         "tuple_rw_fixed"]),
        technique=BFS,
        note="In every explored state the image is serialized as is and "
        "optimized, moved, validated, re-read and re-opened for writing."),
    dict(
        id="P05", title="Validating untrusted bytes is safe, and what is accepted is safe to use",
        statement="For any sequence of bytes offered as a serialized tuple, "
        "validation reads nothing outside of these bytes and terminates with a "
        "verdict. If the tuple is accepted then reading every field, iterating, "
        "making a writable copy, and then updating, inserting, erasing and "
        "compacting in that copy touch only the tuple's own memory, yield "
        "exactly the values encoded in the bytes, and produce tuples that are "
        "accepted again.",
        over=["inputs", "histories"],
        text="for all byte images up to a size, with and without a schema, "
        "whether produced by the library or by an adversary",
        why="Tests validate images the library made itself; malformed lengths, "
        "offsets and overlaps form a combinatorial space.",
        anchors=anchors(["src/audit.cxx", "src/ro.cxx", "src/rw.cxx",
                         "src/gear.cxx",
                         "fast_positive/tuples/details/field.h",
                         "fast_positive/tuples/details/ro.h"],
                        [("tuple_ro::audit, audit_tuple, lite_checkup",
                          "src/audit.cxx"),
                         ("create_from_ro", "src/rw.cxx")],
                        ["tuple_ro_weak::validate, constructors from a buffer, "
                         "tuple_rw_fixed made of accepted bytes"]),
        technique=ENUM,
        note="All images of a bounded grammar of header, descriptor and "
        "payload words are executed with everything around the image poisoned "
        "for AddressSanitizer; every accepted one is read and modified in all "
        "the listed ways and compared with an independent decoder. A nested "
        "tuple is opaque for the outer one and has a verdict of its own."),
    dict(
        id="P06", title="The validator accepts exactly the well-formed serialized tuples",
        statement="A serialized tuple is accepted exactly when it is "
        "well-formed: its size is the one in the header and within the limits, "
        "the index fits, every field and hole lies within the payload, none "
        "overlaps another, together they cover the payload completely, "
        "fixed-size fields have their data, the presence of preplaced fields "
        "matches the schema, and an index marked sorted is sorted. With holes "
        "disallowed, a tuple is accepted only if it also has no holes. The "
        "checking constructors refuse exactly what the validator refuses.",
        over=["inputs", "configurations"],
        text="for all byte images up to a size, with and without a schema",
        why="Tests have a dozen of corrupted images; each rule of the format "
        "interacts with the others (order of chunks, adjacency, empty "
        "payload, size limits).",
        anchors=anchors(["src/audit.cxx",
                         "fast_positive/tuples/details/ro.h",
                         "fast_positive/tuples/details/field.h"],
                        [("auditor::map_insert/check_chunk/check_loose",
                          "src/audit.cxx")],
                        ["tuple_ro_weak::validate, constructors"]),
        technique=ENUM,
        note="The verdict is compared with an independent decision procedure "
        "on every image of the bounded grammar (90 million images in the "
        "quick tier)."),
    dict(
        id="P07", title="Absent, null and zero are never confused for any type and field kind",
        statement="For every field type, storage kind and for fields with or "
        "without a distinguishable null, a field reads as absent exactly when "
        "it was never set, erased, or reset, and reading an absent field "
        "yields the documented null or zero value of its type. Any other value "
        "written, including zero, empty and all boundary values, reads back "
        "as present where the field distinguishes null from a value, and the "
        "neighbouring fields stay intact.",
        over=["inputs", "histories", "configurations"],
        text="for all field types x storage kinds x null policies x writing "
        "interfaces, all histories of boundary values",
        why="The matrix has hundreds of cells and each has its own code "
        "(templates specialised by type); tests touch a few cells.",
        anchors=anchors(["fast_positive/tuples/details/meta.h",
                         "fast_positive/tuples/details/getter.h",
                         "fast_positive/tuples/details/nan.h",
                         "fast_positive/tuples/token.h", "src/rw.cxx",
                         "src/gear.cxx", "src/tablets.cxx"],
                        [("meta::genus_traits", "details/meta.h"),
                         ("denil/empty representations", "details/meta.h")],
                        ["is_present/exist, get_*, accessors"]),
        technique=BFS,
        note="290 configurations: 29 types x (loose, collection, preplaced) x "
        "(plain, distinguishable null) x (setter, accessor), each explored to "
        "a fixpoint."),
    dict(
        id="P08", title="Collections and iterators show exactly the stored items",
        statement="For any history, iterating a collection or all loose "
        "fields, forward, backward or with postfix steps, visits every stored "
        "item exactly once and nothing else, and agrees with the presence "
        "tests and the single-field getters; an iterator tells the token of its "
        "field and equals no other one. Erasing or updating an item or a "
        "range through an iterator affects exactly these items.",
        over=["histories"],
        text="for all histories mixing collections, single fields and holes",
        why="Iteration depends on the layout of the index (order, holes, "
        "alignment of the vector scan), which tests sample in a few states.",
        anchors=anchors(["fast_positive/tuples/details/field.h",
                         "fast_positive/tuples/details/ro.h",
                         "fast_positive/tuples/details/rw.h", "src/gear.cxx",
                         "src/ro.cxx", "src/rw.cxx", "src/scan_AVX2.cxx"],
                        [("collection_iterator_*, loose_iterator_*",
                          "details/field.h"),
                         ("fptu_scan_*", "src/scan_*.cxx")],
                        ["iterators of tuple_ro_weak and tuple_rw_fixed"]),
        technique=BFS,
        note="Every explored state is iterated in all the supported ways and "
        "compared with the model."),
    dict(
        id="P09", title="A self-growing tuple takes any update up to the format limits intact",
        statement="A managed writable tuple accepts any sequence of updates "
        "whose resulting content fits into the limits of the format (number of "
        "fields and total size), whatever space it was created with: growing "
        "its index or its data, moving to a larger buffer and compacting on the "
        "way change neither the content nor the accounting of free and junk "
        "space. An update beyond the limits, or one that needs memory which "
        "cannot be allocated, is refused and leaves the tuple intact and "
        "usable. Growing never leaks memory, and no tuple ever exceeds the "
        "limits of the format.",
        over=["histories", "faults", "inputs", "configurations"],
        text="for all histories and initial sizes, all points of allocation "
        "failure, up to the largest possible tuples",
        why="Which of the ways to get space is taken (junk, shifting, a larger "
        "buffer, realloc) depends on the whole history; the limits of the "
        "format are reached only by very large tuples.",
        anchors=anchors(["src/autogrowth.cxx", "src/gear.cxx", "src/rw.cxx",
                         "fast_positive/tuples.h",
                         "fast_positive/tuples/details/rw.h"],
                        [("tuple_rw_managed::manage_space_deficit",
                          "src/autogrowth.cxx"),
                         ("tuple_rw::estimate_required_space",
                          "fast_positive/tuples/details/rw.h")],
                        ["head_/pivot_/tail_/end_, junk_, buffer"]),
        technique=BFS,
        note="Buffers and malloc()/realloc() are served from a pool which is a "
        "part of the explored state. An update which fits only after the old "
        "value of the same field is dropped may be refused."),
    dict(
        id="P10", title="Shared handles keep their content, buffers are freed exactly once",
        statement="For any history of copying, moving, swapping, cloning and "
        "dropping read-only managed tuples, taking their nested tuples, and "
        "converting between read-only and writable forms, every live handle "
        "keeps reading the content it was given, no matter what happens to "
        "the other handles of the same buffer. A buffer is returned to its "
        "allocator exactly once, when its last holder goes away, a buffer "
        "with other holders is never altered or reused for writing, and a "
        "failed allocation or a refused conversion leaves all handles as they "
        "were. Content that does not conform to the requested schema is "
        "refused.",
        over=["histories", "faults", "configurations"],
        text="for all histories of handles, all aliasing patterns, all points "
        "of allocation failure",
        why="Ownership defects need a particular aliasing pattern (self "
        "assignment, a nested handle which outlives its master, conversion of "
        "a shared tuple); tests exercise a couple of them and cannot see a "
        "leak or a double release.",
        anchors=anchors(["src/managed.cxx", "src/1Hippeus/buffer.cxx",
                         "fast_positive/tuples.h",
                         "fast_positive/tuples/1Hippeus/buffer.h",
                         "src/rw.cxx"],
                        [("tuple_ro_managed copy/move/clone/peek_basis",
                          "src/managed.cxx"),
                         ("buffer::add_reference/detach/borrow",
                          "src/1Hippeus/buffer.cxx")],
                        ["handles, calls of the allocator, ref_counter"]),
        technique=BFS,
        note="The allocators of the harness place buffers into a pool which "
        "is a part of the explored state; freed buffers are poisoned for "
        "AddressSanitizer. A nested handle taken out of a writable tuple is "
        "checked for ownership only: its content is not promised while the "
        "tuple is being changed."),
    dict(
        id="P11", title="Threads sharing a buffer free it once and see no torn content",
        statement="When several threads hold their own handles of the same "
        "managed tuple and concurrently copy, move, clone, read, convert to "
        "writable form or drop them (or copy from a common handle nobody "
        "alters), then in every interleaving each handle keeps reading its "
        "content, the shared buffer is released exactly once and only after "
        "its last holder is gone, and a buffer is reused for writing only by "
        "a thread that is its sole holder.",
        over=["schedules"],
        text="for all interleavings of the memory accesses of the threads",
        why="A lost update of the reference counter, or a check of the counter "
        "which is not atomic with its change, needs a particular preemption "
        "between two instructions; ordinary runs practically never hit it.",
        anchors=anchors(["src/1Hippeus/buffer.cxx", "src/managed.cxx",
                         "fast_positive/tuples/1Hippeus/buffer.h",
                         "fast_positive/tuples.h"],
                        [("buffer::add_reference/detach/borrow",
                          "src/1Hippeus/buffer.cxx"),
                         ("tuple_ro_managed copy/move/peek_basis",
                          "src/managed.cxx")],
                        ["ref_counter, allocator calls, payload bytes"]),
        technique=SCHED,
        note="Every memory access of the library and of the programs is "
        "intercepted (compiler instrumentation for threads with a runtime of "
        "this machinery); switching is possible before each access to memory "
        "that more than one thread touches. Memory is sequentially "
        "consistent: weak-memory reorderings are not explored."),
    dict(
        id="P12", title="A schema is a consistent, ordered dictionary of exactly what was defined",
        statement="After any sequence of definitions (defining loose, "
        "collection and preplaced fields, or importing them with fixed "
        "identifiers and offsets) a schema knows exactly the accepted "
        "fields: each is found by its name, its token and its place, with the "
        "defined type and attributes; what was not defined is reported as absent "
        "and lookups by an offset or a descriptor inside of another field "
        "do not find it. Loose fields of a type get distinct identifiers, "
        "preplaced fields do not overlap and are aligned, and the initial image of "
        "the preplaced area holds the initial value of each field at its "
        "offset (or its empty value). A conflicting definition (duplicate "
        "name, duplicate identifier, overlapping place, out of limits) "
        "throws and leaves the schema as it was. Iteration goes in the "
        "order of tokens and gives each field once. "
        "Covers typed fields, not opaque preplaced areas.",
        over=["operation histories", "configurations"],
        text="for all histories of definitions up to a bound and "
        "all the sizes of a schema up to a bound",
        why="The dictionary is kept in several structures (names, sorted "
        "tokens, image) and binary searches; mistakes depend on order, gaps "
        "and sizes, and the tests define one or two schemas in offset order.",
        anchors=anchors(["src/schema.cxx", "fast_positive/tuples/schema.h",
                         "fast_positive/tuples/token.h"],
                        [("schema_impl::add_definition", "src/schema.cxx"),
                         ("schema::by_loose/by_offset/next_by_offset",
                          "src/schema.cxx"),
                         ("get_next_loose_id", "src/schema.cxx")],
                        ["tokens and names returned by a schema",
                         "preplaced_init_image()", "exceptions"]),
        technique=ENUM,
        note="Stateless depth-first enumeration of all histories on the "
        "real schema (ASan build) against a plain list of definitions."),
    dict(
        id="P13", title="The legacy C API behaves as a multiset of (column, type, value)",
        statement="A tuple driven by the legacy C functions (fptu_init, "
        "fptu_upsert_*, fptu_insert_*, fptu_update_*, fptu_erase*, "
        "fptu_clear, fptu_shrink, fptu_take*, fptu_fetch*) holds exactly the "
        "values that the calls put there, for every type including zero and "
        "empty values: insert adds one, upsert adds or replaces one "
        "of the same column and type, update replaces one or returns "
        "FPTU_ENOFIELD, erase removes and returns the number of the removed (one for a "
        "type, all for a filter). Iteration, lookup, counting, fptu_field_*, "
        "fptu_field_as_iovec, fptu_get_* of present fields and fptu_cmp_* "
        "agree with it on the modifiable form, on the "
        "serialized one, on its fetched copy and after shrinking, and "
        "fptu_check_rw/ro accept all of them. Junk is counted exactly: "
        "shrinking returns that many bytes and a fetched copy keeps the "
        "count. A failed call returns FPTU_ENOSPACE (only if slots or "
        "bytes lack) or FPTU_EINVAL (a wrong column), sets the last error and "
        "changes nothing.",
        over=["operation histories", "inputs", "configurations"],
        text="for all histories of calls up to a bound, all types, small "
        "and exhausted buffers",
        why="The tests cover one insertion and removal order per scenario, "
        "hardly mix removed fields with fetching, and sample few "
        "types in the getters.",
        anchors=anchors(["src/compat_rw.cxx", "src/compat_ro.cxx",
                         "src/compat_field.cxx", "src/compat_common.cxx",
                         "fast_positive/tuples/legacy.h",
                         "fast_positive/tuples/details/legacy_compat.h"],
                        [("fptu_upsert_*/insert_*/update_*",
                          "src/compat_rw.cxx"),
                         ("fptu_erase/first/next/count",
                          "src/compat_common.cxx"),
                         ("fptu_fetch", "src/compat_rw.cxx"),
                         ("fptu_field_*", "src/compat_field.cxx")],
                        ["values, counts and error codes returned by fptu_*"]),
        technique=BFS,
        note="Which item of a collection an update or an erasure "
        "hits is not specified: every allowed successor is accepted. "
        "What the fptu_get_* return for an absent field is left open "
        "(except ENOFIELD of fptu_get_cstr), as is fptu_upsert_null."),
    dict(
        id="P14", title="Every variant of the index scan finds the first match and stays in bounds",
        statement="Whatever the processor-specific variant (plain, unrolled, "
        "SSE2, AVX, AVX2, or the one picked at run time), looking up a field "
        "in the index of a tuple yields the first slot with the requested "
        "type and identifier, or nothing if there is none. The answer does "
        "not depend on the length of the index, its alignment, the bytes "
        "around it or the placement of the tuple at the very edge of mapped "
        "memory.",
        over=["inputs", "configurations"],
        text="for all lengths, alignments, placements relative to page "
        "boundaries, positions of matches and near-miss descriptors",
        why="Vector code treats heads, tails, chunk remainders and page edges "
        "separately; tests use a few lengths in ordinary memory and only the "
        "variant the machine dispatches to.",
        anchors=anchors(["src/scan_SSE2.cxx", "src/scan_AVX.cxx",
                         "src/scan_AVX2.cxx", "src/scan_portable.cxx",
                         "src/scan_ifunc.cxx",
                         "fast_positive/tuples/details/scan.h"],
                        [("fptu_scan_*", "src/scan_*.cxx"),
                         ("run-time dispatch", "src/scan_ifunc.cxx")],
                        ["value returned by the scan functions"]),
        technique=ENUM,
        note="Stateless enumeration of all (length, match positions, tag, "
        "filling, placement) against the definition; inaccessible pages on "
        "both sides turn any stray read into a crash."),
    dict(
        id="P15", title="Numeric conversions store the exact value or refuse and change nothing",
        statement="Setting or inserting a number through the converting "
        "interfaces (set_integer, set_unsigned, set_float, set_number, "
        "set_int128, set_uint128, their insert_ counterparts, on a tuple, on "
        "an accessor, on an item of a collection or on a growing tuple) "
        "either stores exactly the given value (for a fraction given to an "
        "integer field, its truncation; for a double given to an f32 field, "
        "the nearest float), or throws type_mismatch if the kind of the "
        "field does not suit, or value_out_of_range if the value does not "
        "fit the field or an integer is not exact in the floating-point "
        "field; a refusal leaves the field as it was. NaN is refused by "
        "integer fields and both NaN and the infinities are kept by the "
        "floating-point ones. Every numeric getter returns the very value "
        "stored or throws.",
        over=["inputs", "configurations"],
        text="for all values, field types, kinds of fields and entry points",
        why="The conversions are many near-identical hand-written "
        "switches over types in four copies (tuple, accessor, insert, "
        "growth); the tests sample few values and types of a single copy.",
        anchors=anchors(["src/rw.cxx", "src/autogrowth.cxx",
                         "fast_positive/tuples/details/rw.h",
                         "fast_positive/tuples/details/getter.h"],
                        [("set_number", "fast_positive/tuples/details/rw.h"),
                         ("tuple_rw::insert_number", "src/rw.cxx"),
                         ("get_integer/get_unsigned/get_float/get_int128",
                          "fast_positive/tuples/details/getter.h")],
                        ["value read back", "exception thrown"]),
        technique=ENUM,
        note="Stateless enumeration on the real code (ASan build) "
        "against an oracle in 128-bit integers and long double. A float "
        "is accepted by i32/i64 only above the least value: this asymmetry "
        "is deliberate in the code and is taken as the specification."),
    dict(
        id="P16", title="Moments of time keep their order and value in every conversion",
        statement="A datetime_t made from seconds, milliseconds, "
        "microseconds, nanoseconds, 100 ns or other units, from a timespec or "
        "a timeval, is the exact moment rounded down to 1/2^32 of a second, so "
        "the order of moments is kept and no conversion is off by a unit; the "
        "conversions of the fraction back give the exact value rounded down "
        "to the unit. Comparison follows the time over the whole range of "
        "unsigned seconds (until 2106). The text of a moment is its UTC date "
        "and time to the nearest nanosecond, with a carry up to the date. "
        "fptu_now() returns the time shown by the clock with exactly the "
        "requested number of low bits cleared.",
        over=["inputs", "configurations"],
        text="for all moments, units and granularities",
        why="Fixed-point conversions go wrong for few values out of 2^64 "
        "(carry, rounding, sign of the top bit); the tests look at the "
        "current time only.",
        anchors=anchors(["fast_positive/tuples/types/datetime.h",
                         "src/time.cxx", "src/debug.cxx"],
                        [("datetime_t", "fast_positive/tuples/types/datetime.h"),
                         ("fptu_now", "src/time.cxx"),
                         ("to_string(fptu_datetime_t)", "src/debug.cxx")],
                        ["fixed-point value", "text", "result of comparison"]),
        technique=ENUM,
        note="Complete sweeps over the sub-second units and over the "
        "fractions on the real code, against the definition of rounding in "
        "128-bit integers; the clock is replaced by a controlled one."),
    dict(
        id="P17", title="The decimal text of any number reads back as exactly this number",
        statement="u2a/i2a give the shortest decimal notation of any 32- or "
        "64-bit integer. d2a (accurate and fast), shodan_printer and "
        "fractional_printer give a well-formed decimal number that a correct "
        "strtod() reads back as exactly the same double (or the same "
        "fraction of 2^-32), the sign of zero included; infinity and NaN are "
        "named. No conversion writes outside of the promised number of "
        "characters (10, 11, 20, d2a_max_chars, buffer_size).",
        over=["inputs"],
        text="for all values",
        why="The digits are generated by branch-free tricks and tables with "
        "dozens of constants; a wrong entry shows up only for the values that "
        "use it, the tests sample them at random.",
        anchors=anchors(["fast_positive/erthink/erthink_u2a.h",
                         "fast_positive/erthink/erthink_d2a.h",
                         "fast_positive/erthink/erthink_misc.h"],
                        [("u2a/i2a", "fast_positive/erthink/erthink_u2a.h"),
                         ("grisu::convert", "fast_positive/erthink/erthink_d2a.h"),
                         ("branchless_abs", "fast_positive/erthink/erthink_misc.h")],
                        ["text", "bytes around the buffer"]),
        technique=ENUM,
        note="Complete over 32-bit integers, structured families "
        "for 64-bit integers and doubles; the oracles are an odometer of "
        "decimal digits and strtod() of glibc, which rounds correctly."),
    dict(
        id="P18", title="A field is the same by static token, dynamic token and C++ structure",
        statement="For every layout of preplaced fields that a schema accepts "
        "the field is one and the same whichever way it is reached: by the "
        "static token of a member of the C++ structure (FPTU_TOKEN), by the "
        "equal dynamic token, by the accessors of both kinds, or as the "
        "member of the structure laid over payload(). After any history of "
        "updates and erasures through any of these ways, on a fixed or a "
        "growing tuple, all of them show the last value (or absence), other "
        "fields are untouched and the tuple is valid. A schema refuses a "
        "layout only if it is not addressable (a field of variable length "
        "that isn't aligned to 4 bytes) or overlaps.",
        over=["inputs", "histories"],
        text="for all layouts and histories",
        why="The static path is a separate set of templates, it is compiled per "
        "structure and bypasses the run-time lookup; the tests "
        "use a few structures and mostly look at the tokens only.",
        anchors=anchors(["fast_positive/tuples/token.h",
                         "fast_positive/tuples/details/field.h",
                         "fast_positive/tuples/details/getter.h",
                         "fast_positive/tuples/details/rw.h",
                         "src/schema.cxx"],
                        [("FPTU_TOKEN", "fast_positive/tuples/token.h"),
                         ("preplaced_stretchy_value", "fast_positive/tuples/details/field.h"),
                         ("tuple_rw::erase(const TOKEN &)", "fast_positive/tuples/details/rw.h"),
                         ("schema_impl::add_definition", "src/schema.cxx")],
                        ["values by all the ways", "presence", "validate()"]),
        technique=BFS,
        note="Explores the real tuple against a plain list of values; the "
        "structures are compiled in, 13 offsets of every type are added at "
        "run time."),
]
NOT_APPLICABLE = []
