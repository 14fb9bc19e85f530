"""Table of the checks: property -> harness and its stated bounds."""
HIST = ("every operation history (set/insert/erase/item and range erase/item "
        "update/compactify/sort/optimize/reset) over the listed tuple "
        "configurations, explored breadth-first to a fixpoint of distinct "
        "tuple states: 1-6 index slots, 4-200 payload units (two configurations "
        "with fields of 4-9 KB, longer than a hole may be, one of up to 240 KB), value domains of "
        "1-5 values per field; all histories of 1-2 (thorough: 2-3) operations "
        "that go on from tuples filled with 7-130 fields or 8-700 items of "
        "collections, holes among them")
PROPS = {
    "P01": {"harness": "hist", "bounds": HIST},
    "P02": {"harness": "hist", "bounds": HIST},
    "P03": {"harness": "hist", "bounds": HIST},
    "P04": {"harness": "hist", "bounds": HIST},
    "P07": {"harness": "hist", "bounds": "29 field types x (loose, "
            "collection, preplaced) x (plain, discernible-null) x (setter, "
            "accessor), 3-6 boundary values per type, all histories to a "
            "fixpoint"},
    "P08": {"harness": "hist", "bounds": HIST},
}
for _p in PROPS.values():
    # frames abandoned by exceptions make the fake stack of ASan very slow
    _p["asan"] = ":detect_stack_use_after_return=0"
PROPS["P02"]["bounds"] = HIST + (
    "; room of new tuples for 17 numbers of items x 411 sizes of data x "
    "with/without a schema, filled up to the end")
PROPS["P14"] = {
    "harness": "scan", "lib": "plain",
    "bounds": "indexes of 0-270 (thorough: 330) slots, every position of the "
    "first match, all pairs of matches up to 70 (140) slots, 6 tags x 4 "
    "fillings x 48 placements relative to page boundaries; all the 65536 "
    "tags in indexes of 1-43 slots; 15 lengths of 511-8191 slots, each 61st "
    "(each) position beside the ends and a second match at the end; all "
    "implementations of this CPU"}
PROPS["P09"] = {
    "harness": "growth", "asan": ":detect_stack_use_after_return=0",
    "libs": ["-Wl,--wrap=malloc,--wrap=realloc,--wrap=free"],
    "bounds": "7 initial sizes x with/without schema x managed/malloc memory: "
    "all histories of up to 5 (thorough: 6) operations of 30 kinds with "
    "values of 0-1300 bytes, with and without a failure of the allocation; "
    "for each of them insertion of items of 14 kinds up to the very limit of "
    "a tuple (8191 fields or 65534 units), with and without erasing on the "
    "way, then erasing of four fifths, a long text and compacting; "
    "stepwise growth and shrinking of a text over all the lengths "
    "of a geometric row up to 131325 bytes and around the thresholds; for each "
    "of the 31 types all histories of 3 (4) updates of a loose field, a "
    "preplaced one and a collection, the last one by each of the setters, "
    "with and without a failure of the allocation"}
AUDIT = ("all images with 0-3 descriptors (12 tags x all offsets, including "
         "beyond the end) and 0-4 payload words (12 values or all slot "
         "offsets) for 6 schemas; all header values for 0-24 bytes; all "
         "values of the length in small images, lengths of long texts; all "
         "types with payloads of 0-19 units; indexes of up to 8191 fields; 40-8191 "
         "chunks in 4 orders with 7 misplacements of one; 3 chunks of up to "
         "9000 units at all the places where they touch, +-1; all "
         "arrangements of 3-4 (thorough: 5) chunks over 2-8 units; sizes "
         "at the limits of the format")
PROPS["P05"] = {"harness": "audit", "bounds": AUDIT}
PROPS["P06"] = {"harness": "audit", "bounds": AUDIT}
PROPS["P10"] = {
    "harness": "managed",
    # frames abandoned by exceptions make the fake stack of ASan very slow
    "asan": ":detect_stack_use_after_return=0",
    "bounds": "1-3 shared read-only and 1-2 writable handles, 34 kinds of "
    "operations (copy, move, swap, clone with its own, no or an alien schema, nested, "
    "conversion both ways, update) x 2 allocators x with/without schema x failure of each "
    "allocation; all histories of up to 5-7 (thorough: 6-8) operations, "
    "fixpoint for 1+1 handles"}
PROPS["P11"] = {
    "harness": "race", "lib": "tsan",
    # the programs are instrumented, the scheduler and the runtime are not
    "objects": [("race.cxx", ["-fsanitize=thread"]), ("race_rt.cxx", [])],
    "libs": ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"],
    "bounds": "all programs of 2 threads x 1-2 operations (9 kinds: drop, "
    "copy, copy of a common handle, read, convert-update-convert, nested, "
    "rw clone, move, ro clone) and 3 threads x "
    "1 operation over handles of one buffer; all interleavings of their "
    "memory accesses with at most 3 / 2 / 1 preemptions (thorough: 4 / 3 / "
    "2); sequentially consistent memory"}
PROPS["P15"] = {
    "harness": "number", "asan": ":detect_stack_use_after_return=0",
    "bounds": "13 sources (set/insert of integer, unsigned, float, number, "
    "int128 from signed, unsigned, float and double arguments) x 6 ways "
    "(tuple, accessor, growing tuple; set, insert, item of a collection) x "
    "29 field types x (loose, loose and preplaced with discernible null, "
    "preplaced, collection) x previous value; values within 3 of all "
    "the powers of two up to 2^127 of both signs, their neighbours and "
    "fractions in float and double, all the exponents; every combination "
    "of the high 16 bits of a float with 6 (thorough: 772) low halves"}
PROPS["P12"] = {
    "harness": "schema", "asan": ":detect_stack_use_after_return=0",
    "bounds": "all histories of up to 4 (thorough: 5) definitions out of the "
    "alphabet (preplaced and loose, imported at an offset or renominated, "
    "inside of gaps, overlapping, duplicate names and identifiers, with and "
    "without an initial value), lookups and refusals checked after each; "
    "schemas of 0-70 (130) fields for the searches; limits of identifiers and "
    "of the preplaced area"}
PROPS["P13"] = {
    "harness": "legacy", "asan": ":detect_stack_use_after_return=0",
    "bounds": "all histories of upsert/insert/update/erase by type, by filter "
    "and by field/clear/shrink/fetch/fetch_ex/invalid column for each of the "
    "16 types alone (4 slots, thorough 5; up to a fixpoint) and beside another type and "
    "column (depth 6, thorough 7), numbers with all filters (depth 5 / 6), 40 "
    "slots (6 / 7), no slots, no data; all histories of 1-2 operations that go on from "
    "9-600 fields of all the types; every tag of 2048 columns x 16 types; "
    "grid of buffer sizes, of sizes given to fetch, of more items and bytes"}
PROPS["P16"] = {
    "harness": "time", "asan": ":detect_stack_use_after_return=0",
    "libs": ["-Wl,--wrap=clock_gettime,--wrap=clock_getres"],
    "bounds": "all 10^9 nanoseconds, 10^6 microseconds, 1000 milliseconds and "
    "2^32 fractions of a second, with 12 values of seconds; 21 other units by "
    "a grid; all pairs of 276 moments; text of 11 seconds of every day until "
    "2106 with 8 fractions, all the seconds of some days, 0.5 M (thorough: "
    "4 M) fractions; the current time for 360 states of a controlled clock x "
    "87 granularities"}
PROPS["P17"] = {
    "harness": "text", "lib": None, "cflags": ["-O2"],
    "bounds": "all values of uint32 and int32; uint64 and int64: every value "
    "of each group of four digits with 9 values of the other groups, "
    "neighbourhoods of powers of 2 and 10; doubles: all exponents x "
    "mantissas with up to two bits set or clear, runs of ones, all the "
    "values of the top 12 (thorough: 16) bits; decimals of up to 4 (5) "
    "digits x all exponents and neighbours; every 61st (each) float; "
    "fractions of 2^-32 with a stride of 1021 (11)"}
PROPS["P18"] = {
    "harness": "native", "asan": ":detect_stack_use_after_return=0",
    "objects": [("native.cxx", ["-g0"]),
                ("native_plain.cxx", ["-O2", "-g0", "-fno-inline"])],
    "bounds": "9 structures (all the 31 types of fields, with and without a "
    "discernible null and saturation, packed and naturally aligned, offsets up to the last one, the "
    "documented example): all histories of updating by the static token, the "
    "dynamic token and both accessors, erasing by both tokens, a loose "
    "neighbour, optimize and reset, up to a fixpoint (with fields of variable "
    "length: up to 4, thorough 7, operations); all histories of 3 (4) updates "
    "of the growing tuple; each type at each of 13 offsets between neighbours "
    "x discernible null x at the end of the area; all histories of 4 (5) "
    "updates with ignored results as compiled without inlining"}
