"""Per property: bounds (as stated in the evidence), required coverage marks, ignored path endings, budgets."""

import gen

FAM = ("type family: every type in harness/src/types.rs (family: ~120 types over all impls, tuples up to arity 12, "
       "derived containers/unions/tags/transparent structs, bitfields, legacy fields; big: 35 larger shapes)")

PROPS = {
    "C01": dict(
        covers=[1],
        bounds=FAM + "; list lengths 0..1-4 per level (all symbolic contents), bit lengths all up to 20 and the byte "
        "boundaries beyond; every type also between other fields; every type with lists of up to 2*d+1 and larger shapes, 12 seed-chosen structures each, "
        "symbolic contents; lists of 40-300 items of 17 element types, all contents symbolic; 66 KB payloads",
        bounds_thorough="as in quick with 120 seed-chosen structures per type",
        outside="longer lists, deeper nesting, other type compositions",
        budget=120,
    ),
    "C02": dict(
        covers=[0, 1],
        bounds=FAM + "; all byte strings up to a per-type length (2-42 bytes), also of every type between other fields; 4-byte-window changes and changed lengths of the encodings of lists of 40-300 items; every single 4-byte-window change, "
        "removal, insertion, truncation and extension of one long valid encoding per larger shape and seed",
        outside="longer arbitrary byte strings, several disturbances of a long encoding",
        assumptions=["a panic while decoding is C05's business: such paths end without an acceptance"],
        budget=180,
    ),
    "C03": dict(
        covers=[1],
        bounds=FAM + "; values as in C01 (including lists of 40-300 items) compared with the reference serializer (harness/src/model.rs)",
        outside="longer lists, deeper nesting, other type compositions",
        budget=120,
    ),
    "C04": dict(
        covers=[0, 1],
        bounds=FAM + "; all byte strings up to a per-type length, also of every type between other fields; disturbed long encodings and lists as in C02; compared with the "
        "strict reference deserializer (harness/src/model.rs)",
        outside="longer arbitrary byte strings",
        assumptions=["a panic on an input the reference rejects is C05's business"],
        budget=300,
    ),
    "C05": dict(
        covers=[0, 1, 2, 3],
        ignore=["nontermination", "allocation"],
        bounds=FAM + "; all byte strings up to a per-type length for every decoder, degenerate zero-length types, "
        "parsing helpers, builder registration sequences; disturbed long encodings",
        outside="longer arbitrary byte strings; stack exhaustion through recursive user types",
        budget=150,
    ),
    "C06": dict(
        covers=[0, 1, 2],
        ignore=["panic", "abort", "arithmetic", "unreachable", "nontermination", "stack"],
        bounds=FAM + "; every single request and the peak of live heap bytes during decoding, against "
        "16*T*len + 1 KiB + 32*T, T = in-memory element bytes; lengths up to 16 fully symbolic, 64/252/1024 with a symbolic first word; bitfields of capacity 131072 and 1048576 on inputs of 0..300 bytes with symbolic ends",
        outside="other long inputs",
        budget=150,
    ),
    "C07": dict(
        covers=[1, 2, 3],
        bounds=FAM + "; metadata of every type (also inside a container), size prediction for symbolic values as in C01 (including lists of 40-300 items), every wrong length up to "
        "2*fixed+1 for fixed-size types",
        outside="longer lists",
        budget=120,
    ),
    "C08": dict(
        covers=[1, 2, 3],
        pre=gen.c08,
        bounds="191 machine-written definitions per run (6 tag enums of 1-128 variants; 54 container layouts over fixed / variable / skipped (both or one direction) / custom-codec fields plus "
        "seed-chosen ones of 1-7 fields; 36 transparent struct layouts, named and tuple; unions and transparent enums of 1-6 variants; generics with inline and where bounds, const generics, nesting, keyword and "
        "local-variable-like field names): metadata; all values with lists of up to 1-3 elements; all byte strings around the minimal encoding length (with up to 4 offset words symbolic); every single "
        "4-byte-window change, truncation, extension, removal and insertion of one longer valid encoding. 98 compile probes (rustc exit status, not solver-decided) for accepted and rejected definitions",
        bounds_thorough="as in quick with 350 definitions and longer disturbed encodings",
        outside="definitions not generated; longer values and arbitrary byte strings; `with` on union/tag variants (undocumented)",
        budget=200,
    ),
    "C09": dict(
        covers=[0, 1, 2, 3],
        bounds="decoder builder driven with every sequence of up to 4 (some longer) fixed (0-5 bytes) and variable items, all "
        "byte strings up to the fixed part plus a few bytes, slices handed to each item compared with the reference tiling; "
        "lists of variable-size items for all byte strings up to 4 words plus payload; offset words: all 2^32 values and all 64-bit lengths",
        outside="longer item sequences and byte strings",
        budget=150,
    ),
    "C10": dict(
        covers=[1, 2, 3],
        steps=12_000_000,
        bounds=FAM + "; symbolic buffer prefixes of several lengths (0-9, 300), all entry points, manual SszEncoder with the same fields",
        outside="longer lists, other prefix lengths",
        budget=150,
    ),
    "C11": dict(
        covers=[1, 2, 3, 4, 10, 11, 12, 13, 14, 15, 20],
        bounds="every valid start state (all bits symbolic) of BitList/BitVector with N in {0,1,3|4,7,8,9,15|16,17,33}, every length of a list up to "
        "18 and byte boundaries, BitVectorDynamic of 8..40 bits, reached through four construction routes; then one operation "
        "(set at any usize index, shift by any usize, difference with any operand, clone, re-decode; two or three in sequence for N<=4) and every observation. "
        "Since the reached states satisfy the same representation invariant the start states range over, one step covers histories of any length at those sizes. "
        "Long ones (64-1040 bits, BitList, BitVector and BitVectorDynamic): one operation and every observation, bits symbolic at the ends and around byte 8, the middle and byte 128, all false or all true elsewhere",
        outside="other capacities and lengths; the constant bits of long ones",
        budget=220,
    ),
    "C12": dict(
        covers=[1, 2, 3, 4, 5],
        bounds="every operand pair (all bits symbolic, inline or heap storage, also aliased) of BitList<N>, N in {0,1,2,7,8,9,16,17,40,1040}, over all length "
        "pairs up to 18 bits and pairs of boundary lengths beyond, BitVector<N>, N in {0,1,5,7,8,9,12,16,17,31,32,33,64,1024,1030}, BitVectorDynamic of 8..1032 bits; "
        "every result compared bit by bit with the reference, observed through the whole API and sent through an SSZ round trip",
        outside="other capacities and lengths",
        budget=150,
    ),
    "C13": dict(
        covers=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11],
        bounds="every construction path (new/with_capacity with any usize, byte constructors and SSZ/serde decoding of all byte strings up to a few bytes beyond the capacity, "
        "set operations, shifts, resize over 35 capacity pairs around byte boundaries and 1024/1040, dynamic constructors with any usize length) for N in {0,1,4,7,8,9,15,16,17,64,1024,1040}",
        outside="other capacities; longer byte strings",
        budget=150,
    ),
    "C14": dict(
        covers=[1, 2, 3],
        bounds="all byte strings up to capacity+2 bytes (symbolic contents) through from_bytes / from_bytes_with_len / from_ssz_bytes against the reference rule; "
        "all values (symbolic bits) through into_bytes / into_raw_bytes / as_ssz_bytes; N over 0..17 and byte-boundary sizes",
        outside="other capacities; longer byte strings",
        budget=150,
    ),
    "C15": dict(
        covers=[1, 2, 3, 4, 5, 6, 7, 8, 9],
        pre=gen.c15,
        bounds="derived unions with 1-9, 12, 15-17, 31-33, 63-65, 96, 126-128 and three seed-chosen variant counts (13 body types in rotation, unordered variant names, explicit discriminants, generics), "
        "17 Option types; decoding: all inputs of 0-6 bytes (selector and body symbolic); encoding: every variant with symbolic bodies; UnionSelector: all 256 bytes; split_union_bytes: symbolic inputs up to 300 bytes",
        bounds_thorough="as in quick, every variant count from 1 to 128",
        outside="longer bodies; other body types",
        budget=150,
    ),
    "C16": dict(
        covers=[1, 2, 3, 4, 5, 6, 7, 8],
        bounds="decode_list_of_variable_length_items into 17 item/collection pairs (Vec, SmallVec, BTreeSet, BTreeMap, bounded collections stopping early or refusing late, refusing everything, refusing emptiness, "
        "wanting exactly two): all byte strings up to 11-16 bytes with any limit (none or any usize); disturbed longer lists with any limit and limits around the count; 40-1200-byte inputs with every count and every smaller limit. "
        "Observed: result against the reference list decoder, decoder calls, peak heap, error equality with the unlimited call",
        outside="longer arbitrary byte strings, other collections",
        budget=150,
    ),
    "C17": dict(
        covers=[1, 2, 3, 4, 5, 6, 7, 8],
        bounds="modules for 30 inner types (fixed, variable, zero-length, nested, containers with legacy fields): all values with lists up to 2 elements, all byte strings up to the shortest encoding plus a few bytes, "
        "disturbed longer encodings; 8 containers with legacy fields in every position, also in a list; selector helpers",
        bounds_thorough="as in quick with lists up to 3 elements and longer byte strings",
        outside="longer values and byte strings; map and set inner types (not canonical by nature)",
        budget=150,
    ),
    "C18": dict(
        covers=[1, 2, 3, 4, 5],
        bounds="serde_json-style serializer and deserializer stubs; every value of every length class; all ASCII strings up to 6-8 characters (all symbolic), "
        "longer ones around the encodings of valid and invalid values, 27 degenerate and non-ASCII strings, owned, borrowed and character delivery",
        outside="other capacities, longer strings",
        budget=150,
    ),
    "C19": dict(
        covers=[1, 2, 3, 4],
        bounds="24 map and 15 set types (fixed/variable keys and values, nested collections): all collections of up to 1-3 entries with symbolic keys and values in any insertion order, all byte strings up to 3-65 bytes, "
        "every single disturbance of an unsorted entry list with repetitions",
        outside="longer collections; sets of zero-length items (no SSZ type: their encoding is empty)",
        budget=170,
    ),
    "C20": dict(
        covers=[1, 2],
        # in the order of the types in harness/src/c20.rs
        exists={**{200 + i: "BitVector<%s>" % n for i, n in enumerate([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 24, 25, 31, 32, 33, 63, 64, 65, 128, 256, 512, 1024, 1025, 2048, 4096])},
                **{100 + i: "BitList<%s>" % n for i, n in enumerate([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 128, 256, 512, 1024, 1025, 2048, 4096])}},
        exists_msg="no input of the lengths explored makes the generator of %s succeed (every path ends in an error)",
        bounds="27 bitlist and 30 bitvector capacities from 1 to 4096 (and 0 for panics), arbitrary and arbitrary_take_rest, unstructured inputs of every short length, "
        "just enough, slightly more and far more than needed, contents symbolic (long ones: both ends); existence: a satisfiable successful path per capacity",
        outside="other capacities; the middle of long inputs",
        budget=150,
    ),
}
