#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it stays valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    e = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: e["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: e["anchors"]["observe_at"] = observe
    e["anchors"]["hook_needed"] = None
    P.append(e)
I = "include/sparrow/"

p("C01", "buffer behaves as a contiguous sequence container",
  "After any sequence of constructions, assignments, insertions, erasures, resizes, reservations, swaps and moves, a buffer holds exactly the elements a std::vector would hold after the same operations, with size() <= capacity(), iterators returned by insert/erase/emplace denoting the documented position. No operation reads or writes outside the storage, every element is constructed before it is used and destroyed exactly once, and every allocation is freed exactly once.",
  ["inputs", "histories"], "all element values, all positions/counts allowed by the preconditions, every pre-state with size and spare capacity within the bound",
  "Unit tests use one fixed 8-element buffer and one position per operation; reallocation boundaries, empty ranges, end positions and operation sequences are sampled a handful of times.",
  [I+"buffer/buffer.hpp", I+"buffer/allocator.hpp"],
  [("buffer::insert/erase/resize/reserve/assign_storage", I+"buffer/buffer.hpp")],
  [("m_data{p_begin,p_end,p_storage_end}", "storage triple", I+"buffer/buffer.hpp")])
p("C02", "dynamic_bitset is a sequence of bits with an exact null count",
  "After any sequence of set, push_back, pop_back, insert, emplace, erase, resize, clear, copy and move, a bitset's size, each of its bits and its iterators describe the same bit sequence a std::vector<bool> would hold, and null_count() equals the number of unset bits among them. The same holds for a view on external storage, whatever the unused bits of the last block contain.",
  ["inputs", "histories"], "all bit patterns, positions and counts, including sizes on and around block boundaries, within the bound",
  "The null count is maintained incrementally, so an error shows only after particular positions/values; tests use one 29-bit pattern.",
  [I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp", I+"buffer/dynamic_bitset/dynamic_bitset.hpp", I+"buffer/dynamic_bitset/dynamic_bitset_view.hpp", I+"buffer/dynamic_bitset/non_owning_dynamic_bitset.hpp"],
  [("update_null_count / count_non_null / zero_unused_bits", I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp")],
  [("m_null_count", "number of unset bits", I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp")])
p("C03", "bitset iterators obey the random-access laws and visit every bit in order",
  "For every bitset and every pair of positions i, j in [0,size], begin()+i dereferences to bit i, (begin()+j)-(begin()+i) == j-i, ++/--/+=/-= agree with index arithmetic, comparisons agree with index comparisons, and writing through a reference changes exactly that bit.",
  ["inputs"], "all sizes, start positions and displacements within the bound, crossing block boundaries in either direction",
  "Tests step a few fixed distances from fixed positions; the block/index pair has special cases at block boundaries.",
  [I+"buffer/dynamic_bitset/bitset_iterator.hpp", I+"buffer/dynamic_bitset/bitset_reference.hpp"],
  [("bitset_iterator::advance/increment/decrement/distance_to", I+"buffer/dynamic_bitset/bitset_iterator.hpp")])
p("C04", "buffer_adaptor and u8_buffer expose bytes as a faithful typed sequence",
  "A typed adaptor or u8_buffer over a byte buffer behaves as a sequence of T: after any element access, insertion, erasure or resize through it, it reads back the elements the model sequence holds, and the underlying byte buffer contains exactly their bytes in order. Views over a buffer read the same elements as the buffer.",
  ["inputs", "histories"], "all element values, positions and counts within the bound, for several element widths",
  "Index arithmetic is scaled by sizeof(T) in each operation; tests check one position for one type.",
  [I+"buffer/buffer_adaptor.hpp", I+"buffer/u8_buffer.hpp", I+"buffer/buffer_view.hpp"],
  [("buffer_adaptor::insert/erase/resize index scaling", I+"buffer/buffer_adaptor.hpp")])
p("C05", "primitive arrays read back what they were built from",
  "A primitive array built from any values and any description of validity (range of values, of nullables, list of null positions, boolean mask, value and count, or typed buffer) has the given length, its i-th element has a value exactly when validity says so and that value is the i-th input, the values and bitmap ranges agree with it, and the stored null count equals the number of nulls.",
  ["inputs"], "all element values, all validity patterns, all lengths within the bound, all numeric element types covered",
  "Tests use one or two literal inputs per constructor; validity patterns crossing byte boundaries are not enumerated.",
  [I+"layout/primitive_array.hpp", I+"layout/array_bitmap_base.hpp", I+"layout/layout_utils.hpp"],
  [("primitive_array::create_proxy / ensure_validity_bitmap", I+"layout/primitive_array.hpp")])
p("C06", "primitive array mutation is equivalent to mutating a sequence of nullables",
  "After any sequence of push_back, pop_back, insert (one, many, range), erase (one, range), resize and element assignment, including on an array obtained by slicing, a primitive array holds exactly the nullable elements that the same operations produce on a vector of nullables, and its length and null count are exact.",
  ["inputs", "histories"], "all values, validity flags, positions and counts, from arbitrary pre-states within the bound",
  "Values, validity bits, length and null count live in different places and are updated separately; tests check single operations from one fixed array.",
  [I+"layout/mutable_array_base.hpp", I+"layout/array_bitmap_base.hpp", I+"layout/primitive_array.hpp", "src/arrow_array_schema_proxy.cpp"],
  [("mutable_array_base::insert/erase/resize", I+"layout/mutable_array_base.hpp"), ("arrow_proxy bitmap mutators", "src/arrow_array_schema_proxy.cpp")])
p("C07", "string and binary arrays read back exactly the bytes they were built from",
  "A variable-size binary array (32- or 64-bit offsets) built from any sequence of byte strings with any validity has that many elements, the i-th element has a value exactly when it is valid and then equals the i-th input byte for byte, embedded zero bytes and empty strings included; its offsets are non-decreasing, start at zero and end at the data size.",
  ["inputs"], "all byte contents, all combinations of lengths (including 0) and validity within the bound",
  "Tests use a few fixed words; combinations of empty strings, embedded NULs and nulls are not explored.",
  [I+"layout/variable_size_binary_layout/variable_size_binary_array.hpp", I+"layout/variable_size_binary_layout/variable_size_binary_reference.hpp", I+"utils/offsets.hpp", I+"utils/buffers.hpp"],
  [("offset buffer construction", I+"layout/variable_size_binary_layout/variable_size_binary_array.hpp")])
p("C08", "string array mutation is equivalent to mutating a vector of nullable strings",
  "After any sequence of push_back, pop_back, insert, erase, resize and assignment through element references, every element of a string array equals the element that the same operation produces on a vector of nullable strings; untouched elements keep their bytes, and the array's length and null count are exact.",
  ["inputs", "histories"], "all byte contents and lengths of old and new elements, all positions and counts within the bound",
  "Growing or shrinking one element moves all later bytes and offsets; tests assign one longer, one shorter and one equal string.",
  [I+"layout/variable_size_binary_layout/variable_size_binary_array.hpp", I+"layout/variable_size_binary_layout/variable_size_binary_reference.hpp", I+"layout/mutable_array_base.hpp"],
  [("assign / insert_value(s) / insert_offsets / erase_values / resize_values", I+"layout/variable_size_binary_layout/variable_size_binary_array.hpp")])
p("C09", "binary-view arrays round-trip inline and out-of-line values",
  "A string-view or binary-view array built from any sequence of byte strings and validity yields exactly those elements, both when a string fits in the view itself (at most 12 bytes) and when it is stored in the data buffer; each view entry stores the length and, for long strings, the 4-byte prefix.",
  ["inputs"], "all byte contents and length combinations around the 12-byte boundary within the bound",
  "Tests have one array of fixed words; the boundary and mixes of inline/out-of-line entries are not enumerated.",
  [I+"layout/variable_size_binary_view_array.hpp"], [("create_proxy / value", I+"layout/variable_size_binary_view_array.hpp")])
p("C10", "list arrays yield exactly the described sub-sequences of their child",
  "For list, large list, list-view, large list-view and fixed-size list arrays, element i is null exactly when its validity says so, and otherwise is the sub-sequence of the child array delimited by the given offsets (and sizes): its size matches and its j-th element is the child's element at that offset plus j. offset_from_sizes yields the running sums of the sizes.",
  ["inputs"], "all valid offset/size vectors, validity patterns and child contents within the bound",
  "Tests use one fixed offset vector per layout.",
  [I+"layout/list_layout/list_array.hpp", "src/list_value.cpp"], [("offset_range / list_value", I+"layout/list_layout/list_array.hpp")])
p("C11", "struct arrays combine the i-th elements of their children",
  "Element i of a struct array is null exactly when its validity says so, otherwise it has one field per child in order and its k-th field equals element i of child k, for children of different types and nullness; equality of struct values is field-wise equality.",
  ["inputs"], "all child contents and validity patterns within the bound",
  "Tests use one struct with two fixed children.",
  [I+"layout/struct_layout/struct_array.hpp", "src/struct_value.cpp"], [("struct_value::operator[]", "src/struct_value.cpp")])
p("C12", "union arrays dispatch each element to the child named by its type id",
  "For every type-id sequence, type-id-to-child mapping and (for dense unions) offsets, element i of a union array equals the element of the selected child: at position i for sparse unions, at the given offset for dense unions; copies behave identically.",
  ["inputs", "configurations"], "all type-id sequences, child-index permutations, offsets and child contents within the bound",
  "Tests use one type-id sequence and identity or one permuted mapping.",
  [I+"layout/union_array.hpp"], [("type-id map, element_offset", I+"layout/union_array.hpp")])
p("C13", "dictionary-encoded arrays decode every key to its dictionary value",
  "Element i of a dictionary-encoded array is null exactly when its key is null or the dictionary value it designates is null, and otherwise equals the dictionary's value at key i, for every integer key type, dictionary value type, key sequence and validity, whichever dictionary types were used earlier in the program.",
  ["inputs", "histories"], "all key sequences, validity patterns and dictionary contents within the bound; any order of use of several dictionaries of different value types",
  "Tests use a fixed word dictionary; function-local shared state is visible only when several dictionary types are used in one process.",
  [I+"layout/dictionary_encoded_array.hpp", "src/array_helper.cpp"], [("operator[] / dummy references", I+"layout/dictionary_encoded_array.hpp")])
p("C14", "run-end encoded arrays decode to the expanded sequence",
  "For every non-empty strictly increasing sequence of run ends and every values array, the length is the last run end, element i is the value of the first run whose end exceeds i (null when that value is null), forward and random access agree, and iteration visits exactly length elements reading only inside the child arrays.",
  ["inputs"], "all run-end sequences, run-end types and value contents within the bound",
  "Tests use one fixed run-length vector.",
  [I+"layout/run_end_encoded_layout/run_end_encoded_array.hpp", I+"layout/run_end_encoded_layout/run_end_encoded_iterator.hpp", "src/run_encoded_array.cpp"],
  [("get_run_length / binary search", "src/run_encoded_array.cpp"), ("run_encoded_array_iterator", I+"layout/run_end_encoded_layout/run_end_encoded_iterator.hpp")])
p("C15", "a slice is the designated sub-sequence",
  "For every layout, every array and every 0 <= start <= end <= size, slice(start,end) and slice_view(start,end) have end-start elements and their i-th element equals element start+i of the original, including when the original is itself a slice; the null count reported by the sliced structures is the number of nulls in the slice or -1, and the original is unchanged.",
  ["inputs", "histories"], "all arrays within the bound, all start/end pairs, slices of slices, every layout",
  "Each layout applies the offset itself; tests slice only a few arrays at one position.",
  ["src/arrow_array_schema_proxy.cpp", I+"layout/array_base.hpp", I+"layout/primitive_array.hpp", I+"layout/list_layout/list_array.hpp", I+"layout/union_array.hpp", I+"layout/variable_size_binary_layout/variable_size_binary_array.hpp"],
  [("arrow_proxy::slice / slice_view", "src/arrow_array_schema_proxy.cpp"), ("per-layout offset application", I+"layout/")])
p("C16", "copies of arrays are deep, equal and independent",
  "Copy-constructing or copy-assigning any array (typed or type-erased) yields an array equal to the original element by element, sharing no storage with it: mutating, re-assigning or destroying either leaves the other's elements unchanged. Moving transfers the contents.",
  ["inputs", "histories"], "all contents and validity within the bound, every layout, copies of slices and of arrays without a validity buffer",
  "Tests copy one array per layout and compare; buffer sizes used by the copy depend on format, length and offset.",
  ["src/arrow_interface/arrow_array.cpp", "src/arrow_interface/arrow_schema.cpp", "src/arrow_array_schema_proxy.cpp", I+"layout/array_base.hpp"],
  [("copy_array / get_arrow_array_buffers / copy_schema", "src/arrow_interface/")])
p("C17", "C data interface structures are released exactly once",
  "Whatever sequence of construction, copy, move, assignment, extraction and destruction an array goes through, every ArrowArray and ArrowSchema it owns has its release callback called exactly once and those it does not own never; nested children and dictionaries are released with their parent, released or moved-from structures are marked released, and no memory is leaked, freed twice or used after release.",
  ["histories"], "all operation sequences and ownership combinations (owned/borrowed array and schema) within the bound, nested layouts included",
  "Leaks and double releases depend on the order and combination of operations; the tests check a few isolated sequences without leak detection.",
  ["src/arrow_array_schema_proxy.cpp", "src/arrow_interface/arrow_array.cpp", "src/arrow_interface/arrow_schema.cpp", I+"arrow_interface/arrow_array_schema_utils.hpp"],
  [("arrow_proxy::~arrow_proxy / extract / reset", "src/arrow_array_schema_proxy.cpp"), ("release_common_arrow", I+"arrow_interface/arrow_array_schema_utils.hpp")],
  [("release", "null once released", I+"c_interface.hpp")])
p("C18", "exported structures conform to the Arrow C data interface",
  "For every layout and content, the ArrowArray and ArrowSchema obtained from an array have the format string of its type, its length, an offset, a null count that is exact or -1, the number of buffers and children the format prescribes, consistent child lengths, and buffers whose bytes (validity bits least-significant first, values, offsets, type ids) encode exactly the array's elements when read independently per the Arrow columnar specification.",
  ["inputs"], "all contents, lengths and validity patterns within the bound, every layout",
  "Tests compare a handful of fields for fixed arrays and never decode the exported buffers with an independent reader.",
  [I+"layout/", I+"arrow_interface/arrow_array.hpp", I+"arrow_interface/arrow_schema.hpp"],
  [("create_proxy of each layout", I+"layout/"), ("make_arrow_array / make_arrow_schema", I+"arrow_interface/")])
p("C19", "foreign Arrow C structures are imported faithfully",
  "An array built over externally produced ArrowArray/ArrowSchema structures that conform to the specification - with or without a validity buffer, with a non-zero offset, with a null count of -1, owned or borrowed - reads exactly the elements they encode, without modifying or reading outside the foreign buffers; formats sparrow does not support are rejected with an exception.",
  ["inputs", "configurations"], "all buffer contents, offsets, lengths, presence/absence of a validity buffer and ownership modes within the bound, per format",
  "Tests almost always import structures sparrow itself made, with offset 0 or 1 and a validity buffer.",
  ["src/array.cpp", "src/array_factory.cpp", "src/arrow_array_schema_proxy.cpp", "src/arrow_interface/arrow_array.cpp"],
  [("array_factory / get_arrow_array_buffers", "src/")])
p("C20", "arrow_proxy mutators keep the C structures and cached views in sync",
  "After any sequence of setters (format, name, metadata, flags, length, null count, offset, buffers, children, dictionary) on a proxy, every getter returns what was set and the underlying ArrowArray/ArrowSchema fields say the same; pointers in the C structures stay valid; mutators refuse structures not created by sparrow by throwing without modifying them.",
  ["inputs", "histories"], "all argument values and setter orders within the bound",
  "State is mirrored between proxy, C struct and private data; tests call each setter once in isolation.",
  ["src/arrow_array_schema_proxy.cpp", I+"arrow_array_schema_proxy.hpp", I+"arrow_interface/arrow_array/private_data.hpp", I+"arrow_interface/arrow_schema/private_data.hpp"],
  [("arrow_proxy setters / update_buffers / resize_children", "src/arrow_array_schema_proxy.cpp")])
p("C21", "format strings, data types and flags map consistently",
  "Every data type with a format maps to a format string that maps back to it, every format string of the Arrow C data interface that sparrow supports maps to its type and every string that starts no supported format maps to NA, the type predicates agree with the format, and the flag bitfield round-trips through the flag list, rejecting exactly the values with an unknown bit.",
  ["inputs"], "all data_type values, all strings up to the bound (arbitrary bytes), all 64-bit flag words",
  "Tests check a table of known pairs, not arbitrary strings or flag words.",
  [I+"types/data_type.hpp", I+"types/data_traits.hpp", I+"arrow_interface/arrow_flag_utils.hpp"],
  [("format_to_data_type / data_type_to_format", I+"types/data_type.hpp")])
p("C22", "nullable values compare, convert and assign like optionals",
  "For all values and flags, nullable equality and ordering form a consistent total order in which null equals null and precedes every value, value() throws exactly on null, value_or falls back exactly on null, assignment/swap/reset/conversion and nullable_variant copy the flag and the value, and assigning through a nullable of references updates the referenced value and flag.",
  ["inputs"], "all pairs/triples of values and flags, for value and reference instantiations",
  "Tests check fixed values; the order laws quantify over triples.",
  [I+"utils/nullable.hpp"], [("operator==, operator<=>, operator=", I+"utils/nullable.hpp")])
p("C23", "build() round-trips nested C++ data",
  "For every input range of scalars, strings, nullables, ranges, tuples, arrays or variants, the array made by build has as many elements as the input and reading it back element by element yields the input, with nulls exactly where the input had them; requesting a dictionary or run-end encoding changes only the layout, not the decoded elements, and stores each distinct value (each run) once.",
  ["inputs"], "all contents, inner lengths and null patterns within the bound, for each layout the builder can choose",
  "Tests build literal inputs; de-duplication and run detection compare nullables and nested values in many combinations.",
  [I+"builder/builder.hpp", I+"builder/builder_utils.hpp", I+"builder/nested_eq.hpp", I+"builder/nested_less.hpp"],
  [("builder<...>::create", I+"builder/builder.hpp"), ("nested_less / nested_eq", I+"builder/")])
p("C24", "record_batch maps names to columns consistently",
  "For every list of distinct names and equal-length columns, the batch has that many columns and rows, get_column(name), get_column(i) and get_column_name(i) agree with construction order, unknown names are reported absent and make get_column throw, and copies and moves of the batch keep all of this independently of the source's lifetime.",
  ["inputs", "histories"], "all names up to the bound (arbitrary bytes), all column contents within the bound, copy/move/assign sequences",
  "Name lookup caches pointers to columns, so errors need copy/move followed by destruction of the source.",
  [I+"record_batch.hpp", "src/record_batch.cpp"], [("init_array_map", "src/record_batch.cpp")])
p("C25", "the type-erased array agrees with the typed array it wraps",
  "For every layout, size, emptiness, data type, element access, front/back, visit and equality on sparrow::array agree with the wrapped typed array; two arrays compare equal exactly when they have the same type, size and pairwise equal elements, and equality is reflexive, symmetric and independent of offsets or storage.",
  ["inputs"], "all contents and validity within the bound, every layout the factory supports",
  "Dispatch is a hand-written table per data type repeated in several functions; tests compare one pair per layout.",
  ["src/array.cpp", "src/array_helper.cpp", "src/array_factory.cpp", I+"layout/dispatch.hpp", I+"layout/array_wrapper.hpp"],
  [("visit / array_factory / array_element", I+"layout/dispatch.hpp")])
p("C26", "ownership wrappers have value semantics",
  "any_allocator, value_ptr, cloning_ptr and array wrappers own at most one object: copies are deep and equal, moves leave the source empty, assignment and self-assignment preserve the value and free the old one exactly once, release/reset/swap transfer it, and allocation through a type-erased allocator matches deallocation through any of its copies.",
  ["histories"], "all operation sequences on empty/non-empty/inline/heap instances within the bound",
  "Tests check single operations without leak or double-free detection.",
  [I+"utils/memory.hpp", I+"buffer/allocator.hpp", I+"layout/array_wrapper.hpp"],
  [("any_allocator storage variant", I+"buffer/allocator.hpp"), ("cloning_ptr", I+"utils/memory.hpp")])
p("C27", "half-precision conversions follow IEEE 754",
  "Every 16-bit pattern converts to the float it denotes exactly, converting that float back restores the pattern (NaN stays NaN), classification agrees with the pattern, comparison agrees with comparison of the denoted floats, converting a float yields a nearest representable half (either one on ties), infinity past the range and NaN for NaN, and the named constants and numeric limits are what their names say.",
  ["inputs"], "all 65536 half patterns; all 2^32 float patterns for narrowing",
  "Tests convert a handful of constants.",
  [I+"details/3rdparty/float16_t.hpp"], [("float16_t conversions", I+"details/3rdparty/float16_t.hpp")])
p("C28", "checked access throws out of range and never touches memory outside",
  "at(i) (and the checked accessors of buffers, views, bitsets, arrays and record batches) returns element i when i is less than the size and throws std::out_of_range (or the documented exception) otherwise, for every 64-bit index, leaving the object unchanged.",
  ["inputs"], "all 64-bit index values, all sizes within the bound, every type offering checked access",
  "Tests try one index past the end.",
  [I+"buffer/buffer.hpp", I+"buffer/dynamic_bitset/dynamic_bitset_base.hpp", I+"layout/array_base.hpp", "src/array.cpp"],
  [("bounds checks", I+"")])
p("C29", "array iterators and value/bitmap ranges satisfy the range laws",
  "For every layout, iterating begin..end (and in reverse where bidirectional) visits exactly the elements operator[] gives, in order; iterator arithmetic, differences and comparisons agree with index arithmetic, and zip of the value range and the bitmap range yields the same nullables.",
  ["inputs"], "all lengths, contents, validity and iterator positions within the bound, every layout and sliced arrays",
  "Tests walk one array with ++ only or sample a few positions.",
  [I+"layout/layout_iterator.hpp", I+"utils/iterator.hpp", I+"utils/functor_index_iterator.hpp", I+"layout/array_base.hpp"],
  [("layout_iterator / functor_index_iterator / iterator_base", I+"utils/iterator.hpp")])
p("C30", "lexicographic comparison helpers implement the mathematical order",
  "lexicographical_compare and its three-way form agree with the definition of lexicographic order on all pairs of sequences, the resulting order on variable-size binary references and list values agrees with their contents, and equality of list/struct/string elements is content equality whatever array they come from.",
  ["inputs"], "all pairs of sequences (contents, lengths, nullness) within the bound",
  "Tests compare a few literal pairs.",
  [I+"utils/algorithm.hpp", I+"layout/variable_size_binary_layout/variable_size_binary_reference.hpp", "src/list_value.cpp", "src/struct_value.cpp"],
  [("lexicographical_compare_three_way", I+"utils/algorithm.hpp")])
p("C31", "null arrays are sequences of nulls of the stated length",
  "A null array of any size has that size, every element is null, iteration visits that many nulls, all-null bitmap and value ranges have that length, and slicing or copying it gives the null array of the corresponding length with a consistent exported structure without buffers.",
  ["inputs"], "all sizes within the bound and all positions",
  "Tests use one fixed size.",
  [I+"layout/null_array.hpp", I+"utils/repeat_container.hpp"], [("null_array accessors", I+"layout/null_array.hpp")])

p("C32", "structure factories encode the sequences they are given",
  "The factories for Arrow structures (make_primitive_arrow_array, make_variable_size_binary_arrow_array, make_dictionary_encoded_arrow_array, their schemas, make_bitmap_buffer) and the buffer helpers behind them (range_to_buffer, strings_to_buffer, number_of_bytes, make_offset_buffer) lay out exactly the given values, offsets and null positions: the structures conform to the Arrow format, including a null count that counts the nulls at or after the offset, and an array over them has exactly the given elements.",
  ["inputs"], "all values, null positions and offsets within the size bounds",
  "Tests use a few fixed sequences with one null and one offset.",
  [I+"arrow_interface/arrow_array_schema_factory.hpp", I+"utils/buffers.hpp", I+"utils/offsets.hpp"], [("structure factories", I+"arrow_interface/arrow_array_schema_factory.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["title"]
        f.write(json.dumps(e) + "\n")
print(len(P))
