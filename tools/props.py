PROPS = []
NOTE = ("Holds on the executions generated by this run (counts in the evidence); clang ASan+UBSan (TSan for the concurrent workloads) with fatal reports, "
        "reference oracle inside the harness. Trusts the compiler, sanitizer runtime and libstdc++.")


def P(id, title, statement, forall, why, files, mech, observe, tech, over=("inputs",), note=NOTE, na=None):
    d = dict(id=id, title=title, statement=statement, forall=forall, why=why, files=files, mech=mech,
             observe=observe, tech=tech, over=list(over), note=note)
    if na:
        d["na"] = na
    PROPS.append(d)


P("C01", "string_view queries agree with std::basic_string_view",
  "For every view contents, needle, character set and start position inside the text, and for every character type, daw::basic_string_view's element access, substr, copy, compare and relational operators, starts_with/ends_with/contains, find, rfind, search, find_first_match and find_first/last(_not)_of families (and their predicate forms) return what the same query on a std::basic_string_view of the same characters returns, npos when there is no match; ordering is lexicographic by the character type's operator<, and find_last_of is only specified without a start position. Checked element access and substr past the end throw std::out_of_range, and stream insertion honours width, fill and alignment as for std::string_view.",
  "all strings over small and full alphabets incl. embedded zeros and high bytes, all needles/sets/positions, char/wchar_t/char8_t/char16_t/char32_t",
  "unit tests sample a few English strings; the char fast paths (memchr/wmemchr), the constant-evaluated path and position handling only differ on unusual widths and positions",
  ["daw_string_view.h", "impl/daw_string_impl.h"],
  [("find/rfind/find_first_of families", "daw_string_view.h"), ("strnlen/memchr helpers", "impl/daw_string_impl.h")],
  ["return values of the query members"], "differential monitor against std::basic_string_view under ASan/UBSan")
P("C02", "string_view consuming operations partition the text exactly",
  "Every pop_front/pop_back/try_pop/remove_prefix/remove_suffix/dedent, ..._until/_while and trim operation leaves the view and its result as adjacent parts of the original text: together with the one documented delimiter (kept with nodiscard, dropped otherwise) they reproduce it, with the split at the first (from the back: last) match. The try_ variants leave the view unchanged and return an empty result when there is no match, the others consume everything.",
  "all texts, delimiters (character, string, predicate) and operation sequences on one view",
  "tests check single hand-written splits; adjacency of the parts over long operation sequences, absent delimiters and delimiters at either end are not enumerated",
  ["daw_string_view.h"], [("pop_front_until/pop_back_until/try_pop_*", "daw_string_view.h")],
  ["returned view and remaining view"], "partition monitor (pointer adjacency + reference splitter) over random operation histories", over=("inputs", "histories"))
P("C03", "string_view stays inside its range and never lies about termination",
  "No string_view operation reads a character outside [data(), data()+size()), whatever follows or precedes the range in memory. A view that reports itself zero terminated really has a zero character at data()+size(), through every construction, substring, pop, remove and swap, and c_str access always yields a zero terminated copy or pointer to exactly the view's characters.",
  "all views into exact-size heap buffers, all operation histories",
  "literals in tests always have a terminator after them, so over-reads and wrong termination flags are invisible",
  ["daw_string_view.h"], [("make_string_view/zero-terminated tag", "daw_string_view.h")],
  ["ASan reports", "is_zero_terminated", "get_c_str"], "ASan red-zone monitoring of exact heap buffers + termination-flag monitor", over=("inputs", "histories"))
P("C05", "daw::vector and split_buffer behave as sequences with exact element lifetimes",
  "After every operation history daw::vector, and the split_buffer it grows through (pushes and pops at both ends, construction at the end, moves between allocators), holds exactly the sequence a standard sequence would hold, with size, capacity, front/back/at and iteration consistent and at() throwing out_of_range past the end. Every element is constructed and destroyed exactly once, storage is released exactly once, and an exception from an element constructor or assignment leaves a valid container that leaks nothing and has lost nothing on operations documented as strong.",
  "all operation histories over copyable, move-only and throwing element types, with an exception injected at every possible point",
  "unit tests run short int histories; growth boundaries, aliasing insertion, multi-step erase/insert mixes and throwing elements are not sampled",
  ["vector.h", "split_buffer.h", "wrap_iter.h", "vector_algorithm.h"], [("growth and split_buffer relocation", "vector.h"), ("transaction guard", "vector.h")],
  ["contents after every step", "constructor/destructor events", "heap block balance"], "model-based history monitor with lifetime ledger and fault injection", over=("histories", "fault_sequences", "inputs"))
P("C06", "bounded containers behave as capacity-limited sequences",
  "Within its capacity, bounded_vector_t behaves under every history of push, emplace, pop at either end, erase, resize, assign, swap, copy and element writes exactly like std::vector: contents, order, size, returned positions and iteration in both directions agree, and capacity, available, full and has_room always state exactly how many more elements fit, also after elements were removed from the front. Resizing past the capacity or removing more elements than there are throws std::out_of_range, checked access past the end aborts, and nothing outside the object's own storage is ever read or written. daw::array, simple_array, to_array, make_array and make_string_array hold exactly the elements they were given.",
  "all operation histories and capacities",
  "tests use one capacity and a handful of pushes; wrap, erase, resize and boundary behaviour are not sampled",
  ["daw_bounded_vector.h", "daw_bounded_array.h", "daw_simple_array.h", "daw_array.h"], [("bounded_vector push/insert/erase", "daw_bounded_vector.h")],
  ["contents after every step", "ASan/UBSan reports"], "model-based history monitor", over=("histories", "inputs"))
P("C07", "Owning smart pointers delete each resource exactly once",
  "Under every history of construction, move, swap, reset, release and destruction, unique_ptr, maybe_unique_ptr, unique_array and unique_resource dispose of each owned resource exactly once with the deleter it was given, never dispose of one that was released or is not owned, and never leave a dangling pointer observable. Observers (get, bool, dereference, comparison, size, at) always reflect the currently held pointer.",
  "all operation histories over a pool of handles and resources, stateful and stateless deleters",
  "tests check single transfers; multi-step histories mixing owned and unowned, self operations and empties are not sampled",
  ["daw_unique_ptr.h", "daw_maybe_unique_ptr.h", "daw_unique_array.h", "daw_unique_resource.h"], [("move/reset/release", "daw_unique_ptr.h"), ("ownership flag", "daw_maybe_unique_ptr.h")],
  ["deleter invocations per resource id"], "exactly-once deletion monitor over random ownership histories", over=("histories",))
P("C08", "rc_ptr reference counts match the live handles",
  "At every point of every history of copies, moves, swaps, resets and destructions, an rc_ptr's object is alive if and only if at least one handle refers to it, its use_count equals the number of handles referring to it, and it is deleted exactly once when the last handle goes away. Comparisons, get, dereference and indexing reflect the object each handle refers to.",
  "all histories over pools of handles to shared objects and arrays",
  "tests exercise one or two handles; counts only go wrong after longer mixes of reset, self assignment and empty handles",
  ["daw_ref_counted_pointer.h"], [("ref counter block", "daw_ref_counted_pointer.h")],
  ["use_count", "destructor events"], "reference-count conservation monitor over random handle histories", over=("histories",))
P("C09", "Value-semantic holders copy deeply and destroy once",
  "value_ptr, poly_value, sbo storage and heap_value own exactly one value: a copy has an equal and independent value, a move transfers it, assignment replaces the old one, and each value is destroyed exactly once whatever the history. Holders of a polymorphic base keep the dynamic type of the stored object across copies and moves.",
  "all histories over pools of holders and value types, with throwing copies",
  "tests copy once; self assignment, moved-from reuse and exceptions while replacing are not sampled",
  ["daw_value_ptr.h", "daw_poly_value.h", "daw_sbo.h", "deprecated/daw_heap_value.h", "daw_poly_var.h"], [("copy/assign", "daw_value_ptr.h"), ("clone storage", "daw_poly_value.h")],
  ["value read back", "constructor/destructor events"], "model-based history monitor with lifetime ledger", over=("histories", "fault_sequences"))
P("C10", "optional, expected, union_pair and validated are exact sum types",
  "Under every history of construction, assignment, emplace, reset, swap and observation, optional, expected_t, union_pair and validated hold exactly the alternative last stored, with every observer (has_value, value, get, value_or, comparison, exception access, visit) agreeing with it. Asking for the absent alternative fails by the documented exception, and the contained value is constructed and destroyed exactly once.",
  "all histories and all alternatives, trivial and non-trivial payloads, throwing payloads",
  "tests take a few transitions; the state graph of alternative to alternative transitions with non-trivial payloads is not covered",
  ["daw_optional.h", "daw_expected.h", "daw_union_pair.h", "daw_validated.h"], [("discriminant handling", "daw_union_pair.h"), ("optional storage", "daw_optional.h"), ("expected_t", "daw_expected.h")],
  ["observers after every step", "constructor/destructor events"], "model-based state-transition monitor with lifetime ledger", over=("histories", "fault_sequences"))
P("C11", "Type-erased callables forward faithfully and own their target",
  "Calling daw::function, function_ref, function_view, shared_function, function_table, bind_front, bind_args_at or make_callable calls exactly the currently bound target once with the given arguments (lvalue references keep their identity, rvalues and move-only values are passed on, lvalue arguments are not moved from) and returns its result or propagates its exception. Owning wrappers hold their own copy of the target; copying, moving, assigning, converting or clearing them never loses, aliases or double destroys a target, shared_function's target lives exactly as long as its last owner whatever weak handles exist (lock succeeds exactly while an owner is alive), and views never copy their target. An empty daw::function reports empty and calling it throws std::bad_function_call.",
  "all histories over pools of wrappers and targets of different size, state and copyability",
  "tests call a lambda or two; ownership histories across wrappers and rebinding are not sampled",
  ["daw_function.h", "daw_function_ref.h", "daw_function_view.h", "daw_stack_function.h", "daw_shared_function.h", "daw_function_table.h"], [("erased storage", "daw_function.h"), ("function_storage", "daw_stack_function.h")],
  ["call log of targets", "constructor/destructor events"], "call-log and lifetime monitor over random wrapper histories", over=("histories", "inputs"))
P("C12", "Shared and atomic primitives are race-free and lose no update",
  "Concurrent use of daw::atomic, of the atomic_wait functions and of distinct handles to a shared_function target from any number of threads has no data race: every read-modify-write takes effect exactly once and orders what it claims to order (default: sequentially consistent); a waiter returns found only once the awaited condition was published, then sees what was written before it, and misses no wake-up; a timed wait whose condition never holds returns timeout, not before its time, and one whose condition holds returns found; and the shared target is destroyed exactly once after its last owner, never under a locked weak handle.",
  "thread interleavings of 2-8 threads over shared primitives",
  "unit tests run these primitives from one thread or one fixed interleaving",
  ["daw_cx_atomic.h", "daw_atomic_wait.h", "daw_shared_function.h"], [("atomic operations", "daw_cx_atomic.h"), ("wait/notify", "daw_atomic_wait.h"), ("ref count", "daw_shared_function.h")],
  ["per-thread event logs", "TSan reports"], "ThreadSanitizer stress + conservation monitors over recorded events", over=("schedules",))
P("C13", "Hash tables and lookup maps implement a finite map",
  "After every history of insert, overwrite, lookup, erase, clear and copy, bounded_hash_map, bounded_hash_set_t, hash_set_t, static_hash_t, fixed_lookup, ordered_map and perfect_hash_table (each with the operations it offers) answer like a reference finite map or set: a key is found (exists, contains, count, find, try_get, at, operator[]) if and only if it is present and then with its latest value, find of an absent key gives end/null, size counts the distinct keys, and iteration forwards or backwards visits each key exactly once (ordered_map: in first insertion order). This holds for every collision pattern, every fill level up to the full capacity, and after erasing keys in the middle of a probe sequence. Only a new key in a full table is refused (by exception or abort), leaving the contents as they were. Keys of static_hash_t and fixed_lookup are identified by their 64 bit hash.",
  "all histories with colliding, equal-modulo and random keys up to full capacity",
  "tests insert a few distinct keys; probing, deletion inside a probe chain and wrap-around need specific collisions",
  ["static_hash_table.h", "deprecated/daw_bounded_hash_map.h", "deprecated/daw_bounded_hash_set.h", "daw_hash_set.h", "deprecated/daw_ordered_map.h", "deprecated/daw_fixed_lookup.h", "daw_min_perfect_hash.h"],
  [("probing and removal", "deprecated/daw_bounded_hash_map.h"), ("lookup", "static_hash_table.h")],
  ["lookup results after every step"], "model-based history monitor with collision-heavy keys", over=("histories", "inputs"))
P("C14", "Graphs keep their edges consistent and walks visit correctly",
  "After every history of adding and removing nodes, directed and undirected edges and of writing values, graph_t and bounded_graph_t (within its capacity) hold exactly the nodes, values, incoming and outgoing edges of a reference adjacency relation: edges always refer to existing nodes and appear on both ends, ids are never reused, node handles compare equal only for the same node, and find_roots, find_leaves, find_by_value and visit report exactly the matching nodes. bfs_walk and dfs_walk visit exactly the nodes reachable from the start, breadth first by distance (a node may be reported again, never earlier than its distance allows) and depth first with each node once; with an ordering, siblings come in its order. The topological walks and ranges yield every node that is not behind a cycle exactly once and after all its predecessors, their reverse forms the same backwards, and with an ordering the greatest available node comes next. mst only removes edges, keeps everything reachable from some root and leaves a tree below every root.",
  "all small graphs (random DAGs, cyclic, disconnected, multi-edge) and edit histories",
  "tests use one or two fixed graphs",
  ["daw_graph.h", "daw_graph_algorithm.h", "deprecated/daw_bounded_graph.h"], [("edge maps", "daw_graph.h"), ("walks and MST", "daw_graph_algorithm.h")],
  ["node/edge queries after every edit", "walk event sequence"], "reference adjacency model + walk-order monitors on random graphs", over=("histories", "inputs"))
P("C15", "uint8..uint64 wrappers compute exactly modulo 2^N",
  "For every pair of operands, the arithmetic (+ - * /), bitwise, shift, comparison, increment, decrement and compound assignment operators of daw::UInt8/16/32/64, among each other and with std::uintN_t operands, give the mathematically exact result reduced modulo 2^N of the result type; the result of a binary operator has the width of the wider operand (a native operand is at most as wide as the wrapper, or has an overload of its own) and a shift that of its left operand, shift counts being smaller than the width. rotate_left/right (a full turn and zero are the identity), get_bit, set_bit, mask_from_lsb, to_uintN, the _uN literals (for every value that fits) and numeric_limits are exact for every value and bit position, and to_uint16/32/64_buffer read exactly 2, 4 or 8 bytes, little endian, for every byte type.",
  "all operand pairs (exhaustive for 8 bit, boundary-biased for wider)",
  "tests check a few constants",
  ["daw_uint_types.h", "daw_uint_buffer.h"], [("operators", "daw_uint_types.h")],
  ["operator results"], "exact-arithmetic differential monitor")
P("C16", "Integer parsing and formatting round trip and reject bad input",
  "parse_to<T...> returns exactly the value denoted by each delimited field for every value of every integer type (and bool), for char, float, double, quoted and unquoted strings; an empty or missing field is reported as empty_input_exception and malformed or out of range text as invalid_input_exception or numeric_overflow_exception, never as a wrong value and never by reading outside the text. Fields are separated by the literal delimiter or by (runs of) whitespace; construct_from, apply_string, apply_string2 and values_from_stream agree. from_string returns the value of the longest numeric prefix or nullopt. parse_int and parse_unsigned_int of the parser helpers return exact values for texts of up to digits10 digits and throw std::out_of_range beyond. The parser helpers (until*, split_on, split_if, from_to, trim*, skip_ws, find_number, parse_string_literal, matcher, starts_with, character classes, expect/assert helpers) report the documented match with positions inside the input. daw::Arguments keeps every argument, in order, with its --name=value split and its quotes stripped, and finds the first of a name.",
  "all integer values at type boundaries, random and mutated texts",
  "tests parse a few small numbers; limits, signs, overflow by one digit and malformed tails are not sampled",
  ["daw_parse_to.h", "daw_from_string.h", "daw_parser_helper.h", "daw_parser_helper_sv.h", "daw_parse_args.h", "daw_parser_addons.h"], [("parse_to_value", "daw_parse_to.h"), ("parse_int", "daw_parser_helper.h")],
  ["parsed value or error"], "round-trip and rejection monitor on exact buffers")
P("C17", "Bit utilities are bit exact",
  "For every value and bit position of every integer width, mask_msb/mask_lsb, make_mask, are_set (any of the given masks, in the common type of all operands), set_bits, unset_bits, get_bits, reverse_bits and bit_cast return the bit-exact result of their definition; to_little/big_endian, to_native_endian<source> and network_to_host_endian swap exactly when the byte orders differ and undo themselves. daw::bitset changes exactly the addressed bit and create_bitset_from_set_positions sets exactly the given positions. basic_bit_queue and basic_nibble_queue keep the bits in the order pushed (the value holds the oldest bit highest): pop_back removes the oldest bits, pop_front the most recently pushed ones, both in order and without loss, with exact size, capacity, can_pop and value, for every history of pushes and pops that fit, up to the full width of the queue.",
  "all values (exhaustive small widths, boundary-biased wide), all operation histories",
  "tests check a few constants",
  ["daw_bit.h", "daw_bit_cast.h", "daw_bit_count.h", "daw_endian.h", "daw_integer_reverse.h", "daw_bitset.h", "daw_bitset_helper.h", "daw_bit_queues.h"], [("bit operations", "daw_bit.h"), ("bitset", "daw_bitset.h"), ("bit queue", "daw_bit_queues.h")],
  ["results"], "bit-exact differential monitor and queue model", over=("inputs", "histories"))
P("C18", "Math helpers match their definitions over the whole domain",
  "For every argument in their domain the constexpr math functions (sqrt, ldexp, pow2, powers by integers, power-of-ten and power-of-two tables, round/floor/ceil and rounding to a multiple, abs, copy_sign, floating-point classification, exponent and significand access, sin/cos, factorial, popcount, leading/trailing zero counts, digit counts, min/max) return the mathematically defined value: exactly where the result is exact, else within a small tolerance. The integer comparison and range helpers (cmp_*, in_range) agree with exact mathematical comparison for every pair of integer types. A natural_t never holds a value below 1: an operation whose exact result would be below 1 throws invalid_natural_number and leaves the operand unchanged, any other representable result is exact.",
  "all floating-point classes incl. subnormals, infinities, NaN and boundary values; all integer type pairs",
  "tests sample a few values",
  ["daw_cxmath.h", "daw_math.h", "impl/daw_math_impl.h", "daw_int_cmp.h", "daw_arith_traits.h", "daw_natural.h"], [("float decomposition", "daw_cxmath.h")],
  ["results"], "differential monitor against libm / exact integer arithmetic")
P("C19", "daw::algorithm functions equal their standard counterparts",
  "For every input range the functions of daw::algorithm (find, search, bounds, min/max, sortedness, comparison, fold, copy, transform, fill, iota, partial_sum, remove, partition, rotate, reverse, slide, gather, nth_element, split, partition_range, the find_index/contains/satisfies families, extract_*, swaps and the safe position helpers) return the same result and leave the same element values as the std algorithm or definition they name, which of several equal elements included; they touch only the given ranges, write exactly the output elements, and transform, transform_if, transform_n, copy_if, count_if, accumulate, find_if, partition and remove_if call the user function exactly as often as their definition says. safe_advance, safe_next, safe_prev and begin_at stop at the ends of the range. binary_search refuses an empty range and in_range refuses crossed bounds.",
  "all ranges (empty, one element, duplicates, already sorted, overlapping as allowed), predicates and iterator categories",
  "tests use one or two arrays per function",
  ["daw_algorithm.h", "algorithms/daw_algorithm_accumulate.h", "algorithms/daw_algorithm_find.h", "algorithms/daw_algorithm_copy.h", "algorithms/daw_algorithm_copy_n.h", "algorithms/daw_algorithm_adjacent_find.h", "algorithms/daw_algorithm_find_transform.h", "algorithms/daw_algorithm_partial_sum.h", "algorithms/daw_array_compare.h", "daw_algorithm_cx.h"],
  [("algorithm bodies", "daw_algorithm.h")], ["results, element values, call counts"], "differential monitor against std algorithms on exact buffers")
P("C20", "Container algorithms act on the whole container and nothing else",
  "For every container with begin/end, the daw::container algorithms (sort, stable_sort, find, find_if, contains, max_element, accumulate, transform, partition, stable_partition, erase_remove, erase_remove_if, copy, copy_n, copy_if, append, for_each_with_pos, for_each_subset, container_size) produce exactly the result of the standard algorithm over the whole container, including which of several equal elements is chosen and how equal elements are ordered. Query algorithms leave the container unchanged, copies never go past the container's end, and mutating ones neither lose nor duplicate elements.",
  "all containers and predicates", "tests use one vector per function",
  ["daw_container_algorithm.h", "daw_container_traits.h"], [("wrappers", "daw_container_algorithm.h")],
  ["results and container contents"], "differential monitor against std algorithms")
P("C21", "Sorting networks and daw::sort sort every input and only permute it",
  "The sorting networks sort_3 to sort_8, sort_16 and sort_32, and daw::sort and sort_to for any length, turn every input into its sorted permutation under the given strict weak ordering (ascending or descending, integral or not, negative values and long runs of equals included), moving elements without losing or duplicating any. Elements outside the sorted range are never read or written and sort_to leaves its source unchanged.",
  "all permutations and all 0/1 inputs up to the supported size, random inputs with duplicates",
  "tests sort one array per size; by the 0-1 principle a network needs all 2^n binary inputs",
  ["daw_sort_n.h"], [("sorting networks", "daw_sort_n.h")],
  ["resulting arrays"], "exhaustive 0-1 inputs and permutations with conservation monitor")
P("C22", "Iterator adaptors satisfy their iterator category's laws",
  "Every iterator adaptor yields exactly the element sequence its name defines, and increments, decrements, offsets, differences, comparisons and dereference agree with one position in that sequence, as far as the adaptor offers them: reverse, circular (positions modulo the container's size, any signed offset), forward and bidirectional counting (distance() is the signed number of steps taken), iota_iterator/iota_range (first, first+step, ... while before last, for positive and negative steps, integers and doubles; empty when last is not ahead), integer_range, chunk (steps by the chunk width; the subscript addresses inside the current chunk), find_iterator and find_one_iterator (exactly the matching elements in order, with the index of the first filter that matches), indexed_iterator, zip_iterator (all parts move together, including negative advance), repeat_n_char, pointer_iterator, RandomIterator, arg_iterator_t (at() throws out of range) and the type-erased InputIterator/InputRange (also when assigned across different underlying iterator types). The checked proxy throws out_of_range for exactly the enabled checks. Sorted-insert keeps the container sorted; back, end, function, stream and plain inserters store each assigned value once, in order. daw::next, prev, advance and distance move exactly n steps, backwards too for bidirectional iterators. Nothing outside the underlying range is read or written.",
  "all underlying ranges and random walks of iterator arithmetic", "tests walk forward over one range",
  ["iterator/daw_reverse_iterator.h", "iterator/daw_circular_iterator.h", "iterator/daw_counting_iterators.h", "iterator/daw_iota_iterator.h", "iterator/daw_integer_iterator.h", "iterator/daw_chunk_iterator.h", "iterator/daw_find_iterator.h", "iterator/daw_indexed_iterator.h", "iterator/daw_zipiter.h", "iterator/daw_sorted_insert_iterator.h", "iterator/daw_repeat_n_char_iterator.h", "iterator/daw_checked_iterator_proxy.h", "iterator/daw_pointer_iterator.h", "iterator/daw_back_inserter.h", "iterator/daw_end_inserter.h", "iterator/daw_inserter.h", "iterator/daw_find_one_iterator.h", "iterator/daw_function_iterator.h", "iterator/daw_output_stream_iterator.h", "iterator/daw_argument_iterator.h", "iterator/daw_random_iterator.h", "iterator/InputIterator.h", "cpp_17_iterator.h"],
  [("iterator arithmetic", "iterator/daw_circular_iterator.h")], ["dereferenced elements along random walks"], "index-model monitor along random iterator walks", over=("inputs", "histories"))
P("C23", "Pipelines compute the composition of their stages",
  "A pipeline over any input range (including empty, short, exact-multiple, bidirectional, forward-only and single-pass inputs) produces exactly the sequence obtained by applying each stage's definition in order to the whole range: Map and Filter (with projection), Take/Skip by count, TakeWhile/TakeUntil/DropWhile/DropUntil, Every, Unique, Clamp, Reverse, Chunk, Slide, Split (by value, predicate or range; an empty part at the very end is not reported), Flatten, Zip (stops at the shortest range), Concat, Enumerate/EnumerateFrom, Element/Elements/Swizzle/MapApply, CacheLast, Sample with a given engine, Sort (in place on lvalues), the searches and reductions, and To. Iterator arithmetic of the produced views agrees with positions in that sequence. Views are lazy, never read past the input's end and do not modify the source. Chunk, Slide and Every take a size of at least 1. The stages are views: the source must outlive them, so a temporary container is not a source.",
  "all input lengths, stage parameters and stage compositions", "tests run one composition per stage on one input",
  ["pipelines/pipeline.h", "pipelines/algorithm.h", "pipelines/map.h", "pipelines/filter.h", "pipelines/take.h", "pipelines/skip.h", "pipelines/drop.h", "pipelines/chunk.h", "pipelines/slide.h", "pipelines/zip.h", "pipelines/enumerate.h", "pipelines/flatten.h", "pipelines/concat.h", "pipelines/every.h", "pipelines/split.h", "pipelines/unique.h", "pipelines/reverse.h", "pipelines/elements.h", "pipelines/sample.h", "pipelines/find.h", "pipelines/numeric.h", "pipelines/iota.h", "pipelines/cache_last_view.h", "pipelines/range.h", "pipelines/to.h"],
  [("stage iterators", "pipelines/chunk.h")], ["produced sequences"], "differential monitor against direct sequence definitions", over=("inputs", "programs"))
P("C24", "span, contiguous_view and writers are faithful bounded windows",
  "Every span, contiguous_view, view and iter_view operation within its stated preconditions denotes exactly the documented sub-range of the underlying elements: element access, iteration in both directions, sub-ranging, removal, popping up to or while an element, searching and comparison agree with the same operation on the copied sequence, and a write through a mutable view reaches exactly the addressed element. at() with an index outside the view throws out_of_range, subspan past the end and over-long removals are refused or clipped as documented per type, and view, contiguous_view and iter_view pops of more elements than there are take what there is. span_writer and write_to_span store exactly the given values at the front of the buffer, never outside it, report the remaining room, and terminate when the values do not fit. ring_adaptor is a first-in first-out queue over the storage it was given for every sequence of push, emplace, pop and clear that stays within its capacity, including after wrap-around. zip_container iterates its containers in lock step. Over-long remove_prefix/remove_suffix on span and view and ring overflow or underflow are preconditions.",
  "all ranges and operation histories", "tests slice one array",
  ["daw_span.h", "daw_contiguous_view.h", "daw_view.h", "daw_iter_view.h", "daw_span_writer.h", "daw_ring_adaptor.h", "daw_zipcontainer.h"], [("sub-ranging", "daw_span.h"), ("try_write", "daw_span_writer.h")],
  ["contents and pointers of windows"], "model-based monitor on exact heap buffers", over=("inputs", "histories"))
P("C25", "Hash functions implement their published algorithms",
  "daw::fnv1a_hash and fnv1a_hash_t, siphash24, metro::hash64 and generic_hash<4>/<8> (FNV-1a of 32 and 64 bits) return, for every byte string, key and seed, the value of the published algorithm, including bytes above 0x7F and every length; the value is the same for every equivalent way of presenting the same bytes (iterator ranges of any category, pointer and length, string-like types, C strings up to their terminator, element-wise appending, compile time or run time). An integer, an object behind a pointer, an array and a sequence of integers hash as their little-endian memory image (an array literal passed to generic_hash includes its terminator). Hashing reads exactly the given bytes. generic_hash<2> is an unfinished stub and not covered.",
  "all byte strings and lengths incl. unaligned starts", "tests compare a few strings",
  ["daw_fnv1a_hash.h", "daw_sip_hash.h", "daw_metro_hash.h", "daw_generic_hash.h"], [("mix functions", "daw_metro_hash.h")],
  ["hash values"], "differential monitor against independent reference implementations on exact buffers")
P("C26", "Tuples and packs preserve every element and its position",
  "daw::tuple, tuple2, compressed_pair and fwd_pack hold exactly the given values or references; element access reads and writes exactly the indexed element, copies nothing, and on an rvalue hands the element out as an rvalue (references stay references); copies are independent, moves never copy, and equality of daw::tuple is element-wise and false for other sizes. tuple2_cat keeps every element of every operand once and in order. apply and invoke call the function once with every element in order, with the tuple's value category, and return exactly its result. compressed_pair's piecewise construction forwards its arguments. nth_pack_element and forward_nth_pack_element select the indexed argument. bind_args_at inserts the stored arguments at the given position on every call (arguments travel by value). The std::tuple helpers apply operators, min and max element-wise, visit every element once in order, and address the element whose run-time index is given.",
  "all element values and indexes, copy/move histories", "tests check one tuple",
  ["daw_tuple.h", "daw_tuple2.h", "daw_tuple_helper.h", "compressed_pair.h", "daw_apply.h", "daw_fwd_pack_apply.h", "daw_bind_args_at.h", "daw_nth_pack_element.h", "daw_tuple_forward.h"], [("get", "daw_tuple.h")],
  ["element values"], "differential monitor against std::tuple")
P("C27", "Scope guards run exactly once on the promised exits",
  "A ScopeGuard runs its function exactly once: when the scope ends (normally, by break/continue/return/goto or by an exception) or at run_now(), whichever comes first, and never after cancel/dismiss or from a moved-from guard; a function that throws from run_now is not run again. on_exit_success runs its handler exactly once when the scope it guards is left without an exception, and not when it is left by one, also when that scope itself runs during the unwinding of another exception. Guards run in reverse order of creation. unique_resource calls its deleter exactly once for every resource it owned and did not release, across reset, emplace, moves and destruction. countable_resource_t::value is the number of live objects, also after concurrent creation and destruction. allow_once_t lets exactly one caller through (check() returns false) between resets, also with racing callers, and what that caller wrote before is visible to later callers.",
  "all exits (normal, exception, nested, during unwinding), moves and dismissals", "tests use one guard with one exit",
  ["daw_scope_guard.h", "daw_unique_resource.h", "daw_countable_resource.h", "daw_allow_once.h"], [("destructor", "daw_scope_guard.h")],
  ["action log"], "event-log monitor over generated exit paths", over=("histories", "fault_sequences"))
P("C28", "File reading and mapping expose exactly the file's bytes",
  "read_file returns exactly the bytes of the file, for every size including empty and multiples of the page size (for wider character types the whole characters in it), nullopt for a missing path, a directory or a file that shrinks while it is read, and leaves nothing open; the terminating overload terminates instead. memory_mapped_file_t exposes exactly the file's bytes through operator[], data, begin/end, size and the string_view conversion (whole elements for wider types), writes through a read_write mapping reach the file and a read mapping is not writable. A missing or empty file, a directory, or a failing lseek/mmap leaves it closed: bool is false, empty() true, size() 0. Descriptors and mappings are released exactly once across reopening, moves, swaps, failures and destruction.",
  "all file sizes and open/move/close histories", "tests map one small file",
  ["daw_memory_mapped_file.h", "daw_read_file.h"], [("open/close", "daw_memory_mapped_file.h")],
  ["bytes seen", "open descriptors and mappings"], "byte-exact file monitor with descriptor/mapping accounting", over=("inputs", "histories"))
P("C29", "String building and character helpers are exact",
  "string_concat and string_join build exactly the concatenation, in argument order, of their arguments' text (numbers as std::to_string). daw::string::fmt substitutes {n} by argument n and {n:p} by it with p decimals, leaves {{n} and everything that is not a placeholder as it is, and throws std::out_of_range for a placeholder without an argument or with more than one colon. The ASCII classifiers and case converters agree with the C locale for 0..127 and treat every other value of any integer type as no ASCII character, unchanged. daw::string split, trim, contains, ends_with, search_replace and combine give what naive scans of the text give. hex writes exactly two digits per byte, most significant first for integers; can_fit/narrow_cast accept exactly the representable values (narrow_cast throws std::out_of_range otherwise); bitcount, find_all_where, index_of, append, copy_vector, make_range, construct_from, pack_get/pack_apply and the other helpers of daw_utility.h match their naive definitions.",
  "all strings, formats and characters", "tests check a few strings",
  ["daw_string_concat.h", "daw_ascii.h", "daw_utility.h", "deprecated/daw_string.h"], [("concat", "daw_string_concat.h")],
  ["produced strings"], "differential monitor against naive reference builders")
P("C30", "Contract and exception helpers fire exactly on violated conditions",
  "The checks in daw_exception.h, daw_ensure.h and daw_contract.h do what they say for every condition and every argument list: daw_throw_on_true/false/null (and the dbg_ and Assert forms) throw exactly when the condition says so, the exception has the requested type (or the documented default) and is built from all the arguments; the _or_return forms otherwise hand back the value; assert_all_true/false look at each element in order up to the first offender; no_exception calls the function once and lets nothing out, whatever was thrown; precondition_check and postcondition_check throw the given exception or abort; daw_ensure evaluates a true condition once and stops the program for a false one; a daw::contract refuses exactly the values that break one of its conditions - also after conversion and added conditions - by calling the calling thread's handler, and otherwise holds the value.",
  "all condition values and argument types", "tests check a few throws",
  ["daw_exception.h", "daw_contract.h", "daw_ensure.h", "daw_check_exceptions.h"], [("checks", "daw_exception.h")],
  ["exception type or returned value"], "outcome monitor over all condition/argument combinations")
P("C32", "Variant visitation dispatches to the held alternative",
  "daw::visit and daw::visit_nt call the visitor exactly once, with the alternative the variant currently holds - the object itself, with its constness and as an rvalue exactly when the variant is one - for variants with any number of alternatives, std::variant or another type with index() and get_if/get; they hand back its result (converted to the asked-for result type), let its exceptions pass, and visit throws bad_variant_access when the variant is valueless. variant_cast returns the converted held value or throws bad_variant_access, and can_extract says whether that exact type is held. overload and lift call the member whose arguments match, visit_as shows the object representation and writes it back only when the visitor returns, poly_var always refers to the Base of the object last stored, and any_if evaluates in order up to the first false predicate and is true when none is.",
  "all alternative counts and held alternatives", "tests use small variants; large alternative counts use different dispatch paths",
  ["daw_visit.h", "daw_visit_as.h", "daw_variant_cast.h", "daw_overload.h", "daw_any_if.h", "daw_poly_var.h"], [("dispatch", "daw_visit.h")],
  ["handler call log"], "dispatch monitor over all alternatives of generated variants")
P("C33", "Legacy containers keep sequence semantics",
  "heap_array, fixed_array, carray, copiable_unique_ptr and optional_poly hold exactly the elements last stored under every history of construction, copy, move, swap, assignment (also to itself), clear and release: element access, data, iteration forwards and backwards, front/back and size agree; copies are independent, a moved-from holder is empty, each element is destroyed exactly once, and nothing leaks when copying an element throws. heap_array::find_first_of finds the first equal element, checked access out of range is refused by exception, copiable_unique_ptr compares and hashes like the pointer and optional_poly like an optional (assigning or constructing from a derived object keeps it whole).",
  "all histories", "legacy headers have little or no test coverage",
  ["deprecated/daw_heap_array.h", "deprecated/daw_fixed_array.h", "deprecated/daw_carray.h", "deprecated/daw_copiable_unique_ptr.h", "deprecated/daw_optional_poly.h"], [("copy/move", "deprecated/daw_heap_array.h")],
  ["contents after every step"], "model-based history monitor with lifetime ledger", over=("histories",))
P("C34", "Pointer and reference wrappers keep identity and invariants",
  "not_null never holds null and refuses construction from null, observer_ptr, prop_const_ptr, rw_ref, read_only and reference wrappers always refer to the object last bound, and comparisons, hashes and arithmetic agree with the raw pointers they wrap. Const access never permits modification where const propagation is promised.",
  "all histories of binding, assignment and comparison", "tests check a single wrapper",
  ["daw_not_null.h", "daw_observer_ptr.h", "daw_prop_const_ptr.h", "daw_rw_ref.h", "daw_read_only.h", "daw_reference.h"], [("checks", "daw_not_null.h")],
  ["wrapped addresses"], "address-model monitor", over=("histories", "inputs"))
P("C35", "Small range utilities count and select exactly",
  "The small utilities perform exactly the stated number of steps and keep exactly the selected values: do_n and do_n_arg call the function exactly count (or count / by_n) times in order with the stated arguments, also when a call throws; keep_n always holds the N best values seen in order; take and take_t hand the value over and leave the source reset; a ring_adaptor is a bounded FIFO over its container for any history of pushes, pops and clears; exactly one of any number of racing callers is first through allow_once; a piecewise_factory builds each object from the arguments last set, calling late ones once per object; random helpers stay within their inclusive bounds, refuse reversed ones, repeat for equal seeds, and shuffle only permutes and can reach every arrangement; safe_pointer and tracked_allocator behave as the raw pointer and allocator they wrap and stop an access that leaves the range.",
  "all counts and histories", "tests check single counts",
  ["daw_do_n.h", "daw_keep_n.h", "daw_take.h", "daw_piecewise_factory.h", "daw_ring_adaptor.h", "daw_allow_once.h", "daw_random.h", "daw_tracked_allocator.h", "daw_safe_pointer.h"], [("counting", "daw_do_n.h")],
  ["call counts and kept elements"], "counting and conservation monitors", over=("inputs", "histories"))
P("C36", "Compile-time and run-time evaluation agree",
  "Every constexpr facility that can be evaluated in a constant expression returns the same value there and when executed at run time with the same arguments, although the implementation takes different paths in the two cases (string search and find, daw::atomic, on_exit_success) and although only one of the two evaluators sees the hardware: string_view operations on char, wchar_t, char8_t and char16_t, hashes, endian and bit helpers, UInt arithmetic, integer comparisons, floating point helpers, integer parsing, algorithms, sorting networks, daw::atomic, scope guards, daw::vector, bounded_vector, span, unique_ptr, rc_ptr, shared_function, visit_nt and pipelines.",
  "all arguments of constexpr-callable facilities with split implementations", "tests evaluate most expressions in only one of the two modes",
  ["daw_string_view.h", "daw_cxmath.h", "daw_endian.h", "daw_bit.h", "daw_sip_hash.h", "daw_metro_hash.h", "daw_is_constant_evaluated.h", "daw_cx_atomic.h"], [("is_constant_evaluated branches", "daw_is_constant_evaluated.h")],
  ["both results"], "generated programs comparing constant-evaluated and run-time results under sanitizers", over=("inputs", "programs"))
P("C37", "Formatting and printing write exactly the formatted text",
  "fmt_range, fmt_tuple and fmt_any format a range, tuple or value as its elements in order, each formatted with the given format spec exactly as std::format would format it alone, with the separator between neighbours and the brackets around them (comma and square brackets by default, nested ranges and tuples alike, text as one element), wherever the field stands in the format string, whether it is numbered or not, and whatever kind of output receives it; daw::string_view formats as std::string_view does. print, println, vprint, vprintln, print_log, dump and the pipeline stage Print write exactly that text (and the newline where named) to the file, stream or standard output they are given, and Print passes its argument on. The stream operators of the UInt types write what the native integer would write. The headers may be used in several translation units of a program.",
  "all element types, values, format specs and field positions", "the only test formats one string_view with an empty spec",
  ["daw_format_range.h", "daw_format_tuple.h", "daw_formatters.h", "daw_format_string_view.h", "daw_print.h", "daw_print_ostream.h", "daw_uint_buffer_ios.h", "pipelines/print.h"], [("parse and format", "daw_format_range.h"), ("print", "daw_print.h")],
  ["text written"], "captured output compared with std::format of every element", over=("inputs",))
P("C38", "Language helpers do exactly what the expression they stand for does",
  "The helpers that wrap a language feature behave like it, for every argument: bind_front and DAW_LIFT call the target once with the bound and given arguments in order, with their value category, and a binder can be called and copied any number of times; nsc_and and nsc_or evaluate every operand and return the conjunction or disjunction; named parameters give the value passed for that option in whatever order, otherwise its default, and consume nothing; mutable_capture, move_only, move_only_base, virtual_base and exchange keep, hand over and destroy the value exactly once; cswap, swap_ranges and iter_swap exchange values exactly, also with themselves; uninitialized_storage, construct_a and construct_at build exactly one object, in place and aligned, and destroy nothing by themselves; offset_of, fixed_cast, data_end, forward_like and the bit_cast range functions keep addresses, value categories and every bit; comparison operators made from compare(), the ordering enumerations, integer constants and the pointer combinators and_then, or_else and transform agree with the plain comparison, value and branch.",
  "all arguments, value categories and histories of use", "tests check a few of the helpers with one argument each",
  ["daw_bind_front.h", "daw_lift.h", "daw_logic.h", "daw_named_params.h", "daw_mutable_capture.h", "daw_move_only.h", "daw_swap.h", "daw_exchange.h", "daw_operators.h", "daw_virtual_base.h", "daw_uninitialized_storage.h", "daw_construct_a.h", "daw_construct_at.h", "daw_forward_like.h", "daw_ordering_to_integer.h", "daw_cx_offset_of.h", "daw_alias_cast.h", "daw_bit_cast_util.h", "daw_constant.h", "daw_monadic_pointer_ops.h"], [("bound call", "daw_bind_front.h"), ("cswap", "daw_swap.h"), ("construct", "daw_uninitialized_storage.h")],
  ["call logs, values and object lifetimes"], "differential monitors against the plain expression plus an object lifetime ledger", over=("inputs", "histories"))
