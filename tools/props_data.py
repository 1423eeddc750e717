T_MODEL = "stateful property-based testing against a reference model"
prop("C01", "An uncompressed record stream behaves like an array with a cursor",
 "For every sequence of open, read, write, peek, seek, backward read, array read and write, truncate, position save and restore, user-data access, close and reopen on a record stream stored without compression, every returned item, size, offset, can-read answer and error is what an in-memory array with a cursor gives. Writing in the middle overwrites exactly the addressed items, and what was written is what is found after closing and reopening. A rejected operation leaves the contents as they were.",
 ["histories", "inputs", "configurations"], "all operation histories, item sizes (1 to several hundred bytes), block sizes and factors, open modes and cache hints, of streams of up to some tens of blocks",
 "The existing tests run a handful of fixed histories with block sizes so large that few reach a block boundary; the interplay of cached reads and writes, dirty blocks, seeks and truncation depends on the whole history.",
 ["tpie/compressed/stream.h", "tpie/compressed/stream_base.cpp", "tpie/compressed/thread.cpp", "tpie/file_accessor/stream_accessor_base.inl", "tpie/file_accessor/stream_accessor.h"],
 [("seek planning and block switching", "tpie/compressed/stream_base.cpp (perform_seek, update_vars, post_seek)"), ("write-back of dirty blocks through the compressor thread", "tpie/compressed/thread.cpp, tpie/compressed/request.h"), ("header with size and user data", "tpie/file_accessor/stream_accessor_base.inl")],
 state=[("offset and next position", "where the next item is read or written", "compressed_stream_base: m_nextReadOffset, m_nextItem, m_offset"), ("buffer state", "whether the current block must be written back", "compressed_stream_base: m_bufferState, m_bufferDirty")],
 observe=["file_stream<T> public interface", "the file reopened by another stream object"],
 technique=T_MODEL, note="Random operation histories at tiny block sizes compared step by step with a vector and a cursor; shrunk replay on failure. Trusts the model and the file system.")
prop("C02", "A compressed record stream behaves like an appendable array with positions",
 "For every sequence of appends, reads forwards and backwards, peeks, seeks to the ends, saved and restored positions, truncations, user-data access, closing and reopening on a compressed record stream, all items, sizes, offsets and can-read answers are those of an in-memory sequence. Operations a compressed stream does not offer (overwriting the middle, seeking to an arbitrary offset) are refused with an error and change nothing. The contents survive closing and reopening with any supported compression scheme.",
 ["histories", "inputs", "configurations", "schedules"], "all operation histories, item sizes, block sizes, compression schemes and flags, on data from constant to incompressible",
 "The unit tests use one block size and short scripted histories; block boundaries, rewritten last blocks, pending asynchronous writes and restored positions only interact in longer histories.",
 ["tpie/compressed/stream.h", "tpie/compressed/stream_base.cpp", "tpie/compressed/thread.cpp", "tpie/compressed/scheme_snappy.cpp", "tpie/compressed/scheme_none.cpp", "tpie/compressed/stream_position.h"],
 [("block compression requests and responses", "tpie/compressed/thread.cpp, tpie/compressed/request.h"), ("positions of blocks in the file", "tpie/compressed/stream_base.cpp (get_position, set_position, perform_seek)"), ("last block kept for appending", "tpie/compressed/stream_base.cpp (maybe_read_last_block, finish_requests)")],
 observe=["file_stream<T> public interface opened with compression", "the file reopened by another stream object"],
 technique=T_MODEL, note="As C01, on compressed streams with every compression scheme and preference; the compressor thread runs as in production.")
prop("C03", "Legacy streams, multi-cursor files and AMI streams behave like arrays",
 "The block-based uncompressed stream, a file accessed through several cursors at once, and the AMI-style stream with error codes give for every operation history the items, sizes, offsets and errors of an in-memory array with one or several cursors. A write through one cursor is seen by all cursors. Reading past the end reports the end and leaves the position unchanged; nothing beyond the written items is ever read or changed.",
 ["histories", "inputs", "configurations"], "all histories over one stream or one file with several cursors, item sizes, block sizes, open modes, and persistence settings",
 "Tests drive a few fixed scripts with one cursor at a time and default block size; sharing of cached blocks between cursors and the end-of-stream cases are not enumerated.",
 ["tpie/uncompressed_stream.h", "tpie/file_stream_base.h", "tpie/file.h", "tpie/file_base.h", "tpie/file_base.cpp", "tpie/file_base_crtp.h", "tpie/stream_crtp.h", "tpie/stream_old.h"],
 [("block cache shared between cursors", "tpie/file_base.cpp (get_block, free_block)"), ("lazy block switching", "tpie/stream_crtp.h, tpie/stream_crtp.inl"), ("error-code adapter", "tpie/stream_old.h")],
 observe=["uncompressed_stream<T>, file<T>::stream, ami::stream<T> public interfaces"],
 technique=T_MODEL, note="Random histories against vectors with cursors; several cursors attach and detach; memory, file and descriptor accounting compared before and after.")
prop("C04", "The external priority queue returns the smallest element, always",
 "After any sequence of insertions, removals, replacements of the minimum and inspections, the top of the external priority queue is a minimum of the elements inserted and not yet removed, with duplicates kept, and its size is their number. This holds for any amount of memory given to it above its stated minimum, however many elements have been moved to disk. When it is destroyed, memory, files and temporary data are given back.",
 ["histories", "inputs", "configurations"], "all insert and remove histories, distributions of keys, comparators, memory limits and block sizes",
 "Unit tests use one or two memory sizes and monotone patterns; the overflow heap, group and slot merges and refills meet at sizes that depend on the parameters.",
 ["tpie/priority_queue.h", "tpie/priority_queue.inl", "tpie/pq_overflow_heap.h", "tpie/pq_merge_heap.h"],
 [("overflow heap spilled to slots", "tpie/priority_queue.inl"), ("merging of slots into groups and buffers", "tpie/priority_queue.inl (empty_group, fill_buffer, fill_group_buffer)")],
 observe=["priority_queue<T> public interface", "memory and file accounting"],
 technique=T_MODEL, note="Random histories compared with std::multiset, with tiny heap, buffer and block sizes so that every merge path runs, and with the memory-derived parameters of production.")
prop("C05", "External stacks and queues keep their order for any length",
 "For any sequence of pushes, pops, tops and size queries, an external stack returns elements last-in first-out and an external queue first-in first-out, with exact sizes and emptiness, across any number of blocks. A named stack contains after closing and reopening exactly the elements it contained before, and deletes or keeps its file as requested. Popping or peeking an empty container reports that and changes nothing where an error code is offered.",
 ["histories", "inputs", "configurations"], "all push and pop histories, item and block sizes, compression settings and ways of naming the file",
 "The tests push a few million elements in one phase and pop them in another; oscillation at block boundaries and reopening in any state are not covered.",
 ["tpie/stack.h", "tpie/queue.h"],
 [("stack on the end of a stream", "tpie/stack.h"), ("front and back queues with a middle stream", "tpie/queue.h")],
 observe=["stack<T>, queue<T>, ami::stack<T>, ami::queue<T> interfaces"],
 technique=T_MODEL, note="Random histories against std::vector and std::deque at block sizes of a few items.")
prop("C06", "Sorting yields an ordered permutation within its resource limits",
 "For every input, comparator, item size, memory limit and file limit, sorting (incremental external merge sort, sorting of streams in place or into another stream, and in-memory parallel sort) outputs exactly the input items in an order the comparator accepts. Source streams that are not the target stay unchanged, and old contents of the target are replaced. The configured number of open files is not exceeded, memory stays within the configured or minimum amounts apart from blocks in flight, and all resources are released even when the sort is abandoned or moved out of memory between its phases.",
 ["inputs", "configurations", "histories"], "all item sequences (random, equal, sorted, patterned), limits, run lengths, fan-outs and points at which the sorter is evacuated or abandoned",
 "The unit tests sort a few sizes with fixed parameters; multi-level merges, reduced final fan-out, items stored by pointer and evacuation combine only under small limits.",
 ["tpie/sort.h", "tpie/sort_deprecated.h", "tpie/pipelining/merge_sorter.h", "tpie/pipelining/merge_sorter.cpp", "tpie/pipelining/merger.h", "tpie/pipelining/store.h", "tpie/parallel_sort.h", "tpie/sort_manager.h", "tpie/merge_sorted_runs.h", "tpie/mergeheap.h", "tpie/internal_sort.h"],
 [("run formation, merge tree and final merge", "tpie/pipelining/merge_sorter.h"), ("derivation of run length and fan-out from limits", "tpie/pipelining/merge_sorter.cpp (calculate_parameters)"), ("parallel quick sort", "tpie/parallel_sort.h")],
 observe=["merge_sorter, tpie::sort, ami::sort, parallel_sort", "memory manager and file manager counters"],
 technique="property-based testing against std::sort with resource monitors", note="Random data, limits and phases; output compared as ordered permutation; open files and accounted memory sampled throughout.")
prop("C07", "What is serialized is what is unserialized, in both directions",
 "For every sequence of values of every supported type (scalars, trivially copyable structs, strings, vectors, pairs, tuples, nested containers, user types with their own overloads), writing them with a serialization writer and reading them with the matching reader gives the same values: in order with the forward writer and reader, last record first with the reverse ones, and in memory through serialize/unserialize. Sizes, the size of a serialized value, end of data, closing, reopening, emptying and named or temporary files behave as documented; reading past the end is an error, not silent data.",
 ["inputs", "histories", "configurations"], "all value sequences, types and record sizes (also larger than a block), and reopen points",
 "The unit tests serialize a few fixed values; records that straddle blocks, reverse headers of multi-block records and reopened writers depend on exact byte counts.",
 ["tpie/serialization2.h", "tpie/serialization_stream.h", "tpie/serialization_stream.cpp", "tpie/tempname.cpp"],
 [("value layout", "tpie/serialization2.h"), ("blocks, headers and reverse block headers", "tpie/serialization_stream.cpp")],
 observe=["serialize/unserialize, serialization_writer/reader, serialization_reverse_writer/reader", "file and temporary byte counters"],
 technique="round-trip property-based testing", note="Random typed values and record boundaries around block ends; every value compared; memory, files, descriptors and temporary bytes compared before and after.")
prop("C08", "Sorting variable-sized records yields an ordered permutation within its limits",
 "For every input of variable-sized serializable records, comparator and memory limit at or above the minimum, the serialization sorter (and the pipelining node built on it) outputs exactly the input records in an order the comparator accepts, whether they fit in memory or need several runs and merge rounds, and it gives back all memory, files and temporary data, also when it is abandoned in any phase or evacuated.",
 ["inputs", "configurations", "histories"], "all record sequences (record sizes from zero bytes to larger than a run), limits, and abandonment points",
 "The unit tests sort two inputs with one limit; run boundaries depend on byte counts, the number of merge rounds on fan-out, and in-memory reporting is a separate path.",
 ["tpie/pipelining/serialization_sort.h", "tpie/serialization_sorter.h"],
 [("run formation and merge rounds", "tpie/serialization_sorter.h"), ("parameters from the memory limit", "tpie/serialization_sorter.h (calculate_parameters)")],
 observe=["serialization_sorter, pipelining serialization_sort", "memory and file accounting"],
 technique="property-based testing against std::sort with resource monitors", note="Random strings, numbers and records with tight limits; ordered permutation and resource accounting checked.")
prop("C09", "A B-tree is an ordered sequence with correct augmentation, in every storage",
 "For every history of building, insertion, erasure, lookup and iteration on a B-tree of any flavour (in memory, external, serialized with any compression; ordered, unordered; static; keyed; augmented; any fan-out) the tree contains the same sequence as a sorted list with equal keys in insertion order. find gives the first item with the key, lower and upper bound the documented positions, iteration works in both directions, every node's entry count is within its bounds, all leaves are at one depth, and every augmentation is what the augmenter computes from the current children. External and serialized trees are the same after reopening; metadata is kept; files that are not finished trees are refused; an in-memory tree's memory bucket is exact.",
 ["histories", "inputs", "configurations"], "all operation histories, key distributions (many equal keys), fan-outs and storages up to some thousands of items",
 "The unit tests use a few fixed insert/erase orders on few flavours; splits, merges, stealing, root changes and equal keys over several leaves depend on history and fan-out.",
 ["tpie/btree/btree.h", "tpie/btree/node.h", "tpie/btree/btree_builder.h", "tpie/btree/internal_store.h", "tpie/btree/external_store.h", "tpie/btree/external_store_base.cpp", "tpie/btree/serialized_store.h"],
 [("insertion, splitting, removal, stealing and merging", "tpie/btree/btree.h"), ("bottom-up building", "tpie/btree/btree_builder.h"), ("storage and its file format", "tpie/btree/*_store.h")],
 observe=["btree and btree_builder interfaces, nodes and iterators", "memory bucket and accounting"],
 technique=T_MODEL, note="Random histories on 19 flavours against a sorted vector; the whole node structure is walked after each change.")
prop("C10", "Blocks written to a block collection are the blocks read back",
 "For every history of allocating, writing, reading, freeing and reopening, a block collection gives for each live handle exactly the bytes last written to it, never hands out space that overlaps a live block, reuses freed space, keeps its size accounting, and after closing and reopening (writable or not) contains the same blocks. The block cache above it behaves like the collection itself at every cache size, writes back every changed block on eviction and close, keeps a block at its place in memory while fewer other blocks than it can hold have been used since, and keeps its memory within its limit. The free-space manager never gives out a range twice and can be saved and loaded in any state.",
 ["histories", "inputs", "configurations"], "all histories of block operations, block sizes, cache sizes and reopen points",
 "The unit tests write a few thousand random blocks to one collection; reuse of freed blocks, eviction orders and reopening depend on the history.",
 ["tpie/blocks/block_collection.h", "tpie/blocks/block_collection.cpp", "tpie/blocks/block_collection_cache.h", "tpie/blocks/block_collection_cache.cpp", "tpie/blocks/freespace_collection.h", "tpie/blocks/block.h"],
 [("free-space maps and their file format", "tpie/blocks/freespace_collection.h"), ("cache with least-recently-used eviction", "tpie/blocks/block_collection_cache.cpp")],
 observe=["block_collection, block_collection_cache, freespace_collection interfaces", "file contents and memory accounting"],
 technique=T_MODEL, note="Random histories against a map from handle to bytes; ranges of live blocks checked for overlap after each step.")
prop("C11", "A file that is opened is one that was closed, or it is refused",
 "Whatever happens to a file between being written and being opened - the writing process dies between any two system calls, the file is cut short at any byte, bytes of its header or of its compressed blocks are damaged, it is a file of another kind, item size or version, or no file of the library at all - opening it either gives the data that was in it when it was last closed, or throws a tpie exception. A file written and not closed properly is refused by streams, serialization streams, named stacks and queues; a B-tree whose builder did not finish is refused. A refused file is left byte for byte as it was, the object that refused it can be used on another file and holds no memory or descriptor. Reading a part that is missing or whose damage can be seen (a compressed block or B-tree node that does not decode to its size) throws; it never crashes, hangs, reads out of bounds or returns items past the end.",
 ["crash_points", "inputs", "histories"], "every point between two changes of the file in generated histories; every length a file can be cut to; damage to header fields and blocks; files of other kinds",
 "Unit tests open files they have just closed. What a half-written, cut or damaged file does depends on the exact point of the crash and the bytes that were left.",
 ["tpie/file_accessor/stream_accessor_base.inl", "tpie/compressed/stream_base.cpp", "tpie/compressed/thread.cpp", "tpie/compressed/scheme_snappy.cpp", "tpie/file_stream_base.h", "tpie/serialization_stream.cpp", "tpie/btree/serialized_store.h", "tpie/stack.h", "tpie/queue.h"],
 [("the clean-close mark and the other header fields", "tpie/file_accessor/stream_accessor_base.inl (read_header, validate_header)"), ("sizes of compressed blocks", "tpie/compressed/thread.cpp, scheme_snappy.cpp"), ("header and footer of B-tree files", "tpie/btree/serialized_store.h")],
 observe=["result of opening and reading", "file contents before and after", "memory and file accounting, sanitizers"],
 technique="crash-point enumeration and structured file fuzzing inside property-based histories", note="System calls that change files are wrapped; after each one the file's contents are a crash snapshot that is then opened. Death of the process only; reordering of writes by the operating system at a power failure is not modelled.")
prop("C12", "An I/O error is reported, never lost, and nothing leaks, hangs or crashes",
 "Whatever system call on whatever file fails, at whatever point, once or for good (EIO, or ENOSPC when writing or creating a stream's file), the operation that needed it, or a later one up to and including close, throws a tpie exception; running out of space is reported as out_of_space_exception. Until then everything read is correct. Closing without an exception means the file holds everything. After an error the stream, container or sorter can be closed, destroyed and opened on another file, releases all its memory, descriptors and temporary files, and a file that is opened later without an error holds what was written, not a part of it. Reads and writes that transfer fewer bytes than asked for change nothing.",
 ["crash_points", "histories", "inputs"], "every position of a failing or short system call in histories on compressed, uncompressed and legacy streams, serialization streams, sorters, priority queues, stacks, queues and B-trees",
 "No unit test makes a system call fail; errors in the compressor thread, in destructors and during clean-up only show when a particular call of a particular kind fails.",
 ["tpie/file_accessor/posix.inl", "tpie/file_accessor/stream_accessor_base.inl", "tpie/compressed/thread.cpp", "tpie/compressed/request.h", "tpie/compressed/stream_base.cpp", "tpie/file_stream_base.h", "tpie/serialization_stream.cpp", "tpie/serialization_sorter.h", "tpie/pipelining/merge_sorter.h", "tpie/priority_queue.inl", "tpie/stack.h"],
 [("errors of system calls become exceptions", "tpie/file_accessor/posix.inl"), ("errors of the compressor thread reach the stream", "tpie/compressed/request.h, thread.cpp"), ("closing with and without the clean-close mark", "tpie/compressed/stream_base.cpp (close)")],
 observe=["stream, serialization, sorter, priority queue, stack and queue interfaces", "file contents, descriptors, memory accounting, sanitizers"],
 technique="fault-injection property-based testing", note="The checks are linked with wrapped system calls; the failing call, error and persistence are generated along with the history.")
prop("C13", "A pipeline computes the composition of its stages",
 "For every pipeline built from the library's serial stages, in any order, nesting and number, on any input, every output of it - final sinks, forks, tees, visitors, splits, files - receives exactly the items, in the order, that composing the documented meaning of the stages on sequences gives. This holds for push and pull chains, static and virtual ones, stages that cut the pipeline into phases (sorting, reversing, buffering, passive variants, joins, subpipelines, pipelines ordered after each other), serialized strings, and whatever memory and block size sorting and buffering have. Each phase's source forwards \"items\" as the number of items it emits; forwarded values arrive at every later stage; preparation and propagation run once; streams are closed exactly as asked. A destroyed pipeline has released all memory, files and temporary data.",
 ["inputs", "configurations", "histories"], "all compositions of the serial stages, inputs, memory limits and block sizes",
 "The unit tests run some dozens of fixed pipelines; what goes wrong between stages (ordering of phases, forwarding, ownership when nodes are moved, empty inputs, reuse of storage) depends on which stages meet.",
 ["tpie/pipelining/helpers.h", "tpie/pipelining/std_glue.h", "tpie/pipelining/file_stream.h", "tpie/pipelining/sort.h", "tpie/pipelining/reverse.h", "tpie/pipelining/buffer.h", "tpie/pipelining/virtual.h", "tpie/pipelining/join.h", "tpie/pipelining/split.h", "tpie/pipelining/subpipeline.h", "tpie/pipelining/serialization.h", "tpie/pipelining/serialization_sort.h", "tpie/pipelining/ami_glue.h", "tpie/pipelining/stdio.h", "tpie/pipelining/chunker.h", "tpie/pipelining/runtime.cpp", "tpie/pipelining/factory_base.cpp"],
 [("construction of nodes from factories and their edges", "tpie/pipelining/factory_helpers.h, pair_factory.h, factory_base.cpp"), ("phases, ordering and running", "tpie/pipelining/runtime.cpp"), ("forwarding of items and values", "tpie/pipelining/node.cpp, tokens.cpp"), ("virtual chunks", "tpie/pipelining/virtual.h")],
 observe=["all sinks and side outputs", "values fetched by nodes", "stream states, memory and file accounting, temporary files"],
 technique=T_MODEL, note="A generator composes random pipelines next to a vector model of every output.")
prop("C14", "Parallel sections give the serial result, or the exception, and always finish",
 "For every pipeline with parallel sections, whatever the number of workers, buffer size, item types, speed of its stages and scheduling, every copy of the section's stages is begun and ended once, each item is processed by exactly one copy, and what comes out is what the stages give serially: in that order with maintain_order (each item's outputs together), as a multiset with arbitrary_order, with anything pushed when the copies end included. Progress steps from workers are counted. If any stage inside or outside the section throws, in any callback, at any item, run() throws that very exception, no thread is left behind or waits for ever, and destroying the pipeline releases all memory, nodes and threads. No data race occurs on the way.",
 ["schedules", "inputs", "configurations", "histories"], "all inputs, numbers of workers, buffer sizes, orders, section shapes and failing callbacks; schedules as produced by delays in stages",
 "The unit tests run a handful of fixed parallel pipelines with one timing; lost wake-ups, order inversions, dropped buffers at the end and hangs after an exception depend on timing and counts.",
 ["tpie/pipelining/parallel.h", "tpie/pipelining/parallel/base.h", "tpie/pipelining/parallel/factory.h", "tpie/pipelining/parallel/pipes.h", "tpie/pipelining/parallel/worker_state.h", "tpie/pipelining/runtime.cpp", "tpie/job.cpp"],
 [("hand-over of buffers between producer, workers and consumer", "tpie/pipelining/parallel/base.h"), ("ordering of outputs and states of workers", "tpie/pipelining/parallel/base.h, worker_state.h"), ("copies of the section's stages", "tpie/pipelining/parallel/factory.h")],
 observe=["sinks, callbacks of the copies, exceptions from run()", "accounting, ThreadSanitizer reports, watchdog"],
 technique="stateful property-based testing with generated delays and failing nodes, under AddressSanitizer and ThreadSanitizer", note="Random sections against a serial model; delays and failures are generated; repeated under ThreadSanitizer.")
prop("C15", "The pipelining runtime runs any graph as its relations demand, or refuses it",
 "For every graph of pipelining nodes, however composed of push, pull, dependency, ordering and memory-sharing relations, running it does the same thing: nodes joined by push and pull edges form a phase; in each phase every node is prepared, propagated, begun and ended exactly once - prepare, propagate and begin in the order the documentation gives, end in the opposite one - and initiators go exactly once; a phase runs after all the phases it depends on or is ordered after; phases that share memory run next to each other when that is forced, and nodes are evacuated exactly when they do not. A graph whose relations contradict each other is refused with a tpie exception before anything runs. Each node gets memory and files between its minimum and maximum, in proportion to its fraction, with the sum within what is available if the minima are. Values forwarded by a node or by the pipeline are fetched with their value by every node within their distance, and by no other; registered data structures get their share, live as long as a phase needs them, and follow nodes that are moved. Progress is initialised and finished once and never goes back. Calls in the wrong phase raise call_order_exception. An exception from any callback of any node comes out of run() as it was thrown, after which no callback is made and everything is destroyed and released.",
 ["inputs", "histories", "configurations"], "all graphs of nodes with relations, resource bounds, forwarded values and data structures; every failing callback; every kind of misuse",
 "The unit tests run some dozens of fixed graphs. Phase ordering, sharing and resource division depend on the shape of the whole graph, and the failure paths on which callback of which node fails.",
 ["tpie/pipelining/runtime.cpp", "tpie/pipelining/node.cpp", "tpie/pipelining/node.h", "tpie/pipelining/tokens.cpp", "tpie/pipelining/tokens.h", "tpie/pipelining/pipeline.cpp"],
 [("phase graph, orders and running", "tpie/pipelining/runtime.cpp"), ("division of memory and files", "tpie/pipelining/runtime.cpp (assign_resources)"), ("forwarding and data structures", "tpie/pipelining/node.cpp, tokens.cpp"), ("identity of nodes that move or are merged into one map", "tpie/pipelining/tokens.cpp")],
 state=[("relations", "push, pull, depends, no_forward_depends, memory_share_depends edges between node identities", "tpie/pipelining/tokens.h")],
 observe=["sequence of callbacks of instrumented nodes", "resources assigned", "fetched values, progress calls, exceptions", "memory accounting, sanitizers"],
 technique="model-based property-based testing of generated graphs", note="Random graphs of instrumented nodes; the log of callbacks is judged against relations computed independently from the generated graph.")
prop("C16", "In-memory containers behave like their mathematical models and account exactly",
 "For every history of construction, copying, moving, swapping, resizing, assignment (also to itself), element access and iteration in both directions, arrays, packed arrays of any width, internal stacks, queues, vectors and priority queues, the merge and overflow heaps, disjoint sets, maybe, and the tiny sets and maps contain and return exactly what the corresponding sequence, multiset, partition or ordered map contains, for trivial and non-trivial elements and any comparator. Every element constructed is destroyed once, in place. The memory manager and the memory bucket count exactly the elements held, at most what memory_usage() announces. When memory runs out under an enforced limit, or an element's constructor throws, the exception comes out, nothing is leaked or counted, and the container can still be used.",
 ["histories", "inputs", "configurations"], "all operation histories, element types and widths, comparators, capacities, and failing allocations",
 "The unit tests use int elements and each operation once; self-assignment, other comparators and widths, reverse ranges and failing allocations are never tried.",
 ["tpie/array.h", "tpie/packed_array.h", "tpie/bit_array.h", "tpie/array_view.h", "tpie/internal_stack.h", "tpie/internal_queue.h", "tpie/internal_vector.h", "tpie/internal_priority_queue.h", "tpie/mergeheap.h", "tpie/pq_merge_heap.h", "tpie/pq_overflow_heap.h", "tpie/disjoint_sets.h", "tpie/tiny.h", "tpie/maybe.h", "tpie/memory.h", "tpie/resource_manager.cpp"],
 [("allocation, copying and destruction of elements", "tpie/array.h (bits::allocator_usage)"), ("bit fields and proxies", "tpie/packed_array.h"), ("sorted vectors", "tpie/tiny.h"), ("heap repair", "tpie/util.h (pop_and_push_heap), tpie/pq_merge_heap.inl"), ("path halving", "tpie/disjoint_sets.h")],
 observe=["container interfaces", "live elements, memory manager and buckets, sanitizers"],
 technique=T_MODEL, note="Random histories against std containers, with elements that track their address and can refuse to be constructed, and enforced memory limits.")
prop("C17", "A pipeline that fails says so, leaves nothing behind and harms nothing else",
 "For every pipeline built from the library's stages, and every failure while it runs - a callback of a stage, a function or a comparison given to a stage, a read, write, truncation or opening of any file it uses failing with any error at any point, or all from then on - run() throws that very exception, or the tpie exception that tells of the I/O error (out_of_space_exception when space ran out); or, where nothing depended on the failing call, it completes with every output right. Reads and writes that transfer fewer bytes than asked change nothing. No failure terminates the process or hangs. A pipeline that failed can be destroyed in any order, or be kept, and once destroyed has released all memory, file descriptors and temporary files; other pipelines run correctly meanwhile and afterwards.",
 ["faults", "inputs", "histories", "configurations"], "all compositions of the serial stages, every place and time of a failure, I/O errors and short transfers",
 "The unit tests never let a pipeline of library stages fail. What is destroyed in which order, and which stage has to report an error that another thread met, depends on the composition and on the moment of the failure.",
 ["tpie/pipelining/runtime.cpp", "tpie/pipelining/node.cpp", "tpie/pipelining/sort.h", "tpie/pipelining/merge_sorter.h", "tpie/pipelining/merge_sorter.cpp", "tpie/pipelining/buffer.h", "tpie/pipelining/reverse.h", "tpie/pipelining/file_stream.h", "tpie/pipelining/subpipeline.h", "tpie/pipelining/virtual.h", "tpie/compressed/stream_base.cpp"],
 [("unwinding of a run", "tpie/pipelining/runtime.cpp (go), pipeline.cpp"), ("ownership of sorters and buckets shared by nodes", "tpie/pipelining/sort.h, merge_sorter.cpp (set_owner)"), ("streams held by stages", "tpie/pipelining/file_stream.h (named_output_t)"), ("errors of the compressor thread", "tpie/compressed/thread.cpp, request.h")],
 observe=["exceptions from run()", "outputs of runs that completed", "memory and file accounting, descriptors and temporary files after destruction", "a later pipeline", "sanitizers"],
 technique="fault-injection property-based testing of generated pipelines", note="The generator of C13 with a failing stage, function or comparison, or a failing system call, put at a random place.")
prop("C18", "Progress reports add up, and the log delivers what was written",
 "For every hierarchy of progress indicators - parts of given size, fractional progress with known or unknown fractions, disabled parts, parts that were moved before use, any ranges and step sizes - what is shown never goes back and never exceeds the range, a part advances its parent by at most its share while it runs, is never more than a factor of three behind the steps reported to it, and by exactly its share (fractional: within one unit) when it is done. Breadcrumbs and log groups are those of the parts that are running, limited to the importance of the parts around them, and none is left when all are done; the same holds for sorting and for pipelines. Displays show the title, the percentage and an arrow of the right length for every title, width and range, the empty one included. The fraction database keeps for each name the entry with the largest size, survives saving and loading, ignores damaged lines, and is not replaced by an incomplete file. Every byte written to a log stream reaches every target registered at the time once, at its level, in order, and nothing does while logging is disabled.",
 ["inputs", "histories", "configurations", "faults"], "all hierarchies and step sequences with products of ranges below 2^64; all titles, widths and ranges; all histories of the database and of the log with targets flushed before they change",
 "The unit tests step one or two indicators in fixed amounts and look at no log target. Shares, rounding and refresh throttling depend on the whole hierarchy and on timing.",
 ["tpie/progress_indicator_base.h", "tpie/progress_indicator_base.cpp", "tpie/progress_indicator_subindicator.cpp", "tpie/progress_indicator_arrow.h", "tpie/progress_indicator_terminal.h", "tpie/fractional_progress.cpp", "tpie/logstream.cpp", "tpie/tpie_log.cpp"],
 [("shares and rounding", "tpie/progress_indicator_subindicator.cpp (refresh), tpie/fractional_progress.cpp (get_fraction)"), ("throttled refreshing", "tpie/progress_indicator_base.cpp (call_refresh)"), ("fraction database", "tpie/fractional_progress.cpp (fraction_db_impl)"), ("log buffers and targets", "tpie/logstream.cpp, tpie/tpie_log.cpp")],
 observe=["calls of refresh, breadcrumbs", "text drawn", "saved database", "messages and groups received by log targets"],
 technique=T_MODEL, note="Random hierarchies with a model of shares, breadcrumbs and groups; displays, database and log against models of their text. The execution time predictor is compiled out by default and not covered.")
prop("C19", "Resource limits are honoured, and temporary files are where they should be",
 "For every resource manager and every history of its operations: what is used is what was granted and not returned; with limits set to be enforced by exceptions a request is refused with an out-of-resource error exactly when it does not fit in what is available, whatever its size and from however many threads, and a refused request leaves no trace; with warnings or without enforcement it is granted and complained about only in the log asked for. tpie_new, tpie_new_array, allocators, buckets and unique pointers return what they took also when a constructor throws or the system has no memory, and the digest per type adds up. Every temporary name is new, has the configured or default prefix, extension and subdirectory, lies in the first usable directory in the documented order, and its directory is removed at the end. A temporary file exists while a handle refers to it and is gone, with its bytes uncounted, when the last one goes, unless persistent; one that cannot be removed harms nothing. Files accessed directly read what was written, count against the file limit and count their bytes.",
 ["histories", "inputs", "configurations", "schedules"], "all histories of requests, limits, enforcement modes, allocations with failing constructors, temporary directories and handles; up to eight threads",
 "The unit tests allocate a few objects below the limit in one thread, and use the default temporary directory; limits that are hit, failing constructors, unusable directories and concurrent use are not tried.",
 ["tpie/resource_manager.h", "tpie/resource_manager.cpp", "tpie/memory.h", "tpie/memory.cpp", "tpie/file_manager.cpp", "tpie/tempname.h", "tpie/tempname.cpp", "tpie/stats.h", "tpie/stats.cpp", "tpie/spin_lock.h", "tpie/file_accessor/posix.h", "tpie/file_accessor/posix.inl"],
 [("granting and refusing requests", "tpie/resource_manager.cpp (register_increased_usage)"), ("accounting of objects and arrays", "tpie/memory.h (tpie_new, tpie_new_array, allocator)"), ("choice of temporary directories and names", "tpie/tempname.cpp"), ("life of temporary files", "tpie/tempname.cpp (temp_file_inner)")],
 observe=["resource manager and memory manager interfaces, log", "tempname and temp_file interfaces, the file system", "stats counters"],
 technique="stateful property-based testing against a reference model, under AddressSanitizer and ThreadSanitizer", note="Random histories of limits, requests and handles against exact models, in one and in several threads.")
prop("C20", "Every job runs once, and the library can be started and stopped again",
 "For every forest of jobs, enqueued from any thread, in any order, as roots or as subjobs of any unfinished ancestor, more at once than the queue holds, on any number of workers: every job runs exactly once, on_done is called once, after the job and all its subjobs, join returns after that and not before, is_done says so, and a finished job can be enqueued again; nothing hangs and no data race occurs. The library can be initialised and finished any number of times with any selection of subsystems and any block size; in each life everything works, what earlier lives wrote can be read, or is refused when the block size differs, and when it is finished no thread, descriptor, temporary file or memory of it remains.",
 ["schedules", "histories", "inputs", "configurations"], "all job forests with up to hundreds of jobs, 1 to 6 workers; histories of 2 to 5 lives of the library with work in each",
 "The unit tests join a few jobs with the default number of workers; the full queue, subjobs of distant ancestors and re-use depend on the schedule. All tests initialise the library once per process.",
 ["tpie/job.h", "tpie/job.cpp", "tpie/tpie.h", "tpie/tpie.cpp", "tpie/compressed/thread.cpp", "tpie/compressed/buffer.cpp", "tpie/fractional_progress.cpp", "tpie/tpie_log.cpp"],
 [("counting of unfinished subjobs", "tpie/job.cpp (enqueue, done)"), ("queue and pool of workers", "tpie/job.cpp (thread_pool, job_manager)"), ("start and stop of subsystems", "tpie/tpie.cpp (tpie_init, tpie_finish)"), ("compressor thread", "tpie/compressed/thread.cpp (init_compressor, finish_compressor)")],
 observe=["job interface", "streams, sorting, pipelines and queues in each life", "threads, descriptors, temporary files, memory accounting, sanitizers"],
 technique="stateful property-based testing with generated forests and delays, under AddressSanitizer and ThreadSanitizer", note="Random job forests with gates and several enqueuers; random sequences of library lives in a fresh process each.")
prop("C21", "The programs built with the library give the right output for every input",
 "unique prints every distinct integer of its input once, in the order of first occurrence. convex_hull prints the closed polygon around the points of its input (points on its edges included, repetitions left out, upper hull first, starting at the smallest point) for coordinates whose products fit in an int. merge_fractions leaves in its first database, for every name in any of the given ones, the entry of the largest size, leaves the others as they are, and changes nothing when a file is missing. siv_dump prints header, entries, geometry and fields, as its options ask, of every serialized tree of its kind, compressed or not, empty or of several levels, in order of the tree, recursively or not, and leaves the tree as it is. The pipelining examples print what their comments say. All end with code 0 (1 and a message when called wrongly) and leave no temporary file.",
 ["inputs", "configurations"], "all inputs, option combinations and file contents up to some 10^5 numbers and some 10^3 tree entries",
 "No test runs these programs, although they are built with every build and are what a new user copies from.",
 ["apps/unique/unique.cpp", "apps/convex_hull/convex_hull.cpp", "apps/merge_fractions/merge_fractions.cpp", "apps/siv_dump/siv_dump.cpp", "apps/pipelining_datastructures/pipelining_datastructures.cpp", "apps/pipelining_passive_sorter/pipelining_passive_sorter.cpp", "tpie/pipelining/stdio.h", "tpie/pipelining/std_glue.h"],
 [("duplicates are removed between two sorts", "apps/unique/unique.cpp"), ("hulls kept in two external stacks, read in a later phase", "apps/convex_hull/convex_hull.cpp"), ("unserialisation of geometries and fields", "apps/siv_dump/siv_dump.cpp"), ("merging databases", "apps/merge_fractions/merge_fractions.cpp")],
 observe=["standard output, exit code", "files given and temporary files"],
 technique="property-based testing of the built programs against models of their output, under AddressSanitizer", note="The programs are built from the current tree with a sanitizer and run on generated input; trees for siv_dump are written with the library.")
