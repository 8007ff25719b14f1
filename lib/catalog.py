"""The properties (properties.jsonl) and how each is claimed (MANIFEST.json)."""
P = []
AI = "abstract interpretation of the C source (Frama-C/EVA, partitioned value sets)"
AI_NOTE = ("Sound for every value of every abstracted byte/integer within the bounds named in props.py (lengths, capacities, "
           "operation counts); bugs that need larger sizes are out of reach. Trusts EVA, its libc contracts and the libc bodies in harness/.")


def prop(id, title, statement, text, why, files, mech, over=("inputs",), tech=AI, note=AI_NOTE, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                  files=files, mech=mech, tech=tech, note=note, na=na))


prop("S01", "Bounded string copy never overflows and always terminates",
     "Copying a string into a buffer of a stated capacity (one byte or more) never writes outside that capacity, always leaves a "
     "NUL-terminated result that is the source or its longest prefix that fits, and tells the two apart: the length copied when "
     "everything fitted, a negative value when it was truncated.",
     "every source string and every capacity of at least 1",
     "The tests copy a few ASCII strings; the boundary (length == capacity, capacity 1, bytes >= 0x80) is a quantifier over all lengths and bytes.",
     ["src/strcopy.c"], [("bounded copy loop", "src/strcopy.c: strcopy")])

prop("S02", "Splitting a string on delimiters yields exactly its tokens",
     "Splitting a string on a set of delimiter bytes returns, in order, exactly the substrings between delimiters, each NUL-terminated "
     "inside the caller's string; when squeezing is asked for, surrounding white space is dropped and a run of delimiters counts as one. "
     "The fixed-array form never stores beyond the slots it was given and reports an error when they do not suffice; the growing form "
     "handles any number of tokens and leaks nothing.",
     "every string and delimiter set (any byte values), any token count, any array capacity including zero",
     "About 20 short ASCII strings are tested, always with an exactly sized array; growth, zero slots, too few slots and bytes >= 0x80 are not.",
     ["src/strsplit.c", "src/bits.h"], [("delimiter bitset", "src/bits.h"), ("token vector growth", "src/strsplit.c: _stra_resize_if")])

prop("S03", "Trimming and unquoting keep exactly the text in between",
     "Trimming returns the input without its leading and trailing white space and with every other byte unchanged, for any byte values. "
     "Unquoting a string whose first byte is a quote removes that quote and the same quote at its end and reports which, reports an "
     "error when the closing quote is missing, leaves unquoted strings alone, and never touches memory outside the string.",
     "every string, including empty, all-blank, a lone quote, bytes >= 0x80",
     "Neither function has a unit test in the suite; empty and one-byte strings are where the index arithmetic breaks.",
     ["src/strtrim.c", "src/strunquote.c"], [("trim loop", "src/strtrim.c: strtrim"), ("closing quote test", "src/strunquote.c: strunquote")])

prop("S04", "CSV and shell-style word splitting honour quotes and capacity",
     "Splitting a separated-values line yields the fields between unquoted separators, with quotes removed, separators and the other "
     "kind of quote kept inside quotes, and a backslash-escaped quote standing for the quote; splitting a command line yields the words "
     "between unquoted white space with their quotes removed. Both report a missing end quote and an array that is too small, and never "
     "read or write outside the string or the array.",
     "every line, quote nesting, separator set and array capacity",
     "The tests hold a dozen lines each; quoting is a state machine over arbitrary byte sequences.",
     ["src/strsplit_csv.c", "src/splitargs.c"], [("quote state machine", "src/strsplit_csv.c: strsplit_csv"), ("quote state machine", "src/splitargs.c: strsplitargs")])

prop("S05", "Hex decoding and escape sequences decode to the bytes they denote",
     "Hex decoding turns every pair of hex digits, in either case, into its byte, rejects any other character and never writes more than "
     "the stated output size. Escaping a string leaves no unescaped byte of the escape set in it, and unescaping the result restores the "
     "original string; unescaping decodes each octal, decimal, hex and letter escape to its byte and never reads or writes outside the string.",
     "every string, escape set and escape character outside that set; every escape sequence, also cut off by the end of the string",
     "The tests use lower-case samples and escapes without hex letters; two of the decoders were wrong for untested digits.",
     ["src/str2hex.c", "src/escape.c", "src/unescape.c"], [("digit decoding", "src/str2hex.c: str2hex"), ("escape coding", "src/escape.c: gstr_escape"), ("escape decoding", "src/unescape.c: parse_esc")])

prop("S06", "Base64 encoding round-trips and never exceeds its buffer",
     "Base64 encoding, in each alphabet, with or without padding, line breaks and final newline, produces the characters the alphabet "
     "table gives; decoding the result restores the bytes, also when the text arrives in pieces. The encoder reports an error rather than "
     "write beyond the buffer size it was given, and the decoder reports an error for characters outside the alphabet and for an output "
     "buffer that is too small, never writing outside it or reading outside its table.",
     "every byte string, alphabet, flag set, line length, buffer capacity, way of cutting the text",
     "The suite has no boundary tests: sizes that just (don't) fit, and characters next to the alphabet's ends, decide memory safety.",
     ["src/b64_encode.c", "src/b64_decode.c"], [("output size computation", "src/b64_encode.c: base64_encode_buf"), ("carry of pending bits", "src/b64_decode.c: base64_decode")])

prop("S07", "IPv4 text parsing accepts exactly well-formed addresses and masks",
     "Parsing dotted-quad text yields the address it denotes and rejects anything else: missing, empty, extra, or above-255 octets and "
     "stray characters. With a mask, both /bits (0 to 32) and contiguous dotted masks give the right mask and others are rejected. Formatting "
     "an address and parsing it again gives the same address. No input text reads or writes outside its buffers.",
     "every string; every address and mask",
     "The tests hold a table of addresses; the octet grammar and the mask arithmetic (/0, /32, overflow) quantify over all strings.",
     ["src/parse-ip.c"], [("octet parser", "src/parse-ip.c: parse_ipv4"), ("mask parser", "src/parse-ip.c: parse_ipv4_and_mask")])

prop("S08", "Number and size parsing never wraps silently; sizes print accurately",
     "Converting text to a 64-bit number gives exactly its value in the given base, says where parsing stopped, and reports values that do "
     "not fit instead of wrapping; sizes with a unit suffix are the number times the unit, or a range error when that overflows. Printing "
     "a size never exceeds its buffer and is within one hundredth of the unit printed.",
     "every string, base 2 to 36, unit suffix and 64-bit value",
     "The overflow boundary differs for each base and suffix; the tests sample a few values.",
     ["src/strtosize.c", "src/humanize.c"], [("overflow test", "src/strtosize.c: strtou64"), ("suffix multiply", "src/strtosize.c: strtosize"), ("unit table", "src/humanize.c: humanize_size")])

prop("S09", "Hex dumps show exactly the bytes given and report write errors",
     "A hex dump of a buffer consists of one line per 16 bytes holding the offset (or address), every byte in order as two hex digits, and "
     "its printable form, in the layout of hexdump -C; nothing outside the buffer is read and no line overruns its space. An error from "
     "the writer, or a failed write to the file, stops the dump and is returned.",
     "every buffer content and length, and every point at which the output fails",
     "The test prints one dump; partial last lines and failing writers are never exercised.",
     ["src/hexdump.c"], [("line builder", "src/hexdump.c: hex_dump_write"), ("file writer", "src/hexdump.c: __fp_writer")])

prop("S10", "dirname returns the parent path of any path, within its buffer",
     "dirname returns the path without its last component and without trailing slashes, '/' for paths directly under the root and '.' for "
     "paths with a single component or none, as dirname(1) does; it never touches memory outside the stated buffer and returns null when "
     "the buffer is too small.",
     "every path and buffer size",
     "Eight paths are tested with a PATH_MAX buffer; runs of slashes, the empty path and tight buffers are not.",
     ["src/dirname.c"], [("component scan", "src/dirname.c: dirname")])

prop("S11", "UUID and ULID bytes and text are inverse, and failures are reported",
     "Formatting a UUID or ULID shows every bit of it, and parsing that text, in either case, gives the same bytes back; text of the wrong "
     "length, with other characters, or denoting more bits than fit is rejected without writing outside the buffer. A generated UUID carries "
     "version 4 and the standard variant; a generated ULID starts with the time in milliseconds, most significant byte first. Too small "
     "buffers and failures of the clock or entropy source are reported.",
     "every 128-bit value and every text",
     "The tests round-trip generated values only; each bit position of the hand-unrolled coding is a separate chance to be wrong.",
     ["src/uuid.c", "src/ulid.c"], [("hex coding", "src/uuid.c: uuid_tostring, uuid_fromstring"), ("unrolled base-32 coding", "src/ulid.c: ulid_tostring, ulid_fromstring"), ("generation", "src/ulid.c: ulid_generate")])

prop("S12", "Growable strings keep length, terminator and capacity consistent",
     "After any sequence of growable-string operations (append, copy, duplicate, truncate, trim, chop, unquote, read a line) the string holds "
     "exactly the bytes it should, its length is their number, it is null-terminated, and the stated capacity is really allocated and "
     "exceeds the length; appending or copying a string to itself works; nothing leaks or is freed twice.",
     "every content, length and capacity combination, every operation, including a string with itself",
     "The suite tests escape and expansion only; a stale length or a missing terminator byte at a capacity boundary shows in later operations.",
     ["src/gstring.c", "inc/utils/gstring.h"], [("growth", "src/gstring.c: grow_if"), ("line reader", "src/gstring.c: gstr_readline")], over=("inputs", "histories"))

prop("S13", "Variable expansion substitutes exactly the named variables",
     "Expanding variables replaces every $NAME and ${NAME} by the value its lookup gives, keeps an escaped dollar sign as a plain one and every "
     "other byte as it is, looks up exactly the names written, and reports an unknown variable or a malformed reference, leaving a valid "
     "string and leaking nothing.",
     "every string and every outcome of the lookups",
     "Twenty-odd strings are tested; the adjacency of escapes, braces and variables is combinatorial.",
     ["src/gstring_var.c"], [("name scan", "src/gstring_var.c: getvar"), ("expansion", "src/gstring_var.c: gstr_varexp")])

prop("S14", "Packing and unpacking are inverse and stay inside the buffer",
     "Packing writes each argument in the size, byte order and count the template says, arrays element by element, counted arrays after "
     "their 32-bit count, strings terminated or to a fixed length, pads as zero bytes, and returns the bytes written; unpacking with "
     "the same template returns the same values. A buffer that is too small, a malformed or unknown template, a count that is "
     "too large, input that is cut short or arbitrary, and failing allocations give an error, never an access outside the buffer or a leak.",
     "every template, argument value, buffer size and input",
     "The suite packs a few values with single-digit counts; one-element arrays, exact-fit buffers and hostile input are not run.",
     ["src/pack.c", "inc/utils/pack.h", "inc/fast/encdec.h"], [("template interpreters", "src/pack.c: pack, unpack"), ("typed coders", "src/pack.c: le_/be_ *_pack, *_unpack, z_unpack")])

prop("S15", "Reading lines handles LF, CR and CRLF without overrun or lost text",
     "Reading a line from a file returns its bytes without the line break, for LF, CR and CRLF, null-terminated within the buffer given; "
     "the next call continues after the line break; the last line is returned even without one; a line that does not fit and a read error "
     "are reported as errors.",
     "every file content, buffer size of one or more, and place of a read error",
     "Tests read word lists with LF into large buffers; CR at the end, tight buffers and read errors never occur.",
     ["src/freadline.c"], [("line loop", "src/freadline.c: freadline")], over=("inputs", "fault_sequences"))

prop("A01", "Arena blocks are aligned, disjoint, big enough, and all freed together",
     "Every block an arena hands out is at least as big as asked, aligned for any basic type, disjoint from every other block of the arena, "
     "and keeps its content until the arena is deleted; sizes so large that the arithmetic would wrap, and failures of the underlying "
     "allocator, give a null result and leave the arena usable. Deleting the arena releases everything exactly once. A memory manager "
     "passes its context and requests through unchanged.",
     "every sequence of request sizes, chunk size and point of allocation failure",
     "The test allocates a fixed series; size arithmetic that wraps and failing mallocs never occur in it.",
     ["src/arena.c", "inc/utils/arena.h", "src/memmgr.c"], [("chunk search and carve", "src/arena.c: arena_alloc"), ("release", "src/arena.c: arena_delete")], over=("inputs", "histories"))

prop("A02", "A memory pool never hands out a block twice or beyond its limit",
     "Blocks from a fixed-size pool are at least the size asked for, aligned, inside the pool's memory, and never overlap a block that is "
     "still in use; freed blocks become available again; a limited pool hands out exactly its maximum and then null until one is freed. "
     "A pool built in the caller's memory stays inside it for every size and alignment, or reports that it is too small. Failures of the "
     "underlying allocator are reported with nothing leaked, and deleting the pool releases all of it once.",
     "every sequence of allocations and frees, block size, limit, chunk granularity, memory size and alignment, point of failure",
     "The test runs one random workload at one geometry; limits of one block, odd alignments and failing allocators are never run.",
     ["src/mempool.c", "inc/utils/mempool.h"], [("free list and chunk carving", "src/mempool.c: mempool_alloc, alloc_from_chunk"), ("chunk geometry", "src/mempool.c: new_chunk, mempool_init_from_mem")], over=("inputs", "histories"))

prop("C01", "Linked-list operations preserve every element and both link directions",
     "After any insertion, removal or concatenation, walking a singly or doubly linked list visits exactly the elements that belong in it, "
     "in the documented order, forwards and (for doubly linked lists) backwards; the first and last pointers agree with the walk, and an "
     "emptied list accepts new elements as a fresh one does.",
     "every list content and every operation at every position, including the ends of one-element and empty lists",
     "The test uses a few operation orders; a link left dangling at one end shows only when walked from the other side later.",
     ["inc/fast/list.h"], [("link updates", "inc/fast/list.h: SL_*, DL_* macros")], over=("inputs", "histories"))

prop("C02", "A vector holds exactly the elements pushed, through every growth",
     "Appending, inserting at the front, popping, copying, sampling, sorting helpers and iteration on a vector act on exactly its elements "
     "in order; growth keeps all of them, whatever the capacity was, and no operation touches memory outside the allocated array or leaks it.",
     "every size, capacity (also 0), element type and operation",
     "The test grows one vector of ints from its default capacity; growth from other capacities and wider elements is not run.",
     ["inc/fast/vect.h"], [("growth", "inc/fast/vect.h: __vect_RESERVE"), ("element moves", "inc/fast/vect.h: VECT_PUSH_FRONT, VECT_COPY")], over=("inputs", "histories"))

prop("C03", "The sequential ring queue is FIFO, bounded, and counts correctly",
     "A single-threaded ring queue returns elements in the order they were added, says full exactly when its usable capacity is reached and "
     "empty exactly when nothing is left, and its length is the number of elements held, at every rotation of the ring.",
     "every queue size, fill level and rotation",
     "Wrap-around at every index and the full/empty distinction need each rotation, tests run one.",
     ["inc/fast/queue.h"], [("index wrap", "inc/fast/queue.h: __q_enq, __q_deq, __q_size")], over=("inputs", "histories"))

prop("C04", "Bit-set operations affect exactly the bits named",
     "Setting, clearing and testing a bit of a bit set touches that bit only, for every index up to its size; union, intersection, "
     "difference, exclusive or, complement and copy produce the word-wise result for all words and change nothing else.",
     "every size and bit index; every combination of word values",
     "Tests set a few bits; word boundaries and the last partial word decide memory safety.",
     ["inc/fast/bitset.h"], [("word and bit index", "inc/fast/bitset.h: bitset_set, bitset_clr, bitset_isset")])

prop("C05", "A growable byte buffer keeps its content and never outruns its capacity",
     "Bytes appended to a growable buffer are there in order after any growth; the stated capacity is really allocated and always covers "
     "the length; a buffer that was reset or finished can be used again; nothing leaks.",
     "every capacity (also 0), length and amount appended",
     "No test covers it; growth arithmetic has a boundary at each capacity.",
     ["inc/fast/buf.h"], [("growth", "inc/fast/buf.h: fast_buf_reserve")], over=("inputs", "histories"))

prop("H01", "A hash table is a map, at every load, after any operation sequence",
     "Insert, probe, replace, remove, conditional remove, lookup, apply and the three iterators act as on a map with one item per key: what was put in "
     "is found until removed, growth loses or duplicates nothing, replaced and removed items are destroyed exactly once, sorted iteration is in key order, the counters "
     "equal the contents, and running out of memory at any point leaves the table as it was.",
     "every operation sequence, collision pattern, table size, fill limit and allocation failure",
     "The test inserts, finds and removes one word list with good hashes; equal hashes, exact fill thresholds, iterators after removal and failed allocations never occur.",
     ["src/hashtable/hashtab.c", "src/hashtable/hashtab_iter.c", "inc/utils/hashtab.h"],
     [("collision handling and growth", "src/hashtable/hashtab.c: insert_internal, resize"), ("unlinking", "src/hashtable/hashtab.c: hash_table_remove, hash_table_remove_if, remove_node"), ("iterators", "src/hashtable/hashtab_iter.c")], over=("inputs", "histories", "fault_sequences"))

prop("H02", "The fast hash table is a map of nonzero keys, through any splits and removals",
     "Probe, replace, remove and find act as on a map from nonzero 64-bit keys to pointers, null included: a present key is found with its latest value, an absent one is "
     "not, whatever fingerprints collide, whichever slots of a bag were freed, and however often the table was split; the node, bag and fill counts equal the contents and everything is freed.",
     "every operation sequence, key pattern, hash salt, initial size and fill limit",
     "Tests use random keys, so matching fingerprints, full bags, null values and slot reuse after removal appear only by luck.",
     ["src/hashtable/fast-ht.c", "inc/utils/fast-ht.h"],
     [("bag search", "src/hashtable/fast-ht.c: __find_key"), ("insertion and slot reuse", "src/hashtable/fast-ht.c: __find_key_or_add, __insert, __insert_quick"), ("growth", "src/hashtable/fast-ht.c: __insert_quick")], over=("inputs", "histories"))

prop("H03", "A shared hash table is only touched under its lock, and every lock is released",
     "With a lock manager, each operation on a hash table returns with every lock it took released, on every path; no lock is taken twice by the same thread; the bucket array, size, counters and "
     "chains are only used while the table's lock is held, so an operation of another thread in between, even one that grows the table, is as if it had come before or after.",
     "every operation, outcome and interleaving of whole operations",
     "The tests run the table in one thread with no lock; a lock left held or a bucket used after another thread's growth needs a second thread at the wrong moment.",
     ["src/hashtable/hashtab.c", "src/hashtable/hashtab_iter.c", "inc/utils/lockmgr.h"],
     [("table and bucket locks", "src/hashtable/hashtab.c: insert_internal, hash_table_lookup, hash_table_remove, hash_table_remove_if"), ("iterator locks", "src/hashtable/hashtab_iter.c: _mk_iter, sorted_iter_init")], over=("schedules", "histories"))

prop("B01", "A Bloom filter never forgets what was put in",
     "Whatever was inserted is reported present from then on - in a counting filter until it has been removed as often as it was inserted, however often that is, and whatever else is "
     "removed - for every value, hash and salt, and through any growth of a scalable filter; all bits used lie inside the allocated bitmap, and removing an absent element changes nothing.",
     "every value, salt, filter size and error rate; every insertion and removal history",
     "Tests insert a word list once; counters that wrap, removal of absent elements and filters beyond the eighth growth step need specific histories.",
     ["src/hashtable/bloom.c", "src/hashtable/bloom_internal.h", "inc/utils/bloom.h"],
     [("slot choice", "src/hashtable/bloom.c: *_probe, *_find, *_remove"), ("geometry", "src/hashtable/bloom.c: standard_bloom_init, counting_bloom_init"), ("growth", "src/hashtable/bloom.c: scalable_probe, maybe_grow_filter")], over=("inputs", "histories"))

prop("B02", "An xor filter contains every key it was built from",
     "For any set of distinct keys, an 8- or 16-bit xor filter, once built, reports each of them a member; building and looking up any key stays inside the fingerprint array for "
     "every number of keys, and everything is freed.",
     "every number of keys, key pattern and seed",
     "Tests build filters of thousands of keys; small sets have a different size relation between keys and slots.",
     ["src/hashtable/xorfilter.c", "src/hashtable/xorfilt_internal.h"],
     [("peeling and assignment", "src/hashtable/xorfilter.c: xorfilter_init, Xorfilter_new8, Xorfilter_new16"), ("lookup", "src/hashtable/xorfilter.c: Xorfilter_contains")])

prop("M01", "Saving a filter replaces the file atomically and durably, or not at all",
     "Marshalling a Bloom or xor filter writes a temporary file in the same directory and renames it over the target only after all of it is synced, so that a crash or a failing system call "
     "at any point leaves the old file; a failure is reported as a negative error number with the temporary file, descriptor, mapping and memory released; reading the file back gives an equal filter.",
     "every system call failing, every crash point, each filter kind, with and without mapping",
     "Tests save and load on a disk that works; no test fails a call or crashes between two of them.",
     ["src/hashtable/bloom_marshal.c", "src/hashtable/xorfilter_marshal.c"],
     [("temporary file, sync, rename", "src/hashtable/bloom_marshal.c: Bloom_marshal; src/hashtable/xorfilter_marshal.c: Xorfilter_marshal"), ("layout", "bloom_marshal.c: wrhdr, wrfilter, rdhdr, rdfilter")], over=("crash_points", "fault_sequences", "inputs"))

prop("M02", "A saved filter is used only if its checksum and all its sizes are right",
     "A file with any byte changed or cut short is refused; so is one whose checksum is right but whose sizes, counts or offsets do not fit the file. Refusing releases everything; a filter that is "
     "accepted never reads outside the file's data or its own memory, whatever is looked up.",
     "every corruption of a saved file, every value of each size, count and offset field",
     "Tests load files the library has just written.",
     ["src/hashtable/bloom_marshal.c", "src/hashtable/xorfilter_marshal.c"],
     [("validation", "src/hashtable/bloom_marshal.c: rdhdr, rdfilter, Bloom_unmarshal; src/hashtable/xorfilter_marshal.c: rdhdr, Xorfilter_unmarshal")])

prop("Q01", "Single-producer/single-consumer queue: lock-free and FIFO",
     "Whatever the interleaving of one producer and one consumer, every element enqueued is dequeued exactly once, whole and in order; an element becomes visible only after it is "
     "completely written and its slot is reused only after it was read (release/acquire on the two indexes); enqueue fails only when n-1 elements are queued, dequeue only when none is.",
     "every interleaving of one producer and one consumer, every queue size and index position",
     "On x86 almost any ordering mistake behaves; the test checks counts and latencies of one run.",
     ["inc/fast/spsc_bounded_queue.h"],
     [("publish", "inc/fast/spsc_bounded_queue.h: SPSCQ_ENQ"), ("consume", "SPSCQ_DEQ"), ("predicates", "__spscq_full_p, __spscq_empty_p, __spscq_size")], over=("schedules", "histories"))

prop("Q02", "Multi-producer/multi-consumer queue: each element once, in ticket order",
     "Whatever the interleaving of any number of enqueuers and dequeuers, waiting or not: each successful enqueue and dequeue takes exactly one ticket, tickets are served in order, an element "
     "is written only to the slot its ticket owns and read only after it is complete, a failed operation changes nothing and fails only when the queue was full or empty, and a waiting operation "
     "returns once its slot becomes ready.",
     "every interleaving of any number of threads, every queue size and position of the indexes",
     "The stress test samples a few schedules of one machine with strongly ordered memory.",
     ["inc/fast/mpmc_bounded_queue.h"],
     [("tickets and turns", "inc/fast/mpmc_bounded_queue.h: MPMC_QUEUE_ENQ, MPMC_QUEUE_DEQ"), ("waiting forms", "MPMC_QUEUE_ENQ_WAIT, MPMC_QUEUE_DEQ_WAIT"), ("size and reset", "__mpmc_q_len, MPMC_QUEUE_RESET")], over=("schedules", "histories"))

prop("Q03", "Ring buffer: bulk operations are FIFO and never overrun, on any schedule",
     "Whatever the interleaving of the producers and consumers the ring is configured for: an operation transfers all it was asked for, or (burst) as many as there is room or elements for, or "
     "nothing; every element is delivered once, in ring order; no slot is written before its last element was read nor read before it is written; at most size-1 elements are held; completion "
     "waits only for operations that began earlier; counts are exact when nothing is in flight.",
     "every interleaving and number of threads, single or multiple on each side, every bulk size and index position",
     "Misplaced memory ordering needs weakly ordered hardware and a preempted thread to show; bulk wrap-around has many index cases.",
     ["inc/fast/ringbuf.h"],
     [("claim and publish", "inc/fast/ringbuf.h: __rte_ring_mp_do_enqueue, __rte_ring_mc_do_dequeue, sp, sc"), ("copying", "__store_ring, __load_ring"), ("counts", "rte_ring_count, rte_ring_free_count")], over=("schedules", "histories", "inputs"))

prop("Q04", "Blocking queue and thread pools: every item once, in order, clean shutdown",
     "The blocking queue touches its state only under its lock, after the matching semaphore was really obtained (an interrupted wait is not an obtained one), never waits with the lock held, and "
     "posts the other semaphore exactly once; it is FIFO. The work and job managers call the function once per submitted item, on the requested or next round-robin thread, return the number of "
     "failed calls, join every thread, and release everything also when initialisation fails half way.",
     "every interleaving at lock granularity, ring position, interrupted wait, failing initialisation step and item distribution",
     "The test runs without signals or failures, and cannot see an access that another thread happened not to disturb.",
     ["inc/fast/syncq.h", "src/posix/work.c", "src/posix/job.c", "src/posix/cmutex.c"],
     [("queue", "inc/fast/syncq.h: SYNCQ_ENQ, SYNCQ_DEQ, __syncobj_init"), ("pools", "src/posix/work.c, src/posix/job.c: *_manager_init, *_manager_wait, thread_func"), ("mutex", "src/posix/cmutex.c: lockmgr_new_mutex")], over=("schedules", "fault_sequences", "histories"))

BT = "abstract interpretation of LLVM IR (GF(2)-affine bits, linear combinations, value numbering)"
BT_NOTE = ("Sound for all values of all bits of the inputs; lengths, alignments and positions are enumerated (see bits.py). An equality it cannot "
           "derive is reported, so it could be too weak for a very different but equal formula. Trusts clang's -O0 IR and lib/affine.py.")


def bprop(*a, **k):
    prop(*a, tech=BT, note=BT_NOTE, **k)


bprop("E01", "Integers are encoded and decoded in the stated byte order, at any alignment",
      "Encoding an integer of 8 to 64 bits in big or little endian writes exactly its bytes in that order, at any alignment, touches no byte outside them and returns the next position; "
      "decoding any bytes gives the value they stand for, so decoding what was encoded gives it back. Byte swaps and host-order conversions reverse, or keep, the bytes of any value, "
      "constant or not, and treat an expression argument as a whole.",
      "every value of every width, every alignment, constant and run-time arguments",
      "Tests encode one or two values of one width; nothing includes the swap headers.",
      ["inc/fast/encdec.h", "inc/fast/swab.h", "inc/fast/byteorder.h", "inc/fast/little-endian.h", "inc/utils/machdep.h"],
      [("encode/decode", "inc/fast/encdec.h: enc_*, dec_*"), ("swaps", "inc/fast/swab.h, byteorder.h, little-endian.h"), ("host order", "inc/utils/machdep.h")], over=("inputs", "configurations"))

bprop("R01", "Random generators: published step, full period, never stuck, range kept",
      "Each pseudo-random generator (xorshift 64*, 128+, 1024*, xoroshiro, romu, splitmix64) computes the published output and next state for every state; no two states of one generator lead to the same state, "
      "and the xorshift ones visit every non-zero state before repeating. Whatever the seed or the system entropy, initialising the generators with one to four words of state never leaves the all-zero "
      "state in which they are stuck; a given seed alone determines the sequence. The floating-point generator returns values in [0,1) only and draws every bit of the fraction.",
      "every state, every seed, every value of the system entropy",
      "Tests print histograms of one seed; a wrong constant or direction of shift changes no histogram, only the period and the distribution far out.",
      ["src/prng/xorshift.c", "src/prng/xoroshiro.c", "src/prng/romu-rand.c", "src/prng/frand.c", "inc/utils/splitmix.h"],
      [("steps", "src/prng/*.c: *_u64"), ("seeding", "src/prng/*.c: *_init; inc/utils/splitmix.h"), ("fraction", "src/prng/frand.c")])

bprop("K01", "Hash functions compute their published function of the key, and only of it",
      "FastHash, FNV-1/1a, Hsieh, Murmur3, SipHash-2-4, xxHash, CityHash and Yorikke return, for every key and seed, the value of their published (for Yorikke: documented) function: they read the bytes of the key and nothing else, "
      "at any alignment of the key, depend on every bit of it, and for xxHash hashing in pieces gives the hash of the whole.",
      "every content of the key and the seed, at every enumerated key length, alignment and way of cutting",
      "The test hashes words of a dictionary and prints speeds; tails, long keys and block boundaries have each their own code.",
      ["src/hashfunc/fasthash.c", "src/hashfunc/fnvhash.c", "src/hashfunc/hsieh_hash.c", "src/hashfunc/murmur3_hash.c", "src/hashfunc/siphash24.c", "src/hashfunc/xxhash.c",
       "src/hashfunc/cityhash.c", "src/hashfunc/yorrike.c"],
      [("blocks and tails", "src/hashfunc/*.c"), ("streaming", "src/hashfunc/xxhash.c: XXH32_update, XXH64_update, *_digest")])

bprop("R02", "arc4random: seeded, reseeded, fork-safe, each byte delivered once, unbiased",
      "Random bytes are ChaCha20 keystream under a key drawn from system entropy, every byte delivered at most once and in order whatever the sequence of request sizes; a delivered byte and a key no longer used are "
      "erased from the state at once; fresh entropy is drawn before the first byte of a thread or of a forked process and at least every 2 KiB (a bigger single request excepted); threads share no state. "
      "A bounded number is the accepted word modulo the bound, words below 2^32 mod bound being drawn again, so it is below the bound and unbiased.",
      "every entropy, every sequence of request sizes up to the enumerated length, forks in between, every bound among the enumerated",
      "Output is random either way: repeated keystream, a missed reseed or a biased modulus pass any test of a few values.",
      ["src/arc4random.c", "src/chacha_private.h"],
      [("keystream and rekeying", "src/arc4random.c: _rs_rekey, _rs_stir, _rs_consume; chacha_private.h"), ("per-process state", "src/arc4random.c: sget"), ("rejection", "src/arc4random.c: arc4random_uniform")], over=("inputs", "histories"))

bprop("T01", "Alignment, power-of-two, index-clamping and time-unit helpers are exact",
      "For every value and every power of two n, aligning up (down) gives the least (greatest) multiple of n not below (above) it, and the alignment and power-of-two predicates say exactly that; rounding up to a power of two "
      "gives the least one not below the value. The speculation-safe index is the index inside the array and zero outside. Durations convert to the stated unit (an hour is 3600 s) with an expression argument "
      "taken as a whole, and the clock functions combine seconds and fraction in that unit.",
      "every 64-bit value, every power of two, every count and clock reading",
      "Used everywhere, tested nowhere: the alignment test tries a few addresses.",
      ["inc/utils/typeutils.h", "inc/utils/utils.h", "inc/utils/nospec.h", "inc/fast/tmutils.h"],
      [("alignment", "inc/utils/typeutils.h: _ALIGN_UP, _ALIGN_DOWN, NEXTPOW2 and templates"), ("time", "inc/utils/utils.h: _Hour .. timenow; inc/fast/tmutils.h"), ("clamping", "inc/utils/nospec.h")])

prop("F01", "Log rotation shifts copies by one and never loses a copy it should keep",
     "Rotating a file and keeping n >= 1 copies moves the file to copy 0 and each copy k < n-1 to k+1, and removes older copies up to n+99. Whatever call fails and wherever the process dies, "
     "the file and its n-1 newest copies still exist, newest first, under the names of this file; a failing call or a file that is not regular is reported as a negative errno, and a file name too "
     "long for its copies is refused with all kept. Rotation by size happens exactly when the file is longer than the given number of megabytes.",
     "every set of existing copies, every failing call, death after any call, every file size",
     "The test rotates one file once; gaps, failures half way and names near PATH_MAX are not tried.",
     ["src/rotatefile.c", "inc/utils/rotatefile.h"], [("rename order", "src/rotatefile.c: rotate_filename"), ("names", "src/rotatefile.c: nth_name"), ("size limit", "src/rotatefile.c: rotate_filename_by_size")],
     over=("inputs", "fault_sequences", "crash_points"))

prop("F02", "Making a directory path creates every missing directory, or says why not",
     "Making a directory with its parents returns 0 exactly when every directory of the path exists afterwards, whichever existed before, were created by someone else meanwhile, and however many or "
     "trailing slashes the path has; nothing outside the path is created, with the mode given. Otherwise it returns the negative errno: a file in the way, a failing call, an empty or too long path.",
     "every path up to the enumerated length, every existing part of it, every failing call, another process at any call",
     "The test makes a few paths; races and trailing slashes failed.",
     ["src/mkdirhier.c"], [("component loop", "src/mkdirhier.c: mkdirhier")], over=("inputs", "fault_sequences", "schedules"))

prop("F03", "A tree walk visits every file once, in order, where it says, and comes back",
     "Walking a tree with fts visits each root, and each directory's entries between its pre-order and its post-order visit, once, in the directory's or the comparison's order, with the file's kind, path, level and identity, and an "
     "access path that leads to it from the directory the walk is in. Links are followed as the mode or the caller says, a directory already on the path is reported as a cycle, and other devices, unreadable directories and skipped ones are not entered. "
     "A failing call is reported. Once closed, the caller is in its own directory, and no descriptor or memory is left.",
     "every set of modes listed, every visit at which the caller skips, re-visits, follows, lists the children or closes, and every failing call or allocation",
     "The test walks one directory physically; links followed on the way, long paths and failures on the way back are where the walk used freed memory or lost its place.",
     ["src/fts.c", "inc/fts.h"], [("order", "src/fts.c: fts_read, fts_build, fts_sort"), ("place", "src/fts.c: fts_safe_changedir, fts_load, fts_padjust"), ("failures", "src/fts.c: fts_open, fts_read, fts_close")],
     over=("inputs", "histories", "fault_sequences"))

prop("P01", "Reading a password: terminal restored, files closed, right text or an error",
     "Reading a password from /dev/tty or standard input prompts and turns echo off only while reading from a terminal, and restores the terminal exactly and closes /dev/tty on every path. It returns 0 only with the line that was typed, without its line end, "
     "in fresh memory, and when asked to confirm only after two equal lines within three tries; any other outcome (end of input, read error, mismatch, no memory) is a negative errno, sets no password and leaks nothing.",
     "every combination of typed lines among the enumerated ones, terminal or not, each failing call",
     "Needs a terminal and a person; an empty password and end of file were wrong.",
     ["src/readpass.c"], [("echo", "src/readpass.c: portable_readpass"), ("line end", "src/readpass.c: portable_readpass, ok:")], over=("inputs", "fault_sequences"))

prop("P02", "The progress bar shows the true share, for every width, and only on a terminal",
     "A progress bar writes only to a terminal and never more than its buffers hold: each update that changes the line erases the previous one and shows the count, the total, the percentage rounded down (at most 100; off by at most one beyond 2^57 units), and a bar whose width depends "
     "on the terminal only, filled in proportion, never going back, full exactly at 100 %. Every terminal width, zero and unknown included, gives a bar.",
     "every terminal width up to 110 columns, totals up to 2^64-1, every boundary of the count",
     "The test draws on a terminal if there is one; it aborted on others.",
     ["src/progbar.c"], [("share and bar", "src/progbar.c: update_total_progress"), ("width", "src/progbar.c: progressbar_init")])

prop("X01", "Library functions keep no shared hidden state and leave the process alone",
     "Apart from getopt's variables, the program name used in error messages and the C++ system-entropy device, no function of the library changes a global or static variable that threads share, so independent objects may be used "
     "by any threads at once. None calls a libc function that uses such state, and only error() and daemonize() end the process, only daemonize() and the tree walk change its directory, mask or descriptors, "
     "and only error messages, getopt and the password prompt write to (or read from) its standard streams by themselves.",
     "every function of every source file and header that compiles on this platform",
     "A shared static buffer or a stray printf passes any single-threaded test of the function that has it.",
     ["src/prng/frand.c", "src/arc4random.c", "src/humanize.c", "src/error.c", "src/getopt_long.c", "src/daemon.c"],
     [("per-thread generators", "src/prng/frand.c: frand; src/arc4random.c: sget"), ("everything else", "src/*.c, inc/*/*.h: no writable globals")],
     over=("programs", "schedules"), tech="whole-library query over LLVM IR (writable globals after optimisation; references to process-wide functions)",
     note="Complete for globals written by C code of the analysed files; state behind other library calls is only covered for the libc functions listed in lib/hidden.py. Headers that do not compile alone are not analysed (see evidence).")

prop("G01", "Command lines are read left to right: options, arguments, errors, operands",
     "Scanning a command line with getopt_long (or getopt, without long names) reports what one left-to-right reading of it finds: each option letter or long name (exact, or an unambiguous abbreviation) with its argument, attached or following, "
     "in order; an unknown, ambiguous or ill-formed option as an error with the option in optopt, and a message only if wanted ('opterr' set, no leading ':'). At the end the operands follow the options in argv, both in their given order, "
     "with optind at the first; '+' and POSIXLY_CORRECT stop at the first operand, '-' returns operands in place. Setting optind to 0, or optreset, starts a new scan even if another was abandoned.",
     "every command line of up to the enumerated number of words from a list covering each rule, every mode of the option string",
     "There is one test of a few lines; an exact name after two longer ones, and a restart, failed.",
     ["src/getopt_long.c"], [("short options and order", "src/getopt_long.c: getopt_internal, permute_args"), ("long options", "src/getopt_long.c: getopt_long")], over=("inputs", "histories"))

prop("E02", "Error messages reach standard error whole, on one line, and exit only as asked",
     "error(), warn() and die() write to standard error, after flushing standard output: the program's name (or what the naming hook prints) if there is one, the formatted message without its newline, cut only beyond 2000 characters, "
     "from error() with a nonzero error number (of either sign) ': ', the system's text and the number in brackets, and one newline. Then error() ends the process exactly when its status is nonzero, with that status; die() always, with 1; warn() never.",
     "every message length at its boundaries, newlines anywhere, every combination of name, status and error number",
     "Messages are not tested at all; an empty or long one read or wrote outside the text.",
     ["src/error.c", "inc/error.h"], [("messages", "src/error.c: error, vprint"), ("name", "src/error.c: print_progname")])

prop("N01", "Interfaces and host names give exactly the addresses asked for, or an error",
     "Listing interfaces gives one entry per name, in name order, with each of its addresses of the families asked for (IPv4 and IPv6 if none named) exactly once; asking for one interface gives exactly its addresses, or -ENOENT. "
     "A name resolves to any-address if empty or '*', to itself if a dotted IPv4 address, else to the interface's or the host's addresses of the families asked for. Any failure is a negative error, and no list, "
     "socket or memory stays behind. An address is printed only into a buffer that can hold its text; otherwise the result is NULL.",
     "every list of up to the enumerated number of interface addresses, every mask, every failing call, every buffer size",
     "The test prints what the machine has; an unknown host was a success, and error codes and buffer sizes were wrong.",
     ["src/c_resolve.c", "inc/utils/resolve.h"], [("grouping", "src/c_resolve.c: get_all_if_address"), ("names", "src/c_resolve.c: resolve_host_or_ifname, is_ifname"), ("text", "src/c_resolve.c: sockaddr_to_string")],
     over=("inputs", "fault_sequences"))

prop("D01", "A daemon runs detached in its own session, or the caller learns what failed",
     "daemonize returns 0 only in a process that is the grandchild of the caller, in a new session it doesn't lead, with the directory asked for ('/tmp' if none) as its own, a file mask of 022, standard input, output and error on "
     "the null device and none of its own opened descriptors left besides. The caller and the process in between end with status 0, and output the caller had buffered is written once. "
     "If a fork, the change of directory or the null device fails, the result is a negative error.",
     "every failing call, every set of standard descriptors open or closed at the start, with and without a directory",
     "No test makes a daemon; a failing call or a closed standard descriptor needs faults no test injects.",
     ["src/daemon.c"], [("whole", "src/daemon.c: daemonize")],
     over=("inputs", "fault_sequences"))

prop("Z01", "Compressing and uncompressing through a small buffer loses and repeats nothing",
     "The zlib wrappers hand the caller's sink exactly the bytes the coder produces, each once and in order, whatever the output buffer's size, the chunks the input comes in and the share of each piece the sink takes: after a successful end everything was delivered, "
     "including when bytes follow the compressed stream. Input is used up before a call returns Z_OK. A sink that takes nothing or fails, and an error of the coder, end the call with an error, touch no memory outside the buffer, and the end of the session then still delivers what was accepted.",
     "every input of up to n bytes, chunk size, output buffer size, share taken by the sink, amount held back and trailer of the coder, and each failing call of the sink or of the coder",
     "The example program copies one file through a sink that takes everything.",
     ["src/zbuf_c.c", "src/zbuf_unc.c", "inc/zlib/zbuf.h"], [("partial sinks", "src/zbuf_c.c: z_buf_compress; src/zbuf_unc.c: do_uncompress"), ("end of session", "src/zbuf_c.c: z_buf_compress_end; src/zbuf_unc.c: z_buf_uncompress_end")],
     over=("inputs", "fault_sequences"))

prop("S16", "Every string search finds every occurrence, overlapping ones too, and no other",
     "For every pattern of at least one character and every text, Knuth-Morris-Pratt, Boyer-Moore, its turbo variant and Rabin-Karp return exactly the offsets at which the pattern occurs, in increasing order, overlapping occurrences included, "
     "whatever the characters' values; they read only the pattern and the text given. An empty pattern or a negative pattern length is refused with an exception, and running out of memory is an exception that leaves nothing behind.",
     "every pattern and text of up to the stated lengths over two or three letters, positive, negative and NUL, long patterns around the hash's width, each failing allocation",
     "The test searches one sentence for one word with three of the four.",
     ["inc/utils/strmatch.h"], [("tables", "inc/utils/strmatch.h: calc_prefix_table, calc_suffixes, calc_good_shift, calc_bad_char"), ("shifts", "inc/utils/strmatch.h: matchall, turbo_matchall"), ("rolling hash", "inc/utils/strmatch.h: rabin_karp_search::matchall")])
