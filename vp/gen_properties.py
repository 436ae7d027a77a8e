#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long strings stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": [f if f.startswith("tools/") or f == "CMakeLists.txt" else "include/cista/" + f for f in files],
         "mechanism": [{"name": n, "where": w if w.startswith("tools/") else "include/cista/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "include/cista/" + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Serialize/deserialize round trip preserves the whole object graph",
 "Serializing any graph built from the supported types (scalars, enums, structs, arrays, strings, vectors, hash maps and sets, optionals, variants, tuples, pairs, owning pointers, non-owning pointers to owned objects or to indexed elements, cycles, bit sets, jagged, paged and multimap containers, time points, strong types) and deserializing the bytes yields a graph equal in every value, size, order, lookup result and pointer relationship. "
 "This holds in the pointer (raw) and the relative-pointer (offset) layout and for every combination of the version, integrity, deep-check, and endianness options that reader and writer share. "
 "A non-owning pointer to anything that is not part of what is serialized, or to a part that pointers cannot be stored to, reads back as null. "
 "Serialization never modifies its source object. A variant that holds nothing because a construction failed is not a value that can be stored.",
 ["inputs", "configurations"], "every object graph over the supported types x every shared option combination x both layouts",
 "The tests serialize a few dozen hand-written objects, mostly with default options; sizes around growth steps, short/long strings, empty sub-objects, back-pointers and option combinations are a product space they cannot enumerate.",
 ["serialization.h", "targets/buf.h", "reflection/to_tuple.h"],
 [("serialize overloads per type", "serialization.h"), ("pending-offset resolution of pointers", "serialization.h"), ("convert_endian_and_ptr / check_state / recurse", "serialization.h")],
 ["bytes returned by serialize()", "object returned by deserialize()"])

prop("P02", "Images are self-contained, aligned and position independent",
 "An image in the relative-pointer layout is usable without fix-up at any address that honours the strictest alignment among the types it contains, including in read-only memory, after the source object and the original buffer are gone; a pointer-layout image becomes usable at whatever such address it is deserialized. "
 "Every reference inside a deserialized object lies completely inside the image and is aligned for the type it refers to, and reading the object writes nothing. "
 "Serializing a deserialized object again yields an object equal to the first.",
 ["inputs", "configurations"], "every supported object graph x every suitably aligned load address x read-only and writable placement",
 "Tests deserialize in the buffer that serialize returned, at one address, and never look at where references point.",
 ["serialization.h", "containers/offset_ptr.h", "targets/buf.h", "mmap.h"],
 [("relative pointers", "containers/offset_ptr.h"), ("write(ptr,size,alignment)", "targets/buf.h"), ("pointer relocation", "serialization.h")],
 ["addresses reachable from the deserialized root", "mprotect faults"])

prop("P03", "Every serialization target produces the same image",
 "Serializing an object to an in-memory buffer, to a file, to a memory-mapped file or to a caller-supplied container yields byte-for-byte the same image, and reading the stored file back (copied or mapped) yields an equal object. "
 "For each target, blocks are placed at the requested alignment with zero padding, in-place updates change exactly the addressed bytes, growing never loses bytes already written, the reported size and range checksum equal those of the bytes actually stored, and an out-of-range update is refused.",
 ["inputs", "histories", "configurations"], "every object, and every sequence of block writes / in-place updates / checksums on each target",
 "Tests write one or two files with one object each; equality between targets is never asserted.",
 ["targets/buf.h", "targets/file.h", "mmap.h", "buffer.h", "memory_holder.h", "io.h"],
 [("buf::write", "targets/buf.h"), ("file::write / checksum", "targets/file.h"), ("mmap resize", "mmap.h")],
 ["bytes of each target"])

prop("P04", "Checked deserialization of hostile bytes never leaves the buffer",
 "Deserializing any byte sequence of any length with checking enabled either throws an exception or returns an object through which every reachable element (with deep checking, everything behind pointers as well) can be read without touching memory outside the supplied bytes. "
 "It terminates and never crashes, whatever sizes, pointers, flags or indices the bytes claim, and the verdict depends on nothing but the bytes and the requested type (in the pointer layout, where an accepted image is rewritten to absolute addresses, bytes claimed by two objects at once may be judged differently at another address). "
 "Nesting in the image is limited by the stack available to the recursive check.",
 ["inputs"], "every byte string (arbitrary, truncated, or a mutation of a valid image) x root type x layout",
 "The security tests corrupt a handful of chosen fields in chosen images; one fuzz target covers one graph type.",
 ["serialization.h", "verify.h", "chunk.h"],
 [("deserialization_context::check*", "serialization.h"), ("check_state", "serialization.h")],
 ["exceptions", "AddressSanitizer reports over an exactly sized heap buffer"])

prop("P05", "Version and integrity options reject altered or foreign images",
 "With the integrity option, an image in which any bits of the protected payload or of the stored checksum were altered, or which was truncated or extended, is rejected with an exception; with the version option, an image written for a structurally different root type or whose version field was altered is rejected. "
 "An unaltered image is always accepted, on the original and on a copied buffer, from memory and from file, and the skip options accept the same images without those checks. (With the sampling hash WYHASH_FASTEST the checksum covers a sample of the bytes only: a recorded finding.)",
 ["inputs", "configurations", "fault_sequences"], "every image x every bit flip, truncation, extension and type substitution x option combination",
 "Tests flip a couple of fixed bytes of one image.",
 ["serialization.h", "targets/file.h", "targets/buf.h", "mode.h", "hash.h"],
 [("check(): hash and version comparison", "serialization.h"), ("integrity_start / data_start", "serialization.h"), ("range checksum", "targets/file.h")],
 ["throw / no throw"])

prop("P06", "Type fingerprints identify the structure of a type",
 "The dynamic and the static type fingerprint of a type are deterministic, independent of any value and of previous computations, and do not depend on which names were given to a structure or its enclosing anonymous scope where the layout is the same. "
 "Changing a type's structure - a member's scalar width or kind, member order or count, array extent, element, key, mapped or pointee type, container kind, alternative list, or the same change nested anywhere below or on a recursive path - changes both fingerprints. "
 "Not told apart by design: signedness and kinds of integers of one width, plain and relative pointers of the two layouts, time units, tags of strong types and names of enumerators; spatial indexes have no fingerprint.",
 ["programs", "inputs"], "every pair of supported types that differ by one structural edit, at any nesting depth",
 "Tests pin a few hash constants and compare a handful of types.",
 ["type_hash/type_hash.h", "type_hash/static_type_hash.h", "type_hash/type_name.h", "reflection/arity.h", "reflection/to_tuple.h"],
 [("type_hash overloads", "type_hash/type_hash.h"), ("static_type_hash overloads", "type_hash/static_type_hash.h")],
 ["returned fingerprints"])

prop("P07", "Foreign-endian images carry byte-swapped scalars and round trip",
 "An image written in big-endian form stores every multi-byte scalar, size, length, offset and header field most significant byte first, wherever it occurs - nested structures, container bookkeeping, alternatives, optional contents, map entries - and differs from the little-endian image of the same object in nothing else. "
 "Reading it with the big-endian option restores an object equal to the source, and conversion is an involution on every scalar width. (Spatial indexes cannot be converted.)",
 ["inputs", "configurations"], "every supported object graph x endianness",
 "Tests check endianness for one or two structs.",
 ["endian/conversion.h", "endian/detection.h", "serialization.h"],
 [("endian_swap / convert_endian", "endian/conversion.h"), ("convert_endian_and_ptr", "serialization.h")],
 ["bytes of both images"])

prop("P08", "Deserialized objects can be modified, copied and moved safely",
 "Applying any sequence of container operations (insert, erase, assign, append, resize, clear, copy, move, swap, destroy) to an object living inside a deserialized image behaves exactly as on an equal object built normally. "
 "No operation ever frees or reallocates memory it does not own or writes outside the image and its own allocations; copies remain valid and unchanged after the image is gone (strings that do not own their characters stay such when copied, as they do outside of images).",
 ["histories", "inputs"], "every deserialized object x every sequence of mutating operations",
 "The tests perform single modifications on one deserialized object.",
 ["containers/vector.h", "containers/string.h", "containers/hash_storage.h", "containers/unique_ptr.h", "serialization.h"],
 [("self_allocated / owning flags", "containers/vector.h"), ("string ownership flag", "containers/string.h"), ("hash table ownership flag", "containers/hash_storage.h")],
 ["results vs model, AddressSanitizer/LeakSanitizer"])

prop("P09", "Hash map and hash set behave like an associative array",
 "After any sequence of insertions, overwrites, lookups (also by equivalent key types), erasures by key or position, rehash, copies, moves, swaps, assignments, equality comparisons and iterations, a hash map or set answers exactly as a mathematical map or set: each key at most once, no stored entry lost or unreachable, nothing erased still found, sizes exact, iteration visiting every entry exactly once. "
 "This holds for every hash function, including constantly colliding ones, and the memory used stays bounded under insert/erase churn.",
 ["histories", "inputs"], "every operation history x every key distribution (dense, colliding, adversarial)",
 "Tests run short scripted histories; the fuzz target covers integer keys with three operations.",
 ["containers/hash_storage.h", "containers/hash_map.h", "containers/hash_set.h"],
 [("probe sequence and group matching", "containers/hash_storage.h"), ("erase tombstones / growth_left", "containers/hash_storage.h"), ("resize / rehash", "containers/hash_storage.h")],
 ["return values of every public operation"])

prop("P10", "Vectors behave like std::vector",
 "After any sequence of vector operations (construction from ranges and sizes, append, emplace, insert of one element or a range anywhere, erase of one element or a range, resize up and down, reserve, assign, pop, clear, element access, iteration, copy, move, swap, comparison), for trivially copyable and non-trivial element types, owned and non-owned storage, size, contents, order and returned positions equal those of a standard vector. "
 "Conversions of other sequences into a vector hold every element, or what the given operation makes of each in order. "
 "Arguments that refer to the vector's own elements are handled as the standard vector handles them; bounds-checked access throws exactly when out of range; growth capacity never falls below size.",
 ["histories", "inputs"], "every operation history over every element category",
 "The tests call each operation a few times on short vectors.",
 ["containers/vector.h", "containers/ptr.h", "containers/offset_ptr.h", "next_power_of_2.h"],
 [("insert / move_backward", "containers/vector.h"), ("reserve and growth", "containers/vector.h")],
 ["return values, contents"])

prop("P11", "Strings behave like value strings at every length",
 "After any sequence of construction, owning and non-owning assignment, copying, moving, appending, erasing, resetting and comparison, the inline/heap string types and the NUL-terminated string type hold exactly the characters assigned (all byte values except embedded NULs), report the exact length, order and compare like standard strings against any string-like operand, and hash equal when equal. "
 "Owning strings of the NUL-terminated type always end in NUL (and may hold further NULs); non-owning strings longer than the inline limit refer to the given memory and never free it, shorter ones hold a copy inline; owning strings never alias foreign memory, also when assigned from a part of themselves.",
 ["histories", "inputs"], "every character sequence with lengths around the inline limit x every operation history",
 "Tests use a few literal strings shorter and longer than the inline buffer.",
 ["containers/string.h", "containers/cstring.h"],
 [("short/heap discrimination", "containers/string.h"), ("cstring remaining-length encoding", "containers/cstring.h")],
 ["view(), size(), c_str(), comparison results"])

prop("P12", "Optional, variant, tuple, pair and owning pointer have value semantics",
 "After any sequence of construction, emplacement, assignment of values and of whole objects (copy, move, from lvalue or rvalue, same or different alternative), swap and reset, an optional, variant, tuple, pair or owning pointer holds exactly the last assigned value or emptiness, reports it through every accessor, comparison, visitation and hash the type has (optional has neither comparison nor hash), and throws or returns null exactly when the requested content is absent. "
 "Moving transfers ownership once; visitation calls the visitor with the active alternative and only with it.",
 ["histories", "inputs", "programs"], "every operation history x alternative lists of every length",
 "Tests construct each type a few times with int/string alternatives.",
 ["containers/optional.h", "containers/variant.h", "containers/tuple.h", "containers/unique_ptr.h", "containers/pair.h"],
 [("apply dispatch by index", "containers/variant.h"), ("offset computation", "containers/tuple.h"), ("valid flag", "containers/optional.h"), ("self_allocated flag", "containers/unique_ptr.h")],
 ["accessor results vs model"])

prop("P13", "Elements are constructed and destroyed exactly once and no memory leaks",
 "Over any history of operations on any container holding objects with observable lifetimes, every object that is constructed is destroyed exactly once, no operation touches an object before construction or after destruction, live objects always equal the container's elements at quiescent points, and when all containers are gone no object and no allocation remains. "
 "This includes moved-from, self-assigned, copy-assigned-over, shrunk, cleared, swapped and partially erased containers.",
 ["histories"], "every operation history over every container with lifetime-tracked elements",
 "Tests run without leak checking over trivial elements, with one ad-hoc leak test.",
 ["containers/vector.h", "containers/hash_storage.h", "containers/optional.h", "containers/variant.h", "containers/tuple.h", "containers/unique_ptr.h", "containers/vecvec.h", "containers/string.h", "containers/cstring.h"],
 [("destructors / clear / deallocate", "containers/vector.h"), ("destroy entries", "containers/hash_storage.h")],
 ["constructor/destructor events of tracked elements, allocation balance"])

prop("P14", "Bit sets and bit vectors implement bit-array semantics",
 "For every width, including widths that are not a multiple of the word size, and after any sequence of set, reset, resize, copy, shift, complement, and/or/xor, string construction and assignment, a fixed or dynamic bit set answers test, count, any, none, size, comparison, string conversion, next-set-bit search and set-bit enumeration exactly as an array of booleans of that width. "
 "Bits beyond the width are never reported or compared, and bits gained by growing read as specified.",
 ["histories", "inputs"], "every width x every operation history",
 "Tests use a few widths and patterns; the fuzz targets check short histories of a few operations.",
 ["containers/bitset.h", "containers/bitvec.h", "bit_counting.h"],
 [("sanitized_last_block", "containers/bitvec.h"), ("shift operators", "containers/bitset.h")],
 ["return values vs boolean-array model"])

prop("P15", "Concurrent atomic bit and min/max updates lose no update",
 "When several threads atomically set bits of a shared bit vector, or apply atomic or/and/min/max updates to shared words, the final state equals the result of applying all updates in some order, no update is lost or applied to another bit, each update returns the value it replaced, and the observed value of each location moves only in the direction of the operation. "
 "Threads that draw set bits from one shared cursor while others set bits claim every set bit exactly once, and no data race occurs between atomic operations (plain reads concurrent with atomic updates are not promised).",
 ["schedules", "histories"], "every interleaving of threads issuing atomic updates and atomic searches",
 "The atomic test is single-threaded; no test exercises two threads.",
 ["atomic.h", "containers/bitvec.h"],
 [("fetch_or/fetch_and/fetch_min/fetch_max", "atomic.h"), ("set<IsAtomic> / next_set_bit atomic paths", "containers/bitvec.h")],
 ["final state, per-thread observations, ThreadSanitizer"])

prop("P16", "Jagged arrays and matrices keep every bucket's contents",
 "After any sequence of bucket appends (from ranges, strings, initializer lists, sizes with fill), back-bucket growth, bucket lookup by index and front/back, per-bucket element writes, resize, clear and iteration in both directions, one- and multi-level jagged arrays and flat matrices hold exactly the appended buckets in order with exactly their elements; a resized matrix keeps its elements in their linear row-major order. "
 "Bucket and element counts are exact, iterators obey random-access arithmetic, and bounds-checked access throws exactly when out of range.",
 ["histories", "inputs"], "every append/modify history over 1..4 nesting levels, strong and plain index types",
 "Tests build one small example per container.",
 ["containers/vecvec.h", "containers/nvec.h", "containers/flat_matrix.h", "containers/fws_multimap.h"],
 [("bucket start index", "containers/vecvec.h"), ("nested index lookup", "containers/nvec.h")],
 ["contents vs vector-of-vectors model"])

prop("P17", "Growable multimaps and paged storage keep buckets disjoint",
 "After any sequence of bucket creation, append, insert, erase, pop, resize, reserve, clear and page recycling, a mutable multimap or paged jagged array holds in every bucket exactly the elements put there in order, independently of what happens to other buckets. "
 "No two live buckets or pages ever share storage, recycled storage is handed out at most once and is large enough, element counts are exact, and forward, reverse and random-access iteration visit the same elements. Elements are trivially copyable.",
 ["histories"], "every operation history over many buckets with interleaved growth and release",
 "Tests use a few buckets; the fuzz target checks a short history without pop/erase/reserve mixes.",
 ["containers/mutable_fws_multimap.h", "containers/paged.h", "containers/paged_vecvec.h"],
 [("free bucket lists per power-of-two order", "containers/mutable_fws_multimap.h"), ("page free lists", "containers/paged.h")],
 ["contents vs model, address ranges of buckets"])

prop("P18", "Spatial index search returns exactly the intersecting entries",
 "After any history of rectangle/point insertions, deletions, copies and (de)serialization, searching the spatial index with any window reports exactly the entries whose rectangle intersects the window, each stored entry once (early termination reports a subset), and the entry count is exact. "
 "Deleting removes exactly one matching entry when present and nothing otherwise; every inner rectangle encloses its children, so no entry becomes unreachable, and freed nodes are reused safely. Deletion by predicate offers the predicate every entry that encloses the given rectangle (coordinates are numbers whose areas fit their type).",
 ["histories", "inputs"], "every insert/delete/search history, including degenerate, duplicate, nested and far apart rectangles, in 2 and more dimensions",
 "Tests use one small scripted tree; the fuzz target checks short histories.",
 ["containers/rtree.h"],
 [("node_insert / split", "containers/rtree.h"), ("delete and node free list", "containers/rtree.h"), ("search", "containers/rtree.h")],
 ["search results vs brute-force list"])

prop("P19", "File-backed storage persists exactly what was stored",
 "A vector or paged container backed by a memory-mapped file behaves like an in-memory one under every history of appends, insertions, resizes, reserves and element writes, and after closing, the file contains exactly its used bytes and reopening it (to modify or to read) yields the same contents. "
 "Files written through the file interface read back byte-identical at any size including empty, moved or reassigned handles leave exactly one owner, and no descriptor, stream, mapping or buffer stays behind. (What a mapping that was shrunk and grown again reads between is unspecified, truncation of a stored image is detected with the integrity option, and values with plain pointers are not read from read-only mappings.)",
 ["histories", "inputs", "configurations"], "every operation history across reopen cycles x open modes x sizes around page and growth limits",
 "Tests map one file once with a few values.",
 ["mmap.h", "containers/mmap_vec.h", "targets/file.h", "io.h", "containers/paged.h"],
 [("mmap::resize / sync / used size", "mmap.h"), ("mmap_vec size bookkeeping", "containers/mmap_vec.h"), ("file handle ownership", "targets/file.h")],
 ["file bytes and size after close, /proc/self/fd and mappings"])

prop("P20", "Failed allocations and I/O are reported and leave objects intact",
 "When an allocation or a file operation (open, stat, resize, read, write, seek, map, sync) fails or transfers fewer bytes than requested, the operation reports it by an exception and never by silently wrong or partial data. "
 "Containers and handles involved stay valid: they still hold their previous contents or are empty, remain destructible and reusable, and nothing leaks or is released twice; only where copying one of several elements failed may some of them already have changed, and only containers composed of several others (jagged and multimap containers, bit vectors, matrices, spatial indexes, nested values) may after a failed change merely be destroyed or given a new value. "
 "What fails while closing a file cannot be reported and is excluded.",
 ["fault_sequences", "histories"], "every operation x every position of an injected failure of one allocation or file operation, or of that and all later ones",
 "No test injects any fault.",
 ["aligned_alloc.h", "containers/vector.h", "containers/hash_storage.h", "containers/string.h", "containers/cstring.h", "mmap.h", "targets/file.h", "buffer.h", "verify.h"],
 [("verify / throw_exception", "verify.h"), ("bad_alloc on null", "containers/vector.h"), ("return code checks", "targets/file.h"), ("growing a mapping", "mmap.h")],
 ["exceptions, contents after the fault, leak and double-free reports"])

prop("P21", "Hashing, equality and ordering agree with each other and with their reference",
 "For all values of all supported types, equal values (also of different but equivalent string, pointer or container types) hash equal for equal seeds, structural equality is reflexive, symmetric and transitive and equals member-wise equality, generated comparison operators form a consistent total order lexicographic in the members, and a change of any single member or element changes equality and (but for hash collisions of the algorithm, the sampling hash, the fraction of floating point numbers and empty or re-divided parts of equal total sequence) the hash. "
 "The byte hash of any string equals the published algorithm selected at build time, and bit-scan, population count and power-of-two helpers equal their mathematical definitions for every input for which these are defined.",
 ["inputs", "configurations"], "all values and value pairs of all supported types x each hash configuration",
 "Tests compare a few literals.",
 ["hashing.h", "hash.h", "equal_to.h", "reflection/comparable.h", "bit_counting.h", "next_power_of_2.h", "strong.h"],
 [("hashing<T>", "hashing.h"), ("equal_to<T>", "equal_to.h"), ("CISTA_COMPARABLE", "reflection/comparable.h"), ("hash / hash_combine", "hash.h")],
 ["returned hashes and comparison results"])

prop("P22", "Shared deserialized data can be read by many threads without races",
 "Any number of threads may concurrently deserialize the same relative-pointer image without modification, look up, iterate, compare, hash, copy and re-serialize the same constant object, and compute type fingerprints, without any data race and with every thread obtaining the results a single thread obtains. "
 "Threads working on distinct objects never influence each other.",
 ["schedules"], "every interleaving of readers of one object and of writers of distinct objects",
 "No test is multi-threaded.",
 ["serialization.h", "containers/hash_storage.h", "containers/vector.h", "containers/offset_ptr.h", "containers/rtree.h", "type_hash/type_hash.h"],
 [("const accessors without hidden state", "containers/hash_storage.h"), ("no mutable globals", "serialization.h")],
 ["ThreadSanitizer, results per thread"])

prop("P23", "Relative pointers designate the same target as plain pointers",
 "For every history of construction, copy, move, assignment, arithmetic, comparison, conversion and null assignment at arbitrary addresses, a relative pointer yields the same target, the same null-ness and the same comparison results as a plain pointer subjected to the same operations, including pointers to themselves, to const and to other types; indices are not negative and differences are taken of plain pointers. "
 "Copying a relative pointer to another location keeps its target; relocating the pointer together with its target keeps the relation.",
 ["histories", "inputs"], "every operation history over pointers and targets at every relative distance",
 "Tests check a few pointers within a vector.",
 ["containers/offset_ptr.h", "containers/ptr.h"],
 [("offset encoding with null sentinel", "containers/offset_ptr.h")],
 ["get(), comparisons"])

prop("P24", "Reflection visits every member exactly once in declaration order",
 "For every plain aggregate (no bases, bit-fields or built-in arrays) or member-listing structure with any supported number of members, field enumeration, tuple conversion, member counting, member indexing and generated printing visit exactly the declared members, once each, in declaration order, with access to the object's own members (writes through the visit change the object). "
 "Printed output contains every member's name and value in that order, and strong types and index conversions behave as the wrapped number without mixing tags.",
 ["programs", "inputs"], "every aggregate with 0..64 members of mixed types, and all member values",
 "Tests reflect a few small structs.",
 ["reflection/arity.h", "reflection/to_tuple.h", "reflection/for_each_field.h", "reflection/member_index.h", "reflection/printable.h", "strong.h"],
 [("arity detection", "reflection/arity.h"), ("structured binding per member count", "reflection/to_tuple.h")],
 ["visited addresses and order"])

prop("P25", "Generated headers are equivalent to the library's own headers",
"The single header the uniter assembles contains, for every header reachable from its inputs through quoted includes, every line exactly once, at the place of its first inclusion and in order; includes of headers that are not in the include path stay includes, and nothing else is lost, repeated or reordered. "
"A program built against the single header, or against a reflection header the to_tuple generator writes for any number of members, compiles whenever it does against the separate headers with the same hash function chosen, writes the same images, computes the same fingerprints, member offsets and member counts, and reads or rejects any image alike.",
["inputs", "programs", "configurations"], "every tree of headers (order, cycles, repetition, missing headers, comments, line ends) and every program over the supported types x hash function x pointer layout x member count up to the generated limit",
"The tests build one single header from one list of inputs, with one hash function, and never run the reflection header generator.",
["tools/uniter/uniter.cc", "tools/to_tuple_generator/to_tuple_generator.cc", "CMakeLists.txt", "reflection/to_tuple.h"],
[("recursive inclusion", "tools/uniter/uniter.cc"), ("generated structured bindings", "tools/to_tuple_generator/to_tuple_generator.cc"), ("checked-in generated header", "reflection/to_tuple.h")],
["lines of the generated header", "images, fingerprints and output of programs built with either"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
