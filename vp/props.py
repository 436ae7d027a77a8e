"""Per property: the monitor drivers, the builds they run under, case counts."""
import os

import gen_types

REPO = os.environ.get("VP_REPO", "/repo")

PROPS = {}

PROPS["P10"] = {
    "drivers": {
        "vector": {
            "src": ["p10_vector.cc", "p10_vector_b.cc", "p10_vector_c.cc", "p10_vector_d.cc"],
            "runs": {"quick": {"asan": 24000, "vg": 320}, "thorough": {"asan": 1200000, "gasan": 200000, "vg": 6000}},
        },
    },
    "must_observe": ["alias_push_back", "emplace_from_part", "impossible_size", "to_vec_range_op", "to_indexed_vec", "insert_range", "erase_range", "copy_assign", "swap", "non_owned_start"],
    "rule": "a case is one random operation history (<=60 operations, <=300 elements, in a few histories up to 140000) on one vector type compared with "
            "std::vector after every operation; distinct_nontrivial counts distinct (size, leading contents) states judged",
    "assumptions": ["sizes stay below the maximum of the vector's size type", "element operations do not throw"],
}

PROPS["P09"] = {
    "drivers": {
        "hash": {
            "src": ["p09_hash.cc", "p09_hash_b.cc", "p09_hash_c.cc", "p09_hash_d.cc"],
            "runs": {"quick": {"asan": 12000, "vg": 160}, "thorough": {"asan": 500000, "gasan": 100000, "vg": 4000}},
        },
    },
    "must_observe": ["insert", "erase_key", "erase_iterating", "rehash", "move_assign", "lookup_heterogeneous", "churn_steps"],
    "rule": "a case is one random operation history (up to 400 operations, key universes of 3..255, in the large suites up to 140000) on one map/set type and hash "
            "function (good, constant, few groups, one tag, identity), compared with an ordered map after every operation; "
            "distinct_nontrivial counts distinct (key set, capacity) states judged",
    "assumptions": ["hash and equality functors are consistent and do not throw"],
}

PROPS["P11"] = {
    "drivers": {
        "string": {
            "src": ["p11_string.cc", "p11_string_b.cc", "p11_string_c.cc"],
            "runs": {"quick": {"asan": 24000, "vg": 320}, "thorough": {"asan": 1000000, "gasan": 200000, "vg": 6000}},
        },
    },
    "must_observe": ["alias_assign", "self_assign", "move_assign", "set_non_owning", "erase", "erase_to_end", "write_element", "compare"],
    "rule": "a case is one random operation history on four strings of one type compared with std::basic_string after every "
            "operation (contents, length, order against every operand kind, hash, prefix/suffix); distinct_nontrivial counts "
            "distinct string values (per representation) judged",
    "assumptions": ["strings other than the NUL-terminated type hold no embedded NUL characters",
                    "the storage a non-owning string refers to outlives it", "lengths below 2^31"],
}

PROPS["P12"] = {
    "drivers": {
        "values": {
            "src": ["p12_values.cc", "p12_values_b.cc", "p12_values_c.cc", "p12_values_d.cc", "p12_values_e.cc@0", "p12_values_e.cc@1"],
            "cflags": ["-Wno-c++20-extensions"],
            "runs": {"quick": {"asan": 24000, "vg": 320}, "thorough": {"asan": 1000000, "gasan": 200000, "vg": 6000}},
        },
    },
    "must_observe": ["opt_copy_assign", "opt_move_assign", "same_alternative", "other_alternative", "valueless", "swap",
                     "visited_alternatives", "too_many_alternatives", "tuple_of_pointers", "variant_of_pointers", "tuple_layouts", "uptr_non_own", "uptr_move_assign", "chain_insert", "chain_remove", "chain_skip", "chain_cut"],
    "rule": "a case is one random operation history on three optionals / variants / tuples / owning pointers compared with the "
            "standard type (or an ownership model) through every accessor after every operation, or one layout / visitation "
            "table; distinct_nontrivial counts distinct values judged",
    "assumptions": ["element operations do not throw", "alternative types of one variant are distinct"],
}

PROPS["P14"] = {
    "drivers": {
        "bits": {
            "src": ["p14_bits.cc", "p14_bits_b.cc", "p14_bits_c.cc", "p14_bits_d.cc"],
            "runs": {"quick": {"asan": 12000, "vg": 160}, "thorough": {"asan": 600000, "gasan": 120000, "vg": 4000}},
        },
        "huge": {
            "src": ["p14_huge.cc"],
            "runs": {"quick": {"asan": 240}, "thorough": {"asan": 12000}},
        },
    },
    "must_observe": ["huge_judged", "shift_right", "shift_left", "complement", "set_string", "shrink", "grow", "one_out", "max", "atomic_set", "reset"],
    "rule": "a case is one random operation history on three bit arrays of one width (16 fixed widths around word boundaries and up to 16389; "
            "dynamic widths 0..276, up to 140000, and sparse ones of 4..9 million bits, with 32 and 64 bit blocks) compared with a boolean array through every query after every "
            "operation; distinct_nontrivial counts distinct bit patterns judged",
    "assumptions": ["binary operators and order comparison get operands of equal width", "bit indexes written are below the width"],
}

def parts(f, ns=range(12)):
    return ["%s@%d" % (f, n) for n in ns]


PROPS["P01"] = {
    "drivers": {
        "huge": {  # (4.6 GB of memory each)
            "src": ["p01_huge.cc"], "cflags": ["-O2"], "hash": "xxh3", "serial": True,
            "runs": {"quick": {"asan": 4}, "thorough": {"asan": 40}},
        },
        "roundtrip": {
            "src": parts("p01.cc", range(14)) + ["p01_refs.cc", "p01_wide.cc"], "cflags": ["-O0"],
            "runs": {"quick": {"asan": 24000}, "thorough": {"asan": 600000, "gasan": 60000}},
        },
    },
    "must_observe": ["checked", "unchecked", "deep", "const", "cast", "second_generation", "unaligned_copy", "target_file", "target_buf",
                     "skip_version", "mode_none", "mode_version", "mode_static_version", "mode_integrity", "char_pointers", "byte_container",
                     "unchecked_container", "const_container", "pointers_inside", "pointers_elsewhere", "references_second_generation", "unchecked_unknown_size", "wide_checked", "wide_second_generation"],
    "rule": "a case is one random value of one of 18 data types (raw and offset flavour, up to 4.6 GB) serialised in one mode to a buffer or a "
            "file and read back through every reading mode and a second generation, compared by a canonical rendering written "
            "against the container interfaces; distinct_nontrivial counts distinct source values judged",
    "assumptions": ["nesting depth is bounded by the stack", "images are read at 64 byte aligned addresses (but for copy_from_potentially_unaligned)"],
}

PROPS["P02"] = {
    "drivers": {
        "image": {
            "src": parts("p02.cc", range(14)), "cflags": ["-O0"],
            "runs": {"quick": {"asan": 24000}, "thorough": {"asan": 600000, "gasan": 60000}},
        },
    },
    "must_observe": ["at_shifted_address", "in_read_only_memory", "moved_elsewhere", "read_leaves_bytes"],
    "rule": "a case is one random value of one of 15 data types (raw and offset flavour) serialised, the source freed, and the image "
            "read at a shifted address in an exactly sized buffer, in write protected pages, and after having been moved; every "
            "reference reached is judged for range, alignment and disjointness; distinct_nontrivial counts distinct source values",
    "assumptions": ["images are read at addresses that honour the strictest alignment of the types they hold"],
}

PROPS["P07"] = {
    "drivers": {
        "endian": {
            "src": parts("p07.cc", range(14)) + ["p07_wide.cc"], "cflags": ["-O0"],
            "runs": {"quick": {"asan": 16000}, "thorough": {"asan": 400000, "gasan": 40000}},
        },
    },
    "must_observe": ["scalars_reversed", "read_big_endian", "read_big_endian_deep", "read_big_endian_unchecked", "rewritten_native",
                     "checksum_field", "swapped_values", "mode_static_version", "wide_reversed", "wide_unchecked", "wide_deep"],
    "rule": "a case writes one random value of one of 13 data types (raw and offset flavour) in both byte orders; a walk over the "
            "little endian image yields the position of every multi-byte scalar and bookkeeping field, and every byte of the big "
            "endian image is judged against the image with exactly these reversed; distinct_nontrivial counts distinct values",
    "assumptions": ["little endian host", "spatial indexes are not written big endian (that does not compile)"],
}

PROPS["P05"] = {
    "drivers": {
        "integrity": {
            "src": parts("p05.cc", [0, 1, 2, 3, 4, 5, 7]), "cflags": ["-O0"],
            "runs": {"quick": {"asan": 8000}, "thorough": {"asan": 300000, "gasan": 30000}},
        },
        "integrity_xxh3": {
            "src": parts("p05.cc", [6]), "cflags": ["-O0"], "hash": "xxh3",
            "runs": {"quick": {"asan": 800}, "thorough": {"asan": 40000}},
        },
        "integrity_wyhash": {
            "src": parts("p05.cc", [6]), "cflags": ["-O0"], "hash": "wyhash",
            "runs": {"quick": {"asan": 800}, "thorough": {"asan": 40000}},
        },
        "integrity_wyfast": {
            "src": parts("p05.cc", [6]), "cflags": ["-O0"], "hash": "wyfast",
            "runs": {"quick": {"asan": 100}, "thorough": {"asan": 1000}},
        },
    },
    "must_observe": ["accepted_unaltered", "large_images", "bit_flip_header", "bit_flip", "byte_changed", "burst", "bytes_swapped", "truncated", "extended",
                     "skip_modes", "foreign_type", "target_file", "mode_version_integrity_big_endian"],
    "rule": "a case writes one random value (11 types, both flavours, four hash algorithms) with a version and/or checksum option and "
            "judges acceptance of the unaltered image and rejection of about 60 alterations of it (all header bytes, random bits, "
            "bytes, bursts, swaps, truncations, extensions), or reads the image of one type as a near or far different type; "
            "distinct_nontrivial counts distinct images",
    "assumptions": ["accidental collisions of the 64 bit hash are not met"],
}

PROPS["P06"] = {
    "drivers": {
        "fingerprint": {
            "src": ["p06.cc"], "gen": gen_types.p06, "cflags": ["-O0"],
            "runs": {"quick": {"asan": 500}, "thorough": {"asan": 4000}},
        },
        "unnamed": {
            "src": ["p06_gcc.cc"], "cflags": ["-O0"],
            "runs": {"quick": {"gasan": 20, "asan": 20}, "thorough": {"gasan": 20, "asan": 20}},
        },
    },
    "must_observe": ["renamed", "other_scope", "scalar changed", "member added", "member removed", "members swapped", "by_hand", "of_a_value"],
    "rule": "a case judges one randomly generated type (struct graph of scalars, containers, shared and recursive structs) against copies "
            "under other names and scopes (both fingerprints equal) and six copies with one random structural edit (both differ), one of "
            "about 80 hand-written pairs, or a populated value; distinct_nontrivial counts distinct type structures and values judged",
    "assumptions": ["integers of one size and raw / relative pointers are not distinguished", "a name of an enumeration or tag counts as structure",
                    "moving a member across a struct / tuple / variant / pair / array boundary is a known finding"],
}

PROPS["P03"] = {
    "drivers": {
        "targets": {
            "src": parts("p03.cc", range(8)), "cflags": ["-O0"],
            "runs": {"quick": {"asan": 2400}, "thorough": {"asan": 120000, "gasan": 12000}},
        },
        "targets_xxh3": {
            "src": parts("p03.cc", [6]), "cflags": ["-O0"], "hash": "xxh3",
            "runs": {"quick": {"asan": 60}, "thorough": {"asan": 1000}},
        },
        "targets_wyhash": {
            "src": parts("p03.cc", [6]), "cflags": ["-O0"], "hash": "wyhash",
            "runs": {"quick": {"asan": 60}, "thorough": {"asan": 1000}},
        },
    },
    "must_observe": ["byte_vector_reused", "callers_container_reused", "mapped_target_reused", "mapped_target_file", "file", "file_content", "mapped", "copied",
                     "large_values", "update", "update_refused", "checksum", "block", "reset", "large_file", "moved_file"],
    "rule": "a case serialises one random value (12 types) to every target (byte vector, a caller's container with non-zero new bytes, the "
            "library's vector, file, memory mapped file; each also reused) and compares all bytes, then reads the stored file copied and mapped; or "
            "drives one target with a random history of aligned blocks, in-place updates, checksums and resets against a byte model; "
            "distinct_nontrivial counts distinct images / final byte contents",
    "assumptions": ["block alignments are powers of two up to 64"],
}

PROPS["P04"] = {
    "drivers": {
        "hostile": {
            "src": parts("p04.cc") + ["p04_wide.cc"], "cflags": ["-O0"],
            "runs": {"quick": {"asan": 30000}, "thorough": {"asan": 900000, "gasan": 90000}},
        },
    },
    "must_observe": ["slots_agree", "slot_overflowing", "accepted", "refused", "deep", "big_endian", "arbitrary", "misaligned", "slot_pointed", "slot_adjusted", "truncate",
                     "same_verdict_elsewhere", "same_verdict_const", "elements_read", "wide_accepted", "wide_rejected"],
    "rule": "a case is one valid image of a random value of one of 14 data types (raw and offset flavour) with about 15 random alterations "
            "(bits, bytes, chunks, truncation, extension, numbers and references put into the fields the walk over the value finds), each read "
            "checked and deep checked in an exactly sized buffer; what is accepted is read completely through the containers' observers; "
            "distinct_nontrivial counts distinct images altered",
    "assumptions": ["ownership nested deeper than the stack is not met (images up to 6 KB)"],
}

PROPS["P16"] = {
    "drivers": {
        "jagged": {
            "src": ["p16_jagged.cc", "p16_jagged_b.cc", "p16_jagged_c.cc"],
            "runs": {"quick": {"asan": 12000, "vg": 160}, "thorough": {"asan": 600000, "gasan": 100000, "vg": 4000}},
        },
        "many": {
            "src": ["p16_many.cc"],
            "runs": {"quick": {"asan": 100}, "thorough": {"asan": 5000}},
        },
    },
    "must_observe": ["wide_matrix_judged", "many_buckets_judged", "many_keys_judged", "many_entries_judged", "append", "append_lvalue", "append_bucket", "append_own_bucket", "append_own_range", "add_back_sized", "bucket_grow", "resize_shrink", "resize_grow",
                     "alias_push_back", "at_full", "at_out_of_range", "fws_finished", "matrix_resize", "matrix_overflow"],
    "rule": "a case is one random history of appends, bucket growth, element writes, resizes, copies and moves on a jagged array "
            "(1, 2, 3 or 4 levels), a forward multimap or a matrix, compared after every operation with nested std::vectors through "
            "every accessor, both iteration directions and iterator arithmetic; distinct_nontrivial counts distinct contents judged",
    "assumptions": ["sizes stay below the maximum of the index type", "index and key types have the same width",
                    "matrices keep their entries in row major order when resized"],
}

PROPS["P17"] = {
    "drivers": {
        "multimap": {
            "src": ["p17_mm.cc", "p17_mm_b.cc", "p17_mm_c.cc"],
            "runs": {"quick": {"asan": 8000, "vg": 160}, "thorough": {"asan": 500000, "gasan": 100000, "vg": 4000}},
        },
        "many": {
            "src": ["p17_many.cc"],
            "runs": {"quick": {"asan": 90}, "thorough": {"asan": 5000}},
        },
    },
    "must_observe": ["many_judged", "over_a_million_elements", "largest_pages", "small_limit_refused", "create", "release", "insert", "erase", "erase_range", "bucket_limit", "alias", "recycle", "page_create", "page_free",
                     "page_resize", "page_limit", "append_converting", "steady_pages", "steady_buckets"],
    "rule": "a case is one random history of bucket creation, growth, insertion, erasure, release and recycling on one multimap, paged "
            "storage or paged jagged array, compared after every operation with vectors of vectors, with the address ranges of all live "
            "buckets judged for disjointness; distinct_nontrivial counts distinct contents judged",
    "assumptions": ["data sizes stay below the maximum of the index type"],
}

PROPS["P08"] = {
    "drivers": {
        "mutate": {
            "src": parts("p08.cc"), "cflags": ["-O0"],
            "runs": {"quick": {"asan": 12000}, "thorough": {"asan": 600000, "gasan": 60000}},
        },
    },
    "must_observe": ["operations_on_image_objects", "changing_operations", "copies_kept_of_image_parts", "copies_outliving_the_image",
                     "root_copies", "destroyed_in_image", "moved_out", "written_again"],
    "rule": "a case builds one random value of one of 14 data types (raw and offset flavour) twice, writes one of them and reads it back "
            "inside an image of exactly its size; the same random operations, at any depth of the value, are applied to the twin and to "
            "the object in the image, and after each one answers and complete contents are compared; kept copies are judged again and "
            "changed after the image was overwritten and freed; distinct_nontrivial counts distinct contents after an operation",
    "assumptions": ["views and generic strings do not own their characters, copies of them are not expected to",
                    "memory held by elements that live in an image is not released by operations on the image's containers"],
}

PROPS["P13"] = {
    "drivers": {
        "life": {
            "src": parts("p13.cc", range(8)), "cflags": ["-O0"],
            "runs": {"quick": {"asan": 12000, "vg": 100}, "thorough": {"asan": 600000, "gasan": 100000, "vg": 3000}},
        },
    },
    "must_observe": ["operations", "objects_alive_judged", "constructed", "copied", "moved", "whole_copies", "whole_moves", "all_destroyed"],
    "rule": "a case is one random history on a nested value with lifetime-tracked objects in optionals, variants, pairs, tuples, arrays, "
            "vectors, hash tables, owning pointers, jagged arrays and matrices; after every operation the set of live objects is compared "
            "with the set of objects reached through the containers, and at the end nothing may be alive or allocated; "
            "distinct_nontrivial counts distinct contents judged",
    "assumptions": ["the growable multimap and paged storage accept only trivially copyable elements, which have no observable lifetime"],
}

PROPS["P15"] = {
    "drivers": {
        "atomic": {
            "src": ["p15.cc"],
            "runs": {"quick": {"tsan": 1600, "gcc": 8000, "asan": 800}, "thorough": {"tsan": 60000, "gcc": 400000, "asan": 40000}},
        },
        "atomic20": {
            "src": ["p15.cc"], "cflags": ["-std=c++20"],
            "runs": {"quick": {"tsan": 1600, "gcc": 8000}, "thorough": {"tsan": 60000, "gcc": 400000}},
        },
    },
    "must_observe": ["word_updates", "updates_seen_from_others", "bits_with_both", "bit_updates", "bits_one_writer", "bits_many_writers",
                     "successful_min_max", "values_seen_from_others", "claims", "claims_by_several_threads"],
    "rule": "a case runs 2 to 8 threads with differing paces on shared words, a shared bit vector or a shared cursor; every update logs the "
            "value it returned and the logs are judged after the join: per bit, transitions reported must add up to the change of the bit, "
            "successful minima and maxima must form one chain, claims must partition the set bits; ThreadSanitizer watches the same runs; "
            "distinct_nontrivial counts distinct orders in which the threads' updates took effect",
    "assumptions": ["plain (non atomic) reads of bits while other threads update them atomically are not promised to be race free"],
}

PROPS["P22"] = {
    "drivers": {
        "readers": {
            "src": parts("p22.cc"), "cflags": ["-DVP_MT=1", "-O0"],
            "runs": {"quick": {"tsan": 2400}, "thorough": {"tsan": 60000, "asan": 20000, "gcc": 60000}},
        },
    },
    "must_observe": ["concurrent_deserializations", "concurrent_walks", "concurrent_questions", "concurrent_fingerprints",
                     "concurrent_copies", "concurrent_serializations", "shared_objects", "separate_objects"],
    "rule": "a case lets 2 to 8 threads read one image (deserialize checked and unchecked, walk everything, ask, copy, serialize again) or "
            "one shared object, or change objects of their own, with differing paces; ThreadSanitizer watches all memory accesses and every "
            "thread compares what it read with what one thread alone reads; distinct_nontrivial counts distinct contents judged",
    "assumptions": ["operations that change an object are not called concurrently with other operations on the same object"],
}

PROPS["P18"] = {
    "drivers": {
        "rtree": {
            "src": parts("p18.cc", range(4)),
            "runs": {"quick": {"asan": 4000}, "thorough": {"asan": 200000, "gasan": 60000, "vg": 1500}},
        },
    },
    "must_observe": ["insertions", "deletions", "deletions_of_absent", "conditional_deletions", "searches_matching_some", "searches_matching_all",
                     "searches_without_match", "searches_stopped", "trees_with_branches", "trees_of_three_levels", "several_free_nodes",
                     "copies", "moves", "read_back", "on_files", "emptied", "trees_of_12_levels"],
    "rule": "a case is one random history of insertions, deletions by value and by condition, copies, moves, writing and reading back on one "
            "spatial index (1 to 3 dimensions, 2 to 64 entries per node, 4 coordinate types, in memory and on files), with coordinates that "
            "touch, repeat, have no extent or come in order; searches are compared with a list, and the whole tree is inspected: rectangles "
            "enclose, leaves at one depth, every node once in the tree or on the free list; distinct_nontrivial counts distinct contents judged",
    "assumptions": ["coordinates are numbers (no NaN), areas fit the coordinate type, minima do not exceed maxima"],
}

PROPS["P25"] = {
    "drivers": {
        "trees": {
            "src": ["p25.cc@0"], "cflags": ["-DVP_REPO_DIR=\"%s\"" % REPO],
            "runs": {"quick": {"asan": 1600}, "thorough": {"asan": 60000}},
        },
        "programs": {
            "src": ["p25.cc@1"], "cflags": ["-DVP_REPO_DIR=\"%s\"" % REPO],
            "runs": {"quick": {"asan": 36}, "thorough": {"asan": 900}},
        },
    },
    "technique": "runtime monitoring: the tools run under AddressSanitizer/UBSan on random header trees, their output judged by a model of inclusion; random programs built with and without the generated headers, their observable answers compared",
    "must_observe": ["trees_united", "trees_with_cycles", "large_trees", "no_newline_at_end", "external_headers", "inputs_already_included",
                     "single_header_programs", "single_header_with_external_hash", "regenerated_header_programs", "images_exchanged", "every_arity"],
    "rule": "a case is one random tree of headers (order, cycles, repetition, external headers, comments, lines of any kind) united and compared "
            "line by line with what a preprocessor would make of it, or one random program (structures of up to 64 members of all kinds of types) "
            "built against the separate headers and against the single header (4 hash functions) or a regenerated reflection header, whose images, "
            "fingerprints, offsets, values and rejections are exchanged and compared; distinct_nontrivial counts distinct outputs judged",
    "assumptions": ["quoted includes start their line", "headers are guarded by #pragma once"],
}

PROPS["P24"] = {
    "drivers": {
        "reflection": {
            "src": ["p24.cc"], "gen": gen_types.p24, "cflags": ["-O0"],
            "runs": {"quick": {"asano": 6000}, "thorough": {"asan": 200000, "gasan": 100000}},
        },
    },
    "must_observe": ["arity", "for_each_field", "for_each_field_const", "for_each_field_pointer", "for_each_ptr_field", "to_tuple", "member_index",
                     "writes_through_visit", "printed", "compared_equal", "compared_less", "compared_greater", "strong_operations",
                     "tags_kept_apart", "strong_indices", "member_offsets", "scalars"],
    "rule": "the generator writes structures with every number of members from 0 to 64 (aggregates, structures listing their members, derived "
            "ones) of random member types and notes what must be visited; a case fills one of them with random values and compares addresses "
            "and sizes visited by every way of enumerating, member indices, writes through the visit, what is printed and the generated "
            "comparison operators with the member list, or runs one history of operations on a strong type next to the plain number; "
            "distinct_nontrivial counts distinct object contents and strong values judged",
    "assumptions": ["plain aggregates have no base classes, bit fields or C arrays (those list their members)"],
}


def p21_driver(h):
    return {
        "src": parts("p21.cc", range(5)), "hash": h, "cflags": ["-O0"],
        "runs": {"quick": {"asano" if h != "fnv" else "asan": 12000}, "thorough": {"asan": 250000, "gasan": 100000}},
    }


PROPS["P21"] = {
    "drivers": {("hash_" + h): p21_driver(h) for h in ("fnv", "xxh3", "wyhash", "wyfast")},
    "must_observe": ["equal_values", "unequal_values", "unequal_hashes", "byte_strings", "bit_changes", "combined", "bit_helpers", "chunked", "keys_looked_up",
                     "equivalent_values", "inequivalent_values", "pointers_looked_up", "numbers_looked_up", "texts_looked_up",
                     "compared_equal", "compared_less", "compared_greater", "alternatives_compared"],
    "rule": "in each of the four hash configurations, a case compares hashes of random bytes (every length class of the algorithms, any "
            "alignment, the block ending with the bytes) with an independent implementation, bit helpers with loops, or takes values of one of "
            "about 75 types: the same value made in another way must be equal and hash equally, a value with one change must be unequal and "
            "hash differently, equal texts, sequences, pointers and numbers of different types must agree and find each other in tables; "
            "distinct_nontrivial counts distinct byte strings and values judged",
    "assumptions": ["unequal hashes are asked for only where the scalars and characters in order differ (boundaries and empty parts do not count), "
                    "floating point numbers differ in their integer part, and the hash is not the sampling one",
                    "next_power_of_two is asked for 1..2^(bits-1), constexpr_trailing_zeros for numbers other than 0"],
}

PROPS["P23"] = {
    "drivers": {
        "pointers": {
            "src": ["p23.cc"],
            "runs": {"quick": {"asan": 4000, "gasan": 3000, "gcc": 12000}, "thorough": {"asan": 300000, "gasan": 200000, "gcc": 1000000, "asan2": 100000}},
        },
        "pointers20": {
            "src": ["p23.cc"], "cflags": ["-std=c++20"],
            "runs": {"quick": {"asan": 2000, "gcc": 6000}, "thorough": {"asan": 100000, "gcc": 300000}},
        },
    },
    "must_observe": ["operations", "targets_near", "targets_far_away", "compared_equal", "compared_unequal", "steps", "jumps", "swaps", "detours", "sorted",
                     "relocations", "self_pointers", "pointers_into_self", "elements_judged", "distances_judged"],
    "rule": "a case is one random history of construction, copy, move, assignment, arithmetic, swaps, sorting and detours through const and "
            "void pointers on 24 relative pointers on the heap and in mappings at low and high addresses, each next to a plain pointer; or a "
            "graph of nodes pointing to themselves, to each other and to each other's pointers which is moved bytewise; or histories of "
            "collections of pointers; distinct_nontrivial counts distinct distances between pointer and target and distinct collections judged",
    "assumptions": ["indices are not negative (operator[] takes an unsigned number)", "differences p - q go through plain pointers"],
}

PROPS["P19"] = {
    "drivers": {
        "storage": {
            "src": parts("p19.cc", range(4)), "cflags": ["-O1"],
            "runs": {"quick": {"asan": 10000}, "thorough": {"asan": 200000, "gasan": 50000, "gcc": 200000}},
        },
        "huge": {  # (sparse files of 4..16 GB)
            "src": ["p19_huge.cc"],
            "runs": {"quick": {"asan": 200}, "thorough": {"asan": 4000}},
        },
    },
    "must_observe": ["opened_to_write", "opened_to_read", "opened_to_modify", "open_refused", "resize_refused", "reserve_refused", "append_refused", "grown", "shrunk",
                     "seen_by_others", "replaced", "moved", "census", "stream_refused", "read_empty", "read_all", "updated", "stream_replaced", "appended_own",
                     "inserted", "range_inserted", "set", "resized", "vec_moved", "closed_after_changes", "closed_after_reading", "within_limit", "beyond_limit",
                     "buckets_added", "bucket_inserted", "sized_bucket_added", "jagged_closed", "read_again", "bits_set", "bits_resized", "read_copied", "read_mapped", "own_value",
                     "own_value_replaced", "buffer_moved", "buffer_moved_to_itself", "buffer_held", "own_value_reset", "wrapped_reset", "read_after_reset", "damaged_refused", "nothing_held", "file_compared"],
    "rule": "a case is one random history over closing and reopening (write, modify, read) of plain mappings, streams, vectors, jagged vectors "
            "and bit vectors on files, or of values written and read back whole; after every operation the contents are compared with a plain "
            "model, after every closing the file's bytes are compared without the code under test, and the process's descriptors and mappings "
            "of the scratch files are counted; distinct_nontrivial counts distinct final file contents",
    "assumptions": ["no other process changes the files", "one file is not opened twice to be changed", "values with plain pointers are not read from read-only mappings"],
}

PROPS["P20"] = {
    "drivers": {
        "faults": {
            "src": parts("p20.cc", range(5)), "cflags": ["-O0"],
            "ldflags": ["-Wl," + ",".join("--wrap=" + f for f in (
                "malloc aligned_alloc fopen fread fwrite fputc fseek fflush fstat ftruncate mmap msync".split()))],
            "runs": {"quick": {"asan": 20000}, "thorough": {"asan": 600000, "gasan": 100000}},
        },
    },
    "must_observe": ["operations", "kept", "emptied", "faults_single", "faults_lasting", "used_again", "malloc", "aligned_alloc", "operator_new",
                     "fopen", "fread", "fwrite", "fputc", "fseek", "fflush", "fstat", "ftruncate", "mmap", "msync", "file_operations", "fault_reported",
                     "nothing_held", "full_device_reported", "only_assignable", "changed", "streamed", "huge_refused", "huge_mapping_refused",
                     "limited_mapping_refused", "shortened_reported"],
    "rule": "a case is one operation on one random object, run once for every allocation or file operation in it with that one (and, "
            "separately, that one and all later ones) failing, followed by a comparison with what the operation promises (unchanged, empty or "
            "merely valid), by further use, and by an accounting of every allocation, descriptor and mapping",
    "assumptions": ["a destructor that closes a file cannot report a failure", "a container composed of several others is afterwards only destroyed or assigned to",
                    "elements' own move operations do not fail"],
}
