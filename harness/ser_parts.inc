// The data types of the serialisation monitors, split into parts for parallel
// compilation. TYPE(suite, type, raw?, weight, kind, alignment of the image)
//   FULL: has both type hashes; RECURSIVE: no static type hash; NOHASH: none
#if VP_PART == 0
TYPE(off_scalars, offt::scalars, false, 1, FULL, 8)
TYPE(off_strings, offt::strings, false, 2, FULL, 8)
TYPE(off_cstrings, offt::cstrings, false, 1, NOHASH, 8)
TYPE(off_vecs, offt::vecs, false, 2, FULL, 8)
#endif
#if VP_PART == 1
TYPE(off_maps, offt::maps, false, 3, FULL, 8)
TYPE(off_tree, offt::tree, false, 2, RECURSIVE, 8)
#ifndef VP_NO_LINKS
TYPE(off_links, offt::links, false, 2, FULL, 8)
#endif
#endif
#if VP_PART == 2
TYPE(off_values, offt::values, false, 3, FULL, 8)
TYPE(off_bits, offt::bits, false, 1, FULL, 8)
TYPE(off_aligned16, offt::aligned16, false, 1, FULL, 16)
#endif
#if VP_PART == 3
TYPE(off_graph, offt::graph, false, 3, RECURSIVE, 8)
TYPE(off_aligned_holder, offt::aligned_holder, false, 1, FULL, 32)
#endif
#if VP_PART == 4
TYPE(off_multi, offt::multi, false, 4, FULL, 8)
#ifndef VP_NO_RTREE
TYPE(off_rtrees, offt::rtrees, false, 1, NOHASH, 8)
#endif
#endif
#if VP_PART == 5
TYPE(off_all, offt::all, false, 2, RECURSIVE, 8)
#endif
#if VP_PART == 6
TYPE(raw_scalars, rawt::scalars, true, 1, FULL, 8)
TYPE(raw_strings, rawt::strings, true, 2, FULL, 8)
TYPE(raw_cstrings, rawt::cstrings, true, 1, NOHASH, 8)
TYPE(raw_vecs, rawt::vecs, true, 2, FULL, 8)
#endif
#if VP_PART == 7
TYPE(raw_maps, rawt::maps, true, 3, FULL, 8)
TYPE(raw_tree, rawt::tree, true, 2, RECURSIVE, 8)
#ifndef VP_NO_LINKS
TYPE(raw_links, rawt::links, true, 2, FULL, 8)
#endif
#endif
#if VP_PART == 8
TYPE(raw_values, rawt::values, true, 3, FULL, 8)
TYPE(raw_bits, rawt::bits, true, 1, FULL, 8)
TYPE(raw_aligned16, rawt::aligned16, true, 1, FULL, 16)
#endif
#if VP_PART == 9
TYPE(raw_graph, rawt::graph, true, 3, RECURSIVE, 8)
TYPE(raw_aligned_holder, rawt::aligned_holder, true, 1, FULL, 32)
#endif
#if VP_PART == 10
TYPE(raw_multi, rawt::multi, true, 4, FULL, 8)
#ifndef VP_NO_RTREE
TYPE(raw_rtrees, rawt::rtrees, true, 1, NOHASH, 8)
#endif
#endif
#if VP_PART == 11
TYPE(raw_all, rawt::all, true, 2, RECURSIVE, 8)
#endif
#if VP_PART == 12
TYPE(off_large, offt::large, false, 1, FULL, 8)
#endif
#if VP_PART == 13
TYPE(raw_large, rawt::large, true, 1, FULL, 8)
#endif
