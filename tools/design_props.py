# how each property is decided: P[id] = prose (oracle, what is symbolic, why the tests cannot reach it)
P = {}
P['C01'] = '''Harness codec.cpp: for each codec obtainable by name from `compress_integer_all` (one job per codec), encode a list whose integers are symbolic, decode what was written into an exact buffer, compare; the oracle is the list itself. Lists are short and entirely free, or longer with concrete widths per position and a symbolic exception, because the selectors of the word-aligned codecs are chosen by widths: `sym_choose` over width classes makes every selector combination a path, and the values within the class stay symbolic. The unit tests encode fixed random lists; a wrong shift for one selector (found in Relative-10 and Carry-8b) survives them.'''
P['C02'] = '''Harness codec_dst.cpp: encode into a heap buffer of exactly n bytes for every n from 0 up to more than is needed; the executor's bounds check on each store is the property, and a non-zero result must decode to the list (so refusing is allowed, lying is not). KF3..KF5: three QMX variants ignore the length of the destination by design of their interface.'''
P['C03'] = '''Harness delta.cpp: `compress_integer` d1 encode/decode, `simd::cumulative_sum`, gather and scatter: arbitrary 32-bit values, every length around the SIMD block widths; oracle: prefix sums modulo 2^32, element-by-element access, and the executor's bounds check on exact buffers.'''
P['C04'] = '''Harness accum.cpp: accumulator_2d, accumulator_counter (4 and 8 bit), the interleaved forms and the vector form against an array model: every sequence of additions at symbolic document ids, two queries one after another, numbers of documents that are not a multiple of the row width. A stale flag shows only on the second query and only for particular documents.'''
P['C05'] = '''Harness topk.cpp: heap (build, push_back, min_insert streams), beap (find, guaranteed_replace_smallest, make_beap), top_k_heap, top_k_qsort: all arrays of symbolic values of the sizes listed, so every order and every tie; oracle: order and multiset by counting.'''
P['C06'] = '''Harness evaluate.cpp: query_heap, query_heap_clean, query_maxblock, query_maxblock_heap, fed with every short sequence of (document, impact) postings through add_rsv and by decoding segments; oracle: scores summed in an array, then the top k by score (ties free), and the early-termination bound. KF2: query_maxblock sorts addresses.'''
P['C07'] = '''Harness index.cpp: index_postings push_back/linearize and index_manager_sequential fed with short documents of symbolic terms and counts; oracle: a list of (term, document, frequency). Includes growth of the dynamic arrays over their segments and frequencies above the cap.'''
P['C08'] = '''Harness index.cpp: index_postings_impact::impact_order over every short list of frequencies (up to the largest impact); oracle: partition by impact, ids in order. Includes reuse of the same object for the next list.'''
P['C09'] = '''Harness store.cpp: serialise_jass_v1/v2 write an index (codecs by letter, alignments) into the in-memory file system, deserialised_jass_v1/v2 read it, every list is decoded with the codec that the index names; oracle: the lists written.'''
P['C10'] = '''Harness search.cpp: the whole of JASS_anytime_api over index files: load, set budgets, search; oracle: scores by summing impacts, top k by score, postings processed in order of impact within the budget. About 10 ms per path.'''
P['C11'] = '''Harness threads.cpp (dynamic_array, binary_tree, hash_table, allocator_pool, the query list of JASS_anytime_query) and search.cpp (one engine shared by searching threads): schedules are symbolic, see section 1. The tests run threads as they happen to be scheduled.'''
P['C12'] = '''Harness memory.cpp: sequences of allocations of symbolic sizes and alignments from allocator_pool and allocator_memory; oracle: blocks are disjoint, aligned, inside their chunk (each is filled, under the executor's bounds checks) and keep their contents; rewind gives everything back; threads as in C11.'''
P['C13'] = '''Harness docs.cpp: parser, parser_fasta, parser_unicoil_json on exact-sized symbolic documents over an alphabet that reaches every character class and mark-up state, and on all bytes for short ones; oracle: a reference tokeniser in the harness.'''
P['C14'] = '''Harness queries.cpp: parser_query and query_term_list on symbolic queries (ascii, unicode, raw, with characters whose folding expands); oracle: a reference parser, and agreement with the tokens that the document parser indexes.'''
P['C15'] = '''Harness readers.cpp writes collections of 2 or 3 documents of several forms (key present, blank, empty, missing, unfinished; text between documents; unfinished tails; lines of a FASTA record that are empty or contain '>'; WARC header lines shorter than, equal to and longer than the buffer) with arbitrary bytes in them, gives them to each reader with every buffer size from the smallest that holds a document upwards, and compares what is delivered with what was written. A reader may read from another reader. The JSON reader's private buffer is made small through its own members, and its stream returns short reads. Not covered: instream_deflate (zlib is outside the repository) and instream_directory_iterator (std::filesystem), documents larger than the buffer, CR LF line ends in WARC headers.'''
P['C16'] = '''Harness text.cpp: every code point, every byte string up to the length given; case folding against the Unicode data files read independently of the generator in the repository.'''
P['C17'] = '''Harness bits.cpp: histories of bitstring set/unset/resize, binary operations between strings of different sizes, population count and indexing, and bitstream writing/reading, against arrays of bits; symbolic positions, widths and contents.'''
P['C18'] = '''Harness measures.cpp: every ranked list of documents with every set of judgments (symbolic relevance) of the sizes given; oracle: the definition written out in the harness, over rationals where that matters. KF7: selling power exceeds 1.'''
P['C19'] = '''Harness ranking.cpp: quantize with a ranker whose scores come from a table, and the whole path from documents through BM25; oracle: order is kept, range is used, BM25 within 1e-5.'''
P['C20'] = '''Harness collections.cpp: slice comparison is a total order consistent with equality and hashing (symbolic contents and lengths); pointer_box, binary_tree, hash_table and dynamic_array against a list model.'''
P['C21'] = '''Harness stems.cpp: stem_porter against a rendering of the published algorithm written independently: symbolic letters.'''
P['C22'] = '''Harness files.cpp: every sequence of writes, reads and seeks through a file object with a buffer of a few bytes over the file model (rt/files.cpp; the native replay uses real files), against a byte vector; whole files; mapped files; lines; channels read and written by every method; streams over memory, a file and a FILE * taken in pieces. Left unspecified: calling setvbuf after writing (its documentation excludes it), reading straight after writing without a seek (as in C), files that cannot be opened for writing.'''
P['C23'] = '''Harness options.cpp: every vector of up to 2 (thorough 3) arguments from a set that covers each option in each form, and of arbitrary short strings; oracle: a reference parser; argv is exact, so reading past it is seen.'''
P['C24'] = '''Harness ciff.cpp: an encoder of CIFF messages in the harness produces exact-sized buffers with symbolic values, lengths and field order; protobuf.h and ciff_lin.h decode them; ciff_to_JASS's main converts whole files that are then read back by the deserialiser. Truncation: KF8.'''
P['C25'] = '''Harness maths.cpp: each helper on one or two arbitrary arguments against its definition by shifting and comparing.'''
P['C27'] = '''Harness endtoend.cpp: includes tools/JASS_index.cpp and runs its main on a TREC file of symbolic words (written to the file model; real files when replayed), for both versions, then searches with JASS_anytime_api and compares the results with the words each document was given. Everything between — reader, parser, index manager, BM25, quantiser, serialiser, loader, decoder, accumulators, top-k — is the real code. It is the one check in which two parts that are each within their own statement but disagree with each other show up. Left open: the exact BM25 values (floating point logarithms; they are computed on the concrete lengths and frequencies of each path, and only their order is checked).'''

