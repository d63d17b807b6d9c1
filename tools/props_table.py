p('C01','Every integer codec is lossless',
 'For every integer codec (those that can be selected by name, and lyck-16 and nybble-8), decoding what it encoded gives back exactly the list that went in, for every list of integers in the codec\'s documented range. This includes the all-zero, maximum-width, long-run and partial-final-block shapes that choose each of its packing formats.',
 ['inputs','configurations'],'all lists of 32-bit integers (within each codec\'s value range), all lengths, all codecs',
 'The unit tests encode constant lists and a few sampled sequences; a wrong mask, shift or selector shows only for particular values at a particular position.',
 [S+'compress_integer_*.cpp',S+'compress_integer_*.h',S+'compress_integer.h'])
p('C02','Encoders never write outside the buffer they are given',
 'Given a destination buffer of any size, an integer encoder either fits and returns the number of bytes used (no more than the buffer), or returns 0; it never writes a byte outside the buffer.',
 ['inputs','configurations'],'all lists and all destination sizes',
 'The tests always pass a generous buffer, so the size check is never the thing that decides.',
 [S+'compress_integer_*.cpp'])
p('C03','Document-id differences and cumulative sums are inverse',
 'Delta-encoding a list of integers with any supported gap and delta-decoding it gives back the list, and the vectorised cumulative sum and byte gather/scatter helpers give the same answers as the scalar definition for every input.',
 ['inputs'],'all integer lists, all gaps, all lengths',
 'Tests use two short lists; wrap-around, partial vectors and carries between lanes are not covered.',
 [S+'compress_integer.h',S+'simd.h'])
p('C04','An accumulator table behaves as an array of zeros after rewind',
 'After initialisation or rewind every accumulator reads as zero, and after any sequence of reads, writes and rewinds each accumulator holds exactly what was last written to it since the last rewind, independent of every other accumulator.',
 ['histories','configurations'],'all sequences of accesses and rewinds, all table sizes and widths',
 'Tests write each position once in one pass; stale data needs a particular interleaving of touches and rewinds on neighbouring cells.',
 [S+'accumulator_2d.h',S+'accumulator_counter.h',S+'accumulator_counter_interleaved.h'])
p('C05','Top-k containers keep exactly the k largest, in order',
 'The heap, beap, top-k heap and top-k sort keep (or put at the front) exactly the k largest of the values given to them, lose and duplicate nothing, and keep their ordering invariant after every operation.',
 ['inputs','histories'],'all arrays of values with ties, all k, all sequences of operations',
 'Tests use shuffles of distinct values; ties, replacement at a leaf and particular heap shapes are sampled only.',
 [S+'heap.h',S+'beap.h',S+'top_k_heap.h',S+'top_k_qsort.h',S+'pointer_box.h'])
p('C06','Query evaluation returns the true top-k documents',
 'After any sequence of score additions to documents, the results iterated from any of the exact query evaluators (heap, clean heap, block-maximum, block-maximum with heap) are exactly the k highest-scoring documents (fewer if fewer scored) in ranked order with their exact total scores, ties broken by document id as by a full sort.',
 ['histories','inputs'],'all sequences of (document, score) additions whose totals fit the accumulator, all k',
 'The test adds five scores once; a lost or duplicated document needs a particular crossing of the heap threshold.',
 [S+'query_heap.h',S+'query_heap_clean.h',S+'query_maxblock.h',S+'query_maxblock_heap.h',S+'query.h'])
p('C07','The inverted index records exactly the postings it was given',
 'After any sequence of documents and terms is indexed, iterating the index delivers every distinct term exactly once with exactly the documents that contained it, in order, with their (saturated) term frequencies, and every primary key exactly once in order.',
 ['histories','inputs'],'all sequences of documents and terms',
 'Tests index one small fixed collection and compare checksums.',
 [S+'index_manager_sequential.h',S+'index_postings.h',S+'hash_table.h',S+'binary_tree.h',S+'dynamic_array.h',S+'index_manager.h'])
p('C08','Impact ordering partitions a postings list by impact',
 'Impact-ordering a postings list yields one segment per distinct impact, in increasing order of impact, each holding exactly the document ids with that impact in increasing order; the segments together hold every posting exactly once.',
 ['inputs'],'all postings lists and impacts within the impact range',
 'Tests order one fixed list.',
 [S+'index_postings.h',S+'index_postings_impact.h',S+'reverse.h'])
p('C09','A serialised index reads back as what was written',
 'Reading back a serialised index (either version, any supported codec and alignment) finds every term that was written and no other, with exactly its impacts, document counts and document ids, and gives back the primary keys in order.',
 ['inputs','configurations'],'all small indexes: terms, postings and primary keys',
 'Tests only compare checksums of written files for one collection; nothing reads them back.',
 [S+'serialise_jass_v1.cpp',S+'serialise_jass_v2.cpp',S+'deserialised_jass_v1.cpp',S+'deserialised_jass_v1.h',S+'deserialised_jass_v2.cpp',S+'deserialised_jass_v2.h',S+'compress_integer_variable_byte.h'])
p('C10','Anytime search honours its budget and is exact when unlimited',
 'A search never processes more postings than the configured budget, processes the highest-impact segments first, and with an unlimited budget returns the exact top-k by summed impact; every well-formed query string, with or without a query id, is answered.',
 ['inputs','configurations'],'all small indexes, queries, budgets and k',
 'There are no tests of the search engine at all.',
 ['anytime/JASS_anytime_api.cpp','anytime/JASS_anytime_api.h',S+'deserialised_jass_v2.h',S+'run_export_trec.h'])
p('C11','Concurrent use of the shared containers loses nothing',
 'When several threads insert into one hash table, tree, dynamic array or take work from one query list, every insertion is visible afterwards exactly once, every element keeps its value, and each query is taken by exactly one thread, under every interleaving.',
 ['schedules'],'all interleavings of small concurrent histories',
 'The tests run a few threads once; the lost-update windows are a few instructions wide.',
 [S+'hash_table.h',S+'binary_tree.h',S+'dynamic_array.h','anytime/JASS_anytime_query.h','anytime/JASS_anytime_api.cpp'])
p('C12','Allocators hand out disjoint, aligned blocks inside their memory',
 'Every block an allocator returns lies inside memory it owns, is aligned as asked and overlaps no other live block, for every sequence of requests and rewinds and under every interleaving of concurrent requests; a request larger than a block still succeeds.',
 ['histories','schedules'],'all sequences of (size, alignment) requests and rewinds; all interleavings of concurrent requests',
 'Tests make a few fixed requests.',
 [S+'allocator_pool.cpp',S+'allocator_memory.cpp',S+'allocator.h',S+'allocator_cpp.h'])
p('C13','The document tokenizer emits exactly the tokens of the document',
 'The parser turns any document into the maximal runs of letters (case-folded), runs of digits, markup tokens and single other characters that it contains, in order, always makes progress to end of file, and never reads outside the document or writes outside the token buffer.',
 ['inputs'],'all byte strings as documents, including malformed UTF-8 and truncated markup',
 'Tests count the tokens of a few well-formed strings.',
 [S+'parser.cpp',S+'parser.h',S+'parser_fasta.cpp',S+'parser_unicoil_json.h'])
p('C14','Query parsing yields the distinct terms with their frequencies',
 'Parsing a query produces exactly its distinct case-folded terms, each once with the number of times it occurs, in sorted order, and agrees with the tokenization used for documents; it never reads outside the query or writes outside its buffer.',
 ['inputs'],'all byte strings as queries, both query parsers',
 'Tests parse a handful of strings.',
 [S+'parser_query.cpp',S+'parser_query.h',S+'query_term_list.h',S+'query_term.h'])
p('C15','Collection readers deliver every document once, unchanged',
 'Reading a TREC, HTML, FASTA, WARC or JSON-lines collection from a stream delivers each document of it exactly once, in order, with exactly its bytes and its primary key (for TREC the text of the first key element without the white space around it, "Unknown" when there is none; for FASTA the first line), and then reports the end however often it is asked, wherever the ends of the reader\'s buffer fall. A document has to fit in the buffer together with what precedes it, except that the JSON reader enlarges its buffer and also copes with a stream that returns short reads. No read or write goes outside the buffer.',
 ['inputs','fault_sequences'],'all small collections, all buffer boundaries and, for JSON, short-read patterns',
 'Tests read small collections that fit in one buffer.',
 [S+'instream_document_trec.cpp',S+'instream_document_html.h',S+'instream_document_fasta.cpp',S+'instream_document_warc.cpp',S+'instream_document_unicoil_json.cpp',S+'instream_memory.cpp'])
p('C16','UTF-8 encoding, decoding and character classes are consistent',
 'Every Unicode code point encodes to UTF-8 that decodes to the same code point and length, structurally malformed or truncated sequences are rejected without reading past the end, for ASCII the Unicode classes and case folding agree with the ASCII ones, and the folded form of a code point is the one the Unicode data files give.',
 ['inputs'],'all code points and all byte sequences up to the longest encoding',
 'Tests check selected code points and well-formed text.',
 [S+'unicode.h',S+'ascii.h','tools/unicode_database_to_c.cpp','tools/ascii_database_to_c.cpp'])
p('C17','Bit strings and bit streams behave as sequences of bits',
 'Setting, clearing, combining, counting, indexing and streaming bits gives the same answer as on a plain array of bits, for every length and position; positions outside the string are ignored.',
 ['inputs','histories'],'all bit strings, lengths not a multiple of the word size, and sequences of operations',
 'Tests use one length and a few positions.',
 [S+'bitstring.cpp',S+'bitstring.h',S+'bitstream.h'])
p('C18','Effectiveness measures equal their definitions',
 'Precision, recall, average precision, reciprocal rank, F, expected search length, rank-biased precision and the purchase-based measures computed for a query equal their textbook definitions for every results list and set of judgments, and lie in their range.',
 ['inputs'],'all short results lists and judgments',
 'Tests evaluate one fixed list each.',
 [S+'evaluate*.cpp',S+'evaluate*.h'])
p('C19','Ranking and quantization preserve score order within the impact range',
 'Scores are quantized to impacts in the legal range, the smallest score to the smallest impact and the largest to the largest, and a posting with a higher score never gets a lower impact than one with a lower score.',
 ['inputs'],'all small collections: term frequencies, document lengths and scores',
 'Tests check one collection.',
 [S+'quantize.h',S+'quantize_none.h',S+'ranking_function_atire_bm25.h'])
p('C20','Slice comparison and hashing are consistent',
 'Slice orderings are strict weak orders that agree with equality, equal slices hash equally, and box and slice comparisons agree with comparing the values they refer to.',
 ['inputs'],'all short byte strings, in pairs and triples',
 'Tests compare a few constants.',
 [S+'slice.h',S+'hash_pearson.h',S+'pointer_box.h',S+'maths.h'])
p('C21','The stemmer computes the Porter stem and stays inside its buffer',
 'Stemming a word gives the Porter stem of that word, no longer than the word, and never reads or writes outside the word\'s buffers.',
 ['inputs'],'all words up to a stated length',
 'Tests stem a list of sample words.',
 [S+'stem_porter.cpp',S+'stem_porter.h',S+'stem.h'])
p('C22','Channels and files return the bytes that were written',
 'Data written through a file or channel object in any sequence of writes and seeks, of any sizes around that of its buffer, is in the file byte for byte in order once the object is closed; reads and line reads return exactly the bytes that are there, shorter only at the end, and then nothing; tell() is the offset of the next byte; whole files are written and read back as they are, empty ones included; a stream over memory, a file or a pipe delivers its bytes in pieces of any size; and splitting a text into lines yields exactly its non-empty lines.',
 ['histories','fault_sequences'],'all short sequences of reads, writes and seeks around the internal buffer boundary, short reads',
 'Tests write a few short strings.',
 [S+'file.cpp',S+'file.h',S+'channel.h',S+'channel_buffer.h',S+'channel_file.cpp',S+'instream.h',S+'instream_memory.cpp',S+'instream_file.cpp',S+'instream_file_star.h'])
p('C23','Command-line parsing assigns exactly what was given',
 'Parsing a command line accepts exactly the declared options (short, long, attached or separate values), assigns each value to its own variable, reports unknown or incomplete options as errors, and never reads past the arguments.',
 ['inputs'],'all short argument vectors',
 'Tests parse fixed command lines.',
 [S+'commandline.h'])
p('C24','Imported CIFF indexes are decoded exactly',
 'Every field of a common-index-file-format message decodes to the value that was encoded, postings and documents are delivered in full and in order, and truncated input is never read past its end.',
 ['inputs'],'all encodings of small messages and all truncations',
 'There are no tests of the importer.',
 ['tools/protobuf.h','tools/ciff_lin.h','tools/ciff_to_JASS.cpp'])
p('C25','Integer maths helpers equal their mathematical definition',
 'Floor and ceiling logarithms, minimum, maximum, find-first/last-set and related helpers return the mathematically defined value for every argument in range.',
 ['inputs'],'all argument values',
 'Tests check a few constants.',
 [S+'maths.h',S+'maths.cpp'])
p('C26','General-purpose compression round-trips',
 'Compressing any byte string with the general-purpose compressors and decompressing it gives back the byte string.',
 ['inputs'],'all byte strings',
 'Tests compress fixed samples.',
 [S+'compress_general_zlib.cpp',S+'compress_general_zstd.cpp'])
p('C27','What is indexed is what is found, with the scores the ranking function orders',
 'A TREC collection indexed with JASS_index, as an index of either version, and searched with the anytime engine: a one-term query finds exactly the documents that contain the term (in either case, as a word, a number or a part of a hyphenated word, and not inside a tag), each named by its document number; more occurrences of a term in as long a document are never worse; a query of several terms finds the documents that any of them finds, ranked by score, a document as long with no fewer of each term being no worse, and neither the order of the terms nor their case matters; the words of the document number are searchable too.',
 ['inputs'],'all small collections',
 'Tests check the parts, or one index of a fixed collection by its checksum.',
 ['tools/JASS_index.cpp',S+'index_manager_sequential.h',S+'serialise_jass_v1.cpp',S+'serialise_jass_v2.cpp',S+'quantize.h',S+'ranking_function_atire_bm25.h',S+'parser.cpp',S+'instream_document_trec.cpp','anytime/JASS_anytime_api.cpp'])

