NOTE['C01'] = 'Every codec selectable by name, executed from source; bounded to short free lists, long runs with width changes and single exceptions (job table).'
NOTE['C07'] = 'Postings lists, linearisation and a small index built through index_manager_sequential; the index hash table is shrunk to 8 bits by the JASS_VERIFY_SMALL_TABLES hook.'
NOTE['C08'] = 'Impact ordering of every short postings list, forwards and backwards, and reuse of the ordering object from list to list.'
NOTE['C13'] = 'Bounded: short documents over small alphabets (all bytes for the length-limited jobs), exact buffers and a reference tokeniser; known finding KF6 recorded.'
NOTE['C14'] = 'Bounded: short queries over restricted alphabets against a reference parser, and agreement with the document tokeniser.'
NOTE['C16'] = 'Every code point (encode), every byte string up to the stated length (decode, length agreement); case folding against an independent reading of the Unicode data files.'
NOTE['C21'] = 'Every word of up to 5 letters and every stem of up to 3 letters (one of each kind) before each of 71 suffixes, against an independent rendering of the published algorithm.'
NOTE['C11'] = 'Bounded threads, insertions and preemptions (2, thorough 3); scheduling points are the synchronisation operations, data races on everything else are detected by happens-before; counterexample and sampled schedules are forced on the native build.'
NOTE['C09'] = 'Small indexes written by the real serialisers into an in-memory file system and read back by the real deserialisers; both versions, five codecs.'
NOTE['C10'] = 'The whole JASS_anytime_api over small index files in an in-memory file system, against exhaustive scoring.'
NOTE['C18'] = 'Every ranked list and every set of judgments of a few documents; doubles are concrete on each path, compared within 1e-9; known finding KF7 recorded.'
NOTE['C19'] = 'Scores are chosen from fixed sets (doubles are concrete on each path); order, range and BM25 values are checked.'
NOTE['C23'] = 'Every short vector out of 36 representative arguments, and of arbitrary short strings; argv is exact.'
NOTE['C24'] = 'Messages from an encoder in the harness with symbolic values, in exact buffers; the importer runs whole; known finding KF8 (truncated input) recorded.'
