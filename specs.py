SPECS = {}
import os; REPO = os.environ.get('SYM_REPO', '/repo')
def job(prop, name, src, entry='harness', **kw):
	d = dict(name=name, src=src, entry=entry); d.update(kw); SPECS.setdefault(prop, []).append(d)

# ---- C25
job('C25', 'log', 'maths.cpp', 'log_harness', reach=['logs'], bound='every non-zero 32-bit and 64-bit argument')
job('C25', 'ffs', 'maths.cpp', 'ffs_harness', reach=['ffs'], bound='every non-zero 32-bit and 64-bit argument')
job('C25', 'minmax', 'maths.cpp', 'minmax_harness', reach=['minmax'], bound='all 8-, 32- and 64-bit arguments')
job('C25', 'sqrt', 'maths.cpp', 'sqrt_harness', reach=['sqrt'], args={'bits': 8}, bound='all x < 2^8 (quick), 2^10 (thorough)', thorough={'args': {'bits': 10}})
NAMES = ['carryover-12', 'carry-8b', 'elias-delta', 'elias-delta bitwise', 'elias-delta SIMD', 'elias-gamma SIMD', 'elias-gamma SIMD vb', 'elias-gamma', 'elias-gamma bitwise', 'none', 'simple-9 packed', 'simple-16 packed', 'simple-8b packed', 'relative-10', 'simple-9', 'simple-16', 'simple-8b', 'vbyte', 'stream vbyte', 'qmx improved', 'qmx original', 'qmx jass v1', 'binpack 128', 'binpack 256', 'binpack 32', 'binpack 64']
FAST = (0, 1, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21)
def codecjobs(c):
	nm = NAMES[c]; R = ['roundtrip']
	ALL = f'{nm}: every list of 1..%d integers in range'; RUN = f'{nm}: runs of %d values of one bit width switching once to another width (every width, grid of switch points)'
	EXC = f'{nm}: %d values of up to %d bits with one value of any width at any position'; MID = f'{nm}: one unrestricted value at any position among %d values of every width'
	def J(kind, entry, b, **kw): job('C01', f'{kind}{c}', 'codec.cpp', entry, reach=R, bound=b, **kw)
	if c in FAST:
		n = 3 if c in (9, 17, 26, 27) else 2
		J('all', 'all_harness', ALL % n, args={'codec': c, 'n': n}, t=40)
		J('run', 'run_harness', RUN % 64, args={'codec': c, 'n': 64}, t=40)
		J('long', 'run_harness', RUN % 260, args={'codec': c, 'n': 260, 'grid': 2, 'modes': 2}, t=40)
		J('exc', 'exc_harness', EXC % (20, 2), args={'codec': c, 'n': 20, 'whi': 2}, t=40)
		J('mid', 'mid_harness', MID % 8, args={'codec': c, 'n': 8, 'm': 1}, t=40, thorough={'args': {'n': 12}, 't': 120})
	elif c in (3, 8):
		J('low', 'low_harness', f'{nm}: every pair of integers whose bits below the top one are the same except the lowest 1 (thorough 3), which are free', args={'codec': c, 'free': 1}, thorough={'args': {'free': 3}, 't': 150}, t=60)
	elif c == 18:
		J('all', 'all_harness', ALL % 2, args={'codec': c, 'n': 2}, t=40)
		J('run', 'run_harness', RUN % 24, args={'codec': c, 'n': 24, 'grid': 2, 'modes': 3}, t=40)
	else:
		J('all', 'all_harness', ALL % 2, args={'codec': c, 'n': 2}, t=40)
		J('run', 'run_harness', RUN % 64, args={'codec': c, 'n': 64, 'grid': 2, 'modes': 3}, t=40)
		J('exc', 'exc_harness', EXC % (12, 1), args={'codec': c, 'n': 12, 'whi': 1}, t=40)
NAMES += ['lyck-16', 'nybble-8']; FAST += (26, 27)
for c in range(28): codecjobs(c)
for c in (0, 10, 11, 13, 14, 15, 26, 27): job('C01', f'refuse{c}', 'codec.cpp', 'refuse_harness', reach=['refused', 'accepted'], args={'codec': c, 'n': 2}, t=40, bound=f'{NAMES[c]}: every list of 1..2 arbitrary 32-bit integers is refused or kept')

# ---- C02
for c in range(28):
	if c in (19, 20, 21): job('C02', f'small{c}', 'codec_dst.cpp', 'small_harness', args={'codec': c, 'n': 1, 'd': 3}, t=40, bound=f'{NAMES[c]}: every integer, buffers of 0..3 bytes'); continue
	if c in (3, 8): job('C02', f'tiny{c}', 'codec_dst.cpp', 'tiny_harness', args={'codec': c}, reach=['fits', 'refused'], t=60, bound=f'{NAMES[c]}: one or two values of 1, 2, 8, 15, 16 or 32 bits, buffers of 0..12 bytes'); continue
	n = 1 if c in (2, 7) else 2
	job('C02', f'small{c}', 'codec_dst.cpp', 'small_harness', args={'codec': c, 'n': n, 'd': 20}, thorough={'args': {'n': 2, 'd': 24}, 't': 200}, reach=['refused'], t=40, bound=f'{NAMES[c]}: every list of 1..{n} integers, buffers of 0..20 bytes')
	job('C02', f'near{c}', 'codec_dst.cpp', 'near_harness', args={'codec': c, 'n': 5 if c == 18 else 40, 'slack': 8, 'back': 20, **({'slack': 68, 'step': 4, 'back': 24} if c == 5 else {'slack': 48, 'step': 12, 'back': 6} if c == 18 else {})}, thorough={'args': {'n': 100}, 't': 200}, reach=['fits', 'refused'], t=40, bound=f'{NAMES[c]}: runs of 40 values of every width (or half of one width and half of the largest), buffers from 11 bytes short to 8 bytes over')

# ---- C03
job('C03', 'delta', 'delta.cpp', 'delta_harness', args={'n': 20}, reach=['delta'], t=60)
job('C03', 'cumsum', 'delta.cpp', 'cumsum_harness', args={'n': 40}, reach=['cumsum'], t=60)
job('C03', 'gather', 'delta.cpp', 'gather_harness', reach=['gather'], t=60)
job('C03', 'scatter', 'delta.cpp', 'scatter_harness', reach=['scatter'], t=60)
# ---- C04
job('C04', '2d', 'accum.cpp', 'd2_harness', args={'wrap': 3, 'n': 5, 'steps': 2}, thorough={'args': {'n': 6, 'steps': 3}, 't': 300}, reach=['history'], t=60)
job('C04', 'counter4', 'accum.cpp', 'c4_harness', args={'wrap': 15}, reach=['history'], t=60)
job('C04', 'counter8', 'accum.cpp', 'c8_harness', args={'wrap': 255, 'n': 3, 'steps': 2}, reach=['history'], t=60)
job('C04', 'interleaved4', 'accum.cpp', 'i4_harness', args={'wrap': 15, 'n': 4, 'steps': 1}, thorough={'args': {'steps': 2}, 't': 300}, reach=['history'], t=60)
job('C04', 'interleaved8', 'accum.cpp', 'i8_harness', args={'wrap': 255, 'n': 4, 'steps': 1}, thorough={'args': {'steps': 2}, 't': 300}, reach=['history'], t=60)
job('C04', 'vector', 'accum.cpp', 'vec_harness', args={'n': 8, 'free': 1, 'writes': 1}, thorough={'args': {'n': 10, 'free': 2, 'writes': 2}, 't': 300}, reach=['vector'], t=60)
# ---- C17
job('C17', 'history', 'bits.cpp', 'history_harness', thorough={'args': {'steps': 4, 'lens': 7}, 't': 400}, reach=['history'], t=60)
job('C17', 'ops', 'bits.cpp', 'ops_harness', reach=['ops'], t=60)
job('C17', 'index', 'bits.cpp', 'index_harness', args={'n': 10}, thorough={'args': {'n': 12}}, reach=['index'], t=60)
job('C17', 'popcount', 'bits.cpp', 'popcount_harness', reach=['popcount'], t=60)
job('C17', 'stream', 'bits.cpp', 'stream_harness', args={'steps': 3, 'words': 3}, thorough={'args': {'steps': 4, 'words': 4}, 't': 300}, reach=['read back', 'overflow'], t=60)
# ---- C05
V16 = ['the containers only compare and copy values, so values 0..15 realise every order and tie pattern of up to 16 values']
job('C05', 'heap', 'topk.cpp', 'heap_harness', args={'n': 7}, reach=['heap'], t=60, assume=V16)
job('C05', 'stream', 'topk.cpp', 'stream_harness', args={'k': 4, 'n': 6}, reach=['stream'], t=60, assume=V16)
job('C05', 'beap', 'topk.cpp', 'beap_harness', args={'n': 9}, reach=['beap'], t=60, assume=V16)
job('C05', 'make_beap', 'topk.cpp', 'make_beap_harness', args={'n': 6}, reach=['beap'], t=60, assume=V16)
job('C05', 'top_k_heap', 'topk.cpp', 'topkheap_harness', reach=['topkheap'], t=60, assume=V16)
job('C05', 'top_k_qsort', 'topk.cpp', 'qsort_harness', reach=['qsort'], args={'n': 6}, t=60, assume=V16)
job('C05', 'top_k_qsort_ties', 'topk.cpp', 'qsort_harness', reach=['qsort'], args={'lo': 7, 'n': 2, 'bits': 1}, t=60)
job('C05', 'top_k_qsort_long', 'topk.cpp', 'qsort_harness', reach=['qsort'], args={'lo': 40, 'n': 1, 'every': 20, 'bits': 3}, thorough={'args': {'n': 3, 'every': 16}, 't': 200}, t=60)
# ---- C06
RN = ['no document total exceeds 255 (the accumulators are 8 bits wide and the indexer caps impacts so that totals fit)']
job('C06', 'clean', 'evaluate.cpp', 'clean_harness', reach=['ranked'], t=60, assume=RN, bound='every history of 4 postings over 4 documents, impacts 1..63, k = 1..2', thorough={'args': {'n': 5, 'k': 3}, 't': 150})
job('C06', 'clean_forward', 'evaluate.cpp', 'clean_forward_harness', reach=['ranked'], t=60, assume=RN, bound='every history of 4 postings over 4 documents, impacts 1..63, k = 1..2', thorough={'args': {'n': 5, 'k': 3}, 't': 150})
job('C06', 'segments', 'evaluate.cpp', 'segments_harness', reach=['ranked'], args={'docs': 3, 'segs': 3}, thorough={'args': {'docs': 4}, 't': 300}, t=60, assume=RN, bound='every 3 impact-ordered segments over 3 (thorough 4) documents, k = 1..2')
job('C06', 'bound', 'evaluate.cpp', 'bound_harness', reach=['stopped', 'topped up'], t=60, assume=RN, bound='every history of 4 postings over 4 documents, impacts 1..63, every bound 2..127, k = 1..2', thorough={'args': {'n': 5}, 't': 200})
job('C06', 'heap', 'evaluate.cpp', 'heap_harness', reach=['ranked'], t=60, assume=RN, bound='every history of 4 postings over 4 documents, impacts 1..63, k = 1..2', thorough={'args': {'n': 5, 'k': 3}, 't': 150})
job('C06', 'maxblock_heap', 'evaluate.cpp', 'maxblock_heap_harness', reach=['ranked'], t=60, assume=RN, bound='every history of 4 postings over 4 documents, impacts 1..63, k = 1..2', thorough={'args': {'n': 5, 'k': 3}, 't': 150})
job('C06', 'maxblock', 'evaluate.cpp', 'maxblock_harness', reach=['ranked'], args={'n': 3}, t=60, assume=RN, bound='every history of 3 postings over 4 documents, impacts 1..63, k = 1..2')
# ---- C12
job('C12', 'pool', 'memory.cpp', 'pool_harness', args={'n': 2}, reach=['pool'], t=60)
job('C12', 'memory', 'memory.cpp', 'memory_harness', args={'n': 2}, reach=['memory'], t=60)
# ---- C20
job('C20', 'slice', 'collections.cpp', 'slice_harness', reach=['slice'], t=60)
job('C20', 'slice_order', 'collections.cpp', 'slice_order_harness', reach=['order'], t=60)
job('C20', 'hash', 'collections.cpp', 'hash_harness', reach=['hash'], t=60)
job('C20', 'hash_one', 'collections.cpp', 'hash_one_harness', reach=['hash'], t=60)
job('C20', 'box', 'collections.cpp', 'box_harness', reach=['box'], t=60)
job('C20', 'tree', 'collections.cpp', 'tree_harness', args={'n': 4, 'len': 1}, reach=['map'], t=60)
job('C20', 'table', 'collections.cpp', 'table_harness', args={'n': 3}, reach=['map'], t=60)
job('C20', 'array', 'collections.cpp', 'array_harness', reach=['array'], t=60)
# ---- C07 / C08
SM = ['-DJASS_VERIFY_SMALL_TABLES']
job('C07', 'postings', 'index.cpp', 'postings_harness', args={'n': 3}, reach=['linearized', 'refused'], t=60, defs=SM)
job('C07', 'space', 'index.cpp', 'space_harness', args={'n': 2}, reach=['space'], t=60, defs=SM)
job('C07', 'vector', 'index.cpp', 'vector_harness', args={'n': 2}, reach=['linearized'], t=60, defs=SM)
job('C07', 'manager', 'index.cpp', 'manager_harness', reach=['indexed'], args={'docs': 2, 'per': 2}, t=60, defs=SM)
job('C08', 'impact', 'index.cpp', 'impact_harness', args={'n': 2}, thorough={'args': {'n': 3}, 't': 300}, reach=['ordered'], t=60, defs=SM)
job('C08', 'impact_few', 'index.cpp', 'impact_harness', args={'n': 4, 'modes': 1}, reach=['ordered'], t=120, defs=SM)
job('C08', 'reuse', 'index.cpp', 'reuse_harness', args={'n': 2}, reach=['ordered'], t=60, defs=SM)
# ---- C16
job('C16', 'encode', 'text.cpp', 'encode_harness', tables=1, reach=['refused', 'encoded'], t=60, bound='every code point, buffers of 0..5 bytes, every truncation')
job('C16', 'beyond', 'text.cpp', 'beyond_harness', tables=1, reach=['refused'], t=60, bound='every value from 2^21 up')
job('C16', 'decode', 'text.cpp', 'decode_harness', tables=1, reach=['decoded'], t=60, bound='every sequence of 1..5 bytes')
job('C16', 'ascii', 'text.cpp', 'ascii_harness', tables=1, reach=['ascii'], t=60, bound='every byte')
job('C16', 'agree', 'text.cpp', 'agree_harness', tables=1, reach=['agree'], t=60, bound='every ASCII code point')
job('C16', 'classes', 'text.cpp', 'classes_harness', tables=1, reach=['classes'], t=100, eflags=['--rspan', '140000'], bound='every code point')
job('C16', 'fold', 'text.cpp', 'fold_harness', tables=1, reach=['folded'], t=60, bound='about 2,500 code points: every script with case, ligatures and the longest expansions')
# ---- C13
TB = ['well-formed UTF-8 outside the listed units is covered by C16']
job('C13', 'text', 'docs.cpp', 'text_harness', tables=1, reach=['tokens'], args={'n': 4}, thorough={'args': {'n': 6}, 't': 300}, t=100, bound='every document of up to 4 (thorough 6) ASCII bytes without "<"')
job('C13', 'again', 'docs.cpp', 'again_harness', tables=1, reach=['tokens'], t=60)
job('C13', 'unicode', 'docs.cpp', 'unicode_harness', tables=1, reach=['tokens'], args={'n': 2}, t=60, bound='every sequence of 2 units out of 16 multi-byte or broken characters, letters, digits and punctuation')
job('C13', 'unicode3', 'docs.cpp', 'unicode_harness', tables=1, reach=['tokens'], args={'n': 3, 'kinds': 7}, thorough={'args': {'kinds': 16}, 't': 400}, t=120, bound='every sequence of 3 units out of 7 (thorough 16)')
job('C13', 'markup', 'docs.cpp', 'markup_harness', tables=1, reach=['tokens'], t=100, bound='each kind of markup with every short name or content, between text')
job('C13', 'bang', 'docs.cpp', 'markup_harness', tables=1, reach=[], args={'bang': 1}, t=60, bound='"<!" that does not start any markup, between text')
job('C13', 'any', 'docs.cpp', 'any_harness', tables=1, reach=['any'], args={'n': 3}, t=100, bound='each start of markup followed by every 1..3 bytes below 0x80 or from 0xF8 up')
job('C13', 'long', 'docs.cpp', 'long_harness', tables=1, reach=['long'], t=100, bound='every kind of token of 1018..1027 characters (the buffer holds 1024 bytes)')
job('C13', 'fasta', 'docs.cpp', 'fasta_harness', tables=1, reach=['tokens'], args={'n': 3}, thorough={'args': {'n': 5}, 't': 400}, t=100, bound='every sequence of 0..3 (thorough 5) characters out of 7, k-mers of 1..3 bases')
job('C13', 'unicoil', 'docs.cpp', 'unicoil_harness', tables=1, reach=['tokens'], args={'n': 2}, t=100)
# ---- C14
job('C14', 'ascii', 'queries.cpp', 'ascii_harness', tables=1, reach=['parsed'], args={'n': 4}, thorough={'args': {'n': 5}, 't': 400}, t=100, bound='every query of one ASCII byte, every query of up to 4 (thorough 5) ASCII bytes other than the letters b..y and digits 1..8')
job('C14', 'words', 'queries.cpp', 'words_harness', tables=1, reach=['parsed'], args={'n': 3}, thorough={'args': {'n': 4}, 't': 300}, t=100, bound='every query of 1..3 (thorough 4) words of one or two letters a or b in either case')
job('C14', 'unicode', 'queries.cpp', 'unicode_harness', tables=1, reach=['parsed', 'agrees'], args={'n': 3}, t=100, bound='every sequence of 1..3 of 14 characters')
job('C14', 'raw', 'queries.cpp', 'raw_harness', tables=1, reach=['parsed'], args={'n': 4}, thorough={'args': {'n': 6}, 't': 300}, t=100, bound='every query of up to 4 (thorough 6) bytes')
job('C14', 'expand', 'queries.cpp', 'expand_harness', tables=1, reach=['parsed'], t=60, bound='up to 3 copies of the character with the longest folded form')
# ---- C21
job('C21', 'free', 'stems.cpp', 'free_harness', tables=1, reach=['stemmed'], args={'n': 5}, thorough={'args': {'n': 7}, 't': 500}, t=200, bound='every word of up to 5 (thorough 7) lower case letters')
job('C21', 'suffix', 'stems.cpp', 'suffix_harness', tables=1, reach=['stemmed'], args={'n': 3}, thorough={'args': {'n': 4}, 't': 600}, t=400, bound='every stem of up to 3 (thorough 4) letters out of 8 (one of each kind) before each of 71 suffixes')
job('C21', 'token', 'stems.cpp', 'token_harness', tables=1, reach=['stemmed'], t=60, bound='tokens of 1021..1024 letters, the last three free')
# ---- C11
TH = dict(threads=True, sources=['source/threads.cpp'], flags=['-I' + REPO + '/anytime'], t=200, assume=['sequentially consistent memory, which data-race freedom (checked, by happens-before over every access) entails for these programs', 'operations in flight are interrupted at most 2 (thorough 3) times; threads switch at synchronisation operations'])
THREE = {'threads': 3, 'each': 1}
job('C11', 'array', 'threads.cpp', 'array_harness', args={'threads': 2, 'each': 2}, thorough={'args': {'sizes': 3}, 'preempt': 3, 't': 600}, reach=['filled'], bound='2 threads of 2 insertions of any value, initial size 1 and 2, every interleaving of up to 2 (thorough 3) preemptions', **TH)
job('C11', 'array-three', 'threads.cpp', 'array_harness', args=dict(THREE, sizes=1), thorough={'args': {'sizes': 2}, 'preempt': 3, 't': 600}, reach=['filled'], bound='3 threads of 1 insertion', **TH)
job('C11', 'tree', 'threads.cpp', 'tree_harness', args={'threads': 2, 'each': 2}, thorough={'preempt': 3, 't': 900}, reach=['mapped'], bound='2 threads of 2 insertions, each of either of 2 keys', **TH)
job('C11', 'tree-three', 'threads.cpp', 'tree_harness', args=dict(THREE, keys=1), thorough={'args': {'keys': 2}, 't': 1200}, reach=['mapped'], bound='3 threads of 1 insertion of one key (thorough: either of 2 keys)', **TH)
job('C11', 'hash', 'threads.cpp', 'hash_harness', args={'threads': 2, 'each': 1, 'keys': 2}, thorough={'args': {'keys': 3}, 'preempt': 3, 't': 600}, reach=['mapped'], bound='2 threads of 1 insertion, of either of 2 (thorough 3) keys', **TH)
job('C11', 'pool', 'threads.cpp', 'pool_harness', args={'threads': 2, 'each': 2, 'kinds': 2}, thorough={'preempt': 3, 't': 900}, reach=['allocated'], bound='2 threads of 2 allocations of either of 2 sizes, from chunks that hold one or two of them', **TH)
job('C12', 'threads', 'threads.cpp', 'pool_harness', args={'threads': 2, 'each': 2, 'kinds': 2}, thorough={'preempt': 3, 't': 900}, reach=['allocated'], bound='2 threads of 2 pool allocations of either of 2 sizes, every interleaving of up to 2 (thorough 3) preemptions', **TH)
job('C11', 'queries', 'threads.cpp', 'queries_harness', args={'threads': 2, 'n': 3}, thorough={'preempt': 4}, reach=['answered'], bound='2 threads sharing 3 queries', **TH)
job('C11', 'queries-three', 'threads.cpp', 'queries_harness', args={'threads': 3, 'n': 2}, thorough={'args': {'n': 3}, 'preempt': 3}, reach=['answered'], bound='3 threads sharing 2 (thorough 3) queries', **TH)
# ---- C18
job('C18', 'judged', 'measures.cpp', 'judged_harness', args={'docs': 3}, thorough={'args': {'docs': 4}, 't': 900}, reach=['measured'], t=200, bound='one query, 3 (thorough 4) documents each unjudged, irrelevant or relevant, with and without other queries in the judgments; every ranked list of up to 3 (4) of these and an unjudged one; every depth from 1, and none')
job('C18', 'priced', 'measures.cpp', 'priced_harness', args={'docs': 3, 'prices': 2}, thorough={'args': {'prices': 4}, 't': 900}, reach=['measured'], t=200, bound='3 documents, each of 2 (thorough 4) prices and relevant or not; every ranked list; every depth, and none')
job('C18', 'cheapest', 'measures.cpp', 'cheapest_harness', args={'docs': 3, 'prices': 3, 'others': 1}, thorough={'args': {'others': 2}, 't': 900}, reach=['measured'], t=250, bound='3 documents, each of 3 prices and relevant or not; every ranked list; every depth, and none')
job('C18', 'selling', 'measures.cpp', 'selling_harness', args={'docs': 3, 'prices': 2, 'others': 1}, thorough={'args': {'prices': 4, 'others': 2}, 't': 900}, reach=['measured'], t=200, bound='3 documents, each of 2 (thorough 4) prices and relevant or not; every ranked list; every depth, and none')
job('C18', 'qrels', 'measures.cpp', 'qrels_harness', args={'lines': 2}, thorough={'args': {'lines': 3}, 't': 400}, reach=['read'], t=100, bound='judgment files of 2 (thorough 3) lines, either of two queries, documents and judgments, either spacing')
# ---- C19
job('C19', 'scores', 'ranking.cpp', 'scores_harness', tables=1, defs=['-DJASS_VERIFY_SMALL_TABLES'], args={'n': 4, 'values': 6}, thorough={'args': {'n': 5, 'values': 7}, 't': 900}, reach=['quantized'], t=200, bound='1..4 (thorough 5) postings in one or two lists, every assignment of 6 (7) scores from 0 to 1e9')
job('C19', 'collection', 'ranking.cpp', 'collection_harness', tables=1, defs=['-DJASS_VERIFY_SMALL_TABLES'], args={'docs': 3, 'counts': 4}, thorough={'args': {'counts': 5}, 't': 900}, reach=['quantized'], t=200, bound='1..3 documents of two terms, each occurring 0, 1, 2 or 600 (thorough also 2000) times, through the index, BM25 and the quantizer')
job('C19', 'none', 'ranking.cpp', 'none_harness', tables=1, defs=['-DJASS_VERIFY_SMALL_TABLES'], args={'docs': 2, 'counts': 4}, reach=['quantized'], t=100, bound='1 or 2 documents of two terms, each occurring 0, 1, 2 or 600 times, without quantization')
# ---- C23
job('C23', 'tokens', 'options.cpp', 'tokens_harness', args={'n': 2}, thorough={'args': {'n': 3}, 't': 900}, reach=['parsed', 'refused'], t=200, bound='every command line of up to 2 (thorough 3) arguments out of 36: every option in each form, values, unknown names and values out of range')
job('C23', 'limits', 'options.cpp', 'limits_harness', reach=['parsed', 'refused'], t=120, bound='every numeric option with a value that is one of 11 beginnings, among them those of the limits of its type, and one arbitrary digit')
job('C23', 'bytes', 'options.cpp', 'bytes_harness', args={'n': 2, 'len': 3}, thorough={'args': {'len': 4}, 't': 900}, reach=['parsed', 'refused'], t=200, bound='every command line of 1 or 2 arguments of up to 3 (thorough 4) bytes, other than d')
# ---- C24
CI = dict(tables=1, defs=SM, flags=['-I' + REPO + '/tools'], libs=['-lz'])
job('C24', 'primitives', 'ciff.cpp', 'primitives_harness', reach=['decoded'], t=60, bound='every value in a varint of 1..10 bytes (minimal or not), signed or not; every fixed-width value; every one-byte tag; blobs of 0..3 bytes', **CI)
job('C24', 'values', 'ciff.cpp', 'values_harness', args={'postings': 2}, reach=['decoded'], t=200, bound='one list of 2 postings and one document, every value in varints of 1, 2, 5 or 10 bytes, terms and names of 0..2 arbitrary bytes, fields in order or reversed', **CI)
job('C24', 'header', 'ciff.cpp', 'header_harness', reach=['decoded'], t=100, bound='each field of the header in turn of 4..9 values around the limits of its type, descriptions of 0..3 arbitrary bytes', **CI)
job('C24', 'shape', 'ciff.cpp', 'shape_harness', args={'lists': 2, 'docs': 2, 'postings': 2}, thorough={'args': {'lists': 3, 'docs': 3, 'postings': 3}}, reach=['decoded'], t=100, bound='0..2 (thorough 3) lists of 0..2 (3) postings, 0..2 (3) documents', **CI)
job('C24', 'bad', 'ciff.cpp', 'bad_harness', args={'lists': 2, 'docs': 2, 'postings': 1}, reach=['refused'], t=100, bound='the same with one unknown field or type in any one message', **CI)
job('C24', 'truncated', 'ciff.cpp', 'truncated_harness', t=100, bound='an index of one list and one document cut short anywhere', **CI)
job('C24', 'import', 'ciff.cpp', 'import_harness', args={'docs': 2, 'terms': 2, 'counts': 3}, thorough={'args': {'docs': 3, 'counts': 4}, 't': 900}, reach=['imported'], t=200, bound='ciff_to_JASS -passthrough of 1..2 (thorough 3) documents and 0..2 terms, each frequency of 0..2 (thorough also 255), to both index versions', **CI)
# ---- C09
ST = dict(tables=1, defs=SM)
job('C09', 'postings', 'store.cpp', 'postings_harness', args={'codec': 9, 'alignments': 2, 'docs': 3, 'impacts': 4}, thorough={'args': {'docs': 4, 'impacts': 5, 'alignments': 4}, 't': 900}, reach=['read'], t=200, bound='a term in each non-empty set of 3 (thorough 4) documents (ids 1, 2, 131 (and 300) of 302) with impacts out of {1, 2, 1023} (thorough also 255), a second term in the last document; both index versions, all 5 codecs, alignments 1 and 4 (thorough also 8 and 16); query frequency 1 and 2', **ST)
job('C09', 'gaps', 'store.cpp', 'gaps_harness', args={'codec': 9, 'alignments': 1, 'n': 2}, thorough={'args': {'n': 4, 'alignments': 2}, 't': 900}, reach=['read'], t=200, bound='1..2 (thorough 4) documents with any ids out of 1000, two impacts, both versions, all 5 codecs', **ST)
job('C09', 'terms', 'store.cpp', 'terms_harness', args={'codec': 1, 'alignments': 1, 'n': 2, 'docs': 2, 'len': 2}, thorough={'args': {'n': 3, 'docs': 2}, 't': 900}, reach=['read'], t=200, bound='1..2 (thorough 3) distinct terms of 1..2 arbitrary bytes, 1..2 documents with primary keys of 0..2 arbitrary bytes, and any other term looked up', **ST)
job('C09', 'long', 'store.cpp', 'long_harness', args={'codec': 9}, reach=['read'], t=200, bound='a term in all of 1, 2, 127..131, 255..257 or 512 documents, of one impact, two alternating ones or as many as there are documents; both versions, all 5 codecs', **ST)
# ---- C10
SE = dict(tables=1, defs=SM, sources=['anytime/JASS_anytime_api.cpp', 'source/threads.cpp'], flags=['-I' + REPO + '/anytime'])
job('C10', 'search', 'search.cpp', 'search_harness', args={'docs': 3, 'terms': 2, 'impacts': 3, 'k': 2, 'queries': 3}, reach=['searched'], t=200, thorough={'args': {'impacts': 4, 'k': 3}, 't': 1500}, bound='an index on disk (both versions, codecs) of 3 documents and 2 terms, each (term, document) of any impact of 0..2 (thorough 0..3), searched by 3 queries for the top 1 or 2 (thorough 3)', **SE)
job('C10', 'queries', 'search.cpp', 'search_harness', args={'docs': 2, 'terms': 3, 'impacts': 2, 'k': 2, 'queries': 9, 'parsers': 2}, reach=['searched'], t=200, thorough={'args': {'impacts': 3}, 't': 1500}, bound='2 documents and 3 terms, 9 queries (repeated, absent and no terms, punctuation, with and without an identifier), both query parsers', **SE)
job('C10', 'budget', 'search.cpp', 'budget_harness', args={'docs': 2, 'terms': 2, 'impacts': 3, 'k': 2}, reach=['searched'], t=200, thorough={'args': {'docs': 3}, 't': 1500}, bound='2 (thorough 3) documents and 2 terms of any impact of 0..2; budgets of postings absolute and relative', **SE)
job('C10', 'batch', 'search.cpp', 'batch_harness', args={'docs': 2, 'impacts': 2, 'n': 2}, reach=['searched'], t=200, thorough={'args': {'impacts': 3}, 't': 1500}, bound='2 documents, batches of 2 queries in sequence on one engine', **SE)
job('C11', 'anytime', 'search.cpp', 'shared_harness', args={'threads': 2, 'n': 2}, preempt=1, thorough={'preempt': 2, 't': 1500}, reach=['searched'], bound='2 threads of one engine over an index on disk, sharing 2 queries, with and without a budget relative to the query and minimum scores; every interleaving of up to 1 (thorough 2) preemptions', **dict(TH, tables=1, defs=SM, sources=['anytime/JASS_anytime_api.cpp', 'source/threads.cpp']))

# ---- C22
F = 'files.cpp'
job('C22', 'file', F, 'file_harness', args={'steps': 3, 'most': 4, 'buffers': 3}, thorough={'args': {'steps': 4, 'most': 5, 'buffers': 4}, 't': 800}, reach=['file'], t=90, bound='every sequence of 3 (thorough 4) writes of 0..4, seeks and reads of 1..4 arbitrary bytes through a buffer of 1..3 (thorough 4) bytes')
job('C22', 'boundary', F, 'boundary_harness', thorough={'args': {'buffer': 64}, 't': 400}, reach=['boundary'], t=60, bound='three writes of 0..2 bytes or 1 or 2 buffers -1, +0 or +1 byte')
job('C22', 'entire', F, 'entire_harness', thorough={'args': {'most': 40}}, reach=['entire'], t=60, bound='whole files of 0..6 (thorough 40) arbitrary bytes')
job('C22', 'lines', F, 'lines_harness', thorough={'args': {'n': 6}, 't': 300}, reach=['lines'], t=60, bound='every text of up to 4 (thorough 6) non-zero bytes')
job('C22', 'buffer', F, 'buffer_harness', thorough={'args': {'n': 5, 'steps': 4}, 't': 300}, reach=['buffer'], t=60, bound='every text of up to 4 (thorough 5) bytes read by any 3 (thorough 4) of read(1..3) and gets()')
job('C22', 'input', F, 'input_harness', thorough={'args': {'n': 5, 'steps': 4}, 't': 300}, reach=['input'], t=60, bound='every file of up to 4 (thorough 5) bytes read by any 3 (thorough 4) of read(1..3) and gets()')
job('C22', 'output', F, 'output_harness', args={'steps': 1}, thorough={'args': {'steps': 2}, 't': 400}, reach=['output'], t=60, bound='two channels on one file one after the other, each with 1 (thorough 2) writes of up to 2 arbitrary bytes by each method')
for k in ('memory', 'disk', 'pipe'): job('C22', 'stream_' + k, F, k + '_harness', thorough={'args': {'n': 10, 'steps': 5, 'most': 5}, 't': 300}, reach=['stream'], t=60, bound='a stream of 0..6 (thorough 10) arbitrary bytes taken in 4 (thorough 5) pieces of 1..4 (thorough 5)')

# ---- C15
R = 'readers.cpp'
job('C15', 'trec', R, 'trec_harness', args={'shapes': 5, 'tails': 2}, thorough={'args': {'docs': 2, 'shapes': 7, 'tails': 3, 'sizes': 40}, 't': 800}, tables=1, reach=['trec'], t=90, bound='2 documents of 5 (thorough 7) forms with and without text between them, buffers from the longest document up to 23 (thorough 39) bytes more')
job('C15', 'trec3', R, 'trec_harness', args={'docs': 3, 'shapes': 2, 'gaps': 2, 'tails': 1, 'sizes': 20}, thorough={'args': {'shapes': 3}, 't': 800}, tables=1, reach=['trec'], t=90, bound='3 documents of 2 (thorough 3) forms')
job('C15', 'nested', R, 'nested_harness', args={'shapes': 2, 'gaps': 2, 'tails': 1}, thorough={'args': {'shapes': 4}, 't': 400}, tables=1, reach=['trec'], t=60, bound='a reader that reads from a reader')
job('C15', 'html', R, 'html_harness', tables=1, reach=['html'], t=60, bound='2 documents in one buffer')
job('C15', 'fasta', R, 'fasta_harness', args={'sizes': 12}, thorough={'args': {'docs': 3, 'heads': 2}, 't': 800}, tables=1, reach=['fasta'], t=90, bound='2 (thorough 3) sequences, buffers from the longest up to 11 (thorough 15) bytes more')
job('C15', 'warc', R, 'warc_harness', args={'most': 2}, thorough={'args': {'most': 5}, 't': 400}, tables=1, reach=['warc'], t=60, bound='2 records of 1..2 (thorough 5) arbitrary bytes')
job('C15', 'warc_long', R, 'warc_long_harness', tables=1, reach=['warc'], t=60, bound='header lines of 8189..8194 bytes')
job('C15', 'json', R, 'json_harness', args={'sizes': 3, 'cuts': 2, 'keys': 1, 'terms': 1}, thorough={'args': {'sizes': 8, 'cuts': 3, 'keys': 2, 'terms': 2, 'free': 1}, 't': 800}, tables=1, reach=['json'], t=90, bound='2 documents, buffers of 20, 28 or 36 (thorough 20..76) bytes, a stream that returns short reads')

# ---- C27
ET = dict(tables=1, defs=SM, sources=['anytime/JASS_anytime_api.cpp', 'source/threads.cpp'], flags=['-I' + REPO + '/anytime', '-I' + REPO + '/tools'], libs=['-lz'])
job('C27', 'trec', 'endtoend.cpp', 'trec_harness', reach=['found'], args={'docs': 2, 'words': 2, 'kinds': 4}, t=240, thorough={'args': {'kinds': 8}, 't': 1500}, bound='1 or 2 documents, each of 2 words out of 4 (thorough 8) (two terms, upper case, a tag; a number, punctuation, two terms joined by a hyphen, nothing), indexes of version 1 and 2', **ET)
job('C27', 'words', 'endtoend.cpp', 'trec_harness', reach=['found'], args={'docs': 2, 'words': 1, 'kinds': 8}, t=120, thorough={'args': {'docs': 3}, 't': 1500}, bound='1 or 2 (thorough 3) documents, each of 1 word out of all 8', **ET)
