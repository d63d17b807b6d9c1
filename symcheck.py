#!/usr/bin/env python3
"""Driver: compiles the harness and the real /repo sources to LLVM IR, runs the symbolic executor, replays every
counterexample on a native build of the same sources, validates sampled paths natively and writes the evidence file."""
import sys, os, re, json, time, subprocess, hashlib, shutil, glob, fnmatch, threading, collections
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SYM_REPO', '/repo')
sys.path.insert(0, V)
ENGINE = V + '/engine/build/symex'; BUILD = V + '/build'; CACHE = BUILD + '/cache'
CLANG = 'clang++'; 
SYMF = ['-std=c++17', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-march=native', '-mbmi', '-mavx2', '-DNDEBUG', '-include', V + '/rt/pre.h', '-D_GLIBCXX_USE_CXX11_ABI=1', '-fPIC', '-w', '-ffp-contract=off']
NATF = ['-std=c++17', '-O2', '-march=native', '-mbmi', '-mavx2', '-DNDEBUG', '-D_GLIBCXX_USE_CXX11_ABI=1', '-fPIC', '-w', '-pthread', '-ffp-contract=off']
INC = ['-I' + V + '/rt', '-I' + V + '/harness', '-I' + REPO + '/source', '-I' + REPO]
LLVMBIN = '/usr/lib/llvm-18/bin/'
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1')); JOBS = int(os.environ.get('SYM_JOBS', str(os.cpu_count() or 8)))

def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, errors='replace', **kw)

BUDGET = 840   # seconds a quick run may take in all
class BuildError(Exception): pass

def fhash(p):
	try:
		with open(p, 'rb') as f: return hashlib.sha256(f.read()).hexdigest()
	except OSError: return 'missing'

COMPILING = collections.defaultdict(threading.Lock)
def compile_cached(cc, flags, src, ext, workdir):
	"""compile one file; cached on the content of everything it includes"""
	base = hashlib.sha256(('\0'.join([cc] + flags + [src])).encode()).hexdigest()[:24]
	with COMPILING[base]: return compile_one(cc, flags, src, ext, workdir, base)
def compile_one(cc, flags, src, ext, workdir, base):
	os.makedirs(CACHE, exist_ok=True)
	depf = f'{CACHE}/{base}.deps'
	if os.path.exists(depf):
		try:
			deps = json.load(open(depf)); key = hashlib.sha256((base + ''.join(fhash(d) for d in deps)).encode()).hexdigest()[:24]
			out = f'{CACHE}/{base}-{key}{ext}'
			if os.path.exists(out): return out
		except Exception: pass
	tmp = f'{workdir}/{base}.{os.getpid()}{ext}'; d = tmp + '.d'
	r = run([cc] + flags + ['-MD', '-MF', d, '-c', src, '-o', tmp])
	if r.returncode: raise BuildError(f'{cc} {src}:\n' + r.stderr[-6000:])
	txt = open(d).read().replace('\\\n', ' '); deps = sorted(set(x for x in txt.split(':', 1)[1].split() if not x.startswith('/usr/'))); os.unlink(d)
	key = hashlib.sha256((base + ''.join(fhash(x) for x in deps)).encode()).hexdigest()[:24]; out = f'{CACHE}/{base}-{key}{ext}'
	for old in glob.glob(f'{CACHE}/{base}-*'): os.unlink(old)
	os.replace(tmp, out); json.dump(deps, open(depf + '.tmp', 'w')); os.replace(depf + '.tmp', depf)
	return out

def undefined(objs_bc):
	r = run([LLVMBIN + 'llvm-nm', '--undefined-only', '--just-symbol-name'] + objs_bc); return set(x.strip() for x in r.stdout.split('\n') if x.strip() and not x.endswith(':'))
def defined(bc):
	r = run([LLVMBIN + 'llvm-nm', '--defined-only', '--just-symbol-name', bc]); return set(x.strip() for x in r.stdout.split('\n') if x.strip())

def demangle(names):
	names = list(names); r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, universal_newlines=True); return r.stdout.split('\n')

def source_for(sym):
	"""the /repo/source file that should define a JASS symbol"""
	m = re.search(r'JASS::(\w+)(?:<[^(]*>)?::', sym) or re.search(r'JASS::(\w+)', sym)
	if m:
		for d in ('source', 'anytime', 'tools'):
			p = f'{REPO}/{d}/{m.group(1)}.cpp'
			if os.path.exists(p): return p
	return None

WANT_CP = sorted(set(sum((list(range(lo, hi)) for lo, hi in ((0, 0x250), (0x370, 0x590), (0x10A0, 0x1100), (0x1C80, 0x1C90), (0x1E00, 0x2000), (0x2000, 0x2190), (0x24B0, 0x24EA), (0x2C00, 0x2D00), (0xA640, 0xA6A0), (0xA720, 0xA7E0), (0xAB70, 0xABC0), (0xFB00, 0xFB18), (0xFF20, 0xFF60), (0x10400, 0x10430), (0x1E900, 0x1E944))), []) + [0x3000, 0x3042, 0x4E2D, 0xFDFA, 0xFFFD, 0xFFFF, 0x1F600, 0x10FFFD, 0x10FFFF]))
def fold_reference():
	"""an independent reading of the Unicode data files: the folded form of each code point of WANT_CP"""
	R = REPO + '/external/Unicode/'; cat = {}; dec = {}; fold = {}; last = None
	for l in open(R + 'UnicodeData.txt'):
		f = l.rstrip('\n').split(';')
		if len(f) < 6: continue
		c = int(f[0], 16); lo = last if f[1].endswith(', Last>') else c; last = c
		for x in range(lo, c + 1): cat[x] = f[2]
		d = [int(x, 16) for x in f[5].split() if not x.startswith('<')]
		if d: dec[c] = d
	for l in open(R + 'CaseFolding.txt'):
		a = [x.strip() for x in l.split('#')[0].split(';')]
		if len(a) > 2 and a[1] in 'CF': fold[int(a[0], 16)] = [int(x, 16) for x in a[2].split()]
	alnum = set(x for x, k in cat.items() if k in ('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nd', 'Nl', 'No'))
	for l in open(R + 'PropList.txt'):
		m = re.match(r'([0-9A-F]+)(?:\.\.([0-9A-F]+))?\s*; (\w+) ', l)
		if m and m.group(3) in ('Other_Alphabetic', 'Other_Lowercase', 'Other_Uppercase'): alnum.update(range(int(m.group(1), 16), int(m.group(2) or m.group(1), 16) + 1))
	def rec(c): return sum((rec(x) for x in dec[c]), []) if c in dec else [x for x in fold.get(c, [c]) if x in alnum or c == 0x20]
	def norm(c):
		a = rec(c)
		while a and a[0] == 32: a.pop(0)
		while a and a[-1] == 32: a.pop()
		return a
	return {c: norm(c) for c in WANT_CP}
def gen_tables(work, pool):
	"""build and run the repository's own table generators (as its build does) and re-emit the tables compactly"""
	flags = ['-std=c++17', '-O2', '-w', '-march=native', '-D_GLIBCXX_USE_CXX11_ABI=1', '-I' + REPO + '/source', '-I' + REPO]
	srcs = [REPO + '/tools/ascii_database_to_c.cpp', REPO + '/tools/unicode_database_to_c.cpp'] + [f'{REPO}/source/{x}.cpp' for x in ('asserts', 'file', 'bitstring')]
	objs = list(pool.map(lambda s: compile_cached('g++', flags, s, '.o', work), srcs)); data = [f'{REPO}/external/Unicode/{x}.txt' for x in ('UnicodeData', 'PropList', 'CaseFolding')]
	key = hashlib.sha256((''.join(fhash(o) for o in objs + data) + fhash(os.path.abspath(__file__))).encode()).hexdigest()[:24]; d = f'{CACHE}/gen-{key}'
	if os.path.exists(d + '/unicode.cpp') and os.path.exists(d + '/ascii.cpp'): return [d + '/ascii.cpp', d + '/unicode.cpp']
	t = f'{work}/gen.{os.getpid()}'; os.makedirs(t, exist_ok=True)
	for exe, o in (('a', objs[:1]), ('u', objs[1:])):
		r = run(['g++'] + o + ['-o', f'{t}/{exe}', '-pthread'])
		if r.returncode: raise BuildError('table generator: ' + r.stderr[-3000:])
	r = run([t + '/a'], timeout=60); a = r.stdout
	if r.returncode or 'lower_list' not in a: raise BuildError('ascii table generator failed')
	a = re.sub(r'/\*.*?\*/', '', a, count=1, flags=re.S)
	r = run([t + '/u'] + data, timeout=120)
	if r.returncode or 'JASS_normalisation' not in r.stdout: raise BuildError('unicode table generator failed: ' + r.stderr[-500:])
	out = ['#include <stdint.h>', '#include <stddef.h>']; txt = r.stdout
	for m in re.finditer(r'unsigned char (JASS_unicode_\w+_data)\[\w*\]\s*=\s*\{(.*?)\}', txt, re.S):
		v = [int(x, 0) & 255 for x in m.group(2).replace('\n', ' ').split(',') if x.strip()]
		if v[-1] == 0: out.append('extern unsigned char %s[]; unsigned char %s[%d] = "%s";' % (m.group(1), m.group(1), len(v), ''.join('\\%03o' % x for x in v[:-1])))
		else: out.append('extern unsigned char %s[]; unsigned char %s[] = {%s};' % (m.group(1), m.group(1), ','.join(map(str, v))))
	vals = {m.group(1): m.group(2) for m in re.finditer(r'uint32_t (JASS_normalisation_\w+)\[\]\s*=\s*\{(.*?)\}', txt, re.S)}
	m = re.search(r'uint32_t \*JASS_normalisation\[\]\s*=\s*\{(.*?)\}', txt, re.S); ptr = [x.strip() for x in m.group(1).split(',') if x.strip()]
	use = [c for c in WANT_CP if c < len(ptr)]; names = sorted(set(ptr[c] for c in use))
	for n in names: out.append('static const uint32_t %s[] = {%s};' % (n, vals[n]))
	out.append('extern const uint32_t *JASS_normalisation[]; const uint32_t *JASS_normalisation[%d];' % len(ptr))
	out.append('static const struct { uint32_t c; const uint32_t *p; } want[] = {%s};' % ','.join('{%d,%s}' % (c, ptr[c]) for c in use))
	out.append('extern "C" void sym_tables(void) { for (size_t i = 0; i < sizeof(want) / sizeof(*want); i++) JASS_normalisation[want[i].c] = want[i].p; }')
	ref = fold_reference(); out.append('static const struct { uint32_t c, n, f[20]; } ref[] = {%s};' % ','.join('{%d,%d,{%s}}' % (c, len(ref[c]), ','.join(map(str, ref[c] + [0]))) for c in use))
	out.append('extern "C" size_t sym_fold_count(void) { return sizeof(ref) / sizeof(*ref); } extern "C" uint32_t sym_fold_cp(size_t i) { return ref[i].c; } extern "C" const uint32_t *sym_fold_ref(size_t i) { return ref[i].f; }')
	for old in glob.glob(CACHE + '/gen-*'): shutil.rmtree(old, ignore_errors=True)
	os.makedirs(d + '.tmp', exist_ok=True); open(d + '.tmp/ascii.cpp', 'w').write(a); open(d + '.tmp/unicode.cpp', 'w').write('\n'.join(out) + '\n'); os.replace(d + '.tmp', d); shutil.rmtree(t, ignore_errors=True)
	return [d + '/ascii.cpp', d + '/unicode.cpp']

class Unit:
	"""a harness compiled with the sources it needs"""
	def __init__(self, spec, prop, work):
		self.spec = spec; self.prop = prop; self.work = work; self.defs = list(spec.get('defs', [])); self.src = f'{V}/harness/' + spec['src']
		self.inc = (['-I' + V + '/rt/shadow'] if spec.get('shadow', True) else []) + INC
		self.natinc = INC; self.natives = {}
	def sym(self, pool):
		flags = SYMF + spec_flags(self.spec) + ['-emit-llvm'] + self.inc + self.defs
		srcs = [self.src] + [f'{REPO}/{s}' for s in self.spec.get('sources', [])] + (gen_tables(self.work, pool) if self.spec.get('tables') else [])
		bcs = list(pool.map(lambda s: compile_cached(CLANG, flags, s, '.bc', self.work), srcs)); self.files = list(srcs)
		rt = compile_cached(CLANG, SYMF + ['-fno-builtin', '-emit-llvm'] + self.inc, V + '/rt/rt.cpp', '.bc', self.work); files = compile_cached(CLANG, SYMF + ['-fno-builtin', '-emit-llvm'] + self.inc, V + '/rt/files.cpp', '.bc', self.work)
		skip = set(self.spec.get('skip_sources', []))
		for _ in range(8):
			und = undefined(bcs) ; dfn = set()
			for b in bcs: dfn |= defined(b)
			miss = [u for u in und - dfn if 'JASS' in u]
			new = []
			for d in demangle(miss):
				s = source_for(d)
				if s and s not in self.files and s not in new and os.path.basename(s) not in skip: new.append(s)
			if not new: break
			self.files += new; bcs += list(pool.map(lambda s: compile_cached(CLANG, flags, s, '.bc', self.work), new))
		out = f'{self.work}/{self.spec["src"]}.{hashlib.sha256(repr((self.defs, self.spec.get("merge"), self.spec.get("flags"))).encode()).hexdigest()[:8]}.bc'
		r = run([LLVMBIN + 'llvm-link', '-o', out] + bcs + ['--only-needed'] if False else [LLVMBIN + 'llvm-link', '-o', out] + bcs + [rt, files])
		if r.returncode: raise BuildError('llvm-link: ' + r.stderr[-3000:])
		m = self.spec.get('merge')
		if m:
			r = run([LLVMBIN + 'opt', f'-two-entry-phi-node-folding-threshold={m}', f'-phi-node-folding-threshold={m}', '-speculate-one-expensive-inst=1', '-passes=function(simplifycfg<hoist-common-insts;sink-common-insts>,instcombine,gvn,simplifycfg<hoist-common-insts;sink-common-insts>)', out, '-o', out + '.m']);
			if r.returncode: raise BuildError('opt: ' + r.stderr[-3000:])
			os.replace(out + '.m', out)
		self.bc = out; return out
	def scheduled(self, pool, entry):
		"""the real code with its atomics, accesses and thread calls routed through rt/sched.cpp, which imposes a recorded schedule"""
		flags = [f for f in SYMF if f not in ('-include', V + '/rt/pre.h')] + self.natinc + self.defs + spec_flags(self.spec); inst = ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0']
		srcs = list(dict.fromkeys([self.src] + self.files[1:] + [REPO + '/source/asserts.cpp']))
		objs = list(pool.map(lambda s: compile_cached(CLANG, flags + inst, s, '.o', self.work), srcs))
		objs += [compile_cached('g++', NATF + self.natinc + ['-DSYM_SCHED', '-fno-threadsafe-statics', '-DSYM_ENTRY=' + entry], V + '/rt/' + f, '.o', self.work) for f in ('native.cpp', 'sched.cpp')]
		exe = f'{self.work}/{self.spec["src"]}.{entry}.sched'
		r = run(['g++'] + objs + ['-Wl,' + ','.join('--wrap=' + f for f in ('pthread_create', 'pthread_join', 'pthread_detach', 'pthread_self', 'sched_yield', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'free')), '-o', exe] + self.spec.get('libs', []) + ['-pthread'])
		if r.returncode: raise BuildError('scheduled link: ' + r.stderr[-3000:])
		return exe
	def native(self, pool, asan, entry):
		if self.spec.get('threads'): return self.scheduled(pool, entry)
		extra = ['-fsanitize=address,bounds', '-fno-sanitize-recover=bounds', '-g1', '-fno-omit-frame-pointer'] if asan else []
		flags = [f if f != '-O2' or not asan else '-O1' for f in NATF] + extra + self.natinc + self.defs + spec_flags(self.spec)
		srcs = [self.src] + self.files[1:] + [REPO + '/source/asserts.cpp']; srcs = list(dict.fromkeys(srcs))
		objs = list(pool.map(lambda s: compile_cached('g++', flags, s, '.o', self.work), srcs))
		nat = compile_cached('g++', flags + ['-DSYM_ENTRY=' + entry], V + '/rt/native.cpp', '.o', self.work)
		exe = f'{self.work}/{self.spec["src"]}.{entry}.{hashlib.sha256(repr((self.defs, self.spec.get("flags"))).encode()).hexdigest()[:8]}.' + ('asan' if asan else 'nat')
		r = run(['g++'] + [f for f in flags if not f.startswith('-I')] + objs + [nat, '-o', exe] + self.spec.get('libs', []) + ['-pthread'])
		if r.returncode: raise BuildError('native link: ' + r.stderr[-3000:])
		return exe

def spec_flags(spec): return list(spec.get('flags', []))

def native_run(exe, inp, out, args, cwd, timeout=60, asan=False):
	env = dict(os.environ); env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:malloc_fill_byte=205:max_malloc_fill_size=65536:alloc_dealloc_mismatch=0'; env['MALLOC_PERTURB_'] = str(0x32)
	os.makedirs(cwd, exist_ok=True)
	try: r = run([exe, inp, out] + [f'{k}={v}' for k, v in args.items()], env=env, cwd=cwd, timeout=timeout); return r.returncode, r.stderr
	except subprocess.TimeoutExpired: return 'timeout', ''

def parse_viol(p):
	d = {'bt': [], 'path': p}
	for l in open(p):
		if l.startswith('# kind: '): d['kind'] = l[8:].strip()
		elif l.startswith('# tag: '): d['tag'] = l[7:].strip()
		elif l.startswith('# loc: '): d['loc'] = l[7:].strip()
		elif l.startswith('# bt: '): d['bt'].append(l[6:].rstrip())
	m = re.search(r'\((.*)\)$', d.get('loc', '')); d['func'] = m.group(1) if m else ''
	return d

def reproduced(kind, rc, err):
	if kind in ('race', 'deadlock') and rc not in (42, 43, 44): return None
	if rc == 42: return 'assertion failed natively: ' + (re.search(r'CHECK-FAILED (.*)', err) or [0, '?'])[1]
	if rc == 43: return 'deadlocks natively under the recorded schedule'
	if rc == 44: return 'data race natively under the recorded schedule'
	if rc == 99 or 'ERROR: AddressSanitizer' in err: m = re.search(r'AddressSanitizer: (.*)', err); return 'AddressSanitizer: ' + (m.group(1)[:120] if m else '')
	if 'runtime error:' in err: return 'UBSan: ' + re.search(r'runtime error: (.*)', err).group(1)[:120]
	if isinstance(rc, int) and rc < 0: return f'killed by signal {-rc}'
	if rc == 'timeout': return 'does not terminate natively' if kind == 'hang' else None
	if kind in ('exit', 'abort') and rc not in (0, 3, 4, 5) : return f'process exited with status {rc}'
	if kind == 'exit' and rc == 0 and 'COMPLETED' not in err: return 'process exited early'
	return None

def check(prop, specs, known):
	t0 = time.time(); work = f'{BUILD}/{prop}'; os.makedirs(work, exist_ok=True)
	for f in glob.glob(work + '/run-*'): shutil.rmtree(f, ignore_errors=True)
	pool = ThreadPoolExecutor(JOBS); bg = ThreadPoolExecutor(2); units = {}
	tot = dict(paths=0, infeasible=0, incomplete=0, instrs=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, asserts=0, asserts_concrete=0)
	jobs_ev = []; functions = {}; samples = []; validated = 0; mismatches = []; viols = []; unrepro = []; knownhits = {}; exhaustive = True; errors = []
	jobs = [s for s in specs if TIER in s.get('tiers', ('quick', 'thorough'))]
	only = os.environ.get('SYM_ONLY')
	if only: jobs = [s for s in jobs if fnmatch.fnmatch(s['name'], only)]
	ahead = int(os.environ.get('SYM_AHEAD', 1 if os.environ.get('SYM_V') else 3 if TIER == 'quick' else 2)); runner = ThreadPoolExecutor(ahead); started = []
	def engine(spec, u, entry, out, a, tl):
		if TIER == 'quick': tl = max(5, min(max(tl, 150), int(BUDGET - (time.time() - t0) - 60)))
		cmd = [ENGINE, '-o', out, '-j', str(JOBS), '-t', str(tl), '-q', str(spec.get('q', 60)), '--entry', entry, '--seed', str(SEED), '--preempt', str(a.get('__preempt', 2))] + spec.get('eflags', [])
		for k, v in a.items(): cmd += ['--arg', f'{k}={v}']
		if os.environ.get('SYM_V'): cmd.append('-v')
		return run(cmd + [u.bc]) if not os.environ.get('SYM_V') else subprocess.run(cmd + [u.bc])
	for spec in jobs:
		key = (spec['src'], tuple(spec.get('defs', [])), spec.get('merge'), tuple(spec.get('sources', [])), tuple(spec.get('flags', [])), bool(spec.get('tables')))
		if key not in units:
			u = Unit(spec, prop, work); u.sym(pool); units[key] = u
		u = units[key]; entry = spec.get('entry', 'harness')
		natf = u.natives.get((entry, False)) if spec.get('validate', True) else None
		if natf is None and spec.get('validate', True): natf = u.natives[entry, False] = bg.submit(u.native, pool, False, entry)
		out = f'{work}/run-{spec["name"]}'; os.makedirs(out, exist_ok=True)
		a = dict(spec.get('args', {})); a.update(spec.get(TIER, {}).get('args', {})); pre = spec.get(TIER, {}).get('preempt', spec.get('preempt', 2)); a.update({'__preempt': pre} if spec.get('threads') else {}); tl = spec.get(TIER, {}).get('t', spec.get('t', 120)); tl = min(tl, int(os.environ.get('SYM_TCAP', tl)))
		started.append((spec, u, entry, natf, out, a, runner.submit(engine, spec, u, entry, out, a, tl)))
	for spec, u, entry, natf, out, a, fut in started:
		r = fut.result()
		try: rep = json.load(open(out + '/report.json'))
		except Exception as e: errors.append(f'{spec["name"]}: engine failed ({r.returncode}) {getattr(r, "stderr", "") or ""}'); exhaustive = False; continue
		for k in tot: tot[k] += rep[k]
		complete = rep['incomplete'] == 0 and rep['crashed'] == 0 and not rep['timedout'] and rep['started'] == rep['ended'] and rep['unknown'] == 0
		missing = [t for t in spec.get('reach', []) if t not in rep['reach']]
		if not complete: exhaustive = False
		if missing: exhaustive = False
		for f, (c, n) in rep['functions'].items(): o = functions.get(f, [0, 0]); functions[f] = [max(o[0], c), max(o[1], n)]
		je = dict(job=spec['name'], harness=spec['src'] + ':' + entry, bound=spec.get('bound', ''), args=a, paths=rep['paths'], infeasible=rep['infeasible'], incomplete=rep['incomplete'], incomplete_reasons=rep['incomplete_reasons'][:8], queries=rep['queries'], solver_s=rep['solver_s'], max_query_s=rep['max_query_s'], wall_s=rep['wall'], exhaustive_within_bound=complete and not missing, reach=rep['reach'], unreached=missing, symbolic_inputs=rep['maxvars'], sources=[f.replace(REPO + '/', '') for f in u.files[1:]])
		jobs_ev.append(je)
		if os.environ.get('SYM_FORKS'): 
			for n, l in rep['forks_at'][:15]: print('   forks', n, l)
		# replay counterexamples
		vf = sorted(glob.glob(out + '/viol_*.txt')); exe = None; asan = None; done = set(); nrep = 0
		for p in vf:
			v = parse_viol(p)
			if not all(x in v for x in ('kind', 'tag', 'loc')): continue # cut off when the run was stopped
			k = (v['kind'], v['tag'], v['loc'])
			if k in done or nrep > 40 or (v['kind'] == 'hang' and any(d[0] == 'hang' for d in done)): continue
			nrep += 1; how = None; rp = f'{BUILD}/replay/{prop}-{spec["name"]}-{os.path.basename(p)}'
			if True:
				if exe is None: exe = natf.result() if natf else u.native(pool, False, entry)
				rc, err = native_run(exe, p, '-', a, out + '/cwd', 20 if v['kind'] == 'hang' else 60); how = reproduced(v['kind'], rc, err)
				if v['kind'] == 'exc' and rc == -6: how = 'uncaught exception natively (abort)'
				if not how and v['kind'] == 'hang': done.add(k); continue        # a long path, not an endless one (already counted as incomplete)
				if not how and not spec.get('threads'):
					if asan is None:
						if (entry, True) not in u.natives: u.natives[entry, True] = bg.submit(u.native, pool, True, entry)
						asan = u.natives[entry, True].result()
					rc, err = native_run(asan, p, '-', a, out + '/cwd'); how = reproduced(v['kind'], rc, err)
			if how:
				done.add(k); kf = next((x for x in known if x['property'] == prop and x.get('job') in (None, spec['name']) and fnmatch.fnmatch(spec['name'], x.get('jobs', '*')) and x['kind'] == v['kind'] and x['tag'] == v['tag'] and x.get('func', v['func']) == v['func']), None)
				if kf: knownhits[kf['id']] = (kf, v, how)
				else:
					os.makedirs(BUILD + '/replay', exist_ok=True); shutil.copy(p, rp)
					with open(rp, 'a') as f: f.write(f'# property: {prop} job: {spec["name"]} entry: {entry} args: {a}\n# reproduced: {how}\n')
					viols.append((rp, v, how))
			else: unrepro.append((spec['name'], v['kind'], v['tag'], v['loc']))
		# validate sampled paths natively (translation validation of the executor)
		if natf:
			try: exe = natf.result()
			except BuildError as e: errors.append(str(e)); continue
			def val(p):
				o = p + '.out'; rc, err = native_run(exe, p, o, a, p + '.cwd'); shutil.rmtree(p + '.cwd', ignore_errors=True)
				want = [l.strip() for l in open(p) if l.startswith('out ')]; got = [l.strip() for l in open(o)] if os.path.exists(o) else []
				okk = rc == 0 and got and got[-1] == 'done' and got[:-1] == want
				return (okk, p, rc, want, got, err)
			for okk, p, rc, want, got, err in pool.map(val, sorted(glob.glob(out + '/sample_*.txt'))):
				if okk:
					validated += 1
					if len(samples) < 6: samples.append({'job': spec['name'], 'inputs': [l.split()[1] + '=' + l.split()[3] for l in open(p) if l.startswith('in ')][:40], 'outputs': want[:12]})
				else: mismatches.append((spec['name'], os.path.basename(p), rc, want[:6], got[:6], err[-200:]))
		print(f'  {prop}/{spec["name"]}: paths={rep["paths"]} (+{rep["infeasible"]} infeasible, {rep["incomplete"]} incomplete) queries={rep["queries"]} solver={rep["solver_s"]:.1f}s wall={rep["wall"]:.1f}s viol={len(vf)} {"EXHAUSTIVE" if complete and not missing else "PARTIAL"} {("unreached " + str(missing)) if missing else ""} {rep["incomplete_reasons"][:3] if not complete else ""}', flush=True)
	for m in mismatches: print('  VALIDATION-MISMATCH', m)
	for m in unrepro: print('  UNREPRODUCED (not reported)', m)
	for e in errors: print('  ERROR', e)
	bounds = sorted(set(s.get('bound', '') for s in jobs if s.get('bound')))
	wall = time.time() - t0
	ev = dict(property=prop, tier=TIER, seed=SEED, level='model_checking', wall_s=round(wall, 2), violations=len(viols),
		assumptions=sorted(set(sum((s.get('assume', []) for s in jobs), []))) + ['LLVM IR produced by clang 18 -O2 from the current sources has the meaning of the sources (sampled paths and every counterexample are re-run on a g++ build)', 'libc and libstdc++ functions without header bodies are replaced by the models in /verif/rt and /verif/engine/builtins.cpp; allocation never fails'],
		coverage=dict(states=tot['forks'] + len(jobs), transitions=tot['instrs'], traces_validated_against_impl=validated, validation_mismatches=len(mismatches), samples=samples or [{'note': 'no path completed'}], exhaustive=bool(exhaustive and not errors), bounds=bounds, jobs=jobs_ev, functions_encoded=sorted(functions), functions_encoded_count=len(functions), completed_paths=tot['paths'], infeasible_paths=tot['infeasible'], incomplete_paths=tot['incomplete'], queries=tot['queries'], queries_sat=tot['sat'], queries_unsat=tot['unsat'], queries_unknown=tot['unknown'], solver_s=round(tot['solver_s'], 2), assertions_checked=tot['asserts'], assertions_decided_without_solver=tot['asserts_concrete'], unreproduced_counterexamples=[list(x) for x in unrepro], known_findings=sorted(knownhits), solver='z3 (QF_FD incremental bit-blasting; qffpbv when floating point is symbolic)', meaning='states = path states explored by forking; transitions = IR instructions executed symbolically'))
	os.makedirs(V + '/evidence', exist_ok=True)
	with open(f'{V}/evidence/{prop}.json', 'w') as f: json.dump(ev, f, indent=1)
	for kf, v, how in knownhits.values(): print(f'KNOWN-FINDING: property={prop} {kf["what"]}')
	for rp, v, how in viols:
		print(f'VIOLATION property={prop} replay={rp}'); print(f'    {v["kind"]}: {v["tag"]} at {v["loc"]}; {how}')
	print(f'{prop}: {"VIOLATED" if viols else "held on everything explored"} ({"exhaustive within bounds" if exhaustive and not errors else "NOT exhaustive"}), {tot["paths"]} paths, {validated} validated natively, {wall:.1f}s')
	if viols: return 1
	if errors and not jobs_ev: return 2
	return 0

if __name__ == '__main__':
	import specs
	prop = sys.argv[1]
	if len(sys.argv) > 2: TIER = sys.argv[2]
	if not os.path.exists(ENGINE):
		subprocess.run(['make', '-s', '-j4', '-C', V + '/engine'], check=True)
	kf = json.load(open(V + '/known_findings.json')) if os.path.exists(V + '/known_findings.json') else []
	try: sys.exit(check(prop, specs.SPECS[prop], [k for k in kf if not k.get('fixed')]))
	except BuildError as e: print('BUILD-ERROR', e); sys.exit(2)
