"""Building the code under test, running programs on it, and checking what they did against the specification."""
import os, sys, json, subprocess, hashlib, glob, tempfile, shutil, time, re, atexit, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('YASL_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOPTS = ['-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=1']    # the runs are short
NPROC = os.cpu_count() or 4
CFLAGS = ['-std=gnu99', '-g', '-O1', '-w', '-fno-omit-frame-pointer']
ASAN = ['-fsanitize=address']
_tmp = None

def tmpdir():
    global _tmp
    if _tmp is None:
        os.makedirs(BUILD, exist_ok=True)
        _tmp = tempfile.mkdtemp(prefix='run.', dir=BUILD)
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp

class CheckError(Exception):
    pass

def sources():
    pats = ['main.c', 'yasl.c', 'yasl_aux.c', 'compiler/*.c', 'interpreter/*.c', 'data-structures/*.c', 'util/*.c', 'std/*.c']
    r = []
    for p in pats: r += sorted(glob.glob(os.path.join(REPO, p)))
    return r

def tree_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    fs = []
    for d in ('.', 'compiler', 'interpreter', 'data-structures', 'util', 'std'):
        for ext in ('*.c', '*.h', '*.x'): fs += glob.glob(os.path.join(REPO, d, ext))
    fs += glob.glob(os.path.join(VERIF, 'harness', '*.c')) + glob.glob(os.path.join(VERIF, 'harness', 'mods', '*.c'))
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

INCS = ['.', 'compiler', 'data-structures', 'interpreter', 'util', 'std']

CMODS = {'cval.so': 'MOD_VALUE', 'libctab.so': 'MOD_TABLE', 'libcdup.so': 'MOD_STR="lib"', 'cdup.so': 'MOD_STR="plain"', 'cnone.so': 'MOD_NONE', 'libcthrow.so': 'MOD_THROW'}

def build(asan=True):
    """Compiles the sources in /repo; returns the directory with the programs of harness/, and the yasl tool."""
    flags = CFLAGS + (ASAN if asan else [])
    d = os.path.join(BUILD, ('a' if asan else 'n') + tree_hash(' '.join(flags)))
    if os.path.exists(os.path.join(d, 'ok')): return d
    for old in glob.glob(os.path.join(BUILD, '[an]*')):      # of earlier trees
        if os.path.isdir(old) and time.time() - os.path.getmtime(old) > 3600: shutil.rmtree(old, ignore_errors=True)
    w = os.path.join(tmpdir(), os.path.basename(d))
    os.makedirs(w, exist_ok=True)
    incs = ['-I' + os.path.join(REPO, i) for i in INCS]
    procs = []
    objs = []
    log = os.path.join(w, 'log')
    jobs = []
    for f in sources():
        o = os.path.join(w, os.path.relpath(f, REPO).replace('/', '_') + '.o')
        jobs.append((['gcc'] + flags + incs + ['-c', f, '-o', o]))
        objs.append(o)
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.c'))):
        o = os.path.join(w, 'H_' + os.path.basename(f) + '.o')
        jobs.append((['gcc'] + flags + incs + ['-c', f, '-o', o]))
    run_jobs(jobs, log)
    mains = [o for o in objs if os.path.basename(o) == 'main.c.o']
    libobjs = [o for o in objs if o not in mains]
    jobs = [['gcc'] + flags + mains + libobjs + ['-o', os.path.join(w, 'yasl'), '-lm', '-ldl']]
    for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.c'))):
        b = os.path.basename(f)
        jobs.append(['gcc'] + flags + [os.path.join(w, 'H_' + b + '.o')] + libobjs + ['-rdynamic', '-o', os.path.join(w, b[:-2]), '-lm', '-ldl'])
    for name, d1 in CMODS.items():
        jobs.append(['gcc', '-g', '-O1', '-w', '-shared', '-fPIC', '-D' + d1] + incs + [os.path.join(VERIF, 'harness', 'mods', 'mod.c'), '-o', os.path.join(w, name)])
    run_jobs(jobs, log)
    for o in glob.glob(os.path.join(w, '*.o')): os.unlink(o)
    open(os.path.join(w, 'ok'), 'w').close()
    try: os.rename(w, d)
    except OSError:
        if not os.path.exists(os.path.join(d, 'ok')): return w
    return d

def run_jobs(jobs, log):
    run = []
    jobs = list(jobs)
    with open(log, 'ab') as lf:
        while jobs or run:
            while jobs and len(run) < NPROC: run.append(subprocess.Popen(jobs.pop(0), stdout=lf, stderr=lf))
            p = run.pop(0)
            if p.wait() != 0:
                for q in run: q.wait()
                raise CheckError('build failed: ' + ' '.join(p.args)[-200:] + '\n' + open(log, errors='replace').read()[-3000:])

ENV = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=1:leak_check_at_exit=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1',
           LSAN_OPTIONS='print_suppressions=0', LC_ALL='C', TZ='UTC')
for k in list(ENV):
    if k.startswith('YASL'): del ENV[k]

class Result:
    __slots__ = ('code', 'out', 'err')
    def __init__(self, code, out, err): self.code = code; self.out = out; self.err = err

def run_programs(srcs, bdir, mode='b', limit=10, tool='prog', cwd=None):
    """srcs: list of str (latin-1) or (mode, str); returns a list of Result"""
    d = tempfile.mkdtemp(dir=tmpdir())
    n = min(NPROC, max(1, len(srcs) // 4))
    shards = [[] for _ in range(n)]
    for i, s in enumerate(srcs): shards[i % n].append((i, s))
    procs = []
    for j, sh in enumerate(shards):
        p = os.path.join(d, 'in%d' % j)
        with open(p, 'wb') as f:
            for i, s in sh:
                m = mode
                if isinstance(s, tuple): m, s = s
                b = s.encode('latin-1')
                f.write(b'%s %d\n' % (m.encode(), len(b))); f.write(b); f.write(b'\n')
        procs.append(subprocess.Popen([os.path.join(bdir, tool), p, os.path.join(d, 'out%d' % j), str(limit)], env=ENV, cwd=cwd or d,
                                      stdin=subprocess.DEVNULL, stderr=subprocess.PIPE))
    res = [None] * len(srcs)
    for j, (sh, p) in enumerate(zip(shards, procs)):
        err = p.communicate()[1]
        if p.returncode != 0: raise CheckError('driver failed: %d %s' % (p.returncode, err[-500:]))
        data = open(os.path.join(d, 'out%d' % j), 'rb').read()
        pos = 0
        for i, s in sh:
            e = data.index(b'\n', pos)
            code, no, ne = map(int, data[pos:e].split())
            pos = e + 1
            res[i] = Result(code, data[pos:pos + no].decode('latin-1'), data[pos + no:pos + no + ne].decode('latin-1'))
            pos += no + ne + 1
    shutil.rmtree(d, ignore_errors=True)
    return res

# ---------------------------------------------------------------------------------------------------------------
class TLCResult:
    def __init__(self): self.lines = []; self.states = 0; self.distinct = 0; self.error = None; self.out = ''

def tlc(module, cfg=None, env=None, workers=None, timeout=800, args=(), heap='8g', simulate=None):
    meta = tempfile.mkdtemp(dir=tmpdir())
    cmd = ['java'] + JOPTS + [ '-Xmx' + heap, '-Xss64m', '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet', '-cp', JAVA_CP, 'tlc2.TLC',
           '-workers', str(workers or NPROC), '-metadir', meta, '-noGenerateSpecTE', '-config', (cfg or module + '.cfg')] + list(args) + [module + '.tla']
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult()
    r.out = p.stdout.decode('utf-8', 'replace')
    r.rc = p.returncode
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.out)
    if m: r.states, r.distinct = int(m.group(1)), int(m.group(2))
    if p.returncode != 0 or 'Error:' in r.out:
        r.error = r.out[r.out.find('Error'):][:3000]
    return r

_V = re.compile(r'<<\s*"VERDICT",\s*(\d+),\s*"(\w+)",\s*(-?\d+),\s*(-?\d+),\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)

class Verdict:
    __slots__ = ('kinds', 'pos', 'code', 'detail')
    def __init__(self): self.kinds = set(); self.pos = -1; self.code = 0; self.detail = ''
    @property
    def kind(self):
        return 'ok' if 'ok' in self.kinds else 'ood' if 'ood' in self.kinds else 'bad' if 'bad' in self.kinds else 'none'

class Stats:
    def __init__(self): self.states = 0; self.distinct = 0; self.tlc_s = 0; self.specerr = []

def validate(progs, stats, module='Replay', limit=400, workers=2, env=None):
    """progs: list of dicts for the specification.  Returns a Verdict for each of them."""
    verdicts = [Verdict() for _ in progs]
    n = max(1, min(NPROC // workers, (len(progs) + 49) // 50))
    shards = []
    per = min(limit, (len(progs) + n - 1) // n)
    k = max(1, (len(progs) + per - 1) // per) if per else 1
    shards = [list(range(i, len(progs), k)) for i in range(k)]
    lock = threading.Lock()
    broken = []
    def one(idx):
        tries = 0
        while idx:
            fd, path = tempfile.mkstemp(suffix='.json', dir=tmpdir())
            with os.fdopen(fd, 'w') as f: json.dump([progs[i] for i in idx], f, separators=(',', ':'))
            t = time.time()
            r = tlc(module, env=dict(env or {}, PROGS=path), workers=workers, heap='3g')
            os.unlink(path)
            with lock:
                stats.tlc_s += time.time() - t
                stats.states += r.states; stats.distinct += r.distinct
            if r.error:
                m = None
                for m in re.finditer(r'\bpid \|-> (\d+)', r.error): pass
                tries += 1
                if tries > 8: raise CheckError('TLC: ' + r.error)
                if m is None:           # it does not say which: search for it
                    if broken: raise CheckError('TLC: ' + r.error)
                    if len(idx) == 1:
                        with lock: stats.specerr.append((idx[0], r.error[:1500]))
                        verdicts[idx[0]].kinds = {'ood'}; verdicts[idx[0]].detail = 'specification error'
                        if len(stats.specerr) > 12: broken.append(1)
                        break
                    for i in idx: verdicts[i].kinds.clear()
                    h = len(idx) // 2
                    one(idx[:h]); one(idx[h:])
                    break
                bad = int(m.group(1)) - 1
                with lock: stats.specerr.append((idx[bad], r.error[:1500]))
                for i in idx: verdicts[i].kinds.clear()
                verdicts[idx[bad]].kinds.add('ood'); verdicts[idx[bad]].detail = 'specification error'
                idx.pop(bad)
                continue
            for m in _V.finditer(r.out):
                v = verdicts[idx[int(m.group(1)) - 1]]
                v.kinds.add(m.group(2))
                if m.group(2) == 'bad' and int(m.group(3)) >= v.pos or v.pos < 0:
                    v.pos, v.code, v.detail = int(m.group(3)), int(m.group(4)), m.group(5)
            break
    with ThreadPoolExecutor(max(1, min(NPROC // workers, len(shards)))) as ex:
        for _ in ex.map(one, shards): pass
    return verdicts

# ---------------------------------------------------------------------------------------------------------------
_T = re.compile(r'<<\s*"TEXT",\s*(\d+),\s*"(\w+)",\s*"((?:[^"\\]|\\.)*)"\s*>>', re.S)
def parse_texts(texts, stats, limit=250):
    """What the specification (Text.tla) makes of each text: ('ok', tree), ('no', None) or ('ood', why)"""
    res = [None] * len(texts)
    k = max(1, min((len(texts) + 24) // 25, max(NPROC, (len(texts) + limit - 1) // limit)))
    chars = [chr(i) for i in range(256)]
    lock = threading.Lock()
    def one(idx):
        d = tempfile.mkdtemp(dir=tmpdir())
        path = os.path.join(d, 'in.json')
        with open(path, 'w') as f: json.dump(dict(chars=chars, texts=[list(texts[i]) for i in idx]), f)
        t = time.time()
        r = tlc('Text', env=dict(TEXTS=path, OUT=os.path.join(d, 't')), workers=1, heap='3g')
        with lock:
            stats.tlc_s += time.time() - t
            stats.states += r.states; stats.distinct += r.distinct
        if r.error:
            shutil.rmtree(d, ignore_errors=True)
            if len(stats.specerr) > 12: raise CheckError('TLC: ' + r.error)
            if len(idx) == 1:
                with lock: stats.specerr.append((idx[0], r.error[:1500]))
                res[idx[0]] = ('ood', 'specification error')
            else:
                h = len(idx) // 2
                one(idx[:h]); one(idx[h:])
            return
        for m in _T.finditer(r.out):
            n = int(m.group(1))
            tree = None
            if m.group(2) == 'ok':
                with open(os.path.join(d, 't%d' % n)) as f: tree = json.load(f)
            res[idx[n - 1]] = (m.group(2), tree if tree is not None else m.group(3))
        shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(NPROC) as ex:
        for _ in ex.map(one, [list(range(i, len(texts), k)) for i in range(k)]): pass
    if None in res: raise CheckError('no verdict for a text:\n' + texts[res.index(None)])
    return res
