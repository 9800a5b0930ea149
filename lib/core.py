"""What all checks share: making cases, running them on the code under test, having the specification judge them, and reporting."""
import os, sys, glob, copy, zlib, json, time, random, traceback, multiprocessing, hashlib, re
import run
from run import VERIF, CheckError, Stats
from yast import *

def host_strs(root, share=.5):
    """the same program (or the same tree), with some of its strs made slices of strs that belong to the host"""
    r = random.Random(render(root, PLAIN))
    def text(s): return ''.join(r.choice('ab <>,tX') for _ in range(s))
    def go(n, keep=False):
        if not isinstance(n, N): return n
        if n.o == 'str' and not keep and '\0' not in n.s and r.random() < share:
            a = r.randrange(3); b = r.randrange(3)
            e = CALL(LIB('lit'), STR(text(a) + n.s + text(b)))
            if r.random() < .3: e = SLICE(e, INT(0), INT(a + len(n.s) + r.randrange(b + 1)))
            return SLICE(e, INT(a), INT(a + len(n.s))) if a or b else e
        keep = n.o in ('plit', 'ptable')
        m = copy.copy(n)
        m.c = [go(x, keep) for x in n.c]; m.q = [go(x, keep) for x in n.q]
        return m
    return go(root)

class Case:
    """A program (root), as it is given to the interpreter (src, mode), and what else the specification is told about it."""
    LIT = .15           # how many of the programs use strs of the host
    __slots__ = ('src', 'root', 'mode', 'note', 'nodes', 'rootno', 'extra', 'res', 'verdict', 'plain')
    def __init__(self, root, src=None, mode='b', note='', style=None, extra=None, mods=None):
        if root is not None and src is None and mods is None and mode in 'bsfldwh' and zlib.crc32(repr(render(root, Style(semis=True))).encode()) % 1000 < 1000 * Case.LIT: root = host_strs(root)
        self.src = src if src is not None else render(root, style or PLAIN)
        self.nodes, self.rootno, m = to_json(root, mods or {}) if root is not None else (None, 0, {})      # no root: it is the specification that reads src
        self.root = None; self.mode = mode; self.note = note; self.extra = dict(extra or {}, **(dict(mods=m) if mods is not None else {}))
        self.res = None; self.verdict = None

_ERR = re.compile(r'^(\w+): ')
_LINE = re.compile(r'\(line (\d+)\)|In function call on line (\d+)')

def errkind(err):
    m = _ERR.match(err)
    return m.group(1) if m else ('' if err == '' else '?')
def errlines(err):
    return [int(a or b) for a, b in _LINE.findall(err)]

NOMODS = {'no module': 0}
NOHOST = {'no': dict(n=0, c=[])}
def record(c):
    """the program and what it really did, for the specification"""
    d = dict(nodes=c.nodes, root=c.rootno, out=c.res.out, code=c.res.code, err='?' if c.mode in 'rRi' else errkind(c.res.err) if c.res.code < 97 else '', mode=c.mode, lines=[0])
    d['leak'] = c.mode in 'ldhRqw' and 50 <= c.res.code < 70
    if d['leak']: d['code'] -= 50
    if c.mode == 'i': d['out'] = ''.join(c.res.out.split('yasl> ')[1:])
    h = c.extra.get('host')
    d['host'] = h or NOHOST
    d['mods'] = c.extra.get('mods') or NOMODS
    if 'mods' in c.extra: d['err'] = '?'
    d['disk'] = c.mode == 'w' and c.res.code < 97
    parts = d['out'].split('\1FILE ') if d['disk'] else [d['out']]
    d['out'] = parts[0]
    d['files'] = [dict(n=f.split('\n', 1)[0], c=f.split('\n', 1)[1][:-1]) for f in parts[1:]]
    d['objs'] = c.mode == 'h' or c.mode == 'd' and any(n['o'] == 'lib' and n['s'] == 'obj' for n in c.nodes)
    if c.extra.get('lines'): d['lines'] = errlines(c.res.err)
    return d

def _gen(a):
    fn, seed, kw = a
    return fn(random.Random(seed), **kw)

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.quick = tier == 'quick'
        self.stats = Stats()
        self.cases = 0; self.ok = 0; self.ood = 0
        self.distinct = set()
        self.samples = []
        self.features = {}
        self.oodwhy = {}
        self.violations = []
        self.known = []
        self.extra = {}
        self.read_as = {}
        self.assumptions = []
        self.bdir = None
        self.level = 'model_checking'
        self.rdir = os.path.join(VERIF, 'evidence', 'replay')
        for f in glob.glob(os.path.join(self.rdir, pid + '-*.txt')): os.unlink(f)
    def build(self):
        if not self.bdir: self.bdir = run.build()
        return self.bdir
    def rng(self, tag): return random.Random('%s.%s.%d' % (self.pid, tag, self.seed))
    def n(self, quick, thorough=None): return quick if self.quick else (thorough or quick * 8)
    def make(self, fn, n, tag='', **kw):
        """n cases (or lists of cases) of fn(rng, **kw), made in parallel, and deterministic"""
        work = [(fn, '%s.%s.%d.%d' % (self.pid, tag or fn.__name__, self.seed, i), kw) for i in range(n)]
        if n < 8: out = [_gen(w) for w in work]
        else:
            with multiprocessing.Pool(run.NPROC) as p: out = p.map(_gen, work, chunksize=max(1, n // (run.NPROC * 4)))
        res = []
        for o in out:
            if isinstance(o, list): res += o
            elif o is not None: res.append(o)
        return res
    # -- judging
    def read(self, cases):
        """has the specification read the texts"""
        for c, (k, t) in zip(cases, run.parse_texts([c.src for c in cases], self.stats)):
            c.nodes, c.rootno = tree_json(t) if k == 'ok' else ([dict(o='bad', i=0, s='', c=[], q=[], p=[], l=0)], 1)
            c.extra['text'] = (k, '' if k == 'ok' else t)
            self.read_as[k] = self.read_as.get(k, 0) + 1
    def judge(self, cases, ran=False):
        texts = [c for c in cases if c.nodes is None]
        if texts: self.read(texts)
        if not ran:
            rs = run.run_programs([(c.mode, c.src) for c in cases], self.build())
            for c, r in zip(cases, rs): c.res = r
        vs = run.validate([record(c) for c in cases], self.stats)
        for c, v in zip(cases, vs):
            c.verdict = v
            if v.kind == 'none' and c.res.code == 98: v.kinds = {'ood'}; v.detail = 'it runs forever'
            if c.extra.get('text', ('', ''))[0] == 'ood': v.kinds = {'ood'}; v.detail = 'text: ' + c.extra['text'][1]
    def check(self, cases, chunk=4800, ran=False):
        for i in range(0, len(cases), chunk): self._check(cases[i:i + chunk], ran)
    def _check(self, cases, ran=False):
        if not cases: return
        self.judge(cases, ran)
        bad = []
        for c in cases:
            self.cases += 1
            k = c.verdict.kind
            for nd in c.nodes:
                f = nd['o'] + (' ' + nd['s'] if nd['o'] in ('bin', 'un', 'mcall', 'lib') else '')
                self.features[f] = self.features.get(f, 0) + 1
            if k == 'ok':
                self.ok += 1
                self.distinct.add(hashlib.md5(c.src.encode('latin-1', 'replace')).digest())
                if len(self.samples) < 3 and self.cases % 7 == 1: self.samples.append(dict(program=c.src[:1200], mode=c.mode, printed=c.res.out[:300], status=c.res.code))
            elif k == 'ood' and (c.res.code == 99 or c.res.code > 100): bad.append(c)       # no program may do that
            elif k == 'ood':
                self.ood += 1
                w = c.verdict.detail[:40]
                self.oodwhy[w] = self.oodwhy.get(w, 0) + 1
            else: bad.append(c)
        if bad: self.confirm(bad)
    def laws(self, *names):
        """the laws of the property, checked on the specification itself"""
        for w in names:
            t = run.tlc('Laws', env=dict(LAWS=w), workers=run.NPROC)
            if t.error or not t.distinct: raise CheckError('the specification breaks the laws of %s: %s' % (w, t.error))
            self.stats.states += t.states; self.stats.distinct += t.distinct
            self.extra.setdefault('laws checked on the specification', {})[w] = dict(states=t.distinct)
    def confirm(self, bad):
        """only what happens again counts"""
        bad.sort(key=lambda c: len(c.src))
        again = bad[:6]
        for c in again:
            first = c.verdict
            self.judge([c])
            if c.verdict.kind == 'bad' or c.res.code == 99 or c.res.code > 100: self.violation(c)
            elif c.verdict.kind == 'none': raise CheckError('no verdict for a program:\n' + c.src[:2000])
            else: print('note: a rejected program was accepted when it ran again (%s)' % c.note)
    def violation(self, c):
        os.makedirs(self.rdir, exist_ok=True)
        name = os.path.join(self.rdir, '%s-%d.txt' % (self.pid, len(self.violations)))
        v = c.verdict
        if v.kind != 'bad': v.detail = 'a memory error (status 99), or an end by signal (status - 100)'
        with open(name, 'w', encoding='utf-8', errors='replace') as f:
            f.write('property %s   %s\nmode %s (see harness/prog.c)\n' % (self.pid, c.note, c.mode))
            f.write('--- program\n%s\n--- what the interpreter did: status %d\n--- stdout\n%s\n--- stderr\n%s\n' % (c.src, c.res.code, c.res.out[:20000], c.res.err[:6000]))
            f.write('--- the specification agrees with the first %d characters of stdout; then it has: %s\n--- at the end, its status is %d\n'
                    % (max(0, v.pos), v.detail or '(the end)', v.code))
        self.report(name, c.note)
    def report(self, path, what):
        self.violations.append((path, what))
    def fail(self, what, text):
        """a violation found by other means than a rejected program"""
        os.makedirs(self.rdir, exist_ok=True)
        name = os.path.join(self.rdir, '%s-%d.txt' % (self.pid, len(self.violations)))
        with open(name, 'w', encoding='utf-8', errors='replace') as f: f.write(what + '\n' + text)
        self.report(name, what)
    def finish(self):
        cov = dict(states=self.stats.distinct, transitions=self.stats.states, traces_validated_against_impl=self.ok,
                   samples=self.samples or [dict(note='none')], evaluations=self.cases, distinct_nontrivial=len(self.distinct),
                   outside_of_the_domain=self.ood, outside_because=dict(sorted(self.oodwhy.items(), key=lambda x: -x[1])[:12]),
                   specification_errors=len(self.stats.specerr), features=dict(sorted(self.features.items())), tlc_cpu_s=round(self.stats.tlc_s, 1))
        if self.read_as: cov['texts_read_as'] = self.read_as
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s: %d cases, %d conform, %d outside of the domain, %d states, %.0f s' % (self.pid, self.cases, self.ok, self.ood, self.stats.distinct, time.time() - self.t0))
        for i, e in self.stats.specerr[:3]: print('specification error:', e[:600])
        for path, what in self.violations[:10]: print('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1 if self.violations else 0
