"""C23: the entry points."""
import re, random, run
from core import *
from gen import Gen

MODES = 'bsfFEcC'
JUNK = '(){}[];,.:?\n\t "\'`\\#/*x0_9eE+-=!<>~|&^%\r\xe9\xff'
ADDR = re.compile(r'0x[0-9a-f]{8,}|<fn')

def mutate(r, s):
    s = list(s)
    for _ in range(r.choice([1, 1, 2, 3])):
        if not s: break
        i = r.randrange(len(s)); k = r.random()
        if k < .3: del s[i]
        elif k < .6: s.insert(i, r.choice(JUNK))
        elif k < .8: s[i] = r.choice(JUNK)
        else: del s[i:i + r.randrange(10)]
    if r.random() < .2: s = s[:r.randrange(len(s) + 1)]
    if r.random() < .05: s = ''.join(s).replace('\n', '\r\n')
    return ''.join(s)

def text(rng):
    """(text, root or None)"""
    root = Gen(rng, maxstmt=rng.choice([4, 6, 9, 14]), wild=rng.choice([0, .02, .05])).program()
    k = rng.random()
    if k < .1: root.c.insert(0, ECHO(STR('long ' * rng.randrange(60))))
    src = render(root, PLAIN)
    if k < .55: return src, root
    if k < .6: return src.rstrip('\n'), None
    if k < .65: return '#' + 'c' * rng.choice([10, 1000, 4096, 70000]) + '\n' + src, root
    if k < .68: return src + '\n' * rng.randrange(9000), root
    if k < .7: return '', FILE()
    return mutate(rng, src), None

def run_all(x, texts):
    work = [(m, t) for t in texts for m in MODES]
    rs = run.run_programs(work, x.build())
    return [rs[i * len(MODES):(i + 1) * len(MODES)] for i in range(len(texts))]

def groups_of(x, rs):
    return [dict(runs=[dict(mode=m, code=q.code, out=q.out, err=q.err) for m, q in zip(MODES, r)]) for r in rs]

def check(x, n):
    made = x.make(_text, n)
    bad = []
    for lo in range(0, len(made), 2000):
        part = made[lo:lo + 2000]
        rs = run_all(x, [t for t, _ in part])
        keep = []
        cases = []
        for (t, root), r in zip(part, rs):
            if any(q.code == 98 for q in r): continue               # too slow for some of the entry points
            if any(ADDR.search(q.out + q.err) for q in r if q.code < 97): continue    # it prints addresses
            keep.append((t, r))
            if root:        # what it does at all, by the specification of the language; each different behaviour once
                seen = set()
                for m, q in zip(MODES, r):
                    key = (m in 'cC', q.code, q.out, errkind(q.err))
                    if key in seen: continue
                    seen.add(key)
                    c = Case(root, src=t, mode='c' if m in 'cC' else m, note='entry point ' + m)
                    c.res = q
                    cases.append(c)
        x.check(cases, ran=True)
        vs = run.validate(groups_of(x, [r for _, r in keep]), x.stats, module='Entry')
        x.cases += len(keep)
        for (t, r), v in zip(keep, vs):
            if v.kind == 'ok': x.ok += 1; x.distinct.add(hashlib.md5(t.encode('latin-1')).digest())
            else: bad.append(t)
    bad.sort(key=len)
    for t in bad[:4]:
        r = run_all(x, [t])
        if any(q.code == 98 for q in r[0]): continue
        if run.validate(groups_of(x, r), x.stats, module='Entry')[0].kind == 'ok': continue
        x.fail('the entry points do not agree on a program', '--- program\n%s\n' % t + ''.join(
            '--- entry point %s: status %d\n--- stdout\n%s\n--- stderr\n%s\n' % (m, q.code, q.out[:5000], q.err[:3000]) for m, q in zip(MODES, r[0])))
    x.extra['entry points'] = 'bsfFEcC, see spec/Entry.tla'

def _text(rng): return text(rng)
