"""Match statements whose patterns are made from the values, and from values that are almost the same."""
from core import *
from yast import *

LEAVES = [0, 1, 2, -3, 'a', 'b', '', '1', True, False, None, ('f', 64), ('f', 96)]
KEYS = ['a', 'b', 'c', 1, 2, True, '1']
def value(r, d):
    x = r.random()
    if d <= 0 or x < .4: return r.choice(LEAVES)
    if x < .7: return [value(r, d - 1) for _ in range(r.choice([0, 1, 2, 2, 3]))]
    return {k: v for k, v in ((k, value(r, d - 1)) for k in pick(r, r.choice([0, 1, 1, 2, 3]))) if v is not None}
def pick(r, n):
    ks = []
    while len(ks) < n:
        k = r.choice(KEYS)
        if not any(type(k) == type(o) and k == o or isinstance(k, (bool, int)) and isinstance(o, (bool, int)) and k == o for o in ks): ks.append(k)
    return ks
def expr(v):
    if v is None: return UNDEF()
    if isinstance(v, bool): return BOOL(v)
    if isinstance(v, int): return INT(v)
    if isinstance(v, str): return STR(v)
    if isinstance(v, tuple): return FLT(v[1])
    if isinstance(v, list): return LIST(*[expr(x) for x in v])
    return TABLE(*[e for k in v for e in (expr(k), expr(v[k]))])
def typename(v):
    return {bool: 'bool', int: 'int', str: 'str', tuple: 'float', list: 'list', dict: 'table'}[type(v)]
def near(r, v, d=2):
    """a value that is like v, or almost"""
    x = r.random()
    if x < .15: return value(r, d)
    if isinstance(v, list):
        w = [near(r, e, d - 1) if r.random() < .4 else e for e in v]
        if r.random() < .2: w.append(value(r, d - 1))
        if w and r.random() < .2: w.pop(r.randrange(len(w)))
        return w
    if isinstance(v, dict):
        w = {}
        for k in v:
            y = r.random()
            if y < .15: continue
            if y < .3:
                k2 = r.choice(KEYS)
                if not any(k2 == o for o in list(v) + list(w)): w[k2] = v[k]; continue
            w[k] = near(r, v[k], d - 1) if r.random() < .4 else v[k]
        return {k: e for k, e in w.items() if e is not None}
    return v if x < .6 else r.choice(LEAVES)

class Pats:
    def __init__(self, r): self.r = r; self.n = 0
    def pat(self, v, binds, d=4):
        """a pattern that accepts v, and more"""
        r = self.r
        x = r.random()
        if d > 0 and x < .3:
            a, b = self.pat(v, None, d - 1), self.pat(near(r, near(r, v)) if r.random() < .9 else value(r, 2), None, d - 1)
            return PALT(b, a) if r.random() < .6 else PALT(a, b)
        if x < .36: return PANY()
        if x < .5 and binds is not None:
            self.n += 1
            n = 'b%d' % self.n
            binds.append(n)
            return PLET(n) if r.random() < .7 else PCONST(n)
        if x < .58 and v is not None: return PTYPE(typename(v))
        if v is None: return PUNDEF()
        if isinstance(v, (bool, int, str, tuple)): return PLIT(expr(v))
        if isinstance(v, list):
            n = len(v)
            if r.random() < .3:
                n = r.randrange(n + 1)
                return PLIST([self.pat(e, binds, d - 1) for e in v[:n]], True)
            return PLIST([self.pat(e, binds, d - 1) for e in v])
        ks = list(v)
        r.shuffle(ks)
        rest = r.random() < .4
        if rest: ks = ks[:r.randrange(len(ks) + 1)]
        return PTABLE([expr(k) for k in ks], [self.pat(v[k], binds, d - 1) for k in ks], rest)
    def match(self, v, subj):
        r = self.r
        arms = []
        for i in range(r.choice([1, 2, 3, 4])):
            binds = []
            w = v if r.random() < .25 else near(r, v)
            p = self.pat(w, binds)
            body = [ECHO(INT(i + 1))] + [ECHO(VAR(b)) for b in binds]
            guard = None
            if r.random() < .25:
                guard = r.choice([lambda: BOOL(False), lambda: BOOL(True), lambda: VAR('g'), lambda: UN('!', VAR('g'))])()
                if binds and r.random() < .6: guard = BIN(r.choice(['==', '!=']), BIN('~', STR(''), VAR(binds[0])), STR(r.choice(['1', 'a'])))
            arms.append(ARM(p, BLOCK(*body), guard))
        if r.random() < .5: arms.append(ARM(PANY(), BLOCK(ECHO(STR('none')))))
        return MATCH(subj, *arms)

def match_case(rng, n=12):
    r = rng
    p = Pats(r)
    st = [LET('g', BOOL(r.random() < .5))]
    for i in range(n):
        v = value(r, 3)
        x = r.random()
        if x < .4: st.append(p.match(v, expr(v)))
        elif x < .6:
            st += [LET('x%d' % i, expr(v)), p.match(v, VAR('x%d' % i))]
        elif x < .8: st += [FNLET('f%d' % i, FN(['x'], BLOCK(LET('y', INT(7)), p.match(v, VAR('x')), RET(VAR('y'))))), ECHO(CALL(VAR('f%d' % i), expr(v))), ECHO(CALL(VAR('f%d' % i), expr(near(r, v))))]
        else: st.append(FORIN('e', LIST(expr(v), expr(near(r, v)), expr(near(r, v))), BLOCK(p.match(v, VAR('e')))))
    st.append(ECHO(STR('end')))
    return Case(FILE(*st), note='patterns that are like the value')
