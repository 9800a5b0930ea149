"""Programs that read and write files."""
from core import *
from yast import *

NAMES = ['a', 'b', 'old', 'old', 'c1']
MODES = ['r', 'r', 'r', 'w', 'w', 'a', 'a', 'r+', 'w+', 'a+', 'r+', 'w+']
CHARS = ['a', 'b', 'x', ' ', 'Z', '0', '\x80', '\xff', '\r', '\0', '\t', '"']

class H:
    def __init__(self, name, mode):
        self.name = name; self.rd = mode[0] == 'r' or '+' in mode; self.wr = mode[0] != 'r' or '+' in mode
        self.dirty = False; self.seen = False; self.stale = False; self.open = True

class Files:
    def __init__(self, rng, calm=.95):
        self.r = rng; self.h = {}; self.exists = {'old'}; self.n = 0; self.st = []; self.calm = calm
    def text(self):
        r = self.r
        def piece():
            n = r.choice([0, 1, 2, 3, 5, 14, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 100, r.randrange(40)])
            c = r.choice(CHARS)
            s = c * n
            if n and r.random() < .5:
                i = r.randrange(n)
                s = s[:i] + r.choice(CHARS) + s[i + 1:]
            return s
        s = ''
        for _ in range(r.choice([1, 1, 2, 3])):
            s += piece()
            if r.random() < .6: s += r.choice(['\n', '\n', '\n\n', '\r\n'])
        return s
    def add(self, *s): self.st += s
    def handles(self, p=lambda h: True): return sorted(k for k, h in self.h.items() if p(h))
    def show(self, e): self.add(ECHO(e))
    def others(self, k): return [o for j, o in self.h.items() if j != k and o.name == self.h[k].name]
    def settle(self, name, but=None):
        for j in sorted(self.h):
            o = self.h[j]
            if o.name == name and o.dirty and o.open and j != but and self.r.random() < self.calm:
                o.dirty = False
                if self.r.random() < .2: self.show(MCALL(VAR(j), 'close')); o.open = False
                elif self.r.random() < .2: self.show(MCALL(VAR(j), 'seek', STR('cur')))
                else: self.show(MCALL(VAR(j), 'flush'))
    def opens(self):
        r = self.r
        name, mode = r.choice(NAMES), r.choice(MODES)
        if mode[0] == 'r' and name not in self.exists and r.random() < .85: name = r.choice(sorted(self.exists))
        if r.random() < .04: name, mode = r.choice([('dir', 'w'), ('dir', 'a'), ('none/x', 'w'), ('', 'r'), ('none/x', 'r'), ('nope', 'r'), ('nope', 'r+')])
        self.settle(name)
        ok = name in NAMES and (mode[0] != 'r' or name in self.exists)
        if ok: self.exists.add(name)
        self.n += 1
        h = 'h%d' % (r.choice(range(self.n)) if r.random() < .1 else self.n)
        e = CALL(LIB('io.open'), STR(name), STR(mode))
        if mode == 'r' and r.random() < .4: e = CALL(LIB('io.open'), STR(name))
        if h in self.h:
            if self.h[h].open and self.h[h].dirty and self.h[h].name == name: self.h[h].dirty = False       # it is closed after the new one is open
            self.add(ASSIGN(h, e))
        elif ok or r.random() < .5: self.add(LET(h, e))
        else:
            self.show(BIN('===', e, UNDEF()))
            return
        if mode[0] == 'w' and ok: self.changed(name, h)
        if ok: self.h[h] = H(name, mode)
        else: self.h.pop(h, None)
        if r.random() < .5 or not ok: self.show(TERN(VAR(h), STR('open'), STR('not open')))
    def changed(self, name, k):
        for j, o in self.h.items():
            if j != k and o.name == name: o.stale = o.stale or o.seen
    def line(self, k):
        r = self.r
        if r.random() < .5: self.show(MCALL(VAR(k), 'read', *([STR('l')] if r.random() < .4 else [])))
        elif r.random() < .5: self.show(UN('len', MCALL(VAR(k), 'read')))
        else: self.show(BIN('~', BIN('~', STR('<'), MCALL(VAR(k), 'read', STR('l'))), STR('>')))
    def reads(self):
        r = self.r
        ks = self.handles(lambda h: h.open and (h.rd or r.random() < .1) and (not h.stale or r.random() > self.calm))
        if not ks: return self.writes()
        k = r.choice(ks)
        h = self.h[k]
        self.settle(h.name, k)
        x = r.random()
        if x < .5:
            for _ in range(r.choice([1, 1, 2, 4])): self.line(k)
        elif x < .6:
            v = 'x%d' % len(self.st)
            self.add(LET(v, MCALL(VAR(k), 'read')), LET('n' + v, INT(0)),
                     WHILE(AND(VAR(v), BIN('<', VAR('n' + v), INT(12))),
                           BLOCK(ECHO(BIN('~', VAR(v), STR('|'))), ASSIGN(v, MCALL(VAR(k), 'read')), ASSIGN('n' + v, BIN('+', VAR('n' + v), INT(1))))))
        elif x < .8: self.show(MCALL(VAR(k), 'read', STR('a')))
        else:
            v = 'x%d' % len(self.st)
            self.add(LET(v, MCALL(VAR(k), 'read', STR('a'))), ECHO(UN('len', VAR(v))))
            if r.random() < .5: self.show(MCALL(MCALL(VAR(v), 'split', STR('\n')), '__len'))
            else: self.show(VAR(v))
        h.seen = True
    def writes(self):
        r = self.r
        ks = self.handles(lambda h: h.open and (h.wr or r.random() < .1))
        if not ks: return self.opens()
        k = r.choice(ks)
        h = self.h[k]
        self.settle(h.name, k)
        for _ in range(r.choice([1, 1, 2])):
            e = STR(self.text())
            if r.random() < .2: e = BIN('~', e, STR(self.text()))
            if r.random() < .05: e = MCALL(STR(self.text()[:60] or 'y'), 'rep', INT(r.choice([5, 40, 70])))
            e = MCALL(VAR(k), 'write', e)
            if r.random() < .7: self.show(e)
            else: self.add(EXPR(e))
            h.dirty = True
            self.changed(h.name, k)
        if r.random() < .1:
            i = 'i%d' % len(self.st)
            self.add(FORIN(i, LIST(*[STR(self.text()) for _ in range(r.choice([2, 3, 5]))]), BLOCK(EXPR(MCALL(VAR(k), 'write', VAR(i))))))
    def seeks(self):
        r = self.r
        ks = self.handles(lambda h: h.open)
        if not ks: return self.opens()
        k = r.choice(ks)
        self.settle(self.h[k].name, k)
        w = r.choice(['set', 'set', 'end', 'cur', None])
        off = r.choice([0, 0, 1, 2, 3, 4, 5, 8, 10, 15, 16, 17, 40, 300]) if w in ('set', None) else r.choice([0, 0, -1, -2, -4, -5, -15, -16, -30, 1, 3, -300])
        if r.random() < .04: off = -1
        a = [STR(w)] if w else []
        if off or r.random() < .3: a = (a or [UNDEF()]) + [INT(off)]
        self.show(MCALL(VAR(k), 'seek', *a))
        self.h[k].dirty = False
    def ends(self):
        r = self.r
        ks = self.handles(lambda h: h.open)
        if not ks: return self.opens()
        k = r.choice(ks)
        self.h[k].dirty = False
        if r.random() < .5: self.show(MCALL(VAR(k), 'flush'))
        elif r.random() < .8:
            e = MCALL(VAR(k), 'close')
            self.add(ECHO(e) if r.random() < .7 else EXPR(e))
            self.h[k].open = False
        else:
            self.add(ASSIGN(k, r.choice([INT(0), UNDEF(), LIST()])))
            del self.h[k]
    def wrong(self):
        """something that fails"""
        r = self.r
        x = r.randrange(8)
        any_ = sorted(self.h)
        closed = self.handles(lambda h: not h.open)
        method = r.choice(['read', 'write', 'seek', 'flush', 'close'])
        args = dict(read=[], write=[STR('x')], seek=[STR('set'), INT(0)], flush=[], close=[])[method]
        bad = r.choice([INT(1), LIST(), BOOL(True), FLT(96), TABLE(), LIB('io.open'), UNDEF()])
        if x < 2 and closed: e = MCALL(VAR(r.choice(closed)), method, *args)
        elif x == 2: e = CALL(LIB('io.open'), STR(r.choice(NAMES)), r.choice([STR('x'), STR(''), STR('rw'), STR('r++'), STR('+'), STR('R'), STR('rb'), bad]))
        elif x == 3: e = CALL(LIB('io.open'), bad, *([STR(r.choice(['r', 'q', 'w']))] if r.random() < .5 else []))
        elif not any_: return
        elif x == 4: e = MCALL(VAR(r.choice(any_)), 'read', r.choice([STR('x'), STR(''), STR('al'), STR('n'), STR('L'), INT(1), bad]))
        elif x == 5: e = MCALL(VAR(r.choice(any_)), 'write', *([bad] if r.random() < .8 else []))
        elif x == 6: e = MCALL(VAR(r.choice(any_)), 'seek', *r.choice([[STR('start')], [STR('')], [INT(0)], [STR('set'), STR('0')], [STR('set'), FLT(64)], [bad], [STR('end'), bad], [UNDEF(), bad]]))
        elif x == 7 and r.random() < .5: e = r.choice([lambda v: CALL(GET(v, STR(method)), bad, *args), lambda v: CALL(GET(v, STR(method))), lambda v: GET(v, STR('foo')), lambda v: BIN('~', v, STR('')),
                                      lambda v: UN('len', v), lambda v: BIN('<', v, v), lambda v: BIN('==', v, v), lambda v: UN('-', v)])(VAR(r.choice(any_)))
        else: e = MCALL(VAR(r.choice(any_)), method, *([bad] * len(args)))
        self.show(e)
        return True
    def program(self):
        r = self.r
        for _ in range(r.choice([3, 6, 10, 16])):
            x = r.random()
            if not self.h or x < .13: self.opens()
            elif x < .45: self.reads()
            elif x < .75: self.writes()
            elif x < .87: self.seeks()
            elif x < .99: self.ends()
            elif self.wrong(): break
        if r.random() < .3: self.wrong()
        return FILE(*self.st)

def file_case(rng):
    return Case(Files(rng, calm=rng.choice([.9, 1, 1])).program(), mode='w', note='files')

def in_function_case(rng):
    """handles that are in other values, and that functions share"""
    st = [FNLET('put', FN(['f', 's'], BLOCK(RET(MCALL(VAR('f'), 'write', VAR('s')))))),
          FNLET('all', FN(['n'], BLOCK(LET('f', CALL(LIB('io.open'), VAR('n'))), RET(MCALL(VAR('f'), 'read', STR('a'))))))]
    g = Files(rng)
    names = ['a', 'b', 'c1']
    k = rng.choice([2, 3])
    st.append(LET('fs', LIST(*[CALL(LIB('io.open'), STR(n), STR(rng.choice(['w', 'a', 'w+']))) for n in names[:k]])))
    st.append(LET('t', TABLE(STR('f'), CALL(LIB('io.open'), STR('old'), STR(rng.choice(['a', 'a+', 'r+', 'r']))))))
    for _ in range(rng.choice([3, 6])):
        x = rng.random()
        if x < .5: st.append(ECHO(CALL(VAR('put'), GET(VAR('fs'), INT(rng.randrange(k))), STR(g.text()))))
        elif x < .7: st.append(ECHO(CALL(VAR('put'), GET(VAR('t'), STR('f')), STR(g.text()))))
        else: st.append(FORIN('x', VAR('fs'), BLOCK(ECHO(CALL(VAR('put'), VAR('x'), STR(g.text()))))))
    if rng.random() < .5: st.append(FORIN('x', VAR('fs'), BLOCK(EXPR(MCALL(VAR('x'), rng.choice(['flush', 'close']))))))
    else: st.append(ASSIGN('fs', UNDEF()))
    if rng.random() < .5: st.append(EXPR(MCALL(GET(VAR('t'), STR('f')), 'close')))
    for n in names[:k]: st.append(ECHO(CALL(VAR('all'), STR(n))))
    if rng.random() < .2: st.append(ECHO(CALL(VAR('all'), STR('nope'))))
    return Case(FILE(*st), mode='w', note='handles in lists and tables')
