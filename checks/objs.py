"""Programs about host objects with observable destructors: how they are stored, shared, overwritten and dropped."""
from core import *
from yast import *

def C(name, *a): return CALL(LIB(name), *a)
def OBJ(): return C('obj')
def ID(e): return C('id', e)

class Objs:
    """kinds: o an object, l a list of objects, t a table of objects, f a function () -> object, g a function (object) -> object,
    n nested lists"""
    def __init__(self, rng, cycles=.03):
        self.r = rng; self.scopes = [{}]; self.n = 0; self.nst = 0; self.cycles = cycles; self.infn = 0; self.loop = 0; self.tmp = 0
    def vars(self, k):
        seen = {}
        for s in reversed(self.scopes):
            for n, v in s.items(): seen.setdefault(n, v)
        return [n for n, v in seen.items() if v == k]
    def fresh(self):
        self.n += 1
        return 'v%d' % self.n
    def declare(self, k, name=None):
        n = name or self.fresh()
        self.scopes[-1][n] = k
        return n
    def any(self, d=3): return self.e(self.r.choice('ooolltfn'), d)
    def fnbody(self, params, d):
        """block of a function that returns an object"""
        self.scopes.append(dict(params)); self.infn += 1
        lp, self.loop = self.loop, 0
        st = [s for _ in range(self.r.choice([0, 0, 1, 2])) for s in self.stmt(d - 1)]
        st.append(RET(*([self.e('o', d - 1)] + ([self.any(d - 1)] if self.r.random() < .1 else []))))
        self.infn -= 1; self.loop = lp
        self.scopes.pop()
        return BLOCK(*st)
    def e(self, k, d=3):
        r = self.r
        vs = self.vars(k)
        if vs and (d <= 0 or r.random() < .45): return VAR(r.choice(vs))
        x = r.random()
        if k == 'o':
            if d <= 0 or x < .3: return OBJ()
            y = r.randrange(12)
            if y < 3:
                l = r.choice(self.vars('l') or [None])
                if l is None: return GET(LIST(self.e('o', d - 1), self.e('o', d - 1)), INT(r.choice([0, 1, -1])))
                if r.random() < .3: return TERN(BIN('>', UN('len', VAR(l)), INT(0)), MCALL(VAR(l), 'pop'), self.e('o', d - 1))
                return TERN(BIN('>', UN('len', VAR(l)), INT(0)), GET(VAR(l), INT(r.choice([0, -1]))), self.e('o', d - 1))
            if y == 3:
                t = r.choice(self.vars('t') or [None])
                if t is None: return GET(TABLE(STR('a'), self.e('o', d - 1)), STR('a'))
                return NN(GET(VAR(t), STR(r.choice('abc'))), self.e('o', d - 1))
            if y == 4: return CALL(self.e('f', d - 1))
            if y == 5: return CALL(self.e('g', d - 1), self.e('o', d - 1))
            if y == 6: return TERN(BOOL(r.random() < .5), self.e('o', d - 1), self.e('o', d - 1))
            if y == 7: return r.choice([AND, OR, NN])(self.e('o', d - 1), self.e('o', d - 1))
            if y == 8: return NN(UNDEF(), self.e('o', d - 1))
            if y == 9: return CALL(FN(['p'], BLOCK(RET(VAR('p')))), self.e('o', d - 1), *([self.any(d - 1)] if r.random() < .3 else []))
            if y == 10: return MCALL(LIST(*[self.e('o', d - 1) for _ in range(r.choice([1, 2, 3]))]), r.choice(['pop', 'spread']))
            return GET(MCALL(TABLE(INT(1), self.e('o', d - 1)), 'values'), INT(0))
        if k == 'l':
            if d <= 0 or x < .4: return LIST(*[self.e('o', d - 2) for _ in range(r.choice([0, 1, 2, 3]))])
            y = r.randrange(9)
            a = lambda: self.e('l', d - 1)
            if y == 0: return BIN('+', a(), a())
            if y == 1: return SLICE(a(), r.choice([None, INT(0), INT(1), INT(-1)]), r.choice([None, INT(1), INT(2), INT(-1)]))
            if y == 2: return MCALL(a(), 'copy')
            if y == 3: return MCALL(a(), 'push', self.e('o', d - 1))
            if y == 4:
                v = self.fresh()
                return LCOMP(r.choice([VAR(v), VAR(v), OBJ()]), v, a(), r.choice([None, None, BIN('!=', BIN('%', ID(VAR(v)), INT(2)), INT(0))]))
            if y == 5: return LIST(MCALL(a(), 'spread'))
            if y == 6: return CALL(LIB('collections.list'), MCALL(a(), 'spread'))
            if y == 7: return MCALL(self.e('t', d - 1), 'values')
            return CALL(FN(['p', 'q'], BLOCK(RET(LIST(VAR('q'), VAR('p'))))), self.e('o', d - 1), *([self.e('o', d - 1)] if r.random() < .7 else [OBJ(), OBJ()]))
        if k == 't':
            if d <= 0 or x < .5:
                kv = []
                for _ in range(r.choice([0, 1, 2, 3])): kv += [STR(r.choice('abc')), self.e('o', d - 2)]
                return TABLE(*kv)
            y = r.randrange(4)
            if y == 0: return MCALL(self.e('t', d - 1), 'copy')
            if y == 1: return BIN('|', self.e('t', d - 1), self.e('t', d - 1))
            if y == 2: return CALL(LIB('collections.table'), STR('a'), self.e('o', d - 1), STR(r.choice('ab')), self.e('o', d - 1))
            v = self.fresh()
            return TCOMP(VAR(v), self.e('o', d - 2), v, r.choice([LIST(STR('a'), STR('b')), LIST(STR('c'), STR('c')), self.e('t', d - 1)]))
        if k == 'f': return FN([], self.fnbody({}, d))
        if k == 'g':
            p = self.fresh()
            return FN([p], self.fnbody({p: 'o'}, d))
        if k == 'n': return LIST(*[self.e(r.choice('ltn' if d > 0 else 'l'), d - 1) for _ in range(r.choice([0, 1, 2]))])
    def block(self, n=None, pre=None):
        self.scopes.append(dict(pre or {}))
        st = [s for _ in range(n or self.r.choice([1, 1, 2, 3])) for s in self.stmt()]
        self.scopes.pop()
        return BLOCK(*st)
    def show(self):
        r = self.r
        k = r.choice('oooltx')
        if k == 'o': return ECHO(ID(self.e('o', 2)))
        if k == 'l' and self.vars('l'): return ECHO(UN('len', VAR(r.choice(self.vars('l')))))
        if k == 't' and self.vars('t'): return ECHO(UN('len', VAR(r.choice(self.vars('t')))))
        return ECHO(STR('.'))
    def bad(self):
        r = self.r
        y = r.randrange(9)
        if y == 0: return ASSERT(BOOL(False))
        if y == 1: return EXPR(BIN('+', OBJ(), self.e('o', 1)))
        if y == 2: return ECHO(GET(LIST(OBJ()), INT(5)))
        if y == 3: return EXPR(CALL(OBJ(), OBJ()))
        if y == 4: return LET(self.fresh(), LIST(OBJ(), OBJ(), BIN('//', INT(1), INT(0)), OBJ()))
        if y == 5: return EXPR(MCALL(self.e('l', 1), 'push'))
        if y == 6: return EXPR(TABLE(STR('a'), OBJ(), LIST(), OBJ()))
        if y == 7: return EXPR(CALL(FN(['p'], BLOCK(EXPR(BIN('<', VAR('p'), LIST(OBJ()))))), OBJ(), LIST(OBJ())))
        return EXPR(BIN(r.choice(['<', '+', '-', '&', '|']), self.any(1), self.any(1)))
    def stmt(self, d=3):
        r = self.r
        self.nst += 1
        if self.nst > 60: return [self.show()]
        if r.random() < .004: return [self.bad()]
        x = r.randrange(42)
        if x < 8:
            k = r.choice('ooolltfgn')
            e = self.e(k)
            return [LET(self.declare(k), e)]
        if x < 14:
            k = r.choice('oooltfg')
            vs = self.vars(k)
            if not vs: return [self.show()]
            v = r.choice(vs)
            if self.infn and k in 'fg': return [self.show()]
            return [ASSIGN(v, self.e(k))]
        if x < 20: return [self.show()]
        if x < 23 and self.vars('l'):
            l = VAR(r.choice(self.vars('l')))
            y = r.randrange(8)
            if y < 3: return [EXPR(MCALL(l, 'push', self.e('o')))]
            if y == 3: return [IF(BIN('>', UN('len', l), INT(0)), BLOCK(EXPR(MCALL(VAR(l.s), 'pop'))))]
            if y == 4: return [EXPR(MCALL(l, 'clear'))]
            if y == 5: return [IF(BIN('>', UN('len', l), INT(0)), BLOCK(SETST(VAR(l.s), INT(r.choice([0, -1])), self.e('o', 2))))]
            if y == 6: return [EXPR(MCALL(l, 'insert', INT(0), self.e('o')))]
            return [EXPR(MCALL(l, 'reverse'))]
        if x < 26 and self.vars('t'):
            t = VAR(r.choice(self.vars('t')))
            y = r.randrange(6)
            if y < 3: return [SETST(t, STR(r.choice('abc')), self.e('o'))]
            if y == 3: return [SETST(t, STR(r.choice('abc')), UNDEF())]
            if y == 4: return [EXPR(MCALL(t, 'remove', STR(r.choice('abc'))))]
            return [EXPR(MCALL(t, 'clear'))]
        if x < 28 and self.vars('n'):
            n = VAR(r.choice(self.vars('n')))
            return [EXPR(MCALL(n, 'push', self.e(r.choice('lt'))) if r.random() < .6 else MCALL(n, 'clear'))]
        if x < 30: return [EXPR(self.any())]
        if x < 32: return [self.block()]
        if x < 33: return [IF(r.choice([BOOL(True), BOOL(False), BIN('>', UN('len', self.e('l', 2)), INT(1))]), self.block(), self.block() if r.random() < .5 else None)]
        if x < 35:
            v = self.fresh()
            coll, k = r.choice([(self.e('l', 2), 'o'), (self.e('l', 2), 'o'), (LIST(INT(1), INT(2)), 'x'), (self.e('t', 1), 'x')])
            self.loop += 1
            b = self.block(r.choice([1, 2, 3]), {v: k})
            if r.random() < .3: b.c.append(IF(BIN('==', BIN('%', C('id', OBJ()), INT(3)), INT(0)), BLOCK(r.choice([BREAK, BREAK, CONTINUE])())))
            if self.infn and r.random() < .3: b.c.append(RET(self.e('o', 2)))
            self.loop -= 1
            # a collection is not changed while it is iterated over: iterate over a copy
            if k == 'o' or coll.o not in ('list', 'table'): coll = MCALL(coll, 'copy')
            return [FORIN(v, coll, b)]
        if x < 36:
            v = self.fresh()
            b = self.block(2)
            b.c.insert(0, ASSIGN(v, BIN('+', VAR(v), INT(1))))
            if r.random() < .4: b.c.append(IF(BIN('==', VAR(v), INT(2)), BLOCK(BREAK())))
            return [LET(v, INT(0)), WHILE(BIN('<', VAR(v), INT(3)), b)]
        if x < 38:
            p = [self.fresh() for _ in range(2)]
            subj = self.e('l', 2)
            arms = [ARM(PLIST([PLET(p[0])]), self.block(1, {p[0]: 'o'})),
                    ARM(PLIST([PLET(p[1]), PANY()], r.random() < .5), self.block(2, {p[1]: 'o'}), r.choice([None, BIN('>', ID(VAR(p[1])), INT(3)), BIN('==', UN('!', OBJ()), BOOL(True))])),
                    ARM(PANY(), self.block(1))]
            r.shuffle(arms)
            return [MATCH(subj, *arms)]
        if x < 40:
            y = r.randrange(4)
            os = self.vars('o')
            if y == 0 and len(os) > 1:
                a, b = r.sample(os, 2)
                return [MASGN([TOVAR(a), TOVAR(b)], [VAR(b), r.choice([VAR(a), OBJ()])])]
            if y == 1:
                a, b = self.fresh(), self.fresh()
                st = MASGN([LETV(a), LETV(b)], [self.e('o', 2), self.e('o', 2)])
                self.declare('o', a); self.declare('o', b)
                return [st]
            if y == 2:
                a = self.fresh()
                st = MASGN([LETV(a), LETV(self.fresh())], [CALL(self.e('f', 2))])
                self.declare('o', a)
                return [st]
            if self.vars('t') and os:
                return [MASGN([GET(VAR(r.choice(self.vars('t'))), STR('b')), TOVAR(r.choice(os))], [self.e('o', 2), self.e('o', 2)])]
            return [self.show()]
        if x == 40 and self.infn: return [IF(BIN('==', BIN('%', C('id', OBJ()), INT(2)), INT(0)), BLOCK(RET(self.e('o', 1))))]
        if r.random() < self.cycles and self.vars('n'):
            n = r.choice(self.vars('n'))
            out = [EXPR(MCALL(VAR(n), 'push', VAR(n)))]
            if r.random() < .5: out += self.stmt() + [EXPR(MCALL(VAR(n), 'clear'))]
            return out
        if r.random() < .3:      # a metatable that holds objects
            p, q = self.fresh(), self.fresh()
            l = self.fresh()
            out = [LET(l, C('mt.set', LIST(OBJ()), TABLE(STR('k'), self.e('o', 1), STR('__add'), FN([p, q], self.fnbody({}, 1)), STR('__get'), FN([p, q], self.fnbody({}, 1))))),
                   ECHO(ID(r.choice([BIN('+', VAR(l), OBJ()), GET(VAR(l), INT(7)), GET(VAR(l), STR('k'))])))]
            return out
        return [self.show()]
    def program(self):
        st = []
        while self.nst < self.r.choice([6, 14, 26, 40]): st += self.stmt()
        if self.r.random() < .15: st += [self.bad(), self.show()]
        return FILE(*st)

def obj_program(rng, cycles=.03): return Case(Objs(rng, cycles).program(), mode='d', note='host objects')
