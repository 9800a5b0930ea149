"""C22: programs that require modules."""
from core import *
from gen import Gen

BAD_TEXT = ['let = 5\n', 'export\n', 'export 1 +\n', '}\n', 'echo 1;\nexport [1;\n', "export 'abc\n", 'let x = 1;\nlet x = 2;\nexport x;\n', '@\n', 'return 5;\n', 'export (;\n']

class Mods:
    def __init__(self, rng, **cfg):
        self.r = rng
        self.mods = {}          # name: root, or text
        self.use = {}           # name: what it exports
        self.vars = []          # the ones of the program: (name, kind)
        self.k = 0
    def name(self, p='x'):
        self.k += 1
        return p + str(self.k)
    def some(self, n, fns=False):
        """a few statements that do not fail, on variables of their own that may have the names of others"""
        g = Gen(self.r, maxstmt=4, wild=0, types=['int', 'int', 'str', 'bool', 'list', 'table'], names=4)
        st = []
        for _ in range(n):
            x = g.stmt()
            if x: st += x if isinstance(x, list) else [x]
        return g, st
    def require(self, m):
        r = self.r
        if r.random() < .1: return CALL(LIB('require'), STR(m), INT(1))
        return CALL(LIB('require'), STR(m))
    def crequire(self):
        """a module in C, and what there is to be done with it"""
        r = self.r
        m, k = r.choice([('cval', 'const'), ('cdup', 'const'), ('sub/cval', 'const')] + [('ctab', 'ctab')] * 4)
        if r.random() < .1: return CALL(LIB('__require_c__'), STR(m), INT(1)), k
        return CALL(LIB('__require_c__'), STR(m)), k
    def badc(self):
        r = self.r
        return r.choice([CALL(LIB('__require_c__'), STR(r.choice(['cnone', 'cthrow', 'cjunk', 'nosuch', 'sub/ctab', 'cval.so', '', 'm0']))), CALL(LIB('__require_c__'), INT(3)), CALL(LIB('__require_c__'))])
    def module(self, name):
        """makes a module that is fine; sets what it exports"""
        r = self.r
        g, st = self.some(r.randrange(3))
        done = [m for m in self.mods if self.use[m] not in ('bad',)]
        k = r.choice(['value', 'value', 'counter', 'counter', 'table', 'table', 'pair', 'list', 'lazy', 'sub', 'sub', 'reexport', 'const', 'hof', 'fails', 'c'])
        if k in ('lazy', 'sub', 'reexport') and not done: k = 'counter'
        if r.random() < .3: st.append(ECHO(STR('in ' + name)))
        if k == 'value':
            ty = r.choice(['int', 'str', 'bool', 'undef', ('list', 'int'), ('table', 'str', 'int')])
            e = g.expr(ty, 2)
        elif k == 'c': e, k = self.crequire()
        elif k == 'const': e = r.choice([INT(5), STR('v'), UNDEF(), BOOL(True), FLT(96), STR('')])
        elif k == 'counter':
            st += [LET('n', INT(r.randrange(5))), FNLET('f', FN(['p'], BLOCK(ASSIGN('n', BIN('+', VAR('n'), INT(1))), RET(LIST(VAR('n'), VAR('p'))))))]
            e = VAR('f')
            if r.random() < .3: st.append(EXPR(CALL(VAR('f'), INT(1))))
        elif k in ('table', 'pair'):
            st += [LET('n', INT(r.randrange(5))), LET('xs', LIST())]
            st.append(FNLET('inc', FN(['p'], BLOCK(ASSIGN('n', BIN('+', VAR('n'), INT(1))), EXPR(MCALL(VAR('xs'), 'push', VAR('p'))), RET(VAR('n'))))))
            st.append(FNLET('get', FN(['p'], BLOCK(RET(LIST(VAR('n'), UN('len', VAR('xs'))))))))
            e = TABLE(STR('inc'), VAR('inc'), STR('get'), VAR('get'), STR('n'), VAR('n'))
            if k == 'pair': e = LIST(VAR('inc'), VAR('get'), VAR('n'))
        elif k == 'list': e = LCOMP(BIN('*', VAR('i'), INT(2)), 'i', LIST(INT(1), INT(2)))
        elif k == 'hof':      # it calls functions of the program that requires it
            st += [LET('n', INT(3)), FNLET('f', FN(['p'], BLOCK(ASSIGN('n', BIN('+', VAR('n'), INT(1))), RET(LIST(CALL(VAR('p'), VAR('n')), VAR('n'))))))]
            e = VAR('f')
        elif k == 'fails':    # a function of the module that may fail, possibly with others in between
            st += [LET('n', INT(3)), FNLET('f', FN(['p'], BLOCK(ASSIGN('n', BIN('+', VAR('n'), INT(1))), r.choice([ASSERT(VAR('p')), LET('y', BIN('//', VAR('n'), VAR('p'))), LET('y', CALL(VAR('p'), VAR('n')))]), RET(VAR('n')))))]
            if r.random() < .5: st.append(FNLET('g', FN(['p'], BLOCK(LET('z', CALL(VAR('f'), VAR('p'))), RET(VAR('z'))))))
            e = VAR(st[-1].s)
        elif k == 'lazy':     # it requires another module when it is called
            m = r.choice(done)
            st += [LET('n', INT(0)), FNLET('f', FN(['p'], BLOCK(ASSIGN('n', BIN('+', VAR('n'), INT(1))), LET('y', self.require(m)), RET(LIST(VAR('n'), VAR('p'), BIN('==', VAR('y'), UNDEF()) if self.use[m] == 'const' else UN('len', LIST(VAR('y'))))))))]
            e = VAR('f'); k = 'counter'
        elif k == 'sub':
            m = r.choice(done)
            st.append(LET('y', self.require(m)))
            st.append(LET('n', INT(1)))
            sv, self.vars = self.vars, [('y', self.use[m])]
            st += self.uses(2)
            body = [ASSIGN('n', BIN('+', VAR('n'), INT(1)))] + [RET(LIST(VAR('n'), VAR('p')))]
            self.vars = sv
            e = FN(['p'], BLOCK(*body)); k = 'counter'
        else:
            m = r.choice(done)
            e = self.require(m); k = self.use[m]
        st.append(N('export', [e]))
        if r.random() < .2: st.append(ECHO(STR('after the export')))
        self.mods[name] = FILE(*st); self.use[name] = k
    def broken(self, name, mainvars):
        r = self.r
        g, st = self.some(r.randrange(3))
        if r.random() < .3: st.append(ECHO(STR('in ' + name)))
        k = r.randrange(7)
        good = [m for m in self.mods if self.use[m] != 'bad']
        badm = [m for m in self.mods if self.use[m] == 'bad']
        if k == 0: self.mods[name] = r.choice(BAD_TEXT)
        else:
            if k == 1 and mainvars: st += [ECHO(VAR(r.choice(mainvars))), N('export', [INT(1)])]      # not its own
            elif k == 1: st += [ECHO(VAR('nosuch')), N('export', [INT(1)])]
            elif k == 2: st += [ASSERT(BOOL(False)), N('export', [INT(1)])]
            elif k == 3: st += [LET('q1', BIN('//', INT(1), INT(0))), N('export', [VAR('q1')])]
            elif k == 4: pass                           # no export
            elif k == 5: st += [FNLET('f1', FN([], BLOCK(FORIN('e', LIST(INT(1), INT(2)), BLOCK(ASSERT(BIN('==', VAR('e'), INT(1)))))))), EXPR(CALL(VAR('f1'))), N('export', [VAR('f1')])]
            elif k == 6 and r.random() < .3: st.append(N('export', [self.badc()]))
            elif badm and r.random() < .6: st += [LET('y', self.require(r.choice(badm))), N('export', [VAR('y')])]
            else: st += [N('export', [self.require('nosuch')])]
            self.mods[name] = FILE(*st)
        self.use[name] = 'bad'
    def uses(self, n):
        r = self.r
        st = []
        for _ in range(n):
            if not self.vars: break
            v, k = r.choice(self.vars)
            if k in ('value', 'const', 'list'): st.append(ECHO(VAR(v)))
            elif k == 'counter': st.append(ECHO(CALL(VAR(v), r.choice([INT(r.randrange(9)), STR('arg')]))))
            elif k == 'fails': st.append(ECHO(CALL(VAR(v), r.choice([INT(1), INT(1), INT(2), INT(0), BOOL(True), BOOL(False), STR('a'), FN(['p'], BLOCK(RET(BIN('*', VAR('p'), INT(2))))), FN(['p'], BLOCK(ASSERT(BIN('>', VAR('p'), INT(4))), RET(INT(1))))]))))
            elif k == 'hof':
                st.append(LET(self.name('h'), INT(7)))
                st.append(ECHO(CALL(VAR(v), FN(['p'], BLOCK(ASSIGN(st[-1].p[0], BIN('+', VAR(st[-1].p[0]), VAR('p'))), RET(VAR(st[-1].p[0])))))))
                st.append(ECHO(VAR(st[-2].p[0])))
            elif k == 'ctab':
                x = r.random()
                if x < .4: st.append(ECHO(CALL(GET(VAR(v), STR('add')), INT(r.randrange(-5, 9)), r.choice([INT(4), INT(-7), INT(0)] * 4 + [STR('x'), FLT(64)]))))
                elif x < .6: st.append(ECHO(CALL(GET(VAR(v), STR('count')), *[r.choice([INT(1), UNDEF(), STR('z'), CALL(GET(VAR(v), STR('pair')), INT(5))]) for _ in range(r.randrange(4))])))
                elif x < .7:
                    a, b = self.name('a'), self.name('b')
                    st += [LET(a, UNDEF()), LET(b, UNDEF()), MASGN([TOVAR(a), TOVAR(b)], [CALL(GET(VAR(v), STR('pair')), INT(r.randrange(9)))]), ECHO(BIN('~', VAR(a), VAR(b)))]
                elif x < .8: st.append(ECHO(CALL(GET(VAR(v), STR('add')))) if r.random() < .2 else ECHO(LIST(CALL(GET(VAR(v), STR('pair')), STR('p')))))
                else: st += [EXPR(MCALL(GET(VAR(v), STR('list')), 'push', INT(r.randrange(4)))), ECHO(GET(VAR(v), STR('list')))]
            elif k == 'table':
                x = r.random()
                st.append(ECHO(CALL(GET(VAR(v), STR('inc')), INT(1))) if x < .5 else ECHO(CALL(GET(VAR(v), STR('get')), INT(1))) if x < .9 else ECHO(GET(VAR(v), STR('n'))))
            elif k == 'pair':
                x = r.random()
                st.append(ECHO(CALL(GET(VAR(v), INT(0)), INT(1))) if x < .5 else ECHO(CALL(GET(VAR(v), INT(1)), INT(1))) if x < .9 else ECHO(GET(VAR(v), INT(2))))
        return st
    def program(self):
        r = self.r
        g, st = self.some(r.choice([2, 4]))
        names = [v.name for v in g.visible()]
        for i in range(r.choice([1, 2, 3, 4])):
            nm = ('sub/' if r.random() < .12 else '') + 'm%d' % i
            if r.random() < .22: self.broken(nm, names)
            else: self.module(nm)
        good = [m for m in self.mods if self.use[m] != 'bad']
        badm = [m for m in self.mods if self.use[m] == 'bad']
        for _ in range(r.choice([2, 3, 5, 7])):
            x = r.random()
            if x < .45 and good:
                m = r.choice(good)
                v = self.name()
                y = r.random()
                if y < .7: st.append(LET(v, self.require(m)))
                elif y < .85: st.append(LET(v, CALL(FN(['p'], BLOCK(LET('loc', self.require(m)), RET(VAR('loc')))), INT(1))))     # from inside a function
                else: st += [LET(v, UNDEF()), FORIN('e', LIST(INT(1), INT(2)), BLOCK(ASSIGN(v, self.require(m))))]
                self.vars.append((v, self.use[m]))
            elif x < .55:
                e, k = self.crequire()
                v = self.name()
                st.append(LET(v, e)); self.vars.append((v, k))
            elif x < .87: st += self.uses(r.choice([1, 2]))
            else:
                for _ in range(2):
                    z = g.stmt()
                    if z: st += z if isinstance(z, list) else [z]
        st += self.uses(2)
        x = r.random()
        if x < .2 and badm: st += [LET('last', self.require(r.choice(badm))), ECHO(STR('not reached'))]
        elif x < .23: st += [ECHO(LIST(self.badc())), ECHO(STR('not reached'))]
        elif x < .26: st += [ECHO(LIST(self.require('nosuch'))), ECHO(STR('not reached'))]
        elif x < .28: st += [ECHO(LIST(CALL(LIB('require'), INT(5))))]
        elif x < .3: st += [ECHO(LIST(CALL(LIB('require'))))]
        elif x < .34: st += [N('export', [INT(5)]), ECHO(STR('not reached'))]
        st += g.dump()
        # lines of modules do not matter
        return st

def pack_mods(mods, text):
    head = ''
    for nm, m in mods.items():
        t = m if isinstance(m, str) else render(m)
        head += '%s.yasl %d\n%s\n' % (nm, len(t), t)
    return head + '.\n' + text

def module_case(rng):
    m = Mods(rng)
    st = m.program()
    root = FILE(*st)
    src = pack_mods(m.mods, render(root))
    roots = {k: None if isinstance(v, str) else v for k, v in m.mods.items()}
    return Case(root, src=src, mode='m', note='modules', mods=roots)

def leak_case(rng):
    c = module_case(rng)
    c.mode = 'q'
    return c
