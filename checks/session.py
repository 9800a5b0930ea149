"""C21: sessions of inputs to one state."""
from core import *
from gen import Gen, Var
import run

BAD_TEXT = ['let = 5\n', '1 +\n', 'echo (1\n', ')\n', 'echo "abc\n', "echo 'abc\n", 'x y z\n', '5 = 4\n', 'if {\n', 'while true {\n echo 1\n', 'echo 1; echo }\n', 'echo [1, 2\n', '@\n',
            'fn (\n', 'match 1 {\n', 'return\n', 'for\n', 'echo 0x\n', 'echo 1 2\n', 'const\n', 'let 1 = 2\n', 'echo {1: 2\n', "echo '\\q'\n", 'echo 1;\necho 2;\n+\n']

class Session:
    def __init__(self, rng, **cfg):
        self.r = rng
        self.g = Gen(rng, maxstmt=6, wild=rng.choice([0, 0, .01]), **cfg)
        self.g.declare('g0', 'int')
        self.k = 0
        self.calls = []; self.vars = []
    def name(self):
        self.k += 1
        return 'zz%d' % self.k
    def stmts(self, n):
        st = []
        for _ in range(n):
            x = self.g.stmt()
            if x: st += x if isinstance(x, list) else [x]
        return st
    def dump(self):
        r = self.r
        vs = [v for v in self.g.visible() if v.ty in ('int', 'str', 'bool', 'undef') or isinstance(v.ty, tuple) and v.ty[0] in ('list', 'table') and isinstance(v.ty[-1], str)]
        r.shuffle(vs)
        return [ECHO(VAR(v.name)) for v in vs[:4]]
    def failing(self):
        """a statement that fails when it is run"""
        r = self.r; g = self.g
        k = r.randrange(9)
        if k == 0: return ASSERT(BOOL(False))
        if k == 1: return ECHO(BIN('//', g.expr('int', 1), INT(0)))
        if k == 2: return LET(self.name(), BIN('%', INT(5), INT(0)))
        if k == 3: return ECHO(BIN('+', LIST(), INT(1)))
        if k == 4: return EXPR(CALL(g.literal('int', 0)))
        if k == 5: return ECHO(GET(LIST(INT(1)), INT(7)))
        if k == 6: return EXPR(CALL(FN([], BLOCK(LET('q', LIST(INT(1), g.expr('int', 1))), FORIN('e', VAR('q'), BLOCK(ASSERT(BIN('==', VAR('e'), STR('no')))))))))
        if k == 7: return FORIN('e', LIST(INT(3), INT(2), INT(1)), BLOCK(ECHO(VAR('e')), IF(BIN('==', VAR('e'), INT(2)), BLOCK(EXPR(MCALL(VAR('e'), 'nope'))))))
        return MATCH(g.expr('int', 1), ARM(N('plet', s='w'), BLOCK(ECHO(LIST(VAR('w'), INT(1))), ASSERT(UNDEF()))))
    def illegal(self):
        """a statement that is not accepted"""
        r = self.r
        k = r.randrange(8)
        vs = self.g.visible()
        glob = [v for v in self.g.scopes[0].values()]
        cs = [v for v in vs if v.const and not v.name.startswith('cnt')]
        if k == 0: return ECHO(VAR('nosuch'))
        if k == 1: return RET(INT(1))
        if k == 2: return r.choice([BREAK, CONTINUE])()
        if k == 3: return LET(r.choice(glob).name, INT(3))
        if k == 4 and cs: return ASSIGN(r.choice(cs).name, INT(3))
        if k == 5: return ASSIGN('nosuch', INT(1))
        if k == 6: return LET(self.name(), VAR('nosuch'))
        if k == 7: return FNLET(self.name(), FN(['p'], BLOCK(LET('p2', VAR('p')), RET(VAR('nosuch')))))
        return ECHO(LIST(VAR('nosuch')))
    def counter(self):
        """functions with state, that are called by later inputs"""
        r = self.r
        self.k += 1
        c, f = 'cnt%d' % self.k, 'fun%d' % self.k
        # no other code assigns to them: they never fail, as the host may call them from outside of a running program
        self.g.declare(c, 'int', const=True)
        self.g.declare(f, ('fn', 1, 'int'), const=True)
        self.vars.append(c)
        self.calls.append(f)
        k = r.randrange(3)
        if k == 0: return [LET(c, INT(r.randrange(9))), FNLET(f, FN(['p'], BLOCK(ASSIGN(c, BIN('+', VAR(c), VAR('p'))), RET(VAR(c)))), const=True)]
        if k == 1: return [LET(c, INT(0)), LET(f, CALL(FN([], BLOCK(LET('s', INT(r.randrange(9))), RET(FN(['p'], BLOCK(ASSIGN('s', BIN('+', VAR('s'), VAR('p'))), ASSIGN(c, BIN('+', VAR(c), INT(1))), RET(VAR('s')))))))), const=True)]
        return [LET(c, INT(5)), FNLET(f, FN(['p'], BLOCK(IF(BIN('<=', VAR('p'), INT(0)), BLOCK(RET(VAR(c)))), RET(BIN('+', INT(1), CALL(VAR(f), BIN('-', VAR('p'), INT(1))))))), const=True)]
    def inputs(self, n):
        r = self.r
        g = self.g
        out = [('h', [LET('g0', INT(42))])]
        for _ in range(n):
            if self.calls and r.random() < .25:
                for _ in range(r.choice([1, 1, 2])): out.append(('c', (r.choice(self.calls), [r.randrange(7) for _ in range(1 if r.random() < .9 else 2)])))
                continue
            if r.random() < .08:
                out.append(('g', (r.choice(['g0'] + self.vars), r.randrange(50))))
                continue
            kind = r.choice('rrrrrrRxX')
            x = r.random()
            if kind in 'xX': g.scopes.append({})
            if x < .12: out.append(('bad', r.choice(BAD_TEXT)))
            elif x < .24:
                bad = self.illegal(); bad.h = 'illegal'
                # nothing of it is run
                st = [ECHO(STR('never'))] * r.randrange(2) + [ASSIGN('g0', INT(99))] * r.randrange(2)
                st.insert(r.randrange(len(st) + 1), bad)
                out.append((kind, st))
            elif x < .4:
                st = self.stmts(r.randrange(3))
                st.insert(r.randrange(len(st) + 1), self.failing())
                out.append((kind, st))
            elif x < .5 and kind in 'rR': out.append((kind, self.counter()))
            elif x < .6: out.append((kind, self.dump()))
            else:
                st = self.stmts(r.choice([1, 1, 2, 3]))
                if r.random() < .5: st.append(EXPR(g.expr(r.choice(['int', 'str', 'bool', 'float', 'undef', ('list', 'int'), ('table', 'str', 'int'), ('set', 'int')]), 2)))
                out.append((kind, st))
            if kind in 'xX': g.scopes.pop()
        out.append(('r', self.dump() + [EXPR(VAR('g0'))]))
        return out

def tool_case(rng):
    """lines to the interactive tool"""
    s = Session(rng)
    ins = []
    for k, st in s.inputs(rng.choice([3, 6, 10])):
        if k == 'bad': ins.append((k, st.replace('\n', ' ') + '\n'))
        elif k == 'c': ins.append(('r', [ECHO(CALL(VAR(st[0]), *[INT(i) for i in st[1]]))]))
        elif k == 'g': ins.append(('r', [ASSIGN(st[0], INT(st[1]))]))
        elif k == 'h': ins += [(k, st), ('r', [LET('g0', INT(42))])]; ins.remove((k, st))
        elif k in 'rR': ins.append(('r', st))
    root, _ = session(ins)
    root.i = 1
    src = ''
    for (k, st), nd in zip(ins, root.c):
        t = st if k == 'bad' else render(nd)
        src += t.replace('{\n', '{ ').replace('}\n', '}; ').replace('\n', ' ') + '\n'
    return Case(root, src=src + 'quit();\n', mode='i', note='lines to the interactive tool')

def session_case(rng, sizes=(3, 5, 8, 12)):
    s = Session(rng)
    ins = s.inputs(rng.choice(sizes))
    root, src = session(ins)
    rejected = any(k == 'bad' for k, st in ins)      # what is left of their text is not released
    return Case(root, src=src, mode='r' if rejected else 'R', note='inputs to one state')
