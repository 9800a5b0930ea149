"""Functions of the host: scripts of calls of the API (harness/prog.c, mode h), and programs that call them."""
import zlib
from core import *
from yast import *
import gen

def cmd(o, i=0, s=''): return dict(o=o, i=i, s=s)
def globals_(): 
    out = []
    for g in ('g0', 'g1'):
        l = LET(g, UNDEF()); l.fmt = 'hidden'
        out.append(l)
    return out

def host_case(funs, stmts, note, style=None):
    """funs: list of (arity, commands)"""
    root = FILE(*globals_(), *stmts)
    if zlib.crc32(repr(render(root, Style(semis=True))).encode()) % 1000 < 1000 * Case.LIT: root = host_strs(root)
    text = render(root, style or PLAIN)
    head = '%d\n' % len(funs)
    for a, cs in funs:
        head += '%d %d\n' % (a, len(cs)) + ''.join('%s %d %s\n' % (c['o'], c['i'], c['s']) for c in cs)
    return Case(root, src=head + text, mode='h', note=note, extra=dict(host={'h%d' % i: dict(n=a, c=cs) for i, (a, cs) in enumerate(funs)}))

BIGS = [1 << 40, -(1 << 40), (1 << 63) - 1, -(1 << 63), 4294967296, 3000000000]
STRS = ['', 'a', 'ab', 'hello', '0', '12', 'a b c', 'x' * 40, "it's", 'true', '%d %s', 'long ' * 12]
KEYS = ['a', 'b', 'c', 'k1']

class Script:
    """commands, with an idea of what is on the stack: kinds of values, '?' where it is not known"""
    def __init__(self, r, nfun, stack, nargs=None, calls=.1, fail=.01, callees=()):
        self.r = r; self.nfun = nfun; self.st = list(stack); self.out = []; self.calls = calls; self.fail = fail; self.callees = callees
    def add(self, o, i=0, s=''): self.out.append(cmd(o, i, s))
    def push(self, k=None):
        r = self.r
        k = k or r.choice(['undef', 'int', 'int', 'float', 'bool', 'str', 'str', 'list', 'table', 'cfn', 'ptr', 'obj'])
        if k == 'undef': self.add('undef')
        elif k == 'int':
            if r.random() < .15: self.add('int', 0, str(r.choice(BIGS)))
            else: self.add('int', r.choice([0, 1, -1, 2, 3, 7, -12, 1000, 65536]))
        elif k == 'float':
            if r.random() < .15: self.add('float', 0, r.choice(['inf', '-inf', 'inf', '-inf', 'nan']))
            else: self.add('float', r.choice([32, 64, 96, -64, 160, 640, -16, 6401]))
        elif k == 'bool': self.add('bool', r.randrange(2))
        elif k == 'str':
            s = r.choice(STRS)
            y = r.randrange(3)
            if y == 2: self.add('lstr', r.randrange(len(s) + 1), s)
            else: self.add(['lit', 'zstr'][y], 0, s)
        elif k in ('list', 'table', 'obj'): self.add(k)
        elif k == 'cfn': self.add('cfn', r.choice(self.callees or [0]))
        elif k == 'ptr': self.add('ptr', r.choice([0, 1, 8, 4096]))
        self.st.append(k)
    def key(self):
        r = self.r
        y = r.random()
        if y < .6: self.add('lit', 0, r.choice(KEYS)); self.st.append('str')
        elif y < .8: self.add('int', r.randrange(4)); self.st.append('int')
        elif y < .85: self.push('bool')
        elif y < .9: self.add('float', r.choice([32, 96])); self.st.append('float')
        elif y < .95: self.push('list')
        else: self.push()
    def find(self, ks):
        """is a value of these kinds on top? otherwise push one"""
        if not self.st or self.st[-1] not in ks: self.push(self.r.choice(ks))
    def step(self):
        r = self.r
        st = self.st
        x = r.random()
        if x < self.fail:
            o = r.choice(['throw', 'chkint', 'chkfloat', 'chkbool', 'chkundef', 'chkobj'])
            self.add(o, 7 if o == 'throw' else r.randrange(max(1, len(st))))
            return
        if x < self.fail + self.calls: return self.call()
        o = r.choice(['push'] * 9 + ['pop', 'pop', 'dup', 'dup', 'is', 'is', 'isn', 'isn', 'peek', 'peek', 'peek', 'peekn', 'peekn', 'popint', 'popbool', 'popfloat', 'popcstr', 'popptr',
                                     'len', 'listget', 'listget', 'listpush', 'listpush', 'build', 'build', 'tableset', 'tableset', 'entries', 'load', 'set', 'regmt', 'loadmt', 'setmt', 'id', 'vargs', 'chk', 'say'])
        n = len(st)
        if o == 'push': self.push()
        elif o == 'pop':
            self.add('pop')
            if st: st.pop()
        elif o == 'dup':
            if not st: self.push()
            self.add('dup'); st.append(st[-1])
        elif o in ('is', 'peek'): self.add(o)
        elif o in ('isn', 'peekn'): self.add(o, r.randrange(n) if n and r.random() < .95 else n + r.randrange(2))
        elif o in ('popint', 'popbool', 'popfloat', 'popcstr', 'popptr'):
            k = {'popcstr': 'str'}.get(o, o[3:])
            if r.random() < .6: self.find([k])
            elif not st: return
            self.add(o)
            if st[-1] == k or o == 'popcstr': st.pop()
        elif o == 'len':
            if r.random() < .9 or st and st[-1] in ('obj', 'ptr', 'int', 'undef', 'bool', 'float', 'cfn'): self.find(['str', 'list', 'table'])
            if not st: return
            self.add('len'); st[-1] = 'int'
        elif o == 'listget':
            if r.random() < .85: self.find(['list'])
            if not st: return
            if st[-1] in ('list', '?'):
                self.add('int', 1); self.add('listpush')
                if r.random() < .5: self.push(); self.add('listpush'); st.pop()
                self.add('listget', r.choice([0, 0, -1]))
                st.append('?')
            else: self.add('listget', 0)
        elif o == 'listpush':
            if not st or r.random() < .7: self.find(['list'])
            self.push()
            if st[-2] not in ('list', '?') and r.random() < .7: return
            self.add('listpush'); st.pop()
        elif o == 'build':
            if r.random() < .5:
                self.find(['list'])
                for _ in range(r.randrange(1, 5)): self.push(); self.add('listpush'); st.pop()
                if r.random() < .5: self.add('listget', r.choice([0, -1])); st.append('?')
            else:
                self.find(['table'])
                for _ in range(r.randrange(1, 5)):
                    self.key()
                    if st[-1] == 'list' or st[-1] == 'table': st[-1] = '?'
                    self.push(r.choice(['int', 'str', 'list', 'obj', 'bool', 'float'])); self.add('tableset'); del st[-2:]
                self.add('entries')
        elif o == 'tableset':
            if not st or r.random() < .8: self.find(['table'])
            self.key(); self.push(r.choice(['int', 'str', 'list', 'obj']))
            self.add('tableset'); del st[-2:]
        elif o == 'entries':
            if r.random() < .8: self.find(['table'])
            self.add('entries')
        elif o == 'load':
            nm = r.choice(['g0', 'g1', 'g0', 'g1', 'nope', 'h%d' % r.choice(self.callees or [0])])
            self.add('load', 0, nm)
            if nm != 'nope': st.append('cfn' if nm[0] == 'h' else '?')
        elif o == 'set':
            nm = r.choice(['g0', 'g1', 'g0', 'g1', 'nope'])
            if not st: self.push()
            self.add('set', 0, nm)
            if nm != 'nope': st.pop()
        elif o == 'regmt':
            if r.random() < .8 and (not st or st[-1] != 'table'): self.push('table')
            if r.random() < .7 and st and st[-1] == 'table':
                self.add('lit', 0, r.choice(['a', '__len', 'b'])); self.add(*r.choice([('int', 5), ('cfn', r.choice(self.callees or [0]))] if self.callees else [('int', 5)])); self.add('tableset')
            self.add('regmt', 0, r.choice(['m1', 'm2']))
            if st and st[-1] == 'table': st.pop()
        elif o == 'loadmt':
            self.add('loadmt', 0, r.choice(['m1', 'm2', 'm3'])); st.append('?'); self.add('is')
        elif o == 'setmt':
            self.find(['obj', 'list', 'table'])
            if r.random() < .5: self.add('loadmt', 0, r.choice(['m1', 'm2'])); st.append('?')
            else: self.push('table')
            self.add('setmt'); st.pop()
        elif o == 'id':
            self.find(['obj']); self.add('id')
        elif o == 'vargs': self.add('vargs')
        elif o == 'chk':
            i = r.randrange(n) if n else 0
            k = st[i] if n else '?'
            if k in ('int', 'float', 'bool', 'undef', 'obj'): self.add('chk' + k, i)
        elif o == 'say': self.add('say', 0, r.choice(['.', 'here', 'then']))
    def call(self):
        r = self.r
        if self.callees and r.random() < .8: self.add('cfn', r.choice(self.callees)); self.st.append('cfn')
        elif r.random() < .1: self.push()
        else: return
        if self.st[-1] != 'cfn' and r.random() < .9: return
        n = r.choice([0, 1, 2, 3])
        for _ in range(n): self.push()
        self.add('call', n)
        del self.st[-n - 1:]
        self.st.append('?')
    def finish(self):
        n = self.r.choice([0, 1, 1, 1, 2, 3])
        while len(self.st) < n: self.push()
        if n: self.add('ret', n)

ARGS = ['undef', 'int', 'float', 'bool', 'str', 'list', 'table', 'fn']
def arg(r, k):
    if k == 'undef': return UNDEF()
    if k == 'int': return INT(r.choice([0, 1, -3, 12, 1 << 40]))
    if k == 'float': return FLT(r.choice([96, -32, 6400]))
    if k == 'bool': return BOOL(r.random() < .5)
    if k == 'str': return STR(r.choice(['', 'a', 'xyz', '12']))
    if k == 'list': return LIST(*[INT(i) for i in range(r.randrange(3))])
    if k == 'table': return TABLE(*[x for i in range(r.randrange(3)) for x in (STR(KEYS[i]), INT(i))])
    if k == 'fn': return FN(['x'], BLOCK(RET(VAR('x'))))

def stack_case(r):
    """long sequences of calls of the API"""
    nf = r.choice([1, 2, 3])
    funs, st = [], []
    for i in range(nf):
        a = r.choice([0, 0, 1, 2, 3, -1, -1, -2, -3])
        kinds = [r.choice(ARGS) for _ in range(r.randrange(4))]
        if a >= 0: stack = (kinds + ['undef'] * a)[:a]
        else: stack = (kinds + ['undef'] * (~a))[:~a] + ['int'] + kinds[~a:]
        s = Script(r, nf, stack, calls=.05 if i else 0, callees=range(i))
        for _ in range(r.choice([6, 12, 25, 40])): s.step()
        s.finish()
        funs.append((a, s.out))
        for t in range(2):
            ks = kinds if t == 0 else [r.choice(ARGS) for _ in range(r.randrange(5))]
            e = CALL(LIB('h%d' % i), *[arg(r, k) for k in ks])
            st.append(r.choice([ECHO(LIST(e)), ECHO(UN('len', LIST(e))), EXPR(e), LET('x%d%d' % (i, t), e)]))
            if r.random() < .5: st.append(ECHO(r.choice([VAR('g0'), VAR('g1')])))
            if t == 0 and r.random() < .3: break
    return host_case(funs, st, 'calls of the API')

def pairs_case(r):
    """every call of the API on every kind of value"""
    ks = ['undef', 'int', 'float', 'bool', 'str', 'list', 'table', 'cfn', 'ptr', 'obj']
    s = Script(r, 1, [])
    for k in r.sample(ks, 5):
        for o in r.sample(['is', 'peek', 'popint', 'popbool', 'popfloat', 'popcstr', 'popptr', 'listget', 'entries', 'id', 'dup', 'listpush', 'tableset', 'isn', 'peekn'], 6):
            s.push(); below = len(s.st) - 1
            if o == 'listpush': s.push(k)
            if o == 'tableset': s.key(); s.push('int')
            s.push(k)
            if o == 'listpush' and r.random() < .5: s.add('dup'); s.add('pop')
            if o == 'listget': s.add('is')
            s.add(o, below + 1 if o in ('isn', 'peekn') else 0)
            s.add('is'); s.add('pop'); s.add('is')
            s.st = s.st[:below]
            s.add('isn', 0)
    s.add('ret', 0)
    return host_case([(0, s.out)], [EXPR(CALL(LIB('h0'))), ECHO(STR('end'))], 'calls of the API on values of each type')

# ---------------------------------------------------------------------------------------------------------------
# what passes between the program and the host
class Talk:
    """host functions with a purpose, and a program that uses them"""
    def __init__(self, r):
        self.r = r; self.funs = []; self.use = []; self.n = 0; self.depth = 0
    def add(self, arity, cs, use):
        """use: (number of results if it is certain, what the arguments have to be: kinds, or 'any')"""
        self.funs.append((arity, cs)); self.use.append(use)
        return len(self.funs) - 1
    def show(self, n):
        """print the arguments"""
        out = []
        for i in range(n): out += [cmd('isn', i), cmd('peekn', i)]
        return out
    def make(self):
        r = self.r
        for _ in range(r.choice([2, 3, 4, 5])):
            k = r.choice(['echo', 'echo', 'fixed', 'fixed', 'var', 'var', 'back', 'back', 'back', 'multi', 'multi', 'glob', 'keep', 'fail', 'objs', 'chk', 'twice', 'apply'])
            me = len(self.funs)
            if me >= 12: return
            if k == 'echo':            # gives its arguments back
                a = r.randrange(4)
                self.add(a, self.show(a) + [cmd('ret', a)], ('any', a))
            elif k == 'fixed':
                a = r.randrange(5)
                cs = self.show(a)
                res = r.choice([0, 1, 1, 2, 3])
                for i in range(res): cs.append(r.choice([cmd('int', 10 + i), cmd('lit', 0, 'r%d' % i), cmd('undef'), cmd('bool', 1), cmd('list'), cmd('float', 96)]))
                self.add(a, cs + ([cmd('ret', res)] if res or r.random() < .3 else []), ('any', a))
            elif k == 'var':
                f = r.choice([0, 0, 1, 2])
                cs = [cmd('vargs')]
                for i in range(f + 4): cs += [cmd('isn', i), cmd('peekn', i)]
                x = r.random()
                if x < .5: cs += [cmd('ret', r.randrange(1, 4))]
                elif x < .8: cs += [cmd('vargs'), cmd('list'), cmd('int', 7), cmd('listpush'), cmd('ret', 1)]
                self.add(-1 - f, cs, ('any', f + 2))
            elif k == 'back':          # (f, a, b): calls f, perhaps with something below it, and looks at the results
                n = r.randrange(3)
                cs = [cmd('say', 0, 'calling')] if r.random() < .3 else []
                cs += [cmd('pop')] * (2 - n)
                x = r.random()
                if x < .4: cs += [cmd('call', n), cmd('is'), cmd('ret', r.choice([0, 1, 1]))]
                else:          # the function is at the bottom of the stack: call it again by way of a global
                    cs += [cmd('call', n), cmd('is'), cmd('peek')]
                    if x < .7: cs += [cmd('load', 0, 'g1')] + [cmd('int', 5 + i) for i in range(n)] + [cmd('is'), cmd('call', n) if x < .5 else cmd('is'), cmd('peek')]
                    cs += [cmd('ret', r.choice([1, 1, 2]))]
                self.add(3, cs, ('fn', 3))
            elif k == 'multi':
                cs = []
                for i in range(r.choice([2, 3, 4])): cs.append(r.choice([cmd('int', i), cmd('lit', 0, 'm%d' % i), cmd('undef')]))
                self.add(0, cs + [cmd('ret', r.randrange(len(cs) + 1))], ('any', 0))
            elif k == 'glob':
                g = r.choice(['g0', 'g1'])
                cs = r.choice([[cmd('load', 0, g), cmd('is'), cmd('ret', 1)], [cmd('set', 0, g), cmd('load', 0, g), cmd('peek')],
                               [cmd('load', 0, 'g0'), cmd('load', 0, 'g1'), cmd('set', 0, 'g0'), cmd('set', 0, 'g1')],
                               [cmd('load', 0, g), cmd('dup'), cmd('is'), cmd('set', 0, 'nope'), cmd('ret', 1)]])
                self.add(1, cs, ('any', 1))
            elif k == 'keep':          # keeps its argument in a list or table
                cs = r.choice([[cmd('list'), cmd('int', 1), cmd('listpush'), cmd('set', 0, 'g0'), cmd('ret', 0)],
                               [cmd('load', 0, 'g0'), cmd('is'), cmd('ret', 1)],
                               [cmd('table'), cmd('lit', 0, 'k'), cmd('int', 4), cmd('tableset'), cmd('entries'), cmd('ret', 1)]])
                self.add(1, cs, ('any', 1))
            elif k == 'fail':
                self.add(1, self.show(1) + [cmd('throw', 7)], ('fail', 1))
            elif k == 'chk':
                t = r.choice(['int', 'float', 'bool', 'undef'])
                self.add(2, [cmd('chk' + t, r.randrange(2)), cmd('ret', r.randrange(3))], (t, 2))
            elif k == 'objs':
                cs = r.choice([[cmd('obj'), cmd('ret', 1)], [cmd('obj'), cmd('id'), cmd('pop'), cmd('ret', 1)], [cmd('obj'), cmd('set', 0, 'g1')],
                               [cmd('obj'), cmd('loadmt', 0, 'm1'), cmd('setmt'), cmd('ret', 1)],
                               [cmd('table'), cmd('lit', 0, r.choice(['__add', '__len', 'm', '__lt', '__eq'])), cmd('cfn', r.randrange(max(1, me))), cmd('tableset'), cmd('regmt', 0, 'm1')]])
                self.add(0, cs, ('any', 0))
            elif k == 'twice':         # (f): calls f twice, results of the first under those of the second
                cs = [cmd('dup'), cmd('call', 0), cmd('is')]
                self.add(1, cs + [cmd('ret', r.choice([1, 2]))], ('fn', 1))
            elif k == 'apply' and me:         # calls another function of the host with its own arguments
                n = r.randrange(4)
                cs = [cmd('cfn', r.randrange(me))] + [r.choice([cmd('int', i), cmd('lit', 0, 'z'), cmd('float', 32), cmd('undef'), cmd('list')]) for i in range(n)] + [cmd('call', n), cmd('is'), cmd('ret', r.choice([0, 1, 1]))]
                self.add(0, cs, ('any', 0))
    def val(self, d=2):
        r = self.r
        x = r.random()
        if d > 0 and x < .25: return self.call(d - 1)
        if x < .4: return VAR(r.choice(['g0', 'g1']))
        if x < .55 and self.vars: return VAR(r.choice(self.vars))
        return arg(r, r.choice(['undef', 'int', 'int', 'float', 'bool', 'str', 'str', 'list', 'table']))
    def fn(self, d=2):
        r = self.r
        ps = ['p', 'q', 's'][:r.randrange(4)]
        st = []
        sv, self.vars = self.vars, self.vars + ps
        for _ in range(r.choice([0, 0, 1, 1, 2])): st.append(self.stmt(d - 1, True))
        x = r.random()
        if x < .3: st.append(RET(self.val(d - 1)))
        elif x < .45: st.append(RET(self.val(d - 1), self.val(d - 1)))
        elif x < .55: st.append(RET(self.call(d - 1)))
        elif x < .6: st.append(ASSERT(BOOL(False)))
        elif x < .75 and ps: st.append(RET(LIST(*[VAR(p) for p in ps])))
        self.vars = sv
        return FN(ps, BLOCK(*st))
    def call(self, d=2):
        r = self.r
        i = r.randrange(len(self.funs))
        if self.use[i][0] == 'fail' and r.random() < .8: i = r.randrange(len(self.funs))
        k, n = self.use[i]
        if r.random() < .3: n = max(0, n + r.choice([-1, 1, 2]))
        args = []
        for j in range(n):
            if j == 0 and k == 'fn' and d >= 0:
                args.append(self.fn(d) if r.random() < .7 or not self.fns else VAR(r.choice(self.fns)) if r.random() < .8 else LIB('h%d' % r.randrange(len(self.funs))))
            elif k in ('int', 'float', 'bool', 'undef') and r.random() < .9: args.append(arg(r, k))
            else: args.append(self.val(d - 1))
        return CALL(LIB('h%d' % i), *args)
    def name(self):
        self.n += 1
        return 'x%d' % self.n
    def stmt(self, d=2, inner=False):
        r = self.r
        x = r.randrange(14)
        if x < 3: return ECHO(LIST(self.call(d)))
        if x == 3: return EXPR(self.call(d))
        if x == 4: return ECHO(UN('len', LIST(self.call(d))))
        if x == 5: return ASSIGN(r.choice(['g0', 'g1']), self.val(d))
        if x == 6: return ASSIGN('g1', self.fn(d))
        if x == 7: return ECHO(VAR(r.choice(['g0', 'g1'])))
        if x in (8, 9) and not inner:
            v = self.name()
            l = LET(v, self.call(d)); self.vars.append(v)
            return l
        if x == 10 and not inner:
            v, w = self.name(), self.name()
            m = MASGN([LETV(v), LETV(w)], [self.call(d)]); self.vars += [v, w]
            return m
        if x == 11 and not inner:
            v = self.name()
            l = LET(v, self.fn(d)); self.fns.append(v)
            return l
        if x == 12: return ECHO(LIST(self.val(d), self.call(d)))
        if x == 13: return ECHO(LIST(self.call(d), self.val(d)))
        return EXPR(CALL(self.fn(d), self.val(d), self.call(d)))
    def program(self):
        r = self.r
        self.make()
        if not self.funs: self.add(1, [cmd('ret', 1)], ('any', 1))
        self.vars = []; self.fns = []
        st = [self.stmt() for _ in range(r.choice([3, 5, 8]))]
        if r.random() < .15:     # functions of the host as methods, in tables, in loops
            i = r.randrange(len(self.funs))
            st.append(LET('tt', TABLE(STR('m'), LIB('h%d' % i), STR('v'), INT(3))))
            st.append(ECHO(LIST(r.choice([CALL(GET(VAR('tt'), STR('m')), INT(1), INT(2)), MCALL(VAR('tt'), 'm', INT(8)), MCALL(VAR('tt'), 'm')]))))
            st.append(ECHO(LCOMP(CALL(LIB('h%d' % i), VAR('e')), 'e', LIST(INT(1), STR('b')))))
        return st

def talk_case(r):
    t = Talk(r)
    st = t.program()
    return host_case(t.funs, st, 'functions, globals and callbacks of the host')

def count_cases(r):
    """every declared number of arguments with every actual one, and every number of results in every context"""
    out = []
    for a in (0, 1, 2, 3, 4, -1, -2, -3):
        n = a if a >= 0 else ~a + 1 + 4
        cs = ([cmd('vargs')] if a < 0 else []) + [c for i in range(n) for c in (cmd('isn', i), cmd('peekn', i))]
        st = []
        for k in range(6):
            args = [INT(i + 1) for i in range(k)]
            if k and r.random() < .5: args[-1] = r.choice([lambda: LIB('h1'), lambda: STR('last'), lambda: FLT(96)])()
            st.append(EXPR(CALL(LIB('h0'), *args)))
            st.append(EXPR(CALL(LIB('h0'), *(args[:1] + [CALL(LIB('h1'))]))))
        out.append(host_case([(a, cs), (0, [cmd('int', 21), cmd('lit', 0, 'z'), cmd('ret', 2)])], st, 'numbers of arguments'))
    for res in range(5):
        cs = [cmd('undef')] * r.randrange(3) + [cmd('int', 31 + i) for i in range(res)] + [cmd('ret', res)]
        call = lambda: CALL(LIB('h0'))
        st = [ECHO(call()), ECHO(LIST(call())), ECHO(LIST(call(), INT(1))), ECHO(LIST(INT(1), call())), EXPR(call()), LET('a', call()), ECHO(VAR('a')),
              MASGN([LETV('b'), LETV('c'), LETV('d')], [call()]), ECHO(LIST(VAR('b'), VAR('c'), VAR('d'))), MASGN([LETV('e'), LETV('f')], [INT(0), call()]),
              ECHO(LIST(VAR('e'), VAR('f'))), ECHO(UN('len', LIST(call(), call()))), ECHO(CALL(LIB('collections.list'), call())),
              FNLET('g', FN([], BLOCK(RET(call())))), ECHO(LIST(CALL(VAR('g')))), FNLET('k', FN([], BLOCK(RET(INT(2), call())))), ECHO(LIST(CALL(VAR('k')))),
              ECHO(NN(call(), STR('none'))), ECHO(TERN(call(), INT(1), INT(2))), EXPR(CALL(LIB('h1'), call())), ECHO(LIST(MCALL(TABLE(STR('m'), LIB('h0')), 'm')))]
        out.append(host_case([(0, cs), (3, [c for i in range(3) for c in (cmd('isn', i), cmd('peekn', i))])], st, 'numbers of results'))
    return out
