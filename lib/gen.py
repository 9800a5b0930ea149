"""Random well-typed (mostly) programs."""
import random
from yast import *

INT_OPS = ['+', '-', '*', '//', '%', '&', '|', '^', '&^', '<<', '>>']
CMP = ['<', '<=', '>', '>=', '==', '!=']
STRS = ['', 'a', 'b', 'ab', 'aa', 'aba', 'hello', 'x y', 'A', 'Zz', '0', '12', '-3', '1.5', ' pad ', 'a,b,,c', 'yasl', 'true', 'aaa', 'tail']
NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'n', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z']

class Var:
    __slots__ = ('name', 'ty', 'const', 'ctr', 'frozen', 'depth')
    def __init__(self, name, ty, const=False, ctr=False):
        self.name = name; self.ty = ty; self.const = const; self.ctr = ctr; self.frozen = 0; self.depth = 0

def is_list(t): return isinstance(t, tuple) and t[0] == 'list'
def is_table(t): return isinstance(t, tuple) and t[0] == 'table'
def is_set(t): return isinstance(t, tuple) and t[0] == 'set'
def is_fn(t): return isinstance(t, tuple) and t[0] == 'fn'

class Gen:
    def __init__(self, rng, **cfg):
        self.r = rng
        self.scopes = [{}]
        self.fn_depth = 0; self.loop = 0; self.pure = 0
        self.fnret = []
        self.nstmt = 0
        self.names = NAMES[:cfg.get('names', 14)]
        self.wild = cfg.get('wild', rng.choice([0, 0, 0.004, 0.02]))
        self.sw = dict(let=5, assign=4, aug=3, echo=6, setst=2, augset=1.5, masgn=1.5, if_=2.5, while_=1.2, forc=1, forin=2, match=1.5, fnlet=2,
                       expr=2, brk=2, ret=2, assert_=0.3, block=0.5)
        self.sw.update(cfg.get('sw', {}))
        self.ew = cfg.get('ew', {})
        self.types = cfg.get('types', ['int', 'int', 'int', 'str', 'str', 'bool', 'float', 'list', 'list', 'table', 'set', 'fn', 'undef'])
        self.maxstmt = cfg.get('maxstmt', 22)
        self.probe = cfg.get('probe', 0)
        self.depth = cfg.get('depth', 3)
        self.multi = cfg.get('multi', 0.1)
        self.unused = 0
        self.intlit = cfg.get('intlit')
        self.nocomp = cfg.get('nocomp', False)

    # -- scopes
    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s: return s[name]
    def visible(self):
        seen = {}
        for s in reversed(self.scopes):
            for n, v in s.items():
                if n not in seen: seen[n] = v
        return list(seen.values())
    def fresh(self, anywhere=False):
        cur = self.scopes[-1]
        c = [n for n in self.names if n not in cur and (not anywhere or not self.lookup(n))]
        if c: return self.r.choice(c)
        self.unused += 1
        return 'v%d' % self.unused
    def declare(self, name, ty, const=False, ctr=False):
        v = Var(name, ty, const, ctr); self.scopes[-1][name] = v
        v.depth = self.fn_depth
        return v
    def vars(self, pred):
        return [v for v in self.visible() if pred(v)]
    def pick(self, d):
        items = [(k, w) for k, w in d.items() if w > 0]
        x = self.r.random() * sum(w for _, w in items)
        for k, w in items:
            x -= w
            if x <= 0: return k
        return items[-1][0]
    def flip(self, p): return self.r.random() < p

    # -- types
    def rand_ty(self, d=2):
        t = self.r.choice(self.types)
        if t == 'list': return ('list', self.rand_ty(d - 1) if d > 0 else 'int')
        if t == 'table': return ('table', self.r.choice(['str', 'int']), self.rand_ty(d - 1) if d > 0 else 'int')
        if t == 'set': return ('set', self.r.choice(['int', 'str']))
        if t == 'fn': return ('fn', self.r.randrange(0, 3), self.r.choice(['int', 'int', 'str', 'bool']))
        return t

    # -- expressions
    def expr(self, ty, d=None):
        if d is None: d = self.depth
        if self.wild and self.flip(self.wild): ty = self.rand_ty(1)
        e = self.expr0(ty, d)
        e.h = ty
        if self.probe and ty in ('int', 'str', 'bool', 'float') and self.flip(self.probe):
            return CALL(VAR('p'), e)
        return e
    def expr0(self, ty, d):
        vs = self.vars(lambda v: v.ty == ty)
        if d <= 0 or self.flip(0.22):
            if vs and self.flip(0.72): return VAR(self.r.choice(vs).name)
            return self.literal(ty, d)
        if self.flip(0.06): return TERN(self.cond(d - 1), self.expr(ty, d - 1), self.expr(ty, d - 1))
        if self.flip(0.04): return NN(self.r.choice([UNDEF(), self.expr(ty, d - 1)]), self.expr(ty, d - 1))
        if self.flip(0.03): return (AND if self.flip(.5) else OR)(self.expr(self.r.choice([ty, 'bool', 'int']), d - 1), self.expr(ty, d - 1))
        if self.flip(0.12) and not self.pure:
            fs = self.vars(lambda v: is_fn(v.ty) and v.ty[2] == ty)
            if fs:
                f = self.r.choice(fs)
                return self.call(VAR(f.name), f.ty, d - 1)
        if self.flip(0.06):
            ls = self.vars(lambda v: is_list(v.ty) and v.ty[1] == ty)
            if ls: return GET(VAR(self.r.choice(ls).name), INT(self.r.choice([0, 0, 0, -1, -1, 1])))
            if self.flip(.5):
                n = self.r.randrange(1, 4)
                return GET(LIST(*[self.expr(ty, d - 2) for _ in range(n)]), INT(self.r.randrange(-n, n)))
        if self.flip(0.05):
            ts = self.vars(lambda v: is_table(v.ty) and v.ty[2] == ty)
            if ts:
                t = self.r.choice(ts)
                return NN(GET(VAR(t.name), self.key(t.ty[1], d - 1)), self.expr(ty, d - 1))
        if ty == 'int': return self.int_expr(d)
        if ty == 'float': return self.float_expr(d)
        if ty == 'bool': return self.bool_expr(d)
        if ty == 'str': return self.str_expr(d)
        if is_list(ty): return self.list_expr(ty, d)
        if is_table(ty): return self.table_expr(ty, d)
        if is_set(ty): return self.set_expr(ty, d)
        if is_fn(ty): return self.lambda_(ty, d)
        return self.literal(ty, d)
    def call(self, f, ty, d):
        n = ty[1]
        x = self.r.random()
        if x < 0.07 and n > 0: n -= 1
        elif x < 0.14: n += 1
        args = [self.expr('int', d) for _ in range(n)]
        if self.flip(self.multi) and args:
            ms = self.vars(lambda v: is_list(v.ty) and v.ty[1] == 'int')
            if ms: args[-1] = MCALL(VAR(self.r.choice(ms).name), 'spread')
        return CALL(f, *args)
    def key(self, kt, d):
        if kt == 'str': return STR(self.r.choice(['a', 'b', 'c', 'k', ''])) if self.flip(.7) else self.expr('str', d)
        return INT(self.r.randrange(-1, 4)) if self.flip(.7) else self.expr('int', d)
    def cond(self, d):
        if self.flip(.15): return self.expr(self.rand_ty(1), d)
        return self.expr('bool', d)
    def literal(self, ty, d=0):
        r = self.r
        if ty == 'int':
            if self.intlit: return INT(self.intlit())
            return INT(r.choice([0, 1, 2, 3, 5, 7, 10, 12, 64, 100, 255, -1, -2, -7]))
        if ty == 'float': return FLT(r.choice([0, 16, 32, 64, 96, 128, 160, 640, 6400, -32, -64, -224])) if r.random() < .98 else r.choice([NAN(), INF()])
        if ty == 'bool': return BOOL(r.random() < .5)
        if ty == 'str': return STR(r.choice(STRS))
        if ty == 'undef': return UNDEF()
        if is_list(ty): return LIST(*[self.expr(ty[1], d - 1) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))])
        if is_table(ty):
            kv = []
            for _ in range(r.choice([0, 1, 2, 2, 3])): kv += [self.key(ty[1], -1), self.expr(ty[2], d - 1)]
            return TABLE(*kv)
        if is_set(ty): return CALL(LIB('collections.set'), *[self.expr(ty[1], 0) for _ in range(r.choice([0, 1, 2, 3]))])
        if is_fn(ty): return self.lambda_(ty, d)
        return UNDEF()
    def int_expr(self, d):
        k = self.pick(dict(arith=8, un=1.5, len=1.5, toint=1, count=.8, math=.6, pop=.8 if not self.pure else 0, **self.ew.get('int', {})))
        e = lambda: self.expr('int', d - 1)
        if k == 'arith':
            op = self.r.choice(INT_OPS + ['+', '-', '+', '*'])
            if op in ('//', '%'): return BIN(op, e(), INT(self.r.choice([1, 2, 3, 7, -2, -3])) if self.flip(.9) else e())
            if op in ('<<', '>>'): return BIN(op, BIN('&', e(), INT(255)), INT(self.r.randrange(0, 8)))
            if op == '*': return BIN(op, e(), self.literal('int'))
            return BIN(op, e(), e())
        if k == 'un': return UN(self.r.choice(['-', '^', '+']), e())
        if k == 'len': return UN('len', self.expr(self.r.choice(['str', ('list', 'int'), ('table', 'str', 'int'), ('set', 'int')]), d - 1))
        if k == 'toint': return MCALL(self.expr(self.r.choice(['str', 'float', 'int']), d - 1), 'toint')
        if k == 'count':
            return MCALL(self.expr('str', d - 1), 'count', STR(self.r.choice(['a', 'b', 'aa', ' ']))) if self.flip(.5) else MCALL(self.expr(('list', 'int'), d - 1), 'count', e())
        if k == 'math':
            m = self.r.choice(['abs', 'max', 'min', 'gcd'])
            if m == 'abs': return CALL(LIB('math.abs'), e())
            if m == 'gcd': return NN(CALL(LIB('math.gcd'), e(), e()), INT(0))
            return CALL(LIB('math.' + m), *[e() for _ in range(self.r.randrange(1, 4))])
        if k == 'pop':
            ls = self.vars(lambda v: is_list(v.ty) and v.ty[1] == 'int' and not v.frozen)
            if ls:
                l = self.r.choice(ls).name
                return TERN(BIN('>', UN('len', VAR(l)), INT(0)), MCALL(VAR(l), 'pop'), INT(0))
            return e()
        return e()
    def float_expr(self, d):
        a = self.expr(self.r.choice(['float', 'float', 'int']), d - 1)
        x = self.r.random()
        if x < .2: return BIN('/', a, self.r.choice([INT(1), INT(2), INT(4), FLT(32), FLT(128)]))
        if x < .3: return UN('-', self.expr('float', d - 1))
        if x < .4: return MCALL(self.expr(self.r.choice(['int', 'str', 'float']), d - 1), 'tofloat')
        return BIN(self.r.choice(['+', '-', '*']), self.expr('float', d - 1), a)
    def bool_expr(self, d):
        r = self.r
        k = self.pick(dict(cmp=6, scmp=2, not_=1.5, logic=2.5, eq=1.5, strm=1, setm=.6, tob=.5))
        if k == 'cmp': return BIN(r.choice(CMP), self.expr('int', d - 1), self.expr(r.choice(['int', 'int', 'float']), d - 1))
        if k == 'scmp': return BIN(r.choice(CMP), self.expr('str', d - 1), self.expr('str', d - 1))
        if k == 'not_': return UN('!', self.cond(d - 1))
        if k == 'logic': return (AND if self.flip(.5) else OR)(self.expr('bool', d - 1), self.expr('bool', d - 1))
        if k == 'eq':
            t = self.rand_ty(1)
            if is_fn(t) or t == 'undef': t = 'int'
            return BIN(r.choice(['==', '!=']), self.expr(t, d - 1), self.expr(t if self.flip(.8) else 'int', d - 1))
        if k == 'strm':
            if self.flip(.5): return MCALL(self.expr('str', d - 1), r.choice(['startswith', 'endswith']), self.expr('str', d - 1))
            return MCALL(self.expr('str', d - 1), r.choice(['isal', 'isnum', 'isalnum', 'isspace']))
        if k == 'setm':
            if self.flip(.5): return GET(self.expr(('set', 'int'), d - 1), self.expr('int', d - 1))
            return BIN(r.choice(['<', '<=', '>', '>=', '==']), self.expr(('set', 'int'), d - 1), self.expr(('set', 'int'), d - 1))
        return MCALL(self.expr(r.choice(['str', 'int', 'float', 'bool']), d - 1), 'tobool')
    def str_expr(self, d):
        r = self.r
        s = lambda: self.expr('str', d - 1)
        k = self.pick(dict(cat=6, slice=1.2, case=1, rep=.7, replace=.8, trim=.8, tostr=1.2, join=.8, idx=.5))
        if k == 'cat': return BIN('~', s(), self.expr(r.choice(['str', 'str', 'int', 'float', 'bool', 'undef', ('list', 'int')]), d - 1))
        if k == 'slice': return SLICE(s(), r.choice([None, INT(r.randrange(-3, 4))]), r.choice([None, INT(r.randrange(-3, 4))]))
        if k == 'case': return MCALL(s(), r.choice(['toupper', 'tolower']))
        if k == 'rep': return MCALL(self.literal('str'), 'rep', INT(r.randrange(0, 4)))
        if k == 'replace': return MCALL(s(), 'replace', STR(r.choice(['a', 'b', 'aa', ' '])), STR(r.choice(['', 'x', 'aa'])), *([INT(r.randrange(0, 3))] if self.flip(.3) else []))
        if k == 'trim': return MCALL(s(), r.choice(['trim', 'ltrim', 'rtrim']), *([STR(r.choice(['a', ' ', 'b']))] if self.flip(.5) else []))
        if k == 'tostr': return MCALL(self.expr(r.choice(['int', 'float', 'bool', 'str', ('list', 'int')]), d - 1), 'tostr')
        if k == 'join': return MCALL(self.expr(('list', r.choice(['str', 'int'])), d - 1), 'join', STR(r.choice(['', ', ', '-'])))
        x = self.literal('str')
        return GET(BIN('~', x, STR('a')), INT(r.choice([0, -1])))
    def list_expr(self, ty, d):
        r = self.r
        l = lambda: self.expr(ty, d - 1)
        k = self.pick(dict(lit=3, comp=0 if self.nocomp else 2 if not self.pure else 1, slice=1.2, cat=1.2, copy=.8, split=2 if ty[1] == 'str' else 0, keys=.8 if ty[1] in ('str', 'int') else 0))
        if k == 'comp': return self.comp(ty, d)
        if k == 'slice': return SLICE(l(), r.choice([None, INT(r.randrange(-3, 4))]), r.choice([None, INT(r.randrange(-3, 4))]))
        if k == 'cat': return BIN('+', l(), l())
        if k == 'copy': return MCALL(l(), 'copy')
        if k == 'split': return MCALL(self.expr('str', d - 1), 'split', *([STR(r.choice([',', 'a', ' ']))] if self.flip(.6) else []))
        if k == 'keys':
            if self.flip(.5): return MCALL(self.expr(('table', ty[1], 'int'), d - 1), 'keys')
            return MCALL(self.expr(('set', ty[1]), d - 1), 'tolist')
        return self.literal(ty, d)
    def comp(self, ty, d):
        r = self.r
        ct = r.choice([('list', 'int'), ('list', 'str'), 'str'])
        coll = self.expr(ct, d - 1)
        if self.flip(.3) and ct == ('list', 'int'): coll = LIST(*[INT(i) for i in range(r.randrange(0, 4))])
        self.scopes.append({})
        v = self.fresh()
        self.declare(v, ct[1] if is_list(ct) else 'str')
        cond = self.cond(d - 1) if self.flip(.4) else None
        if is_list(ty): e = LCOMP(self.expr(ty[1], d - 1), v, coll, cond)
        else:
            kt = ct[1] if is_list(ct) else 'str'
            e = TCOMP(VAR(v) if kt == ty[1] else self.expr(ty[1], d - 1), self.expr(ty[2], d - 1), v, coll, cond)
        self.scopes.pop()
        return e
    def table_expr(self, ty, d):
        t = lambda: self.expr(ty, d - 1)
        k = self.pick(dict(lit=4, comp=0 if self.nocomp else 1.5, merge=1.5, copy=1, lib=.5))
        if k == 'comp': return self.comp(ty, d)
        if k == 'merge': return BIN('|', t(), t())
        if k == 'copy': return MCALL(t(), 'copy')
        if k == 'lib':
            e = self.literal(ty, d)
            return CALL(LIB('collections.table'), *e.c) if e.o == 'table' else e
        return self.literal(ty, d)
    def set_expr(self, ty, d):
        s = lambda: self.expr(ty, d - 1)
        k = self.pick(dict(lit=3, op=4, copy=.7, frm=1))
        if k == 'op': return BIN(self.r.choice(['|', '&', '^', '&^']), s(), s())
        if k == 'copy': return MCALL(s(), 'copy')
        if k == 'frm': return CALL(LIB('collections.set'), self.expr(('list', ty[1]), d - 1))
        return self.literal(ty, d)
    def lambda_(self, ty, d):
        return self.function([ty[1]], ty[2], small=True)
    def function(self, nparams, ret, small=False, self_name=None, templ=None):
        n = nparams[0]
        saved = (self.loop, self.pure)
        self.loop = 0
        self.fn_depth += 1
        self.fnret.append(ret)
        self.scopes.append({})
        ps = []
        consts = []
        for i in range(n):
            p = self.fresh(); ps.append(p)
            c = self.flip(.1)
            if c: consts.append(i + 1)
            self.declare(p, 'int', const=c)
        body = []
        k = self.r.choice([0, 0, 1]) if small else self.r.randrange(0, 4)
        if self.fn_depth > 2: k = 0
        if templ: body += templ(ps)
        body += self.stmts(k)
        if self.flip(.92): body.append(RET(self.expr(ret, 1 if small else 2)))
        self.scopes.pop()
        self.fnret.pop()
        self.fn_depth -= 1
        self.loop, self.pure = saved
        return FN(ps, BLOCK(*body), consts)

    # -- statements
    def stmts(self, n):
        out = []
        for _ in range(n):
            if self.nstmt >= self.maxstmt * 3: break
            s = self.stmt()
            if s is None: continue
            out += s if isinstance(s, list) else [s]
            if out[-1].o in ('break', 'continue', 'return'): break
        return out
    def block(self, n):
        self.scopes.append({})
        b = BLOCK(*self.stmts(n))
        self.scopes.pop()
        return b
    def body(self):
        deep = len(self.scopes)
        return self.block(self.r.randrange(1, 4) if deep < 5 else 1)
    def stmt(self):
        self.nstmt += 1
        w = dict(self.sw)
        if len(self.scopes) > 5:
            for k in ('if_', 'while_', 'forc', 'forin', 'match', 'fnlet', 'block'): w[k] = 0
        if not self.loop: w['brk'] = 0
        if not self.fn_depth: w['ret'] = 0
        if self.pure:
            for k in ('setst', 'augset', 'expr'): w[k] = 0
        return getattr(self, 's_' + self.pick(w))()
    def s_let(self):
        ty = self.rand_ty()
        if self.flip(.15):
            n = 2
            names, tys = [], []
            es = [self.expr('int') for _ in range(2)]
            for i in range(n):
                nm = self.fresh(); names.append(nm)
                self.declare(nm, 'int')
            return N('let', es, p=names, q=[])
        e = self.expr(ty)
        n = self.fresh()
        c = self.flip(.12)
        self.declare(n, ty, const=c)
        return LET(n, e, c)
    def assignable(self, pred=lambda v: True):
        return self.vars(lambda v: not v.const and not v.ctr and not v.frozen and not (isinstance(v.ty, str) and v.ty == 'self') and pred(v))
    def s_assign(self):
        vs = self.assignable(lambda v: not is_fn(v.ty))
        if not vs: return self.s_let()
        v = self.r.choice(vs)
        return ASSIGN(v.name, self.expr(v.ty))
    def s_aug(self):
        vs = self.assignable(lambda v: v.ty in ('int', 'str', 'float', 'bool'))
        if not vs: return self.s_let()
        v = self.r.choice(vs)
        if v.ty == 'int': b = BIN(self.r.choice(['+', '-', '+', '-', '|', '&', '^']), VAR(v.name), self.expr('int', 2))
        elif v.ty == 'str': b = BIN('~', VAR(v.name), self.expr(self.r.choice(['str', 'int']), 1))
        elif v.ty == 'float': b = BIN(self.r.choice(['+', '-']), VAR(v.name), self.expr('float', 1))
        else: b = (AND if self.flip(.5) else OR)(VAR(v.name), self.expr('bool', 2))
        b.fmt = 'aug'
        return ASSIGN(v.name, b)
    def s_echo(self):
        t = self.rand_ty()
        if is_fn(t): t = 'int'
        vs = self.vars(lambda v: not is_fn(v.ty) and v.ty != 'self' and not self.has_fn(v.ty))
        if vs and self.flip(.4): return ECHO(VAR(self.r.choice(vs).name))
        if self.has_fn(t): t = 'int'
        return ECHO(self.expr(t))
    def has_fn(self, t): return is_fn(t) or isinstance(t, tuple) and any(self.has_fn(x) for x in t[1:] if isinstance(x, tuple))
    def target(self):
        """an element that can be assigned to: (collection, key, type of the element)"""
        vs = self.vars(lambda v: (is_list(v.ty) or is_table(v.ty)))
        if not vs: return None
        v = self.r.choice(vs)
        if is_list(v.ty): return VAR(v.name), INT(self.r.choice([0, -1])), v.ty[1], v
        return VAR(v.name), self.key(v.ty[1], 1), v.ty[2], v
    def guard_nonempty(self, v, st):
        """lists may be empty"""
        if is_list(v.ty) and not self.flip(.1): return IF(BIN('>', UN('len', VAR(v.name)), INT(0)), BLOCK(st))
        return st
    def s_setst(self):
        t = self.target()
        if not t: return self.s_let()
        c, k, ty, v = t
        if is_table(v.ty) and self.flip(.2): return SETST(c, k, UNDEF())
        return self.guard_nonempty(v, SETST(c, k, self.expr(ty, 2)))
    def s_augset(self):
        t = self.target()
        if not t or t[2] not in ('int', 'str'): return self.s_let()
        c, k, ty, v = t
        st = AUGSET('+' if ty == 'int' else '~', c, k, self.expr(ty, 2))
        if is_table(v.ty):
            if self.flip(.9): return [SETST(VAR(v.name), k, self.literal(ty)), st] if k.o in ('int', 'str') else SETST(c, k, self.expr(ty, 2))
            return st
        return self.guard_nonempty(v, st)
    def s_masgn(self):
        vs = self.assignable(lambda v: v.ty == 'int')
        n = self.r.randrange(2, 4)
        ts = []
        es = [self.expr('int', 2) for _ in range(n)]
        taken = set()
        for i in range(n):
            x = self.r.random()
            if vs and x < .6: ts.append(TOVAR(self.r.choice(vs).name))
            elif x < .85:
                nm = self.fresh()
                self.declare(nm, 'int')
                taken.add(nm)
                vs = [v for v in vs if v.name != nm]
                ts.append(LETV(nm))
            else:
                t = self.target()
                if t and is_table(t[3].ty) and t[2] == 'int': ts.append(GET(t[0], t[1]))
                elif vs: ts.append(TOVAR(self.r.choice(vs).name))
                else:
                    nm = self.fresh(); self.declare(nm, 'int'); ts.append(LETV(nm))
        if self.flip(.3):
            ls = self.vars(lambda v: is_list(v.ty) and v.ty[1] == 'int')
            if ls:
                nm = self.r.choice(ls).name
                if nm not in taken: es = es[:self.r.randrange(0, n)] + [MCALL(VAR(nm), 'spread')]
        return MASGN(ts, es)
    def s_if_(self):
        c = self.cond(2)
        if self.flip(.06): c = self.r.choice([BOOL(True), BOOL(False), INT(0), INT(1), UNDEF(), STR(''), STR('x')])
        a = self.body()
        x = self.r.random()
        if x < .4: return IF(c, a)
        if x < .8: return IF(c, a, self.body())
        return IF(c, a, IF(self.cond(2), self.body(), self.body() if self.flip(.5) else None))
    def s_block(self): return IF(BOOL(True), self.body())
    def s_while_(self):
        n = self.fresh(anywhere=True)
        self.declare(n, 'int', ctr=True)
        k = self.r.choice([1, 2, 3, 3, 4])
        cond = BIN('<', VAR(n), INT(k))
        if self.flip(.2): cond = AND(cond, self.cond(1))
        self.loop += 1
        inc = BIN('+', VAR(n), INT(1)); inc.fmt = 'aug'
        body = self.body()
        body.c.insert(0, ASSIGN(n, inc))
        self.loop -= 1
        # the counter must not be shadowed in front of its increment, nor declared in the same scope: fresh(anywhere) sees to it
        return [LET(n, INT(0)), WHILE(cond, body)]
    def s_forc(self):
        self.scopes.append({})
        n = self.fresh(anywhere=True)
        self.declare(n, 'int', ctr=True)
        k = self.r.choice([1, 2, 3, 3])
        inc = BIN('+', VAR(n), INT(1)); inc.fmt = 'aug'
        self.loop += 1
        b = self.body()
        self.loop -= 1
        self.scopes.pop()
        return FORC(LET(n, INT(0)), BIN('<', VAR(n), INT(k)), ASSIGN(n, inc), b)
    def s_forin(self):
        r = self.r
        x = r.random()
        frozen = None
        pure = False
        if x < .3:
            vs = self.vars(lambda v: is_list(v.ty))
            if vs: frozen = r.choice(vs); coll = VAR(frozen.name); et = frozen.ty[1]
            else: x = .5
        if .3 <= x < .45: coll = self.expr('str', 2); et = 'str'
        elif .45 <= x < .7: et = r.choice(['int', 'str']); coll = LIST(*[self.expr(et, 1) for _ in range(r.randrange(0, 4))])
        elif .7 <= x < .85: et = r.choice(['int', 'str']); coll = self.expr(('list', et), 2); coll = SLICE(coll, None, INT(4))
        elif x >= .85: coll = self.expr(('table', 'str', 'int'), 2); et = 'str'; pure = True
        if frozen:
            coll = SLICE(coll) if self.flip(.5) else coll
        self.scopes.append({})
        n = self.fresh()
        self.declare(n, et)
        self.loop += 1
        if frozen: frozen.frozen += 1
        if pure: self.pure += 1
        b = self.body()
        if pure:
            self.pure -= 1
            b = BLOCK(ECHO(VAR(n)), *b.c)        # tells the order, which the specification leaves open
        if frozen: frozen.frozen -= 1
        self.loop -= 1
        self.scopes.pop()
        return FORIN(n, coll, b)
    def pattern(self, ty, binds, d=2):
        """a pattern that may match values of type ty"""
        r = self.r
        x = r.random()
        if x < .1: return PANY()
        if x < .3:
            n = self.fresh()
            if n in [b[0] for b in binds]: return PANY()
            c = self.flip(.3)
            binds.append((n, ty, c))
            return PCONST(n) if c else PLET(n)
        if x < .37: return PTYPE(r.choice(['int', 'str', 'list', 'table', 'bool', 'float']))
        if x < .4: return PUNDEF()
        if d > 0 and x < .55:
            a = self.pattern(ty, [('', 0, 0)] * 0 or [], 0) if False else self.nobind(ty, d - 1)
            return PALT(a, self.nobind(ty, d - 1))
        if is_list(ty) and d > 0: return PLIST([self.pattern(ty[1], binds, d - 1) for _ in range(r.randrange(0, 4))], self.flip(.4))
        if is_table(ty) and d > 0:
            ks = r.sample(['a', 'b', 'c', 'k'], r.randrange(0, 3)) if ty[1] == 'str' else r.sample([0, 1, 2, 3], r.randrange(0, 3))
            return PTABLE([STR(k) if ty[1] == 'str' else INT(k) for k in ks], [self.pattern(ty[2], binds, d - 1) for _ in ks], self.flip(.5))
        if ty in ('int', 'float', 'str', 'bool'): return PLIT(self.patlit(ty))
        return PTYPE('list' if is_list(ty) else 'table' if is_table(ty) else 'int')
    def patlit(self, ty):
        while True:
            e = self.literal(ty)
            if e.o in ('int', 'str', 'bool', 'float'): return e
    def nobind(self, ty, d):
        r = self.r
        x = r.random()
        if x < .2: return PTYPE(r.choice(['int', 'str', 'list', 'table', 'bool', 'float']))
        if is_list(ty) and d >= 0: return PLIST([self.nobind(ty[1], d - 1) for _ in range(r.randrange(0, 3))], self.flip(.4))
        if is_table(ty): return PTYPE('table') if self.flip(.5) else PTABLE([], [], self.flip(.5))
        if ty in ('int', 'float', 'str', 'bool'): return PLIT(self.patlit(ty))
        return PUNDEF()
    def s_match(self):
        r = self.r
        ty = r.choice(['int', 'str', 'bool', 'float', 'undef', ('list', 'int'), ('list', 'int'), ('list', 'str'), ('list', ('list', 'int')), ('table', 'str', 'int'), ('table', 'int', 'str')])
        subj = self.expr(ty)
        arms = []
        for _ in range(r.randrange(1, 5)):
            self.scopes.append({})
            binds = []
            p = self.pattern(ty if self.flip(.85) else 'int', binds)
            for n, t, c in binds: self.declare(n, t, const=c)
            g = self.cond(1) if self.flip(.35) else None
            b = BLOCK(*self.stmts(r.randrange(1, 3)))
            b.c.insert(0, ECHO(STR('arm%d' % len(arms))))
            self.scopes.pop()
            arms.append(ARM(p, b, g))
        return MATCH(subj, *arms)
    def s_fnlet(self):
        ty = ('fn', self.r.randrange(0, 4), self.r.choice(['int', 'int', 'str', 'bool', ('list', 'int')]))
        n = self.fresh()
        self.declare(n, 'self')
        f = self.function([ty[1]], ty[2])
        self.declare(n, ty, const=True)
        return FNLET(n, f, self.flip(.1))
    def s_expr(self):
        r = self.r
        if self.flip(.4):
            fs = self.vars(lambda v: is_fn(v.ty))
            if fs:
                f = r.choice(fs)
                return EXPR(self.call(VAR(f.name), f.ty, 2))
        vs = self.vars(lambda v: (is_list(v.ty) or is_table(v.ty) or is_set(v.ty)) and not v.frozen)
        if not vs: return self.s_echo()
        v = r.choice(vs)
        x = VAR(v.name)
        if is_list(v.ty):
            m = r.choice(['push', 'push', 'push', 'insert', 'reverse', 'sort', 'clear', 'pop'])
            if m == 'push': return EXPR(MCALL(x, 'push', self.expr(v.ty[1], 2)))
            if m == 'insert': return EXPR(MCALL(x, 'insert', INT(r.choice([0, 0, 0, 1, -1])) if self.flip(.2) else INT(0), self.expr(v.ty[1], 1)) if self.flip(.3) else MCALL(x, 'push', self.expr(v.ty[1], 2)))
            if m == 'pop': return IF(x, BLOCK(EXPR(MCALL(x, 'push', self.expr(v.ty[1], 2))), EXPR(MCALL(x, 'pop'))))
            if m == 'sort' and v.ty[1] not in ('int', 'float', 'str') and self.flip(.9): m = 'reverse'
            return EXPR(MCALL(x, m))
        if is_table(v.ty):
            m = r.choice(['remove', 'remove', 'clear'])
            return EXPR(MCALL(x, m, *([self.key(v.ty[1], 1)] if m == 'remove' else [])))
        m = r.choice(['add', 'add', 'add', 'remove', 'clear'])
        return EXPR(MCALL(x, m, *([self.expr(v.ty[1], 1)] if m != 'clear' else [])))
    def s_brk(self):
        s = BREAK() if self.flip(.5) else CONTINUE()
        if self.flip(.85): return IF(self.cond(2), BLOCK(s))
        return s
    def s_ret(self):
        n = 1 if self.flip(.8) else 2
        s = RET(*[self.expr(self.fnret[-1] if i == 0 else 'int', 2) for i in range(n)])
        if self.flip(.8): return IF(self.cond(2), BLOCK(s))
        return s
    def s_assert_(self):
        return ASSERT(OR(self.cond(2), BOOL(True)) if self.flip(.9) else self.cond(2))
    def dump(self):
        """echo everything that is in scope"""
        out = []
        for v in self.visible():
            if v.ty != 'self' and not self.has_fn(v.ty): out.append(ECHO(VAR(v.name)))
            elif is_fn(v.ty) and v.ty[1] < 2: out.append(ECHO(CALL(VAR(v.name), *[INT(3)] * v.ty[1])))
        return out
    def program(self):
        s = []
        if self.probe:
            s.append(FNLET('p', FN(['x'], BLOCK(ECHO(BIN('~', STR('p'), VAR('x'))), RET(VAR('x'))))))
            self.scopes[0]['p'] = Var('p', 'self')
            self.names = [n for n in self.names if n != 'p']
        n = self.r.randrange(max(3, self.maxstmt // 3), self.maxstmt)
        while n > 0:
            n -= 1
            x = self.stmt()
            if x: s += x if isinstance(x, list) else [x]
        return FILE(*(s + self.dump()))
