"""Generators of programs that are aimed at one property each."""
import copy, itertools
from core import Case
from yast import *
from gen import Gen

def L(name): return LIB(name)
def S(s): return STR(s)
def echo(*es): return [ECHO(e) for e in es]
def aug(n, op, e):
    b = BIN(op, VAR(n), e); b.fmt = 'aug'
    return ASSIGN(n, b)
def cat(*es):
    r = es[0]
    for e in es[1:]: r = BIN('~', r, e)
    return r
def lst(xs): return LIST(*[lit(x) for x in xs])
def lit(x):
    if x is None: return UNDEF()
    if isinstance(x, bool): return BOOL(x)
    if isinstance(x, int): return INT(x)
    if isinstance(x, float): return FLT(int(x * 64))
    if isinstance(x, str): return STR(x)
    if isinstance(x, list): return lst(x)
    if isinstance(x, dict): return TABLE(*sum([[lit(k), lit(v)] for k, v in x.items()], []))
    if isinstance(x, (set, frozenset)): return CALL(L('collections.set'), *[lit(v) for v in sorted(x, key=repr)])
    if isinstance(x, N): return copy.deepcopy(x)
    raise Exception(x)

# ---------------------------------------------------------------------------------------------------- C02
CINT = [0, 1, 2, 3, 5, 7, -1, -2, 64, 255, 1 << 31, (1 << 62) + 5, -(1 << 40)]
def const_expr(r, d, leaf):
    """an expression over constants; leaf(node) may turn it into something else"""
    x = r.random()
    if d == 0 or x < .15:
        k = r.random()
        if k < .5: return leaf(INT(r.choice(CINT[:9] if r.random() < .85 else CINT)))
        if k < .72: return leaf(FLT(r.choice([0, 32, 64, 96, 160, 640, -32, -96])))
        if k < .82: return leaf(STR(r.choice(['', 'a', 'ab', '1'])))
        if k < .92: return leaf(BOOL(r.random() < .5))
        return leaf(UNDEF())
    if x < .30:
        return UN(r.choice(['-', '-', '+', '!', '!', '^', 'len']), const_expr(r, d - 1, leaf))
    if x < .38: return TERN(const_expr(r, d - 1, leaf), const_expr(r, d - 1, leaf), const_expr(r, d - 1, leaf))
    if x < .52: return r.choice([AND, OR, NN])(const_expr(r, d - 1, leaf), const_expr(r, d - 1, leaf))
    op = r.choice(['+', '-', '*', '/', '//', '%', '|', '^', '&', '&^', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '===', '!==', '~', '**', '+', '-', '*'])
    a = const_expr(r, d - 1, leaf)
    b = const_expr(r, d - 1, leaf)
    if op in ('<<', '>>') and r.random() < .9: b = leaf(INT(r.choice([0, 1, 3, 8, 31, 33, 63])))
    if op == '**' and r.random() < .8:
        b = leaf(INT(r.choice([0, 1, 2, 3, -1, -2])))
        if b.o == 'int' and b.i < 0 or b.o == 'var' and r.random() < .3: a = leaf(INT(r.choice([2, 4, -2, 1, 8, -1])))
    return BIN(op, a, b)
def fold_pair(rng, n=3):
    """an expression over literals, and the same one over variables"""
    out = []
    for _ in range(n):
        seed = rng.random()
        import random
        d = rng.choice([1, 1, 2, 2, 3])
        e1 = const_expr(random.Random(seed), d, lambda x: x)
        vs = []
        def leaf(x):
            vs.append(x); return VAR('v%d' % (len(vs) - 1))
        e2 = const_expr(random.Random(seed), d, leaf)
        k = rng.choice([0, 0, 1, 2])
        lets = [LET('v%d' % i, x, const=rng.random() < .2) for i, x in enumerate(vs)]
        if k == 0: a, b = [ECHO(e1)], lets + [ECHO(e2)]
        elif k == 1: a, b = [LET('z', e1), ECHO(VAR('z'))], lets + [LET('z', e2), ECHO(VAR('z'))]
        else:
            c = rng.choice(['if', 'while', 'tern', 'for', 'guard', 'aug'])
            def use(e):
                if c == 'if': return [IF(e, BLOCK(ECHO(S('T'))), BLOCK(ECHO(S('F'))))]
                if c == 'while': return [WHILE(e, BLOCK(ECHO(S('in')), BREAK())), ECHO(S('out'))]
                if c == 'tern': return [ECHO(TERN(e, S('T'), S('F')))]
                if c == 'for': return [FORC(LET('i', INT(0)), e, aug('i', '+', INT(1)), BLOCK(ECHO(VAR('i')), IF(BIN('>', VAR('i'), INT(1)), BLOCK(BREAK()))))]
                if c == 'guard': return [MATCH(INT(1), ARM(PANY(), BLOCK(ECHO(S('T'))), e), ARM(PANY(), BLOCK(ECHO(S('F')))))]
                return [LET('z', INT(3)), aug('z', '+', e), ECHO(VAR('z'))]
            a, b = use(e1), lets + use(e2)
        out.append(Case(FILE(*a), note='constants'))
        out.append(Case(FILE(*b), note='the same values in variables'))
        if rng.random() < .4:     # both, in functions
            out.append(Case(FILE(FNLET('f', FN([], BLOCK(*a, RET(INT(1))))), FNLET('g', FN([], BLOCK(*b, RET(INT(2))))), ECHO(CALL(VAR('f'))), ECHO(CALL(VAR('g')))), note='constants in functions'))
    return out

def act(r, e, x):
    """a call that is made for what it does to x; now and then with a look at its result"""
    k = r.random()
    if k < .75: return EXPR(e)
    if k < .85: return ECHO(BIN('===', e, x))
    if k < .93: return ECHO(UN('!', e))
    if k < .97: return ECHO(UN('len', LIST(e)))
    return ECHO(BIN('===', GET(LIST(INT(1), e, INT(2)), INT(1)), UNDEF()))

FOLD_VALS = [lambda i=i: INT(i) for i in (0, 1, -1, 2, 3, -3, 7, 64)] + [lambda i=i: FLT(i) for i in (0, 64, -64, 128, 160, 192, -192, 32)] + [lambda: BOOL(True), lambda: BOOL(False), UNDEF, lambda: S('1'), lambda: S('')]
FOLD_OPS = ['+', '-', '*', '/', '//', '%', '**', '|', '^', '&', '&^', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '===', '!==', '~', '&&', '||', '??']
def fold_table(r, nerr):
    """every operator on every pair of literals"""
    good, bad = [], []
    for op in FOLD_OPS:
        for a in FOLD_VALS:
            for b in FOLD_VALS:
                x, y = a(), b()
                if op in ('<<', '>>') and x.o == y.o == 'int' and not (0 <= y.i < 60 and x.i >= 0): continue
                if op == '**' and (x.o == 'float' or y.o == 'float' or y.i < 0 and (x.i == 0 or y.i < -3)): continue
                e = {'&&': AND, '||': OR, '??': NN}.get(op, lambda p, q: BIN(op, p, q))(x, y)
                num = x.o in ('int', 'float') and y.o in ('int', 'float')
                if num and op in '*/' and x.i * y.i == 0 and (x.i < 0 or y.i < 0) and (op == '/' or x.o == 'float' or y.o == 'float'): continue    # -0.0
                if num and op == '*' and x.o == y.o == 'float' and x.i * y.i % 64: continue
                both = x.o == y.o == 'int'
                if op in ('==', '!=', '===', '!==', '~', '&&', '||', '??'): ok = True
                elif op in ('<', '<=', '>', '>='): ok = num or x.o == y.o == 'str'
                elif op in ('+', '-', '*', '/', '**'):
                    ok = num
                    if op == '/' and num:
                        v = y.i * (64 if y.o == 'int' else 1)
                        if v == 0: continue
                        if abs(v) & (abs(v) - 1) or (x.i * (64 if x.o == 'int' else 1)) * 64 % v: continue
                    if op == '**' and (y.i > 8 and abs(x.i) > 1 or x.i == 64 and y.i > 4): continue
                elif op in ('//', '%'): ok = both and y.i != 0
                else: ok = both
                (good if ok else bad).append(e)
    for op in ('-', '+', '!', '^', 'len'):
        for a in FOLD_VALS:
            x = a()
            ok = op == '!' or op == 'len' and x.o == 'str' or x.o == 'int' and op != 'len' or x.o == 'float' and op in '-+' and x.i
            if x.o == 'float' and x.i == 0 and op in '-+': continue
            (good if ok else bad).append(UN(op, x))
    r.shuffle(good)
    out = []
    for i in range(0, len(good), 40):
        st = []
        for e in good[i:i + 40]:
            k = r.random()
            if k < .7: st.append(ECHO(e))
            elif k < .8: st.append(ECHO(TERN(e, S('T'), S('F'))))
            elif k < .9: st.append(IF(e, BLOCK(ECHO(S('T'))), BLOCK(ECHO(S('F')))))
            else: st += [LET('v%d' % len(st), LIST(e, e)), ECHO(VAR('v%d' % len(st)))]; st[-1].c[0].s = st[-2].p[0]
        out.append(Case(FILE(*st), note='operators on literals'))
    for e in r.sample(bad, min(nerr, len(bad))): out.append(Case(FILE(ECHO(S('a')), ECHO(e), ECHO(S('b'))), note='operators that are not defined for literals'))
    return out

def dead_code(rng):
    """branches that are decided at compile time around anything"""
    bodies = [
        lambda: [ECHO(S('body'))], lambda: [ECHO(BIN('//', INT(1), INT(0)))], lambda: [EXPR(CALL(VAR('nope')))], lambda: [ECHO(VAR('k'))],
        lambda: [BREAK()], lambda: [CONTINUE()], lambda: [RET(INT(1))], lambda: [LET('k', INT(1))], lambda: [LET('q', INT(1)), LET('q', INT(2))],
        lambda: [ASSIGN('cc', INT(2))], lambda: [ASSIGN('k', INT(9))], lambda: [ASSIGN('undeclared', INT(1))], lambda: [ECHO(BIN('+', S('a'), INT(1)))],
        lambda: [FNLET('h', FN(['x'], BLOCK(RET(BIN('+', VAR('x'), VAR('k')))))), ECHO(CALL(VAR('h'), INT(1)))],
        lambda: [LET('w', LIST(INT(1))), EXPR(MCALL(VAR('w'), 'push', INT(2))), ECHO(VAR('w'))],
        lambda: [FORIN('e', LIST(INT(1), INT(2)), BLOCK(ECHO(VAR('e'))))],
        lambda: [MATCH(INT(1), ARM(PLET('m'), BLOCK(ECHO(VAR('m')))))],
        lambda: [IF(BOOL(False), BLOCK(ECHO(S('x'))), BLOCK(ECHO(S('y'))))], lambda: []]
    conds = [BOOL(True), BOOL(False), UNDEF(), INT(0), INT(1), STR(''), STR('a'), FLT(0), FLT(64), UN('!', INT(1)), UN('!', UNDEF()), BIN('==', INT(1), INT(1)), BIN('<', INT(2), INT(1)),
             AND(BOOL(True), BOOL(False)), OR(BOOL(False), INT(1)), NN(UNDEF(), BOOL(False)), LIST(), NAN(), BIN('/', INT(0), INT(0)), BIN('-', FLT(64), FLT(64)),
             TERN(BOOL(True), BOOL(False), BOOL(True)), BIN('~', S(''), S('')), VAR('k'), VAR('cc'), AND(BOOL(False), CALL(VAR('p'), INT(1))), OR(BOOL(True), CALL(VAR('p'), INT(1)))]
    def one(depth=0):
        c = copy.deepcopy(rng.choice(conds))
        b1, b2 = rng.choice(bodies)(), rng.choice(bodies)()
        if depth == 0 and rng.random() < .3: b1 = one(1)
        k = rng.randrange(6)
        if k == 0: return [IF(c, BLOCK(*b1))]
        if k == 1: return [IF(c, BLOCK(*b1), BLOCK(*b2))]
        if k == 2: return [IF(c, BLOCK(*b1), IF(copy.deepcopy(rng.choice(conds)), BLOCK(*b2), BLOCK(ECHO(S('else')))))]
        if k == 3: return [WHILE(c, BLOCK(ECHO(S('it')), *b1, *([] if b1 and b1[-1].o in ('break', 'continue', 'return') else [BREAK()])))]
        if k == 4: return [FORC(LET('i', INT(0)), AND(c, BIN('<', VAR('i'), INT(2))) if rng.random() < .6 else c, aug('i', '+', INT(1)),
                                BLOCK(ECHO(VAR('i')), IF(BIN('>', VAR('i'), INT(2)), BLOCK(BREAK())), *b1))]
        return [ECHO(TERN(c, S('T'), CALL(VAR('p'), S('F')))), ECHO(AND(copy.deepcopy(c), S('and'))), ECHO(OR(copy.deepcopy(c), S('or')))]
    st = [LET('k', INT(5)), LET('cc', INT(1), const=True), FNLET('p', FN(['x'], BLOCK(ECHO(cat(S('p'), VAR('x'))), RET(VAR('x')))))]
    inner = one()
    w = rng.randrange(4)
    if w == 0: st += inner
    elif w == 1: st += [FNLET('f', FN([], BLOCK(*inner, RET(S('done'))))), ECHO(CALL(VAR('f')))]
    elif w == 2: st += [FORIN('o', LIST(INT(1), INT(2)), BLOCK(ECHO(VAR('o')), *inner))]
    else: st += [LET('z', INT(7)), *inner, *one(), ECHO(VAR('z'))]
    st += [ECHO(VAR('k')), ECHO(S('end'))]
    root = FILE(*st)
    if endless(root): return None
    return Case(root, note='branches decided at compile time', mode='b')
def endless(root):
    """a while loop with a continue in it (or a constant condition and no break)"""
    def has(n, o): return n.o == o or any(has(x, o) for x in n.c if n.o not in ('fn',)) 
    def go(n):
        if n.o == 'while' and has(n.c[1], 'continue'): return True
        return any(go(x) for x in n.c)
    return go(root)

# ---------------------------------------------------------------------------------------------------- C03
POOL = [None, True, False, 0, 1, 2, -1, 1.0, 0.5, 2.0, '', 'a', 'b', 'ab', '1', 'A', [], [1], [1.0], ['a'], [1, 2], [2, 1], [[1], 2], [[1.0], 2], [[], []], [None], [False],
        {}, {'a': 1}, {'a': 1.0}, {'b': 1}, {'a': 1, 'b': [1]}, {'b': [1], 'a': 1}, {1: 'x'}, {1.0: 'x'}, {'a': {}}, {'a': {'b': 1}}, {'a': []},
        frozenset(), frozenset([1]), frozenset([1, 2]), frozenset(['a']), frozenset([1.0]), frozenset([2, 3]), [{'a': 1}], [{'a': 1.0}], [frozenset([1])], {'s': frozenset([1, 2])},
        -0.5, 3.75, 1 << 40, (1 << 40) + 1, 1000000, 'aa', 'b a', ['', ''], [''], [[1], [2]], [[1], [2, 3]], 'abc', 'abd', 'B']
def eq_program(rng):
    k = 7
    vs = [rng.choice(POOL) for _ in range(k)]
    if rng.random() < .6: vs[1] = vs[0]
    if rng.random() < .3: vs[2] = vs[0]
    st = [LET('v%d' % i, lit(x)) for i, x in enumerate(vs)]
    if rng.random() < .5: st.append(LET('v%d' % k, VAR('v0'))); vs.append(vs[0]); k += 1
    num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
    for i in range(k):
        for j in range(k):
            a, b = VAR('v%d' % i), VAR('v%d' % j)
            parts = [BIN('==', a, b), BIN('!=', a, b)]
            x, y = vs[i], vs[j]
            if not (isinstance(x, str) and isinstance(y, str) or x is None or y is None): parts.append(BIN('===', a, b)); parts.append(BIN('!==', a, b))
            if num(x) and num(y) or isinstance(x, str) and isinstance(y, str): parts += [BIN(o, a, b) for o in ('<', '<=', '>', '>=')]
            if isinstance(x, frozenset) and isinstance(y, frozenset): parts += [BIN(o, a, b) for o in ('<', '<=', '>', '>=')]
            if rng.random() < .7: st.append(ECHO(cat(S(''), *sum([[p, S(' ')] for p in parts], []))))
            else: st += echo(*parts)
    if rng.random() < .3:        # equality of containers does not change them
        st += [EXPR(BIN('==', VAR('v0'), VAR('v1'))), ECHO(VAR('v0')), ECHO(VAR('v1'))]
    if rng.random() < .4 and isinstance(vs[0], list):
        st += [EXPR(MCALL(VAR('v0'), 'push', INT(9))), ECHO(BIN('==', VAR('v0'), VAR('v%d' % (k - 1)))), ECHO(BIN('==', VAR('v0'), VAR('v1')))]
    return Case(FILE(*st), note='equality and order')

TRUTHS = [lambda: UNDEF(), lambda: BOOL(True), lambda: BOOL(False), lambda: INT(0), lambda: INT(1), lambda: INT(-1), lambda: FLT(0), lambda: FLT(64), NAN, INF, lambda: S(''), lambda: S('0'),
          lambda: S('a'), lambda: S(' '), lambda: LIST(), lambda: LIST(INT(1)), lambda: TABLE(), lambda: TABLE(S('a'), INT(1)), lambda: CALL(L('collections.set')), lambda: FN([], BLOCK(RET(INT(1)))),
          lambda: L('math.abs'), lambda: BIN('/', INT(0), INT(0)), lambda: INT(1 << 40), lambda: SLICE(S('ab'), INT(1), INT(1)), lambda: BIN('~', S(''), S(''))]
def truth_program(v, var):
    st = [LET('v', v())] if var else []
    e = (lambda: VAR('v')) if var else v
    st += [IF(e(), BLOCK(ECHO(S('if T'))), BLOCK(ECHO(S('if F')))),
           IF(BOOL(False), BLOCK(), IF(e(), BLOCK(ECHO(S('elif T'))), BLOCK(ECHO(S('elif F'))))),
           WHILE(e(), BLOCK(ECHO(S('while T')), BREAK())),
           FORC(LET('i', INT(0)), e(), aug('i', '+', INT(1)), BLOCK(ECHO(S('for T')), BREAK())),
           ECHO(TERN(e(), S('T'), S('F'))), ECHO(UN('!', e())), ECHO(UN('!', UN('!', e()))),
           ECHO(BIN('~', S('and '), TERN(AND(e(), BOOL(True)), S('T'), S('F')))), ECHO(TERN(OR(e(), BOOL(False)), S('T'), S('F'))),
           ECHO(TERN(AND(BOOL(True), e()), S('T'), S('F'))), ECHO(TERN(OR(BOOL(False), e()), S('T'), S('F'))),
           ECHO(LCOMP(VAR('x'), 'x', LIST(INT(1), INT(2)), e())),
           ECHO(UN('len', TCOMP(VAR('x'), INT(1), 'x', LIST(INT(1), INT(2)), e()))),
           MATCH(INT(1), ARM(PANY(), BLOCK(ECHO(S('guard T'))), e()), ARM(PANY(), BLOCK(ECHO(S('guard F'))))),
           ECHO(BIN('==', NN(e(), INT(77)), INT(77))) if v is not TRUTHS[19] and v is not TRUTHS[20] else ECHO(INT(0)),
           ASSERT(e()), ECHO(S('asserted'))]
    return Case(FILE(*st), note='truth values')
def truth_cases(): return [truth_program(v, var) for v in TRUTHS for var in (False, True)]
def toboolcases():
    st = []
    for v in TRUTHS[:14]: st.append(ECHO(MCALL(v(), 'tobool')))
    return [Case(FILE(*st), note='tobool')]

# ---------------------------------------------------------------------------------------------------- C05
def names_of(root, acc=None):
    acc = [] if acc is None else acc
    def go(n):
        if n.o == 'var': acc.append(n)
        for x in n.c: go(x)
        if n.o not in SIMPLE_Q:
            for x in n.q: go(x)
    go(root); return acc
def all_nodes(root):
    acc = []
    def go(n):
        acc.append(n)
        for x in n.c: go(x)
        if n.o not in SIMPLE_Q:
            for x in n.q: go(x)
    go(root); return acc
def blocks_of(root): return [n for n in all_nodes(root) if n.o in ('block', 'file')]
def mutate_scopes(rng, root):
    t = root
    nodes = all_nodes(t)
    for _ in range(rng.choice([1, 1, 1, 2])):
        k = rng.randrange(9)
        blocks = [n for n in nodes if n.o in ('block', 'file')]
        allnames = sorted({n.s for n in nodes if n.o in ('var', 'assign', 'letv', 'tovar', 'fnlet', 'plet', 'pconst') and n.s} | {p for n in nodes for p in n.p} | {'zz'})
        if k == 0:
            vs = [n for n in nodes if n.o == 'var']
            if vs: rng.choice(vs).s = rng.choice(allnames)
        elif k == 1:
            b = rng.choice(blocks); b.c.insert(rng.randrange(len(b.c) + 1), rng.choice([BREAK(), CONTINUE(), RET(INT(1))]) if rng.random() < .8 else N('export', [INT(1)]))
        elif k == 2:
            b = rng.choice(blocks); b.c.insert(rng.randrange(len(b.c) + 1), LET(rng.choice(allnames), INT(rng.randrange(9)), const=rng.random() < .4))
        elif k == 3:
            b = rng.choice(blocks); b.c.insert(rng.randrange(len(b.c) + 1), ASSIGN(rng.choice(allnames), INT(rng.randrange(9))))
        elif k == 4:
            b = rng.choice(blocks)
            if b.c: b.c.pop(rng.randrange(len(b.c)))
        elif k == 5:
            ls = [n for n in nodes if n.o == 'let']
            if ls: n = rng.choice(ls); n.q = [i + 1 for i in range(len(n.p)) if rng.random() < .7]
        elif k == 6:
            ls = [n for n in nodes if n.o in ('let', 'letv', 'fnlet', 'plet', 'forin', 'lcomp', 'tcomp', 'fn')]
            if ls:
                n = rng.choice(ls)
                if n.o in ('let', 'forin', 'lcomp', 'tcomp', 'fn'):
                    if n.p: n.p = [x for x in n.p]; n.p[rng.randrange(len(n.p))] = rng.choice(allnames)
                    if n.o == 'fn' and len(set(n.p)) < len(n.p): n.p = ['p%d' % i for i in range(len(n.p))]      # duplicate parameters are not specified
                else: n.s = rng.choice(allnames)
        elif k == 7:
            b = rng.choice(blocks)
            if len(b.c) > 1:
                i, j = rng.randrange(len(b.c)), rng.randrange(len(b.c)); b.c[i], b.c[j] = b.c[j], b.c[i]
        else:
            b = rng.choice(blocks); nm = rng.choice(allnames)
            b.c.insert(rng.randrange(len(b.c) + 1), rng.choice([
                MASGN([LETV(nm, rng.random() < .3), TOVAR(rng.choice(allnames))], [INT(1), INT(2)]), FNLET(nm, FN(['x'], BLOCK(RET(VAR(rng.choice(allnames))))), rng.random() < .3),
                FORIN(nm, LIST(INT(1)), BLOCK(ECHO(VAR(nm)), *([ASSIGN(nm, INT(2))] if rng.random() < .5 else []))), ECHO(LCOMP(VAR(nm), nm, LIST(INT(1)))),
                MATCH(INT(1), ARM(PCONST(nm) if rng.random() < .5 else PLET(nm), BLOCK(ECHO(VAR(nm)), *([ASSIGN(nm, INT(2))] if rng.random() < .5 else [])))),
                EXPR(CALL(FN([], BLOCK(ASSIGN(nm, INT(3))))))]))
        nodes = all_nodes(t)
        for n in nodes:                                         # `x op= e` mentions x twice
            if n.o == 'assign' and n.c[0].fmt == 'aug': n.c[0].c[0].s = n.s
    return t
def scope_case(rng, mode='c'):
    g = Gen(rng, names=4, wild=0, maxstmt=10, depth=1, types=['int', 'int', 'int', 'str', 'fn', 'list'], sw=dict(let=8, assign=6, masgn=3, match=3, fnlet=4, block=2, forin=3, brk=3, ret=3))
    root = mutate_scopes(rng, g.program())
    return Case(root, mode=mode, note='scopes, mutated')

# ---------------------------------------------------------------------------------------------------- C06
class Closures:
    """closures made at all kinds of places, collected in a list, and called later in any order"""
    def __init__(self, rng):
        self.r = rng; self.n = 0; self.scopes = [[]]; self.loop = 0; self.fn = 0; self.budget = 26
    def fresh(self): self.n += 1; return 'v%d' % self.n
    def vis(self): return [v for s in self.scopes for v in s]
    def capture(self):
        r = self.r
        vs = self.vis()
        if not vs: return self.let()
        v = r.choice(vs[-4:] if r.random() < .7 else vs)
        w = r.choice(vs)
        k = r.randrange(7)
        if k == 0: f = FN(['x'], BLOCK(aug(v, '+', INT(1)), RET(VAR(v))))
        elif k == 1: f = FN(['x'], BLOCK(RET(VAR(v))))
        elif k == 2: f = FN(['x'], BLOCK(LET('old', VAR(v)), ASSIGN(v, VAR('x')), RET(VAR('old'))))
        elif k == 3: f = FN(['x'], BLOCK(aug(v, '+', VAR('x')), RET(BIN('-', VAR(v), VAR(w)))))
        elif k == 4: f = FN(['x'], BLOCK(LET('y', VAR(v)), EXPR(MCALL(VAR('fs'), 'push', FN(['z'], BLOCK(aug('y', '*', INT(2)), aug(v, '+', INT(1)), RET(BIN('+', VAR('y'), VAR(v))))))), RET(VAR('y'))))
        elif k == 5: f = FN(['x'], BLOCK(LET('g', FN([], BLOCK(aug(v, '-', INT(1)), RET(VAR(w))))), RET(BIN('+', CALL(VAR('g')), CALL(VAR('g'))))))
        else: f = FN(['x'], BLOCK(MASGN([TOVAR(v), TOVAR(w)], [VAR(w), VAR(v)]), RET(BIN('+', BIN('*', VAR(v), INT(100)), VAR(w)))))
        return [EXPR(MCALL(VAR('fs'), 'push', f))]
    def let(self):
        v = self.fresh()
        self.scopes[-1].append(v)
        return [LET(v, INT(self.n * 10))]
    def callone(self):
        i = self.r.randrange(6)
        return [IF(BIN('>', UN('len', VAR('fs')), INT(i)), BLOCK(ECHO(CALL(GET(VAR('fs'), INT(i)), INT(self.r.randrange(5))))))]
    def block(self, n):
        self.scopes.append([])
        b = self.stmts(n)
        self.scopes.pop()
        return BLOCK(*b)
    def stmts(self, n):
        out = []
        for _ in range(n):
            if self.budget <= 0: break
            out += self.stmt()
        return out
    def stmt(self):
        r = self.r
        self.budget -= 1
        deep = len(self.scopes) > 5
        k = r.random()
        if k < .22: return self.let()
        if k < .48: return self.capture()
        if k < .56: return self.callone()
        if k < .64:
            vs = self.vis()
            return [aug(r.choice(vs), '+', INT(1))] if vs else self.let()
        if k < .68:
            vs = self.vis()
            return [ECHO(VAR(r.choice(vs)))] if vs else self.let()
        if k < .72 and self.loop: return [IF(BIN('==', BIN('%', UN('len', VAR('fs')), INT(r.choice([2, 3]))), INT(0)), BLOCK(BREAK() if r.random() < .5 else CONTINUE()))]
        if k < .75 and self.fn: return [IF(BIN('==', BIN('%', UN('len', VAR('fs')), INT(2)), INT(r.randrange(2))), BLOCK(RET(INT(-1))))]
        if deep: return self.capture()
        if k < .80:
            return [IF(BOOL(True) if r.random() < .3 else BIN('>', UN('len', VAR('fs')), INT(r.randrange(3))), self.block(3), self.block(2) if r.random() < .4 else None)]
        if k < .86:
            v = self.fresh()
            self.loop += 1
            self.scopes.append([v])
            b = BLOCK(*self.stmts(3))
            self.scopes.pop(); self.loop -= 1
            return [FORIN(v, LIST(*[INT(100 * (i + 1)) for i in range(r.randrange(1, 4))]), b)]
        if k < .90:
            v = self.fresh()
            c = self.fresh()
            self.loop += 1
            self.scopes.append([v])
            b = BLOCK(aug(c, '+', INT(1)), *self.stmts(3))
            self.scopes.pop(); self.loop -= 1
            return [LET(c, INT(0)), WHILE(BIN('<', VAR(c), INT(r.randrange(1, 4))), BLOCK(LET(v, INT(7)), *b.c))]
        if k < .93:
            v = self.fresh()
            self.scopes.append([v])
            b = self.block(2)
            self.scopes.pop()
            return [MATCH(LIST(INT(3), INT(4)), ARM(PLIST([PLET(v), PANY()]), b))]
        # a function, called at once or later
        p, f = self.fresh(), self.fresh()
        lo, self.loop = self.loop, 0
        self.fn += 1
        self.scopes.append([p])
        b = BLOCK(*self.stmts(4), RET(VAR(p) if r.random() < .6 else INT(5)))
        self.scopes.pop()
        self.fn -= 1
        self.loop = lo
        call = [ECHO(CALL(VAR(f), INT(r.randrange(10)))) for _ in range(r.randrange(1, 3))]
        return [FNLET(f, FN([p], b))] + call
    def program(self):
        st = [LET('fs', LIST())] + self.stmts(10)
        calls = []
        for _ in range(2):
            calls.append(FORIN('f', SLICE(VAR('fs'), None, INT(9)), BLOCK(ECHO(CALL(VAR('f'), INT(3))))))
        if self.r.random() < .5: calls.append(FORC(LET('i', BIN('-', UN('len', VAR('fs')), INT(1))), AND(BIN('>=', VAR('i'), INT(0)), BIN('<', VAR('i'), INT(12))), aug('i', '-', INT(1)), BLOCK(ECHO(CALL(GET(VAR('fs'), VAR('i')), VAR('i'))))))
        return FILE(*st, *calls, *[ECHO(VAR(v)) for v in self.scopes[0]])
def closures(rng): return Case(Closures(rng).program(), note='closures')

class Exits:
    """loops in loops in functions that are called from loops: left in every way, at every depth"""
    def __init__(self, rng, caps=0.0):
        self.r = rng; self.n = 0; self.fns = []; self.budget = 26; self.caps = caps
    def name(self, p='v'): self.n += 1; return '%s%d' % (p, self.n)
    def value(self, vs):
        r = self.r
        x = r.random()
        if x < .5 and vs: return VAR(r.choice(vs)[0])
        if x < .7 and self.fns and self.budget > 0:
            self.budget -= 4
            f, k = r.choice(self.fns)
            return CALL(VAR(f), *[self.num(vs) for _ in range(k)])
        return r.choice([INT(r.randrange(9)), S(r.choice(['p', 'q', 'rs']))])
    def num(self, vs):
        ns = [v for v, t in vs if t == 'int']
        return BIN(self.r.choice(['+', '-', '*']), VAR(self.r.choice(ns)), INT(self.r.randrange(1, 4))) if ns and self.r.random() < .6 else INT(self.r.randrange(-2, 6))
    def cond(self, vs):
        r = self.r
        v, t = r.choice(vs)
        if t == 'str': return BIN(r.choice(['==', '!=', '<']), VAR(v), S(r.choice('abc')))
        return r.choice([lambda: BIN('==', BIN('%', VAR(v), INT(r.randrange(2, 4))), INT(r.randrange(2))), lambda: BIN(r.choice(CMPS), VAR(v), INT(r.randrange(4)))])()
    def coll(self, vs):
        r = self.r
        k = r.randrange(7)
        if k < 2: return 'int', LIST(*[self.num(vs) for _ in range(r.randrange(1, 4))])
        if k == 2: return 'str', S(''.join(r.choice('abc') for _ in range(r.randrange(1, 4))))
        if k == 3: return 'str', TABLE(S(r.choice('abc')), INT(1))
        if k == 4: return 'int', LCOMP(BIN('+', VAR('z'), INT(1)), 'z', LIST(INT(0), self.num(vs), INT(2)), BIN('!=', VAR('z'), INT(r.randrange(3))))
        if k == 5 and self.fns and self.budget > 0:
            self.budget -= 4
            f, a = r.choice(self.fns)
            return 'any', LIST(CALL(VAR(f), *[self.num(vs) for _ in range(a)]), INT(1))
        return 'int', MCALL(LIST(INT(3), INT(1), INT(2)), 'copy')
    def leave(self, loops, infn, vs):
        r = self.r
        ks = (['break', 'continue', 'continue'] if loops else []) + (['return'] * 2 if infn else [])
        if not ks: return ECHO(self.value(vs))
        k = r.choice(ks)
        return BREAK() if k == 'break' else CONTINUE() if k == 'continue' else RET(*[self.value(vs) for _ in range(r.choice([1, 1, 1, 2]))])
    def body(self, d, loops, infn, vs, n=None):
        r = self.r
        vs = list(vs); out = []
        for _ in range(n or r.randrange(1, 4)):
            x = r.random()
            if vs and r.random() < self.caps:      # a function that shares a variable, for later
                v, t = r.choice(vs)
                w, u = r.choice(vs)
                out.append(EXPR(MCALL(VAR('fs'), 'push', FN([], BLOCK(*([aug(v, '+', INT(1))] if t == 'int' else []), *([ASSIGN(w, VAR(v))] if r.random() < .3 and t == u else []), RET(VAR(w)))))))
                if t == 'int' and v[0] != 'w' and r.random() < .4: out.append(aug(v, '+', INT(10)))
            if x < .2:
                v = self.name(); out.append(LET(v, self.num(vs))); vs.append((v, 'int'))
            elif x < .4 or d <= 0 and x < .6: out.append(ECHO(self.value(vs)))
            elif x < .6 and vs:
                b = [ECHO(self.value(vs))] if r.random() < .3 else []
                if r.random() < .3: v = self.name(); b.append(LET(v, self.num(vs)))
                out.append(IF(self.cond(vs), BLOCK(*b, self.leave(loops, infn, vs)), BLOCK(*self.body(d - 1, loops, infn, vs, 1)) if d > 0 and r.random() < .3 else None))
            elif d > 0: out += self.loop(d, infn, vs, loops)
        return out
    def loop(self, d, infn, vs, loops):
        r = self.r
        k = r.choice(['forin'] * 4 + ['forc', 'while', 'match', 'block', 'fn'])
        if k == 'forin':
            t, c = self.coll(vs)
            v = self.name('i')
            return [FORIN(v, c, BLOCK(*self.body(d - 1, loops + 1, infn, vs + ([(v, t)] if t != 'any' else []))))]
        if k == 'forc':
            v = self.name('c')
            return [FORC(LET(v, INT(0)), BIN('<', VAR(v), INT(r.randrange(1, 4))), aug(v, '+', INT(1)), BLOCK(*self.body(d - 1, loops + 1, infn, vs + [(v, 'int')])))]
        if k == 'while':
            v = self.name('w')
            return [LET(v, INT(r.randrange(1, 4))), WHILE(BIN('>', VAR(v), INT(0)), BLOCK(aug(v, '-', INT(1)), *self.body(d - 1, loops + 1, infn, vs + [(v, 'int')])))]
        if k == 'match':
            v = self.name('m')
            return [MATCH(self.value(vs), ARM(PLIT(INT(r.randrange(4))), BLOCK(*self.body(d - 1, loops, infn, vs))), ARM(PALT(PTYPE('str'), PUNDEF()), BLOCK(self.leave(loops, infn, vs))),
                          ARM(PLET(v), BLOCK(*self.body(d - 1, loops, infn, vs), self.leave(loops, infn, vs)), BIN('<', INT(0), INT(r.randrange(2)))), ARM(PANY(), BLOCK(*self.body(d - 1, loops, infn, vs))))]
        if k == 'fn' and d > 1:
            f = self.name('g')
            return [FNLET(f, FN([], BLOCK(*self.body(d - 1, 0, True, vs)))), ECHO(CALL(VAR(f)))]
        return [BLOCK(*self.body(d - 1, loops, infn, vs))]
    def program(self):
        st = [LET('fs', LIST())] if self.caps else []
        for _ in range(self.r.randrange(1, 4)):
            f = self.name('f'); ps = [self.name('a') for _ in range(self.r.randrange(1, 3))]
            vs = [(p, 'int') for p in ps]
            st.append(FNLET(f, FN(ps, BLOCK(*self.loop(4, True, vs, 0), *self.body(3, 0, True, vs)))))
            self.fns.append((f, len(ps)))
        for _ in range(2):
            v = self.name('i')
            f, k = self.r.choice(self.fns)
            st.append(FORIN(v, LIST(*[INT(i) for i in range(self.r.randrange(2, 5))]), BLOCK(ECHO(VAR(v)), ECHO(CALL(VAR(f), *[self.num([(v, 'int')]) for _ in range(k)])), *self.body(2, 1, False, [(v, 'int')]), ECHO(VAR(v)))))
        if self.caps: st += [FORIN('h', MCALL(VAR('fs'), 'copy'), BLOCK(ECHO(CALL(VAR('h'))))), FORIN('h', VAR('fs'), BLOCK(ECHO(CALL(VAR('h'))))), ECHO(UN('len', VAR('fs')))]
        return FILE(*st)
CMPS = ['<', '<=', '>', '>=', '==', '!=']
def exits(rng): return Case(Exits(rng).program(), note='leaving loops and functions')
def shared(rng): return Case(Exits(rng, .35).program(), note='functions that share variables, loops and functions being left')

# ---------------------------------------------------------------------------------------------------- C07
def multi_expr(r, d=2):
    """expressions built of calls with several results"""
    k = r.random()
    if d == 0 or k < .15: return INT(r.randrange(10))
    a = [multi_expr(r, d - 1) for _ in range(r.randrange(0, 4))]
    if k < .6: return CALL(VAR('f%d' % r.randrange(5)), *a)
    if k < .7: return MCALL(LIST(*a), 'spread')
    if k < .76: return CALL(L('collections.list'), *a)
    if k < .80: return UN('len', LIST(*a))
    if k < .84: return BIN('~', CALL(VAR('s'), *a), S('.'))
    if k < .88: return TERN(BOOL(r.random() < .5), multi_expr(r, d - 1), multi_expr(r, d - 1))
    if k < .92: return r.choice([AND, OR, NN])(multi_expr(r, d - 1), multi_expr(r, d - 1))
    if k < .96: return CALL(FN(['x', 'y'], BLOCK(RET(VAR('y'), VAR('x')))), *a)
    return LIST(*a)
def calls_program(rng):
    r = rng
    st = []
    for i in range(5):
        np = r.randrange(0, 5)
        ps = ['a', 'b', 'c', 'd'][:np]
        body = []
        if r.random() < .4: body.append(ECHO(cat(S('f%d' % i), *sum([[S(' '), VAR(p)] for p in ps], []))))
        nr = r.choice([1, 1, 1, 2, 3, 4])
        if r.random() < .15: body.append(IF(BIN('==', VAR(ps[0]), INT(1)) if ps else BOOL(False), BLOCK(RET(INT(99), INT(98)))))
        rets = [VAR(r.choice(ps)) if ps and r.random() < .7 else INT(r.randrange(10, 20)) for _ in range(nr)]
        if i > 0 and nr and r.random() < .3: rets[-1] = CALL(VAR('f%d' % r.randrange(i)), *[INT(k) for k in range(r.randrange(3))])
        if r.random() < .8: body.append(RET(*rets))
        st.append(FNLET('f%d' % i, FN(ps, BLOCK(*body))))
    st.append(FNLET('s', FN(['x', 'y', 'z'], BLOCK(RET(cat(S('<'), VAR('x'), S(','), VAR('y'), S(','), VAR('z'), S('>')))))))
    k = 0
    for _ in range(9):
        x = r.random()
        e = multi_expr(r)
        if x < .25: st.append(ECHO(e))
        elif x < .4: st.append(ECHO(CALL(VAR('s'), *[multi_expr(r, 1) for _ in range(r.randrange(5))])))
        elif x < .5: st.append(ECHO(CALL(L('collections.list'), *[multi_expr(r, 1) for _ in range(r.randrange(4))])))
        elif x < .6: st.append(EXPR(e) if e.o in ('call', 'mcall') else ECHO(e))
        elif x < .75:
            n = r.randrange(1, 4)
            ns = ['m%d' % (k + j) for j in range(n)]; k += n
            st.append(N('let', [multi_expr(r, 1) for _ in range(r.randrange(1, n + 1))], p=ns)); st += [ECHO(VAR(q)) for q in ns]
        elif x < .85 and k > 1:
            ts = [TOVAR('m%d' % r.randrange(k)) for _ in range(r.randrange(2, 4))]
            st.append(MASGN(ts, [multi_expr(r, 1) for _ in range(r.randrange(1, len(ts) + 1))]))
            st += [ECHO(VAR(t.s)) for t in ts]
        elif x < .92: st.append(ECHO(LIST(*[multi_expr(r, 1) for _ in range(r.randrange(4))])))
        else:
            st.append(LET('o%d' % k, TABLE(S('f'), VAR('s')))); st.append(ECHO(MCALL(VAR('o%d' % k), 'f', *[multi_expr(r, 1) for _ in range(r.randrange(3))]))); k += 1
            st.pop(-2); st[-1] = ECHO(CALL(VAR('s'), e))
            k -= 1
    return Case(FILE(*st), note='calls')
def fix_let(root):
    """a declaration needs as many names as it has values, unless the last is a call"""
    return root
def noncallable_cases():
    out = []
    arg = lambda: CALL(VAR('p'), S('arg'))
    for v in [UNDEF, lambda: BOOL(True), lambda: INT(1), lambda: FLT(32), lambda: S('a'), lambda: LIST(), lambda: LIST(INT(1)), lambda: TABLE(S('a'), INT(1)), lambda: CALL(L('collections.set'))]:
        for how in range(5):
            st = [FNLET('p', FN(['x'], BLOCK(ECHO(VAR('x')), RET(VAR('x'))))), LET('v', v())]
            if how == 0: st.append(EXPR(CALL(VAR('v'), arg())))
            elif how == 1: st.append(ECHO(CALL(GET(LIST(VAR('v')), INT(0)), arg(), arg())))
            elif how == 2: st.append(ECHO(MCALL(VAR('v'), 'nosuchmethod', arg())))
            elif how == 3: st.append(ECHO(CALL(VAR('p'), CALL(VAR('v')))))
            else: st.append(ECHO(MCALL(TABLE(S('m'), VAR('v')), 'm', arg())))
            out.append(Case(FILE(*st, ECHO(S('after'))), note='calling what is not a function'))
    return out
def recursion_program(rng):
    r = rng
    n = r.randrange(2, 14)
    k = r.randrange(5)
    if k == 0:
        st = [FNLET('fact', FN(['n'], BLOCK(IF(BIN('<', VAR('n'), INT(2)), BLOCK(RET(INT(1)))), RET(BIN('*', VAR('n'), CALL(VAR('fact'), BIN('-', VAR('n'), INT(1)))))))), ECHO(CALL(VAR('fact'), INT(min(n, 19))))]
    elif k == 1:
        st = [FNLET('fib', FN(['n'], BLOCK(RET(TERN(BIN('<', VAR('n'), INT(2)), VAR('n'), BIN('+', CALL(VAR('fib'), BIN('-', VAR('n'), INT(1))), CALL(VAR('fib'), BIN('-', VAR('n'), INT(2))))))))), ECHO(CALL(VAR('fib'), INT(n % 9)))]
    elif k == 2:
        st = [LET('g', UNDEF()), FNLET('even', FN(['n'], BLOCK(RET(TERN(BIN('==', VAR('n'), INT(0)), BOOL(True), CALL(VAR('g'), BIN('-', VAR('n'), INT(1)))))))),
              FNLET('odd', FN(['n'], BLOCK(RET(TERN(BIN('==', VAR('n'), INT(0)), BOOL(False), CALL(VAR('even'), BIN('-', VAR('n'), INT(1)))))))), ASSIGN('g', VAR('odd')), ECHO(CALL(VAR('even'), INT(n))), ECHO(CALL(VAR('odd'), INT(n)))]
    elif k == 3:
        st = [FNLET('walk', FN(['t', 'd'], BLOCK(FORIN('x', VAR('t'), BLOCK(MATCH(VAR('x'), ARM(PTYPE('list'), BLOCK(EXPR(CALL(VAR('walk'), VAR('x'), BIN('+', VAR('d'), INT(1)))))), ARM(PANY(), BLOCK(ECHO(cat(S(''), VAR('d'), S(':'), VAR('x'))), IF(BIN('==', VAR('x'), INT(n)), BLOCK(RET(S('cut')))))))))))),
              ECHO(CALL(VAR('walk'), lst([1, [2, [3, n], 4, []], [[[5]]], n, 6]), INT(0)))]
    else:
        st = [FNLET('count', FN(['n', 'm'], BLOCK(IF(BIN('==', VAR('n'), INT(0)), BLOCK(RET(VAR('m'), VAR('n'), S('x')))), RET(CALL(VAR('count'), BIN('-', VAR('n'), INT(1)), BIN('+', VAR('m'), INT(2))))))),
              MASGN([LETV('p'), LETV('q'), LETV('z')], [CALL(VAR('count'), INT(n), INT(0))]), ECHO(VAR('p')), ECHO(VAR('q')), ECHO(VAR('z')), ECHO(CALL(L('collections.list'), CALL(VAR('count'), INT(n), INT(1))))]
    return Case(FILE(*st), note='recursion')

# ---------------------------------------------------------------------------------------------------- C10
def list_history(rng, n=26):
    """operations on lists through variables that may be aliases of each other"""
    r = rng
    vs = ['a', 'b', 'c']
    st = []
    model = {}
    def elem():
        x = r.random()
        if x < .6: return INT(r.randrange(6))
        if x < .75: return S(r.choice(['x', 'y', '']))
        if x < .85: return FLT(64 * r.randrange(4))
        if x < .9: return UNDEF()
        return LIST(INT(r.randrange(3)))
    for v in vs:
        k = r.randrange(4)
        model[v] = [0] * k      # only the length matters
        st.append(LET(v, LIST(*[elem() for _ in range(k)])))
    homog = r.random() < .3
    if homog:
        st = []
        kind = r.choice([lambda: INT(r.randrange(50)), lambda: S(r.choice('abcdefgh') * r.randrange(1, 3)), lambda: FLT(r.randrange(100))])
        elem = kind
        for v in vs:
            k = r.randrange(8); model[v] = [0] * k
            st.append(LET(v, LIST(*[elem() for _ in range(k)])))
    big = r.random() < .25
    for i in range(n):
        v = r.choice(vs); m = model[v]; x = VAR(v); ln = len(m)
        idx = lambda lo=0: INT(r.randrange(-ln, ln)) if ln else INT(0)
        op = r.choice(['push', 'push', 'pushl', 'pop', 'insert', 'insert', 'get', 'set', 'set', 'slice', 'cat', 'copy', 'reverse', 'sort', 'clear', 'search', 'count', 'join', 'len', 'for', 'eq', 'alias', 'fill', 'spread', 'comp', 'augset', 'pops'])
        if op == 'push': st.append(act(r, MCALL(x, 'push', elem()), x)); m.append(0)
        elif op == 'pushl':
            st.append(ECHO(UN('len', MCALL(MCALL(x, 'push', elem()), 'push', elem())))); m += [0, 0]
        elif op == 'pop' and ln: st.append(ECHO(MCALL(x, 'pop'))); m.pop()
        elif op == 'pops' and ln > 2:
            k = r.randrange(1, ln)
            st.append(FORC(LET('i', INT(0)), BIN('<', VAR('i'), INT(k)), aug('i', '+', INT(1)), BLOCK(EXPR(MCALL(x, 'pop')))))
            del m[ln - k:]
        elif op == 'insert':
            k = r.randrange(-ln, ln + 1) if ln else 0
            st.append(act(r, MCALL(x, 'insert', INT(k), elem()), x) if r.random() < .8 else ECHO(UN('len', MCALL(x, 'insert', INT(k), elem())))); m.append(0)
        elif op == 'get' and ln: st.append(ECHO(GET(x, idx())))
        elif op == 'set' and ln: st.append(SETST(x, idx(), elem()))
        elif op == 'augset' and ln and homog and kind().o == 'int': st.append(AUGSET(r.choice('+-'), x, idx(), INT(r.randrange(5))))
        elif op == 'slice':
            w = r.choice(vs)
            if w == v or r.random() < .5:
                st.append(ECHO(SLICE(x, INT(r.randrange(-3, 3)), r.choice([None, INT(r.randrange(-3, 5))])))); continue
            lo, hi = sorted([r.randrange(0, ln + 1), r.randrange(0, ln + 1)])
            st.append(ASSIGN(w, SLICE(x, INT(lo), INT(hi))))
            model[w] = [0] * (hi - lo)
        elif op == 'cat':
            w, u = r.choice(vs), r.choice(vs)
            if len(model[w]) + len(model[u]) > 40: continue
            st.append(ASSIGN(v, BIN('+', VAR(w), VAR(u)))); model[v] = [0] * (len(model[w]) + len(model[u]))
        elif op == 'copy':
            w = r.choice(vs); st.append(ASSIGN(v, MCALL(VAR(w), 'copy'))); model[v] = list(model[w])
        elif op == 'alias':
            w = r.choice(vs); st.append(ASSIGN(v, VAR(w))); model[v] = model[w]
        elif op == 'reverse': st.append(act(r, MCALL(x, 'reverse'), x))
        elif op == 'sort' and homog: st.append(act(r, MCALL(x, 'sort'), x))
        elif op == 'clear' and r.random() < .3: st.append(act(r, MCALL(x, 'clear'), x)); m.clear()
        elif op == 'search': st.append(ECHO(BIN('==', MCALL(x, 'search', INT(77)), UNDEF())))
        elif op == 'count': st.append(ECHO(MCALL(x, 'count', elem() if not r.random() < .1 else UNDEF())))
        elif op == 'join' and homog: st.append(ECHO(MCALL(x, 'join', S(r.choice([',', '', ', '])))))
        elif op == 'len': st.append(ECHO(UN('len', x)))
        elif op == 'for': st.append(FORIN('e', x, BLOCK(ECHO(VAR('e')))))
        elif op == 'comp': st.append(ECHO(LCOMP(LIST(VAR('e')), 'e', x)))
        elif op == 'eq': st.append(ECHO(BIN('==', x, VAR(r.choice(vs)))))
        elif op == 'spread': st.append(ECHO(CALL(L('collections.list'), INT(0), MCALL(x, 'spread'))))
        elif op == 'fill' and big and ln < 40:
            k = r.randrange(3, 30)
            st.append(FORC(LET('i', INT(0)), BIN('<', VAR('i'), INT(k)), aug('i', '+', INT(1)), BLOCK(EXPR(MCALL(x, 'push', BIN('*', VAR('i'), INT(7)) if not homog or kind().o == 'int' else elem())))))
            m += [0] * k
        if r.random() < .25: st.append(ECHO(VAR(r.choice(vs))))
    st += [ECHO(VAR(v)) for v in vs]
    if r.random() < .35:
        v = r.choice(vs); ln = len(model[v]); x = VAR(v)
        st += [r.choice([ECHO(GET(x, INT(ln))), ECHO(GET(x, INT(-ln - 1))), SETST(x, INT(ln), INT(1)), SETST(x, INT(-ln - 1), INT(1)), EXPR(MCALL(x, 'insert', INT(ln + 1), INT(1))), EXPR(MCALL(x, 'insert', INT(-ln - 1), INT(1))),
                         EXPR(MCALL(x, 'insert', S('a'), INT(1))), ECHO(GET(x, FLT(0))), SETST(x, S('a'), INT(1)), EXPR(MCALL(x, 'join', INT(1))), ECHO(BIN('+', x, INT(1))), ECHO(MCALL(LIST(), 'pop')), EXPR(MCALL(LIST(INT(1), S('a')), 'sort')),
                         ECHO(GET(x, BIG_IDX)), ECHO(SLICE(x, S('a'), None)), ECHO(SLICE(x, None, FLT(64)))]), ECHO(S('not reached'))]
    return Case(FILE(*st), note='history of lists')
BIG_IDX = INT(1 << 40)

# ---------------------------------------------------------------------------------------------------- C11
KEYS = [INT(0), INT(1), INT(2), INT(-1), FLT(0), FLT(64), FLT(32), S('a'), S('b'), S('ab'), S(''), S('1'), S('0'), BOOL(True), BOOL(False), INT(7), INT(24), INT(31), S('aa'), S('ba')]
def table_history(rng, n=30):
    r = rng
    vs = ['a', 'b', 'c']
    pool = r.sample(KEYS, r.choice([4, 8, 14]))
    if r.random() < .4: pool = [INT(i) for i in range(r.choice([6, 20, 40]))]
    key = lambda: copy.deepcopy(r.choice(pool))
    cnt = [0]
    def v():
        cnt[0] += 1
        return INT(cnt[0]) if r.random() < .8 else r.choice([S('v'), LIST(INT(cnt[0])), BOOL(False), FLT(32)])
    def tab(k):
        t = []
        for q in r.sample(pool, min(k, len(pool))): t += [copy.deepcopy(q), v()]
        return TABLE(*t)
    st = [LET(x, tab(r.randrange(4))) for x in vs]
    for i in range(n):
        x = r.choice(vs); X = VAR(x)
        op = r.choice(['set'] * 6 + ['setundef', 'setundef', 'remove', 'remove', 'get', 'get', 'get', 'len', 'len', 'keys', 'values', 'copy', 'merge', 'clear', 'alias', 'for', 'eq', 'aug', 'fill', 'drain', 'dot', 'comp', 'echo', 'probe', 'mkeq'])
        if op == 'set': st.append(SETST(X, key(), v()))
        elif op == 'setundef': st.append(SETST(X, key(), UNDEF()))
        elif op == 'remove': st.append(act(r, MCALL(X, 'remove', key()), X))
        elif op == 'get': st.append(ECHO(GET(X, key())))
        elif op == 'len': st.append(ECHO(UN('len', X)))
        elif op == 'keys': st.append(ECHO(MCALL(X, 'keys')))
        elif op == 'values': st.append(ECHO(MCALL(X, 'values')))
        elif op == 'copy': st.append(ASSIGN(x, MCALL(VAR(r.choice(vs)), 'copy')))
        elif op == 'merge': st.append(ASSIGN(x, BIN('|', VAR(r.choice(vs)), VAR(r.choice(vs)))))
        elif op == 'clear' and r.random() < .4: st.append(act(r, MCALL(X, 'clear'), X))
        elif op == 'alias': st.append(ASSIGN(x, VAR(r.choice(vs))))
        elif op == 'for': st.append(FORIN('e', X, BLOCK(ECHO(VAR('e')), ECHO(GET(X, VAR('e'))))))
        elif op == 'eq': st.append(ECHO(BIN(r.choice(['==', '!=']), X, VAR(r.choice(vs)))))
        elif op == 'mkeq': st.append(ECHO(BIN('==', MCALL(X, 'copy'), X)))
        elif op == 'aug':
            k = key()
            st += [SETST(X, k, INT(i)), AUGSET('+', X, copy.deepcopy(k), INT(3))]
        elif op == 'fill':
            k = r.choice([5, 12, 24]); lo = r.randrange(3)
            st.append(FORC(LET('i', INT(0)), BIN('<', VAR('i'), INT(k)), aug('i', '+', INT(1)), BLOCK(SETST(X, BIN('+', VAR('i'), INT(lo)), VAR('i')))))
        elif op == 'drain':
            k = r.choice([4, 11, 24]); lo = r.randrange(5)
            st.append(FORC(LET('i', INT(0)), BIN('<', VAR('i'), INT(k)), aug('i', '+', INT(1)), BLOCK(EXPR(MCALL(X, 'remove', BIN('+', VAR('i'), INT(lo)))) if r.random() < .5 else SETST(X, BIN('+', VAR('i'), INT(lo)), UNDEF()))))
        elif op == 'dot': st += [SETST(X, S('foo'), v()), ECHO(GET(X, S('foo')))]
        elif op == 'comp': st.append(ASSIGN(x, TCOMP(VAR('e'), LIST(VAR('e')), 'e', LIST(*[key() for _ in range(3)]))))
        elif op == 'echo': st.append(ECHO(X))
        elif op == 'probe': st.append(ECHO(LCOMP(NN(GET(X, VAR('e')), S('-')), 'e', LIST(*[copy.deepcopy(q) for q in pool[:8]]))))
    st += [ECHO(UN('len', VAR(x))) for x in vs]
    for x in vs: st.append(FORIN('e', VAR(x), BLOCK(ECHO(cat(S(''), VAR('e'), S('='), GET(VAR(x), VAR('e')))))) if r.random() < .6 else ECHO(VAR(x)))
    if r.random() < .3:
        X = VAR(r.choice(vs))
        bad = r.choice([LIST(), TABLE(), UNDEF(), LIST(INT(1)), CALL(L('collections.set'))])
        st += [r.choice([SETST(X, bad, INT(1)), ECHO(BIN('|', X, INT(1))), ECHO(TABLE(bad, INT(1))), ECHO(CALL(L('collections.table'), bad, INT(1))), ECHO(BIN('+', X, X))]), ECHO(S('not reached'))]
    return Case(FILE(*st), note='history of tables')

# ---------------------------------------------------------------------------------------------------- C12
def set_history(rng, n=28):
    r = rng
    vs = ['a', 'b', 'c']
    pool = r.sample(KEYS, r.choice([4, 6, 10]))
    if r.random() < .4: pool = [INT(i) for i in range(r.choice([5, 20, 40]))]
    key = lambda: copy.deepcopy(r.choice(pool))
    mk = lambda k: CALL(L('collections.set'), *[key() for _ in range(k)]) if r.random() < .7 or k == 1 else CALL(L('collections.set'), LIST(*[key() for _ in range(k)]))
    st = [LET(x, mk(r.randrange(5))) for x in vs]
    for i in range(n):
        x = r.choice(vs); X = VAR(x); y, z = r.choice(vs), r.choice(vs)
        op = r.choice(['add'] * 5 + ['remove'] * 3 + ['has'] * 3 + ['len', 'tolist', 'copy', 'op', 'op', 'op', 'cmp', 'cmp', 'cmp', 'clear', 'alias', 'fill', 'drain', 'new', 'echo', 'addl', 'opaug'])
        if op == 'add': st.append(act(r, MCALL(X, 'add', key()), X))
        elif op == 'addl': st.append(ECHO(UN('len', MCALL(MCALL(X, 'add', key()), 'add', key()))))
        elif op == 'remove': st.append(EXPR(MCALL(X, 'remove', key())) if r.random() < .7 else ECHO(MCALL(X, 'remove', key())))
        elif op == 'has': st.append(ECHO(LCOMP(GET(X, VAR('e')), 'e', LIST(*[key() for _ in range(4)]))))
        elif op == 'len': st.append(ECHO(UN('len', X)))
        elif op == 'tolist': st.append(ECHO(MCALL(X, 'tolist')))
        elif op == 'copy': st.append(ASSIGN(x, MCALL(VAR(y), 'copy')))
        elif op == 'op': st.append(ASSIGN(x, BIN(r.choice(['|', '&', '^', '&^']), VAR(y), VAR(z))))
        elif op == 'opaug':
            e = BIN(r.choice(['|', '&', '^', '&^']), X, VAR(z)); e.fmt = 'aug'
            st.append(ASSIGN(x, e))
        elif op == 'cmp': st.append(ECHO(cat(S(''), *sum([[BIN(o, VAR(y), VAR(z)), S(' ')] for o in ('<', '<=', '>', '>=', '==', '!=')], []))))
        elif op == 'clear' and r.random() < .5: st.append(act(r, MCALL(X, 'clear'), X))
        elif op == 'alias': st.append(ASSIGN(x, VAR(y)))
        elif op == 'new': st.append(ASSIGN(x, mk(r.randrange(7))))
        elif op == 'fill': st.append(FORC(LET('i', INT(0)), BIN('<', VAR('i'), INT(r.choice([4, 12, 24]))), aug('i', '+', INT(1)), BLOCK(EXPR(MCALL(X, 'add', BIN('*', VAR('i'), INT(r.choice([1, 2, 7]))))))))
        elif op == 'drain': st.append(FORC(LET('i', INT(0)), BIN('<', VAR('i'), INT(r.choice([4, 12, 24]))), aug('i', '+', INT(1)), BLOCK(EXPR(MCALL(X, 'remove', BIN('*', VAR('i'), INT(r.choice([1, 2]))))))))
        elif op == 'echo': st.append(ECHO(X))
    st += [ECHO(UN('len', VAR(x))) for x in vs] + [ECHO(VAR(x)) for x in vs]
    if r.random() < .3:
        X = VAR(r.choice(vs))
        st += [r.choice([EXPR(MCALL(X, 'add', LIST())), EXPR(MCALL(X, 'add', UNDEF())), ECHO(BIN(r.choice(['|', '&', '^', '&^', '<', '>=']), X, LIST())), ECHO(CALL(L('collections.set'), INT(1), TABLE())), ECHO(BIN('+', X, X)), ECHO(CALL(L('collections.set'), LIST(LIST())))]), ECHO(S('not reached'))]
    return Case(FILE(*st), note='history of sets')

# ---------------------------------------------------------------------------------------------------- C13
def words(alpha, n): return [''.join(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k)]
def str_programs(r, full=False):
    """every method on all short strs over two letters"""
    subj = words('ab', 5 if full else 4)
    need = [w for w in words('ab', 3) if w]
    extra = ['', ' ', '  ', ' a ', '\ta\n', 'a b', ' a  b ', 'aXbX', 'Hello', 'aaaaaaa', 'abababab', 'baab aab', 'A1', '12', '1a', 'z', 'Z', '{', '@', '[', '`', '/', ':', '0', '9', 'a_b', 'ab\n', '\n']
    cases = []
    def over(ss, ns, exprs, note):
        """exprs(s, n): expressions to print"""
        per = max(1, 260 // max(1, len(ns) * len(exprs(VAR('s'), VAR('n')))))
        for i in range(0, len(ss), per):
            part = ss[i:i + per]
            body = [ECHO(cat(*( [S('')] + sum([[e, S('|')] for e in exprs(VAR('s'), VAR('n'))], [])))) ]
            inner = FORIN('n', lst(ns), BLOCK(*body)) if ns != [None] else body[0]
            cases.append(Case(FILE(FORIN('s', lst(part), BLOCK(inner)), ), note=note))
    ns = need + ['c']
    over(subj + extra[:14], ns, lambda s, n: [MCALL(s, 'count', n), MCALL(s, 'startswith', n), MCALL(s, 'endswith', n), NN(MCALL(s, 'search', n), S('-'))], 'searching')
    over(subj + extra[:14], ns, lambda s, n: [MCALL(s, 'ltrim', n), MCALL(s, 'rtrim', n), MCALL(s, 'trim', n)], 'trimming')
    over(subj + extra[:14], ns, lambda s, n: [MCALL(MCALL(s, 'split', n), 'join', S(',')), UN('len', MCALL(s, 'split', n))], 'splitting')
    for rep in (['', 'x', 'ab', 'aab'] if full else r.sample(['', 'x', 'ab', 'aab'], 2)):
        over(subj + extra[:14], ns, lambda s, n: [MCALL(s, 'replace', n, S(rep))], 'replacing')
    over(subj, ['a', 'b', 'ab', 'aa'], lambda s, n: [MCALL(s, 'replace', n, S('aXa'), INT(k)) for k in (-1, 0, 1, 2)], 'replacing with a limit')
    over(subj[:12] + extra, [None], lambda s, n: [MCALL(s, 'toupper'), MCALL(s, 'tolower'), MCALL(s, 'isal'), MCALL(s, 'isnum'), MCALL(s, 'isalnum'), MCALL(s, 'isspace'), MCALL(s, 'trim'), MCALL(s, 'ltrim'), MCALL(s, 'rtrim'), UN('len', s)], 'classification')
    over(subj[:8] + extra, [None], lambda s, n: [MCALL(MCALL(s, 'split'), 'join', S(','))] + [MCALL(s, 'rep', INT(k)) for k in (0, 1, 3)], 'rep and split')
    over(subj[:8] + extra, subj[:8] + extra[:8], lambda s, n: [MCALL(s, 'startswith', n), MCALL(s, 'endswith', n), BIN('==', s, n), BIN('<', s, n), BIN('>=', s, n), BIN('~', s, n)], 'comparing')
    return cases
def str_history(rng, n=14):
    """strs that are parts of other strs"""
    r = rng
    st = []
    base = r.choice(['hello world', 'abcabcabc', 'aXbXc', '  padded  ', 'aaaaaa', 'a,b,,c,', 'MiXeD 12', 'yaslyasl', ' \t x', 'abababa'])
    st.append(LET('s0', S(base)))
    k = 1
    lens = [len(base)]
    for _ in range(n):
        i = r.randrange(k); s = VAR('s%d' % i); j = VAR('s%d' % r.randrange(k))
        sub = SLICE(VAR('s%d' % r.randrange(k)), INT(r.randrange(0, 4)), INT(r.randrange(2, 7)))
        need = r.choice([S(r.choice(['a', 'b', 'l', 'X', 'ab', 'aa', ',', ' ', 'o w'])), S(r.choice(['a', 'X', 'ba', 'll']))])
        e = r.choice([lambda: SLICE(s, INT(r.randrange(-6, 6)), r.choice([None, INT(r.randrange(-6, 9))])), lambda: BIN('~', s, sub), lambda: MCALL(s, 'replace', need, sub), lambda: MCALL(s, 'toupper'), lambda: MCALL(s, 'tolower'), lambda: MCALL(s, 'trim'),
                      lambda: MCALL(s, 'trim', need), lambda: MCALL(s, 'ltrim', need), lambda: MCALL(s, 'rtrim', need), lambda: MCALL(sub, 'rep', INT(r.randrange(3))), lambda: MCALL(MCALL(s, 'split', need), 'join', sub), lambda: MCALL(s, 'tostr'),
                      lambda: MCALL(LIST(s, sub), 'join', j)])()
        st.append(LET('s%d' % k, e)); k += 1
        if r.random() < .5: st.append(ECHO(VAR('s%d' % (k - 1))))
        if r.random() < .3: st += echo(MCALL(s, 'count', need), MCALL(s, 'startswith', sub), MCALL(s, 'endswith', sub), MCALL(s, 'search', sub), BIN('==', s, VAR('s%d' % (k - 1))), UN('len', s), MCALL(s, 'isal'))
        if r.random() < .2: st += [LET('t%d' % k, TABLE(sub, INT(1))), ECHO(GET(VAR('t%d' % k), sub)), ECHO(GET(VAR('t%d' % k), MCALL(sub, 'tostr'))), ECHO(GET(VAR('t%d' % k), BIN('~', sub, S(''))))]
    st += [ECHO(VAR('s%d' % i)) for i in range(k)]
    return Case(FILE(*st), note='strs that share their characters')
def str_errors():
    out = []
    ms = ['startswith', 'endswith', 'search', 'count', 'split', 'ltrim', 'rtrim', 'trim', 'rep', 'replace']
    for m in ms:
        for v in [UNDEF, lambda: INT(1), lambda: INT(-1), lambda: FLT(64), lambda: S(''), lambda: LIST(), lambda: BOOL(True), lambda: TABLE(), None]:
            for more in ([], [S('x')], [S('x'), INT(1)], [S('x'), S('y')], [INT(3)], [S('x'), FLT(64)]):
                a = ([v()] if v else []) + more
                if m not in ('replace',) and len(a) > 2: continue
                out.append(Case(FILE(ECHO(S('x')), ECHO(MCALL(S('abab'), m, *a)), ECHO(S('y'))), note='arguments of str.' + m))
    for m in ('toupper', 'tolower', 'isal', 'isnum', 'isalnum', 'isspace', 'tostr', 'tobool', 'toint', 'tofloat'):
        out.append(Case(FILE(ECHO(MCALL(S('a'), m, INT(1), INT(2)))), note='surplus arguments'))
    # methods of one type on another
    for m in ms + ['toupper', '__len', '__get']:
        for v in (INT(1), LIST(), TABLE(), UNDEF()):
            out.append(Case(FILE(LET('m', GET(S('a'), S(m))), ECHO(S('x')), ECHO(CALL(VAR('m'), lit(v), S('a'))), ECHO(S('y'))), note='methods of str on something else'))
    return out

# ---------------------------------------------------------------------------------------------------- C14
def index_programs(rng):
    cases = []
    for n in range(0, 6):
        s = 'abcdefg'[:n]
        l = list(range(10, 10 + n))
        for obj in (S(s), SLICE(CALL(L('lit'), S('<' + s + '>>')), INT(1), INT(1 + n)), lst(l)):
            st = [LET('x', obj)]
            for i in range(-n, n):
                st.append(ECHO(GET(VAR('x'), INT(i))))
            st.append(FORC(LET('i', INT(-n)), BIN('<', VAR('i'), INT(n)), aug('i', '+', INT(1)), BLOCK(ECHO(GET(VAR('x'), VAR('i'))))))
            rg = list(range(-n - 2, n + 3))
            st.append(FORIN('i', lst(rg), BLOCK(FORIN('j', lst(rg), BLOCK(ECHO(SLICE(VAR('x'), VAR('i'), VAR('j'))))))))
            st.append(FORIN('i', lst(rg), BLOCK(ECHO(SLICE(VAR('x'), VAR('i'))), ECHO(SLICE(VAR('x'), None, VAR('i'))))))
            st.append(ECHO(SLICE(VAR('x'))))
            st.append(ECHO(VAR('x')))
            for b in (1 << 31, 1 << 32, (1 << 32) + 1, 1 << 62, -(1 << 31), -(1 << 32), -(1 << 62), MAXI):
                st += [ECHO(SLICE(VAR('x'), INT(b))), ECHO(SLICE(VAR('x'), None, INT(b))), ECHO(SLICE(VAR('x'), INT(b), INT(-b)))]
            cases.append(Case(FILE(*st), note='indexing and slicing'))
            for i in (n, -n - 1, n + 1, 1 << 32, -(1 << 32), (1 << 32) + 1, 1 << 62, MAXI, -MAXI):
                cases.append(Case(FILE(LET('x', obj), ECHO(S('before')), ECHO(GET(VAR('x'), INT(i))), ECHO(S('after'))), note='index out of range'))
                cases.append(Case(FILE(LET('x', obj), LET('i', INT(i)), ECHO(GET(VAR('x'), VAR('i'))), ECHO(S('after'))), note='index out of range'))
        # assignment
        for i in list(range(-n - 1, n + 1)) + [1 << 32]:
            cases.append(Case(FILE(LET('x', lst(l)), LET('y', MCALL(VAR('x'), 'copy')), LET('z', VAR('x')), SETST(VAR('x'), INT(i), S('!')), ECHO(VAR('x')), ECHO(VAR('y')), ECHO(VAR('z'))), note='assignment to an element'))
    return cases
MAXI = (1 << 63) - 1
def index_errors():
    out = []
    objs = [UNDEF, lambda: BOOL(True), lambda: INT(5), lambda: FLT(96), lambda: S('abc'), lambda: lst([1, 2]), lambda: lit({'a': 1, 0: 'z'}), lambda: CALL(L('collections.set'), INT(1), S('a')), lambda: FN([], BLOCK()), lambda: L('math.abs')]
    idxs = [UNDEF, lambda: BOOL(True), lambda: INT(0), lambda: INT(1), lambda: FLT(64), lambda: S('a'), lambda: S('0'), lambda: LIST(), lambda: S('nosuch'), lambda: S('len'), lambda: L('math.abs')]
    for o in objs:
        for i in idxs:
            for how in range(3):
                x = VAR('o')
                st = [LET('o', o()), LET('i', i()), ECHO(S('before'))]
                if how == 0: st.append(LET('r', GET(x, VAR('i')))); st.append(ECHO(BIN('==', VAR('r'), UNDEF())))
                elif how == 1: st.append(SETST(x, VAR('i'), INT(7))); st.append(ECHO(S('set')))
                else: st.append(ECHO(SLICE(x, VAR('i'))))
                st.append(ECHO(S('after')))
                out.append(Case(FILE(*st), note='indexing anything with anything'))
    return out
def member_cases():
    out = []
    for obj in ({'a': 1, 'bc': [1, {'d': 2}]}, ):
        st = [LET('t', lit(obj)), ECHO(GET(VAR('t'), S('a'))), ECHO(GET(VAR('t'), BIN('~', S('b'), S('c')))), ECHO(GET(GET(GET(VAR('t'), S('bc')), INT(1)), S('d'))), SETST(VAR('t'), S('a'), INT(5)), ECHO(GET(VAR('t'), BIN('~', S('a'), S('')))),
              SETST(GET(GET(VAR('t'), S('bc')), INT(-1)), S('d'), S('new')), ECHO(VAR('t')), ECHO(GET(VAR('t'), S('none'))), AUGSET('+', VAR('t'), S('a'), INT(1)), ECHO(GET(VAR('t'), S('a'))),
              AUGSET('~', GET(GET(VAR('t'), S('bc')), INT(1)), S('d'), S('er')), ECHO(VAR('t'))]
        out += [Case(FILE(*copy.deepcopy(st)), note='members') for _ in range(4)]
    return out

# ---------------------------------------------------------------------------------------------------- C15
def nested(r, d):
    x = r.random()
    if d == 0 or x < .4: return r.choice([UNDEF(), BOOL(True), BOOL(False), INT(r.choice([0, 1, -5, 123456789, 1 << 40, -MAXI])), FLT(r.choice([0, 32, 64, -96, 6400, 1, 3, 64 * 1000000, 64 * 123456 + 16, -1])), S(r.choice(['', 'a', 'b c', "it's", '"q"', '[', ', ', ': ', '\n', 'x\ty', '\\', '#{1}', '{', '`'])), NAN(), INF(), N('fconst', s='-inf')])
    if x < .65: return LIST(*[nested(r, d - 1) for _ in range(r.randrange(4))])
    if x < .85:
        kv = []
        for k in r.sample([0, 1, 2, 'a', 'b', '', True, 1.5], r.randrange(4)): kv += [lit(k), nested(r, d - 1)]
        return TABLE(*kv)
    return CALL(L('collections.set'), *[lit(k) for k in r.sample([0, 1, 2, 'a', 'b', '', True, 1.5], r.randrange(4))])
def print_program(rng):
    r = rng
    st = []
    for i in range(6):
        v = 'v%d' % i
        st.append(LET(v, nested(r, 3)))
        k = r.randrange(7)
        if k == 0: st.append(ECHO(VAR(v)))
        elif k == 1: st.append(ECHO(BIN('~', VAR(v), S('|'))))
        elif k == 2: st.append(ECHO(BIN('~', S('|'), VAR(v))))
        elif k == 3: st.append(ECHO(MCALL(VAR(v), 'tostr')))
        elif k == 4: st.append(ECHO(MCALL(LIST(VAR(v), VAR(v)), 'join', S('; '))))
        elif k == 5: st += [ECHO(LIST(VAR(v), VAR(v))), ECHO(VAR(v))]
        else: st += [LET('s%d' % i, BIN('~', VAR(v), S(''))), ECHO(BIN('==', VAR('s%d' % i), VAR('s%d' % i))), ECHO(UN('len', VAR('s%d' % i)))]
    # containers that contain themselves
    if r.random() < .6:
        ops = ['a', 'b', 't']
        st += [LET('a', LIST(INT(1))), LET('b', LIST(VAR('a'))), LET('t', TABLE(S('k'), VAR('b')))]
        for _ in range(r.randrange(1, 4)):
            tgt = r.choice(ops); src = VAR(r.choice(ops))
            st.append(SETST(VAR('t'), S(r.choice(['k', 'l'])), src) if tgt == 't' else EXPR(MCALL(VAR(tgt), 'push', src)))
        st += [ECHO(VAR(x)) for x in ops]
        st += [ECHO(MCALL(VAR('a'), 'tostr')), ECHO(BIN('~', VAR('b'), S('.')))]
        if r.random() < .4: st.append(ECHO(LIST(VAR('a'), VAR('a'), VAR('t'))))
        if r.random() < .4: st.append(ECHO(MCALL(VAR('b'), 'join', S('+'))))
    return Case(FILE(*st), note='printing')
def number_prints(r, n):
    st = []
    for i in range(n):
        x = r.random()
        if x < .5: e = FLT(r.choice([-1, 1]) * r.choice([r.randrange(1, 130), r.randrange(1, 1 << 29), 64 * r.randrange(1, 1 << 23), r.randrange(1, 64), 64 * 10 ** r.randrange(7), 1 << r.randrange(29)]))
        else: e = INT(r.choice([-1, 1]) * r.choice([r.randrange(1000), r.randrange(1 << 62), 10 ** r.randrange(18), 1 << r.randrange(62)]))
        st.append(r.choice([lambda e: ECHO(e), lambda e: ECHO(BIN('~', e, S(''))), lambda e: ECHO(MCALL(e, 'tostr')), lambda e: ECHO(LIST(e, e))])(e))
    return [Case(FILE(*st[i:i + 30]), note='numbers as text') for i in range(0, n, 30)]

# ---------------------------------------------------------------------------------------------------- C16
OVER = {'+': '__add', '-': '__sub', '*': '__mul', '/': '__div', '//': '__idiv', '%': '__mod', '**': '__pow', '|': '__bor', '^': '__bxor', '&': '__band', '&^': '__bandnot', '<<': '__bshl', '>>': '__bshr',
        '<': '__lt', '<=': '__le', '>': '__gt', '>=': '__ge', '==': '__eq'}
UOVER = {'-': '__neg', '+': '__pos', '^': '__bnot', 'len': '__len'}
def mt_program(rng):
    r = rng
    fns = {}
    ov = r.sample(sorted(set(OVER.values()) | set(UOVER.values()) | {'__get', '__set', 'tostr', 'm', 'size'}), r.randrange(3, 9))
    kv = []
    cap = r.random() < .5
    for name in ov:
        if name in UOVER.values() or name in ('m', 'size'):
            ps = ['self', 'x'] if name == 'm' else ['self']
            body = [ECHO(S(name)), RET(INT(r.randrange(5)) if r.random() < .6 else GET(VAR('raw'), INT(0)))]
            if cap: body.insert(0, aug('calls', '+', INT(1)))
        elif name == '__get':
            ps = ['self', 'key']
            body = [ECHO(cat(S('get '), VAR('key'))), RET(TERN(BIN('==', VAR('key'), S('f')), FN(['o', 'x'], BLOCK(RET(BIN('~', S('f'), VAR('x'))))), BIN('~', S('got '), VAR('key'))))]
        elif name == '__set':
            ps = ['self', 'key', 'val']
            body = [ECHO(cat(S('set '), VAR('key'), S('='), VAR('val')))]
            if r.random() < .6: body.append(SETST(VAR('raw'), INT(0), VAR('val')))
        elif name == 'tostr':
            ps = ['self']
            body = [RET(r.choice([S('<obj>'), S(''), BIN('~', S('n'), VAR('calls'))]))] if r.random() < .9 else [RET(INT(1))]
        else:
            ps = ['self', 'other']
            body = [ECHO(S(name)), RET(r.choice([BOOL(True), BOOL(False), INT(3), S('r'), LIST(INT(1)), UNDEF()]))]
            if r.random() < .4: body.insert(0, ECHO(BIN('===', VAR('self'), VAR('other'))))
            if r.random() < .3: body.insert(0, ECHO(TERN(BIN('===', VAR('self'), VAR('x')), S('self is x'), S('self is not x'))))
            if cap: body.insert(0, aug('calls', '+', INT(1)))
        kv += [S(name), FN(ps, BLOCK(*body))]
    obj = r.choice([lambda: lst([4, 5]), lambda: lit({'a': 1, 'm': 2}), lambda: CALL(L('collections.set'), INT(1)), lambda: TABLE(), lambda: LIST()])
    st = [LET('calls', INT(0)), LET('raw', lst([8])), LET('x', obj()), LET('y', obj()), LET('z', obj())]
    st.append(LET('M', TABLE(*kv)))
    # functions refer to x: declared before
    st += [EXPR(CALL(L('mt.set'), VAR('x'), VAR('M')))]
    if r.random() < .5: st += [EXPR(CALL(L('mt.set'), VAR('y'), VAR('M')))]
    for _ in range(r.randrange(3, 9)):
        a = VAR('x') if r.random() < .8 else VAR(r.choice('yz'))
        b = VAR(r.choice(['x', 'y', 'z'])) if r.random() < .7 else INT(1)
        k = r.random()
        if k < .4:
            cands = [o for o in OVER if OVER[o] in ov] if r.random() < .85 else list(OVER)
            if not cands: continue
            op = r.choice(cands)
            if r.random() < .12: a, b = INT(1), a
            e = BIN(op, a, b)
            st.append(LET('q', e)) if False else st.append(ECHO(e) if r.random() < .7 else ECHO(TERN(e, S('T'), S('F'))))
            if op == '==' and r.random() < .5: st.append(ECHO(BIN('!=', a, b)))
        elif k < .5:
            cands = [o for o in UOVER if UOVER[o] in ov] if r.random() < .85 else list(UOVER)
            if cands: st.append(ECHO(UN(r.choice(cands), a)))
        elif k < .6: st.append(ECHO(MCALL(a, r.choice([m for m in ('m', 'size', 'f') if m in ov] or ['m']), INT(4))) if r.random() < .85 else ECHO(MCALL(a, 'nosuch')))
        elif k < .7: st.append(ECHO(GET(a, r.choice([S('a'), S('f2'), S('q'), INT(0), S('m') if 'm' not in ov else S('a')]))))
        elif k < .8: st.append(SETST(a, r.choice([S('a'), INT(0), S('q')]), INT(9)))
        elif k < .86: st.append(ECHO(a))
        elif k < .9: st.append(ECHO(BIN('~', a, S('!'))))
        elif k < .93: st.append(ECHO(BIN('==', LIST(a), LIST(b))))
        elif k < .96: st.append(ECHO(MCALL(LIST(INT(1), a), 'push', INT(1))) if False else ECHO(UN('len', LIST(a, a))))
        else: st += [SETST(VAR('M'), S('late'), FN(['self'], BLOCK(RET(S('late'))))), ECHO(MCALL(a, 'late'))]
    st += [ECHO(VAR('calls')), ECHO(VAR('raw')), ECHO(VAR('z'))]
    if r.random() < .5: st.append(ECHO(BIN('==', VAR('z'), obj())))
    return Case(FILE(*st), note='metatables')

# ---------------------------------------------------------------------------------------------------- C17
def failing(r, g):
    """a statement that fails"""
    v = lambda e: CALL(VAR('id'), e)
    return r.choice([
        lambda: [ECHO(BIN('//', v(INT(1)), INT(0)))], lambda: [ECHO(BIN('%', INT(1), v(INT(0))))], lambda: [ECHO(BIN('+', v(S('a')), INT(1)))], lambda: [ASSERT(v(BOOL(False)))],
        lambda: [ECHO(GET(LIST(INT(1)), v(INT(5))))], lambda: [EXPR(CALL(v(INT(3)), INT(1)))], lambda: [EXPR(MCALL(v(LIST()), 'pop'))], lambda: [EXPR(MCALL(v(S('a')), 'nope'))],
        lambda: [SETST(v(INT(1)), INT(0), INT(1))], lambda: [LET('zz%d' % r.randrange(10 ** 6), BIN('-', v(UNDEF()), INT(1)))], lambda: [ECHO(UN('-', v(S('x'))))], lambda: [FORIN('zz', v(INT(3)), BLOCK(ECHO(VAR('zz'))))],
        lambda: [EXPR(CALL(L('math.abs'), v(S('a'))))], lambda: [EXPR(MCALL(v(S('a')), 'rep', INT(-1)))], lambda: [IF(BIN('<', v(INT(1)), S('a')), BLOCK(ECHO(INT(1))))], lambda: [EXPR(CALL(VAR('boom'), INT(r.randrange(3))))],
        lambda: [EXPR(CALL(VAR('boom'), INT(r.randrange(3))))], lambda: [ECHO(CALL(VAR('id'), CALL(VAR('boom'), INT(1))))], lambda: [WHILE(BIN('>', v(LIST()), INT(1)), BLOCK(BREAK()))], lambda: [ECHO(LIST(INT(1), BIN('*', v(S('q')), INT(2))))],
        lambda: [SETST(v(LIST(INT(1))), INT(4), INT(1))], lambda: [ECHO(SLICE(v(INT(1)), INT(0)))], lambda: [EXPR(MCALL(v(LIST(S('a'), INT(1))), 'sort'))], lambda: [MATCH(v(INT(1)), ARM(PANY(), BLOCK(ECHO(INT(1))), BIN('<', S('a'), v(INT(1)))))]])()
class FailGen(Gen):
    def s_fail(self):
        if self.flip(.5): return failing(self.r, self)
        return IF(self.cond(1), BLOCK(*failing(self.r, self)))
def lines_ok(root):
    """statements that span lines because of a function in the middle of them have no certain line"""
    for n in all_nodes(root):
        for c in n.c + ([x for x in n.q if isinstance(x, N)]):
            if c.o == 'fn' and not (n.o == 'fnlet' or n.o == 'let' and len(n.p) == 1 or n.o == 'setst' and n.fmt == 'fn'): return False
    return True
def fail_program(rng):
    g = FailGen(rng, wild=0, nocomp=True, maxstmt=16, depth=2, sw=dict(fail=2.2, fnlet=4, expr=4, echo=7))
    root = g.program()
    root.c[:0] = [FNLET('id', FN(['x'], BLOCK(RET(VAR('x'))))),
                  FNLET('boom', FN(['n'], BLOCK(IF(BIN('==', VAR('n'), INT(0)), BLOCK(ECHO(S('boom')), ECHO(BIN('//', INT(1), VAR('n'))))), RET(CALL(VAR('boom'), BIN('-', VAR('n'), INT(1)))))))]
    return Case(root, note='failing statements', extra={'lines': 1} if lines_ok(root) else None)

# ---------------------------------------------------------------------------------------------------- C24
def sort_lists(r, quick):
    out = []
    pools = [[1, 2, 3, 4], [1, 1, 2, 2], [3, 1, 2], ['a', 'b', 'ab', ''], ['b', 'a', 'b'], [1.5, 0.5, -1.0, 2.0], [2, 1.5, -3, 0.25], [1, 2, 3, 4, 5], [1, 1, 1, 2, 2], [5, 5, 5, 5, 1]]
    ls = []
    for p in pools:
        ps = sorted(set(itertools.permutations(p)), key=repr)
        ls += [list(x) for x in ps]
    r.shuffle(ls)
    if quick: ls = ls[:240]
    for i in range(0, len(ls), 12):
        st = []
        for l in ls[i:i + 12]:
            st += [LET('l%d' % len(st), lst(l))]
            v = st[-1].p[0]
            st += [act(r, MCALL(VAR(v), 'sort'), VAR(v)), ECHO(VAR(v))]
        out.append(Case(FILE(*st), note='sorting permutations'))
    return out
def sort_random(rng):
    r = rng
    n = r.choice([0, 1, 2, 6, 7, 8, 9, 10, 15, 16, 17, 20, 30, 33, 50])
    k = r.randrange(7)
    if k == 0: l = [r.randrange(8) for _ in range(n)]
    elif k == 1: l = [r.randrange(-1000, 1000) for _ in range(n)]
    elif k == 2: l = [''.join(r.choice('abAB') for _ in range(r.randrange(4))) for _ in range(n)]
    elif k == 3: l = [r.randrange(-200, 200) / 4 for _ in range(n)]
    elif k == 4: l = list(range(n)); l = l if r.random() < .4 else l[::-1]
    elif k == 5:    # numbers of both types, all different
        l = [x if x % 2 else x / 2 + .25 for x in r.sample(range(-100, 100), n)]
    else: l = [r.choice([1 << 40, -(1 << 40), 1, 0, -1, MAXI, -MAXI, (1 << 32) + 1, 1 << 32, (1 << 53) + 1, 1 << 53, 1 << 31, -(1 << 31)]) for _ in range(n)]
    if k in (0, 4) and n and r.random() < .5:
        for _ in range(3): i, j = r.randrange(n), r.randrange(n); l[i], l[j] = l[j], l[i]
    st = [LET('l', lst(l)), LET('m', MCALL(VAR('l'), 'copy')), LET('z', VAR('l')), act(r, MCALL(VAR('l'), 'sort'), VAR('l')), ECHO(VAR('l')), ECHO(VAR('m')), ECHO(BIN('===', VAR('z'), VAR('l')))]
    if r.random() < .5: st += [act(r, MCALL(VAR('l'), 'sort'), VAR('l')), ECHO(VAR('l'))]
    if r.random() < .5: st += [EXPR(MCALL(VAR('m'), 'push', lit(l[0]) if l else INT(1))), EXPR(MCALL(VAR('m'), 'reverse')), EXPR(MCALL(VAR('m'), 'sort')), ECHO(VAR('m'))]
    if r.random() < .3: st += [EXPR(MCALL(VAR('l'), 'push', LIST())), EXPR(MCALL(VAR('l'), 'sort')), ECHO(S('not reached'))]
    return Case(FILE(*st), note='sorting')
def sort_bad():
    out = []
    good = [[1, 2], ['a', 'b'], [1.5], [3], ['x']]
    bad = [None, True, [], {}, [1], 'a', 1, frozenset()]
    for g in good:
        for b in bad:
            for pos in range(len(g) + 1):
                l = g[:pos] + [b] + g[pos:]
                out.append(Case(FILE(LET('l', lst(l)), ECHO(S('x')), EXPR(MCALL(VAR('l'), 'sort')), ECHO(VAR('l'))), note='lists that cannot be sorted'))
    return out

# ---------------------------------------------------------------------------------------------------- C26
def deep_program(rng):
    """recursion of n calls through something"""
    r = rng
    how = r.choice(['plain', 'mutual', 'method', 'closure', 'op', 'tostr', 'get', 'loop', 'forin', 'match', 'eq', 'comp', 'args', 'mtmethod', 'arith', 'manyargs', 'locals', 'spread', 'len'])
    n = r.choice([1, 5, 20, 40, 60, 70])
    if r.random() < .35: n = r.choice([1 << 30, 5000, 3000, None])
    N_ = VAR('n')
    stop = BIN('<', N_, INT(1)) if n is not None else BOOL(False)
    if n is not None and r.random() < .2: stop = BIN('==', N_, INT(0))
    less = BIN('-', N_, INT(1))
    deep = n is None or n > 1000
    start = INT(n if n is not None else 0)
    st = [LET('count', INT(0)), ECHO(S('start'))]
    tick = aug('count', '+', INT(1))
    base = IF(stop, BLOCK(RET(INT(1))))
    if how == 'plain': st += [FNLET('f', FN(['n'], BLOCK(tick, base, RET(BIN('+', INT(1), CALL(VAR('f'), less)))))), ECHO(CALL(VAR('f'), start))]
    elif how == 'arith': st += [FNLET('f', FN(['n'], BLOCK(tick, base, RET(BIN('+', INT(1), BIN('+', INT(2), BIN('+', INT(3), CALL(VAR('f'), less)))))))), ECHO(CALL(VAR('f'), start))]
    elif how == 'manyargs': st += [FNLET('f', FN(['n', 'b', 'c', 'd'], BLOCK(tick, base, RET(CALL(VAR('f'), less, N_, VAR('b'), BIN('+', VAR('c'), INT(0)))))))] if False else [FNLET('f', FN(['n', 'b', 'c', 'd'], BLOCK(tick, base, RET(BIN('+', CALL(VAR('f'), less, INT(1), VAR('b'), VAR('c')), VAR('b')))))), ECHO(CALL(VAR('f'), start, INT(1), INT(1), INT(1)))]
    elif how == 'locals': st += [FNLET('f', FN(['n'], BLOCK(tick, base, *[LET('x%d' % i, N_) for i in range(8)], LET('y', CALL(VAR('f'), less)), RET(BIN('-', BIN('+', VAR('y'), VAR('x3')), VAR('x7')))))), ECHO(CALL(VAR('f'), start))]
    elif how == 'mutual': st += [LET('g', UNDEF()), FNLET('f', FN(['n'], BLOCK(tick, base, RET(CALL(VAR('g'), less))))), ASSIGN('g', FN(['n'], BLOCK(tick, base, RET(BIN('+', INT(0), CALL(VAR('f'), less)))))), ECHO(CALL(VAR('f'), start))]
    elif how == 'method': st += [LET('o', TABLE()), EXPR(CALL(L('mt.set'), VAR('o'), TABLE(S('m'), FN(['self', 'n'], BLOCK(tick, base, RET(MCALL(VAR('self'), 'm', less))))))), ECHO(MCALL(VAR('o'), 'm', start))]
    elif how == 'mtmethod': st += [LET('o', LIST()), LET('M', TABLE()), SETST(VAR('M'), S('m'), FN(['self', 'n'], BLOCK(tick, base, RET(BIN('+', INT(1), MCALL(VAR('o'), 'm', less)))))), EXPR(CALL(L('mt.set'), VAR('o'), VAR('M'))), ECHO(MCALL(VAR('o'), 'm', start))]
    elif how == 'closure': st += [LET('h', UNDEF()), ASSIGN('h', FN(['n'], BLOCK(tick, base, LET('k', FN([], BLOCK(RET(CALL(VAR('h'), less))))), RET(CALL(VAR('k')))))), ECHO(CALL(VAR('h'), start))]
    elif how in ('op', 'eq', 'len', 'get'):
        st += [LET('left', start), LET('o', LIST(INT(1))), LET('p', LIST(INT(1)))]
        left = VAR('left')
        stop2 = IF(BIN('<', left, INT(1)) if n is not None else BOOL(False), BLOCK(RET(BOOL(True) if how == 'eq' else INT(1))))
        dec = aug('left', '-', INT(1))
        ev = {'op': lambda a, b: BIN('+', VAR(a), VAR(b)), 'eq': lambda a, b: BIN('==', VAR(a), VAR(b)), 'len': lambda a, b: UN('len', VAR(a)), 'get': lambda a, b: GET(VAR(a), S('key'))}[how]
        nm = {'op': '__add', 'eq': '__eq', 'len': '__len', 'get': '__get'}[how]
        ps = ['a'] if how == 'len' else ['a', 'b']
        f = FN(ps, BLOCK(tick, stop2, dec, RET(ev('a', 'b') if how != 'get' else ev('a', 'a'))))
        st += [EXPR(CALL(L('mt.set'), VAR('o'), TABLE(S(nm), f))), EXPR(CALL(L('mt.set'), VAR('p'), TABLE(S(nm), FN(['a', 'b'], BLOCK(RET(BOOL(True))))))), ECHO(ev('o', 'p') if how != 'get' else GET(VAR('o'), S('key')))]
    elif how == 'tostr':
        st += [LET('left', start), LET('o', LIST(INT(1))), EXPR(CALL(L('mt.set'), VAR('o'), TABLE(S('tostr'), FN(['s'], BLOCK(tick, IF(BIN('<', VAR('left'), INT(1)) if n is not None else BOOL(False), BLOCK(RET(S('x')))), aug('left', '-', INT(1)), RET(BIN('~', S(''), VAR('s')))))))), ECHO(BIN('~', VAR('o'), S('')))]
    elif how == 'loop': st += [FNLET('f', FN(['n'], BLOCK(tick, base, LET('i', INT(0)), WHILE(BIN('<', VAR('i'), INT(2)), BLOCK(aug('i', '+', INT(1)), RET(BIN('+', VAR('i'), CALL(VAR('f'), less))))), RET(INT(0))))), ECHO(CALL(VAR('f'), start))]
    elif how == 'forin': st += [FNLET('f', FN(['n'], BLOCK(tick, base, FORIN('i', LIST(INT(5), INT(6)), BLOCK(FORIN('j', S('ab'), BLOCK(RET(BIN('+', VAR('i'), CALL(VAR('f'), less))))))), RET(INT(0))))), ECHO(CALL(VAR('f'), start))]
    elif how == 'match': st += [FNLET('f', FN(['n'], BLOCK(tick, base, MATCH(LIST(N_, INT(2)), ARM(PLIST([PLET('a'), PLET('b')]), BLOCK(RET(BIN('+', VAR('b'), CALL(VAR('f'), BIN('-', VAR('a'), INT(1)))))))), RET(INT(0))))), ECHO(CALL(VAR('f'), start))]
    elif how == 'comp': st += [FNLET('f', FN(['n'], BLOCK(tick, base, LET('l', LCOMP(CALL(VAR('f'), less), 'q', LIST(INT(1)))), RET(BIN('+', GET(VAR('l'), INT(0)), INT(1)))))), ECHO(CALL(VAR('f'), start))]
    elif how == 'spread': st += [FNLET('f', FN(['n', 'm'], BLOCK(tick, base, RET(CALL(VAR('f'), MCALL(LIST(less, INT(3)), 'spread')))))), ECHO(CALL(VAR('f'), start))]
    else: st += [FNLET('id', FN(['x'], BLOCK(RET(VAR('x'))))), FNLET('f', FN(['n'], BLOCK(tick, base, RET(CALL(VAR('id'), BIN('+', INT(1), CALL(VAR('id'), CALL(VAR('f'), less)))))))), ECHO(CALL(VAR('f'), start))]
    st += [ECHO(VAR('count')), ECHO(S('end'))]
    return Case(FILE(*st), note='recursion through ' + how)

# ---------------------------------------------------------------------------------------------------- C28
EXPS = ['1.5e3', '1.5E3', '1.5e+3', '1.5E-1', '2.5e-1', '12.5e-1', '1.0e0', '1.e2', '1.e', '1.5e', '1.5e+', '1.5e-', '1.5e+-3', '1.5e3.5', '1.5e3e3', '1e5', '1e5.5', '0.5e1', '0e5', '0e1.5', '0_e1.5', '0_.5e1', '-1.5e2', '+1.5e2', '-1.5e-2', '1.5e1_0', '1_0.5e1', '1.5e_3',
        '1.5e03', '0.0625e4', '625.0e-4', '0.0e5', '1.5e3x', '1.5ee3', '1.5e 3', '.5e3', 'e5', '1.5e+3+', '1.5+3', '1.5-e3', '1.5e3-', '-0e5', '-0.5e1', '10.0e-1', '3.125e2', '5.0e0_1']
CONVS = EXPS + ['-1.5', '+1.5', '-0.25', '-inf', '+inf', '-', '+', '-.5', '-1.5.2', '-1.', '-0x10', '+-1', '-+1.5', '-a', '-i', 'in', 'infx', 'i', '+12_5.5', '-12a', '-12.5a', '- 1', '0', '1', '-1', '+1', '42', '007', '1_000', '12_', '1__2', '0x1F', '0xff', '0XFF', '0x', '0b101', '0b', '0b12', '0xG', '1.5', '0.25', '10.0', '1.', '.5', '1.5.2', '1e3', 'abc', 'a1', '1a', '12 ', ' 12', '-', '--1', '-0', '1-', 'true', 'nan', 'inf', '1.25', '100.75',
         '2147483647', '2147483648', '4294967296', '9007199254740993', '9223372036854775807', '1234567890123', '0x7fffffffffffffff', '0xFFFFFFFF', '0b' + '1' * 40, '0xdead_beef', '3.0', '0.5', '1_0.5', '16777215', '0.015625', '12.5a', '1.5-', '99999999', '0.0', '00.5', '5x', '0o17', '1,5']
def conv_programs():
    out = []
    for s in CONVS:
        out.append(Case(FILE(LET('s', S(s)), ECHO(MCALL(VAR('s'), 'toint')), ECHO(MCALL(VAR('s'), 'tobool')), ECHO(MCALL(VAR('s'), 'tostr'))), note='str to int'))
        out.append(Case(FILE(LET('s', S(s)), ECHO(MCALL(VAR('s'), 'tofloat'))), note='str to float'))
    ns = [FLT(i) for i in (0, 1, 32, 63, 64, 65, 96, 127, 128, -1, -32, -63, -64, -65, -96, -128, 64 * 1000 + 5, -64 * 1000 - 5, 64 * 16777215, 64 * 8388607 + 32)]
    st = []
    for f in ns: st += echo(MCALL(lit(f), 'toint'), MCALL(lit(f), 'tofloat'), MCALL(lit(f), 'tobool'), MCALL(lit(f), 'tostr'))
    for i in (0, 1, -1, 255, -256, 16777215, -16777215, 100): st += echo(MCALL(INT(i), 'toint'), MCALL(INT(i), 'tofloat'), MCALL(INT(i), 'tobool'), MCALL(INT(i), 'tostr'), MCALL(MCALL(INT(i), 'tostr'), 'toint'), MCALL(MCALL(INT(i), 'tofloat'), 'toint'))
    for b in (True, False): st += echo(MCALL(BOOL(b), 'tobool'), MCALL(BOOL(b), 'tostr'))
    st += echo(MCALL(UNDEF(), 'tostr'), MCALL(UNDEF(), 'tobool'), MCALL(NAN(), 'tobool'), MCALL(NAN(), 'tostr'), MCALL(INF(), 'tobool'), MCALL(INF(), 'tostr'), MCALL(INF(), 'tofloat'), MCALL(NAN(), 'tofloat'))
    for i in range(0, len(st), 30): out.append(Case(FILE(*st[i:i + 30]), note='conversions of numbers'))
    for v in (UNDEF, lambda: BOOL(True), lambda: INT(1), lambda: FLT(64), lambda: S('a'), lambda: LIST(INT(1)), lambda: TABLE(), lambda: CALL(L('collections.set'))):
        for m in ('toint', 'tofloat', 'tobool', 'tostr'):
            out.append(Case(FILE(LET('v', v()), ECHO(S('x')), ECHO(MCALL(VAR('v'), m)), ECHO(S('y'))), note='conversions of anything'))
            out.append(Case(FILE(LET('v', v()), LET('m', GET(r_typed(v()), S(m))) if False else ECHO(S('z')), ECHO(MCALL(VAR('v'), m, INT(1)))), note='surplus arguments of conversions'))
    return out
def r_typed(v): return v
def conv_random(rng, n=16):
    r = rng
    st = []
    for i in range(n):
        k = r.randrange(8)
        if k == 0:
            x = r.randrange(-(1 << 62), 1 << 62) >> r.randrange(62)
            st += [LET('i%d' % i, INT(x)), ECHO(BIN('==', MCALL(MCALL(VAR('i%d' % i), 'tostr'), 'toint'), VAR('i%d' % i))), ECHO(MCALL(MCALL(VAR('i%d' % i), 'tostr'), 'toint'))]
        elif k == 1:
            x = r.choice([-1, 1]) * r.randrange(1, 1 << r.randrange(2, 29))
            st += [LET('f%d' % i, FLT(x)), ECHO(BIN('==', MCALL(MCALL(VAR('f%d' % i), 'tostr'), 'tofloat'), VAR('f%d' % i)))]
        elif k == 2: st.append(ECHO(MCALL(S('0x%x' % r.randrange(1 << r.randrange(1, 63))), 'toint')))
        elif k == 3: st.append(ECHO(MCALL(S('0b{:b}'.format(r.randrange(1 << r.randrange(1, 62)))), 'toint')))
        elif k == 4: st.append(ECHO(MCALL(FLT(r.choice([-1, 1]) * r.randrange(1, 1 << 29)), 'toint')))
        elif k == 5:
            t = '{:,}'.format(r.randrange(10 ** r.randrange(1, 18))).replace(',', '_'); st.append(ECHO(MCALL(S(t), 'toint')))
        elif k == 6 and r.random() < .4: st.append(ECHO(MCALL(S('%s%d.%s%s%s%d' % (r.choice(['', '', '-', '+']), r.randrange(10 ** 4), r.choice(['', '0', '5', '25', '75', '125', '500']), r.choice(['e', 'E']), r.choice(['', '+', '-']), r.randrange(5))), 'tofloat')))
        elif k == 6: st.append(ECHO(MCALL(S('%d.%s' % (r.randrange(10 ** 6), r.choice(['0', '5', '25', '75', '125', '500', '250', '00']))), 'tofloat')))
        else: st.append(ECHO(MCALL(S(''.join(r.choice('012345679xab._-+ ') for _ in range(r.randrange(1, 5)))), r.choice(['toint', 'tobool', 'tostr', 'tofloat']))))
    return Case(FILE(*st), note='conversions')
