"""Programs that are large in one direction: many variables, parameters, results, constants, arms, or long and deep code."""
from core import *
from yast import *

SIZES = [30, 100, 126, 127, 128, 129, 130, 150, 200, 250, 253, 254]
def vs(p, n): return [p + str(i) for i in range(n)]
def picks(r, names, k): return [names[0], names[-1]] + [r.choice(names) for _ in range(k)]
def total(names):
    e = VAR(names[0])
    for x in names[1:]: e = BIN('+', e, VAR(x))
    return e

def results_case(rng):
    """a call that supplies, or does not supply, many values"""
    r = rng
    n = r.choice(SIZES + [255, 256, 258, 300] * (r.random() < .2))
    k = r.choice([0, 1, 2, n - 1, n, n + 1, r.randrange(n + 3)])
    st = [FNLET('f', FN([], BLOCK(RET(*[INT(i * 3) for i in range(k)]) if k else EXPR(INT(1)))))]
    if r.random() < .4: st = [LET('t', TABLE(STR('f'), FN(['x'], BLOCK(RET(*[INT(i * 3) for i in range(k)]) if k else EXPR(INT(1))))))]
    call = (lambda: CALL(VAR('f'))) if st[0].o == 'fnlet' else (lambda: MCALL(VAR('t'), 'f'))
    names = vs('a', n)
    first = r.choice([0, 0, 1, 3])
    ex = [INT(-5 - i) for i in range(first)] + [call()]
    x = r.random()
    if x < .5 and n < 255:
        inner = [MASGN([LETV(a) for a in names], ex)] + [ECHO(VAR(a)) for a in picks(r, names, 4)] + [ECHO(STR('done'))]
        if r.random() < .5: st += [FNLET('g', FN([], BLOCK(*inner))), EXPR(CALL(VAR('g')))]
        else: st += inner
    else:
        st += [LET('l', LIST(*[INT(7) for _ in range(n)])), LET('z', STR('z')), MASGN([GET(VAR('l'), INT(i)) for i in range(n)], ex), ECHO(VAR('l')), ECHO(VAR('z'))]
    st.append(ECHO(STR('end')))
    return Case(FILE(*st), note='a call that supplies %d values to %d targets' % (k, n - first))

def params_case(rng):
    """many parameters and arguments"""
    r = rng
    n = r.choice(SIZES)
    names = vs('p', n)
    k = r.choice([n, n - 1, n + 1, 1, n + 40, n // 2])
    f = FN(names, BLOCK(*[ECHO(VAR(a)) for a in picks(r, names, 4)], RET(FN([], BLOCK(MASGN([TOVAR(names[-1])], [INT(1)]), RET(LIST(*[VAR(a) for a in picks(r, names, 5)])))))))
    st = [FNLET('f', f), LET('g', CALL(VAR('f'), *[INT(i + 1) for i in range(k)])), ECHO(CALL(VAR('g')))]
    return Case(FILE(*st), note='%d parameters and %d arguments' % (n, k))

def variadic_case(rng):
    """many arguments of functions that take any number of them, and of ones that do not"""
    r = rng
    n = r.choice(SIZES)
    x = r.random()
    vals = [r.randrange(-99, 99) for _ in range(n)]
    f = r.choice(['max', 'min', 'list', 'set', 'table', 'own', 'count'])
    if f == 'table':
        n = n // 2 * 2
        vals = [v for i in range(n // 2) for v in (i, vals[i])]
    args = [INT(v) for v in vals]
    if x < .6: args = args[:r.randrange(3)] + [MCALL(LIST(*args[2:]), 'spread')] if f != 'table' else [MCALL(LIST(*args), 'spread')]
    st = [LET('x', INT(5)), FNLET('own', FN(['a', 'b'], BLOCK(RET(BIN('+', VAR('a'), VAR('b'))))))]
    F = {'max': LIB('math.max'), 'min': LIB('math.min'), 'list': LIB('collections.list'), 'set': LIB('collections.set'), 'table': LIB('collections.table'), 'own': VAR('own'), 'count': LIB('collections.list')}[f]
    e = CALL(F, *args)
    if f == 'count': e = UN('len', e)
    if r.random() < .3: e = BIN('~', STR('r'), MCALL(e, 'tostr')) if f != 'count' else e
    st.append(ECHO(e) if r.random() < .6 else LET('y', e))
    if st[-1].o == 'let': st.append(ECHO(VAR('y')))
    st += [ECHO(VAR('x'))]
    if r.random() < .3: st = [FNLET('f', FN(['q'], BLOCK(*st, RET(VAR('q'))))), ECHO(CALL(VAR('f'), INT(8)))]
    return Case(FILE(*st), note='many arguments')

def locals_case(rng):
    """many variables in nested scopes, and closures over them"""
    r = rng
    names = []
    def block(d, room):
        n = r.randrange(max(1, room // 2), max(2, room))
        mine = vs('v%d_' % d, n)
        base = len(names)
        st = [LET(a, INT(i + d * 1000)) for i, a in enumerate(mine)]
        names.extend(mine)
        for a in [mine[-1], r.choice(names), r.choice(names)]: st.append(ASSIGN(a, BIN('+', VAR(a), INT(10000))))
        left = room - n
        if left > 8 and d < 4:
            x = r.random()
            inner = block(d + 1, left - 6)
            if x < .3: st.append(IF(BOOL(True), BLOCK(*inner)))
            elif x < .5: st.append(FORIN('e%d' % d, LIST(INT(1), INT(2)), BLOCK(*inner)))
            elif x < .7: st.append(MATCH(INT(1), ARM(PLET('m%d' % d), BLOCK(*inner))))
            else: st.append(BLOCK(*inner))
        caps = [r.choice(names) for _ in range(r.choice([1, 5, 130, 200]))]
        caps = sorted(set(caps), key=caps.index)
        st.append(LET('c%d' % d, FN([], BLOCK(ASSIGN(caps[0], BIN('+', VAR(caps[0]), INT(1))), RET(total(caps))))))
        st += [ECHO(CALL(VAR('c%d' % d))), ECHO(VAR(caps[0])), ECHO(VAR(mine[0])), ECHO(VAR(mine[-1]))]
        del names[base:]
        return st
    st = block(0, r.choice([60, 120, 135, 180, 230]))
    if r.random() < .6: st = [FNLET('f', FN([], BLOCK(*st))), EXPR(CALL(VAR('f')))]
    return Case(FILE(*st), note='many variables')

def long_case(rng):
    """long bodies, which are jumped over, back, or out of"""
    r = rng
    n = r.choice([20, 30, 40, 60, 130, 260])
    def pad(v): return [ASSIGN(v, BIN('+', VAR(v), INT(i % 5))) for i in range(r.randrange(n // 2, n))]
    st = [LET('x', INT(0)), LET('y', INT(r.randrange(3)))]
    for _ in range(3):
        x = r.randrange(8)
        if x == 0: st.append(IF(BIN('==', VAR('y'), INT(1)), BLOCK(*pad('x')), BLOCK(*pad('x'), ECHO(VAR('x')))))
        elif x == 1: st += [LET('k%d' % _, INT(0)), WHILE(BIN('<', VAR('k%d' % _), INT(3)), BLOCK(ASSIGN('k%d' % _, BIN('+', VAR('k%d' % _), INT(1))), IF(BIN('==', VAR('k%d' % _), INT(2)), BLOCK(CONTINUE() if r.random() < .5 else BREAK())), *pad('x')))]
        elif x == 2: st.append(FORC(LET('k', INT(0)), BIN('<', VAR('k'), INT(3)), ASSIGN('k', BIN('+', VAR('k'), INT(1))), BLOCK(IF(BIN('==', VAR('k'), INT(1)), BLOCK(CONTINUE() if r.random() < .5 else BREAK())), *pad('x'))))
        elif x == 3: st.append(FORIN('k', LIST(INT(0), INT(1), INT(2)), BLOCK(*pad('x'), IF(BIN('==', VAR('k'), INT(1)), BLOCK(CONTINUE() if r.random() < .5 else BREAK())), *pad('x'))))
        elif x == 4: st.append(MATCH(VAR('y'), *[ARM(PLIT(INT(i)), BLOCK(*pad('x'))) for i in range(3)]))
        elif x == 5: st += [LET('h%d' % _, FN(['a'], BLOCK(IF(BIN('==', VAR('a'), INT(0)), BLOCK(*pad('a'), RET(VAR('a')))), *pad('a'), ASSIGN('x', BIN('+', VAR('x'), VAR('a')))))), ECHO(CALL(VAR('h%d' % _), VAR('y'))), ECHO(CALL(VAR('h%d' % _), INT(0)))]
        elif x == 6:
            e = INT(1)
            for i in range(n): e = BIN('+', VAR('y'), e) if i % 2 else BIN('+', e, VAR('x'))
            st.append(ECHO(TERN(BIN('==', VAR('y'), INT(1)), e, BIN('*', e, INT(2)))))
            st.append(ECHO(OR(AND(BIN('==', VAR('y'), INT(1)), e), STR('no'))))
        else:
            st.append(ECHO(LCOMP(BIN('+', VAR('q'), INT(1)), 'q', LIST(*[INT(i) for i in range(n)]), BIN('<', VAR('q'), INT(n // 2)))))
        st.append(ECHO(VAR('x')))
    return Case(FILE(*st), note='long code')

def constants_case(rng):
    """more constants than one byte can number, everywhere one may be used"""
    r = rng
    n = r.choice([100, 140, 260, 300])
    st = [LET('l', LIST(*[STR('k%d' % i) if i % 3 else FLT(64 * i + 32) for i in range(n)]))]
    i = n + r.randrange(10)
    k, m = 'k%d' % i, 'm%d' % i
    st += [LET('t', TABLE(STR(k), INT(1), STR(m), FN(['s', 'a'], BLOCK(RET(BIN('~', VAR('a'), STR('k1'))))))),
           ECHO(GET(VAR('t'), STR(k))), ECHO(MCALL(VAR('t'), m, STR('w%d' % i))), SETST(VAR('t'), STR('n%d' % i), FLT(64 * i + 16)), ECHO(GET(VAR('t'), STR('n%d' % i))), ECHO(GET(VAR('l'), INT(-1)))]
    v = r.choice(['k%d' % (i + j) for j in range(3)])
    st += [LET('v', STR(v)), MATCH(VAR('v'), *[ARM(PLIT(STR('k%d' % (i + j))), BLOCK(ECHO(STR('arm%d' % j)))) for j in range(3)]),
           MATCH(TABLE(STR(v), INT(1), STR('b'), VAR('v')), *[ARM(PALT(PTABLE([STR('k%d' % (i + j))], [PLIT(INT(j))], True), PTABLE([STR('k%d' % (i + j)), STR('b')], [PLIT(INT(1)), PLIT(STR('k%d' % (i + j)))])), BLOCK(ECHO(STR('tarm%d' % j)))) for j in range(3)]),
           ECHO(INT(2 ** 40 + i)), ECHO(STR('end'))]
    return Case(FILE(*st), note='many constants')

def deep_case(rng):
    """deep nesting"""
    r = rng
    n = r.choice([5, 15, 30, 60])
    body = [ECHO(STR('in')), ASSIGN('x', BIN('+', VAR('x'), INT(1)))]
    used = []
    for i in range(n):
        x = r.randrange(6)
        v = 'd%d' % i
        if x == 0: body = [IF(BIN('<', VAR('x'), INT(9)), BLOCK(*body), BLOCK(ECHO(STR('else'))))]
        elif x == 1: body = [WHILE(BOOL(True), BLOCK(*body, BREAK()))]
        elif x == 2: body = [FORIN(v, LIST(INT(i)), BLOCK(ECHO(VAR(v)), *body))]
        elif x == 3: body = [FORC(LET(v, INT(0)), BIN('<', VAR(v), INT(1)), ASSIGN(v, BIN('+', VAR(v), INT(1))), BLOCK(*body))]
        elif x == 4: body = [MATCH(LIST(INT(i)), ARM(PLIST([PLET(v)]), BLOCK(*body, ECHO(VAR(v)))))]
        else: body = [LET(v, FN([v + 'p'], BLOCK(*body, RET(BIN('+', VAR(v + 'p'), INT(1)))))), ECHO(CALL(VAR(v), INT(i)))]
    return Case(FILE(LET('x', INT(0)), *body, ECHO(VAR('x'))), note='deep nesting')

def many_case(rng):
    """about as many variables at a time as there may be"""
    r = rng
    left = [r.choice([253, 254, 255, 255, 256, 257])]
    k = [0]
    def fresh(n=1):
        k[0] += n
        left[0] -= n
        return ['v%d' % i for i in range(k[0] - n, k[0])]
    def fill(last):
        """declarations, in nested scopes, until there are as many as were asked for"""
        n = left[0] if last else r.randrange(1, min(120, left[0]))
        st = [LET(a, INT(i)) for i, a in enumerate(fresh(n))]
        a = 'v%d' % (k[0] - 1)
        st.append(ECHO(VAR(a)))
        if last:
            if r.random() < .3: st += [ECHO(CALL(FN([], BLOCK(ASSIGN(a, INT(-1)), RET(VAR(a))))))]
            return st
        x = r.randrange(6) if left[0] > 2 else 5
        if x == 0:
            v, = fresh()
            st.append(FORIN(v, LIST(INT(1)), BLOCK(*fill(left[0] < 60))))
        elif x == 1:
            v, = fresh()
            st.append(FORC(LET(v, INT(0)), BIN('<', VAR(v), INT(1)), ASSIGN(v, BIN('+', VAR(v), INT(1))), BLOCK(*fill(left[0] < 60))))
        elif x == 2:
            v, = fresh()
            st.append(MATCH(INT(1), ARM(PLET(v), BLOCK(*fill(left[0] < 60)))))
        elif x == 3: st.append(IF(BOOL(True), BLOCK(*fill(left[0] < 60))))
        elif x == 4: st.append(FORIN('v%d' % (k[0]), LIST(INT(1)), BLOCK(ECHO(INT(4))))) or st.extend(fill(left[0] < 60))
        else: st.extend(fill(True) if left[0] > 0 else [])
        st.append(ECHO(VAR(a)))
        return st
    x = r.random()
    if x < .3: st = fill(False)
    elif x < .6: st = [FNLET('f', FN([], BLOCK(*fill(False)))), EXPR(CALL(VAR('f')))]
    elif x < .8:
        ps = fresh(r.randrange(1, 200))
        st = [FNLET('f', FN(ps, BLOCK(*fill(False)))), EXPR(CALL(VAR('f')))]
    else:
        n = left[0]
        m = r.randrange(10, n - 10)
        A, B = ['a%d' % i for i in range(m)], ['b%d' % i for i in range(n - m)]
        inner = FN([], BLOCK(RET(total(A + B))))
        if r.random() < .4: inner = FN([], BLOCK(RET(CALL(inner))))
        st = [LET(a, INT(i)) for i, a in enumerate(A)] + [FNLET('f', FN([], BLOCK(*[LET(b, INT(1)) for b in B], RET(inner)))), ECHO(CALL(CALL(VAR('f'))))]
    return Case(FILE(*st, ECHO(STR('end'))), note='about as many variables as there may be')
