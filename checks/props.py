"""The checks, by property."""
import itertools
import run
from core import *
from run import CheckError
from gen import Gen, STRS
import focus as F
import entry
import objs
import host
import session, modules, text, files, matching, limits

CHECKS = {}
TECHNIQUE = {}
NOTES = {}
def check(pid):
    def deco(f): CHECKS[pid] = f; return f
    return deco

def random_program(rng, mode='b', note='random program', extra=None, **cfg):
    root = Gen(rng, **cfg).program()
    if extra and 'lines' in extra and not F.lines_ok(root): extra = None
    return Case(root, mode=mode, note=note, extra=extra)

def pack(stmts, size, note, head=(), mode='b'):
    """programs of the given statements, size at a time"""
    return [Case(FILE(*head, *stmts[i:i + size]), note=note, mode=mode) for i in range(0, len(stmts), size)]

NAMESPACES = ('a', 'b')
def val(kind):
    """literals of all types, as functions that make a new tree every time"""
    return {
        'undef': [UNDEF], 'bool': [lambda: BOOL(True), lambda: BOOL(False)],
        'int': [lambda i=i: INT(i) for i in (0, 1, -1, 2, 3, -7, 5, 64, 1000)],
        'float': [lambda i=i: FLT(i) for i in (0, 64, -64, 32, 160, -224, 192, 320)] + [NAN, INF, lambda: N('fconst', s='-inf')],
        'str': [lambda s=s: STR(s) for s in ('', 'a', 'b', 'ab', '0', '12', 'A')],
        'list': [lambda: LIST(), lambda: LIST(INT(1)), lambda: LIST(INT(1), STR('a')), lambda: LIST(LIST(INT(1)), UNDEF())],
        'table': [lambda: TABLE(), lambda: TABLE(STR('a'), INT(1)), lambda: TABLE(INT(1), STR('x'))],
        'set': [lambda: CALL(LIB('collections.set')), lambda: CALL(LIB('collections.set'), INT(1)), lambda: CALL(LIB('collections.set'), INT(2), INT(1))],
        'fn': [lambda: FN(['x'], BLOCK(RET(VAR('x'))))],
        'cfn': [lambda: LIB('math.abs')],
    }[kind]
KINDS = ['undef', 'bool', 'int', 'float', 'str', 'list', 'table', 'set', 'fn', 'cfn']
BINOPS = ['+', '-', '*', '/', '//', '%', '**', '|', '^', '&', '&^', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '===', '!==', '~']
UNOPS = ['-', '+', '!', '^', 'len']

def works(op, a, b):
    """only for putting together programs: is op likely to be defined for these types"""
    num = ('int', 'float')
    if op in ('==', '!=', '===', '!==', '~'): return a != 'fn' and b != 'fn' and a != 'cfn' and b != 'cfn'
    if op in ('<', '<=', '>', '>='): return a in num and b in num or a == b and a in ('str', 'set')
    if op in ('+', '-', '*', '/', '**'): return a in num and b in num or op == '+' and a == b == 'list'
    if op in ('|', '&', '^', '&^') and a == b and (a == 'set' or a == 'table' and op == '|'): return True
    return a == b == 'int'

OPERANDS = [('l', 'l'), ('v', 'v'), ('v', 'l'), ('l', 'v')]      # literal or variable
def binstmts(op, fa, fb, how, k):
    st = []
    ea, eb = fa(), fb()
    if how[0] == 'v': st.append(LET('a%d' % k, ea)); ea = VAR('a%d' % k)
    if how[1] == 'v': st.append(LET('b%d' % k, eb)); eb = VAR('b%d' % k)
    if k % 3 == 1:      # the variables declared after it are where they should be
        return st + [LET('r%d' % k, BIN(op, ea, eb)), LET('z%d' % k, INT(k)), ECHO(VAR('r%d' % k)), ECHO(VAR('z%d' % k))]
    return st + [ECHO(BIN(op, ea, eb))]

def op_cases(rng, ops, kinds, nerr, ngood, size=24):
    good, bad = [], []
    for op in ops:
        for a in kinds:
            for b in kinds:
                for fa in val(a):
                    for fb in val(b):
                        (good if works(op, a, b) else bad).append((op, a, b, fa, fb))
    # the text of functions is not specified; the order of sets is, but two of them are many orders
    good = [g for g in good if not (g[0] == '~' and g[1] == g[2] == 'set')]
    rng.shuffle(good)
    cases = []
    st = []
    k = 0
    lone = []
    for op, a, b, fa, fb in good[:ngood]:
        how = rng.choice(OPERANDS)
        k += 1
        z = fb()
        risky = op in ('//', '%') and z.i == 0 or op == '**' or op in ('<<', '>>') and not 0 <= z.i < 20 or a == 'float' or b == 'float' or op == '/' and (z.i == 0 or abs(z.i) & (abs(z.i) - 1))
        (lone if risky else st).append(binstmts(op, fa, fb, how, k % 100))
    for grp, sz in ((st, size), (lone, 4)):
        for i in range(0, len(grp), sz): cases.append(Case(FILE(*sum(grp[i:i + sz], [])), note='operators'))
    bytype = {}
    for x in bad: bytype.setdefault(x[:3], []).append(x)
    keys = sorted(bytype)
    if nerr < len(keys): keys = rng.sample(keys, nerr)
    for key in keys:
        op, a, b, fa, fb = rng.choice(bytype[key])
        s = binstmts(op, fa, fb, rng.choice(OPERANDS), 0)
        cases.append(Case(FILE(ECHO(STR('before')), *s, ECHO(STR('after'))), note='operators that are not defined for their operands'))
    return cases

@check('C01')
def c01(x):
    r = x.rng('ops')
    cases = op_cases(r, BINOPS, KINDS, x.n(1200, 100000), x.n(3600, 100000))
    st = []
    for op in UNOPS:
        for a in KINDS:
            for fa in val(a):
                for h in 'lv':
                    s = [LET('a', fa()), ECHO(UN(op, VAR('a')))] if h == 'v' else [ECHO(UN(op, fa()))]
                    cases.append(Case(FILE(*s, ECHO(INT(1))), note='unary operators'))
    x.check(cases)
    x.check(x.make(random_program, x.n(300), 'expr', types=['int', 'float', 'int', 'str', 'bool', 'list', 'set'], sw=dict(echo=12, let=6, forin=.5, while_=.3, match=.3),
                   depth=4, wild=0.01))

@check('C04')
def c04(x):
    x.check(x.make(random_program, x.n(700), 'probes', probe=0.5, depth=4, maxstmt=12, types=['int', 'int', 'bool', 'str', 'float', 'list', 'table'],
                   sw=dict(echo=8, masgn=3, augset=3, setst=3, fnlet=1)))

@check('C06')
def c06(x):
    x.check(x.make(random_program, x.n(800), 'closures', types=['int', 'int', 'fn', 'fn', 'str', 'list'], sw=dict(fnlet=5, expr=4, aug=5, assign=4)))
    x.check(x.make(F.closures, x.n(600)) + x.make(F.shared, x.n(300)) + x.make(limits.locals_case, x.n(60)))

@check('C07')
def c07(x):
    x.check(x.make(random_program, x.n(800), 'calls', types=['int', 'int', 'fn', 'fn', 'str', 'list'], sw=dict(fnlet=5, expr=4, masgn=4, ret=5), multi=0.4))
    x.check(x.make(F.calls_program, x.n(500)) + F.noncallable_cases() + x.make(F.recursion_program, x.n(100))
            + x.make(limits.results_case, x.n(100)) + x.make(limits.params_case, x.n(60)) + x.make(limits.variadic_case, x.n(80)))

@check('C08')
def c08(x):
    x.check(x.make(random_program, x.n(800), 'loops', sw=dict(while_=4, forc=4, forin=5, brk=6, echo=7, fnlet=.7, match=2))
            + x.make(F.exits, x.n(500)) + x.make(limits.long_case, x.n(60)) + x.make(limits.deep_case, x.n(60)))

@check('C09')
def c09(x):
    x.check(x.make(random_program, x.n(900), 'match', sw=dict(match=8, while_=.5, forc=.5), depth=2))
    x.check(x.make(matching.match_case, x.n(500)) + x.make(limits.constants_case, x.n(60)))

@check('C10')
def c10(x):
    x.check(x.make(random_program, x.n(900), 'lists', types=['int', 'list', 'list', 'list', 'str'], sw=dict(expr=10, setst=5, augset=3, echo=8)))
    x.check(x.make(F.list_history, x.n(500)))
    x.laws('list')

@check('C11')
def c11(x):
    x.check(x.make(random_program, x.n(900), 'tables', types=['int', 'table', 'table', 'table', 'str'], sw=dict(expr=10, setst=8, augset=3, echo=8)))
    x.check(x.make(F.table_history, x.n(500)))
    x.laws('table')

@check('C12')
def c12(x):
    x.check(x.make(random_program, x.n(900), 'sets', types=['int', 'set', 'set', 'set', 'str'], sw=dict(expr=10, echo=8)))
    x.check(x.make(F.set_history, x.n(500)))
    x.laws('set')

@check('C17')
def c17(x):
    x.check(x.make(random_program, x.n(900), 'err', wild=0.02, extra={'lines': 1}, nocomp=True))
    x.check(x.make(F.fail_program, x.n(700)))

# ---------------------------------------------------------------------------------------------------------------
MAX = (1 << 63) - 1
EDGES = sorted({s * ((1 << k) + d) for k in (0, 1, 3, 7, 8, 15, 16, 29, 30, 31, 32, 33, 47, 52, 53, 62, 63) for d in (-1, 0, 1) for s in (1, -1)
                if (1 << k) + d <= MAX} | {10, -10, 100, 1000000007, -MAX})
def BIG(i):
    """an expression for the int i"""
    return BIN('-', INT(-MAX), INT(1)) if i == -MAX - 1 else INT(i)
def bigint(r):
    x = r.random()
    if x < .55: return r.choice(EDGES + [-MAX - 1, MAX, -MAX - 1, MAX])
    if x < .8: return r.randrange(-MAX - 1, MAX + 1)
    if x < .9: return r.randrange(-MAX - 1, MAX + 1) >> r.randrange(1, 63)
    return r.randrange(-100, 100)

INT2 = ['+', '-', '*', '//', '%', '|', '&', '^', '&^', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '===']
def bigint_program(rng, n=24):
    st = [FNLET('f', FN(['x', 'y'], BLOCK(RET(VAR('y'), VAR('x')))))]
    for i in range(n):
        op = rng.choice(INT2)
        a, b = bigint(rng), bigint(rng)
        if op in ('<<', '>>'): b = rng.choice([0, 1, 7, 8, 15, 16, 31, 32, 33, 62, 63, rng.randrange(64)])
        if op in ('==', '!=', '===', '<', '<=', '>', '>=') and rng.random() < .4: b = max(-MAX - 1, min(MAX, a + rng.choice([-1, 0, 0, 1])))
        if op in ('//', '%') and b == 0: b = -1
        how = rng.choice(OPERANDS)
        st += binstmts(op, lambda: BIG(a), lambda: BIG(b), how, i)
        if rng.random() < .2:
            x = rng.choice(['-', '^', '+'])
            st.append(ECHO(UN(x, BIG(bigint(rng)))))
        if rng.random() < .1 and how[0] == 'v':       # op=
            e = BIN(op, VAR('a%d' % i), VAR('b%d' % i) if how[1] == 'v' else BIG(b))
            if op in ('+', '-', '*', '//', '%', '|', '&', '^', '&^', '<<', '>>'): e.fmt = 'aug'
            st += [ASSIGN('a%d' % i, e), ECHO(VAR('a%d' % i))]
        if rng.random() < .1: st += [LET('s%d' % i, BIG(bigint(rng))), ECHO(BIN('~', VAR('s%d' % i), STR('')))]
        if rng.random() < .08: st.append(ECHO(MCALL(MCALL(BIG(rng.randrange(-MAX, MAX)), 'tostr'), 'toint')))
        if rng.random() < .05: st.append(ECHO(CALL(LIB('math.' + rng.choice(['max', 'min'])), BIG(a), BIG(b), BIG(bigint(rng)))))
    return Case(FILE(*st), note='64-bit arithmetic')

@check('C27')
def c27(x):
    r = x.rng('edges')
    cases = x.make(bigint_program, x.n(260))
    # every operator on the extremes
    ext = [-MAX - 1, -MAX, -1, 0, 1, MAX - 1, MAX]
    st = []
    k = 0
    for op in INT2:
        for a in ext:
            for b in ext:
                if op in ('<<', '>>') and not 0 <= b < 64 or op in ('//', '%') and b == 0: continue
                k += 1
                st.append(binstmts(op, lambda: BIG(a), lambda: BIG(b), r.choice(OPERANDS), k % 50))
        if op in ('<<', '>>'):
            for a in ext:
                for b in range(64):
                    k += 1
                    if x.quick and r.random() < .6: continue
                    st.append(binstmts(op, lambda: BIG(a), lambda: BIG(b), r.choice(OPERANDS), k % 50))
    for i in range(0, len(st), 24): cases.append(Case(FILE(*sum(st[i:i + 24], [])), note='extremes'))
    for a in ext + [bigint(r) for _ in range(x.n(20))]:
        for op in ('//', '%'): cases.append(Case(FILE(LET('a', BIG(a)), ECHO(VAR('a')), ECHO(BIN(op, VAR('a'), INT(0)))), note='division by zero'))
    x.check(cases)
    # the laws of the arithmetic of the specification itself, exhaustively for narrow ints
    t = run.tlc('Int64MC')
    if t.error: raise CheckError('Int64MC: ' + t.error)
    x.stats.states += t.states; x.stats.distinct += t.distinct
    x.extra['laws of Int64, 6 bits'] = dict(states=t.states)

# ---------------------------------------------------------------------------------------------------------------
def num(r, big=.1):
    x = r.random()
    if x < big: return BIG(bigint(r))
    if x < .55: return INT(r.choice([0, 1, -1, 2, 3, 4, 6, 7, 9, 10, 12, 25, 30, 36, 49, 97, 100, 121, 169, 199, 201, 203, 211, 221, 361, 841, 1024, -4, -7, -59, -8, r.randrange(3000)]))
    if x < .93: return FLT(r.choice([0, 16, 32, 64, 96, 160, -160, -32, -96, -64, 144, 400, 576, 1024, 64 * 97, 64 * 97 + 5, 64 * 15 + 48, -64 * 5, 64 * 7, 64 * 9 + 1]))
    return r.choice([NAN(), INF(), N('fconst', s='-inf')])

def math_program(rng, n=16):
    st = []
    for i in range(n):
        f = rng.choice(['abs', 'floor', 'ceil', 'sqrt', 'isprime', 'gcd', 'lcm', 'gcd', 'lcm', 'max', 'min', 'max', 'min'])
        k = dict(gcd=2, lcm=2).get(f, rng.randrange(6) if f in ('max', 'min') else 1)
        a = [num(rng) for _ in range(k)]
        if f in ('abs', 'isprime'): a = [num(rng, .02)]
        if f == 'abs' and rng.random() < .1: a = [BIG(rng.randrange(-MAX, MAX))]
        if f == 'sqrt':
            q = rng.randrange(0, 200)
            a = [FLT(q * q)] if rng.random() < .5 else [INT(q * q)] if rng.random() < .8 else [rng.choice([INF(), NAN(), FLT(-64), INT(-4)])]
        if f in ('gcd', 'lcm', 'isprime'): a = [x if x.o != 'fconst' else INT(0) for x in a]
        if f in ('gcd', 'lcm') and rng.random() < .8:
            g = rng.choice([1, 2, 3, 6, 7, 30, 64, 210, 1 << 20, 1 << 31, 3 ** 15])
            p, q = g * rng.randrange(1, 3000), g * rng.randrange(1, 3000)
            a = [INT(p), INT(q)]
            if g < 300 and rng.random() < .2: a[rng.randrange(2)] = FLT(64 * g + rng.choice([0, 0, 32]))
        if f == 'floor' or f == 'ceil': a = [FLT(rng.choice([-1, 1, 1]) * rng.randrange(64, 900))] if rng.random() < .7 else [INT(rng.randrange(-5000, 5000))]
        if f == 'isprime' and rng.random() < .6: a = [INT(rng.choice([rng.randrange(-100, 300), rng.randrange(60000), rng.randrange(1 << 29), 211 * 223, 199 * 211, 1000000007, 211 ** 2, 32749 * 32719, 46337 * 23] + [rng.randrange(9000)] * 12))]
        e = CALL(LIB('math.' + f), *a)
        if rng.random() < .3:
            st += [LET('x%d' % i, e), ECHO(VAR('x%d' % i))]
        else: st.append(ECHO(e))
    return Case(FILE(*st), note='math functions')

def math_errors():
    out = []
    for f in ('abs', 'floor', 'ceil', 'sqrt', 'isprime', 'gcd', 'lcm', 'max', 'min'):
        for v in [UNDEF, lambda: BOOL(True), lambda: STR('1'), lambda: STR(''), lambda: LIST(), lambda: TABLE(), lambda: LIST(INT(1)), lambda: LIB('math.abs')]:
            for a in ([v()], [INT(1), v()], [v(), INT(1)], [], [INT(4)], [FLT(160), INT(2), v()]):
                out.append(Case(FILE(ECHO(STR('x')), ECHO(CALL(LIB('math.' + f), *a)), ECHO(STR('y'))), note='arguments of math.' + f))
    return out

@check('C30')
def c30(x):
    r = x.rng('math')
    cases = x.make(math_program, x.n(350))
    e = math_errors()
    x.check(cases + (r.sample(e, 250) if x.quick else e))
    x.laws('maths')

# ---------------------------------------------------------------------------------------------------------------
@check('C02')
def c02(x):
    r = x.rng('dead')
    x.check(F.fold_table(x.rng('table'), x.n(260, 100000)) + x.make(F.fold_pair, x.n(260)) + x.make(F.dead_code, x.n(600)))
@check('C03')
def c03(x):
    x.check(x.make(F.eq_program, x.n(260)) + F.truth_cases() + F.toboolcases())
    x.laws('order')
@check('C05')
def c05(x):
    x.check(x.make(F.scope_case, x.n(1100)) + x.make(random_program, x.n(350), 'shadow', names=4, wild=0, maxstmt=14, sw=dict(let=8, assign=6, aug=5, block=3, fnlet=3, match=2))
            + x.make(limits.locals_case, x.n(60)) + x.make(limits.many_case, x.n(80)))
@check('C13')
def c13(x):
    r = x.rng('s')
    e = F.str_errors()
    x.check(F.str_programs(r, not x.quick) + (r.sample(e, 180) if x.quick else e) + x.make(F.str_history, x.n(300)))
    x.laws('strings')
@check('C14')
def c14(x):
    r = x.rng('i')
    p = F.index_programs(r)
    e = F.index_errors()
    x.check(p + e + F.member_cases())
@check('C15')
def c15(x):
    x.check(x.make(F.print_program, x.n(450)) + F.number_prints(x.rng('n'), x.n(900)))
@check('C16')
def c16(x):
    x.check(x.make(F.mt_program, x.n(700)))
@check('C24')
def c24(x):
    r = x.rng('s')
    x.check(F.sort_lists(r, x.quick) + x.make(F.sort_random, x.n(350)) + F.sort_bad())
    x.laws('sorting')
@check('C25')
def c25(x):
    x.check(text.example_cases() + x.make(text.format_case, x.n(400)) + x.make(text.example_format, x.n(500)) + x.make(text.mutant_case, x.n(1200))
            + x.make(text.example_mutant, x.n(1800)) + x.make(text.literal_case, x.n(1800)) + x.make(text.stmt_case, x.n(1000)))
@check('C26')
def c26(x):
    x.check(x.make(F.deep_program, x.n(320)))
@check('C28')
def c28(x):
    x.check(F.conv_programs() + x.make(F.conv_random, x.n(250)))
    x.laws('conversions')

@check('C29')
def c29(x):
    x.check(x.make(files.file_case, x.n(1500)) + x.make(files.in_function_case, x.n(250)))
    x.laws('file')

@check('C23')
def c23(x):
    entry.check(x, x.n(700))

# ---------------------------------------------------------------------------------------------------------------
class Collect(Ctx):
    """a check's cases, without judging them"""
    def __init__(self, pid, x):
        self.pid = pid; self.tier = 'quick'; self.quick = True; self.seed = x.seed; self.got = []; self.extra = {}; self.stats = Stats()
    def check(self, cases, chunk=0, ran=False): self.got += cases

def cases_of(x, pids, n):
    """n cases of each of these checks"""
    out = []
    for p in pids:
        c = Collect(p, x)
        CHECKS[p](c)
        r = x.rng('sample' + p)
        out += r.sample(c.got, min(n, len(c.got)))
    return out

@check('C18')
def c18(x):
    cases = x.make(objs.obj_program, x.n(2500)) + x.make(objs.obj_program, x.n(200), 'cyc', cycles=.5)
    for c in cases_of(x, ['C01', 'C03', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C16', 'C17', 'C24', 'C26', 'C28', 'C30'], x.n(140, 100000)):
        c.mode = 'd'
        cases.append(c)
    x.check(cases)

@check('C19')
def c19(x):
    x.check(x.make(host.stack_case, x.n(1300)) + x.make(host.pairs_case, x.n(500)))

@check('C20')
def c20(x):
    x.check(x.make(host.talk_case, x.n(1200)) + [c for i in range(x.n(5)) for c in host.count_cases(x.rng('count%d' % i))])

@check('C21')
def c21(x):
    x.check(x.make(session.session_case, x.n(1100)) + x.make(session.tool_case, x.n(250)) + x.make(session.session_case, x.n(40), 'long', sizes=[60, 90]))

@check('C22')
def c22(x):
    x.check(x.make(modules.leak_case, x.n(1600)))
