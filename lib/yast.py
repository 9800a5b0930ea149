"""Programs as trees of nodes: shared by the generator, the renderer to YASL source, and the specification (as JSON)."""
import random, string

class N:
    __slots__ = ('o', 'i', 's', 'c', 'q', 'p', 'l', 'h', 'fmt')
    def __init__(self, o, c=(), s='', i=0, q=(), p=()):
        self.o = o; self.c = list(c); self.s = s; self.i = i; self.q = list(q); self.p = list(p); self.l = 0
        self.h = None      # type hint for the generator
        self.fmt = None

def INT(i): return N('int', i=i)
def FLT(i): return N('float', i=i)          # 64ths
def STR(s): return N('str', s=s)
def BOOL(b): return N('bool', i=1 if b else 0)
def UNDEF(): return N('undef')
def NAN(): return N('fconst', s='nan')
def INF(): return N('fconst', s='inf')
def VAR(n): return N('var', s=n)
def LIB(n): return N('lib', s=n)
def BIN(op, a, b): return N('bin', [a, b], s=op)
def UN(op, a): return N('un', [a], s=op)
def AND(a, b): return N('and', [a, b])
def OR(a, b): return N('or', [a, b])
def NN(a, b): return N('nn', [a, b])
def TERN(a, b, c): return N('tern', [a, b, c])
def CALL(f, *a): return N('call', [f] + list(a))
def MCALL(o, m, *a): return N('mcall', [o] + list(a), s=m)
def GET(a, b): return N('get', [a, b])
def SLICE(a, b=None, c=None): return N('slice', [a, b or UNDEF(), c or UNDEF()])
def LIST(*a): return N('list', a)
def TABLE(*kv): return N('table', kv)
def LCOMP(e, v, coll, cond=None): return N('lcomp', [e], q=[coll] + ([cond] if cond else []), p=[v])
def TCOMP(k, e, v, coll, cond=None): return N('tcomp', [k, e], q=[coll] + ([cond] if cond else []), p=[v])
def FN(params, body, consts=()): return N('fn', [body], p=params, q=consts)     # consts: 1-based
def BLOCK(*s): return N('block', s)
def FILE(*s): return N('file', s)
def ECHO(e): return N('echo', [e])
def LET(n, e, const=False): return N('let', [e], p=[n], q=[1] if const else [])
def FNLET(n, f, const=False): return N('fnlet', [f], s=n, i=1 if const else 0)
def ASSIGN(n, e): return N('assign', [e], s=n)
def SETST(c, k, v): return N('setst', [c, k, v])
def AUGSET(op, c, k, v): return N('augset', [c, k, v], s=op)
def LETV(n, const=False): return N('letv', s=n, i=1 if const else 0)
def TOVAR(n): return N('tovar', s=n)
def MASGN(targets, vals): return N('masgn', vals, q=targets)
def EXPR(e): return N('expr', [e])
def IF(c, a, b=None): return N('if', [c, a] + ([b] if b else []))
def WHILE(c, b): return N('while', [c, b])
def FORC(init, cond, post, body): return N('forc', [init, cond, post, body])
def FORIN(v, coll, body): return N('forin', [coll, body], p=[v])
def BREAK(): return N('break')
def CONTINUE(): return N('continue')
def RET(*e): return N('return', e)
def MATCH(subj, *arms): return N('match', arms, q=[subj])
def ARM(pat, body, guard=None): return N('arm', [pat, body], q=[guard] if guard else [])
def ASSERT(e): return N('assert', [e])
def PANY(): return N('pany')
def PUNDEF(): return N('pundef')
def PLIT(a): return N('plit', [a])
def PTYPE(s): return N('ptype', s=s)
def PLET(n): return N('plet', s=n)
def PCONST(n): return N('pconst', s=n)
def PLIST(ps, var=False): return N('plist', ps, i=1 if var else 0)
def PTABLE(keys, ps, var=False): return N('ptable', ps, q=keys, i=1 if var else 0)
def PALT(a, b): return N('palt', [a, b])

SIMPLE_Q = {'fn', 'let'}      # q holds numbers, not nodes

def to_json(root, mods=()):
    """[nodes], index of the root, the ones of the roots of modules (or None)"""
    out = []
    def go(n):
        big = n.o == 'int' and abs(n.i) >= 1 << 30      # beyond the ints of TLC
        assert not big or abs(n.i) < 1 << 63
        d = {'o': n.o, 'i': 0 if big else n.i, 's': str(n.i) if big else n.s, 'c': [go(x) for x in n.c],
             'q': list(n.q) if n.o in SIMPLE_Q else [go(x) for x in n.q], 'p': n.p, 'l': n.l}
        out.append(d)
        return len(out)
    r = go(root)
    return out, r, {k: go(mods[k]) if mods[k] else 0 for k in mods}

# ---------------------------------------------------------------------------------------------------------------
PREC = {'or': 3, 'and': 4, 'nn': 2, '==': 5, '!=': 5, '===': 5, '!==': 5, '<': 6, '<=': 6, '>': 6, '>=': 6, '~': 7,
        '|': 8, '^': 9, '&': 10, '&^': 10, '<<': 11, '>>': 11, '+': 12, '-': 12, '*': 13, '/': 13, '//': 13, '%': 13, '**': 15}
RIGHT = {'or', 'and', 'nn', '~'}
SYM = {'or': '||', 'and': '&&', 'nn': '??'}
KEYWORDS = {'break', 'const', 'continue', 'else', 'elseif', 'for', 'if', 'let', 'return', 'while', 'fn', 'undef', 'true', 'false',
            'echo', 'assert', 'export', 'match', 'len'}

def is_ident(s):
    return s != '' and s not in KEYWORDS and (s[0].isalpha() or s[0] == '_') and all((c.isalnum() and c.isascii()) or c == '_' for c in s) and s.isascii()

class Style:
    """How to write a program down.  rng None: the plain way."""
    def __init__(self, rng=None, parens=0.0, space=0.0, quotes=False, comments=0.0, interp=0.0, dots=0.5, numbers=0.0, semis=False):
        self.rng = rng or random.Random(0)
        self.parens = parens; self.space = space; self.quotes = quotes; self.comments = comments
        self.interp = interp; self.dots = dots; self.numbers = numbers; self.semis = semis

PLAIN = Style(dots=0.5, semis=True)

def fnum(i):
    a = abs(i)
    frac = ('%06d' % ((a % 64) * 15625)).rstrip('0') or '0'
    return '%d.%s' % (a // 64, frac)

SIMPLE_ST = {'echo', 'let', 'assign', 'setst', 'augset', 'masgn', 'expr', 'return', 'assert', 'export'}
class Render:
    def __init__(self, style):
        self.st = style; self.line = 1; self.out = []; self.r = style.rng
    def flip(self, p): return p > 0 and self.r.random() < p
    # -- text of atoms
    def string(self, s):
        kinds = ["'"]
        if self.st.quotes:
            kinds.append('"')
            if '`' not in s and '\n' not in s and '\r' not in s: kinds.append('`')
        k = self.r.choice(kinds) if len(kinds) > 1 else "'"
        if k == '`': return '`' + s + '`'
        return k + self.escape(s, k) + k
    def escape(self, s, k):
        o = []
        for ch in s:
            n = ord(ch)
            if self.flip(self.st.numbers) and n < 256: o.append('\\x%02x' % n if self.r.random() < .5 else '\\x%02X' % n)
            elif ch == '\n': o.append('\\n')
            elif ch == '\t' and (k == '"' or self.r.random() < .5): o.append('\\t')
            elif ch == '\\': o.append('\\\\')
            elif ch == k: o.append('\\' + k)
            elif k == '"' and ch == '#': o.append('\\#')
            elif n < 32 and ch != '\t': o.append('\\x%02x' % n)
            else: o.append(ch)
        return ''.join(o)
    def integer(self, a):
        if self.flip(self.st.numbers):
            x = self.r.random()
            t = '%x' % a if x < .4 else ('{:b}'.format(a) if x < .6 else str(a))
            if x < .2: t = t.upper()
            if len(t) > 1 and self.r.random() < .5:
                p = self.r.randrange(1, len(t)); t = t[:p] + '_' + t[p:]
            return ('0x' if x < .4 else '0b' if x < .6 else '') + t
        return str(a)
    # -- expressions
    def gap(self):       # white space between two tokens
        if self.flip(self.st.space): return self.r.choice([' ', '  ', '\t', ' '])
        return ''
    def e(self, n, prec=0):
        t, p = self.raw(n)
        if p < prec or self.flip(self.st.parens):
            return '(' + self.gap() + t + self.gap() + ')'
        return t
    def arglist(self, args):
        return (',' + (self.gap() or ' ')).join(self.e(a, 1) for a in args)
    def raw(self, n):
        o = n.o
        if o == 'int':
            if n.i < 0: return '-' + self.integer(-n.i), 14
            return self.integer(n.i), 17
        if o == 'float':
            return ('-' if n.i < 0 else '') + fnum(n.i), (14 if n.i < 0 else 17)
        if o == 'fconst':
            if n.s == '-inf': return '-math.inf', 14
            return 'math.' + n.s, 16
        if o == 'str':
            if n.fmt == 'dot' and is_ident(n.s): return '.' + n.s, 17
            return self.string(n.s), 17
        if o == 'bool': return ('true' if n.i else 'false'), 17
        if o == 'undef': return 'undef', 17
        if o == 'var': return n.s, 17
        if o == 'lib': return n.s, 16
        if o in ('bin', 'and', 'or', 'nn'):
            op = n.s if o == 'bin' else o
            if op == '~' and self.st.interp and self.flip(self.st.interp):
                parts = []
                x = n
                while x.o == 'bin' and x.s == '~': parts.append(x.c[1]); x = x.c[0]
                parts.append(x); parts.reverse()
                if parts[0].o == 'str' and len(parts) > 1 and all(y.o == 'str' or not self.has_str(y) for y in parts):
                    t = '"' + self.escape(parts[0].s, '"')
                    for y in parts[1:]:
                        if y.o == 'str' and self.r.random() < .5: t += self.escape(y.s, '"')
                        else: t += '#{' + self.e(y, 1) + '}'
                    return t + '"', 17
            p = PREC[op]
            sym = SYM.get(op, op)
            if op == '**': l, r = self.e(n.c[0], 16), self.e(n.c[1], 14)
            elif op in RIGHT: l, r = self.e(n.c[0], p + 1), self.e(n.c[1], p)
            else: l, r = self.e(n.c[0], p), self.e(n.c[1], p + 1)
            return l + ' ' + self.gap() + sym + ' ' + self.gap() + r, p
        if o == 'un':
            t = self.e(n.c[0], 14)
            sp = ' ' if n.s == 'len' or t[0] in '-+^=~>&' else ''
            return n.s + sp + self.gap() + t, 14
        if o == 'tern':
            return self.e(n.c[0], 2) + ' ? ' + self.e(n.c[1], 1) + ' : ' + self.e(n.c[2], 1), 1
        if o == 'call':
            f = n.c[0]
            return self.callee(f) + '(' + self.gap() + self.arglist(n.c[1:]) + self.gap() + ')', 16
        if o == 'mcall':
            return self.callee(n.c[0]) + '->' + n.s + '(' + self.gap() + self.arglist(n.c[1:]) + ')', 16
        if o == 'get':
            k = n.c[1]
            base = self.callee(n.c[0])
            if k.o == 'str' and is_ident(k.s) and self.flip(self.st.dots): return base + '.' + k.s, 16
            return base + '[' + self.gap() + self.e(k, 1) + self.gap() + ']', 16
        if o == 'slice':
            a, b, c = n.c
            return (self.callee(a) + '[' + ('' if b.o == 'undef' and b.fmt is None else self.e(b, 1)) + ' : '
                    + ('' if c.o == 'undef' and c.fmt is None else self.e(c, 1)) + ']'), 16
        if o == 'list': return '[' + self.gap() + self.arglist(n.c) + self.gap() + ']', 17
        if o == 'table':
            ent = []
            for i in range(0, len(n.c), 2):
                k = n.c[i]
                if k.o == 'str' and is_ident(k.s) and self.flip(self.st.dots): kt = '.' + k.s
                else: kt = self.e(k, 1)
                ent.append(kt + ': ' + self.e(n.c[i + 1], 1))
            return '{' + self.gap() + ', '.join(ent) + self.gap() + '}', 17
        if o == 'lcomp':
            return '[' + self.e(n.c[0], 1) + ' for ' + n.p[0] + ' <- ' + self.e(n.q[0], 1) + (' if ' + self.e(n.q[1], 1) if len(n.q) > 1 else '') + ']', 17
        if o == 'tcomp':
            return ('{' + self.e(n.c[0], 1) + ': ' + self.e(n.c[1], 1) + ' for ' + n.p[0] + ' <- ' + self.e(n.q[0], 1)
                    + (' if ' + self.e(n.q[1], 1) if len(n.q) > 1 else '') + '}'), 17
        if o == 'fn':
            return 'fn(' + self.params(n) + ') ' + self.inline_block(n.c[0]), 15
        raise Exception('render ' + o)
    def has_str(self, n):     # strings cannot nest in an interpolated one
        return n.o in ('str', 'fn', 'tcomp', 'table') or any(self.has_str(x) for x in n.c) or (n.o not in SIMPLE_Q and any(self.has_str(x) for x in n.q))
    def callee(self, f):
        t, p = self.raw(f)
        if p < 16 or f.o in ('int', 'float', 'fconst', 'table', 'fn') or self.flip(self.st.parens): return '(' + t + ')'
        return t
    def params(self, n):
        return ', '.join(('const ' if i + 1 in n.q else '') + x for i, x in enumerate(n.p))
    def inline_block(self, b):      # a block within an expression: a string
        sub = Render(self.st); sub.line = self.line
        sub.block_inner(b, 1)
        return ''.join(sub.out)
    # -- statements
    def emit(self, t): self.out.append(t); self.line += t.count('\n')
    def end(self):
        if self.flip(self.st.comments): self.emit(self.r.choice([' # a comment', ' /* it */', ' # x; y { " \'']))
        self.emit(';\n' if self.st.semis or self.out[-1].endswith('/') else '\n')
    def header(self, n):        # at the end of the header of a compound statement
        if self.line != n.l: n.l = 0
    def block_inner(self, b, ind):
        self.emit('{\n')
        for s in b.c: self.stmt(s, ind)
        self.emit('    ' * (ind - 1) + '}')
    def stmt(self, n, ind=0):
        if n.fmt == 'hidden': return         # something the host did before the program
        if self.flip(self.st.comments): self.emit('    ' * ind + self.r.choice(['# comment\n', '/* block\n comment */\n', '\n', '\t\n', ' # echo 1;\n']))
        self.emit('    ' * ind)
        n.l = self.line
        self.st_body(n, ind)
        if self.line != n.l and n.o in SIMPLE_ST: n.l = 0       # the line of an error in a statement of several lines is not defined
        self.end()
    def st_body(self, n, ind):
        o = n.o
        E = lambda x: self.e(x, 1)
        if o == 'echo': self.emit('echo ' + E(n.c[0]))
        elif o == 'let':
            if len(n.p) == 1: self.emit(('const ' if n.q else 'let ') + n.p[0] + ' = ' + E(n.c[0]))
            else: self.emit(', '.join(('const ' if i + 1 in n.q else 'let ') + x for i, x in enumerate(n.p)) + ' = ' + ', '.join(E(x) for x in n.c))
        elif o == 'fnlet':
            f = n.c[0]
            self.emit(('const ' if n.i else '') + 'fn ' + n.s + '(' + self.params(f) + ') '); self.block_inner(f.c[0], ind + 1)
        elif o == 'assign':
            v = n.c[0]
            if v.o == 'bin' and v.fmt == 'aug': self.emit(n.s + ' ' + v.s + '= ' + E(v.c[1]))
            elif v.o in ('and', 'or', 'nn') and v.fmt == 'aug': self.emit(n.s + ' ' + SYM[v.o] + '= ' + E(v.c[1]))
            else: self.emit(n.s + ' = ' + E(v))
        elif o == 'setst':
            if n.fmt == 'fn': self.emit('fn ' + n.c[0].s + '.' + n.c[1].s + '(' + self.params(n.c[2]) + ') '); self.block_inner(n.c[2].c[0], ind + 1)
            else:
                self.emit(self.raw(N('get', n.c[:2]))[0] + ' = ' + E(n.c[2]))
        elif o == 'augset': self.emit(self.raw(N('get', n.c[:2]))[0] + ' ' + n.s + '= ' + E(n.c[2]))
        elif o == 'masgn':
            ts = []
            for t in n.q:
                if t.o == 'letv': ts.append(('const ' if t.i else 'let ') + t.s)
                elif t.o == 'tovar': ts.append(t.s)
                else: ts.append(self.raw(t)[0])
            self.emit(', '.join(ts) + ' = ' + ', '.join(E(x) for x in n.c))
        elif o == 'expr':
            t = E(n.c[0])
            self.emit('(' + t + ')' if t[0] in '{[.' or t.startswith('fn') else t)
        elif o == 'if':
            self.emit('if ' + E(n.c[0]) + ' '); self.header(n); self.block_inner(n.c[1], ind + 1)
            if len(n.c) > 2:
                if n.c[2].o == 'if': self.emit(' else'); n.c[2].l = self.line; self.st_body(n.c[2], ind)
                else: self.emit(' else '); self.block_inner(n.c[2], ind + 1)
        elif o == 'while': self.emit('while ' + E(n.c[0]) + ' '); self.header(n); self.block_inner(n.c[1], ind + 1)
        elif o == 'forc':
            self.emit('for '); self.st_body(n.c[0], ind); self.emit('; ' + E(n.c[1]) + '; '); self.st_body(n.c[2], ind); self.emit(' '); self.header(n)
            self.block_inner(n.c[3], ind + 1)
        elif o == 'forin': self.emit('for ' + n.p[0] + ' <- ' + E(n.c[0]) + ' '); self.header(n); self.block_inner(n.c[1], ind + 1)
        elif o in ('break', 'continue'): self.emit(o)
        elif o == 'return': self.emit('return ' + ', '.join(E(x) for x in n.c))
        elif o == 'match':
            self.emit('match ' + E(n.q[0]) + ' {'); self.header(n); self.emit('\n')
            for arm in n.c:
                arm.l = self.line
                self.emit('    ' * (ind + 1) + self.pat(arm.c[0]) + ' ')
                if arm.q: self.emit('if ' + E(arm.q[0]) + ' ')
                self.header(arm)
                self.block_inner(arm.c[1], ind + 2); self.emit('\n')
            self.emit('    ' * ind + '}')
        elif o == 'assert': self.emit('assert ' + E(n.c[0]))
        elif o == 'export': self.emit('export ' + E(n.c[0]))
        elif o == 'block': self.emit('if true '); self.block_inner(n, ind + 1)
        else: raise Exception('stmt ' + o)
    def pat(self, n, alt=False):
        o = n.o
        if o == 'pany': return '*'
        if o == 'pundef': return 'undef'
        if o == 'plit': return self.raw(n.c[0])[0]
        if o == 'ptype': return n.s
        if o == 'plet': return 'let ' + n.s
        if o == 'pconst': return 'const ' + n.s
        if o == 'plist': return '[' + ', '.join([self.pat(x) for x in n.c] + (['...'] if n.i else [])) + ']'
        if o == 'ptable': return '{' + ', '.join([self.raw(k)[0] + ': ' + self.pat(x) for k, x in zip(n.q, n.c)] + (['...'] if n.i else [])) + '}'
        if o == 'palt':
            t = self.pat(n.c[0], True) + ' | ' + self.pat(n.c[1])
            return '(' + t + ')' if alt else t
        raise Exception('pat ' + o)

# a session: inputs of the kinds r R (interactive), x X (programs), h (what the host did), bad (text)
def INPUT(kind, *s): return N('input', s, s={'R': 'r', 'X': 'x', 'c': 'r'}.get(kind, kind))
def session(inputs, style=None):
    """[(kind, stmts or text)]: (root, source for mode r)"""
    src = ''
    nodes = []
    for kind, st in inputs:
        if kind == 'bad': t = st; nodes.append(N('input', s='bad')); kind = 'r'
        elif kind == 'c':       # (name, ints)
            nodes.append(INPUT(kind, ECHO(CALL(VAR(st[0]), *[INT(i) for i in st[1]])))); t = ' '.join([st[0]] + [str(i) for i in st[1]]) + '\n'
        elif kind == 'g':       # (name, int)
            nodes.append(INPUT('h', ASSIGN(st[0], INT(st[1])))); t = '%s %d\n' % st
        else: nodes.append(INPUT(kind, *st)); t = render(nodes[-1], style or PLAIN)
        if kind != 'h': src += '%s %d\n%s\n' % (kind, len(t), t)
    return N('session', nodes), src

def render(root, style=PLAIN):
    r = Render(style)
    for s in root.c: r.stmt(s)
    return ''.join(r.out)

def tree_json(t):
    """[nodes], number of the root, of a tree that the specification made of a text"""
    out = []
    def go(t):
        q = [] if t['q'] == [] else list(t['q']) if t['o'] in SIMPLE_Q else [go(x) for x in t['q']]
        out.append({'o': t['o'], 'i': t['i'], 's': t['s'], 'c': [go(x) for x in t['c']], 'q': q, 'p': list(t['p']), 'l': 0})
        return len(out)
    r = go(t)
    return out, r
