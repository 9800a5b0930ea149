"""C25: programs as texts, which the specification (Lex, Parse) reads."""
import re, random, os, glob, run
from core import *
from gen import Gen

TOK = re.compile(r"/\*.*?\*/|#[^\n]*|'(?:\\.|[^'\\\n])*'|`[^`]*`|\"(?:\\.|#\{(?:[^{}]|\{[^{}]*\})*\}|[^\"\\\n])*\"|[0-9][0-9a-zA-Z_]*(?:\.[0-9][0-9_]*(?:[eE][-+]?[0-9]+)?)?|[A-Za-z_$][A-Za-z0-9_$]*"
                 r"|\.\.\.|<<=|>>=|===|!==|\*\*=|//=|&&=|&\^=|\|\|=|\?\?=|\^=|\+=|-=|->|==|!=|~=|\*=|\*\*|/=|//|%=|<=|<<|<-|>=|>>|&=|&&|&\^|\|=|\|\||\?\?|[ \t]+|\n|.", re.S)
POOL = (['let', 'const', 'fn', 'if', 'else', 'elseif', 'for', 'while', 'match', 'break', 'continue', 'return', 'export', 'assert', 'echo', 'len', 'undef', 'true', 'false',
         'global', 'header', 'in', 'do', 'x', 'y', 'str', 'int', '_', '$a', 'xs']
        + '; ( ) [ ] { } . , ^ + - ! ~ * / % < > = & | ? : ... <<= >>= === !== **= //= &&= &^= ||= ??= := ^= += -= -> == =~ != !~ ~= *= ** /= // %= <= << <- >= >> &= && &^ |= || ??'.split()
        + ['\n', '\n', ';', ' ', '\t', '# c\n', '/* c */', '/*\n*/', "'a'", '"b"', '`c`', '"#{1}"', '.d', '1', '0', '2.5', '0x1f', '0b1', '\r', '@', '\\', '"', "'", '`', '#', '/*', '*/'])
NL = ['\n', ' \n\t', '\n\n', '# it\n', ' # x; y { " \' `\n', '/* a\nb */']
SP = [' ', '  ', '\t', ' ', '/**/', '/* it */', ' /* * / */ ', '/*"*/']

def tokens(text): return TOK.findall(text)
def text_case(src, note): return Case(None, src=src, mode='b', note=note)

AFTER = set('( [ { , + - * / // % ** < > <= >= == != === !== ~ | ^ & &^ << >> && || ?? = ? : <- -> ! ; += -= *= ~= += .'.split()) | {'len', 'echo', 'let', 'const', 'fn', 'if', 'while', 'for', 'return', 'match', 'assert', 'else'}
def reformat(r, text, p, wild=0.0):
    """other white space and comments; the program mostly stays the same"""
    out = []
    toks = tokens(text)
    for i, t in enumerate(toks):
        if t.isspace() and t != '\n' and r.random() < .3 * p + .1:
            a = toks[i - 1][-1:] if i else ''
            b = toks[i + 1][:1] if i + 1 < len(toks) else ''
            word = lambda c: c.isalnum() or c in '_$'
            if not (word(a) and word(b)) and not (a in '+-*/<>=!&|^~?.:' and b in '+-*/<>=!&|^~?.:#\'') and not (a.isdigit() and b == '.') and r.random() < .8: continue
        out.append(t)
        if r.random() < p:
            prev = next((x for x in reversed(out) if not x.isspace() and not x.startswith('/*') and not x.startswith('#')), '')
            if t == '\n' or t.startswith('#'): out.append(r.choice(['', '\n', '  ', '\t']) if t == '\n' else '')
            elif prev in AFTER and r.random() < .6: out.append(r.choice(NL))
            elif r.random() < wild: out.append(r.choice(NL))
            else: out.append(r.choice(SP))
    return ''.join(out)

def rand_style(r):
    return Style(random.Random(r.random()), parens=r.choice([0, .1, .3]), space=r.choice([0, .2]), quotes=r.random() < .8, comments=r.choice([0, .1, .3]),
                 interp=r.choice([0, .5, 1]), dots=r.random(), numbers=r.choice([0, .3]), semis=r.random() < .5)
def small(r, n):
    g = Gen(r, maxstmt=n)
    return g.program()

def format_case(rng, n=10):
    """one program, formatted in some way"""
    t = render(small(rng, rng.choice([5, 8, n, n])), rand_style(rng))
    return text_case(reformat(rng, t, rng.choice([.02, .1, .25]), rng.choice([0, 0, .02])), 'a program in some format')

def examples():
    """the programs that come with the repository"""
    out = []
    for f in sorted(glob.glob(os.path.join(run.REPO, 'test', '**', '*.yasl'), recursive=True)):
        s = open(f, 'rb').read().decode('latin-1')
        if len(s) < 4000: out.append((os.path.relpath(f, run.REPO), s))
    return out
def example_cases(): return [text_case(s, f) for f, s in examples()]
_EX = []
def example_mutant(rng):
    if not _EX: _EX.extend(s for f, s in examples() if len(s) < 1500)
    if not _EX: return None
    return mutant_case(rng, rng.choice(_EX))
def example_format(rng):
    if not _EX: _EX.extend(s for f, s in examples() if len(s) < 1500)
    if not _EX: return None
    return text_case(reformat(rng, rng.choice(_EX), rng.choice([.05, .15, .3]), rng.choice([0, .02])), 'an example in some format')

def mutant_case(rng, text=None):
    """a program, and then a few tokens or characters of it changed"""
    r = rng
    ts = tokens(text or render(small(r, r.choice([4, 6, 6, 8])), rand_style(r)))
    # mostly one part of it
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(ts))
        x = r.random()
        if x < .2: del ts[i]
        elif x < .3: ts.insert(i, ts[i])
        elif x < .4 and i + 1 < len(ts): ts[i], ts[i + 1] = ts[i + 1], ts[i]
        elif x < .55: ts[i] = r.choice(POOL)
        elif x < .7: ts.insert(i, r.choice(POOL))
        elif x < .8: ts.insert(i, r.choice(ts))
        else:
            t = ts[i]; j = r.randrange(len(t) + 1)
            y = r.random()
            c = r.choice('aex09_.\'"#`{}()[];:=+-*/<>!~^&|?,\\ \n$@')
            ts[i] = t[:j] + c + t[j:] if y < .4 else t[:j] + t[j + 1:] if y < .7 else t[:j] + c + t[j + 1:]
        if not ts: break
    return text_case(''.join(ts) + r.choice(['', '', '', '\n']), 'a changed program')

# -- literals
def digits(r, s, n=None):
    t = ''.join(r.choice(s) for _ in range(n or r.choice([1, 1, 2, 3, 5, 7])))
    if r.random() < .25:
        p = r.randrange(1, len(t) + 1); t = t[:p] + '_' * r.choice([1, 1, 2]) + t[p:]
    return t
def number(r):
    x = r.random()
    if x < .2: t = '0' + r.choice('xX') + r.choice(['', '', '_']) + digits(r, '0123456789abcdefABCDEF', r.choice([None, None, 16, 15]))
    elif x < .35: t = '0' + r.choice('bB') + r.choice(['', '', '_']) + digits(r, '01', r.choice([None, None, 31, 63]))
    elif x < .6: t = digits(r, '0123456789', r.choice([None, None, 18, 19]))
    else:
        f = r.choice(['0', '5', '25', '75', '125', '375', '015625', '50', '500', digits(r, '0123456789')])
        t = digits(r, '0123456789') + '.' + f
        if r.random() < .4: t += r.choice('eE') + r.choice(['', '', '+', '-']) + r.choice(['0', '1', '2', '3', '5', '01', '10'])
    if r.random() < .25:      # malformed, perhaps
        p = r.randrange(len(t) + 1)
        t = t[:p] + r.choice(['_', 'x', 'b', 'e', 'g', '.', '2', 'E+', ' ', '+', '0x', '_.', 'e-', '..']) + t[p:] if r.random() < .6 else t[:max(0, p - 1)] + t[p:]
    return t
ESC = ['\\n', '\\t', '\\\\', "\\'", '\\"', '\\#', '\\a', '\\b', '\\f', '\\r', '\\v', '\\x41', '\\x7e', '\\x0A', '\\xfF', '\\x80', '\\x20']
BADESC = ['\\q', '\\x4', '\\xg1', '\\x', '\\`', '\\N', '\\1', '\\ ', '\\x+1', '\\x 1', '\\x-1', '\\u0041', '\\{', '\\x1', '\\e', '\\\n']
PLAINC = list('abcxyz019 .,;:!?(){}[]<>=+-*/%&|^~@$_"\'`#\t') + ['//', '/*', '*/', 'let', '\x01', '\x7f', '\xe9', '#', '{', '#{']
def string(r, depth=2):
    k = r.choice('\'\'"""`')
    o = []
    for _ in range(r.choice([0, 1, 2, 3, 6, 20])):
        x = r.random()
        if x < .3: c = r.choice(ESC)
        elif x < .33: c = r.choice(BADESC)
        elif x < .35: c = '\n'
        elif x < .5 and k == '"' and depth: c = '#{' + r.choice(['', ' ']) + expr(r, depth - 1) + r.choice(['', ' ', '']) + '}'
        elif x < .52: c = r.choice(PLAINC + [k, '\\'])
        else:
            c = r.choice(PLAINC)
            if c == k or (k == '"' and '#' in c): c = 'o'
        if k == '`' and c == '`': c = 'o'
        o.append(c)
    return k + ''.join(o) + (k if r.random() < .97 else '')
def expr(r, depth=2):
    """mostly a valid expression"""
    x = r.random()
    sp = lambda: r.choice(['', '', ' ', ' ', '\n', '/* */'] if r.random() < .1 else ['', ' '])
    if depth <= 0 or x < .3:
        y = r.random()
        return number(r) if y < .3 else string(r, depth - 1) if y < .6 else r.choice(['x', 'y', 'xs', 't', 'true', 'false', 'undef', '.a', '.len', '[]', '{}', 'f(1)'])
    e = lambda: expr(r, depth - 1)
    k = r.randrange(15)
    if k < 4:
        s = r.choice(['+', '-', '*', '/', '//', '%', '**', '<', '>', '<=', '>=', '==', '!=', '===', '!==', '~', '|', '^', '&', '&^', '<<', '>>', '&&', '||', '??'])
        return e() + sp() + s + sp() + e()
    if k == 4: return r.choice(['-', '+', '!', '^', 'len ', '- ', '!!', '--']) + e()
    if k == 5: return '(' + sp() + e() + sp() + ')'
    if k == 6: return '[' + sp() + (',' + sp()).join(e() for _ in range(r.randrange(4))) + sp() + ']'
    if k == 7: return '{' + sp() + (',' + sp()).join(r.choice(['.a', '.b', '1', "'k'", '2.5', '.' + r.choice(['let', 'in', 'fn'])]) + sp() + ':' + sp() + e() for _ in range(r.randrange(3))) + sp() + '}'
    if k == 8: return e() + sp() + '?' + sp() + e() + sp() + ':' + sp() + e()
    if k == 9: return r.choice(['xs', 't', 'x', 'y', "'abc'"]) + '[' + r.choice([e(), ':' + e(), e() + ':', '1:2', '0', ':']) + ']'
    if k == 10: return r.choice(['t.a', 't.b.c', 't .a', 't. a', 'f(1, 2,)', 'f()', 'f(f)(1)', 'xs->push(1)', 'x->tostr()', "'a' -> toupper()", '1.5.a', 't.if', 't.header', '(t).a', 't->a()', 'math.inf', 'math.abs(-5)'])
    if k == 11: return '[' + e() + ' for i <- xs' + r.choice(['', ' if i > 1', '\n']) + ']'
    if k == 12: return '{i: ' + e() + ' for i <- xs' + r.choice(['', ' if true', '\n']) + '}'
    if k == 13: return 'fn(' + r.choice(['', 'a', 'a, b', 'const a', 'a,', 'a, const b']) + ') { return ' + e() + '; }' + r.choice(['', '(1)', '(1, 2)'])
    return e() + sp() + r.choice(POOL) + sp() + e()
PRE = "let x = 7; let y = 'yy'; let xs = [1, 2, 3]; let t = {.a: 1, .b: {.c: 2}}; fn f(a, b) { return [a, b]; };\n"
def literal_case(rng):
    r = rng
    e = number(r) if r.random() < .4 else string(r) if r.random() < .7 else expr(r, 3)
    x = r.random()
    st = 'echo ' + e if x < .8 else 'let z = ' + e + '; echo z' if x < .9 else 'echo [' + e + ']'
    return text_case(PRE + st + r.choice([';\n', '\n', ' \n', ';', ' # end\n', '; /* end */\n']), 'a literal or expression')

def pattern(r, d=2):
    k = r.randrange(12 if d else 8)
    p = lambda: pattern(r, d - 1)
    if k == 0: return '*'
    if k == 1: return r.choice(['undef', 'int', 'str', 'bool', 'float', 'list', 'table', 'set', 'fn'])
    if k == 2: return r.choice(['let a', 'const a', 'let b', 'let', 'a'])
    if k == 3: return r.choice(['', '-', '']) + number(r)
    if k == 4: return string(r, 0)
    if k == 5: return r.choice(['.a', 'true', 'false', '-1', '- 1', '1.5'])
    if k < 8: return r.choice(['1', '2', '.a', "'b'", '*'])
    sp = r.choice(['', ' ', '\n']) if r.random() < .15 else ' '
    if k == 8: return '[' + ', '.join(p() for _ in range(r.randrange(3))) + r.choice(['', ', ...', '...', sp]) + ']'
    if k == 9: return '{' + ', '.join(r.choice(['.a', '1', "'b'", '-1', 'true', 'int']) + ': ' + p() for _ in range(r.randrange(3))) + r.choice(['', ', ...', '...', sp]) + '}'
    if k == 10: return '(' + p() + ')'
    return p() + ' | ' + p()
def block(r, d): return '{' + r.choice([' ', '\n']) + ''.join(stmt(r, d - 1) + r.choice([';', ';\n', '\n', ';', ' ']) for _ in range(r.randrange(3))) + '}'
def stmt(r, d=2):
    e = lambda: expr(r, 1)
    k = r.randrange(22)
    if k < 2: return 'echo ' + e()
    if k == 2: return r.choice(['let ', 'const ', 'let', 'let\n']) + r.choice(['a', 'b', 'c', 'x']) + ' = ' + e()
    if k == 3: return ', '.join(r.choice(['let ', 'const ', '', '']) + r.choice(['a', 'b', 'c', 'd', 'xs[0]', 't.a']) for _ in range(r.randrange(1, 4))) + ' = ' + ', '.join(e() for _ in range(r.randrange(1, 4)))
    if k == 4: return r.choice(['x', 'xs[0]', 't.a', 't[1]', '(x)', 'f(1)', '1', 't.b.c', 'y', 'f']) + ' ' + r.choice(['=', '+=', '-=', '*=', '~=', '??=', '||=', '&&=', '//=', '%=', '**=', '<<=', '|=', '^=', '&^=', '==', ':=']) + ' ' + e()
    if k == 5: return 'if ' + e() + ' ' + block(r, d) + r.choice(['', ' else ' + block(r, d), ' elseif ' + e() + ' ' + block(r, d), '\nelse ' + block(r, d), ' else if true ' + block(r, d), ' elseif x ' + block(r, d) + ' else ' + block(r, d)])
    if k == 6: return 'for ' + r.choice(['i', 'let i', 'x']) + ' <- ' + r.choice(['xs', 't', '[1, 2]', e()]) + ' ' + block(r, d)
    if k == 7: return 'for let i = 0; i < 3; i ' + r.choice(['+= 1', '= i + 1', '+= 1;', '']) + ' ' + block(r, d)
    if k == 8: return 'let w = 3; while w > 0 { w -= 1; ' + stmt(r, d - 1) + r.choice(['; ', '; break; ', '; continue; ', '']) + '}'
    if k == 9: return 'match ' + e() + ' {\n' + ''.join(pattern(r) + r.choice([' ', ' ', ' if ' + e() + ' ']) + block(r, d) + r.choice(['\n', ';', ' ;\n', '']) for _ in range(r.randrange(1, 4))) + '}'
    if k == 10: return r.choice(['fn g', 'const fn g', 'fn t.m', 'fn ', 'fn x']) + '(' + r.choice(['', 'a', 'a, b', 'const a,']) + ') ' + '{ return ' + r.choice([e(), e(), e() + ', ' + e(), '']) + r.choice(['; ', '\n', ' ']) + '}'
    if k == 11: return r.choice(['break', 'continue', 'return 1', 'export x', 'assert true', 'assert ' + e()])
    if k == 12: return r.choice([';', '', 'x', 'x y', 'f(1)', 'f (2)', 'f\n(2)', 'xs\n[0]', 'x -> tostr()', 'x\n-> tostr()', 't\n.a', '1', "'a'", 'let', '{}', '[]', '{.a: 1}', 'fn(a) { echo a; }(1)', '(fn(a) { echo a; })(1)', 'fn() {}', 'x + \n 1', 'x\n+ 1'])
    if k == 13: return 'echo [' + r.choice(['\n', ' ', '']) + '1,' + r.choice(['\n', ' ', '# c\n']) + '2' + r.choice(['\n', ' ', ',', ',\n', '\n# c\n']) + ']'
    if k == 14: return 'echo {' + r.choice(['\n', ' ', '']) + '.a: 1,' + r.choice(['\n', ' ', '# c\n']) + '.b: 2' + r.choice(['\n', ' ', ',', '\n# c\n']) + '}'
    if k == 15: return 'echo f(' + r.choice(['\n', ' ', '']) + '1,' + r.choice(['\n', ' ']) + '2' + r.choice(['\n', ' ', ',', '']) + ')'
    if k == 16: return r.choice(['let ', 'echo ', 'x.', 'fn ', 'let a = x.', '']) + r.choice(['header', 'global', 'enum', 'struct', 'pragma', 'yield', 'do', 'ifdef', 'elseifdef', 'use', 'no', 'pure', 'consteval', 'constexpr', 'constfold', 'extern', 'in', 'typename', 'match', 'print', 'and', 'or', 'in_', 'doo', 'iff', 'letx', '_in', 'Header', 'var', 'nil', 'while1']) + r.choice(['', ' = 1', '()'])
    if k == 17: return '# ' + r.choice(['a', 'a */', "'", '/* b', '\\']) + '\necho 1'
    if k == 18: return 'echo 1 /*' + r.choice(['', ' a', '*', '/', ' a\n b ', ' # ', '\n', '/*', "'"]) + '*/' + r.choice(['', ' + 2', '; echo 2', ' echo 2', '*/'])
    return stmt(r, d - 1) + r.choice(['; ', '\n', ' ']) + stmt(r, d - 1) if d else 'echo x'
def stmt_case(rng):
    r = rng
    return text_case(PRE + ''.join(stmt(r) + r.choice([';\n', '\n', ';\n', ';']) for _ in range(r.choice([1, 1, 2, 3]))) + r.choice(['', 'echo x;\n', 'echo [x, y, xs];\n']), 'statements')
