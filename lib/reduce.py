"""Shrinks a program while a condition holds."""
import copy
from yast import *

def subtrees(n, out):
    for lst in (n.c, n.q if n.o not in SIMPLE_Q else []):
        for i, x in enumerate(lst):
            out.append((n, lst, i, x)); subtrees(x, out)

STMT = {'block', 'file'}
EXPRS = {'int','float','str','bool','undef','var','lib','fconst','bin','un','and','or','nn','tern','call','mcall','get','slice','list','table','lcomp','tcomp','fn'}

def reduce(root, holds, budget=400):
    """holds(root) -> bool"""
    best = root
    changed = True
    while changed and budget > 0:
        changed = False
        # drop statements
        blocks = []
        def find(n, path):
            if n.o in STMT: blocks.append(path)
            for k, lst in (('c', n.c), ('q', n.q if n.o not in SIMPLE_Q else [])):
                for i, x in enumerate(lst): find(x, path + [(k, i)])
        find(best, [])
        def at(r, path):
            for k, i in path: r = getattr(r, k)[i]
            return r
        for path in blocks:
            try: n = at(best, path)
            except Exception: continue
            size = max(1, len(n.c) // 2)
            while size >= 1:
                i = 0
                while i < len(at(best, path).c) and budget > 0:
                    t = copy.deepcopy(best)
                    del at(t, path).c[i:i + size]
                    budget -= 1
                    if holds(t): best = t; changed = True
                    else: i += size
                size //= 2
        # replace expressions by their parts or by something small
        exprs = []
        def find2(n, path):
            for k, lst in (('c', n.c), ('q', n.q if n.o not in SIMPLE_Q else [])):
                for i, x in enumerate(lst):
                    if x.o in EXPRS: exprs.append(path + [(k, i)])
                    find2(x, path + [(k, i)])
        find2(best, [])
        for path in exprs:
            if budget <= 0: break
            try: x = at(best, path)
            except Exception: continue
            if x.o not in EXPRS: continue
            cands = [c for c in x.c if c.o in EXPRS]
            if x.o not in ('int', 'undef', 'str', 'var', 'lib', 'float', 'bool'): cands += [INT(1), UNDEF()]
            if x.o in ('list', 'table', 'call') and x.c: cands.append(N(x.o, x.c[:1] if x.o == 'call' else [], x.s))
            for c in cands:
                t = copy.deepcopy(best)
                p = at(t, path[:-1]); getattr(p, path[-1][0])[path[-1][1]] = copy.deepcopy(c)
                budget -= 1
                try: ok = holds(t)
                except Exception: ok = False
                if ok: best = t; changed = True; break
    return best
