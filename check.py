#!/usr/bin/env python3
"""check.py ID: decides one property.  VERIF_TIER (quick, thorough) and VERIF_SEED are taken from the environment."""
import os, sys, importlib, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
sys.dont_write_bytecode = True
import core, run

def main():
    if sys.argv[1] == 'setup':
        print(run.build()); return 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    ctx = core.Ctx(pid, tier if tier == 'thorough' else 'quick', seed)
    import props
    core.Case.LIT = dict(C02=.04, C08=.3, C09=.25, C11=.3, C12=.3, C13=.4, C14=.4, C15=.3, C24=.3, C26=0, C28=.3).get(pid, .15)
    try:
        props.CHECKS[pid](ctx)
    except run.CheckError as e:
        if not ctx.violations:
            print('check failed:', e); return 2
        print('note: stopped early:', str(e)[:500])
    return ctx.finish()

if __name__ == '__main__': sys.exit(main())
