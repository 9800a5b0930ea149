#!/usr/bin/env python3
"""seed.py FILE.py: makes and tries planted bugs.  FILE.py defines SEEDS = [dict(id,property,edits=[(file,old,new)],prog|demo,needs,what)]"""
import sys, os, json, subprocess, shutil, importlib.util
from concurrent.futures import ThreadPoolExecutor
V='/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO='''#!/bin/bash
D=$(dirname "$(realpath "$0")")
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T"
timeout 60 /repo/_build/yasl "$D/prog.yasl" > "$T/out" 2> "$T/err"; echo "status $?" >> "$T/out"
diff "$D/expected" "$T/out"
'''
CDEMO='''#!/bin/bash
D=$(dirname "$(realpath "$0")")
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=gnu99 -w -I/repo "$D/demo.c" -o "$T/demo" /repo/_build/libyaslapi.a -lm -ldl || exit 3
cd "$T"
timeout 60 "$T/demo" > "$T/out" 2> "$T/err"; echo "status $?" >> "$T/out"
diff "$D/expected" "$T/out"
'''
def one(s, runchecks=True):
    d=f"{V}/{s['id']}"; W=f"/tmp/wt.{s['id']}"
    os.makedirs(d, exist_ok=True)
    sh(f"rm -rf {W}; cp -a /repo {W}")
    for f,o,n in s['edits']:
        p=f"{W}/{f}"; t=open(p).read()
        if t.count(o)!=1: return s['id'], f"EDIT matches {t.count(o)} times in {f}: {o[:60]!r}"
        open(p,'w').write(t.replace(o,n))
    open(f"{d}/patch.diff",'w').write(sh(f"git -C {W} diff").stdout)
    json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['what']), open(f"{d}/meta.json",'w'), indent=1)
    if 'prog' in s:
        open(f"{d}/prog.yasl",'w').write(s['prog']); open(f"{d}/demo.sh",'w').write(DEMO); open(f"{d}/expected",'w').write(s['expected'])
    elif 'c' in s:
        open(f"{d}/demo.c",'w').write(s['c']); open(f"{d}/demo.sh",'w').write(CDEMO); open(f"{d}/expected",'w').write(s['expected'])
    else:
        open(f"{d}/demo.sh",'w').write(s['demo'])
        for k,v in s.get('files',{}).items(): open(f"{d}/{k}",'w').write(v)
    os.chmod(f"{d}/demo.sh",0o755)
    r=sh(f"cd /repo && bash {d}/demo.sh")
    rep=[f"demo clean {r.returncode}" + ("" if r.returncode==0 else "\n"+r.stdout[-800:])]
    r=sh(f"unshare -m bash -c 'mount --bind {W} /repo && bash /opt/vp/test.sh /repo/_build/out.json > /repo/_build/tlog 2>&1; cp /repo/_build/out.json /tmp/out.{s['id']}.json'")
    try:
        b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(f"/tmp/out.{s['id']}.json"))
        m=sorted(b-set(o['passed'])); rep.append(f"tests missing {len(m)} {m[:4]}")
    except Exception as e: rep.append(f"tests: {e}")
    r=sh(f"unshare -m bash -c 'mount --bind {W} /repo && cd /repo && bash {d}/demo.sh'")
    rep.append(f"demo bug {r.returncode}" + ("\n"+r.stdout[:600] if '-v' in sys.argv else ''))
    return s['id'], '; '.join(rep)
def check(s):
    W=f"/tmp/wt.{s['id']}"
    r=sh(f"unshare -m bash -c 'mount --bind {W} /repo && cd /verif && VERIF_TIER=quick python3 check.py {s['property']}'", timeout=1200)
    L=[l for l in r.stdout.splitlines() if l.strip()]
    v=[l for l in L if l.startswith('VIOLATION')]
    shutil.rmtree(W, ignore_errors=True)
    return f"check {s['property']} rc {r.returncode}: {L[0] if L else ''} | {len(v)} violations"
if __name__=='__main__':
    spec=importlib.util.spec_from_file_location('m',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only=[a for a in sys.argv[2:] if not a.startswith('-')]
    S=[s for s in m.SEEDS if not only or s['id'] in only]
    with ThreadPoolExecutor(4) as ex:
        for i,r in ex.map(one,S): print(i,r,flush=True)
    if '-n' not in sys.argv:
        for s in S:
            if os.path.isdir(f"/tmp/wt.{s['id']}"): print(s['id'],check(s),flush=True)
