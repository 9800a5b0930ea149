"""Writes MANIFEST.json from the checks there are."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ("Every recorded execution is replayed by TLC against the TLA+ state machine of the language (spec/), which has to allow it; "
        "invariants of the specification are checked in every state. Bounded by the programs generated (seeded), and by the domain of the specification: "
        "executions that leave it are counted as outside, not as conforming. Trusts TLC, the driver, and the renderer of programs.")
checks = []
for p in ids:
    if p in props.CHECKS:
        checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p,
                           technique=props.TECHNIQUE.get(p, 'TLA+ specification of the language; executions of the real interpreter replayed against it with TLC'),
                           level='model_checking', level_note=props.NOTES.get(p, NOTE)))
na = [dict(property=p, reason='its check is not built yet') for p in ids if p not in props.CHECKS]
m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na,
         hooks=dict(guard='YASL_VERIF', enable='not needed: the checks use the public interface only; no hooks were added to the sources', source_commits=[]))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
