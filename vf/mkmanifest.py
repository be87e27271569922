"""Writes /verif/MANIFEST.json from vf/props.py and properties.jsonl (nothing else decides what is claimed)."""
import json
import os
from . import props as P

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for q in ids:
        i = q['id']
        if i in P.PROPS:
            s = P.PROPS[i]
            checks.append({
                'property': i,
                'quick_cmd': 'bin/check %s quick' % i,
                'thorough_cmd': 'bin/check %s thorough' % i,
                'technique': s.get('technique', 'Verus contracts on the real functions, woven mechanically from /repo on each run; bounded executions only replay and stand in'),
                'level': s['level'],
                'level_note': s.get('note') or '%d functions of /repo under contract. Bounded (labelled, never counted as proved): %s.' % (len(s['functions']), s.get('bounded_for', 'nothing')),
            })
        else:
            na.append({'property': i, 'reason': P.NOT_APPLICABLE[i]})
    m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na}
    if P.HOOK_COMMITS:
        m['hooks'] = {'guard': 'verif_hooks', 'enable': "RUSTFLAGS='--cfg verif_hooks' (vf/check.py, Harness.build)", 'source_commits': P.HOOK_COMMITS}
    else:
        m['hooks'] = {'guard': 'verif_hooks', 'enable': "RUSTFLAGS='--cfg verif_hooks' (vf/check.py, Harness.build)", 'source_commits': []}
    m['notes'] = 'See DESIGN.md. Repairs of genuine defects are in known_findings.txt.'
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
