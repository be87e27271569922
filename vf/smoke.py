"""Vacuity check: at the head of every function under contract and behind every statement of its body,
`false` must not be provable.  Prints the places where it is (dead code is one honest reason)."""
import os
import sys

from . import build as B
from . import rustlex as L


def points(toks):
    """token positions (in the finished token list) where a ghost statement may be inserted"""
    i = 0
    while not (toks[i].k not in ('ghost', 'exec') and toks[i].t == 'fn'):
        i += 1
    depth = 0
    while i < len(toks):
        t = toks[i]
        if B._code(t):
            if t.t in ('(', '['):
                depth += 1
            elif t.t in (')', ']'):
                depth -= 1
            elif t.t == '{' and depth == 0:
                break
        i += 1
    if i >= len(toks):
        return []
    e = L.match_close_code(toks, i)
    res = [i + 1]
    d = 0
    for q in range(i + 1, e):
        if not B._code(toks[q]):
            continue
        if toks[q].t in ('(', '[', '{'):
            d += 1
        elif toks[q].t in (')', ']', '}'):
            d -= 1
        elif toks[q].t == ';' and d == 0:
            res.append(q + 1)
    return res


def main():
    name = sys.argv[1]
    u = B.Unit(name, os.environ.get('VF_REPO', '/repo'))
    orig = B.add_effects
    n = [0]
    where = {}
    cur = [None]

    def hooked(toks, eff, local):
        out = orig(toks, eff, local)
        pts = sorted(points(out), reverse=True)
        for p in pts:
            n[0] += 1
            where[n[0]] = (cur[0], p)
            out.insert(p, L.Tok('exec', 'proof { if crate::arb__(%d) { assert(false); } }' % n[0], ' ', 0))
        return out
    B.add_effects = hooked
    fin = u.finish

    def finish(b, toks, eff):
        cur[0] = b.key
        return fin(b, toks, eff)
    u.finish = finish
    txt = u.assemble() + '\nverus! { pub uninterp spec fn arb__(i: int) -> bool; }\n'
    out = '/tmp/vf_smoke_%s.rs' % name
    open(out, 'w').write(txt)
    r = B.run_verus(out, errors=60)
    hit = set()
    lines = txt.split('\n')
    for d in r['diags']:
        if 'assertion failed' in d['message']:
            for s in d['spans']:
                import re
                seg = lines[s['line_start'] - 1]
                for m in re.finditer(r'arb__\((\d+)\) \{ assert\(false\)', seg):
                    if m.start() - 4 <= s['column_start'] <= m.end() + 8:
                        hit.add(int(m.group(1)))
        else:
            print(d['message'])
    miss = [i for i in where if i not in hit]
    print('%d points, %d refuted' % (len(where), len(hit)))
    for i in miss:
        print('vacuous?', where[i])


if __name__ == '__main__':
    main()
