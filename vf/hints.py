"""Numbers and words that occur in /repo/src now and did not in the tree the contracts were written for: sizes and names worth trying."""
import glob
import json
import os
import re
import sys
from . import rustlex as L

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, 'base_literals.json')


def collect(repo):
    nums, words = set(), set()
    for f in sorted(glob.glob(os.path.join(repo, 'src', '**', '*.rs'), recursive=True)):
        try:
            toks = [t.t for t in L.lex(open(f).read())]
        except Exception:
            continue
        for i, t in enumerate(toks):
            m = re.match(r'^(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?$', t)
            if m:
                n = int(m.group(1).replace('_', ''), 0)
                nums.add(n)
                if i >= 2 and toks[i - 1] == '*' and re.match(r'^[0-9_]+$', toks[i - 2]):
                    nums.add(n * int(toks[i - 2].replace('_', '')))
                if i >= 4 and toks[i - 1] == '*' and toks[i - 3] == '*' and re.match(r'^[0-9_]+$', toks[i - 2]) and re.match(r'^[0-9_]+$', toks[i - 4]):
                    nums.add(n * int(toks[i - 2].replace('_', '')) * int(toks[i - 4].replace('_', '')))
                if i >= 3 and toks[i - 1] == '<' and toks[i - 2] == '<' and n < 40:
                    nums.add(1 << n)
                if i >= 2 and toks[i - 1] == '<<' and n < 40:
                    nums.add(1 << n)
            elif t[:1] == '"' and len(t) < 60:
                words.add(t[1:-1])
    return nums, words


def new(repo):
    n, w = collect(repo)
    try:
        b = json.load(open(BASE))
    except OSError:
        return [], []
    return sorted(n - set(b['nums'])), sorted(x for x in w - set(b['words']) if x)


if __name__ == '__main__':
    if '--base' in sys.argv:
        n, w = collect('/repo')
        json.dump({'nums': sorted(n), 'words': sorted(w)}, open(BASE, 'w'), indent=0)
    else:
        print(new('/repo'))
