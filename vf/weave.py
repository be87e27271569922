"""Weave the contracts of /verif/contracts/<unit>.rs with the *current* text of the functions in /repo.

A contract file is Verus source in which blocks

    //@item src/motion.rs :: fn motion_write  [opts]
    <copy of the repository item, with /*@ ghost @*/ insertions and /*! exec !*/ desugarings>
    //@end

mark what is extracted.  The copy only serves to locate the insertions: on every run the tokens of the
item are taken from /repo, aligned with the copy, and the insertions carried over.  Nothing of the copy's
executable text reaches the verifier.
"""
import difflib
import os
import re

from . import rustlex as L

HDR = re.compile(r'^\s*//@item\s+(\S+)\s*::\s*(.*?)\s*(?:\[(.*)\])?\s*$')


class Block:
    def __init__(self, file, path, opts, text, line):
        self.file, self.path, self.opts, self.text, self.line = file, path, opts, text, line
        self.key = file + ' :: ' + path
        self.status = None      # 'same' | 'carried' | 'lost' | 'missing'
        self.reason = ''
        self.exact = True       # every insertion kept both of its neighbours
        self.range = None       # output line range
        self.name = path.split('>')[-1].strip().split(' ', 1)[1]
        self.kind = path.split('>')[-1].strip().split(' ', 1)[0]


def parse_template(text):
    """-> list of str | Block"""
    parts = []
    cur = []
    blk = None
    for n, ln in enumerate(text.split('\n'), 1):
        m = HDR.match(ln)
        if m:
            if cur:
                parts.append('\n'.join(cur))
            cur = []
            blk = (m.group(1), m.group(2), [o.strip() for o in (m.group(3) or '').split(',') if o.strip()], n)
            continue
        if blk and ln.strip() == '//@end':
            parts.append(Block(blk[0], blk[1], blk[2], '\n'.join(cur), blk[3]))
            cur = []
            blk = None
            continue
        cur.append(ln)
    if blk:
        raise Exception('unterminated //@item at line %d' % blk[3])
    parts.append('\n'.join(cur))
    return parts


def drop_attrs(toks):
    """remove #[...] attributes (they carry no behaviour the verifier uses; recorded as dropped)"""
    out = []
    i = 0
    while i < len(toks):
        if toks[i].t == '#' and toks[i].k == 'op' and i + 1 < len(toks) and toks[i + 1].t == '[':
            e = i + 1
            d = 0
            while True:
                if toks[e].t == '[':
                    d += 1
                elif toks[e].t == ']':
                    d -= 1
                    if d == 0:
                        break
                e += 1
            i = e + 1
            continue
        out.append(toks[i])
        i += 1
    return out


_cache = {}


def repo_tokens(repo, file):
    p = os.path.join(repo, file)
    if p not in _cache:
        src = open(p).read()
        t = L.lex(src)
        _cache[p] = (t, L.items(t))
    return _cache[p]


def current_item(repo, file, path):
    if path.startswith('peg '):         # what the macro makes of the grammar: `peg NAME > fn F`
        from . import expand
        return expand.item(repo, os.environ.get('VF_WORK', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.work')), path.split('> fn ')[1].strip())
    try:
        toks, its = repo_tokens(repo, file)
    except (OSError, L.LexError, IndexError):
        return None
    it = L.find(toks, path, its)
    if it is None:
        return None
    return drop_grammar(drop_attrs(toks[it.lo:it.hi]))


def drop_grammar(toks):
    """`peg::parser!{ .. }`: what the macro makes of it is taken from the compiler's expansion (expand.py)"""
    out = []
    i = 0
    while i < len(toks):
        if [t.t for t in toks[i:i + 5]] == ['peg', '::', 'parser', '!', '{']:
            i = L.match_close(toks, i + 4) + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def derives(repo, file, path):
    """names of the types declared inside an item -> what they derive"""
    toks, its = repo_tokens(repo, file)
    it = L.find(toks, path, its)
    out = {}
    cur = []
    for i in range(it.lo, it.hi):
        t = toks[i].t
        if t == 'derive' and toks[i - 1].t == '[':
            cur = [x.t for x in toks[i:L.match_close(toks, i + 1)] if x.k == 'id']
        elif t in ('struct', 'enum'):
            out[toks[i + 1].t] = cur
            cur = []
    return out


class Ghost:
    __slots__ = ('pos', 'text', 'kind', 'pre', 'n')

    def __init__(self, pos, text, kind, pre, n):
        self.pos, self.text, self.kind, self.pre, self.n = pos, text, kind, pre, n


def split_ghost(btoks):
    """(base code tokens, ghosts).  An exec token `/*!{ a => b }!*/` is a substitution handled in place:
    `/*!del n!*/` deletes the following n code tokens from the verified text, `/*! text !*/` inserts text."""
    base = []
    gs = []
    for t in btoks:
        if t.k in ('ghost', 'exec'):
            gs.append(Ghost(len(base), t.text if hasattr(t, 'text') else t.t, t.k, t.pre, len(gs)))
        else:
            base.append(t)
    return base, gs


def align(base, cur):
    """map base index -> cur index (or None)"""
    a = [t.t for t in base]
    b = [t.t for t in cur]
    m = [None] * len(a)
    if a == b:
        return list(range(len(a))), True
    # trim common prefix / suffix first: difflib then only sees the edited region
    lo = 0
    while lo < len(a) and lo < len(b) and a[lo] == b[lo]:
        m[lo] = lo
        lo += 1
    hi = 0
    while hi < len(a) - lo and hi < len(b) - lo and a[-1 - hi] == b[-1 - hi]:
        m[len(a) - 1 - hi] = len(b) - 1 - hi
        hi += 1
    sm = difflib.SequenceMatcher(None, a[lo:len(a) - hi], b[lo:len(b) - hi], autojunk=False)
    for blk in sm.get_matching_blocks():
        for k in range(blk.size):
            m[lo + blk.a + k] = lo + blk.b + k
    return m, False


def renames(base, cur, m):
    """identifiers consistently replaced one for one"""
    ren = {}
    bad = set()
    # walk gaps
    i = 0
    n = len(base)
    prev_c = -1
    while i < n:
        if m[i] is not None:
            prev_c = m[i]
            i += 1
            continue
        j = i
        while j < n and m[j] is None:
            j += 1
        nc = m[j] if j < n else len(cur)
        seg_b = base[i:j]
        seg_c = cur[prev_c + 1:nc]
        if len(seg_b) == len(seg_c):
            for x, y in zip(seg_b, seg_c):
                if x.k == 'id' and y.k == 'id' and x.t != y.t:
                    if ren.get(x.t, y.t) != y.t:
                        bad.add(x.t)
                    ren[x.t] = y.t
        i = j
    # only if the old name is gone from the new text
    have = {t.t for t in cur}
    return {a: b for a, b in ren.items() if a not in bad and a not in have}


def subst_idents(text, ren):
    if not ren:
        return text
    return re.sub(r'(?<![A-Za-z0-9_.])([A-Za-z_][A-Za-z0-9_]*)', lambda mm: ren.get(mm.group(1), mm.group(1)), text)


def carry(block, cur):
    """-> list of tokens (code from cur, ghosts as Tok kind ghost/exec), or None when an anchor is lost"""
    btoks = L.lex(block.text, keep_ghost=True)
    base, gs = split_ghost(btoks)
    base = [t for t in base]
    # attributes in the copy are dropped as well (they never appear there normally)
    m, same = align(base, cur)
    block.status = 'same' if same else 'carried'
    ren = {} if same else renames(base, cur, m)
    at = {}
    dels = set()
    for g in gs:
        p = g.pos
        l = m[p - 1] if p > 0 else -1
        r = m[p] if p < len(base) else len(cur)
        mm = re.match(r'\s*del\s+(\d+)\s*$', g.text) if g.kind == 'exec' else None
        if mm:
            k = int(mm.group(1))
            idx = [m[p + q] if p + q < len(base) else None for q in range(k)]
            if any(x is None for x in idx) or idx != list(range(idx[0], idx[0] + k)):
                block.status = 'lost'
                block.reason = 'desugared text changed near `%s`' % ' '.join(t.t for t in base[max(0, p - 3):p + k])
                return None
            dels.update(idx)
            continue
        if l is not None and r is not None and r == l + 1:
            pos = r
        elif l is None and r is None:
            block.status = 'lost'
            block.reason = 'lost anchor of annotation near `%s`' % ' '.join(t.t for t in base[max(0, p - 4):p + 3])
            return None
        else:
            head = g.text.strip()
            if l is not None and r is not None:
                # text was inserted at this very point
                if base[p - 1].t in '{;}' and not head.startswith(('invariant', 'requires', 'ensures', '->', 'decreases')):
                    # ghost statements: keep with the following token for asserts at block ends, else previous
                    pos = r if base[p].t == '}' or head.startswith('/*next*/') else l + 1
                elif head.startswith(('invariant', 'requires', 'ensures', 'decreases')):
                    pos = r       # sits before `{`
                else:
                    pos = l + 1
                    if base[p - 1].t not in '{;}(,':
                        block.exact = False
            elif l is not None:
                pos = l + 1
                if not (base[p - 1].t in '{;}' and head.startswith(('proof', 'let ghost', 'let tracked'))):
                    block.exact = False
            else:
                pos = r
                if not (base[p - 1].t in '{;}' and head.startswith(('proof', 'let ghost', 'let tracked'))) and base[p].t != '{':
                    block.exact = False
        at.setdefault(pos, []).append(g)
    out = []
    for i in range(len(cur) + 1):
        for g in sorted(at.get(i, []), key=lambda g: g.n):
            t = L.Tok(g.kind, subst_idents(g.text, ren), ' ', 0)
            out.append(t)
        if i < len(cur) and i not in dels:
            out.append(cur[i])
    block.renames = ren
    return out


def render(toks):
    """text with ghosts inlined; keeps newlines of trivia"""
    s = []
    for t in toks:
        if t.k in ('ghost', 'exec'):
            s.append(' ' + t.t + ' ')
        else:
            pre = t.pre
            if '\n' in pre:
                pre = '\n' + pre.split('\n')[-1]
            elif pre:
                pre = ' '
            s.append(pre + t.t)
    return ''.join(s)
