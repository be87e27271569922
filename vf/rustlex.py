"""A small Rust lexer and item locator (text level, keeps every byte of code tokens)."""
import re

TOK = re.compile(r'''
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
|(?P<str>b?"(?:[^"\\]|\\.)*")
|(?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.))')
|(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
|(?P<num>[0-9][0-9a-zA-Z_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9]+)?)
|(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
|(?P<op>::|->|=>|\.\.=|\.\.\.|\.\.|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|\|=|&=|.)
''', re.X | re.S)


class Tok:
    __slots__ = ('k', 't', 'pre', 'line', 'ghost')

    def __init__(self, k, t, pre, line):
        self.k, self.t, self.pre, self.line = k, t, pre, line

    def __repr__(self):
        return self.t


class LexError(Exception):
    pass


def lex(src, keep_ghost=False):
    """-> list of Tok (code only). Comments and whitespace become the `pre` trivia of the next token
    (comments are dropped, newlines kept). With keep_ghost, `/*@ .. @*/` and `/*! .. !*/` become tokens
    of kind 'ghost' / 'exec'."""
    out = []
    i = 0
    line = 1
    pre = ''
    n = len(src)
    while i < n:
        if src.startswith('/*', i):
            # nested block comment
            if keep_ghost and src.startswith('/*@', i):
                j = src.index('@*/', i)
                out.append(Tok('ghost', src[i + 3:j], pre, line))
                pre = ''
                line += src.count('\n', i, j + 3)
                i = j + 3
                continue
            if keep_ghost and src.startswith('/*!', i):
                j = src.index('!*/', i)
                out.append(Tok('exec', src[i + 3:j], pre, line))
                pre = ''
                line += src.count('\n', i, j + 3)
                i = j + 3
                continue
            d = 1
            j = i + 2
            while j < n and d:
                if src.startswith('/*', j):
                    d += 1
                    j += 2
                elif src.startswith('*/', j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            line += src.count('\n', i, j)
            pre += ' '
            i = j
            continue
        m = TOK.match(src, i)
        if not m:
            raise LexError('cannot lex at %d: %r' % (i, src[i:i + 30]))
        k = m.lastgroup
        if k == 'h':
            k = 'raw'
        t = m.group(0)
        if m.group('raw'):
            k = 'raw'
        if k == 'ws':
            pre += t
        elif k == 'lc':
            pass
        else:
            out.append(Tok(k, t, pre, line))
            pre = ''
        line += t.count('\n')
        i = m.end()
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}


def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k in ('op',):
            if toks[j].t in OPEN:
                d += 1
            elif toks[j].t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise LexError('unbalanced bracket at line %d' % toks[i].line)


def match_close_code(toks, i):
    """as match_close, ignoring ghost / exec insertions"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == 'op':
            if toks[j].t in OPEN:
                d += 1
            elif toks[j].t in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise LexError('unbalanced')


class Item:
    def __init__(self, kind, name, lo, hi, body=None, header=None):
        self.kind, self.name, self.lo, self.hi, self.body, self.header = kind, name, lo, hi, body, header
        self.children = []


def impl_key(toks):
    """'Trait for Type' or 'Type' without generics"""
    d = 0
    words = []
    for t in toks:
        if t.t == '<':
            d += 1
        elif t.t == '>':
            d -= 1
        elif d == 0:
            if t.t == 'where':
                break
            words.append(t.t)
    # drop paths: keep the last segment
    s = ''.join(w if w != 'for' else ' for ' for w in words)
    parts = [p.split('::')[-1] for p in s.split(' for ')]
    return ' for '.join(parts)


def items(toks, lo=0, hi=None):
    """items at this nesting level (functions inside function bodies are not included)"""
    if hi is None:
        hi = len(toks)
    out = []
    i = lo
    start = None
    cfg_test = False
    while i < hi:
        t = toks[i]
        if t.t == '#' and i + 1 < hi and toks[i + 1].t in ('[', '!'):
            j = i + 1 if toks[i + 1].t == '[' else i + 2
            e = match_close(toks, j)
            txt = ''.join(x.t for x in toks[j:e + 1])
            if txt in ('[test]', '[cfg(test)]'):
                cfg_test = True
            i = e + 1
            continue
        if start is None:
            start = i
        if t.t == 'pub':
            i += 1
            if i < hi and toks[i].t == '(':
                i = match_close(toks, i) + 1
            continue
        if t.t in ('async', 'unsafe', 'default', 'extern') or (t.t == 'const' and toks[i + 1].t in ('fn', 'async', 'unsafe')):
            i += 1
            if toks[i].k == 'str':
                i += 1
            continue
        if t.t == 'fn':
            name = toks[i + 1].t
            j = i + 2
            while toks[j].t not in ('{', ';'):
                if toks[j].t in OPEN and toks[j].t != '{':
                    j = match_close(toks, j)
                j += 1
            if toks[j].t == '{':
                e = match_close(toks, j)
                it = Item('test' if cfg_test else 'fn', name, start, e + 1, body=(j, e))
            else:
                e = j
                it = Item('fndecl', name, start, e + 1)
            out.append(it)
            i = e + 1
            start = None
            cfg_test = False
            continue
        if t.t in ('struct', 'enum', 'union', 'trait', 'impl', 'mod', 'macro_rules'):
            j = i + 1
            if t.t == 'macro_rules':
                j = i + 2
            name = toks[j].t
            while toks[j].t not in ('{', ';'):
                if toks[j].t in OPEN and toks[j].t != '{':
                    j = match_close(toks, j)
                j += 1
            e = match_close(toks, j) if toks[j].t == '{' else j
            it = Item('test' if cfg_test else t.t, name, start, e + 1, body=(j, e) if toks[j].t == '{' else None)
            if t.t == 'impl':
                k = i + 1
                if toks[k].t == '<':
                    d = 0
                    while True:
                        if toks[k].t == '<':
                            d += 1
                        elif toks[k].t == '>':
                            d -= 1
                            if d == 0:
                                break
                        k += 1
                    k += 1
                it.name = impl_key(toks[k:j])
                it.header = (start, j)
            if t.t in ('impl', 'trait', 'mod') and toks[j].t == '{':
                it.children = items(toks, j + 1, e)
            out.append(it)
            i = e + 1
            start = None
            cfg_test = False
            continue
        if t.t in ('use', 'type', 'const', 'static', 'extern'):
            j = i
            while toks[j].t != ';':
                if toks[j].t in OPEN:
                    j = match_close(toks, j)
                j += 1
            name = toks[i + 1].t
            out.append(Item(t.t, name, start, j + 1))
            i = j + 1
            start = None
            cfg_test = False
            continue
        # macro invocation or something else at item level: skip to ; or balanced braces
        if t.t in OPEN:
            i = match_close(toks, i) + 1
            start = None
            continue
        i += 1
        if t.t == ';':
            start = None
    return out


def nested_fns(toks, lo, hi):
    """function items anywhere inside toks[lo:hi] (nested function bodies included)"""
    out = []
    i = lo
    while i < hi:
        if toks[i].t == 'fn' and toks[i + 1].k == 'id' and i + 2 < hi and toks[i + 2].t in ('(', '<'):
            s = i
            while s > lo and toks[s - 1].t in ('async', 'pub', 'unsafe', 'const'):
                s -= 1
            j = i + 2
            while toks[j].t not in ('{', ';'):
                if toks[j].t in OPEN and toks[j].t != '{':
                    j = match_close(toks, j)
                j += 1
            e = match_close(toks, j) if toks[j].t == '{' else j
            out.append(Item('fn', toks[i + 1].t, s, e + 1, body=(j, e)))
            i = j + 1
            continue
        if toks[i].t in ('enum', 'struct') and toks[i + 1].k == 'id' and toks[i + 2].t in ('{', '(', '<'):
            j = i + 2
            while toks[j].t not in ('{', ';'):
                j += 1
            e = match_close(toks, j) if toks[j].t == '{' else j
            out.append(Item(toks[i].t, toks[i + 1].t, i, e + 1))
            i = e + 1
            continue
        i += 1
    return out


def find(toks, path, its=None):
    """path: 'fn f' | 'struct S' | 'enum E' | 'impl K > fn f' | '... > fn nested'"""
    parts = [p.strip() for p in path.split('>')]
    cur = its if its is not None else items(toks)
    best = None
    for n, p in enumerate(parts):
        kind, name = p.split(' ', 1)
        cands = [x for x in cur if x.kind == kind and x.name == name]
        if not cands:
            return None
        if n == len(parts) - 1:
            return cands[0] if len(cands) == 1 else cands[0]
        nxt = []
        for c in cands:
            if c.kind in ('impl', 'trait', 'mod'):
                nxt += c.children
            elif c.body:
                nxt += nested_fns(toks, c.body[0] + 1, c.body[1])
        cur = nxt
    return best
