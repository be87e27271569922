"""Rewrites of iterator chains and map entries (block option `seq`); each is the standard library's own definition written out."""
from . import rustlex as L


def _code(t):
    return t.k not in ('ghost', 'exec')


def _x(t, pre=' '):
    return L.Tok('exec', t, pre, 0)


def _nc(toks, i):
    while i < len(toks) and not _code(toks[i]):
        i += 1
    return i


def _pc(toks, i):
    while i >= 0 and not _code(toks[i]):
        i -= 1
    return i


def _open_of(toks, c):
    """index of the bracket that closes at c"""
    d = 0
    for q in range(c, -1, -1):
        if not _code(toks[q]):
            continue
        if toks[q].t in (')', ']', '}'):
            d += 1
        elif toks[q].t in ('(', '[', '{'):
            d -= 1
            if d == 0:
                return q
    return None


def recv_start(toks, dot):
    """first token of the postfix chain in front of the `.` at dot"""
    q = _pc(toks, dot - 1)
    while q >= 0:
        t = toks[q]
        if t.t in (')', ']'):
            q = _open_of(toks, q)
            p = _pc(toks, q - 1)
            if p >= 0 and (toks[p].k == 'id' and toks[p].t not in ('match', 'if', 'in', 'return', 'let') or toks[p].t in (')', ']') or toks[p].t == '!'):
                if toks[p].t == '!':
                    p = _pc(toks, p - 1)
                q = p
                continue
            return q
        if t.k == 'id' or t.k in ('str', 'num'):
            p = _pc(toks, q - 1)
            if p >= 0 and toks[p].t in ('.', '::'):
                q = _pc(toks, p - 1)
                continue
            return q
        return q + 1
    return 0


def split_args(toks, o):
    """top-level comma-separated pieces inside the bracket at o (closure bars respected)"""
    e = L.match_close_code(toks, o)
    d, cur, out, bars = 0, [], [], False
    for q in range(o + 1, e):
        t = toks[q]
        if _code(t):
            if t.t in ('(', '[', '{'):
                d += 1
            elif t.t in (')', ']', '}'):
                d -= 1
            elif t.t == '|' and d == 0 and t.k == 'op':
                pv = [x for x in cur if _code(x)]
                if not pv or bars:
                    bars = not bars
            elif t.t == ',' and d == 0 and not bars:
                out.append(cur)
                cur = []
                continue
        cur.append(t)
    if any(_code(x) for x in cur):
        out.append(cur)
    elif cur and out:
        out[-1] += cur
    return e, out


def closure(arg):
    """(patterns, ghost between, body) of a closure literal, or None"""
    a = _nc(arg, 0)
    if a < len(arg) and arg[a].t == '||':
        b = _nc(arg, a + 1)
        return [], arg[a + 1:b], arg[b:], arg[:a]
    if a >= len(arg) or arg[a].t not in ('|', 'move'):
        return None
    if arg[a].t == 'move':
        a = _nc(arg, a + 1)
    d, pats, cur = 0, [], []
    q = a + 1
    while q < len(arg):
        t = arg[q]
        if _code(t):
            if t.t in ('(', '[', '<'):
                d += 1
            elif t.t in (')', ']', '>'):
                d -= 1
            elif t.t == '|' and d == 0:
                break
            elif t.t == ',' and d == 0:
                pats.append(cur)
                cur = []
                q += 1
                continue
        cur.append(t)
        q += 1
    if cur:
        pats.append(cur)
    rest = arg[q + 1:]
    b = _nc(rest, 0)
    return pats, rest[:b], rest[b:], arg[:a]


def early_returns(body):
    """`{ if C { S return E; } REST }` -> `{ if C { S E } else { REST } }` for a closure body; None if a return remains"""
    out = list(body)
    guard = 0
    while any(_code(t) and t.t == 'return' for t in out):
        guard += 1
        if guard > 20:
            return None
        i = max(k for k, t in enumerate(out) if _code(t) and t.t == 'return')
        b1 = None
        d = 0
        for q in range(i - 1, -1, -1):
            if _code(out[q]):
                if out[q].t in (')', ']', '}'):
                    d += 1
                elif out[q].t in ('(', '[', '{'):
                    if d == 0:
                        b1 = q
                        break
                    d -= 1
        if b1 is None or out[b1].t != '{':
            # the closure is `return E` in an expression position
            return None
        e1 = L.match_close_code(out, b1)
        # statement `return E ;` must end its block
        z, d = i, 0
        while not (_code(out[z]) and out[z].t == ';' and d == 0) and z < e1:
            if _code(out[z]):
                d += out[z].t in ('(', '[', '{')
                d -= out[z].t in (')', ']', '}')
            z += 1
        if any(_code(t) for t in out[z + 1:e1]):
            return None
        val = out[i + 1:z]
        if b1 == _nc(out, 0):
            out[i:e1] = val + [t for t in out[z:e1] if not _code(t)]
            continue
        nxt = _nc(out, e1 + 1)
        # which construct owns the block b1?
        h, d = b1 - 1, 0
        while h >= 0:
            if _code(out[h]):
                if out[h].t in (')', ']', '}'):
                    if out[h].t == '}' and d == 0:
                        break
                    d += 1
                elif out[h].t in ('(', '[', '{'):
                    if d == 0:
                        break
                    d -= 1
                elif d == 0 and out[h].t == ';':
                    break
            h -= 1
        first = _nc(out, h + 1)
        if out[first].t == 'if' and out[nxt].t != 'else':
            # enclosing block
            d, b2 = 0, None
            for q in range(first - 1, -1, -1):
                if _code(out[q]):
                    if out[q].t in (')', ']', '}'):
                        d += 1
                    elif out[q].t in ('(', '[', '{'):
                        if d == 0:
                            b2 = q
                            break
                        d -= 1
            if b2 is None or out[b2].t != '{':
                return None
            e2 = L.match_close_code(out, b2)
            if nxt == e2:
                # nothing follows: the value of the `if` is the value
                out[i:e1] = val + [t for t in out[z:e1] if not _code(t)]
                continue
            out = out[:i] + val + [t for t in out[z:e1] if not _code(t)] + [out[e1], _x('else {')] + out[e1 + 1:e2] + [_x('}')] + out[e2:]
            continue
        return None
    return out


def rw_fold(toks):
    """`RECV.fold(INIT, F)` -> `({ let src = RECV; let mut acc = INIT; for x in src { acc = F(acc, x); } acc })`, a closure literal F written out.
    Ghost text before INIT goes in front of the loop, ghost text in front of F's body becomes the loop's invariants, ghost text after F follows the loop."""
    out = list(toks)
    n = 0
    i = 0
    while i + 2 < len(out):
        if not (_code(out[i]) and out[i].t == '.' and out[i + 1].t == 'fold' and out[i + 2].t == '('):
            i += 1
            continue
        e, args = split_args(out, i + 2)
        if len(args) != 2:
            i += 1
            continue
        st = recv_start(out, i)
        recv = out[st:i]
        init, fn = args
        ci = [q for q, t in enumerate(init) if _code(t)]
        g0 = init[:ci[0]] + init[ci[-1] + 1:]
        init = init[ci[0]:ci[-1] + 1]
        c = closure(fn)
        acc, x, src, it = ('%s%d__' % (s, n) for s in ('acc', 'x', 'src', 'it'))
        if c:
            pats, ginv, body, gpre = c
            lastc = max(q for q, t in enumerate(body) if _code(t))
            gpost = [t for t in body[lastc + 1:]]
            body = early_returns(body[:lastc + 1])
            if body is None or len(pats) != 2:
                i += 1
                continue
            inner = [_x('let')] + pats[0] + [_x('= %s; let' % acc)] + pats[1] + [_x('= %s; %s =' % (x, acc))] + body + [_x(';')]
        else:
            code = [q for q, t in enumerate(fn) if _code(t)]
            # in front of a function's name: the invariants, the start and the end of the loop's body
            gpre = fn[:code[0]]
            ginv = gpre[:1]
            gpost = fn[code[-1] + 1:]
            inner = gpre[1:2] + [_x('%s =' % acc)] + fn[code[0]:code[-1] + 1] + [_x('(%s, %s);' % (acc, x))] + gpre[2:]
        new = ([_x('({ let %s =' % src)] + recv + [_x('; let mut %s =' % acc)] + init + [_x(';')] + g0
               + [_x('for %s in %s: %s' % (x, it, src))] + ginv + [_x('{')] + inner + [_x('}')] + gpost + [_x('%s })' % acc)])
        out[st:e + 1] = new
        n += 1
        i = st
    return out


ADAPT = ('map', 'filter_map', 'all', 'any', 'find', 'collect', 'cloned', 'fold', 'filter', 'rev')


def rw_iter_names(toks):
    """`.iter()` and `.into_iter()` in front of an adaptor -> `.iter_v()` and `.into_v()` (crate::coll), whose adaptors work on whole vectors"""
    out = list(toks)
    for i in range(len(out) - 5):
        if out[i].t == '.' and out[i + 1].t in ('iter', 'into_iter', 'iter_mut') and out[i + 2].t == '(' and out[i + 3].t == ')' and all(_code(t) for t in out[i:i + 4]):
            q = _nc(out, i + 4)
            if q + 1 < len(out) and out[q].t == '.' and out[_nc(out, q + 1)].t in ADAPT:
                t = out[i + 1]
                out[i + 1] = L.Tok('id', {'iter': 'iter_v', 'into_iter': 'into_v', 'iter_mut': 'iter_mut_v'}[t.t], t.pre, t.line)
    return out


def rw_entry(toks):
    """`M.entry(K).and_modify(|x| B).or_insert(V)` -> `match M.get_mut(&K) { Some(x) => B, None => { M.insert(K, V); } }`;
    `*M.entry(K).or_insert(V) += E` -> the same with `*x += E` and insert(K, V + E);  `M.entry(K).or_insert(V);` likewise; `or_insert_with(|| V)` as or_insert(V);
    `M.entry(K).or_insert_with(Vec::new).push(P);` -> push onto what get_mut gives, else insert a vector of just P"""
    out = list(toks)
    i = 0
    n = 0
    while i + 2 < len(out):
        if not (_code(out[i]) and out[i].t == '.' and out[i + 1].t == 'entry' and out[i + 2].t == '('):
            i += 1
            continue
        ke, kargs = split_args(out, i + 2)
        st = recv_start(out, i)
        m = out[st:i]
        q = _nc(out, ke + 1)
        mod = None
        if [t.t for t in out[q:q + 3]] == ['.', 'and_modify', '(']:
            me, margs = split_args(out, q + 2)
            mod = closure(margs[0])
            q = _nc(out, me + 1)
        if [out[q].t, out[q + 2].t] != ['.', '('] or out[q + 1].t not in ('or_insert', 'or_insert_with'):
            i += 1
            continue
        oe, oargs = split_args(out, q + 2)
        v = oargs[0]
        if out[q + 1].t == 'or_insert_with' and [t.t for t in v if _code(t)] != ['Vec', '::', 'new']:
            c = closure(v)
            if c is None or c[0]:
                i += 1
                continue
            v = c[2]
        z = _nc(out, oe + 1)
        k = 'k%d__' % n
        if mod is None and [t.t for t in oargs[0] if _code(t)] == ['Vec', '::', 'new'] and [t.t for t in out[z:z + 3]] == ['.', 'push', '(']:
            pe, pargs = split_args(out, z + 2)
            pz = _nc(out, pe + 1)
            if len(pargs) == 1 and out[pz].t == ';':
                n += 1
                g = 'g' + k
                new = ([_x('let %s =' % k)] + kargs[0] + [_x('; let p__ =')] + pargs[0] + [_x('; let ghost %s = (%s, p__); match' % (g, k))] + m + [_x('.get_mut(&%s) { Some(x__) => { x__.push(p__); }, None => { let mut n__ = Vec::new(); n__.push(p__);' % k)]
                       + m + [_x('.insert(%s, n__); } }' % k)])
                out[st:pz + 1] = new
                i = st
                continue
        n += 1
        p = _pc(out, st - 1)
        if p >= 0 and out[p].t == '*' and out[z].t == '+=':
            s = z + 1
            while not (_code(out[s]) and out[s].t == ';'):
                s += 1
            add = out[z + 1:s]
            new = [_x('{ let %s =' % k)] + kargs[0] + [_x('; match')] + m + [_x('.get_mut(&%s) { Some(x__) => { *x__ = *x__ +' % k)] + add + [_x('; }, None => {')] + m + [_x('.insert(%s,' % k)] + v + [_x('+')] + add + [_x('); } } }')]
            out[p:s + 1] = new
            i = p
            continue
        if out[z].t == ';' or out[z].t == '}':
            some = [_x('Some(p__) => { let')] + (mod[0][0] + [_x('= p__;')] + mod[2] + [_x(';')] if mod else [_x('_ = p__;')]) + [_x('}')]
            new = [_x('{ let %s =' % k)] + kargs[0] + [_x('; match')] + m + [_x('.get_mut(&%s) {' % k)] + some + [_x(', None => {')] + m + [_x('.insert(%s,' % k)] + v + [_x('); } } }')]
            end = z + 1 if out[z].t == ';' else oe + 1
            out[st:end] = new
        i += 1
    return out


def rw_opt_map(toks):
    """`E.map(|x| B)` on the Option a `get_mut(..)`, `get(..)` or `as_ref()` gives -> `(match E { Some(x) => Some(B), None => None })`
    (with `get` and `as_ref` unless the closure carries a contract)"""
    out = list(toks)
    i = 0
    while i + 2 < len(out):
        if not (_code(out[i]) and out[i].t == '.' and out[i + 1].t == 'map' and out[i + 2].t == '('):
            i += 1
            continue
        p = _pc(out, i - 1)
        if out[p].t != ')':
            i += 1
            continue
        o = _open_of(out, p)
        f = _pc(out, o - 1)
        if out[f].t not in ('get_mut', 'get', 'as_ref'):
            i += 1
            continue
        e, args = split_args(out, i + 2)
        c = closure(args[0]) if args else None
        if c is None or len(c[0]) != 1 or (out[f].t != 'get_mut' and any(t.k == 'ghost' for t in c[1])):
            i += 1
            continue
        st = recv_start(out, i)
        new = [_x('(match')] + out[st:i] + [_x('{ Some(')] + c[0][0] + [_x(') => Some(')] + c[2] + [_x('), None => None })')]
        out[st:e + 1] = new
        i = st + 1
    return out


def rw_nested_fns(toks, nested):
    """functions declared inside a function are extracted on their own"""
    out = list(toks)
    i = 0
    while i < len(out) and not (_code(out[i]) and out[i].t == '{'):
        i = L.match_close_code(out, i) + 1 if _code(out[i]) and out[i].t in ('(', '[') else i + 1
    i += 1
    while i < len(out):
        if _code(out[i]) and out[i].t == 'impl' and out[_pc(out, i - 1)].t in ('{', '}', ';'):
            # the functions of an impl inside the function stay with it
            while not (_code(out[i]) and out[i].t == '{'):
                i += 1
            i = L.match_close_code(out, i) + 1
            continue
        if _code(out[i]) and out[i].t == 'fn' and out[_nc(out, i + 1)].k == 'id':
            s = i
            while _code(out[s - 1]) and out[s - 1].t in ('async',):
                s -= 1
            b = i
            while not (_code(out[b]) and out[b].t == '{'):
                b = L.match_close_code(out, b) + 1 if _code(out[b]) and out[b].t in ('(', '[') else b + 1
            e = L.match_close_code(out, b)
            del out[s:e + 1]
            i = s
            continue
        i += 1
    return out


def rw_uses(toks):
    """`use …;` inside a function (the contract crate has its own imports)"""
    out = list(toks)
    i = 0
    while i < len(out):
        if _code(out[i]) and out[i].t == 'use' and i > 0 and out[_pc(out, i - 1)].t in ('{', ';', '}'):
            e = i
            while not (_code(out[e]) and out[e].t == ';'):
                e += 1
            del out[i:e + 1]
            continue
        i += 1
    return out


def rw_text(toks):
    """`.to_string()` and `.to_owned()` of texts -> `.to_text()` (crate::coll)"""
    out = list(toks)
    for i in range(len(out) - 3):
        if [t.t for t in out[i:i + 4:2]] == ['.', '('] and out[i + 1].t in ('to_string', 'to_owned') and out[i + 3].t == ')' and _code(out[i + 1]):
            out[i + 1] = L.Tok('id', 'to_text', out[i + 1].pre, out[i + 1].line)
    return out


def rw_fold_ref(toks):
    """`RECV.fold(&mut X, |acc, P| BODY);` -> `for x in RECV { let acc = &mut X; let P = x; BODY; }` (BODY's value is acc again: it could be nothing else than a part of it)"""
    out = list(toks)
    n = 0
    i = 0
    while i + 2 < len(out):
        if not (_code(out[i]) and out[i].t == '.' and out[i + 1].t == 'fold' and out[i + 2].t == '('):
            i += 1
            continue
        e, args = split_args(out, i + 2)
        z = _nc(out, e + 1)
        if len(args) != 2 or [t.t for t in args[0] if _code(t)][:2] != ['&', 'mut'] or out[z].t != ';':
            i += 1
            continue
        c = closure(args[1])
        body = early_returns(c[2]) if c and len(c[0]) == 2 else None
        if body is None:
            i += 1
            continue
        st = recv_start(out, i)
        x, it = 'y%d__' % n, 'iy%d__' % n
        g0 = [t for t in args[0] if not _code(t)]
        init = [t for t in args[0] if _code(t)]
        last = max(q for q, t in enumerate(body) if _code(t))
        post = body[last + 1:]
        new = ([_x('let sy%d__ =' % n)] + out[st:i] + [_x(';')] + g0 + [_x('for %s in %s: sy%d__' % (x, it, n))] + c[1] + [_x('{ let')] + c[0][0] + [_x('=')] + init + [_x('; let')] + c[0][1]
               + [_x('= %s; let _ =' % x)] + body[:last + 1] + [_x('; }')] + post)
        out[st:z + 1] = new
        n += 1
        i = st
    return out


def rw_match_str(toks):
    """`match S { "a" => X, .., _ => Z }` -> `{ let m = S; if eq_text(m, "a") { X } else .. { Z } }`"""
    out = list(toks)
    i = 0
    while i < len(out):
        if not (_code(out[i]) and out[i].t == 'match'):
            i += 1
            continue
        b, d = i + 1, 0
        while b < len(out):
            if _code(out[b]):
                if out[b].t in ('(', '['):
                    d += 1
                elif out[b].t in (')', ']'):
                    d -= 1
                elif out[b].t == '{' and d == 0:
                    break
            b += 1
        f = _nc(out, b + 1)
        if out[f].k != 'str':
            i += 1
            continue
        e = L.match_close_code(out, b)
        q = b + 1
        arms = []
        ok = True
        while True:
            q = _nc(out, q)
            if q >= e:
                break
            pat = []
            while out[q].t != '=>':
                if _code(out[q]):
                    pat.append(out[q])
                q += 1
            q = q + 1
            v, d = q, 0
            first = _nc(out, q)
            if out[first].t == '{':
                v = L.match_close_code(out, first) + 1
                val = out[q:v]
                v2 = _nc(out, v)
                q = v2 + 1 if v2 < e and out[v2].t == ',' else v
            else:
                while v < e:
                    if _code(out[v]):
                        if out[v].t in ('(', '[', '{'):
                            d += 1
                        elif out[v].t in (')', ']', '}'):
                            d -= 1
                        elif out[v].t == ',' and d == 0:
                            break
                    v += 1
                val = out[q:v]
                q = v + 1
            if len(pat) == 1 and pat[0].k == 'str':
                arms.append((pat[0], val))
            elif len(pat) == 1 and pat[0].t == '_':
                arms.append((None, val))
            else:
                ok = False
                break
        if not ok or arms[-1][0] is not None:
            i += 1
            continue
        new = [_x('{ let m__ =')] + out[i + 1:b] + [_x(';')]
        for p, val in arms:
            new += ([_x('if crate::coll::eq_text(m__, %s) {' % p.t)] if p else [_x('{')]) + val + [_x('} else' if p else '}')]
        new += [_x('}')]
        out[i:e + 1] = new
        i += 3
    return out


def rw_slice(toks):
    """`match V.as_slice() { [A, B] => X, _ => Y }` -> `if V.len() == 2 { match (&V[0], &V[1]) { (A, B) => X, _ => Y } } else { Y }`"""
    out = list(toks)
    i = 0
    while i < len(out):
        if not (_code(out[i]) and out[i].t == 'match'):
            i += 1
            continue
        b, d = i + 1, 0
        while b < len(out):
            if _code(out[b]):
                if out[b].t in ('(', '['):
                    d += 1
                elif out[b].t in (')', ']'):
                    d -= 1
                elif out[b].t == '{' and d == 0:
                    break
            b += 1
        head = [t for t in out[i + 1:b] if _code(t)]
        f = _nc(out, b + 1)
        if [t.t for t in head[1:]] != ['.', 'as_slice', '(', ')'] or out[f].t != '[':
            i += 1
            continue
        v = head[0].t
        pe, pats = split_args(out, f)
        a1 = _nc(out, pe + 1)
        if out[a1].t != '=>' or len(pats) < 2:
            i += 1
            continue
        e = L.match_close_code(out, b)
        # the last top-level `_ =>`
        u, d = None, 0
        for q in range(a1, e):
            if _code(out[q]):
                if out[q].t in ('(', '[', '{'):
                    d += 1
                elif out[q].t in (')', ']', '}'):
                    d -= 1
                elif d == 0 and out[q].t == '_' and out[_nc(out, q + 1)].t == '=>':
                    u = q
        arms = sum(1 for q, t in enumerate(out[a1:e]) if _code(t) and t.t == '=>')
        if u is None or any(t.t == '=>' for t in out[a1 + 1:u] if _code(t)):
            i += 1
            continue
        y = out[_nc(out, u + 1) + 1:e]
        while y and (not _code(y[-1]) or y[-1].t == ','):
            y = y[:-1]
        new = ([_x('if %s.len() == %d { match (%s) { (' % (v, len(pats), ', '.join('&%s[%d]' % (v, k) for k in range(len(pats)))))]
               + sum([pt + [_x(',', '')] for pt in pats], []) + [_x(')')] + out[a1:u] + [_x('_ =>')] + y + [_x('} } else {')] + [L.Tok(t.k, t.t, t.pre, t.line) for t in y] + [_x('}')])
        out[i:e + 1] = new
        i += 1
    return out


def rw_as_str(toks):
    """`x as &str` of a string -> `x.as_str()`"""
    out = list(toks)
    i = 0
    while i + 3 < len(out):
        if _code(out[i]) and out[i].k == 'id' and [t.t for t in out[i + 1:i + 4]] == ['as', '&', 'str']:
            out[i + 1:i + 4] = [_x('.as_str()', '')]
        i += 1
    return out


def rw_fn_pat(toks):
    """`fn f(.., (a, b): T)` -> `fn f(.., a0__: T) { let (a, b) = a0__; …`"""
    out = list(toks)
    i = 0
    while i < len(out) and not (_code(out[i]) and out[i].t == 'fn'):
        i += 1
    while i < len(out) and not (_code(out[i]) and out[i].t == '('):
        i += 1
    if i >= len(out):
        return out
    e, args = split_args(out, i)
    pats, new = [], []
    for a in args:
        f = _nc(a, 0)
        if f < len(a) and a[f].t == '(':
            c = L.match_close_code(a, f)
            if _nc(a, c + 1) >= len(a) or a[_nc(a, c + 1)].t != ':':       # a piece of a type
                new += ([_x(',', '')] if new else []) + a
                continue
            nm = 'a%d__' % len(pats)
            pats.append((nm, a[f:c + 1]))
            a = a[:f] + [_x(nm)] + a[c + 1:]
        new += ([_x(',', '')] if new else []) + a
    if not pats:
        return out
    b = e
    while not (_code(out[b]) and out[b].t == '{'):
        b += 1
    ins = []
    for nm, pt in pats:
        ins += [_x('let')] + pt + [_x('= %s;' % nm)]
    return out[:i + 1] + new + out[e:b + 1] + ins + out[b + 1:]


def rewrite(toks):
    toks = rw_fn_pat(toks)
    toks = rw_as_str(toks)
    toks = rw_match_str(toks)
    toks = rw_slice(toks)
    toks = rw_text(toks)
    toks = rw_uses(toks)
    toks = rw_iter_names(toks)
    toks = rw_fold_ref(toks)
    toks = rw_fold(toks)
    toks = rw_entry(toks)
    toks = rw_opt_map(toks)
    return toks


def rw_for_src(toks, which):
    """`for P in E {` -> `let fsrc{n}__ = E; let ghost fg{n}__ = fsrc{n}__@; for P in fsrc{n}__ {` (vectors and maps by value or `.iter()`)"""
    out = list(toks)
    n, i = 0, 0
    while i < len(out):
        if _code(out[i]) and out[i].t == 'for' and out[_pc(out, i - 1)].t in ('{', '}', ';', ')'):
            q = i + 1
            while not (_code(out[q]) and out[q].t == 'in'):
                q = L.match_close_code(out, q) + 1 if _code(out[q]) and out[q].t in ('(', '[', '{') else q + 1
            a = _nc(out, q + 1)
            b = a
            while not (_code(out[b]) and out[b].t == '{'):
                b = L.match_close_code(out, b) + 1 if _code(out[b]) and out[b].t in ('(', '[') else b + 1
            z = _pc(out, b - 1)
            if n not in which:
                n += 1
                i = b
                continue
            src = out[a:z + 1]
            pre = [_x('let fsrc%d__ =' % n)] + src + [_x('; let ghost fg%d__ = fsrc%d__@;' % (n, n))]
            out = out[:i] + pre + out[i:a] + [_x('fsrc%d__' % n)] + out[z + 1:]
            i += len(pre)
            n += 1
        i += 1
    return out


def rw_sync(toks):
    """an `async fn` that awaits nothing -> a plain function"""
    if any(_code(t) and t.t == 'await' for t in toks):
        return toks
    return [t for i, t in enumerate(toks) if not (_code(t) and t.t == 'async' and toks[_nc(toks, i + 1)].t == 'fn')]


def rw_block_on(toks, sync):
    """`async_std::task::block_on(f(..))` -> `f(..)`, f a function under option `sync` (it awaits nothing, so it is done when polled once)"""
    out = list(toks)
    i = 0
    pat = ['async_std', '::', 'task', '::', 'block_on', '(']
    while i < len(out):
        if [t.t for t in out[i:i + 6]] == pat and all(_code(t) for t in out[i:i + 6]):
            e = L.match_close_code(out, i + 5)
            f = _nc(out, i + 6)
            if out[f].t in sync:
                out = out[:i] + [_x('(')] + out[i + 6:e] + [_x(')')] + out[e + 1:]
        i += 1
    return out


def rw_inline(toks, names):
    """nested `async fn F(a: A, b: B) -> R { BODY }` (no `return`, no `?`) is written out where it is called: `F(x, y)[.await]` -> `{ let a = x; let b = y; BODY }`.
    A parameter of type `&mut dyn Trait` thereby becomes the concrete component it is called with (static instead of dynamic dispatch)."""
    out = list(toks)
    i = 0
    while i < len(out) and not (_code(out[i]) and out[i].t == '{'):
        i = L.match_close_code(out, i) + 1 if _code(out[i]) and out[i].t in ('(', '[') else i + 1
    i += 1
    defs = {}
    while i < len(out):
        if _code(out[i]) and out[i].t == 'fn' and out[_nc(out, i + 1)].t in names:
            name = out[_nc(out, i + 1)].t
            s = i
            while _code(out[s - 1]) and out[s - 1].t in ('async',):
                s -= 1
            o = _nc(out, _nc(out, i + 1) + 1)
            if out[o].t != '(':
                i += 1
                continue
            e, args = split_args(out, o)
            b = e
            while not (_code(out[b]) and out[b].t == '{'):
                b += 1
            z = L.match_close_code(out, b)
            body = out[b:z + 1]
            if any(_code(t) and t.t in ('return', '?') for t in body):
                i += 1
                continue
            ps = []
            for a in args:
                code = [t for t in a if _code(t)]
                c = next(q for q, t in enumerate(code) if t.t == ':')
                ps.append(code[:c])
            defs[name] = (ps, body)
            del out[s:z + 1]
            i = s
            continue
        i += 1
    i = 0
    while i < len(out):
        if _code(out[i]) and out[i].t in defs and out[_nc(out, i + 1)].t == '(' and out[_pc(out, i - 1)].t not in ('.', '::', 'fn'):
            ps, body = defs[out[i].t]
            e, args = split_args(out, _nc(out, i + 1))
            if len(args) == len(ps):
                new = [_x('{')]
                for p, a in zip(ps, args):
                    new += [_x('let')] + p + [_x('=')] + a + [_x(';')]
                new += list(body) + [_x('}')]
                n = e + 1
                if n + 1 < len(out) and _code(out[n]) and out[n].t == '.' and out[n + 1].t == 'await':
                    n += 2
                # what was inlined is awaited where it stands
                out[i:n] = new
                i += len(new)
                continue
        i += 1
    return out


def rw_join_all(toks, asyncs, inlined):
    """`let N = join_all(SRC.iter_mut().map(|P| BODY));` and `let N = join_all(SRC.into_iter().map(F));` -> a loop that awaits one after the other and collects the results;
    `A.join(B.join(C)).await` over such names -> `(A, (B, C))` (the futures do nothing before they are awaited; what awaiting them side by side means is said by the ghost text).
    Ghost text behind SRC precedes the loop; in front of BODY (or of F): the first block the loop's invariants, the rest the start of the loop's body; behind it: the end of the loop's body, with the result called jr{n}__."""
    out = list(toks)
    n = 0
    i = 0
    made = set()
    while i < len(out):
        if not (_code(out[i]) and out[i].t == 'join_all' and out[_nc(out, i + 1)].t == '(' and out[_pc(out, i - 1)].t == '='):
            i += 1
            continue
        o = _nc(out, i + 1)
        e, args = split_args(out, o)
        eq = _pc(out, i - 1)
        nm = _pc(out, eq - 1)
        if len(args) != 1 or out[_pc(out, nm - 1)].t != 'let':
            i += 1
            continue
        arg = args[0]
        code = [q for q, t in enumerate(arg) if _code(t)]
        # the last `.map(`
        m = None
        for q in code:
            if arg[q].t == 'map' and arg[_pc(arg, q - 1)].t == '.' and L.match_close_code(arg, _nc(arg, q + 1)) == code[-1]:
                m = q
        if m is None:
            i += 1
            continue
        dot = _pc(arg, m - 1)
        src = arg[:dot]
        tail = arg[code[-1] + 1:]
        ready = []
        while src and not _code(src[-1]) and src[-1].k == 'ghost':     # what holds once the source is there
            ready.insert(0, src.pop())
        _, fa = split_args(arg, _nc(arg, m + 1))
        if len(fa) != 1:
            i += 1
            continue
        f = fa[0]
        sc = [t for t in src if _code(t)]
        while sc and sc[-1].t == ')' and [t.t for t in sc[-4:]] == ['.', 'into_iter', '(', ')']:
            cut = [q for q, t in enumerate(src) if _code(t)][-4]
            src = src[:cut]
            sc = [t for t in src if _code(t)]
        c = closure(f)
        if c:
            pats, g, body, g0 = c
            last = max(q for q, t in enumerate(body) if _code(t))
            post = body[last + 1:]
            body = body[:last + 1]
            inv, pre = g[:1], g[1:]
            pat = pats[0] if len(pats) == 1 else None
            call = body
            head = [t.t for t in body if _code(t)][:2]
            if not (head and head[0] in inlined):
                call = body + [_x('.await', '')]
        else:
            fc = [q for q, t in enumerate(f) if _code(t)]
            inv, pre, post = f[:fc[0]][:1], f[:fc[0]][1:], f[fc[-1] + 1:]
            pat = [_x('x%d__' % n)]
            call = f[fc[0]:fc[-1] + 1] + [L.Tok('op', '(', '', 0), L.Tok('id', 'x%d__' % n, '', 0), L.Tok('op', ')', '', 0)] + ([_x('.await', '')] if f[fc[-1]].t not in inlined else [])
        if pat is None:
            i += 1
            continue
        new = ([_x('{ let jas%d__ =' % n)] + src + [_x('; let ghost jag%d__ = jas%d__@; let mut ja%d__ = Vec::new();' % (n, n, n))] + ready + [_x('for')] + pat + [_x('in jit%d__: jas%d__' % (n, n))] + inv
               + [_x('{')] + pre + [_x('let jr%d__ =' % n)] + call + [_x('; ja%d__.push(jr%d__);' % (n, n))] + post + [_x('}')] + tail + [_x('ja%d__ }' % n)])
        made.add(out[nm].t)
        out[i:e + 1] = new
        i += len(new)
        n += 1
    # the joins over them
    changed = True
    while changed:
        changed = False
        for q, t in enumerate(out):
            if not (_code(t) and t.t == 'join' and out[_pc(out, q - 1)].t == '.' and out[_nc(out, q + 1)].t == '('):
                continue
            d = _pc(out, q - 1)
            o = _nc(out, q + 1)
            e, args = split_args(out, o)
            st = recv_start(out, d)
            if len(args) != 1 or any(_code(x) and x.t == 'join' for x in args[0]):
                continue
            ids = {x.t for x in out[st:d] + args[0] if _code(x) and x.k == 'id'}
            if not ids or not ids <= made:
                continue
            z = e + 1
            if z + 1 < len(out) and _code(out[z]) and out[z].t == '.' and out[_nc(out, z + 1)].t == 'await':
                z = _nc(out, z + 1) + 1
            out[st:z] = [_x('(')] + out[st:d] + [_x(',', '')] + args[0] + [_x(')', '')]
            changed = True
            break
    return out


def rw_map_err_mut(toks):
    """`E.map_err(|mut v| BODY)` -> `match E { Ok(o) => Ok(o), Err(mut v) => Err(BODY) }` (the verifier has no `mut` closure parameters)"""
    out = list(toks)
    i = 0
    while i + 2 < len(out):
        if _code(out[i]) and out[i].t == '.' and out[i + 1].t == 'map_err' and out[i + 2].t == '(':
            e, args = split_args(out, i + 2)
            c = closure(args[0]) if len(args) == 1 else None
            if c and len(c[0]) == 1 and [t.t for t in c[0][0] if _code(t)][:1] == ['mut']:
                st = recv_start(out, i)
                new = [_x('match')] + out[st:i] + [_x('{ Ok(ok__) => Ok(ok__), Err(')] + c[0][0] + [_x(') => Err(')] + c[1] + c[2] + [_x(') }')]
                out[st:e + 1] = new
                i = st
                continue
        i += 1
    return out
