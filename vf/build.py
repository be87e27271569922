"""Assemble a Verus crate from a contract file and /repo's current sources, and run the verifier."""
import json
import os
import re
import subprocess
import sys
import time

from . import rustlex as L
from . import weave as W
from . import chains

HERE = os.path.dirname(os.path.abspath(__file__))
CONTRACTS = os.path.join(os.path.dirname(HERE), 'contracts')

# methods of the trusted environment that act on the outside world
EFF_METHODS = {'send', 'recv', 'try_recv', 'write_all', 'flush', 'close', 'read'}
EFF_FNS = {'sleep', 'bounded', 'unbounded'}    # fs::File::open / create, stdin(), stdout(), stderr() only name a place


def include(text, base):
    out = []
    for ln in text.split('\n'):
        m = re.match(r'\s*//@include\s+(\S+)', ln)
        if m:
            out.append(include(open(os.path.join(base, m.group(1))).read(), base))
        else:
            out.append(ln)
    return '\n'.join(out)


def add_effects(toks, eff_fns, local_eff):
    """thread the ghost World through the definitions and calls of effectful functions"""
    out = []
    n = len(toks)
    close_at = {}   # token index of ')' -> insertion text
    for i, t in enumerate(toks):
        if t.k != 'id' or i + 1 >= n:
            continue
        j = i + 1
        if toks[j].k in ('ghost', 'exec') or toks[j].t not in ('(', '<'):
            continue
        p = i - 1
        while p >= 0 and toks[p].k in ('ghost', 'exec'):
            p -= 1
        prev = toks[p].t if p >= 0 else ''
        if prev == 'fn':
            if t.t in local_eff:
                if toks[j].t == '<':
                    while toks[j].t != '(':
                        j += 1
                close_at[L.match_close(toks, j)] = ('def', j)
            continue
        if toks[j].t != '(':
            continue
        if prev == '.':
            if t.t in EFF_METHODS or t.t in eff_fns.get('m', ()):
                close_at[L.match_close(toks, j)] = ('call', j)
        elif t.t in eff_fns.get('f', ()) or t.t in local_eff:
            close_at[L.match_close(toks, j)] = ('call', j)
    for i, t in enumerate(toks):
        if i in close_at:
            kind, j = close_at[i]
            last = None
            for q in range(j + 1, i):
                if toks[q].k not in ('ghost', 'exec'):
                    last = toks[q].t
            empty = last is None
            sep = '' if empty or last == ',' else ', '
            txt = sep + ('Tracked(w): Tracked<&mut World>' if kind == 'def' else 'Tracked(w)')
            out.append(L.Tok('exec', txt, '', 0))
        out.append(t)
    return out


def rw_map_close(toks):
    """`E.map(|m| m.close());` -> `match E { Some(m) => { m.close(); }, None => {} };` (statement position)"""
    out = list(toks)
    pat = ['.', 'map', '(', '|', None, '|', None, '.', 'close', '(', ')', ')', ';']
    i = 0
    while i + len(pat) <= len(out):
        seg = out[i:i + len(pat)]
        if all(p is None or (s.k not in ('ghost', 'exec') and s.t == p) for p, s in zip(pat, seg)) and seg[4].t == seg[6].t:
            s = i
            while s > 0 and out[s - 1].t not in (';', '{', '}') and out[s - 1].k not in ('ghost',):
                s -= 1
            v = seg[4].t
            mk = lambda t, k='op', pre=' ': L.Tok(k, t, pre, seg[0].line)
            new = [mk('match', 'id')] + out[s:i] + [mk('{'), mk('Some', 'id'), mk('('), mk(v, 'id'), mk(')'), mk('=>'), mk('{'),
                   mk(v, 'id'), mk('.', pre=''), mk('close', 'id', ''), mk('('), mk(')'), mk(';'), mk('}'), mk(','), mk('None', 'id'), mk('=>'), mk('{'), mk('}'), mk('}'), mk(';')]
            out[s:i + len(pat)] = new
            i = s + len(new)
            continue
        i += 1
    return out


def rw_mut_params(toks):
    """`fn f(mut x: T)` -> `fn f(x: T) { let mut x = x; …` (the verifier has no `mut` parameters in async functions)"""
    out = list(toks)
    i = 0
    while i < len(out) and not (_code(out[i]) and out[i].t == 'fn'):
        i += 1
    while i < len(out) and not (_code(out[i]) and out[i].t == '('):
        i += 1
    if i >= len(out):
        return out
    e = L.match_close(out, i)
    names, drop = [], []
    for q in range(i + 1, e):
        if _code(out[q]) and out[q].t == 'mut':
            p = q - 1
            while not _code(out[p]):
                p -= 1
            if out[p].t in ('(', ','):
                nx = q + 1
                while not _code(out[nx]):
                    nx += 1
                if out[nx].t != 'self':
                    drop.append(q)
                    names.append(out[nx].t)
    if not names:
        return out
    b = e
    while not (_code(out[b]) and out[b].t == '{'):
        b += 1
    ins = [L.Tok('exec', ' '.join('let mut %s = %s;' % (n, n) for n in names), ' ', 0)]
    head = out[:b + 1]
    if b + 1 < len(out) and out[b + 1].k == 'ghost' and out[b + 1].t.lstrip().startswith('hide('):   # `hide` comes first
        head, out = head + [out[b + 1]], out[:b + 1] + out[b + 2:]
    return [t for q, t in enumerate(head) if q not in drop] + ins + out[b + 1:]


def _code(t):
    return t.k not in ('ghost', 'exec')


def rw_continue(toks):
    """inside a `for` body: `if C { S continue; } REST` -> `if C { S } else { REST }` (the verifier has no `continue` in `for`)"""
    out = list(toks)
    changed = True
    while changed:
        changed = False
        for i, t in reversed(list(enumerate(out))):
            if not (_code(t) and t.t == 'continue'):
                continue
            # innermost enclosing blocks
            def open_before(k):
                d = 0
                for q in range(k - 1, -1, -1):
                    if not _code(out[q]):
                        continue
                    if out[q].t in (')', ']', '}'):
                        d += 1
                    elif out[q].t in ('(', '[', '{'):
                        if d == 0:
                            return q
                        d -= 1
                return None
            b1 = open_before(i)
            b2 = open_before(b1) if b1 is not None else None
            if b2 is None or out[b1].t != '{' or out[b2].t != '{':
                continue
            # b1 must be an `if` block, b2 a `for` body
            def head(k):
                q = k - 1
                d = 0
                while q >= 0:
                    if _code(out[q]):
                        if out[q].t in (')', ']', '}'):
                            d += 1
                            if out[q].t == '}' and d == 1:
                                return q + 1
                        elif out[q].t in ('(', '[', '{'):
                            if d == 0:
                                return q + 1
                            d -= 1
                        elif d == 0 and out[q].t == ';':
                            return q + 1
                    q -= 1
                return 0
            def first(k):
                while not _code(out[k]):
                    k += 1
                return out[k].t
            if first(head(b1)) != 'if' or first(head(b2)) != 'for':
                continue
            e1 = L.match_close_code(out, b1)
            nxt = e1 + 1
            while not _code(out[nxt]):
                nxt += 1
            if out[nxt].t == 'else':
                continue
            # continue must be the last statement of its block
            tail = [x.t for x in out[i + 1:e1] if _code(x)]
            if tail not in ([], [';']):
                continue
            e2 = L.match_close_code(out, b2)
            mk = lambda s: L.Tok('op', s, ' ', 0)
            keep = [x for x in out[i + 1:e1] if not _code(x)]
            out = out[:i] + keep + [out[e1], L.Tok('id', 'else', ' ', 0), mk('{')] + out[e1 + 1:e2] + [mk('}')] + out[e2:]
            changed = True
            break
    return out


def _mk(t, k='op', pre=' '):
    return L.Tok(k, t, pre, 0)


def _next_code(toks, i):
    while i < len(toks) and not _code(toks[i]):
        i += 1
    return i


def _prev_code(toks, i):
    while i >= 0 and not _code(toks[i]):
        i -= 1
    return i


def rw_assert(toks):
    """`assert!(c, …)` -> `crate::world::vassert(c)`: a failing run-time assertion is an obligation"""
    out = list(toks)
    i = 0
    while i + 2 < len(out):
        if _code(out[i]) and out[i].t == 'assert' and out[i + 1].t == '!' and out[i + 2].t == '(':
            e = L.match_close_code(out, i + 2)
            d, cut = 0, e
            for q in range(i + 3, e):
                if not _code(out[q]):
                    continue
                if out[q].t in ('(', '[', '{'):
                    d += 1
                elif out[q].t in (')', ']', '}'):
                    d -= 1
                elif out[q].t == ',' and d == 0:
                    cut = q
                    break
            out[i:e] = [L.Tok('id', 'crate::world::vassert', out[i].pre, out[i].line), _mk('(', pre='')] + out[i + 3:cut]
        i += 1
    return out


def rw_enumerate(toks, idx=False):
    """`for (i, x) in E.enumerate() { B }` -> `let mut n__i: usize = 0; for x in E { let i = n__i; n__i = n__i + 1; B }`;
    with idx, for E = `V.iter_mut()`: `while n__i < V.len() { let i = n__i; let x = &mut V[i]; n__i = n__i + 1; B }`"""
    out = list(toks)
    i = 0
    while i < len(out):
        if not (_code(out[i]) and out[i].t == 'for'):
            i += 1
            continue
        a = _next_code(out, i + 1)
        if a >= len(out) or out[a].t != '(':
            i += 1
            continue
        e = L.match_close_code(out, a)
        pat = [q for q in range(a + 1, e) if _code(out[q])]
        if len(pat) < 3 or out[pat[0]].k != 'id' or out[pat[1]].t != ',':
            i += 1
            continue
        b = e
        d = 0
        while True:
            b += 1
            if b >= len(out):
                break
            if not _code(out[b]):
                continue
            if out[b].t in ('(', '['):
                d += 1
            elif out[b].t in (')', ']'):
                d -= 1
            elif out[b].t == '{' and d == 0:
                break
        if b >= len(out):
            break
        tail = [q for q in range(e, b) if _code(out[q])][-4:]
        if [out[q].t for q in tail] != ['.', 'enumerate', '(', ')']:
            i += 1
            continue
        v = out[pat[0]].t
        body_pat = out[pat[2]:e]
        head = [L.Tok('exec', 'let mut n__%s: usize = 0;' % v, out[i].pre, 0), _mk('for', 'id')] + body_pat
        mid = [t for q, t in enumerate(out[e + 1:b], e + 1) if q not in tail]
        # leave invariants behind the expression
        if idx:
            mc = [q for q in range(len(mid)) if _code(mid[q])]
            if [mid[q].t for q in mc[:1]] == ['in'] and [mid[q].t for q in mc[-4:]] == ['.', 'iter_mut', '(', ')']:
                ex = ''.join(mid[q].t for q in mc[1:-4])
                gh = [t for t in mid if not _code(t)]
                new = [L.Tok('exec', 'let mut n__%s: usize = 0; while n__%s < %s.len()' % (v, v, ex), out[i].pre, 0)] + gh + [out[b],
                       L.Tok('exec', 'let %s = n__%s; let' % (v, v), ' ', 0)] + body_pat + [L.Tok('exec', '= &mut %s[n__%s]; n__%s = n__%s + 1;' % (ex, v, v, v), ' ', 0)]
                out[i:b + 1] = new
                i += 2
                continue
        out[i:b + 1] = head + mid + [out[b], L.Tok('exec', 'let %s = n__%s; n__%s = n__%s + 1;' % (v, v, v, v), ' ', 0)]
        i += 2
    return out


def rw_opt_for(toks):
    """`for x in &mut OPTION { B }` -> `if let Some(x) = &mut OPTION { B }` (does not type-check unless OPTION is one)"""
    out = list(toks)
    i = 0
    while i < len(out):
        if _code(out[i]) and out[i].t == 'for':
            q = i + 1
            while q < len(out) and not (_code(out[q]) and out[q].t == 'in'):
                q += 1
            a = _next_code(out, q + 1)
            b = _next_code(out, a + 1) if a < len(out) else a
            if b < len(out) and out[a].t == '&' and out[b].t == 'mut':
                out[i:q + 1] = [L.Tok('id', 'if', out[i].pre, out[i].line), _mk('let', 'id'), _mk('Some', 'id'), _mk('(', pre='')] + out[i + 1:q] + [_mk(')', pre=''), _mk('=')]
        i += 1
    return out


def rw_join(toks):
    """`a.join(b).join(c).await`, where a, b, c are calls or `let`-bound calls used nowhere else ->
    `{ let j0 = a.await; let j1 = b.await; let j2 = c.await; ((j0, j1), j2) }` (futures do nothing before they are awaited)"""
    out = list(toks)

    def back_open(k):
        d = 0
        for q in range(k, -1, -1):
            if not _code(out[q]):
                continue
            if out[q].t in (')', ']', '}'):
                d += 1
            elif out[q].t in ('(', '[', '{'):
                d -= 1
                if d == 0:
                    return q
        return None
    i = 0
    while i < len(out):
        if not (_code(out[i]) and out[i].t == 'await'):
            i += 1
            continue
        p = _prev_code(out, i - 1)              # the dot
        q = _prev_code(out, p - 1)
        args = []
        while q >= 0 and out[q].t == ')':
            o = back_open(q)
            j = _prev_code(out, o - 1)
            d = _prev_code(out, j - 1)
            if out[j].t != 'join' or out[d].t != '.':
                break
            args.insert(0, out[o + 1:q])
            last_dot = d
            q = _prev_code(out, d - 1)
        if not args:
            i += 1
            continue
        # base operand
        st = q
        if out[q].t == ')':
            st = _prev_code(out, back_open(q) - 1)
        elif out[q].k != 'id':
            i += 1
            continue
        ops = [out[st:last_dot]] + args
        ops = [([t for t in op], ) for op in ops]
        cut = []
        new = []
        for n, (op,) in enumerate(ops):
            e = len(op)
            while e > 0 and not _code(op[e - 1]):
                e -= 1
            tail, op = op[e:], op[:e]
            code = [t for t in op if _code(t)]
            if len(code) == 1 and code[0].k == 'id':
                name = code[0].t
                uses = [k for k, t in enumerate(out) if _code(t) and t.t == name]
                k0 = uses[0]
                if len(uses) == 2 and out[_prev_code(out, k0 - 1)].t == 'let' and out[_next_code(out, k0 + 1)].t == '=':
                    a = _next_code(out, k0 + 1) + 1
                    z, d = a, 0
                    while not (_code(out[z]) and out[z].t == ';' and d == 0):
                        if _code(out[z]):
                            d += out[z].t in ('(', '[', '{')
                            d -= out[z].t in (')', ']', '}')
                        z += 1
                    op = out[a:z]
                    cut.append((_prev_code(out, k0 - 1), z + 1))
            new += [L.Tok('exec', 'let j%d__ =' % n, '\n', 0)] + op + [_mk('.', pre=''), _mk('await', 'id', ''), _mk(';', pre='')] + tail
        tup = 'j0__'
        for n in range(1, len(ops)):
            tup = '(%s, j%d__)' % (tup, n)
        res = [L.Tok('exec', '{', ' ', 0)] + new + [L.Tok('exec', tup + ' }', ' ', 0)]
        out[st:i + 1] = res
        for a, z in sorted(cut, reverse=True):
            out[a:z] = [t for t in out[a:z] if not _code(t) and t.k == 'ghost']
        i = 0 if cut else st + len(res)
        if cut:
            continue
    return out


def rw_copied(toks):
    """`SLICE.iter().copied().collect()` -> `SLICE.to_vec()`"""
    out = list(toks)
    pat = ['.', 'iter', '(', ')', '.', 'copied', '(', ')', '.', 'collect', '(', ')']
    i = 0
    while i + len(pat) <= len(out):
        if [t.t for t in out[i:i + len(pat)]] == pat:
            out[i:i + len(pat)] = [_mk('.', pre=''), _mk('to_vec', 'id', ''), _mk('(', pre=''), _mk(')', pre='')]
        i += 1
    return out


def rw_closure_pat(toks):
    """`|(_, a), (_, b)| { B }` -> `|p0__, p1__| { let (_, a) = p0__; let (_, b) = p1__; B }`"""
    out = list(toks)
    i = 0
    while i < len(out):
        if not (_code(out[i]) and out[i].t == '|'):
            i += 1
            continue
        p = _prev_code(out, i - 1)
        if p < 0 or out[p].t not in ('(', ',', '=', '=>', 'move', '{', ';', 'return'):
            i += 1
            continue
        e = i + 1
        d = 0
        while e < len(out):
            if _code(out[e]):
                if out[e].t in ('(', '['):
                    d += 1
                elif out[e].t in (')', ']'):
                    d -= 1
                elif out[e].t == '|' and d == 0:
                    break
            e += 1
        q = i + 1
        new, lets, n = [], [], 0
        while q < e:
            if _code(out[q]) and out[q].t == '(' and (not new or (new[-1].t == ',' and _code(new[-1]))):
                c = L.match_close_code(out, q)
                nm = 'p%d__' % n
                lets.append('let %s = %s;' % (' '.join(t.t for t in out[q:c + 1]), nm))
                new.append(_mk(nm, 'id', ''))
                n += 1
                q = c + 1
                continue
            if _code(out[q]) and out[q].t == '_' and (not new or (new[-1].t == ',' and _code(new[-1]))):
                out[q] = _mk('p%d__' % n, 'id', '')
                n += 1
            new.append(out[q])
            q += 1
        if lets:
            b = e + 1
            while b < len(out) and not (_code(out[b]) and out[b].t == '{') and not (not _code(out[b]) and out[b].t.rstrip().endswith('{')):
                if _code(out[b]):
                    b = None
                    break
                b += 1
            if b is not None:
                out[i + 1:b + 1] = new + out[e:b + 1] + [L.Tok('exec', ' '.join(lets), ' ', 0)]
                i = i + len(new) + (b - e) + 2
                continue
        i = e + 1
    return out


def rw_print(toks):
    """`println!(A)` -> `crate::out::say(format!(A), Tracked(o))`, `eprintln!(A)` -> `crate::out::complain(..)`, `std::process::exit(C)` -> `crate::out::exit(C, Tracked(o))`:
    what is printed goes to the ghost record `o` of this process's output"""
    out = list(toks)
    i = 0
    while i + 2 < len(out):
        if _code(out[i]) and out[i].t in ('println', 'print', 'eprintln', 'eprint') and out[i + 1].t == '!' and out[i + 2].t == '(':
            e = L.match_close_code(out, i + 2)
            f = {'println': 'say', 'print': 'say_part', 'eprintln': 'complain', 'eprint': 'complain'}[out[i].t]
            inner = out[i + 3:e]
            empty = not any(_code(t) for t in inner)
            arg = [_mk('format', 'id'), _mk('!', pre=''), _mk('(', pre='')] + (inner if not empty else [L.Tok('str', '""', '', 0)]) + [_mk(')', pre='')]
            out[i:e + 1] = [L.Tok('exec', 'crate::out::%s(' % f, out[i].pre, out[i].line)] + arg + [L.Tok('exec', ', Tracked(o))', '', 0)]
            i += 4
            continue
        if [t.t for t in out[i:i + 6]] == ['std', '::', 'process', '::', 'exit', '('] and all(_code(t) for t in out[i:i + 6]):
            e = L.match_close_code(out, i + 5)
            out[i:e + 1] = [L.Tok('exec', 'crate::out::exit(', out[i].pre, out[i].line)] + out[i + 6:e] + [L.Tok('exec', ', Tracked(o))', '', 0)]
        i += 1
    return out


def rw_format(toks):
    """`format!("a{}b{:?}", x, y)` -> `crate::fmt::text().lit("a").disp(&(x)).lit("b").dbg(&(y)).done()`"""
    out = list(toks)
    i = 0
    while i + 3 < len(out):
        if not (_code(out[i]) and out[i].t == 'format' and out[i + 1].t == '!' and out[i + 2].t == '(' and out[i + 3].k == 'str'):
            i += 1
            continue
        e = L.match_close_code(out, i + 2)
        args, cur, d = [], [], 0
        for q in range(i + 4, e):
            t = out[q]
            if _code(t):
                if t.t in ('(', '[', '{'):
                    d += 1
                elif t.t in (')', ']', '}'):
                    d -= 1
                elif t.t == ',' and d == 0:
                    if cur:
                        args.append(cur)
                    cur = []
                    continue
            cur.append(t)
        if cur:
            args.append(cur)
        pieces = re.split(r'(\{\{|\}\}|\{[^{}]*\})', out[i + 3].t[1:-1])
        new, lit, k, ok = [L.Tok('exec', 'crate::fmt::text()', out[i].pre, out[i].line)], '', 0, True
        for pc in pieces:
            if pc in ('{{', '}}'):
                lit += pc[0]
            elif pc.startswith('{') and pc.endswith('}'):
                m = re.match(r'^\{(\w*)(:\?)?\}$', pc)
                if not m:
                    ok = False
                    break
                if lit:
                    new.append(L.Tok('exec', '.lit("%s")' % lit, '', 0))
                    lit = ''
                if m.group(1) and not m.group(1).isdigit():
                    a = [L.Tok('id', m.group(1), '', 0)]
                else:
                    n = int(m.group(1)) if m.group(1) else k
                    if not m.group(1):
                        k += 1
                    if n >= len(args):
                        ok = False
                        break
                    a = args[n]
                new += [L.Tok('exec', '.%s(&(' % ('dbg' if m.group(2) else 'disp'), '', 0)] + a + [L.Tok('exec', '))', '', 0)]
            else:
                lit += pc
        if lit:
            new.append(L.Tok('exec', '.lit("%s")' % lit, '', 0))
        new.append(L.Tok('exec', '.done()', '', 0))
        if ok:
            out[i:e + 1] = new
        i += 1
    return out


def rw_seq(toks):
    """`V.into_iter().map(F).collect()` -> `V.map_collect(F)`; `V.into_iter().rev()` -> `V.reversed()` (vectors; crate::seqs)"""
    out = list(toks)
    i = 0
    while i < len(out):
        pat = ['.', 'into_iter', '(', ')', '.']
        if [t.t for t in out[i:i + 5]] == pat and all(_code(t) for t in out[i:i + 5]) and i + 6 < len(out):
            nm = out[i + 5].t
            if nm == 'rev' and out[i + 6].t == '(' and out[i + 7].t == ')':
                out[i:i + 8] = [_mk('.', pre=''), _mk('reversed', 'id', ''), _mk('(', pre=''), _mk(')', pre='')]
            elif nm == 'map' and out[i + 6].t == '(':
                e = L.match_close_code(out, i + 6)
                q = e + 1
                if [t.t for t in out[q:q + 4]] == ['.', 'collect', '(', ')']:
                    out[i:q + 4] = [_mk('.', pre=''), _mk('map_collect', 'id', '')] + out[i + 6:e + 1]
        i += 1
    return out


def hoist(toks, attrs):
    """structs, enums and impls declared inside a function are moved in front of it; -> (moved items as text, rest)"""
    out = list(toks)
    moved = []
    i = 0
    while i < len(out) and not (_code(out[i]) and out[i].t == '{'):
        i = L.match_close_code(out, i) + 1 if _code(out[i]) and out[i].t in ('(', '[') else i + 1
    i += 1
    while i < len(out):
        if _code(out[i]) and out[i].t == 'impl' and out[_prev_code(out, i - 1)].t in ('{', '}', ';'):
            b = i
            while not (_code(out[b]) and out[b].t == '{'):
                b += 1
            e = L.match_close_code(out, b)
            moved.append(W.render(rw_mut_params(out[i:e + 1])))
            del out[i:e + 1]
            continue
        if _code(out[i]) and out[i].t in ('struct', 'enum') and out[_prev_code(out, i - 1)].t in ('{', '}', ';'):
            b = i
            while out[b].t != '{':
                b += 1
            e = L.match_close_code(out, b)
            name = out[i + 1].t
            txt = 'pub ' + W.render(out[i:e + 1])
            moved.append(txt)
            if 'PartialEq' in attrs.get(name, ()):
                moved.append('impl PartialEq for %s { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }' % name)
                moved.append('impl vstd::std_specs::cmp::PartialEqSpecImpl for %s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }' % name)
            del out[i:e + 1]
            continue
        i += 1
    return '\n'.join(moved), out


class Unit:
    def __init__(self, name, repo='/repo'):
        self.name = name
        self.repo = repo
        text = include(open(os.path.join(CONTRACTS, name + '.rs')).read(), CONTRACTS)
        self.parts = W.parse_template(text)
        self.blocks = [p for p in self.parts if isinstance(p, W.Block)]
        W._cache.clear()
        self.lost = {}          # block key -> reason
        self.forced = set()

    def eff_sets(self):
        f, m = set(EFF_FNS), set()
        for b in self.blocks:
            if 'eff' in b.opts:
                (m if b.path.startswith('impl') else f).add(b.name)
        return {'f': f, 'm': m}

    def block_text(self, b, eff):
        cur = W.current_item(self.repo, b.file, b.path)
        if cur is None:
            b.status = 'missing'
            b.reason = 'item not found in /repo'
            return self.stub(b, eff)
        if b.key in self.forced:
            b.status = 'lost'
            b.reason = self.lost.get(b.key, '')
            return self.stub(b, eff)
        toks = W.carry(b, cur)
        if toks is None:
            self.lost[b.key] = b.reason
            return self.stub(b, eff)
        return self.finish(b, toks, eff)

    def finish(self, b, toks, eff):
        local = set()
        for o in b.opts:
            if o == 'eff':
                local.add(b.name)
            elif o.startswith('eff+'):
                local.add(o[4:])
        inl = [x for o in b.opts if o.startswith('inline=') for x in o[7:].split('+')]
        if inl:
            toks = chains.rw_inline(chains.rw_join_all(toks, (), inl), inl)
        elif 'joinall' in b.opts:
            toks = chains.rw_join_all(toks, (), ())
        if 'nofn' in b.opts:
            toks = chains.rw_nested_fns(toks, True)
        if 'sync' in b.opts:
            toks = chains.rw_sync(toks)
        if 'seq' in b.opts:
            toks = chains.rw_block_on(toks, {x.name for x in self.blocks if 'sync' in x.opts})
            toks = chains.rewrite(chains.rw_map_err_mut(toks))
        for o in b.opts:
            if o.startswith('forsrc='):
                toks = chains.rw_for_src(toks, [int(x) for x in o[7:].split('+')])
        if 'out' in b.opts:
            toks = rw_print(toks)
        toks = rw_map_close(toks)
        toks = rw_assert(toks)
        toks = rw_enumerate(toks, 'idx' in b.opts)
        toks = rw_closure_pat(toks)
        toks = rw_copied(toks)
        toks = rw_seq(toks)
        toks = rw_format(toks)
        moved = ''
        if 'hoist' in b.opts:
            moved, toks = hoist(toks, W.derives(self.repo, b.file, b.path))
        if 'join' in b.opts:
            toks = rw_join(toks)
        if 'optfor' in b.opts:
            toks = rw_opt_for(toks)
        toks = rw_continue(toks)
        if b.kind == 'fn':
            toks = rw_mut_params(toks)
            eff = {'f': eff['f'], 'm': eff['m'] | {o[2:] for o in b.opts if o.startswith('m+')}}
            toks = add_effects(toks, eff, local)
        s = W.render(toks)
        if moved:
            s = moved + '\n' + s
        if b.path.startswith('impl') and b.kind == 'fn' and b.path.count('>') == 1:
            ty = b.path.split('>')[0].strip()[5:].split(' for ')[-1]
            wrap = next((o[5:] for o in b.opts if o.startswith('wrap=')), 'impl ' + ty)
            if not s.lstrip().startswith(('pub', '#[verifier::external_body]')):
                mm = re.match(r'\s*((?:#\[[^\]]*\]\s*)*)', s)
                rest = s[mm.end():]
                s = mm.group(1) + ('' if rest.startswith('pub') else 'pub ') + rest
            if 'bare' not in b.opts:
                s = wrap + ' {\n' + s + '\n}'
        return s

    def stub(self, b, eff):
        """contract only: used when the current text is out of the verifier's reach (never counted as proved)"""
        btoks = L.lex(b.text, keep_ghost=True)
        if b.kind != 'fn':
            return self.finish(b, btoks, eff)
        # signature up to the body brace
        i = 0
        while not (btoks[i].k not in ('ghost', 'exec') and btoks[i].t == 'fn'):
            i += 1
        while not (btoks[i].k not in ('ghost', 'exec') and btoks[i].t == '{'):
            if btoks[i].k not in ('ghost', 'exec') and btoks[i].t in ('(', '['):
                i = L.match_close(btoks, i)
            i += 1
        sig = btoks[:i]
        body = [L.Tok('op', '{', ' ', 0), L.Tok('exec', 'unimplemented!()', ' ', 0), L.Tok('op', '}', ' ', 0)]
        attr = L.Tok('exec', '#[verifier::external_body]', '\n', 0)
        return self.finish(b, [attr] + sig + body, eff) if not (b.path.startswith('impl')) else self.finish(b, [attr] + self.ensure_pub(sig) + body, eff)

    def ensure_pub(self, sig):
        if any(t.t == 'pub' and _code(t) for t in sig[:6]):
            return sig
        return [L.Tok('exec', 'pub', ' ', 0)] + sig

    def assemble(self):
        eff = self.eff_sets()
        out = []
        line = 1
        self.map = []
        for p in self.parts:
            if isinstance(p, W.Block):
                s = self.block_text(p, eff)
            else:
                s = p
            n = s.count('\n') + 1
            if isinstance(p, W.Block):
                p.range = (line, line + n - 1)
                p.out = s
            out.append(s)
            line += n
        return '\n'.join(out)


def run_verus(path, extra=(), timeout=800, errors=5):
    cmd = ['verus', path, '--output-json', '--time-expanded', '--multiple-errors', str(errors), '--triggers-mode', 'silent', '--error-format=json'] + list(extra)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, so, se = -1, '', 'timeout'
    res = {'cmd': ' '.join(cmd), 'rc': rc, 'wall': time.time() - t0, 'diags': [], 'json': None, 'raw': se}
    for ln in se.split('\n'):
        ln = ln.strip()
        if ln.startswith('{'):
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if d.get('level') in ('error', 'error: internal compiler error'):
                res['diags'].append(d)
    try:
        res['json'] = json.loads(so[so.index('{'):])
    except ValueError:
        pass
    return res


def main():
    name = sys.argv[1]
    repo = os.environ.get('VF_REPO', '/repo')
    u = Unit(name, repo)
    txt = u.assemble()
    out = '/tmp/vf_%s.rs' % name
    open(out, 'w').write(txt)
    for b in u.blocks:
        if b.status not in ('same',):
            print(b.status, b.key, b.reason)
    r = run_verus(out, sys.argv[2:])
    for d in r['diags']:
        print(d.get('rendered', d['message']))
    if not r['diags'] and r['rc'] != 0:
        print(r['raw'][-3000:])
    if r['json']:
        print(r['json'].get('verification-results'))
    print('%.1fs' % r['wall'])


if __name__ == '__main__':
    main()
