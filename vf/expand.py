"""What `peg::parser!` makes of the grammar in src/config.rs: its expansion by the compiler itself, taken anew on every run."""
import os
import re
import subprocess

from . import rustlex as L

_cache = {}


class Failed(Exception):
    pass


def expanded(repo, work):
    """the tokens of `mod connection_parser` in the expanded library"""
    if repo in _cache:
        return _cache[repo]
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=os.path.join(work, 'expand'), CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_INCREMENTAL='0', RUSTC_BOOTSTRAP='1')
    e.pop('RUSTFLAGS', None)
    # the extra cfg makes this run differ from the one before: cargo would print nothing again for a crate it finds fresh
    p = subprocess.run(['cargo', 'rustc', '--offline', '--lib', '--quiet', '--manifest-path', os.path.join(repo, 'Cargo.toml'), '--', '-Zunpretty=expanded', '--cap-lints', 'allow',
                        '--cfg', 'vf_run_%d_%s' % (os.getpid(), re.sub(r'\W', '', str(os.times().elapsed)))],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if p.returncode != 0 or 'mod connection_parser' not in p.stdout:
        raise Failed('the library could not be expanded: ' + p.stderr[-1500:])
    s = p.stdout
    i = s.index('mod connection_parser')
    toks = L.lex(s[i:i + 400000])
    j = 0
    while toks[j].t != '{':
        j += 1
    toks = toks[:L.match_close(toks, j) + 1]
    _cache[repo] = toks
    return toks


def rules(repo, work):
    """name -> tokens of the function; `name` for the entry, `__parse_name` for the rule"""
    toks = expanded(repo, work)
    out = {}
    j = 0
    while toks[j].t != '{':
        j += 1
    for it in L.nested_fns(toks, j + 1, len(toks) - 1):
        if it.kind == 'fn':
            out.setdefault(it.name, toks[it.lo:it.hi])
    return out


def _x(s):
    return L.Tok('exec', s, ' ', 0)


def _seq(toks, i, ts):
    return [t.t for t in toks[i:i + len(ts)]] == ts


def clean(toks):
    """the expansion in the verifier's dialect (see DESIGN.md, What the extraction changes)"""
    out = []
    i = 0
    n = len(toks)
    while i < n:
        t = toks[i]
        if t.t == '#' and _seq(toks, i + 1, ['!', '[']):                         # #![allow(..)]
            i = L.match_close(toks, i + 2) + 1
            continue
        if t.t == '::' and _seq(toks, i + 1, ['peg', '::']):
            out.append(_x('crate::peg::'))
            i += 3
            continue
        if t.t == '::' and _seq(toks, i + 1, ['std', '::', 'result', '::']):
            i += 5
            continue
        if t.t == '::' and _seq(toks, i + 1, ['alloc', '::', 'vec', '::']):
            i += 5
            continue
        if t.t == '::' and _seq(toks, i + 1, ['alloc', '::', 'boxed', '::', 'box_assume_init_into_vec_unsafe', '(']):   # vec![..]
            e = L.match_close(toks, i + 6)
            k = i + 7
            while k < e and toks[k].t != '[':
                k += 1
            inner = toks[k:L.match_close(toks, k) + 1]
            out += [_x('vec!')] + clean(inner)
            i = e + 1
            continue
        if t.t == '::' and _seq(toks, i + 1, ['std', '::', 'rt', '::']) and toks[i + 5].t in ('panic_fmt', 'begin_panic') and toks[i + 6].t == '(':
            i = L.match_close(toks, i + 6) + 1
            out.append(_x('crate::peg::never()'))
            continue
        if t.t == '(' and toks[i + 1].t in ('||', '|'):                            # (|| { E })()
            k = i + 2 if toks[i + 1].t == '||' else i + 3
            e = L.match_close(toks, i)
            if toks[k].t == '{' and L.match_close(toks, k) == e - 1 and _seq(toks, e + 1, ['(', ')']) and not any(x.t in ('return', '?') for x in toks[k:e]):
                out += clean(toks[k:e])
                i = e + 3
                continue
        if t.t == 'for' and toks[i + 1].t == 'mut' and toks[i + 3].t == 'in':
            b = i + 4
            while toks[b].t != '{':
                b += 1
            nm = toks[i + 2].t
            out += [t, toks[i + 2]] + clean(toks[i + 3:b]) + [toks[b], _x('let mut %s = %s;' % (nm, nm))]
            i = b + 1
            continue
        if t.t == '.' and _seq(toks, i + 1, ['parse', '(', ')']):
            out += [t, _x('parse_text()')]
            i += 4
            continue
        out.append(t)
        i += 1
    return out


def item(repo, work, name):
    """the cleaned tokens of one function of the expansion, lexed afresh; None if there is none of that name"""
    r = rules(repo, work)
    if name not in r:
        return None
    return L.lex(''.join(t.pre + t.t for t in clean(r[name])).strip())
