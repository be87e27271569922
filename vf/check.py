"""Decide one property: verify the contracts over /repo's current text, run the bounded stand-ins, report.

  python3 -m vf.check C01 [--tier quick|thorough] [--no-harness] [--no-proof]

exit 0: the property held on everything explored; exit 1: VIOLATION line; exit 2: no answer.
"""
import collections
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

from . import build as B
from . import hints
from . import props as P
from . import rustlex as L
from . import weave as W

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
WORK = os.environ.get('VF_WORK', os.path.join(VERIF, '.work'))
HARNESS = os.path.join(VERIF, 'harness')


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ proof side

def diag_lines(d):
    """(line, is_primary) of the spans of a diagnostic"""
    out = []
    for s in d.get('spans', []):
        prim = s.get('is_primary', False)
        out.append((s['line_start'], prim))
        while s.get('expansion'):       # what a macro expands to is where the macro is used
            s = s['expansion']['span']
            out.append((s['line_start'], prim))
    return out


def block_at(u, line):
    for b in u.blocks:
        if b.range and b.range[0] <= line <= b.range[1]:
            return b
    return None


VERIF_FAIL = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|'
                        r'possible arithmetic|possible division|decreases not satisfied|unreachable|recommendation not met|'
                        r'assertion not satisfied|possible bit shift|not satisfied|loop invariant|at this exit')
RLIMIT = re.compile(r'rlimit|resource limit|timed out|timeout', re.I)


def skeleton(toks):
    """control structure of a piece of code: what a small slip leaves alone and a rewrite does not"""
    keep = {'if', 'else', 'match', 'for', 'while', 'loop', 'return', 'break', 'continue', 'fn', 'async', '?', 'let', '=>', '|'}
    return [t.t for t in toks if t.k not in ('ghost', 'exec') and t.t in keep]


def small_change(b):
    """the function differs from the text the contract was written for by a local slip only"""
    if b.status == 'same':
        return False
    if b.status != 'carried' or not b.exact:
        return False
    base, _ = W.split_ghost(L.lex(b.text, keep_ghost=True))
    cur = W.current_item(REPO, b.file, b.path)
    if cur is None:
        return False
    if collections.Counter(t.t for t in base) == collections.Counter(t.t for t in cur):
        return False        # the same statements in another order: undecided
    return abs(len(base) - len(cur)) <= 24 and len(set(t.t for t in cur) - set(t.t for t in base)) <= 4


class Proof:
    def __init__(self, unit, tier, workdir, seeds=()):
        self.unit_name = unit
        self.tier = tier
        self.workdir = workdir
        self.rounds = 0
        self.failed = {}        # block key -> list of rendered messages
        self.undecided = {}     # block key -> reason
        self.broken = None      # whole unit unusable: reason
        self.breakdown = []
        self.wall = 0.0
        self.cmd = ''
        self.vacuous = []
        self.seeds_run = []
        self.trusted = []
        self.u = None

    def modules_args(self):
        """a unit that includes others' text (proved there) verifies its own modules only"""
        return [x for m in P.UNIT_MODULES.get(self.unit_name, []) for x in ('--verify-only-module', m)]

    def assemble(self, forced, forced_reason):
        u = B.Unit(self.unit_name, REPO)
        u.forced = set(forced)
        u.lost.update(forced_reason)
        txt = u.assemble()
        return u, txt

    def run(self, only=None):
        t0 = time.time()
        forced, reasons = set(), {}
        path = os.path.join(self.workdir, self.unit_name + '.rs')
        while True:
            self.rounds += 1
            try:
                u, txt = self.assemble(forced, reasons)
            except Exception as e:      # noqa
                self.broken = 'assembly failed: %r' % (e,)
                return
            self.u = u
            open(path, 'w').write(txt)
            r = B.run_verus(path, ['--rlimit', '60'] + self.modules_args())
            self.cmd = r['cmd'] + ' --rlimit 60' + ''.join(' ' + a for a in self.modules_args())
            res = (r['json'] or {}).get('verification-results') or {}
            if res and not res.get('encountered-vir-error') and 'verified' in res and res.get('verified', 0) + res.get('errors', 0) > 0:
                break
            # rejected before verification: leave out the functions concerned
            bad = set()
            for d in r['diags']:
                for line, prim in diag_lines(d):
                    b = block_at(u, line)
                    if b is not None and prim:
                        bad.add((b.key, d['message']))
            new = {k: m for k, m in bad if k not in forced}
            new_fn = {k: m for k, m in new.items() if next(b for b in u.blocks if b.key == k).kind == 'fn'}
            if not new_fn or self.rounds > 12:
                self.broken = 'the verifier rejected the unit: ' + '; '.join(d['message'] for d in r['diags'][:3]) + (r['raw'][-400:] if not r['diags'] else '')
                self.wall = time.time() - t0
                return
            for k, m in new_fn.items():
                forced.add(k)
                reasons[k] = 'outside the verifier\'s reach: ' + m
        self.raw = r
        for k in u.lost:
            self.undecided[k] = u.lost[k]
        for b in u.blocks:
            if b.status == 'missing':
                self.undecided[b.key] = b.reason
        for d in r['diags']:
            blocks = []
            for line, prim in diag_lines(d):
                b = block_at(u, line)
                if b is not None and b.kind == 'fn':
                    blocks.append((prim, b))
            if not blocks:
                # a lemma of ours: nothing in it depends on the code unless a type changed
                if d['message'].startswith('aborting'):
                    continue
                self.undecided.setdefault('lemma', d['message'])
                continue
            prims = [b for p, b in blocks if p] or [b for _, b in blocks]
            b = prims[0]
            if RLIMIT.search(d['message']):
                self.undecided.setdefault(b.key, 'solver gave up: ' + d['message'])
            else:
                self.failed.setdefault(b.key, []).append(d.get('rendered', d['message']))
        j = r['json']
        for m in j['times-ms']['smt']['smt-run-module-times']:
            for f in m['function-breakdown']:
                self.breakdown.append({'module': m['module'], 'function': f['function'], 'mode': f['mode:'], 'ms': f['time'], 'ok': f['success']})
        self.scan(txt)
        self.path = path
        self.wall = time.time() - t0
        if not self.failed:
            self.vacuity()
        self.wall = time.time() - t0

    def recheck(self, keys):
        """failed functions once more with other solver seeds: a failure that goes away is not one"""
        still = dict(self.failed)
        for seed in (7, 23):
            r = B.run_verus(self.path, ['--rlimit', '120', '--smt-option', 'smt.random_seed=%d' % seed] + self.modules_args())
            got = set()
            for d in r['diags']:
                for line, prim in diag_lines(d):
                    b = block_at(self.u, line)
                    if b is not None and b.kind == 'fn':
                        got.add(b.key)
            still = {k: v for k, v in still.items() if k in got}
        for k in list(self.failed):
            if k not in still:
                del self.failed[k]

    def scan(self, txt):
        t = []
        for m in re.finditer(r'assume_specification\s*(?:<[^>]*>)?\s*\[\s*(.*?)\s*\]', txt):
            t.append('assumed contract: ' + m.group(1))
        for m in re.finditer(r'axiom\s+fn\s+(\w+)', txt):
            t.append('axiom: ' + m.group(1))
        for m in re.finditer(r'#\[verifier::external_body\]([^{;]*?)(?:pub )?(?:async )?(fn|struct)\s+(\w+)', txt, re.S):
            t.append('trusted %s: %s' % ('function' if m.group(2) == 'fn' else 'type', m.group(3)))
        for m in re.finditer(r'\b(?:admit|assume)\s*\(', txt):
            t.append('ASSUME at offset %d' % m.start())
        c = collections.Counter(t)
        self.trusted = sorted('%s%s' % (k, '' if n == 1 else ' (x%d)' % n) for k, n in c.items())

    def vacuity(self):
        """`assert(false)` at the start of every verified body must fail"""
        u, txt = self.assemble(set(self.undecided), dict(self.undecided))
        lines = txt.split('\n')
        eff = u.eff_sets()
        parts = []
        want = {}
        lineno = 1
        n = 0
        for p in u.parts:
            if isinstance(p, W.Block):
                s = p.out
                if p.kind == 'fn' and p.key not in self.undecided and 'external_body' not in s and p.file in P.UNIT_FILES.get(self.unit_name, (p.file,)):
                    s2 = insert_false(s)
                    if s2 is not None:
                        s = s2
                        want[p.key] = (lineno, lineno + s.count('\n'))
                        n += 1
            else:
                s = p
            parts.append(s)
            lineno += s.count('\n') + 1
        path = os.path.join(self.workdir, self.unit_name + '_vac.rs')
        open(path, 'w').write('\n'.join(parts))
        r = B.run_verus(path, ['--rlimit', '60'] + self.modules_args())
        hit = set()
        for d in r['diags']:
            for line, prim in diag_lines(d):
                for k, (a, b) in want.items():
                    if a <= line <= b:
                        hit.add(k)
        if (r['json'] or {}).get('verification-results', {}).get('encountered-vir-error', True):
            log('the vacuity check could not be run')
            return
        self.vac_total = n
        self.vacuous = sorted(k for k in want if k not in hit)


def insert_false(s):
    """put `proof { assert(false); }` at the start of the outermost function body of rendered text"""
    toks = L.lex(s)
    i = 0
    n = len(toks)
    while i < n and toks[i].t != 'fn':
        i += 1
    depth = 0
    # the body brace: the last top-level `{` of the item after the signature and its clauses
    # find the matching: the final `}` of the fn closes the body
    end = n - 1
    if s.lstrip().startswith('impl'):
        end = n - 2
    while end > 0 and toks[end].t != '}':
        end -= 1
    d = 0
    k = end
    while k > i:
        if toks[k].t in ('}', ')', ']'):
            d += 1
        elif toks[k].t in ('{', '(', '['):
            d -= 1
            if d == 0:
                break
        k -= 1
    if k <= i:
        return None
    while k + 2 < n and toks[k + 1].t == 'hide' and toks[k + 2].t == '(':   # headers stay first
        k += 1
        while toks[k].t != ';':
            k += 1
    out = []
    for q, t in enumerate(toks):
        out.append(t.pre + t.t)
        if q == k:
            out.append(' proof { assert(false); } ')
    return ''.join(out)


# ------------------------------------------------------------------ bounded side

def cargo_env():
    e = dict(os.environ)
    e['CARGO_TARGET_DIR'] = os.path.join(WORK, 'target')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    e.setdefault('CARGO_INCREMENTAL', '0')
    return e


def harness_dir():
    """The harness, or (while developing, with VF_REPO set) a copy of it that depends on that tree."""
    if REPO == '/repo':
        return HARNESS
    d = os.path.join(WORK, 'harness')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(HARNESS, d, ignore=shutil.ignore_patterns('target'))
    m = os.path.join(d, 'Cargo.toml')
    t = open(m).read().replace('"/repo"', '"%s"' % REPO)
    open(m, 'w').write(t)
    return d


class Harness:
    def __init__(self, prop, tier, seed, workdir, need_bin):
        self.prop, self.tier, self.seed, self.workdir, self.need_bin = prop, tier, seed, workdir, need_bin
        self.error = None
        self.result = None
        self.hooks = True
        self.bin = None
        self.pa2 = os.path.join(WORK, 'target', 'debug', 'pa2')

    def build(self):
        e = cargo_env()
        for hooks in (True, False):
            e2 = dict(e)
            if hooks:
                e2['RUSTFLAGS'] = '--cfg verif_hooks -Awarnings'
            else:
                e2['RUSTFLAGS'] = '-Awarnings'
            p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--manifest-path', os.path.join(harness_dir(), 'Cargo.toml')],
                               env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0:
                self.hooks = hooks
                break
            self.error = p.stdout[-3000:]
        else:
            return False
        self.error = None
        self.bin = os.path.join(WORK, 'target', 'debug', 'pa2-harness')
        if self.need_bin:
            e2 = dict(e)
            e2['RUSTFLAGS'] = '--cfg verif_hooks -Awarnings' if self.hooks else '-Awarnings'
            p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--bin', 'pa2', '--manifest-path', os.path.join(REPO, 'Cargo.toml')],
                               env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                self.error = p.stdout[-3000:]
                return False
        return True

    def run(self, tier=None, seed=None, budget=None):
        tier = tier or self.tier
        out = os.path.join(self.workdir, 'harness-%s-%s.json' % (tier, seed or self.seed))
        if os.path.exists(out):
            os.unlink(out)
        tmp = os.path.join(self.workdir, 'tmp')
        os.makedirs(tmp, exist_ok=True)
        e = dict(os.environ)
        e['TMPDIR'] = tmp
        e['RUST_BACKTRACE'] = '0'
        budget = budget or (150 if tier == 'quick' else 600)
        cmd = [self.bin, self.prop, '--tier', tier, '--seed', str(seed or self.seed), '--out', out, '--pa2', self.pa2, '--budget', str(budget)]
        nums, words = hints.new(REPO)
        if nums:
            cmd += ['--hints', ','.join(map(str, nums))]
        if words:
            cmd += ['--words', json.dumps(words)]
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget * 2 + 240, cwd=tmp)
        except subprocess.TimeoutExpired:
            self.error = 'harness did not end'
            return None
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        try:
            self.result = json.load(open(out))
        except (OSError, ValueError):
            self.error = 'harness ended with %s\n%s' % (p.returncode, p.stdout[-2000:])
            return None
        self.result['cmd'] = ' '.join(cmd)
        return self.result


# ------------------------------------------------------------------ known findings

def known_findings(prop):
    out = []
    try:
        for ln in open(os.path.join(VERIF, 'known_findings.txt')):
            ln = ln.strip()
            m = re.match(r'^finding: property=(\S+) match=(\S+) (.*)$', ln)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = P.PROPS[prop]
    t0 = time.time()
    workdir = os.path.join(WORK, 'run-%s-%d' % (prop, os.getpid()))
    os.makedirs(workdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    try:
        code = decide(prop, tier, seed, spec, workdir, t0, args)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    sys.exit(code)


def decide(prop, tier, seed, spec, workdir, t0, args):
    h = Harness(prop, tier, seed, workdir, spec.get('bin', False))
    units = spec.get('units', [])
    proofs = [Proof(u, tier, workdir) for u in units]
    state = {}

    def hside():
        state['built'] = h.build()
        if state['built']:
            h.run()

    threads = []
    if '--no-harness' not in args:
        th = threading.Thread(target=hside)
        th.start()
        threads.append(th)
    if '--no-proof' not in args:
        for p in proofs:
            th = threading.Thread(target=p.run)
            th.start()
            threads.append(th)
    for th in threads:
        th.join()

    # which of the functions this property depends on are in what state
    fns = spec['functions']
    rows = []
    proved, failed, undecided = [], [], []
    for unit, key in fns:
        p = next((x for x in proofs if x.unit_name == unit), None)
        if p is None or (p.u is None and p.broken is None):
            undecided.append((key, 'not run'))
            continue
        if p.broken:
            undecided.append((key, p.broken))
            continue
        b = next((b for b in p.u.blocks if b.key == key), None)
        if b is None:
            undecided.append((key, 'no contract'))
        elif key in p.undecided:
            undecided.append((key, p.undecided[key]))
        elif key in p.failed:
            about = spec.get('about', {}).get(key)
            if about is None and prop != 'C20':
                about = r'^(?!.*vprintln)(?s:.)'      # what is printed is C20's
            if about and not any(re.search(about, x.replace('\n', ' ')) for x in p.failed[key]):
                undecided.append((key, 'an obligation of another property failed: ' + p.failed[key][0][:200]))
            else:
                failed.append((p, b))
        elif key in p.vacuous:
            undecided.append((key, 'its precondition admits nothing (vacuity check)'))
        elif 'lemma' in p.undecided:
            undecided.append((key, 'something of the unit outside the functions is not proved: ' + p.undecided['lemma']))
        else:
            proved.append(key)
    failure = (h.result or {}).get('failure')
    proof_failed = bool(failed)
    if failed and not failure:
        for p in {id(p): p for p, _ in failed}.values():
            p.recheck(None)
        failed = [(p, b) for p, b in failed if b.key in p.failed]
        if not failed:
            for unit, key in fns:
                if key not in proved and key not in [u[0] for u in undecided]:
                    undecided.append((key, 'the solver is not stable on it'))
    escalated = False
    if (failed or undecided) and not failure and state.get('built') and h.result and '--no-escalate' not in args:
        # look harder for a failing input before concluding
        escalated = True
        for s in (seed + 1, seed + 2):
            r = h.run('thorough' if failed else 'quick', s, 120)
            if r and r.get('failure'):
                failure = r['failure']
                break
    known = known_findings(prop)
    for m, text in known:
        log('KNOWN-FINDING: property=%s %s' % (prop, text))

    viol = None
    genuine = [(p, b) for p, b in failed if small_change(b)]
    if failure:
        viol = 'input'
    elif genuine:
        viol = 'proof'
    no_answer = None
    if not viol and (not h.result):
        if '--no-harness' in args:
            pass
        elif undecided or failed or not proved:
            no_answer = 'the bounded stand-in could not run (%s) and the proof is undecided' % (h.error,)

    replay = os.path.join(VERIF, 'evidence', 'replay-%s.txt' % prop)
    if viol:
        with open(replay, 'w') as f:
            if failure:
                f.write('property %s: failing input found on the real code\n\nwhat: %s\ncase: %s\nreplay: %s --only %s\n\n' %
                        (prop, failure['what'], failure['case'], (h.result or {}).get('cmd', ''), failure['index']))
            for p, b in failed:
                f.write('failed obligation of %s (unit %s)\n' % (b.key, p.unit_name))
                for m in p.failed.get(b.key, []):
                    f.write(m + '\n')
    evidence(prop, tier, seed, spec, proofs, proved, failed, undecided, h, viol, t0, escalated, known)
    for key, why in undecided:
        log('undecided: %s: %s' % (key, why.split('\n')[0][:300]))
    for p, b in failed:
        log('failed obligation: %s' % b.key)
        for m in p.failed.get(b.key, [])[:2]:
            log('\n'.join(m.split('\n')[:14]))
    if h.result:
        log('bounded: %d cases, %d distinct, %.1f s' % (h.result['evaluations'], h.result['distinct_nontrivial'], h.result.get('wall_s', 0)))
    log('proved %d, failed %d, undecided %d of %d functions under contract; %.1f s' % (len(proved), len(failed), len(undecided), len(fns), time.time() - t0))
    if failure:
        log('failing input: %s\n  %s' % (failure['what'], failure['case'][:600]))
        log('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    if viol:
        log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        return 1
    if no_answer:
        log('NO ANSWER: ' + no_answer)
        return 2
    return 0


def evidence(prop, tier, seed, spec, proofs, proved, failed, undecided, h, viol, t0, escalated, known):
    mods = set(spec.get('modules', []))
    rows = []
    for p in proofs:
        for f in p.breakdown:
            m = f['module']
            if not mods or m in mods:
                rows.append(f)
    trusted = sorted({t for p in proofs for t in p.trusted})
    assumptions = list(P.COMMON_ASSUMPTIONS) + spec.get('assumptions', [])
    r = h.result or {}
    level = spec['level']
    cov = {
        'obligations': len(rows),
        'discharged': sum(1 for f in rows if f['ok']),
        'checker_cmd': '; '.join(p.cmd for p in proofs),
        'trusted_base': trusted,
        'back_end': 'Verus 0.2026.09.13 (AIR -> Z3 %s)' % '4.12.5',
        'solver_ms': sum(f['ms'] for f in rows),
        'functions_under_contract': [k for _, k in spec['functions']],
        'functions_proved': proved,
        'functions_failed': [b.key for _, b in failed],
        'functions_undecided': [{'function': k, 'why': w.split('\n')[0][:300]} for k, w in undecided],
        'text_carried': sorted({'%s: %s' % (b.key, b.status) for p in proofs if p.u for b in p.u.blocks if b.status != 'same'}),
        'vacuity': {'bodies_with_failing_assert_false': sum(getattr(p, 'vac_total', 0) - len(p.vacuous) for p in proofs), 'vacuous': [k for p in proofs for k in p.vacuous]},
        'extraction_drops': P.EXTRACTION_DROPS,
        'bounded_standin': {
            'label': 'bounded: seeded executions of the real code, never counted as proved',
            'for': spec.get('bounded_for', ''),
            'groups': r.get('groups', []),
            'hooks': h.hooks,
            'escalated': escalated,
        },
        'evaluations': r.get('evaluations', 0),
        'distinct_nontrivial': r.get('distinct_nontrivial', 0),
        'rule': r.get('rule', ''),
        'samples': r.get('samples', []),
    }
    if level != 'proof':
        cov['explanation'] = spec.get('explanation', '')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
        'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0,
        'known_findings': [t for _, t in known],
    }
    if not proofs or any(p.broken for p in proofs):
        cov['proof_unavailable'] = [p.broken for p in proofs if p.broken]
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
