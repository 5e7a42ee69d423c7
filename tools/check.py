#!/usr/bin/env python3
"""check.py <property>: decides one property for /repo's current tree.

1. The contracts of /verif/specs are woven into the functions extracted from /repo's current source and Verus
   is asked to discharge every obligation of the property's cone (tools/cones.py).
2. The oracle (an executable form of the same statements) runs the real code; it searches for a failing input when
   an obligation fails, stands in (bounded) for functions outside the verifier's reach, and backs the trusted base.
Exit 0: held; exit 1 with a VIOLATION line: broken."""
import hashlib
import json
import os
import re
import subprocess
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config  # noqa: E402
import cones  # noqa: E402
import rsx  # noqa: E402
from desugar import Lost  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CHALAMET_REPO', '/repo')
WORK = os.path.join(VERIF, 'evidence', 'work')
BASELINE = os.path.join(VERIF, 'specs', 'baseline.json')
T0 = time.time()


def say(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


# ---------------------------------------------------------------------------------------------- Verus

def run_verus(text, name, extra=(), timeout=400):
    path = os.path.join(WORK, name + '.rs')
    open(path, 'w').write(text)
    cmd = ['verus', path, '--crate-type', 'lib', '--triggers-mode', 'silent', '--error-format=json', '--output-json', '--time-expanded', '--multiple-errors', '3'] + list(extra)
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=WORK)
        out, err = r.stdout, r.stderr
    except subprocess.TimeoutExpired as x:
        out, err = '', 'timeout after %ds\n' % timeout
    js = {}
    if '{' in out:
        try:
            js = json.JSONDecoder().raw_decode(out[out.index('{'):])[0]
        except ValueError:
            js = {}
    errors, raw = [], []
    for l in err.splitlines():
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting due'):
                errors.append(d)
        elif l.strip():
            raw.append(l)
    vr = js.get('verification-results') or {}
    stage = 'verify' if vr and not vr.get('encountered-vir-error') and 'verified' in vr else 'compile'
    if not vr.get('success') and (not errors or any(e.get('code') for e in errors) or not vr.get('verified', 0) + vr.get('errors', 0)):
        stage = 'compile'
    return {'json': js, 'errors': errors, 'raw': '\n'.join(raw[-30:]), 'stage': stage, 'ok': bool(vr.get('success')) and not errors, 'secs': time.time() - t, 'cmd': ' '.join(cmd)}


def breakdown(js):
    out = []

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == 'function-breakdown':
                    out.extend(v)
                else:
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(js.get('times-ms') or {})
    return out


def locate(line, ranges):
    for a, b, what in ranges:
        if a <= line <= b:
            return what
    return None


def blame(d, ranges, text_lines):
    """The item whose obligation failed."""
    spans = d['spans']
    if d['message'].startswith('postcondition'):
        pref = [s for s in spans if not s['is_primary']] + [s for s in spans if s['is_primary']]
    else:
        pref = [s for s in spans if s['is_primary']] + [s for s in spans if not s['is_primary']]
    for s in pref:
        w = locate(s['line_start'], ranges)
        if w is None:
            continue
        if w.startswith('raw:'):
            n = s['line_start'] - 1
            while n >= 0:
                m = re.search(r'\bfn (\w+)', text_lines[n])
                if m:
                    return w + '::' + m.group(1)
                n -= 1
        return w
    return None


def has_loops(crate, path):
    sp = crate.specs[path][1]
    return any(re.match(r'(loop|body|bodyend|before|after|call|aftercall|stmt)\b', k) for k in sp.sec)


# what the solver is given on top when an obligation of a changed function fails (never more assumptions)
LADDER = [(), ('lemmas',), ('loop_isolation(false)', 'lemmas'), ('loop_isolation(false)',)]


class Result:
    pass


def prove(pid, tier):
    R = Result()
    R.failed, R.bounded, R.notes, R.vacuous, R.remarks = [], {}, [], [], []
    R.obligations = R.discharged = 0
    R.solver_ms = R.verus_s = 0
    R.cone, R.theorems, R.cmd, R.functions, R.rlimit = [], [], '', [], 0
    pats, thms = cones.CONES[pid]
    try:
        crate = config.load()
    except (Lost, rsx.ParseError, IndexError, KeyError, ValueError) as x:
        R.notes.append('extraction failed: %s' % x)
        R.bounded['*'] = 'extraction failed: %s' % x
        return R
    base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    allfns = list(crate.specs) + crate.codecs
    cone = [p for p in allfns if any(re.fullmatch(q + ('' if q.endswith('$') else '.*'), p) for q in pats)]
    R.cone = cone
    lost, drop, post = {}, {}, bool(thms)
    tried_changed = False
    res = None
    hints, capped, limit = {}, set(), 2
    for rnd in range(18):
        try:
            text, ranges, info = crate.generate(verify=set(cone), lost=set(lost), drop=set(drop), post=post, hints=hints)
            R.assumed = assumed_contracts(text)
        except Exception as x:
            R.notes.append('generation failed: %r' % x)
            R.bounded['*'] = 'generation failed'
            return R
        for p, why in info['lost'].items():
            if p in cone and p not in lost:
                lost[p] = why
            elif p not in crate.specs and p not in crate.codecs:
                R.notes.append('%s: %s' % (p, why))
        for p in info['gone']:
            n = '%s is gone and nothing calls it' % p
            if n not in R.remarks:
                R.remarks.append(n)
        hinted = any(hints.values())
        res = run_verus(text, pid, timeout=150 if hinted else 400)
        R.verus_s += res['secs']
        R.cmd = res['cmd']
        if hinted and res['raw'].startswith('timeout after'):
            # the hints do more harm than good
            capped |= {p for p in hints if hints[p]}
            limit = 1
            hints = {}
            continue
        lines = text.split('\n')
        if res['stage'] == 'compile':
            new = {}
            hit_raw = set()
            for d in res['errors']:
                w = blame(d, ranges, lines)
                msg = d['message'].split('\n')[0][:160]
                if w is None:
                    continue
                if w.startswith('fn:'):
                    p = w[3:]
                    if p in info['emitted']:
                        new[p] = msg
                    elif p not in drop:
                        drop[p] = msg
                        new.setdefault(p, msg)
                elif w.startswith('codec:'):
                    new[w] = msg
                elif w.startswith('raw:'):
                    hit_raw.add(w + ': ' + msg)
            changed_now = False
            for p, m in new.items():
                if hints.get(p):
                    # hints that do not fit are taken back first
                    k = LADDER.index(hints[p]) + 1
                    hints[p] = LADDER[1] if 'loop_isolation' in m and k > 2 else LADDER[k] if k < len(LADDER) else ()
                    if 'loop_isolation' in m:
                        capped.add(p)
                    changed_now = True
                elif p not in lost:
                    lost[p] = 'not accepted by the verifier front end: ' + m
                    changed_now = True
                elif p in drop:
                    changed_now = True
            say('front end: %d errors; given up on: %s%s' % (len(res['errors']), ', '.join(new) or '-', '; raw: ' + '; '.join(sorted(hit_raw)[:3]) if hit_raw else ''))
            if not changed_now:
                if post and any(h.startswith('raw:theorems') for h in hit_raw):
                    post = False
                    for t in thms:
                        R.bounded['theorem ' + t] = 'does not type-check: ' + sorted(hit_raw)[0]
                    continue
                if not tried_changed:
                    # no blame: give up on every function whose text differs from the recorded one
                    tried_changed = True
                    more = [p for p in info['emitted'] if p not in lost and base.get(p, {}).get('sha') != sha(info['text'][p])]
                    if more:
                        for p in more:
                            lost[p] = 'changed, and the verifier front end gave no verdict'
                        continue
                R.notes.append('no verdict from the verifier: ' + (res['errors'][0]['message'][:300] if res['errors'] else res['raw'][-300:]))
                R.bounded['*'] = 'no verdict from the verifier'
                for p, why in lost.items():
                    R.bounded[p] = why
                return R
            continue
        # verification ran
        bad = {}
        for d in res['errors']:
            w = blame(d, ranges, lines) or 'unknown'
            bad.setdefault(w, []).append(d)
        retry = False
        for w in list(bad):
            # a function whose text changed: the same obligations with more help for the solver
            if w.startswith('fn:') and w[3:] in info['emitted'] and base.get(w[3:], {}).get('sha') != sha(info['text'][w[3:]]):
                k = LADDER.index(hints.get(w[3:], ())) + 1
                if k < (limit if w[3:] in capped else len(LADDER)) and time.time() - T0 < 400:
                    hints[w[3:]] = LADDER[k]
                    retry = True
        if retry:
            continue
        for w in list(bad):
            if w.startswith('fn:'):
                p = w[3:]
                b = base.get(p, {})
                if has_loops(crate, p) and b.get('shape') != info['shapes'].get(p):
                    lost[p] = 'loop structure changed (%s instead of %s): the recorded invariants do not fit' % (info['shapes'].get(p), b.get('shape'))
                    retry = True
                    say('given up on', p, ':', lost[p])
        if retry:
            continue
        if bad:
            # once more with a larger resource limit, to rule out an unstable proof
            res2 = run_verus(text, pid, ('--rlimit', '60'))
            R.verus_s += res2['secs']
            if res2['stage'] == 'verify':
                res = res2
                R.cmd = res2['cmd']
                bad = {}
                for d in res['errors']:
                    bad.setdefault(blame(d, ranges, lines) or 'unknown', []).append(d)
        for w, ds in bad.items():
            if w.startswith('raw:') and not (w.startswith('raw:theorems') and w.split('::')[-1] in thms):
                R.notes.append('lemma %s failed' % w)
                R.bounded[w] = 'lemma not discharged'
                continue
            for d in ds:
                R.failed.append({'function': w.split(':', 1)[1], 'obligation': obligation(d, lines), 'verifier_output': d.get('rendered') or d['message']})
        fb = breakdown(res['json'])
        R.obligations = len(fb)
        R.discharged = sum(1 for f in fb if f.get('success'))
        R.solver_ms = sum(f.get('time', 0) for f in fb)
        R.rlimit = sum(f.get('rlimit', 0) for f in fb)
        R.functions = [p for p in info['emitted'] if p in cone]
        R.codecs = [p for p in info['codecs'] if p in cone]
        R.theorems = thms if post else []
        R.inlined = info['inlined']
        R.changed = [p for p in R.functions if base.get(p, {}).get('sha') != sha(info['text'][p])]
        break
    for p, why in lost.items():
        if p in cone:
            R.bounded[p] = why
    for p in cone:
        if p in crate.specs and crate.specs[p][1].opts.get('external'):
            R.bounded.setdefault(p, 'trusted contract, decided outside the verifier')
    R.crate = crate
    # vacuity: assert(false) at the start of every function under contract must fail
    if tier == 'thorough' and res and res['stage'] == 'verify':
        text, ranges, info = crate.generate(verify=set(cone), lost=set(lost), drop=set(drop), post=post, vacuity=True, hints=hints)
        v = run_verus(text, pid + '_vacuity')
        lines = text.split('\n')
        hit = {blame(d, ranges, lines) for d in v['errors'] if 'assertion failed' in d['message']}
        R.vacuous = [p for p in R.functions if 'fn:' + p not in hit and 'unimplemented' not in p and crate.sources[crate.specs[p][2]].fns[p].body is not None]
    return R


def obligation(d, lines):
    s = [d['message']]
    for x in d['spans']:
        t = lines[x['line_start'] - 1].strip() if x['line_start'] - 1 < len(lines) else ''
        s.append('%s: %s' % (x['label'] or 'at', t[:200]))
    return ' | '.join(s)


def sha(t):
    return hashlib.sha256(t.encode()).hexdigest()[:16]


# ---------------------------------------------------------------------------------------------- oracle

class Oracle:
    def __init__(self):
        self.bin, self.private, self.log = None, False, ''
        self.th = threading.Thread(target=self.build)
        self.th.start()

    def build(self):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(VERIF, 'oracle', 'target'), CARGO_NET_OFFLINE='true')
        env.pop('RUSTFLAGS', None)
        for feat in (['--features', 'private'], []):
            r = subprocess.run(['cargo', 'build', '--offline', '-q', '--bin', 'oracle'] + feat, cwd=os.path.join(VERIF, 'oracle'), env=env, capture_output=True, text=True)
            if r.returncode == 0:
                self.bin = os.path.join(VERIF, 'oracle', 'target', 'debug', 'oracle')
                self.private = bool(feat)
                return
            self.log = r.stderr[-2000:]

    def wait(self):
        self.th.join()
        return self.bin

    def run(self, what, secs, seed, limit=None, case=None, deep=False):
        """-> ('ok', data) | ('fail', data) | ('none', reason)"""
        env = dict(os.environ, ORACLE_LITS=','.join(map(str, literals())))
        env.pop('ORACLE_DEEP', None)
        if deep:
            env['ORACLE_DEEP'] = '1'
        if limit:
            env['ORACLE_CASE_LIMIT'] = str(limit)
        cmd = [self.bin, what, str(secs), str(seed)] + ([str(case)] if case is not None else [])
        try:
            r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=secs + 200)
        except subprocess.TimeoutExpired:
            return 'none', 'timeout'
        for l in r.stdout.splitlines():
            if l.startswith('FAIL '):
                return 'fail', dict(json.loads(l[5:]), command=' '.join(cmd[1:]), lits=env['ORACLE_LITS'])
            if l.startswith('OK '):
                return 'ok', json.loads(l[3:])
        if r.returncode in (-6, -11, -4, -8, -7):
            return 'fail', {'input': 'unknown (process died)', 'why': 'signal %d: %s' % (-r.returncode, r.stderr[-300:]), 'command': ' '.join(cmd[1:]), 'lits': env['ORACLE_LITS']}
        return 'none', 'exit %d %s' % (r.returncode, r.stderr[-300:])


_lits = None


def literals():
    """integers written in /repo's source: inputs near them are tried first"""
    global _lits
    if _lits is None:
        s = set()
        for root, _, fs in list(os.walk(os.path.join(REPO, 'src'))) + list(os.walk(os.path.join(REPO, 'bff-modp', 'src'))):
            for f in fs:
                if f.endswith('.rs'):
                    t = open(os.path.join(root, f), errors='replace').read()
                    t = re.sub(r'//[^\n]*', '', t)
                    for m in re.finditer(r'\b(0[xX][0-9a-fA-F_]+|\d[\d_]*)(?:u8|u16|u32|u64|usize|i32|i64)?\b', t):
                        try:
                            s.add(int(m.group(1).replace('_', ''), 0))
                        except ValueError:
                            pass
        _lits = sorted(s)[:400]
    return _lits


# ---------------------------------------------------------------------------------------------- main

RULE = ('Cases are drawn from a seeded generator: shapes, sizes, plaintext widths, keys, draws of the random generator and edge values '
        '(including integers that occur in the source); a case counts as non-trivial when it reaches the code the property is about, '
        'distinct by the hash of its description.')

TRUSTED = [
    'Verus 0.2026.09.13 and Z3 (verifier and back end)',
    'tools/rsx.py, desugar.py, weave.py: extraction of functions from /repo (rustc -Zunpretty=expanded for macros) and the rewrites listed in DESIGN.md',
    'specs/ext.rs, specs/files.rs: contracts of external code (std, base64, bincode, sha2, rand, serde_json, files); those without a verified body are listed under assumptions',
    'the specifications in /verif/specs state the property',
]


def main():
    if sys.argv[1] == '--baseline':
        crate = config.load()
        text, ranges, info = crate.generate()
        json.dump({p: {'shape': info['shapes'][p], 'sha': sha(info['text'][p]), 'params': info['params'][p], 'locals': info['locals'][p]} for p in sorted(info['emitted'])}, open(BASELINE, 'w'), indent=None, separators=(',', ':'), sort_keys=True)
        print(len(info['emitted']), 'functions recorded')
        return 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(WORK, exist_ok=True)
    orc = Oracle()
    R = prove(pid, tier)
    say('Verus: %d of %d functions/lemmas discharged, %d failed obligations, %d functions by bounded stand-in; %.1fs' % (R.discharged, R.obligations, len(R.failed), len(R.bounded), R.verus_s))
    for f in R.failed:
        say('FAILED', f['function'], '-', f['obligation'][:400])
    for p, w in R.bounded.items():
        say('bounded', p, '-', w)
    for n in R.notes:
        say('note', n)
    violations, oracle_runs = [], []
    floats = ext = None
    if orc.wait() is None:
        say('the oracle does not build: ' + orc.log[-600:])
    else:
        secs = {'quick': 15, 'thorough': 180}[tier]
        deep = tier == 'thorough'
        if any(p not in ('prelude::bfuse::segment_length', 'prelude::bfuse::size_factor', 'prelude::round_capacity') for p in R.bounded):
            secs, deep = max(secs, 150), True
        if R.failed:
            secs, deep = max(secs, 180), True
        if orc.private and any(p.startswith('prelude::bfuse::s') for p in R.cone):
            st, d = orc.run('FLOATS', 10, seed)
            floats = (st, d)
            if st == 'fail':
                violations.append(dict(d, source='FLOATS'))
        ext = orc.run('EXT', 10, seed)
        if ext[0] == 'fail':
            say('an assumed contract of external code does not hold:', ext[1])
            R.notes.append('an assumed contract of external code does not hold: %s' % ext[1].get('why'))
        st, d = orc.run(pid, secs, seed, deep=deep)
        oracle_runs.append((st, d))
        if st == 'fail':
            violations.append(d)
        elif st == 'none':
            say('oracle gave no verdict:', d)
    known = []
    kf = os.path.join(VERIF, 'known-findings.txt')
    rc = 0
    ok = [d for s, d in oracle_runs if s == 'ok']
    if violations:
        v = violations[0]
        rp = replay(pid, {'property': pid, 'failing_input': v.get('input'), 'why': v.get('why'), 'case': v.get('case'), 'oracle_args': v.get('command'), 'ORACLE_LITS': v.get('lits'),
                          'reproduce': 'cd /verif/oracle && cargo build --offline --features private && ORACLE_LITS=<below> target/debug/oracle <oracle_args> [case]', 'failed_obligations': R.failed})
        say('failing input:', str(v.get('input'))[:600], '--', v.get('why'))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    elif R.failed:
        rp = replay(pid, {'property': pid, 'failing_input': None, 'failed_obligations': R.failed, 'searched': [d for s, d in oracle_runs]})
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        rc = 1
    elif R.vacuous:
        say('vacuous contracts:', R.vacuous)
        rc = 2
    fns = [p for p in R.functions]
    bounded = {p: w for p, w in R.bounded.items()}
    cov = {
        'obligations': R.obligations, 'discharged': R.discharged, 'checker_cmd': R.cmd, 'trusted_base': TRUSTED,
        'functions_under_contract': fns, 'derived_codecs': getattr(R, 'codecs', []), 'theorems': R.theorems, 'backend': 'Verus 0.2026.09.13 / Z3', 'solver_ms': R.solver_ms, 'solver_rlimit': R.rlimit, 'verus_wall_s': round(R.verus_s, 1),
        'functions_changed_since_baseline': getattr(R, 'changed', []), 'helpers_inlined': getattr(R, 'inlined', {}),
        'bounded_not_proved': bounded, 'failed_obligations': [f['function'] + ': ' + f['obligation'] for f in R.failed],
        'evaluations': sum(d['evaluations'] for d in ok), 'distinct_nontrivial': sum(d.get('distinct_nontrivial', 0) for d in ok), 'rule': RULE,
        'samples': sum([d.get('samples', []) for d in ok], [])[:6],
    }
    if floats and floats[0] == 'ok':
        cov['float_geometry_sizes_checked_exhaustively'] = floats[1]['evaluations']
    if ext and ext[0] == 'ok':
        cov['assumed_contracts_tried'] = {'what': 'the contracts of specs/ext.rs against the libraries', 'evaluations': ext[1]['evaluations']}
    if R.vacuous:
        cov['vacuous'] = R.vacuous
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': assumptions(pid, R), 'wall_s': round(time.time() - T0, 1), 'violations': len(violations) or len(R.failed)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for f in os.listdir(WORK):
        if f.startswith(pid) and rc == 0:
            os.remove(os.path.join(WORK, f))
    say('done, exit', rc)
    return rc


def replay(pid, d):
    p = os.path.join(VERIF, 'evidence', pid + '-replay.json')
    json.dump(d, open(p, 'w'), indent=1)
    return p


def assumed_contracts(text):
    """contracts without a body that the file under verification uses"""
    used = []
    files = {f: open(os.path.join(VERIF, 'specs', f)).read() for f in ('ext.rs', 'files.rs', 'prelude.rs')}

    def count(w, t):
        return len(re.findall(r'\b%s\b' % w, t))
    for f, s in files.items():
        owner = ''
        for m in re.finditer(r'^impl(?:<[^>]*>)? (\w+)(?:<[^>]*>)? \{$|^\}|#\[verifier::external_body\]\s*(?:pub\s+)?fn\s+(\w+)|assume_specification\s*(?:<[^\[]*>)?\s*\[([^\]]*)\]', s, re.M):
            if m.group(0) == '}':
                owner = ''
            elif m.group(1):
                owner = m.group(1)
            else:
                n = m.group(2) or m.group(3)
                w = owner or re.sub(r'.*::', '', n)
                if count(w, text) > (count(w, s) if f != 'prelude.rs' else 1):
                    used.append((owner + '::' if owner else '') + n)
    return used


def assumptions(pid, R):
    out = ['contracts assumed of external code: ' + ', '.join(getattr(R, 'assumed', [])),
           'the other operations of specs/ext.rs (vector, slice and array copies, integer powers, byte orders, hash set, base64 encoding and its injectivity, bincode format and its round trip) '
           'have verified bodies; what is assumed there is that the library does what that body does',
           'functions outside this property\'s cone are used through their contracts, which other checks discharge']
    if any('prelude::bfuse::s' in p for p in R.cone):
        out.append('float geometry: segment_length and size_factor contracts are checked exhaustively for all sizes below 2^24 by running the real functions, not by the verifier')
    for p, w in R.bounded.items():
        out.append('bounded, not proved: %s (%s)' % (p, w))
    return out + R.notes


if __name__ == '__main__':
    sys.exit(main())
