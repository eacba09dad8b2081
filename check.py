#!/usr/bin/env python3
"""check.py PID: decide one property of /repo's current tree.

1. xtract copies the functions under contract out of /repo (mechanically, every run) into one Verus file
2. Verus discharges the obligations of every function, caller against callee contract
3. the harness evaluates the same contracts on the real crates, on enumerated and random inputs: this is the
   bounded stand-in for functions out of Verus's reach, and the counterexample search when a proof fails
Exit 0: held.  Exit 1 with a VIOLATION line: broken."""
import hashlib, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
from props import PROPS

# diagnostics of Verus that are failed proof obligations; anything else means "not decided"
OBLIGATION = [
    'postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed',
    'possible arithmetic underflow/overflow', 'possible division by zero', 'decreases not satisfied',
    'could not prove termination', 'possible bit shift', 'unreachable', 'possible truncation',
    'possible arithmetic', 'constructed value may fail', 'assertion might', 'possible out of bounds',
]
UNDECIDED = ['resource limit', 'rlimit', 'not supported', 'does not yet support', 'timed out', 'timeout']


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', HOME='/root', CARGO_HOME='/root/.cargo', RUSTC_WRAPPER='', CARGO_TERM_COLOR='never')
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_TARGET_DIR', None)
    e.setdefault('RUSTUP_TOOLCHAIN', 'stable-x86_64-unknown-linux-gnu')
    return e


def sh(cmd, cwd=V, timeout=None, **k):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env(), capture_output=True, text=True, timeout=timeout, errors='replace', **k)
    except subprocess.TimeoutExpired as ex:
        class R: pass
        r = R(); r.returncode = 124; r.stdout = (ex.stdout or b'').decode(errors='replace') if isinstance(ex.stdout, bytes) else (ex.stdout or ''); r.stderr = 'timeout'
        return r


def build_xtract():
    r = sh(['cargo', 'build', '--release', '--offline'], cwd=V + '/xtract', timeout=600)
    if r.returncode:
        raise SystemExit('xtract does not build:\n' + r.stderr[-4000:])


def build_harness(pid):
    t = time.time()
    r = sh(['cargo', 'build', '--offline', '--no-default-features', '--features', pid], cwd=V + '/harness', timeout=800)
    return r.returncode == 0, r.stderr[-6000:], time.time() - t


class Proof:
    def __init__(self, pid, unit, tier):
        self.pid, self.unit, self.tier = pid, unit, tier
        self.name = unit['templates'][-1]
        self.out = f'{V}/out/{pid}/{self.name}'
        os.makedirs(os.path.dirname(self.out), exist_ok=True)
        self.failed, self.undecided, self.diag = [], [], []
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.report = {'fns': [], 'lost': [], 'errors': []}
        self.cmd = ''
        self.vacuous = None

    def extract(self, suffix='', *flags):
        o = self.out + suffix
        ts = [f'{V}/contracts/{t}.vt' for t in ['prelude', 'std'] + self.unit['templates']]
        r = sh([V + '/xtract/target/release/xtract', '--repo', REPO, '--out', o + '.rs', '--report', o + '.json', *flags, *ts])
        if r.returncode not in (0, 3):
            self.undecided.append('extraction: ' + r.stderr.strip()[-2000:])
            return False
        rep = json.load(open(o + '.json'))
        if not suffix:
            self.report = rep
            for e in rep['errors']:
                self.undecided.append('extraction: ' + e)
            for l in rep['lost']:
                self.undecided.append('lost anchor: ' + l['what'])
        return r.returncode == 0

    def verus(self, suffix='', extra=(), timeout=250):
        o = self.out + suffix
        mods = []
        for m in self.unit.get('modules', []):
            mods += ['--verify-only-module', m]
        cmd = ['verus', o + '.rs', '--triggers-mode', 'silent', '--multiple-errors', '4', '--error-format=json',
               '--output-json', '--time-expanded', '--num-threads', '8', '--rlimit', str(self.unit.get('rlimit', 30)), *mods, *extra]
        r = sh(cmd, cwd=os.path.dirname(o), timeout=timeout)
        if not suffix:
            self.cmd = ' '.join(c if c != o + '.rs' else os.path.basename(c) for c in cmd)
        diags = []
        for l in r.stderr.split('\n'):
            if l.startswith('{'):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get('level') == 'error' and not d['message'].startswith('aborting due to'):
                    diags.append(d)
        res = {}
        i = r.stdout.find('{\n')
        try:
            res = json.loads(r.stdout[i:]) if i >= 0 else {}
        except ValueError:
            pass
        vr = res.get('verification-results', {})
        ms = 0
        fns = []
        for m in res.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            ms += m.get('time-micros', 0) / 1000
            fns += m.get('function-breakdown', [])
        return r, diags, vr, ms, fns

    def where(self, d, rep=None):
        """the functions of the report that a diagnostic lies in"""
        rep = rep or self.report
        hit = []
        for s in d.get('spans', []):
            for f in rep['fns']:
                if 'out_lines' in f and f['out_lines'][0] <= s['line_start'] <= f['out_lines'][1]:
                    if f not in hit:
                        hit.append(f)
        return hit

    def run(self):
        t0 = time.time()
        if not self.extract():
            self.wall = time.time() - t0
            return
        lost_fns = {l['fn'] for l in self.report['lost']}
        r, diags, vr, ms, fns = self.verus()
        self.smt_ms += ms
        ok = vr.get('success') and not diags and r.returncode == 0
        if not ok and diags and any(any(m in d['message'] for m in OBLIGATION) or 'rlimit' in d['message'].lower() for d in diags) and vr.get('verified') is not None:
            # a second opinion with another solver seed and a larger budget before anything is said
            r2, diags2, vr2, ms2, fns2 = self.verus(extra=['-V', 'no-solver-version-check', '--smt-option', 'smt.random_seed=7', '--rlimit', '120'][2:], timeout=200)
            self.smt_ms += ms2
            if vr2.get('verified') is not None and (vr2.get('success') or len(diags2) <= len(diags)):
                r, diags, vr, fns = r2, diags2, vr2, fns2
                ok = vr.get('success') and not diags and r.returncode == 0
        self.verified = vr.get('verified', 0) or 0
        self.errors = vr.get('errors', 0) or 0
        self.fn_times = sorted(((f.get('time-micros', 0) / 1000, f.get('function', '')) for f in fns), reverse=True)[:5]
        src = open(self.out + '.rs').read().split('\n')
        if not ok:
            if not diags:
                self.undecided.append('verus: ' + (r.stderr[-600:] or r.stdout[-600:]))
            for d in diags:
                msg = d['message']
                hit = self.where(d)
                text = msg + ''.join(f"\n    {s['line_start']}: {(s.get('label') or '')} | {src[s['line_start'] - 1].strip()}" for s in d['spans'])
                names = sorted({f"{f['fn']} ({f['file']}:{f['lines'][0]})" for f in hit})
                entry = {'message': msg, 'functions': names, 'text': text}
                low = msg.lower()
                if any(u in low for u in UNDECIDED):
                    self.undecided.append('verus: ' + text)
                elif any(m in msg for m in OBLIGATION) and vr.get('verified') is not None:
                    if hit and not any(f['fn'] in lost_fns for f in hit):
                        self.failed.append(entry)
                    else:
                        self.undecided.append('verus (lost anchors or no real function): ' + text)
                else:
                    self.undecided.append('verus: ' + text)
        self.wall = time.time() - t0

    def vacuity(self):
        """with assert(false) planted at the start of each function, every function must fail"""
        if not self.extract('_vac', '--vacuity'):
            return
        r, diags, vr, ms, fns = self.verus('_vac')
        rep = json.load(open(self.out + '_vac.json'))
        bad = set()
        for d in diags:
            for f in self.where(d, rep):
                bad.add((f['fn'], f['out_lines'][0]))
        todo = [f for f in rep['fns'] if 'out_lines' in f and not f.get('external_body') and f.get('contract')]
        self.vacuous = [f['fn'] for f in todo if (f['fn'], f['out_lines'][0]) not in bad]
        self.vac_total = len(todo)

    def assumptions(self):
        res = []
        try:
            src = open(self.out + '.rs').read().split('\n')
        except OSError:
            return res
        for i, l in enumerate(src):
            s = l.strip()
            if s.startswith('//'):
                continue
            if 'assume_specification' in s:
                res.append('assumed contract on std: ' + re.sub(r'\s+', ' ', s)[:160])
            elif 'external_body' in s:
                res.append('external_body (contract assumed): ' + re.sub(r'\s+', ' ', src[i + 1].strip())[:160])
            elif 'external_type_specification' in s or 'external_trait_specification' in s:
                res.append('external type/trait: ' + re.sub(r'\s+', ' ', src[i + 1].strip())[:120])
            elif re.search(r'\b(assume|admit)\s*\(', s):
                res.append('assume in proof: ' + s[:160])
            elif re.search(r'\baxiom fn\b|uninterp spec fn', s):
                res.append('axiom / uninterpreted: ' + s[:160])
        return res


def run_harness(pid, tier, seed, scale, secs, tag):
    o = f'{V}/out/{pid}/harness_{tag}.json'
    if os.path.exists(o):
        os.remove(o)
    r = sh([V + '/harness/target/debug/harness', pid, '--seed', str(seed), '--tier', tier, '--scale', str(scale), '--secs', str(secs), '--out', o],
           timeout=secs + 120)
    try:
        return json.load(open(o))
    except (OSError, ValueError):
        return {'error': f'harness ended with {r.returncode}: {r.stderr[-1500:]}', 'evaluations': 0, 'distinct_nontrivial': 0, 'failures': [], 'samples': [], 'exhaustive': [], 'crash': r.returncode}


def known():
    try:
        return json.load(open(V + '/known_findings.json'))['findings']
    except OSError:
        return []


def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(f'{V}/out/{pid}', exist_ok=True)
    os.makedirs(f'{V}/evidence', exist_ok=True)
    os.makedirs(f'{V}/replays', exist_ok=True)
    box = {}
    th = threading.Thread(target=lambda: box.update(h=build_harness(pid)))
    th.start()
    build_xtract()
    proofs = [Proof(pid, u, tier) for u in P['units']]
    for p in proofs:
        p.run()
        log(f"[{pid}] verus {p.name}: {p.verified} verified, {p.errors} errors, {len(p.undecided)} undecided, {p.wall:.1f}s")
    if tier == 'thorough':
        for p in proofs:
            if not p.undecided and not p.failed:
                p.vacuity()
                log(f"[{pid}] vacuity {p.name}: {len(p.vacuous or [])} of {getattr(p, 'vac_total', 0)} functions with an unreachable start: {p.vacuous}")
    th.join()
    hok, herr, hwall = box['h']
    failed = [f for p in proofs for f in p.failed]
    undecided = [u for p in proofs for u in p.undecided]
    hres = {'evaluations': 0, 'distinct_nontrivial': 0, 'failures': [], 'samples': [], 'exhaustive': []}
    if hok:
        secs = P.get('secs', (100, 500))[tier == 'thorough']
        hres = run_harness(pid, tier, seed, 1.0, secs, 'main')
        if hres.get('crash', 0) < 0 and hres['crash'] != -9:
            # the process died (stack overflow, abort): deterministic for a seed, so run it once more before believing it
            h2 = run_harness(pid, tier, seed, 1.0, secs, 'main')
            if h2.get('crash', 0) < 0 and h2['crash'] != -9:
                hres['failures'] = [{'gen': 'whole run', 'small': False, 'choices': [], 'seed': seed, 'input': [],
                                     'message': f"the real code kills the process (signal {-h2['crash']}): {h2['error'][-800:]}"}]
        if not hres['failures'] and (failed or undecided):
            # counterexample search / stand-in for what the proof did not decide
            left = max(30, 700 - (time.time() - t0))
            h2 = run_harness(pid, tier, seed + 1000, 12.0, int(min(left, 200)), 'search')
            hres['evaluations'] += h2['evaluations']
            hres['distinct_nontrivial'] += h2['distinct_nontrivial']
            hres['failures'] += h2['failures']
        if hres.get('error'):
            undecided.append(hres['error'])
            # an abort (stack overflow, out of memory) of the real code on a generated input is not a clean answer
    else:
        undecided.append('harness does not build against the current tree: ' + herr[-1500:])
    log(f"[{pid}] harness: {hres['evaluations']} evaluations, {len(hres['failures'])} failures (build {hwall:.0f}s)")

    # known findings: a failing input listed there is reported as such, anything else is a violation
    kn = [k for k in known() if k['property'] == pid and k.get('status') == 'known']
    fresh = []
    for f in hres['failures']:
        fresh.append(f)
    for k in kn:
        log(f"KNOWN-FINDING: property={pid} {k['text']}")

    lines, viol = [], 0
    if fresh:
        for f in fresh:
            h = hashlib.sha1(json.dumps([f['gen'], f['choices'], f.get('seed')]).encode()).hexdigest()[:10]
            path = f'{V}/replays/{pid}-{h}.json'
            json.dump({'property': pid, 'failing_case': f, 'failed_obligations': failed, 'undecided': undecided,
                       'how_to_replay': f'cd {V}/harness && cargo build --offline --no-default-features --features {pid} && target/debug/harness {pid} --replay {path}'}, open(path, 'w'), indent=1)
            lines.append(f'VIOLATION property={pid} replay={path}')
            log(f"  {f['gen']}: {f['message'][:600]}")
            for n in f['input'][:12]:
                log('    input: ' + n[:400])
        for x in failed[:6]:
            log('  failed obligation: ' + ', '.join(x['functions']) + ': ' + x['message'])
        viol = len(fresh)
    elif failed:
        h = hashlib.sha1(json.dumps(failed).encode()).hexdigest()[:10]
        path = f'{V}/replays/{pid}-proof-{h}.json'
        json.dump({'property': pid, 'failed_obligations': failed, 'undecided': undecided, 'verus': [p.cmd for p in proofs],
                   'searched': hres['evaluations'], 'note': 'the verifier gives no counterexample, and the search on the real code found no failing input'}, open(path, 'w'), indent=1)
        for x in failed[:8]:
            log('  failed obligation: ' + ', '.join(x['functions']) + ': ' + x['text'])
        lines.append(f'VIOLATION property={pid} replay={path} no-failing-input-found')
        viol = len(failed)
    for u in undecided[:10]:
        log('  not decided by proof: ' + u[:500])

    fns = [f for p in proofs for f in p.report['fns'] if 'out_lines' in f]
    assumptions = []
    for p in proofs:
        for a in p.assumptions():
            if a not in assumptions:
                assumptions.append(a)
    ob = sum(p.verified + p.errors for p in proofs)
    di = sum(p.verified for p in proofs)
    cov = {
        'obligations': ob, 'discharged': di,
        'checker_cmd': ' && '.join(p.cmd for p in proofs if p.cmd) or 'verus (not reached)',
        'trusted_base': ['verus 0.2026.09.13 (VIR/AIR encoding, vstd contracts) and z3', 'xtract (mechanical extraction; what it edits is listed per function under functions_under_contract[].rewrites)', 'rustc'] + assumptions,
        'obligation_unit': 'one SMT proof query group per function, lemma or loop-carrying function (Verus "verified" count); each covers all pre/postconditions, invariants, overflow, index, panic and termination obligations of that function',
        'back_end': 'verus/z3', 'solver_ms': round(sum(p.smt_ms for p in proofs)),
        'functions_under_contract': [{'fn': f['fn'], 'at': f"{f['file']}:{f['lines'][0]}-{f['lines'][1]}", 'fingerprint': f['fingerprint'], 'rewrites': f['rewrites'],
                                      'status': 'assumed' if f.get('external_body') else 'contract'} for f in fns if f.get('contract')],
        'functions_without_contract': [f['fn'] for f in fns if not f.get('contract')],
        'slowest': [x for p in proofs for x in getattr(p, 'fn_times', [])][:8],
        'failed_obligations': failed, 'not_decided': undecided,
        'vacuity': [{'unit': p.name, 'functions': getattr(p, 'vac_total', 0), 'vacuous': p.vacuous} for p in proofs if p.vacuous is not None],
        'bounded_stand_in': {
            'label': 'bounded: never counted as proved', 'what': P.get('bounded', ''),
            'evaluations': hres['evaluations'], 'distinct_nontrivial': hres['distinct_nontrivial'],
            'rule': P.get('rule', 'a case is a sequence of generator choices (enumerated in order up to the stated number, then random from VERIF_SEED); non-trivial as judged by each generator, distinct by choice sequence'),
            'enumerated': hres.get('exhaustive', []), 'samples': hres['samples'][:6],
        },
        'evaluations': hres['evaluations'], 'distinct_nontrivial': hres['distinct_nontrivial'],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'proof'), 'coverage': cov,
          'assumptions': P.get('assumptions', []) + assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    for l in lines:
        log(l)
    log(f"[{pid}] {'VIOLATED' if lines else ('held' if not undecided else 'held on everything explored; proof not decided, bounded stand-in only')} ({time.time() - t0:.0f}s)")
    sys.exit(1 if lines else 0)


main()
