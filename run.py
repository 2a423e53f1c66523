#!/usr/bin/env python3
"""Driver of the checks: run.py PROPERTY TIER.

Builds the symbolic executor and, from /repo's current tree, the LLVM IR of the harnesses; lets the
executor decide every harness of the property; replays counterexamples (and sampled passing paths)
against the native build; writes evidence/<property>.json.
"""
import glob, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec
TARGET = os.environ.get('VERIF_TARGET', os.path.join(HERE, 'target'))
REPO = '/repo'
HOOK = '--cfg hybridcvrp_verif'
T0 = time.time()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ENV.pop('RUSTFLAGS', None)
ENV.pop('CARGO_TARGET_DIR', None)
JOBS = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 8))))


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=1500):
    p = subprocess.run(cmd, env=env or ENV, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
    if p.returncode != 0:
        raise CheckError('%s: exit %d\n%s' % (' '.join(cmd), p.returncode, p.stdout[-4000:]))
    return p.stdout


def build_symex():
    sh(['cargo', 'build', '--release', '--offline', '--manifest-path', HERE + '/symex/Cargo.toml', '--target-dir', TARGET + '/symex'])
    return TARGET + '/symex/release/symex'


def modules_of(entries):
    """The harness modules (cargo features) the entries live in."""
    mods = set()
    for f in glob.glob(HERE + '/harness/src/*.rs'):
        m = re.search(r'^entries!\(([^)]*)\)', open(f).read(), re.M)
        if m and set(re.findall(r'\w+', m.group(1))) & set(entries):
            mods.add(os.path.basename(f)[:-3])
    return ','.join(sorted(mods))


def build_ir(entries):
    os.makedirs(TARGET + '/sym', exist_ok=True)
    out = TARGET + '/sym/harness.ll'
    sh(['bash', HERE + '/tools/build_ir.sh', TARGET + '/sym', out, ','.join(entries), modules_of(entries)])
    return out


def build_native(profile, mods):
    args = ['cargo', 'build', '--offline', '--no-default-features', '--features', mods, '--bin', 'replay', '--manifest-path', HERE + '/harness/Cargo.toml', '--target-dir', TARGET + '/native']
    if profile == 'release':
        args.append('--release')
    sh(args, env=dict(ENV, RUSTFLAGS=HOOK))
    return TARGET + '/native/%s/replay' % ('release' if profile == 'release' else 'debug')


def build_asan(mods):
    env = dict(ENV, RUSTUP_TOOLCHAIN='nightly', RUSTFLAGS=HOOK + ' -Zsanitizer=address')
    sh(['cargo', 'build', '--offline', '--no-default-features', '--features', mods, '--bin', 'replay', '--target', 'x86_64-unknown-linux-gnu', '--manifest-path', HERE + '/harness/Cargo.toml', '--target-dir', TARGET + '/asan'], env=env)
    return TARGET + '/asan/x86_64-unknown-linux-gnu/debug/replay'


def native(binary, entry, inputs, params, timeout=60):
    """-> (exit code or 'timeout', output)"""
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        f = d + '/inputs'
        with open(f, 'w') as h:
            for n, k, v in inputs:
                h.write('%s\t%s\t%d\n' % (n, k, v))
        env = dict(ENV, RUST_BACKTRACE='0', ASAN_OPTIONS='detect_leaks=0')
        try:
            p = subprocess.run([binary, entry, f] + ['%s=%d' % kv for kv in sorted(params.items())] + ['pad=0'] * 16, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=d, errors='replace', text=True)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return 'timeout', ''


def merge(prefix):
    tot = {}
    for f in sorted(glob.glob(prefix + '.*.json')):
        with open(f) as h:
            d = json.load(h)
        for k, v in d.items():
            if isinstance(v, (int, float)):
                tot[k] = max(tot.get(k, 0), v) if k in ('wall', 'max_path') else tot.get(k, 0) + v
            elif isinstance(v, dict):
                t = tot.setdefault(k, {})
                for a, b in v.items():
                    t[a] = b if k == 'params' else t.get(a, 0) + b
            else:
                tot.setdefault(k, []).extend(v)
    return tot


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    chk = spec.CHECKS[prop]
    runs = chk['quick'] if tier == 'quick' else chk.get('thorough', chk['quick'])
    if only:
        runs = [r for r in runs if r.entry == only]
    total = float(os.environ.get('VERIF_BUDGET', '780' if tier == 'quick' else '5400'))
    entries = sorted({r.entry for r in runs})
    out = TARGET + '/out/' + prop
    os.makedirs(out, exist_ok=True)
    for f in glob.glob(out + '/*'):
        os.unlink(f)
    log('building')
    pool = ThreadPoolExecutor(4)
    f1 = pool.submit(build_symex)
    f2 = pool.submit(build_ir, entries)
    f3 = pool.submit(build_native, 'release', modules_of(entries))
    symex, ll = f1.result(), f2.result()
    log('built')
    results, problems, violations, known, incomplete = [], [], [], [], []
    findings = load_findings(prop)
    weights = sum(r.weight for r in runs)
    for i, r in enumerate(runs):
        left = total - (time.time() - T0) - 25
        budget = max(10.0, left * max(0.5, r.weight / max(weights, 1e-9)) if i + 1 < len(runs) else left)
        weights -= r.weight
        prefix = '%s/%s.%d' % (out, r.entry, i)
        cmd = [symex, ll, r.entry, prefix, '--jobs', str(r.jobs or JOBS), '--deadline', '%.0f' % budget, '--samples', str(r.samples)]
        if r.max_instr:
            cmd += ['--max-instr', str(r.max_instr)]
        for k, v in sorted(r.params.items()):
            cmd += ['--param', '%s=%d' % (k, v)]
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=budget + 120)
            rc, txt = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, txt = 'timeout', ''
        res = merge(prefix)
        res.setdefault('violations', [])
        res['harness'], res['bounds'], res['rc'] = r.entry, r.describe(), rc
        results.append(res)
        log('%s %s: %s paths, %s queries, %d violations, %d aborts, %.1fs' % (r.entry, r.params, res.get('ended'), res.get('queries'), len(res['violations']), len(res.get('aborts', [])), time.time() - t))
        if rc != 0:
            problems.append('%s: executor ended with %s: %s' % (r.entry, rc, txt[-1500:]))
        late = 'deadline' in res.get('aborts', [])
        if late:
            incomplete.append('%s %s: not finished in time, %d paths explored' % (r.entry, r.params, res.get('ended') or 0))
        for a in [a for a in res.get('aborts', []) if a != 'deadline'][:3]:
            problems.append('%s: %s' % (r.entry, a))
        if res.get('left'):
            if not late and not res['violations']:
                problems.append('%s: %d states left' % (r.entry, res['left']))
        if res['violations']:
            handle_violations(prop, r, res, f3, violations, known, problems, findings)
            if violations:
                break
        else:
            for w in r.reach:
                if not res.get('reached', {}).get(w):
                    problems.append('%s: vacuous: reach point %r not hit' % (r.entry, w))
    validated = 0
    if not violations:
        validated = validate(runs, results, f3, problems)
    write_evidence(prop, tier, seed, chk, runs, results, violations, known, problems, incomplete, validated)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violations:
        v = violations[0]
        print('%s: %s (%s)' % (v['kind'], v['name'], v['harness']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        return 1
    if problems:
        for p in problems[:20]:
            print('ERROR', p)
        return 2
    for i in incomplete:
        print('INCOMPLETE', i)
    print('%s: held on everything explored (%d paths, %d solver queries, %d native validations)' % (prop, sum(r.get('ended', 0) for r in results), sum(r.get('queries', 0) for r in results), validated))
    return 0


def load_findings(prop):
    try:
        with open(HERE + '/known_findings.json') as h:
            return [f for f in json.load(h) if f.get('property') == prop and f.get('status') == 'known']
    except FileNotFoundError:
        return []


def handle_violations(prop, r, res, f3, violations, known, problems, findings):
    rel = f3.result()
    dbg = build_native('dev', modules_of([r.entry]))
    for v in res['violations']:
        attempts = []
        ok = None
        for label, b in (('release', rel), ('dev', dbg)):
            code, text = native(b, r.entry, v['inputs'], r.params, timeout=30 if v['kind'] == 'steps' else 60)
            attempts.append('%s: %s %s' % (label, code, text.strip()[-300:]))
            good = {'check': code == 10, 'panic': code == 101 or (isinstance(code, int) and code < 0), 'arith': code == 101, 'steps': code == 'timeout' or (isinstance(code, int) and code < 0),
                    'memory': isinstance(code, int) and code < 0, 'unreachable': code == 101 or (isinstance(code, int) and code < 0), 'exit': code not in (0, 10, 11, 12, 'timeout')}.get(v['kind'], False)
            # any failure of the real code on these inputs is a violation of the property
            if good or code in (10, 101) or (isinstance(code, int) and code < 0):
                ok = label
                break
        if ok is None and v['kind'] in ('memory', 'unreachable'):
            code, text = native(build_asan(modules_of([r.entry])), r.entry, v['inputs'], r.params)
            attempts.append('asan: %s %s' % (code, text.strip()[:600]))
            if 'AddressSanitizer' in text or code in (10, 101):
                ok = 'asan'
        if ok is None:
            problems.append('%s: counterexample for %s %r does not reproduce natively (%s)' % (r.entry, v['kind'], v['name'], ' | '.join(attempts)))
            continue
        hit = [f for f in findings if f['harness'] == r.entry and f['kind'] == v['kind'] and re.search(f['name'], v['name'] + ' ' + ' '.join(v['trace']))]
        if hit:
            if hit[0]['what'] not in known:
                known.append(hit[0]['what'])
            continue
        rep = os.path.join(HERE, 'evidence', '%s.replay.json' % prop)
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        with open(rep, 'w') as h:
            json.dump({'property': prop, 'harness': r.entry, 'params': r.params, 'kind': v['kind'], 'name': v['name'], 'trace': v['trace'], 'inputs': v['inputs'], 'reproduced_in': ok, 'native': attempts}, h, indent=1)
        violations.append({'harness': r.entry, 'kind': v['kind'], 'name': v['name'], 'replay': rep})
        return


def validate(runs, results, f3, problems):
    """Replay sampled passing paths natively; the observed values must be the executor's."""
    rel = f3.result()
    jobs = []
    for r, res in zip(runs, results):
        for s in res.get('samples', []):
            jobs.append((r, s))

    def one(j):
        r, s = j
        code, text = native(rel, r.entry, s['inputs'], r.params)
        if code == 12 and 'EXHAUSTED' not in text and 'MISMATCH' not in text:
            return None  # sampled model not representable
        if code != 0:
            return '%s: engine and native run disagree: a passing path ends natively with %s %s, inputs %s' % (r.entry, code, text[-200:], s['inputs'])
        got = [l.split('\t')[1:] for l in text.splitlines() if l.startswith('OBS\t')]
        if len(got) != len(s['obs']):
            return '%s: engine and native run disagree on the number of observations' % r.entry
        for (n, x), (m, y) in zip(s['obs'], got):
            a, b = float(x) if x is not None else None, float(y)
            if a is None:
                continue
            if n != m or not (a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) or (a != a and b != b)):
                return '%s: engine and native run disagree: %s %s vs %s %s, inputs %s' % (r.entry, n, a, m, b, s['inputs'])
        return 1
    n = 0
    with ThreadPoolExecutor(JOBS) as ex:
        for x in ex.map(one, jobs):
            if x == 1:
                n += 1
            elif x:
                problems.append(x)
    return n


def demangle(names):
    try:
        p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split('\n')
    except OSError:
        return list(names)


def write_evidence(prop, tier, seed, chk, runs, results, violations, known, problems, incomplete, validated):
    fn = {}
    for r in results:
        for k, v in r.get('functions', {}).items():
            fn[k] = fn.get(k, 0) + v
    names = sorted(k for k in fn if 'hybridcvrp' in k)
    dem = demangle(names)
    per = []
    for r in results:
        per.append({k: r.get(k) for k in ('harness', 'bounds', 'params', 'paths', 'ended', 'assumed_away', 'forks', 'instrs', 'max_path', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'checks', 'checks_folded', 'check_queries', 'roundings', 'left', 'wall', 'reached')})
        per[-1]['complete'] = not r.get('left') and r.get('rc') == 0 and not r.get('aborts')
    s = lambda k: int(sum(r.get(k) or 0 for r in results))
    samples = [x for r in results for x in r.get('samples', [])[:2]][:8]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': s('paths'), 'transitions': s('instrs'), 'traces_validated_against_impl': validated, 'samples': samples,
            'exhaustive': all(p['complete'] for p in per),
            'explanation': 'Symbolic execution of the LLVM IR of the real code; states = symbolic paths ended, transitions = IR instructions executed symbolically, each path standing for every input value of its path condition. A check is discharged by z3 (path condition and negated assertion unsatisfiable) or folded by interval and polynomial normalisation.',
            'solver_queries': s('queries'), 'queries_unsat': s('unsat'), 'queries_sat': s('sat'), 'queries_unknown': s('unknown'), 'solver_seconds': round(sum(r.get('solver_s') or 0 for r in results), 2),
            'assertions_decided': s('checks'), 'assertion_queries': s('check_queries'),
            'functions_encoded': [d for d in dem if d], 'library_functions_encoded': len(fn) - len(names),
            'harnesses': per,
            'bounds': [r.describe() for r in runs], 'outside_the_bounds': chk.get('outside', ''),
        },
        'assumptions': chk.get('assumptions', []) + spec.COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - T0, 1), 'violations': len(violations), 'known_findings': known, 'problems': problems, 'incomplete': incomplete,
    }
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(HERE + '/evidence/%s.json' % prop, 'w') as h:
        json.dump(ev, h, indent=1)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('ERROR', e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print('ERROR', e)
        sys.exit(2)
