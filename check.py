#!/usr/bin/env python3
"""Decide one property by symbolic execution of the compiled code of /repo (see DESIGN.md).

usage: check.py ID [quick|thorough]

Builds the executor and the property's harness (LLVM bitcode of /repo's current tree), runs every stage of
spec.py, replays counterexamples and sampled paths natively, and writes evidence/<ID>.json.
exit 0: held on everything explored; exit 1 and a VIOLATION line: a counterexample reproduced natively.
"""
import glob, json, os, re, resource, select, shutil, signal, subprocess, sys, tempfile, time
import spec

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, 'target')
REPLAYS = os.path.join(HERE, 'evidence', 'replays')
REPO = '/repo'


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(('RUSTFLAGS', 'RUSTDOCFLAGS', 'CARGO_', 'RUSTC', 'SX_'))}
    e['PATH'] = '/usr/local/bin:/usr/bin:/bin:' + e.get('PATH', '')
    e.update(RUSTUP_TOOLCHAIN='1.88.0', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    if 'CARGO_HOME' in os.environ:
        e['CARGO_HOME'] = os.environ['CARGO_HOME']
    return e


def die(msg, log=''):
    print('ERROR: ' + msg)
    if log:
        print(log[-4000:])
    sys.exit(2)


def build(prop):
    """engine and harness in parallel; returns (engine, bitcode, native binary)"""
    t = time.time()
    e = env()
    os.makedirs(TARGET, exist_ok=True)
    rt = os.path.join(TARGET, 'rt.o')
    subprocess.run(['gcc', '-c', '-O1', os.path.join(HERE, 'harness/rt.c'), '-o', rt], check=True)
    ps = []
    eng_t, har_t = os.path.join(TARGET, 'symex'), os.path.join(TARGET, 'harness')
    ps.append(('executor', subprocess.Popen(['cargo', 'build', '--release', '--offline'], cwd=os.path.join(HERE, 'symex'),
              env=dict(e, CARGO_TARGET_DIR=eng_t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for f in glob.glob(os.path.join(har_t, 'release/deps/harness-*.bc')) + glob.glob(os.path.join(har_t, 'release/harness')):
        os.remove(f)
    ps.append(('harness', subprocess.Popen(
        ['cargo', 'rustc', '--release', '--offline', '--features', prop, '--', '--emit=llvm-bc,link', '-C', 'link-arg=' + rt,
         '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '--cfg', 'build_id="%d"' % time.time_ns()],
        cwd=os.path.join(HERE, 'harness'), env=dict(e, CARGO_TARGET_DIR=har_t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for name, p in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            die('building the %s failed' % name, out)
    bc = max(glob.glob(os.path.join(har_t, 'release/deps/harness-*.bc')), key=os.path.getmtime)
    return os.path.join(eng_t, 'release/symex'), bc, os.path.join(har_t, 'release/harness'), time.time() - t


def native(binary, entry, params, inputs, path, timeout=30):
    """run the really compiled code on concrete inputs; returns (verdict, text)"""
    with open(path, 'w') as f:
        f.write(' '.join(map(str, params)) + '\n' + ' '.join(map(str, inputs)) + '\n')
    try:
        r = subprocess.run([binary, entry], env=dict(os.environ, SX_REPLAY=path), capture_output=True, text=True, timeout=timeout, errors='replace',
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)))
    except subprocess.TimeoutExpired:
        return 'fail', 'did not terminate within %d s' % timeout
    out = r.stdout.strip().splitlines()
    last = out[-1] if out else ''
    if last.startswith('SX-OK'):
        return 'ok', last.split('notes=')[1]
    if last.startswith('SX-FAIL'):
        return 'fail', last[8:]
    if last.startswith(('SX-ASSUME', 'SX-OUT')):
        return 'outside', last
    msg = [l for l in r.stderr.splitlines() if l.strip()]
    return 'fail', 'aborted (status %s): %s' % (r.returncode, ' '.join(msg)[:300])


class Executor:
    """the executor in a process group of its own; it reads the bitcode once and runs every stage in a process of its own"""

    def __init__(self, engine, bc):
        self.cmd = [engine, '--bc', bc, '--serve', '--jobs', str(os.cpu_count() or 4), '--samples', '4']
        self.p = None

    def run(self, line, limit):
        """one stage; None if it answered, else what it wrote"""
        if self.p is None:
            self.err = tempfile.TemporaryFile('w+', errors='replace')
            self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, start_new_session=True)
        self.p.stdin.write(line + '\n')
        self.p.stdin.flush()
        end, got = time.time() + limit, ''
        while time.time() < end:
            if select.select([self.p.stdout], [], [], 1)[0]:
                got = self.p.stdout.readline()
                if not got or got.startswith('done'):
                    break
        if got.strip() == 'done 0':
            return None
        self.stop()
        self.err.seek(0)
        return got + self.err.read()[-4000:]

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
            self.p = None


FN = re.compile(r'^\s*(?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?(?:unsafe\s+)?fn\s+(\w+)')


def functions(lines):
    """names of the functions of /repo whose code was executed, from the debug locations"""
    by = {}
    for f, n in lines:
        by.setdefault(f, set()).add(n)
    out = set()
    for f, ns in by.items():
        try:
            src = open(f).read().splitlines()
        except OSError:
            continue
        cur = None
        for i, l in enumerate(src, 1):
            m = FN.match(l)
            if m:
                cur = m.group(1)
            if i in ns and cur:
                out.add(os.path.relpath(f, REPO) + '::' + cur)
    return sorted(out)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    stages = spec.STAGES[prop]
    os.makedirs(REPLAYS, exist_ok=True)
    engine, bc, binary, build_s = build(prop)
    scratch = os.path.join(TARGET, 'replay-%d' % os.getpid())

    known = []
    for k in spec.known(os.path.join(HERE, 'known-findings.txt'), prop):
        v, text = native(binary, k['entry'], k['params'], k['inputs'], scratch)
        if v == 'fail':
            known.append(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    res, violations, mismatches, functions_seen, validated, samples = [], [], [], set(), 0, []
    covers_missing = []
    executor = Executor(engine, bc)
    for st in stages:
        budget = st.get(tier)
        if not budget:
            continue
        out = os.path.join(TARGET, 'out-%s.json' % prop)
        if os.path.exists(out):
            os.remove(out)
        said = executor.run('%s %s %s %d %s' % (st['entry'], ','.join(map(str, st['params'])), budget, st.get('max_steps', 20_000_000), out), budget + 120)
        if said is not None or not os.path.exists(out):
            die('the executor failed on %s %s' % (st['entry'], st['params']), said or '')
        d = json.load(open(out))
        functions_seen.update(map(tuple, d['lines']))
        for v in sorted(d['violations'], key=lambda v: 'non-termination' in v['what']):
            if len(violations) > 2:
                break
            for _ in range(8):  # hash maps are seeded at random in native runs
                verdict, text = native(binary, st['entry'], d['params'], v['inputs'], scratch)
                if verdict == 'fail' or 'non-termination' in v['what']:
                    break
            if verdict != 'fail' and 'non-termination' in v['what']:
                d['limits'].append([v['what'], 1])  # slow, but it ends
            elif verdict == 'fail':
                path = os.path.join(REPLAYS, '%s-%s-%d.txt' % (prop, st['entry'], len(violations)))
                shutil.copy(scratch, path)
                with open(path, 'a') as f:
                    f.write('# entry %s\n# solver: %s (at %s)\n# native replay: %s\n# rerun: SX_REPLAY=%s %s %s\n'
                            % (st['entry'], v['what'], v['where'], text, path, binary, st['entry']))
                violations.append({'entry': st['entry'], 'params': d['params'], 'inputs': v['inputs'], 'solver': v['what'], 'native': text, 'replay': path})
                if 'did not terminate' in text:
                    break
            else:
                mismatches.append({'entry': st['entry'], 'params': d['params'], 'inputs': v['inputs'], 'solver': v['what'], 'native': verdict + ' ' + text})
        step = max(1, len(d['samples']) // 24)
        for s in [] if violations else d['samples'][::step][:32]:
            verdict, text = native(binary, st['entry'], d['params'], s['inputs'], scratch)
            if verdict == 'ok' and text == str(s['notes']):
                validated += 1
            elif verdict == 'fail':
                path = os.path.join(REPLAYS, '%s-%s-%d.txt' % (prop, st['entry'], len(violations)))
                shutil.copy(scratch, path)
                violations.append({'entry': st['entry'], 'params': d['params'], 'inputs': s['inputs'], 'solver': 'path without a finding', 'native': text, 'replay': path})
            else:
                mismatches.append({'entry': st['entry'], 'params': d['params'], 'inputs': s['inputs'], 'solver': 'notes %s' % s['notes'], 'native': verdict + ' ' + text})
        if d['samples']:
            samples.append({'entry': st['entry'], 'params': d['params'], 'inputs': d['samples'][-1]['inputs'], 'observed_digest': str(d['samples'][-1]['notes'])})
        miss = [c for c in st.get('covers', []) if not d['covers'].get(str(c))]
        if miss and d['complete']:
            covers_missing.append({'entry': st['entry'], 'params': st['params'], 'covers': miss})
        res.append({'entry': st['entry'], 'params': st['params'], 'bounds': st['bounds'], 'complete': d['complete'], 'paths': d['paths'],
                    'instructions': d['instructions'], 'forks': d['forks'], 'assertions': d['checks'], 'queries': d['queries'], 'sat': d['sat'],
                    'unsat': d['unsat'], 'unknown': d['unknown'], 'refuted_by_domain': d['refuted_by_domain'], 'solver_s': d['solver_s'], 'wall_s': d['wall_s'], 'unexplored_states': d['leftover'],
                    'witnesses': d['covers'], 'limits': d['limits'], 'engine_errors': d['engine_errors'], 'symbolic_inputs': d['max_inputs']})
        print('%s %s: %s, %d paths, %d queries, %.1f s solver, %.1f s wall%s' % (
            st['entry'], st['params'], 'complete' if d['complete'] else ('VIOLATED' if d['violations'] else 'incomplete'),
            d['paths'], d['queries'], d['solver_s'], d['wall_s'], ''.join(' [%s]' % x[0] for x in d['engine_errors'] + d['limits'])), flush=True)
        if violations:
            break
    executor.stop()
    if os.path.exists(scratch):
        os.remove(scratch)
    total = lambda k: sum(r[k] for r in res)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': total('paths'), 'transitions': total('forks') + total('queries') + total('refuted_by_domain'),
            'traces_validated_against_impl': validated, 'samples': samples,
            'explanation': 'states: symbolic paths run to their end, each standing for every input that satisfies its path condition; '
                           'transitions: branch decisions (forks, solver queries, refutations by domain); '
                           'traces: sampled paths and counterexamples replayed on the native binary with equal observations',
            'exhaustive': bool(res) and all(r['complete'] for r in res),
            'stages': res, 'functions_encoded': functions(functions_seen), 'queries_discharged': total('queries'), 'assertions_discharged': total('assertions'),
            'solver_s': round(total('solver_s'), 2), 'build_s': round(build_s, 1), 'missing_witnesses': covers_missing, 'mismatches': mismatches,
            'violations_found': violations, 'known_findings': known,
        },
        'assumptions': spec.ASSUMPTIONS + spec.EXTRA.get(prop, []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for c in covers_missing:
        print('WARNING: witness not reached: %s' % c)
    if violations:
        v = violations[0]
        print('counterexample: entry %s params %s inputs %s: %s; native: %s' % (v['entry'], v['params'], v['inputs'], v['solver'], v['native']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        sys.exit(1)
    if mismatches:
        print('ERROR: the symbolic run and the native run disagree: %s' % mismatches[:3])
        sys.exit(3)
    print('%s held on everything explored (%d paths, %d queries, %.0f s)' % (prop, total('paths'), total('queries'), time.time() - t0))


if __name__ == "__main__":
    main()
