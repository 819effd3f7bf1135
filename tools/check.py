#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seconds N]
Builds the simulator from /repo's working tree, searches seeds, replays and reports."""
import array, glob, json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from info import INFO
VERIF = B.VERIF
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    info = INFO[prop]
    secs = float(info.get('quick_s', 40) if tier == 'quick' else info.get('thorough_s', 600))
    if '--seconds' in sys.argv:
        secs = float(sys.argv[sys.argv.index('--seconds') + 1])
    t0 = time.time()
    variants = info.get('variants', ['v0'] * 6 + ['v1'] * 2)
    try:
        bins = {v: B.build(v) for v in sorted(set(variants))}
    except RuntimeError as e:
        print('BUILD-ERROR', str(e)[-3000:])
        return 2
    out = os.path.join(VERIF, 'build', 'out', f'{prop}-{os.getpid()}')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    reps = os.path.join(VERIF, 'build', 'replays')
    os.makedirs(reps, exist_ok=True)
    build_s = time.time() - t0
    base = seed * 10_000_000
    known = load_known(prop)
    procs = []
    env = dict(os.environ, SIM_KNOWN='\n'.join(k['match'] for k in known))
    stop = os.path.join(out, 'stop')
    for w in range(WORKERS):
        v = variants[w % len(variants)]
        wd = os.path.join(out, f'w{w}')
        os.makedirs(wd)
        p = subprocess.Popen([bins[v], 'search', prop, str(base + w), str(WORKERS), '100000000', str(secs), wd, stop],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        procs.append((p, v, wd))
    viol, errs, hit = [], [], set()
    for p, v, wd in procs:
        so, se = p.communicate()
        for line in so.splitlines():
            if line.startswith('VIOL '):
                viol.append((v, line))
            elif line.startswith('KNOWN '):
                hit.add(line[6:])
            elif line.startswith('NONDET'):
                errs.append(line)
        if p.returncode not in (0, 1, 2):
            errs.append(f'worker exit {p.returncode}: {se[-500:]}')
        elif p.returncode == 2 and not any(l.startswith('NONDET') for l in so.splitlines()):
            errs.append('worker error: ' + se[-500:])
    # aggregate
    st = {}
    faults, probes, samples = {}, {}, []
    for f in sorted(glob.glob(out + '/w*/stats-*.txt')):
        for line in open(f):
            k, _, rest = line.rstrip('\n').partition(' ')
            if k == 'fault':
                n, a, b = rest.split()
                x = faults.setdefault(n, [0, 0])
                x[0] += int(a)
                x[1] += int(b)
            elif k == 'probe':
                n, a = rest.rsplit(' ', 1)
                probes[n] = probes.get(n, 0) + int(a)
            elif k == 'sample':
                if len(samples) < 4:
                    samples.append(rest)
            elif k == 'wall':
                st['wall'] = max(st.get('wall', 0), float(rest))
            elif k != 'viol':
                st[k] = st.get(k, 0) + int(rest)

    def union(pat):
        s = set()
        for f in glob.glob(out + pat):
            a = array.array('Q')
            a.frombytes(open(f, 'rb').read())
            s.update(a)
        return len(s)
    distinct, states = union('/w*/hash-*.bin'), union('/w*/state-*.bin')
    rc = 0
    reported = 0
    for k in known:
        if k['match'] in hit:
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
    for v, line in viol:
        rp = line.split('replay=')[1].split(' class=')[0]
        dst = os.path.join(reps, f'{prop}-{v}-' + os.path.basename(rp).split('-')[-1])
        shutil.copy(rp, dst)
        # the replay must reproduce in a fresh process
        r = subprocess.run([bins[v], 'replay', dst], capture_output=True, text=True)
        if r.returncode != 1:
            errs.append(f'replay of {dst} did not reproduce: {r.stdout[-600:]}')
            continue
        if any(k['match'] in line for k in known):
            continue
        if not reported:
            print(line[:1800])
            print(f'replay with: {bins[v]} replay {dst} -v')
        print(f'VIOLATION property={prop} replay={dst}')
        reported += 1
        rc = 1
    wall = time.time() - t0
    runs = st.get('runs', 0)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': reported,
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': distinct,
            'rule': info['rule'],
            'samples': samples or ['(no run injected a fault)'],
            'runs_per_hour': int(runs / max(st.get('wall', 1), 1) * 3600),
            'seeds': f'{base}..{base + runs}' if runs else 'none',
            'simulated_instructions': st.get('steps', 0),
            'simulated_time': info.get('time', 'one step per executed instruction; the engine has no clock of its own'),
            'operations': st.get('ops', 0),
            'logged_events': st.get('events', 0),
            'faults_injected': {k: {'fired': a, 'opportunities': b} for k, (a, b) in sorted(faults.items()) if b and (a or k in info.get('faults', []))},
            'runs_with_a_fault': st.get('faulty_runs', 0),
            'distinct_states': states,
            'distinct_states_measure': info.get('measure', 'hash of the engine\'s rendered global state after an operation'),
            'distinct_executions_measure': 'hash of the event log of a run (distinct_nontrivial)',
            'probes': probes,
            'determinism_checks': st.get('dup_checks', 0),
            'real_components': info.get('real', REAL),
            'stub_components': info.get('stub', STUB),
            'build_s': round(build_s, 2),
            'engine_variants': sorted(set(variants)),
        },
        'assumptions': info.get('assumptions', []),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(out, ignore_errors=True)
    if errs and not rc:
        for e in errs[:3]:
            print('CHECK-ERROR', e[:2000])
        return 2
    if rc == 0:
        if runs == 0:
            print('CHECK-ERROR no run completed')
            return 2
        print(f'{prop}: held on {runs} simulated runs ({distinct} distinct with faults, {states} states) in {wall:.1f} s')
    return rc


REAL = ['whole engine: parser, bytecode, interpreter, collector, strings, objects, arrays, FFI, JSON, bytecode cache (src/*.c, src/common, src/frozen, src/ffi) compiled from the working tree']
STUB = ['allocator (malloc family) and stdio/mmap calls of the engine, replaced by the simulator', 'embedding host program']


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f'finding: property={prop} '):
                m = line.split(' match="', 1)
                if len(m) == 2:
                    key, _, text = m[1].partition('"')
                    out.append({'match': key, 'text': text.strip()})
    return out


if __name__ == '__main__':
    sys.exit(main())
