"""Checks of the STL converter (examples/stl.cxx): deterministic simulation of its file I/O with fault injection."""
import json
import os
import shutil
import subprocess
import sys
import time

import build as B

VERIF = B.VERIF
REAL = ['examples/stl.cxx, compiled unchanged from the working tree', 'include/dsga.hxx as it uses it', 'libstdc++ file streams, std::filesystem, number formatting']
STUB = ['the C library calls below them (fopen, read, write, writev, lseek, stat, fclose, getcwd ...): an in-memory disk', 'standard input and output: in-memory', 'two converters at once: fibers, switched at system calls']
ASSUME = ['one system call is the unit of interleaving', 'lseek on a regular file does not fail', 'a killed process has no effect on the disk after the call it was killed in; what it wrote before stays (no power failure)']


def build(out):
    os.makedirs(out, exist_ok=True)
    src = VERIF + '/sim/stl/stlsim.cpp'
    ps = [subprocess.Popen(['clang++', '-std=c++20', '-O1', '-g', '-w', '-I' + B.INC, '-I' + B.REPO + '/examples', '-c', f, '-o', f'{out}/{o}.o'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
          for f, o in ((B.REPO + '/examples/stl.cxx', 'stl'), (src, 'sim'))]
    for p in ps:
        t = p.communicate()[0]
        if p.returncode:
            print('ERROR: build failed:\n' + t[:3000])
            sys.exit(2)
    B.sh(['clang++', '-rdynamic', f'{out}/stl.o', f'{out}/sim.o', '-o', f'{out}/stlsim', '-ldl'], 'link')
    return out + '/stlsim'


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def known(prop):
    import check as K
    return K.known_names(prop)


def replay(exe, prop, choices):
    r = subprocess.run([exe, 'replay', '--prop', prop, '--known', ';'.join(known(prop)), '--choices', choices], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=120, preexec_fn=limit)
    if r.returncode < 0:
        return dict(violation=True, text=f'the converter died with signal {-r.returncode}', hash='death', narrative=[])
    return json.loads(r.stdout)


def replay_file(path, r):
    out = f'{VERIF}/build/replay-{r["property"]}-{os.getpid()}'
    try:
        d = replay(build(out), r['property'], r['choices'])
    finally:
        shutil.rmtree(out, ignore_errors=True)
    for l in d['narrative']:
        print('  ' + l)
    if d['violation']:
        same = d['text'] == r['text'] and d['hash'] == r['hash']
        print(f'VIOLATION property={r["property"]} replay={path}')
        print(('reproduced exactly: ' if same else 'a violation, but not the recorded one: ') + d['text'])
        return 1
    print('no violation on this tree')
    return 0


def check(prop, tier, seed):
    import check as K
    t0 = time.time()
    out = f'{VERIF}/build/{prop}-{tier}'
    shutil.rmtree(out, ignore_errors=True)
    exe = build(out)
    bt = time.time() - t0
    print(f'property {prop}: built the converter from {B.REPO} in {bt:.0f} s', flush=True)
    runs = 800000 if tier == 'quick' else 12000000
    t1 = time.time()
    ps = [subprocess.Popen([exe, 'run', '--prop', prop, '--known', ';'.join(known(prop)), '--seed', str(seed), '--runs', str(runs), '--worker', str(w), '--workers', '8'], stdout=open(f'{out}/o{w}', 'w'), stderr=open(f'{out}/e{w}', 'w'), preexec_fn=limit) for w in range(8)]
    ds, dead = [], []
    for w, p in enumerate(ps):
        try:
            p.wait(timeout=700)
        except subprocess.TimeoutExpired:
            for q in ps:
                q.kill()
            print('ERROR: the simulator did not finish')
            sys.exit(2)
        try:
            ds.append(json.load(open(f'{out}/o{w}')))
        except Exception:
            dead.append((w, p.returncode))
    wall = time.time() - t1
    bad = [d for d in ds if 'error' in d]
    if bad or dead:
        print('ERROR: ' + (bad[0]['error'] if bad else f'worker ended with {dead}: ' + open(f'{out}/e{dead[0][0]}').read()[-500:]))
        sys.exit(2)
    vs = sorted((d for d in ds if d['violation']), key=lambda d: d['run'])
    if vs:
        v = vs[0]
        q = replay(exe, prop, v['choices'])
        if not q['violation'] or q['text'] != v['text'] or q['hash'] != v['hash']:
            print(f'ERROR: violation does not reproduce in a fresh process: {v} / {q}')
            sys.exit(2)
        os.makedirs(K.REPLAYS, exist_ok=True)
        path = f'{K.REPLAYS}/{prop}-seed{seed}-run{v["run"]}.json'
        with open(path, 'w') as f:
            json.dump(dict(kind='stl', property=prop, tier=tier, seed=seed, run=v['run'], text=v['text'], hash=v['hash'], choices=v['choices'], history=v['narrative']), f, indent=1)
        K.evidence(prop, tier, seed, dict(evaluations=v['runs'], distinct_nontrivial=1, rule='search stopped at the first violating run', samples=[dict(run=v['run'], text=v['text'], history=v['narrative'])]), time.time() - t0, ASSUME, 1)
        for l in v['narrative'][-60:]:
            print('  ' + l)
        print(v['text'])
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    tot = {k: sum(d[k] for d in ds) for k in ('runs', 'faulted', 'two', 'determinism', 'succeeded', 'system_calls', 'distinct')}
    found = {}
    for d in ds:
        for k, n in d['known'].items():
            found[k] = found.get(k, 0) + n
    for k, t in known(prop).items():
        if k in found:
            print(f'KNOWN-FINDING: property={prop} {k}: {t}')
    cov = dict(known_findings_met=found, evaluations=tot['runs'], distinct_nontrivial=tot['distinct'],
               rule='one evaluation = one simulated history (disk contents, command lines, answers, schedule of the converters, faults, and a fault-free repetition), all drawn from one seed. Non-trivial: a fault fired or two converters ran at once. '
                    'Distinct: by a 64-bit hash of every system call with its result (each worker counts its own).',
               samples=[s for d in ds for s in d['samples']][:6], runs_per_hour=round(tot['runs'] / wall * 3600), seeds_per_hour=round(tot['runs'] / wall * 3600), simulation_wall_s=round(wall, 2), build_wall_s=round(bt, 1),
               simulated_time=dict(unit='logical steps (the converter reads no clock)', system_calls=tot['system_calls']),
               runs_with_faults=tot['faulted'], runs_with_two_converters=tot['two'], first_attempts_reporting_success=tot['succeeded'], executions_repeated_for_determinism=tot['determinism'],
               faults_injected={k: sum(d['faults'][k] for d in ds) for k in ds[0]['faults']}, components_real=REAL, components_stubbed=STUB)
    K.evidence(prop, tier, seed, cov, time.time() - t0, ASSUME, 0)
    print(f'{prop} held: {tot["runs"]} simulated runs, {tot["system_calls"]} system calls, {tot["distinct"]} distinct non-trivial executions, {wall:.1f} s of search, {time.time() - t0:.0f} s in all')
    shutil.rmtree(out, ignore_errors=True)
    return 0
