#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  check.py PROP [--tier quick|thorough]     build from /repo's working tree, search, write evidence/PROP.json
  check.py --replay FILE                    rebuild and re-execute one recorded violation

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed."""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import plans

VERIF = B.VERIF
REPLAYS = VERIF + '/replays'
KNOWN = VERIF + '/known_findings.txt'
REAL = ['include/dsga.hxx (every function of the tables listed above, compiled from the working tree)', 'C++ standard library templates it uses']
STUB = ['client threads: fibers of the simulator, one runs at a time', 'locks of coordinating clients', 'allocator (operator new/delete, malloc family): may be made to fail', '__assert_fail: turned into an observed stop of the simulated client',
        'C library string/memory functions the code calls: instrumented equivalents']


def known_names(prop):
    """names listed as known findings for this property: 'known: property=C01 name=<...> ...'"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known:\s+property=(\w+)\s+name="([^"]*)"\s+(.*)', l)
            if m and m[1] == prop:
                r[m[2]] = m[3].strip()
    return r


def die(msg):
    print('ERROR: ' + msg)
    sys.exit(2)


def sim_run(sim, so, args, timeout):
    out = subprocess.run([sim, *args[:1], '--so', so, *args[1:]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout)
    try:
        d = json.loads(out.stdout)
    except Exception:
        die(f'simulator ended with {out.returncode}: {out.stdout[-600:]} {out.stderr[-600:]}')
    return out.returncode, d


def replay_in_fresh_process(sim, so, spec, path):
    with open(path, 'w') as f:
        f.write(spec)
    rc, d = sim_run(sim, so, ['replay', '--spec', path], 240)
    os.remove(path)
    return rc, d


def replay_file(path):
    r = json.load(open(path))
    if r.get('kind') == 'stl':
        import stlcheck
        return stlcheck.replay_file(path, r)
    out = f'{VERIF}/build/replay-{r["property"]}-{os.getpid()}'
    try:
        sim, so, _, dropped = B.build(out, r['units'], r['defines'], keep_going=True)
        rc, d = replay_in_fresh_process(sim, so, r['spec'], out + '/spec.txt')
    finally:
        shutil.rmtree(out, ignore_errors=True)
    for l in d.get('narrative', []):
        print('  ' + l)
    if d.get('violation'):
        same = d['class'] == r['class'] and d['text'] == r['text'] and d['hash'] == r['hash']
        print(f'VIOLATION property={r["property"]} replay={path}')
        print(('reproduced exactly: ' if same else 'a violation, but not the recorded one: ') + d['class'] + ': ' + d['text'])
        return 1
    print('no violation on this tree')
    return 0


def write_replay(prop, tier, seed, units, defines, v, extra=None):
    os.makedirs(REPLAYS, exist_ok=True)
    path = f'{REPLAYS}/{prop}-seed{seed}-run{v["run"]}.json'
    with open(path, 'w') as f:
        json.dump(dict(kind='sim', property=prop, tier=tier, seed=seed, run=v['run'], units=units, defines=list(defines), **{'class': v['class']}, text=v['text'], hash=v['hash'], spec=v['spec'], history=v['narrative'], **(extra or {})), f, indent=1)
    return path


def evidence(prop, tier, seed, cov, wall, assumptions, violations):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    tmp = f'{VERIF}/evidence/.{prop}.tmp'
    with open(tmp, 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov, assumptions=assumptions, wall_s=round(wall, 2), violations=violations), f, indent=1)
    os.replace(tmp, f'{VERIF}/evidence/{prop}.json')


ASSUME = ['memory accesses are sequentially consistent and one access is the unit of interleaving (weak-memory reordering is not simulated)',
          'the workload is code of clang 18 (-O0 and -O1) and, for some units, gcc 13 (-O2), with floating-point contraction off; other compilers may merge or split accesses',
          'operations and operand types are those of the generated tables (int, float, double, bool, unsigned, long long, unsigned long long)']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay_file(a.replay))
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if prop.startswith('S'):
        import stlcheck
        sys.exit(stlcheck.check(prop, tier, seed))
    units, defines = plans.plan(prop, tier)
    out = f'{VERIF}/build/{prop}-{tier}'
    shutil.rmtree(out, ignore_errors=True)
    try:
        sim, so, bt, dropped = B.build(out, units, defines, keep_going=True)
    except B.BuildError as e:
        die(f'build failed: {e}')
    for n, e in list(dropped.items())[:3]:
        print(f'note: workload unit {n} does not compile against this tree and was left out:\n{e[:1200]}')
    if len(dropped) * 4 > len(units):
        die(f'{len(dropped)} of {len(units)} workload units do not compile')
    units = [u for u in units if u not in dropped]
    print(f'property {prop}: built {len(units)} workload units from {B.REPO} in {bt:.0f} s', flush=True)
    runs = a.runs or plans.runs(prop, tier)
    secs = plans.seconds(prop, tier)
    js = out + '/out.json'
    try:
        r = subprocess.run([sim, 'run', '--so', so, '--prop', prop, '--seed', str(seed), '--runs', str(runs), '--workers', '8', '--max-seconds', str(secs), '--out', js], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=secs + 200)
    except subprocess.TimeoutExpired:
        die('the simulator did not finish')
    if os.path.exists(js):
        d = json.load(open(js))
    else:
        try:
            d = json.loads(r.stdout)
        except Exception:
            die(f'simulator ended with {r.returncode}: {r.stdout[-800:]} {r.stderr[-800:]}')
    v = d.get('violation')
    if 'error' in d:
        # an execution that is not a function of its seed: the code under test consults something outside its operands
        if 'run' in d and 'not deterministic' in d['error']:
            v = dict(run=d['run'], text=f'two executions of run {d["run"]} under the same seed, schedule and operand values differ', hash='0', narrative=[], spec=f'prop {prop}\nseed {seed}\nrun {d["run"]}\ndeterminism\n', **{'class': 'nondeterminism'})
            if prop != 'C14':
                die(d['error'])
        else:
            die(d['error'])
    listed = known_names(prop)
    pk = d.get('probe')
    if not v and pk:
        new = [n for n in pk['names'] if n not in listed]
        if pk['violation'] or (new and prop in ('C01', 'C05')):
            text = pk['violation'] or 'calls that disturb components they do not name: ' + '; '.join(new)
            v = dict(run=0, text=text, hash='0', narrative=[f'probe over {pk["ops"]} call variants; example: {pk["example"]}'], spec=f'prop {prop}\nseed {seed}\nrun 0\nprobe\n', **{'class': 'probe'})
    if v:
        rc, q = replay_in_fresh_process(sim, so, v['spec'], out + '/spec.txt')
        if not q.get('violation') or q['class'] != v['class'] or q['hash'] != v['hash'] or (v['class'] not in ('probe', 'process-death') and q['text'] != v['text']):
            die(f'violation does not reproduce in a fresh process: {v["class"]}: {v["text"]} / {q}')
        path = write_replay(prop, tier, seed, units, defines, v)
        cov = dict(evaluations=v['run'] + 1, distinct_nontrivial=1, rule='search stopped at the first violating run', samples=[dict(run=v['run'], text=v['text'], history=v['narrative'])])
        evidence(prop, tier, seed, cov, time.time() - t0, ASSUME, 1)
        for l in v['narrative'][-40:]:
            print('  ' + l)
        print(f'{v["class"]}: {v["text"]}')
        print(f'VIOLATION property={prop} replay={path}')
        sys.exit(1)
    if pk and prop in ('C01', 'C05'):
        for n in pk['names']:
            print(f'KNOWN-FINDING: property={prop} {n}: {listed[n]}')
    w = max(d['wall'], 1e-9)
    cov = dict(
        evaluations=d['runs'], distinct_nontrivial=d['distinct'],
        rule='one evaluation = one simulated execution (history of operations, schedule and faults all drawn from one seed). Non-trivial: a client was pre-empted inside an operation, a fault fired, or a misuse was stopped. '
             'Distinct: by a 64-bit hash of the whole event log (schedule, every access offset, every fault, every result), counted in a 2^27-bit table.',
        samples=d['samples'],
        runs_per_hour=round(d['runs'] / w * 3600), seeds_per_hour=round(d['runs'] / w * 3600), simulation_wall_s=d['wall'], build_wall_s=round(bt, 1),
        operations=d['operations'], operations_not_applicable=d['skipped'], operand_refreshes=d['refreshed'], operations_in_other_floating_point_environments=d['odd_fp'],
        simulated_time=dict(unit='logical steps (no clock exists in the code under test)', shared_memory_accesses=d['accesses'], basic_block_edges=d['edges']),
        context_switches=d['switches'], switches_inside_operations=d['mid_op_switches'], runs_with_faults=d['faulted_runs'], faults_injected=d['faults'], scheduler_policies=d['policies'], clients=d['clients'],
        misuses_stopped=d['misuse_stopped'], operations_rechecked=d['rechecks'], rechecked_elsewhere_in_memory=d['relocated'], executions_repeated_for_determinism=d['determinism_checked'],
        functions=d['functions'], functions_exercised=d['functions_covered'], call_variants=d['op_variants'], call_variants_exercised=d['op_variants_covered'],
        code_edges=d['edges_total'], code_edges_reached=d['edges_covered'],
        components_real=REAL, components_stubbed=STUB, workload_units=len(units), units_left_out=sorted(dropped))
    if pk:
        cov['known_defect_probe'] = dict(call_variants=pk['ops'], behaved_correctly=pk['correct'], executions_showing_it=pk['known'], functions=pk['names'])
    evidence(prop, tier, seed, cov, time.time() - t0, ASSUME, 0)
    print(f'{prop} held: {d["runs"]} simulated runs, {d["operations"]} operations, {d["distinct"]} distinct non-trivial executions, {d["wall"]:.1f} s of search, {time.time() - t0:.0f} s in all')
    if not a.keep:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == '__main__':
    main()
