"""Writes MANIFEST.json from properties.jsonl (claimed properties: those with a plan)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = 'Seeded exploration: {} simulated executions in the quick tier, every one repeatable from its seed; evidence, not proof. Real library code runs at single-access interleaving granularity; trusted: the compiler\'s access instrumentation, the simulator, the array models; memory is sequentially consistent in the simulation.'
STL = 'Seeded exploration: 800,000 simulated histories in the quick tier, every one repeatable from its seed; evidence, not proof. The converter\'s real source runs; its disk, the other processes and every fault are simulated below the C library calls.'
NOTE = {f'S0{k}': STL for k in range(1, 6)}
NA = {
    'N01': 'A pure function of its argument: no schedule, fault or history takes part, so there is nothing to simulate (C05 compares results with a model inside histories, C14 their reproducibility).',
    'N02': 'A pure function of its operands; algebraic identities within rounding involve no schedule, fault or interleaving (C05 compares each matrix operation with an array model).',
    'N03': 'Decided entirely at compile time: there is no execution to simulate.',
    'N04': 'Constant evaluation happens inside the compiler, where no simulator can schedule or inject faults.',
    'N05': 'A static fact about types: no execution, schedule or fault takes part.',
    'N06': 'A pure function of its argument: no schedule, clock, fault or interleaving in it.',
    'N07': 'Single-threaded pure functions in example headers without I/O of their own, shared state or faults.',
}
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    checks.append(dict(property=i, quick_cmd=f'python3 tools/check.py {i} --tier quick', thorough_cmd=f'python3 tools/check.py {i} --tier thorough',
                       technique='deterministic simulation with fault injection: seeded schedules and faults over the real library code' if i[0] == 'C' else 'deterministic simulation with fault injection: seeded I/O faults and crashes under a simulated file system',
                       level='exploration', level_note=NOTE.get(i, SIM.format(f'{plans.runs(i, "quick"):,}')), evidence_file=f'evidence/{i}.json'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks in /repo: interleaving points come from compiler instrumentation of the memory accesses of the real code (clang -fsanitize=thread call-outs served by the simulator), so the shipped code is unchanged.')
open(V + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
