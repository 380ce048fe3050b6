"""Builds the simulator and the workload library from /repo's current working tree."""
import concurrent.futures as cf
import os
import subprocess
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units as UN

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DSGA_REPO', '/repo')
INC = REPO + '/include'
JOBS = 8
EXE_FLAGS = ['-std=c++20', '-O2', '-g', '-w']
WORK_FLAGS = ['-std=c++20', '-fPIC', '-fsanitize=thread', '-fsanitize-coverage=trace-pc-guard', '-mllvm', '-tsan-instrument-func-entry-exit=0',
              '-mllvm', '-tsan-instrument-read-before-write=1', '-ffp-contract=off', '-w', '-I' + INC, '-I' + VERIF + '/sim/work']

# units compiled by gcc: their templates get other names, so that the linker does not replace them by clang's copies
GNU_FLAGS = ['-std=c++20', '-O2', '-fPIC', '-fno-stack-protector', '-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0', '-fsanitize-coverage=trace-pc', '-ffp-contract=off',
             '-w', *[f'-D{n}={n}_g' for n in 'dsga Form MatForm TabA TabAAll TabB TabC TabM TabI TabX TabXM TabD TabDM TabSc TabE TabEM TabF KnownAll'.split()], '-I' + INC, '-I' + VERIF + '/sim/work']
GNU_SYMS = [x for f in ('memcpy', 'memmove', 'memset') for x in ('--redefine-sym', f'{f}=__tsan_{f}')]


class BuildError(Exception):
    pass


def sh(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(f'{what}:\n' + '\n'.join(r.stdout.splitlines()[:40]))


def build(outdir, unit_names, defines=(), verbose=False, keep_going=False):
    """returns (sim executable, workload library, seconds, units that did not compile)"""
    t0 = time.time()
    os.makedirs(outdir, exist_ok=True)
    W = VERIF + '/sim/work'
    core = VERIF + '/sim/core'
    D = ['-D' + d for d in defines]
    def mode(n):
        return '-O0' if n.endswith('_' + UN.UNOPT) else 'gcc' if n.endswith('_' + UN.GNU) else '-O1'
    modes = {mode(n) for n in unit_names}
    pch = {o: f'{outdir}/all{o}.pch' for o in ('-O1', '-O0') if o in modes}
    gch = f'{outdir}/all.hpp.gch'
    hdr = f'{outdir}/all.hpp'
    with open(hdr, 'w') as f:
        f.write(''.join(f'#include "{W}/{h}"\n' for h in ('tab_a.hpp', 'tab_b.hpp', 'tab_c.hpp', 'tab_m.hpp', 'tab_i.hpp', 'tab_x.hpp', 'tab_d.hpp', 'tab_e.hpp', 'tab_f.hpp', 'objs.hpp')))
    jobs = []
    sim = f'{outdir}/sim'
    for n in ('rt', 'sim'):
        jobs.append((['clang++', *EXE_FLAGS, '-c', f'{core}/{n}.cpp', '-o', f'{outdir}/{n}.o'], n))
    jobs.append((['clang++', '-std=c++20', '-O1', '-fPIC', '-w', *D, '-I' + INC, '-I' + W, '-c', f'{W}/reg.cpp', '-o', f'{outdir}/reg.o'], 'reg'))
    ujobs = []
    for n in unit_names:
        h, code = UN.U(n)
        src = f'{outdir}/u_{n}.cpp'
        with open(src, 'w') as f:
            f.write(f'void reg_unit_{n}(Registry *R)\n{{\n\t{code}\n}}\n')
        o = mode(n)
        if o == 'gcc':
            ujobs.append((UN.cost(n) * 2, (['g++', *GNU_FLAGS, *D, '-include', hdr, '-c', src, '-o', f'{outdir}/u_{n}.o'], n)))
            continue
        ujobs.append((UN.cost(n), (['clang++', o, *WORK_FLAGS, *D, '-include-pch', pch[o], '-c', src, '-o', f'{outdir}/u_{n}.o'], n)))
    ujobs.sort(key=lambda j: -j[0])
    times = {}

    def run(j):
        t = time.time()
        sh(*j)
        if j[1].endswith('_' + UN.GNU):
            sh(['objcopy', *GNU_SYMS, f'{outdir}/u_{j[1]}.o'], j[1])
        times[j[1]] = time.time() - t
    dropped = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        ps = [ex.submit(run, (['clang++', o, *WORK_FLAGS, *D, '-x', 'c++-header', hdr, '-o', f], 'pch' + o)) for o, f in pch.items()]
        if 'gcc' in modes:
            ps.append(ex.submit(run, (['g++', *GNU_FLAGS, *D, '-x', 'c++-header', hdr, '-o', gch], 'gch')))
        fs = [ex.submit(run, j) for j in jobs]
        for p in ps:
            p.result()
        us = {j[1]: ex.submit(run, j) for _, j in ujobs}
        for f in fs:
            f.result()
        for n, f in us.items():
            if f.exception():
                if not isinstance(f.exception(), BuildError):
                    raise f.exception()
                dropped[n] = str(f.exception())
    if dropped and not keep_going:
        raise BuildError('\n\n'.join(dropped.values()))
    good = [n for n in unit_names if n not in dropped]
    with open(f'{outdir}/register.cpp', 'w') as f:
        f.write('struct Registry;\nvoid sim_reg_loose(Registry *, bool);\n' + ''.join(f'void reg_unit_{n}(Registry *);\n' for n in good) + 'extern "C" void dsga_sim_register(Registry *R)\n{\n' + ''.join(f'\tsim_reg_loose(R, {str(mode(n) == "gcc").lower()}); reg_unit_{n}(R);\n' for n in good) + '}\n')
    sh(['clang++', '-std=c++20', '-O1', '-fPIC', '-c', f'{outdir}/register.cpp', '-o', f'{outdir}/register.o'], 'register')
    so = f'{outdir}/libwork.so'
    with open(f'{outdir}/objs.rsp', 'w') as f:
        # unoptimised units first: the linker keeps their copies of functions that were not inlined
        f.write('\n'.join(f'{outdir}/u_{n}.o' for n in sorted(good, key=lambda n: not n.endswith('_' + UN.UNOPT))))
    sh(['clang++', '-shared', '-o', so, f'{outdir}/reg.o', f'{outdir}/register.o', '@' + f'{outdir}/objs.rsp'], 'link workload')
    sh(['clang++', '-rdynamic', f'{outdir}/sim.o', f'{outdir}/rt.o', '-o', sim, '-ldl'], 'link simulator')
    for n in unit_names:        # only the two binaries are needed from here on
        for x in (f'{outdir}/u_{n}.o', f'{outdir}/u_{n}.cpp'):
            if os.path.exists(x):
                os.remove(x)
    for f in [*pch.values(), gch]:
        if os.path.exists(f):
            os.remove(f)
    if verbose:
        for k, v in sorted(times.items(), key=lambda x: -x[1]):
            print(f'{v:7.1f} {k}')
        print('cpu', sum(times.values()))
    return sim, so, time.time() - t0, dropped


if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2].split(), sys.argv[3:], True))
