"""Which workload tables each property's simulation is built from (quick and thorough tiers)."""

TYPES = 'ifdbulq'


def cx(k, t, n):
    """tables of kind k for scalar type t and n components (empty where the kind does not exist for t)"""
    if k in ('cmpd', 'bin'):
        if t == 'b':
            return []
        return [f'{k}_{t}_{n}_{o}' for o in ('F' if t in 'fd' else 'FG')]
    if k in ('fp1', 'fp2') and t not in 'fd':
        return []
    if k == 'num' and t == 'b':
        return []
    if k == 'bool' and t != 'b':
        return []
    if k in ('aV', 'aW', 'aY'):
        return [f'a_{k[1]}_{t}_{n}'] if n > 1 else []
    if k == 'known':
        return [f'known_{t}_{n}'] if n > 1 else []
    if k == 'vswap':
        return [f'vswap_{t}'] if n == 4 else []
    return [f'{k}_{t}_{n}']


CLASSES = ('fd', 'iulq', 'dlq', 'fiu', 'b')


def spread(kinds, full='i', half='f', rest='duqlb'):
    """every kind for type `full` at all sizes, for `half` at two sizes, for the others at one size each, chosen so that
    the floating-point types, the integer types and the types of eight bytes together cover every size"""
    L = []
    for ki, k in enumerate(kinds):
        sizes = (2, 3, 4) if k in ('aV', 'aW', 'aY') else (1, 2, 3, 4)
        got = {c: set() for c in CLASSES}

        def take(t, n):
            u = cx(k, t, n)
            L.extend(u)
            for c in CLASSES:
                if t in c and u:
                    got[c].add(n)
        for n in sizes:
            take(full, n)
        ns = {0: (2, 4), 1: (3, 4), 2: (2, 3), 3: (1, 3)}[ki % 4]
        if k in ('fp1', 'fp2', 'vswap', 'bool', 'aV', 'aW'):
            ns = sizes
        if k == 'aY':
            ns = (2, 3)
        for n in ns:
            take(half, n)
        for ti, t in enumerate(rest):
            if k in ('bool', 'vswap'):
                for n in sizes if k == 'bool' or ti < 2 else ():
                    take(t, n)
                continue
            cand = (2, 3) if k in ('aV', 'aW', 'aY') else sizes
            for twice in range(2):
                def gain(n):
                    return sum((1 if c in ('dlq', 'fiu') else 2) for c in CLASSES if t in c and n not in got[c])
                n = max((cand[(ki + ti + d) % len(cand)] for d in range(len(cand))), key=gain)
                if twice and gain(n) < 2:       # a second size only where its class still lacks one
                    break
                take(t, n)
    return L


def everything(kinds, types=TYPES):
    return [u for k in kinds for t in types for n in (1, 2, 3, 4) for u in cx(k, t, n)]


MAT_Q = ['m_f_2_2', 'm_f_3_3', 'm_f_4_4', 'm_d_2_3', 'm_f_3_4', 'm_d_4_2']
MAT_S = ['m_f_2_2', 'm_f_3_3', 'm_f_4_4', 'm_d_2_3', 'm_f_3_4', 'm_d_4_2', 'm_f_2_4', 'm_d_3_2', 'm_d_4_3']      # every shape
MAT_T = [f'm_{t}_{c}_{r}' for t in 'fd' for c in (2, 3, 4) for r in (2, 3, 4)]
EM_Q = ['em_f_2_2', 'em_d_2_3', 'em_f_3_3', 'em_d_4_3']
EM_S = ['em_f_2_2', 'em_d_2_3', 'em_f_3_3', 'em_d_4_3', 'em_f_4_2', 'em_d_3_2', 'em_f_2_4', 'em_d_3_4', 'em_f_4_4']
EM_T = ['e' + m for m in MAT_T]
SC_Q = [f'sc_{t}_{n}' for t, n in zip(TYPES + 'd', (3, 2, 1, 3, 2, 1, 2, 3))]
SC_T = [f'sc_{t}_{n}' for t in TYPES for n in (1, 2, 3)]
MORE_Q = [f'more_{t}_{n}' for t, n in zip('ifdbulqif', (2, 3, 4, 1, 3, 2, 4, 1, 4))]
MORE_T = MORE_Q + [f'more_{t}_{n}' for t in TYPES for n in (1, 2, 3, 4)]
REB_Q = [f'reb_{t}_{n}' for t, n in zip(TYPES, (1, 2, 3, 1, 3, 2, 1))]
REB_T = [f'reb_{t}_{n}' for t in TYPES for n in (1, 2, 3)]
XM_Q = ['xm_f_2_2', 'xm_f_3_3', 'xm_f_4_4', 'xm_d_2_3', 'xm_f_3_4', 'xm_d_4_2']
XM_T = ['x' + m for m in MAT_T]
MIXED_Q = ['mixed_d_i_2', 'mixed_f_i_3', 'mixed_i_f_4', 'mixed_d_f_3', 'mixed_i_b_2', 'mixed_u_i_3']
MIXED_T = [f'mixed_{a}_{b}_{n}' for a, b in (('d', 'i'), ('f', 'i'), ('i', 'f'), ('d', 'f'), ('i', 'b'), ('u', 'i')) for n in (2, 3, 4)]

DM_Q = ['dm_f_2_3', 'dm_d_3_3', 'dm_f_4_4']
DM_S = ['dm_f_2_3', 'dm_d_3_3', 'dm_f_4_4', 'dm_d_4_2', 'dm_f_3_2', 'dm_d_2_2', 'dm_f_4_3', 'dm_d_3_4', 'dm_f_2_4']
DM_T = ['d' + m for m in MAT_T]
BTW_Q = ['btw_f_d_3', 'btw_d_f_2', 'btw_i_d_2', 'btw_f_i_4', 'btw_u_i_3', 'btw_i_l_4', 'btw_d_i_1', 'btw_i_d_1', 'btw_f_d_1', 'btw_i_l_1']
BTW_T = [f'btw_{a}_{b}_{n}' for a, b in (('f', 'd'), ('d', 'f'), ('i', 'd'), ('f', 'i'), ('u', 'i'), ('i', 'l'), ('d', 'i'), ('i', 'u'), ('d', 'l'), ('q', 'd')) for n in (1, 2, 3, 4)]

WRITE = ['aV', 'aW', 'aY', 'asg', 'cmpd', 'walk', 'callback', 'copy', 'num', 'misc', 'bool', 'fp2', 'ext']
READ = ['aV', 'aW', 'bin', 'num', 'misc', 'bool', 'fp1', 'fp2', 'walk', 'callback', 'copy', 'ext']
ALL = ['aV', 'aW', 'aY', 'asg', 'cmpd', 'bin', 'num', 'misc', 'bool', 'fp1', 'fp2', 'walk', 'callback', 'copy', 'ext']
KNOWN_Q = ['known_i_4', 'known_f_3', 'known_b_2']
KNOWN_T = [f'known_{t}_{n}' for t in TYPES for n in (2, 3, 4)]

# property -> (quick units, thorough units, defines, quick runs, thorough runs per seed)
FOURS = [f'{k}_{t}_4' for k in ('num', 'misc') for t in 'fdiulq']
PLAN = {
    'C01': dict(q=spread(WRITE + ['bin', 'vswap'], 'i', 'f') + MAT_T + KNOWN_Q + DM_S + MORE_Q[:6] + REB_Q[:3], t=everything(ALL + ['vswap']) + MAT_T + KNOWN_T + DM_T + everything(['more']) + EM_T + REB_T),
    'C02': dict(q=spread(READ, 'f', 'i') + MAT_T + DM_S + BTW_Q + MORE_Q + SC_Q + EM_Q, t=everything(ALL) + MAT_T + DM_T + BTW_T + everything(['more']) + SC_T + EM_T),
    'C03': dict(q=spread(WRITE + ['vswap'], 'd', 'i', 'fbulq') + MAT_T + DM_S + MIXED_Q + MORE_Q[:6] + EM_Q[:2], t=everything(WRITE + ['vswap']) + MAT_T + DM_T + MIXED_T + everything(['more']) + EM_T),
    'C04': dict(q=spread(['aV', 'aW', 'asg', 'cmpd', 'num', 'misc', 'fp2', 'walk', 'callback', 'copy', 'vswap', 'ext'], 'i', 'f') + MAT_T + DM_S + MIXED_Q + MORE_Q[:6] + REB_Q[:3], t=everything(WRITE + ['vswap']) + MAT_T + DM_T + MIXED_T + everything(['more']) + EM_T + REB_T),
    'C05': dict(q=spread(['aW', 'asg', 'cmpd', 'bin', 'num', 'misc', 'bool', 'fp1', 'fp2', 'walk', 'callback', 'copy', 'handle', 'vswap', 'ext'], 'f', 'i', 'dbulq') + FOURS + MAT_T + DM_S + BTW_Q + MIXED_Q + KNOWN_Q + MORE_Q + SC_Q + EM_S + REB_Q, t=everything(ALL + ['handle', 'vswap']) + MAT_T + DM_T + BTW_T + MIXED_T + KNOWN_T + everything(['more']) + SC_T + EM_T + REB_T),
    'C06': dict(q=spread(['aW', 'aY', 'asg', 'cmpd', 'walk', 'callback', 'copy', 'num', 'vswap', 'ext'], 'i', 'd', 'fbulq') + MORE_T[:14] + REB_Q, t=everything(ALL + ['vswap']) + everything(['more']) + REB_T),
    'C07': dict(q=everything(['callback']), t=everything(['callback'])),
    'C08': dict(q=everything(['swz'], 'ifdbulq') + everything(['vswap'], 'ifdbulq') + XM_Q + spread(['asg', 'cmpd'], 'i', 'f', 'dbul'), t=everything(['swz', 'vswap', 'asg', 'cmpd', 'num', 'callback']) + XM_T, defines=['DISABLE_ASSERTS']),
    'C09': dict(q=spread(['aV', 'asg', 'cmpd', 'bin', 'num', 'misc', 'bool', 'fp1', 'fp2', 'walk', 'callback', 'copy', 'handle', 'ext'], 'd', 'i', 'fbulq') + MAT_T + DM_S + BTW_Q[:3] + MIXED_Q + MORE_Q[:6] + SC_Q[:3] + EM_Q[:2] + REB_Q[:2], t=everything(ALL + ['handle']) + MAT_T + DM_T + BTW_T + MIXED_T + everything(['more']) + SC_T + EM_T + REB_T),
    'C10': dict(q=spread(ALL, 'i', 'f', 'dbulq') + MAT_T + DM_S + BTW_Q[:3] + MORE_Q[:6] + SC_Q + EM_Q[:2] + REB_Q[:2], t=everything(ALL) + MAT_T + DM_T + BTW_T + everything(['more']) + SC_T + EM_T + REB_T),
    'C11': dict(q=everything(['walk', 'handle'], 'ifdb') + spread(['aV', 'aW', 'walk', 'handle', 'callback'], 'u', 'i', 'lq') + DM_S + MORE_Q + EM_S, t=everything(['aV', 'aW', 'aY', 'walk', 'handle', 'callback', 'asg']) + DM_T + everything(['more']) + EM_T),
    'C12': dict(q=everything(['index', 'null']) + spread(['vswap'], 'u', 'd', 'lq') + XM_Q + spread(['asg', 'walk'], 'i', 'f', ''), t=everything(['index', 'null', 'asg', 'walk', 'num']) + XM_T),
    'C13': dict(q=everything(['copy'], 'ifdbulq') + spread(['aV', 'aW', 'aY', 'asg', 'cmpd', 'walk', 'vswap'], 'i', 'f', 'dbulq') + MAT_T + DM_S + spread(['ext'], 'i', 'f', 'dbulq') + MORE_Q + EM_S + REB_Q, t=everything(ALL + ['vswap']) + MAT_T + DM_T + everything(['more']) + EM_T + REB_T),
    'C14': dict(q=spread(READ + ['asg', 'cmpd'], 'f', 'd', 'ibulq') + MAT_T + DM_S + BTW_Q + MORE_Q[:6] + SC_Q + EM_Q[:2] + REB_Q[:2], t=everything(ALL) + MAT_T + DM_T + BTW_T + MIXED_T + everything(['more']) + SC_T + EM_T + REB_T),
    'C15': dict(q=spread([k for k in ALL if k not in ('aV', 'aY')], 'f', 'i', 'dbuq') + ['a_V_f_3', 'a_V_i_2', 'a_Y_d_3', 'a_Y_i_2'] + MAT_T + DM_S + BTW_Q + MORE_Q[:6] + SC_Q + EM_Q[:2], t=everything(ALL) + MAT_T + DM_T + BTW_T + MIXED_T + everything(['more']) + SC_T + EM_T),
}


# compiled by gcc, which keeps the loops that clang replaces by arithmetic; with a wider bound on the steps
LOOPS = ['num_f_3_g', 'num_l_2_g', 'ext_i_3_g', 'ext_f_2_g', 'misc_d_3_g', 'fp1_f_3_g', 'fp2_d_3_g', 'callback_i_3_g', 'm_f_3_3_g', 'dm_d_3_3_g', 'sc_d_3_g']
OPTIMISED = ('C15',)          # step counts are bounded tightly there, which needs one fixed optimisation level


def plan(prop, tier):
    p = PLAN[prop]
    units = list(dict.fromkeys(p['q' if tier == 'quick' else 't']))
    if prop not in OPTIMISED:
        # every second unit of a kind is compiled without optimisation: there the accesses are those of the source,
        # in the others those an optimising compiler makes of it (thorough: the other way round). Some of the latter
        # are compiled by gcc, which evaluates function arguments in the opposite order
        seen, out = {}, []
        for u in units:
            k = u.split('_')[0]
            seen[k] = seen.get(k, 0 if tier == 'quick' else 1) + 1
            out.append(u + ('_z' if seen[k] % 2 else '_g' if seen[k] % (4 if prop == 'C07' else 8) == 2 else ''))
        units = out
    else:
        units += LOOPS if tier == 'quick' else LOOPS + [f'{k}_{t}_{n}_g' for k in ('num', 'misc', 'ext', 'callback', 'walk') for t in 'iduq' for n in (2, 3)]
        units = list(dict.fromkeys(units))
    types = sorted({t for u in units for t in u.split('_')[1:] if t in TYPES})
    return [f'obj_{t}' for t in types] + units, p.get('defines', [])


def runs(prop, tier):
    return 800000 if tier == 'quick' else 60000000


def seconds(prop, tier):
    """wall-clock cap of the search (a safety net: at the usual speed the run count is reached first in the quick tier)"""
    return 60 if tier == 'quick' else 400


if __name__ == '__main__':
    COST = {'more': 5, 'sc': 3, 'a': {2: 2.1, 3: 5.3, 4: 15.8}, 'misc': 3.7, 'vswap': 4.8, 'walk': 3.2, 'bool': 1.2, 'known': .9, 'xm': .9, 'null': 3, 'obj': 2.7}
    for k in PLAN:
        r = []
        for tier in ('quick', 'thorough'):
            us, _ = plan(k, tier)
            c = 0
            for u in us:
                q = u.split('_')
                x = COST.get(q[0], 2.3)
                c += x[int(q[3])] if isinstance(x, dict) else x
            r.append((len(us), round(c)))
        print(k, *r)
