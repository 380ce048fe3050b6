"""Translation units of the workload library: which operation tables, for which scalar types."""
CT = {'i': 'int', 'f': 'float', 'd': 'double', 'b': 'bool', 'u': 'unsigned', 'l': 'long long', 'q': 'unsigned long long'}


UNOPT = 'z'          # name suffix of a unit that is compiled without optimisation
GNU = 'g'            # name suffix of a unit that is compiled by gcc


def U(name):
    """unit name -> (header, statement inside dsga_sim_register)"""
    p = name.split('_')
    if p[-1] in (UNOPT, GNU):
        p = p[:-1]
    k = p[0]
    if k == 'obj':                      # obj_i
        return 'objs.hpp', f'reg_objs<{CT[p[1]]}>(*R);'
    if k == 'a':                        # a_V_i_4_0 ; a_V_i_3 (all first letters)
        K, t, s = p[1], CT[p[2]], p[3]
        fs = p[4] if len(p) > 4 else '0123'[:int(s)]
        return 'tab_a.hpp', ' '.join(f'TabAAll<K_{K}, {t}, {s}, {f}>::reg(*R);' for f in fs)
    if k == 'asg':                      # asg_i_3
        return 'tab_b.hpp', f'TabB<{CT[p[1]]}>::reg_assign<{p[2]}>(*R);'
    if k == 'cmpd' or k == 'bin':       # cmpd_i_3_A_full
        ops = {'A': 'FList<OpAdd, OpSub>', 'B': 'FList<OpMul, OpDiv>', 'C': 'FList<OpMod, OpShl>', 'D': 'FList<OpShr, OpAnd>', 'E': 'FList<OpOr, OpXor>', 'F': 'FList<OpAdd, OpSub, OpMul, OpDiv>',
               'G': 'FList<OpMod, OpShl, OpShr, OpAnd, OpOr, OpXor>', 'S': 'FList<OpSub>', 'M': 'FList<OpMul>', 'V': 'FList<OpDiv>', 'T': 'FList<OpAdd>'}[p[3]]
        full = 'true' if len(p) > 4 else 'false'
        return 'tab_b.hpp', f'TabB<{CT[p[1]]}>::reg_{k}<{p[2]}, {ops}, {full}>(*R);'
    if k in ('fp1', 'fp2', 'num', 'bool', 'misc'):    # num_i_3 / num_i_3_full
        light = 'false' if len(p) > 3 else 'true'
        return 'tab_c.hpp', f'TabC<{CT[p[1]]}, {light}>::reg_{k}<{p[2]}>(*R);'
    if k == 'm':                        # m_f_3_4
        return 'tab_m.hpp', f'TabM<{CT[p[1]]}, {p[2]}, {p[3]}>::reg(*R);'
    if k in ('walk', 'callback', 'copy', 'handle'):   # walk_i_3[_full]
        t, n = CT[p[1]], p[2]
        fl = f'FormsL<{t}, {n}, true>' if len(p) > 3 or k == 'copy' else f'FormsM<{t}, {n}>'
        body = f'for_forms(typename {fl}::dst{{}}, [&]<class F>() {{ TabI<F>::reg_{k}(*R); }}); for_forms(typename {fl}::src{{}}, [&]<class F>() {{ if constexpr (!F::wr || F::K == K_C) TabI<F>::reg_{k}(*R); }});'
        return 'tab_i.hpp', body
    if k == 'known':                    # known_i_4
        t, s = CT[p[1]], p[2]
        return 'tab_i.hpp', f'KnownAll<{t}, {s}>::reg(*R);'
    if k == 'index':                    # index_i_3
        t, n = CT[p[1]], p[2]
        return 'tab_x.hpp', f'for_forms(typename FormsL<{t}, {n}, true>::dst{{}}, [&]<class F>() {{ TabX<F>::reg_index(*R); }}); for_forms(typename FormsL<{t}, {n}, false>::src{{}}, [&]<class F>() {{ if constexpr (!F::wr) TabX<F>::reg_index(*R); }});'
    if k == 'null':                     # null_i_3
        t, n = CT[p[1]], p[2]
        return 'tab_x.hpp', f'for_forms(typename FormsL<{t}, {n}, true>::dst{{}}, [&]<class F>() {{ if constexpr (F::K == K_W) TabX<F>::template reg_null_view<typename F::obj_t>(*R); }});'
    if k == 'vswap':                    # vswap_i
        t = CT[p[1]]
        return 'tab_x.hpp', ' '.join(f'TabX<Whole<K_{K}, {t}, {n}>>::reg_swap(*R);' for K in 'VWY' for n in range(1, 5))
    if k == 'swz':                      # swz_i (needs DSGA_DISABLE_ASSERTS)
        t, n = CT[p[1]], p[2]
        return 'tab_x.hpp', f'for_forms(typename FormsL<{t}, {n}, true>::dst{{}}, [&]<class F>() {{ TabX<F>::reg_swizzle_throw(*R); }}); for_forms(typename FormsL<{t}, {n}, true>::src{{}}, [&]<class F>() {{ if constexpr (!F::wr) TabX<F>::reg_swizzle_throw(*R); }});'
    if k == 'mixed':                    # mixed_d_i_3
        t, u, n = CT[p[1]], CT[p[2]], p[3]
        return 'tab_x.hpp', f'for_forms(typename FormsL<{t}, {n}, true>::dst{{}}, [&]<class F>() {{ TabX<F>::template reg_mixed<{u}>(*R); }});'
    if k == 'ext':                      # ext_i_3[_full]
        t, n = CT[p[1]], p[2]
        fl = f'FormsL<{t}, {n}, true>' if len(p) > 3 else f'FormsM<{t}, {n}>'
        return 'tab_d.hpp', f'for_forms(typename {fl}::dst{{}}, [&]<class F>() {{ TabD<F>::reg(*R); }}); for_forms(typename {fl}::src{{}}, [&]<class F>() {{ if constexpr (!F::wr) TabD<F>::reg(*R); }});'
    if k == 'more':                     # more_i_3: the unusual access paths
        t, n = CT[p[1]], p[2]
        return 'tab_e.hpp', f'for_forms(typename FormsL<{t}, {n}, false>::dst{{}}, [&]<class F>() {{ TabE<F>::reg(*R); }}); for_forms(typename FormsL<{t}, {n}, false>::src{{}}, [&]<class F>() {{ if constexpr (!F::wr) TabE<F>::reg(*R); }});'
    if k == 'sc':                       # sc_f_3: scalar overloads
        t, n = CT[p[1]], p[2]
        return 'tab_e.hpp', f'for_forms(Pick<typename Forms<{t}, {n}>::dst, 0, 2>::type{{}}, [&]<class F>() {{ TabSc<F>::reg(*R); }});'
    if k == 'reb':                      # reb_i_2: rebinding scripts
        return 'tab_f.hpp', f'TabF<Whole<K_V, {CT[p[1]]}, 4>, {p[2]}>::reg_all(*R);'
    if k == 'em':                       # em_f_3_4
        return 'tab_e.hpp', f'TabEM<{CT[p[1]]}, {p[2]}, {p[3]}>::reg(*R);'
    if k == 'btw':                      # btw_i_d_3
        t, u, n = CT[p[1]], CT[p[2]], p[3]
        return 'tab_d.hpp', f'for_forms(typename FormsL<{t}, {n}, false>::src{{}}, [&]<class F>() {{ TabD<F>::template reg_between<{u}>(*R); }});'
    if k == 'dm':                       # dm_f_3_4
        return 'tab_d.hpp', f'TabDM<{CT[p[1]]}, {p[2]}, {p[3]}>::reg(*R);'
    if k == 'xm':                       # xm_f_3_4
        return 'tab_x.hpp', f'TabXM<{CT[p[1]]}, {p[2]}, {p[3]}>::reg(*R);'
    raise SystemExit('unknown unit ' + name)


COST = {}


def cost(name):
    k = [x for x in name.split('_') if x not in (UNOPT, GNU)]
    base = {'a': 4, 'asg': 5, 'cmpd': 5, 'bin': 5, 'walk': 6, 'callback': 4, 'copy': 4, 'handle': 6, 'misc': 4, 'm': 5, 'null': 6, 'index': 5, 'mixed': 5, 'more': 7}.get(k[0], 2)
    if k[-1] == 'full':
        base *= 2.5
    if k[0] == 'a' and len(k) > 4:
        base *= 1.5
    return base
