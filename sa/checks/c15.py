"""C15: every stage agrees on the kernels and their parameters under every configuration."""
from ..fitted import *
from ..rules import *
from ..models_lib import Param, Kern

RULE = ('Abstract interpretation of the initialisation of every module under each of the 32 flag combinations, then of the whole pipeline per base kernel and per change kernel of the loaded tables. Obligations: every module loads; '
        'the parameter table names exactly the parameters of the kernel that is built, under the name it is built with; the flags select the documented kernel variants (offset, pure periodicity, slopes); each base kernel, alone, '
        'repeated, in a sum, a product and on either side of both changes can be built, fitted, matched, expanded into products and described; the default start kernels and rule groups are admissible, '
        'expand, and never generate an excluded kernel.')
ASSUMPTIONS = ['the independent-sides change-window option: fitting and matching only (its kernel is not a two-part one)']

ALL = ('', 'KernelExpressions.all', 'KernelExpansion.grammar', 'KernelExpansion.kernelInterpretation', 'Models.model', 'Models.modelSearch', 'Util.dataAndPlottingUtil', 'Util.kernelUtil', 'Util.modelUtil', 'Util.genericUtil', 'Kernels.baseKernels',
       'Kernels.changeOperators', 'Kernels.changeWindowShiftedSides', 'Kernels.changeWindowThreePart')

FLAGN = dict(zip(['se', 'off', 'nonpure', 'fix', 'indep'], FLAGS))


def flag(w, n): return w.get('config').__dict__[FLAGN[n]]


def t_load(R, flags):
    w = World(flags)
    def go():
        for m in ALL:
            try: w.import_module('GPy_ABCD.' + m if m else 'GPy_ABCD')
            except ModuleNotFoundError as e:
                if m and m in ('', 'KernelExpressions.all', 'KernelExpansion.grammar', 'Models.modelSearch'): raise
    R.explore('loads', go, w)


def t_tables(R, flags):
    w = world(flags, ('KernelExpressions.all', 'KernelExpansion.grammar', 'Models.model'))
    bk = w.import_module('GPy_ABCD.Kernels.baseKernels'); ops = w.import_module('GPy_ABCD.KernelExpansion.kernelOperations'); G = w.import_module('GPy_ABCD.KernelExpansion.grammar')
    K = KE(w)
    off, fix, se, nonpure, indep = (flag(w, n) for n in ('off', 'fix', 'se', 'nonpure', 'indep'))
    C = cfg_str(flags)
    wh = 'GPy_ABCD/KernelExpansion/kernelOperations.py base_k_param_names'
    def names(k): return {p.name for p in k.parameters if isinstance(p, Param)}
    def tables():
        if set(bk.base_kerns) != set(KINDS): raise Violation('tables', 'GPy_ABCD/Kernels/baseKernels.py base_kerns', f'the base kernels are {sorted(bk.base_kerns)}')
        for b in KINDS:
            k = ops.base_str_to_ker(b); row = ops.base_k_param_names[b]
            if k is ops.base_str_to_ker(b): raise Violation('tables', where_of(ops.base_str_to_ker), f'{b} is the same kernel object each time')
            if row['name'] != k.name: raise Violation('tables', wh, f'{b}: kernels are named {k.name} and looked up as {row["name"]} under {C}')
            if sorted(row['parameters']) != sorted(names(k)): raise Violation('tables', wh, f'{b}: kernels have parameters {sorted(names(k))}, looked up are {sorted(row["parameters"])} under {C}')
        if ('offset' in names(bk.LIN())) != off: raise Violation('flags', where_of(bk.LIN), f'the linear kernel has parameters {sorted(names(bk.LIN()))} under {C}')
        if names(bk.PER()) != {'variance', 'period', 'lengthscale'}: raise Violation('flags', where_of(bk.PER), f'the periodic kernel has parameters {sorted(names(bk.PER()))}')
        pure = type(bk.PER()) is not w.import_module('GPy.kern').StdPeriodic
        if pure == nonpure: raise Violation('flags', where_of(bk.PER), f'the periodic kernel is {"purely" if pure else "not purely"} periodic under {C}')
        for n in ('S', 'Sr', 'SI', 'SIr'):
            k = getattr(bk, n)(); want = {'location'} | (set() if fix else {'slope'}) | ({'width'} if n in ('SI', 'SIr') else set())
            if names(k) - {'variance'} != want: raise Violation('flags', where_of(getattr(bk, n)), f'the kernel {n} has parameters {sorted(names(k))} under {C}')
            if bool(k.reverse if hasattr(k, 'reverse') else n.endswith('r')) != n.endswith('r'): raise Violation('flags', where_of(getattr(bk, n)), f'the kernel {n} has the wrong direction')
        for n in ('CP', 'CW'):
            k = ops.base_str_to_ker_func[n](bk.WN(), bk.LIN()); row = ops.base_k_param_names[n]; own = names(k)
            if n == 'CW' and indep: own -= {'shift_variance'}
            if row['name'] != k.name: raise Violation('tables', wh, f'{n}: kernels are named {k.name} and looked up as {row["name"]} under {C}')
            if set(row['parameters']) != own: raise Violation('tables', wh, f'{n}: kernels have parameters {sorted(own)}, looked up are {sorted(row["parameters"])} under {C}')
            if ('slope' in own) == fix: raise Violation('flags', where_of(getattr(bk, n)), f'{n} has parameters {sorted(own)} under {C}')
            sides = [type(p) for p in k.parameters if isinstance(p, Kern)]
            if sides != [type(bk.WN()), type(bk.LIN())]: raise Violation('tables', where_of(getattr(bk, n)), f'{n}(WN, LIN) links {[s.__name__ for s in sides]}')
        for n in ('stationary_kerns', 'non_stationary_kerns', 'base_sigmoids'):
            v = set(getattr(bk, n)); want = {'stationary_kerns': {'WN', 'C', 'SE', 'PER'}, 'non_stationary_kerns': {'LIN', 'S', 'Sr', 'SI', 'SIr'}, 'base_sigmoids': {'S', 'Sr', 'SI', 'SIr'}}[n]
            if v != want: raise Violation('tables', f'GPy_ABCD/Kernels/baseKernels.py {n}', f'{n} are {sorted(v)}')
    R.explore('tables', tables, w)

    table = {n: f for d in G.production_rules_by_type.values() for n, f in d.items()}
    def groups():
        if {id(f) for f in G.production_rules['All']} != {id(f) for f in table.values()} or len(G.production_rules['All']) != len(table):
            raise Violation('groups', 'GPy_ABCD/KernelExpansion/grammar.py production_rules', "the group 'All' is not all the rules")
        for n, fs in G.production_rules.items():
            for f in fs:
                if not any(f is g for g in table.values()): raise Violation('groups', 'GPy_ABCD/KernelExpansion/grammar.py production_rules', f'the group {n} contains {f!r}, which is not among the rules by type')
            if len({id(f) for f in fs}) != len(fs): raise Violation('groups', 'GPy_ABCD/KernelExpansion/grammar.py production_rules', f'the group {n} contains a rule twice')
        for n, ks in G.start_kernels.items():
            seen = []
            for k in ks:
                K.well_formed(k, 'start', f'GPy_ABCD/KernelExpansion/grammar.py start_kernels[{n!r}]')
                t = ints(K.read(k)); c = ints(normal(t, K.off))
                if not same(t, c): raise Violation('start', f'GPy_ABCD/KernelExpansion/grammar.py start_kernels[{n!r}]', f'{show(t)} is not in canonical form under {C}')
                if not se and 'SE' in leaves(t): raise Violation('start', f'GPy_ABCD/KernelExpansion/grammar.py start_kernels[{n!r}]', f'{show(t)} contains the excluded SE kernel')
                if any(same(t, s) for s in seen): raise Violation('start', f'GPy_ABCD/KernelExpansion/grammar.py start_kernels[{n!r}]', f'{show(t)} is there twice under {C}')
                seen.append(t)
            if not off and not any(same(t, ('S', {'LIN': 1, 'C': 1}, [])) for t in seen): raise Violation('start', f'GPy_ABCD/KernelExpansion/grammar.py start_kernels[{n!r}]', f'LIN + C is missing under {C}')
        if not seen: raise Violation('start', 'GPy_ABCD/KernelExpansion/grammar.py start_kernels', 'no start kernels')
    R.explore('groups', groups, w)

    def generated():
        n = choose('rule', list(table)); t = choose('expression', [('S', {'LIN': 1}, []), ('P', {'LIN': 2}, []), ('S', {'PER': 1, 'WN': 1}, []), ('CP', 'LIN', ('P', {'PER': 1, 'LIN': 1}, []))])
        x = G.make_simple_kexs([K.build(t)])[0]
        got = set()
        for r in G.expand(x, [table[n]]):
            r = ints(K.read(r)); got |= leaves(r)
        if not se and 'SE' in got: raise Violation('generated', where_of(table[n]), f'{n} generates the excluded SE kernel under {C}')
        if n in ('plus_base', 'replace_base', 'replace_with_singleton') and t[0] == 'S' and not set(KINDS) - ({'SE'} if not se else set()) <= got | ({'C'} if off and n == 'plus_base' else set()): raise Violation('generated', where_of(table[n]), f'{n} generates only {sorted(got)} from {show(t)} under {C}')
        if n in ('times_base', 'change_new_base') and not set(KINDS) - {'C'} - ({'SE'} if not se else set()) <= got: raise Violation('generated', where_of(table[n]), f'{n} generates only {sorted(got)} from {show(t)} under {C}')
    R.explore('generated', generated, w)


def leaves(t):
    if isinstance(t, str): return {t}
    if t[0] in 'SP': return {k for k, v in t[1].items() if v} | {x for c in t[2] for x in leaves(c)}
    return leaves(t[1]) | leaves(t[2])


def t_pipeline(R, flags, part, parts):
    w = world(flags, ('KernelExpressions.all', 'KernelExpansion.grammar', 'Models.model'))
    K = KE(w); KK = Kernels(w); indep = flag(w, 'indep'); C = cfg_str(flags)
    shapes = []
    for a in KINDS:
        shapes += [('S', {a: 1}, []), ('S', {a: 2}, []), ('P', {a: 2}, []), ('P', {a: 1, 'LIN': 1}, []) if a != 'LIN' else ('P', {'LIN': 3}, []), ('CP', a, a), ('CW', a, a), ('CP', 'LIN', a), ('CW', a, 'PER'),
                   ('S', {a: 1}, [('CP', a, 'WN')]), ('P', {a if a != 'C' else 'SE': 1}, [('S', {'PER': 1, 'LIN': 1}, [])]), ('CP', ('CW', a, 'LIN'), ('P', {'LIN': 1, 'PER': 1}, []))]
        if a != 'PER': shapes.append(('S', {a: 1, 'PER': 1}, []))
    for t in shapes[part::parts]:
        if t[0] in 'SP' and not t[2] and not trees.Gen(KINDS, K.off).ok(t): continue
        def go():
            m, x = fit(w, K, t)
            desc = show(K.read(x)) + f' under {C}'
            from copy import deepcopy
            y = deepcopy(x); y = w.get('KernelExpansion.kernelOperations:fit_ker_to_kex_with_params')(m.model.kern, y) or y
            if not (indep and 'CW' in repr(t)):
                want, got = single(canon(KK.read(m.model.kern))), single(said(K, y))
                if got != want: raise Violation('pipeline', where_of(type(y).match_up_fit_parameters), f'{desc} is annotated as {got} while the fitted kernel is {want}')
                s = m.sum_of_prods_kex
                d = same_terms([term(*a) for a in sops_terms(K, s)], [term(*a) for a in expand_terms(KK.read(m.model.kern))])
                if d: raise Violation('pipeline', where_of(type(x).sum_of_prods_form), f'for {desc}: {d}')
                text = m.interpret()
                if not isinstance(text, str) or not text: raise Violation('pipeline', where_of(type(x).get_interpretation), f'{desc} is described as {text!r}')
        R.explore('pipeline', go, w, max_paths=400)


def tasks(tier):
    T = []
    every = all_cfgs()
    for i, c in enumerate(every):
        lab = ''.join(str(int(v)) for v in c.values())
        T.append((f'load {lab}', 't_load', (c,))); T.append((f'tables {lab}', 't_tables', (c,)))
        T += [(f'pipeline {lab} {j}', 't_pipeline', (c, j, 3)) for j in range(3)]
    return T
