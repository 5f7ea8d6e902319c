"""C28: searches start from the requested kernels, and from the documented defaults when nothing is requested."""
from ..search import *
from ..models_lib import modelled
from ..world import World

RULE = ('Abstract interpretation of the start of a search on lists of base kernel names and expressions (unsimplified, nested, with repetitions, parts of larger expressions): the first round fits, in order, one simplified root expression per '
        'given kernel with its covariance; anything else is refused before the first regression model is built. Provenance comparison of a search given data alone with one given the documented defaults (start kernels, rules, criterion, rounds, '
        'beam, restarts, fitter, optimiser, retry limit, messages). Contents of the named collections under each flag combination against what their names and descriptions say; each optimiser name resolves to an optimiser of its own.')
ASSUMPTIONS = ['start kernels given are distinct', 'paramz resolves an optimiser name to the first (in alphabetical order) of its optimisers whose name contains it']

SHAPES = [('S', {'LIN': 1}, []), ('P', {'PER': 1}, []), ('S', {'PER': 1, 'WN': 1}, []), ('P', {'LIN': 2, 'C': 1}, []), ('S', {'WN': 2, 'LIN': 1}, []), ('S', {}, [('P', {'LIN': 1, 'PER': 1}, [])]),
          ('P', {'LIN': 1}, [('S', {'PER': 1, 'C': 1}, [])]), ('CP', 'LIN', 'PER'), ('CW', ('S', {'LIN': 1}, []), ('P', {'PER': 2}, [])), ('S', {'LIN': 1}, [('CP', 'PER', ('S', {'WN': 1, 'C': 1}, []))]),
          ('S', {}, [('CW', 'WN', 'LIN')]), ('P', {}, [('S', {'LIN': 1}, [('P', {'PER': 1, 'WN': 1}, [])])]), ('S', {'C': 1}, [('S', {'PER': 1}, [('S', {'SE': 1}, [])])]), ('P', {'WN': 1, 'PER': 1, 'SE': 1}, [])]
NAMES = ['WN', 'C', 'LIN', 'SE', 'PER']
WRONG = ['XX', 'lin', '', 'LIN + PER', 'S', 'CP', 3, None, ('LIN',), ['LIN', 'PER']]


def more(t, n):
    """One base kernel more often"""
    if isinstance(t, str) or t[0] not in 'SP' or not t[1]: return t
    k = next(iter(t[1]))
    return (t[0], {**t[1], k: n}, t[2])


def t_start(R, flags, part, parts):
    w = world(flags, ('Models.modelSearch', ''))
    s = Setup(w); S = s.S; K = s.K; where = where_of(S.explore_model_space)
    w.lib.hooks.pop('log_likelihood', None)
    def bad(msg): raise Violation('start', where, msg)
    pool = [(n, ('S', {n: 1}, [])) for n in NAMES] + [('expr', t) for t in SHAPES]
    pool = pool[part::parts]
    def run(given, rounds=0):
        fits = []
        def fitter(X, Y, k_exprs, restarts, optimiser='lbfgsb', max_retries=1):
            k_exprs = list(k_exprs); fits.append(k_exprs)
            return S.fit_mods_not_parallel(X, Y, k_exprs, restarts, optimiser, max_retries)
        def no_rule(node): return []
        res = S.explore_model_space(X, Y, start_kernels=given, p_rules=[no_rule], utility_function=lambda m, ll, n, k: 1 * len(fits), rounds=rounds, beam=[1], restarts=2, model_list_fitter=fitter, optimiser='lbfgsb', max_retries=0, verbose=False)
        return fits, res
    def compare(got, specs, what):
        if len(got) != len(specs): bad(f'{len(specs)} start kernels give {len(got)} {what}')
        for x, t in zip(got, specs):
            K.well_formed(x, 'start', where)
            r = K.read(x)
            if not same(normal(r, K.off, False), normal(t, K.off, False)): bad(f'{show(t)} becomes {show(r)} among the {what}')
            if not same(r, normal(r, K.off, True)): bad(f'{show(t)} is fitted as {show(r)}, which is not simplified')
    def go():
        n = choose('how many', [1, 2, 3])
        picks = []
        i = choose('first', list(range(len(pool))))
        picks = [pool[(i + j * 3) % len(pool)] for j in range(min(n, len(pool)))]
        symbolic = choose('multiplicities', [0, 2, 3])
        nested = choose('part of a larger expression', [False, True])
        specs, given = [], []
        for how, t in picks:
            if how != 'expr': specs.append(t); given.append(how); continue
            if symbolic: t = more(t, symbolic)
            admissible(t)
            x = K.build(t)
            if nested: outer = K.Sum(['LIN'], [K.Prod(['PER'], [x])]); x = next((c for p in outer.composite_terms for c in p.composite_terms if same(K.read(c), t)), x)
            specs.append(t); given.append(x)
        if len(given) != len({show(normal(t, K.off, False)) for t in specs}): raise Infeasible('assumption')   # distinct start kernels
        fits, res = run(given)
        if len(fits) != 1: bad(f'{len(fits)} lists of models are fitted before the first round')
        compare(fits[0], specs, 'fits')
        compare(list(res[2]), specs, 'tested expressions')
        if len(res[0]) != len(specs) or len(res[1]) != 1 or len(res[1][0]) != len(specs): bad(f'{len(specs)} start kernels give {len(res[0])} models')
        for a in fits[0]:
            if any(a is g for g in given): bad('a given expression itself is fitted')
    R.explore('start', go, w, max_paths=6000)
    if part: return
    def wrong():
        v = choose('not a kernel', WRONG); at = choose('at', [0, 1])
        given = ['LIN', K.build(SHAPES[2])]; given.insert(at, v)
        before = sum(1 for c in w.lib.calls if c[0] == 'GPRegression')
        try: run(given)
        except (Violation, Infeasible): raise
        except Exception as e:
            if not modelled_kind(e): raise
            if sum(1 for c in w.lib.calls if c[0] == 'GPRegression') != before: bad(f'{v!r} is refused after fitting')
            return
        bad(f'the start kernel {v!r} is accepted')
    R.explore('refused', wrong, w)


def modelled_kind(e): return isinstance(e, (ValueError, TypeError, KeyError, AttributeError, AssertionError)) and getattr(e, '__sa_tb__', None) is not None


DOC = dict(rounds=2, beam=[3, 2, 1], restarts=5, max_retries=1)

def t_defaults(R, order):
    """README: 'Main function call with default arguments'.  The named collections are replaced, in place, by marked ones before the call."""
    w = World({})
    for m in ('Models.modelSearch', ''): w.import_module('GPy_ABCD.' + m if m else 'GPy_ABCD')
    s = Setup(w); S = s.S; K = s.K; where = where_of(S.explore_model_space)
    G = w.import_module('GPy_ABCD.KernelExpansion.grammar'); M = w.import_module('GPy_ABCD.Util.modelUtil')
    def bad(msg): raise Violation('defaults', where, msg)
    ruled = []
    GRAPH = {0: [3, 4, 5], 1: [6, 7], 2: [8], 9: [10], 3: [11, 12], 4: [13], 5: [14], 6: [15]}
    def marked(g):
        def rule(node):
            i = s.key(node.root); ruled.append((g, i))
            return [[s.expr(j)._initialise() for j in GRAPH.get(i, [])]]
        return rule
    for g in G.production_rules: G.production_rules[g][:] = [marked(g)]
    for g in G.start_kernels: G.start_kernels[g][:] = [s.expr(i)._initialise() for i in ((0, 1, 2, 9) if g == 'Default' else (9,))]
    def trace(call):
        w.lib.calls.clear(); ruled.clear()
        w.lib.cpus = None
        def loglik(m):
            # scores fall or rise with the order of the fits, or a little of both
            i = next((j for j, c in enumerate(c for c in w.lib.calls if c[0] == 'GPRegression') if c[1] is m), 0)
            return Num.of({'first': -i, 'last': i, 'mixed': (i * 7919) % 101}[order] * 1000)
        w.lib.hooks['log_likelihood'] = loglik
        a = len(w.interp.out)
        res = call()
        out = ''.join(map(str, w.interp.out[a:]))
        fits = [(d['num_restarts'], d['kw'].get('optimizer')) for k, m, d in w.lib.calls if k == 'optimize_restarts']
        return fits, [s.keys(r) for r in res[1]], {m.cached_utility_function_type for m in res[0]}, [m.cached_utility_function for m in res[0]], s.keys(res[3]), list(ruled), out, sum(1 for c in w.lib.calls if c[0] == 'Pool')
    def go():
        plain = trace(lambda: S.explore_model_space(X, Y))
        full = trace(lambda: S.explore_model_space(X, Y, start_kernels=G.start_kernels['Default'], p_rules=G.production_rules['Default'], utility_function=M.BIC, rounds=2, beam=[3, 2, 1], restarts=5,
                                                   model_list_fitter=S.fit_mods_parallel_processes, optimiser=M.GPy_optimisers[0], max_retries=1, verbose=True))
        for a, b, what in zip(plain, full, ('restarts and optimisers of the fits', 'models of each round', 'criterion', 'scores', 'expanded models', 'applications of rules', 'messages', 'pools of processes')):
            if what == 'scores': ok = len(a) == len(b) and all(Num.of(p).same(Num.of(q)) for p, q in zip(a, b))
            else: ok = a == b
            if not ok: bad(f'without settings the {what} are {str(a)[:300]}, with the documented defaults {str(b)[:300]}')
        fits, rounds, kinds, _, expanded, rules, out, pools = plain
        if any(r != 5 or o != 'lbfgsb' for r, o in fits) or len(rounds) != 3 or kinds != {'BIC'} or len(expanded) != 5 or {g for g, _ in rules} != {'Default'} or sorted(rounds[0]) != [0, 1, 2, 9]:
            bad(f'the documented defaults are not those in force: fits {sorted(set(fits))}, {len(rounds) - 1} rounds, scored by {kinds}, {len(expanded)} models expanded by the rules {sorted({g for g, _ in rules})}, from {rounds[0]}')
        if not out: bad('a search prints nothing although it is verbose by default')
    R.explore('defaults', go, w)


def t_retries(R):
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); S = s.S; K = s.K
    M = w.import_module('GPy_ABCD.Util.modelUtil')
    def go():
        what = choose('function', ['search', 'fit_one_model', 'fit_mods_not_parallel', 'fit_mods_parallel_processes'])
        f = S.explore_model_space if what == 'search' else getattr(S, what)
        n = [0]
        def opt(m, kw): n[0] += 1; seen.append((kw['num_restarts'], kw['kw'].get('optimizer'))); raise modelled(ArithmeticError('fit failed'))
        seen = []
        w.lib.hooks['optimize_restarts'] = opt
        k = [K.build(SHAPES[2])._initialise()]
        try:
            if what == 'search': f(X, Y, k)
            elif what == 'fit_one_model': f(X, Y, k[0], 4)
            else: f(X, Y, k)
        except ArithmeticError: pass
        finally: w.lib.hooks.pop('optimize_restarts', None)
        if n[0] != 2: raise Violation('defaults', where_of(f), f'a failing fit is attempted {n[0]} times by {what} without a retry limit given (documented default: one retry)')
        want = 4 if what == 'fit_one_model' else 5
        if any(r != want or o != 'lbfgsb' for r, o in seen): raise Violation('defaults', where_of(f), f'{what} fits with (restarts, optimiser) {seen} without settings')
    R.explore('retries', go, w)


RULES = {'All': ['plus_base', 'times_base', 'replace_base', 'change_new_base', 'change_same', 'change_point_linear', 'change_window_constant', 'change_window_linear', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term', 'try_higher_curves'],
         'Original_ABCD': ['plus_base', 'times_base', 'replace_base', 'change_same', 'change_window_constant', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term'],
         'Minimal': ['plus_base', 'times_base', 'replace_base', 'change_same'],
         'Default': ['plus_base', 'times_base', 'replace_base', 'change_point_linear', 'change_window_linear', 'times_shifted_base', 'replace_with_singleton', 'remove_some_term']}
TYPES = {'basic': RULES['All'][:3], 'change': RULES['All'][3:8], 'heuristic': RULES['All'][8:]}
OPTIMISERS = ['lbfgsb', 'org-bfgs', 'fmin_tnc', 'scg', 'simplex', 'adadelta', 'rprop', 'adam']


def t_collections(R, flags):
    w = world(flags, ('Models.modelSearch', ''))
    K = KE(w); G = w.import_module('GPy_ABCD.KernelExpansion.grammar'); M = w.import_module('GPy_ABCD.Util.modelUtil'); top = w.import_module('GPy_ABCD')
    C = cfg_str(flags)
    def rules():
        wh = 'GPy_ABCD/KernelExpansion/grammar.py production_rules'
        for kind, names in TYPES.items():
            d = G.production_rules_by_type.get(kind)
            if d is None or set(d) != set(names): raise Violation('collections', wh, f'the rules of type {kind} are {sorted(d) if d is not None else None}')
            for n, f in d.items():
                if getattr(f, '__name__', n) != n or f is not getattr(G, n, f): raise Violation('collections', wh, f'the rule listed as {n} is another one')
        table = {n: f for d in G.production_rules_by_type.values() for n, f in d.items()}
        for g, names in RULES.items():
            fs = G.production_rules.get(g)
            got = sorted(next((n for n, h in table.items() if h is f), '?') for f in fs) if fs is not None else None
            if got != sorted(names): raise Violation('collections', wh, f'the group {g} holds {got}')
        if top.production_rules is not G.production_rules or top.start_kernels is not G.start_kernels: raise Violation('collections', 'GPy_ABCD/__init__.py', 'the exported collections are others')
    R.explore('rules', rules, w)
    def starts():
        off = K.off
        base = [('S', {b: 1}, []) for b in ('WN', 'C', 'LIN', 'PER')]
        generic = [('P', {'LIN': 2}, []), ('P', {'LIN': 3}, []), ('S', {'PER': 1, 'C': 1}, [])]
        B = ('WN', 'C', 'LIN', 'PER')
        changes = [(c, 'LIN', 'LIN') for c in ('CP', 'CW')]
        extra = [] if off else [('S', {'LIN': 1, 'C': 1}, [])]
        want = {'Default': base + generic + changes + extra, 'Extended': base + generic + [('S', {'C': 1}, [c]) for c in changes] + extra, 'Original_ABCD': base[:1] + extra}
        for g, ts in want.items():
            wh = f'GPy_ABCD/KernelExpansion/grammar.py start_kernels[{g!r}]'
            ks = G.start_kernels.get(g)
            if ks is None: raise Violation('collections', wh, 'missing')
            ts = sorted(str(show(normal(t, off, False))) for t in ts); got = sorted(str(show(norm_of(K, k))) for k in ks)
            if ts != got: raise Violation('collections', wh, f'{got} instead of {ts} under {C}')
    R.explore('start kernels', starts, w)
    def optimisers():
        o = list(M.GPy_optimisers)
        if sorted(o) != sorted(OPTIMISERS) or o[0] != 'lbfgsb': raise Violation('collections', 'GPy_ABCD/Util/modelUtil.py GPy_optimisers', f'the optimisers are {o}')
        if top.GPy_optimisers is not M.GPy_optimisers and list(top.GPy_optimisers) != o: raise Violation('collections', 'GPy_ABCD/__init__.py', 'the exported optimisers are others')
    R.explore('optimisers', optimisers, w)
    def exports():
        S = w.import_module('GPy_ABCD.Models.modelSearch')
        for m, ns in ((S, ['explore_model_space', 'model_search_rounds', 'fit_one_model', 'fit_mods_not_parallel', 'fit_mods_parallel_processes']), (M, ['BIC', 'AIC', 'AICc', 'fit_kex', 'fit_GPy_kern', 'model_printout'])):
            for n in ns:
                if getattr(top, n, None) is not getattr(m, n): raise Violation('collections', 'GPy_ABCD/__init__.py', f'{n} is not exported as documented')
        if set(top.base_kerns) != set(NAMES) or set(top.base_sigmoids) != {'S', 'Sr', 'SI', 'SIr'} or top.SumKE is not K.Sum or top.ProductKE is not K.Prod or top.ChangeKE is not K.Change: raise Violation('collections', 'GPy_ABCD/__init__.py', 'an exported class or set is another')
    R.explore('exports', exports, w)


def norm_of(K, k):
    r = normal(K.read(k), K.off, False)
    return r


def tasks(tier):
    T = [(f'collections {"".join(str(int(v)) for v in c.values())}', 't_collections', (c,)) for c in all_cfgs()]
    n = 4
    for off in (True, False): T += [(f'start offsets={off} {p}', 't_start', (cfg(off=off), p, n)) for p in range(n)]
    T += [(f'defaults {o}', 't_defaults', (o,)) for o in (('first', 'mixed') if tier == 'quick' else ('first', 'last', 'mixed'))]
    return T + [('retries', 't_retries', ())]
