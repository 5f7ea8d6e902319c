"""C06: data and settings reach every fit."""
from ..search import *
from ..models_lib import Arr, ix, modelled

RULE = ('Provenance analysis by abstract interpretation: data, restarts, optimiser and retry limit are unknown tokens given to the search, its continuation, the model-list fitters and single fits; at every sink (constructor of the '
        'regression model, its optimisation, the model-list fitter, the production rules, the utility function) of every round the value is the very token, on every partition. The sequential and the parallel fitter make the '
        'same sequence of fits and return the models in the order of the expressions, for any number of processor cores.')
ASSUMPTIONS = ['summary of multiprocessing.Pool: results in the order of the arguments, a chunk size below 1 runs nothing', 'universe of expressions as for C05']

N = Num.atom('n', integer=True, pos=True)
FORMS = {'column': lambda a: Arr((N, 1), ix(a, (-2,))), 'flat': lambda a: Arr((N,), ix(a, (-1,))), 'wide': lambda a: Arr((N, 2), ix(a, (-2, -1)))}
NAMES = ['scg', 'lbfgsb', 'adam']
NESTED = [('S', {'WN': 1}, [('P', {'LIN': 1, 'PER': 1}, [])]), ('CP', 'LIN', ('S', {'PER': 1, 'WN': 1}, [])), ('P', {'PER': 1}, [('S', {'LIN': 1, 'C': 1}, []), ('CW', 'LIN', 'LIN')])]


def column(v, given, a):
    """Is v the given data, flat data as a column?"""
    if v is given: return True
    if not isinstance(v, Arr): return False
    w = FORMS['column'](a) if given.ndim == 1 else given
    if len(v.shape) != len(w.shape) or not all(Num.of(p).same(Num.of(q)) for p, q in zip(v.shape, w.shape)): return False
    return repr(v.e) == repr(w.e)

def same(v, t):
    if isinstance(t, Num): return isinstance(v, Num) and v.same(t)
    return v is t or v == t


class Sinks:
    def __init__(self, w, where, X, Y, restarts, optimiser, retries=None):
        self.w = w; self.where = where; self.X = X; self.Y = Y; self.restarts = restarts; self.optimiser = optimiser; self.retries = retries
    def bad(self, msg): raise Violation('settings', self.where, msg)
    def data(self, X, Y, what):
        if not column(X, self.X, 'X'): self.bad(f'{what} gets {X!r} for the inputs {self.X!r}')
        if not column(Y, self.Y, 'Yv'): self.bad(f'{what} gets {Y!r} for the outputs {self.Y!r}')
    def fits(self, n, kw=None, verbose=None):
        a = [c for c in self.w.lib.calls if c[0] == 'GPRegression']; b = [c for c in self.w.lib.calls if c[0] in ('optimize_restarts', 'optimize')]
        if len(a) != n or len(b) != n: self.bad(f'{len(a)} regression models are built and {len(b)} optimised for {n} expressions')
        for _, m, d in a:
            self.data(d['X'], d['Y'], 'a regression model')
            if d.get('normalizer') not in (None, False): self.bad('a regression model is fitted to normalised outputs')
            if d.get('mean_function') is not None: self.bad('a regression model is fitted to outputs less a mean function')
        for k, m, d in b:
            if k != 'optimize_restarts': self.bad('a model is optimised without restarts')
            if not same(d['num_restarts'], self.restarts): self.bad(f'a fit gets {d["num_restarts"]!r} restarts instead of those given')
            o = d['kw'].get('optimizer')
            if not same(o, self.optimiser): self.bad(f'a fit gets the optimiser {o!r} instead of {self.optimiser!r}')
            for x, v in (kw or {}).items():
                u = d['kw'].get(x, d.get(x))
                if not same(u, v): self.bad(f'a fit gets {x} = {u!r} instead of {v!r}')
        return a, b


def setting(w):
    x = FORMS[choose('inputs', list(FORMS))]('X'); y = FORMS[choose('outputs', list(FORMS))]('Yv')
    return x, y, Num.atom('restarts', integer=True, pos=True), choose('optimiser', NAMES), Num.atom('retries', integer=True, pos=True)


def t_search(R, graph, start, rounds, beam, inner):
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); S = s.S
    where = where_of(S.explore_model_space)
    def go(continued):
        s.arm(distinct=True)
        # a fixed order of the scores: the settings do not depend on it
        for i in range(len(U) - 1): CTX.facts.cons.append(((s.ll(i) - s.ll(i + 1)).n if choose_order else (s.ll(i + 1) - s.ll(i)).n, '<'))
        x, y, restarts, optimiser, retries = setting(w)
        sk = Sinks(w, where, x, y, restarts, optimiser, retries)
        used = []; scored = []; ruled = []
        fit = getattr(S, inner)
        def model_fitter(X, Y, k_exprs, restarts, optimiser='lbfgsb', max_retries=1):
            used.append((X, Y, restarts, optimiser, max_retries))
            k_exprs = list(k_exprs)
            ms = fit(X, Y, k_exprs, restarts, optimiser, max_retries)
            if prescored:
                for m in ms: m.compute_utility(other_score)
            for m, k in zip(ms, k_exprs): s.of_fit[id(m.model)] = s.key(k); s.keep.append(m.model)
            return ms
        def my_score(m, ll, n, k):
            scored.append((m, ll, n, k)); return ll
        others = []
        def other_score(m, ll, n, k): others.append(1); return Num.of(len(others))
        prescored = choose('models scored by the fitter', [False, True])
        ra = s.rules(graph, True)
        def wrap(r, i):
            def rule(node): ruled.append((i, s.key(node.root))); return r(node)
            return rule
        rules = [wrap(r, i) for i, r in enumerate(ra)]
        st = s.start(start); bm = list(beam); kept = [('start kernels', st, list(st)), ('rules', rules, list(rules)), ('beam', bm, list(bm))]
        if not continued: res = S.explore_model_space(x, y, start_kernels=st, p_rules=rules, utility_function=my_score, rounds=rounds, beam=bm, restarts=restarts, model_list_fitter=model_fitter, optimiser=optimiser, max_retries=retries, verbose=False)
        else:
            if x.ndim == 1 or y.ndim == 1: raise Infeasible('assumption')   # a continuation takes the data as the models hold them
            a = S.explore_model_space(x, y, start_kernels=st, p_rules=rules, utility_function=my_score, rounds=1, beam=beam[:1], restarts=restarts, model_list_fitter=model_fitter, optimiser=optimiser, max_retries=retries, verbose=False)
            bm = beam[1:]; kept[2] = ('beam', bm, list(bm))
            res = S.model_search_rounds(x, y, *a, model_fitter, rules, my_score, rounds - 1, bm, restarts, optimiser, retries, False)
        for what, now, was in kept:
            if len(now) != len(was) or any(p is not q for p, q in zip(now, was)): sk.bad(f'the list given for the {what} is changed from {was!r} to {now!r}')
        models = [m for l in res[1] for m in l]
        for X2, Y2, r, o, mr in used:
            sk.data(X2, Y2, 'the fitter')
            if not same(r, restarts): sk.bad(f'the fitter gets {r!r} restarts')
            if not same(o, optimiser): sk.bad(f'the fitter gets the optimiser {o!r} instead of {optimiser!r}')
            if not same(mr, retries): sk.bad(f'the fitter gets the retry limit {mr!r}')
        sk.fits(len(models))
        for m in models:
            if m.cached_utility_function_type != 'my_score': sk.bad(f'a model is scored by {m.cached_utility_function_type}')
            if not any(m.model is c[0] for c in scored): sk.bad('a model is not scored by the given utility function')
        ex = s.keys(res[3])
        for i in range(len(rules)):
            got = {k for j, k in ruled if j == i}
            if got != set(ex): sk.bad(f'production rule {i} is applied to {sorted(got)} while {sorted(ex)} are expanded')
    for choose_order in (True, False):
        R.explore('search', lambda: go(False), w)
        if rounds >= 2: R.explore('continued search', lambda: go(True), w)


def t_fitters(R, n, nested):
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); S = s.S; K = s.K
    w.lib.cpus = None
    def exprs(): return [s.expr(i)._initialise() for i in range(n)] + ([K.build(t)._initialise() for t in NESTED] if nested else [])
    def go():
        s.arm()
        x, y, restarts, optimiser, retries = setting(w)
        if x.ndim == 1 or y.ndim == 1: raise Infeasible('assumption')   # the fitters are given columns
        name = choose('fitter', ['fit_mods_not_parallel', 'fit_mods_parallel_processes'])
        f = getattr(S, name); where = where_of(f)
        sk = Sinks(w, where, x, y, restarts, optimiser)
        ks = exprs()
        ms = f(x, y, ks, restarts, optimiser, retries)
        a, b = sk.fits(len(ks))
        if not isinstance(ms, list) or len(ms) != len(ks): sk.bad(f'{len(ks)} expressions give {ms if not isinstance(ms, list) else len(ms)} models')
        for m, k in zip(ms, ks):
            if m is None or show(K.read(m.kernel_expression)) != show(K.read(k)): sk.bad('the models are not in the order of the expressions')
            if m.model is None: sk.bad('a model is returned unfitted')
        order = [next((i for i, q in enumerate(ms) if q.model is m), None) for _, m, d in b]
        if order != list(range(len(ks))): sk.bad(f'the fits are made in the order {order}')
    R.explore('fitters', go, w, max_paths=20000)
    def faulty():
        # one expression keeps failing: the retry limit given is the one in force
        s.arm()
        x, y, restarts, optimiser, _ = setting(w)
        if x.ndim == 1 or y.ndim == 1: raise Infeasible('assumption')
        retries = choose('retry limit', [0, 1, 3])
        name = choose('fitter', ['fit_mods_not_parallel', 'fit_mods_parallel_processes'])
        f = getattr(S, name); sk = Sinks(w, where_of(f), x, y, restarts, optimiser)
        ks = exprs(); bad = choose('failing', list(range(len(ks)))); attempts = []
        def opt(m, kw):
            n_before = sum(1 for c in w.lib.calls if c[0] == 'optimize_restarts')
            if n_before - 1 >= bad: attempts.append(kw); raise modelled(ArithmeticError('fit failed'))
        w.lib.hooks['optimize_restarts'] = opt
        try: f(x, y, ks, restarts, optimiser, retries)
        except ArithmeticError: pass
        else: sk.bad('a model which cannot be fitted is not reported')
        if len(attempts) != retries + 1: sk.bad(f'a failing fit is attempted {len(attempts)} times with a retry limit of {retries}')
        for kw in attempts:
            if not same(kw['num_restarts'], restarts) or not same(kw['kw'].get('optimizer'), optimiser): sk.bad(f'a fit is retried with {kw["num_restarts"]!r} restarts and {kw["kw"]}')
    if n + (3 if nested else 0): R.explore('retry-limit', faulty, w, max_paths=20000)


SETTINGS = [(), (('max_iters', 17),), (('robust', True),), (('robust', True), ('max_iters', 0), ('messages', True)), (('robust', False), ('messages', False))]

def t_single(R):
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); S = s.S; U_ = w.import_module('GPy_ABCD.Util.modelUtil'); G = w.get('Models.model:GPModel'); K = s.K
    def one():
        x, y, restarts, optimiser, retries = setting(w)
        sk = Sinks(w, where_of(S.fit_one_model), x, y, restarts, optimiser)
        S.fit_one_model(x, y, s.expr(0)._initialise(), restarts, optimiser, retries)
        if x.ndim != 1 and y.ndim != 1: sk.fits(1)
    R.explore('fit_one_model', one, w)
    def kex():
        x, y, restarts, optimiser, retries = setting(w)
        sk = Sinks(w, where_of(U_.fit_kex), x, y, restarts, optimiser)
        scored = []
        def my_score(m, ll, n, k): scored.append(m); return ll
        extra = dict(choose('further settings', SETTINGS))
        m = U_.fit_kex(x, y, s.expr(3), restarts, my_score, optimiser=optimiser, **extra)
        sk.fits(1, extra)
        if scored != [m.model] or m.cached_utility_function_type != 'my_score': sk.bad('the model is not scored by the given function')
    R.explore('fit_kex', kex, w)
    def gp():
        x, y, restarts, optimiser, retries = setting(w)
        sk = Sinks(w, where_of(U_.fit_GPy_kern), x, y, restarts, optimiser)
        k = s.expr(3)._initialise().to_kernel()
        scored = []
        def my_score(m, ll, n, k): scored.append((m, n)); return ll
        m = U_.fit_GPy_kern(x, y, k, restarts, my_score, optimizer=optimiser, **(extra := dict(choose('further settings', SETTINGS))))
        a, b = sk.fits(1, extra)
        if a[0][2]['kernel'] is not k: sk.bad('another kernel is fitted')
        if len(scored) != 1 or scored[0][0] is not m: sk.bad('the model is not scored by the given function')
        if not same(Num.of(scored[0][1]), N): sk.bad(f'the model is scored with {scored[0][1]!r} data points')
    R.explore('fit_GPy_kern', gp, w)
    def fit():
        x, y, restarts, optimiser, retries = setting(w)
        if x.ndim == 1 or y.ndim == 1: raise Infeasible('assumption')
        sk = Sinks(w, where_of(G.fit), x, y, restarts, optimiser)
        m = G(x, y, s.expr(0)._initialise())
        robust = choose('robust', [False, True]); pos = choose('passed', ['by position', 'by name', 'remembered'])
        if pos == 'by position': m.fit(restarts, optimiser, False, robust, max_iters=17, messages=False)
        elif pos == 'by name': m.fit(optimiser=optimiser, restarts=restarts, robust=robust, max_iters=17, messages=False)
        else:
            m.fit(restarts, optimiser); w.lib.calls.clear()
            m.fit(optimiser=optimiser, robust=robust, max_iters=17, messages=False)
        sk.fits(1, {'max_iters': 17, 'messages': False, 'robust': robust})
    R.explore('fit', fit, w)


def tasks(tier):
    T = [(f'{inner} {g} {st} {b}', 't_search', (g, st, r, b, inner)) for inner in ('fit_mods_not_parallel', 'fit_mods_parallel_processes')
         for g, st, r, b in [('tree', (0, 1), 2, [1, 1]), ('merging', (0, 1, 2), 3, [2, 1]), ('tree', (0, 2), 1, [2, 1, 3]), ('barren', (0,), 2, [1, 1])] + ([('chain', (0, 1), 4, [1, 2, 1, 1])] if tier == 'thorough' else [])]
    T += [(f'fitters {n}', 't_fitters', (n, n == 2)) for n in ((0, 1, 2, 3, 5) if tier == 'quick' else (0, 1, 2, 3, 5, 9, 12))]
    return T + [('single', 't_single', ())]
