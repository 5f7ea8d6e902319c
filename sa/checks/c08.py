"""C08: utility scores."""
from ..search import *
from ..num import app
from ..models_lib import NpList

RULE = ('Closed forms extracted by abstract interpretation: BIC, AIC and AICc of unknown log-likelihood, number of data points and number of parameters are compared with the documented criteria as rational functions (log n being '
        'an independent symbol); LA_LOO and arbitrary criteria are followed from the fitted regression model to the stored score: each criterion receives the model, log-likelihood, number of data points and number of '
        'free parameters of the current fit, its result is stored with its name and returned.')
ASSUMPTIONS = ['n is not k + 1 for AICc', 'criteria are functions (they have a name)', 'the number of free parameters is the one the regression model counts (_size_transformed)']

N = Num.atom('n', integer=True, pos=True)


def t_formulas(R):
    w = world({}, ('Models.modelSearch', ''))
    M = w.import_module('GPy_ABCD.Util.modelUtil')
    def go():
        ll = Num.atom('ll'); n = Num.atom('n', integer=True, pos=True); k = Num.atom('k', integer=True, pos=True)
        if n - k - 1 == 0: return   # AICc has no value
        name = choose('criterion', ['BIC', 'AIC', 'AICc'])
        f = getattr(M, name)
        aic = 2 * k - 2 * ll
        want = {'BIC': k * app('log', n) - 2 * ll, 'AIC': aic, 'AICc': aic + 2 * k * (k + 1) / (n - k - 1)}[name]
        got = f(*([None, ll, n, k]))
        if not isinstance(got, Num): got = Num.of(got)
        if not got.same(want): raise Violation('criterion', where_of(f), f'{name} is {got!r} instead of {want!r}')
    R.explore('criterion', go, w)
    def loo():
        m, x = None, None
        w.lib.hooks['size'] = lambda m: Num.atom('k')
        m = w.import_module('GPy.models').GPRegression(X, Y, w.get('KernelExpressions.all:SumKE')(['LIN'])._initialise().to_kernel())
        got = M.LA_LOO(m, Num.atom('ll'), N, Num.atom('k'))
        c = [c for c in w.lib.calls if c[0] == 'LOO']
        if len(c) != 1: raise Undecided('leave-one-out computed otherwise')
        d = c[0][2]
        if d['kern'] is not m.kern or d['X'] is not m.X or d['Y'] is not m.Y or d['likelihood'] is not m.likelihood or d['posterior'] is not m.posterior:
            raise Violation('criterion', where_of(M.LA_LOO), 'leave-one-out is not computed for the model itself')
        want = -sum((Num.atom(f'loo{i}') for i in range(3)), Num.of(0)) / 3
        if not any(repr(got) == repr(want * c) for c in (1, 2, 3, 6)): raise Violation('criterion', where_of(M.LA_LOO), f'LA_LOO is {got!r} instead of the negative mean of the leave-one-out log-likelihoods')
    R.explore('leave-one-out', loo, w)


def t_models(R):
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); K = s.K; M = w.import_module('GPy_ABCD.Util.modelUtil'); G = w.get('Models.model:GPModel')
    wh = where_of(G.compute_utility)
    def bad(msg): raise Violation('score', wh, msg)
    lls = {}; ks = {}
    def ll(m): return lls.setdefault((m.model_id), Num.atom(f'll{m.model_id}'))
    def kk(m): return ks.setdefault((m.model_id), Num.atom(f'k{m.model_id}', integer=True, pos=True))
    def arm():
        w.lib.hooks['log_likelihood'] = ll; w.lib.hooks['size'] = kk
    def criteria():
        seen = []
        tok = Num.atom('value')
        def first(m, ll, n, k): seen.append((m, ll, n, k)); return tok
        def second(*a): seen.append(a); return -tok
        return seen, tok, first, second
    def right(seen, m, x):
        if not seen: bad('the criterion is not computed')
        a = seen[0]
        if len(a) != 4: bad(f'the criterion gets {len(a)} arguments')
        if a[0] is not m.model: bad('the criterion does not get the fitted model')
        for v, t, what in ((a[1], ll(m.model), 'log-likelihood'), (a[2], x.shape[0], 'number of data points'), (a[3], kk(m.model), 'number of parameters')):
            if not (isinstance(v, Num) and v.same(Num.of(t))): bad(f'the criterion gets {v!r} as the {what} instead of {t!r}')
    def go():
        arm()
        from ..checks.c06 import FORMS
        x = FORMS[choose('inputs', ['column', 'wide'])]('X'); y = FORMS['column']('Yv')
        t = choose('expression', [('S', {'LIN': 1}, []), ('P', {'LIN': 1, 'PER': 1}, []), ('CP', 'LIN', 'PER')])
        m = G(x, y, K.build(t)._initialise())
        for step in range(3):
            seen, tok, first, second = criteria()
            refit = choose(f'refit before score {step}', [True, False]) if step else True
            if refit: m.fit(2)
            f = choose(f'criterion {step}', [first, second])
            v = m.compute_utility(f)
            right(seen, m, x)
            want = tok if f is first else -tok
            for what, got in (('returned', v), ('stored', m.cached_utility_function)):
                if not (isinstance(got, Num) and got.same(want)): bad(f'the {what} score is {got!r} instead of the criterion\'s {want!r}')
            if m.cached_utility_function_type != f.__name__: bad(f'the name {m.cached_utility_function_type!r} is kept for a score by {f.__name__}')
    R.explore('score', go, w)
    def named():
        arm()
        m = G(X, Y, K.Sum(['LIN'])._initialise()); m.fit(2)
        n1, n2 = choose('criteria', [('BIC', 'AIC'), ('AIC', 'AICc'), ('AICc', 'BIC')])
        CTX.facts.cons.append(((kk(m.model) + 1 - X.shape[0]).n, '<'))
        for n in (n1, n2, n1):
            f = getattr(M, n)
            v = m.compute_utility(f); want = f(m.model, ll(m.model), X.shape[0], kk(m.model))
            if not Num.of(v).same(want) or not Num.of(m.cached_utility_function).same(want) or m.cached_utility_function_type != n: bad(f'{n} of a model is {v!r} (kept as {m.cached_utility_function_type} {m.cached_utility_function!r})')
    R.explore('criteria', named, w)
    def helper():
        arm()
        seen, tok, first, second = criteria()
        how = choose('way', ['fit_kex', 'fit_GPy_kern'])
        from ..checks.c06 import FORMS
        x = FORMS[choose('inputs', ['column', 'flat', 'wide'])]('X'); y = FORMS[choose('outputs', ['column', 'flat'])]('Yv')
        if how == 'fit_kex':
            m = M.fit_kex(x, y, K.Sum(['LIN', 'PER']), 3, first); right(seen, m, x)
            if not m.cached_utility_function.same(tok): bad('fit_kex stores another score')
        else:
            k = K.Sum(['LIN', 'PER'])._initialise().to_kernel()
            g = M.fit_GPy_kern(x, y, k, 3, first)
            class H: model = g
            right(seen, H, x)
    R.explore('helpers', helper, w)
    def printed():
        arm()
        m = M.fit_kex(X, Y, K.Sum(['LIN', 'PER']), 3, choose('criterion', [M.AIC, M.BIC]))
        w.interp.out.clear()
        M.model_printout(m)
        text = ''.join(map(str, w.interp.out))
        if m.cached_utility_function_type not in text: raise Violation('score', where_of(M.model_printout), f'the printed name of the criterion is not {m.cached_utility_function_type}: {text[:300]!r}')
    R.explore('printout', printed, w)


def tasks(tier): return [('formulas', 't_formulas', ()), ('models', 't_models', ())]
