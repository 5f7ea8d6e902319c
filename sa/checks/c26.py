"""C26: predictions and printed reports are those of the fitted model, as requested."""
import re
from ..search import *
from ..models_lib import Arr, ix, Token
from .c06 import FORMS

RULE = ('Provenance analysis by abstract interpretation: every argument of a prediction (inputs, quantiles, covariance form, metadata, kernel, likelihood, inclusion of it), given by name, by position or left out, is a token followed to the '
        'regression model\'s mean/covariance and quantile computations, and their results to the entries of the prediction; the text and plots produced by the print-outs of fitted models and of fits of plain kernels are those of the very model '
        '(expression, kernel, log-likelihood, name and value of the criterion on one line, interpretation), on each partition of the forms of data, criteria and plotting choices; plotting choices reach the plotting library; reporting changes nothing.')
ASSUMPTIONS = ['summary of GPRegression (signatures of predict and predict_quantiles)', 'models have been fitted']

M_ = Num.atom('m', integer=True, pos=True)
SHAPES = [('S', {'LIN': 1}, []), ('S', {'WN': 1}, [('P', {'LIN': 1, 'PER': 1}, [])]), ('CP', 'LIN', ('S', {'PER': 1, 'WN': 1}, []))]


def setup():
    w = world({}, ('Models.modelSearch', ''))
    K = KE(w); G = w.get('Models.model:GPModel'); U_ = w.import_module('GPy_ABCD.Util.modelUtil')
    w.lib.hooks['log_likelihood'] = lambda g: LL.setdefault(g.model_id, Num.atom(f'logL{g.model_id}'))
    return w, K, G, U_

LL = {}


def t_predict(R, shape):
    w, K, G, U_ = setup()
    wh = where_of(G.predict)
    def bad(msg): raise Violation('prediction', wh, msg)
    PARAMS = [('quantiles', (2.5, 97.5)), ('full_cov', False), ('Y_metadata', None), ('kern', None), ('likelihood', None), ('include_likelihood', True)]
    def go():
        setup()
        m = G(X, Y, K.build(shape)._initialise()); m.fit(2)
        if choose('fitted again', [False, True]): m.fit()
        toks = {'quantiles': (Num.atom('q_low'), Num.atom('q_high')), 'full_cov': True, 'Y_metadata': Token('metadata'), 'kern': m.model.kern, 'likelihood': Token('a likelihood'), 'include_likelihood': False}
        vals = {k: d for k, d in PARAMS}
        how = choose('arguments', ['by position', 'by name'])
        if how == 'by position':
            n = choose('arguments given', list(range(len(PARAMS) + 1)))
            given = [toks[k] for k, _ in PARAMS[:n]]
            vals.update({k: toks[k] for k, _ in PARAMS[:n]})
            args, kw = given, {}
        else:
            ks = choose('arguments named', [tuple(k for i, (k, _) in enumerate(PARAMS) if b >> i & 1) for b in range(64)])
            kw = {k: toks[k] for k in ks}; args = []; vals.update(kw)
        xs = Arr((M_, 1), ix('Xnew', (-2,)))
        before = len(w.lib.calls); old = dict(m.__dict__)
        p = m.predict(xs, *args, **kw)
        calls = w.lib.calls[before:]
        if any(k in ('optimize', 'optimize_restarts', 'GPRegression') for k, _, _ in calls): bad('predicting fits a model')
        if set(m.__dict__) != set(old) or any(m.__dict__[k] is not v for k, v in old.items()): bad('predicting changes the model')
        res = {}
        for k, o, d in calls:
            if o is not m.model: bad('a prediction is made with another regression model')
            if k == 'predict':
                if d['Xnew'] is not xs: bad(f'predictions are made at {d["Xnew"]!r}')
                for a in ('full_cov', 'include_likelihood', 'Y_metadata', 'kern', 'likelihood'):
                    if not (d[a] is vals[a] or isinstance(vals[a], bool) and isinstance(d[a], bool) and d[a] == vals[a]): bad(f'the mean and covariance are computed with {a} = {d[a]!r} instead of {vals[a]!r}')
            elif k == 'predict_quantiles':
                if d['X'] is not xs: bad(f'quantiles are computed at {d["X"]!r}')
                q = tuple(d['quantiles'])
                if len(q) != 2 or any(not Num.of(a).same(Num.of(b)) for a, b in zip(q, vals['quantiles'])): bad(f'the quantiles {q} are computed instead of {vals["quantiles"]}')
                for a in ('Y_metadata', 'kern', 'likelihood'):
                    if d[a] is not vals[a]: bad(f'the quantiles are computed with {a} = {d[a]!r} instead of {vals[a]!r}')
        want = {'mean': 'mean', 'covariance': 'covariance', 'low_quantile': ('quantile', 0), 'high_quantile': ('quantile', 1)}
        for k, what in want.items():
            if k not in p: bad(f'{k} is not returned')
            if not isinstance(p[k], Token) or p[k].of is not m.model or p[k].what != what: bad(f'{k} is {p[k]!r}')
    R.explore('prediction', go, w, max_paths=3000)
    def plots():
        m = G(X, Y, K.build(shape)._initialise()); m.fit(2)
        lib = choose('library', [None, 'matplotlib', 'plotly', 'plotly_online', 'none'])
        m.change_plotting_library(*([lib] if lib else []))
        c = [d for k, _, d in w.lib.calls if k == 'change_plotting_library']
        if len(c) != 1 or c[0]['library'] != (lib or 'plotly_offline'): raise Violation('plotting', where_of(G.change_plotting_library), f'the plotting library requested is {c} instead of {lib or "plotly_offline"}')
        r = m.plot()
        c = [o for k, o, d in w.lib.calls if k == 'plot']
        if c != [m.model] or not isinstance(r, Token) or r.of is not m.model: raise Violation('plotting', where_of(G.plot), f'plotting makes {len(c)} plots and gives {r!r}')
    R.explore('plotting', plots, w)


def text(w): return ''.join(map(str, w.interp.out))

def line_with(text, name, value):
    return any(re.search(rf'(?<!\w){re.escape(name)}(?!\w)[^\n]*', l) and repr(value) in l for l in text.split('\n'))


def t_print(R):
    w, K, G, U_ = setup()
    wh = where_of(U_.model_printout)
    def go():
        setup()
        def bad(msg): raise Violation('printout', wh, msg)
        shape = choose('expression', SHAPES)
        tok = Num.atom('value')
        def my_score(m, ll, n, k): return tok
        how = choose('made by', ['fit and score', 'fit_kex', 'not scored'])
        x = K.build(shape)._initialise()
        if how == 'fit_kex': m = U_.fit_kex(X, Y, x, 3, my_score)
        else:
            m = G(X, Y, x); m.fit(2)
            if how == 'fit and score': m.compute_utility(my_score)
        m.model.kern.__dict__['_text_'] = 'THE-KERNEL'
        plotly = choose('plotly', [None, False, True])
        w.interp.out.clear(); before = len(w.lib.calls); old = dict(m.__dict__)
        U_.model_printout(m, *([] if plotly is None else [plotly]))
        t = text(w)
        words = m.interpret()
        for what, s in (('expression', str(m.kernel_expression)), ('kernel', 'THE-KERNEL'), ('log-likelihood', repr(LL[m.model.model_id])), ('interpretation', words)):
            if s not in t: bad(f'the {what} {s[:80]!r} of the model is not printed in {t[:300]!r}')
        if not any(repr(LL[m.model.model_id]) in l and 'lik' in l.lower() for l in t.split('\n')): bad(f'the log-likelihood is not labelled in {t[:300]!r}')
        if how != 'not scored' and not line_with(t, 'my_score', tok): bad(f'the score is not printed with its name in {t[:300]!r}')
        c = w.lib.calls[before:]
        if any(k in ('optimize', 'optimize_restarts', 'GPRegression') for k, _, _ in c): bad('printing fits a model')
        for k in ('X', 'Y', 'kernel_expression', 'model', 'restarts', 'cached_utility_function', 'cached_utility_function_type'):
            if m.__dict__.get(k) is not old.get(k): bad(f'printing changes {k}')
        seq = [k for k, _, _ in c if k in ('change_plotting_library', 'plot', 'show')]
        libs = [d['library'] for k, _, d in c if k == 'change_plotting_library']
        if [o for k, o, _ in c if k == 'plot'] != [m.model]: bad(f'{seq.count("plot")} plots are made')
        if plotly:
            if seq[:2] != ['change_plotting_library', 'plot'] or 'plotly' not in str(libs[0]): bad(f'the plot is not made with plotly: {seq} {libs}')
            if 'show' not in seq or [d['part'] for k, _, d in c if k == 'show'] != [0]: bad('the plot is not shown')
        elif libs: bad(f'the plotting library is changed to {libs}')
    R.explore('printout', go, w)
    def plain():
        setup()
        wh = where_of(U_.fit_GPy_kern)
        def bad(msg): raise Violation('printout', wh, msg)
        x = FORMS[choose('inputs', ['column', 'flat', 'wide'])]('X'); y = FORMS[choose('outputs', ['column', 'flat'])]('Yv')
        k = K.build(choose('expression', SHAPES))._initialise().to_kernel(); k.__dict__['_text_'] = 'THE-KERNEL'
        tok = Num.atom('value'); seen = []
        def my_score(m, ll, n, k): seen.append((ll, n, k)); return tok
        w.interp.out.clear()
        how = choose('criterion', ['given', 'default'])
        m = U_.fit_GPy_kern(x, y, k, 3, *([my_score] if how == 'given' else []))
        t = text(w); L = LL.get(m.model_id)
        if L is None: bad('the log-likelihood is not computed')
        if m.kern is not k or 'THE-KERNEL' not in t: bad('the kernel is not printed')
        if not any(repr(L) in l and 'lik' in l.lower() for l in t.split('\n')): bad(f'the log-likelihood is not printed in {t[:300]!r}')
        if how == 'given':
            if not line_with(t, 'my_score', tok): bad(f'the score is not printed with its name in {t[:300]!r}')
        else:
            v = U_.BIC(m, L, x.shape[0], m._size_transformed())
            if not line_with(t, 'BIC', v): bad(f'BIC ({v!r}) is not printed in {t[:300]!r}')
        order = [a for a, _, _ in w.lib.calls if a in ('optimize_restarts', 'plot', 'pyplot.show')]
        if order[:2] != ['optimize_restarts', 'plot'] or order.count('plot') != 1: bad(f'fitted and plotted in the order {order}')
    R.explore('plain kernels', plain, w)


def tasks(tier): return [(f'predictions of {show(s)}', 't_predict', (s,)) for s in SHAPES] + [('print-outs', 't_print', ())]
