"""C09: everything a model reports refers to its latest fit."""
import re
from ..fitted import *
from ..models_lib import modelled, Token, getter
from ..search import Setup

RULE = ('Typestate analysis of the model lifecycle by abstract interpretation: every history of fits (with and without restarts, failing while building or optimising), scores, canonical forms, interpretations and predictions '
        'up to the length bound, each fit leaving fresh symbols for its parameters. After each step: the canonical form is the expansion of the current kernel, interpretation and predictions refer to the current regression model, '
        'a kept score is the one of the current regression model, a fit without restarts repeats the last number or is refused, nothing is reported before the first fit; models sharing an expression do not see each other\'s fits.')
ASSUMPTIONS = ['histories of at most 4 steps for one model (6 after a successful fit with reports and repeated fits only), 3 steps after fitting two models which share their expression', 'the kernel expression and the regression model are not replaced by the user']

OPS = ['fit', 'fit again', 'failing fit', 'failing build', 'score', 'other score', 'form', 'words', 'predict']
SHAPES = [('P', {'LIN': 1, 'PER': 1}, []), ('S', {'WN': 1}, [('P', {'LIN': 1, 'PER': 1}, [])]), ('CP', 'LIN', ('S', {'PER': 1, 'WN': 1}, [])), ('S', {'LIN': 1}, [])]


class Life:
    """A model and what its reports have to refer to"""
    def __init__(self, w, K, KK, x, name):
        self.w = w; self.K = K; self.KK = KK
        self.G = w.get('Models.model:GPModel')
        self.m = self.G(X, Y, x); self.name = name
        self.fitted = False     # a successful fit exists
        self.restarts = None    # last number given to a successful fit (False: unclear, after a failure)
        self.log = []
        self.scored_for = None
        self.short = False      # fixed arguments of predictions
    def bad(self, rule, what): raise Violation(rule, where_of(self.G.fit), f'{what} (history of {self.name}: {", ".join(self.log)})')

    def current(self): return self.m.model

    def step(self, op, n):
        self.log.append(op); w, m = self.w, self.m
        L = w.lib
        if op in ('fit', 'failing fit', 'failing build'):
            r = Num.of(n + 2)
            if op != 'fit':
                def fail(obj, kw): raise modelled(ArithmeticError('numerical failure'))
                L.hooks['optimize_restarts' if op == 'failing fit' else 'GPRegression'] = fail
            before = len(L.calls)
            try: res = m.fit(n + 2)
            except ArithmeticError:
                if op == 'fit': raise
                self.restarts = False if self.restarts != n + 2 else self.restarts
            else:
                if op != 'fit': self.bad('failure', 'a failing fit is not reported')
                new = [o for k, o, d in L.calls[before:] if k == 'optimize_restarts']
                if len(new) != 1 or m.model is not new[0]: self.bad('latest', 'after a fit the model is not the one just fitted')
                self.fitted = True; self.restarts = n + 2
                if res is not m: self.bad('latest', 'fitting does not return the model')
            finally:
                L.hooks.pop('optimize_restarts', None); L.hooks.pop('GPRegression', None)
        elif op == 'fit again':
            before = len(L.calls)
            try: m.fit()
            except Exception as e:
                if getattr(e, '__sa_modelled__', False) or isinstance(e, (Violation, Undecided)): raise
                if self.restarts is not None and self.restarts is not False: self.bad('restarts', f'a fit repeating {self.restarts} restarts is refused: {e}')
                if any(k == 'optimize_restarts' for k, o, d in L.calls[before:]): self.bad('restarts', 'a refused fit is made')
                return
            new = [(o, d) for k, o, d in L.calls[before:] if k == 'optimize_restarts']
            if self.restarts is None: self.bad('restarts', f'a fit without any known number of restarts is made with {new[0][1]["num_restarts"] if new else None!r}')
            if len(new) != 1 or m.model is not new[0][0]: self.bad('latest', 'after a fit the model is not the one just fitted')
            if self.restarts is not False and Num.of(new[0][1]['num_restarts']) != self.restarts: self.bad('restarts', f'the fit is repeated with {new[0][1]["num_restarts"]!r} restarts instead of {self.restarts}')
            self.fitted = True
        elif op in ('score', 'other score'):
            s = 1 if op == 'score' else -1
            def first(g, ll, n, k): return ll
            def second(g, ll, n, k): return -ll
            if m.model is None: return
            v = m.compute_utility(first if s == 1 else second)
            want = s * self.ll(m.model)
            if not Num.of(v).same(want) or not Num.of(m.cached_utility_function).same(want): self.bad('score', f'the score is {v!r} (kept: {m.cached_utility_function!r}) instead of {want!r}')
            if m.cached_utility_function_type != ('first' if s == 1 else 'second'): self.bad('score', f'the kept score is named {m.cached_utility_function_type}')
        elif op == 'form':
            try: s = m.sum_of_prods_kex
            except Exception as e:
                if isinstance(e, (Violation, Undecided)): raise
                if self.fitted: raise
                return
            if not self.ever(): self.bad('unfitted', 'a canonical form exists before the first fit')
            self.same_form(s)
        elif op == 'words':
            try: t = m.interpret()
            except Exception as e:
                if isinstance(e, (Violation, Undecided)): raise
                if self.fitted: raise
                return
            if not self.ever(): self.bad('unfitted', 'an interpretation exists before the first fit')
            old = {i for i in re.findall(r'fit(\d+):', t)} - {str(m.model.model_id)}
            if old: self.bad('latest', f'the interpretation is about fit {sorted(old)} while the model is that of fit {m.model.model_id}')
            if self.fitted and self.tagged() and f'fit{m.model.model_id}:' not in t: self.bad('latest', f'the interpretation does not state the parameters of the fit: {t[:200]!r}')
        elif op == 'predict':
            if m.model is None: return
            before = len(L.calls)
            q = (2.5, 97.5) if self.short else choose('quantiles', [(2.5, 97.5), (10, 50)])
            xs = Arr((Num.atom('m', integer=True, pos=True), 1), ix('Xnew', (-2,)))
            full = not self.short and choose('full covariance', [False, True])
            p = m.predict(xs, q, full)
            used = {id(o) for k, o, d in L.calls[before:] if k.startswith('predict')}
            if used != {id(m.model)}: self.bad('latest', 'predictions are made with another regression model than the latest')
            for k, o, d in L.calls[before:]:
                if k == 'predict' and (d['Xnew'] is not xs or bool(d['full_cov']) != full or not d['include_likelihood']): self.bad('prediction', f'predictions are requested with {d}')
                if k == 'predict_quantiles' and (d['X'] is not xs or tuple(d['quantiles']) != q): self.bad('prediction', f'quantiles are requested with {d}')
            for k, what in (('mean', 'mean'), ('covariance', 'covariance'), ('low_quantile', ('quantile', 0)), ('high_quantile', ('quantile', 1))):
                if k not in p or not isinstance(p[k], Token) or p[k].what != what or p[k].of is not m.model: self.bad('prediction', f'{k} is {p.get(k)!r}')
        self.kept()

    def ever(self): return self.m.model is not None
    def tagged(self): return any(f'fit{self.m.model.model_id}:' in repr(v.value) for v in self.m.model.kern.flattened_parameters)

    def ll(self, g):
        d = g.__dict__
        if '_ll' not in d: d['_ll'] = Num.atom(f'logL{g.model_id}')
        return d['_ll']

    def same_form(self, s):
        K = self.K
        got = [term(*a) for a in sops_terms(K, s)]
        want = [term(*a) for a in expand_terms(self.KK.read(self.m.model.kern))]
        d = same_terms(got, want)
        if d: self.bad('latest', f'the canonical form is not that of the latest fit: {d}')

    def kept(self):
        """A kept score refers to the current regression model"""
        v = self.m.cached_utility_function
        if v is None: return
        if self.m.model is None: self.bad('score', f'a score {v!r} is kept without any fit')
        c = self.ll(self.m.model)
        if not (Num.of(v).same(c) or Num.of(v).same(-c)): self.bad('score', f'the kept score {v!r} is not that of the latest fit ({c!r})')


REPORTS = ['fit again', 'score', 'form', 'words', 'predict']

def t_reports(R, shape, second, depth):
    """Longer histories of a fitted model: reports between refits"""
    w = world({}, ('Models.modelSearch', ''))
    K = KE(w); KK = Kernels(w)
    def go():
        life = Life(w, K, KK, K.build(shape)._initialise(), 'the model'); life.short = True
        w.lib.hooks['log_likelihood'] = life.ll
        life.step('fit', 0); life.step(second, 1)
        for i in range(2, depth): life.step(choose(f'step {i}', REPORTS), i)
    R.explore('long history', go, w, max_paths=40000)


def t_one(R, shape, first, depth):
    w = world({}, ('Models.modelSearch', ''))
    K = KE(w); KK = Kernels(w)
    def go():
        L = None
        life = Life(w, K, KK, K.build(shape)._initialise(), 'the model')
        w.lib.hooks['log_likelihood'] = life.ll
        life.step(first, 0)
        for i in range(1, depth):
            life.step(choose(f'step {i}', OPS), i)
    R.explore('history', go, w, max_paths=40000)


def t_two(R, shape, depth):
    w = world({}, ('Models.modelSearch', ''))
    K = KE(w); KK = Kernels(w)
    def go():
        x = K.build(shape)._initialise()
        a = Life(w, K, KK, x, 'the first model'); b = Life(w, K, KK, x, 'the second model, of the same expression')
        w.lib.hooks['log_likelihood'] = a.ll
        a.step('fit', 0); b.step('fit', 1)
        for i in range(depth):
            l, op = choose(f'step {i}', [(l, op) for l in (0, 1) for op in ('fit', 'form', 'words', 'score')])
            (a, b)[l].step(op, i + 2)
        (a, b)[0].step('form', 9); (a, b)[1].step('form', 9)
    R.explore('shared expression', go, w, max_paths=40000)


def t_given(R):
    """Models made by the helpers and the search"""
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); K = s.K; KK = Kernels(w); U = w.import_module('GPy_ABCD.Util.modelUtil')
    def go():
        s.arm()
        how = choose('made by', ['fit_kex', 'fit_one_model', 'fit_mods_not_parallel', 'fit_mods_parallel_processes', 'default expression'])
        x = K.build(SHAPES[1])._initialise()
        life = Life(w, K, KK, x, f'a model made by {how}')
        w.lib.hooks['log_likelihood'] = life.ll
        if how == 'fit_kex': m = U.fit_kex(X, Y, x, 3)
        elif how == 'fit_one_model': m = s.S.fit_one_model(X, Y, x, 3)
        elif how == 'default expression': m = life.G(X, Y); m.fit(3)
        else: m = getattr(s.S, how)(X, Y, [K.Sum(['PER'])._initialise(), x, x], 3)[1]
        life.m = m; life.fitted = True; life.restarts = 3
        if how == 'fit_kex': m.cached_utility_function = None
        for i in range(2): life.step(choose(f'step {i}', [o for o in OPS if o != 'fit again' or m.restarts is not None]), i)
        life.step('form', 5)
    R.explore('helpers', go, w, max_paths=20000)


def tasks(tier):
    T = [(f'{show(s)} {op}', 't_one', (s, op, (5 if s is SHAPES[0] else 4) if tier == 'thorough' else 4 if s is SHAPES[0] else 3)) for s in SHAPES for op in OPS]
    T += [(f'two models of {show(s)}', 't_two', (s, 3 if s is SHAPES[0] or tier == 'thorough' else 2)) for s in SHAPES]
    T += [(f'long history of {show(s)} {op}', 't_reports', (s, op, 6 if tier == 'thorough' or s is SHAPES[0] else 5)) for s in (SHAPES if tier == 'thorough' else SHAPES[:3:2]) for op in REPORTS]
    return T + [('helpers', 't_given', ())]
