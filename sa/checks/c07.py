"""C07: retries of failing fits."""
from ..search import *
from ..models_lib import modelled, LinAlgError

RULE = ('Typestate analysis of the retry loop by abstract interpretation: every attempt to build or optimise a regression model either succeeds or raises (one of several kinds of errors, a new one each time), the retry limit is '
        'an unknown number. On every partition: a returned model comes from a successful attempt that followed at most limit failures, an error raised to the caller is the last one and was preceded by exactly limit '
        'retries, every attempt has the given settings, an interruption is not retried; budgets of different models are separate, for both fitters and within searches.')
ASSUMPTIONS = ['errors are exceptions (subclasses of Exception) raised by building or optimising the regression model', 'at most 5 consecutive failures of one model']

class OtherError(Exception):
    """An error of a kind unknown to the analysed code"""

ERRORS = [ArithmeticError, ValueError, RuntimeError, AssertionError, LinAlgError, FloatingPointError, TypeError, KeyError, OtherError, MemoryError]
X1, Y1 = X, Y


class Faults:
    """Nondeterministic faults of the attempts"""
    def __init__(self, w, where, limit=5, kinds=('optimize_restarts',), plan=None):
        self.w = w; self.where = where; self.attempts = []; self.errors = []; self.limit = limit; self.plan = plan; self.ok = []; self.first = None
        for k in kinds: w.lib.hooks[k] = (lambda stage: lambda m, kw: self.attempt(stage, m, kw))(k)
    def attempt(self, stage, m, kw):
        n = len(self.attempts)
        self.attempts.append((m, kw, stage))
        fails = self.plan(n) if self.plan is not None else (n < self.limit and choose(f'attempt {n}', [False, True]))
        if fails:
            if self.first is None: self.first = choose('kinds of errors', list(range(len(ERRORS)))); self.step = choose('further errors', [1, 0]) if self.plan is None else 1
            t = ERRORS[(self.first + self.step * n) % len(ERRORS)]
            e = modelled(t(f'fit failure {n}')); self.errors.append(e)
            raise e
        if stage == 'optimize_restarts': self.ok.append(m)
    def bad(self, msg): raise Violation('retries', self.where, msg)


def t_one(R):
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); S = s.S; f = S.fit_one_model; where = where_of(f)
    R0 = Num.atom('retry limit', integer=True, nonneg=True); RS = Num.atom('restarts', integer=True, pos=True)
    def go(limit):
        s.arm(); F = Faults(w, where)
        args = (X1, Y1, s.expr(3)._initialise(), RS, 'scg')
        try: m = f(*args, limit) if choose('passed', ['by position', 'by name']) == 'by position' else f(*args, max_retries=limit)
        except Exception as e:
            if not any(e is x for x in F.errors): raise
            k = len(F.errors)
            if e is not F.errors[-1]: F.bad(f'after {k} failures the error raised is not the last one')
            if len(F.attempts) != k: F.bad('an error is raised though the last attempt succeeded')
            if Num.of(k) != Num.of(limit) + 1: F.bad(f'the error is raised after {k} failures though the retry limit is {limit!r} ({CTX.facts.log[-3:]})')
        else:
            k = len(F.errors)
            if len(F.attempts) != k + 1: F.bad('attempts are made after a success')
            if Num.of(k) > Num.of(limit): F.bad(f'{k} failures are retried with a retry limit of {limit!r} ({CTX.facts.log[-3:]})')
            if m is None or getattr(m, 'model', None) is not F.ok[-1]: F.bad('the model returned is not that of the successful attempt')
        for m_, kw, _ in F.attempts:
            if not Num.of(kw['num_restarts']).same(RS) or kw['kw'].get('optimizer') != 'scg': F.bad('a retry has other settings')
            if m_.X is not X1 or m_.Y is not Y1: F.bad('a retry has other data')
    R.explore('retries', lambda: go(R0), w)
    for i in range(4): R.explore('retries', lambda: go(i), w)
    def default():
        s.arm(); F = Faults(w, where)
        try: f(X1, Y1, s.expr(0)._initialise(), 3)
        except Exception as e:
            if not any(e is x for x in F.errors): raise
            if e is not F.errors[-1]: F.bad('the error raised is not the last one')
            if len(F.errors) != 2: F.bad(f'{len(F.errors) - 1} retries by default')
        else:
            if len(F.errors) > 1: F.bad(f'{len(F.errors)} retries by default')
    R.explore('default', default, w)
    def stages():
        s.arm(); F = Faults(w, where, kinds=('GPRegression', 'optimize_restarts'), limit=4)
        limit = choose('limit', [0, 1, 2])
        try: m = f(X1, Y1, s.expr(3)._initialise(), 3, 'scg', limit)
        except Exception as e:
            if not any(e is x for x in F.errors): raise
            if e is not F.errors[-1] or len(F.errors) != limit + 1: F.bad(f'{len(F.errors)} failures (of building or optimising) with a retry limit of {limit}')
        else:
            if len(F.errors) > limit: F.bad(f'{len(F.errors)} failures (of building or optimising) are retried with a limit of {limit}')
            if m is None or m.model is not F.ok[-1]: F.bad('the model returned is not that of the successful attempt')
    R.explore('stages', stages, w)
    def interrupt():
        s.arm(); n = []
        class Stop(KeyboardInterrupt): pass
        def opt(m, kw): n.append(1); raise modelled(KeyboardInterrupt('stop'))
        w.lib.hooks['optimize_restarts'] = opt
        try: f(X1, Y1, s.expr(3)._initialise(), 3, 'scg', choose('limit', [0, 1, 3]))
        except KeyboardInterrupt: pass
        else: raise Violation('interruption', where, 'an interruption is swallowed')
        if len(n) != 1: raise Violation('interruption', where, 'an interrupted fit is retried')
    R.explore('interruption', interrupt, w)


def t_lists(R, name):
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); S = s.S; f = getattr(S, name); where = where_of(f)
    def go():
        s.arm(); limit = choose('limit', [0, 1, 2]); n = 3
        # failures of each model in turn; as the fits are made one model after the other, attempts are counted per model
        plan = [choose(f'failures of model {i}', list(range(limit + 2))) for i in range(n)]
        fails = [i for i in range(n) for _ in range(plan[i])]
        seq = []
        for i in range(n):
            seq += [True] * plan[i] + ([False] if plan[i] <= limit else [])
            if plan[i] > limit: break
        F = Faults(w, where, plan=lambda k: seq[k] if k < len(seq) else False)
        ks = [s.expr(i)._initialise() for i in (0, 3, 4)]
        over = [i for i in range(n) if plan[i] > limit]
        try: ms = f(X1, Y1, ks, 3, 'scg', limit)
        except Exception as e:
            if not any(e is x for x in F.errors): raise
            if not over: F.bad(f'an error is raised though every model fails at most {limit} times ({plan} failures)')
            if e is not F.errors[-1]: F.bad('the error raised is not the last one of the failing model')
        else:
            if over: F.bad(f'the error of a model is lost ({plan} failures with a retry limit of {limit})')
            if len(F.attempts) != len(seq): F.bad(f'{len(F.attempts)} attempts instead of {len(seq)} ({plan} failures)')
            for m, g in zip(ms, F.ok):
                if m is None or m.model is not g: F.bad('a returned model is not that of its successful attempt')
            if len(ms) != n: F.bad(f'{len(ms)} models of {n} expressions')
    R.explore('models', go, w, max_paths=20000)


def t_search(R, name):
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); S = s.S; where = where_of(S.explore_model_space)
    def go():
        s.arm(); limit = choose('limit', [0, 1, 2])
        at = choose('failing attempts from', [0, 1, 2, 3]); k = choose('failures', [1, 2, 3])
        w.lib.hooks['log_likelihood'] = lambda m: Num.of(m.model_id)
        F = Faults(w, where, plan=lambda n: at <= n < at + k)
        try: res = S.explore_model_space(X1, Y1, start_kernels=s.start((0, 1)), p_rules=s.rules('tree'), utility_function=s.score(), rounds=1, beam=[1], restarts=3, model_list_fitter=getattr(S, name), optimiser='scg', max_retries=limit, verbose=False)
        except Exception as e:
            if not any(e is x for x in F.errors): raise
            if k <= limit: F.bad(f'an error is raised after {k} failures with a retry limit of {limit}')
            if e is not F.errors[-1] or len(F.errors) != limit + 1: F.bad(f'{len(F.errors)} failures with a retry limit of {limit}')
        else:
            if k > limit: F.bad(f'the error of a fit is lost ({k} failures, retry limit {limit})')
            if len(F.attempts) != 4 + k: F.bad(f'{len(F.attempts)} attempts for 4 models and {k} failures')
            for m in res[0]:
                if not any(m.model is g for g in F.ok): F.bad('a listed model is not that of a successful attempt')
    R.explore('search', go, w)


def tasks(tier):
    return [('one model', 't_one', ())] + [(f'lists {n}', 't_lists', (n,)) for n in ('fit_mods_not_parallel', 'fit_mods_parallel_processes')] + [(f'search {n}', 't_search', (n,)) for n in ('fit_mods_not_parallel', 'fit_mods_parallel_processes')]
