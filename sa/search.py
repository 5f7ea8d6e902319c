"""Searches over a small universe of expressions with opaque scores: scaffolding shared by the search checks.

The production rules handed to the search are tables of the analysis (each rule is a relation between expressions of a universe); the fits, the scores (one unknown number per expression) and
the expansion of rounds are those of the analysed source."""
from .common import *
from .kes import *
from .num import Num, Undecided
from .fitted import X, Y

# universe: small canonical expressions (a rule is applied to each node of an expression, those of the analysis expand root nodes only)
U = [('S', {'LIN': 1}), ('S', {'PER': 1}), ('S', {'WN': 1}), ('S', {'LIN': 1}, [('P', {'LIN': 1, 'PER': 1}), ('P', {'PER': 2})]), ('P', {'PER': 1}, [('S', {'LIN': 1, 'PER': 1}), ('S', {'PER': 1, 'WN': 1})]), ('S', {'LIN': 1, 'WN': 1}), ('P', {'LIN': 2}), ('S', {'PER': 2}), ('P', {'PER': 2}), ('S', {'C': 1}),
     ('P', {'LIN': 1, 'WN': 1}), ('S', {'LIN': 1, 'PER': 1, 'WN': 1}), ('P', {'LIN': 3}), ('P', {'LIN': 2, 'PER': 1}), ('S', {'PER': 1, 'WN': 1}), ('S', {'LIN': 2})]

# relations: number of an expression -> numbers of its expansions (order and repetitions matter to the code, not to the specification)
GRAPHS = {
    'tree':      {0: [3, 4], 1: [5, 6], 3: [7], 4: [8], 5: [10], 6: [12], 2: [11]},
    'merging':   {0: [3, 3, 1], 1: [3, 0, 4], 3: [4, 0, 5], 4: [3, 1, 4], 5: [3], 2: [3]},
    'barren':    {},
    'late':      {0: [0], 1: [1, 0], 2: [3], 3: [0, 4], 4: [3, 2, 5]},
    'chain':     {0: [1], 1: [2], 2: [3], 3: [4], 4: [5], 5: [6]},
    'wide':      {0: [3, 4, 5, 6]},
    'broad':     {0: [8], 1: [9, 8], 2: [0, 10], 3: [11], 4: [12], 5: [13, 11], 6: [], 7: [14], 8: [15], 9: [15, 1], 10: [2], 11: [7], 12: [13]},
}


LONG, ALL = 'long', U + [s for s in ((k, {x: c for x, c in (('LIN', l), ('PER', q), ('SE', e)) if c}) for k in 'SP' for l in range(10) for q in range(8) for e in range(3 if k == 'S' else 2)) if sum(s[1].values()) > 1 and s not in U]
# the start gives 350 expressions, of which one gives known ones of all ages and a new one
GRAPHS[LONG] = {0: list(range(16, 366)), 16: [17, 0, 365, 90, 16, 366, 18]}


class Setup:
    def __init__(self, w):
        self.w = w; self.K = KE(w)
        self.S = w.import_module('GPy_ABCD.Models.modelSearch')
        self._ll = {}
        self.idx = {self.key_of_spec(s): i for i, s in enumerate(ALL)}

    def key_of_spec(self, s): return (s[0], tuple(sorted((k, int(v)) for k, v in s[1].items() if v)), tuple(sorted(self.key_of_spec(c) for c in (s[2] if len(s) > 2 else []))))

    def key(self, x):
        t = self.K.read(x)
        if not self.known(t): raise Undecided(f'an expression outside the universe: {show(t)}')
        return self.idx.get(self.key_of_spec(t))

    def known(self, t): return not isinstance(t, str) and t[0] in 'SP' and all(self.known(c) for c in t[2])

    def expr(self, i, flip=False):
        return self.make(ALL[i], flip)

    def make(self, spec, flip):
        kind, c, cs = spec if len(spec) > 2 else (*spec, [])
        terms = [k for k, v in c.items() for _ in range(v)]; cs = [self.make(x, flip) for x in cs]
        return (self.K.Sum if kind == 'S' else self.K.Prod)(terms[::-1] if flip else terms, cs[::-1] if flip else cs)

    def start(self, ids, how='exprs'):
        out = []
        for n, i in enumerate(ids):
            if how == 'names' and U[i][0] == 'S' and sum(U[i][1].values()) == 1: out.append(next(iter(U[i][1])))
            else: out.append(self.expr(i))
        return out

    def ll(self, i):
        if i not in self._ll: self._ll[i] = Num.atom(f'score[{i}]')
        return self._ll[i]

    def arm(self, distinct=False, count=9):
        """Scores of one unknown number per expression"""
        self.fits = []; self.expanded = []; self.created = []
        def loglik(m):
            i = self.of_fit.get(id(m))
            return self.ll(i)
        self.of_fit = {}; self.keep = []
        self.w.lib.hooks['log_likelihood'] = loglik
        if distinct:
            for i in range(len(U)):
                for j in range(i): CTX.facts.disj.append((self.ll(i) - self.ll(j)).n)

    def score(self):
        """The utility function handed to the search: the unknown number of the model's expression"""
        def opaque_score(m, ll, n, k): return ll
        return opaque_score

    def rules(self, graph, split=False):
        def results(node, part):
            if node.parent is not None: return [[]]
            x = node.root
            i = self.key(x)
            if part == 0: self.expanded.append(i)
            js = GRAPHS[graph].get(i, [])
            js = js if not split else js[part::2]
            return [[self.expr(j, flip=((n + i) % 2 == 1))._initialise() for n, j in enumerate(js)]]
        def rule_a(node): return results(node, 0)
        def rule_b(node): return results(node, 1)
        return [rule_a, rule_b] if split else [rule_a]

    def fitter(self, inner=None):
        """A model-list fitter of the documented signature, which records what is fitted"""
        inner = inner or self.S.fit_mods_not_parallel
        def recording_fitter(X, Y, k_exprs, restarts, optimiser='lbfgsb', max_retries=1):
            k_exprs = list(k_exprs)
            self.fits.append([self.key(k) for k in k_exprs])
            ms = inner(X, Y, k_exprs, restarts, optimiser, max_retries)
            for m, k in zip(ms, k_exprs): self.of_fit[id(m.model)] = self.key(k); self.keep.append(m.model)
            self.created += list(ms)
            return ms
        return recording_fitter

    def search(self, start, graph, rounds, beam, verbose=False, split=False, fitter=None, how='exprs'):
        return self.S.explore_model_space(X, Y, start_kernels=self.start(start, how), p_rules=self.rules(graph, split), utility_function=self.score(), rounds=rounds, beam=beam, restarts=3,
                                          model_list_fitter=fitter or self.fitter(), optimiser='lbfgsb', max_retries=1, verbose=verbose)

    def more(self, given, graph, rounds, beam, verbose=False, split=False):
        return self.S.model_search_rounds(X, Y, *given, self.fitter(), self.rules(graph, split), self.score(), rounds, beam, 3, 'lbfgsb', 1, verbose)

    def keys(self, ms): return [self.key(m.kernel_expression) for m in ms]

    def lists(self, res):
        """The five lists, as numbers of expressions"""
        a, b, c, d, e = res
        return [self.keys(a), [self.keys(x) for x in b], [self.key(k) for k in c], self.keys(d), self.keys(e)]


def expected_beam(beam, rounds): return [beam] * rounds if isinstance(beam, int) else (list(beam) + beam[-1:] * max(0, rounds - len(beam)))[:rounds]
