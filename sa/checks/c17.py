"""C17: continued searches."""
from ..search import *
from .c01 import describe

RULE = ('Abstract interpretation of one search of R rounds and of every split of it into a search and its continuations, on each partition of the orders of the opaque scores: the five lists, the fits and the expansions are the '
        'same; an effect analysis shows that the lists of the earlier search (outer and inner lists, expressions) are left as they were by the continuation.')
ASSUMPTIONS = ['start kernels are distinct; the same rules, data, settings and utility function are given to the continuation', 'the scores of different expressions differ (ties may be broken either way)', 'universe of expressions and bounds as for C05']

CASES = [((0, 2), 'tree', 2, [2, 1]), ((0, 1), 'tree', 2, [1, 1]), ((0, 1), 'merging', 3, [2, 1]), ((0, 1), 'merging', 4, [2, 0, 1]), ((0, 1, 2), 'late', 3, [1, 1, 1]), ((0,), 'wide', 2, [1, 3]), ((0, 1, 2), 'barren', 3, [1]), ((2, 1, 0), 'late', 2, [3, 1]),
         ((0, 1), 'merging', 2, [9, 9]), ((0,), 'chain', 3, [1, 1, 1])]
MORE = [((0, 1), 'tree', 2, [2, 1]), ((0, 1), 'tree', 3, [1, 1, 1]), ((0, 1, 2), 'merging', 3, [2, 2, 2]), ((0, 1), 'chain', 4, [2, 1, 1, 1])]


def t_split(R, cases):
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); where = where_of(s.S.model_search_rounds)
    for start, graph, rounds, beam in cases:
        bs = expected_beam(beam, rounds)
        def go():
            s.arm(distinct=True)
            whole = s.search(start, graph, rounds, list(beam))
            la, fa, ea = s.lists(whole), s.fits, sorted(s.expanded)
            s.arm()
            cuts = choose('split', [(i,) for i in range(rounds)] + [(i, j) for i in range(rounds) for j in range(i, rounds)])
            res = s.search(start, graph, cuts[0], bs[:cuts[0]])
            ends = list(cuts[1:]) + [rounds]; at = cuts[0]
            for e in ends:
                d = describe(s.K, list(res))[0]; given = res
                inner = [list(x) for x in res[1]]
                res = s.more(given, graph, e - at, bs[at:e])
                if describe(s.K, list(given))[0] != d: raise Violation('earlier-lists', where, f'continuing the search after {at} rounds modifies the lists of the earlier one: now {s.lists(given)} (start {start}, expansions {GRAPHS[graph]}, {rounds} rounds, beam {beam})')
                at = e
            lb, fb, eb = s.lists(res), s.fits, sorted(s.expanded)
            for x, y, what in ((la, lb, 'lists'), (fa, fb, 'fits'), (ea, eb, 'expansions')):
                if what == 'fits': x, y = [sorted(r) for r in x if r], [sorted(r) for r in y if r]
                if what == 'lists': x, y = list(x), list(y); x[2], y[2] = sorted(x[2]), sorted(y[2])
                if x != y: raise Violation('same-result', where, f'{what} of a search continued after {cuts} rounds: {y}, in one go: {x} (start {start}, expansions {GRAPHS[graph]}, {rounds} rounds, beam {beam})')
        R.explore('continued', go, w, max_paths=60000)


def tasks(tier):
    C = CASES + (MORE if tier == 'thorough' else [])
    return [(f'split {c}', 't_split', ([c],)) for c in C]
