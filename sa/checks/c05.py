"""C05: the search's rounds."""
from ..search import *

RULE = ('Abstract interpretation of explore_model_space and model_search_rounds with one unknown score per expression: the analysis splits on each comparison of scores the code makes, so every order and coincidence of '
        'scores is a partition. The production rules are relations over a universe of expressions (trees, merging and repeated results, results which were tested before, none). On each partition the '
        'five returned lists, the expansions made and the fits made are compared with a specification of the rounds: a comparison of scores that the code has not established is a violation.')
ASSUMPTIONS = ['start kernels are distinct', 'beam entries are non-negative', 'at most 7 models per search in the quick tier, 8 in the thorough one (so that all orders can be enumerated)']


def check(s, res, start, graph, rounds, beam, where):
    def bad(msg): raise Violation('rounds', where, f'{msg} (start {start}, expansions {GRAPHS[graph]}, {rounds} rounds, beam {beam}; lists {s.lists(res)})')
    sm, tm, tk, ex, ne = res
    bs = expected_beam(beam, rounds)
    models = [m for l in tm for m in l]
    ids = {id(m) for m in models}
    if len(tm) != rounds + 1: bad(f'{len(tm)} rounds of models are listed')
    if len(ids) != len(models): bad('a model is listed in two rounds')
    if ids != {id(m) for m in s.created} or len(models) != len(s.created): bad('the listed models are not the fitted ones')
    keys = s.keys(models)
    if len(set(keys)) != len(keys): bad('an expression is fitted twice')
    def sc(m): return s.ll(s.key(m.kernel_expression))
    def is_sorted(l, what):
        for a, b in zip(l, l[1:]):
            if sc(a) > sc(b): bad(f'{what} are not listed best first')
    for m in models:
        v = m.cached_utility_function
        if not (isinstance(v, Num) and v.same(sc(m))): bad(f'the score kept by a model is {v!r} instead of {sc(m)!r}')
    for i, l in enumerate(tm): is_sorted(l, f'the models of round {i}')
    if len(sm) != len(models) or {id(m) for m in sm} != ids: bad('the overall list is not the list of all models')
    is_sorted(sm, 'all models')
    if sorted(s.key(k) for k in tk) != sorted(keys): bad('the tested expressions are not those of the models')
    both = [id(m) for m in list(ex) + list(ne)]
    if len(both) != len(models) or set(both) != ids: bad('expanded and not-expanded models do not partition the models')
    is_sorted(ne, 'not-expanded models')
    if sorted(keys[:len(tm[0])]) != sorted(start): bad('the first round is not that of the start kernels')
    pool = list(tm[0]); pos = 0; tested = set(start); done = []
    for r, b in enumerate(bs, 1):
        nb = min(b, len(pool)); now = ex[pos:pos + nb]; pos += nb
        if len(now) != nb: bad(f'{len(now)} models are expanded in round {r} instead of {nb}')
        for e in now:
            if not any(e is p for p in pool): bad(f'a model which was not available is expanded in round {r}')
        rest = [p for p in pool if not any(p is e for e in now)]
        for e in now:
            for f in rest:
                if sc(e) > sc(f): bad(f'{s.key(e.kernel_expression)} is expanded in round {r} though {s.key(f.kernel_expression)} may be better')
        new = {j for e in now for j in GRAPHS[graph].get(s.key(e.kernel_expression), [])} - tested
        got = s.keys(tm[r])
        if set(got) != new: bad(f'round {r} fits {sorted(got)} instead of {sorted(new)}')
        tested |= new; pool = rest + list(tm[r]); done += s.keys(now)
    if len(ex) != pos: bad('more models are listed as expanded than the beam allows')
    if sorted(s.expanded) != sorted(done): bad(f'the expressions actually expanded are {sorted(s.expanded)}')


CASES_QUICK = [
    ((0,), 'chain', 3, [1]), ((0, 1), 'tree', 1, [1]), ((0, 1), 'tree', 1, 2), ((0, 1), 'tree', 2, [1, 1]), ((0, 1), 'tree', 2, 1), ((0, 2), 'tree', 2, [2, 1]), ((0, 1), 'merging', 3, [1]), ((0, 1), 'merging', 3, [2, 1]),
    ((0, 1), 'merging', 2, [9, 9]), ((0, 1), 'merging', 2, [1, 2, 1]), ((0, 1), 'merging', 2, 3), ((0, 1, 2), 'merging', 2, [1, 2]), ((0, 1, 2), 'late', 3, [1, 1, 1]), ((0, 1, 2), 'late', 3, [2, 1]), ((0, 1, 2), 'barren', 3, [1]),
    ((0, 1, 2), 'barren', 2, [0, 2]), ((0, 1, 2), 'barren', 0, [3, 2, 1]), ((0, 1), 'tree', 0, 1), ((0, 1), 'tree', 0, []), ((0,), 'wide', 2, [1, 3]), ((0, 1), 'merging', 4, [2, 0, 1]), ((1, 0), 'late', 4, 1), ((0, 3), 'chain', 3, [2, 1, 1]),
    ((2, 1, 0), 'late', 2, [3, 1]), ((0,), 'barren', 2, 5), ((0, 1), 'late', 3, [1, 0, 2]),
]
CASES_MORE = [((0, 1), 'tree', 2, [2, 1]), ((0, 1), 'tree', 3, [1, 0, 2]), ((0, 1), 'chain', 4, [2, 1, 1, 1]), ((0, 1), 'tree', 3, [1, 1, 1]), ((0, 1), 'tree', 2, [2, 2]), ((0, 1, 2), 'tree', 2, [1, 1]), ((0, 1, 2), 'merging', 3, [2, 2, 2]), ((0, 1, 2, 9), 'late', 3, [2, 1]), ((0, 1, 2), 'late', 4, 3), ((0, 1), 'chain', 5, [1, 2]), ((0, 1, 2), 'tree', 1, [3])]


def t_rounds(R, cases):
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w)
    where = where_of(s.S.explore_model_space)
    for start, graph, rounds, beam in cases:
        def go():
            s.arm()
            split = choose('rules', [False, True]) if graph == 'merging' and len(start) == 2 else False
            b = list(beam) if isinstance(beam, list) else beam
            res = s.search(start, graph, rounds, b, split=split, how='names' if rounds == 2 else 'exprs')
            check(s, res, start, graph, rounds, beam, where)
        R.explore('rounds', go, w, max_paths=60000)


def t_continue(R, cases):
    """The same for continued searches"""
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w)
    where = where_of(s.S.model_search_rounds)
    for start, graph, rounds, beam in cases:
        def go():
            s.arm()
            bs = expected_beam(beam, rounds)
            r1 = choose('split', list(range(rounds + 1)))
            a = s.search(start, graph, r1, bs[:r1])
            res = s.more(a, graph, rounds - r1, bs[r1:])
            check(s, res, start, graph, rounds, bs, where)
        R.explore('continued', go, w, max_paths=60000)


def t_long(R, cont):
    """Many models (known scores): what is remembered does not depend on how many there are or how long ago they were found"""
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); where = where_of(s.S.explore_model_space)
    def go():
        s.arm()
        for i in range(len(ALL)): s._ll[i] = Num.of(i if i < 16 else (i * 7) % 16 if i - 16 else -1)
        s._ll[0] = Num.of(-2)
        if not cont: return check(s, s.search((0,), LONG, 3, [1, 1, 2]), (0,), LONG, 3, [1, 1, 2], where)
        a = s.search((0,), LONG, 1, [1])
        check(s, s.more(a, LONG, 2, [1, 2]), (0,), LONG, 3, [1, 1, 2], where)
    try: R.explore('many models', go, w)
    finally: s._ll.clear()


def t_broad(R, rounds, beam, cont):
    """Large beams over many start kernels (known scores in several orders, with ties)"""
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); where = where_of(s.S.explore_model_space); start = (0, 1, 2, 3, 4, 5, 6, 7)
    def go():
        s.arm()
        k, ties = choose('order', [1, 3, 5, 7, 11, 13]), choose('ties', [1, 2, 4])
        for i in range(len(U)): s._ll[i] = Num.of((i * k % 17) // ties)
        if not cont: return check(s, s.search(start, 'broad', rounds, beam), start, 'broad', rounds, beam, where)
        bs = expected_beam(beam, rounds); r1 = choose('split', list(range(rounds)))
        a = s.search(start, 'broad', r1, bs[:r1])
        check(s, s.more(a, 'broad', rounds - r1, bs[r1:]), start, 'broad', rounds, bs, where)
    try: R.explore('large beams', go, w)
    finally: s._ll.clear()


def tasks(tier):
    C = CASES_QUICK + (CASES_MORE if tier == 'thorough' else [])
    T = [(f'rounds {c}', 't_rounds', ([c],)) for c in C]
    T += [(f'continued {c}', 't_continue', ([c],)) for c in C if c[2] >= 1 and c[0] != (0, 1, 2) or tier == 'thorough']
    T += [('many models', 't_long', (False,)), ('many models, continued', 't_long', (True,))]
    T += [(f'large beams {b} {"continued" if c else ""}', 't_broad', (len(b) if isinstance(b, list) else 3, b, c)) for b in ([5, 4], [7, 1, 6], [4], [6, 6, 6, 6], 5, 12, [8, 2, 9]) for c in (False, True)]
    return T
