"""C16: verbosity affects only what is printed."""
import re
from ..search import *

RULE = ('Non-interference by abstract interpretation: on each partition (orders of the opaque scores) the search, its continuation and single fits are interpreted with and without the verbosity flag; the five lists, the '
        'fits and the expansions made are the same, the quiet one prints nothing, producing the messages never fails, and the models listed and counted by the messages of a round are those of that round.')
ASSUMPTIONS = ['start kernels are distinct', 'messages of GPy itself are not analysed', 'universe of expressions and bounds as for C05']

CASES = [((0, 1), 'tree', 2, [1, 1]), ((0,), 'wide', 2, [1, 3]), ((0, 1, 2), 'barren', 3, [1]), ((0, 1, 2), 'barren', 0, [3, 2, 1]), ((0, 1), 'tree', 0, 1), ((0, 1), 'tree', 0, []), ((0, 1), 'merging', 2, [9, 9]), ((0, 1), 'merging', 3, [0, 1, 0]),
         ((0, 1), 'merging', 2, 3), ((0,), 'barren', 2, 5), ((0,), 'chain', 3, [1]), ((2, 1, 0), 'late', 2, [3, 1]), ((0, 1), 'merging', 3, [2, 1]), ((), 'barren', 1, [1]), ((), 'barren', 0, 1), ((0, 1), 'barren', 2, [0, 0])]
MORE = [((0, 1, 2), 'merging', 3, [2, 2, 2]), ((0, 1), 'tree', 3, [1, 1, 1]), ((0, 1), 'chain', 5, [1, 2])]


def listed(R, res, t, rounds, first, where):
    """The models listed by the messages are those of their rounds"""
    sm, tm, _, _, ne = res
    def prefix(got, models, what):
        names = [str(m.kernel_expression) for m in models]
        if got.strip() not in [', '.join(names[:k]) for k in range(1 if names else 0, len(names) + 1)]: raise Violation('messages', where, f'{what} are listed as {got!r} though they are {names}')
    news = re.findall(r'Best new:(.*)', t); far = re.findall(r'Best so far:(.*)', t); rest = re.findall(r'Best not-already-expanded:(.*)', t); counts = re.findall(r'\[(\d+) new', t)
    counts = counts[-rounds:] if rounds else []
    if len(news) == rounds:
        for got, l in zip(news, tm[first:]): prefix(got, l, 'the best new models of a round') if got.strip() else None
    if len(counts) == rounds:
        for got, l in zip(counts, tm[first:]):
            if int(got) != len(l): raise Violation('messages', where, f'a round is said to have {got} new models instead of {len(l)}')
    if rounds and len(far) == rounds and far[-1].strip(): prefix(far[-1], sm, 'the best models so far')
    if rounds and len(rest) == rounds and rest[-1].strip(): prefix(rest[-1], ne, 'the best models not expanded')


def text(w): return ''.join(map(str, w.interp.out))


def t_search(R, cases, both=True):
    w = world({}, ('Models.modelSearch', ''))
    s = Setup(w); where = where_of(s.S.explore_model_space); where2 = where_of(s.S.model_search_rounds)
    for start, graph, rounds, beam in cases:
        bs = expected_beam(beam, rounds)
        def run(v, r1):
            s.arm()
            w.interp.out.clear(); before = ''
            b = list(beam) if isinstance(beam, list) else beam
            if r1 is None: res = s.search(start, graph, rounds, b, verbose=v)
            else:
                res = s.search(start, graph, r1, bs[:r1], verbose=v); before = text(w)
                res = s.more(res, graph, rounds - r1, bs[r1:], verbose=v)
            if v: listed(R, res, text(w)[len(before):], rounds - (r1 or 0), 1 + (r1 or 0), where if r1 is None else where2)
            return s.lists(res), s.fits, sorted(s.expanded), text(w)
        def go():
            r1 = choose('continued after', [None] + (list(range(rounds + 1)) if rounds else []))
            wh = where if r1 is None else where2
            a = run(False, r1)
            if a[3]: raise Violation('quiet', wh, f'a search which is not verbose prints {a[3][:200]!r} (start {start}, {rounds} rounds, beam {beam})')
            b = run(True, r1)
            for x, y, what in zip(a, b, ('the returned lists', 'the fits made', 'the expansions made')):
                if x != y: raise Violation('interference', wh, f'verbosity changes {what}: {x} becomes {y} (start {start}, expansions {GRAPHS[graph]}, {rounds} rounds, beam {beam})')
        R.explore('verbosity', go, w, max_paths=60000)


def t_fit(R):
    w = world({}, ('Models.modelSearch', ''))
    K = KE(w); G = w.get('Models.model:GPModel')
    def go():
        a = G(X, Y, K.Sum(['LIN'])._initialise()); b = G(X, Y, K.Sum(['LIN'])._initialise())
        r = choose('robust', [False, True])
        v = choose('verbose', ['default', False, True])
        ops = lambda c: {k: v for k, v in c.items() if k != 'verbose'}
        a.fit(4, 'scg', robust=r)
        b.fit(4, 'scg', robust=r, **({} if v == 'default' else {'verbose': v}))
        c = [c for c in w.lib.calls if c[0] == 'optimize_restarts']
        if len(c) != 2: raise Undecided('fits made differently')
        if repr(ops(c[0][2])) != repr(ops(c[1][2])): raise Violation('interference', where_of(G.fit), f'verbosity changes the fit: {c[0][2]} becomes {c[1][2]}')
        if v is not True:
            if c[1][2].get('verbose'): raise Violation('quiet', where_of(G.fit), 'a fit which is not verbose prints progress')
        elif not c[1][2].get('verbose'): raise Violation('interference', where_of(G.fit), 'a verbose fit does not print progress')
    R.explore('fit', go, w)


def tasks(tier):
    C = CASES + (MORE if tier == 'thorough' else [])
    return [(f'search {c}', 't_search', ([c],)) for c in C] + [('fit', 't_fit', ())]
