"""C18: equality of expressions."""
from ..common import *
from ..kes import *
from .. import trees
from ..num import Num

RULE = ('Abstract interpretation of the equality methods on pairs of expressions: (1) single sums and products with every multiplicity an unknown number, against equality of all multiplicities; '
        '(2) all pairs of canonical trees within the size bound, every reordering of the terms of a tree, copies, nodes within trees, expressions with fitted parameters and with different links, '
        'against an independent structural comparison of the contents (multisets of terms; sides in order). Symmetry, reflexivity and "not equal" consistent with "equal" are decided on the same pairs, transitivity on classes.')
ASSUMPTIONS = ['canonical trees of at most 4 leaves (pairs), 5 leaves (reorderings); thorough: 4 and 6']

wh_of = lambda K, t: where_of(type_of(K, t).__eq__)
def type_of(K, t): return K.Change if t[0] in ('CP', 'CW') else K.Sum if t[0] == 'S' else K.Prod


def t_symbolic(R, ka, kb, kinds, flags):
    """Two single nodes of unknown multiplicities"""
    w = world(flags, ('KernelExpressions.all',)); K = KE(w)
    def go():
        ca = {k: Num.atom(f'a{k}', integer=True, nonneg=True) for k in kinds}; cb = {k: Num.atom(f'b{k}', integer=True, nonneg=True) for k in kinds}
        assume_positive(total(ca)); assume_positive(total(cb))
        a = K.build((ka, ca, [])); b = K.build((kb, cb, []))
        got = a == b
        ra, rb = K.read(a), K.read(b)
        want = same(ra, rb)
        if bool(got) != want: raise Violation('multiplicities', where_of(type(a).__eq__), f'{show(ra)} and {show(rb)} compare {"equal" if got else "unequal"}')
        if bool(a != b) == bool(got): raise Violation('multiplicities', where_of(type(a).__eq__), f'{show(ra)} and {show(rb)} are both equal and not equal')
        if bool(b == a) != bool(got): raise Violation('multiplicities', where_of(type(a).__eq__), f'comparison of {show(ra)} and {show(rb)} is not symmetric')
    R.explore('multiplicities', go, w, max_paths=60000)


def perms(t, limit=6):
    """Reorderings of the terms at every node of a tree (a few per node)"""
    if isinstance(t, str): return [t]
    if t[0] in ('CP', 'CW'): return [(t[0], a, b) for a in perms(t[1], 2) for b in perms(t[2], 2)][:limit]
    from itertools import permutations, product
    items = list(t[1].items()); out = []
    orders = [items, items[::-1]] if len(items) > 1 else [items]
    for o in orders:
        for kids in permutations(t[2]):
            for ks in product(*[perms(k, 2) for k in kids]): out.append((t[0], dict(o), list(ks)))
            if len(out) > 4 * limit: break
    return (out[:limit - 2] + out[-2:]) if len(out) > limit else out


def t_pairs(R, part, allt, flags):
    w = world(flags, ('KernelExpressions.all',)); K = KE(w)
    from copy import deepcopy
    objs = {}
    def obj(i):
        return K.build(allt[i])
    def go():
        built = [obj(i) for i in range(len(allt))]
        reads = [K.read(x) for x in built]
        for i in part:
            for j in range(len(allt)):
                a, b = built[i], built[j] if i != j else obj(j)
                got = a == b; want = same(reads[i], reads[j])
                if bool(got) != want: raise Violation('pairs', wh_of(K, allt[i]), f'{show(reads[i])} and {show(reads[j])} compare {"equal" if got else "unequal"}')
                if bool(a != b) == bool(got): raise Violation('pairs', wh_of(K, allt[i]), f'{show(reads[i])} and {show(reads[j])} are both equal and not equal')
            for s in ('LIN', 'PER', repr(built[i]), None, 1, [], str(built[i])):
                if built[i] == s: raise Violation('pairs', wh_of(K, allt[i]), f'{show(reads[i])} is equal to {s!r}')
                if not (built[i] != s): raise Violation('pairs', wh_of(K, allt[i]), f'{show(reads[i])} is not different from {s!r}')
    # one partition (the shapes are concrete); split so that a violation names one expression
    R.notes.append(f'{len(part)} x {len(allt)} pairs compared')
    R.explore('pairs', go, w)


def t_reorder(R, part, flags):
    w = world(flags, ('KernelExpressions.all',)); K = KE(w)
    from copy import deepcopy
    def params(x, tag):
        """Parameters as after a fit, different ones for each tag"""
        for n in x.traverse():
            n.parameters['LIN'].append({'variance': Num.atom(f'v{tag}')}); n.parameters['PER'] = [tag]
        return x
    for t in part:
        def go():
            x = K.build(t)._initialise(); rx = K.read(x)
            wh = wh_of(K, t)
            def eq(a, b, what):
                for p, q in ((a, b), (b, a)):
                    if not (p == q): raise Violation('identity', wh, f'{show(rx)} differs from {what}')
                    if p != q: raise Violation('identity', wh, f'{show(rx)} is not equal to {what}')
            eq(x, x, 'itself')
            eq(x, deepcopy(x), 'its copy')
            eq(x, params(deepcopy(x), 'p'), 'itself with parameters')
            eq(params(deepcopy(x), 'q'), params(deepcopy(x), 'p'), 'itself with other parameters')
            eq(x, K.build(t), 'itself without links')
            for p in perms(t): eq(x, K.build(p)._initialise(), f'its reordering {show(p)}')
            # position in a tree does not matter
            for how in ('CP', 'S', 'P'):
                y = K.Change('CP', x, 'PER') if how == 'CP' else (K.Sum if how == 'S' else K.Prod)(['PER', 'LIN'], [x])
                y = y._initialise()
                c = y.left if how == 'CP' else next((c for c in y.composite_terms), None)
                if isinstance(c, K.Base) and same(K.read(c), rx): eq(x, c, f'itself within {show(K.read(y))}')
            # the nodes of a tree equal their own copies and nothing of another content
            ns = [n for n in x.traverse()]
            for a in ns:
                for b in ns:
                    want = same(K.read(a), K.read(b))
                    if bool(a == b) != want: raise Violation('identity', wh, f'the nodes {show(K.read(a))} and {show(K.read(b))} of {show(rx)} compare {"unequal" if want else "equal"}')
            # one more or one less of anything is a difference
            if t[0] in 'SP':
                for k in KINDS:
                    y = deepcopy(x); y.base_terms[k] += 1
                    if x == y or y == x: raise Violation('identity', wh, f'{show(rx)} is equal to {show(K.read(y))}')
                    y = deepcopy(x); y.base_terms[k] += 0
                    eq(x, y, 'itself with an entry of multiplicity 0')
                for c in t[2]:
                    y = deepcopy(x); y.composite_terms = y.composite_terms + [deepcopy(y.composite_terms[0])]
                    if x == y or y == x: raise Violation('identity', wh, f'{show(rx)} is equal to {show(K.read(y))}')
                    y = deepcopy(x); y.composite_terms = y.composite_terms[1:]
                    if x == y or y == x: raise Violation('identity', wh, f'{show(rx)} is equal to {show(K.read(y))}')
        R.explore('identity', go, w)


def tasks(tier):
    big = tier == 'thorough'
    T = []
    for fl in (cfg(), cfg(se=False, off=False)):
        T += [(f'{a}{b} {ks} {cfg_str(fl)}', 't_symbolic', (a, b, ks, fl)) for ks in ([('LIN', 'PER', 'C'), ('WN', 'SE', 'LIN'), ('WN', 'C', 'PER')] if not big else [KINDS]) for a in 'SP' for b in 'SP']
    g = trees.Gen(KINDS, True)
    small = [t for n in (1, 2, 3) for t in trees.Gen(('LIN', 'PER', 'WN') if not big else KINDS, True).roots(n)]
    if big: small += trees.Gen(('LIN', 'PER'), True).roots(4)
    else: small += [t for i, t in enumerate(trees.Gen(('LIN', 'PER'), True).roots(4)) if i % 3 == 0]
    idx = list(range(len(small)))
    nb = 16 if not big else 64
    T += [(f'pairs {i}', 't_pairs', (idx[i::nb], small, cfg())) for i in range(nb)]
    many = [t for n in (1, 2, 3) for t in g.roots(n)] + trees.Gen(('LIN', 'PER'), True).roots(4)
    five = trees.Gen(('LIN', 'PER'), True).roots(5)
    many += five[::40] if not big else five[::4]
    nb = 16
    T += [(f'reorder {i}', 't_reorder', (many[i::nb], cfg())) for i in range(nb)]
    return T
