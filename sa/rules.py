"""Independent statement of the expansion operators and production rules, over spec trees (see kes.py)."""
from .kes import *
from . import trees


def counts_of(t): return {k: v for k, v in t[1].items() if v > 0}

def less(t, k): return (t[0], {b: (v - 1 if b == k else v) for b, v in t[1].items()}, list(t[2]))
def more(t, k, n=1):
    c = dict(t[1]); c[k] = c.get(k, 0) + n
    return (t[0], c, list(t[2]))

LIN2 = ('P', {'LIN': 2}, []); LIN3 = ('P', {'LIN': 3}, [])

# each: operand(s) -> list of spec trees (before normalisation)
def s_add(a, b): return _combine('S', 'P', a, b)
def s_multiply(a, b): return _combine('P', 'S', a, b)
def _combine(kind, other, a, b):
    r = [(kind, {}, [a, b])]
    for x, y in ((a, b), (b, a)):
        if isinstance(x, str) and not isinstance(y, str) and y[0] == other:   # also onto each of its base terms
            for k in counts_of(y):
                z = less(y, k)
                r.append((z[0], z[1], z[2] + [(kind, {}, [x, k])]))
    return r
def s_swap(S, B):
    if S[0] in ('S', 'P'): return [more(less(S, k), B) for k in counts_of(S)]
    return [(S[0],) + tuple(B if j == i else S[1 + j] for j in (0, 1)) for i in (0, 1) if isinstance(S[1 + i], str) and S[1 + i] != B]
def s_change(S, S2, kinds, off):
    if S2 is None or same(canonical_root(S, off) if not isinstance(S, str) else ('S', {S: 1}, []), canonical_root(S2, off) if not isinstance(S2, str) else ('S', {S2: 1}, [])): return [(c, S, S) for c in kinds]
    return [x for c in kinds for x in ((c, S, S2), (c, S2, S))]
def s_remove(S):
    if S[0] in ('S', 'P'):
        n = total(S[1]) + len(S[2])
        if not n > 1: return []
        return [less(S, k) for k in counts_of(S)] + [(S[0], S[1], S[2][:i] + S[2][i + 1:]) for i in range(len(S[2]))]
    return [S[1], S[2]]
def s_higher(S):
    if S[0] == 'S':
        c = {k: v for k, v in S[1].items() if k != 'SE'}
        return [('S', c, S[2] + [h]) for h in (LIN2, LIN3)]
    if S[0] == 'P':
        c = {k: v for k, v in S[1].items() if k != 'SE'}
        z = ('P', c, list(S[2]))
        return [more(z, 'LIN', 2), more(z, 'LIN', 3), more(z, 'PER', 1 if S[1].get('PER', 0) > 0 else 2)]
    return [(S[0],) + tuple(h if j == i else S[1 + j] for j in (0, 1)) for i in (0, 1) if isinstance(S[1 + i], str) for h in (LIN2, LIN3)]


def rule_spec(name, S, BP, off):
    """Replacements of the node S by the rule of that name"""
    BC = [b for b in BP if b != 'C']
    cat = lambda f, bs: [x for b in bs for x in f(b)]
    if name == 'plus_base': return cat(lambda b: s_add(S, b), BP)
    if name == 'times_base': return cat(lambda b: s_multiply(S, b), BC)
    if name == 'replace_base': return cat(lambda b: s_swap(S, b), BP)
    if name == 'change_new_base': return cat(lambda b: s_change(S, b, ('CP', 'CW'), off), BC)
    if name == 'change_same': return s_change(S, None, ('CP', 'CW'), off)
    if name == 'change_window_constant': return s_change(S, 'C', ('CW',), off)
    if name == 'change_window_linear': return s_change(S, 'LIN', ('CW',), off)
    if name == 'change_point_linear': return s_change(S, 'LIN', ('CP',), off)
    if name == 'times_shifted_base': return cat(lambda b: s_multiply(S, ('S', {}, [b, 'C'])), BC)
    if name == 'replace_with_singleton': return list(BP)
    if name == 'remove_some_term': return s_remove(S)
    if name == 'try_higher_curves': return s_higher(S)
    return None

RULES = ('plus_base', 'times_base', 'replace_base', 'change_new_base', 'change_same', 'change_window_constant', 'change_window_linear', 'change_point_linear',
         'times_shifted_base', 'replace_with_singleton', 'remove_some_term', 'try_higher_curves')


def positions(t):
    """(node as a spec tree, function putting a replacement in its place); base kernels which are sides of changes count as singleton sums"""
    out = [(t, lambda r: r)]
    if t[0] in ('S', 'P'):
        for i, c in enumerate(t[2]):
            for n, f in positions(c): out.append((n, lambda r, f=f, i=i: (t[0], t[1], t[2][:i] + [f(r)] + t[2][i + 1:])))
    else:
        for i in (1, 2):
            if isinstance(t[i], str): out.append((('S', {t[i]: 1}, []), lambda r, i=i: t[:i] + (r,) + t[i + 1:]))
            else:
                for n, f in positions(t[i]): out.append((n, lambda r, f=f, i=i: t[:i] + (f(r),) + t[i + 1:]))
    return out


def dedupe(ts):
    out = []
    for t in ts:
        if not any(same(t, u) for u in out): out.append(t)
    return out

def expected(t, rules, BP, off):
    """Canonical roots which expanding t with the rules has to give"""
    out = {}
    for S, put in positions(t):
        for name in rules:
            for r in rule_spec(name, S, BP, off):
                c = canonical_root(put(r), off)
                out.setdefault(trees.key(ints(c)), c)
    return list(out.values())

def ints(t):
    """Constant multiplicities as integers"""
    if isinstance(t, str): return t
    if t[0] in ('S', 'P'): return (t[0], {k: int(num(v).const()) for k, v in t[1].items() if not num(v).iszero()}, [ints(c) for c in t[2]])
    return (t[0], ints(t[1]), ints(t[2]))


def shapes(tier):
    """Canonical trees to be expanded"""
    K5 = ('WN', 'C', 'LIN', 'SE', 'PER')
    g = trees.Gen(K5, True)
    s = lambda c, *k: ('S', c, list(k)); p = lambda c, *k: ('P', c, list(k)); cp = lambda a, b: ('CP', a, b); cw = lambda a, b: ('CW', a, b)
    out = g.roots(1) + g.roots(2)
    r3 = trees.Gen(('C', 'LIN', 'SE', 'PER'), True).roots(3)
    out += r3 if tier == 'thorough' else r3[::9]
    out += [p({'LIN': 2}, s({'PER': 1, 'WN': 1})), s({'SE': 1}, p({'LIN': 1, 'PER': 1}), p({'LIN': 1, 'PER': 1})), cp(s({'LIN': 1, 'PER': 1}), p({'LIN': 2})),
            cw(cp('LIN', 'PER'), 'C'), cp('PER', cw('LIN', s({'PER': 1, 'SE': 1}))), s({'WN': 1}, cp('LIN', 'PER')), p({'SE': 1}, cw('C', 'LIN')), s({}, cp('LIN', 'LIN'), cp('LIN', 'LIN')),
            p({}, s({'LIN': 1, 'PER': 1}), s({'LIN': 1, 'PER': 1})), s({'PER': 1}, p({'LIN': 1}, s({'PER': 1, 'C': 1}))), cp(p({'WN': 1, 'LIN': 1}), p({'WN': 1, 'LIN': 1})),
            p({'PER': 2, 'SE': 1}), s({'PER': 2, 'LIN': 2}), s({'PER': 1}, p({}, s({'PER': 1, 'C': 1}), cp('SE', 'WN')))]
    out += [s({'PER': 1}, p({'SE': 1}, s({'WN': 1}, p({'LIN': 1, 'PER': 1})))), p({'LIN': 1}, s({'PER': 1}, p({'SE': 1}, s({'LIN': 1, 'WN': 1})))), s({'PER': 1}, cp(s({'WN': 1}, p({'LIN': 1, 'PER': 1})), 'C')),
            p({'PER': 1}, cw('LIN', p({'SE': 1}, s({'WN': 1, 'PER': 1})))), cp(p({'SE': 1}, s({'WN': 1}, cp('LIN', 'PER'))), 'LIN')]
    return out
