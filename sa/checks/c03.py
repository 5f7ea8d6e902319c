"""C03: every expression simplifies to the documented normal form."""
from collections import Counter
from ..common import *
from ..kes import *

RULE = ('Abstract interpretation of simplify() and of the expression constructors over trees whose base-kernel multiplicities are abstract non-negative integers '
        '(one symbol per base kind and node, so each partition covers every multiplicity satisfying its linear path condition). Each partition is one obligation: the simplified '
        'tree equals, up to the order of terms, the normal form computed by an independent definition of the documented rules, and simplifying again changes nothing; the same for trees one of whose nested nodes was changed (a term added or the node replaced) before their root is simplified, whose parent and root links are checked too.')
ASSUMPTIONS = ['tree shapes are k-limited (depth 3, at most two composite children per node); multiplicities are unbounded', 'summaries of the Python builtins and containers (sa/)']


def counts(tag, kinds=KINDS): return {k: Num.atom(f'{tag}.{k}', integer=True, nonneg=True) for k in kinds}

SHAPES = [
    ('S', [], []), ('P', [], []),
    ('S', [('P', [])], []), ('P', [('S', [])], []), ('S', [('S', [])], []), ('P', [('P', [])], []),
]

def shape(s, n=[0]):
    """('S', kids) with fresh abstract multiplicities"""
    if isinstance(s, str): return s
    if s[0] in ('CP', 'CW'): return (s[0], shape(s[1]), shape(s[2]))
    n[0] += 1
    kinds = s[2] if len(s) > 2 else KINDS
    return (s[0], counts(f'n{n[0]}', kinds), [shape(k) for k in s[1]])


def t_simplify(R, sh, flags):
    w = world(flags, ('KernelExpressions.all',))
    K = KE(w)
    base = shape(sh)
    def go():
        t = base
        admissible(t)
        k = K.build(t)
        got = K.read(k)
        want = normal(t, K.off, top=True)
        wh = where_of(type(k).simplify)
        if not same(got, want): raise Violation('normal-form', wh, f'{show(t)} simplifies to {show(got)} instead of {show(want)}')
        k.simplify()
        again = K.read(k)
        if not same(again, got): raise Violation('idempotent', wh, f'simplifying {show(got)} again gives {show(again)}')
    R.explore('normal-form', go, w, max_paths=6000)


def t_wide(R, kind, flags):
    """Many composite terms, handed over by several nested nodes of the same kind, some of them equal"""
    w = world(flags, ('KernelExpressions.all',))
    K = KE(w)
    o = 'P' if kind == 'S' else 'S'
    parts = [(o, {'LIN': 1, 'PER': 1}, []), (o, {'PER': 2}, []), (o, {'LIN': 1, 'SE': 1}, []), ('CP', 'LIN', 'PER'), (o, {'PER': 1}, [(kind, {'LIN': 1, 'WN': 1}, [])]), ('CW', 'PER', 'LIN')]
    def go():
        n = choose('terms', range(0, 7)); m = choose('terms of a nested node', range(0, 7)); again = choose('deeper', [False, True]); first = choose('starting at', [0, 2])
        ring = parts[first:] + parts[:first]
        inner = (kind, {'PER': 1}, [ring[i % 6] for i in range(m)] + ([(kind, {'LIN': 1}, list(ring[:m]))] if again else []))
        t = (kind, {'LIN': 1}, [parts[i] for i in range(n)] + [inner] + ([inner] if again else []))
        k = K.build(t)
        got = K.read(k); want = normal(t, K.off, top=True); wh = where_of(type(k).simplify)
        if not same(got, want): raise Violation('normal-form', wh, f'{show(t)} simplifies to {show(got)} instead of {show(want)}')
        K.well_formed(K.build(t)._initialise(), 'links', wh)
        k = K.build((kind, {'LIN': 1}, [parts[i] for i in range(n)]))._initialise(); new = K.build(inner)
        k.new_composite(new.set_parent(k).set_root(k)); k.simplify()
        K.well_formed(k, 'links', wh)
    R.explore('many terms', go, w, max_paths=2000)


def t_attach(R, sh_host, sh_new, flags):
    """new_base / new_composite followed by simplify"""
    w = world(flags, ('KernelExpressions.all',))
    K = KE(w)
    a, b = shape(sh_host), shape(sh_new)
    def go():
        admissible(a); admissible(b)
        k = K.build(a)
        before = K.read(k)
        x = K.build(b)
        xs = K.read(x)
        k.new_composite(x).simplify()
        want = normal((before[0], before[1], before[2] + [xs]), K.off)
        got = K.read(k)
        if not same(got, want): raise Violation('attach', where_of(k.new_composite), f'{show(before)} with the new term {show(xs)} simplifies to {show(got)} instead of {show(want)}')
    R.explore('attach', go, w, max_paths=6000)
    def go2():
        admissible(a); admissible(b)
        k = K.build(a)
        before = K.read(k)
        nb = choose('new base', KINDS)
        k.new_base(nb)
        c = dict(before[1]); c[nb] = num(c.get(nb, 0)) + 1
        want = normal((before[0], c, before[2]), K.off)
        got = K.read(k.simplify())
        if not same(got, want): raise Violation('attach', where_of(k.new_base), f'{show(before)} with the new base term {nb} simplifies to {show(got)} instead of {show(want)}')
    R.explore('attach', go2, w, max_paths=6000)


def t_inner(R, sh, new, flags):
    """Expressions changed below their root: a term added to, or put in the place of, a nested node; the root is simplified afterwards"""
    w = world(flags, ('KernelExpressions.all',))
    K = KE(w)
    b = shape(new)
    def go():
        admissible(b)
        k = K.build(sh)._initialise()
        x = K.build(b)
        if isinstance(x, str): raise Infeasible
        nodes = []
        def walk(n, depth):
            nodes.append(n)
            for c in K.children(n): walk(c, depth + 1)
        walk(k, 0)
        i = choose('node', range(1, len(nodes))); n = nodes[i]
        how = choose('changed by', ['new_composite', 'new_base', 'replaced'])
        if how == 'new_composite':
            if isinstance(n, K.Change): raise Infeasible
            n.new_composite(x)
        elif how == 'new_base':
            if isinstance(n, K.Change): raise Infeasible
            n.new_base(choose('new base', ['WN', 'C', 'SE', 'LIN']))
        else: n.parent.reassign_child(n, x.set_parent(n.parent).set_root(k))
        raw = K.read(k)
        got = K.read(k.simplify()); want = normal(raw, K.off, top=True); wh = where_of(type(k).simplify)
        if not same(got, want): raise Violation('normal-form', wh, f'{show(raw)}, the result of changing a nested node, simplifies to {show(got)} instead of {show(want)}')
        K.well_formed(k, 'links', wh)
        again = K.read(k.simplify())
        if not same(again, got): raise Violation('idempotent', wh, f'simplifying {show(got)} again gives {show(again)}')
    R.explore('changed below the root', go, w, max_paths=6000)


def tasks(tier):
    S = lambda *k: ('S', list(k)); P = lambda *k: ('P', list(k))
    s2 = ('S', [], ('WN', 'C', 'LIN')); p2 = ('P', [], ('WN', 'C', 'SE')); s1 = ('S', [], ('C', 'PER')); p1 = ('P', [], ('C', 'LIN'))
    sm = ('S', [], ('C',)); pm = ('P', [], ('WN', 'SE'))
    shapes = [S(), P(), S(p2), P(s2), S(s2), P(p2), S(P(s1)[:2] + (('WN', 'SE'),)), P(S(p1)[:2] + (('C', 'LIN'),)),
              S(s1, p1), P(p1, s1), ('S', [p1, p1], ('WN', 'C', 'LIN')), ('P', [s1, s1], ('WN', 'C', 'SE')),
              S(('CP', s1, p1)), P(('CW', p1, s1)), ('CP', s1, p1), ('CW', p2, 'LIN'), ('CP', S(('S', [('P', [], ('C', 'SE'))], ('C',))), 'WN'),
              ('S', [('P', [('S', [('P', [], ('C', 'SE'))], ('C',))], ('LIN',))], ('WN',)), ('P', [('S', [('P', [('S', [], ('WN',))], ('C',))], ())], ('SE', 'PER')),
              ('P', [('P', [('P', [], ('WN', 'LIN'))], ('C',))], ('SE',)), ('S', [('P', [('P', [('S', [('S', [], ('C', 'LIN'))], ())], ())], ('WN',))], ('C',)),
              ('P', [('S', [sm], ()), ('P', [pm], ())], ('C',)), ('S', [('CP', ('P', [sm], ('C',)), ('S', [('CW', 'C', pm)], ()))], ('WN', 'LIN'))]
    T = [(f'simplify {i} {flag}', 't_simplify', (sh, cfg(off=o))) for i, sh in enumerate(shapes) for o, flag in ((True, 'offset'), (False, 'no offset'))]
    T += [(f'many terms {k} {flag}', 't_wide', (k, cfg(off=o))) for k in 'SP' for o, flag in ((True, 'offset'), (False, 'no offset'))]
    T += [(f'attach {i}', 't_attach', (h, n, {})) for i, (h, n) in enumerate([(S(), s2), (P(), p2), (P(), s1), (S(p1), p1), (('P', [s1], ('C', 'WN', 'LIN')), ('S', [], ('C',)))])]
    hosts = [('S', {'WN': 1}, [('P', {'LIN': 1}, [('S', {'PER': 1, 'SE': 1}, [])]), ('P', {'PER': 2}, [])]), ('P', {'SE': 1}, [('S', {'LIN': 1, 'C': 1}, [('P', {'PER': 1, 'LIN': 1}, [('CP', 'LIN', ('S', {'PER': 1, 'WN': 1}, []))])])]),
             ('CP', ('S', {'LIN': 1}, [('P', {'PER': 1}, [('S', {'SE': 1, 'LIN': 1}, [])])]), ('CW', 'PER', ('P', {'LIN': 2}, [])))]
    news = [('S', [], ('LIN', 'C')), ('P', [], ('WN', 'SE')), ('S', [('P', [], ('C', 'PER'))], ()), ('CP', 'LIN', ('S', [], ('WN',)))]
    T += [(f'inner {i} {j} {flag}', 't_inner', (h, n, cfg(off=o))) for i, h in enumerate(hosts) for j, n in enumerate(news) for o, flag in ((True, 'offset'), (False, 'no offset'))]
    if tier == 'thorough':
        import itertools
        leaf = [('S', [], ('WN', 'C', 'LIN')), ('P', [], ('WN', 'C', 'SE')), ('CP', 'C', ('S', [], ('C', 'LIN')))]
        mid = [(k, list(cs), ('C', 'LIN')) for k in 'SP' for n in (1, 2) for cs in itertools.combinations_with_replacement(leaf, n)]
        for i, m in enumerate(mid):
            for k in 'SP': T.append((f'simplify deep {i}{k}', 't_simplify', ((k, [m], ('WN', 'C')), {})))
            T.append((f'simplify deep {i}c', 't_simplify', (('CW', m, 'WN'), {})))
    return T
