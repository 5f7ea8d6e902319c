"""C22: queries about expressions and traversals agree with their contents."""
from ..common import *
from ..kes import *
from ..rules import *
from ..num import Num
from .. import trees
from collections import Counter

RULE = ('Abstract interpretation of the queries (contained base kernels, stationarity, number of terms, root and parent checks, singleton extraction), traversals (traverse, reduce) and growing methods (new_base, new_composite) of expressions: '
        'single nodes with every multiplicity an unknown number, canonical trees within the size bound, and the results of every production rule applied to them; each answer is compared with one computed from the contents. '
        'Queries and traversals leave the expression as it was.')
ASSUMPTIONS = ['canonical trees of at most 3 leaves, a selection of 4 and larger ones']

NONSTAT = ('LIN',)


def nodes(t):
    """Nodes in pre-order; base kernels which are sides of a change count as singleton sums"""
    if isinstance(t, str): return [('S', {t: 1}, [])]
    if t[0] in 'SP': return [t] + [n for c in t[2] for n in nodes(c)]
    return [t] + nodes(t[1]) + nodes(t[2])

def contains(t, b):
    if isinstance(t, str): return t == b
    if t[0] in 'SP': return bool(num(t[1].get(b, 0)) > 0) or any(contains(c, b) for c in t[2])
    return contains(t[1], b) or contains(t[2], b)

def stationary(t):
    if isinstance(t, str): return t not in NONSTAT
    if t[0] in 'SP': return not any(num(t[1].get(b, 0)) > 0 for b in NONSTAT) and all(stationary(c) for c in t[2])
    return False


def actual_nodes(K, x):
    return [x] + [n for c in K.children(x) for n in actual_nodes(K, c)]

def state(K, x):
    ns = actual_nodes(K, x)
    return [(id(n), id(n.root), id(n.parent), repr(K.read(n)), repr(dict(n.parameters))) for n in ns]


def queries(K, x, what):
    t = K.read(x)
    for b in KINDS:
        for arg in (b, [b]):
            got = x.contains_base(arg)
            if bool(got) != contains(t, b): raise Violation('contains', where_of(type(x).contains_base), f'{what}: {show(t)} {"contains" if got else "does not contain"} {arg!r}')
    for bs in ([], ['WN', 'PER'], ['C', 'LIN'], ['SE', 'C', 'WN'], list(KINDS)):
        got = x.contains_base(bs)
        if bool(got) != any(contains(t, b) for b in bs): raise Violation('contains', where_of(type(x).contains_base), f'{what}: {show(t)} {"contains" if got else "does not contain"} any of {bs}')
    got = x.is_stationary()
    if bool(got) != stationary(t): raise Violation('stationary', where_of(type(x).is_stationary), f'{what}: {show(t)} is stated {"" if got else "not "}to be stationary')
    if t[0] in 'SP':
        n = total(t[1]) + len(t[2])
        if not num(x.term_count()) == n: raise Violation('count', where_of(type(x).term_count), f'{what}: {show(t)} has {x.term_count()!r} terms')


def t_symbolic(R, kind, child, flags):
    w = world(flags, ('KernelExpressions.all',)); K = KE(w)
    kids = {'none': [], 'stationary': [('CP' if False else ('P' if kind == 'S' else 'S'), {'PER': 1, 'SE': 1} if kind == 'S' else {'PER': 2}, [])], 'linear': [('P' if kind == 'S' else 'S', {'LIN': 2}, [])], 'change': [('CP', 'PER', 'WN')]}[child]
    def go():
        c = {k: Num.atom(f'n{k}', integer=True, nonneg=True) for k in KINDS}
        if not kids: assume_positive(total(c))
        x = K.build((kind, c, kids))
        queries(K, x, 'with unknown multiplicities')
    R.explore('queries', go, w, max_paths=20000)
    def grow():
        how = choose('given as', ['name', 'list', 'Counter'])
        c = {k: Num.atom(f'n{k}', integer=True, nonneg=True) for k in ('LIN', 'PER', 'C')}
        if not kids: assume_positive(total(c))
        x = K.build((kind, c, kids)); before = K.read(x); b = choose('added', list(KINDS)); keep = x.composite_terms[:]
        arg = b if how == 'name' else [b, 'PER'] if how == 'list' else Counter({b: 2})
        add = Counter([arg]) if how == 'name' else Counter(arg); given = repr(arg)
        y = x.new_base(arg)
        if y is not x: raise Violation('grow', where_of(type(x).new_base), 'new_base does not return the expression')
        if repr(arg) != given: raise Violation('grow', where_of(type(x).new_base), f'new_base changes the terms given, {given}, into {arg!r}')
        cs = {k: num(before[1].get(k, 0)) + add.get(k, 0) for k in KINDS}
        want = norm_node(kind, cs, before[2], K.off)
        if not same(K.read(x), want): raise Violation('grow', where_of(type(x).new_base), f'adding {arg!r} to {show(before)} gives {show(K.read(x))} instead of {show(want)}')
        if any(a is not b for a, b in zip(keep, x.composite_terms)) or len(keep) != len(x.composite_terms): raise Violation('grow', where_of(type(x).new_base), 'adding base terms replaces composite ones')
    R.explore('new_base', grow, w, max_paths=40000)


def t_trees(R, part, flags, tier='quick'):
    w = world(flags, ('KernelExpansion.grammar',)); K = KE(w); G = w.import_module('GPy_ABCD.KernelExpansion.grammar')
    table = {n: f for d in G.production_rules_by_type.values() for n, f in d.items()}
    for t in part:
        if t[0] in 'SP' and not trees.Gen(KINDS, K.off).ok(t): continue
        def go():
            x = K.build(t)._initialise(); r = ints(K.read(x)); before = state(K, x); desc = show(r)
            queries(K, x, 'built')
            ns = x.traverse(); wt = where_of(type(x).traverse)
            if not isinstance(ns, list) or ns.count is None: raise Violation('traverse', wt, f'traversing gives {ns!r}')
            want = [trees.key(n) for n in nodes(r)]; got = [trees.key(ints(K.read(n))) for n in ns]
            if Counter(map(repr, want)) != Counter(map(repr, got)): raise Violation('traverse', wt, f'traversing {desc} gives {[show(ints(K.read(n))) for n in ns]}')
            real = actual_nodes(K, x)
            for n in real:
                if sum(1 for m in ns if m is n) != 1: raise Violation('traverse', wt, f'traversing {desc} visits the node {show(ints(K.read(n)))} {sum(1 for m in ns if m is n)} times')
            for m in ns:
                if not any(m is n for n in real):
                    if not isinstance(m, K.Sum) or m.composite_terms: raise Violation('traverse', wt, f'a node {show(ints(K.read(m)))} of {desc} is visited which is not in it')
                    if m.root is not x: raise Violation('traverse', wt, f'the node visited for a side {show(ints(K.read(m)))} of {desc} has another root')
                    if not isinstance(m.parent, K.Change) or not any(m.parent is n for n in real): raise Violation('traverse', wt, f'the node visited for a side {show(ints(K.read(m)))} of {desc} has no change as its parent')
            # reduce visits the same nodes, threading the accumulator
            calls = []
            class Acc:
                def __init__(self, seq): self.seq = seq
            first = Acc([])
            def func(node, acc):
                if not isinstance(acc, Acc): raise Violation('reduce', where_of(type(x).reduce), f'the accumulator becomes {acc!r}')
                return Acc(acc.seq + [node])
            out = x.reduce(func, first); wr = where_of(type(x).reduce)
            if not isinstance(out, Acc): raise Violation('reduce', wr, f'reducing gives {out!r}')
            if Counter(repr(trees.key(ints(K.read(n)))) for n in out.seq) != Counter(map(repr, want)): raise Violation('reduce', wr, f'reducing {desc} visits {[show(ints(K.read(n))) for n in out.seq]}')
            if [trees.key(ints(K.read(n))) for n in out.seq] != got: raise Violation('reduce', wr, f'reducing {desc} visits nodes in another order than traversing it: {[show(ints(K.read(n))) for n in out.seq]}')
            for n in out.seq:
                if n.root is not x: raise Violation('reduce', wr, f'the node visited for {show(ints(K.read(n)))} of {desc} has another root')
            # links
            if not x._check_all_parents(): raise Violation('links', where_of(type(x)._check_all_parents), f'the parents of {desc} are stated to be wrong')
            for n in real:
                if bool(n.is_root()) != (n is x): raise Violation('links', where_of(type(n).is_root), f'the node {show(ints(K.read(n)))} of {desc} is stated {"" if n is not x else "not "}to be the root')
            if state(K, x) != before: raise Violation('effects', wt, f'a query or traversal changes {desc} into {show(ints(K.read(x)))} or its links')
            e = None
            for n in real[1:]:
                p = n.parent; n.parent = real[0] if p is not real[0] else None
                if x._check_all_parents(): raise Violation('links', where_of(type(x)._check_all_parents), f'the wrong parent of {show(ints(K.read(n)))} in {desc} is not noticed')
                n.parent = p
            mark = K.Sum(['WN'])
            x.set_root(mark)
            for n in real:
                if n.root is not mark: raise Violation('links', where_of(type(x).set_root), f'the root of {show(ints(K.read(n)))} in {desc} is not set')
            x.set_root()
            for n in real:
                if n.root is not x: raise Violation('links', where_of(type(x).set_root), f'the root of {show(ints(K.read(n)))} in {desc} is not set')
            for k in range(6): # from links of any kind
                new = (x, mark)[k % 2]
                for i, n in enumerate(real): n.root = new if (i == 0, i > 0, i % 2 == 0)[k // 2] else n if i % 3 else None
                if new is x: x.set_root()
                else: x.set_root(mark)
                for n in real:
                    if n.root is not new: raise Violation('links', where_of(type(x).set_root), f'the root of {show(ints(K.read(n)))} in {desc} is not set when nodes have different roots')
            x.set_root()
        R.explore('traversals', go, w)
        def rules():
            n = choose('rule', list(table))
            x = K.build(t)._initialise()
            for r in G.expand(x, [table[n]]):
                queries(K, r, f'a result of {n} on {show(ints(K.read(x)))}')
                wt = where_of(type(r).traverse); s = ints(K.read(r))
                if Counter(repr(trees.key(ints(K.read(m)))) for m in r.traverse()) != Counter(repr(trees.key(m)) for m in nodes(s)): raise Violation('traverse', wt, f'traversing {show(s)} (a result of {n}) gives other nodes')
                if not r._check_all_parents(): raise Violation('links', where_of(type(r)._check_all_parents), f'the parents of {show(s)} (a result of {n}) are stated to be wrong')
        if trees.size(t) <= (3 if tier == 'quick' else 4): R.explore('queries of results', rules, w)
        def grow():
            if t[0] not in 'SP': return
            x = K.build(t)._initialise(); before = ints(K.read(x))
            add = choose('added', [('P', {'PER': 2}, []), ('S', {'PER': 1, 'WN': 1}, []), ('CP', 'LIN', ('P', {'LIN': 2}, []))])
            many = choose('number', [1, 2])
            a = K.build(add)._initialise(); held = state(K, a); wh = where_of(type(x).new_composite); n0 = len(x.composite_terms)
            y = x.new_composite(a if many == 1 else [a, a])
            if y is not x: raise Violation('grow', wh, 'new_composite does not return the expression')
            if state(K, a) != held: raise Violation('grow', wh, f'adding {show(add)} to {show(before)} modifies it')
            new = x.composite_terms[n0:]
            if len(new) != many or not all(same(ints(K.read(c)), add) for c in new): raise Violation('grow', wh, f'adding {show(add)} to {show(before)} gives {show(ints(K.read(x)))}')
            K.well_formed(x, 'grow', wh)
            if any(c is a for c in new) or (many == 2 and new[0] is new[1]): raise Violation('grow', wh, 'the added expression is shared')
        R.explore('new_composite', grow, w)


def t_singletons(R, flags):
    w = world(flags, ('KernelExpressions.all',)); K = KE(w)
    def go():
        kind = choose('kind', ['S', 'P']); other = 'P' if kind == 'S' else 'S'
        inner = choose('content', ['LIN', 'PER', 'WN', 'C', ('CP', 'LIN', 'PER'), (other, {'LIN': 2}, []), (other, {'PER': 2}, [('CW', 'LIN', 'C')])])
        x = K.build((kind, {inner: 1}, []) if isinstance(inner, str) else (kind, {}, [inner]))
        p = K.Change('CP', 'WN', 'LIN'); x.set_parent(p)
        got = x.extract_if_singleton(); wh = where_of(type(x).extract_if_singleton)
        if isinstance(inner, str):
            if got != inner: raise Violation('singleton', wh, f'the only term of {show(K.read(x))} is {got!r}')
        else:
            if got is not x.composite_terms[0]: raise Violation('singleton', wh, f'the only term of {show(K.read(x))} is {got!r}')
            if got.parent is not p: raise Violation('singleton', wh, 'the only term of a singleton does not take its parent over')
    R.explore('singletons', go, w)
    def no():
        c = {k: Num.atom(f'n{k}', integer=True, nonneg=True) for k in KINDS}
        kind = choose('kind', ['S', 'P'])
        x = K.build((kind, c, [])); r = K.read(x)
        assume_positive(total(c))
        got = x.extract_if_singleton(); n = total(r[1])
        if (n == 1) != isinstance(got, str): raise Violation('singleton', where_of(type(x).extract_if_singleton), f'{show(r)} gives {got!r}')
        if not isinstance(got, str) and got is not x: raise Violation('singleton', where_of(type(x).extract_if_singleton), f'{show(r)} gives another expression')
        if isinstance(got, str) and not num(r[1].get(got, 0)) > 0: raise Violation('singleton', where_of(type(x).extract_if_singleton), f'{show(r)} gives {got!r}')
    R.explore('singletons', no, w, max_paths=20000)


def tasks(tier):
    big = tier == 'thorough'
    T = [(f'symbolic {k} {c} {cfg_str(f)}', 't_symbolic', (k, c, f)) for k in 'SP' for c in ('none', 'stationary', 'linear', 'change') for f in ((cfg(), cfg(off=False)) if big else (cfg(),))]
    F = shapes(tier) + trees.Gen(('LIN', 'PER', 'WN') if not big else KINDS, True).roots(3) + trees.Gen(('LIN', 'PER'), True).roots(4)[::(7 if not big else 1)]
    seen = {}; F = [seen.setdefault(trees.key(t), t) for t in F if trees.key(t) not in seen]
    nb = 16 if not big else 48
    T += [(f'trees {i}', 't_trees', (F[i::nb], cfg(), tier)) for i in range(nb)]
    T += [('singletons', 't_singletons', (cfg(),)), ('singletons no offset', 't_singletons', (cfg(off=False),))]
    return T
