"""C02: expansions are well-formed, distinct and canonical."""
from ..common import *
from ..kes import *
from ..rules import *

RULE = ('Abstract interpretation of make_simple_kexs() and expand() with every production rule and with groups of them. One obligation per given tree, rule set and flag combination: every result is a complete tree '
        '(root without parent and its own root; parent and root links of every node), non-empty and of known terms only, equal to its own canonical form (independent definition), and no two results are equal up to order.')
ASSUMPTIONS = ['all canonical trees with at most 2 leaves, a selection with 3 (thorough: all without WN) and larger selected ones']


def well(K, r, wh, what, off, root=True):
    if isinstance(r, str) or not isinstance(r, K.Base): raise Violation('well-formed', wh, f'{what} gives {r!r}, not an expression')
    try: K.well_formed(r, 'well-formed', wh)
    except Violation as e: raise Violation(e.rule, wh, f'{what}: {e.detail}')
    t = ints(K.read(r))
    def terms(t, top):
        if isinstance(t, str):
            if t not in KINDS: raise Violation('admissible', wh, f'{what} gives {show(ints(K.read(r)))} with the unknown term {t}')
        elif t[0] in 'SP':
            if sum(t[1].values()) + len(t[2]) == 0: raise Violation('admissible', wh, f'{what} gives {show(ints(K.read(r)))} with an empty node')
            for k, c in t[1].items():
                if k not in KINDS: raise Violation('admissible', wh, f'{what} gives a term {k}')
                if c < 0: raise Violation('admissible', wh, f'{what} gives a negative number of {k}')
            for c in t[2]: terms(c, False)
        elif t[0] in ('CP', 'CW'): terms(t[1], False); terms(t[2], False)
    terms(t, True)
    c = ints(canonical_root(t, off) if root else normal(t, off))   # a given expression keeps its kind of root
    if not same(t, c): raise Violation('canonical', wh, f'{what} gives {show(t)}, whose canonical form is {show(c)}')
    return t


def t_expand(R, part, flags):
    w = world(flags, ('KernelExpansion.grammar',))
    K = KE(w); G = w.import_module('GPy_ABCD.KernelExpansion.grammar')
    table = {n: f for d in G.production_rules_by_type.values() for n, f in d.items()}
    for t, names in part:
        def go():
            if t[0] in 'SP' and not trees.Gen(KINDS, K.off).ok(t): return
            x = G.make_simple_kexs([K.build(t)])[0]
            a = well(K, x, where_of(G.make_simple_kexs), f'normalising {show(t)}', K.off)
            rules = list(table.values()) if names == '*' else G.production_rules[names[1:]] if names[0] == '@' else [table[n] for n in names.split('+')]
            res = G.expand(x, rules)
            seen = {}
            what = f'expanding {show(a)} with {names}'
            for r in res:
                c = well(K, r, where_of(G.expand), what, K.off)
                k = trees.key(c)
                if k in seen: raise Violation('distinct', where_of(G.expand), f'{what} gives both {seen[k]} and {r!r}')
                seen[k] = repr(r)
            # a result expands again (its links are usable)
            if len(res) and trees.size(a) <= 3:
                y = choose('further', [res[0], res[len(res) // 2], res[-1]])
                b = ints(K.read(y))
                for r in G.expand(y, rules[:2]): well(K, r, where_of(G.expand), f'expanding {show(b)}, itself a result,', K.off)
        R.explore('expand ' + ('all' if names == '*' else names), go, w)


def t_start(R, flags):
    """User expressions which are not in canonical form, subtrees of larger expressions, and the exported start kernels"""
    w = world(flags, ('KernelExpansion.grammar',))
    K = KE(w); G = w.import_module('GPy_ABCD.KernelExpansion.grammar')
    raw = [('S', {'LIN': 1, 'C': 1}, [('S', {'WN': 2}, [])]), ('P', {'C': 2}, [('P', {'SE': 3}, [])]), ('CP', ('S', {'C': 2}, []), ('P', {'LIN': 1}, [])), ('S', {}, [('P', {}, [('S', {'PER': 1}, [('P', {'LIN': 2}, [])])])]),
           ('P', {'SE': 1}, [('CW', ('S', {'PER': 1, 'LIN': 1}, []), 'C')])]
    def go():
        t = choose('expression', raw)
        x = K.build(t)
        for r in G.make_simple_kexs([x]): well(K, r, where_of(G.make_simple_kexs), f'normalising {show(t)}', K.off, False)
    R.explore('normalise', go, w)
    def sub():
        t = choose('expression', [r for r in raw if not all(isinstance(c, str) for c in r[2:])])
        x = K.build(t)._initialise()
        for c in K.children(x):
            for r in G.make_simple_kexs([c]): well(K, r, where_of(G.make_simple_kexs), f'normalising {c!r}, a part of {show(K.read(x))},', K.off, False)
    R.explore('normalise a part', sub, w)
    def base():
        b = choose('base', [k for k in KINDS])
        for r in G.make_simple_kexs([b]):
            if not same(well(K, r, where_of(G.make_simple_kexs), f'normalising {b}', K.off), ('S', {b: 1}, [])): raise Violation('canonical', where_of(G.make_simple_kexs), f'{b} becomes {r!r}')
    R.explore('normalise a base kernel', base, w)
    def tables():
        for n, ks in G.start_kernels.items():
            seen = set()
            for k in ks:
                t = well(K, k, f'GPy_ABCD/KernelExpansion/grammar.py start_kernels[{n!r}]', 'the table', K.off)
                if trees.key(t) in seen: raise Violation('distinct', f'GPy_ABCD/KernelExpansion/grammar.py start_kernels[{n!r}]', f'{show(t)} occurs twice')
                seen.add(trees.key(t))
    R.explore('start kernels', tables, w)


def chunks(xs, n): return [c for c in (xs[i::n] for i in range(n)) if c]

def tasks(tier):
    F = shapes(tier)
    jobs = []
    for i, t in enumerate(F):
        if tier == 'thorough' or trees.size(t) <= 3 and i % 3 == 0 or trees.size(t) > 3: jobs.append((t, '*' if trees.size(t) <= 5 or tier == 'thorough' else '@Default'))
        else: jobs.append((t, ('@Default', 'try_higher_curves+change_new_base', 'change_same+times_shifted_base+replace_base')[i % 3]))
    # nodes whose absorption hands over many terms
    Ps = [('P', {'LIN': 1, 'PER': 1}, []), ('P', {'PER': 2}, []), ('P', {'LIN': 1, 'SE': 1}, []), ('P', {'SE': 1, 'PER': 1}, []), ('CP', 'LIN', 'PER')]
    Ss = [('S', {'LIN': 1, 'PER': 1}, []), ('S', {'PER': 2}, []), ('S', {'LIN': 1, 'SE': 1}, []), ('S', {'SE': 1, 'PER': 1}, []), ('CP', 'LIN', 'PER')]
    wide = [('S', {'WN': 1}, [('P', {'LIN': 1}, [('S', {}, Ps)])]), ('P', {'PER': 1}, [('S', {'LIN': 1}, [('P', {}, Ss)])]), ('CP', 'WN', ('S', {'WN': 1}, [Ps[0], ('P', {'LIN': 1}, [('S', {}, Ps[:4])])]))]
    jobs += [(t, '*' if tier == 'thorough' else '@Default') for t in wide]
    T = [(f'expand {i}', 't_expand', (c, {})) for i, c in enumerate(chunks(jobs, 24 if tier == 'quick' else 80))]
    for fl in (cfg(off=False), cfg(se=True)):
        T += [(f'expand {i} {cfg_str(fl)}', 't_expand', (c, fl)) for i, c in enumerate(chunks(jobs[::6] if tier == 'quick' else jobs, 6 if tier == 'quick' else 40))]
    T += [(f'start {cfg_str(fl)}', 't_start', (fl,)) for fl in (all_cfgs() if tier == 'thorough' else [{}, cfg(off=False), cfg(se=True, off=False)])]
    return T
