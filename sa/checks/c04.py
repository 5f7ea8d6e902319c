"""C04: operators and production rules give exactly the documented expressions."""
from collections import Counter
from ..common import *
from ..kes import *
from ..rules import *

RULE = ('Abstract interpretation of each operator on operands of every kind (base kernel, sum, product, change) whose base-kernel multiplicities are abstract, and of expand() with each production rule on '
        'concrete trees. One obligation per partition: the set of expressions obtained equals, up to order and normal form, the set given by an independent statement of the operator or rule '
        '(for expand: applied at every node of the tree, leaves of changes included, the rest of the tree unchanged).')
ASSUMPTIONS = ['replacing a base kernel by itself may or may not be among the results (it is the given expression)',
               'expand: all canonical trees with at most 2 leaves, a selection with 3 (thorough: all without WN) and larger selected ones; operators: multiplicities up to 4 where the operator enumerates them']


def compare(got, want, optional, R, rule, wh, what):
    for g in got:
        if not any(same(g, x) for x in want) and not any(same(g, x) for x in optional): raise Violation(rule, wh, f'{what} gives {show(g)}, which is not one of: {"; ".join(show(x) for x in want)}')
    for x in want:
        if any(same(x, o) for o in optional): continue
        if not any(same(x, g) for g in got): raise Violation(rule, wh, f'{what} does not give {show(x)}; it gives: {"; ".join(show(g) for g in got)}')


def operands(kinds):
    """(description, shape builder) of operands with abstract multiplicities"""
    n = [0]
    def cnt():
        n[0] += 1
        return {k: Num.atom(f'm{n[0]}.{k}', integer=True, nonneg=True) for k in kinds}
    return [('LIN'), ('S', cnt(), []), ('P', cnt(), []), ('S', cnt(), [('P', {'LIN': 1, 'PER': 1}, [])]), ('P', cnt(), [('S', {'LIN': 1, 'PER': 1}, [])]), ('CP', 'LIN', 'PER'), ('CW', ('P', {'LIN': 2}, []), 'C')]


def t_op(R, op, i, j, kinds, flags):
    w = world(flags, ('KernelExpansion.kernelExpressionOperations',))
    K = KE(w)
    m = w.import_module('GPy_ABCD.KernelExpansion.kernelExpressionOperations')
    a0 = operands(kinds)[i]; b0 = operands(kinds)[j] if j is not None else None
    f = getattr(m, op)
    def go():
        for t in (a0, b0):
            if t is not None: admissible(t)
        x = K.build(a0); y = K.build(b0) if b0 is not None else None
        a, b = K.read(x), (K.read(y) if y is not None else None)
        if b is not None and not isinstance(b, str) and isinstance(a, str) and op in ('swap_base', 'replace_node'): raise Infeasible('assumption')
        opt = []
        if op in ('add', 'multiply'):
            nested = choose('with_nested_case', [True, False])
            res = f(x, y) if nested else [f(x, y, with_nested_case=False)]
            want = {'add': s_add, 'multiply': s_multiply}[op](a, b)
            if not nested: want = want[:1]
        elif op == 'swap_base':
            B = choose('B', ['LIN', 'PER', 'C'])
            if isinstance(a, str): raise Infeasible('assumption')
            res = f(x, B); want = s_swap(a, B); opt = [a]
            y = B
        elif op in ('one_change', 'both_changes'):
            arg2 = choose('S2', ['given', 'none'])
            kinds_ = ('CP', 'CW')
            if op == 'one_change':
                kd = choose('kind', ['CP', 'CW']); kinds_ = (kd,)
                res = f(x, kd, y) if arg2 == 'given' else f(x, kd)
            else: res = f(x, y) if arg2 == 'given' else f(x)
            want = s_change(a, b if arg2 == 'given' else None, kinds_, K.off)
        elif op == 'replace_node':
            res = f(x, y); want = [b]
        elif op == 'remove_a_term':
            if isinstance(a, str): raise Infeasible('assumption')
            res = f(x); want = s_remove(a)
        elif op == 'higher_curves':
            if isinstance(a, str): raise Infeasible('assumption')
            res = f(x); want = s_higher(a)
        what = f'{op}({show(a)}{", " + (y if isinstance(y, str) else show(K.read(y))) if y is not None else ""})'
        can = lambda t: canonical_root(t, K.off)
        compare([can(K.read(r)) for r in res], [can(t) for t in want], [can(t) for t in opt], R, 'operator', where_of(f), what)
    R.explore('operator ' + op, go, w, max_paths=6000)


def t_expand(R, part, flags, rules):
    w = world(flags, ('KernelExpansion.grammar',))
    K = KE(w); G = w.import_module('GPy_ABCD.KernelExpansion.grammar')
    BP = [b for b in KINDS if b != 'SE' or w.get('config').__dict__.get('__INCLUDE_SE_KERNEL')]
    table = {n: f for d in G.production_rules_by_type.values() for n, f in d.items()}
    for n in rules:
        if n not in table: raise Violation('rules', 'GPy_ABCD/KernelExpansion/grammar.py production_rules_by_type', f'there is no rule {n}')
    for t, name in part:
        names = list(rules) if name == '*' else [name]
        def go():
            if t[0] in 'SP' and not trees.Gen(KINDS, K.off).ok(t): return
            x = G.make_simple_kexs([K.build(t)])[0]
            a = ints(K.read(x))
            if a[0] in 'SP' and not trees.Gen(KINDS, K.off).ok(a): return
            res = G.expand(x, [table[n] for n in names])
            want = {trees.key(ints(c)): c for c in expected(a, names, BP, K.off)}
            got = {}
            what = f'expanding {show(a)} with {name if name != "*" else "all rules"}'
            wh = where_of(table[name]) if name != '*' else where_of(G.expand)
            for r in res:
                c = ints(canonical_root(K.read(r), K.off)); got[trees.key(c)] = c
            me = trees.key(ints(canonical_root(a, K.off)))
            for k, c in got.items():
                if k not in want and k != me: raise Violation('rule', wh, f'{what} gives {show(c)}, which the rule does not lead to')
            for k, c in want.items():
                if k not in got and k != me: raise Violation('rule', wh, f'{what} does not give {show(c)}; it gives {"; ".join(show(c) for c in got.values())[:700]}')
        R.explore('rule ' + name, go, w)


def chunks(xs, n): return [c for c in (xs[i::n] for i in range(n)) if c]

def tasks(tier):
    T = []
    kinds = ('WN', 'LIN', 'SE') if tier == 'quick' else ('WN', 'C', 'LIN', 'SE')
    n = len(operands(('C',)))
    for op in ('add', 'multiply', 'one_change', 'both_changes', 'replace_node'):
        for i in range(n):
            for j in range(n):
                if tier == 'quick' and op in ('one_change', 'both_changes', 'replace_node') and (i + j) % 3: continue
                ks = ('LIN',) if i and j and not (i > 4 or j > 4) and tier == 'quick' else kinds[:2] if i and j else kinds
                T.append((f'{op} {i} {j}', 't_op', (op, i, j, ks, {})))
    for op in ('swap_base', 'remove_a_term', 'higher_curves'):
        for i in range(1, n): T.append((f'{op} {i}', 't_op', (op, i, None, kinds + (('PER',) if op != 'swap_base' else ()), {})))
    F = shapes(tier)
    pairs = [(t, r) for t in F for r in RULES]
    if tier == 'quick': pairs = [x for i, x in enumerate(pairs) if i < 12 * 50 and i % 2 == 0 or i >= 12 * 50]
    for i, c in enumerate(chunks(pairs, 24 if tier == 'quick' else 64)): T.append((f'expand {i}', 't_expand', (c, {}, RULES)))
    for fl in (cfg(off=False), cfg(se=True)):
        pr = [(t, r) for t in F for r in RULES][::7 if tier == 'quick' else 1]
        for i, c in enumerate(chunks(pr, 6 if tier == 'quick' else 32)): T.append((f'expand {i} {cfg_str(fl)}', 't_expand', (c, fl, RULES)))
    T.append(('expand all rules', 't_expand', ([(t, '*') for t in F[10:30:6]], {}, RULES)))
    return T
