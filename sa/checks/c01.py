"""C01: expressions given to the library are never modified; results share nothing with them; the exported tables keep their contents."""
from ..fitted import *
from .. import rules

RULE = ('Effect analysis by abstract interpretation: before and after each public operation, the content of everything reachable from the expressions, lists and fitted lists handed to it (terms and their order, tree links, '
        'non-empty fitted parameters, identity of nodes) and from the exported tables is described; the two descriptions must agree on every partition. For expansions and normalisation the sets of '
        'nodes and containers reachable from the inputs and from each result are disjoint (escape analysis by identity). On a violation the operation is interpreted again, comparing after every statement, to name '
        'the statement that modifies the input.')
ASSUMPTIONS = ['summaries of GPy, numpy and multiprocessing do not modify expressions', 'operands: every kind of node with representative contents; trees as for C02/C12',
               'start kernels, rules, lists and expressions handed over are those of the signature (a fitter or scorer supplied by the user may do anything)']

X1, Y1 = X, Y


def describe(K, x, ids=None, out=None):
    """Content of an expression or of a list of them, with the identities of the nodes"""
    ids = {} if ids is None else ids; out = [] if out is None else out
    def num_repr(v): return repr(v)
    def go(n):
        if isinstance(n, K.Base):
            if id(n) in ids: out.append(('node', ids[id(n)])); return
            ids[id(n)] = len(ids); out.append((type(n).__name__, ids[id(n)]))
            if isinstance(n, K.Change):
                out.append(n.CP_or_CW); go(n.left); go(n.right)
            else:
                out.append([(k, num_repr(v)) for k, v in n.base_terms.items() if isinstance(v, Num) or v != 0])
                out.append(len(n.composite_terms))
                for c in n.composite_terms: go(c)
            out.append([(k, [sorted((a, repr(b)) for a, b in p.items()) for p in l]) for k, l in n.parameters.items() if l])
            out.append('parent'); go(n.parent); out.append('root'); go(n.root)
        elif isinstance(n, (list, tuple)):
            out.append((type(n).__name__, len(n)))
            for y in n: go(y)
        elif isinstance(n, (str, int, float, type(None), bool, Num)): out.append(repr(n))
        elif isinstance(n, dict):
            out.append(('dict', len(n)))
            for k, v in n.items(): out.append(repr(k)); go(v)
        elif isinstance(n, (set, frozenset)): out.append(sorted(map(repr, n)))
        else: out.append(('object', ids.setdefault(id(n), len(ids))))
    go(x)
    return out, ids


def parts(K, x):
    """Identities of the nodes and containers of whole trees"""
    seen = {}
    def go(n):
        if not isinstance(n, K.Base) or id(n) in seen: return
        seen[id(n)] = n
        if not isinstance(n, K.Change):
            seen[id(n.base_terms)] = n.base_terms; seen[id(n.composite_terms)] = n.composite_terms
        seen[id(n.parameters)] = n.parameters
        for l in n.parameters.values():
            seen[id(l)] = l
            for p in l: seen[id(p)] = p
        for c in K.children(n): go(c)
        go(n.parent); go(n.root)
    go(x)
    return seen


TABLES = [('KernelExpansion.grammar', n) for n in ('start_kernels', 'production_rules', 'production_rules_by_type')] + \
         [('KernelExpansion.kernelOperations', n) for n in ('base_kerns', 'base_sigmoids', 'base_k_param_names', 'base_str_to_ker_func', 'change_k_sigmoid_names')] + [('Util.modelUtil', 'GPy_optimisers')]

def tables(w):
    out = []
    for m, n in TABLES:
        mod = w.import_module(f'GPy_ABCD.{m}')
        if hasattr(mod, n): out.append((n, getattr(mod, n)))
    for n in ('Models.model:GPModel.__init__',):
        try: out.append(('default arguments of GPModel', list(w.get(n).__defaults__ or ())))
        except AttributeError: pass
    for n in ('explore_model_space',):
        try: out.append((f'default arguments of {n}', list(getattr(w.import_module('GPy_ABCD.Models.modelSearch'), n).__defaults__ or ())))
        except AttributeError: pass
    return out


def pure(R, w, K, rule, where, what, watched, op):
    """Runs op and compares the watched objects before and after"""
    tabs = tables(w)
    pre = [(n, describe(K, o)[0], o) for n, o in watched] + [(n, describe(K, o)[0], o) for n, o in tabs]
    try: res = op()
    except (Violation, Undecided): raise
    except Exception: res = None   # refusals are not the subject, but have to leave the inputs alone too
    for n, d, o in pre:
        d2 = describe(K, o)[0]
        if d != d2:
            i = next((i for i, (a, b) in enumerate(zip(d, d2)) if a != b), min(len(d), len(d2)))
            raise Modified(rule, where, f'{what} modifies {n}: {d[i:i + 3]} becomes {d2[i:i + 3]}')
    return res

class Modified(Violation): pass


def locate(w, K, watched, op):
    """First statement after which a watched object differs"""
    pre = [describe(K, o)[0] for _, o in watched]
    found = []
    def hook(fr):
        if found: return
        for (n, o), d in zip(watched, pre):
            if describe(K, o)[0] != d: found.append(f'{fr.fi.file}:{getattr(fr.node, "lineno", fr.fi.line)} {fr.fi.qual}'); return
    w.interp.stmt_hook = hook
    try: op()
    except Exception: pass
    finally: w.interp.stmt_hook = None
    return found[0] if found else None


def checked(R, w, K, rule, where, setup):
    """setup() -> (what, watched, op)"""
    def go():
        what, watched, op = setup()
        try: return pure(R, w, K, rule, where, what, watched, op)
        except Modified as e:
            n = len(CTX.facts.log)
            try:
                what, watched, op = setup()
                at = locate(w, K, watched, op)
            except Undecided: at = None
            raise Violation(e.rule, at or e.where, e.detail)
    return go


def with_params(w, K, t):
    """An expression annotated with fitted parameters"""
    m, x = fit(w, K, t)
    f = w.get('KernelExpansion.kernelOperations:fit_ker_to_kex_with_params')
    from copy import deepcopy
    y = deepcopy(x)
    return f(m.model.kern, y) or y


SMALL = [('S', {'LIN': 1, 'PER': 1}, []), ('P', {'LIN': 1, 'SE': 1}, []), ('S', {'WN': 1}, [('P', {'LIN': 2}, [])]), ('P', {'PER': 1}, [('S', {'LIN': 1, 'WN': 1}, [])]), ('CP', 'LIN', 'PER'),
         ('CW', ('P', {'LIN': 1, 'PER': 1}, []), ('S', {'LIN': 1, 'SE': 1}, [])), ('S', {'PER': 1}, [('CP', 'C', 'LIN')]), ('P', {'SE': 1}, [('CW', 'C', 'PER')]), ('S', {'LIN': 1}, []),
         ('S', {}, [('P', {'LIN': 1}, [('S', {'PER': 1, 'C': 1}, [])]), ('P', {'SE': 1, 'PER': 1}, [])])]


def t_ops(R, op, flags):
    w = world(flags, ('KernelExpansion.kernelExpressionOperations', 'Models.modelSearch'))
    K = KE(w); f = getattr(w.import_module('GPy_ABCD.KernelExpansion.kernelExpressionOperations'), op)
    def setup():
        a = choose('first operand', SMALL)
        annotated = choose('fitted before', [False, True])
        x = with_params(w, K, a) if annotated else K.build(a)._initialise()
        watched = [('its first argument', x)]
        if op in ('add', 'multiply', 'one_change', 'both_changes'):
            b = choose('second operand', ['LIN', 'PER', SMALL[0], SMALL[1], SMALL[3], SMALL[4], 'same'])
            y = x if b == 'same' else b if isinstance(b, str) else K.build(b)._initialise()
            watched.append(('its second argument', y))
            if op in ('add', 'multiply'):
                if choose('order', [0, 1]): args = (y, x)
                else: args = (x, y)
            else: args = (x, 'CP', y) if op == 'one_change' else (x, y)
        elif op == 'swap_base': args = (x, choose('B', ['LIN', 'WN']))
        elif op == 'replace_node': args = (x, 'LIN')
        else: args = (x,)
        return f'{op}', watched, lambda: f(*args)
    R.explore('operator ' + op, checked(R, w, K, 'input-modified', where_of(f), setup), w)


def t_expand(R, part, flags):
    w = world(flags, ('KernelExpansion.grammar', 'Models.modelSearch'))
    K = KE(w); G = w.import_module('GPy_ABCD.KernelExpansion.grammar')
    table = {n: f for d in G.production_rules_by_type.values() for n, f in d.items()}
    for t in part:
        def prep():
            if t[0] in 'SP' and not trees.Gen(KINDS, K.off).ok(t): raise Infeasible('assumption')
            x = G.make_simple_kexs([K.build(t)])[0]
            return x
        def setup():
            x = with_params(w, K, t) if choose('fitted before', [False, True]) else prep()
            name = choose('rule', list(table))
            f = table[name]
            nodes = x.traverse()
            i = choose('node', list(range(min(len(nodes), 5))))
            return f'{name} on node {i} of {show(K.read(x))}', [('the given expression', x), ('the given node', nodes[i])], lambda: f(nodes[i])
        R.explore('rule', checked(R, w, K, 'input-modified', 'GPy_ABCD/KernelExpansion/grammar.py', setup), w)
        def setup2():
            x = prep(); rs = list(table.values())
            return f'expanding {show(K.read(x))}', [('the given expression', x), ('the given list of rules', rs)], lambda: G.expand(x, rs)
        R.explore('expand', checked(R, w, K, 'input-modified', where_of(G.expand), setup2), w)
        def share():
            x = prep(); rs = list(table.values())
            res = G.expand(x, rs)
            mine = parts(K, x)
            owner = {}
            for r in res:
                for i, o in parts(K, r).items():
                    if i in mine: raise Violation('shared', where_of(G.expand), f'expanding {show(K.read(x))}: the result {r!r} shares a {type(o).__name__} with the given expression')
                    if i in owner and owner[i] is not r: raise Violation('shared', where_of(G.expand), f'expanding {show(K.read(x))}: the results {r!r} and {owner[i]!r} share a {type(o).__name__}')
                    owner[i] = r
        R.explore('sharing', share, w)


def t_normalise(R, flags):
    w = world(flags, ('KernelExpansion.grammar', 'Models.modelSearch'))
    K = KE(w); G = w.import_module('GPy_ABCD.KernelExpansion.grammar')
    raw = SMALL + [('S', {'LIN': 1, 'C': 1}, [('S', {'WN': 2}, [('P', {'SE': 1, 'PER': 1}, [])])]), ('P', {'C': 2}, [('P', {'SE': 3}, [])])]
    def mk():
        how = choose('given', ['fresh', 'initialised', 'part', 'fitted'])
        t = choose('expression', raw)
        if how == 'fitted': x = with_params(w, K, SMALL[3])
        else: x = K.build(t)
        if how in ('initialised', 'part'): x._initialise()
        if how == 'part':
            cs = K.children(x)
            if not cs: raise Infeasible('assumption')
            return x, choose('part', cs) if len(cs) > 1 else cs[0]
        return x, x
    def setup():
        x, c = mk(); l = [c, 'LIN', c]
        return f'normalising {show(K.read(c))}', [('the given expression', x), ('the given list', l)], lambda: G.make_simple_kexs(l)
    R.explore('normalise', checked(R, w, K, 'input-modified', where_of(G.make_simple_kexs), setup), w)
    def share():
        x, c = mk()
        res = G.make_simple_kexs([c, 'LIN', c]); mine = parts(K, x); owner = {}
        for r in res:
            for i, o in parts(K, r).items():
                if i in mine: raise Violation('shared', where_of(G.make_simple_kexs), f'normalising {show(K.read(c))}: the result shares a {type(o).__name__} with the given expression')
                if i in owner and owner[i] is not r: raise Violation('shared', where_of(G.make_simple_kexs), f'normalising {show(K.read(c))}: the results share a {type(o).__name__}')
                owner[i] = r
    R.explore('sharing', share, w)
    # constructors and additions of terms
    def setup3():
        from collections import Counter
        _, c = mk()
        bt = Counter({'LIN': 1, 'WN': 2, 'C': 1}); ct = [c]; cls = choose('class', ['Sum', 'Prod', 'Change', 'new'])
        if cls == 'Change': return 'building a change', [('the given side', c)], lambda: K.Change('CP', c, c)
        if cls == 'new':
            h = K.build(('S', {'PER': 1}, []))._initialise()
            return 'adding terms', [('the given expression', c), ('the given list', ct), ('the given terms', dict(bt))], lambda: h.new_composite(ct).new_composite(c).new_base(bt).simplify()
        return 'building an expression', [('the given expression', c), ('the given list', ct), ('the given terms', bt)], lambda: getattr(K, cls)(bt, ct)
    R.explore('constructors', checked(R, w, K, 'input-modified', 'GPy_ABCD/KernelExpressions', setup3), w)


def t_fit(R, part, flags):
    w = world(flags, ('KernelExpressions.all', 'Models.modelSearch', ''))
    K = KE(w)
    S = w.import_module('GPy_ABCD.Models.modelSearch'); U = w.import_module('GPy_ABCD.Util.modelUtil')
    for t in part:
        def setup():
            if t[0] in 'SP' and not trees.Gen(KINDS, K.off).ok(t): raise Infeasible('assumption')
            x = K.build(t)._initialise()
            how = choose('way', ['one model', 'list', 'one expression', 'part of a larger one'])
            def use(m):
                m.sum_of_prods_kex; m.sum_of_prods_kex
                if trees.changes(t) <= 1: m.interpret()
                m.compute_utility(U.BIC); m.fit(2); m.sum_of_prods_kex
            if how == 'one model': return f'fitting and describing {show(K.read(x))}', [('the given expression', x)], lambda: use(S.fit_one_model(X1, Y1, x, 3))
            if how == 'list':
                l = [x, K.Sum(['LIN'])._initialise(), x]
                return f'fitting and describing {show(K.read(x))}', [('the given expressions', l)], lambda: [use(m) for m in S.fit_mods_not_parallel(X1, Y1, l, 3)]
            if how == 'one expression': return f'fitting {show(K.read(x))} with fit_kex', [('the given expression', x)], lambda: use(U.fit_kex(X1, Y1, x, 3))
            h = K.Sum(['WN'], [K.Prod(['PER'], [x])])._initialise()
            c = h.composite_terms[0] if h.composite_terms else h
            return f'fitting {show(K.read(c))}, a part of {show(K.read(h))}, with fit_kex', [('the given expression', h)], lambda: use(U.fit_kex(X1, Y1, c, 3))
        R.explore('fit', checked(R, w, K, 'input-modified', where_of(S.fit_one_model), setup), w, max_paths=600)


def t_search(R, flags):
    w = world(flags, ('Models.modelSearch', ''))
    K = KE(w); S = w.import_module('GPy_ABCD.Models.modelSearch'); G = w.import_module('GPy_ABCD.KernelExpansion.grammar'); U = w.import_module('GPy_ABCD.Util.modelUtil')
    def arm():
        # a fixed, arbitrary order of the fits
        w.lib.hooks['log_likelihood'] = lambda m: -Num.of((m.model_id * 7) % 11)
    def setup():
        arm()
        x = K.build(('S', {'PER': 1}, [('P', {'LIN': 2}, [])])); y = K.build(('P', {'LIN': 1}, []))
        start = [x, 'LIN', y]; rules = [G.plus_base] if choose('rules', ['own', 'default']) == 'own' else G.production_rules['Minimal']
        beam = [1, 1]; rounds = choose('rounds', [1, 2]) if rules is not G.production_rules['Minimal'] else 1
        fitter = S.fit_mods_not_parallel
        verbose = choose('verbose', [True, False])
        return 'a search', [('the given start kernels', start), ('the given rules', rules), ('the given beam', beam)], \
            lambda: S.explore_model_space(X1, Y1, start_kernels=start, p_rules=rules, utility_function=U.BIC, rounds=rounds, beam=beam, restarts=2, model_list_fitter=fitter, verbose=verbose)
    R.explore('search', checked(R, w, K, 'input-modified', where_of(S.explore_model_space), setup), w)
    def defaults():
        arm()
        return 'a search with the default start kernels', [], lambda: S.explore_model_space(X1, Y1, p_rules=[G.replace_base], rounds=1, beam=choose('beam', [1, 2]), model_list_fitter=S.fit_mods_not_parallel, verbose=False)
    R.explore('search', checked(R, w, K, 'input-modified', where_of(S.explore_model_space), defaults), w)
    def setup2():
        arm()
        a = S.explore_model_space(X1, Y1, start_kernels=['LIN', 'PER'], p_rules=[G.plus_base], utility_function=U.BIC, rounds=1, beam=[1], restarts=2, model_list_fitter=S.fit_mods_not_parallel, verbose=False)
        exprs = [m.kernel_expression for m in a[0]]
        rules = [G.plus_base]; beam = [1, 1]
        return 'continuing a search', [('the kernel expressions of the earlier models', exprs), ('the tested expressions', a[2]), ('the given rules', rules), ('the given beam', beam)], \
            lambda: S.model_search_rounds(X1, Y1, *a, S.fit_mods_not_parallel, rules, U.BIC, 2, beam, 2, 'lbfgsb', 1, False)
    R.explore('continue', checked(R, w, K, 'input-modified', where_of(S.model_search_rounds), setup2), w)


def chunks(xs, n): return [c for c in (xs[i::n] for i in range(n)) if c]

def tasks(tier):
    T = [(f'{op}', 't_ops', (op, {})) for op in ('add', 'multiply', 'one_change', 'both_changes', 'swap_base', 'replace_node', 'remove_a_term', 'higher_curves')]
    F = rules.shapes(tier)
    E = [t for t in F if trees.size(t) >= 3]
    E = SMALL + (E[::4] if tier == 'quick' else E)
    T += [(f'expand {i}', 't_expand', (c, {})) for i, c in enumerate(chunks(E, 16 if tier == 'quick' else 64))]
    T += [('normalise', 't_normalise', ({},)), ('search', 't_search', ({},))]
    FF = [t for t in forests(tier) if trees.size(t) >= 2]
    T += [(f'fit {i}', 't_fit', (c, {})) for i, c in enumerate(chunks(FF[::3] if tier == 'quick' else FF, 8 if tier == 'quick' else 32))]
    if tier == 'thorough':
        for fl in (cfg(off=False), cfg(se=True)):
            T += [(f'{op} {cfg_str(fl)}', 't_ops', (op, fl)) for op in ('add', 'multiply', 'higher_curves', 'both_changes')] + [(f'normalise {cfg_str(fl)}', 't_normalise', (fl,))]
    return T
