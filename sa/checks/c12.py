"""C12: the sum-of-products form denotes the fitted kernel, and can be described in words."""
import re
from collections import Counter
from ..fitted import *
from ..num import FMT

RULE = ('Abstract interpretation of GPModel.fit, GPModel.sum_of_prods_kex and GPModel.interpret (the optimiser returns one fresh symbol per kernel parameter). One obligation per expression shape and '
        'flag combination: the terms of the form, as exact rational functions of the symbols, are those of the distributive expansion of the fitted kernel tree (variances multiplied, smooth lengthscales combined '
        'by 1/l^2, white noise absorbing stationary factors, constants vanishing, sigmoidal factors of each side of a change), each once; no base term is left outside a product; the description has one '
        'sentence per product which states its variance and every lengthscale, period and offset of it; asking twice gives the same.')
ASSUMPTIONS = ['summaries of GPy and paramz (naming of repeated parameters, flattening of sums and products; sa/models_lib.py)', 'lengthscales and variances are positive',
               'expression shapes: all canonical ones with at most 2 leaves, a selection with 3 (thorough: all, and all of 4 leaves over LIN and PER), and larger selected ones',
               'the independent-sides change-window option is excluded (its kernel is not of the form this property is about)']

TOK = re.compile(r'⟦([^⟧|]*)(?:\|[^⟧]*)?⟧')


def wanted(c, off):
    """Texts of the numbers a sentence about the product has to state"""
    out = Counter()
    def add(v):
        q = num_of(v); out[repr(q) if q is not None else repr(v)] += 1
    for k, l in c.parameters.items():
        for p in l:
            if k == 'ProductKE': add(p['variance'])
            elif k in KINDS:
                for n, v in p.items(): add(v)
    return out


def periodics(c, text, wh, desc):
    """Periods are stated with their own lengthscales, the main (longest) one first"""
    N = r'⟦([^⟧|]*)(?:\|[^⟧]*)?⟧'
    said = re.findall(rf'period {N} and lengthscale {N}', text)
    have = Counter((repr(num_of(p['period'])), repr(num_of(p['lengthscale']))) for p in c.parameters.get('PER', []))
    if said and Counter(said) != have: raise Violation('words', wh, f'{desc}: the periods and lengthscales {dict(have)} are stated as {said}')
    ps = [FMT[a] for a, _ in said]
    if any(a < b for a, b in zip(ps, ps[1:])): raise Violation('words', wh, f'{desc}: a longer period is stated after a shorter one: {said}')


def t_sops(R, part, flags):
    w = world(flags, ('KernelExpressions.all', 'Models.model'))
    K = KE(w); KK = Kernels(w)
    for t in part:
        def go():
            if isinstance(t, tuple) and t[0] in 'SP' and not trees.Gen(KINDS, K.off).ok(t): return
            m, x = fit(w, K, t)
            desc = show(K.read(x))
            wh = where_of(type(x).sum_of_prods_form)
            s = m.sum_of_prods_kex
            try: got = [term(*a) for a in sops_terms(K, s)]
            except Violation as e: raise Violation(e.rule, wh, f'for {desc}: {e.detail}')
            want = [term(*a) for a in expand_terms(KK.read(m.model.kern))]
            d = same_terms(got, want)
            if d: raise Violation('expansion', wh, f'for {desc}: {d}')
            if m.sum_of_prods_kex is not s:
                again = [term(*a) for a in sops_terms(K, m.sum_of_prods_kex)]
                if same_terms(again, want): raise Violation('expansion', wh, f'for {desc}: a second request gives another form: {same_terms(again, want)}')
        R.explore('sum-of-products', go, w)
        if trees.changes(t) > 2 or trees.size(t) > 6 or len(re.findall(r'\d+', repr(t))) and max(map(int, re.findall(r'\d+', repr(t)))) > 4: continue
        def words():
            if isinstance(t, tuple) and t[0] in 'SP' and not trees.Gen(KINDS, K.off).ok(t): return
            m, x = fit(w, K, t)
            desc = show(K.read(x)); wh = where_of(type(x).get_interpretation)
            text = m.interpret()
            comps = m.sum_of_prods_kex.composite_terms if not isinstance(m.sum_of_prods_kex, K.Prod) else [m.sum_of_prods_kex]
            lines = text.split('\n\t')
            n = re.search(r'(\d+) components', lines[0])
            if n and int(n.group(1)) != len(comps): raise Violation('words', wh, f'{desc}: {lines[0]!r} although there are {len(comps)}')
            if len(lines) - 1 != len(comps): raise Violation('words', wh, f'{desc}: {len(lines) - 1} sentences for {len(comps)} components')
            left = list(lines[1:])
            for c in comps:
                req = wanted(c, K.off)
                for i, l in enumerate(left):
                    main = re.sub(r'; this component applies .*?(, and it has)', r'\1', l)
                    have = Counter(TOK.findall(main))
                    if have == req:
                        periodics(c, main, wh, desc)
                        del left[i]; break
                else:
                    raise Violation('words', wh, f'{desc}: no sentence states exactly {dict(req)} of {dict(c.parameters)!r}; sentences: {left}')
        R.explore('description', words, w, max_paths=3000)


def chunks(xs, n): return [xs[i::n] for i in range(n)]

def tasks(tier):
    T = []
    F = forests(tier, 'sums')
    flags = [{}, cfg(off=False, fix=False)] if tier == 'quick' else [cfg(off=True, fix=True), cfg(off=False, fix=True), cfg(off=True, fix=False), cfg(off=False, fix=False), cfg(nonpure=True), cfg(se=True)]
    for fl in flags:
        for i, c in enumerate(chunks(F, 10 if tier == 'quick' else 24)): T.append((f'sum of products {i} {cfg_str(fl)}', 't_sops', (c, fl)))
    return T
