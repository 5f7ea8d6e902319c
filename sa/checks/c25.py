"""C25: descriptions in words state each component's shape and fitted values."""
import re, itertools
from collections import Counter
from ..fitted import *
from ..num import FMT

RULE = ('Abstract interpretation of the description of a sum of products of base and sigmoidal factors whose fitted values are symbols (the code\'s comparisons of periods split the analysis, so all orders of them are covered; also with coinciding values). '
        'Each sentence is read back into mentions (kinds of factors, values in their roles): per partition the kinds mentioned are exactly those of the component\'s factors, the first of periodic, smooth, constant, noise and polynomial '
        'being the subject; every lengthscale, period with its own lengthscale (longest period first, the others counted), polynomial degree, root (iff offsets are fitted) and the overall variance is stated once, in its role; '
        'ranges of application are stated iff the component has sigmoidal factors; there are as many sentences as components and as stated; the component is left as it was.')
ASSUMPTIONS = ['at most 4 polynomial and 4 periodic factors per component (thorough: 6 and 5), one smooth factor, at most two sigmoidal ones; at most 3 components', 'the values are printed with a format the analysis can read back']

T = r'⟦([^⟧|]*)(?:\|[^⟧]*)?⟧'
ORDER = ('PER', 'SE', 'C', 'WN', 'LIN')
WORDS = {'PER': r'\bperiodic', 'SE': r'\bsmooth', 'C': r'\bconstant', 'WN': r'\bnoise', 'LIN': r'\blinear|\bpolynomial', 'sigm': r'; this component applies (?!.*; this component applies)'}


def contents(K, kinds, sig, fix, tag, equal=False):
    """Parameters of one component with fresh symbols (equal: the last factor of each kind has the values of the first)"""
    ps = {}
    for k, n in kinds:
        l = []
        for i in range(n):
            p = {}
            if k == 'SE': p['lengthscale'] = Num.atom(f'len_{tag}{i}', pos=True)
            if k == 'PER': p['period'] = Num.atom(f'period_{tag}{i}', pos=True); p['lengthscale'] = Num.atom(f'plen_{tag}{i}', pos=True)
            if k == 'LIN' and K.off: p['offset'] = Num.atom(f'off_{tag}{i}')
            l.append(p if not (equal and i and i == n - 1) else dict(l[0]))
        ps[k] = l
    for i, k in enumerate(sig):
        p = {'location': Num.atom(f'loc_{tag}{i}')}
        if not fix: p['slope'] = Num.atom(f'slope_{tag}{i}', pos=True)
        if k in ('SI', 'SIr'): p['width'] = Num.atom(f'width_{tag}{i}', pos=True)
        ps.setdefault(k, []).append(p)
    return ps


def sentence(text, kinds, sig, ps, var, off, wh):
    """Reads one sentence back"""
    kinds = dict(kinds)
    what = ' * '.join([f'{k}^{n}' if n > 1 else k for k, n in kinds.items()] + list(sig))
    fitted = {a for l in ps.values() for q in l for v in q.values() for a in num_of(v).atoms()}
    if any(r == '==' and len(Num(c).atoms()) == 1 and Num(c).atoms() <= fitted for c, r in CTX.facts.cons): raise Undecided('a fitted value which is a certain number')
    def bad(rule, msg): raise Violation(rule, wh, f'a component {what}: {msg} in {text!r}')
    for spec in re.findall(r'⟦[^⟧|]*\|([^⟧]*)⟧', text):
        d = re.fullmatch(r'[-+ ]?#?0?\d*,?(?:\.(\d+))?([feEgGdn%s])?', spec)
        p = None if d is None else d.group(1) and int(d.group(1))
        if d and (d.group(2) in ('d', 'n') or d.group(2) in ('f', 'e', 'E') and p is not None and p < 2 or d.group(2) in ('g', 'G') and (6 if p is None else p) < 9 or d.group(2) is None and p is not None and p < 9): bad('precision', f'a value is rounded by the format {spec!r}')
    rng = re.search(r'; this component applies (.*?)(?=, and it has|; this component has|$)', text)
    main = text if rng is None else text[:rng.start()] + text[rng.end():]
    if bool(rng) != bool(sig): bad('range', 'a range of application is stated although there are no changes' if rng else 'no range of application is stated')
    if rng and not re.search(T + '|nowhere', rng.group(1)): bad('range', 'no range of application is stated')
    where_in = {k: m.start() for k, m in ((k, re.search(WORDS[k], main, re.I)) for k in ORDER) if m}
    if set(where_in) != set(kinds): bad('factors', f'factors mentioned: {sorted(where_in)}')
    subj = next(k for k in ORDER if k in kinds)
    if min(where_in, key=lambda k: where_in[k]) != subj: bad('subject', f'{subj} is not the subject')
    if re.search(r'^(whose|with)\b', main.strip()): bad('subject', 'no subject')
    v = re.findall(rf'overall variance {T}', main)
    if v != [repr(var)]: bad('values', f'the overall variance {var!r} is stated as {v}')
    if re.search(rf'overall variance {T}', text).end() < len(text.rstrip('. ')): bad('values', 'the overall variance does not end the sentence')
    rest = re.sub(rf'(it|component) has overall variance {T}', '', main)
    # periodic factors
    n = kinds.get('PER', 0)
    pp = re.findall(rf'period {T} and lengthscale {T}', rest)
    want = Counter((repr(p['period']), repr(p['lengthscale'])) for p in ps.get('PER', []))
    if Counter(pp) != want: bad('values', f'the periods and lengthscales {sorted(want)} are stated as {pp}')
    per = [FMT[a] for a, _ in pp]
    if any(a < b for a, b in zip(per, per[1:])): bad('order', f'a longer period is stated after a shorter one ({pp})')
    if ('main period' in rest) != (n > 1): bad('values', 'a main period is stated for one' if n == 1 else 'no main period is stated')
    m = re.search(r'(\d+) more periodic', rest)
    if m and int(m.group(1)) != n - 1: bad('values', f'{m.group(1)} more periodic factors instead of {n - 1}')
    if n > 2 and not m: bad('values', f'the {n - 1} further periodic factors are not counted')
    if n != 2 and 'another periodic' in rest: bad('values', f'{n} periodic factors are described as two')
    rest = re.sub(rf'period {T} and lengthscale {T}', '', rest)
    # smooth factor
    ls = re.findall(rf'lengthscale {T}', rest)
    if ls != [repr(p['lengthscale']) for p in ps.get('SE', [])]: bad('values', f'the lengthscale of the smooth factor is stated as {ls}')
    rest = re.sub(rf'lengthscale {T}', '', rest)
    # polynomial
    n = kinds.get('LIN', 0)
    o = re.findall(r'of order (\d+)', rest)
    if n > 1 and [int(x) for x in o] != [n] or n <= 1 and o: bad('values', f'the order of the polynomial ({n}) is stated as {o}')
    if n and bool(re.search(r'polynomial', rest, re.I)) != (n > 1): bad('values', f'a polynomial of order {n} is not named so')
    toks = re.findall(T, rest)
    want = Counter(repr(p['offset']) for p in ps.get('LIN', [])) if off else Counter()
    if Counter(toks) != want: bad('values', f'the roots {sorted(want)} are stated as {toks}')
    if off and n and ('root' in rest) != (n > 1): bad('values', 'the values of the polynomial are not named roots')
    if off and n == 1 and not re.search(rf'offset {T}', rest): bad('values', 'the offset is not named')


def t_one(R, cases, flags):
    w = world(flags, ('KernelExpressions.all',))
    K = KE(w); fix = w.get('config').__dict__.get('__FIX_SIGMOIDAL_KERNELS_SLOPE')
    for comps in cases:
        def go():
            pss, prods = [], []
            for i, (kinds, sig) in enumerate(comps):
                var = Num.atom(f'var_{i}', pos=True)
                ps = contents(K, kinds, sig, fix, 'abc'[i], i == 0 and any(n > 1 for _, n in kinds) and choose('coinciding values', [False, True]))
                p = K.Prod([]); p.parameters['ProductKE'] = [{'variance': var}]
                items = list(ps.items())
                if choose('order of the factors', ['given', 'reversed']) == 'reversed': items.reverse()
                for k, l in items: p.parameters[k] = [dict(x) for x in l]
                for k, l in ps.items(): p.base_terms[k] = len(l)
                pss.append((kinds, sig, ps, var)); prods.append(p)
            s = K.Sum([]); s.composite_terms = prods
            wh = where_of(type(s).get_interpretation)
            before = [repr({k: v for k, v in p.parameters.items()}) for p in prods]
            text = s.get_interpretation(sops=s)
            lines = text.split('\n\t')
            m = re.search(r'(\d+) component', lines[0])
            if not m or int(m.group(1)) != len(comps): raise Violation('count', wh, f'{lines[0]!r} for {len(comps)} components')
            if len(lines) - 1 != len(comps): raise Violation('count', wh, f'{len(lines) - 1} sentences for {len(comps)} components')
            left = lines[1:]
            for kinds, sig, ps, var in pss:
                mine = [l for l in left if repr(var) in re.findall(T, l)]
                if len(mine) != 1: raise Violation('values', wh, f'{len(mine)} sentences state the variance {var!r} in {text!r}')
                left.remove(mine[0])
                sentence(mine[0], kinds, sig, ps, var, K.off, 'GPy_ABCD/KernelExpansion/kernelInterpretation.py base_factors_interpretation')
            if [repr({k: v for k, v in p.parameters.items()}) for p in prods] != before: raise Violation('unchanged', wh, f'describing changes the parameters {before}')
        R.explore('description', go, w, max_paths=3000)


def tasks(tier):
    nl, np_ = (4, 4) if tier == 'quick' else (6, 5)
    one = []
    for lin in range(nl + 1):
        l = [('LIN', lin)] if lin else []
        for sig in [(), ('S',), ('SIr', 'Sr')] + ([('SI',), ('S', 'SI')] if tier == 'thorough' or lin < 2 else []):
            one.append((tuple([('WN', 1)] + l), sig))
            if l: one.append((tuple(l), sig))
            else: one.append(((('C', 1),), sig))
            for se in (0, 1):
                e = [('SE', 1)] if se else []
                if se: one.append((tuple(e + l), sig))
                for per in range(1, np_ + 1):
                    if per > 2 and (lin > 2 or len(sig) > 1): continue
                    one.append((tuple([('PER', per)] + e + l), sig))
    several = [(a, b) for a in one[::9] for b in one[3::11]][: 24 if tier == 'quick' else None]
    several = [c for c in several if sum(n for k, n in c[0][0] + c[1][0] if k == 'PER') < 5] + [(one[1], one[5], one[8]), (one[0], one[1], one[2])]
    cases = [(c,) for c in one] + several
    out = []
    for off in (True, False):
        for fix in (True, False):
            for i in range(4): out.append((f'descriptions {i} offsets={off} fixed slopes={fix}', 't_one', (cases[i::4], cfg(off=off, fix=fix))))
    return out
