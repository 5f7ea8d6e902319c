"""Fitted expressions: the parameters of the kernel built from an expression, and what the expression says after matching."""
from .common import *
from .kes import *
from .num import app, Undecided, settled
from .models_lib import Param, Parameterized, Kern, Add, Prod, Arr, ix, num_of
from . import trees

N, = (Num.atom('n', integer=True, pos=True),)
X = Arr((N, 1), ix('X', (-2,))); Y = Arr((N, 1), ix('Yv', (-2,)))

SIGM = {('CP', 0): 'Sr', ('CP', 1): 'S', ('CW', 0): 'SIr', ('CW', 1): 'SI'}


class Kernels:
    """Kernel classes of the base kinds of a world"""
    def __init__(self, w):
        self.w = w
        bk = w.import_module('GPy_ABCD.Kernels.baseKernels')
        self.kind = {type(getattr(bk, k)()): k for k in KINDS}
        a, b = bk.CP(bk.WN(), bk.WN()), bk.CW(bk.WN(), bk.WN())
        self.change = {type(a): 'CP', type(b): 'CW'}

    def own(self, k): return {p.name: p.value for p in k.parameters if isinstance(p, Param)}

    def read(self, k):
        """('leaf', kind, params) | ('S', [..]) | ('P', [..]) | (CP/CW, params, left, right)"""
        if isinstance(k, Add): return ('S', [self.read(p) for p in k.parts])
        if isinstance(k, Prod): return ('P', [self.read(p) for p in k.parts])
        for c, n in self.change.items():
            if type(k) is c:
                s = [p for p in k.parameters if isinstance(p, Kern)]
                if len(s) != 2: raise Undecided(f'a {n} kernel with {len(s)} linked sides')
                return (n, self.own(k), self.read(s[0]), self.read(s[1]))
        n = self.kind.get(type(k))
        if n is None: raise Undecided(f'a kernel of unknown type {type(k).__name__}')
        return ('leaf', n, self.own(k))


def pkey(ps): return tuple(sorted((n, repr(settled(num_of(v))) if num_of(v) is not None else repr(v)) for n, v in ps.items()))

def canon(t):
    """Comparable form of a kernel tree; the variance of a product is that of all its base factors"""
    if t[0] == 'leaf': return ('leaf', t[1], pkey(t[2]))
    if t[0] == 'S': return ('S', tuple(sorted(map(canon, t[1]))))
    if t[0] == 'P':
        v = Num.of(1); out = []
        for x in t[1]:
            if x[0] == 'leaf':
                ps = dict(x[2])
                if 'variance' in ps: v = v * ps.pop('variance')
                out.append(('leaf', x[1], pkey(ps)))
            else: out.append(canon(x))
        return ('P', repr(settled(v)), tuple(sorted(out)))
    return (t[0], pkey(t[1]), canon(t[2]), canon(t[3]))


def said(K, x):
    """The same for an expression with matched parameters"""
    if isinstance(x, K.Change):
        ps = x.parameters
        own = ps.get(x.CP_or_CW)
        if not own or len(own) != 1: raise Violation('attached', x.CP_or_CW, f'a {x.CP_or_CW} node has {0 if not own else len(own)} parameter sets')
        sides = []
        for br in ('left', 'right'):
            s = getattr(x, br)
            if isinstance(s, str):
                l = ps.get((br, s))
                if l is None: raise Undecided('layout of the parameters of a change node')
                if len(l) != 1: raise Violation('attached', x.CP_or_CW, f'the {br} side {s} has {len(l)} parameter sets')
                sides.append(('leaf', s, pkey(l[0])))
            else: sides.append(said(K, s))
        extra = [k for k in ps if k != x.CP_or_CW and not (isinstance(k, tuple) and k[0] in ('left', 'right'))]
        if extra: raise Undecided(f'parameters under {extra}')
        return (x.CP_or_CW, pkey(own[0]), sides[0], sides[1])
    ps = x.parameters
    out = []
    for k, c in x.base_terms.items():
        l = ps.get(k, [])
        if len(l) != c: raise Violation('attached', k, f'{c} {k} terms have {len(l)} parameter sets')
        out += [('leaf', k, pkey(p)) for p in l]
    extra = [k for k in ps if k not in x.base_terms and k != 'ProductKE' and ps[k]]
    if extra: raise Violation('attached', str(extra[0]), f'parameters of {extra} which are not terms')
    out += [said(K, c) for c in x.composite_terms]
    if isinstance(x, K.Sum): return ('S', tuple(sorted(out))) if len(out) > 1 else out[0]
    v = ps.get('ProductKE')
    if v and len(v) != 1: raise Violation('attached', 'ProductKE', f'a product has {len(v)} variances')
    v = v[0].get('variance') if v else None
    return ('P', repr(settled(num(v)) if v is not None else Num.of(1)), tuple(sorted(out)))


def single(c):
    """A sum of one term is that term"""
    return c[1][0] if c[0] == 'S' and len(c[1]) == 1 else c


# ---- sums of products

def expand_terms(t):
    """[(coefficient, [(kind, params)])] of a kernel tree"""
    if t[0] == 'leaf':
        ps = dict(t[2]); v = ps.pop('variance', Num.of(1))
        return [(v, [(t[1], ps)])]
    if t[0] == 'S': return [x for c in t[1] for x in expand_terms(c)]
    if t[0] == 'P':
        r = [(Num.of(1), [])]
        for c in t[1]:
            e = expand_terms(c)
            r = [(a * b, f + g) for a, f in r for b, g in e]
        return r
    out = []
    for i in (0, 1): out += [(v, f + [(SIGM[(t[0], i)], t[1])]) for v, f in expand_terms(t[2 + i])]
    return out


def term(v, fs):
    """Canonical term: stationary factors vanish in white noise, constants have no parameters, smooth factors combine"""
    kinds = [k for k, _ in fs]
    sig = ('S', 'Sr', 'SI', 'SIr')
    if 'WN' in kinds: fs = [('WN', {})] + [(k, p) for k, p in fs if k in ('LIN',) + sig]
    fs = [(k, p) for k, p in fs if k != 'C'] or [('C', {})]
    if not any(k not in sig for k, _ in fs): fs = [('C', {})] + fs
    se = [p['lengthscale'] for k, p in fs if k == 'SE']
    inv = Num.of(0)
    for l in se: inv = inv + 1 / (num_of(l) * num_of(l))
    fs = [(k, p) for k, p in fs if k != 'SE']
    return (v, tuple(sorted((k, pkey(p)) for k, p in fs)), inv if se else None)

def canonical(v, fs):
    t = term(v, fs)
    return t


def sops_terms(K, s):
    """The terms of a sum-of-products expression"""
    if isinstance(s, K.Prod): comps = [s]
    elif isinstance(s, K.Sum):
        if sum(s.base_terms.values()): raise Violation('pure', 'sum-of-products', f'base terms {dict(s.base_terms)} are left outside the products')
        comps = s.composite_terms
    else: raise Violation('pure', 'sum-of-products', f'the form is a {type(s).__name__}')
    out = []
    for c in comps:
        if not isinstance(c, K.Prod) or c.composite_terms: raise Violation('pure', 'sum-of-products', f'{c!r} is not a product of base terms')
        v = c.parameters.get('ProductKE')
        if not v or len(v) != 1 or 'variance' not in v[0]: raise Violation('pure', 'sum-of-products', f'the product {dict(c.parameters)!r} has no single variance')
        fs = []
        for k, l in c.parameters.items():
            if k == 'ProductKE': continue
            if k not in KINDS + ('S', 'Sr', 'SI', 'SIr'): raise Undecided(f'parameters under {k!r}')
            for p in l:
                if 'variance' in p: raise Violation('pure', 'sum-of-products', f'a variance is left with {k}')
                fs.append((k, p))
            if k in ('WN', 'C') and not any(l): l = l[:1]; fs = [f for f in fs if f[0] != k] + ([(k, {})] if l else [])   # idempotent and without parameters
            if c.base_terms.get(k, 0) != len(l): raise Violation('pure', 'sum-of-products', f'{c.base_terms.get(k, 0)} {k} factors with {len(l)} parameter sets')
        for k, n in c.base_terms.items():
            if n and not c.parameters.get(k): raise Violation('pure', 'sum-of-products', f'{n} {k} factors without parameters')
        out.append((num(v[0]['variance']), fs))
    return out


def same_terms(a, b):
    """None, or the first difference of two multisets of terms (like terms added)"""
    def group(ts):
        g = []
        for v, f, l in ts:
            for e in g:
                if e[1] == f and (e[2] is None) == (l is None) and (l is None or e[2].same(l)): e[0] = e[0] + v; break
            else: g.append([v, f, l])
        return g
    A, B = group(a), group(b)
    for v, f, l in A:
        for i, (v2, f2, l2) in enumerate(B):
            if f == f2 and (l is None) == (l2 is None) and (l is None or l.same(l2)):
                if not v.same(v2): return f'the term {show_term((v, f, l))} should have variance {v2!r}'
                del B[i]; break
        else: return f'the term {show_term((v, f, l))} is not one of the fitted kernel'
    if B: return f'the term {show_term(B[0])} of the fitted kernel is missing'
    return None

def show_term(t): return f'{t[0]!r} * ' + ' * '.join(f'{k}({", ".join(f"{a}={b}" for a, b in p)})' for k, p in t[1]) + (f' * SE(1/lengthscale^2={t[2]!r})' if t[2] is not None else '')


def fit(w, K, t):
    """A fitted model of the expression with shape t; returns (model, expression)"""
    GPModel = w.get('Models.model:GPModel')
    x = K.build(t) if not isinstance(t, str) else K.Sum([t])
    x = x._initialise()
    m = GPModel(X, Y, x)
    m.fit(1)
    return m, x


def forests(tier, huge=False):
    """Shapes: all canonical trees with few leaves, and selected larger ones"""
    out = []
    g5 = trees.Gen(KINDS, True)
    out += g5.roots(1) + g5.roots(2)
    if tier == 'thorough': out += g5.roots(3) + trees.Gen(('LIN', 'PER'), True).roots(4)
    else: out += trees.Gen(('WN', 'LIN', 'PER'), True).roots(3)[::2] + [t for t in g5.roots(3)[::7]]
    s = lambda c, *k: ('S', c, list(k)); p = lambda c, *k: ('P', c, list(k)); cp = lambda a, b: ('CP', a, b); cw = lambda a, b: ('CW', a, b)
    out += [p({}, s({'PER': 1, 'LIN': 1}), s({'WN': 1, 'SE': 1})), p({'SE': 1}, s({'PER': 1, 'SE': 1}), s({'SE': 1, 'C': 1})),
            p({'LIN': 1}, s({'PER': 2}), s({'LIN': 2})), s({'LIN': 1}, p({'PER': 2}), p({'PER': 1, 'SE': 1}), p({'LIN': 2})),
            s({'PER': 1}, p({'SE': 1}, s({'PER': 1}, p({'LIN': 2}))), cp('LIN', 'PER')), cp(s({'LIN': 1, 'PER': 1}), s({'LIN': 1, 'PER': 1})), cp(p({'LIN': 2}), p({'LIN': 1, 'PER': 1})),
            cw(p({'LIN': 2}), s({'LIN': 2})), cp(cp('LIN', 'LIN'), cp('LIN', 'LIN')), cp(cw('LIN', 'PER'), cp('PER', 'LIN')), s({}, cp('LIN', 'LIN'), cp('LIN', 'LIN'), cw('LIN', 'LIN')),
            p({'SE': 1}, cp('LIN', 'PER'), cw('SE', 'WN')), p({}, cp('SE', 'SE'), s({'SE': 1, 'PER': 1})), p({'WN': 1}, s({'LIN': 1, 'PER': 1}), cp('LIN', 'C')),
            p({'LIN': 2}, s({'WN': 1, 'LIN': 1}), s({'WN': 1, 'SE': 1})), s({'WN': 1, 'SE': 2, 'LIN': 2, 'PER': 2}), s({'C': 1, 'WN': 1}, p({'SE': 1, 'PER': 2})),
            p({'PER': 3, 'LIN': 2}), s({'PER': 3}, p({'PER': 2}), p({'PER': 3})), cp(s({'PER': 1}, p({'SE': 1}, cp('C', 'LIN'))), p({'LIN': 1}, s({'PER': 1, 'C': 1}))),
            s({'SE': 1}, p({'SE': 1}, s({'SE': 1}, p({'SE': 1}, s({'SE': 1, 'LIN': 1}))))), p({'C': 0, 'SE': 1}, s({'C': 1, 'WN': 1}), s({'C': 1, 'PER': 1})),
            cw(cw('C', 'C'), cw('C', 'C')), cp('WN', cw(s({'WN': 1, 'C': 1}), 'WN')), p({'PER': 1}, cp('C', cw('C', 'SE')), cp('PER', 'PER'))]
    # every pair of kinds of sides and of terms, with equal and with different contents
    side = [lambda a, b: a, lambda a, b: s({a: 1, b: 1}), lambda a, b: p({a: 1, b: 2}), cp, cw]
    pairs = [(f('LIN', 'PER'), g(*c)) for i, f in enumerate(side) for j, g in enumerate(side) for c in (('LIN', 'PER'), ('PER', 'LIN'))]
    out += [x for i, (a, b) in enumerate(pairs) for x in ([cp(a, b), cw(a, b)] if tier == 'thorough' or i % 4 < 2 and i % 12 in (0, 1, 4, 5, 8, 9) or type(a) is type(b) and a[0] == b[0] else [(cp, cw)[i % 2](a, b)])]
    out += [s({'PER': 1}, p({'LIN': 1}, cp(a, b))) for a, b in pairs if type(a) is type(b) and a[0] == b[0]]
    # more than ten terms of a kind
    big = s({'LIN': 12, 'PER': 11}); bigp = p({'LIN': 11, 'PER': 12})
    out += [big, bigp, cp(big, bigp), s({'LIN': 1}, *[p({'LIN': 1 + i % 3, 'PER': 1 + i // 3}) for i in range(12)]), s({}, *[cp('LIN', 'PER') if i % 2 else cw('PER', 'LIN') for i in range(24)]), cp(s({'WN': 1}, *[p({'LIN': 1 + i}) for i in range(1, 12)]), cw('PER', 'LIN')),
            p({}, *[s({'LIN': 1 + i % 3, 'PER': 1 + i // 3}) for i in range(12)]), p({'PER': 1}, *[cw('LIN', s({'LIN': 1, 'PER': 1 + i})) for i in range(11)])][:6 if huge == 'sums' else None] if huge else []
    # products with many terms
    if huge == 'sums': out += [p({}, *[s({'LIN': 3}) for _ in range(5)]), cp(p({}, *[s({'LIN': 1, 'PER': 1}) for _ in range(7)]), s({'LIN': 1, 'WN': 1})),
                             p({'SE': 1}, *[s({'SE': 1, 'LIN': 1}) for _ in range(3)])]
    return out
