"""C14: change kernels."""
from ..common import *
from ..num import Num, app, diff, Undecided
from ..models_lib import Arr, ix, Tot, retag, Param, Kern, Logexp, dim_same, num_of, all_atoms
from ..closed import resolve, equal, D
from .c13 import n, m, X, Y, XI, XJ, YJ, G, GS, swap, sigm, hat

RULE = ('Abstract interpretation of the change kernels over opaque sides (kernels about which only their own parameter, covariance and variance elements are known) and generic inputs, for histories of parameter '
        'changes and copies. Obligations per partition (signs of the distances to the bounds): covariance and variances equal the complementary weighting of the sides by the sigmoidal factors of the current parameters; '
        'each linked side receives dL_dK times its weight for the same inputs; location, slope and width receive the derivative through the second side (as documented) or through both; two change kernels made of the same given kernels (free ones or parts of a sum) have sides of their own and leave the given ones where and as they were.')
ASSUMPTIONS = ['summaries of numpy, numba, paramz and GPy base classes (sa/models_lib.py)', 'dL_dK is symmetric when a single set of inputs is given',
               'the gradients of location, slope and width are by design those of the second side\'s weighting (NOTE ON OPTIMISATION); either that or the complete derivative is accepted']


class Side(Kern):
    """A kernel of which nothing is known"""
    def __init__(self, key, name):
        Kern.__init__(self, 1, None, name)
        self.__dict__['key'] = key
        self.__dict__['rec'] = []
        self.variance = Param('variance', 1., Logexp()); self.link_parameter(self.variance)
    def _in(self, A):
        if A is X: return 'X'
        if A is Y: return 'Y'
        raise Undecided('a side evaluated on derived inputs')
    def K(self, A, A2=None):
        a = self._in(A)
        if A2 is None or A2 is A: return Arr((A.shape[0], A.shape[0]), self.variance.value * ix(f'δk{self.key}{a}', (-2, -1)))
        return Arr((A.shape[0], A2.shape[0]), self.variance.value * ix(f'k{self.key}{a}{self._in(A2)}', (-2, -1)))
    def Kdiag(self, A): return Arr((A.shape[0],), self.variance.value * ix(f'kd{self.key}{self._in(A)}', (-1,)))
    def update_gradients_full(self, g, A, A2=None): self.rec.append((g, A, A2))
    def update_gradients_diag(self, g, A): self.rec.append(('diag', g, A))


def build(w, kind, names, same):
    bk = w.import_module('GPy_ABCD.Kernels.baseKernels')
    a = Side('a', names[0]); b = a if same else Side('b', names[1])
    return getattr(bk, kind)(a, b)


def histories(k, few):
    """The kernel after some history of parameter changes and copies"""
    def used():   # anything remembered from an earlier evaluation must not outlive it
        k.assign_fresh('θ'); k.K(X); k.K(X, Y); k.Kdiag(X); k.update_gradients_full(G, X, Y)
    def all_fresh(): used(); k.assign_fresh('φ'); return k
    def single(i):
        def f():
            used()
            p = k.flattened_parameters[i]
            p.set_value(Num.atom(f'ψ:{p.hierarchy_name()}', pos=p.positive))
            return k
        return f
    def copied(): k.assign_fresh('θ'); return k.copy()
    def copied_changed(): used(); c = k.copy(); c.assign_fresh('φ'); return c
    def original_after_copy_changed(): used(); c = k.copy(); c.assign_fresh('φ'); c.K(X); return k
    def within():
        from ..models_lib import Add, White
        s = Add([k, White(1)]); s.assign_fresh('θ'); s.assign_fresh('φ')
        return next(p for p in s.parts if type(p) is type(k))
    def nested_copy():
        from ..models_lib import Add, White
        s = Add([k, White(1)]); s.assign_fresh('θ'); s2 = s.copy(); s2.assign_fresh('φ')
        return next(p for p in s2.parts if type(p) is type(k))
    hs = [all_fresh, copied, copied_changed, original_after_copy_changed, within, nested_copy] + [single(i) for i in range(len(k.flattened_parameters))]
    if few: hs = [all_fresh, nested_copy]
    return choose('history', hs)()


def t_change(R, kind, mode, part, flags, names=('side_a', 'side_b'), same=False):
    w = world(flags, ('Kernels.baseKernels',))
    CTX.lazy = True
    fixed = flags.get('__FIX_SIGMOIDAL_KERNELS_SLOPE', True); indep = kind == 'CW' and flags.get('__USE_INDEPENDENT_SIDES_CHANGEWINDOW_KERNEL', False)
    def go():
        k = build(w, kind, names, same); cls = type(k)
        W = where_of(cls.__init__)
        own = ['location'] + ([] if fixed else ['slope']) + ([] if kind == 'CP' else ['width']) + (['shift_variance'] if indep else [])
        sides = [p for p in k.parameters if isinstance(p, Side)]
        got = sorted(p.name for p in k.parameters if isinstance(p, Param))
        if len(sides) != 2: raise Violation('linked-sides', W, f'a {kind} kernel has {len(sides)} linked sides')
        if got != sorted(own): raise Violation('parameters', W, f'a {kind} kernel has own parameters {got} instead of {sorted(own)}')
        if not same and [s.key for s in sides] != ['a', 'b']: raise Violation('linked-sides', W, f'the linked sides are {[s.key for s in sides]} in this order')
        for p in k.parameters:
            if isinstance(p, Param) and p.name in ('slope', 'width', 'shift_variance') and not p.positive: raise Violation('parameters', W, f'the {p.name} is not constrained to be positive')
        k = histories(k, part.endswith('gradients'))
        first, second = [p for p in k.parameters if isinstance(p, Side)]
        P = {p.name: p.value for p in k.parameters if isinstance(p, Param)}
        slope = P.get('slope')
        if slope is None: slope = num_of(k.__dict__['slope'])
        l = P['location']
        x2 = None if mode in ('X', 'XNone', 'XX') else Y
        yj = XJ if x2 is None else YJ
        def weights(x):
            if indep: return 1 - sigm(x, l, slope), hat(x, l, slope, P['width']), sigm(x, l + P['width'], slope)
            if kind == 'CP': s = sigm(x, l, slope)
            else: s = hat(x, l, slope, P['width'])
            return 1 - s, s
        def combine(kf, ks, x, y):
            a, b = weights(x), weights(y)
            t = kf * a[0] * b[0] + ks * a[1] * b[1]
            if indep: t = t + (kf + P['shift_variance']) * a[2] * b[2]
            return t
        call = {'X': lambda f, *a: f(*a, X), 'XNone': lambda f, *a: f(*a, X, None), 'XX': lambda f, *a: f(*a, X, X), 'XY': lambda f, *a: f(*a, X, Y)}[mode]
        kf, ks = call(first.K).e, call(second.K).e
        if part == 'K':
            K = call(k.K)
            if not isinstance(K, Arr) or len(K.shape) != 2 or not dim_same(K.shape[0], n) or not dim_same(K.shape[1], n if x2 is None else m): raise Violation('covariance', where_of(cls.K), f'the covariance is {K!r}')
            s = resolve(combine(kf, ks, XI, yj)); e = resolve(K.e)
            wit = equal(e, s, tol=D('1e-9'))
            if wit: raise Violation('covariance', where_of(cls.K), f'the covariance of a {kind} kernel is not the complementary weighting of its sides by its current parameters: {wit}; it is {e!r} instead of {s!r}')
        elif part == 'Kdiag':
            d = k.Kdiag(X)
            if not isinstance(d, Arr) or len(d.shape) != 1: raise Violation('variances', where_of(cls.Kdiag), f'the variances are {d!r}')
            if not dim_same(d.shape[0], n): raise Violation('variances', where_of(cls.Kdiag), f'{d.shape[0]!r} variances are given for {n!r} inputs')
            s = resolve(combine(first.Kdiag(X).e, second.Kdiag(X).e, XJ, XJ)); e = resolve(d.e)
            wit = equal(e, s, tol=D('1e-9'))
            if wit: raise Violation('variances', where_of(cls.Kdiag), f'the variances of a {kind} kernel are not the complementary weighting of those of its sides: {wit}; they are {e!r} instead of {s!r}')
        elif part == 'side-gradients':
            g = GS if x2 is None else G
            del first.rec[:], second.rec[:]
            call(k.update_gradients_full, g)
            a, b = weights(XI), weights(yj)
            want = [a[0] * b[0] + (a[2] * b[2] if indep else 0), a[1] * b[1]]
            for side, ww, nm in ((first, want[0], 'first'), (second, want[1], 'second')):
                if not side.rec: raise Violation('side-gradients', where_of(cls.update_gradients_full), f'the {nm} side of a {kind} kernel never receives a gradient')
                gg, A, A2 = side.rec[-1]
                if not isinstance(gg, Arr) or A is not X or not (A2 is x2 or (x2 is None and A2 is X)): raise Violation('side-gradients', where_of(cls.update_gradients_full), f'the {nm} side of a {kind} kernel receives its gradient for other inputs or as {gg!r}')
                e, s = resolve(gg.e), resolve(g.e * ww)
                wit = equal(e, s, tol=D('1e-9'))
                if wit: raise Violation('side-gradients', where_of(cls.update_gradients_full), f'the {nm} side of a {kind} kernel does not receive dL_dK times its weight: {wit}; receives {e!r} instead of {s!r}')
        else:
            g = GS if x2 is None else G
            for p in k.parameters:
                if isinstance(p, Param): p.__dict__['gradient'] = None
            call(k.update_gradients_full, g)
            for p in k.parameters:
                if not isinstance(p, Param): continue
                gr = p.gradient; wG = where_of(cls.update_gradients_full)
                if gr is None: raise Violation('own-gradients', wG, f'the gradient of the {p.name} of a {kind} kernel is never updated')
                if isinstance(gr, Tot):
                    if len(gr.shape_) != 2: raise Undecided('gradient total of another shape')
                    raw = gr.e
                else:
                    raw = num_of(gr)
                    if raw is None: raise Undecided(f'gradient {gr!r}')
                ge = resolve(raw) if x2 is not None else resolve(raw) + resolve(swap(raw))
                at = p.value.the_atom(); f2 = 1 if x2 is not None else 2
                a, b = [resolve(t) for t in weights(XI)], [resolve(t) for t in weights(yj)]
                if p.name == 'shift_variance': cands = [g.e * a[2] * b[2] * f2]
                else:
                    d2 = diff(a[1] * b[1], at) * ks * g.e * f2; d1 = diff(a[0] * b[0], at) * kf * g.e * f2
                    cands = [d2, d1 + d2]
                    if indep: cands += [d1 + d2 + diff(a[2] * b[2], at) * (kf + P['shift_variance']) * g.e * f2]
                wit = None
                for c in cands:
                    x = equal(ge, c, tol=D('1e-9'))
                    if x is None: break
                    wit = wit or x
                else: raise Violation('own-gradients', wG, f'the gradient of the {p.name} of a {kind} kernel is neither the derivative of the second side\'s term nor of the covariance: {wit}; sums {ge!r}')
    R.explore(f'{part} {mode}', go, w, max_paths=1500)


def t_given(R, flags, kinds):
    """Change kernels made from the same given kernels are independent of each other and leave those alone"""
    w = world(flags, ('Kernels.baseKernels',))
    def go():
        bk = w.import_module('GPy_ABCD.Kernels.baseKernels')
        a, b, c = Side('a', 'side_a'), Side('b', 'side_b'), Side('c', 'side_c')
        given = choose('given', ['alone', 'in a sum'])
        if given == 'in a sum':
            from ..models_lib import Add
            whole = Add([a, b])
        pairs = choose('sides', [((a, b), (a, c)), ((a, b), (c, b)), ((a, b), (b, a)), ((a, b), (a, b)), ((a, a), (b, a))])
        before = {x.key: (x._parent_, x.variance.value) for x in (a, b, c)}
        ks = [getattr(bk, kind)(*p) for kind, p in zip(kinds, pairs)]
        W = where_of(type(ks[0]).__init__)
        for x in (a, b, c):
            if x._parent_ is not before[x.key][0]: raise Violation('linked-sides', W, f'a kernel given as a side is taken from where it was ({given}) instead of copied')
        own = []
        for k, p in zip(ks, pairs):
            s = [q for q in k.parameters if isinstance(q, Side)]
            if [q.key for q in s] != [q.key for q in p]: raise Violation('linked-sides', W, f'after making two change kernels of the same sides, one has the linked sides {[q.key for q in s]} instead of {[q.key for q in p]}')
            own += s
        if len({id(q) for q in own}) != 4: raise Violation('linked-sides', W, 'two sides of change kernels are one kernel')
        first = [p.value for p in ks[0].flattened_parameters]
        ks[1].assign_fresh('φ')
        if any(not p.value.same(v) for p, v in zip(ks[0].flattened_parameters, first)): raise Violation('linked-sides', W, 'changing the parameters of one change kernel changes those of another')
        for x in (a, b, c):
            if not num_of(x.variance.value).same(num_of(before[x.key][1])): raise Violation('linked-sides', W, 'changing the parameters of a change kernel changes the kernels it was made of')
    R.explore('given kernels', go, w)


def tasks(tier):
    T = []
    for kinds in (('CP', 'CP'), ('CW', 'CW'), ('CP', 'CW')):
        for f2 in (cfg(fix=True), cfg(fix=False, indep=True)): T.append((f'given kernels {kinds} {cfg_str(f2)}', 't_given', (f2, kinds)))
    fl = [cfg(fix=True), cfg(fix=False)]
    for kind in ('CP', 'CW'):
        for f in fl:
            for indep in ((False, True) if kind == 'CW' else (False,)):
                f2 = {**f, **cfg(indep=indep)} if kind == 'CW' else f
                for part in ('K', 'Kdiag', 'side-gradients', 'own-gradients'):
                    for mode in (('X',) if part == 'Kdiag' else ('X', 'XX', 'XY') if part == 'K' else ('X', 'XY')):
                        T.append((f'{kind} {part} {mode} {cfg_str(f2)}', 't_change', (kind, mode, part, f2)))
        T.append((f'{kind} same name', 't_change', (kind, 'XY', 'K', fl[0], ('side', 'side'))))
        T.append((f'{kind} same kernel', 't_change', (kind, 'XY', 'side-gradients', fl[0], ('side', 'side'), True)))
        T.append((f'{kind} same kernel K', 't_change', (kind, 'XY', 'K', fl[0], ('side', 'side'), True)))
    return T
