"""C13: covariance functions and their gradients."""
from decimal import Decimal as D
from ..common import *
from ..num import Num, app, diff, subst, Undecided, p_isconst
from ..models_lib import Arr, ix, Tot, retag, Param, Parameterized, all_atoms, num_of, PI
from ..closed import resolve, equal, points, free_atoms

RULE = ('Abstract interpretation of K, Kdiag and update_gradients_full of every base and sigmoidal kernel on arrays summarised by their generic element (any number of points, any inputs, '
        'any admissible parameter values; between one set of inputs and itself, or two sets). Obligations per path: the closed form of K equals the documented one; Kdiag equals the diagonal of K; '
        'each gradient equals the total of dL_dK times the derivative of the covariance; K depends on nothing but its inputs and its linked parameters; memoisation never ignores an argument that the result depends on.')
ASSUMPTIONS = ['summaries of numpy, numba (as the decorated function), scipy.special.i0/i1, paramz and GPy base classes (sa/models_lib.py)',
               'dL_dK is symmetric when a single set of inputs is given', 'the scaled Bessel polynomials of small lengthscales are compared numerically (abs. 1e-6; their lengthscale gradient 2e-6 of its inner derivative)',
               'the lengthscale gradient of the periodic kernel beyond lengthscale 1e4 is approximate by design and not claimed']

n, m = Num.atom('n', integer=True, pos=True), Num.atom('m', integer=True, pos=True)
X = Arr((n, 1), ix('X', (-2,))); Y = Arr((m, 1), ix('Y', (-2,)))
XI, XJ, YJ = ix('X', (-2,)), ix('X', (-1,)), ix('Y', (-1,))
G = Arr((n, m), ix('G', (-2, -1))); GS = Arr((n, n), ix('δG', (-2, -1)))

def swap(e): return retag(e, lambda t: {-1: -2, -2: -1}[t])

def sig(a): return (1 + a / (1 + app('abs', a))) / 2 if a.n else Num.of(1) / 2

def sigm(x, loc, slope):
    from ..models_lib import el_abs
    a = (x - loc) / slope
    return (1 + a / (1 + el_abs(a))) / 2

def core(a): return a / (1 + a)     # of positive arguments

def hat(x, loc, slope, width):
    from ..models_lib import el_abs
    a = (x - loc) / slope; b = (x - loc - width) / (-slope)
    return (a / (1 + el_abs(a)) + b / (1 + el_abs(b))) / 2 / core(width / (2 * slope))


def kernel_of(w, name, flags):
    bk = w.import_module('GPy_ABCD.Kernels.baseKernels')
    if name == 'Linear': return w.get('Kernels.linearKernel:Linear')(1)
    return getattr(bk, name)()


SPEC = {  # documented closed forms: (parameter names -> positive?, k(x, y))
    'LIN': lambda P: P['variance'] and (lambda x, y: P['variance'] * (x - P['offset']) * (y - P['offset'])),
}

def params_of(k): return {p.name: p.value for p in k.flattened_parameters}

def spec_k(name, P, k, flags):
    """The documented covariance of x and y, and the positive parameters"""
    v = P['variance']
    slope = P.get('slope')
    if slope is None: slope = num_of(k.__dict__.get('slope', 0))
    if name == 'LIN' : return lambda x, y: v * (x - P['offset']) * (y - P['offset'])
    if name == 'Linear': return lambda x, y: v * x * y
    if name == 'PER': 
        t = 1 / (P['lengthscale'] * P['lengthscale'])
        def f(x, y):
            c = app('cos', 2 * PI / P['period'] * (x - y))
            return v * (app('exp', c * t) - app('i0', t)) / (app('exp', t) - app('i0', t))
        return f
    if name == 'S': return lambda x, y: v * sigm(x, P['location'], slope) * sigm(y, P['location'], slope)
    if name == 'Sr': return lambda x, y: v * (1 - sigm(x, P['location'], slope)) * (1 - sigm(y, P['location'], slope))
    if name == 'SI': return lambda x, y: v * hat(x, P['location'], slope, P['width']) * hat(y, P['location'], slope, P['width'])
    if name == 'SIr': return lambda x, y: v * (1 - hat(x, P['location'], slope, P['width'])) * (1 - hat(y, P['location'], slope, P['width']))

NAMES = {'LIN': {'variance': True, 'offset': False}, 'Linear': {'variance': True}, 'PER': {'variance': True, 'period': True, 'lengthscale': True},
         'S': {'variance': True, 'location': False, 'slope': True}, 'Sr': {'variance': True, 'location': False, 'slope': True},
         'SI': {'variance': True, 'location': False, 'slope': True, 'width': True}, 'SIr': {'variance': True, 'location': False, 'slope': True, 'width': True}}


def grids_of(P):
    l = P.get('lengthscale')
    if l is None: return {}
    return {l.the_atom(): ['0.03', '0.1', '0.2', '0.3', '0.45', '0.515', '0.518', '0.6', '0.9', '1.5', '4', '9', '40', '130', '900', '9000', '11000', '60000']}


def t_kernel(R, name, two, flags):
    w = world(flags, ('Kernels.baseKernels', 'Kernels.linearKernel'))
    CTX.lazy = True
    def go():
        k = kernel_of(w, name, flags)
        cls = type(k); wK, wG = where_of(cls.K), where_of(cls.update_gradients_full)
        want = dict(NAMES[name])
        if name in ('S', 'Sr', 'SI', 'SIr') and flags.get('__FIX_SIGMOIDAL_KERNELS_SLOPE', True): want.pop('slope')
        got = {p.name: p.positive for p in k.flattened_parameters}
        if got != want: raise Violation('parameters', where_of(cls.__init__), f'{name} has fitted parameters {got} (name: constrained positive) instead of {want}')
        k.assign_fresh('θ')
        k.K(X); k.K(X, Y); k.Kdiag(X); k.update_gradients_full(G, X, Y)   # nothing remembered from an earlier evaluation may outlive a parameter change
        k.assign_fresh('φ')      # the state after any parameter change is that of the last values
        P = params_of(k)
        f = spec_k(name, P, k, flags)
        if f is None: raise Undecided('no documented form')
        per = name == 'PER' and 'lengthscale' in P
        grids = grids_of(P)
        x2 = Y if two else None
        K = k.K(X, x2) if two else choose('call', [lambda: k.K(X), lambda: k.K(X, None), lambda: k.K(X, X)])()
        if not isinstance(K, Arr) or len(K.shape) != 2: raise Violation('covariance', wK, f'the covariance is not a matrix: {K!r}')
        from ..models_lib import dim_same
        if not (dim_same(K.shape[0], n) and dim_same(K.shape[1], m if two else n)): raise Violation('covariance', wK, f'covariance of shape {K.shape}')
        xi, yj = XI, (YJ if two else XJ)
        e = resolve(K.e); s = resolve(f(xi, yj))
        large = per and CTX.facts.entails({k_: -c for k_, c in (P['lengthscale'] - 10000).n.items()}, '<=')
        wit = equal(e, s, tol=D('1e-6') if per else D('1e-9'), grids=grids, n=40 if per else 14)
        if wit and not (large and e.same(P['variance'] * app('cos', 2 * PI / P['period'] * (xi - yj)))):
            raise Violation('covariance', wK, f'K of {name} is not the documented covariance: {wit}; it is {e!r} instead of {s!r}')
        # diagonal
        Kd = k.Kdiag(X)
        if not isinstance(Kd, Arr) or len(Kd.shape) != 1: raise Violation('diagonal', where_of(cls.Kdiag), f'the variances are not a vector: {Kd!r}')
        if not dim_same(Kd.shape[0], n): raise Violation('diagonal', where_of(cls.Kdiag), f'{Kd.shape[0]!r} variances are given for {n!r} inputs')
        d = resolve(Kd.e); sd = resolve(f(XJ, XJ))
        wit = equal(d, sd, tol=D('1e-6') if per else D('1e-9'), grids=grids)
        if wit: raise Violation('diagonal', where_of(cls.Kdiag), f'Kdiag of {name} is not the diagonal of the covariance: {wit}; it is {d!r} instead of {sd!r}')
        # gradients
        for p in k.flattened_parameters: p.__dict__['gradient'] = None
        g = G if two else GS
        k.update_gradients_full(g, X, Y) if two else choose('gradient call', [lambda: k.update_gradients_full(g, X), lambda: k.update_gradients_full(g, X, None), lambda: k.update_gradients_full(g, X, X)])()
        for p in k.flattened_parameters:
            gr = p.gradient
            if gr is None: raise Violation('gradient', wG, f'the gradient of {p.name} of {name} is not updated')
            a = p.value.the_atom()
            ds = diff(s, a)
            raw = None
            if per and p.name == 'lengthscale' and large: continue
            if large: ds = diff(P['variance'] * app('cos', 2 * PI / P['period'] * (xi - yj)), a)
            if not isinstance(gr, Tot):
                q = num_of(gr)
                if q is None or not q.iszero(): raise Violation('gradient', wG, f'the gradient of {p.name} of {name} is {gr!r}, not a total over all pairs of inputs')
                ge = Num.of(0)
            else:
                if len(gr.shape_) != 2: raise Undecided('gradient total of another shape')
                raw = gr.e; ge = resolve(raw)
            want_g = g.e * ds
            if not two and raw is not None:   # totals over all pairs are equal iff their symmetric parts are (the covariance and dL_dK are symmetric)
                ge = ge + resolve(swap(raw)); want_g = want_g * 2
            A, B = ge, want_g
            if per and p.name == 'lengthscale':
                at = [q.the_atom() for q in (g.e, P['variance'], P['lengthscale'])]   # the error of the documented Bessel polynomials is carried by the inner derivative 2/l^3
                wit = equal(A, B, tol=D('2e-6'), grids=grids, n=40, scale=lambda ev: max(D(1), 4 * abs(ev.env[at[0]]) * ev.env[at[1]] / ev.env[at[2]] ** 3))
            else: wit = equal(A, B, tol=D('1e-5') if per else D('1e-9'), grids=grids, n=40 if per else 14)
            if wit: raise Violation('gradient', wG, f'the gradient of {p.name} of {name}{" between two sets of inputs" if two else ""} is not the total of dL_dK times the derivative of the covariance: {wit}; sums {ge!r} instead of {want_g!r}')
    R.explore(f'{name}', go, w, max_paths=400)


def t_diag(R, flags):
    """update_gradients_diag where it is supported"""
    w = world(flags, ('Kernels.baseKernels', 'Kernels.linearKernel'))
    def go():
        k = kernel_of(w, 'Linear', flags); k.assign_fresh('φ')
        P = params_of(k); g = Arr((n,), ix('g', (-1,)))
        k.update_gradients_diag(g, X)
        gr = k.variance.gradient
        if isinstance(gr, (list, tuple)): gr = gr[0]
        if not isinstance(gr, Tot): raise Violation('gradient', where_of(type(k).update_gradients_diag), f'{gr!r} is not a total')
        e = gr.e
        if len(gr.shape_) == 2: e = retag(e, lambda t: -1)
        if not e.same(g.e * XJ * XJ): raise Violation('gradient', where_of(type(k).update_gradients_diag), f'sums {gr.e!r} instead of {g.e * XJ * XJ!r}')
    R.explore('Linear diag', go, w)


def t_made(R, flags):
    """Kernels as the expressions make them"""
    w = world(flags, ('Kernels.baseKernels',))
    bk = w.import_module('GPy_ABCD.Kernels.baseKernels')
    def go():
        name = choose('kernel', ['WN', 'C', 'LIN', 'SE', 'PER', 'S', 'Sr', 'SI', 'SIr', 'CP', 'CW'])
        f = getattr(bk, name); wh = where_of(f)
        def make(): return f(bk.LIN(), bk.PER()) if name in ('CP', 'CW') else f()
        k = make(); k2 = make()
        if k is k2 or any(p is q for p in k.flattened_parameters for q in k2.flattened_parameters): raise Violation('made', wh, f'two kernels {name} share their parameters')
        d = Num.of(k.input_dim)
        if not (d.isconst() and d.same(Num.of(1))): raise Violation('made', wh, f'{name} covers {k.input_dim!r} input dimensions')
        a = k.active_dims
        if isinstance(a, (list, tuple)) and list(a) != [0]: raise Violation('made', wh, f'{name} looks at the input dimensions {a!r}')
        if not k.flattened_parameters: raise Violation('made', wh, f'{name} has no parameters')
        for p in k.flattened_parameters:
            v = num_of(p.value)
            if v is None or not v.isconst(): 
                if v is not None and 'not a number' in repr(v): raise Violation('made', wh, f'the parameter {p.name} of {name} starts from no number')
                v = None if v is None else resolve(v)
                if v is None or not v.isconst(): continue
            if p.positive and v < 0: raise Violation('made', wh, f'the positive parameter {p.name} of {name} starts from {v!r}')
    R.explore('made', go, w)


def t_cache(R):
    """Memoisation keys: an ignored argument must not be one through which the method reads fitted parameters"""
    import ast, glob, os
    from ..world import parse
    for f in sorted(glob.glob(os.path.join(REPO, 'GPy_ABCD', '**', '*.py'), recursive=True)):
        rel = os.path.relpath(f, REPO)
        tree = parse(f)
        for cls in [c for c in ast.walk(tree) if isinstance(c, ast.ClassDef)]:
            for fn in [s for s in cls.body if isinstance(s, ast.FunctionDef)]:
                for d in fn.decorator_list:
                    if not (isinstance(d, ast.Call) and (getattr(d.func, 'id', None) or getattr(d.func, 'attr', None)) == 'Cache_this'): continue
                    R.visited.add((rel, f'{cls.name}.{fn.name}'))
                    args = [a.arg for a in fn.args.posonlyargs + fn.args.args]
                    ign = []
                    for kw in d.keywords:
                        if kw.arg == 'ignore_args':
                            try: ign = [i for i in ast.literal_eval(kw.value) if isinstance(i, int)]
                            except Exception: ign = []
                    for i in ign:
                        if i >= len(args): continue
                        for x in ast.walk(fn):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == args[i] and x.attr in ('variance', 'period', 'lengthscale', 'offset', 'location', 'slope', 'width', 'first', 'second', 'third', 'sigmoidal', 'sigmoidal_reverse', 'sigmoidal_indicator', 'shift_variance', 'alpha'):
                                R.violation('cache-key', f'{rel}:{x.lineno} {cls.name}.{fn.name}', f'memoised without regard to argument {args[i]!r}, yet reads {args[i]}.{x.attr}: stale after a parameter change')
                            if i > 0 and isinstance(x, ast.Name) and x.id == args[i] and isinstance(x.ctx, ast.Load):
                                R.violation('cache-key', f'{rel}:{x.lineno} {cls.name}.{fn.name}', f'memoised without regard to argument {args[i]!r}, which the result depends on')
                    R.add('cache-key', 'ok')


def tasks(tier):
    T = [('memoisation keys', 't_cache', ()), ('Linear diagonal', 't_diag', ({},))]
    T += [(f'kernels made {cfg_str(c)}', 't_made', (c,)) for c in all_cfgs()]
    for two in (False, True):
        for name, fl in [('LIN', {}), ('LIN', cfg(off=True, se=True)), ('Linear', {}), ('PER', {}), ('S', cfg(fix=True)), ('Sr', cfg(fix=True)), ('SI', cfg(fix=True)), ('SIr', cfg(fix=True)),
                         ('S', cfg(fix=False)), ('Sr', cfg(fix=False)), ('SI', cfg(fix=False)), ('SIr', cfg(fix=False))]:
            T.append((f'{name} {"X,X2" if two else "X"} {cfg_str(fl)}', 't_kernel', (name, two, fl)))
    return T
