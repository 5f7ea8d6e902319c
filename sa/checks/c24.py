"""C24: synthetic data with changes."""
from ..common import *
from ..num import Num, app
from ..models_lib import Arr, ix
from ..kes import *

RULE = ('Abstract interpretation of the makers of functions with changes and of the data generators over unknown functions, locations, weights and inputs (the analysis splits on the position of a generic input relative to the locations). '
        'Obligations: each value is that of the function in force at the input, shifted by exactly what makes neighbouring parts meet if they are to be lined up; whole-number functions do not truncate the values of others; '
        'outputs are the weighted values plus the weighted noise, columns for one-dimensional inputs, which are returned unchanged otherwise.')
ASSUMPTIONS = ['windows start before they end', 'summary of numpy.vectorize: without given types all values take the type of the first']

N = Num.atom('n', integer=True, pos=True)


class Fns:
    """Unknown functions of one number, of whole or of any values"""
    def __init__(self, w):
        self.kind = {}
        self.f = {}
        for n in ('f1', 'f2'): self.kind[n] = choose(f'values of {n}', ['any', 'whole'])
        def integral(e): return set(self.used(e)) <= {n for n, k in self.kind.items() if k == 'whole'} and bool(self.used(e))
        w.lib.hooks['integral'] = integral
    def used(self, e): return [n for n in ('f1', 'f2') if n + '(' in repr(e)]
    def __getitem__(self, n):
        def f(x):
            from ..models_lib import num_of
            return app(n, num_of(x))
        return f


def pieces_cp(x, f, cp, line_up):
    if x < cp: return f['f1'](x)
    v = f['f2'](x)
    return v + f['f1'](cp) - f['f2'](cp) if line_up else v

def pieces_cw(x, f, a, b, line_up):
    """Continuous from left to right when lined up"""
    if x < a: return f['f1'](x)
    if x > b:
        v = f['f1'](x)
        return v + (f['f1'](a) - f['f2'](a) + f['f2'](b)) - f['f1'](b) if line_up else v
    v = f['f2'](x)
    return v + f['f1'](a) - f['f2'](a) if line_up else v


def t_makers(R):
    w = world({}, ('Util.dataAndPlottingUtil',)); D = w.import_module('GPy_ABCD.Util.dataAndPlottingUtil')
    def go():
        f = Fns(w); which = choose('maker', ['cp', 'cw']); line = choose('lined up', [False, True, 'not given'])
        a, b = Num.atom('start'), Num.atom('end')
        CTX.facts.cons.append(((a - b).n, '<'))
        kw = {} if line == 'not given' else {'line_up': line}
        wh = where_of(D.cp_f_maker if which == 'cp' else D.cw_f_maker)
        g = D.cp_f_maker(f['f1'], f['f2'], a, **kw) if which == 'cp' else D.cw_f_maker(f['f1'], f['f2'], a, b, **kw)
        form = choose('input', ['number', 'flat', 'column'])
        x = Num.atom('x') if form == 'number' else Arr((N,), ix('X', (-1,))) if form == 'flat' else Arr((N, 1), ix('X', (-2,)))
        e = x if form == 'number' else x.e
        got = g(x)
        if form != 'number':
            if not isinstance(got, Arr) or len(got.shape) != len(x.shape): raise Violation('pieces', wh, f'the values at an array are {got!r}')
            got = got.e
        want = pieces_cp(e, f, a, line is True) if which == 'cp' else pieces_cw(e, f, a, b, line is True)
        if not Num.of(got).same(Num.of(want)): raise Violation('pieces', wh, f'the value at an input is {got!r} instead of {want!r} (functions with {f.kind} values)')
    R.explore('makers', go, w, max_paths=20000)


def t_generate(R, which):
    w = world({}, ('Util.dataAndPlottingUtil',)); D = w.import_module('GPy_ABCD.Util.dataAndPlottingUtil')
    def go():
        f = Fns(w); form = choose('inputs', ['flat', 'column']); line = choose('lined up', [False, True, 'not given']) if which != 'generate_data' else False; weights = choose('weights', ['given', 'not given', 'by name'])
        X = Arr((N,), ix('X', (-1,))) if form == 'flat' else Arr((N, 1), ix('X', (-2,)))
        a, b = Num.atom('start'), Num.atom('end'); CTX.facts.cons.append(((a - b).n, '<'))
        yw, nw = Num.atom('weight'), Num.atom('noise weight')
        args = [yw, nw] if weights == 'given' else []; kw = {'Y_weight': yw, 'noise_weight': nw} if weights == 'by name' else {}
        if weights == 'not given': yw = nw = Num.of(1)
        g = getattr(D, which); wh = where_of(g)
        if line != 'not given' and which != 'generate_data': kw['line_up'] = line
        if which == 'generate_data': got = g(f['f1'], X, *args, **kw)
        elif which == 'generate_changepoint_data': got = g(X, f['f1'], f['f2'], a, *args, **kw)
        else: got = g(X, f['f1'], f['f2'], a, b, *args, **kw)
        if not isinstance(got, (tuple, list)) or len(got) != 2: raise Violation('data', wh, f'the data returned are {got!r}, not inputs and outputs')
        x, y = got
        for v, n in ((x, 'inputs'), (y, 'outputs')):
            if not isinstance(v, Arr) or len(v.shape) != 2 or not Num.of(v.shape[0]).same(N) or not Num.of(v.shape[1]).same(Num.of(1)): raise Violation('data', wh, f'the {n} are {v!r}, not a column')
        e = ix('X', (-2,))
        if repr(x.e) != repr(e): raise Violation('data', wh, f'the inputs returned are {x!r}')
        v = f['f1'](e) if which == 'generate_data' else pieces_cp(e, f, a, line is True) if which == 'generate_changepoint_data' else pieces_cw(e, f, a, b, line is True)
        want = v * yw + ix('noise', (-2,)) * nw
        if not y.e.same(want): raise Violation('data', wh, f'an output is {y.e!r} instead of {want!r} (functions with {f.kind} values)')
        shapes = [c[2]['shape'] for c in w.lib.calls if c[0] == 'noise']
        if len(shapes) != 1: raise Violation('data', wh, f'{len(shapes)} noises are drawn')
    R.explore(which, go, w, max_paths=20000)


def t_pair(R):
    """The by-type view of a pair of operands"""
    w = world({}, ('KernelExpressions.all', 'Util.kernelUtil')); K = KE(w); S = w.get('Util.kernelUtil:sortOutTypePair')
    def go():
        ops = {'string': 'LIN', 'other string': 'PER', 'sum': K.Sum(['LIN', 'PER']), 'other sum': K.Sum(['WN']), 'product': K.Prod(['LIN', 'PER']), 'change': K.Change('CP', 'LIN', 'PER')}
        a = ops[choose('first', list(ops))]; b = ops[choose('second', list(ops))]
        got = S(a, b); wh = where_of(S)
        want = {type(a): [a, b]} if type(a) is type(b) else {type(a): a, type(b): b}
        if set(got) != set(want): raise Violation('pair', wh, f'the types of {a!r} and {b!r} are {list(got)}')
        for k in want:
            x, y = got[k], want[k]
            if (isinstance(y, list) and (not isinstance(x, (list, tuple)) or len(x) != 2 or x[0] is not a or x[1] is not b)) or (not isinstance(y, list) and x is not y): raise Violation('pair', wh, f'{a!r} and {b!r} are sorted into {got!r}')
    R.explore('pair', go, w)


def tasks(tier):
    return [('makers', 't_makers', ())] + [(g, 't_generate', (g,)) for g in ('generate_data', 'generate_changepoint_data', 'generate_changewindow_data')] + [('pair', 't_pair', ())]
