"""C29: plots of data, functions and sampled curves."""
from ..common import *
from ..num import Num, app
from ..models_lib import Arr, Stack, Frame, Long, Plot, Aes, Layer, ix, num_of
from ..kes import *

RULE = ('Abstract interpretation of the plotting helpers over generic data, unknown functions and an opaque kernel whose covariance is tagged by the state of its parameters; frames, melted frames and layers of plots are modelled as the columns they hold and the columns they map. '
        'Obligations: the line of a plot maps exactly the given inputs to the given (or computed) values in the given colour; every sampled curve is drawn once, over the given range, kept apart from the others, and is a sample of mean zero and of the covariance of the kernel at the plotted inputs (of one state of the parameters, or of a new one each); samples of each kernel are saved once, under its name, in the given folder.')
ASSUMPTIONS = ['summary of pandas frames and melt as named columns', 'summary of plotnine plots as data, mappings and layers']

N = Num.atom('n', integer=True, pos=True)


def lines(p, rule, wh):
    """The columns and styles of the lines of a plot: one (x, y, other mappings, settings, data) per layer of lines"""
    if not isinstance(p, Plot): raise Violation(rule, wh, f'{p!r} is returned, not a plot')
    out = []
    for l in p.layers:
        if l.name == 'neutral': continue
        if l.name not in ('geom_line', 'geom_path'): raise Undecided(f'layer {l.name}')
        data = l.data if l.data is not None else p.data
        m = Aes(**{**p.mapping, **l.mapping})
        if data is None: raise Violation(rule, wh, 'the plot has no data')
        out.append((data, m, l.kw))
    if not out: raise Violation(rule, wh, 'the plot shows no lines')
    return out

def column(data, name):
    if isinstance(name, str) and name in data.cols: return data.cols[name]
    if isinstance(name, str) and not name.isidentifier(): raise Undecided(f'mapped expression {name}')
    raise modelled_missing(name)

def modelled_missing(name):
    return Violation('plot', 'plot', f'the plot maps {name!r}, which is no column of its data')

def same_column(got, want):
    if isinstance(got, (list, tuple, range)) or not isinstance(got, Arr): raise Undecided('column of other values')
    g = got.e
    return Num.of(got.shape[0]).same(Num.of(want.shape[0])) and Num.of(g).same(Num.of(want.e))


def t_plot(R, which):
    w = world({}, ('Util.dataAndPlottingUtil',)); D = w.import_module('GPy_ABCD.Util.dataAndPlottingUtil')
    def go():
        fx = choose('inputs', ['flat', 'column']); fy = choose('outputs', ['flat', 'column']) if which == 'gg_plot' else None
        colour = choose('colour', ['not given', 'red', 'by name'])
        def arr(n, form): return Arr((N,), ix(n, (-1,))) if form == 'flat' else Arr((N, 1), ix(n, (-2,)))
        if which == 'gg_f_plot' and choose('values', ['of one type', 'whole at some inputs']) != 'of one type': w.lib.hooks['integral'] = lambda e: 'first element' in repr(e)
        X = arr('X', fx); f = lambda x: app('f', num_of(x))
        g = getattr(D, which); wh = where_of(g)
        given = (X, arr('Y', fy)) if which == 'gg_plot' else (f, X)
        p = g(*given) if colour == 'not given' else g(*given, 'red') if colour == 'red' else g(*given, colour='red')
        ls = lines(p, 'plot', wh)
        x = Arr((N,), ix('X', (-1,))); y = Arr((N,), ix('Y', (-1,)) if which == 'gg_plot' else app('f', ix('X', (-1,))))
        if len(ls) != 1: raise Violation('plot', wh, f'the plot has {len(ls)} lines')
        data, m, kw = ls[0]
        if not isinstance(data, Frame): raise Undecided('data of the plot')
        for a, want in (('x', x), ('y', y)):
            if a not in m: raise Violation('plot', wh, f'the line of the plot has no {a}')
            got = column(data, m[a])
            if not same_column(got, want): raise Violation('plot', wh, f'the {a} of the line are {got!r} instead of {want!r} (inputs {fx}, outputs {fy})')
        want = 'blue' if colour == 'not given' else 'red'
        if 'color' in m: raise Undecided('colour mapped')
        if kw.get('color', 'black') != want: raise Violation('plot', wh, f'the line is {kw.get("color", "black")} instead of {want}')
    R.explore(which, go, w, max_paths=2000)


def covariance(k, state, x, y): return ix(f'covariance of {k.name} {state} between {x!r} and {y!r}', (-2, -1))

class Kern:
    """A kernel with opaque parameters"""
    def __init__(self, name): self.name = name; self.state = 0; self.log = []
    def randomize(self, *a, **k): self.state += 1; self.log.append(self.state)
    def K(self, X, X2=None):
        Y = X if X2 is None else X2
        if not isinstance(X, Arr) or not isinstance(Y, Arr) or X.ndim != 2 or Y.ndim != 2: raise Undecided('inputs of the kernel')
        return Arr((X.shape[0], Y.shape[0]), covariance(self, self.state, X.e, Y.e))
    @property
    def kern(self): raise Undecided('part of the kernel')


def curves(p, rule, wh):
    """[(inputs, values)] of each curve of a plot, and whether they are kept apart"""
    out = []
    for data, m, kw in lines(p, rule, wh):
        if 'x' not in m or 'y' not in m: raise Violation(rule, wh, 'the lines of the plot have no inputs or values')
        if isinstance(data, Long):
            if m['x'] not in data.ids or m['y'] != data.value:
                if any(isinstance(m[a], str) and not m[a].isidentifier() for a in 'xy'): raise Undecided('mapped expression')
                raise Violation(rule, wh, f'the lines map {m["x"]!r} and {m["y"]!r} of a table of {list(data.ids)}, {data.var!r} and {data.value!r}')
            apart = any(m.get(a) in (data.var, f'factor({data.var})') for a in ('color', 'group', 'linetype'))
            if not apart and len(data.parts) > 1: raise Violation(rule, wh, 'different curves are joined into one line')
            out += [(data.ids[m['x']], v) for _, v in data.parts]
        elif isinstance(data, Frame): out.append((column(data, m['x']), column(data, m['y'])))
        else: raise Undecided('data of the plot')
    return out


def judge(p, k, lo, hi, n, same, w, rule, wh, start, before=0):
    draws = [c[2] for c in w.lib.calls[start:] if c[0] == 'multivariate_normal']
    made = [(s, d) for d in draws for s in d['samples']]
    got = curves(p, rule, wh)
    if len(got) != n: raise Violation(rule, wh, f'{len(got)} curves are drawn instead of {n}')
    states = []; used = []
    for x, v in got:
        d = next(((s, d) for s, d in made if isinstance(v, Arr) and repr(s.e) == repr(v.e)), None)
        if d is None: raise Violation(rule, wh, f'a curve drawn is {v!r}, not a sample of the kernel') if isinstance(v, Arr) else Undecided('values of a curve')
        if repr(d[0].e) in used: raise Violation(rule, wh, 'a sample is drawn twice')
        used.append(repr(d[0].e)); d = d[1]
        if not isinstance(x, Arr) or x.ndim != 1: raise Undecided('inputs of a curve')
        steps = x.shape[0] if not isinstance(x.shape[0], Num) else None
        grid = lo + (hi - lo) * ix(f'step of {steps!r}', (-1,))
        if not Num.of(x.e).same(grid): raise Violation(rule, wh, f'the inputs of a curve are {x!r}, not even steps from {lo!r} to {hi!r}')
        if steps is not None and steps < 50: raise Undecided('few steps')
        mean = d['mean']
        if isinstance(mean, Arr) and not Num.of(mean.e).same(Num.of(0)): raise Violation(rule, wh, f'the mean of a sample is {mean!r}')
        col = lo + (hi - lo) * ix(f'step of {steps!r}', (-2,))
        hit = [s for s in range(0, k.state + 1) if Num.of(d['cov'].e).same(covariance(k, s, col, col))]
        if not hit:
            raise Violation(rule, wh, f'the covariance of a sample is {d["cov"]!r}, not that of {k.name} at its inputs')
        states.append(hit[0])
    if any(s <= before for s in states): raise Violation(rule, wh, f'curves are sampled without new parameters')
    if same and len(set(states)) != 1: raise Violation(rule, wh, f'the curves of one kernel are sampled from {len(set(states))} states of its parameters')
    if not same and len(set(states)) != len(states): raise Violation(rule, wh, f'{len(states)} curves of random kernels are sampled from {len(set(states))} states of the parameters')


OPTIONS = ['not given', 'by position', 'by name']

def options(sym=True):
    form = choose('options', OPTIONS)
    if form == 'not given': return (), {}, Num.of(-3), Num.of(3), 5, False
    n = choose('curves', [1, 2, 5]); same = choose('same kernel', [False, True])
    a, b = Num.atom('from'), Num.atom('to'); CTX.facts.cons.append(((a - b).n, '<'))
    if form == 'by position': return ((a, b), n, same), {}, a, b, n, same
    return (), dict(xlims=(a, b), n_curves=n, same_kernel=same), a, b, n, same


def t_sample(R):
    w = world({}, ('Util.kernelUtil',)); U = w.import_module('GPy_ABCD.Util.kernelUtil')
    def go():
        k = Kern('k'); f = U.sampleCurves; wh = where_of(f)
        a, kw, lo, hi, n, same = options()
        for again in (0, 1):
            start = len(w.lib.calls); before = k.state
            p = f(k, *a, **kw)
            judge(p, k, lo, hi, n, same, w, 'samples', wh, start, before)
    R.explore('sampleCurves', go, w, max_paths=2000)


def t_save(R):
    w = world({}, ('Util.kernelUtil',)); U = w.import_module('GPy_ABCD.Util.kernelUtil')
    import posixpath
    def go():
        f = U.saveKernelSamples; wh = where_of(f)
        m = choose('kernels', [0, 1, 3]); ks = [Kern(f'k{i}') for i in range(m)]; names = [f'name {c}' for c in choose('names', [['z', 'a', 'b'], ['v1.z', 'v1.a', 'v2.z'], ['(SE * PER)', '(SE * LIN)', 'SE/PER'.replace('/', ' + ')]])[:m]]
        a, kw, lo, hi, n, same = options()
        given = (list(ks), list(names))
        f(*given, 'some/folder', *a, **kw)
        if any(x is not y for x, y in zip(given[0], ks)) or len(given[0]) != m or given[1] != names: raise Violation('saved', wh, 'the lists given are modified')
        saves = [(i, c) for i, c in enumerate(w.lib.calls) if c[0] == 'save']
        if len(saves) != m: raise Violation('saved', wh, f'{len(saves)} plots are saved for {m} kernels')
        got = {}
        for i, c in saves:
            fn, path = c[2]['filename'], c[2]['path']
            if not isinstance(fn, str) or not isinstance(path or '', str): raise Undecided('name of a file')
            full = posixpath.normpath(posixpath.join(path or '', fn))
            if c[2]['format'] and '.' not in fn: full += '.' + c[2]['format']
            if full in got: raise Violation('saved', wh, f'{full!r} is saved twice')
            got[full] = c[1]
        for k, name in zip(ks, names):
            full = f'some/folder/{name}.png'
            if full not in got: raise Violation('saved', wh, f'the samples of {name!r} are not saved as {full!r}: {list(got)}')
            judge(got[full], k, lo, hi, n, same, w, 'saved', wh, 0)
    R.explore('saveKernelSamples', go, w, max_paths=2000)


def tasks(tier):
    return [(g, 't_plot', (g,)) for g in ('gg_plot', 'gg_f_plot')] + [('samples', 't_sample', ()), ('saved', 't_save', ())]
