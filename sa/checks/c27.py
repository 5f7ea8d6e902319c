"""C27: calls do not influence later calls."""
from ..search import *
from ..models_lib import Arr, ix, Param, Parameterized
from ..world import World
from ..num import FMT
from ..fitted import said, Kernels
from .c25 import contents

RULE = ('History analysis by abstract interpretation: the module state (globals, defaults of arguments, class attributes, captured variables, memo tables) is carried from one interpreted call to the next. Every operation of the list (expansion and its tables, simplification, '
        'kernel building, fitting, describing, scoring, searching, list functions, data makers) is analysed alone in a fresh state and again after every other operation, and after itself: on each partition its outcome is the same. Fresh symbols are renamed by order of appearance.')
ASSUMPTIONS = ['random restarts and process scheduling aside', 'histories of the operations of the list, each followed by each other']


def X_(): return Arr((Num.atom('n', integer=True, pos=True), 1), ix('X', (-2,)))


def tree(K, x): return show(K.read(x))

def kern(KK, k):
    t = KK.read(k)
    return repr(t)


class Ops:
    """name -> function of nothing returning a describable outcome; inputs are made anew at each call"""
    def __init__(self, w):
        self.w = w; self.K = K = KE(w); self.KK = None
        self.G = G = w.import_module('GPy_ABCD.KernelExpansion.grammar'); self.S = S = w.import_module('GPy_ABCD.Models.modelSearch')
        self.E = E = w.import_module('GPy_ABCD.KernelExpansion.kernelExpressionOperations')
        self.U = U = w.import_module('GPy_ABCD.Util.modelUtil'); self.L = L = w.import_module('GPy_ABCD.Util.genericUtil')
        self.D = D = w.import_module('GPy_ABCD.Util.dataAndPlottingUtil'); self.I = I = w.import_module('GPy_ABCD.KernelExpansion.kernelInterpretation')
        self.B = B = w.import_module('GPy_ABCD.Kernels.baseKernels'); self.M = M = w.get('Models.model:GPModel')
        KK = Kernels(w)
        s = lambda c, *k: ('S', c, list(k)); p = lambda c, *k: ('P', c, list(k))
        shapes = {'sum': s({'LIN': 1, 'PER': 1}), 'product': p({'LIN': 1, 'SE': 1}), 'nested': s({'WN': 1}, p({'PER': 1}, s({'LIN': 1, 'WN': 1}))), 'change': ('CP', 'LIN', s({'PER': 1, 'WN': 1})), 'window': ('CW', p({'LIN': 2}), 'PER')}
        b = lambda n: K.build(shapes[n])._initialise()
        O = {}
        for n in shapes:
            O[f'expanding a {n} with the default rules'] = lambda n=n: sorted(tree(K, e) for e in G.expand(b(n), G.production_rules['Default']))
            O[f'expanding a {n} with all rules'] = lambda n=n: sorted(tree(K, e) for e in G.expand(b(n), G.production_rules['All']))
            O[f'building the kernel of a {n}'] = lambda n=n: kern(KK, b(n).to_kernel())
            O[f'fitting and describing a {n}'] = lambda n=n: self.fit(b(n))
            O[f'fitting a {n} twice'] = lambda n=n: self.fit(b(n), True)
        O['operators'] = lambda: [sorted(tree(K, e) for e in r) for r in (E.add(b('sum'), b('change')), E.multiply(b('sum'), 'PER'), E.swap_base(b('sum'), 'WN'), E.both_changes(b('product')), E.remove_a_term(b('nested')), E.higher_curves(b('product')), E.one_change(b('sum'), 'CW', 'LIN'))]
        O['default start kernels'] = lambda: {k: [tree(K, e) for e in v] for k, v in G.start_kernels.items()}
        O['normalising start kernels'] = lambda: [tree(K, e) for e in G.make_simple_kexs(['LIN', 'WN', b('sum'), b('change')])]
        O['a model of the default expression'] = lambda: self.fit(None)
        O['default expressions of two models'] = lambda: [tree(K, M(X_(), Y).kernel_expression) for _ in range(2)]
        for i, sig in enumerate([('SIr',), ('SIr', 'SIr'), ('SI', 'SIr'), ('S', 'SIr'), ('S', 'Sr'), ('SI', 'S')]):
            O[f'describing {"*".join(sig)}'] = lambda sig=sig: self.describe(sig)
        for sig in [('SIr', 'SIr', 'SIr'), ('SIr', 'SIr'), ('S', 'SIr', 'SIr'), ('SIr', 'SIr', 'Sr'), ('SI', 'SIr')]: O[f'describing {"*".join(sig)} one after the other'] = lambda sig=sig: self.describe(sig, True)
        O['a search'] = lambda: self.search(False)
        O['a continued search'] = lambda: self.search(True)
        O['a search with the default start kernels'] = lambda: self.defaults()
        O['scoring'] = lambda: self.score()
        O['fit_kex'] = lambda: (lambda m: [kern(KK, m.model.kern), tree(K, m.kernel_expression), m.cached_utility_function_type])(U.fit_kex(X_(), Y, b('sum'), 2))
        O['list functions'] = lambda: self.lists()
        O['data makers'] = lambda: self.data()
        O['covariances of base kernels'] = lambda: [repr(getattr(B, n)().K(X_())) for n in ('LIN', 'PER', 'S', 'Sr', 'SI', 'SIr') if hasattr(B, n)]
        O['parameters of base kernels'] = lambda: [[(q.name, repr(q.value)) for q in getattr(B, n)().flattened_parameters] for n in KINDS]
        O['setting parameters of base kernels'] = lambda: self.set_params()
        O['printed forms'] = lambda: [str(b(n)) + repr(b(n)) for n in shapes]
        O['queries'] = lambda: [[b(n).contains_base('LIN'), b(n).is_stationary(), [tree(K, e) for e in b(n).traverse()]] for n in shapes]
        self.ops = O; self.KK = KK

    def fit(self, x, twice=False):
        m = self.M(X_(), Y, x) if x is not None else self.M(X_(), Y)
        m.fit(2)
        a = [kern(self.KK, m.model.kern), m.interpret(), said(self.K, self.w.import_module('GPy_ABCD.KernelExpansion.kernelOperations').fit_ker_to_kex_with_params(m.model.kern, self.K.build(self.K.read(m.kernel_expression))._initialise()))]
        if twice:
            m.compute_utility(self.U.BIC)
            m.fit(3); a += [kern(self.KK, m.model.kern), m.interpret(), m.cached_utility_function]
        return [repr(v) for v in a]

    def describe(self, sig, apart=False):
        fix = self.w.get('config').__dict__.get('__FIX_SIGMOIDAL_KERNELS_SLOPE')
        ps = contents(self.K, [('LIN', 1)], sig, fix, 'a')
        if apart:   # known places
            for i, p in enumerate(p for k in dict.fromkeys(sig) for p in ps[k]):
                p['location'] = Num.of(10 * i + 3)
                if 'width' in p: p['width'] = Num.of(4)
                if 'slope' in p: p['slope'] = Num.of(1)
        # ends in the order of the factors, windows within each other
        seq = []
        locs = [p for k in dict.fromkeys(sig) for p in ps[k]]
        if not apart:
            for p in locs: seq.append(p['location'])
            for p in reversed(locs):
                if 'width' in p: seq.append(p['location'] + p['width'])
        for a, c in zip(seq, seq[1:]): CTX.facts.cons.append(((a - c).n, '<'))
        pr = self.K.Prod([]); pr.parameters['ProductKE'] = [{'variance': Num.atom('v', pos=True)}]
        for k, l in ps.items(): pr.parameters[k] = l
        s = self.K.Sum([]); s.composite_terms = [pr]
        return s.get_interpretation(sops=s)

    def search(self, cont):
        s = Setup(self.w); s.arm()
        for i in range(len(U) - 1): CTX.facts.cons.append(((s.ll(i) - s.ll(i + 1)).n, '<'))
        if not cont: return [s.lists(s.search((0, 1), 'merging', 2, [2, 1])), s.fits, s.expanded]
        r = s.search((0, 1), 'tree', 1, [1])
        return [s.lists(s.more(r, 'tree', 1, [1])), s.fits, s.expanded]

    def defaults(self):
        self.w.lib.hooks['log_likelihood'] = lambda m: -Num.of((m.model_id * 7) % 11)
        r = self.S.explore_model_space(X_(), Y, p_rules=[self.G.replace_base], rounds=1, beam=[1], model_list_fitter=self.S.fit_mods_not_parallel, verbose=False)
        return [[tree(self.K, k) for k in r[2]], [len(l) for l in r[1]], [(c[2]['num_restarts'], sorted(c[2]['kw'].items())) for c in self.w.lib.calls if c[0] == 'optimize_restarts']]

    def score(self):
        m = self.M(X_(), Y, self.K.Sum(['LIN', 'PER'])._initialise()); m.fit(1)
        out = []
        for f in (self.U.BIC, self.U.AIC): out.append((repr(m.compute_utility(f)), m.cached_utility_function_type))
        return out

    def lists(self):
        L = self.L; out = []
        for n, args in (('unique', ([1, 2, 1, 3],)), ('diff', ([1, 2, 2, 3], [2])), ('eq_elems', ([1, 2], [2, 1])), ('flatten', ([[1], [2, 3]],)), ('partition', (lambda x: x > 1, [1, 2, 3])), ('unique_h', ([1, 1],))):
            f = getattr(L, n, None)
            if f is not None:
                try: out.append((n, repr(f(*args))))
                except TypeError: out.append((n, 'other arguments'))
        return out

    def data(self):
        f = lambda x: x * x; g = lambda x: 3 - x
        a = self.D.cp_f_maker(f, g, 2); c = self.D.cw_f_maker(f, g, 2, 5)
        return [repr(h(Num.of(x))) for h in (a, c) for x in (1, 3, 7)]

    def set_params(self):
        out = []
        for n in ('LIN', 'PER'):
            k, o = getattr(self.B, n)(), getattr(self.B, n)()
            k.assign_fresh('mine')
            out.append([(q.name, repr(q.value)) for q in o.flattened_parameters])
        return out


def canon_text(o):
    """Text of an outcome with fresh symbols numbered by appearance"""
    import re
    ids = {}
    return re.sub(r'#\d+', lambda m: ids.setdefault(m.group(0), f'#{len(ids)}'), repr(o))


def run(R, w, ops, name, bound=400):
    """(outcomes of the partitions, partitions tried) or None if something is undecided"""
    res = []; tried = [0]
    def go():
        tried[0] += 1
        res.append(canon_text(ops.ops[name]()))
    keep = {k: list(v) for k, v in R.obl.items()}, dict(R.undec); nu = len(R.viol)
    R.explore('call', go, w, max_paths=bound)
    b = keep[0].get('call', [0, 0, 0]); a = R.obl.get('call', [0, 0, 0])
    if bound < 400 and a[1] == b[1] and a[2] > b[2]:   # only cut short at the bound asked for: what was reached still counts
        R.obl = {**R.obl, 'call': [a[0], a[1], b[2]]}; R.undec = keep[1]; a = R.obl['call']
    if a[1] > b[1] or a[2] > b[2] or len(R.viol) > nu: return None
    return res, tried[0]


def fresh(flags):
    w = World(flags); w.load_all('Models.modelSearch', 'Util.dataAndPlottingUtil', '')
    return w


def t_history(R, flags, part, parts):
    """Each operation alone, and in one state after all the others: forwards, twice in a row, and backwards"""
    names = list(Ops(fresh(flags)).ops)
    mine = names[part::parts]; ref = {}
    for b in mine:
        w = fresh(flags)
        ref[b] = run(R, w, Ops(w), b)
    w = fresh(flags); ops = Ops(w); done = []
    i = names.index(mine[0])
    order = names[i:] + names[:i]
    for b in [x for b in order for x in ([b, b] if b in mine else [b])] + order[::-1]:
        r = run(R, w, ops, b, (ref[b][1] + 2 if ref[b] is not None else 400) if b in mine else 24)
        done.append(b)
        if b not in mine or r is None or ref[b] is None: continue
        got, want = r[0], ref[b][0]
        if got != want:
            i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), 0)
            x, y = (got[i], want[i]) if got and want else (repr(got), repr(want))
            j = next((j for j, (c, d) in enumerate(zip(x, y)) if c != d), min(len(x), len(y)))
            R.violation('history', 'GPy_ABCD (state kept between calls)', f'{b}, called after {", ".join(done[:-1][-6:])}: ...{x[max(0, j - 60):j + 160]}... instead of ...{y[max(0, j - 60):j + 160]}... as when called alone', construct=b)
            return
        R.add('history', 'ok')


def tasks(tier):
    fl = [{}, cfg(off=False, fix=False)] if tier == 'quick' else [{}, cfg(off=False), cfg(fix=False), cfg(off=False, fix=False), cfg(se=True), cfg(nonpure=True)]
    return [(f'histories {i} {cfg_str(f)}', 't_history', (f, i, 4)) for f in fl for i in range(4)]
