"""C30: benchmarks."""
from ..common import *
from ..num import Num
from ..models_lib import Frame, NAN, num_of
from ..kes import *

RULE = ('Abstract interpretation of the benchmarking helpers with an abstract clock (every call of a function takes an unknown positive time of its own, every pause another) and recorded calls and compilations; the analysis splits on the order of the mean times. '
        'Obligations: each function is called as often as requested with exactly its own or the shared arguments; each time is that of one call, without pauses; the table has one row per function, by increasing mean, with its means, ratios to the best and to the row before and first times; '
        'merged tables have the rows of all, in one order and with the ratios of it; comparisons of compiled versions have exactly the requested ones, each made from the given function with the given signature; messages are printed on request only.')
ASSUMPTIONS = ['every call takes some time', 'the compiler of numba is opaque']

COLUMNS = ['f', 'mean', 'mean excl. 1st', 'best mean ratio', 'best mean1 ratio', 'next mean ratio', 'next mean1 ratio', 't0', 't1', 't2']


class Clock:
    def __init__(self, w):
        self.now = Num.of(0); self.calls = {}; self.w = w
        w.lib.hooks['clock'] = lambda: self.now
        w.lib.hooks['sleep'] = lambda o, kw: self.take('pause')
    def take(self, n):
        d = Num.atom(n, pos=True); self.now = self.now + d
        return d
    def function(self, name):
        log = self.calls[name] = []
        def f(*a, **k): log.append((a, k, self.take(f'{name}.{len(log)}')))
        f.__name__ = name
        return f
    def times(self, name): return [c[2] for c in self.calls[name]]


def arguments(R=None):
    form = choose('arguments', ['none', 'positional', 'named', 'both'])
    x, y = object(), object()
    return ([x, y] if form in ('positional', 'both') else None), ({'p': y} if form in ('named', 'both') else None)

def check_calls(c, name, n, args, kw, wh):
    calls = c.calls[name]
    if len(calls) != n: raise Violation('calls', wh, f'{name} is called {len(calls)} times instead of {n}')
    for a, k, _ in calls:
        if len(a) != len(args or []) or any(p is not q for p, q in zip(a, args or [])) or set(k) != set(kw or {}) or any(k[x] is not (kw or {})[x] for x in k):
            raise Violation('calls', wh, f'{name} is called with {len(a)} positional arguments and {sorted(k)} instead of {len(args or [])} and {sorted(kw or {})}, or others than given')


def t_timethis(R):
    w = world({}, ('Util.benchmarking',)); M = w.import_module('GPy_ABCD.Util.benchmarking')
    def go():
        c = Clock(w); f = c.function('f'); n = choose('n', [None, 0, 1, 2, 4]); args, kw = arguments(); wh = where_of(M.timethis)
        if n is None and args: n = 2
        got = M.timethis(f, *([] if n is None else [n]), *(args or []), **(kw or {}))
        check_calls(c, 'f', 2 if n is None else n, args, kw, wh)
        want = c.times('f')
        if not isinstance(got, (list, tuple)) or len(got) != len(want): raise Violation('times', wh, f'{got!r} are returned for {len(want)} calls')
        for g, t in zip(got, want):
            if not Num.of(g).same(t): raise Violation('times', wh, f'the time of a call is {g!r} instead of {t!r}')
    R.explore('timethis', go, w)


def mean(ts):
    r = Num.of(0)
    for t in ts: r = r + t
    return r / len(ts)

def t_compare(R, shared, own):
    w = world({}, ('Util.benchmarking',)); M = w.import_module('GPy_ABCD.Util.benchmarking')
    def go():
        c = Clock(w); wh = where_of(M.compare_implementations)
        n = choose('n', [3, 4]) if shared + own < 3 else 3; verbose = choose('verbose', [True, False])
        args, kw = arguments()
        fs = {f'F{i}': c.function(f'F{i}') for i in range(shared)}
        given = {f'F{i}': (args, kw) for i in range(shared)}
        owns = {}
        for i in range(own):
            a, k = ([object()], {'q': object()}) if i % 2 == 0 else ([], {}) if i % 4 == 1 else ([], {'r': object()})
            owns[f'O{i}'] = (c.function(f'O{i}'), a, k); given[f'O{i}'] = (a, k)
        fs0, owns0 = dict(fs), dict(owns)
        kwargs = dict(n=n, wait=0, verbose=verbose, fs_with_own_args=owns or None, args=args, kwargs=kw)
        got = M.compare_implementations(fs, **kwargs)
        printed = len(w.interp.out)
        if bool(printed) != verbose: raise Violation('messages', wh, f'{"something" if printed else "nothing"} is printed with verbose = {verbose}')
        if fs != fs0 or owns != owns0: raise Violation('calls', wh, 'the functions given are modified')
        for k, (a, q) in given.items(): check_calls(c, k, n, a, q, wh)
        if not isinstance(got, Frame): raise Undecided('the table')
        if set(got.cols) < set(COLUMNS): raise Undecided('columns of other names')
        rows = [dict(zip(got.cols, r)) for r in zip(*got.cols.values())]
        if sorted(r['f'] for r in rows) != sorted(given): raise Violation('table', wh, f'the rows of the table are of {[r["f"] for r in rows]} instead of {sorted(given)}')
        def means(k): ts = c.times(k); return mean(ts), mean(ts[1:])
        before = best = means(rows[0]['f'])
        for i, r in enumerate(rows):
            k = r['f']; m, m1 = means(k); ts = c.times(k)
            if i and bool(before[0] > m): raise Violation('table', wh, 'the rows are not by increasing mean')
            want = dict(zip(COLUMNS[1:], (m, m1, m / best[0], m1 / best[1], m / before[0], m1 / before[1], *ts[:3])))
            for col, v in want.items():
                if not Num.of(r[col]).same(v): raise Violation('table', wh, f'{col!r} of the row {i} of {len(rows)} is {r[col]!r} instead of {v!r}')
            before = (m, m1)
    R.explore('compare', go, w, max_paths=4000)


def t_numba(R):
    w = world({}, ('Util.benchmarking',)); M = w.import_module('GPy_ABCD.Util.benchmarking')
    def go():
        wh = where_of(M.numba_comparisons); made = {}
        def numba(kind, f, sig, opts):
            def g(*a, **k): return None
            made[g] = (kind, f, sig, bool(opts.get('parallel')))
            return g
        w.lib.hooks['numba'] = numba
        c = Clock(w); base, scalar = c.function('base'), c.function('scalar')
        f = choose('function', [True, False]); sig = choose('signature', [None, 'sig']); more = choose('more signatures', [0, 2]); par = choose('parallel', [True, False])
        fsc = choose('scalar function', [True, False]); ssig = choose('scalar signatures', [None, ['ssig']]); smore = choose('more scalar signatures', [0, 2]) if fsc else 0
        prefix = choose('prefix', [None, 'P ']); args, kw = [object()], {'p': object()}
        seen = []
        def catch(fs, n=200, wait=1, verbose=True, own=None, args=None, kwargs=None): seen.append((dict(fs), n, wait, verbose, own, args, kwargs)); return 'table'
        old = M.compare_implementations; own = {'o': (base, [], {})}
        try:
            M.compare_implementations = catch
            got = M.numba_comparisons(base if f else None, sig, [f'more{i}' for i in range(more)] or None, scalar if fsc else None, ssig, [[f'smore{i}'] for i in range(smore)] or None, par, own, 7, 0, prefix, False, args, kw)
        finally: M.compare_implementations = old
        if not seen: raise Undecided('compared otherwise')
        fs, n, wait, verbose, o, a, k = seen[0]
        if len(seen) > 1 or (n, wait, verbose) != (7, 0, False) or o is not own or a is not args or k is not kw: raise Violation('numba', wh, f'the options of the comparison are {seen[0][1:]!r}')
        want = {}
        if f:
            want['Base'] = base; want['Lazy'] = ('njit', base, None, False)
            if par: want['Parallel'] = ('njit', base, None, True)
            for i, s in enumerate(([sig] if sig else []) + [f'more{i}' for i in range(more)]):
                num = '' if s == sig else str(int(s[-1]) + 2)
                want[f'Eager{num}'] = ('njit', base, s, False)
                if par: want[f'Parallel Eager{num}'] = ('njit', base, s, True)
        if fsc:
            want['Vec Lazy'] = ('vectorize', scalar, None, False)
            if ssig: want['Vec Eager'] = ('vectorize', scalar, ssig, False)
            for i in range(smore): want[f'Vec Eager{i + 2}'] = ('vectorize', scalar, [f'smore{i}'], False)
        if len(fs) != len(want): raise Violation('numba', wh, f'the versions compared are {sorted(fs)} instead of {sorted(want)}')
        gotm = [made.get(v, v) for v in fs.values()]
        for name, v in want.items():
            if v not in gotm: raise Violation('numba', wh, f'{name} is not compared, as it should be: {v!r}')
            at = fs.get((prefix or '') + name)
            if at is None: raise Violation('numba', wh, f'there is no {(prefix or "") + name!r} among {sorted(fs)}')
            if made.get(at, at) != v: raise Violation('numba', wh, f'{name} is {made.get(at, at)!r} instead of {v!r}')
    R.explore('numba', go, w, max_paths=4000)


def t_merge(R, sizes):
    w = world({}, ('Util.benchmarking',)); M = w.import_module('GPy_ABCD.Util.benchmarking')
    def go():
        wh = where_of(M.merge_bench_tables); n = 0; tables = []; rows = {}
        for k, size in enumerate(sizes):
            t = []
            for i in range(size):
                name = f'f{n}'; n += 1
                m, m1, *ts = (Num.atom(f'{a} of {name}', pos=True) for a in ('mean', 'mean1', 't0', 't1', 't2'))
                if t: CTX.facts.cons.append(((t[-1][1] - m).n, '<='))
                t.append([name, m, m1, *(Num.atom(f'earlier ratio {c} of {name}', pos=True) for c in COLUMNS[3:7]), *ts]); rows[name] = t[-1]
            tables.append(Frame([list(r) for r in t], columns=list(COLUMNS)))
        before = [repr(t) for t in tables]; verbose = choose('verbose', ['not given', True, False])
        got = M.merge_bench_tables(*tables) if verbose == 'not given' else M.merge_bench_tables(*tables, verbose=verbose)
        if bool(w.interp.out) != bool(verbose): raise Violation('messages', wh, f'{"something" if w.interp.out else "nothing"} is printed with verbose = {verbose}')
        if [repr(t) for t in tables] != before: raise Violation('merged', wh, 'the tables given are modified')
        if not isinstance(got, Frame): raise Undecided('the table')
        if not set(COLUMNS) <= set(got.cols): raise Undecided('columns of other names')
        out = [dict(zip(got.cols, r)) for r in zip(*got.cols.values())]
        if sorted(r['f'] for r in out) != sorted(rows): raise Violation('merged', wh, f'the rows of the table are of {[r["f"] for r in out]} instead of {sorted(rows)}')
        best = last = rows[out[0]['f']]
        for i, r in enumerate(out):
            o = rows[r['f']]
            if i and bool(last[1] > o[1]): raise Violation('merged', wh, 'the rows are not by increasing mean')
            want = [o[0], o[1], o[2], o[1] / best[1], o[2] / best[2], o[1] / last[1], o[2] / last[2], *o[7:]]
            for c, v in list(zip(COLUMNS, want))[1:]:
                if r[c] is NAN or not Num.of(r[c]).same(Num.of(v)): raise Violation('merged', wh, f'{c!r} of the row {i} of {len(out)} is {r[c]!r} instead of {v!r}')
            last = o
    R.explore('merged', go, w, max_paths=4000)


def tasks(tier):
    return [(f'merge {s}', 't_merge', (s,)) for s in ((1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (2, 2))] + [('timethis', 't_timethis', ()), ('numba', 't_numba', ())] + [(f'compare {s} {o}', 't_compare', (s, o)) for s, o in ((1, 0), (2, 0), (3, 0), (0, 1), (1, 1), (2, 1), (1, 2), (0, 3))]
