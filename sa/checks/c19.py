"""C19: list utilities."""
from ..common import *
from ..num import Num, Undecided
from ..kes import *

RULE = ('Abstract interpretation of each list function on lists of opaque elements: whether two elements are equal (an arbitrary equivalence), which key or truth value a given function assigns and what it returns '
        'are decided only when the code asks, and every consistent answer is a partition of its own. Per partition the result is compared, element by element, with the documented one under the same answers; '
        'the lists given are as they were (except the dictionary documented to be modified). Interval overlap is decided over symbolic ends.')
ASSUMPTIONS = ['lists of at most the stated lengths', 'equality of elements is an equivalence; hashable elements hash consistently with it']

GU = 'GPy_ABCD.Util.genericUtil'


class El:
    """Opaque element: equality is decided on demand, consistently with an equivalence relation"""
    __hash__ = None
    def __init__(self, rel, i): self.rel = rel; self.i = i
    def __eq__(self, o): return isinstance(o, El) and self.rel.eq(self.i, o.i)
    def __ne__(self, o): return not self == o
    def __bool__(self): return self.rel.true(self.i)
    def __repr__(self): return f'e{self.i}'

class HEl(El):
    def __hash__(self): return 7


class Rel:
    def __init__(self): self.rep = {}; self.diff = set(); self.n = 0; self.truth = {}
    def true(self, i):
        """Truth value of an element (equal elements have the same one)"""
        a = self.find(i)
        if a not in self.truth: self.truth[a] = choose(f'e{a} is true', [True, False])
        return self.truth[a]
    def find(self, i):
        while self.rep.get(i, i) != i: i = self.rep[i]
        return i
    def eq(self, i, j):
        a, b = self.find(i), self.find(j)
        if a == b: return True
        k = (min(a, b), max(a, b))
        if k in self.diff or (a in self.truth and b in self.truth and self.truth[a] != self.truth[b]): return False
        if choose(f'e{k[0]}==e{k[1]}', [False, True]):
            self.rep[k[1]] = k[0]
            if k[1] in self.truth: self.truth[k[0]] = self.truth[k[1]]
            self.diff = {(min(p, q), max(p, q)) for x, y in self.diff for p, q in [(self.find(x), self.find(y))]}
            return True
        self.diff.add(k)
        return False
    def new(self, n, hashable=False):
        r = [(HEl if hashable else El)(self, self.n + i) for i in range(n)]; self.n += n
        return r


def as_input(xs, how):
    if how == 'list': return xs
    if how == 'tuple': return tuple(xs)
    return iter(xs)

def ids(xs): return [id(x) for x in xs]

def check_same(rule, where, got, want, what):
    if not isinstance(got, list): raise Violation(rule, where, f'{what} is a {type(got).__name__}, not a list')
    if len(got) != len(want) or any(not same_el(a, b) for a, b in zip(got, want)): raise Violation(rule, where, f'{what} is {got!r} instead of {want!r}')

def same_el(a, b):
    if a is b: return True
    if isinstance(a, (list, tuple)) and type(a) is type(b): return len(a) == len(b) and all(same_el(x, y) for x, y in zip(a, b))
    if isinstance(a, El) or isinstance(b, El): return False
    return type(a) is type(b) and a == b


class Guard:
    """Arguments stay as they are"""
    def __init__(self, rule, where, **args): self.rule = rule; self.where = where; self.args = args; self.was = {k: self.copy(v) for k, v in args.items()}
    def copy(self, v):
        if isinstance(v, dict): return ('d', [(k, self.copy(x)) for k, x in v.items()])
        if isinstance(v, (list, tuple)): return (type(v).__name__, [self.copy(x) for x in v])
        return v
    def same(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and isinstance(a[1], list) and isinstance(b[1], list):
            return a[0] == b[0] and len(a[1]) == len(b[1]) and all(self.same(x, y) for x, y in zip(a[1], b[1]))
        if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return same_el(a, b)
    def check(self):
        for k, v in self.args.items():
            if not self.same(self.copy(v), self.was[k]): raise Violation(self.rule, self.where, f'the argument {k} is modified: {self.was[k]!r} becomes {v!r}')


def spec_unique(xs):
    out = []
    for x in xs:
        if not any(x == y for y in out): out.append(x)
    return out

def spec_minus(xs, ys):
    """(xs without one equal element per element of ys, elements of ys not found)"""
    xs = list(xs); missing = []
    for y in ys:
        for i in range(len(xs)):
            if xs[i] == y: del xs[i]; break
        else: missing.append(y)
    return xs, missing

def equal_seq(a, b): return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def t_equality(R, n, m, h):
    """Functions deciding equality of elements"""
    w = world({}, ('Util.genericUtil',)); G = w.import_module(GU)
    suf = '_h' if h else ''
    def f_unique():
        r = Rel(); xs = r.new(n, h); how = choose('given as', ['list', 'tuple', 'iterator']); wh = where_of(getattr(G, 'unique' + suf))
        g = Guard('unique', wh, xs=xs)
        got = getattr(G, 'unique' + suf)(as_input(xs, how)); g.check()
        want = spec_unique(xs)
        if h:
            if not isinstance(got, (set, frozenset)) or len(got) != len(want) or not all(any(x == y for y in got) for x in want): raise Violation('unique', wh, f'unique elements of {xs!r} are {got!r}')
        else: check_same('unique', wh, got, want, f'the unique elements of {xs!r}')
    if m == 0: R.explore('unique' + suf, f_unique, w, max_paths=20000)
    def f_eq():
        r = Rel(); xs = r.new(n, h); ys = r.new(m, h); how = choose('given as', ['list', 'tuple', 'iterator']); wh = where_of(getattr(G, 'eq_elems' + suf))
        g = Guard('eq_elems', wh, xs=xs, ys=ys)
        got = getattr(G, 'eq_elems' + suf)(as_input(xs, how), as_input(ys, how)); g.check()
        if h: want = all(any(x == y for y in ys) for x in xs) and all(any(x == y for x in xs) for y in ys)
        else: rest, missing = spec_minus(xs, ys); want = not rest and not missing
        if bool(got) != want: raise Violation('eq_elems', wh, f'equality of the elements of {xs!r} and {ys!r} is {got!r}')
    R.explore('eq_elems' + suf, f_eq, w, max_paths=20000)
    def f_diff():
        r = Rel(); xs = r.new(n, h); ys = r.new(m, h); how = choose('given as', ['list', 'tuple', 'iterator']); wh = where_of(getattr(G, 'diff' + suf))
        g = Guard('diff', wh, xs=xs, ys=ys)
        got = getattr(G, 'diff' + suf)(as_input(xs, how), as_input(ys, how)); g.check()
        if h:
            want = [x for x in xs if not any(x == y for y in ys)]
            if not isinstance(got, (set, frozenset)) or any(not any(x == y for y in got) for x in want) or any(not any(x == y for y in want) for x in got): raise Violation('diff', wh, f'{xs!r} minus {ys!r} is {got!r}')
        else: check_same('diff', wh, got, spec_minus(xs, ys)[0], f'{xs!r} minus {ys!r}')
    R.explore('diff' + suf, f_diff, w, max_paths=20000)


def t_words(R, h, part, parts, top):
    """Longer lists: every way for three kinds of equal elements to occur up to `top` times each, in several orders"""
    w = world({}, ('Util.genericUtil',)); G = w.import_module(GU)
    suf = '_h' if h else ''
    fu, fe, fd = (getattr(G, x + suf) for x in ('unique', 'eq_elems', 'diff'))
    def word(counts, order):
        if order == 'blocks': l = [k for k, n in enumerate(counts) for _ in range(n)]
        elif order == 'turns': l = [k for i in range(max(counts, default=0)) for k, n in enumerate(counts) if i < n]
        else: l = [k for k, n in reversed(list(enumerate(counts))) for _ in range(n)]
        return [(HK if h else K)(k, i) for i, k in enumerate(l)]
    combos = [(a, b, c) for a in range(top + 1) for b in range(top + 1) for c in range(top + 1)]
    pairs = [(p, q) for i, p in enumerate(combos) for j, q in enumerate(combos) if (i + j) % parts == part and (sum(p) > 4 or sum(q) > 4)]
    def go():
        for i, (p, q) in enumerate(pairs):
            o1, o2 = [('blocks', 'turns'), ('turns', 'blocks'), ('blocks', 'back'), ('turns', 'turns')][i % 4]
            xs, ys = word(p, o1), word(q, o2); cx, cy = list(xs), list(ys)
            got = fe(xs, ys); wh = where_of(fe)
            want = tuple(map(bool, p)) == tuple(map(bool, q)) if h else p == q
            if bool(got) != want: raise Violation('eq_elems', wh, f'equality of the elements of {xs!r} and {ys!r} is {got!r}')
            got = fd(xs, ys); wh = where_of(fd)
            if h:
                ks = {k for k in range(3) if p[k] and not q[k]}
                if not isinstance(got, (set, frozenset)) or sorted(x.k for x in got) != sorted(ks): raise Violation('diff', wh, f'{xs!r} minus {ys!r} is {got!r}')
            else: check_same('diff', wh, got, spec_minus(cx, cy)[0], f'{cx!r} minus {cy!r}')
            if i % 7 == 0:
                got = fu(xs); wh = where_of(fu); want = spec_unique(cx)
                if h:
                    if not isinstance(got, (set, frozenset)) or sorted(x.k for x in got) != sorted(x.k for x in want): raise Violation('unique', wh, f'unique elements of {xs!r} are {got!r}')
                else: check_same('unique', wh, got, want, f'the unique elements of {cx!r}')
            if ids(xs) != ids(cx) or ids(ys) != ids(cy): raise Violation('eq_elems', wh, f'an argument is modified: {cx!r} becomes {xs!r}, {cy!r} becomes {ys!r}')
    R.explore('long lists' + suf, go, w)


class K:
    """Element of a known kind: equal to those of its kind, yet a value of its own"""
    __hash__ = None
    def __init__(self, k, i): self.k = k; self.i = i
    def __eq__(self, o): return isinstance(o, K) and o.k == self.k
    def __ne__(self, o): return not self == o
    def __repr__(self): return f'{"abc"[self.k]}{self.i}'

class HK(K):
    def __hash__(self): return 3


class Fn:
    """Unknown function of (identities of) its arguments, decided on demand"""
    def __init__(self, label, options): self.label = label; self.options = options; self.memo = {}; self.keep = []
    def __call__(self, *a):
        k = tuple(id(x) for x in a)
        if k not in self.memo: self.memo[k] = choose(f'{self.label}{a!r}', self.options); self.keep.append(a)
        return self.memo[k]

class Key:
    """Hashable opaque keys, of which those of different numbers are different"""
    def __init__(self, i, truth=None): self.i = i; self.truth = {} if truth is None else truth
    def twin(self): return Key(self.i, self.truth)
    def __eq__(self, o): return isinstance(o, Key) and self.i == o.i
    def __hash__(self): return 11
    def __bool__(self):
        if 't' not in self.truth: self.truth['t'] = choose(f'{self!r} is true', [True, False])
        return self.truth['t']
    def __repr__(self): return f'key{self.i}'


def t_order(R, n):
    """Functions rearranging elements"""
    w = world({}, ('Util.genericUtil',)); G = w.import_module(GU)
    def part():
        r = Rel(); xs = r.new(n); p = Fn('p', [False, True]); how = choose('given as', ['list', 'tuple', 'iterator']); wh = where_of(G.partition)
        g = Guard('partition', wh, xs=xs)
        got = G.partition(p, as_input(xs, how)); g.check()
        if not isinstance(got, (tuple, list)) or len(got) != 2: raise Violation('partition', wh, f'a partition is {got!r}')
        check_same('partition', wh, list(got[0]), [x for x in xs if p(x)], 'the part satisfying the condition'); check_same('partition', wh, list(got[1]), [x for x in xs if not p(x)], 'the part not satisfying the condition')
    R.explore('partition', part, w, max_paths=20000)
    def group():
        r = Rel(); xs = r.new(n); ks = [Key(i) for i in range(min(n, 3))]; f = Fn('key of ', ks); how = choose('given as', ['list', 'tuple', 'iterator']); wh = where_of(G.group_by)
        g = Guard('group_by', wh, xs=xs)
        got = G.group_by(f, as_input(xs, how)); g.check()
        want = {}
        for x in xs: want.setdefault(f(x), []).append(x)
        if list(got.keys()) != list(want.keys()): raise Violation('group_by', wh, f'the keys are {list(got.keys())!r} instead of {list(want)!r}')
        for k in want: check_same('group_by', wh, list(got[k]), want[k], f'the group of {k!r}')
    R.explore('group_by', group, w, max_paths=20000)
    def first():
        r = Rel(); xs = r.new(n); p = Fn('p', [False, True]); how = choose('given as', ['list', 'tuple', 'iterator']); d = r.new(1)[0]; wd = choose('default', ['given', 'none']); wh = where_of(G.first)
        g = Guard('first', wh, xs=xs)
        got = G.first(p, as_input(xs, how), d) if wd == 'given' else G.first(p, as_input(xs, how)); g.check()
        want = next((x for x in xs if p(x)), d if wd == 'given' else None)
        if got is not want: raise Violation('first', wh, f'the first element of {xs!r} satisfying the condition is {got!r} instead of {want!r}')
    R.explore('first', first, w, max_paths=20000)
    def flat():
        r = Rel(); sizes = [choose(f'size {i}', [0, 1, 2]) for i in range(min(n, 3))]; xs = [r.new(k) for k in sizes]; wh = where_of(G.flatten)
        nested = choose('elements', ['opaque', 'lists'])
        if nested == 'lists': xs = [[[e] for e in x] for x in xs]
        how = choose('given as', ['list', 'tuple', 'iterator'])
        g = Guard('flatten', wh, xs=xs)
        got = G.flatten(as_input(xs, how)); g.check()
        check_same('flatten', wh, got, [e for x in xs for e in x], f'{xs!r} flattened')
    R.explore('flatten', flat, w, max_paths=20000)
    def unz():
        r = Rel(); k = choose('width', [1, 2, 3]); f = choose('function', ['unzip', 'unzip_lazy']); rows = [tuple(r.new(k)) for _ in range(n)]; wh = where_of(getattr(G, f)); how = choose('given as', ['list', 'tuple', 'iterator'])
        g = Guard('unzip', wh, xs=rows)
        got = getattr(G, f)(as_input(rows, how)); g.check()
        if f == 'unzip' and not isinstance(got, list): raise Violation('unzip', wh, f'unzipping gives a {type(got).__name__}')
        got = list(got)
        want = [[row[j] for row in rows] for j in range(k)] if n else []
        if len(got) != len(want): raise Violation('unzip', wh, f'{rows!r} unzips to {got!r}')
        for a, b in zip(got, want): check_same('unzip', wh, a, b, f'a list of {rows!r} unzipped')
    R.explore('unzip', unz, w, max_paths=20000)
    def chunks():
        r = Rel(); xs = r.new(n); size = choose('chunk size', list(range(1, n + 3))); how = choose('given as', ['list', 'tuple']); wh = where_of(G.chunk)
        g = Guard('chunk', wh, xs=xs)
        got = [list(c) for c in G.chunk(as_input(xs, how), size)]; g.check()
        want = []
        for i, x in enumerate(xs):
            if i % size == 0: want.append([])
            want[-1].append(x)
        if len(got) != len(want): raise Violation('chunk', wh, f'chunks of {size} of {xs!r} are {got!r}')
        for a, b in zip(got, want): check_same('chunk', wh, a, b, f'a chunk of {size} of {xs!r}')
    R.explore('chunk', chunks, w, max_paths=20000)


class Tok:
    def __init__(self, what): self.what = what
    def __repr__(self): return self.what


def t_fold(R, n):
    w = world({}, ('Util.genericUtil',)); G = w.import_module(GU)
    def fold():
        r = Rel(); xs = r.new(n); c = Fn('ready', [True, False]); keep = []
        if n > 1 and choose('repeated', [False, True]): xs[-1] = xs[0]
        strict = choose('function', ['foldq', 'foldq_']); how = choose('given as', ['list', 'tuple', 'iterator']); update = choose('update', ['none', 'replace', 'drop', 'empty']); wh = where_of(getattr(G, strict))
        seq = [0]
        fs = {}; gs = {}
        acc0 = choose('initial value', [Tok('acc'), 0, []])
        def f(acc, x):
            k = (id(acc), id(x))
            if k not in fs: fs[k] = Tok(f'f({acc!r}, {x!r})') if seq[0] != 1 or acc0 != 0 else 0
            keep.append((acc, x)); return fs[k]
        new = {}
        def g(acc, x, rest):
            k = (id(acc), id(x)); keep.append((acc, x))
            gs.setdefault(k, []).append(list(rest))
            if update == 'none': return rest
            if update == 'drop': return list(rest)[1:]
            if update == 'empty': return []
            return [new.setdefault((k, id(y)), Tok(f'{y!r}~{x!r}')) for y in rest]
        gd = Guard('foldq', wh, xs=xs)
        err = None
        try: got = getattr(G, strict)(f, g, c, as_input(xs, how), acc0)
        except ValueError as e:
            if strict == 'foldq': raise
            err = e
        gd.check()
        # the documented traversal
        acc = acc0; rest = list(xs)
        while rest:
            i = next((i for i, x in enumerate(rest) if c(x)), None)
            if i is None: break
            x = rest.pop(i)
            acc2 = f(acc, x)
            if (id(acc), id(x)) not in gs: raise Violation('foldq', wh, f'the remaining elements {rest!r} are not updated with {acc!r} and {x!r}')
            seen = gs[(id(acc), id(x))][0]
            if len(seen) != len(rest) or any(a is not b for a, b in zip(seen, rest)): raise Violation('foldq', wh, f'the elements remaining after {x!r} are {seen!r} instead of {rest!r}')
            rest = list(g(acc, x, rest)); acc = acc2
        if strict == 'foldq_':
            if (err is not None) != bool(rest): raise Violation('foldq', wh, f'elements {rest!r} remain and ' + ('no error is raised' if err is None else 'an error is raised'))
            if err is None and got is not acc: raise Violation('foldq', wh, f'the fold of {xs!r} is {got!r} instead of {acc!r}')
        else:
            if not isinstance(got, tuple) or len(got) != 2 or got[0] is not acc: raise Violation('foldq', wh, f'the fold of {xs!r} is {got!r} instead of {(acc, rest)!r}')
            check_same('foldq', wh, list(got[1]), rest, 'the remaining elements')
    R.explore('foldq', fold, w, max_paths=20000)


def t_topological(R, n, given):
    w = world({}, ('Util.genericUtil',)); G = w.import_module(GU)
    def topo():
        nodes = [Key(i) for i in range(n)]
        deps = [[] for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if choose(f'{i} after {j}', [False, True]): deps[i].append(nodes[j])
        if n and n < 3 and choose('repeated', [False, True]): deps[-1] = deps[-1] * 2
        wh = where_of(G.topological_sort)
        if choose('dependencies', ['the nodes', 'equal to nodes']) == 'equal to nodes': deps = [[x.twin() for x in d] for d in deps]
        xs = [(a, d) for a, d in zip(nodes, deps)]
        g = Guard('topological_sort', wh, xs=xs)
        # is there an order?
        left = set(range(n)); order = True
        while left:
            free = [i for i in left if not any(d == nodes[j] for d in deps[i] for j in left)]
            if not free: order = False; break
            left -= set(free)
        try: got = G.topological_sort(as_input(xs, given))
        except ValueError:
            if order: raise Violation('topological_sort', wh, f'{xs!r} is not sorted although an order exists')
            g.check(); return
        g.check()
        if not order: raise Violation('topological_sort', wh, f'{xs!r} is cyclic and sorted as {got!r}')
        if not isinstance(got, list) or sorted(x.i for x in got) != list(range(n)): raise Violation('topological_sort', wh, f'{xs!r} is sorted as {got!r}')
        pos = {x.i: p for p, x in enumerate(got)}
        for i in range(n):
            for d in deps[i]:
                if pos[d.i] > pos[i]: raise Violation('topological_sort', wh, f'{nodes[i]!r} precedes {d!r} in {got!r} for {xs!r}')
    R.explore('topological_sort', topo, w, max_paths=70000)


def t_maps(R):
    w = world({}, ('Util.genericUtil',)); G = w.import_module(GU)
    def upd():
        ks = [Key(i) for i in range(3)]
        d0 = {k: Tok(f'a{k.i}') for k in ks if choose(f'{k!r} in the first', [False, True])}; d1 = {k: Tok(f'b{k.i}') for k in ks if choose(f'{k!r} in the second', [False, True])}
        falsy = choose('entries', ['tokens', 'empty'])
        if falsy == 'empty': d0 = {k: 0 for k in d0}; d1 = {k: [] for k in d1}
        memo = {}
        def f(a, b): return memo.setdefault((id(a), id(b)), Tok(f'f({a!r}, {b!r})'))
        wh = where_of(G.update_dict_with)
        want = dict(d0)
        for k in d1: want[k] = f(d0[k], d1[k]) if k in d0 else d1[k]
        g = Guard('update_dict_with', wh, second=d1)
        got = G.update_dict_with(d0, d1, f); g.check()
        if got is not d0: raise Violation('update_dict_with', wh, 'the dictionary returned is not the one updated')
        if set(got) != set(want) or any(got[k] is not want[k] for k in want): raise Violation('update_dict_with', wh, f'the entries are {got!r} instead of {want!r}')
    R.explore('update_dict_with', upd, w, max_paths=20000)
    def zm():
        ks = [Key(i) for i in range(3)]; n = choose('maps', [1, 2, 3])
        ms = [{k: Tok(f'm{i}[{k.i}]') for k in ks if choose(f'{k!r} in {i}', [True, False])} for i in range(n)]
        wh = where_of(G.zip_maps); g = Guard('zip_maps', wh, **{f'm{i}': m for i, m in enumerate(ms)})
        got = list(G.zip_maps(*ms)); g.check()
        want = {k: tuple(m[k] for m in ms) for k in ks if all(k in m for m in ms)}
        if len(got) != len(want) or any(k not in want or tuple(v) != want[k] for k, v in got): raise Violation('zip_maps', wh, f'{ms!r} are zipped to {got!r}')
    R.explore('zip_maps', zm, w, max_paths=20000)
    def ons():
        n = choose('arguments', [0, 1, 2, 3]); r = Rel()
        xs = [Obj(i) for i in range(n)]; how = choose('given as', ['list', 'tuple', 'iterator'])
        def f(*a): return ('f',) + a
        def gg(x, *a, **kw): return ('g', x, a, tuple(sorted(kw.items())))
        one = Tok('arg'); two = Tok('kw')
        for name, got, want in [('on', lambda: G.on(f, as_input(xs, how), gg, one, key=two), lambda: f(*[gg(x, one, key=two) for x in xs])), ('on_m', lambda: G.on_m(f, as_input(xs, how), 'meth', one, key=two), lambda: f(*[x.meth(one, key=two) for x in xs])),
                                ('on_a', lambda: G.on_a(f, as_input(xs, how), 'attr'), lambda: f(*[x.attr for x in xs])), ('on', lambda: G.on(f, as_input(xs, how), gg), lambda: f(*[gg(x) for x in xs]))]:
            a, b = got(), want()
            if a != b: raise Violation('on', where_of(getattr(G, name)), f'{name} gives {a!r} instead of {b!r}')
        a, b = Tok('a'), Tok('b')
        if G.fst((a, b)) is not a: raise Violation('on', where_of(G.fst), 'the first of a pair is not its first')
        if G.snd((a, b)) is not b: raise Violation('on', where_of(G.snd), 'the second of a pair is not its second')
    R.explore('on', ons, w)
    def overlap():
        a0, a1, b0, b1 = (Num.atom(x) for x in ('a0', 'a1', 'b0', 'b1'))
        CTX.facts.cons.append(((a0 - a1).n, '<')); CTX.facts.cons.append(((b0 - b1).n, '<'))
        wh = where_of(G.interval_overlap)
        got = Num.of(G.interval_overlap((a0, a1), (b0, b1)))
        # length of the intersection
        lo = a0 if a0 >= b0 else b0; hi = a1 if a1 <= b1 else b1
        want = hi - lo if hi > lo else Num.of(0)
        if not got == want: raise Violation('interval_overlap', wh, f'the overlap of two intervals is {got!r} instead of {want!r}')
    R.explore('interval_overlap', overlap, w)


class Obj:
    def __init__(self, i): self.i = i; self.attr = Tok(f'attr{i}'); self.memo = {}
    def meth(self, *a, **kw): return ('m', self.i, a, tuple(sorted(kw.items())))
    def __repr__(self): return f'o{self.i}'


def tasks(tier):
    big = tier == 'thorough'
    T = []
    for h in (False, True):
        T += [(f'long lists {i} {"hashable" if h else ""}', 't_words', (h, i, 4, 4 if big else 3)) for i in range(4)]
        T += [(f'equality {n} {m} {"hashable" if h else ""}', 't_equality', (n, m, h)) for n in range(0, 6) for m in range(0, 5) if n + m <= (8 if big else 7)]
    T += [(f'order {n}', 't_order', (n,)) for n in range(0, 7 if big else 6)]
    T += [(f'fold {n}', 't_fold', (n,)) for n in range(0, 6 if big else 5)]
    T += [(f'topological {n} {g}', 't_topological', (n, g)) for n in range(0, 5 if big else 4) for g in ('list', 'iterator')]
    return T + [('maps', 't_maps', ())]
