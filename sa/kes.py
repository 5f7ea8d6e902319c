"""Kernel-expression shapes: construction from abstract contents, reading back, and the independent normal form they are compared with.

Spec trees:  'WN' (a leaf)  |  ('S'|'P', {kind: count}, [children])  |  ('CP'|'CW', left, right)
Counts are integers or abstract numbers (Num)."""
from collections import Counter
from .num import Num, CTX
from .common import Violation, Infeasible

KINDS = ('WN', 'C', 'LIN', 'SE', 'PER')


class KE:
    """The expression classes of a world"""
    def __init__(self, w):
        self.w = w
        m = w.import_module('GPy_ABCD.KernelExpressions.all')
        self.Sum, self.Prod, self.Change, self.Base = m.SumKE, m.ProductKE, m.ChangeKE, m.KernelExpression
        self.off = w.get('config').__dict__.get('__USE_LIN_KERNEL_HORIZONTAL_OFFSET', True)

    def build(self, t, raw=False):
        """Through the public constructors"""
        if isinstance(t, str): return t
        if t[0] in ('S', 'P'):
            c = Counter()
            for k, v in t[1].items(): c[k] = v
            return (self.Sum if t[0] == 'S' else self.Prod)(c, [self.build(x) for x in t[2]])
        return self.Change(t[0], self.build(t[1]), self.build(t[2]))

    def read(self, x):
        if isinstance(x, str): return x
        if isinstance(x, self.Change): return (x.CP_or_CW, self.read(x.left), self.read(x.right))
        if isinstance(x, self.Sum): k = 'S'
        elif isinstance(x, self.Prod): k = 'P'
        else: raise Violation('kind', type(x).__name__, f'not a kernel expression: {x!r}')
        return (k, dict(x.base_terms), [self.read(c) for c in x.composite_terms])

    def children(self, x):
        if isinstance(x, str): return []
        if isinstance(x, self.Change): return [b for b in (x.left, x.right) if not isinstance(b, str)]
        return list(x.composite_terms)

    def well_formed(self, x, rule, where):
        """Root and parent links of a whole tree"""
        def bad(msg): raise Violation(rule, where, f'{msg} in {show(self.read(x))}')
        if isinstance(x, str): bad('a bare string is returned')
        if x.parent is not None: bad('the root has a parent')
        if x.root is not x: bad('the root node does not have itself as its root')
        def go(n):
            for c in self.children(n):
                if c.parent is not n: bad(f'wrong parent of {show(self.read(c))}')
                if c.root is not x: bad(f'wrong root of {show(self.read(c))}')
                go(c)
        go(x)


def num(v): return v if isinstance(v, Num) else Num.of(v)

def show(t):
    if isinstance(t, str): return t
    if t[0] in ('S', 'P'):
        op = ' + ' if t[0] == 'S' else ' * '
        xs = [k if not isinstance(v, Num) and v == 1 else f'{k}^{v!r}' for k, v in t[1].items() if isinstance(v, Num) or v != 0] + [show(c) for c in t[2]]
        return f"{'Sum' if t[0] == 'S' else 'Prod'}({op.join(xs)})"
    return f'{t[0]}({show(t[1])}, {show(t[2])})'


def admissible(t):
    """Assumes that no node of the tree is empty (there is no expression without terms)"""
    if isinstance(t, str): return
    if t[0] in ('S', 'P'):
        if not t[2]: assume_positive(total(t[1]))
        for c in t[2]: admissible(c)
    else: admissible(t[1]); admissible(t[2])

def assume_positive(x):
    x = num(x)
    if x.isconst():
        if not x.const() > 0: raise Infeasible('assumption')
        return
    CTX.facts.cons.append(({m: -c for m, c in x.n.items()}, '<'))


# ---- the independent normal form (decided under the facts of the current partition)

def total(c):
    s = Num.of(0)
    for v in c.values(): s = s + v
    return s

def norm_node(kind, counts, kids, off):
    """Normal form of a sum/product whose children are already in normal form; returns a spec tree (sums and products of one term are unwrapped)"""
    c = {k: num(v) for k, v in counts.items()}
    rest = []
    for k in kids:
        if isinstance(k, str): c[k] = c.get(k, Num.of(0)) + 1
        elif k[0] == kind:
            for b, v in k[1].items(): c[b] = c.get(b, Num.of(0)) + v
            rest += k[2]
        else: rest.append(k)
    g = lambda k: c.get(k, Num.of(0))
    if kind == 'S':
        for k in ('WN', 'C'):
            if g(k) > 1: c[k] = Num.of(1)
        if off and g('LIN') > 0: c['C'] = Num.of(0)
    else:
        if g('WN') > 0:
            c = {'WN': Num.of(1), 'LIN': g('LIN')}
        else:
            if g('C') > 0:
                others = g('LIN') + g('SE') + g('PER') + len(rest)
                c['C'] = Num.of(0) if others > 0 else Num.of(1)
            if g('SE') > 1: c['SE'] = Num.of(1)
    t = (kind, {k: v for k, v in c.items() if v > 0}, rest)
    return t

def unwrap(t):
    """A sum/product of a single term is that term"""
    if isinstance(t, str) or t[0] in ('CP', 'CW'): return t
    n = total(t[1])
    if len(t[2]) == 0 and n == 1:
        for k, v in t[1].items():
            if v == 1: return k
    if len(t[2]) == 1 and n == 0: return t[2][0]
    return t

def normal(t, off, top=True):
    """top: the top-level node keeps its type (only its children are unwrapped)"""
    if isinstance(t, str): return t
    if t[0] in ('S', 'P'):
        r = norm_node(t[0], t[1], [normal(c, off, False) for c in t[2]], off)
    else: r = (t[0], normal(t[1], off, False), normal(t[2], off, False))
    return r if top else unwrap(r)

def canonical_root(t, off):
    """What a root is standardised to: never a sum/product of one composite, never a bare base kernel (but the sum of it)"""
    r = normal(t, off, False)
    return ('S', {r: 1}, []) if isinstance(r, str) else r


def same(a, b):
    """Equality up to the order of terms"""
    if isinstance(a, str) or isinstance(b, str): return isinstance(a, str) and isinstance(b, str) and a == b
    if a[0] != b[0]: return False
    if a[0] in ('CP', 'CW'): return same(a[1], b[1]) and same(a[2], b[2])
    if len(a[2]) != len(b[2]): return False
    for k in set(a[1]) | set(b[1]):
        if not (num(a[1].get(k, 0)) == num(b[1].get(k, 0))): return False
    left = list(b[2])
    for x in a[2]:
        for i, y in enumerate(left):
            if same(x, y):
                del left[i]; break
        else: return False
    return True
