"""Enumeration of canonical expression trees by number of leaves (concrete shapes; the parameters stay symbolic)."""
from functools import lru_cache
from itertools import combinations_with_replacement, product
from .kes import *


def key(t):
    if isinstance(t, str): return (0, t)
    if t[0] in ('S', 'P'): return (1, t[0], tuple(sorted(t[1].items())), tuple(sorted(key(c) for c in t[2])))
    return (2, t[0], key(t[1]), key(t[2]))


class Gen:
    def __init__(self, kinds, off, changes=('CP', 'CW')):
        self.kinds = kinds; self.off = off; self.changes = changes; self.memo = {}

    def items(self, n, excl=None):
        k = (n, excl)
        if k in self.memo: return self.memo[k]
        r = list(self.kinds) if n == 1 else []
        if n > 1:
            if excl != 'S': r += self.node('S', n)
            if excl != 'P': r += self.node('P', n)
            for i in range(1, n):
                for c in self.changes:
                    r += [(c, a, b) for a in self.items(i) for b in self.items(n - i)]
        self.memo[k] = r
        return r

    def node(self, kind, n):
        out = []; seen = set()
        for part in partitions(n):
            if len(part) < 2: continue
            groups = {}
            for p in part: groups[p] = groups.get(p, 0) + 1
            opts = [list(combinations_with_replacement(range(len(self.items(p, kind))), c)) for p, c in groups.items()]
            for combo in product(*opts):
                counts = {}; kids = []
                for (p, c), idx in zip(groups.items(), combo):
                    for i in idx:
                        x = self.items(p, kind)[i]
                        if isinstance(x, str): counts[x] = counts.get(x, 0) + 1
                        else: kids.append(x)
                t = (kind, counts, kids)
                if self.ok(t): out.append(t)
        return out

    def ok(self, t):
        c, kids = t[1], t[2]; g = lambda k: c.get(k, 0)
        if t[0] == 'S':
            return g('WN') <= 1 and g('C') <= 1 and not (self.off and g('LIN') and g('C'))
        if g('WN') > 0: return g('WN') == 1 and not (g('C') or g('SE') or g('PER'))
        return g('C') == 0 and g('SE') <= 1

    def roots(self, n):
        r = [('S', {k: 1}, []) for k in self.kinds] if n == 1 else []
        return r + [t for t in self.items(n) if not isinstance(t, str)]


def partitions(n, m=None):
    m = n if m is None else m
    if n == 0: yield (); return
    for i in range(min(n, m), 0, -1):
        for r in partitions(n - i, i): yield (i,) + r


def size(t):
    if isinstance(t, str): return 1
    if t[0] in ('S', 'P'): return sum(t[1].values()) + sum(size(c) for c in t[2])
    return size(t[1]) + size(t[2])

def changes(t):
    if isinstance(t, str): return 0
    if t[0] in ('S', 'P'): return sum(changes(c) for c in t[2])
    return 1 + changes(t[1]) + changes(t[2])
