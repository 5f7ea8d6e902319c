"""C23: printed forms of expressions denote them."""
import ast, re
from ..fitted import *
from ..rules import ints, shapes
from ..models_lib import Add, Prod as KProd

RULE = ('Abstract interpretation of the printing methods over expression shapes. Obligations: the constructor form (repr), read as constructor calls, builds an equal expression; the algebraic form (str), read by an independent parser '
        'in which products bind more tightly than sums, is the same expression up to the order of terms; the kernel built from the algebraic form (to_kernel_unrefined) has the structure of the one built from the tree (to_kernel); '
        'every kernel built is a new one and has one variance per product of base kernels; printing leaves the expression as it was.')
ASSUMPTIONS = ['canonical trees of at most 3 leaves, all of 4 over two kernels, and larger selected ones; before and after fitting']


class Parser:
    """Sums of products of names, brackets and changes"""
    def __init__(self, s): self.toks = re.findall(r'[A-Za-z]+|[()+*,]|\S', s); self.i = 0; self.s = s
    def peek(self): return self.toks[self.i] if self.i < len(self.toks) else None
    def take(self, t=None):
        x = self.peek()
        if x is None or (t is not None and x != t): raise ValueError(f'{t or "more"} expected in {self.s!r}')
        self.i += 1; return x
    def all(self):
        r = self.sum()
        if self.peek() is not None: raise ValueError(f'{self.peek()!r} left in {self.s!r}')
        return r
    def sum(self): return self.chain('S', '+', self.prod)
    def prod(self): return self.chain('P', '*', self.factor)
    def chain(self, kind, op, sub):
        xs = [sub()]
        while self.peek() == op: self.take(); xs.append(sub())
        if len(xs) == 1: return xs[0]
        c = {}; kids = []
        for x in xs:
            if isinstance(x, str): c[x] = c.get(x, 0) + 1
            else: kids.append(x)
        return (kind, c, kids)
    def factor(self):
        t = self.take()
        if t == '(':
            r = self.sum(); self.take(')'); return r
        if t in ('CP', 'CW'):
            self.take('('); a = self.sum(); self.take(','); b = self.sum(); self.take(')')
            return (t, a, b)
        if t in KINDS: return t
        raise ValueError(f'unexpected {t!r} in {self.s!r}')


def strip(t):
    """A sum or product of one term is that term (on spec trees, without simplifying)"""
    if isinstance(t, str): return t
    if t[0] in ('CP', 'CW'): return (t[0], strip(t[1]), strip(t[2]))
    kids = [strip(c) for c in t[2]]; c = {k: v for k, v in t[1].items() if v}
    out = []
    for k in kids:
        if isinstance(k, str): c[k] = c.get(k, 0) + 1
        else: out.append(k)
    if not out and sum(c.values()) == 1: return next(iter(c))
    if len(out) == 1 and not c: return out[0]
    return (t[0], c, out)


def from_repr(s, K):
    """Reads constructor calls"""
    def go(e):
        if isinstance(e, ast.Call):
            if not isinstance(e.func, ast.Name) or e.func.id not in ('SumKE', 'ProductKE', 'ChangeKE'): raise ValueError(f'{ast.unparse(e)[:80]}')
            f = {'SumKE': K.Sum, 'ProductKE': K.Prod, 'ChangeKE': K.Change}[e.func.id]
            return f(*[go(a) for a in e.args], **{k.arg: go(k.value) for k in e.keywords})
        if isinstance(e, (ast.List, ast.Tuple)): return [go(x) for x in e.elts]
        if isinstance(e, ast.Constant): return e.value
        if isinstance(e, ast.Dict): return {go(k): go(v) for k, v in zip(e.keys, e.values)}
        raise ValueError(f'{ast.unparse(e)[:80]}')
    return go(ast.parse(s, mode='eval').body)


def structure(t):
    """Structure of a kernel tree without parameters, flattened"""
    if t[0] == 'leaf': return t[1]
    if t[0] in ('CP', 'CW'): return (t[0], structure(t[2]), structure(t[3]))
    out = []
    for c in t[1]:
        s = structure(c)
        if not isinstance(s, str) and s[0] == t[0]: out += s[1]
        else: out.append(s)
    return out[0] if len(out) == 1 else (t[0], sorted(out, key=repr))

def spec_structure(t):
    if isinstance(t, str): return t
    if t[0] in ('CP', 'CW'): return (t[0], spec_structure(t[1]), spec_structure(t[2]))
    out = [k for k, v in t[1].items() for _ in range(v)]
    for c in t[2]:
        s = spec_structure(c)
        if not isinstance(s, str) and s[0] == t[0]: out += s[1]
        else: out.append(s)
    return out[0] if len(out) == 1 else (t[0], sorted(out, key=repr))


def variances(t, K):
    """Each product of base kernels has one variance of its own"""
    if t[0] == 'leaf': return
    if t[0] == 'P':
        n = sum(1 for c in t[1] if c[0] == 'leaf' and 'variance' in c[2]); m = sum(1 for c in t[1] if c[0] == 'leaf')
        if m and n != 1: raise ValueError(f'{n} variances in a product of {m} base kernels')
    for c in (t[1] if t[0] in 'SP' else t[2:]): variances(c, K)


def t_print(R, part, flags):
    w = world(flags, ('KernelExpressions.all', 'Models.model')); K = KE(w); KK = Kernels(w)
    from copy import deepcopy
    def params(x): return [(id(n), repr(dict(n.parameters)), repr(K.read(n))) for n in [x] + deep(K, x)]
    for t in part:
        if t[0] in 'SP' and not trees.Gen(KINDS, K.off).ok(t): continue
        def go():
            x = K.build(t)._initialise(); r = ints(K.read(x)); before = params(x)
            s = repr(x)
            try: y = from_repr(s, K)
            except (ValueError, SyntaxError) as e: raise Violation('repr', where_of(type(x).__repr__), f'the constructor form {s!r} of {show(r)} is not one: {e}')
            if not isinstance(y, K.Base) or not same(ints(K.read(y)), r) or not (y == x): raise Violation('repr', where_of(type(x).__repr__), f'the constructor form {s!r} of {show(r)} builds {show(ints(K.read(y))) if isinstance(y, K.Base) else y!r}')
            p = str(x)
            try: q = Parser(p).all()
            except ValueError as e: raise Violation('str', where_of(type(x).__str__), f'the printed form {p!r} of {show(r)} cannot be read: {e}')
            if not same(strip(q), strip(r)): raise Violation('str', where_of(type(x).__str__), f'{show(r)} is printed as {p!r}, which denotes {show(strip(q))}')
            for n in [x] + deep(K, x):
                q = str(n); u = ints(K.read(n))
                try: ok = same(strip(Parser(q).all()), strip(u))
                except ValueError: ok = False
                if not ok: raise Violation('str', where_of(type(n).__str__), f'the node {show(u)} is printed as {q!r}')
            if params(x) != before: raise Violation('effects', where_of(type(x).__str__), f'printing {show(r)} changes it')
        R.explore('printed', go, w)
        def kernels():
            x = K.build(t)._initialise(); r = ints(K.read(x)); before = params(x)
            a = x.to_kernel(); b = x.to_kernel_unrefined(); c = x.to_kernel()
            want = spec_structure(strip(r)) if not isinstance(strip(r), str) else strip(r)
            for k, f in ((a, x.to_kernel), (b, x.to_kernel_unrefined)):
                got = structure(KK.read(k))
                if got != want: raise Violation('kernel', where_of(f), f'the kernel built for {show(r)} is {got}')
            if a is c or objects(a) & objects(c): raise Violation('kernel', where_of(x.to_kernel), f'two kernels built for {show(r)} share parts')
            try: variances(KK.read(a), K)
            except ValueError as e: raise Violation('kernel', where_of(x.to_kernel), f'the kernel built for {show(r)} has {e}')
            if params(x) != before: raise Violation('effects', where_of(x.to_kernel), f'building the kernel of {show(r)} changes it')
        R.explore('kernels', kernels, w)


def objects(k):
    out = {id(k)}
    for p in list(getattr(k, 'parameters', [])) + list(getattr(k, 'parts', []) or []):
        out |= objects(p) if hasattr(p, 'parameters') else {id(p)}
    return out

def deep(K, x):
    return [n for c in K.children(x) for n in [c] + deep(K, c)]


def tasks(tier):
    big = tier == 'thorough'
    T = []
    F = shapes(tier) + trees.Gen(KINDS, True).roots(3)[::(3 if not big else 1)] + trees.Gen(('LIN', 'PER'), True).roots(4)[::(2 if not big else 1)] + (trees.Gen(('LIN', 'PER'), True).roots(5)[::6] if big else trees.Gen(('LIN', 'PER'), True).roots(5)[::60]) + forests(tier, True)
    seen = {}; F = [seen.setdefault(trees.key(t), t) for t in F if trees.key(t) not in seen]
    nb = 16 if not big else 48
    T += [(f'printed {i}', 't_print', (F[i::nb], cfg())) for i in range(nb)]
    T += [(f'printed {cfg_str(f)}', 't_print', (F[::7], f)) for f in (cfg(off=False), cfg(fix=False), cfg(indep=True), cfg(nonpure=True))]
    return T
