"""Comparison of extracted closed forms: first as normalised rational functions; where the code uses truncated series (or an algebraically different but equal
form that the normal form does not identify), by evaluating both closed forms at points of the current partition with 50-digit arithmetic."""
import random
from decimal import Decimal, getcontext, Overflow, InvalidOperation, DivisionByZero
from .num import Num, Undecided, subst, p_isconst, CTX, NumCmp, diff, app
from .models_lib import all_atoms, retag

getcontext().prec = 60
getcontext().Emax = 10 ** 9; getcontext().Emin = -10 ** 9
D = Decimal
PI_D = D('3.14159265358979323846264338327950288419716939937510582097494459')


def d_sin(x):
    x = x % (2 * PI_D)
    t = x; s = x; k = 1
    while abs(t) > D('1e-55'):
        t = -t * x * x / ((2 * k) * (2 * k + 1)); s += t; k += 1
    return s
def d_cos(x): return d_sin(x + PI_D / 2)
def d_i0(x):
    t = s = D(1); k = 1; q = x * x / 4
    while t > s * D('1e-58'):
        t = t * q / (k * k); s += t; k += 1
        if k > 20000: raise Undecided('Bessel argument')
    return s
def d_i1(x):
    t = s = x / 2; k = 1; q = x * x / 4
    while abs(t) > abs(s) * D('1e-58') and t:
        t = t * q / (k * (k + 1)); s += t; k += 1
        if k > 20000: raise Undecided('Bessel argument')
    return s

FN = {'id': lambda u: u, 'exp': lambda u: u.exp(), 'log': lambda u: u.ln(), 'sqrt': lambda u: u.sqrt(), 'sin': d_sin, 'cos': d_cos, 'i0': d_i0, 'i1': d_i1, 'abs': abs,
      'tanh': lambda u: ((2 * u).exp() - 1) / ((2 * u).exp() + 1), 'expm1': lambda u: u.exp() - 1, 'log1p': lambda u: (u + 1).ln(),
      'tan': lambda u: d_sin(u) / d_cos(u), 'cosh': lambda u: (u.exp() + (-u).exp()) / 2, 'sinh': lambda u: (u.exp() - (-u).exp()) / 2}

class Ev:
    def __init__(self, env): self.env = env; self.memo = {}
    def atom(self, a):
        if a in self.env: return self.env[a]
        v = self.memo.get(a)
        if v is None:
            if a.name == 'pi': v = PI_D
            elif a.func in FN: v = FN[a.func](self.num(a.arg))
            else: raise Undecided(f'no value for {a.name}')
            self.memo[a] = v
        return v
    def poly(self, p):
        s = D(0)
        for m, c in p.items():
            t = D(c.numerator) / D(c.denominator)
            for a, e in m: t *= self.atom(a) ** e
            s += t
        return s
    def num(self, x): return self.poly(x.n) / self.poly(x.d)


def free_atoms(*xs):
    s = set()
    for x in xs: s |= {a for a in all_atoms(x) if a.func is None and a.name != 'pi'}
    return sorted(s, key=lambda a: a.name)


def points(atoms, n, grids=None, seed=7, tries=4000):
    """Points satisfying the current partition's constraints (over these atoms)"""
    rng = random.Random(seed); F = CTX.facts
    grids = grids or {}
    cons = [(p, r) for p, r in F.cons if all(a.name in ('pi',) or a in atoms or (a.func and set(free_atoms(Num({((a, 1),): 1}))) <= set(atoms)) for m in p for a, _ in m)]
    out = []; lo, hi, fix = {}, {}, []
    for p, r in cons:   # bounds of single quantities, and equalities that give one of them
        vs = {x for m in p for x, _ in m}
        if r != '==' and len(vs) == 1 and all(sum(e for _, e in m) <= 1 for m in p):
            x = next(iter(vs))
            if x.func is not None: continue
            c1, c0 = p[((x, 1),)], p.get((), 0)
            bd = D(-c0 / c1) if isinstance(c0 / c1, int) else D((-c0 / c1).numerator) / D((-c0 / c1).denominator)
            if c1 > 0: hi[x] = min(hi.get(x, bd), bd)
            else: lo[x] = max(lo.get(x, bd), bd)
        elif r == '==':
            x = next((x for x in sorted(vs, key=lambda x: x.name) if x in atoms and x.func is None and not any(x is y for y, _ in fix) and ((x, 1),) in p and sum(1 for m in p if any(y is x for y, _ in m)) == 1
                      and not any(b.func for b in vs)), None)
            if x is not None: fix.append((x, p))
    for t in range(tries):
        env = {}
        for a in atoms:
            g = grids.get(a)
            l, h = lo.get(a, D(0) if a.pos else None), hi.get(a)
            if g: env[a] = D(str(g[t % len(g)]))
            elif a.integer: env[a] = D(rng.randint(1, 9) if l is None else int(l) + rng.randint(0, 9))
            elif h is not None and l is not None and h > l: env[a] = l + (h - l) * D(str(round(rng.uniform(0.02, 0.98), 6)))
            elif h is not None: env[a] = h - D(str(round(2.718281828 ** rng.uniform(-1.2, 1.2), 6)))
            elif l is not None and l > 0: env[a] = l + D(str(round(2.718281828 ** rng.uniform(-1.2, 1.2), 6)))
            elif a.pos: env[a] = D(str(round(2.718281828 ** rng.uniform(-1.2, 1.2), 6)))
            else: env[a] = D(str(round(rng.uniform(-3, 3), 6)))
        for x, p in reversed(fix):
            c = p[((x, 1),)]
            try: env[x] = -Ev(env).poly({m: k for m, k in p.items() if m != ((x, 1),)}) * D(c.denominator) / D(c.numerator)
            except (Overflow, InvalidOperation, DivisionByZero, KeyError, Undecided): pass
        if any(a.pos and env[a] <= 0 for a in atoms): continue
        ev = Ev(env)
        try: ok = all((v < 0 if r == '<' else v <= 0 if r == '<=' else v == 0) for p, r in cons for v in [ev.poly(p)])
        except (Overflow, InvalidOperation, DivisionByZero): ok = False
        if ok: out.append(ev)
        if len(out) >= n: break
    return out


def resolve(e):
    """Replace the absolute values of array elements by cases on their signs (splitting the partition)"""
    for _ in range(40):
        ab = sorted((a for a in all_atoms(e) if a.func == 'abs'), key=lambda a: a.name)
        if not ab: return e
        inner = next(a for a in ab if not any(b.func == 'abs' for b in all_atoms(a.arg)))
        neg = CTX.facts.decide(inner.arg, '<')
        e = subst(e, {inner: -inner.arg if neg else inner.arg})
    raise Undecided('nested absolute values')


def equal(a, b, tol=D('1e-25'), n=16, grids=None, scale=None):
    """None if equal, otherwise a witness text"""
    if len(a.n) * len(b.d) < 4000 and len(b.n) * len(a.d) < 4000 and a.same(b): return None
    ats = free_atoms(a, b)
    pts = points(ats, n, grids)
    if not pts: raise Undecided('no sample point found in the partition')
    for ev in pts:
        try: x, y = ev.num(a), ev.num(b)
        except (Overflow, InvalidOperation, DivisionByZero): continue
        s = max(D(1), abs(x), abs(y)) if scale is None else scale(ev)
        if abs(x - y) > tol * s:
            return 'e.g. at ' + ', '.join(f'{k.name}={float(v):.6g}' for k, v in ev.env.items()) + f': {float(x):.10g} instead of {float(y):.10g}'
    return None
