"""Numeric abstract domain.

Num   : exact rational functions over named atoms (no floating point; decimal literals are read exactly).
        Atoms are program quantities (a parameter, a score, a count, a generic array element ...) or applications of
        elementary functions to Nums.
Facts : a polyhedral domain over the atoms' monomials (conjunctions of linear (in)equalities decided by
        Fourier-Motzkin elimination), used to decide comparisons or to split the analysis on them.
"""
import re
from fractions import Fraction
import math


class Undecided(BaseException):
    """The analysis met something it does not model: the abstract trace is abandoned and recorded, never reported."""


class Atom:
    __slots__ = ('name', 'pos', 'integer', 'lo', 'func', 'arg', 'swap', 'id', 'nonneg')
    _n = 0

    def __init__(self, name, pos=False, integer=False, func=None, arg=None, nonneg=False):
        self.name = name; self.pos = pos; self.integer = integer; self.func = func; self.arg = arg
        self.nonneg = nonneg or pos
        self.swap = None
        Atom._n += 1; self.id = Atom._n

    def __repr__(self): return self.name
    def __lt__(self, o): return self.id < o.id
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


# ---- polynomials: dict {monomial: Fraction}; monomial: tuple of (Atom, exponent) sorted by atom id

def p_const(c): return {(): c} if c else {}
def p_atom(a): return {((a, 1),): Fraction(1)}

def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r

def m_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2: d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: t[0].id))

P_MAX = 60000

def p_mul(p, q):
    if len(p) * len(q) > P_MAX: raise Undecided('polynomial too large')
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2); v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    return r

def p_scale(p, c): return {m: v * c for m, v in p.items()} if c else {}

def p_isconst(p): return not p or (len(p) == 1 and () in p)
def p_cval(p): return p.get((), Fraction(0))

def m_gcd(ms):
    ms = list(ms)
    if not ms: return ()
    g = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        g = {a: min(e, d[a]) for a, e in g.items() if a in d}
        if not g: return ()
    return tuple(sorted(g.items(), key=lambda t: t[0].id))

def m_div(m, g):
    d = dict(m)
    for a, e in g: d[a] = d.get(a, 0) - e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda t: t[0].id))

def p_str(p):
    if not p: return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda t: [(-e, a.name) for a, e in t[0]]):
        f = '*'.join(a.name + (f'**{e}' if e != 1 else '') for a, e in m)
        cs = str(c) if c.denominator == 1 else f'{float(c):.10g}'
        out.append(cs if not f else f if c == 1 else '-' + f if c == -1 else cs + '*' + f)
    return ' + '.join(out).replace('+ -', '- ')


def to_fraction(x):
    if isinstance(x, bool): return Fraction(int(x))
    if isinstance(x, int): return Fraction(x)
    if isinstance(x, Fraction): return x
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf): raise Undecided(f'non-finite literal {x}')
        return Fraction(repr(x))
    return None


class Num:
    """Rational function num/den; the abstract value of a real (or integer) program quantity."""
    __slots__ = ('n', 'd')
    _is_abstract = True

    def __init__(self, n, d=None):
        d = d if d is not None else {(): Fraction(1)}
        if not n: d = {(): Fraction(1)}
        elif not p_isconst(d) or p_cval(d) != 1:
            if p_isconst(d): n = p_scale(n, 1 / p_cval(d)); d = {(): Fraction(1)}
            else:
                g = m_gcd(list(n) + list(d))
                if g: n = {m_div(m, g): c for m, c in n.items()}; d = {m_div(m, g): c for m, c in d.items()}
                if p_isconst(d): n = p_scale(n, 1 / p_cval(d)); d = {(): Fraction(1)}
                elif len(n) == len(d):  # proportional?
                    m0 = next(iter(d))
                    if m0 in n:
                        k = n[m0] / d[m0]
                        if all(n.get(m) == k * c for m, c in d.items()): n = p_const(k); d = {(): Fraction(1)}
        self.n = n; self.d = d

    # -- constructors
    @staticmethod
    def of(x):
        if isinstance(x, Num): return x
        if hasattr(x, '_as_num'): return x._as_num()
        f = to_fraction(x)
        return None if f is None else Num(p_const(f))

    @staticmethod
    def atom(name, **kw):
        return Num(p_atom(Atom(name, **kw)))

    # -- structure
    def isconst(self): return p_isconst(self.n) and p_isconst(self.d)
    def const(self): return p_cval(self.n) / p_cval(self.d)
    def is_int(self):
        return p_isconst(self.d) and all((c / p_cval(self.d)).denominator == 1 and all(a.integer for a, _ in m) for m, c in self.n.items())
    def atoms(self): return {a for p in (self.n, self.d) for m in p for a, _ in m}
    def the_atom(self):
        if p_isconst(self.d) and len(self.n) == 1:
            (m, c), = self.n.items()
            if len(m) == 1 and m[0][1] == 1 and c == p_cval(self.d): return m[0][0]
        return None
    def same(self, o):
        d = reduce_sqrt(Num(p_add(p_mul(self.n, o.d), p_mul(o.n, self.d), -1)))
        return d.iszero() or settled(d).iszero()
    def iszero(self): return not self.n

    def __repr__(self):
        s = p_str(self.n)
        if p_isconst(self.d): return s
        return f'({s})/({p_str(self.d)})'

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __hash__(self):
        if self.isconst(): return hash(self.const())
        return 7

    # -- arithmetic
    def _bin(self, o, f):
        if isinstance(o, (list, tuple, str)): return NotImplemented
        if getattr(o, '_is_arr', False) : return NotImplemented
        q = Num.of(o)
        return NotImplemented if q is None else f(q)
    def __add__(self, o): return self._bin(o, lambda q: n_add(self, q))
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda q: n_add(self, q, -1))
    def __rsub__(self, o): return self._bin(o, lambda q: n_add(q, self, -1))
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)): return o * self.__index__()
        return self._bin(o, lambda q: n_mul(self, q))
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda q: n_div(self, q))
    def __rtruediv__(self, o): return self._bin(o, lambda q: n_div(q, self))
    def __neg__(self): return Num(p_scale(self.n, Fraction(-1)), self.d)
    def __pos__(self): return self
    def __abs__(self):
        return self if CTX.facts.decide(self, '>=') else -self
    def __pow__(self, e):
        q = Num.of(e)
        if q is None: return NotImplemented
        if q.isconst():
            c = q.const()
            if c.denominator == 1:
                k = int(c); r = Num(p_const(Fraction(1)))
                for _ in range(abs(k)): r = n_mul(r, self)
                return r if k >= 0 else n_div(Num(p_const(Fraction(1))), r)
            if c == Fraction(1, 2): return app('sqrt', self)
            if c == Fraction(-1, 2): return 1 / app('sqrt', self)
        if self.isconst() and self.const() == 1: return self
        raise Undecided(f'power {self!r} ** {e!r}')
    def __rpow__(self, b):
        raise Undecided('symbolic exponent')
    def __floordiv__(self, o):
        q = Num.of(o)
        if q is None: return NotImplemented
        r = n_div(self, q)
        if r.isconst(): return Num(p_const(Fraction(math.floor(r.const()))))
        if r.is_int(): return r
        return CTX.facts.floor(r)
    def __rfloordiv__(self, o): return Num.of(o).__floordiv__(self)
    def __rdivmod__(self, o): return Num.of(o).__divmod__(self)
    def __divmod__(self, o):
        f = self // o
        return f, self - f * o
    def __rmod__(self, o):
        if isinstance(o, str): return NotImplemented
        return Num.of(o) % self
    def __mod__(self, o):
        if Num.of(o) is None: return NotImplemented
        return self - (self // o) * o

    # -- comparisons split the analysis
    def _cmp(self, o, op):
        if isinstance(o, (list, tuple, str, dict)) or o is None: return NotImplemented
        if getattr(o, '_is_arr', False): return NotImplemented
        if isinstance(o, float) and o in (math.inf, -math.inf):
            return {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False, '!=': True}[op]
        q = Num.of(o)
        if q is None: return NotImplemented
        return NumCmp(n_add(self, q, -1), op)
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o):
        if self is o: return True
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r
    def __ne__(self, o):
        if self is o: return False
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r
    def __bool__(self): return not CTX.facts.decide(self, '==')
    def __index__(self):
        if self.isconst():
            c = self.const()
            if c.denominator == 1: return int(c)
        if not self.is_int(): raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.facts.concretise(self)
    def __int__(self):
        if self.is_int(): return self.__index__()
        if self.isconst(): return int(self.const())
        return CTX.facts.concretise_trunc(self)
    def __float__(self):
        if self.isconst(): return float(self.const())
        raise Undecided('float() of an abstract number by a library')
    def __round__(self, nd=None): return app('round', self) if nd is None else app(f'round{nd}', self)
    def __trunc__(self): return self.__int__()
    def __format__(self, spec):
        if self.isconst() and self.is_int() and spec in ('', 'd'): return str(int(self.const()))
        x = self
        if len(self.n) == 1 and p_isconst(self.d):   # a rounded value states the value
            (mono, c), = self.n.items()
            if c == 1 and p_cval(self.d) == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].func and re.fullmatch(r'round\d+', mono[0][0].func):
                nd = int(mono[0][0].func[5:]); x = mono[0][0].arg
                if nd < 2 or spec == '': spec = f'.{nd}f'
        r = repr(x); FMT[r] = x
        return f'⟦{r}⟧' if spec == '' else f'⟦{r}|{spec}⟧'
    def __str__(self): return self.__format__('')

    # -- numpy-scalar-like conveniences
    @property
    def T(self): return self
    @property
    def size(self): return 1
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    def item(self): return self
    def sum(self, *a, **k): return self
    def copy(self): return self
    def __getitem__(self, k):
        if k == 0 or k is Ellipsis or k == () or k == slice(None): return self
        raise Undecided(f'index {k} of an abstract scalar')


LAZY = 20
def _shrink(x):
    """Name a large subexpression (its closed form is kept in the atom)"""
    return x if len(x.n) + len(x.d) <= 3 else app('id', x)

def n_add(a, b, s=1):
    if a.d == b.d: return Num(p_add(a.n, b.n, s), a.d)
    if CTX.lazy and (len(a.n) * len(b.d) + len(b.n) * len(a.d) > LAZY or len(a.d) * len(b.d) > LAZY): a, b = _shrink(a), _shrink(b)
    return reduce_sqrt(Num(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), s), p_mul(a.d, b.d)))
def n_mul(a, b):
    if CTX.lazy and (len(a.n) * len(b.n) > LAZY or len(a.d) * len(b.d) > LAZY): a, b = _shrink(a), _shrink(b)
    return reduce_sqrt(Num(p_mul(a.n, b.n), p_mul(a.d, b.d)))
def n_div(a, b):
    if not b.n: raise ZeroDivisionError('division by zero')
    if CTX.lazy and (len(a.n) * len(b.d) > LAZY or len(a.d) * len(b.n) > LAZY): a, b = _shrink(a), _shrink(b)
    return reduce_sqrt(Num(p_mul(a.n, b.d), p_mul(a.d, b.n)))


def reduce_sqrt(x):
    """sqrt(a)**2 -> a"""
    for poly in (x.n, x.d):
        for m in poly:
            for a, e in m:
                if a.func == 'sqrt' and (e >= 2):
                    return reduce_sqrt(n_div(_sub_sqrt(x.n, a), _sub_sqrt(x.d, a)))
    return x
def _sub_sqrt(p, a):
    tot = Num({})
    for m, c in p.items():
        d = dict(m); e = d.get(a, 0)
        if e >= 2:
            d[a] = e % 2
            t = Num({tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda t: t[0].id)): c})
            for _ in range(e // 2): t = Num(p_mul(t.n, a.arg.n), p_mul(t.d, a.arg.d))
        else: t = Num({m: c})
        tot = Num(p_add(p_mul(tot.n, t.d), p_mul(t.n, tot.d)), p_mul(tot.d, t.d))
    return tot


_APPS = {}
_KEYS = {}

def app(func, arg):
    """Application of an elementary function, normalised for equal arguments."""
    arg = Num.of(arg)
    if arg.isconst():
        c = arg.const()
        if func == 'sqrt' and c >= 0:
            r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
            if r * r == c: return Num(p_const(r))
        if func in ('exp', 'cos') and c == 0: return Num(p_const(Fraction(1)))
        if func in ('sin',) and c == 0: return Num({})
        if func == 'log' and c == 1: return Num({})
    sign = 1
    if func in ('sin', 'cos', 'tan', 'i0', 'i1'):  # parity: canonical sign by the first monomial
        if arg.n:
            lead = min(arg.n, key=lambda m: [(a.id, e) for a, e in m])
            dl = min(arg.d, key=lambda m: [(a.id, e) for a, e in m])
            if (arg.n[lead] / arg.d[dl]) < 0:
                arg = -arg
                if func in ('sin', 'tan', 'i1'): sign = -1
    if func == 'sqrt':
        # pull out a perfect-square positive monomial
        for a in arg.atoms():
            if a.pos and arg.the_atom() is None and len(arg.n) == 1 and p_isconst(arg.d):
                (m, c), = arg.n.items()
                if dict(m).get(a, 0) >= 2:
                    g = ((a, 2),)
                    return n_mul(Num(p_atom(a)), app('sqrt', Num({m_div(m, g): c}, arg.d)))
    key = (func, frozenset(arg.n.items()), frozenset(arg.d.items()))
    atom = _KEYS.get(key)
    if atom is not None: return Num(p_scale(p_atom(atom), Fraction(sign)))
    if not p_isconst(arg.d) and func != 'id':
        for (a2, atom) in _APPS.get(func, ()):
            if not p_isconst(a2.d) and a2.atoms() == arg.atoms() and a2.same(arg):
                _KEYS[key] = atom
                return Num(p_scale(p_atom(atom), Fraction(sign)))
    if func == 'id': atom = Atom(f'id#{len(_KEYS)}', func=func, arg=arg)
    else: atom = Atom(f'{func}({arg!r})', pos=func in ('exp', 'sqrt', 'i0', 'embi0'), func=func, arg=arg)
    _APPS.setdefault(func, []).append((arg, atom)); _KEYS[key] = atom
    return Num(p_scale(p_atom(atom), Fraction(sign)))

def reset_apps(): _APPS.clear(); _KEYS.clear()


# ---- differentiation

def diff(x, a):
    """Formal derivative of Num x with respect to Atom a."""
    dn, dd = _pdiff(x.n, a), _pdiff(x.d, a)
    if p_isconst(x.d): return n_div(dn, Num(x.d))
    return n_div(n_add(n_mul(dn, Num(x.d)), n_mul(Num(x.n), dd), -1), n_mul(Num(x.d), Num(x.d)))

_DIFFS = {}
def _pdiff(p, a):
    tot = Num({})
    for m, c in p.items():
        for i, (b, e) in enumerate(m):
            db = _adiff(b, a)
            if db.iszero(): continue
            rest = m[:i] + (((b, e - 1),) if e != 1 else ()) + m[i + 1:]
            tot = n_add(tot, n_mul(Num({rest: c * e}), db))
    return tot

def _adiff(b, a):
    if b is a: return Num(p_const(Fraction(1)))
    if b.func is None or b.arg is None: return Num({})
    k = (b, a)
    inner = _DIFFS.get(k)
    if inner is None: inner = _DIFFS[k] = diff(b.arg, a)
    if inner.iszero(): return Num({})
    f, u = b.func, b.arg
    if f == 'id': return inner
    if f == 'exp': o = app('exp', u)
    elif f == 'log': o = 1 / u
    elif f == 'sqrt': o = 1 / (2 * app('sqrt', u))
    elif f == 'sin': o = app('cos', u)
    elif f == 'cos': o = -app('sin', u)
    elif f == 'i0': o = app('i1', u)
    elif f == 'i1': o = app('i0', u) - app('i1', u) / u
    else: raise Undecided(f'derivative of {f}')
    return n_mul(o, inner)


def subst(x, mapping, memo=None):
    """Substitute atoms by Nums (recursively inside function applications)."""
    memo = {} if memo is None else memo
    def sa(a):
        if a in memo: return memo[a]
        if a in mapping: r = mapping[a]
        elif a.func is not None and a.arg is not None: r = app(a.func, subst(a.arg, mapping, memo))
        else: r = Num(p_atom(a))
        memo[a] = r
        return r
    def sp(p):
        if not any(a in mapping or a.func for m in p for a, _ in m): return Num(p)
        tot = Num({})
        for m, c in p.items():
            t = Num(p_const(c))
            for a, e in m:
                for _ in range(e): t = n_mul(t, sa(a))
            tot = n_add(tot, t)
        return tot
    return n_div(sp(x.n), sp(x.d))


def evalf(x, env):
    """Floating-point value of the extracted closed form (used only where the code itself uses truncated series)."""
    def ea(a):
        if a in env: return env[a]
        if a.name == 'pi': return math.pi
        if a.func:
            u = evalf(a.arg, env)
            return {'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'i0': bess0, 'i1': bess1}[a.func](u)
        raise Undecided(f'no value for {a}')
    def ep(p):
        s = 0.0
        for m, c in p.items():
            t = float(c)
            for a, e in m: t *= ea(a) ** e
            s += t
        return s
    return ep(x.n) / ep(x.d)

def bess0(x):
    t = s = 1.0; k = 1
    while True:
        t *= (x / 2) ** 2 / k ** 2; s += t; k += 1
        if t < 1e-18 * s: return s
def bess1(x):
    t = s = x / 2; k = 1
    while True:
        t *= (x / 2) ** 2 / (k * (k + 1)); s += t; k += 1
        if abs(t) <= 1e-18 * abs(s): return s


# ---- comparisons and facts

class SymBool:
    _is_abstract = True
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    # numpy-bool-like operators
    def __and__(self, o): return bool(self) and bool(o)
    __rand__ = __and__
    def __or__(self, o): return bool(self) or bool(o)
    __ror__ = __or__
    def __invert__(self): return not bool(self)
    def __xor__(self, o): return bool(self) != bool(o)
    def any(self, *a): return bool(self)
    def all(self, *a): return bool(self)
    def item(self): return bool(self)
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __eq__(self, o): return bool(self) == bool(o)
    def __hash__(self): return hash(bool(self))


class NumCmp(SymBool):
    """diff OP 0"""
    __slots__ = ('diff', 'op')
    def __init__(self, diff, op): self.diff = diff; self.op = op
    def __bool__(self): return CTX.facts.decide(self.diff, self.op)
    def __repr__(self): return f'{self.diff!r} {self.op} 0'


class OpaqueBool(SymBool):
    """An arbitrary but fixed truth value, identified by key"""
    def __init__(self, key): self.key = key
    def __bool__(self): return CTX.facts.decide_key(self.key)


_SIGS = {}; _FEAS = {}; FMT = {}   # FMT: the abstract numbers printed so far, by their text

def settled(x):
    """x with the atoms fixed by equalities of the current trace replaced by their values"""
    F = CTX.facts
    if F is None: return x
    m = {}
    for p, rel in F.cons:
        if rel != '==' or len(p) > 6: continue
        if m: p = subst(Num(p), m).n
        for a, mono, c in ((a, mono, c) for mono, c in p.items() for a, e in mono if e == 1 and a.func is None):
            if sum(1 for k in p for b, _ in k if b is a) != 1 or any(not b.pos for b, _ in mono if b is not a): continue
            v = n_div(Num({k: -q / c for k, q in p.items() if k != mono}), Num({tuple(t for t in mono if t[0] is not a): Fraction(1)}))
            m = {k: subst(w, {a: v}) for k, w in m.items()}; m[a] = v
            break
    return subst(x, m) if m else x


class Facts:
    """Conjunction of linear constraints  poly REL 0  (REL in '<','<=','==') plus named booleans."""
    KMAX = 4

    def __init__(self, choose):
        self.choose = choose      # choose(label, options) -> option : splits the analysis
        self.cons = []            # (poly, rel)
        self.keys = {}
        self.disj = []            # known disequalities (poly)
        self.log = []
        self._n = 0; self._sig = 0; self.floors = set()

    # normal form of the sign question: polynomial p with sign(p) == sign(x)
    def _signpoly(self, x):
        p = dict(x.n)
        if not p_isconst(x.d):
            s = self._known_sign(x.d)
            if s is None:
                s = 1 if self.decide(Num(x.d), '>') else -1
            if s < 0: p = p_scale(p, Fraction(-1))
        # strip positive monomial content
        g = m_gcd(p)
        g = tuple((a, e) for a, e in g if a.pos)
        if g: p = {m_div(m, g): c for m, c in p.items()}
        # function applications with monotone structure are left as they are
        return p

    def _known_sign(self, p):
        if p_isconst(p): return (p_cval(p) > 0) - (p_cval(p) < 0)
        if all(c > 0 for c in p.values()) and all(all(a.pos or (a.nonneg and False) or e % 2 == 0 for a, e in m) for m in p): 
            # at least one strictly positive term
            if any(all(a.pos for a, e in m) for m in p): return 1
        if all(c < 0 for c in p.values()) and all(all(a.pos or e % 2 == 0 for a, e in m) for m in p):
            if any(all(a.pos for a, e in m) for m in p): return -1
        return None

    def _implicit(self, polys):
        """positivity and integrality of the monomials involved"""
        out = []
        seen = set()
        for p in polys:
            for m in p:
                if m and m not in seen:
                    seen.add(m)
                    if all(a.pos or e % 2 == 0 for a, e in m):
                        strict = all(a.pos for a, e in m)
                        if len(m) == 1 and m[0][1] == 1 and m[0][0].integer and strict: out.append(({m: Fraction(-1), (): Fraction(1)}, '<='))
                        else: out.append(({m: Fraction(-1)}, '<' if strict else '<='))
                    elif all(a.nonneg or e % 2 == 0 for a, e in m): out.append(({m: Fraction(-1)}, '<='))
        return out

    def _tighten(self, p, rel):
        if rel == '<' and all(all(a.integer for a, _ in m) for m in p) and all(c.denominator == 1 for c in p.values()):
            return (p_add(p, {(): Fraction(1)}), '<=')
        return (p, rel)

    def feasible(self, extra):
        while self._n < len(self.cons):
            c, r = self.cons[self._n]; self._n += 1
            k = (self._sig, r, frozenset(c.items()))
            self._sig = _SIGS.setdefault(k, len(_SIGS) + 1)
        key = (self._sig, tuple((r, frozenset(p.items())) for p, r in extra))
        v = _FEAS.get(key)
        if v is None:
            if len(_FEAS) > 400000: _FEAS.clear()
            v = _FEAS[key] = self._feasible(extra)
        return v

    def _feasible(self, extra):
        cons = [self._tighten(p, r) if r != '==' else (p, r) for p, r in self.cons + extra]
        vars_ = {m for p, _ in extra for m in p if m}
        # keep only constraints connected to the question
        rel = [c for c in cons if not ({m for m in c[0] if m})]
        rest = [c for c in cons if {m for m in c[0] if m}]
        changed = True
        use = []
        while changed:
            changed = False
            for c in list(rest):
                ms = {m for m in c[0] if m}
                if ms & vars_:
                    vars_ |= ms; use.append(c); rest.remove(c); changed = True
        use += rel
        return fm_feasible(use + self._implicit([p for p, _ in use]))

    def floor(self, r):
        """Integer part, with the inequalities that define it"""
        f = app('floor', r); a = f.the_atom()
        if a is None: return f
        a.integer = True
        if a not in self.floors:
            self.floors.add(a)
            d = r.d; s = self._known_sign(d)
            if s is None: s = 1 if self.decide(Num(d), '>') else -1
            n = r.n if s > 0 else p_scale(r.n, Fraction(-1)); d = d if s > 0 else p_scale(d, Fraction(-1))
            fd = p_mul(f.n, d)
            if self.entails(p_scale(n, Fraction(-1)), '<='): self.cons.append((p_scale(f.n, Fraction(-1)), '<='))
            elif self.entails(n, '<'): self.cons.append((p_add(f.n, p_const(Fraction(1))), '<='))
            if self.entails(p_add(n, d, -1), '<') : self.cons.append((f.n, '<='))
            self.cons.append((p_add(fd, n, -1), '<='))
            self.cons.append((p_add(p_add(n, fd, -1), d, -1), '<'))
        return f

    def entails(self, p, rel):
        """is  p rel 0  implied?"""
        neg = {'<': [(p_scale(p, Fraction(-1)), '<=')], '<=': [(p_scale(p, Fraction(-1)), '<')]}
        if rel == '==':
            return not self.feasible([(p, '<')]) and not self.feasible([(p_scale(p, Fraction(-1)), '<')])
        return not self.feasible(neg[rel])

    def decide(self, x, op):
        if op == '!=': return not self.decide(x, '==')
        if op == '>': return self.decide(-x, '<')
        if op == '>=': return not self.decide(x, '<')
        if op == '<=': return not self.decide(-x, '<')
        # op is '<' or '=='
        p = self._signpoly(x)
        if p_isconst(p):
            c = p_cval(p)
            return c < 0 if op == '<' else c == 0
        s = self._known_sign(p)
        if s is not None: return s < 0 if op == '<' else False
        np_ = p_scale(p, Fraction(-1))
        if op == '<':
            if not self.feasible([(p, '<')]): return False
            if not self.feasible([(np_, '<=')]): return True
            if any(self._same(p, q) for q in self.disj) and False: pass
            r = self.choose(('lt', p_str(p)), (True, False))
            self.log.append(f'{p_str(p)} {"<" if r else ">="} 0')
            if r: self.cons.append((p, '<'))
            else:
                if any(self._same(p, q) for q in self.disj): self.cons.append((np_, '<'))
                else: self.cons.append((np_, '<='))
            return r
        lt, gt = self.feasible([(p, '<')]), self.feasible([(np_, '<')])
        if not self.feasible([(p, '==')]): return False
        if not lt and not gt: return True
        if any(self._same(p, q) for q in self.disj): return False
        r = self.choose(('eq', p_str(p)), (False, True))
        self.log.append(f'{p_str(p)} {"==" if r else "!="} 0')
        if r: self.cons.append((p, '=='))
        else:
            # remember; strengthen one-sided constraints
            self.disj.append(p)
            if not lt: self.cons.append((np_, '<'))
            elif not gt: self.cons.append((p, '<'))
        return r

    def consistent(self):
        """Do the recorded disequalities leave anything of the current partition?"""
        for p in self.disj:
            if not self.feasible([(p, '<')]) and not self.feasible([(p_scale(p, Fraction(-1)), '<')]): return False
        return True

    def _same(self, p, q):
        return p == q or p == p_scale(q, Fraction(-1))

    def decide_key(self, key):
        if key not in self.keys:
            self.keys[key] = self.choose(('key', key), (True, False))
            self.log.append(f'{key}: {self.keys[key]}')
        return self.keys[key]

    def concretise(self, x):
        """Unroll an abstract integer to each of its (k-limited) values."""
        lo = None
        for v in range(-3, self.KMAX + 1):
            if self.feasible([(p_add(x.n, p_const(Fraction(v)), -1), '==')]) if True else False:
                lo = v; break
        if lo is None: raise KLimit(f'{x!r} beyond the unrolling bound')
        for v in range(lo, self.KMAX + 1):
            if self.decide(x - v, '=='): return v
        raise KLimit(f'{x!r} beyond the unrolling bound {self.KMAX}')

    def concretise_trunc(self, x):
        for v in range(0, self.KMAX + 12):
            if self.decide(x - (v + 1), '<'):
                if v == 0 and self.decide(x + 1, '<='): raise KLimit('negative truncation')
                return v
        raise KLimit(f'int({x!r}) beyond the unrolling bound {self.KMAX + 12}')


class KLimit(Undecided):
    """Beyond the k-limit of the abstraction (this part of the space is stated as not covered)."""


def _int_row(p):
    """integer coefficients (the same constraint)"""
    l = 1
    for c in p.values():
        d = c.denominator
        if d != 1: l = l * d // math.gcd(l, d)
    return {m: (c.numerator if l == 1 else int(c * l)) for m, c in p.items()}

def fm_feasible(cons):
    """Fourier-Motzkin feasibility of a conjunction of linear constraints over monomials."""
    ids = {}
    def vid(m):
        if not m: return 0
        i = ids.get(m)
        if i is None: i = ids[m] = len(ids) + 1
        return i
    cons = [({vid(m): c for m, c in _int_row(p).items()}, r) for p, r in cons]
    def trivial(cs):
        out = []
        for p, r in cs:
            if len(p) - (0 in p) == 0:
                c = p.get(0, 0)
                if (r == '<' and not c < 0) or (r == '<=' and not c <= 0) or (r == '==' and c != 0): return None
            else: out.append((p, r))
        return out
    def comb(p, a, q, b):
        r = {}
        for m, c in p.items(): r[m] = a * c
        for m, c in q.items():
            v = r.get(m, 0) + b * c
            if v: r[m] = v
            else: r.pop(m, None)
        g = 0
        for c in r.values():
            g = math.gcd(g, c)
            if g == 1: break
        if g > 1: r = {m: c // g for m, c in r.items()}
        return r
    while True:
        cons = trivial(cons)
        if cons is None: return False
        eq = next((i for i, (p, r) in enumerate(cons) if r == '=='), None)
        if eq is None: break
        p = cons.pop(eq)[0]
        v = next(m for m in p if m); c = p[v]
        new = []
        for q, r in cons:
            k = q.get(v)
            if k:
                q = comb(q, abs(c), p, -k if c > 0 else k)
            new.append((q, r))
        cons = new
    while cons:
        seen = {}
        for p, r in cons:
            k0 = p.get(0, 0)
            items = tuple(sorted((m, c) for m, c in p.items() if m))
            g = 0
            for m, c in items: g = math.gcd(g, c)
            key = tuple((m, c // g) for m, c in items)
            o = seen.get(key)
            k = Fraction(k0, g)
            if o is None or (k, r == '<') > (o[0], o[1] == '<'): seen[key] = (k, r, p)
        cons = [(p, r) for k, r, p in seen.values()]
        if len(cons) > 400: raise Undecided('constraint system too large')
        cnt = {}
        for p, _ in cons:
            for m, c in p.items():
                if m: cnt.setdefault(m, [0, 0])[c > 0] += 1
        v = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1])
        up = []; lo = []; rest = []
        for p, r in cons:
            c = p.get(v, 0)
            (up if c > 0 else lo if c < 0 else rest).append((p, r))
        for p, r in up:
            for q, s in lo:
                rest.append((comb(p, -q[v], q, p[v]), '<' if '<' in (r, s) else '<='))
        cons = trivial(rest)
        if cons is None: return False
    return True


class _Ctx:
    """Current abstract trace (set by paths.explore)."""
    def __init__(self): self.facts = Facts(lambda l, o: o[0]); self.lazy = False
CTX = _Ctx()
