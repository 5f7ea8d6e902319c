"""Summaries of builtins and of the parts of the standard library with effects."""
import builtins
from .num import Undecided, Num, SymBool, NumCmp, CTX, app
from fractions import Fraction
import math, types


def builtin_overrides(interp):
    def isinstance_(x, c):
        if isinstance(c, tuple): return any(isinstance_(x, k) for k in c)
        if isinstance(x, Num) and not isinstance(x, Opq):
            if c is int: return x.is_int()
            if c is float: return not x.is_int()
            if c is object: return True
            n = getattr(c, '__name__', '')
            if n in ('Number', 'Real', 'SupportsFloat', 'Complex'): return True
            if n in ('Integral',): return x.is_int()
            return False
        if isinstance(x, SymBool): return c in (bool, int, object)
        h = getattr(type(x), '_sa_isinstance', None)
        if h is not None: return h(x, c)
        if isinstance(c, (LibMember, Lib)): raise Undecided(f'isinstance of {c!r}')
        return isinstance(x, c)
    def issubclass_(x, c):
        if isinstance(c, tuple): return any(issubclass_(x, k) for k in c)
        if isinstance(c, (LibMember, Lib)) or isinstance(x, (LibMember, Lib)): raise Undecided(f'issubclass of {c!r}')
        return issubclass(x, c)
    def print_(*a, sep=' ', end='\n', file=None, flush=False):
        interp.out.append((' ' if sep is None else sep).join([str(x) for x in a]) + ('\n' if end is None else end))
    def no(name):
        def f(*a, **k): raise Undecided(f'{name}()')
        return f
    def len_(x):
        h = getattr(x, '_sa_len', None)
        return h() if h is not None else len(x)
    d = {'isinstance': isinstance_, 'issubclass': issubclass_, 'print': print_, 'len': len_}
    for n in ('open', 'input', '__import__', 'compile', 'breakpoint', 'exit', 'quit'): d[n] = no(n)
    return d


class Opq: pass


class Lib(types.ModuleType):
    """A library the analysis does not model: naming its members is fine, using them is not decided"""
    def __getattr__(self, a):
        if a.startswith('__') and a.endswith('__'): raise AttributeError(a)
        return LibMember(f'{self.__name__}.{a}')


class LibMember:
    def __init__(self, name): object.__setattr__(self, '_n', name)
    def __getattr__(self, a):
        if a.startswith('__') and a.endswith('__'): raise AttributeError(a)
        return LibMember(f'{self._n}.{a}')
    def __call__(self, *a, **k): raise Undecided(f'call of {self._n}')
    def __mro_entries__(self, bases): return (object,)
    def __deepcopy__(self, memo): return self
    def __or__(self, o): return self
    def __ror__(self, o): return self
    def __getitem__(self, k): return self
    def __repr__(self): return f'<{self._n}>'


class WarningsModel(types.ModuleType):
    def __init__(self, world):
        super().__init__('warnings')
        class catch_warnings:
            def __init__(self, *a, **k): self.record = k.get('record')
            def __enter__(self): return [] if self.record else None
            def __exit__(self, *a): return None
        self.catch_warnings = catch_warnings
        def warn(msg, *a, **k): world.warned.append(str(msg))
        self.warn = warn
        self.simplefilter = lambda *a, **k: None
        self.filterwarnings = lambda *a, **k: None
        self.resetwarnings = lambda *a, **k: None
        self.warn_explicit = lambda *a, **k: None
        self.showwarning = None


def math_model():
    m = types.ModuleType('math')
    for k, v in vars(math).items():
        if not k.startswith('__'): setattr(m, k, v)
    def wrap(name, hostf):
        def f(x, *a):
            if isinstance(x, Num): return app(name, x)
            return hostf(x, *a)
        return f
    for n in ('log', 'sqrt', 'exp', 'sin', 'cos'):
        h = getattr(math, n)
        if n == 'log':
            def f(x, base=None, h=h):
                if isinstance(x, Num) or isinstance(base, Num):
                    r = app('log', x)
                    return r if base is None else r / app('log', base)
                return app('log', Num.of(x)) if isinstance(x, int) and x > 0 and base is None else h(x) if base is None else h(x, base)
        else: f = wrap(n, h)
        setattr(m, n, f)
    m.isnan = lambda x: False if isinstance(x, Num) else math.isnan(x)
    m.isinf = lambda x: False if isinstance(x, Num) else math.isinf(x)
    m.isfinite = lambda x: True if isinstance(x, Num) else math.isfinite(x)
    m.pi = PI
    def floor(x): return x.__floordiv__(1) if isinstance(x, Num) and not x.is_int() else x if isinstance(x, Num) else math.floor(x)
    def ceil(x):
        if isinstance(x, Num):
            if x.is_int(): return x
            if x.isconst(): return math.ceil(x.const())
            return -((-x) // 1)
        return math.ceil(x)
    m.floor = floor; m.ceil = ceil
    def prod(xs, start=1):
        r = start
        for x in xs: r = r * x
        return r
    m.prod = prod
    def fsum(xs):
        r = 0
        for x in xs: r = r + x
        return r
    m.fsum = fsum
    def isclose(a, b, **k):
        if isinstance(a, Num) or isinstance(b, Num): raise Undecided('isclose')
        return math.isclose(a, b, **k)
    m.isclose = isclose
    return m


PI = Num.atom('pi', pos=True)
