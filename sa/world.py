"""Loading of the repository's modules into an abstract world, and the effect bookkeeping of the shared (module-level) state."""
import ast, os, sys, types, builtins, importlib, collections, time
from .num import Undecided, Num, CTX
from .interp import Interp, Frame
from . import models_py

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'GPy_ABCD'

STDLIB_OK = {'abc', 'collections', 'collections.abc', 'copy', 'dataclasses', 'enum', 'functools', 'heapq', 'bisect', 'itertools', 'numbers', 'operator', 're', 'string',
             'textwrap', 'types', 'typing', 'fractions', 'typing_extensions', 'inspect', '__future__', 'contextlib', 'weakref', 'keyword', 'builtins_'}

_AST = {}

def parse(path):
    with open(path, encoding='utf-8') as f: src = f.read()
    k = (path, hash(src))
    if k not in _AST:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _AST[k] = ast.parse(src, path)
    return _AST[k]


class World:
    """config: overrides of the flags of GPy_ABCD.config"""
    def __init__(self, config=None, repo=None):
        self.repo = repo or REPO
        self.config = config or {}
        self._load()

    def _load(self):
        from . import models_lib
        self.mods = {}
        self.packages = set()
        self.warned = []
        self.files = {}
        self.interp = Interp(self)
        self.lib = models_lib.Registry(self)
        self.base_print = None
        self.mark = None

    # ---- module loading
    def path_of(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p): return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'): return p + '.py', False
        return None, False

    def owns(self, module): return module == PKG or (module or '').startswith(PKG + '.')
    def find_module(self, name): return self.mods.get(name)

    def is_package(self, name): return name in self.packages

    def import_module(self, name):
        m = self.mods.get(name)
        if m is not None: return m
        if name == PKG or name.startswith(PKG + '.'):
            if '.' in name: self.import_module(name.rsplit('.', 1)[0])
            if name in self.mods: return self.mods[name]
            path, ispkg = self.path_of(name)
            if path is None: raise ModuleNotFoundError(f"No module named '{name}'")
            m = types.ModuleType(name)
            m.__file__ = path; m.__builtins__ = None
            self.mods[name] = m
            if ispkg: self.packages.add(name)
            if os.path.exists(path):
                self.files[name] = path
                try: self.interp.exec_module(parse(path), m, os.path.relpath(path, self.repo))
                except BaseException:
                    self.mods.pop(name, None)
                    raise
            if name == PKG + '.config':
                for k, v in self.config.items(): m.__dict__[k] = v
            if '.' in name:
                par, ch = name.rsplit('.', 1)
                setattr(self.mods[par], ch, m)
            return m
        m = self.lib.get(name)
        if m is None:
            root = name.split('.')[0]
            if name in STDLIB_OK or root in STDLIB_OK: m = importlib.import_module(name)
            else: m = models_py.Lib(name)
        self.mods[name] = m
        return m

    def load_all(self, *names):
        for n in names: self.import_module(f'{PKG}.{n}' if n else PKG)
        return self

    def get(self, dotted):
        """'KernelExpressions.all:SumKE' -> object"""
        mod, _, attr = dotted.partition(':')
        o = self.import_module(f'{PKG}.{mod}' if mod else PKG)
        for a in attr.split('.') if attr else []: o = getattr(o, a)
        return o

    # ---- per-partition bookkeeping
    def begin(self):
        self.interp.steps = 0; self.interp.depth = 0
        self.interp.out.clear(); self.warned.clear()
        self.lib.begin()

    def end(self): pass

    def state(self, with_names=False):
        """Content of everything reachable from the modules' globals, function defaults and captured variables"""
        mods = {n: m for n, m in self.mods.items() if n == PKG or n.startswith(PKG + '.')}
        return Fingerprint().modules(mods)


class Fingerprint:
    """Flat content description of an object graph (identity-aware)"""
    def __init__(self): self.ids = {}; self.out = []; self.keep = []
    def modules(self, mods):
        for n in sorted(mods):
            for k in sorted(mods[n].__dict__):
                if k.startswith('__') and k.endswith('__'): continue
                v = mods[n].__dict__[k]
                if isinstance(v, types.ModuleType): continue
                self.out.append((n, k)); self.go(v)
        return self.out
    def go(self, x):
        o = self.out
        if x is None or isinstance(x, (bool, int, float, str, bytes, complex)): o.append(x); return self
        if isinstance(x, Num): o.append(repr(x)); return self
        i = id(x)
        if i in self.ids: o.append(('ref', self.ids[i])); return self
        self.ids[i] = len(self.ids); self.keep.append(x)
        if isinstance(x, (list, tuple)):
            o.append((type(x).__name__, len(x)))
            for y in x: self.go(y)
        elif isinstance(x, (set, frozenset)):
            o.append((type(x).__name__, sorted(map(repr, x))))
        elif isinstance(x, dict):
            o.append((type(x).__name__, len(x)))
            for k, v in x.items(): self.go(k); self.go(v)
            if hasattr(x, '__dict__'): self.go(x.__dict__)
        elif isinstance(x, types.FunctionType):
            o.append(('fn', x.__qualname__))
            sa = getattr(x, '__sa__', None)
            if sa is not None:
                self.go(sa[2]); self.go(sa[3])
                fr = x.__sa_frame__
                while fr is not None and fr.up is not None:
                    if fr.cls is None: self.go(fr.v)
                    fr = fr.up
        elif isinstance(x, type):
            o.append(('class', x.__qualname__))
            if (x.__module__ or '').startswith(PKG):
                for k in sorted(x.__dict__):
                    if k.startswith('__') or k == '_abc_impl': continue
                    o.append(k); self.go(x.__dict__[k])
        elif isinstance(x, (staticmethod, classmethod)): self.go(x.__func__)
        elif isinstance(x, property): o.append('property')
        elif hasattr(x, 'cache_info') and callable(x.cache_info): o.append(('lru', x.cache_info().currsize))
        elif (type(x).__module__ or '').startswith(PKG):
            o.append(('obj', type(x).__qualname__))
            d = getattr(x, '__dict__', None)
            if d is not None:
                for k in d: o.append(k); self.go(d[k])
        elif hasattr(x, '_sa_fingerprint'): o.append(x._sa_fingerprint())
        else: o.append(('opaque', type(x).__name__))
        return self
