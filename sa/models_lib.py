"""Library summaries: numpy (generic-element arrays), paramz/GPy (parameterised kernels, GP regression), numba, scipy, multiprocessing.

An array is summarised by its *generic element*: a Num over atoms indexed by axis (counted from the last: -1, -2), e.g. the element (i, j) of X - X2.T
is  X[-2] - X2[-1].  Dimensions are abstract positive integers.  Total sums are kept as the linear functional they are (class Tot).
"""
import types, copy as _copy, operator, pickle, re
from . import models_py
from .models_py import Lib, LibMember, WarningsModel, math_model, PI
from .num import Num, Undecided, SymBool, NumCmp, app, subst, CTX, p_atom, Atom
from .interp import is_engine_error
from .paths import choose


def modelled(ex):
    ex.__sa_modelled__ = True
    return ex


# ------------------------------------------------------------------ indexed atoms
_IX = {}

def ix(name, axes, **kw):
    """Atom for the generic element of array `name` with its axes at the given positions"""
    k = (name, tuple(axes))
    a = _IX.get(k)
    if a is None:
        a = Atom(f"{name}[{','.join({-1: 'j', -2: 'i', -3: 'h'}.get(x, str(x)) for x in axes)}]", **kw)
        a.swap = k
        _IX[k] = a
    return Num(p_atom(a))

def all_atoms(x, acc=None):
    acc = set() if acc is None else acc
    for a in x.atoms():
        if a not in acc:
            acc.add(a)
            if a.func is not None and a.arg is not None: all_atoms(a.arg, acc)
    return acc

def retag(x, f):
    """Move the axes of a generic element: f(axis) -> axis"""
    m = {}
    for a in all_atoms(x):
        if a.swap is not None and a.func is None:
            name, axes = a.swap
            new = tuple(f(t) for t in axes)
            if name.startswith('δ'): new = tuple(sorted(new))   # symmetric
            if new != axes: m[a] = ix(name, new, pos=a.pos)
    return subst(x, m) if m else x


def dim_same(a, b):
    if isinstance(a, Num) and isinstance(b, Num): return a is b or a.same(b)
    if isinstance(a, Num) or isinstance(b, Num): return False
    return a == b

def num_of(x):
    if isinstance(x, Num): return x
    if hasattr(x, '_as_num'): return x._as_num()
    return Num.of(x)


class Arr:
    _is_arr = True
    __slots__ = ('shape', 'e', 'label')
    def __init__(self, shape, e, label=None): self.shape = tuple(shape); self.e = e; self.label = label
    def __deepcopy__(self, memo): return Arr(self.shape, self.e, self.label)
    def __repr__(self): return f'<array {self.shape} {self.e!r}>'
    __hash__ = object.__hash__
    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self):
        r = Num.of(1)
        for d in self.shape: r = r * d
        return r
    @property
    def T(self):
        if self.ndim < 2: return self
        if self.ndim == 2: return Arr(self.shape[::-1], retag(self.e, lambda t: {-1: -2, -2: -1}[t]))
        raise Undecided('transpose of a 3-d array')
    def transpose(self, *a):
        if a: raise Undecided('transpose with axes')
        return self.T
    def _sa_len(self):
        if not self.shape: raise modelled(TypeError('len() of unsized object'))
        return self.shape[0]
    def __len__(self):
        n = self._sa_len()
        return n.__index__() if isinstance(n, Num) else n
    def _sa_collect(self, kind):
        if self.ndim == 1: return Collected(self, kind)
        raise Undecided(f'{kind.__name__} of an abstract array')
    def copy(self, *a): return Arr(self.shape, self.e)
    __copy__ = copy
    def astype(self, dtype=None, *a, **k): return cast(self, dtype)
    def flatten(self, *a):
        if self.ndim == 1: return self
        if self.ndim == 2 and self.shape[1] == 1 and not isinstance(self.shape[1], Num): return Arr(self.shape[:1], retag(self.e, lambda t: t + 1))
        raise Undecided('flatten')
    ravel = squeeze = flatten
    def reshape(self, *s):
        s = tuple(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
        if self.ndim == 1 and len(s) == 2 and s[1] == 1 and (s[0] == -1 or dim_same(s[0], self.shape[0])): return self[:, None]
        if self.ndim == 2 and s == (-1, 1) and self.shape[1] == 1: return self
        if self.ndim == 2 and s == (-1,): return self.flatten()
        if self.ndim == 2 and s == (-1, 1): return Arr((self.shape[0] * self.shape[1], 1), ix('reshaped', (-2,)))
        raise Undecided('reshape')
    @staticmethod
    def broadcast(a, b):
        n = max(len(a), len(b))
        a = (1,) * (n - len(a)) + tuple(a); b = (1,) * (n - len(b)) + tuple(b)
        out = []
        for x, y in zip(a, b):
            if dim_same(x, 1): out.append(y)
            elif dim_same(y, 1) or dim_same(x, y): out.append(x)
            else: raise modelled(ValueError(f'operands could not be broadcast together with shapes {a} {b}'))
        return tuple(out)
    def _bin(self, o, f, r=False):
        if isinstance(o, Arr):
            s = Arr.broadcast(self.shape, o.shape)
            return Arr(s, f(o.e, self.e) if r else f(self.e, o.e))
        if isinstance(o, Tot): raise Undecided('array combined with a total')
        q = num_of(o)
        if q is None: return NotImplemented
        return Arr(self.shape, f(q, self.e) if r else f(self.e, q))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: a / b, True)
    def __neg__(self): return Arr(self.shape, -self.e)
    def __pos__(self): return self
    def __pow__(self, k): return Arr(self.shape, self.e ** k)
    def __abs__(self): return Arr(self.shape, el_abs(self.e))
    def __matmul__(self, o): return dot(self, o)
    def __bool__(self): raise Undecided('truth value of an array')
    def __eq__(self, o): return self is o or self._cmp(o)
    def __ne__(self, o): return self._cmp(o)
    def _cmp(self, o): raise Undecided('elementwise comparison of abstract arrays')
    __lt__ = __le__ = __gt__ = __ge__ = _cmp
    def __iter__(self): raise Undecided('iteration over an abstract array')
    def dot(self, o): return dot(self, o)
    def sum(self, axis=None, **k): return np_sum(self, axis, **k)
    def mean(self, *a, **k): raise Undecided('mean of an array')
    def min(self, *a, **k): raise Undecided('min of an array')
    max = min
    def __getitem__(self, k):
        if k is Ellipsis or (isinstance(k, slice) and k == slice(None)): return self
        if isinstance(k, tuple):
            full = slice(None)
            if all(isinstance(x, slice) and x == full for x in k) and len(k) <= self.ndim: return self
            if self.ndim == 1 and len(k) == 2:
                if k[0] == full and k[1] is None: return Arr((self.shape[0], 1), retag(self.e, lambda t: t - 1))
                if k[0] is None and k[1] == full: return Arr((1, self.shape[0]), self.e)
            if self.ndim == 2 and len(k) == 2 and isinstance(k[0], slice) and k[0] == full and not isinstance(k[1], slice):
                if k[1] is None: raise Undecided('3-d array')
                if not dim_same(self.shape[1], 1) and k[1] in (0, -1): return Arr(self.shape[:1], ix(f'column {k[1]} of {self.e!r}', (-1,)))
                if dim_same(self.shape[1], 1) and k[1] in (0, -1): return Arr(self.shape[:1], retag(self.e, lambda t: t + 1))
            if self.ndim == 2 and len(k) == 2 and isinstance(k[0], slice) and k[0] == full and isinstance(k[1], slice) and dim_same(self.shape[1], 1) \
                and k[1] in (slice(0, 1), slice(None, 1), slice(0, None)): return self
        raise Undecided(f'index {k!r} of an abstract array')
    def __setitem__(self, k, v):
        full = slice(None)
        if k is Ellipsis or k == full or (isinstance(k, tuple) and len(k) <= self.ndim and all(isinstance(x, slice) and x == full for x in k)):
            if isinstance(v, Arr):
                if not all(dim_same(a, b) for a, b in zip(Arr.broadcast(self.shape, v.shape), self.shape)): raise modelled(ValueError('could not broadcast'))
                self.e = v.e
            else: self.e = num_of(v)
            return
        raise Undecided(f'assignment to index {k!r} of an abstract array')
    def fill(self, v): self[...] = v
    def tolist(self): raise Undecided('tolist of an abstract array')
    def item(self): raise Undecided('item of an abstract array')
    def _sa_fingerprint(self): return ('arr', repr(self.shape), repr(self.e))


class Collected:
    """The elements of an array as a collection, of which only the size is modelled (of a set: some number of different values)"""
    def __init__(self, arr, kind): self.arr = arr; self.kind = kind
    def _sa_len(self):
        if self.kind in (list, tuple): return self.arr.shape[0]
        n = DISTINCT.setdefault(repr(self.arr.e), Num.atom('number of different values of ' + repr(self.arr.e), integer=True, pos=True))
        CTX.facts.cons.append(((n - self.arr.shape[0]).n, '<='))
        return n
    def __len__(self):
        n = self._sa_len()
        return n.__index__() if isinstance(n, Num) else n
    def __iter__(self): raise Undecided('iteration over the elements of an abstract array')

DISTINCT = {}


class Tot:
    """The total of a generic element over all (i, j)"""
    _is_arr = False
    def __init__(self, shape, e): self.shape_ = shape; self.e = e
    shape = (); ndim = 0; size = 1
    def __deepcopy__(self, memo): return self
    def __repr__(self): return f'Σ({self.e!r})'
    __hash__ = object.__hash__
    def _lin(self, o, f):
        if isinstance(o, Tot):
            if len(o.shape_) != len(self.shape_) or not all(dim_same(a, b) for a, b in zip(o.shape_, self.shape_)): raise Undecided('totals of different shapes')
            return Tot(self.shape_, f(self.e, o.e))
        q = num_of(o)
        if q is not None and q.iszero(): return Tot(self.shape_, f(self.e, Num.of(0)))
        raise Undecided('total plus a scalar')
    def __add__(self, o): return self._lin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._lin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._lin(o, lambda a, b: b - a)
    def _sc(self, o, f):
        if isinstance(o, (Tot, Arr)): raise Undecided('product of totals')
        q = num_of(o)
        if q is None: return NotImplemented
        if any(a.swap is not None for a in all_atoms(q)): raise Undecided('scaling a total by an element')
        return Tot(self.shape_, f(self.e, q))
    def __mul__(self, o): return self._sc(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._sc(o, lambda a, b: a / b)
    def __neg__(self): return Tot(self.shape_, -self.e)
    def __pos__(self): return self
    def _scalar(self):
        """The total as one number.  dL_dK being arbitrary, a total over it that does not vanish takes every value"""
        if self.e.iszero(): return Num.of(0)
        seen = CTX.facts.__dict__.setdefault('totals', [])
        for t, q in seen:
            if len(t.shape_) == len(self.shape_) and all(dim_same(a, b) for a, b in zip(t.shape_, self.shape_)):
                if t.e.same(self.e): return q
                if t.e.same(-self.e): return -q
        if not any(a.swap is not None and a.swap[0] in ('g', 'G', 'δG') for a in all_atoms(self.e)): raise Undecided('value of a total')
        q = Num.atom(f'total{len(seen)}'); seen.append((self, q))
        return q
    def __bool__(self): return bool(self._scalar())
    def __abs__(self): return abs(self._scalar())
    def _cmp(op):
        def f(self, o):
            if isinstance(o, Arr): raise Undecided('comparison of a total with an array')
            if not isinstance(o, (int, float, Num, Tot)) and num_of(o) is None: return NotImplemented
            if isinstance(o, float) and o in (float('inf'), float('-inf')): o = Num.of(10 ** 400 if o > 0 else -10 ** 400)
            return op(self._scalar(), o._scalar() if isinstance(o, Tot) else num_of(o))
        return f
    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = map(_cmp, (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne))
    def __getitem__(self, k): return self
    def sum(self, *a): return self
    def item(self): return self
    def __float__(self): raise Undecided('float of a total')


def el_abs(e):
    if e.isconst() or not any(a.swap is not None for a in all_atoms(e)): return abs(e)
    # |c * u| with a positive scalar factor: canonical sign by the first monomial
    lead = min(e.n, key=lambda m: [(a.id, x) for a, x in m])
    dl = min(e.d, key=lambda m: [(a.id, x) for a, x in m])
    return app('abs', e if e.n[lead] / e.d[dl] > 0 else -e)

def np_sum(a, axis=None, **k):
    if k.get('keepdims'): raise Undecided('keepdims')
    if isinstance(a, (Num, Tot)): return a
    if isinstance(a, Param): return a._as_num()
    if not isinstance(a, Arr):
        if isinstance(a, (list, tuple)):
            r = Num.of(0)
            for x in a: r = r + x
            return r
        q = num_of(a)
        if q is not None: return q
        raise Undecided(f'sum of {type(a).__name__}')
    if axis is None: return Tot(a.shape, a.e)
    if axis >= 0: axis -= a.ndim
    if dim_same(a.shape[axis], 1):
        s = list(a.shape); del s[axis]
        return Arr(s, retag(a.e, lambda t: t + 1 if t < axis else t))
    raise Undecided('partial sum over a non-trivial axis')

def dot(a, b):
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        if isinstance(a, Arr) or isinstance(b, Arr): return a * b
        return num_of(a) * num_of(b)
    if a.ndim == 2 and b.ndim == 2:
        if not dim_same(a.shape[1], b.shape[0]): raise modelled(ValueError(f'shapes {a.shape} and {b.shape} not aligned'))
        if dim_same(a.shape[1], 1): return Arr((a.shape[0], b.shape[1]), a.e * b.e)
    raise Undecided('general matrix product')

def unary(name):
    def f(x, *a, **k):
        if isinstance(x, Arr): return Arr(x.shape, app(name, x.e))
        if isinstance(x, Tot): raise Undecided(f'{name} of a total')
        if isinstance(x, (list, tuple)): return [f(y) for y in x]
        q = num_of(x)
        if q is None: raise Undecided(f'{name} of {type(x).__name__}')
        return app(name, q)
    return f

def cast(y, dtype):
    """A type without the precision (or the range) of the data holds other values"""
    if dtype is None or dtype in (float, 'float', 'float64', 'd', 'f8', complex, object): return y
    n = dtype._n.split('.')[-1] if isinstance(dtype, LibMember) else getattr(dtype, '__name__', str(dtype))
    if n in ('double', 'longdouble', 'float128', 'longfloat', 'float_', 'float64', 'object_', 'object'): return y
    if isinstance(y, Num) and (y.isconst() or y.is_int() and dtype is int): return y
    if isinstance(y, (Arr, Num)):
        if n not in ('float32', 'float16', 'half', 'single', 'f4', 'f2', 'f', 'int', 'i8', 'i4', 'int64', 'int32', 'int16', 'int8', 'bool'): raise Undecided(f'array of type {n}')
        return unary(f'cast({n})')(y)
    return y

class NoneArr:
    """An array holding None (a parameter made of it is not a number)"""
    size = 1; ndim = 0; shape = ()

def asarray(x, *a, **k):
    if isinstance(x, (Arr, Num, Tot)): return x if not isinstance(x, Arr) else Arr(x.shape, x.e, x.label)
    if isinstance(x, Param): return x._as_num()
    if isinstance(x, SymBool): return x
    if x is None: return NoneArr()
    q = num_of(x) if not isinstance(x, (list, tuple, str)) else None
    if q is not None: return q
    if isinstance(x, (list, tuple)) and len(x) and all(isinstance(y, Arr) and y.ndim == 1 for y in x): return Stack(list(x), 0)
    if isinstance(x, (list, tuple)): return NpList(x)
    if isinstance(x, range): return NpList(x)
    if isinstance(x, Stack): return x
    raise Undecided(f'array of {type(x).__name__}')


class Stack:
    """A matrix of individually known vectors, one per row (axis 0) or column (axis 1)"""
    _is_arr = True
    def __init__(self, vectors, axis): self.v = vectors; self.axis = axis
    @property
    def shape(self):
        k, n = len(self.v), self.v[0].shape[0] if self.v else 0
        return (k, n) if self.axis == 0 else (n, k)
    ndim = 2
    @property
    def T(self): return Stack(self.v, 1 - self.axis)
    def transpose(self): return self.T
    def copy(self): return Stack(list(self.v), self.axis)
    def __len__(self):
        n = self.shape[0]
        return n.__index__() if isinstance(n, Num) else n
    def __iter__(self):
        if self.axis: raise Undecided('rows of a matrix of columns')
        return iter(self.v)
    def __getitem__(self, k):
        full = slice(None)
        if self.axis == 0 and isinstance(k, (int, slice)): r = self.v[k]
        elif isinstance(k, tuple) and len(k) == 2 and isinstance(k[1 - self.axis], slice) and k[1 - self.axis] == full: r = self.v[k[self.axis]]
        else: raise Undecided('part of a matrix')
        return Stack(r, self.axis) if isinstance(r, list) else r
    def __repr__(self): return f'<matrix {self.shape}>'


def concatenated(parts, axis, one=None):
    out = []
    other = [p.shape[1 - axis] for p in parts if isinstance(p, (Stack, Arr)) and p.ndim == 2]
    if any(not isinstance(x, Num) and not isinstance(y, Num) and x != y for x in other for y in other): raise modelled(ValueError('all the input array dimensions except for the concatenation axis must match exactly'))
    for p in parts:
        if isinstance(p, Stack) and p.axis == axis: out += p.v
        elif isinstance(p, Arr) and p.ndim == 2 and not isinstance(p.shape[axis], Num) and p.shape[axis] == 1: out.append(p.flatten() if axis == 1 else p.T.flatten())
        elif isinstance(p, Arr) and p.ndim == 1 and one: out.append(p)
        else: raise Undecided('concatenated arrays')
    for p in out[1:]:
        if not dim_same(p.shape[0], out[0].shape[0]): raise modelled(ValueError('all the input array dimensions except for the concatenation axis must match exactly'))
    return Stack(out, axis)


class Frame:
    """pandas.DataFrame: named columns"""
    def __init__(self, data=None, index=None, columns=None, **k):
        if index is not None or k: raise Undecided('a frame with an index')
        self.cols = {}
        if isinstance(data, dict):
            for n, v in data.items():
                v = v if isinstance(v, (Arr, list, range)) else asarray(v)
                if isinstance(v, Arr) and v.ndim != 1: raise modelled(ValueError('Per-column arrays must each be 1-dimensional'))
                self.cols[n] = v
            if columns is not None: raise Undecided('columns of a dictionary')
        else:
            if isinstance(data, Arr) and data.ndim == 2: data = concatenated([data], 1)
            if isinstance(data, (list, tuple)) and data and all(isinstance(r, (list, tuple)) for r in data):
                if len({len(r) for r in data}) > 1: raise Undecided('rows of different lengths')
                if columns is not None and len(list(columns)) != len(data[0]): raise modelled(ValueError(f'{len(list(columns))} columns passed, passed data had {len(data[0])} columns'))
                names = list(range(len(data[0]))) if columns is None else list(columns)
                self.cols = {n: Column([r[i] for r in data]) for i, n in enumerate(names)}
                return
            if not isinstance(data, Stack) or data.axis != 1: raise Undecided('a frame of other data')
            names = list(range(len(data.v))) if columns is None else list(columns)
            if len(names) != len(data.v): raise modelled(ValueError(f'Shape of passed values has {len(data.v)} columns, names imply {len(names)}'))
            if len(set(names)) != len(names): raise Undecided('columns of the same name')
            self.cols = dict(zip(names, data.v))
    @property
    def columns(self): return NpList(self.cols)
    def __getitem__(self, k):
        if isinstance(k, (list, NpList)):
            f = Frame({}); f.cols = {x: self[x] for x in k}; return f
        if k not in self.cols: raise modelled(KeyError(k))
        return self.cols[k]
    def __setitem__(self, k, v):
        idx = self._labels(False)
        if idx is not None:
            if isinstance(v, Column):
                if v.labels != idx: v = v.aligned(idx)
            elif isinstance(v, (list, tuple, range)):
                if len(v) != len(idx): raise modelled(ValueError('Length of values does not match length of index'))
                v = Column(v, idx)
            elif isinstance(v, (int, float, str, Num)): v = Column([v] * len(idx), idx)
        self.cols[k] = v
    def __contains__(self, k): return k in self.cols
    def __iter__(self): return iter(self.cols)
    def copy(self, *a, **k): f = Frame({}); f.cols = {c: Column(v, v.labels) if isinstance(v, Column) else v for c, v in self.cols.items()}; return f
    def _labels(self, need=True):
        cs = [v for v in self.cols.values()]
        if cs and all(isinstance(v, Column) and v.labels == cs[0].labels for v in cs): return list(cs[0].labels)
        if need: raise Undecided('rows of a frame of arrays')
    def _take(self, rows, relabel=False):
        f = Frame({}); self._labels()
        f.cols = {c: Column([v.at(i) for i in rows], None if relabel else [v.labels[i] for i in rows]) for c, v in self.cols.items()}
        return f
    def __len__(self): return len(self._labels())
    @property
    def index(self): return NpList(self._labels())
    @property
    def shape(self): return (len(self._labels()), len(self.cols))
    def sort_values(self, by, axis=0, ascending=True, inplace=False, kind='quicksort', na_position='last', ignore_index=False, key=None):
        if inplace or axis or key is not None: raise Undecided('sort_values')
        by = [by] if not isinstance(by, (list, tuple)) else list(by)
        if isinstance(ascending, (list, tuple)): raise Undecided('sort_values')
        for b in by:
            if b not in self.cols: raise modelled(KeyError(b))
        n = len(self)
        rows = sorted(range(n), key=lambda i: tuple(self.cols[b].at(i) for b in by) if len(by) > 1 else self.cols[by[0]].at(i), reverse=not ascending)
        return self._take(rows, ignore_index)
    def reset_index(self, level=None, drop=False, **k):
        if level is not None or k: raise Undecided('reset_index')
        f = self._take(range(len(self)), True)
        if not drop: f.cols = {'index': Column(self._labels()), **f.cols}
        return f
    def head(self, n=5): return self._take(range(len(self))[:n])
    def tail(self, n=5): return self._take(range(len(self))[-n:] if n else [])
    def drop_duplicates(self, subset=None, keep='first', inplace=False, ignore_index=False):
        if inplace or keep not in ('first', 'last'): raise Undecided('drop_duplicates')
        if self._labels(False) is None:
            # Generic data: values which occur more than once are lost
            cols = list(self.cols) if subset is None else [subset] if not isinstance(subset, (list, tuple)) else list(subset)
            if choose(f'rows of the same {cols}', ['none', 'some']) == 'none': return self.copy()
            f = Frame({})
            m = Num.atom(f'rows of different {cols}', integer=True, pos=True)
            f.cols = {c: Arr((m,), ix(f'{v!r} of different {cols}', (-1,))) for c, v in self.cols.items()}
            return f
        cols = list(self.cols) if subset is None else [subset] if not isinstance(subset, (list, tuple)) else list(subset)
        rows = range(len(self)) if keep == 'first' else range(len(self))[::-1]; kept = []
        for i in rows:
            if not any(all(bool(self.cols[c].at(i) == self.cols[c].at(j)) for c in cols) for j in kept): kept.append(i)
        return self._take(sorted(kept), ignore_index)
    @property
    def loc(self): return Located(self, False)
    @property
    def iloc(self): return Located(self, True)
    at = loc; iat = iloc
    def drop(self, labels=None, axis=0, index=None, columns=None, inplace=False, errors='raise'):
        if inplace or index is not None: raise Undecided('drop')
        cs = columns if columns is not None else labels if axis in (1, 'columns') else None
        if cs is None: raise Undecided('drop')
        cs = [cs] if not isinstance(cs, (list, tuple)) else list(cs)
        for c in cs:
            if c not in self.cols and errors == 'raise': raise modelled(KeyError(c))
        f = self.copy(); f.cols = {c: v for c, v in f.cols.items() if c not in cs}; return f
    def to_markdown(self, *a, **k): return f'<table of {list(self.cols)}>'
    to_string = to_markdown
    def assign(self, **k): f = self.copy(); f.cols.update(k); return f
    def melt(self, *a, **k): return melt(self, *a, **k)
    def __getattr__(self, a):
        if a.startswith('__') or a == 'cols': raise AttributeError(a)
        raise Undecided(f'DataFrame.{a}')
    def __repr__(self): return f'<frame of {self.cols}>'


class Long:
    """A frame melted to one row per value"""
    def __init__(self, ids, parts, var, value): self.ids = ids; self.parts = parts; self.var = var; self.value = value
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        raise Undecided(f'melted DataFrame.{a}')
    def __repr__(self): return f'<long frame of {self.parts}>'

def melt(frame, id_vars=None, value_vars=None, var_name=None, value_name='value', **k):
    if k or not isinstance(frame, Frame): raise Undecided('melt')
    ids = [] if id_vars is None else [id_vars] if not isinstance(id_vars, (list, tuple)) else list(id_vars)
    vs = [c for c in frame.cols if c not in ids] if value_vars is None else [value_vars] if not isinstance(value_vars, (list, tuple)) else list(value_vars)
    for c in ids + vs:
        if c not in frame.cols: raise modelled(KeyError(f'the columns {c!r} are not in the frame'))
    return Long({c: frame.cols[c] for c in ids}, [(c, frame.cols[c]) for c in vs], 'variable' if var_name is None else var_name, value_name)


class Aes(dict):
    def __init__(self, *a, **k):
        dict.__init__(self, zip(('x', 'y'), a)); self.update({'color' if n == 'colour' else n: v for n, v in k.items()})

class Layer:
    def __init__(self, name, *a, **k):
        self.name = name; self.mapping = None; self.data = None
        for x in a:
            if isinstance(x, Aes): self.mapping = x
            elif isinstance(x, (Frame, Long)): self.data = x
        k = dict(k)
        self.mapping = k.pop('mapping', self.mapping) or Aes(); self.data = k.pop('data', self.data)
        self.kw = {'color' if n == 'colour' else n: v for n, v in k.items()}
    def __radd__(self, o):
        if isinstance(o, list): raise Undecided('a list of layers')
        return NotImplemented

class Plot:
    """plotnine.ggplot"""
    def __init__(self, lib, data=None, mapping=None):
        if isinstance(data, Aes): data, mapping = mapping, data
        self.lib = lib; self.data = data; self.mapping = Aes(**(mapping or {})); self.layers = []
    def __add__(self, o):
        r = Plot(self.lib, self.data, self.mapping); r.layers = list(self.layers)
        if isinstance(o, (list, tuple)):
            for x in o: r = r + x
        elif isinstance(o, Layer): r.layers.append(o)
        elif isinstance(o, Aes): r.mapping.update(o)
        elif isinstance(o, (Frame, Long)): r.data = o
        else: raise Undecided('part of a plot')
        return r
    def save(self, filename=None, format=None, path='', *a, **k): self.lib.call('save', self, filename=filename, path=path, format=format)
    def draw(self, *a, **k): self.lib.call('draw', self)
    show = draw
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        raise modelled(AttributeError(f"'ggplot' object has no attribute '{a}'"))

class PlotnineModel(Lib):
    NEUTRAL = ('labs', 'xlab', 'ylab', 'ggtitle', 'theme', 'guides')
    def __getattr__(self, a):
        if a.startswith('geom_'): return lambda *x, **k: Layer(a, *x, **k)
        if a in self.NEUTRAL or a.startswith('theme_') or a.startswith('element_'): return lambda *x, **k: Layer('neutral')
        return Lib.__getattr__(self, a)


class NpList(list):
    """A short 1-d array whose elements are individually known"""
    def _b(self, o, f):
        if isinstance(o, NpList):
            if len(o) != len(self): raise modelled(ValueError('operands could not be broadcast together'))
            return NpList(f(a, b) for a, b in zip(self, o))
        return NpList(f(a, o) for a in self)
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __neg__(self): return NpList(-a for a in self)
    @property
    def size(self): return len(self)
    @property
    def shape(self): return (len(self),)
    @property
    def ndim(self): return 1
    def min(self): return min(self)
    def max(self): return max(self)
    def sum(self):
        r = 0
        for x in self: r = r + x
        return r
    def prod(self):
        r = 1
        for x in self: r = r * x
        return r
    def tolist(self): return list(self)
    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == slice(None) and k[1] is None: raise Undecided('column of a list')
        return list.__getitem__(self, k)


class Missing:
    """A missing value (NaN)"""
    def __repr__(self): return 'nan'
    def _op(self, *a): return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = __abs__ = _op
    def __lt__(self, o): return False
    __gt__ = __le__ = __ge__ = __eq__ = __lt__
    def __hash__(self): return 0
NAN = Missing()

def either(f):
    def g(a, b): return NAN if a is NAN or b is NAN else f(a, b)
    return g


class Column(NpList):
    """pandas.Series of individually known values, with its row labels"""
    def __init__(self, vals, labels=None):
        NpList.__init__(self, vals); self.labels = list(range(len(self))) if labels is None else list(labels)
    def at(self, i): return list.__getitem__(self, i)
    def aligned(self, labels):
        if len(set(self.labels)) != len(self.labels): raise Undecided('alignment of repeated labels')
        d = dict(zip(self.labels, self)); return Column([d.get(l, NAN) for l in labels], labels)
    def _b(self, o, f):
        f = either(f)
        if isinstance(o, Column):
            if o.labels != self.labels: raise Undecided('alignment of different labels')
        elif isinstance(o, (list, tuple)):
            if len(o) != len(self) and len(o) != 1: raise modelled(ValueError('operands could not be broadcast together'))
            if len(o) != len(self): o = list(o) * len(self)
        else: o = [o] * len(self)
        return Column([f(a, b) for a, b in zip(self, o)], self.labels)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a)
    def div(self, o): return self / o
    truediv = divide = div
    @property
    def values(self): return NpList(self)
    def to_numpy(self, *a, **k): return NpList(self)
    @property
    def index(self): return NpList(self.labels)
    @property
    def iloc(self): return NpList(self)
    iat = iloc
    @property
    def loc(self): return self
    def shift(self, periods=1, freq=None, axis=0, fill_value=NAN):
        if freq is not None or axis: raise Undecided('shift')
        n = len(self); return Column([self.at(i - periods) if 0 <= i - periods < n else fill_value for i in range(n)], self.labels)
    def fillna(self, v, *a, **k):
        if a or k: raise Undecided('fillna')
        return Column([v if x is NAN else x for x in self], self.labels)
    def _cum(self, f):
        out = []
        acc = NAN
        for x in self:
            if x is not NAN: acc = x if acc is NAN else f(acc, x)
            out.append(x if x is NAN else acc)
        return Column(out, self.labels)
    def cummin(self): return self._cum(min)
    def cummax(self): return self._cum(max)
    def cumsum(self): return self._cum(lambda a, b: a + b)
    def min(self): return min(x for x in self if x is not NAN)
    def max(self): return max(x for x in self if x is not NAN)
    def mean(self): return self.sum() / len(self)
    def reset_index(self, drop=False, **k):
        if not drop or k: raise Undecided('reset_index of a column')
        return Column(self)
    def copy(self, *a, **k): return Column(self, self.labels)
    def __getitem__(self, k):
        if isinstance(k, slice): return Column(list.__getitem__(self, k), self.labels[k])
        if isinstance(k, (int, str)):
            rows = [i for i, l in enumerate(self.labels) if l == k]
            if not rows: raise modelled(KeyError(k))
            if len(rows) > 1: return Column([self.at(i) for i in rows], [k] * len(rows))
            return self.at(rows[0])
        raise Undecided('selection of rows')
    def __setitem__(self, k, v):
        if not isinstance(k, (int, str)): raise Undecided('selection of rows')
        for i, l in enumerate(self.labels):
            if l == k: list.__setitem__(self, i, v)


class Located:
    """DataFrame.loc and .iloc"""
    def __init__(self, f, pos): self.f = f; self.pos = pos
    def _sel(self, k):
        k = k if isinstance(k, tuple) else (k, slice(None))
        if len(k) != 2: raise Undecided('selection of cells')
        names = list(self.f.cols); idx = self.f._labels()
        def pick(x, of, by_position):
            if isinstance(x, slice):
                if x == slice(None): return list(range(len(of))), False
                if by_position: return list(range(len(of)))[x], False
                raise Undecided('range of labels')
            if isinstance(x, (list, tuple)): return [i for y in x for i in pick(y, of, by_position)[0]], False
            if by_position:
                if not isinstance(x, int): raise Undecided('position')
                if not -len(of) <= x < len(of): raise modelled(IndexError('positional indexer is out-of-bounds'))
                return [x % len(of)], True
            if not isinstance(x, (int, str)): raise Undecided('label')
            hit = [i for i, l in enumerate(of) if l == x]
            if not hit: raise modelled(KeyError(x))
            return hit, len(hit) == 1
        rows, one_row = pick(k[0], idx, self.pos)
        cols, one_col = pick(k[1], names, self.pos)
        return rows, one_row, [names[c] for c in cols], one_col
    def __getitem__(self, k):
        rows, r1, cols, c1 = self._sel(k)
        if r1 and c1: return self.f.cols[cols[0]].at(rows[0])
        if c1: v = self.f.cols[cols[0]]; return Column([v.at(i) for i in rows], [v.labels[i] for i in rows])
        if r1: return Column([self.f.cols[c].at(rows[0]) for c in cols], cols)
        f = self.f._take(rows); f.cols = {c: f.cols[c] for c in cols}; return f
    def __setitem__(self, k, v):
        rows, r1, cols, c1 = self._sel(k)
        vs = list(v) if isinstance(v, (list, tuple)) else None
        for x, i in enumerate(rows):
            for y, c in enumerate(cols):
                if vs is None: val = v
                elif len(rows) == 1 and len(vs) == len(cols): val = vs[y]
                elif len(cols) == 1 and len(vs) == len(rows): val = vs[x]
                else: raise Undecided('assigned cells')
                list.__setitem__(self.f.cols[c], i, val)

def frames_concat(objs, axis=0, join='outer', ignore_index=False, sort=False, **k):
    objs = list(objs.values()) if isinstance(objs, dict) else [o for o in objs if o is not None]
    if not objs: raise modelled(ValueError('No objects to concatenate'))
    if axis not in (0, 'index') or k or not all(isinstance(o, Frame) for o in objs): raise Undecided('concat')
    names = list(objs[0].cols)
    if any(set(o.cols) != set(names) for o in objs): raise Undecided('concatenation of other columns')
    labels = [l for o in objs for l in o._labels()]
    f = Frame({}); f.cols = {c: Column([x for o in objs for x in o.cols[c]], None if ignore_index else labels) for c in names}
    return f


class NpModule(Lib):
    pass


class LinAlgError(Exception):
    """numpy.linalg.LinAlgError"""


def numpy_model(world):
    m = NpModule('numpy')
    d = m.__dict__
    d.update(pi=PI, inf=float('inf'), nan=float('nan'), newaxis=None, ndarray=Arr, float64=float, float_=float, int_=int, bool_=bool, number=float, integer=int, e=app('exp', 1))
    for n in ('log', 'sqrt', 'exp', 'sin', 'cos', 'tan', 'tanh', 'log10', 'log2', 'log1p', 'expm1', 'floor', 'ceil', 'cosh', 'sinh', 'arctan'): d[n] = unary(n)
    def np_abs(x, *a, **k):
        if isinstance(x, Arr): return Arr(x.shape, el_abs(x.e))
        return abs(x if isinstance(x, Tot) else num_of(x))
    d['abs'] = d['absolute'] = d['fabs'] = np_abs
    def square(x):
        x = asarray(x)
        return x * x
    d['square'] = square
    def power(x, k): return asarray(x) ** k
    d['power'] = power
    def reciprocal(x): return 1 / asarray(x)
    d['reciprocal'] = reciprocal
    d['negative'] = lambda x: -asarray(x)
    d['add'] = lambda a, b: asarray(a) + b
    d['subtract'] = lambda a, b: asarray(a) - b
    d['multiply'] = lambda a, b: asarray(a) * b
    d['divide'] = d['true_divide'] = lambda a, b: asarray(a) / b
    d['sum'] = np_sum
    d['dot'] = d['matmul'] = dot
    def outer(a, b):
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == 1 and b.ndim == 1: return dot(a[:, None], b[None, :])
        if isinstance(a, Arr) and isinstance(b, Arr): return outer(a.flatten(), b.flatten())
        raise Undecided('outer')
    d['outer'] = outer
    def transpose(a, *k): return asarray(a).T
    d['transpose'] = transpose
    def einsum(spec, *ops):
        s = spec.replace(' ', '')
        if s in ('ij,ij', 'ij,ij->'): return np_sum(ops[0] * ops[1])
        if s in ('ij->', 'ij'): return np_sum(ops[0])
        if s in ('iq,jq->ij',): return dot(ops[0], ops[1].T)
        raise Undecided(f'einsum {spec}')
    d['einsum'] = einsum
    def diag(a):
        if isinstance(a, Arr) and a.ndim == 2: return Arr(a.shape[:1], retag(a.e, lambda t: -1))
        raise Undecided('diag')
    d['diag'] = d['diagonal'] = diag
    def array(x, dtype=None, *a, **k): return cast(asarray(x), dtype)
    d['array'] = d['asarray'] = d['asanyarray'] = d['ascontiguousarray'] = d['asfarray'] = array
    d['linalg'] = Lib('numpy.linalg'); d['linalg'].__dict__['LinAlgError'] = LinAlgError
    def atleast_1d(x): return asarray(x)
    d['atleast_1d'] = atleast_1d
    def shape_of(s):
        if isinstance(s, tuple): return s
        if isinstance(s, list): return tuple(s)
        return (s,)
    def filler(v):
        def f(shape, *a, **k):
            s = shape_of(shape)
            if all(not isinstance(x, Num) and x == 1 for x in s) and len(s) <= 1: return Num.of(v) if v is not None else Arr(s, Num.atom('uninitialised'))
            return Arr(tuple(x if isinstance(x, Num) else int(x) for x in s), Num.of(v) if v is not None else Num.atom('uninitialised'))
        return f
    d['zeros'] = filler(0); d['ones'] = filler(1); d['empty'] = filler(None)
    def full(shape, v, *a, **k):
        r = d['empty'](shape)
        if isinstance(r, Arr): r[...] = v
        return r
    d['full'] = full
    d['zeros_like'] = lambda a, *k, **kk: Arr(a.shape, Num.of(0)) if isinstance(a, Arr) else Num.of(0)
    d['ones_like'] = lambda a, *k, **kk: Arr(a.shape, Num.of(1)) if isinstance(a, Arr) else Num.of(1)
    d['empty_like'] = lambda a, *k, **kk: Arr(a.shape, Num.atom('uninitialised')) if isinstance(a, Arr) else Num.atom('uninitialised')
    d['full_like'] = lambda a, v, *k, **kk: Arr(a.shape, num_of(v)) if isinstance(a, Arr) else num_of(v)
    def shape(x):
        if isinstance(x, Arr): return x.shape
        if isinstance(x, Param): return (1,)
        if isinstance(x, (Num, int, float, Tot)): return ()
        if isinstance(x, (list, tuple, range)): return (len(x),) + (shape(x[0]) if len(x) else ())
        if hasattr(x, 'shape'): return x.shape
        raise Undecided('shape')
    d['shape'] = shape
    d['ndim'] = lambda x: len(shape(x))
    def size(x):
        r = 1
        for k in shape(x): r = r * k
        return r
    d['size'] = size
    def any_(x, *a, **k):
        if isinstance(x, (list, tuple)): return any(bool(y) for y in x)
        if isinstance(x, Param): return bool(x._as_num())
        return bool(x)
    def all_(x, *a, **k):
        if isinstance(x, (list, tuple)): return all(bool(y) for y in x)
        if isinstance(x, Param): return bool(x._as_num())
        return bool(x)
    d['any'] = any_; d['all'] = all_
    def np_round(x, decimals=0, *a, **k):
        if isinstance(x, Param): x = x._as_num()
        if isinstance(x, Num): return x if x.is_int() else x.__round__(decimals)
        if isinstance(x, (int, float)): return round(x, decimals)
        raise Undecided('rounding of arrays')
    d['round'] = d['around'] = d['round_'] = np_round
    d['isnan'] = lambda x: False
    d['isinf'] = lambda x: False
    d['isfinite'] = lambda x: True
    d['nan_to_num'] = lambda x, *a, **k: x
    def maximum(a, b):
        if isinstance(a, Arr) or isinstance(b, Arr): raise Undecided('maximum of arrays')
        a, b = num_of(a), num_of(b)
        return a if a >= b else b
    def minimum(a, b):
        if isinstance(a, Arr) or isinstance(b, Arr): raise Undecided('minimum of arrays')
        a, b = num_of(a), num_of(b)
        return a if a <= b else b
    d['maximum'] = maximum; d['minimum'] = minimum
    def reduce_list(pick):
        def f(xs, *a, **k):
            if isinstance(xs, Arr): raise Undecided('extremum of an array')
            return pick(list(xs))
        return f
    d['max'] = d['amax'] = reduce_list(max); d['min'] = d['amin'] = reduce_list(min)
    def prod(xs, *a, **k):
        r = 1
        for x in list(xs): r = r * x
        return r
    d['prod'] = d['product'] = prod
    def mean(xs, *a, **k):
        if isinstance(xs, Arr) or a or k: raise Undecided('mean of an array')
        xs = list(xs); t = Num.of(0)
        for x in xs: t = t + x
        return t / len(xs)
    d['mean'] = d['nanmean'] = mean
    def median(xs, *a, **k):
        if isinstance(xs, Arr) or a or k: raise Undecided('median of an array')
        xs = sorted(xs)
        return xs[len(xs) // 2] if len(xs) % 2 else (xs[len(xs) // 2 - 1] + xs[len(xs) // 2]) / 2
    d['median'] = median
    def where(c, *ab):
        if isinstance(c, Arr) or not ab: raise Undecided('where')
        return ab[0] if c else ab[1]
    d['where'] = where
    def vectorize(f=None, *a, otypes=None, **k):
        """Without given types, all values take the type of the first element's (values with a fractional part are truncated to an integer type)"""
        if a: otypes = a[0]
        def g(x, *r):
            if not isinstance(x, Arr): return f(x, *r)
            if any(isinstance(y, Arr) for y in r): raise Undecided('vectorize over several arrays')
            e = num_of(f(x.e, *r))
            if e is None: raise Undecided('vectorize of a function which does not give numbers')
            h = world.lib.hooks.get('integral')
            if otypes is None and h is not None:
                first = num_of(f(Num.atom('first element of ' + repr(x.e)), *r))
                if h(first) and not h(e): e = app('trunc', e)
            return Arr(x.shape, e)
        return g
    d['vectorize'] = vectorize
    def unique(x, *a, **k):
        if a or k or not isinstance(x, Arr): raise Undecided('numpy.unique')
        n = Collected(x, set)._sa_len()
        return Arr((n,), ix('sorted different values of ' + repr(x.e), (-1,)))
    d['unique'] = unique
    def linspace(a, b, num=50, *x, **k):
        if x or k: raise Undecided('linspace with options')
        a, b = num_of(a), num_of(b)
        return Arr((num if isinstance(num, Num) else int(num),), a + (b - a) * ix(f'step of {num!r}', (-1,)))
    d['linspace'] = linspace
    def concatenate(parts, axis=0, *a, **k): return concatenated(list(parts), axis % 2)
    d['concatenate'] = concatenate
    d['hstack'] = lambda parts, **k: concatenated(list(parts), 1)
    d['vstack'] = lambda parts, **k: concatenated(list(parts), 0, True)
    d['column_stack'] = lambda parts, **k: concatenated(list(parts), 1, True)
    d['stack'] = lambda parts, axis=0, **k: Stack(list(parts), axis % 2) if all(isinstance(p, Arr) and p.ndim == 1 for p in parts) else LibMember('numpy.stack')()
    rnd = types.ModuleType('numpy.random')
    def noise(shape):
        shape = tuple(shape)
        world.lib.call('noise', None, shape=shape)
        return Arr(shape, ix('noise', tuple(range(-len(shape), 0)) if len(shape) != 2 or not dim_same(shape[1], 1) else (-2,))) if shape else Num.atom('noise')
    rnd.randn = lambda *s: noise(s)
    rnd.standard_normal = lambda size=None: noise(() if size is None else size if isinstance(size, (tuple, list)) else (size,))
    rnd.normal = lambda loc=0., scale=1., size=None: rnd.standard_normal(size) * scale + loc
    def mvn(mean, cov, size=None, *a, **k):
        if not isinstance(cov, Arr) or cov.ndim != 2: raise Undecided('covariance of samples')
        n = shape(mean)[0]
        if not (dim_same(cov.shape[0], n) and dim_same(cov.shape[1], n)): raise modelled(ValueError('mean and cov must have same length'))
        if size is not None and not isinstance(size, int): raise Undecided('shape of samples')
        made = [Arr((n,), ix(f'sample{len(world.lib.calls)}.{i}', (-1,))) for i in range(1 if size is None else size)]
        world.lib.call('multivariate_normal', None, mean=mean, cov=cov, samples=made)
        return made[0] if size is None else Stack(made, 0)
    rnd.multivariate_normal = mvn
    rnd.seed = lambda *a: None
    d['random'] = rnd
    def subtract_outer(a, b): return asarray(a)[:, None] - asarray(b)[None, :]
    class errstate:
        def __init__(self, *a, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): return None
    d['errstate'] = errstate
    d['seterr'] = lambda *a, **k: {}
    d['isscalar'] = lambda x: isinstance(x, (Num, int, float))
    def column_stack(xs):
        if len(xs) == 1 and isinstance(xs[0], Arr): return xs[0] if xs[0].ndim == 2 else xs[0][:, None]
        raise Undecided('column_stack')
    d['column_stack'] = column_stack
    def expand_dims(a, axis):
        if isinstance(a, Arr) and a.ndim == 1: return a[:, None] if axis in (1, -1) else a[None, :]
        raise Undecided('expand_dims')
    d['expand_dims'] = expand_dims
    def reshape(a, *s): return asarray(a).reshape(*s)
    d['reshape'] = reshape
    return m


# ------------------------------------------------------------------ paramz / GPy
class HierarchyError(Exception):
    __sa_modelled__ = True

class Logexp: positive = True
class Logistic:
    positive = False
    def __init__(self, lower=None, upper=None): self.lower = lower; self.upper = upper

_digit = re.compile(r'(?P<name>.*)_(?P<digit>\d+)$')

def adjust(name):
    if name is None: return ''
    n = name
    name = name.replace(' ', '_').replace('.', '_').replace('-', '_m_').replace('+', '_p_').replace('!', '_I_').replace('**', '_xx_').replace('*', '_x_')
    name = name.replace('/', '_l_').replace('@', '_at_').replace('(', '_of_').replace(')', '')
    if re.match(r'^[a-zA-Z_][a-zA-Z0-9-_]*$', name) is None: raise modelled(NameError(f'name {n} cannot be converted to a valid variable name'))
    return name


class Named:
    def has_parent(self): return self.__dict__.get('_parent_') is not None
    @property
    def name(self): return self.__dict__['_name']
    @name.setter
    def name(self, n):
        old = self.__dict__['_name']
        self.__dict__['_name'] = n
        if self.has_parent(): self._parent_._name_changed(self, old)
    def hierarchy_name(self, adjust_for_printing=True):
        a = adjust if adjust_for_printing else (lambda x: x)
        return self._parent_.hierarchy_name() + '.' + a(self.name) if self.has_parent() else a(self.name)
    def copy(self, memo=None):
        memo = {} if memo is None else memo
        p = self.__dict__.get('_parent_')
        while p is not None:
            memo[id(p)] = None; p = p.__dict__.get('_parent_')
        r = _copy.deepcopy(self, memo)
        r.__dict__['_parent_'] = None
        return r


class Param(Named):
    _sa_gpy = True
    def __init__(self, name, input_array, default_constraint=None, *a, **k):
        d = self.__dict__
        d['_name'] = name; d['_parent_'] = None; d['constraint'] = default_constraint
        d['value'] = self.coerce(input_array); d['gradient'] = Num.of(0)
    @staticmethod
    def coerce(v):
        if isinstance(v, NpList): v = v[0] if len(v) == 1 else v
        if isinstance(v, (list, tuple)):
            if len(v) == 1: v = v[0]
        if isinstance(v, NoneArr): return Num.atom('not a number')
        q = num_of(v)
        if q is None: raise Undecided('parameter value')
        return q
    @property
    def positive(self): return getattr(self.constraint, 'positive', False)
    def _as_num(self): return self.value
    def set_value(self, v):
        self.__dict__['value'] = self.coerce(v)
        p = self._parent_
        while p is not None:
            if p.__dict__.get('_connected'): p.parameters_changed()
            p = p._parent_
    def __deepcopy__(self, memo):
        r = Param.__new__(type(self)); memo[id(self)] = r
        r.__dict__.update(self.__dict__)
        pid = id(self._parent_)
        r.__dict__['_parent_'] = _copy.deepcopy(self._parent_, memo) if self._parent_ is not None else None
        return r
    def __copy__(self): return self.copy()
    size = 1; ndim = 1; shape = (1,)
    @property
    def values(self): return self.value
    @property
    def param_array(self): return NpList([self.value])
    @property
    def T(self): return self
    def item(self): return self.value
    def tolist(self): return [self.value]
    def sum(self, *a): return self.value
    def __len__(self): return 1
    def __iter__(self): return iter([self.value])
    def __getitem__(self, k):
        if isinstance(k, Num): k = k.__index__()
        if k in (0, -1): return self.value
        if k is Ellipsis or k == slice(None): return self
        if isinstance(k, int): raise modelled(IndexError(f'index {k} is out of bounds for axis 0 with size 1'))
        raise Undecided('parameter index')
    def __setitem__(self, k, v): self.set_value(v)
    def _b(self, o, f): return f(self.value, o.value if isinstance(o, Param) else o)
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a)
    def __pow__(self, k): return self.value ** k
    def __neg__(self): return -self.value
    def __abs__(self): return abs(self.value)
    def __lt__(self, o): return self._b(o, lambda a, b: a < b)
    def __le__(self, o): return self._b(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b)
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b)
    def __eq__(self, o): return True if self is o else self._b(o, lambda a, b: a == b)
    def __ne__(self, o): return False if self is o else self._b(o, lambda a, b: a != b)
    __hash__ = object.__hash__
    def __bool__(self): return bool(self.value)
    def __float__(self): return self.value
    def __format__(self, s): return format(self.value, s)
    def parameter_names(self, add_self=False, adjust_for_printing=False, recursive=True, **k): return [adjust(self.name) if adjust_for_printing else self.name]
    @property
    def flattened_parameters(self): return [self]
    def constrain_fixed(self, *a, **k): raise Undecided('constraints')
    fix = unfix = constrain = constrain_bounded = constrain_positive = unconstrain = constrain_fixed
    def _sa_fingerprint(self): return ('param', self.name, repr(self.value))
    def __repr__(self): return f'<Param {self.name}={self.value!r}>'


class Recursion(Undecided): pass


class ParamMeta(type):
    def __call__(cls, *a, **k):
        self = super().__call__(*a, **k)
        self.__dict__['_in_init_'] = False
        root = self
        while root._parent_ is not None: root = root._parent_
        root._connect_parameters()
        self.parameters_changed()
        return self


GPY_KERN_ATTRS = frozenset('''_check_exact_psicomp _check_input_dim _description_str _fixes_ _highest_parent_ _offset_for _project_dim _set_fixed _slice_X _transform_gradients
_trigger_params_changed add_observer build_pydot checkgrad constrain constrain_bounded constrain_fixed constrain_negative constrain_positive disable_caching enable_caching fix from_dict
get_most_significant_input_dimensions get_property_string gradients_X gradients_XX gradients_XX_diag gradients_X_X2 gradients_X_diag gradients_Z_expectations gradients_qX_expectations
grep_param_names initialize_parameter input_sensitivity is_fixed log_prior notify_observers optimizer_array pickle plot plot_ARD plot_covariance psi0 psi1 psi2 psi2n randomize
remove_observer reset_gradients save sde set_prior set_updates to_dict toggle_update traverse traverse_parents trigger_update unconstrain unfix unfixed_param_array unset_priors
update_gradients_expectations update_model update_toggle _save_to_input_dict psicomp'''.split())


class Parameterized(Named, metaclass=ParamMeta):
    _sa_gpy = True
    def __init__(self, name=None, parameters=(), *a, **k):
        d = self.__dict__
        d['_name'] = name or type(self).__name__; d['_parent_'] = None; d['parameters'] = []; d['_added'] = set(); d['_in_init_'] = True; d['_connected'] = False
        self.link_parameters(*parameters)
    def parameters_changed(self): pass
    def __getattr__(self, a):
        if a in GPY_KERN_ATTRS: raise Undecided(f'unmodelled kernel attribute {a}')
        raise modelled(AttributeError(f"'{type(self).__name__}' object has no attribute '{a}'"))
    def __setattr__(self, n, v):
        ps = self.__dict__.get('parameters')
        if ps is not None:
            for p in ps:
                if adjust(p.name) == n:
                    if isinstance(p, Param): p.set_value(v)
                    else: raise Undecided('assignment to a linked kernel')
                    return
        object.__setattr__(self, n, v)
    def link_parameter(self, param, index=None):
        if not isinstance(param, (Param, Parameterized)): raise modelled(AttributeError(f"'{type(param).__name__}' object has no attribute 'has_parent'"))
        if any(p is param for p in self.parameters):
            if index is not None: raise Undecided('relinking')
            raise modelled(HierarchyError('Parameter exists already, try making a copy'))
        if param.has_parent(): param._parent_.unlink_parameter(param)
        param.__dict__['_parent_'] = self
        if index is None: self.parameters.append(param)
        else: self.parameters.insert(index, param)
        root = self
        while root._parent_ is not None: root = root._parent_
        if not self.__dict__['_in_init_'] and root.__dict__['_connected']: root._connect_parameters()
        return param
    def link_parameters(self, *ps):
        for p in ps: self.link_parameter(p)
    def unlink_parameter(self, param):
        i = next((i for i, p in enumerate(self.parameters) if p is param), None)
        if i is None: raise modelled(HierarchyError(f'{param} does not belong to this object {self.name}'))
        del self.parameters[i]
        self._remove_name(adjust(param.name))
        param.__dict__['_parent_'] = None
        root = self
        while root._parent_ is not None: root = root._parent_
        root._connect_parameters()
    def _connect_parameters(self):
        self.__dict__['_connected'] = True
        for p in list(self.parameters): 
            if isinstance(p, Parameterized) and not p.__dict__['_connected']: p._connect_parameters()
            self._add_parameter_name(p)
    def _remove_name(self, pname):
        if pname in self._added:
            self.__dict__.pop(pname, None); self._added.discard(pname)
        self._connect_parameters()
    def _name_changed(self, param, old):
        self._remove_name(adjust(old)); self._add_parameter_name(param)
    def _add_parameter_name(self, param):
        pname = adjust(param.name)
        for other in self.parameters:
            if other is not param and other.name == param.name:
                mt = _digit.match(other.name)
                other.name = other.name + '_1' if mt is None else mt.group('name') + '_' + str(int(mt.group('digit')) + 1)
                self._add_parameter_name(other)
                return
        if pname not in self.__dict__ and not any(pname in c.__dict__ for c in type(self).__mro__):
            self.__dict__[pname] = param; self._added.add(pname)
    def __deepcopy__(self, memo):
        r = type(self).__new__(type(self)); memo[id(self)] = r
        for k, v in self.__dict__.items(): r.__dict__[k] = _copy.deepcopy(v, memo)
        return r
    def copy(self, memo=None):
        r = Named.copy(self, memo)
        r._connect_parameters()
        r._trigger()
        return r
    def _trigger(self):
        for p in self.parameters:
            if isinstance(p, Parameterized): p._trigger()
        self.parameters_changed()
    def parameter_names(self, add_self=False, adjust_for_printing=False, recursive=True, intermediate=False):
        a = adjust if adjust_for_printing else (lambda x: x)
        names = []
        if intermediate or not recursive: names += [a(x.name) for x in self.parameters]
        if intermediate or recursive: names += [n for x in self.parameters for n in x.parameter_names(add_self=True, adjust_for_printing=adjust_for_printing)]
        return [a(self.name) + '.' + n for n in names] if add_self else names
    @property
    def flattened_parameters(self): return [x for p in self.parameters for x in p.flattened_parameters]
    def parameter_names_flat(self, include_fixed=False): return [p.hierarchy_name() for p in self.flattened_parameters]
    @property
    def param_array(self): return NpList([p.value for p in self.flattened_parameters])
    @property
    def size(self): return len(self.flattened_parameters)
    @property
    def gradient(self): return NpList([p.gradient for p in self.flattened_parameters])
    def num_params(self): return len(self.parameters)
    def _size_transformed(self): return len(self.flattened_parameters)
    def randomize(self, *a, **k):
        self.assign_fresh('rand')
    def assign_fresh(self, tag):
        """Arbitrary admissible parameter values"""
        for p in self.flattened_parameters:
            p.__dict__['value'] = Num.atom(f'{tag}:{p.hierarchy_name()}', pos=p.positive)
        self._trigger()
    def __getitem__(self, n): raise Undecided('kernel indexing')
    def __str__(self): return self.__dict__.get('_text_') or f'<kernel {self.name}>'
    def __hash__(self): return object.__hash__(self)
    def __repr__(self): return f'<kernel {type(self).__name__} {self.name}>'


class Kern(Parameterized):
    def __init__(self, input_dim, active_dims=None, name=None, useGPU=False, *a, **k):
        Parameterized.__init__(self, name)
        self.input_dim = int(input_dim) if not isinstance(input_dim, Num) else input_dim
        self.active_dims = active_dims; self.useGPU = useGPU
    def __add__(self, o): return self.add(o)
    def __iadd__(self, o): return self.add(o)
    def __mul__(self, o): return self.prod(o)
    def __imul__(self, o): return self.prod(o)
    def add(self, other, name='sum'):
        if not isinstance(other, Kern): raise modelled(AssertionError('only kernels can be added to kernels...'))
        return Add([self, other], name=name)
    def prod(self, other, name='mul'):
        if not isinstance(other, Kern): raise modelled(AssertionError('only kernels can be multiplied to kernels...'))
        return Prod([self, other], name)
    def K(self, X, X2=None): raise modelled(NotImplementedError())
    def Kdiag(self, X): raise modelled(NotImplementedError())
    def update_gradients_full(self, dL_dK, X, X2=None): raise modelled(NotImplementedError())
    def update_gradients_diag(self, dL_dKdiag, X): raise modelled(NotImplementedError())


class CombinationKernel(Kern):
    def __init__(self, kernels, name, extra_dims=(), link_parameters=True):
        if not all(isinstance(k, Kern) for k in kernels): raise modelled(AssertionError())
        Kern.__init__(self, 1, None, name)
        if link_parameters: self.link_parameters(*kernels)
    @property
    def parts(self): return self.parameters


def flat_parts(kernels, cls):
    out = []
    for k in kernels:
        if isinstance(k, cls): out += [p.copy() for p in k.parts]
        else: out.append(k.copy())
    return out


class Add(CombinationKernel):
    def __init__(self, subkerns, name='sum'): CombinationKernel.__init__(self, flat_parts(subkerns, Add), name)
    def K(self, X, X2=None, which_parts=None):
        r = None
        for p in self.parts: r = p.K(X, X2) if r is None else r + p.K(X, X2)
        return r
    def Kdiag(self, X, which_parts=None):
        r = None
        for p in self.parts: r = p.Kdiag(X) if r is None else r + p.Kdiag(X)
        return r
    def update_gradients_full(self, dL_dK, X, X2=None):
        for p in self.parts: p.update_gradients_full(dL_dK, X, X2)


class Prod(CombinationKernel):
    def __init__(self, kernels, name='mul'): CombinationKernel.__init__(self, flat_parts(kernels, Prod), name)
    def K(self, X, X2=None, which_parts=None):
        r = None
        for p in self.parts: r = p.K(X, X2) if r is None else r * p.K(X, X2)
        return r
    def Kdiag(self, X, which_parts=None):
        r = None
        for p in self.parts: r = p.Kdiag(X) if r is None else r * p.Kdiag(X)
        return r
    def update_gradients_full(self, dL_dK, X, X2=None): raise Undecided('gradients of a library product kernel')


def _rows(X): return X.shape[0]

class Static(Kern):
    def __init__(self, input_dim, variance, active_dims, name):
        Kern.__init__(self, input_dim, active_dims, name)
        self.variance = Param('variance', variance, Logexp()); self.link_parameters(self.variance)
    def Kdiag(self, X): return Arr((X.shape[0],), self.variance.value)
class White(Static):
    def __init__(self, input_dim, variance=1., active_dims=None, name='white'): Static.__init__(self, input_dim, variance, active_dims, name)
    def K(self, X, X2=None):
        if X2 is None: return Arr((X.shape[0], X.shape[0]), self.variance.value * ix('δ', (-2, -1)))
        return Arr((X.shape[0], X2.shape[0]), Num.of(0))
class Bias(Static):
    def __init__(self, input_dim, variance=1., active_dims=None, name='bias'): Static.__init__(self, input_dim, variance, active_dims, name)
    def K(self, X, X2=None): return Arr((X.shape[0], (X if X2 is None else X2).shape[0]), self.variance.value)
class RBF(Kern):
    def __init__(self, input_dim, variance=1., lengthscale=None, ARD=False, active_dims=None, name='rbf', **k):
        Kern.__init__(self, input_dim, active_dims, name)
        self.variance = Param('variance', variance, Logexp()); self.lengthscale = Param('lengthscale', 1. if lengthscale is None else lengthscale, Logexp())
        self.link_parameters(self.variance, self.lengthscale)
    def K(self, X, X2=None):
        X2 = X if X2 is None else X2
        r = X - X2.T
        return self.variance * unary('exp')(r * r * Num.of(-0.5) / (self.lengthscale.value * self.lengthscale.value))
    def Kdiag(self, X): return Arr((X.shape[0],), self.variance.value)
class StdPeriodic(Kern):
    def __init__(self, input_dim, variance=1., period=None, lengthscale=None, ARD1=False, ARD2=False, active_dims=None, name='std_periodic', **k):
        Kern.__init__(self, input_dim, active_dims, name)
        self.variance = Param('variance', variance, Logexp()); self.period = Param('period', 1. if period is None else period, Logexp())
        self.lengthscale = Param('lengthscale', 1. if lengthscale is None else lengthscale, Logexp())
        self.link_parameters(self.variance, self.period, self.lengthscale)
    def K(self, X, X2=None): raise Undecided('K of the standard periodic kernel')
    def Kdiag(self, X): return Arr((X.shape[0],), self.variance.value)
class LibLinear(Kern):
    def __init__(self, input_dim, variances=None, ARD=False, active_dims=None, name='linear'):
        Kern.__init__(self, input_dim, active_dims, name)
        self.variances = Param('variances', 1. if variances is None else variances, Logexp()); self.link_parameter(self.variances)


class BasisFuncKernel(Kern):
    def __init__(self, input_dim, variance=1., active_dims=None, ARD=False, name='basis func kernel'):
        Kern.__init__(self, input_dim, active_dims, name)
        self.ARD = ARD
        if ARD: raise Undecided('ARD basis function kernel')
        self.variance = Param('variance', variance, Logexp()); self.link_parameter(self.variance)
    def parameters_changed(self):
        self.alpha = app('sqrt', self.variance.value); self.beta = 1 / self.variance.value
    def phi(self, X): return self._phi(X)
    def _phi(self, X): raise modelled(NotImplementedError())
    def K(self, X, X2=None): return self._K(X, X2)
    def _K(self, X, X2=None):
        if X2 is None or X is X2:
            p = self.phi(X) * self.alpha
            if p.ndim != 2: p = p[:, None]
            return p.dot(p.T)
        a, b = self.phi(X) * self.alpha, self.phi(X2) * self.alpha
        if a.ndim != 2: a, b = a[:, None], b[:, None]
        return a.dot(b.T)
    def Kdiag(self, X, X2=None):
        k = self._K(X, X2)
        return Arr(k.shape[:1], retag(k.e, lambda t: -1))
    def update_gradients_full(self, dL_dK, X, X2=None): self.variance.gradient = np_sum(dL_dK * self._K(X, X2)) * self.beta
    def update_gradients_diag(self, dL_dKdiag, X): self.variance.gradient = np_sum(dL_dKdiag * self.Kdiag(X)) * self.beta


class GPRegression(Parameterized):
    """GP regression: the optimiser's outcome is an arbitrary admissible parameter vector"""
    LIB = None
    def __init__(self, X, Y, kernel=None, Y_metadata=None, normalizer=None, noise_var=1., mean_function=None):
        Parameterized.__init__(self, 'GP regression')
        lib = type(self).LIB
        n = lib.count('model')
        self.X = X; self.Y = Y; self.num_data = X.shape[0] if hasattr(X, 'shape') else None
        self.model_id = n
        kernel = kernel if kernel is not None else RBF(1)
        self.kern = kernel; self.link_parameter(kernel)
        self.noise = Param('variance', noise_var, Logexp()); 
        lik = Parameterized('Gaussian_noise'); lik.link_parameter(self.noise)
        self.likelihood = lik; self.link_parameter(lik)
        lib.call('GPRegression', self, X=X, Y=Y, kernel=kernel, normalizer=normalizer, mean_function=mean_function)
    def optimize_restarts(self, num_restarts=10, robust=False, verbose=True, parallel=False, num_processes=None, **kw):
        type(self).LIB.call('optimize_restarts', self, num_restarts=num_restarts, robust=robust, verbose=verbose, parallel=parallel, kw=kw)
        self.assign_fresh(f'fit{self.model_id}')
    def optimize(self, optimizer=None, start=None, messages=False, max_iters=1000, ipython_notebook=True, clear_after_finish=False, **kw):
        type(self).LIB.call('optimize', self, optimizer=optimizer, kw=kw)
        self.assign_fresh(f'fit{self.model_id}')
    def log_likelihood(self): return type(self).LIB.loglik(self)
    def _size_transformed(self):
        h = type(self).LIB.hooks.get('size')
        return h(self) if h is not None else Parameterized._size_transformed(self)
    @property
    def optimizer_array(self): raise Undecided('free parameters as an array')
    param_array_free = optimizer_array
    @property
    def inference_method(self): return Inference(self)
    @property
    def posterior(self): return getter(self, 'posterior')
    def predict(self, Xnew, full_cov=False, Y_metadata=None, kern=None, likelihood=None, include_likelihood=True):
        type(self).LIB.call('predict', self, Xnew=Xnew, full_cov=full_cov, Y_metadata=Y_metadata, kern=kern, likelihood=likelihood, include_likelihood=include_likelihood)
        return (Token('mean', self), Token('covariance', self))
    def predict_quantiles(self, X, quantiles=(2.5, 97.5), Y_metadata=None, kern=None, likelihood=None):
        type(self).LIB.call('predict_quantiles', self, X=X, quantiles=quantiles, Y_metadata=Y_metadata, kern=kern, likelihood=likelihood)
        return [Token(('quantile', i), self) for i in range(len(quantiles))]
    def plot(self, *a, **k):
        type(self).LIB.call('plot', self, args=a, kw=k)
        return PlotTok(self)


def getter(m, what):
    """The same token for each request"""
    d = m.__dict__.setdefault('_tokens_', {})
    if what not in d: d[what] = Token(what, m)
    return d[what]

class Inference:
    def __init__(self, m): self.m = m
    def LOO(self, kern, X, Y, likelihood, posterior, *a, **k):
        type(self.m).LIB.call('LOO', self.m, kern=kern, X=X, Y=Y, likelihood=likelihood, posterior=posterior, more=(a, k))
        return NpList([Num.atom(f'loo{i}') for i in range(3)])


class Token:
    """A value the analysis never looks into"""
    def __init__(self, what, of=None): self.what = what; self.of = of
    def __repr__(self): return f'<{self.what}>'
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def _sa_fingerprint(self): return ('token', str(self.what))


class PlotTok(Token):
    """What plotting gives: a tuple starting with the figure (plotly)"""
    def __init__(self, m): Token.__init__(self, 'plot', m)
    def __getitem__(self, i): return Figure(self.of, i)

class Figure(Token):
    def __init__(self, m, i): Token.__init__(self, ('plot', i), m)
    def show(self, *a, **k): type(self.of).LIB.call('show', self.of, part=self.what[1])


class PSICOMP_Linear:
    def __getattr__(self, a): raise Undecided('psi statistics')
    def __deepcopy__(self, memo): return self


# ------------------------------------------------------------------ multiprocessing
def unpicklable(x, world, seen=None, path='it'):
    """Why x cannot travel to another process (pickling refuses it for certain), or None.  Code of the package only: library objects can."""
    seen = seen if seen is not None else {}
    if x is None or isinstance(x, (bool, int, float, str, bytes, complex, Num)) or id(x) in seen: return None
    seen[id(x)] = x
    if isinstance(x, types.GeneratorType): return f'{path} is a generator'
    if isinstance(x, (list, tuple, set, frozenset)):
        for y in x:
            r = unpicklable(y, world, seen, f'an element of {path}')
            if r: return r
        if not isinstance(x, (set, frozenset)): return None
    elif isinstance(x, dict):
        df = getattr(x, 'default_factory', None)
        if df is not None:
            r = unpicklable(df, world, seen, f'the default_factory of {path}')
            if r: return r
        for k, v in list(x.items()):
            r = unpicklable(k, world, seen, f'a key of {path}') or unpicklable(v, world, seen, f'the value of {str(k)[:20]} in {path}')
            if r: return r
        return None
    elif isinstance(x, types.MethodType): return unpicklable(x.__self__, world, seen, f'the object of {path}')
    elif type(x).__name__ == 'partial' and hasattr(x, 'keywords'):
        for y in (x.func, x.args, x.keywords):
            r = unpicklable(y, world, seen, f'a part of {path}')
            if r: return r
        return None
    elif isinstance(x, types.FunctionType) or (isinstance(x, type) and world.owns(x.__module__)):
        # functions and classes travel by name: they have to be what their module knows by that name
        if isinstance(x, types.FunctionType) and getattr(x, '__sa__', None) is None: return None
        m = world.find_module(x.__module__)
        if m is None: return None
        o = m
        for part in x.__qualname__.split('.'):
            o = getattr(o, part, None) if part != '<locals>' else None
            if o is None: return f'{path} is {x.__qualname__}, which is not at the top level of {x.__module__}'
        if getattr(o, '__func__', o) is not x: return f'{path} is {x.__qualname__}, but that is another object in {x.__module__}'
        return None
    t = type(x)
    if not world.owns(t.__module__): return None
    if any(n in c.__dict__ for c in t.__mro__ if world.owns(c.__module__) for n in ('__getstate__', '__reduce__', '__reduce_ex__', '__getnewargs__', '__getnewargs_ex__')): return None
    r = unpicklable(t, world, seen, f'the class of {path}')
    if r: return r
    for k, v in list(getattr(x, '__dict__', {}).items()):
        if isinstance(v, tuple) and k.startswith('_sa'): continue
        r = unpicklable(v, world, seen, f'{k} of {t.__name__}')
        if r: return r
    return None

class PoolModel:
    LIB = None
    def __init__(self, processes=None, *a, **k):
        if processes is not None and not isinstance(processes, int) and not isinstance(processes, Num): raise modelled(TypeError('processes'))
        self.closed = False
        if self.LIB is not None: self.LIB.call('Pool', self)
    def __enter__(self): return self
    def __exit__(self, *a): self.closed = True
    def close(self): pass
    def terminate(self): self.closed = True
    def join(self): pass
    def _chunk(self, c, xs):
        if c is not None and not c >= 1: return False   # a chunk size of 0 runs nothing
        return True
    def _run(self, f, xs, c):
        if self.closed: raise modelled(ValueError('Pool not running'))
        xs = list(xs)
        if not self._chunk(c, xs): return [None] * len(xs)
        # the arguments and the results travel between processes: the workers get copies
        out = []
        self._travels(f, 'the function')
        for a in xs:
            self._travels(a, 'the task')
            r = f(*self.LIB.transfer(a))
            self._travels(r, 'the result')
            out.append(r)
        return out
    def _travels(self, x, what):
        why = unpicklable(x, self.LIB.world, path=what)
        if why: raise modelled(pickle.PicklingError(why))
    def starmap(self, f, xs, chunksize=None): return self._run(f, xs, chunksize)
    def map(self, f, xs, chunksize=None): return self._run(f, [(x,) for x in xs], chunksize)
    def imap(self, f, xs, chunksize=1): return iter(self._run(f, [(x,) for x in xs], chunksize))
    def starmap_async(self, f, xs, chunksize=None, callback=None, error_callback=None): return Result(self, lambda: self._run(f, xs, chunksize))
    def map_async(self, f, xs, chunksize=None, callback=None, error_callback=None): return Result(self, lambda: self._run(f, [(x,) for x in xs], chunksize))
    def apply(self, f, args=(), kwds={}):
        for x in (f, args, kwds): self._travels(x, 'what is sent')
        r = f(*args, **kwds)
        self._travels(r, 'the result')
        return r
    def apply_async(self, f, args=(), kwds={}, *a): return Result(self, lambda: self.apply(f, args, kwds))
    def imap_unordered(self, *a): raise Undecided('unordered results')

class Result:
    def __init__(self, pool, f): self.pool = pool; self.f = f; self.r = None
    def get(self, timeout=None):
        if self.r is None:
            if self.pool.closed: raise Undecided('results requested after the pool terminated (never ready)')
            try: self.r = (True, self.f())
            except Undecided: raise
            except Exception as e: self.r = (False, e)
        if self.r[0]: return self.r[1]
        raise self.r[1]
    def wait(self, timeout=None): pass
    def ready(self): return True


class NumbaType:
    def __getitem__(self, k): return self
    def __call__(self, *a): return self
    def __deepcopy__(self, memo): return self


class Registry:
    def __init__(self, world):
        self.world = world
        self.counts = {}
        self.calls = []
        self.hooks = {}
        self.cpus = None
        self._mods = {}
    def begin(self):
        self.counts = {}; self.calls = []; self.hooks = {}
    def count(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1
        return self.counts[k]
    def call(self, name, obj, **kw):
        h = self.hooks.get(name)
        self.calls.append((name, obj, kw))
        if h is not None: h(obj, kw)
    def loglik(self, m):
        h = self.hooks.get('log_likelihood')
        return h(m) if h is not None else Num.atom(f'logL{m.model_id}')
    def transfer(self, args): 
        h = self.hooks.get('transfer')
        return h(args) if h is not None else args
    def ncpus(self):
        if self.cpus is None: self.cpus = Num.atom('cpu_count', integer=True, pos=True)
        return self.cpus

    def get(self, name):
        if name in self._mods: return self._mods[name]
        m = self._make(name)
        if m is not None: self._mods[name] = m
        return m

    def _make(self, name):
        def mod(**kw):
            m = Lib(name)
            m.__dict__.update(kw)
            return m
        if name == 'numpy': return numpy_model(self.world)
        if name == 'math': return math_model()
        if name == 'pandas': return mod(DataFrame=Frame, melt=melt, concat=frames_concat, Series=LibMember('pandas.Series'), isna=lambda x: x is NAN)
        if name == 'plotnine':
            m = PlotnineModel(name)
            m.__dict__.update(ggplot=lambda *a, **k: Plot(self, *a, **k), aes=Aes)
            return m
        if name in ('numpy.linalg', 'scipy.linalg'): return mod(LinAlgError=LinAlgError)
        if name == 'warnings': return WarningsModel(self.world)
        if name == 'numba':
            t = NumbaType()
            def compiler(kind):
                def compiled(*a, **k):
                    def made(f, sig=None):
                        h = self.hooks.get('numba')
                        return h(kind, f, sig, k) if h is not None else f
                    if len(a) == 1 and not k and isinstance(a[0], types.FunctionType): return made(a[0])
                    return lambda f: made(f, a[0] if a else None)
                return compiled
            njit = compiler('njit')
            return mod(njit=njit, jit=njit, vectorize=compiler('vectorize'), guvectorize=njit, stencil=njit, typeof=lambda x: t, b1=t, f8=t, i8=t, f4=t, i4=t, float64=t, boolean=t, int64=t, prange=range)
        if name == 'numba.core.types': return mod(Array=NumbaType())
        if name == 'numba.core.types.containers': return mod(Tuple=NumbaType())
        if name in ('scipy.special',): return mod(i0=unary('i0'), i1=unary('i1'), iv=lambda n, x: unary({0: 'i0', 1: 'i1'}[int(n)])(x), i0e=self._ie('i0'), i1e=self._ie('i1'))
        if name == 'paramz.caching':
            def Cache_this(*a, **k):
                if len(a) == 1 and isinstance(a[0], types.FunctionType): return a[0]
                return lambda f: f
            return mod(Cache_this=Cache_this)
        if name == 'paramz.transformations': return mod(Logexp=Logexp, Logistic=Logistic)
        if name in ('GPy.core.parameterization', 'GPy.core.parameterization.param', 'paramz', 'paramz.param', 'GPy.core'): return mod(Param=Param, Parameterized=Parameterized)
        if name == 'GPy.kern.src.kern': return mod(Kern=Kern, CombinationKernel=CombinationKernel)
        if name == 'GPy.kern.src.basis_funcs': return mod(BasisFuncKernel=BasisFuncKernel)
        if name == 'GPy.kern.src.psi_comp': return mod(PSICOMP_Linear=PSICOMP_Linear)
        if name == 'GPy.util.linalg': return mod(tdot=lambda X: dot(X, X.T))
        if name in ('GPy.kern', 'GPy.kern.src'):
            return mod(Kern=Kern, White=White, Bias=Bias, RBF=RBF, StdPeriodic=StdPeriodic, Linear=LibLinear, Add=Add, Prod=Prod, CombinationKernel=CombinationKernel)
        if name == 'GPy.models':
            cls = type('GPRegression', (GPRegression,), {'LIB': self})
            return mod(GPRegression=cls)
        if name == 'GPy':
            m = mod()
            m.kern = self.world.import_module('GPy.kern'); m.models = self.world.import_module('GPy.models')
            return m
        if name.startswith('matplotlib'):
            class Blind:
                def __call__(b, *x, **k): return b
                def __getattr__(b, a):
                    if a.startswith('__'): raise AttributeError(a)
                    return b
                def __deepcopy__(b, memo): return b
            class Plt(Lib):
                def __getattr__(m, a):
                    if a.startswith('__'): raise AttributeError(a)
                    if a == 'show': return lambda *x, **k: self.call('pyplot.show', None)
                    return Blind()
            return Plt(name)
        if name == 'GPy.plotting':
            return mod(change_plotting_library=lambda lib=None, **k: self.call('change_plotting_library', None, library=lib))
        if name == 'multiprocessing':
            return mod(Pool=type('Pool', (PoolModel,), {'LIB': self}), cpu_count=self.ncpus)
        if name == 'os': 
            import os
            return mod(cpu_count=self.ncpus, path=os.path, linesep='\n', sep='/')
        if name == 'time':
            def clock(): return (self.hooks.get('clock') or (lambda: Num.atom('clock')))()
            def sleep(s): self.call('sleep', None, seconds=s)
            return mod(time=clock, perf_counter=clock, monotonic=clock, sleep=sleep, process_time=clock)
        if name == 'logging':
            class L:
                def __getattr__(s, a): return lambda *x, **k: None
            return mod(getLogger=lambda *a: L(), debug=lambda *a, **k: None, info=lambda *a, **k: None, warning=lambda *a, **k: None, DEBUG=10, INFO=20, WARNING=30)
        return None

    def _ie(self, n):
        def f(x): return unary('exp')(-asarray(x)) * unary(n)(x)
        return f
