"""Abstract interpreter for the Python of the repository.

The source of /repo is parsed and every construct is given its abstract semantics over the domains of num.py (numbers), host containers holding
abstract values (shapes), and the library summaries of models*.py.  Nothing of the repository (nor of its numeric dependencies) is imported or
executed.  Whenever a truth value is not determined by the abstract state, the analysis splits (trace partitioning, see paths.py).
"""
import ast, builtins, operator, re, types, os, sys
from .num import Undecided, Num, SymBool, CTX


class Budget(Undecided): pass


class Frame:
    __slots__ = ('v', 'up', 'fi', 'node', 'cls', 'first', 'exc')
    def __init__(self, v, up, fi): self.v = v; self.up = up; self.fi = fi; self.node = None; self.cls = None; self.first = None; self.exc = None


class FInfo:
    """Static description of a function (or module / class body) under analysis"""
    __slots__ = ('name', 'qual', 'file', 'line', 'module')
    def __init__(self, name, qual, file, line, module): self.name = name; self.qual = qual; self.file = file; self.line = line; self.module = module


class Scope:
    def __init__(self, kind, parent, fi, cls_name=None):
        self.kind = kind; self.parent = parent; self.fi = fi
        self.locals = set(); self.globals = set(); self.nonlocals = set()
        self.cls_name = cls_name if cls_name is not None else (parent.cls_name if parent else None)

    def mangle(self, n):
        if self.cls_name and n.startswith('__') and not n.endswith('__') and '.' not in n:
            c = self.cls_name.lstrip('_')
            return f'_{c}{n}' if c else n
        return n


RET, BRK, CNT = 'RET', 'BRK', 'CNT'
BREAK = (BRK,); CONTINUE = (CNT,)

_FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
_COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def bound_names(body, scope):
    """Names bound directly in a function/class/module body"""
    def tgt(t):
        if isinstance(t, ast.Name): scope.locals.add(scope.mangle(t.id))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: tgt(e)
        elif isinstance(t, ast.Starred): tgt(t.value)
    def walk(n, in_comp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            scope.locals.add(scope.mangle(n.name))
            for d in n.decorator_list: walk(d)
            if isinstance(n, ast.ClassDef):
                for b in n.bases: walk(b)
            else:
                for d in n.args.defaults + [d for d in n.args.kw_defaults if d]: walk(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]: walk(d)
            return
        if isinstance(n, ast.Global): scope.globals.update(n.names); return
        if isinstance(n, ast.Nonlocal): scope.nonlocals.update(n.names); return
        if isinstance(n, _COMPS):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr): tgt(c.target)
            return
        if isinstance(n, ast.NamedExpr): tgt(n.target)
        elif isinstance(n, ast.Assign):
            for t in n.targets: tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)): tgt(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None: tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name: scope.locals.add(scope.mangle(n.name))
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != '*': scope.locals.add(scope.mangle(a.asname or a.name.split('.')[0]))
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: scope.locals.add(scope.mangle(n.name))
        elif isinstance(n, ast.MatchMapping) and n.rest: scope.locals.add(scope.mangle(n.rest))
        elif isinstance(n, ast.Delete):
            for t in n.targets: tgt(t)
        for c in ast.iter_child_nodes(n): walk(c)
    for s in body: walk(s)
    scope.locals -= scope.globals; scope.locals -= scope.nonlocals


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
          ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.BitOr: operator.or_,
          ast.BitXor: operator.xor, ast.BitAnd: operator.and_, ast.MatMult: operator.matmul}
IOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv,
        ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.LShift: operator.ilshift, ast.RShift: operator.irshift, ast.BitOr: operator.ior,
        ast.BitXor: operator.ixor, ast.BitAnd: operator.iand, ast.MatMult: operator.imatmul}
def _in(a, b): return a in b
def _notin(a, b): return a not in b
CMPS = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
        ast.Is: operator.is_, ast.IsNot: operator.is_not, ast.In: _in, ast.NotIn: _notin}

_PCT = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\d*)(?P<prec>(?:\.\d+)?)(?P<conv>[diouxXeEfFgGcrsa%])')
def pct_format(l, r):
    """'...' % args with abstract numbers in the arguments: as the equivalent formatting"""
    args = list(r) if isinstance(r, tuple) else [r]
    if not any(isinstance(a, Num) for a in args) and not (isinstance(r, dict) and any(isinstance(a, Num) for a in r.values())): return l % r
    i = 0
    def one(m):
        nonlocal i
        conv = m['conv']
        if conv == '%': return '%'
        if m['key'] is not None: a = r[m['key']]
        else:
            if i >= len(args): raise TypeError('not enough arguments for format string')
            a = args[i]; i += 1
        if not isinstance(a, Num): return m[0].replace(f"({m['key']})", '') % ((a,) if not isinstance(a, tuple) else (a,))
        if conv in 'diu':
            if a.is_int(): return format(a, m['flags'] + m['width'])
            raise Undecided('integer format of an abstract number')
        spec = m['flags'].replace('-', '<') + m['width'] + m['prec']
        return str(a) if conv in 'rsa' else format(a, spec + conv)
    out = _PCT.sub(one, l)
    if not isinstance(r, dict) and i < len(args): raise TypeError('not all arguments converted during string formatting')
    return out

_MISSING = object()


class Interp:
    """One analysis world: the loaded modules and their abstract state"""
    STEPS = 3_000_000

    def __init__(self, loader):
        self.loader = loader
        self.steps = 0
        self.depth = 0
        self.stmt_hook = None          # called as hook(frame) after each statement (localisation of effects)
        self.call_hook = None          # called as hook(finfo, args, kwargs) at each call of an analysed function
        self.visited = set()           # (file, qualname) of analysed functions
        self.out = []                  # text printed by the program
        self.builtins = self._make_builtins()

    # ------------------------------------------------------------------ builtins
    def _make_builtins(self):
        b = dict(vars(builtins))
        from . import models_py
        b.update(models_py.builtin_overrides(self))
        return b

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.STEPS: raise Budget('step budget exceeded')

    # ------------------------------------------------------------------ modules
    def exec_module(self, tree, module, file):
        fi = FInfo('<module>', '<module>', file, 1, module.__name__)
        sc = Scope('module', None, fi)
        bound_names(tree.body, sc)
        fr = Frame(module.__dict__, None, fi)
        self.block(tree.body, sc)(fr)

    # ------------------------------------------------------------------ names
    def load(self, name, sc):
        name = sc.mangle(name)
        bi = self.builtins
        s = sc; depth = 0; first_class = None
        while s is not None:
            if s.kind == 'module' or name in s.globals: break
            if s.kind == 'class' and s is sc and (name in s.locals or True): first_class = depth
            elif s.kind != 'class' and name in s.locals:
                d = depth
                if d == 0:
                    def f(fr):
                        try: return fr.v[name]
                        except KeyError: raise UnboundLocalError(f"cannot access local variable '{name}' where it is not associated with a value") from None
                    return self._cls_first(f, name) if first_class is not None else f
                def f(fr):
                    for _ in range(d): fr = fr.up
                    try: return fr.v[name]
                    except KeyError: raise NameError(f"cannot access free variable '{name}' where it is not associated with a value in enclosing scope") from None
                return self._cls_first(f, name) if first_class is not None else f
            s = s.parent; depth += 1
        # global
        def g(fr):
            while fr.up is not None: fr = fr.up
            v = fr.v
            if name in v: return v[name]
            if name in bi: return bi[name]
            raise NameError(f"name '{name}' is not defined")
        if sc.kind == 'module':
            def g(fr):
                v = fr.v
                if name in v: return v[name]
                if name in bi: return bi[name]
                raise NameError(f"name '{name}' is not defined")
        return self._cls_first(g, name) if first_class is not None else g

    @staticmethod
    def _cls_first(f, name):
        def h(fr):
            v = fr.v
            if name in v: return v[name]
            return f(fr)
        return h

    def store(self, name, sc):
        name = sc.mangle(name)
        if name in sc.globals:
            def st(fr, x):
                while fr.up is not None: fr = fr.up
                fr.v[name] = x
            return st
        if sc.kind == 'comp' or name in sc.nonlocals:
            # walrus within a comprehension, or nonlocal: nearest enclosing function scope binding it
            s = sc; d = 0
            if not (sc.kind == 'comp' and name in sc.locals):
                s = sc.parent; d = 1
                while s is not None and not (s.kind in ('function', 'module', 'class') and name in s.locals and (s.kind != 'class')):
                    if s.kind == 'module': break
                    if name in s.globals: break
                    s = s.parent; d += 1
                if s is not None and name in s.globals:
                    def st(fr, x):
                        while fr.up is not None: fr = fr.up
                        fr.v[name] = x
                    return st
            def st(fr, x):
                for _ in range(d): fr = fr.up
                fr.v[name] = x
            return st
        def st(fr, x): fr.v[name] = x
        return st

    # ------------------------------------------------------------------ targets
    def target(self, t, sc):
        if isinstance(t, ast.Name): return self.store(t.id, sc)
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value, sc); a = sc.mangle(t.attr)
            return lambda fr, x: setattr(o(fr), a, x)
        if isinstance(t, ast.Subscript):
            o = self.expr(t.value, sc); k = self.expr(t.slice, sc)
            def st(fr, x):
                c = o(fr); c[k(fr)] = x
            return st
        if isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            subs = [self.target(e.value if isinstance(e, ast.Starred) else e, sc) for e in t.elts]
            n = len(subs)
            if stars:
                i = stars[0]; after = n - i - 1
                def st(fr, x):
                    xs = list(x)
                    if len(xs) < n - 1: raise ValueError(f'not enough values to unpack (expected at least {n - 1}, got {len(xs)})')
                    for j in range(i): subs[j](fr, xs[j])
                    subs[i](fr, xs[i:len(xs) - after])
                    for j in range(after): subs[i + 1 + j](fr, xs[len(xs) - after + j])
                return st
            def st(fr, x):
                xs = list(x)
                if len(xs) < n: raise ValueError(f'not enough values to unpack (expected {n}, got {len(xs)})')
                if len(xs) > n: raise ValueError(f'too many values to unpack (expected {n})')
                for s, y in zip(subs, xs): s(fr, y)
            return st
        raise Undecided(f'assignment target {type(t).__name__}')

    # ------------------------------------------------------------------ expressions
    def expr(self, e, sc):
        return getattr(self, 'e_' + type(e).__name__, self.e_unknown)(e, sc)

    def e_unknown(self, e, sc):
        n = type(e).__name__
        def f(fr): raise Undecided(f'expression {n}')
        return f

    def e_Constant(self, e, sc):
        v = e.value
        return lambda fr: v

    def e_Name(self, e, sc): return self.load(e.id, sc)

    def e_Attribute(self, e, sc):
        o = self.expr(e.value, sc); a = sc.mangle(e.attr)
        return lambda fr: getattr(o(fr), a)

    def e_Subscript(self, e, sc):
        o = self.expr(e.value, sc); k = self.expr(e.slice, sc)
        return lambda fr: operator.getitem(o(fr), k(fr))

    def e_Slice(self, e, sc):
        l, u, s = (self.expr(x, sc) if x is not None else None for x in (e.lower, e.upper, e.step))
        return lambda fr: slice(l(fr) if l else None, u(fr) if u else None, s(fr) if s else None)

    def _elts(self, elts, sc):
        cs = [(isinstance(x, ast.Starred), self.expr(x.value if isinstance(x, ast.Starred) else x, sc)) for x in elts]
        if not any(s for s, _ in cs):
            fs = [c for _, c in cs]
            return lambda fr: [c(fr) for c in fs]
        def f(fr):
            out = []
            for s, c in cs:
                if s: out.extend(c(fr))
                else: out.append(c(fr))
            return out
        return f

    def e_List(self, e, sc): return self._elts(e.elts, sc)
    def e_Tuple(self, e, sc):
        f = self._elts(e.elts, sc)
        return lambda fr: tuple(f(fr))
    def e_Set(self, e, sc):
        f = self._elts(e.elts, sc)
        return lambda fr: set(f(fr))
    def e_Dict(self, e, sc):
        kvs = [(self.expr(k, sc) if k is not None else None, self.expr(v, sc)) for k, v in zip(e.keys, e.values)]
        def f(fr):
            d = {}
            for k, v in kvs:
                if k is None: d.update(v(fr))
                else: kk = k(fr); d[kk] = v(fr)
            return d
        return f

    def e_BinOp(self, e, sc):
        l, r, op = self.expr(e.left, sc), self.expr(e.right, sc), BINOPS[type(e.op)]
        if isinstance(e.op, ast.Mod):
            def f(fr):
                a, b = l(fr), r(fr)
                return pct_format(a, b) if type(a) is str else op(a, b)
            return f
        return lambda fr: op(l(fr), r(fr))

    def e_UnaryOp(self, e, sc):
        o = self.expr(e.operand, sc)
        if isinstance(e.op, ast.Not): return lambda fr: not o(fr)
        op = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)]
        return lambda fr: op(o(fr))

    def e_BoolOp(self, e, sc):
        vs = [self.expr(v, sc) for v in e.values]
        if isinstance(e.op, ast.And):
            def f(fr):
                for v in vs[:-1]:
                    x = v(fr)
                    if not x: return False if isinstance(x, SymBool) else x
                return vs[-1](fr)
        else:
            def f(fr):
                for v in vs[:-1]:
                    x = v(fr)
                    if x: return True if isinstance(x, SymBool) else x
                return vs[-1](fr)
        return f

    def e_Compare(self, e, sc):
        l = self.expr(e.left, sc)
        rs = [(CMPS[type(o)], self.expr(c, sc)) for o, c in zip(e.ops, e.comparators)]
        if len(rs) == 1:
            op, r = rs[0]
            return lambda fr: op(l(fr), r(fr))
        def f(fr):
            a = l(fr)
            for op, r in rs[:-1]:
                b = r(fr)
                if not op(a, b): return False
                a = b
            op, r = rs[-1]
            return op(a, r(fr))
        return f

    def e_IfExp(self, e, sc):
        t, a, b = self.expr(e.test, sc), self.expr(e.body, sc), self.expr(e.orelse, sc)
        return lambda fr: a(fr) if t(fr) else b(fr)

    def e_NamedExpr(self, e, sc):
        st, v = self.store(e.target.id, sc), self.expr(e.value, sc)
        def f(fr):
            x = v(fr); st(fr, x); return x
        return f

    def e_JoinedStr(self, e, sc):
        ps = [self.expr(v, sc) for v in e.values]
        return lambda fr: ''.join([p(fr) for p in ps])

    def e_FormattedValue(self, e, sc):
        v = self.expr(e.value, sc); spec = self.expr(e.format_spec, sc) if e.format_spec is not None else None
        conv = {-1: None, 115: str, 114: repr, 97: ascii}[e.conversion]
        def f(fr):
            x = v(fr)
            if conv: x = conv(x)
            return format(x, spec(fr) if spec else '')
        return f

    def e_Starred(self, e, sc): return self.e_unknown(e, sc)

    def e_Await(self, e, sc): return self.e_unknown(e, sc)
    def e_Yield(self, e, sc): return self.e_unknown(e, sc)
    def e_YieldFrom(self, e, sc): return self.e_unknown(e, sc)

    def e_Lambda(self, e, sc):
        return self.function(e, sc, '<lambda>')

    def e_Call(self, e, sc):
        if isinstance(e.func, ast.Name):
            if e.func.id == 'super' and not e.args and not e.keywords: return self._super0(sc)
            if e.func.id in ('eval', 'exec', 'locals', 'vars', 'globals', 'dir'):
                r = self._reflective(e, sc)
                if r is not None: return r
        fn = self.expr(e.func, sc)
        args = self._elts(e.args, sc)
        kws = [(k.arg, self.expr(k.value, sc)) for k in e.keywords]
        if not kws:
            def f(fr):
                g = fn(fr); a = args(fr)
                fr.node = e
                if len(a) == 1 and isinstance(a[0], (Num, SymBool)) and isinstance(g, type):
                    x = a[0]
                    if g is type: return bool if isinstance(x, SymBool) else int if x.is_int() else float
                    if g is float and isinstance(x, Num): return x
                    if g is int and isinstance(x, Num):
                        if x.is_int(): return x
                        if not x.isconst(): return x // 1 if x >= 0 else -((-x) // 1)
                elif len(a) == 1 and (g is float or g is int) and isinstance(a[0], str) and '⟦' in a[0]: raise Undecided('a number read from its text')
                elif len(a) == 1 and g in (set, frozenset, list, tuple) and hasattr(a[0], '_sa_collect'): return a[0]._sa_collect(g)
                return g(*a)
            return f
        def f(fr):
            g = fn(fr); a = args(fr); kw = {}
            for k, v in kws:
                if k is None:
                    for kk, vv in dict(v(fr)).items():
                        if kk in kw: raise TypeError(f"got multiple values for keyword argument '{kk}'")
                        kw[kk] = vv
                else:
                    if k in kw: raise TypeError(f"got multiple values for keyword argument '{k}'")
                    kw[k] = v(fr)
            fr.node = e
            return g(*a, **kw)
        return f

    def _super0(self, sc):
        def f(fr):
            o = fr
            while o is not None and o.first is None: o = o.up
            c = o
            while c is not None and c.cls is None: c = c.up
            if o is None or c is None: raise RuntimeError('super(): no arguments')
            return super(c.cls, o.first)
        return f

    def _reflective(self, e, sc):
        n = e.func.id
        if n == 'globals' and not e.args:
            def f(fr):
                while fr.up is not None: fr = fr.up
                return fr.v
            return f
        if n == 'locals' and not e.args: return lambda fr: dict(fr.v) if fr.up is not None else fr.v
        if n == 'vars' and not e.args: return lambda fr: dict(fr.v) if fr.up is not None else fr.v
        if n == 'eval':
            args = self._elts(e.args, sc)
            def f(fr):
                a = args(fr)
                if not isinstance(a[0], str): raise Undecided('eval of a non-string')
                if len(a) > 1: raise Undecided('eval with explicit namespaces')
                return self.expr(ast.parse(a[0].strip(), mode='eval').body, sc)(fr)
            return f
        if n == 'exec':
            def f(fr): raise Undecided('exec')
            return f
        return None

    # comprehensions
    def _comp(self, e, sc, elt_f, kind):
        csc = Scope('comp', sc, sc.fi)
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name): csc.locals.add(csc.mangle(n.id))
        it0 = self.expr(e.generators[0].iter, sc)
        gens = []
        for i, g in enumerate(e.generators):
            gens.append((None if i == 0 else self.expr(g.iter, csc), self.target(g.target, csc), [self.expr(c, csc) for c in g.ifs]))
        elt = elt_f(csc)
        fi = sc.fi
        def run(fr2, i, it):
            _, tg, ifs = gens[i]
            for x in it:
                self.tick()
                tg(fr2, x)
                ok = True
                for c in ifs:
                    if not c(fr2): ok = False; break
                if not ok: continue
                if i + 1 == len(gens): yield elt(fr2)
                else: yield from run(fr2, i + 1, gens[i + 1][0](fr2))
        def start(fr):
            it = iter(it0(fr))
            fr2 = Frame({}, fr, fi); fr2.node = fr.node
            return run(fr2, 0, it)
        return start

    def e_ListComp(self, e, sc):
        s = self._comp(e, sc, lambda c: self.expr(e.elt, c), 'list')
        return lambda fr: list(s(fr))
    def e_SetComp(self, e, sc):
        s = self._comp(e, sc, lambda c: self.expr(e.elt, c), 'set')
        return lambda fr: set(s(fr))
    def e_GeneratorExp(self, e, sc):
        return self._comp(e, sc, lambda c: self.expr(e.elt, c), 'gen')
    def e_DictComp(self, e, sc):
        def kv(c):
            k, v = self.expr(e.key, c), self.expr(e.value, c)
            def f(fr): kk = k(fr); return (kk, v(fr))
            return f
        s = self._comp(e, sc, kv, 'dict')
        return lambda fr: dict(s(fr))

    # ------------------------------------------------------------------ functions
    def function(self, node, sc, name):
        a = node.args
        qual = name if sc.kind == 'module' else f'{sc.fi.qual}.{name}' if sc.kind == 'class' else f'{sc.fi.qual}.<locals>.{name}'
        fi = FInfo(name, qual, sc.fi.file, node.lineno, sc.fi.module)
        fsc = Scope('function', sc, fi)
        pos = [fsc.mangle(x.arg) for x in a.posonlyargs + a.args]
        nposonly = len(a.posonlyargs)
        kwo = [fsc.mangle(x.arg) for x in a.kwonlyargs]
        va = fsc.mangle(a.vararg.arg) if a.vararg else None
        vk = fsc.mangle(a.kwarg.arg) if a.kwarg else None
        fsc.locals.update(pos + kwo + [x for x in (va, vk) if x])
        is_lambda = isinstance(node, ast.Lambda)
        if is_lambda:
            ret_expr = None
            for c in ast.walk(node.body):
                if isinstance(c, ast.NamedExpr): fsc.locals.add(c.target.id)
            body = None; isgen = False
        else:
            params = set(fsc.locals)
            bound_names(node.body, fsc)
            fsc.locals |= params
            isgen = has_yield(node.body)
        compiled = [None]
        dpos = [self.expr(d, sc) for d in a.defaults]
        dkw = {fsc.mangle(x.arg): self.expr(d, sc) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        docstr = None if is_lambda else ast.get_docstring(node, clean=False)
        interp = self
        npos = len(pos)

        def make(fr):
            defaults = [d(fr) for d in dpos]
            kwdefaults = {k: d(fr) for k, d in dkw.items()}
            off = npos - len(defaults)

            def bind(args, kwargs):
                v = {}
                n = len(args)
                if n > npos:
                    if va is None: raise TypeError(f'{qual}() takes {npos} positional arguments but {n} were given')
                    v[va] = tuple(args[npos:]); n = npos
                elif va is not None: v[va] = ()
                for i in range(n): v[pos[i]] = args[i]
                if kwargs:
                    extra = {}
                    for k, x in kwargs.items():
                        if k in v and (k in pos or k in kwo): raise TypeError(f"{qual}() got multiple values for argument '{k}'")
                        if k in pos[nposonly:] or k in kwo: v[k] = x
                        elif vk is not None: extra[k] = x
                        else: raise TypeError(f"{qual}() got an unexpected keyword argument '{k}'")
                    if vk is not None: v[vk] = extra
                elif vk is not None: v[vk] = {}
                for i in range(n, npos):
                    p = pos[i]
                    if p not in v:
                        if i >= off: v[p] = defaults[i - off]
                        else: raise TypeError(f"{qual}() missing required positional argument: '{p}'")
                for p in kwo:
                    if p not in v:
                        if p in kwdefaults: v[p] = kwdefaults[p]
                        else: raise TypeError(f"{qual}() missing required keyword-only argument: '{p}'")
                return v

            def func(*args, **kwargs):
                v = bind(args, kwargs)
                f2 = Frame(v, fr, fi)
                f2.first = args[0] if args else None
                if compiled[0] is None:
                    compiled[0] = interp.expr(node.body, fsc) if is_lambda else interp.gen_block(node.body, fsc) if isgen else interp.block(node.body, fsc)
                interp.visited.add((fi.file, fi.qual))
                if interp.call_hook is not None: interp.call_hook(fi, v, args, kwargs)
                if isgen: return interp.run_gen(compiled[0], f2)
                interp.tick()
                interp.depth += 1
                if interp.depth > 3000: interp.depth = 0; raise Budget('recursion depth')
                try:
                    if is_lambda:
                        f2.node = node.body
                        return compiled[0](f2)
                    r = compiled[0](f2)
                    return r[1] if r is not None else None
                except Exception as ex:
                    note_tb(ex, f2)
                    raise
                finally: interp.depth -= 1
            func.__name__ = name
            func.__qualname__ = qual
            func.__doc__ = docstr
            func.__module__ = fi.module
            func.__sa__ = (fi, pos, defaults, kwdefaults, va, vk, kwo)
            func.__sa_frame__ = fr
            try: func.__signature__ = make_signature(pos, nposonly, defaults, kwo, kwdefaults, va, vk)
            except (ValueError, TypeError): pass
            return func
        return make

    def run_gen(self, body, fr):
        def g():
            try:
                r = yield from body(fr)
                return r[1] if r is not None else None
            except Exception as ex:
                note_tb(ex, fr)
                raise
        return g()

    # ------------------------------------------------------------------ statements
    def block(self, stmts, sc):
        fs = []
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue  # docstrings
            if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)): continue
            fs.append((s, self.stmt(s, sc)))
        if not fs: return lambda fr: None
        def run(fr):
            for s, f in fs:
                fr.node = s
                self.tick()
                r = f(fr)
                if self.stmt_hook is not None: self.stmt_hook(fr, s)
                if r is not None: return r
        return run

    def stmt(self, s, sc):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            n = type(s).__name__
            def f(fr): raise Undecided(f'statement {n}')
            return f
        return m(s, sc)

    def s_Expr(self, s, sc):
        e = self.expr(s.value, sc)
        def f(fr): e(fr)
        return f

    def s_Assign(self, s, sc):
        v = self.expr(s.value, sc); ts = [self.target(t, sc) for t in s.targets]
        if len(ts) == 1:
            t = ts[0]
            def f(fr): t(fr, v(fr))
        else:
            def f(fr):
                x = v(fr)
                for t in ts: t(fr, x)
        return f

    def s_AnnAssign(self, s, sc):
        v = self.expr(s.value, sc) if s.value is not None else None
        t = self.target(s.target, sc) if v is not None else None
        ann = self.expr(s.annotation, sc) if sc.kind == 'class' and isinstance(s.target, ast.Name) else None
        name = s.target.id if isinstance(s.target, ast.Name) else None
        def f(fr):
            if ann is not None:
                if '__annotations__' not in fr.v: fr.v['__annotations__'] = {}
                fr.v['__annotations__'][name] = ann(fr)
            if v is not None: t(fr, v(fr))
        return f

    def s_AugAssign(self, s, sc):
        op = IOPS[type(s.op)]; v = self.expr(s.value, sc); t = s.target
        if isinstance(t, ast.Name):
            ld, st = self.load(t.id, sc), self.store(t.id, sc)
            def f(fr): st(fr, op(ld(fr), v(fr)))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, sc); a = sc.mangle(t.attr)
            def f(fr):
                c = o(fr); setattr(c, a, op(getattr(c, a), v(fr)))
        else:
            o = self.expr(t.value, sc); k = self.expr(t.slice, sc)
            def f(fr):
                c = o(fr); kk = k(fr); c[kk] = op(c[kk], v(fr))
        return f

    def s_Return(self, s, sc):
        if s.value is None: return lambda fr: (RET, None)
        v = self.expr(s.value, sc)
        return lambda fr: (RET, v(fr))

    def s_If(self, s, sc):
        t, a, b = self.expr(s.test, sc), self.block(s.body, sc), self.block(s.orelse, sc)
        return lambda fr: a(fr) if t(fr) else b(fr)

    def s_For(self, s, sc):
        it, tg, body, orelse = self.expr(s.iter, sc), self.target(s.target, sc), self.block(s.body, sc), self.block(s.orelse, sc)
        def f(fr):
            for x in it(fr):
                self.tick()
                tg(fr, x)
                r = body(fr)
                if r is not None:
                    if r is BREAK: return None
                    if r is CONTINUE: continue
                    return r
            return orelse(fr)
        return f

    def s_While(self, s, sc):
        t, body, orelse = self.expr(s.test, sc), self.block(s.body, sc), self.block(s.orelse, sc)
        def f(fr):
            while t(fr):
                self.tick()
                r = body(fr)
                if r is not None:
                    if r is BREAK: return None
                    if r is CONTINUE: continue
                    return r
            return orelse(fr)
        return f

    def s_Break(self, s, sc): return lambda fr: BREAK
    def s_Continue(self, s, sc): return lambda fr: CONTINUE
    def s_Pass(self, s, sc): return lambda fr: None

    def s_Assert(self, s, sc):
        t = self.expr(s.test, sc); m = self.expr(s.msg, sc) if s.msg is not None else None
        def f(fr):
            if not t(fr): raise AssertionError(m(fr)) if m else AssertionError()
        return f

    def s_Raise(self, s, sc):
        if s.exc is None:
            def f(fr):
                g = fr
                while g is not None and g.exc is None: g = g.up
                if g is None: raise RuntimeError('No active exception to reraise')
                raise g.exc
            return f
        e = self.expr(s.exc, sc); c = self.expr(s.cause, sc) if s.cause is not None else None
        def f(fr):
            x = e(fr)
            if c is not None: raise x from c(fr)
            raise x
        return f

    def _handlers(self, s, sc):
        return [(self.expr(h.type, sc) if h.type is not None else None, self.store(h.name, sc) if h.name else None,
                 sc.mangle(h.name) if h.name else None, self.block(h.body, sc), h) for h in s.handlers]

    def s_Try(self, s, sc):
        body, orelse, final = self.block(s.body, sc), self.block(s.orelse, sc), self.block(s.finalbody, sc)
        hs = self._handlers(s, sc)
        def inner(fr):
            try: r = body(fr)
            except Undecided: raise
            except BaseException as ex:
                note_tb(ex, fr)
                if is_engine_error(ex): raise
                for ty, st, nm, hb, h in hs:
                    if ty is None or isinstance(ex, _exc_types(ty(fr))):
                        old = fr.exc; fr.exc = ex
                        if st: st(fr, ex)
                        try: return hb(fr)
                        finally:
                            fr.exc = old
                            if nm: fr.v.pop(nm, None)
                raise
            if r is not None: return r
            return orelse(fr)
        if not s.finalbody: return inner
        def f(fr):
            try: r = inner(fr)
            except Undecided: raise
            except BaseException as ex:
                r2 = final(fr)
                if r2 is not None: return r2
                raise
            r2 = final(fr)
            return r2 if r2 is not None else r
        return f

    def s_With(self, s, sc):
        items = [(self.expr(i.context_expr, sc), self.target(i.optional_vars, sc) if i.optional_vars is not None else None) for i in s.items]
        body = self.block(s.body, sc)
        def run(fr, i):
            if i == len(items): return body(fr)
            ce, tg = items[i]
            cm = ce(fr)
            if not hasattr(type(cm), '__enter__') and not hasattr(cm, '__enter__'): raise TypeError(f"'{type(cm).__name__}' object does not support the context manager protocol")
            x = cm.__enter__()
            if tg: tg(fr, x)
            try: r = run(fr, i + 1)
            except Undecided: raise
            except BaseException as ex:
                if cm.__exit__(type(ex), ex, ex.__traceback__): return None
                raise
            cm.__exit__(None, None, None)
            return r
        return lambda fr: run(fr, 0)

    def s_Delete(self, s, sc):
        fs = []
        def one(t):
            if isinstance(t, ast.Name):
                n = sc.mangle(t.id)
                g = n in sc.globals
                def f(fr):
                    if g:
                        while fr.up is not None: fr = fr.up
                    if n not in fr.v: raise NameError(f"name '{n}' is not defined")
                    del fr.v[n]
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, sc); a = sc.mangle(t.attr)
                def f(fr): delattr(o(fr), a)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, sc); k = self.expr(t.slice, sc)
                def f(fr): operator.delitem(o(fr), k(fr))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts: one(e)
                return
            else:
                def f(fr): raise Undecided('del target')
            fs.append(f)
        for t in s.targets: one(t)
        def run(fr):
            for f in fs: f(fr)
        return run

    def s_FunctionDef(self, s, sc):
        mk = self.function(s, sc, s.name); st = self.store(s.name, sc)
        decs = [self.expr(d, sc) for d in s.decorator_list]
        def f(fr):
            ds = [d(fr) for d in decs]
            x = mk(fr)
            for d in reversed(ds): x = d(x)
            st(fr, x)
        return f

    def s_ClassDef(self, s, sc):
        bases = self._elts(s.bases, sc); kws = [(k.arg, self.expr(k.value, sc)) for k in s.keywords]
        decs = [self.expr(d, sc) for d in s.decorator_list]
        qual = s.name if sc.kind == 'module' else f'{sc.fi.qual}.{s.name}'
        fi = FInfo(s.name, qual, sc.fi.file, s.lineno, sc.fi.module)
        csc = Scope('class', sc, fi, cls_name=s.name)
        bound_names(s.body, csc)
        body = self.block(s.body, csc)
        st = self.store(s.name, sc)
        doc = ast.get_docstring(s, clean=False)
        def f(fr):
            ds = [d(fr) for d in decs]
            bs = tuple(bases(fr)); kw = {k: v(fr) for k, v in kws}
            cf = Frame(None, fr, fi)
            def ex(ns):
                ns['__module__'] = fi.module; ns['__qualname__'] = qual
                if doc is not None: ns['__doc__'] = doc
                cf.v = ns
                body(cf)
            cls = types.new_class(s.name, bs, kw, ex)
            cf.cls = cls
            cls.__sa_line__ = s.lineno if not isinstance(cls, type) or True else None
            for d in reversed(ds): cls = d(cls)
            st(fr, cls)
        return f

    def s_Import(self, s, sc):
        fs = [(a.name, a.asname, self.store(a.asname or a.name.split('.')[0], sc)) for a in s.names]
        def f(fr):
            for name, asname, st in fs:
                m = self.loader.import_module(name)
                if asname is None and '.' in name: m = self.loader.import_module(name.split('.')[0])
                st(fr, m)
        return f

    def s_ImportFrom(self, s, sc):
        names = [(a.name, None if a.name == '*' else self.store(a.asname or a.name, sc)) for a in s.names]
        pkg = sc.fi.module
        mod = s.module or ''
        if s.level:
            parts = pkg.split('.')
            if not self.loader.is_package(pkg): parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        def f(fr):
            m = self.loader.import_module(mod)
            for n, st in names:
                if n == '*':
                    ns = m.__dict__
                    al = ns.get('__all__')
                    for k in (al if al is not None else [k for k in ns if not k.startswith('_')]): fr.v[k] = ns[k] if k in ns else getattr(m, k)
                else:
                    try: x = getattr(m, n)
                    except AttributeError:
                        try: x = self.loader.import_module(mod + '.' + n)
                        except ModuleNotFoundError: raise ImportError(f"cannot import name '{n}' from '{mod}'") from None
                    st(fr, x)
        return f

    def s_Match(self, s, sc):
        subj = self.expr(s.subject, sc)
        cases = [(self.pattern(c.pattern, sc), self.expr(c.guard, sc) if c.guard is not None else None, self.block(c.body, sc)) for c in s.cases]
        def f(fr):
            x = subj(fr)
            for p, g, b in cases:
                if p(fr, x) and (g is None or g(fr)): return b(fr)
        return f

    def pattern(self, p, sc):
        if isinstance(p, ast.MatchValue):
            v = self.expr(p.value, sc)
            return lambda fr, x: bool(x == v(fr))
        if isinstance(p, ast.MatchSingleton): return lambda fr, x: x is p.value
        if isinstance(p, ast.MatchAs):
            sub = self.pattern(p.pattern, sc) if p.pattern is not None else None
            st = self.store(p.name, sc) if p.name else None
            def f(fr, x):
                if sub is not None and not sub(fr, x): return False
                if st: st(fr, x)
                return True
            return f
        if isinstance(p, ast.MatchOr):
            subs = [self.pattern(q, sc) for q in p.patterns]
            return lambda fr, x: any(q(fr, x) for q in subs)
        if isinstance(p, ast.MatchSequence):
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            subs = [(self.store(q.name, sc) if q.name else (lambda fr, x: None)) if isinstance(q, ast.MatchStar) else self.pattern(q, sc) for q in p.patterns]
            n = len(subs)
            def f(fr, x):
                if not isinstance(x, (list, tuple)): return False
                if not stars: return len(x) == n and all(q(fr, y) for q, y in zip(subs, x))
                i = stars[0]; after = n - i - 1
                if len(x) < n - 1: return False
                if not all(q(fr, y) for q, y in zip(subs[:i], x[:i])): return False
                subs[i](fr, list(x[i:len(x) - after]))
                return all(q(fr, y) for q, y in zip(subs[i + 1:], x[len(x) - after:]))
            return f
        if isinstance(p, ast.MatchClass):
            c = self.expr(p.cls, sc); pos = [self.pattern(q, sc) for q in p.patterns]; kws = [(a, self.pattern(q, sc)) for a, q in zip(p.kwd_attrs, p.kwd_patterns)]
            inst = self.builtins['isinstance']
            def f(fr, x):
                cls = c(fr)
                if not inst(x, cls): return False
                if pos:
                    if cls in (str, int, float, list, dict, tuple, set, bool): return len(pos) == 1 and pos[0](fr, x)
                    ma = cls.__match_args__
                    if not all(q(fr, getattr(x, a)) for a, q in zip(ma, pos)): return False
                return all(hasattr(x, a) and q(fr, getattr(x, a)) for a, q in kws)
            return f
        if isinstance(p, ast.MatchMapping):
            ks = [(self.expr(k, sc), self.pattern(q, sc)) for k, q in zip(p.keys, p.patterns)]; rest = self.store(p.rest, sc) if p.rest else None
            def f(fr, x):
                if not isinstance(x, dict): return False
                used = []
                for k, q in ks:
                    kk = k(fr)
                    if kk not in x or not q(fr, x[kk]): return False
                    used.append(kk)
                if rest: rest(fr, {k: v for k, v in x.items() if k not in used})
                return True
            return f
        def f(fr, x): raise Undecided('pattern')
        return f

    # ------------------------------------------------------------------ generators
    def gen_block(self, stmts, sc):
        fs = [(s, self.gen_stmt(s, sc)) for s in stmts if not isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        def run(fr):
            for s, f in fs:
                fr.node = s
                self.tick()
                r = yield from f(fr)
                if r is not None: return r
        return run

    def gen_stmt(self, s, sc):
        if not has_yield([s]):
            f0 = self.stmt(s, sc)
            def f(fr):
                return f0(fr)
                yield
            return f
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            g = self.gen_yield(s.value, sc)
            def f(fr): yield from g(fr)
            return f
        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            g = self.gen_yield(s.value, sc); ts = [self.target(t, sc) for t in s.targets]
            def f(fr):
                x = yield from g(fr)
                for t in ts: t(fr, x)
            return f
        if isinstance(s, ast.Return) and isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            g = self.gen_yield(s.value, sc)
            def f(fr):
                x = yield from g(fr)
                return (RET, x)
            return f
        if isinstance(s, ast.If) and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s.test)):
            t, a, b = self.expr(s.test, sc), self.gen_block(s.body, sc), self.gen_block(s.orelse, sc)
            def f(fr):
                r = yield from (a(fr) if t(fr) else b(fr))
                return r
            return f
        if isinstance(s, (ast.For, ast.While)):
            body, orelse = self.gen_block(s.body, sc), self.gen_block(s.orelse, sc)
            if isinstance(s, ast.For):
                it, tg = self.expr(s.iter, sc), self.target(s.target, sc)
                def f(fr):
                    for x in it(fr):
                        self.tick(); tg(fr, x)
                        r = yield from body(fr)
                        if r is not None:
                            if r is BREAK: return None
                            if r is CONTINUE: continue
                            return r
                    r = yield from orelse(fr)
                    return r
            else:
                t = self.expr(s.test, sc)
                def f(fr):
                    while t(fr):
                        self.tick()
                        r = yield from body(fr)
                        if r is not None:
                            if r is BREAK: return None
                            if r is CONTINUE: continue
                            return r
                    r = yield from orelse(fr)
                    return r
            return f
        if isinstance(s, ast.Try) and not s.finalbody:
            body, orelse = self.gen_block(s.body, sc), self.gen_block(s.orelse, sc)
            hs = [(self.expr(h.type, sc) if h.type is not None else None, self.store(h.name, sc) if h.name else None, self.gen_block(h.body, sc)) for h in s.handlers]
            def f(fr):
                try: r = yield from body(fr)
                except Undecided: raise
                except BaseException as ex:
                    for ty, st, hb in hs:
                        if ty is None or isinstance(ex, _exc_types(ty(fr))):
                            if st: st(fr, ex)
                            r = yield from hb(fr)
                            return r
                    raise
                if r is not None: return r
                r = yield from orelse(fr)
                return r
            return f
        def f(fr):
            raise Undecided('yield inside ' + type(s).__name__)
            yield
        return f

    def gen_yield(self, e, sc):
        if e.value is not None and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(e.value)):
            def g(fr):
                raise Undecided('nested yield'); yield
            return g
        v = self.expr(e.value, sc) if e.value is not None else (lambda fr: None)
        if isinstance(e, ast.YieldFrom):
            def g(fr):
                r = yield from v(fr)
                return r
        else:
            def g(fr):
                r = yield v(fr)
                return r
        return g


def has_yield(body):
    def w(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, _FUNCS + (ast.ClassDef,)): return False
        return any(w(c) for c in ast.iter_child_nodes(n))
    return any(w(s) for s in body)


def make_signature(pos, nposonly, defaults, kwo, kwdefaults, va, vk):
    import inspect
    P = inspect.Parameter; ps = []
    off = len(pos) - len(defaults)
    for i, p in enumerate(pos):
        ps.append(P(p, P.POSITIONAL_ONLY if i < nposonly else P.POSITIONAL_OR_KEYWORD, default=defaults[i - off] if i >= off else P.empty))
    if va: ps.append(P(va, P.VAR_POSITIONAL))
    for p in kwo: ps.append(P(p, P.KEYWORD_ONLY, default=kwdefaults.get(p, P.empty)))
    if vk: ps.append(P(vk, P.VAR_KEYWORD))
    return inspect.Signature(ps)


def _exc_types(t):
    for x in (t if isinstance(t, tuple) else (t,)):
        if isinstance(x, tuple): _exc_types(x)
        elif type(x).__name__ == 'LibMember': raise Undecided(f'handler for {x!r}')
        elif not (isinstance(x, type) and issubclass(x, BaseException)): raise TypeError('catching classes that do not inherit from BaseException is not allowed')
    return t


def note_tb(ex, fr):
    tb = getattr(ex, '__sa_tb__', None)
    if tb is None:
        tb = []
        try: ex.__sa_tb__ = tb
        except Exception: return
    n = fr.node
    ent = (fr.fi.file, getattr(n, 'lineno', fr.fi.line), fr.fi.qual)
    if not tb or tb[-1] != ent: tb.append(ent)


_ENGINE_DIR = os.path.dirname(os.path.abspath(__file__))

_ENGINE_TYPES = ('Num', 'NumCmp', 'OpaqueBool', 'SymBool', 'Arr', 'Tot', 'NpList', 'Token', 'PlotTok', 'Figure', 'Param', 'Opaque', 'Lib', 'LibMember', 'Result', 'PoolModel')

def is_engine_error(ex):
    """An exception which stems from the abstraction rather than from the program: raised inside a library summary, or a host operation that the abstract
    values do not support (the concrete value might).  Such a trace is undecided, never reported."""
    if getattr(ex, '__sa_modelled__', False): return False
    tb = ex.__traceback__
    last = None
    while tb is not None: last = tb; tb = tb.tb_next
    if last is None: return False
    f = last.tb_frame.f_code.co_filename
    base = os.path.basename(f)
    if os.path.dirname(os.path.abspath(f)) == _ENGINE_DIR and base not in ('interp.py', 'num.py'): return True
    if isinstance(ex, AttributeError):
        o = getattr(ex, 'obj', None)
        if type(o).__name__ in _ENGINE_TYPES and type(o).__module__.startswith('sa.'): return True
    if isinstance(ex, TypeError):
        m = str(ex)
        if 'NoneType' not in m and any(f"'{t}'" in m or m.endswith(f'not {t}') or f"not '{t}'" in m for t in _ENGINE_TYPES): return True
    return False
