"""C10: the stated intervals of application are where the component's sigmoidal factors are on."""
import re, itertools
from ..common import *
from ..num import FMT
from ..kes import *

RULE = ('Abstract interpretation of the interpretation text of a product with any combination of sigmoidal factors whose locations, widths and slopes are symbols: the analysis splits '
        'on every comparison of interval ends that the code makes (polyhedral path condition), so all orderings of the ends are covered. Per partition: an abstract point x is inside the '
        'intervals read back from the text iff it is inside the intersection of the factors\' own ranges; no stated interval is empty, none overlap; the slopes stated are those of the '
        'factors the ends come from, and are stated iff slopes are fitted.')
ASSUMPTIONS = ['window widths are positive (they are constrained so in the kernels)', 'ends are compared up to sets of measure zero']

N = r'⟦([^⟧|]*)(?:\|[^⟧]*)?⟧'
RX = re.compile(rf'(?P<until>until {N}(?: \(with change slope {N}\))?)|(?P<from>from {N}(?: \(with change slope {N}\))?)|'
                rf'(?P<between>between {N} and {N}(?: \(with (?:same change slopes {N}|change slopes {N} and {N})\))?)|(?P<nowhere>nowhere)')

def val(s): return FMT[s]

def read_text(text):
    out = []
    for m in RX.finditer(text):
        g = m.groups()
        if m['until']: out.append((None, val(g[1]), None, g[2]))
        elif m['from']: out.append((val(g[4]), None, g[5], None))
        elif m['between']: out.append((val(g[7]), val(g[8]), g[9] or g[10], g[9] or g[11]))
        else: out.append('nowhere')
    return out


def factors(kinds, fix):
    """[(kind, params, start or None, end or None)] with symbolic ends"""
    fs = []
    for i, k in enumerate(kinds):
        p = {'location': Num.atom(f'loc{i}')}
        if not fix: p['slope'] = Num.atom(f'slope{i}', pos=True)
        if k in ('SI', 'SIr'): p['width'] = Num.atom(f'width{i}', pos=True)
        fs.append((k, p))
    return fs


def inside(k, p, side):
    a = p['location']
    if k == 'S': return side(a)
    if k == 'Sr': return not side(a)
    b = a + p['width']
    if k == 'SI': return side(a) and not side(b)
    return not side(a) or side(b)


def t_text(R, kinds, fix, flags):
    w = world(flags, ('KernelExpressions.all',))
    K = KE(w)
    fs = factors(kinds, fix)
    def go():
        prod = K.Prod([]); s = K.Sum([])
        prod.parameters['ProductKE'] = [{'variance': Num.atom('v', pos=True)}]
        prod.parameters['LIN'] = [{'offset': Num.atom('o')} if K.off else {}]
        for k, p in fs: prod.parameters[k].append(dict(p))
        s.composite_terms = [prod]
        wh = 'GPy_ABCD/KernelExpansion/kernelInterpretation.py base_factors_interpretation'
        text = s.get_interpretation(sops=s)
        desc = ' * '.join(f'{k}({", ".join(f"{a}={b!r}" for a, b in p.items())})' for k, p in fs)
        ivs = read_text(text)
        if not ivs: raise Violation('range-stated', wh, f'no range of application in {text!r} for {desc}')
        if 'nowhere' in ivs and len(ivs) > 1: raise Violation('range-stated', wh, f'"nowhere" among other ranges in {text!r}')
        ivs = [i for i in ivs if i != 'nowhere']
        x = Num.atom('x')
        F = CTX.facts
        def side(e):   # is x to the right of e (x is not an end itself)
            if F.decide(x - e, '<'): return False
            d = e - x
            F.cons.append((d.n, '<'))
            return True
        for a, b, sa, sb in ivs:
            if a is not None and b is not None and not (a < b): raise Violation('empty-interval', wh, f'empty interval in {text!r} for {desc}')
            for e, sl, which in ((a, sa, 'start'), (b, sb, 'end')):
                if e is None: continue
                if fix:
                    if sl is not None: raise Violation('slope', wh, f'a slope is stated although slopes are fixed: {text!r}')
                    continue
                if sl is None: raise Violation('slope', wh, f'the slope of the {which} {e!r} is missing in {text!r}')
                cand = []
                for k, p in fs:
                    ends = {'S': [('start', p['location'])], 'Sr': [('end', p['location'])]}.get(k) or \
                           [('start' if k == 'SI' else 'end', p['location']), ('end' if k == 'SI' else 'start', p['location'] + p['width'])]
                    cand += [p['slope'] for wch, pos in ends if wch == which and pos == e]
                if not any(val(sl) == c for c in cand): raise Violation('slope', wh, f'{which} {e!r} is given slope {sl}, not that of its factor, in {text!r} for {desc}')
        want = all([inside(k, p, side) for k, p in fs])
        hits = [(a is None or side(a)) and (b is None or not side(b)) for a, b, _, _ in ivs]
        if any(hits) != want:
            raise Violation('range', wh, f'the text "{text.split("applies ")[-1].split(", and it")[0]}" {"excludes" if want else "includes"} a point which is {"inside" if want else "outside"} the range of {desc}')
        if sum(hits) > 1: raise Violation('overlap', wh, f'overlapping intervals in {text!r} for {desc}')
    R.explore('range', go, w, max_paths=40000)


def tasks(tier):
    T = []
    ks = ['S', 'Sr', 'SI', 'SIr']
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for m in itertools.combinations_with_replacement(ks, n):
            orders = set(itertools.permutations(m))
            seen = set()
            for o in sorted(orders):
                key = tuple(dict.fromkeys(o))
                if key in seen: continue   # only the order of the first occurrences matters to the parameters' order
                seen.add(key)
                for fix in (True, False):
                    if n >= 3 and fix: continue
                    T.append((f'{"*".join(o)} {"fixed" if fix else "free"} slopes', 't_text', (o, fix, cfg(fix=fix))))
    return T
