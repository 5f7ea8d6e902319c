"""C11: fitted parameters are matched to the right terms."""
from ..fitted import *

RULE = ('Abstract interpretation of building the kernel of an expression, fitting it (the optimiser returns one fresh symbol per kernel parameter) and matching the parameters back, through GPModel. '
        'One obligation per expression shape and flag combination: the expression annotated with its parameters is, node by node, the tree of the fitted kernel with the same symbols, as multisets of terms.')
ASSUMPTIONS = ['summaries of GPy and paramz (naming of repeated parameters, flattening of sums and products; sa/models_lib.py)', 'expression shapes: all canonical ones with at most 2 leaves, a selection with 3 (thorough: all, and all of 4 leaves over LIN and PER), and larger selected ones']


def t_match(R, part, flags):
    w = world(flags, ('KernelExpressions.all', 'Models.model'))
    K = KE(w); KK = Kernels(w)
    f = w.get('KernelExpansion.kernelOperations:fit_ker_to_kex_with_params')
    from copy import deepcopy
    for t in part:
        def go():
            if not trees.Gen(KINDS, K.off).ok(t) if not isinstance(t, str) and t[0] in 'SP' else False: return
            m, x = fit(w, K, t)
            desc = show(K.read(x))
            y = f(m.model.kern, deepcopy(x))
            if y is None: y = x
            want = single(canon(KK.read(m.model.kern)))
            wh = where_of(type(y).match_up_fit_parameters)
            try: got = single(said(K, y))
            except Violation as e: raise Violation(e.rule, wh, f'in {desc}: {e.detail}')
            if got != want: raise Violation('attached', wh, f'{desc} is annotated as {got} while the fitted kernel is {want}')
        R.explore('matching', go, w)


def chunks(xs, n): return [xs[i::n] for i in range(n)]

def tasks(tier):
    T = []
    F = forests(tier, True)
    for fl in ({}, cfg(off=False, fix=False)) if tier == 'quick' else (cfg(off=True, fix=True), cfg(off=False, fix=True), cfg(off=True, fix=False), cfg(off=False, fix=False), cfg(nonpure=True), cfg(se=True)):
        for i, c in enumerate(chunks(F, 8 if tier == 'quick' else 24)): T.append((f'matching {i} {cfg_str(fl)}', 't_match', (c, fl)))
    return T
