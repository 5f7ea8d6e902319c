"""Trace partitioning: the abstract state is split on every condition it does not determine, and every partition is analysed."""
import time
from .num import Facts, CTX, Undecided, KLimit, Num, p_str, reset_apps
from .interp import Budget, is_engine_error


class Violation(Exception):
    def __init__(self, rule, where, detail, construct=None):
        super().__init__(f'[{rule}] {where}: {detail}')
        self.rule = rule; self.where = where; self.detail = detail; self.construct = construct or where


class Infeasible(Undecided):
    """The current partition is empty (an assumption does not hold)"""


class Outcome:
    __slots__ = ('kind', 'msg', 'exc', 'log', 'value')
    def __init__(self, kind, msg, exc, log, value=None): self.kind = kind; self.msg = msg; self.exc = exc; self.log = log; self.value = value


class Chooser:
    def __init__(self): self.prefix = []; self.pos = 0; self.stack = []
    def start(self): self.pos = 0
    def __call__(self, label, options):
        if self.pos < len(self.stack):
            i = self.stack[self.pos][0]
            if self.stack[self.pos][2] != label: raise Undecided(f'non-deterministic analysis at {label}')
        else:
            i = 0; self.stack.append([0, len(options), label])
        self.pos += 1
        return options[i]
    def advance(self):
        del self.stack[self.pos:]
        while self.stack:
            self.stack[-1][0] += 1
            if self.stack[-1][0] < self.stack[-1][1]: return True
            self.stack.pop()
        return False


def explore(fn, max_paths=20000, deadline=None, world=None):
    """Analyse fn on every partition; yields an Outcome per partition (the last one of kind 'truncated' if a bound was hit)."""
    ch = Chooser(); n = 0
    while True:
        ch.start()
        facts = Facts(ch)
        CTX.facts = facts
        if world is not None: world.begin()
        try:
            v = fn()
            out = Outcome('ok', None, None, facts.log, v)
        except Infeasible: out = None
        except Undecided as e: out = Outcome('klimit' if isinstance(e, KLimit) else 'undecided', f'{type(e).__name__}: {e}', e, facts.log)
        except Violation as e: out = Outcome('violation', str(e), e, facts.log)
        except RecursionError as e: out = Outcome('undecided', 'host recursion', e, facts.log)
        except Exception as e:
            if is_engine_error(e): out = Outcome('undecided', f'library summary: {type(e).__name__}: {e}', e, facts.log)
            else: out = Outcome('crash', f'{type(e).__name__}: {e}', e, facts.log)
        if out is not None and out.kind in ('violation', 'crash'):
            try:
                if not facts.consistent(): out = None
            except Undecided: out = None
        if world is not None: world.end()
        n += 1
        if out is not None: yield out
        if not ch.advance(): return
        if n >= max_paths or (deadline is not None and time.time() > deadline):
            yield Outcome('truncated', f'partition bound reached after {n}', None, [])
            return


def choose(label, options):
    options = list(options)
    return options[0] if len(options) == 1 else CTX.facts.choose(('choice', label), options)


def assume(cond):
    if not cond: raise Infeasible('assumption')
