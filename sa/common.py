"""Obligations, recording and reporting shared by the checks."""
import os, sys, time, json, traceback, multiprocessing as mp
from .num import CTX, Undecided, Num, KLimit
from .paths import explore, Violation, Infeasible, choose, assume
from .world import World, REPO
from .interp import is_engine_error

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FLAGS = ['__INCLUDE_SE_KERNEL', '__USE_LIN_KERNEL_HORIZONTAL_OFFSET', '__USE_NON_PURELY_PERIODIC_PER_KERNEL', '__FIX_SIGMOIDAL_KERNELS_SLOPE', '__USE_INDEPENDENT_SIDES_CHANGEWINDOW_KERNEL']
SHORT = dict(zip(['se', 'off', 'nonpure', 'fix', 'indep'], FLAGS))

def cfg(**kw): return {SHORT[k]: v for k, v in kw.items()}

def all_cfgs():
    import itertools
    return [dict(zip(FLAGS, c)) for c in itertools.product((False, True), repeat=5)]

def cfg_str(c): return 'default flags' if not c else ', '.join(f'{k.strip("_")}={v}' for k, v in c.items())


_WORLDS = {}

def world(config=None, mods=('',)):
    """A loaded world (one per flag combination and process)"""
    k = tuple(sorted((config or {}).items()))
    w = _WORLDS.get(k)
    if w is None:
        w = World(config)
        _WORLDS[k] = w
    w.load_all(*mods)
    return w

def drop_world(config=None): _WORLDS.pop(tuple(sorted((config or {}).items())), None)


def where_of(f):
    """Source construct of an analysed function / class / bound method"""
    f = getattr(f, '__func__', f)
    sa = getattr(f, '__sa__', None)
    if sa is not None:
        fi = sa[0]
        return f'{fi.file}:{fi.line} {fi.qual}'
    return getattr(f, '__qualname__', repr(f))


class Rec:
    """What a task established"""
    def __init__(self, task):
        self.task = task
        self.obl = {}          # rule -> [decided, undecided, beyond k-limit]
        self.viol = []
        self.undec = {}
        self.visited = set()
        self.samples = []
        self.notes = []

    def add(self, rule, kind):
        o = self.obl.setdefault(rule, [0, 0, 0])
        o[{'ok': 0, 'undecided': 1, 'klimit': 2, 'truncated': 2}[kind]] += 1

    def violation(self, rule, where, detail, path=(), construct=None):
        if sum(1 for v in self.viol if v['rule'] == rule) < 6:
            self.viol.append({'rule': rule, 'where': where, 'detail': str(detail)[:1500], 'path': list(path)[-25:], 'construct': construct or where, 'task': self.task})

    def explore(self, rule, fn, w=None, max_paths=4000, deadline=None, crash='total', where=None, crash_ok=None):
        """Analyse fn on each of its partitions; each partition is an obligation of `rule`"""
        n = 0
        for o in explore(fn, max_paths, deadline, w):
            n += 1
            if o.kind == 'ok':
                self.add(rule, 'ok')
                if len(self.samples) < 4 and (n in (1, 7)): self.samples.append(f'{rule}: partition {o.log[-6:]} discharged')
            elif o.kind == 'violation':
                e = o.exc
                self.violation(e.rule, e.where, e.detail, o.log, e.construct)
            elif o.kind == 'crash':
                tb = getattr(o.exc, '__sa_tb__', [])
                if crash is None or (crash_ok is not None and crash_ok(o.exc)): self.add(rule, 'ok'); continue
                if not tb:   # not raised within analysed code: a gap of the machinery
                    self.add(rule, 'undecided')
                    self.undec[f'internal: {o.msg} {"".join(traceback.format_tb(o.exc.__traceback__)[-2:])}'[:600]] = 1
                    continue
                f, l, q = tb[0]
                chain = ' <- '.join(f'{a}:{b} {c}' for a, b, c in tb[:8])
                self.violation(f'{rule}/{crash}', f'{f}:{l} {q}', f'{o.msg}   [{chain}]' + (f' (in {where})' if where else ''), o.log)
            else:
                self.add(rule, o.kind)
                k = (o.msg or o.kind)[:200]
                tb = getattr(o.exc, '__sa_tb__', None)
                if tb: k += f' @ {tb[0][0]}:{tb[0][1]}'
                self.undec[k] = self.undec.get(k, 0) + 1
        if w is not None: self.visited |= w.interp.visited
        return n

    def dump(self):
        return {'task': self.task, 'obl': self.obl, 'viol': self.viol, 'undec': self.undec, 'visited': sorted(self.visited), 'samples': self.samples, 'notes': self.notes}


def run_task(arg):
    modname, label, fname, args = arg
    import importlib
    sys.setrecursionlimit(12000)
    R = Rec(label); t0 = time.time()
    try:
        m = importlib.import_module(f'sa.checks.{modname}')
        getattr(m, fname)(R, *args)
    except Violation as e:
        R.violation(e.rule, e.where, e.detail, [], e.construct)
    except Undecided as e:
        R.add('setup', 'undecided'); R.undec[f'task abandoned: {type(e).__name__}: {e}'[:400]] = 1
    except RecursionError as e:
        R.add('setup', 'undecided'); R.undec['task abandoned: recursion'] = 1
    except Exception as e:
        tb = getattr(e, '__sa_tb__', None)
        if tb and not is_engine_error(e):
            f, l, q = tb[0]
            R.violation('loads', f'{f}:{l} {q}', f'{type(e).__name__}: {e}')
        else:
            R.add('setup', 'undecided')
            R.undec[('task abandoned: ' + ''.join(traceback.format_exception(e))[-1500:])] = 1
    d = R.dump(); d['wall'] = round(time.time() - t0, 2)
    return d


def _child(conn, arg):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        import threading
        threading.stack_size(512 << 20)
        box = []
        t = threading.Thread(target=lambda: box.append(run_task(arg)))
        t.start(); t.join()
        conn.send(box[0] if box else None)
    except BaseException as e:
        try: conn.send(None)
        except Exception: pass
    finally: conn.close()


def run_tasks(tasks, jobs=8, limit=800):
    """Each task in a process of its own, at most `jobs` at a time; a task that outlives the limit is recorded as undecided"""
    ctx = mp.get_context('fork')
    todo = list(tasks)[::-1]; live = []; out = []
    t_end = time.time() + limit
    while todo or live:
        while todo and len(live) < jobs and time.time() < t_end:
            t = todo.pop(); a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, t)); p.start(); b.close()
            live.append((p, a, t))
        from multiprocessing.connection import wait
        ready = wait([a for _, a, _ in live], timeout=max(0.1, min(5, t_end - time.time())))
        for e in list(live):
            p, a, t = e
            if a in ready:
                try: r = a.recv()
                except EOFError: r = None
                out.append(r or {'task': t[1], 'obl': {'setup': [0, 1, 0]}, 'viol': [], 'undec': {'task process ended': 1}, 'visited': [], 'samples': [], 'notes': [], 'wall': 0})
                p.join(); a.close(); live.remove(e)
        if time.time() > t_end:
            for p, a, t in live:
                p.kill(); p.join()
                out.append({'task': t[1], 'obl': {'setup': [0, 0, 1]}, 'viol': [], 'undec': {f'task {t[1]}: time limit': 1}, 'visited': [], 'samples': [], 'notes': [], 'wall': limit})
            for t in todo: out.append({'task': t[1], 'obl': {'setup': [0, 0, 1]}, 'viol': [], 'undec': {f'task {t[1]}: not started within the time limit': 1}, 'visited': [], 'samples': [], 'notes': [], 'wall': 0})
            break
    return out
