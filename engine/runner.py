"""Explores the harnesses of one property, validates every explored path on the
unmodified package, replays counterexamples and writes the evidence."""
import heapq
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLICE = 4.0             # seconds a worker explores before it hands the rest back

PATH_CPU_S = 20.0       # processor time one symbolic path may take (usual: milliseconds)
RUN_CPU_S = 8.0         # processor time one concrete run may take (usual: less than a millisecond)

_w = {}                 # worker state


class Hang(BaseException):
    """the code under test does not come to an end"""


class limit:
    """raises Hang in the block when it has used so much processor time"""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def stop(*a):
            raise Hang()
        self.old = signal.signal(signal.SIGVTALRM, stop)
        # repeated, in case the exception is raised inside of a destructor or a callback that drops it
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds, 5)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False


def _begin_worker():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def _load():
    """in a worker (or in the parent before forking)"""
    from . import core, instrument
    from .symprovider import Sym
    from .sym import Val
    from .provider import Conc
    _w['Val'] = Val
    _w['core'], _w['Sym'], _w['Conc'] = core, Sym, Conc
    _w['sym'] = instrument.load(True)
    _w['plain'] = instrument.load(False)


def _functions(lib):
    """names of the repository functions entered during exploration"""
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    seen = set()
    root = os.path.join(_w['root'], 'enolib')

    def start(code, off):
        if code.co_filename.startswith(root):
            seen.add(os.path.relpath(code.co_filename, root) + ':' + code.co_qualname)
        return mon.DISABLE
    try:
        mon.use_tool_id(tool, 'verif')
    except ValueError:
        return seen
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return seen


def conc_run(lib, fn, inputs, params):
    """-> (status, message, known, notes, witness)"""
    from .provider import Conc, Failed, Skip
    lib.activate()
    S = Conc(lib, inputs)
    try:
        with limit(RUN_CPU_S):
            fn(S, **params)
        return 'ok', None, None, S.notes, S.witness
    except Hang:
        return 'failed', 'no end within %g s of processor time' % RUN_CPU_S, None, S.notes, S.witness
    except Failed as f:
        return 'failed', f.msg, f.known, S.notes, S.witness
    except Skip:
        return 'skip', None, None, S.notes, S.witness
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' at %s:%s' % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else ''
        return 'failed', 'unexpected %s: %s%s' % (type(e).__name__, e, where), None, S.notes, S.witness


def explore(job):
    """explore one unit from one prefix for at most SLICE seconds"""
    modname, hname, params, prefix, deadline, seed, slice_s = job
    rng = random.Random(seed)
    core = _w['core']
    if 'seen' not in _w:
        _w['root'] = os.path.join(os.environ.get('ENOLIB_REPO', '/repo'), 'python')
        _w['seen'] = _functions(_w['sym'])
    mod = importlib.import_module(modname)
    fn = mod.HARNESSES[hname]['fn']
    eng = core.Engine()
    eng.solver.set('random_seed', seed & 0xffff)
    eng.prefix = tuple(prefix)
    S = _w['Sym'](_w['sym'], eng)
    res = dict(key=(hname, json.dumps(params, sort_keys=True)), stats=None, violations=[], known=[],
               errors=[], rest=[], witness=set(), samples=[], funcs=None)
    st = eng.stats
    t0 = time.time()
    more = True

    def body():
        S.begin()
        return fn(S, **params)

    while more:
        now = time.time()
        if now - t0 > slice_s or now > deadline:
            res['rest'] = _pending(eng)
            break
        _w['sym'].activate()
        outcome, msg, known = 'ok', None, None
        eng.audit = st.paths % 50 == 0
        try:
            with limit(PATH_CPU_S):
                eng.run_path(body)
        except Hang:
            outcome, msg = 'inconclusive', 'no end within %g s of processor time' % PATH_CPU_S
        except core.PathAbort:
            outcome = 'abort'
        except core.Violation as v:
            outcome, msg, known = 'failed', v.msg, v.known
        except core.Inconclusive as i:
            outcome, msg = 'inconclusive', i.why
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ' at %s:%s' % (os.path.basename(tb[-1].filename), tb[-1].name) if tb else ''
            outcome, msg = 'failed', 'unexpected %s: %s%s' % (type(e).__name__, e, where)
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        if outcome == 'abort':
            st.aborted += 1
            more = eng.backtrack()
            continue
        st.paths += 1
        try:
            if outcome == 'ok':
                if eng.audit:
                    st.audited_paths += 1
                if not eng.settle():
                    res['errors'].append('the solver refutes a decision made by propagation')
            feasible = eng.model()
        except core.Inconclusive as i:
            feasible = None
            outcome, msg = 'inconclusive', i.why
        except Exception:
            if outcome != 'inconclusive':
                raise
            feasible = None         # interrupted inside of the engine
        if not feasible:
            if outcome == 'inconclusive':
                st.cut.append('inconclusive: ' + str(msg)[:150])
            else:
                res['errors'].append('infeasible path reported by the solver')
            more = eng.backtrack()
            continue
        val = _w['Val'](eng, rng)
        inputs = S.inputs(val)
        status, cmsg, cknown, notes, wit = conc_run(_w['plain'], fn, inputs, params)
        res['witness'] |= wit
        if outcome == 'inconclusive':
            c = 'inconclusive: ' + str(msg)[:150]
            if c not in st.cut:
                st.cut.append(c)
        if status == 'failed':
            rec = dict(harness=hname, params=params, inputs=inputs, msg=cmsg)
            if cknown:
                rec['known'] = cknown
                if len(res['known']) < 3:
                    res['known'].append(rec)
            else:
                res['violations'].append(rec)
                break
        elif outcome == 'failed':
            res['errors'].append('counterexample not reproduced by the real code: %s %r %r: %s' % (
                hname, params, inputs, msg))
        elif outcome == 'ok':
            want = S.eval_notes(val)
            if status != 'ok' or want != notes:
                res['errors'].append('model and implementation disagree on %s %r %r: %s\n  model %r\n  code  %r' % (
                    hname, params, inputs, status, want, notes))
            else:
                st.validated += 1
                if st.paths % 97 == 1 and len(res['samples']) < 2:
                    res['samples'].append(dict(harness=hname, params=params, inputs=inputs, notes=notes))
        if len(res['errors']) > 5:
            break
        more = eng.backtrack()
    res['stats'] = st.as_dict()
    res['funcs'] = set(_w['seen'])
    _w['seen'].clear()
    return res


def _pending(eng):
    """what backtracking has selected next plus every untried alternative"""
    if not eng.trace:
        return [eng.prefix]
    out = [tuple(n.val if n.f is not None else (n.cache if isinstance(n.cache, int) else None)
                 for n in eng.trace)]
    return out + eng.pending()


def run(prop, tier, seed, jobs=None, budget=None, only=None):
    from . import core
    t0 = time.time()
    sys.path.insert(0, VERIF)
    modname = 'harness.' + prop.lower()
    mod = importlib.import_module(modname)
    _load()
    budget = budget or float(os.environ.get('VERIF_BUDGET', 0)) or \
        getattr(mod, 'BUDGET', {}).get(tier) or (150 if tier == 'quick' else 3000)
    deadline = t0 + budget
    rng = random.Random(seed)
    queue, n = [], 0
    per, outstanding = {}, {}

    def put(pr, h, p, prefix):
        nonlocal n
        n += 1
        heapq.heappush(queue, (pr, n, h, p, prefix))
        key = (h, json.dumps(p, sort_keys=True))
        outstanding[key] = outstanding.get(key, 0) + 1

    for h, spec in mod.HARNESSES.items():
        if only and h not in only:
            continue
        us = spec['units'](tier)
        b = spec['bounds']
        per[h] = dict(units=len(us), units_completed=0, paths=0, bounds=b[tier] if isinstance(b, dict) else b)
        for k, p in enumerate(us):
            # interleave the harnesses: each progresses from its first units on
            put(k / len(us), h, p, ())
    stats, viol, known, errors, witness, samples, funcs = [], [], {}, [], set(), [], set()
    jobs = jobs or int(os.environ.get('VERIF_JOBS', 0)) or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    stop = False
    with ctx.Pool(jobs, _begin_worker) as pool:
        running = []
        while running or (queue and not stop and time.time() < deadline):
            while queue and len(running) < jobs + 2 and not stop and time.time() < deadline:
                pr, _, h, p, prefix = heapq.heappop(queue)
                running.append((pool.apply_async(
                    explore, ((modname, h, p, prefix, deadline, rng.randrange(1 << 16),
                              SLICE if len(queue) > 4 * jobs else 0.3),)), h, p, pr))
            done = [r for r in running if r[0].ready()]
            if not done:
                time.sleep(0.003)
                if time.time() > deadline + 100:
                    errors.append('a path did not finish within 100 s of the deadline')
                    pool.terminate()
                    break
                continue
            for r in done:
                running.remove(r)
                res = r[0].get()
                key = res['key']
                for prefix in res['rest']:
                    put(r[3], r[1], r[2], prefix)
                outstanding[key] -= 1
                if not outstanding[key] and not res['violations'] and not res['errors']:
                    per[key[0]]['units_completed'] += 1
                per[key[0]]['paths'] += res['stats']['paths']
                stats.append(res['stats'])
                witness |= res['witness']
                funcs |= res['funcs']
                samples.extend(res['samples'])
                errors.extend(res['errors'])
                for k in res['known']:
                    known.setdefault(k['known'], k)
                viol.extend(res['violations'])
                if viol or len(errors) > 20:
                    stop = True
    tot = core.merge_stats(stats) if stats else core.Stats().as_dict()
    return dict(mod=mod, per=per, stats=tot, violations=viol, known=known, errors=errors,
                witness=witness, samples=samples, funcs=funcs, stopped=stop,
                unfinished=sum(1 for v in outstanding.values() if v), wall=time.time() - t0, budget=budget)
