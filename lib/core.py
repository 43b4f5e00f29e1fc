"""Runner shared by all checks: seeds, workers, monitors' counters, evidence, replay, verdicts."""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
import zlib
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

_monotonic = time.monotonic


class Violation(BaseException):
    """The monitor saw the property broken.

    Not an Exception, so that the code under test does not swallow it when it is raised in a callback.
    """

    def __init__(self, _text, /, **data):
        BaseException.__init__(self, _text)
        self.data = data


class CaseTimeout(BaseException):
    pass


def require(cond, _text, /, **data):
    if not cond:
        raise Violation(_text, **data)


class Ctx(object):
    """What the monitors of one worker observed."""

    def __init__(self, tier):
        self.tier = tier
        self.events = {}
        self.states = set()
        self.samples = {}
        self.known = {}

    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def state(self, *sig):
        """Record a distinct abstract state or behaviour the monitors saw."""
        self.states.add(hashlib.blake2b(repr(sig).encode('utf-8', 'backslashreplace'), digest_size=8).digest())

    def sample(self, kind, text):
        lst = self.samples.setdefault(kind, [])
        if len(lst) < 3:
            lst.append(str(text)[:300])

    def known_finding(self, key):
        self.known[key] = self.known.get(key, 0) + 1


def setup_target(virtual_clock=True):
    """Make the code under test importable from /repo, silence it and check where it came from."""
    sys.dont_write_bytecode = True
    if virtual_clock:
        from lib import vclock
        vclock.install()
    # import what the code under test needs first, so that only the code itself is compiled anew
    import lxml.etree, lxml.html, six, cryptography.hazmat.backends.openssl.backend  # noqa: F401,E401
    sys.pycache_prefix = '/nonexistent/verif-pycache'
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import openid
    assert os.path.realpath(openid.__file__).startswith(os.path.realpath(REPO) + os.sep), openid.__file__


# --- coverage of the code under test, as evidence -------------------------------------------------

_lines = {}


def start_coverage():
    mon = getattr(sys, 'monitoring', None)
    if mon is None or os.environ.get('VERIF_NOCOV'):
        return
    root = os.path.realpath(REPO) + os.sep + 'openid' + os.sep
    try:
        mon.use_tool_id(mon.COVERAGE_ID, 'verif')
    except ValueError:
        return

    def on_line(code, line):
        fn = code.co_filename
        if fn.startswith(root):
            _lines.setdefault(fn[len(root):], set()).add(line)
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


# --- running ---------------------------------------------------------------------------------------

# chosen anew for every case: long-lived objects or new ones for every request, and such habits of an application
habit = [0]


def case_rng(seed, prop, scenario, index):
    return random.Random('%s:%s:%s:%s' % (seed, prop, scenario, index))


def run_one(module, ctx, seed, scenario, index, limit=None):
    func = dict((s[0], s[1]) for s in module.SCENARIOS)[scenario]
    rng = case_rng(seed, module.PROP, scenario, index)
    habit[0] = zlib.crc32(('%s:%s:%s:%s' % (seed, module.PROP, scenario, index)).encode())
    limit = limit or getattr(module, 'CASE_LIMIT', 120)

    def on_alarm(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        from lib import vclock
        vclock.clock.set(vclock.EPOCH)
        func(rng, ctx)
        return None
    except Violation as v:
        return {'message': str(v), 'data': _plain(v.data), 'trace': traceback.format_exc(limit=-6)}
    except CaseTimeout:
        return {'message': 'case did not finish within %s s' % limit, 'data': {},
                'trace': traceback.format_exc(limit=-12)}
    except Exception as e:
        return {'message': 'unexpected %s: %s' % (type(e).__name__, e), 'data': {},
                'trace': traceback.format_exc(limit=-12)}
    finally:
        signal.alarm(0)


def _plain(v):
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, set, frozenset)):
        return [_plain(x) for x in v]
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return repr(v)


def worker(module, tier, seed, jobs, queue, deadline):
    ctx = Ctx(tier)
    start_coverage()
    done = {}
    failures = []
    try:
        if hasattr(module, 'worker_init'):
            module.worker_init(ctx)
        for scenario, index in jobs:
            if _monotonic() > deadline:
                break
            res = run_one(module, ctx, seed, scenario, index)
            done[scenario] = done.get(scenario, 0) + 1
            if res is not None:
                res.update(scenario=scenario, index=index)
                failures.append(res)
                break
    except BaseException:
        failures.append({'harness': True, 'message': 'harness failure', 'data': {},
                         'trace': traceback.format_exc(), 'scenario': None, 'index': None})
    finally:
        if hasattr(module, 'worker_exit'):
            try:
                module.worker_exit(ctx)
            except Exception:
                pass
        queue.put((done, failures, ctx.events, ctx.states, ctx.samples, ctx.known,
                   {k: sorted(v) for k, v in _lines.items()}))
        queue.close()
        queue.join_thread()
        os._exit(0)


def load_known(prop):
    """Entries of the known-findings file for this property: {key: description}."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(path):
        with open(path) as f:
            for e in json.load(f).get('known', []):
                if e['property'] == prop:
                    out[e['key']] = e['what']
    return out


def main(argv):
    if len(argv) < 2:
        print('usage: check.py ID quick|thorough | check.py --replay FILE', file=sys.stderr)
        return 2
    replay = None
    if argv[0] == '--selftest':
        # nothing to build: check that the code under test and every module of the framework load
        names = sorted(n[:-3] for n in os.listdir(os.path.join(VERIF, 'checks')) if n.startswith('c') and n.endswith('.py'))
        for n in names:
            try:
                importlib.import_module('checks.' + n)
            except Exception:
                traceback.print_exc()
        print('%d checks load, code under test at %s' % (len(names), REPO))
        return 0
    if argv[0] == '--replay':
        with open(argv[1]) as f:
            replay = json.load(f)
        prop, tier, seed = replay['property'], replay['tier'], replay['seed']
    else:
        prop, tier = argv[0], argv[1]
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
    t0 = _monotonic()
    module = importlib.import_module('checks.' + prop.lower())
    known = load_known(prop)

    if replay is not None:
        ctx = Ctx(tier)
        if hasattr(module, 'worker_init'):
            module.worker_init(ctx)
        res = run_one(module, ctx, seed, replay['scenario'], replay['index'])
        if res is None:
            print('replay of %s: property held' % prop)
            return 0
        print(res['message'])
        print(json.dumps(res['data'], indent=1, default=repr))
        print(res['trace'])
        print('VIOLATION property=%s replay=%s' % (prop, argv[1]))
        return 1

    ncpu = getattr(module, 'WORKERS', 8)
    ncpu = max(1, min(ncpu, os.cpu_count() or 1))
    col = 2 if tier == 'quick' else 3
    budget = float(os.environ.get('VERIF_BUDGET') or getattr(module, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 780))
    scale = float(os.environ.get('VERIF_SCALE') or 1)
    jobs = []
    for sc in module.SCENARIOS:
        n = max(1, int(sc[col] * scale))
        jobs.extend((float(i) / n, sc[0], i) for i in range(n))
    jobs.sort()                       # interleave scenarios, so that a short budget still visits all of them
    jobs = [(s, i) for _, s, i in jobs]
    planned = len(jobs)
    deadline = t0 + budget
    queues = []
    procs = []
    mp = multiprocessing.get_context('fork')
    for w in range(ncpu):
        q = mp.Queue()
        p = mp.Process(target=worker, args=(module, tier, seed, jobs[w::ncpu], q, deadline))
        p.start()
        procs.append(p)
        queues.append(q)
    done, failures, events, states, samples, knowns, lines = {}, [], {}, set(), {}, {}, {}
    lost = 0
    hard = deadline + getattr(module, 'CASE_LIMIT', 120) + 60
    for p, q in zip(procs, queues):
        try:
            while True:
                try:
                    d, f, e, s, sm, kn, ln = q.get(timeout=2)
                    break
                except Exception:
                    if not p.is_alive():
                        d, f, e, s, sm, kn, ln = q.get(timeout=2)
                        break
                    if _monotonic() > hard:
                        raise RuntimeError('worker stuck')
        except Exception:
            lost += 1
            p.kill()
            continue
        for k, v in d.items():
            done[k] = done.get(k, 0) + v
        failures.extend(f)
        for k, v in e.items():
            events[k] = events.get(k, 0) + v
        states |= s
        for k, v in sm.items():
            samples.setdefault(k, []).extend(v)
        for k, v in kn.items():
            knowns[k] = knowns.get(k, 0) + v
        for k, v in ln.items():
            lines.setdefault(k, set()).update(v)
        p.join(5)
    if hasattr(module, 'finish'):
        # checks over everything observed (e.g. uniqueness between workers)
        try:
            module.finish(events)
        except Violation as v:
            failures.append({'message': str(v), 'data': _plain(v.data), 'trace': '', 'scenario': None, 'index': None})
    evaluations = sum(done.values())
    harness = [f for f in failures if f.get('harness')]
    failures = [f for f in failures if not f.get('harness')]
    rc = 0
    violations = len(failures)
    if failures:
        rc = 1
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for f in failures[:3]:
            path = os.path.join(rdir, '%s-%s-%s-%s.json' % (prop, seed, f['scenario'], f['index']))
            with open(path, 'w') as out:
                json.dump(dict(property=prop, tier=tier, seed=seed, **f), out, indent=1, default=repr)
            print('%s: %s [scenario %s, case %s]' % (prop, f['message'], f['scenario'], f['index']))
            print(json.dumps(f['data'], default=repr, ensure_ascii=True)[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, path))
    else:
        for key, n in sorted(knowns.items()):
            if key in known:
                print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
            else:
                rc = 1
                violations += 1
                print('%s: finding %r is not listed' % (prop, key))
                print('VIOLATION property=%s replay=%s' % (prop, 'none'))
        missing = [(k, v) for k, v in getattr(module, 'NEED', {}).items() if events.get(k, 0) < v]
        if not rc and (harness or lost):
            rc = 3
            for h in harness[:2]:
                print(h['trace'], file=sys.stderr)
            print('%s: inconclusive, %d workers lost' % (prop, lost + len(harness)), file=sys.stderr)
        elif not rc and missing:
            rc = 3
            print('%s: inconclusive, monitors saw too little: %s (events %s)' % (prop, missing, events), file=sys.stderr)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(states),
            'rule': module.RULE,
            'samples': [x for k in sorted(samples) for x in samples[k][:2]][:20] or ['(none)'],
            'planned_cases': planned,
            'cases_by_scenario': done,
            'monitor_events': dict(sorted(events.items())),
            'lines_of_target_executed': {k: len(v) for k, v in sorted(lines.items())},
        },
        'wall_s': round(_monotonic() - t0, 2),
        'violations': violations,
        'assumptions': getattr(module, 'ASSUMPTIONS', []) + ['environment stand-ins: virtual wall clock, in-process network unless stated otherwise'],
    }
    if os.environ.get('VERIF_COVDUMP'):
        with open(os.path.join(os.environ['VERIF_COVDUMP'], prop + '.lines'), 'w') as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s %s: %d cases, %d distinct states, %d violations, %.1f s, events %s' % (
        prop, tier, evaluations, len(states), violations, evidence['wall_s'],
        json.dumps(dict(sorted(events.items())))), file=sys.stderr)
    return rc
