"""Runner: generated-input search over sub-checks, shrinking, replay, evidence."""
import collections
import copy
import functools
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings

from . import boot

MAX_WORKERS = 8
CHECK_DEADLINE_S = 840


class Violation(AssertionError):
    """The code under test broke the property."""


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


class Cov(object):
    """Coverage of one evaluated case."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, flag=True):
        self.is_nontrivial = self.is_nontrivial or bool(flag)


class Sub(object):
    """One executable sub-check: strategy() -> JSON-able case; check(case, cov)."""

    def __init__(self, name, strategy, check, quick, thorough, enum=None, shards=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.enum = enum      # callable -> list of cases (complete enumeration)
        self.shards = shards


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def reset_global_state():
    import sympl
    sympl.set_backend(sympl.DataArrayBackend())
    sympl.reset_constants()
    from sympl._core import tracers
    tracers.reset_tracers()
    tracers.reset_packers()


def through_sympl(tb):
    root = os.path.realpath(os.path.join(boot.REPO, 'sympl')) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def evaluate(sub, case, cov):
    """Run one case. Raises Violation or HarnessError."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            reset_global_state()
            sub.check(copy.deepcopy(case), cov)
        except Violation:
            raise
        except Exception as err:
            # not a Violation, so unexpected: an error the code under test
            # raised on a valid input is a violation, one of ours is not
            if through_sympl(err.__traceback__):
                tail = ''.join(traceback.format_exception(type(err), err, err.__traceback__)[-6:])
                raise Violation('unexpected {}: {}\n{}'.format(type(err).__name__, err, tail)) from err
            if not isinstance(err, (MemoryError, OSError)):
                # (a check understands everything the unchanged tree gives)
                raise Violation('the check could not make sense of what it was given: {}'.format(
                    traceback.format_exc())) from err
            raise HarnessError(traceback.format_exc()) from err


def derive_seed(*parts):
    digest = hashlib.sha256('|'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(digest[:6], 'big')


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True, default=repr).encode()).digest()[:8]


def run_shard(prop, sub, n, seed):
    """Runs in a worker process; returns a plain dict."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis.internal.conjecture import engine
    if hasattr(engine, 'MAX_SHRINKING_SECONDS'):
        engine.MAX_SHRINKING_SECONDS = 45
    out = {'sub': sub.name, 'evaluations': 0, 'keys': set(), 'labels': collections.Counter(),
           'samples': [], 'violation': None, 'error': None}
    state = {'failure': None}

    def body(case):
        cov = Cov()
        try:
            evaluate(sub, case, cov)
        except Violation as err:
            state['failure'] = (case, str(err))
            raise
        finally:
            if state['failure'] is None:
                out['evaluations'] += 1
                out['labels'].update(set(cov.labels))
                if cov.is_nontrivial:
                    key = case_key(case)
                    if key not in out['keys'] and len(out['samples']) < 2 and out['evaluations'] > 5:
                        text = json.dumps(case, default=repr)
                        if len(text) < 3000:
                            out['samples'].append(case)
                    out['keys'].add(key)

    try:
        if sub.enum is not None:
            for case in sub.enum():
                body(case)
        else:
            test = given(sub.strategy())(body)
            test = settings(
                max_examples=n, database=None, deadline=None,
                suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                phases=(Phase.generate, Phase.shrink), print_blob=False)(test)
            test = hypothesis.seed(seed)(test)
            test()
    except HarnessError as err:
        out['error'] = str(err)
    except BaseException as err:
        if state['failure'] is not None:  # includes Flaky: we saw a real failure
            pass
        else:
            out['error'] = ''.join(traceback.format_exception(type(err), err, err.__traceback__))
    if state['failure'] is not None:
        out['error'] = None
        out['violation'] = {'case': state['failure'][0], 'message': state['failure'][1]}
    return out


def _worker(prop, sub, n, seed, conn):
    devnull = open(os.devnull, 'w')
    os.dup2(devnull.fileno(), 1)
    try:
        result = run_shard(prop, sub, n, seed)
    except BaseException:
        result = {'sub': sub.name, 'evaluations': 0, 'keys': set(),
                  'labels': collections.Counter(), 'samples': [], 'violation': None,
                  'error': traceback.format_exc()}
    conn.send(result)
    conn.close()
    os._exit(0)


def scratch():
    """A new directory, inside one that is removed when the run ends."""
    return tempfile.mkdtemp(prefix='case_', dir=os.environ['PBT_SCRATCH'])


def with_scratch(func):
    @functools.wraps(func)
    def wrapped(*args, **kwargs):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        folder = tempfile.mkdtemp(prefix='pbt_', dir=base)
        os.environ['PBT_SCRATCH'] = folder
        try:
            return func(*args, **kwargs)
        finally:
            shutil.rmtree(folder, ignore_errors=True)
    return wrapped


@with_scratch
def run_check(prop_id, module, tier, seed):
    """Runs every sub-check of a property; returns the exit code."""
    start = time.time()
    ctx = multiprocessing.get_context('fork')
    tasks = []
    scale = float(os.environ.get('PBT_SCALE', '1'))
    only = os.environ.get('PBT_SUB')
    from . import cross
    subs = list(module.SUBS) + cross.subs(prop_id)
    for sub in subs:
        if only and sub.name not in only.split(','):
            continue
        n = sub.quick if tier == 'quick' else sub.thorough
        n = max(1, int(n * scale))
        if sub.enum is not None:
            tasks.append((sub, 0, 0))
            continue
        shards = sub.shards or max(1, min(MAX_WORKERS, n // 60))
        for i in range(shards):
            tasks.append((sub, -(-n // shards), derive_seed(seed, tier, prop_id, sub.name, i)))
    pending = list(reversed(tasks))
    running = []
    results = []
    timed_out = False
    violation = None
    while (pending or running) and violation is None:
        while pending and len(running) < MAX_WORKERS:
            sub, n, s = pending.pop()
            parent, child = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(prop_id, sub, n, s, child))
            p.start()
            child.close()
            running.append((p, parent, sub))
        ready = multiprocessing.connection.wait([r[1] for r in running], timeout=1.0)
        for item in list(running):
            p, conn, sub = item
            if conn in ready:
                try:
                    results.append(conn.recv())
                except EOFError:
                    results.append({'sub': sub.name, 'evaluations': 0, 'keys': set(),
                                    'labels': collections.Counter(), 'samples': [],
                                    'violation': None, 'error': 'worker died'})
                p.join()
                running.remove(item)
                if results[-1]['violation'] is not None:
                    violation = results[-1]
        limit = CHECK_DEADLINE_S if tier == 'quick' else CHECK_DEADLINE_S * 12
        if time.time() - start > limit:
            timed_out = True
            break
    for p, conn, sub in running:
        p.kill()
        p.join()

    errors = [r for r in results if r['error']]
    exhaustive_subs = [s.name for s in subs if s.enum is not None]
    keys = set()
    labels = collections.OrderedDict()
    samples = []
    per_sub = collections.OrderedDict()
    for r in results:
        keys.update((r['sub'], k) for k in r['keys'])
        d = per_sub.setdefault(r['sub'], {'evaluations': 0, 'distinct_nontrivial': 0})
        d['evaluations'] += r['evaluations']
        for k, v in sorted(r['labels'].items()):
            name = '{}: {}'.format(r['sub'], k)
            labels[name] = labels.get(name, 0) + v
        have = sum(1 for s in samples if s['sub'] == r['sub'])
        for s in r['samples']:
            if have < 2:
                samples.append({'sub': r['sub'], 'case': s})
                have += 1
    for name, _ in keys:
        per_sub[name]['distinct_nontrivial'] += 1
    evidence = {
        'property': prop_id, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(keys),
            'rule': module.RULE,
            'samples': samples,
            'per_subcheck': per_sub,
            'labels': labels,
            'enumerated_subchecks': exhaustive_subs,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - start, 3),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(boot.VERIF, 'evidence', prop_id + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write('\n')
    for line in known_findings(prop_id, module):
        print(line)
    if violation is not None:
        os.makedirs(os.path.join(boot.VERIF, 'replays'), exist_ok=True)
        path = os.path.join(boot.VERIF, 'replays', '{}-{}.json'.format(prop_id, violation['sub']))
        with open(path, 'w') as f:
            json.dump({'property': prop_id, 'sub': violation['sub'],
                       'case': violation['violation']['case'],
                       'message': violation['violation']['message']}, f, indent=1, default=repr)
            f.write('\n')
        print('sub-check {}: {}'.format(violation['sub'], violation['violation']['message']))
        print('minimal case: {}'.format(json.dumps(violation['violation']['case'], default=repr)[:4000]))
        print('VIOLATION property={} replay={}'.format(prop_id, path))
        return 1
    if errors:
        for r in errors[:3]:
            print('HARNESS ERROR in {}:\n{}'.format(r['sub'], r['error']), file=sys.stderr)
        return 2
    if timed_out:
        print('INCONCLUSIVE: time budget exhausted', file=sys.stderr)
        return 2
    print('ok property={} tier={} seed={} evaluations={} distinct_nontrivial={} wall_s={:.1f}'.format(
        prop_id, tier, seed, evidence['coverage']['evaluations'], len(keys), time.time() - start))
    return 0


def known_findings(prop_id, module):
    """Lines for the recorded, unrepaired findings that still reproduce."""
    path = os.path.join(boot.VERIF, 'known_findings.json')
    lines = []
    if not os.path.exists(path):
        return lines
    with open(path) as f:
        data = json.load(f)
    for entry in data.get('known', []):
        if entry['property'] != prop_id:
            continue
        probe = getattr(module, 'PROBES', {}).get(entry['id'])
        if probe is None:
            continue
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                reset_global_state()
                reproduces = probe()
            except Exception:
                reproduces = False
            if reproduces:
                lines.append('KNOWN-FINDING: property={} {}'.format(prop_id, entry['what']))
    return lines


@with_scratch
def replay(path, modules):
    with open(path) as f:
        data = json.load(f)
    module = modules(data['property'])
    from . import cross
    for sub in list(module.SUBS) + cross.subs(data['property']):
        if sub.name == data['sub']:
            try:
                evaluate(sub, data['case'], Cov())
            except Violation as err:
                print(str(err))
                print('VIOLATION property={} replay={}'.format(data['property'], path))
                return 1
            print('replayed {}: property {} holds on this case'.format(path, data['property']))
            return 0
    print('unknown sub-check {}'.format(data['sub']), file=sys.stderr)
    return 2
