"""RestartMonitor gives back what was stored, and a crash does not lose it."""
import os
import shutil
import sys

import numpy as np
from hypothesis import strategies as st

from .. import build as B, boot, gen as G
from ..core import Sub, fail, scratch

RULE = ('Random states (dims, dtypes, NaN and infinities, attributes, timedelta and calendar times down to '
        'microseconds) stored once or several times over each other and loaded again by the same or another monitor. '
        'For crashes, a forked process is killed at a random executed line of sympl code, or before or after a '
        'random file operation, or such an operation raises OSError; afterwards the restart file, if it is there, '
        'must load as the old or the new state, and some file must. Non-trivial: a state with a quantity and a '
        'second store (round trip), a crash before the end of store (crash).')
ASSUMPTIONS = ['quantities have numeric dtypes that NetCDF knows (no bool, no strings)',
               'crash means the process ends; data the operating system already has is not lost']


def build_state(spec):
    state = {'time': B.make_time(spec['time'])}
    for n, q in spec['quantities'].items():
        da = B.writable(B.data_array(q, spec['lens']))
        if da.dtype.kind == 'f' and da.size > 1 and q['seed'] % 7 == 0:
            da.values.flat[q['seed'] % da.size] = [np.nan, np.inf, -np.inf, 1e30, 9.969209968386869e+36][q['seed'] % 5]
        state[n] = da
    return state


def difference(got, want):
    """None if the loaded state is the stored one, else what differs."""
    import sympl
    if set(got) != set(want):
        return 'quantities {} instead of {}'.format(sorted(got), sorted(want))
    a, b = got['time'], want['time']
    if type(a) is not type(b) and type(b).__name__ in ('timedelta', 'datetime') and not (
            getattr(a, 'calendar', None) and getattr(a, 'calendar', 1) == getattr(b, 'calendar', 2)):
        return 'time {!r} instead of {!r}'.format(a, b)
    cal = getattr(b, 'calendar', 'proleptic_gregorian')
    if cal != 'proleptic_gregorian' and getattr(a, 'calendar', None) != cal:
        return 'time {!r} instead of {!r}'.format(a, b)
    try:
        same = a == b
    except TypeError:  # of different calendars
        same = False
    if not same:
        return 'time {!r} instead of {!r}'.format(a, b)
    for n, q in want.items():
        if n == 'time':
            continue
        r = got[n]
        if not isinstance(r, sympl.DataArray) or list(r.dims) != list(q.dims):
            return '{} has dims {} instead of {}'.format(n, getattr(r, 'dims', type(r)), q.dims)
        if not isinstance(r.values, np.ndarray) or isinstance(r.values, np.ma.MaskedArray):
            return '{} is a {}'.format(n, type(r.values))
        if r.dtype.newbyteorder('=') != q.dtype.newbyteorder('=') or not np.array_equal(r.values, q.values, equal_nan=q.dtype.kind == 'f'):
            return '{} is {} {} instead of {} {}'.format(n, r.dtype, r.values.tolist(), q.dtype, q.values.tolist())
        if B.plain_attrs({k: r.attrs.get(k) for k in q.attrs}) != B.plain_attrs(q.attrs):
            return '{} has attrs {} instead of {}'.format(n, dict(r.attrs), dict(q.attrs))
    return None


def check_round_trip(case, cov):
    import sympl
    folder = scratch()
    try:
        path = os.path.join(folder, 'restart.nc')
        monitor = sympl.RestartMonitor(path)
        for k, spec in enumerate(case['states']):
            state = build_state(spec)
            snap = B.snapshot(state)
            monitor.store(state)
            if not B.same_snapshot(snap, B.snapshot(state)):
                fail('storing changed the state')
            reader = monitor if case['same'] else sympl.RestartMonitor(path)
            for _ in range(case['loads']):
                got = reader.load()
                d = difference(got, state)
                if d:
                    fail('loaded after store {}: {}', k, d)
                for n in got:  # what was loaded is ours to modify
                    if n != 'time':
                        got[n].values[...] = 0
            extra = set(os.listdir(folder)) - {'restart.nc'}
            if extra:
                fail('files {} are left after store', sorted(extra))
        cov.label(*['{} states'.format(len(case['states']))] + [s['time']['k'] for s in case['states']])
        cov.nontrivial(len(case['states']) > 1 and case['states'][0]['quantities'])
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@st.composite
def states(draw):
    lens = {d: draw(G.lengths) for d in ['x', 'y', 'z']}
    quantities = {}
    for n in draw(G.subset(['a', 'b_c', 'air_temperature', 'T'])):
        quantities[n] = {'dims': draw(G.subset(['x', 'y', 'z'])),
                         'units': draw(st.sampled_from(['m', 'degK', '', 'kg/kg', 's', '°N'])),
                         'dtype': draw(st.sampled_from(['float64', 'float64', 'float32', 'int64', 'int32', 'int8', 'uint8', 'int16'])),
                         'attrs': draw(st.sampled_from([{}, {}, {}, {'long_name': 'a name'}, {'level': 3}, {'_private': 'p', 'standard_name': 's'}, {'flags': [1, 2, 4]}, {'bad': float('nan')},
                             {'weights': [0.5, float('nan')], 'words': ['a', 'b']}, {'scale_factor': 0.5}, {'scale_factor': 0.1},
                             {'add_offset': 3.5}, {'missing_value': 1.}, {'valid_range': [0., 3.]}])),
                         'seed': draw(G.seeds)}
    time = draw(G.times(calendars=True))
    if time['k'] == 'td':
        time['us'] = draw(st.sampled_from([0, 1, 250000, 999999, 123456]))
    elif draw(st.booleans()):
        time['d'] = time['d'] + [draw(st.sampled_from([1, 250000, 999999, 123456]))]
    return {'lens': lens, 'quantities': quantities, 'time': time}


@st.composite
def round_trips(draw):
    return {'states': draw(st.lists(states(), min_size=1, max_size=3)), 'same': draw(st.booleans()),
            'loads': draw(st.integers(1, 2))}


# -------------------------------------------------------------------- crash
class Tracer(object):
    """Counts the lines of sympl code that are executed, and exits at one of them."""

    def __init__(self, stop):
        self.stop = stop
        self.count = 0
        self.root = os.path.realpath(os.path.join(boot.REPO, 'sympl')) + os.sep

    def __call__(self, frame, event, arg):
        if not os.path.realpath(frame.f_code.co_filename).startswith(self.root):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.count += 1
            if self.count == self.stop:
                os._exit(9)
        return self.local


OPS = ['rename', 'remove', 'unlink', 'replace', 'link', 'truncate', 'open']


def patch_ops(stop, how):
    counter = [0]
    for name in OPS:
        if not hasattr(os, name):
            continue

        def wrapped(*args, _real=getattr(os, name), **kwargs):
            counter[0] += 1
            if counter[0] == stop:
                if how == 'before':
                    os._exit(9)
                if how == 'error':
                    raise OSError(28, 'No space left on device')
                result = _real(*args, **kwargs)
                os._exit(9)
                return result
            return _real(*args, **kwargs)
        setattr(os, name, wrapped)
    import shutil as sh
    real_move = sh.move
    return counter, real_move


def in_child(action):
    """Runs the action in a forked process; returns (status, what it wrote)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            text = str(action())
            os.write(w, text.encode()[:60000])
            code = 0
        except OSError as err:
            os.write(w, 'OSError {}'.format(err).encode())
            code = 4
        except BaseException as err:
            os.write(w, '{} {}'.format(type(err).__name__, err).encode()[:4000])
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        piece = os.read(r, 65536)
        if not piece:
            break
        data += piece
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), data.decode()


def load_in_child(path, candidates):
    """Index of the candidate state the file holds, or why it is none of them."""
    import sympl

    def action():
        got = sympl.RestartMonitor(path).load()
        for k, c in enumerate(candidates):
            if difference(got, c) is None:
                return k
        return 'neither: ' + difference(got, candidates[-1])
    code, text = in_child(action)
    if code == 0 and text.isdigit():
        return int(text)
    return 'exit {}: {}'.format(code, text)


def check_crash(case, cov):
    import sympl
    folder = scratch()
    try:
        path = os.path.join(folder, 'restart.nc')
        old = build_state(case['old']) if case['old'] else None
        new = build_state(case['new'])
        new['which'] = sympl.DataArray(np.array([2.]), dims=['one'], attrs={'units': ''})
        if old is not None:
            old['which'] = sympl.DataArray(np.array([1.]), dims=['one'], attrs={'units': ''})
        monitor = sympl.RestartMonitor(path)
        if old is not None:
            for spec in case['before']:
                monitor.store(build_state(spec))
            monitor.store(old)

        if case['how'] == 'line':
            # how many lines does this store execute?
            other = os.path.join(folder, 'probe.nc')

            def probe():
                m = sympl.RestartMonitor(other)
                if old is not None:
                    m.store(old)
                t = Tracer(0)
                sys.settrace(t)
                m.store(new)
                sys.settrace(None)
                return t.count
            code, text = in_child(probe)
            if code != 0:
                fail('storing fails: {}', text)
            total = int(text)
            for f in os.listdir(folder):
                if f.startswith('probe'):
                    os.remove(os.path.join(folder, f))
            # the last lines, where files are moved, are the interesting ones
            back = case['k'] % (total + 1) if case['late'] is None else min(case['late'], total)
            stop = total - back

            def crash():
                t = Tracer(stop)
                sys.settrace(t)
                monitor.store(new)
                sys.settrace(None)
                return 'finished'
        else:
            def crash():
                patch_ops(case['op'], case['how'])
                monitor.store(new)
                return 'finished'
        code, text = in_child(crash)
        finished = code == 0
        if code not in (0, 9) and not (case['how'] == 'error' and code == 4):
            fail('store ended with {} {}', code, text)
        files = sorted(os.listdir(folder))
        candidates = ([old] if old is not None else []) + [new]
        found = {f: load_in_child(os.path.join(folder, f), candidates) for f in files}
        where = 'crash {} at {}'.format(case['how'], case.get('op') if case['how'] != 'line' else stop)
        if finished:
            if found != {'restart.nc': len(candidates) - 1}:
                fail('after store the files are {}', found)
        if 'restart.nc' in found and not isinstance(found['restart.nc'], int):
            fail('{}: the restart file is neither the old nor the new state: {}', where, found['restart.nc'])
        if old is not None and not any(isinstance(v, int) for v in found.values()):
            fail('{}: neither the old nor the new state is in any of the files {}', where, found)
        # while the incomplete file is there a store may be refused, but does not store something else
        if os.path.exists(path + '.new'):
            newer = build_state(case['newer'])
            newer['which'] = sympl.DataArray(np.array([3.]), dims=['one'], attrs={'units': ''})
            try:
                sympl.RestartMonitor(path).store(newer)
            except Exception:
                again = load_in_child(path, candidates) if os.path.exists(path) else None
                if again != found.get('restart.nc'):
                    fail('{}: a store after the crash was refused and the restart file is now {} (was {})', where,
                         again, found.get('restart.nc'))
                cov.label('refused after the crash')
            else:
                d = difference(sympl.RestartMonitor(path).load(), newer)
                if d:
                    fail('{}: a store after the crash is loaded with {}', where, d)
        # a fresh monitor recovers once the incomplete file is removed
        if os.path.exists(path + '.new'):
            os.remove(path + '.new')
        newer = build_state(case['newer'])
        sympl.RestartMonitor(path).store(newer)
        d = difference(sympl.RestartMonitor(path).load(), newer)
        if d:
            fail('{}: a store after the crash is loaded with {}', where, d)
        cov.label(case['how'], 'finished' if finished else 'crashed', 'restart file ' + (
            'absent' if 'restart.nc' not in found else 'old' if old is not None and found['restart.nc'] == 0
            else 'new'))
        cov.nontrivial(not finished)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


@st.composite
def crash_cases(draw):
    case = {'old': draw(states()) if draw(st.integers(0, 5)) else None, 'new': draw(states()),
            'newer': draw(states()), 'before': draw(st.lists(states(), max_size=1)),
            'how': draw(st.sampled_from(['line', 'line', 'before', 'after', 'error']))}
    if case['how'] == 'line':
        case['k'] = draw(st.integers(0, 10 ** 6))
        case['late'] = draw(st.one_of(st.none(), st.integers(0, 12)))
    else:
        case['op'] = draw(st.integers(1, 5))
    return case


SUBS = [
    Sub('round_trip', round_trips, check_round_trip, 2400, 20000),
    Sub('crash', crash_cases, check_crash, 1280, 8000),
]
