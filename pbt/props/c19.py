"""What NetCDFMonitor stored is what is in the file."""
import datetime as _dt
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from .. import build as B, gen as G
from ..core import Sub, fail, scratch

RULE = ('Random histories of store (whole or partial states, in any time order, modified in place afterwards), write '
        'and re-opening with random store_names, aliases, time units, calendars, dtypes and attributes; the file is '
        'read back with netCDF4 and compared with a model of the rows it must have. A write that is refused must '
        'leave the rows written before as they were. Non-trivial: at least two rows in the file or a refused write.')

NAMES = ['air_temperature', 'temperature', 'humidity', 'air_temperature_tendency', 'T', 'q', 'wind', 'time_scale',
         'humidity_tendency_from_humidity']
ALIASES = [{}, {}, {'air_temperature': 'T'}, {'temperature': 'tmp'}, {'humidity': 'q'}, {'_tendency': ''},
           {'wind': 'w', 'humidity': 'hum'}, {'humidity': ''}, {'tim': 'dur', 'wind': 'u'}, {'wind': 'time'},
           {'time': 'tt'}]
SECONDS = {'seconds': 1, 'minutes': 60, 'hours': 3600, 'days': 86400, 'milliseconds': 0.001, 'microseconds': 1e-6}
CALENDARS = ['proleptic_gregorian', 'no_leap', 'all_leap', '360_day', 'julian', 'gregorian']


K = list(range(10)) + list(range(10)) + [12, 20, 30, 99, 100, 1000, -1, -2, -11]


def when(case, k):
    delta = _dt.timedelta(seconds=SECONDS[case['tu']] * k) if case['tu'] not in ('milliseconds', 'microseconds') else \
        _dt.timedelta(microseconds=k * (1000 if case['tu'] == 'milliseconds' else 1))
    base = B.make_time(case['time'])
    if case['time']['k'] == 'td':
        unit = SECONDS[case['tu']]
        whole = _dt.timedelta(seconds=round(base.total_seconds() / unit) * unit) if unit >= 1 else base
        return whole + delta
    return base + delta


def renamed(name, aliases):
    for a, b in aliases.items():
        name = name.replace(a, b)
    return name


def shape_of(q):
    return dict(zip(q['dims'], q['values'].shape))


class Refused(Exception):
    pass


class Rows(object):
    """Model of the file and of the monitor's cache."""

    def __init__(self):
        self.rows = []      # [time, {name: (values, dims)}]
        self.vars = None    # name -> {'dims', 'attrs', 'dtype', 'shape'}
        self.cache = {}

    def write(self):
        if not self.cache:
            return
        keys = set(self.vars) if self.vars else None
        batch = sorted(self.cache.items(), key=lambda x: x[0])
        if keys is None:
            keys = set(batch[0][1])
        if any(set(s) != keys for _, s in batch):
            raise Refused('key sets differ')
        new = {}
        for _, s in batch:
            for n, q in s.items():
                v = new.setdefault(n, {'dims': q['dims'], 'attrs': q['attrs'], 'dtype': q['values'].dtype,
                                       'shape': shape_of(q)})
                v['dtype'] = np.result_type(v['dtype'], q['values'].dtype)
                if q['attrs'] != v['attrs']:
                    raise Refused('attrs of {} differ'.format(n))
                if shape_of(q) != v['shape']:
                    raise Refused('lengths of {} differ'.format(n))
        lens = {}
        for n, v in sorted(dict(new, **(self.vars or {})).items()) + sorted(new.items()):
            for d, k in v['shape'].items():
                if lens.setdefault(d, k) != k:
                    raise Refused('lengths of {} differ'.format(d))
        if self.vars:
            for n, v in new.items():
                old = self.vars[n]
                if v['attrs'] != old['attrs']:
                    raise Refused('attrs of {} differ from the file'.format(n))
                if v['dims'] != old['dims']:
                    raise Refused('dims of {} differ from the file'.format(n))
                if v['dtype'].kind == 'f' and old['dtype'].kind == 'i':
                    raise Refused('{} is an integer in the file'.format(n))
        else:
            self.vars = new
        for t, s in batch:
            self.rows.append((t, {n: (q['values'], q['dims']) for n, q in s.items()}))
        self.cache = {}


def compare(path, model, case, what, refused=None):
    import netCDF4
    if not model.rows:
        if os.path.isfile(path):
            with netCDF4.Dataset(path) as ds:
                if 'time' in ds.dimensions and ds.dimensions['time'].size:
                    fail('{}: the file has {} rows where none were written', what, ds.dimensions['time'].size)
        return
    with netCDF4.Dataset(path) as ds:
        ds.set_auto_maskandscale(False)
        # (a refused write may have made variables in a file that had none)
        if set(ds.variables) != set(model.vars) | {'time'} and (model.vars or not refused):
            fail('{}: the file has variables {} where {} were stored', what, sorted(ds.variables), sorted(model.vars))
        tv = ds.variables['time']
        if tv.shape != (len(model.rows),):
            fail('{}: the file has {} times where {} states were written', what, tv.shape, len(model.rows))
        raw = tv[:]
        if raw.dtype.kind != 'i':
            fail('{}: times are stored as {}', what, raw.dtype)
        if case['time']['k'] == 'td':
            unit = SECONDS[tv.units]
            times = [_dt.timedelta(seconds=int(r) * unit) if unit >= 1 else
                     _dt.timedelta(microseconds=int(r) * (1000 if tv.units == 'milliseconds' else 1)) for r in raw]
            if tv.units != case['tu']:
                fail('{}: times are in {} where {} was requested', what, tv.units, case['tu'])
        else:
            if not tv.units.startswith(case['tu'] + ' since'):
                fail('{}: times are in {} where {} was requested', what, tv.units, case['tu'])
            times = netCDF4.num2date(raw, tv.units, calendar=tv.calendar)
            want_cal = {'no_leap': ('noleap', '365_day'), 'all_leap': ('all_leap', '366_day'),
                        'gregorian': ('gregorian', 'standard')}
            cal = case['time'].get('cal', 'proleptic_gregorian')
            if tv.calendar not in want_cal.get(cal, (cal,)):
                fail('{}: calendar in the file is {} where {} was used', what, tv.calendar, cal)
        for i, (t, state) in enumerate(model.rows):
            if case['time']['k'] == 'td':
                same = times[i] == t
            else:
                a, b = times[i], t
                same = all(getattr(a, k) == getattr(b, k) for k in
                           ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'))
            if not same:
                fail('{}: row {} has time {} where {} was stored', what, i, times[i], t)
            for n, (v, dims) in state.items():
                var = ds.variables[n]
                if var.dimensions[0] != 'time' or set(var.dimensions[1:]) != set(dims):
                    fail('{}: {} has dims {} where {} was stored', what, n, var.dimensions, dims)
                got = np.asarray(var[i]).transpose([var.dimensions[1:].index(d) for d in dims])
                if got.shape != v.shape or not np.array_equal(got.astype(float), v.astype(float), equal_nan=True):
                    fail('{}: {} in row {} is {} where {} was stored', what, n, i, got.tolist(), v.tolist())
        for n, v in model.vars.items():
            attrs = {k: ds.variables[n].getncattr(k) for k in ds.variables[n].ncattrs()}
            if B.plain_attrs({k: attrs.get(k) for k in v['attrs']}) != v['attrs']:
                fail('{}: {} has attributes {} where {} were stored', what, n, attrs, v['attrs'])


def check_history(case, cov):
    import sympl
    folder = scratch()
    try:
        run_history(case, cov, os.path.join(folder, 'out.nc'))
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def quantity(case, name, seed, odd):
    import sympl
    q = dict(case['quantities'][name])
    lens = dict(case['lens'], **q.get('lens', {}))
    q['seed'] = seed
    if odd == 'units':
        q['units'] = 's' if q['units'] != 's' else 'm'
    elif odd == 'int':
        q['dtype'] = 'int64'
    elif odd == 'float':
        q['dtype'] = 'float64'
    elif odd in ('longer', 'single') and q['dims']:
        d = q['dims'][seed % len(q['dims'])]
        lens[d] = 1 if odd == 'single' else lens[d] + 1
    elif odd == 'fewer' and q['dims']:
        q['dims'] = q['dims'][1:] if seed % 2 else q['dims'][:-1]
    elif odd == 'transpose':
        q['dims'] = list(reversed(q['dims']))
    elif odd == 'other dim' and q['dims']:
        q['dims'] = ['u' if i == seed % len(q['dims']) else d for i, d in enumerate(q['dims'])]
        lens['u'] = lens[dict(case['quantities'][name])['dims'][seed % len(q['dims'])]]
    elif odd == 'new attr':
        q['attrs'] = dict(q.get('attrs', {}), new='attribute')
    elif odd == 'other attr' and q.get('attrs'):
        q['attrs'] = dict(q['attrs'], **{sorted(q['attrs'])[0]: 'other'})
    da = B.writable(B.data_array(q, lens))
    if da.dtype.kind == 'f' and da.size > 1 and seed % 11 == 0:
        da.values.flat[seed % da.size] = [np.nan, np.inf, -np.inf][seed % 3]
    return da


def run_history(case, cov, path):
    import sympl
    aliases = case['aliases']
    kw = {'time_units': case['tu'], 'write_on_store': case['wos']}
    if aliases or case['wos']:
        kw['aliases'] = dict(aliases)
    store_names = case['store_names']
    if store_names is not None:
        kw['store_names'] = tuple(store_names) if case['wos'] else list(store_names)

    def new_monitor():
        return sympl.NetCDFMonitor(path, **kw)

    monitor = new_monitor()
    model = Rows()
    refused = None
    for step, op in enumerate(case['ops']):
        what = 'after operation {} {}'.format(step, op[:2])
        if op[0] == 'store':
            _, k, seed, names, odd, mutate = op
            state = {'time': when(case, k)}
            for j, n in enumerate(names if names is not None else sorted(case['quantities'])):
                state[n] = quantity(case, n, seed * 7 + j, odd[1] if odd and odd[0] == n else None)
            kept = {n: v for n, v in state.items() if n != 'time' and (store_names is None or n in store_names)}
            final = [renamed(n, aliases) for n in kept]
            copy = {renamed(n, aliases): {'values': np.array(v.values, copy=True), 'dims': list(v.dims),
                                          'attrs': B.plain_attrs(v.attrs)} for n, v in kept.items()}
            snap = B.snapshot(state)
            if len(set(final)) < len(final) or '' in final or 'time' in final:
                B.expect_raises(ValueError, lambda: monitor.store(state),
                                'aliases {} for {}'.format(aliases, sorted(kept)))
                cov.label('alias conflict')
            else:
                model.cache.setdefault(state['time'], {}).update(copy)
                refused = attempt(monitor, model, lambda: monitor.store(state), case['wos'], what)
            if not B.same_snapshot(snap, B.snapshot(state)):
                fail('{}: storing changed the state', what)
            if mutate:
                for n in list(state):
                    if n != 'time':
                        state[n].values[...] = 77
                        state[n].attrs['units'] = 'changed'
                state.pop(sorted(state)[0])
        elif op[0] == 'write':
            refused = attempt(monitor, model, monitor.write, True, what)
        else:
            monitor = new_monitor()
            model.cache = {}
        compare(path, model, case, what, refused)
        if refused:
            cov.label('refused: ' + refused.split(' of ')[0].split(' is ')[0][:20])
            break
    if not refused:
        refused = attempt(monitor, model, monitor.write, True, 'at the end')
        compare(path, model, case, 'at the end', refused)
    cov.label(case['time']['k'] if case['time']['k'] == 'td' else case['time'].get('cal', 'dt'), case['tu'],
              'rows {}'.format(min(3, len(model.rows))))
    cov.nontrivial(len(model.rows) > 1 or refused)


def attempt(monitor, model, action, writes, what):
    """Runs an action that may be refused; returns why it was."""
    import sympl
    if writes:
        try:
            model.write()
        except Refused as err:
            B.expect_raises((sympl.InvalidStateError, IOError, ValueError), action,
                            '{}: writing states whose {}'.format(what, err))
            return str(err)
    action()
    return None


@st.composite
def history_cases(draw):
    names = draw(G.subset(NAMES, min_size=1, max_size=4))
    lens = {d: draw(G.lengths) for d in ['x', 'y', 'z']}
    quantities = {}
    for n in names:
        quantities[n] = {'dims': draw(G.subset(['x', 'y', 'z'], max_size=3)),
                         'units': draw(st.sampled_from(['m', 'degK', '', 'kg/kg', 's'])),
                         'dtype': draw(st.sampled_from(['float64', 'float64', 'float32', 'int64', 'int32'])),
                         'attrs': draw(st.sampled_from([{}, {}, {}, {'long_name': 'a name'}, {'level': 3}, {'_private': 'p', 'standard_name': 's'}, {'flags': [1, 2, 4]}, {'flags': [1, 2, 3]}, {'bad': float('nan')},
                             {'weights': [0.5, float('nan')], 'words': ['a', 'b']}]))}
        if quantities[n]['dims'] and draw(st.integers(0, 19)) == 0:
            quantities[n]['lens'] = {draw(st.sampled_from(quantities[n]['dims'])): draw(st.integers(1, 4))}
    ops = []
    calm = draw(st.integers(0, 2)) > 0
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(['store', 'store', 'store', 'write', 'write', 'reopen']))
        if kind == 'store':
            subset = None
            odd = None
            if not calm:
                if draw(st.integers(0, 4)) == 0:
                    subset = draw(G.subset(names))
                if draw(st.integers(0, 5)) == 0:
                    odd = [draw(st.sampled_from(names)),
                           draw(st.sampled_from(['units', 'int', 'float', 'transpose', 'longer', 'single', 'fewer']))]
            ops.append(['store', draw(st.sampled_from(K)), draw(st.integers(0, 9999)), subset, odd,
                        draw(st.booleans())])
        else:
            ops.append([kind])
    time = draw(G.times(calendars=True))
    if time['k'] == 'td' and draw(st.booleans()):
        time['s'] = draw(st.integers(0, 86400 * 3))
    tus = ['seconds', 'seconds', 'minutes', 'hours', 'days']
    if time['k'] == 'td':
        tus = tus + ['milliseconds', 'microseconds']
    store_names = draw(G.subset(NAMES, min_size=1)) if draw(st.integers(0, 3)) == 0 else None
    return {'quantities': quantities, 'lens': lens, 'ops': ops, 'time': time, 'tu': draw(st.sampled_from(tus)),
            'wos': draw(st.integers(0, 3)) == 0, 'store_names': store_names,
            'aliases': draw(st.sampled_from(ALIASES))}


@st.composite
def misfit_cases(draw):
    """One write, then a write of a state of which one quantity does not fit, or does although it is not the same."""
    case = draw(history_cases())
    case['ops'] = []
    case['store_names'] = None
    case['lens'] = dict.fromkeys('xyz', draw(st.integers(1, 4))) if draw(st.booleans()) else case['lens']
    names = sorted(case['quantities'])
    for q in case['quantities'].values():
        q.pop('lens', None)
    odd = [draw(st.sampled_from(names)), draw(st.sampled_from(
        ['units', 'int', 'float', 'transpose', 'longer', 'single', 'fewer', 'other dim', 'new attr', 'other attr']))]
    k = 0
    for _ in range(draw(st.integers(1, 2))):
        case['ops'].append(['store', k, draw(st.integers(0, 9999)), None, None, False])
        k += 1
    together = odd[1] not in ('new attr', 'other attr') and draw(st.integers(0, 3)) == 0
    if not together:
        case['ops'].append(['write'])
        if draw(st.integers(0, 3)) == 0:
            case['ops'].append(['reopen'])
    if odd[1] not in ('new attr', 'other attr') and draw(st.integers(0, 2)) == 0:
        case['ops'].append(['store', k, draw(st.integers(0, 9999)), None, None, False])
        k += 1
    case['ops'] += [['store', k, draw(st.integers(0, 9999)), None, odd, False], ['write']]
    return case


def check_bad_alias(case, cov):
    import sympl
    thing = {'int': 3, 'none': None, 'list': ['a'], 'float': 1.5}[case['bad']] if case['bad'] != 'list' or \
        not case['key'] else ('a',)
    aliases = {thing: 'x'} if case['key'] else {'x': thing}
    if case['good']:
        aliases = dict([('a', 'alpha')] + list(aliases.items()) + [('b', 'beta')])
    B.expect_raises(TypeError, lambda: sympl.NetCDFMonitor('/nonexistent/out.nc', aliases=aliases),
                    'aliases {!r}'.format(aliases))
    cov.nontrivial()


def check_empty_name(case, cov):
    """A quantity which would have no name in the file is refused when it is stored; others go on."""
    import netCDF4
    import os
    import sympl
    from .. import core
    path = os.path.join(core.scratch(), 'a.nc')
    aliases = {'b': ''} if case['how'] == 'alias' else None
    m = sympl.NetCDFMonitor(path, aliases=aliases)
    names = list(case['names'])
    good = [n for n in names if n != 'b']
    t0 = B.make_time({'k': 'dt', 'd': [2000, 1, 1, 0, 0, 0], 'cal': 'proleptic_gregorian'})

    def state(names, k):
        out = {n: B.data_array({'dims': [], 'units': 'm', 'seed': i}, {}) * k for i, n in enumerate(names)}
        for n in out:
            out[n].attrs['units'] = 'm'
        out['time'] = t0.replace(second=k)
        return out
    bad = list(names)
    if case['how'] == 'empty':
        bad = list(good)
        bad.insert(case['at'] % (len(good) + 1), '')
    elif 'b' not in names:
        bad.append('b')
    for k, what in enumerate(case['ops'], 1):
        if what == 'bad':
            B.expect_raises(ValueError, lambda: m.store(state(bad, k)), 'a quantity without a name')
        else:
            m.store(state(good, k))
    m.write()
    rows = [k for k, what in enumerate(case['ops'], 1) if what == 'good']
    if rows:
        with netCDF4.Dataset(path) as f:
            for i, n in enumerate(good):
                want = state(good, 1)[n].values * np.array(rows)
                if not np.array_equal(np.asarray(f.variables[n][:]), want):
                    fail('{} is {} in the file where {} was stored', n, f.variables[n][:], want)
    cov.label(case['how'])
    cov.nontrivial('bad' in case['ops'] and 'good' in case['ops'])


def check_packed(case, cov):
    """Values whose attributes say that they are packed are read back as they were stored, by a reader that unpacks."""
    import netCDF4
    import os
    import sympl
    from .. import core
    folder = core.scratch()
    try:
        path = os.path.join(folder, 'a.nc')
        m = sympl.NetCDFMonitor(path, write_on_store=case['wos'])
        attrs = {k: v for k, v in case['attrs'].items()}
        states = []
        for i in range(case['rows']):
            q = {'dims': ['x'], 'units': 'm', 'seed': case['seed'] + i, 'dtype': case['dtype'], 'attrs': attrs}
            state = {'a': B.data_array(q, {'x': case['n']}), 'b': B.data_array(dict(q, attrs={}), {'x': case['n']}),
                     'time': B.make_time({'k': 'td', 's': i})}
            states.append({n: np.array(state[n].values, copy=True) for n in 'ab'})
            m.store(state)
            if not case['wos'] and i == 0 and case['twice']:
                m.write()
        m.write()
        with netCDF4.Dataset(path) as ds:
            for i, s in enumerate(states):
                for n in 'ab':
                    got = np.ma.filled(ds.variables[n][i].astype(float), np.nan)
                    if not np.allclose(got, s[n], rtol=1e-6, atol=1e-9, equal_nan=True):
                        fail('{} is {} in row {} where {} was stored with attributes {}', n, got, i, s[n], attrs)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    cov.nontrivial(bool(attrs))


SUBS = [
    Sub('packed', lambda: st.fixed_dictionaries({
        'attrs': st.sampled_from([{'scale_factor': 2.0}, {'scale_factor': 0.5, 'add_offset': 10.0}, {'add_offset': 4.0},
                                  {'scale_factor': 0.25}]),
        'rows': st.integers(1, 3), 'n': st.integers(1, 3), 'seed': G.seeds, 'wos': st.booleans(),
        'twice': st.booleans(), 'dtype': st.just('float64')}), check_packed, 120, 400),
    Sub('empty_name', lambda: st.fixed_dictionaries({
        'how': st.sampled_from(['alias', 'empty']), 'names': G.subset(['a', 'b', 'c'], min_size=1), 'at': st.integers(0, 3),
        'ops': st.lists(st.sampled_from(['good', 'bad']), min_size=1, max_size=4)}), check_empty_name, 120, 200),
    Sub('history', history_cases, check_history, 4800, 40000),
    Sub('misfit', misfit_cases, check_history, 1400, 10000),
    Sub('bad_alias', lambda: st.fixed_dictionaries({'bad': st.sampled_from(['int', 'none', 'list', 'float']),
                                                    'good': st.booleans(), 'key': st.booleans()}), check_bad_alias, 40, 20),
]
