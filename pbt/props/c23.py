"""datetime gives the requested date in the requested calendar."""
import datetime as _dt

from hypothesis import strategies as st

from .. import build as B, gen as G
from ..core import Sub, fail

RULE = ('Random dates, times and calendar names (in any case) and random pairs of them: fields, validity, ordering, '
        'differences and sums with timedeltas are compared with hand-written calendar arithmetic. '
        'Non-trivial: a calendar other than proleptic_gregorian, or a date that calendar does not have.')

NAMES = {'proleptic_gregorian': 'proleptic_gregorian', 'no_leap': 'noleap', 'noleap': 'noleap', '365_day': 'noleap',
         'all_leap': 'all_leap', '366_day': 'all_leap', '360_day': '360_day', 'julian': 'julian',
         'gregorian': 'gregorian'}
MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(year, cal):
    if cal == 'noleap':
        return False
    if cal == 'all_leap':
        return True
    if cal == 'julian' or (cal == 'gregorian' and year <= 1582):
        return year % 4 == 0
    return year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)


def month_length(year, month, cal):
    if cal == '360_day':
        return 30
    return 29 if month == 2 and leap(year, cal) else MONTHS[month - 1]


def exists(year, month, day, cal):
    if not 1 <= month <= 12 or not 1 <= day <= month_length(year, month, cal):
        return False
    if cal == 'gregorian' and (year, month) == (1582, 10) and 5 <= day <= 14:
        return False
    return True


def day_number(year, month, day, cal):
    """Days since the 1st of January of the year 1 of the calendar."""
    n = sum(360 if cal == '360_day' else 366 if leap(y, cal) else 365 for y in range(1, year))
    n += sum(month_length(year, m, cal) for m in range(1, month)) + day - 1
    if cal == 'gregorian' and (year, month, day) >= (1582, 10, 15):
        n -= 10
    return n


def make(d, calendar, **kw):
    import sympl
    return sympl.datetime(*d, calendar=calendar, **kw)


def seconds(d, cal):
    d = list(d) + [0] * (7 - len(d))
    return (day_number(d[0], d[1], d[2], cal) * 86400 + d[3] * 3600 + d[4] * 60 + d[5], d[6])


def check_single(case, cov):
    import sympl
    d = case['d']
    cal = NAMES[case['cal']]
    text = case['cal'].upper() if case['upper'] else case['cal']
    if not exists(d[0], d[1], d[2], cal):
        B.expect_raises(ValueError, lambda: make(d, text), 'the date {} in calendar {}'.format(d, text))
        cov.label('invalid date')
        cov.nontrivial()
        return
    t = make(d, text)
    full = list(d) + [0] * (7 - len(d))
    got = [getattr(t, k) for k in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')]
    if got != full:
        fail('datetime{} in calendar {} has fields {}', tuple(d), text, got)
    if cal == 'proleptic_gregorian':
        if type(t) is not _dt.datetime:
            fail('the default calendar gives a {}', type(t))
        if make(d, 'proleptic_gregorian') != sympl.datetime(*d):
            fail('the default calendar is not proleptic_gregorian')
        zone = _dt.timezone(_dt.timedelta(hours=case['zone']))
        if make(d, text, tzinfo=zone).utcoffset() != _dt.timedelta(hours=case['zone']):
            fail('the time zone is lost')
    else:
        B.expect_raises(ValueError, lambda: make(d, text, tzinfo=_dt.timezone.utc),
                        'a time zone with calendar {}'.format(text))
        have = {'standard': 'gregorian', '365_day': 'noleap', '366_day': 'all_leap'}.get(t.calendar, t.calendar)
        if have != cal:
            fail('calendar {} gives a date of calendar {}', text, t.calendar)
    names = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')
    if sympl.datetime(calendar=text, **dict(zip(names, d))) != t:
        fail('keyword arguments give another date than positional ones')
    cov.label(cal)
    cov.nontrivial(cal != 'proleptic_gregorian')


@st.composite
def dates(draw, cal=None):
    year = draw(st.one_of(st.integers(1, 3000), st.sampled_from([1582, 1900, 2000, 2001, 2004, 2100, 1583])))
    if draw(st.booleans()):
        month, day = draw(st.integers(1, 12)), draw(st.integers(1, 28))
    else:
        month, day = draw(st.sampled_from([[2, 28], [2, 29], [2, 30], [12, 31], [10, 4], [10, 10], [10, 15], [4, 31],
                                           [3, 1], [1, 31], [4, 30], [13, 1], [0, 1], [1, 0]]))
    d = [year, month, day]
    rest = [draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59)),
            draw(st.sampled_from([0, 1, 500000, 999999]))]
    return d + rest[:draw(st.integers(0, 4))]


@st.composite
def single_cases(draw):
    return {'d': draw(dates()), 'cal': draw(st.sampled_from(sorted(NAMES))), 'upper': draw(st.booleans()),
            'zone': draw(st.integers(-11, 11))}


def check_pair(case, cov):
    cal = NAMES[case['cal']]
    ds = []
    for d in case['ds']:
        d = list(d)
        d[1] = min(12, max(1, d[1]))
        d[2] = max(1, d[2])
        while not exists(d[0], d[1], d[2], cal):
            d[2] -= 1
        ds.append(d)
    a, b = [make(d, case['cal']) for d in ds]
    (sa, ua), (sb, ub) = seconds(ds[0], cal), seconds(ds[1], cal)
    want = _dt.timedelta(seconds=sa - sb, microseconds=ua - ub)
    if a - b != want:
        fail('{} - {} is {} where {} was expected in calendar {}', a, b, a - b, want, case['cal'])
    if (a < b) != ((sa, ua) < (sb, ub)) or (a == b) != ((sa, ua) == (sb, ub)) or (a >= b) == (a < b):
        fail('{} and {} are ordered wrongly in calendar {}', a, b, case['cal'])
    if b + want != a or a - want != b:
        fail('{} + {} is {} where {} was expected in calendar {}', b, want, b + want, a, case['cal'])
    cov.label(cal)
    cov.nontrivial(cal != 'proleptic_gregorian')


@st.composite
def pair_cases(draw):
    a = draw(dates())
    b = draw(dates())
    if draw(st.booleans()):
        b[0] = a[0]
    return {'ds': [a, b], 'cal': draw(st.sampled_from(sorted(NAMES)))}


def check_unknown(case, cov):
    if case['cal'].lower() in NAMES:
        return
    B.expect_raises(ValueError, lambda: make([2000, 1, 1], case['cal']), 'calendar {!r}'.format(case['cal']))
    cov.nontrivial()


SUBS = [
    Sub('single', single_cases, check_single, 9600, 20000),
    Sub('pair', pair_cases, check_pair, 9600, 20000),
    Sub('unknown', lambda: st.fixed_dictionaries({'cal': st.one_of(
        st.sampled_from(['', '365day', 'leap', 'gregorian ', '360', 'martian', 'julian_day', '364_day']),
        st.text(max_size=8))}), check_unknown, 1200, 1000),
]
