"""C05-C09, C19: answers of the query methods checked against Queries.tla."""
import random

import numpy as np
import pandas as pd

import cals
import common
import schedule
from cals import DAY_NS, MIN_NS, NEG, daynum, ts

NONE = [-1000000000, 0, 0]
NAT = cals.common_nat


# ------------------------------------------------------------ encoding

def trip(v):
    if v == NAT:
        return list(NONE)
    m, r = divmod(int(v), MIN_NS)
    s, n = divmod(r, 10 ** 9)
    return [m, s, n]


def untrip(t):
    return t[0] * MIN_NS + t[1] * 10 ** 9 + t[2]


def r_ts(x):
    if x is pd.NaT:
        return ['ts', list(NONE)]
    return ['ts', trip(pd.Timestamp(x).value)]


def r_day(x):
    v = pd.Timestamp(x).value
    if v % DAY_NS:
        return ['odd', 'label %s is not a midnight' % x]
    return ['day', v // DAY_NS]


def r_days(ix):
    d = cals.labels(ix)
    return ['odd', 'labels are not midnights'] if d is None else ['days', d]


def r_bool(x):
    if isinstance(x, (bool, np.bool_)):
        return ['bool', bool(x)]
    return ['odd', repr(x)]


def r_int(x):
    if int(x) != x:
        return ['odd', repr(x)]
    return ['int', int(x)]


def runs_of(values):
    out = []
    last = None
    for v in values:
        if out and v - last == MIN_NS:
            out[-1][2] += 1
        else:
            if v == NAT or v % 10 ** 9:
                return None
            m, s, n = trip(v)
            out.append([m, s, 1])
        last = v
    return out


def r_runs(ix):
    r = runs_of(cals.ints(ix))
    return ['odd', 'minutes off the second'] if r is None else ['runs', r]


def r_pair(p):
    a, b = p
    return ['pair', r_ts(a)[1], r_ts(b)[1]]


def r_rows(series):
    d = cals.labels(series.index)
    if d is None:
        return ['odd', 'labels are not midnights']
    return ['rows', [[x, trip(v)] for x, v in zip(d, cals.ints(
        series.dt.tz_convert('UTC').dt.tz_localize(None)
        if getattr(series.dt, 'tz', None) is not None else series))]]


# ------------------------------------------------------------ queries

def stamp(t, form='utc'):
    v = untrip(t)
    if form == 'int':
        return v
    if form == 'int64':
        return np.int64(v)
    x = pd.Timestamp(v, tz='UTC')
    if form != 'utc':
        x = x.tz_convert(form)
    return x


# name -> (method, argument kinds, normaliser); t instant, d label, i plain
Q = dict(
    is_open=('is_open_on_minute', 'ti', r_bool),
    next_open=('next_open', 't', r_ts),
    next_close=('next_close', 't', r_ts),
    previous_open=('previous_open', 't', r_ts),
    previous_close=('previous_close', 't', r_ts),
    next_minute=('next_minute', 't', r_ts),
    previous_minute=('previous_minute', 't', r_ts),
    to_session=('minute_to_session_label', 'ti', r_day),
    bulk=('minute_index_to_session_labels', 'T', r_days),
    all_minutes=('all_minutes', None, r_runs),
    minutes_for_session=('minutes_for_session', 'd', r_runs),
    minutes_for_sessions=('minutes_for_sessions_in_range', 'dd', r_runs),
    minutes_in_range=('minutes_in_range', 'tt', r_runs),
    minutes_window=('minutes_window', 'ti', r_runs),
    minutes_count=('minutes_count_for_sessions_in_range', 'dd', r_int),
    exec_session=('execution_minutes_for_session', 'd', r_runs),
    exec_range=('execution_minutes_for_sessions_in_range', 'dd', r_runs),
    is_session=('is_session', 't', r_bool),
    next_session=('next_session_label', 'd', r_day),
    previous_session=('previous_session_label', 'd', r_day),
    sessions_in_range=('sessions_in_range', 'dd', r_days),
    sessions_window=('sessions_window', 'di', r_days),
    session_distance=('session_distance', 'dd', r_int),
    open_and_close=('open_and_close_for_session', 'd', r_pair),
    break_start_and_end=('break_start_and_end_for_session', 'd', r_pair),
    session_open=('session_open', 'd', r_ts),
    session_close=('session_close', 'd', r_ts),
    session_break_start=('session_break_start', 'd', r_ts),
    session_break_end=('session_break_end', 'd', r_ts),
    opens_in_range=('session_opens_in_range', 'dd', r_rows),
    closes_in_range=('session_closes_in_range', 'dd', r_rows),
    first_session=('first_session', None, r_day),
    last_session=('last_session', None, r_day),
    all_sessions=('all_sessions', None, r_days),
    opens=('opens', None, r_rows),
    closes=('closes', None, r_rows),
)


def ask(cal, q, form='utc'):
    """Put query q (as in Queries.tla) to the calendar; encoded result."""
    meth, kinds, norm = Q[q[0]]
    try:
        if kinds is None:
            return norm(getattr(cal, meth))
        args = []
        for k, a in zip(kinds, q[1:]):
            if k == 't':
                args.append(stamp(a, form))
            elif k == 'd':
                args.append(ts(a))
            elif k == 'T':
                ix = pd.DatetimeIndex([untrip(x) for x in a], tz='UTC')
                if form == 'series':
                    ix = pd.Series(ix)
                elif form not in ('utc', 'int'):
                    ix = ix.tz_convert(form)
                args.append(ix)
            else:
                args.append(a)
        with common.limit(60):
            return norm(getattr(cal, meth)(*args))
    except common.Hung:
        return ['hung']
    except Exception:
        return ['err']


# ------------------------------------------------------------ calendars

def gen_long(rng, breaks=None):
    """Many short sessions, with some long gaps between them."""
    lo = rng.randint(daynum(1970, 1, 3), daynum(2060, 1, 1))
    hi = lo + rng.choice([60, 120, 300])
    d = cals.mkdef(mask=schedule.random_mask(rng))
    o = rng.randint(2, 1400)
    span = rng.randint(4, 9)
    d.update(opens=[[NEG, o * 60]], closes=[[NEG, (o + span) * 60]])
    if rng.random() < .5:         # another regime from some day on
        x = rng.randint(lo + 1, hi)
        d['closes'] = d['closes'] + [[x, (o + span + 3) * 60]]
    if breaks or breaks is None and rng.random() < .5:
        d.update(bstarts=[[NEG, (o + 1) * 60]],
                 bends=[[NEG, (o + rng.randint(2, span - 1)) * 60]])
    for _ in range(rng.randint(0, 3)):
        x = rng.randint(lo, hi)
        d['adhoc'] = d['adhoc'] + list(range(x, x + rng.choice([1, 5, 40])))
    return d, lo, hi


def gen_years(rng, breaks=None):
    """A few short sessions in several years, some on the same dates."""
    y = rng.choice([1971, 1999, 2023, 2096, rng.randint(1971, 2090)])
    years = range(y, y + rng.randint(2, 6))
    same = [(rng.randint(1, 12), rng.randint(1, 28)), (12, 31), (1, 1),
            (2, 28), (3, 1)]
    days = set()
    for m, n in rng.sample(same, rng.randint(1, 3)):
        for z in years:
            if rng.random() < .8:
                days.add(daynum(z, m, n) + rng.choice([0, 0, 0, 1, -1]))
    x = rng.choice(sorted(days)) if days else daynum(y, 5, 5)
    days |= {x, x + 1, x + 7} | {x + rng.randint(2, 500)}
    lo, hi = min(days), max(days)
    d = cals.mkdef(mask=list(range(7)))
    d['adhoc'] = [z for z in range(lo, hi + 1) if z not in days]
    o = rng.randint(2, 1400)
    span = rng.randint(4, 9)
    d.update(opens=[[NEG, o * 60]], closes=[[NEG, (o + span) * 60]])
    for z in sorted(days)[1:]:        # times change now and then
        if rng.random() < .3:
            d['closes'] = d['closes'] + [[z, (o + span + rng.randint(
                0, 4)) * 60]]
    if breaks or breaks is None and rng.random() < .5:
        d.update(bstarts=[[NEG, (o + 1) * 60]],
                 bends=[[NEG, (o + rng.randint(2, span - 1)) * 60]])
    return d, lo, hi


def gen_small(rng, breaks=None, long=.06):
    """Definition and range of a calendar with a few sessions of arbitrary,
    day-by-day different times."""
    if rng.random() < long:
        return rng.choice([gen_long, gen_years])(rng, breaks)
    lo = rng.randint(daynum(1975, 1, 1), daynum(2060, 1, 1))
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 9, 14])
    hi = lo + n - 1
    style = rng.choice(['short', 'short', 'short', 'normal', 'h24', 'night',
                        'mixed'])
    d = cals.mkdef(mask=list(range(7)))
    if breaks is None:
        breaks = rng.random() < .55
    opens, closes, bs, be = [], [], [], []
    sec = 30 if rng.random() < .06 else 0
    for i in range(n):
        st = style if style != 'mixed' else rng.choice(
            ['short', 'normal', 'h24'])
        if st == 'short':
            o = rng.choice([0, 1, 600, 599, 1430])
            span = rng.randint(3, 9) if breaks else rng.randint(1, 6)
            o = min(o, 1439 - span)
            c = o + span
        elif st == 'normal':
            o = rng.randint(60, 700)
            c = rng.randint(o + 5, 1400)
        elif st == 'h24':
            o, c = 0, 1439
        else:
            o, c = 1081, 1080
        start = NEG if i == 0 else lo + i
        opens.append([start, o * 60 + sec])
        closes.append([start, c * 60 + sec])
        if breaks and st != 'night':
            b = rng.choice([o + 1, rng.randint(o + 1, c - 2)])
            e = rng.choice([b + 1, c - 1, rng.randint(b + 1, c - 1)])
            bs.append([start, b * 60 + sec])
            be.append([start, e * 60 + sec])
    d.update(opens=opens, closes=closes)
    if style == 'night':
        d['oo'] = -1
    elif breaks:
        d.update(bstarts=bs, bends=be)
        if n > 1 and rng.random() < .5:      # sessions without a break
            days = rng.sample(range(lo, hi), rng.randint(1, max(1, (n - 1) // 2)))
            # close just after the break end, so that the day stays ordered
            for x in days:
                i = x - lo
                d['sclosesA'] = d['sclosesA'] + [[closes[i][1], [x]]]
    if n > 2 and rng.random() < .4:
        d['adhoc'] = rng.sample(range(lo, hi + 1), rng.randint(1, n // 2))
        d['sclosesA'] = [[t, days] for t, days in d['sclosesA']
                         if days[0] not in d['adhoc']]
    return d, lo, hi


SHIPPED = ['XHKG', 'XNYS', 'us_futures', 'CMES', '24/7', 'XTKS', 'XLON',
           'XTAE', 'XSGO', 'IEPA']


def shifted(cls, shift):
    """The calendar with an execution window of its own."""
    a, b = [pd.Timedelta(minutes=m) for m in shift]
    return type('Shifted', (cls,), dict(
        execution_time_from_open=lambda self, x: x + a,
        execution_time_from_close=lambda self, x: x + b))


def decoy(rng, d, lo, hi, near):
    """Another calendar of the same name over the same range, in use."""
    import ranges
    other = cals.build(cals.build_class(ranges.sibling(rng, d, lo, hi)),
                       lo, hi)[0]
    if other is not None:
        for q in rng.sample(sorted(q for q in Q if Q[q][1] is None), 2):
            ask(other, [q])
        near.append(other)
    return other


def get_cal(rng, shipped=.12, only=None, breaks=None, shift=None, long=.06,
            near=None):
    """(calendar, label); other calendars it is built next to, in near"""
    near = [] if near is None else near
    if only or rng.random() < shipped:
        n = only or rng.choice(SHIPPED)
        lo = rng.randint(daynum(1990, 1, 1), daynum(2030, 1, 1))
        if rng.random() < .4:     # around the clock changes
            lo = daynum(cals.date_of(lo).year, rng.choice([3, 10, 11]),
                        rng.randint(1, 28))
        hi = lo + rng.randint(6, 20)
        cls = schedule.factories().get(n)
        cal, err = cals.build(cls, lo, hi) if cls else (None, 'missing')
        return cal, '%s over %s..%s' % (n, cals.date_of(lo), cals.date_of(hi))
    for _ in range(20):
        d, lo, hi = gen_small(rng, breaks, long)
        cls = cals.build_class(d)
        if shift is not None:
            cls = shifted(cls, shift)
        del near[:]
        if rng.random() < .25:
            decoy(rng, d, lo, hi, near)
        cal, err = cals.build(cls, lo, hi)
        if cal is not None:
            return cal, 'generated calendar %s over %s..%s' % (
                cals.brief(d), cals.date_of(lo), cals.date_of(hi))
    return None, 'generated calendars cannot be built: %r' % err


def sessions_of(cal):
    rec_days = cals.labels(cal.schedule.index)
    cols = [[trip(v) for v in cals.ints(cal.schedule[c])] for c in
            ('market_open', 'break_start', 'break_end', 'market_close')]
    return [[d] + [c[i] for c in cols] for i, d in enumerate(rec_days)]


def lists_break_start(S, minutes):
    """Does the calendar list the minute a break starts at (finding F1)?"""
    for s in S:
        if s[2] != NONE:
            return untrip(s[2]) in minutes
    return True


# ------------------------------------------------------------ instants

def instants(rng, S, n):
    """n instants, mostly on or right next to a boundary."""
    marks = []
    for s in S:
        marks += [untrip(t) for t in s[1:] if t != NONE]
    lo, hi = min(marks), max(marks)
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .65:
            m = rng.choice(marks)
            m += rng.choice([0, 0, 1, -1, MIN_NS, -MIN_NS, MIN_NS - 1,
                             1 - MIN_NS, 10 ** 9, -10 ** 9, 30 * 10 ** 9,
                             2 * MIN_NS, -2 * MIN_NS])
        elif k < .85:
            m = rng.randint(lo - 3 * MIN_NS, hi + 3 * MIN_NS)
            if rng.random() < .6:
                m -= m % MIN_NS
        elif k < .95:
            m = rng.choice([lo, hi]) + rng.choice([-1, 1]) * rng.choice(
                [1, MIN_NS, DAY_NS, 400 * DAY_NS, 30000 * DAY_NS])
        else:
            m = rng.choice(S)[0] * DAY_NS + rng.choice([0, 0, 1, -1])
        out.append(trip(m))
    return out


def day_args(rng, S, n):
    days = [s[0] for s in S]
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .6:
            out.append(rng.choice(days))
        elif k < .75:
            out.append(rng.choice([days[0], days[-1]]))
        elif k < .9:
            out.append(rng.randint(days[0] - 2, days[-1] + 2))
        else:
            out.append(rng.choice([days[0] - 30, days[-1] + 30, days[0] - 1,
                                   days[-1] + 1]))
    return out


FORMS = ['utc', 'utc', 'America/New_York', 'Asia/Tokyo']


def make_queries(prop, rng, S, total, n):
    """[(query, form)]"""
    out = []
    I = lambda k: instants(rng, S, k)      # noqa: E731
    D = lambda k: day_args(rng, S, k)      # noqa: E731
    if prop == 'C05':
        for t in I(n):
            for ib in (False, True):
                out.append((['is_open', t, ib],
                            rng.choice(FORMS + ['int', 'int64'])))
    elif prop == 'C06':
        out.append((['all_minutes'], 'utc'))
        for t, u in zip(I(n), I(n)):
            out.append((['minutes_in_range', t, u], rng.choice(FORMS)))
            if rng.random() < .7 and t > u:
                out.append((['minutes_in_range', u, t], 'utc'))
        for t in I(n):
            c = rng.choice([0, 1, -1, 2, -2, 3, -3, total, -total, total + 3,
                            -total - 3, rng.randint(-total, total),
                            rng.randint(-8, 8)])
            out.append((['minutes_window', t, c], rng.choice(FORMS)))
        for a, b in zip(D(n), D(n)):
            out.append((['minutes_for_session', a], 'utc'))
            out.append((['minutes_for_sessions', min(a, b), max(a, b)],
                        'utc'))
            if rng.random() < .3:
                out.append((['minutes_for_sessions', a, b], 'utc'))
            out.append((['minutes_count', a, b], 'utc'))
            out.append((['minutes_count', min(a, b), max(a, b)], 'utc'))
    elif prop == 'C07':
        for t in I(n):
            for m in ('next_open', 'next_close', 'previous_open',
                      'previous_close', 'next_minute', 'previous_minute'):
                out.append(([m, t], rng.choice(FORMS)))
    elif prop == 'C08':
        for t in I(n):
            for m in ('next', 'previous', 'none'):
                out.append((['to_session', t, m],
                            rng.choice(FORMS + ['int', 'int64'])))
        out.append((['to_session', I(1)[0], 'sideways'], 'utc'))
        inside = [t for t in I(6 * n) if any(s[1] <= t <= s[4] for s in S)]
        for _ in range(n):
            k = rng.choice([rng.randint(0, 8), rng.randint(0, 8), 60])
            L = [rng.choice(inside) for _ in range(k)] if inside else []
            if rng.random() < .8:
                L.sort()
            if rng.random() < .2:
                L = sorted(L + I(1))
            if len(L) > 2 and rng.random() < .1:     # one out of place
                j = rng.randrange(len(L) - 1)
                L[j], L[j + 1] = L[j + 1], L[j]
            out.append((['bulk', L], rng.choice(
                ['utc', 'utc', 'series', 'Asia/Tokyo'])))
    elif prop == 'C09':
        for m in ('first_session', 'last_session', 'all_sessions', 'opens',
                  'closes'):
            out.append(([m], 'utc'))
        for a, b in zip(D(n), D(n)):
            for m in ('next_session', 'previous_session', 'open_and_close',
                      'break_start_and_end', 'session_open', 'session_close',
                      'session_break_start', 'session_break_end'):
                if rng.random() < .5:
                    out.append(([m, a], 'utc'))
            for m in ('sessions_in_range', 'opens_in_range',
                      'closes_in_range', 'session_distance'):
                out.append(([m, a, b], 'utc'))
                if m == 'session_distance':
                    out.append(([m, b, a], 'utc'))
            c = rng.choice([0, 1, -1, 2, -2, len(S), -len(S), len(S) + 2,
                            -len(S) - 2, rng.randint(-6, 6)])
            out.append((['sessions_window', a, c], 'utc'))
        for t in I(n):
            out.append((['is_session', t], 'utc'))
            out.append((['is_session',
                         trip(rng.choice(D(1)) * DAY_NS)], 'utc'))
    elif prop == 'C19':
        for a, b in zip(D(n), D(n)):
            out.append((['exec_session', a], 'utc'))
            out.append((['exec_range', a, b], 'utc'))
            out.append((['exec_range', min(a, b), max(a, b)], 'utc'))
    rng.shuffle(out)
    if prop == 'C08':        # revisit instants right away and later on
        extra = []
        for x in out:
            extra.append(x)
            if x[0][0] == 'to_session' and rng.random() < .4:
                extra.append((x[0], rng.choice(['utc', 'int'])))
            if x[0][0] == 'to_session' and rng.random() < .2:
                extra.append((['to_session', x[0][1], rng.choice(
                    ['next', 'previous', 'none'])], 'utc'))
        out = extra
    return out


def batch(job):
    prop, seed, ncal, nq = job
    rng = random.Random('%s-%s' % (prop, seed))
    evs, what = [], []
    f1 = 0
    for c in range(ncal):
        only = None
        if prop == 'C19' and rng.random() < .3:
            only = 'us_futures'
        shift = None
        if prop == 'C19' and not only and rng.random() < .4:
            shift = [rng.choice([0, 1, 2, 5, 30, -3]),
                     rng.choice([0, -1, -2, -5, -30, 4])]
        near = []
        cal, label = get_cal(rng, 0 if shift else .12, only, shift=shift,
                             long=0 if prop == 'C19' else .12, near=near)
        if near:
            label += ', after another of the same name'
        if cal is None:
            evs.append(dict(e='q', q=['first_session'], r=['odd', label]))
            what.append(label)
            continue
        S = sessions_of(cal)
        minutes = cals.ints(cal.all_minutes)
        R = runs_of(minutes)
        V = lists_break_start(S, set(minutes))
        if V and any(s[2] != NONE for s in S):
            f1 += 1
        x = shift or ([750, -60] if label.startswith('us_futures')
                      else [0, 0])
        given = prop in ('C07', 'C19')
        given = given and R is not None
        evs.append(dict(e='cal', S=S, V=V, x=x, given=given,
                        R=R if given else []))
        what.append(label)
        for q, form in make_queries(prop, rng, S, len(minutes), nq):
            if near and rng.random() < .3:
                ask(near[0], q, form)
            evs.append(dict(e='q', q=q, r=ask(cal, q, form), form=form))
            what.append(label)
    return evs, what, f1


SIZES = {   # calendars per job, queries scale
    'C05': (14, 22), 'C06': (12, 7), 'C07': (14, 12), 'C08': (14, 12),
    'C09': (14, 8), 'C19': (8, 6),
}
F1 = ('F1: the minute at which a break starts (market closed) is listed as a '
      'trading minute, so minute lists have one minute more per break than '
      'minute counts (e.g. XHKG 2015-01-05: minutes_for_session has 332 '
      'minutes, minutes_count_for_sessions_in_range says 331)')


def check(prop, tier, seed):
    res = common.Result(prop, tier, seed)
    nc, nq = SIZES[prop]
    njobs = 24 if tier == 'quick' else 400
    jobs = [(prop, '%d-%d' % (seed, i), nc, nq) for i in range(njobs)]
    outs = common.parallel(batch, jobs)
    shards, labels = [[] for _ in range(8)], [[] for _ in range(8)]
    f1 = 0
    for i, (evs, what, n1) in enumerate(outs):
        shards[i % 8] += evs
        labels[i % 8] += what
        f1 += n1
    model(res, prop, tier)
    for evs, what, (v, r) in zip(shards, labels, common.tlc_env_traces(
            'QueryTrace', shards, par=8, heap='3g')):
        if v['n'] != len(evs):
            raise common.MachineryError('trace not read to the end')
        res.add_tlc(r)
        for b in v['bad']:
            ev = evs[b['i'] - 1]
            start = b['i'] - 1
            while start > 0 and evs[start]['e'] != 'cal':
                start -= 1
            res.violation('%s(%s) [%s] on %s returned %s, specification says '
                          '%s' % (Q[ev['q'][0]][0], nice(ev['q'][1:]),
                                  ev.get('form'), what[b['i'] - 1][:600],
                                  nice(ev['r']), nice(b['exp'])),
                          dict(calendar=what[b['i'] - 1],
                               schedule=evs[start].get('S'),
                               query=ev['q'], got=ev['r'], expected=b['exp'],
                               before=[e.get('q') for e in
                                       evs[max(start + 1, b['i'] - 6):b['i'] - 1]]))
    res.extra['queries'] = sum(e['e'] == 'q' for s in shards for e in s)
    res.extra['calendars'] = sum(e['e'] == 'cal' for s in shards for e in s)
    res.traces = res.extra['calendars']
    res.extra['refused_queries'] = sum(
        e.get('r') == ['err'] for s in shards for e in s)
    for e in shards[0][1:4]:
        res.sample(dict(q=e.get('q'), r=e.get('r')))
    res.assumptions = ['answers are judged relative to the calendar\'s own '
                       'recorded schedule']
    if f1 and prop in ('C06', 'C07'):
        res.known_finding(F1)
    return res


def nice(x):
    s = []

    def go(a):
        if isinstance(a, (list, tuple)) and len(a) == 3 and all(
                isinstance(y, int) for y in a) and abs(a[0]) > 100000:
            if list(a) == NONE:
                return 'NaT'
            if a[1] < 60 and a[2] < 10 ** 9 and abs(a[0]) < 10 ** 8:
                return str(pd.Timestamp(untrip(a)))
        if isinstance(a, (list, tuple)):
            return '[%s]' % ', '.join(map(go, a))
        return str(a)
    return go(x)[:400]


def model(res, prop, tier):
    """Theorems about Queries.tla itself on all small schedules."""
    cfg = 'MCQueries' + prop if tier == 'quick' else 'MCQueriesBig'
    r = common.tlc('MCQueries', cfg=cfg, heap='3g', timeout=3000)
    res.add_tlc(r)
    res.extra['model_states'] = r.states
    if prop == 'C19':
        r = common.tlc('MCExec')
        res.add_tlc(r)
        res.extra['model_states'] += r.states
