"""C26: what kind of thing queries return, against spec/Shapes.tla."""
import numbers
import random

import numpy as np
import pandas as pd

import cals
import common
import purity
import queries
from queries import Q, stamp, untrip

ATTRS = ['first_trading_session', 'last_trading_session', 'late_opens',
         'early_closes']


def zone(tz):
    if tz is None:
        return 'naive'
    # any name of UTC will do
    for day in ('2001-01-15', '2001-07-15'):
        if pd.Timestamp(day, tz=tz).utcoffset() != pd.Timedelta(0):
            return str(tz)
    return 'UTC'


def moment(x):
    if x is pd.NaT:
        return 'none'
    if isinstance(x, pd.Timestamp):
        return zone(x.tz)
    return type(x).__name__


def shape(r):
    if r is pd.NaT:
        return 'none'
    if isinstance(r, pd.Timestamp):
        return 'moment ' + moment(r)
    if isinstance(r, pd.DatetimeIndex):
        return 'index ' + zone(r.tz)
    if isinstance(r, (tuple, list)) and len(r) == 2:
        return 'pair %s %s' % (moment(r[0]), moment(r[1]))
    if isinstance(r, pd.Series):
        if not isinstance(r.index, pd.DatetimeIndex):
            return 'series by ' + type(r.index).__name__
        if r.dtype.kind != 'M':
            return 'series of %s' % r.dtype
        return 'series %s by %s' % (zone(r.dt.tz), zone(r.index.tz))
    if isinstance(r, (bool, np.bool_)):
        return 'flag'
    if isinstance(r, (numbers.Integral, np.integer)) or \
            isinstance(r, (float, np.floating)) and int(r) == r:
        return 'count'
    return type(r).__name__


def ask(cal, q, form):
    if q[0] in ATTRS:
        return shape(getattr(cal, q[0]))
    meth, kinds, _ = Q[q[0]]
    try:
        if kinds is None:
            return shape(getattr(cal, meth))
        args = []
        for k, a in zip(kinds, q[1:]):
            if k == 't':
                args.append(stamp(a, form))
            elif k == 'd':
                args.append(cals.ts(a))
            elif k == 'T':
                args.append(pd.DatetimeIndex([untrip(x) for x in a],
                                             tz='UTC'))
            else:
                args.append(a)
        return shape(getattr(cal, meth)(*args))
    except Exception:
        return 'error'


def extra(rng, S, total):
    """Queries with empty or whole-range answers."""
    first, last = S[0], S[-1]
    a, z = first[1], last[4]
    far = queries.trip(untrip(z) + 400 * cals.DAY_NS)
    farther = queries.trip(untrip(z) + 500 * cals.DAY_NS)
    d, e = first[0], last[0]
    qs = [[x] for x in ATTRS + [m for m in Q if Q[m][1] is None]]
    qs += [['minutes_in_range', far, farther], ['minutes_in_range', z, a],
           ['minutes_in_range', a, z], ['minutes_window', a, 0],
           ['minutes_window', a, total], ['minutes_window', far, 3],
           ['bulk', []], ['bulk', [a]], ['sessions_in_range', e, d],
           ['sessions_in_range', e + 30, e + 40], ['sessions_in_range', d, e],
           ['sessions_window', d, 0], ['sessions_window', d, len(S)],
           ['minutes_for_sessions', d, e], ['minutes_for_sessions', e, d],
           ['opens_in_range', e, d], ['opens_in_range', d, e],
           ['closes_in_range', e, d], ['closes_in_range', d, e],
           ['exec_range', d, e], ['session_distance', d, e],
           ['session_distance', e, d], ['minutes_count', d, e],
           ['minutes_count', e, d]]
    for m in ('break_start_and_end', 'session_break_start',
              'session_break_end', 'open_and_close'):
        qs += [[m, s[0]] for s in S[:6]]
    return [(q, 'utc') for q in qs]


def batch(job):
    seed, n = job
    rng = random.Random('C26-%s' % seed)
    evs = []
    for _ in range(n):
        cal, label = queries.get_cal(rng, .3)
        if cal is None:
            continue
        S = queries.sessions_of(cal)
        total = len(cal.all_minutes)
        qs = purity.mixed_queries(rng, S, total, 5) + extra(rng, S, total)
        rng.shuffle(qs)
        for q, form in qs:
            for f in [form] + (['America/New_York'] if rng.random() < .3
                               else []):
                if f in ('int', 'int64') and q[0] not in ('is_open',
                                                          'to_session'):
                    f = 'utc'
                evs.append(dict(q=q[0], s=ask(cal, q, f), full=q, form=f,
                                label=label))
    return evs


def check(prop, tier, seed):
    res = common.Result(prop, tier, seed)
    n = 8 if tier == 'quick' else 60
    jobs = [('%d-%d' % (seed, i), n) for i in range(24)]
    outs = common.parallel(batch, jobs)
    shards = [[e for o in outs[i::6] for e in o] for i in range(6)]
    judged = common.tlc_env_traces(
        'ShapeTrace', [[{k: e[k] for k in 'qs'} for e in s] for s in shards])
    for evs, (v, r) in zip(shards, judged):
        if v['n'] != len(evs):
            raise common.MachineryError('trace not read to the end')
        res.add_tlc(r)
        for b in v['bad']:
            ev = evs[b['i'] - 1]
            res.violation('%s [%s] on %s returned %s; specification: %s' % (
                queries.nice(ev['full']), ev['form'], ev['label'][:300],
                ev['s'], b['exp']), ev)
    evs = [e for s in shards for e in s]
    res.traces = len(jobs) * n
    res.extra['answers'] = len(evs)
    res.extra['refused'] = sum(e['s'] == 'error' for e in evs)
    for e in evs[:3]:
        res.sample(dict(q=e['q'], s=e['s']))
    return res
