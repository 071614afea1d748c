"""Calendars built with a start or an end left out, against
spec/DefaultTrace.tla (C23)."""
import datetime
import json
import os
import random
import subprocess
import sys

import pandas as pd

LOADED = [datetime.datetime.utcnow().date()]
import cals  # noqa: E402  (loads the library)
LOADED.append(datetime.datetime.utcnow().date())

import common  # noqa: E402
import schedule  # noqa: E402
from cals import NEG, daynum, ts  # noqa: E402

LOADED = [(d - cals.EPOCH).days for d in LOADED]
TABLES = ('XKRX', 'XBOM', 'XSES', 'XSHG')      # their years: see C17
HEAVY = ('24/7', 'CMES', 'us_futures', 'IEPA')
BEFORE, AFTER = 25, 45


def show(day):
    return 'none' if day == NEG else cals.date_of(day)


def session_days(cal):
    out = cals.labels(cal.all_sessions)
    return [-2] if out is None else out


_wide = {}


def everything(cls, lo, hi):
    """Sessions of a calendar of this kind that covers lo..hi."""
    got = _wide.get(cls)
    if got is None or got[0] > lo or got[1] < hi:
        lo = min(lo, daynum(1988, 1, 1))
        hi = max(hi, LOADED[0] + 500, daynum(2031, 1, 1))
        days = None
        for first in (lo, daynum(1990, 1, 1)):      # not all reach so far back
            try:
                days = session_days(cls(start=ts(first), end=ts(hi)))
                break
            except Exception:
                pass
        got = _wide[cls] = lo, hi, days
    return got[2]


def observe(x, build, cls, start, end, what):
    """Build a calendar and describe the sessions near its ends."""
    ev = dict(x=x, start=start, end=end, loaded=LOADED, days=[], first=0,
              last=0, wide=[], k='ok', what=what)
    try:
        cal = build()
        days = session_days(cal)
        ev['first'] = cal.first_session.value // cals.DAY_NS
        ev['last'] = cal.last_session.value // cals.DAY_NS
    except Exception as e:
        days = []
        ev['k'] = 'err'
        ev['msg'] = repr(e)[:200]
    ends = [daynum(1990, 1, 1), daynum(2000, 1, 1), LOADED[0] + 365]
    ends += [d for d in (start, end) if d != NEG]
    if days:
        ends += [days[0], days[-1]]
    win = set()
    for c in sorted(set(ends)):
        win |= set(range(c - BEFORE, c + AFTER + 1))
    wide = everything(cls, min(win), max(win))
    if wide is None:        # window by window
        wide = []
        for c in sorted(set(ends)):
            try:
                wide += session_days(cls(start=ts(c - BEFORE),
                                         end=ts(c + AFTER)))
            except Exception:
                continue
    ev['wide'] = sorted(set(d for d in wide if d in win))
    ev['days'] = [d for d in days if d in win]
    return ev


def late(rng, day):
    """The day, at some moment of it."""
    return ts(day) + rng.choice([
        pd.Timedelta(0), pd.Timedelta(1, 'ns'), pd.Timedelta(hours=9),
        pd.Timedelta(hours=23, minutes=59),
        pd.Timedelta(days=1) - pd.Timedelta(1, 'us')])


def forms(rng, x, cls, heavy=False, full=True):
    out = []
    far = LOADED[0] + 365
    if not heavy:
        out.append(observe(x, cls, cls, NEG, NEG, 'no arguments'))
    s = far - rng.randint(0, 700)
    out.append(observe(x, lambda: cls(start=ts(s)), cls, s, NEG, 'start'))
    e = daynum(2000, 1, 1) + rng.randint(0, 60)
    which = rng.choice(['end', 'both'])
    if not heavy and (full or which == 'end'):
        out.append(observe(x, lambda: cls(end=late(rng, e)), cls, NEG, e,
                           'end'))
    a = daynum(rng.randint(1991, 2030), rng.randint(1, 12), 1)
    b = a + rng.randint(0, 40)
    if heavy or full or which == 'both':
        out.append(observe(x, lambda: cls(ts(a), late(rng, b)), cls, a, b,
                           'both'))
    return out


def one_shipped(job):
    import trading_calendars
    name, seed, full = job
    rng = random.Random('%s-%s' % (name, seed))
    cls = schedule.factories().get(name)
    if cls is None:
        return []
    out = [observe(name, lambda: trading_calendars.get_calendar(name), cls,
                   NEG, NEG, 'get_calendar')]
    return out + forms(rng, name, cls, name in HEAVY, full)


def generated(job):
    import trading_calendars
    seed, n = job
    rng = random.Random('defaults-%s' % seed)
    out = []
    for i in range(n):
        d = cals.mkdef(mask=schedule.random_mask(rng),
                       tz=rng.choice(cals.ZONES))
        for c in (daynum(1990, 1, 1), LOADED[0] + 365):
            d['adhoc'] = d['adhoc'] + [c + k for k in range(-6, 7)
                                       if rng.random() < .3]
        d['rules'] = [cals.random_rule(rng, LOADED[0] + 340, LOADED[0] + 390)
                      for _ in range(rng.randint(0, 2))]
        cls = cals.build_class(d, form='naive')
        out += forms(rng, '', cls)
        name = 'default-%s-%d' % (seed, i)
        trading_calendars.register_calendar_type(name, cls)
        try:
            out.append(observe(
                '', lambda: trading_calendars.get_calendar(name), cls, NEG,
                NEG, 'registered type'))
        finally:
            trading_calendars.deregister_calendar(name)
    return out


def away(job):
    """The same in a process started in another time zone."""
    tz, seed = job
    out = subprocess.run(
        [sys.executable, os.path.abspath(__file__), str(seed)],
        env=dict(os.environ, TZ=tz), stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, timeout=700)
    if out.returncode:
        raise common.MachineryError(out.stderr.decode()[-2000:])
    evs = json.loads(out.stdout.decode())
    for e in evs:
        e['what'] += ', TZ=' + tz
    return evs


def at_home(seed):
    rng = random.Random('away-%s' % seed)
    out = generated(('away-%s' % seed, 1))
    for name in rng.sample(['XNYS', 'XLON', 'XHKG', 'XASX'], 1):
        out += one_shipped((name, seed, True))
    return out


def check(prop, tier, seed):
    res = common.Result(prop, tier, seed)
    names = [n for n in schedule.shipped_names() if n not in TABLES]
    names.sort(key=lambda n: n not in HEAVY)
    jobs = [(one_shipped, (n, seed, tier != 'quick')) for n in names]
    jobs += [(generated, ('%d-%d' % (seed, i), 1 if tier == 'quick' else 20))
             for i in range(8)]
    jobs += [(away, (tz, seed)) for tz in ('LIN-14', 'WST+11')]
    outs = common.parallel(lambda j: j[0](j[1]), jobs)
    evs = [e for o in outs for e in o]
    shards = [s for s in (evs[i::4] for i in range(4)) if s]
    for (v, r), tr in zip(common.tlc_env_traces('DefaultTrace', shards),
                          shards):
        res.add_tlc(r)
        if v['n'] != len(tr):
            raise common.MachineryError('trace not read to the end')
        res.traces += len(tr)
        for b in v['bad']:
            ev, say = tr[b['i'] - 1], b['say'][0]
            res.violation(
                '%s built with %s: %s, sessions %s..%s; specification: '
                'range %s..%s, sessions %s..%s' % (
                    ev['x'] or 'a generated calendar', ev['what'], ev['k'],
                    cals.date_of(ev['first']), cals.date_of(ev['last']),
                    show(say['from']), show(say['to']),
                    show(say['first']), show(say['last'])),
                dict(event=ev, expected=say))
    for e in evs[::max(1, len(evs) // 6)]:
        res.sample('%s %s %s..%s' % (e['x'] or 'generated', e['what'],
                                     cals.date_of(e['first']),
                                     cals.date_of(e['last'])))
    res.extra['calendars_built'] = len(evs)
    res.assumptions = ['the day the library is loaded is the day of the run']
    return res


if __name__ == '__main__':
    print(json.dumps(at_home(sys.argv[1])))
