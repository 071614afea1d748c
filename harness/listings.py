"""C22, C30: dates listed for the library's reusable holidays over any range,
also before 1970, and the named lists of one-off closings, against spec/RuleTrace.tla."""
import random

import pandas as pd

import cals
import common


def naive(x):
    return pd.Timestamp(cals.date_of(x))


def days_of(index):
    index = pd.DatetimeIndex(index)
    if index.tz is not None:
        index = index.tz_convert('UTC')
    if len(index) and not (index == index.normalize()).all():
        raise ValueError('a date with a time of day')
    return sorted(set(int(x) for x in index.asi8 // cals.DAY_NS))


def history(job):
    """One holiday calendar asked for several ranges in turn."""
    import schedule
    prop, seed, n = job
    rng = random.Random('list-%s-%s' % (prop, seed))
    evs = []
    for _ in range(n):
        y = rng.randint(1864, 2180)
        if prop == 'C30' and rng.random() < .6:
            y = rng.randint(1925, 2020)
        lo = cals.daynum(y, rng.randint(1, 12), rng.randint(1, 28))
        hi = lo + rng.choice([0, rng.randint(1, 60), rng.randint(60, 2500)])
        k = rng.choice([1, 1, 2, 5])
        if prop == 'C30':
            rules = [schedule.jewish(x) for x in rng.sample(cals.US, k)]
        else:
            rules = [schedule.random_block(rng, lo, hi) for _ in range(k)]
        ranges = [(lo, hi)]
        for _ in range(rng.choice([0, 1, 3])):
            a, b = rng.choice(ranges)
            ranges.append(rng.choice([
                (a, b), (a + 1, b), (a, max(a, b - 1)), (a - 300, b),
                (a, b + 300), (a - 40, a + 40), (b - 40, b + 40)]))
        try:
            hc, err = cals.holiday_calendar(rules), ''
        except Exception as e:
            hc, err = None, repr(e)[:200]
        for a, b in ranges:
            # pandas cannot evaluate observances of rules long out of force
            if any(r['to'] < a or r['from'] > b for r in rules):
                continue
            ev = dict(rules=rules, closing='', lo=a, hi=b, days=[], odd=err)
            if hc is not None and a <= b:
                try:
                    ev['days'] = days_of(hc.holidays(naive(a), naive(b)))
                except Exception as e:
                    ev['odd'] = repr(e)[:200]
                evs.append(ev)
            elif hc is None:
                evs.append(ev)
    return evs


def whole(job):
    """Each rule, over all the years it has."""
    import schedule
    evs = []
    for name in job:
        r = schedule.jewish(name)
        a = max(r['from'], cals.daynum(1864, 1, 1))
        b = min(r['to'], cals.daynum(2120, 12, 31))
        for lo, hi in ((a, b), (a - 500, b + 500)):
            ev = dict(rules=[r], closing='', lo=lo, hi=hi, days=[], odd='')
            try:
                ev['days'] = days_of(cals.holiday_calendar([r]).holidays(
                    naive(lo), naive(hi)))
            except Exception as e:
                ev['odd'] = repr(e)[:200]
            evs.append(ev)
    return evs


def closings():
    from trading_calendars import us_holidays
    evs = []
    for n in cals.CLOSINGS:
        ev = dict(rules=[], closing=n, lo=0, hi=0, days=[], odd='')
        try:
            ev['days'] = days_of(getattr(us_holidays, n))
        except AttributeError:
            continue
        except Exception as e:
            ev['odd'] = repr(e)[:200]
        evs.append(ev)
    return evs


def check(res, prop, tier, seed):
    n = 30 if tier == 'quick' else 400
    outs = common.parallel(history, [(prop, '%d-%d' % (seed, i), n)
                                     for i in range(16)])
    evs = [e for o in outs for e in o]
    if prop == 'C30':
        evs += closings()
        for o in common.parallel(whole, [cals.US[i::8] for i in range(8)]):
            evs += o
    shards = [s for s in (evs[i::4] for i in range(4)) if s]
    for (v, r), tr in zip(common.tlc_env_traces('RuleTrace', shards),
                          shards):
        res.add_tlc(r)
        if v['n'] != len(tr):
            raise common.MachineryError('trace not read to the end')
        for b in v['bad']:
            ev = tr[b['i'] - 1]
            res.violation('%s over %s..%s: %s, missing %s, not expected %s' % (
                ev['closing'] or [x['name'] for x in ev['rules']],
                cals.date_of(ev['lo']), cals.date_of(ev['hi']), b['why'],
                [str(cals.date_of(x)) for x in sorted(b['missing'])[:5]],
                [str(cals.date_of(x)) for x in sorted(b['extra'])[:5]]),
                dict(event=ev, verdict=b))
    res.traces += len(evs)
    res.extra['listings'] = len(evs)
    res.extra['dates_listed'] = sum(len(e['days']) for e in evs)
