"""Conformance of table-driven calendars with spec/Bounds.tla (C17)."""
import random
import re

import cals
import common
import schedule
from cals import daynum, ts

DEFAULT = -1000000
SHIPPED = {'XKRX': (1986, 2021), 'XBOM': (1997, 2020), 'XSES': (1986, 2020),
           'XSHG': (1999, 2025), 'XHKG': (1960, 2049)}


def attempt(cls, lo, hi, style):
    """Build and describe the outcome."""
    ev = dict(lo=lo, hi=hi, k='ok', years=[], first=0, last=0, msg='')
    kw = {}
    if lo != DEFAULT:
        kw['start'] = ts(lo)
    if hi != DEFAULT:
        kw['end'] = ts(hi)
    try:
        if style and len(kw) == 2:
            cal = cls(kw['start'], kw['end'])
        else:
            cal = cls(**kw)
        ev['first'] = cal.first_trading_session.value // cals.DAY_NS
        ev['last'] = cal.last_trading_session.value // cals.DAY_NS
    except Exception as e:
        ev['k'] = 'err'
        ev['msg'] = '%s: %s' % (type(e).__name__, e)
        ev['years'] = [int(y) for y in re.findall(r'\d+', str(e))
                       if len(y) <= 6]
    return ev


def one_shipped(args):
    x, seed, n, part, parts = args
    y0, y1 = SHIPPED[x]
    cls = schedule.factories().get(x)
    rng = random.Random('%s%d' % (x, seed))
    a, b = daynum(y0, 1, 1), daynum(y1, 12, 31)
    if cls is None:
        return []
    pairs = [(a, a + 20), (b - 20, b), (a - 1, a + 10), (b - 10, b + 1),
             (a, b), (a - 400, a + 5), (b - 5, b + 400), (a - 40, a - 20),
             (b + 20, b + 40), (a - 3, b + 3), (a, b + 6), (a - 6, b)]
    if x != 'XHKG':
        pairs += [(DEFAULT, DEFAULT), (DEFAULT, a + 30), (b - 30, DEFAULT),
                  (DEFAULT, b + 1), (a - 1, DEFAULT), (DEFAULT, b + 7),
                  (DEFAULT, b + 2), (DEFAULT, b + 3), (a - 2, DEFAULT),
                  (a - 3, DEFAULT)]
    for k in range(1, 9):
        pairs += [(a - k, a + 12), (b - 12, b + k), (a + k, a + 12),
                  (b - 12, b - k)]
    for _ in range(n):
        lo = rng.randint(a - 30, b + 10)
        pairs.append((lo, lo + rng.choice([5, 20, 400])))
        hi = rng.randint(a, b + 30)
        pairs.append((hi - rng.choice([5, 20, 400]), hi))
    out = []
    for i, (lo, hi) in enumerate(pairs):
        if hi - lo > 10000 and x == 'XHKG' and n < 50:
            continue    # slow; the ends are what matters
        if i % parts != part:
            continue
        ev = attempt(cls, lo, hi, i % 2)
        ev['x'] = x
        out.append(ev)
    return out


def synthetic(args):
    seed, count = args
    from trading_calendars.precomputed_trading_calendar import \
        PrecomputedTradingCalendar
    rng = random.Random(seed)
    out = []
    for _ in range(count):
        y0 = rng.randint(1971, 2080)
        y1 = y0 + rng.choice([0, 0, 1, 2, 5])
        a, b = daynum(y0, 1, 1), daynum(y1, 12, 31)
        # an entry in the first and in the last covered year, often at the
        # very boundary, and others between
        days = {rng.choice([a, a + 1, a + rng.randint(0, 364)]),
                rng.choice([b, b - 1, b - rng.randint(0, 364)])}
        days |= {rng.randint(a, b) for _ in range(rng.choice([0, 3, 30]))}
        if rng.random() < .3:
            days |= set(range(a, a + rng.randint(1, 12)))
        if rng.random() < .3:
            days |= set(range(b - rng.randint(1, 12), b + 1))
        days = sorted(days)
        if rng.random() < .5:
            rng.shuffle(days)
        # recurring holidays that may close the days just outside
        rules = []
        if rng.random() < .6:
            for m, d in ((12, 31), (12, 30), (12, 29), (1, 1), (1, 2), (1, 3)):
                if rng.random() < .6:
                    rules.append(cals.mkrule(m, d))
        mask = rng.choice([[0, 1, 2, 3, 4], [0, 1, 2, 3, 4], [6, 0, 1, 2, 3],
                           [0, 1, 2, 3, 4, 5, 6], [2], [0, 4]])
        d = cals.mkdef(tz=rng.choice(cals.ZONES), mask=mask, rules=rules,
                       adhoc=days)
        # (pandas does not combine a DatetimeIndex with recurring holidays)
        form = rng.choice(['utc', 'naive'] if rules else ['utc', 'index'])
        base = cals.build_class(d, form=form, base=PrecomputedTradingCalendar)
        table = cals._days_form(days, form)
        del base.adhoc_holidays
        cls = type('Table', (base,), dict(
            precomputed_holidays=property(lambda self, t=table: t)))
        los = [a, a - 1, a - rng.randint(1, 8), a + rng.randint(0, 20),
               a - rng.randint(9, 40), DEFAULT, a - rng.randint(300, 500)]
        his = [b, b + 1, b + rng.randint(1, 8), b - rng.randint(0, 20),
               b + rng.randint(9, 40), DEFAULT, b + rng.randint(300, 500)]
        for k in range(8):
            lo, hi = rng.choice(los), rng.choice(his)
            if rng.random() < .4:
                # a short range at one of the ends
                if rng.random() < .5 and lo != DEFAULT:
                    hi = lo + rng.randint(0, 12)
                elif hi != DEFAULT:
                    lo = hi - rng.randint(0, 12)
            if DEFAULT not in (lo, hi) and lo > hi:
                continue
            if lo == DEFAULT and hi != DEFAULT and hi < a or \
                    hi == DEFAULT and lo != DEFAULT and lo > b:
                continue
            ev = attempt(cls, lo, hi, k % 2)
            ev.update(x='', table=days, mask=mask, rules=rules)
            out.append(ev)
    return out


def check(prop, tier, seed):
    res = common.Result(prop, tier, seed)
    n = 12 if tier == 'quick' else 120
    jobs = [('s', (x, seed, n, part, 3)) for x in sorted(SHIPPED)
            for part in range(3)]
    jobs += [('u', (seed * 100 + i, 8 if tier == 'quick' else 200))
             for i in range(16)]
    outs = common.parallel(
        lambda j: one_shipped(j[1]) if j[0] == 's' else synthetic(j[1]), jobs)
    evs = [e for o in outs for e in o]
    shards = [s for s in (evs[i::6] for i in range(6)) if s]
    for (v, r), tr in zip(common.tlc_env_traces('Bounds', shards), shards):
        res.add_tlc(r)
        if v['n'] != len(tr):
            raise common.MachineryError('trace not read to the end')
        res.traces += len(tr)
        res.count('refused', v['refused'])
        for b in v['bad']:
            ev = tr[b['i'] - 1]
            res.violation(
                '%s over %s..%s: %s (%s), specification: %s %s'
                % (ev['x'] or 'table-driven calendar',
                   'default' if ev['lo'] == DEFAULT else cals.date_of(ev['lo']),
                   'default' if ev['hi'] == DEFAULT else cals.date_of(ev['hi']),
                   ev['k'], ev['msg'][:120], b['say'][0]['why'],
                   b['say'][0]['exp']), dict(event=ev, expected=b['say']))
    res.extra['shipped_constructions'] = sum(e['x'] != '' for e in evs)
    res.extra['user_defined_constructions'] = sum(e['x'] == '' for e in evs)
    for e in evs[::max(1, len(evs) // 6)]:
        res.sample('%s %s..%s %s' % (e['x'] or 'user', e['lo'], e['hi'],
                                     e['k']))
    res.assumptions = ['covered years of the shipped tables as recorded in '
                       'spec/Bounds.tla']
    return res
