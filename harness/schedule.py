"""C01, C02, C03 (arbitrary definitions) and C15, C16, C18 (shipped exchanges):
schedules recorded from the implementation are checked against Schedule.tla."""
import os
import random

import pandas as pd

import cals
import common
from cals import NEG, daynum, ts, weekday

HI = daynum(2099, 12, 31)


# ------------------------------------------------------------ generators

def random_range(rng):
    """Ranges of many lengths, drawn to year ends, leap days and weekends."""
    y = rng.randint(1970, 2090)
    k = rng.random()
    if k < .25:
        lo = daynum(y, 1, 1) + rng.randint(-4, 4)
    elif k < .35:
        y = y - y % 4
        lo = daynum(y, 3, 1) + rng.randint(-4, 2)
    else:
        lo = daynum(y, 1, 1) + rng.randint(0, 364)
    k = rng.random()
    n = (rng.randint(0, 6) if k < .25 else rng.randint(5, 60) if k < .5
         else rng.randint(60, 800))
    if rng.random() < .01:
        hi = lo + rng.randint(800, 15000)
    elif rng.random() < .2:
        hi = daynum(y + rng.randint(0, 2), 12, 31) + rng.randint(-3, 3)
        hi = max(lo, hi)
    else:
        hi = lo + n
    return max(lo, 0), max(hi, 0)


def random_mask(rng):
    k = rng.random()
    if k < .4:
        return [0, 1, 2, 3, 4]
    if k < .5:
        return [0, 1, 2, 3, 6]
    if k < .65:
        return list(range(7))
    return sorted(rng.sample(range(7), rng.randint(1, 6)))


def add_holidays(rng, d, lo, hi, nrules=6, nadhoc=8):
    d['rules'] = [cals.random_rule(rng, lo, hi)
                  for _ in range(rng.randint(0, nrules))]
    k = rng.randint(0, nadhoc)
    d['adhoc'] = [rng.randint(lo - 5, hi + 5) for _ in range(k)]
    if k and rng.random() < .3:
        d['adhoc'].append(rng.choice([lo, hi]))
    if rng.random() < .15:      # a run of closed days
        a = rng.randint(lo, hi)
        d['adhoc'] += list(range(a, a + rng.randint(2, 12)))
    if k and rng.random() < .2:
        d['adhoc'].append(d['adhoc'][0])
    d['adhoc'] = [x for x in d['adhoc'] if x >= 0]


def gen_c01(rng):
    lo, hi = random_range(rng)
    d = cals.mkdef(mask=random_mask(rng), tz=rng.choice(cals.ZONES))
    add_holidays(rng, d, lo, hi)
    return d, lo, hi


def pick_times(rng, d, lo, hi, breaks=True, far=False):
    """Time regimes, offsets and zone; every wall-clock time used exists
    exactly once on every day it can be used on."""
    zone = rng.choice(cals.ZONES)
    d['tz'] = zone
    chg = cals.zone_changes(zone, lo, hi)
    far = far and len(d['mask']) == 1 and rng.random() < .6
    for _ in range(60):
        oo = rng.choice([0, 0, 0, -1])
        co = rng.choice([0, 0, 0, 1]) if oo == 0 else 0
        if far:              # one session a week, days long
            oo, co = rng.choice([(-2, 0), (-3, 0), (0, 2), (-1, 1), (1, 1),
                                 (1, 3), (-2, -1), (2, 3), (-1, -1)])
        sec = rng.choice([0, 0, 0, 0, 30, 59]) if rng.random() < .5 else 0
        if far:
            o_lo, o_hi, c_lo, c_hi = 60, 600, 720, 1439
        elif oo == -1:
            o_lo, o_hi, c_lo, c_hi = 1020, 1430, 300, 900
        elif co == 1:
            o_lo, o_hi, c_lo, c_hi = 720, 1200, 0, 500
        else:
            o_lo, o_hi, c_lo, c_hi = 60, 600, 720, 1439
        nreg = rng.choice([1, 1, 2, 3, 5])

        def starts(n):
            pool = [rng.randint(lo - 3, hi + 3) for _ in range(4)]
            pool += [x + rng.randint(-1, 1) for x in chg[:6]] + [lo, hi]
            s = sorted(set(rng.choice(pool) for _ in range(n - 1)))
            return [NEG] + s

        def regs(n, a, b):
            t = [rng.randint(a, b) for _ in range(8)]
            if chg:   # just around the clock change
                t += [x for x in (119, 180, 181, 240, 60) if a <= x <= b]
            return [[s, rng.choice(t) * 60 + sec] for s in starts(n)]
        opens = regs(nreg, o_lo, o_hi)
        closes = regs(rng.choice([1, nreg, 3]), c_lo, c_hi)
        bs = be = []
        if breaks and rng.random() < .5 and oo == 0 and co == 0:
            bs = regs(rng.choice([1, 2]), 602, 640)
            be = regs(rng.choice([1, 2]), 645, 700)
        ok = True
        for r, off in ((opens, oo), (closes, co), (bs, 0), (be, 0)):
            for _, t in r:
                for c in chg:
                    for x in (c - 1, c, c + 1):
                        if not cals.local_ok(zone, x, t):
                            ok = False
        if ok:
            d.update(oo=oo, co=co, opens=opens, closes=closes, bstarts=bs,
                     bends=be)
            return d
    return d


def gen_c02(rng):
    lo, hi = random_range(rng)
    if hi - lo < 200 and rng.random() < .5:
        hi = lo + rng.randint(200, 500)
    d = cals.mkdef(mask=rng.choice([list(range(7)), random_mask(rng)]))
    if rng.random() < .12:
        d['mask'] = [rng.randrange(7)]
    if rng.random() < .3:
        add_holidays(rng, d, lo, hi, 2, 3)
    pick_times(rng, d, lo, hi, far=True)
    return d, lo, hi


def rule_days(rules, lo, hi):
    """Days of the rules (used only to keep generated inputs unambiguous)."""
    out = []
    for r in rules:
        for t in cals.to_holiday(r).dates(pd.Timestamp(cals.date_of(lo)),
                                          pd.Timestamp(cals.date_of(hi))):
            out.append((t.date() - cals.EPOCH).days)
    return out


def gen_c03(rng):
    lo, hi = random_range(rng)
    if rng.random() < .4:
        hi = lo + rng.randint(0, 12)
    d = cals.mkdef(mask=rng.choice([list(range(7)), random_mask(rng)]))
    holidays = rng.random() < .4
    if holidays:
        add_holidays(rng, d, lo, hi, 2, 3)
    pick_times(rng, d, lo, hi)
    sec = d['opens'][0][1] % 60
    zone = d['tz']
    closed = set(d['adhoc']) | set(rule_days(d['rules'], lo, hi))
    is_sess = lambda x: weekday(x) in d['mask'] and x not in closed  # noqa
    off_ok = rng.random() < .15        # allow a special on a closed day
    chg = set(y for c in cals.zone_changes(zone, lo, hi)
              for y in (c - 1, c, c + 1))
    # windows that keep open < break < close
    if d['oo'] == -1:
        w_open, w_close = (0, 280), (420, 890)
    elif d['co'] == 1:
        w_open, w_close = (560, 719), (1210, 1430)
    else:
        w_open, w_close = (400, 600), (705, 1400)
        if d['bstarts']:
            w_open = (200, 600)
    for which, win in (('sopens', w_open), ('scloses', w_close)):
        if rng.random() < .25:
            continue
        used = set()
        n = rng.randint(1, 3)
        for _ in range(n):
            t = rng.randint(*win) * 60 + sec
            if any(not cals.local_ok(zone, x, t) for x in chg):
                continue
            if rng.random() < .5:
                rule = cals.random_rule(rng, lo, hi, simple=True)
                if not off_ok and d['mask'] != list(range(7)):
                    rule = dict(rule, dow=list(d['mask']))
                # pandas cannot evaluate dated rules over a UTC range
                rule['year'] = 0
                days = rule_days([rule], lo - 400, hi + 400)
                bad = [x for x in days if lo <= x <= hi and not is_sess(x)]
                if used & set(days) or (bad and not off_ok):
                    continue
                used |= set(days)
                d[which] = d[which] + [[t, [rule]]]
            else:
                k = rng.randint(1, 5)
                days = [rng.randint(lo - 3, hi + 3) for _ in range(k)]
                if rng.random() < .5:
                    days.append(rng.choice([lo, hi, lo + 1, hi - 1]))
                if not off_ok:
                    days = [x for x in days
                            if is_sess(x) or x < lo or x > hi]
                days = sorted(set(x for x in days if x not in used and x >= 0))
                if not days:
                    continue
                rng.shuffle(days)
                used |= set(days)
                d[which + 'A'] = d[which + 'A'] + [[t, days]]
    return d, lo, hi


def random_block(rng, lo, hi):
    name = rng.choice(sorted(cals.BLOCKS))
    can = cals.BLOCKS[name]
    b = dict(name=name, obs='', dow=[], to=cals.POS, style=rng.randint(0, 1))
    b['from'] = rng.randint(lo - 400, hi) if rng.random() < .4 else NEG
    if rng.random() < .4:
        b['to'] = rng.randint(max(lo, b['from']), hi + 400)
    if 'o' in can and rng.random() < .5:
        b['obs'] = rng.choice(sorted(cals.OBS))
    if 'd' in can and rng.random() < .4:
        b['dow'] = sorted(rng.sample(range(7), rng.randint(1, 5)))
    return b


def gen_c22(rng):
    """Calendars written with the library's reusable holidays."""
    y = rng.randint(1970, 2190)
    lo = daynum(y, rng.randint(1, 12), rng.randint(1, 28))
    hi = lo + rng.choice([rng.randint(3, 60), rng.randint(300, 1500)])
    d = cals.mkdef(mask=rng.choice([list(range(7)), list(range(7)),
                                    random_mask(rng)]))
    d['rules'] = [random_block(rng, lo, hi)
                  for _ in range(rng.choice([1, 1, 2, 3, 6]))]
    if rng.random() < .3:
        d['moved'] = [rng.randint(lo, hi) for _ in range(5)]
        if rng.random() < .3:
            d['moved'].sort()
    if rng.random() < .3:
        d['mask'] = list(range(7))
        closed = set(rule_days(d['rules'], lo, hi)) | set(
            x + k for x in d.get('moved', []) for k in (0, 1))
        b = random_block(rng, lo, hi)
        if not closed & set(rule_days([b], lo, hi)):
            d['scloses'] = [[13 * 3600, [b]]]
    return d, lo, hi


def jewish(name):
    return dict(name=name, obs='', dow=[], to=cals.POS, style=0,
                **{'from': NEG})


def gen_c29(rng):
    """Calendars written with the library's Jewish holidays."""
    y = rng.choice([rng.randint(1970, 2190), rng.randint(1995, 2050)])
    lo = daynum(y, rng.randint(1, 12), rng.randint(1, 28))
    hi = lo + rng.choice([rng.randint(3, 60), rng.randint(300, 1500)])
    d = cals.mkdef(mask=rng.choice([list(range(7)), list(range(7)),
                                    [6, 0, 1, 2, 3]]))
    names = rng.sample(cals.JEWISH, rng.choice([1, 2, 5, len(cals.JEWISH)]))
    d['rules'] = [jewish(n) for n in names]
    if rng.random() < .3:
        d['rules'].append(random_block(rng, lo, hi))
        rng.shuffle(d['rules'])
    if rng.random() < .3:
        d['mask'] = list(range(7))
        b = jewish(rng.choice(cals.JEWISH))
        if not set(rule_days(d['rules'], lo, hi)) & set(
                rule_days([b], lo, hi)):
            d['scloses'] = [[13 * 3600, [b]]]
    return d, lo, hi


def gen_c30(rng):
    """Calendars written with the library's United States holidays."""
    y = rng.choice([rng.randint(1970, 2190), rng.randint(1970, 2020)])
    lo = daynum(y, rng.randint(1, 12), rng.randint(1, 28))
    hi = lo + rng.choice([rng.randint(3, 60), rng.randint(300, 1500)])
    d = cals.mkdef(mask=rng.choice([list(range(7)), list(range(7)),
                                    list(range(5))]))
    d['rules'] = [jewish(n) for n in rng.sample(
        cals.US, rng.choice([1, 2, 5, len(cals.US)]))]
    if rng.random() < .3:
        d['rules'].append(random_block(rng, lo, hi))
        rng.shuffle(d['rules'])
    if rng.random() < .4:
        d['closings'] = rng.sample(cals.CLOSINGS, rng.randint(1, 16))
    elif rng.random() < .4:
        d['mask'] = list(range(7))
        b = jewish(rng.choice(cals.US))
        if not set(rule_days(d['rules'], lo, hi)) & set(
                rule_days([b], lo, hi)):
            d['scloses'] = [[13 * 3600, [b]]]
    return d, lo, hi


def gen_c24(rng):
    """Definitions that may leave a session without times, and ranges that
    may have no session."""
    lo, hi = random_range(rng)
    if rng.random() < .6:
        hi = lo + rng.randint(0, 12)
    d = cals.mkdef(mask=random_mask(rng))
    if rng.random() < .3:
        add_holidays(rng, d, lo, hi, 2, 3)
    if rng.random() < .2:       # closed for (nearly) the whole range
        d['adhoc'] = [x for x in range(lo, min(hi, lo + 40) + 1)
                      if rng.random() < .97]
    if rng.random() < .05:
        lo, hi = hi, lo

    def regs(t):
        k = rng.random()
        if k < .75:
            out = [[NEG, t]]
        else:
            out = [[rng.choice([lo - 5, lo - 1, lo, lo + 1, lo + 2, hi,
                                hi + 1, hi + 9]), t]]
        if rng.random() < .3:
            out.append([max(out[0][0] + 1, rng.randint(min(lo, hi),
                                                       max(lo, hi))),
                        t + 1800])
        return out
    d['opens'] = regs(9 * 3600)
    d['closes'] = regs(16 * 3600)
    if rng.random() < .5:
        d['bstarts'] = regs(11 * 3600)
    if rng.random() < .5:
        d['bends'] = regs(13 * 3600)
    if rng.random() < .3:
        closed = set(d['adhoc']) | set(rule_days(d['rules'], lo, hi))
        days = [x for x in range(lo, min(hi, lo + 12) + 1)
                if weekday(x) in d['mask'] and x not in closed]
        if rng.random() < .5:
            days = [x for x in days if rng.random() < .6]
        if days:
            d['sclosesA'] = [[14 * 3600, days]]
    return d, lo, hi


GENS = dict(C01=gen_c01, C02=gen_c02, C03=gen_c03, C22=gen_c22, C24=gen_c24,
            C29=gen_c29, C30=gen_c30)
WANTED = dict(C01=['outcome', 'sessions'], C02=['outcome', 'regular'],
              C03=['outcome', 'special', 'listing', 'known'],
              C22=['outcome', 'sessions', 'listing', 'known'],
              C24=['outcome', 'refusal'],
              C29=['outcome', 'sessions', 'listing', 'known'],
              C30=['outcome', 'sessions', 'listing', 'known'],
              C15=['outcome', 'sessions'],
              C16=['outcome', 'rows', 'listing', 'known'],
              C18=['outcome', 'shape'])
NCASES = dict(quick=dict(C01=900, C02=700, C03=700, C22=600, C24=900,
                         C29=280, C30=500),
              thorough=dict(C01=12000, C02=10000, C03=10000, C22=12000,
                            C24=12000, C29=9000, C30=9000))


def record(prop, d, lo, hi, rng):
    form = rng.choice(['utc', 'naive'])
    sform = rng.choice(['str', 'naive', 'utc', 'index'])
    try:
        cls = cals.build_class(d, form=form, sform=sform)
    except Exception as e:        # the library's own holidays
        cal, err = None, e
    else:
        cal, err = cals.build(cls, lo, hi)
    probes, base = [], []
    if cal is not None and prop == 'C01':
        try:
            probes = c01_probes(cal, d, lo, hi, rng)
        except Exception as e:
            ev = cals.event(cal, err, lo, hi, d=d)
            ev['odd'] = 'query failed: %r' % e
            return ev
    if cal is not None and prop == 'C03':
        plain = dict(d, sopens=[], scloses=[], sopensA=[], sclosesA=[])
        pcal, _ = cals.build(cals.build_class(plain, form=form), lo, hi)
        if pcal is not None:
            base = cals.Recorded(pcal).segs(lo, hi)
    try:
        ev = cals.event(cal, err, lo, hi, d=d, probes=probes, base=base)
    except Exception as e:
        ev = cals.event(None, err, lo, hi, d=d)
        ev['k'] = 'ok'
        ev['odd'] = 'schedule cannot be read: %r' % e
    if err is not None:
        ev['err'] = repr(err)[:200]
    return ev


AFTER_MIDNIGHT = [pd.Timedelta(1, 'ns'), pd.Timedelta(minutes=1),
                  pd.Timedelta(hours=12), pd.Timedelta(days=1) -
                  pd.Timedelta(1, 'ns')]


def c01_probes(cal, d, lo, hi, rng):
    out = []
    days = [rng.randint(lo - 3, hi + 3) for _ in range(6)] + [lo, hi, lo - 1,
                                                              hi + 1]
    days = [x for x in days if x >= 70]
    for x in days:
        out.append(('member', x, 0, 1 if cal.is_session(ts(x)) else 0))
        out.append(('on', x, 0, 1 if cal.day.onOffset(ts(x)) else 0))
        out.append(('member', x, 1, 1 if cal.is_session(
            ts(x) + rng.choice(AFTER_MIDNIGHT)) else 0))
    for kind, label in (('first', cal.first_session),
                        ('last', cal.last_session),
                        ('first', cal.first_trading_session),
                        ('last', cal.last_trading_session)):
        out.append((kind, label.value // cals.DAY_NS
                    if label.value % cals.DAY_NS == 0 else -1, 0, 0))
    # a business day has to exist close by for the offset to be meaningful
    busy = set(d['adhoc'])
    if len(d['mask']) >= 2 and len(busy) < 25 and len(d['rules']) < 9:
        for x in days[:4]:
            for n in (1, -1, rng.choice([2, 3, -2, -3])):
                r = ts(x) + cal.day * n
                out.append(('offset', x, n, r.value // cals.DAY_NS
                            if r.value % cals.DAY_NS == 0 else -1))
            r = cal.day.rollforward(ts(x))
            out.append(('offset', x, 0, r.value // cals.DAY_NS
                        if r.value % cals.DAY_NS == 0 else -1))
    return out


def run_batch(job):
    prop, seed, n = job
    rng = random.Random('%s-%s' % (prop, seed))
    out = []
    for _ in range(n):
        d, lo, hi = GENS[prop](rng)
        out.append(record(prop, d, lo, hi, rng))
    return out


# ------------------------------------------------------------ judging

def describe(ev, say):
    what = ev['x'] or 'synthetic calendar (%s)' % ev['def'].get('tz')
    return '%s over %s..%s: %s: specification says %s' % (
        what, cals.date_of(ev['start']), cals.date_of(ev['end']), say['why'],
        pretty(say['exp']))


def pretty(e):
    if isinstance(e, dict):
        out = {}
        for k, v in e.items():
            if k in ('missing', 'extra'):
                v = [str(cals.date_of(x)) for x in sorted(v)[:6]]
            elif k in ('day', 'first', 'last'):
                v = str(cals.date_of(v))
            out[k] = v
        return out
    return e


def judge(res, prop, shards):
    wanted = os.path.join(common.scratch(), 'wanted-%s.json' % prop)
    with open(wanted, 'w') as f:
        import json
        json.dump(WANTED[prop], f)
    outs = common.tlc_env_traces('ScheduleTrace', shards, par=8,
                                 env=dict(WANTED=wanted), heap='3g')
    for events, (v, r) in zip(shards, outs):
        if v['n'] != len(events):
            raise common.MachineryError('trace not read to the end')
        res.add_tlc(r)
        for b in v['bad']:
            ev = events[b['i'] - 1]
            for say in b['say']:
                res.violation(describe(ev, say), dict(event=ev, say=say))
        for k in v['known']:
            ev = events[k['i'] - 1]
            res.count('known_F2_instances', len(k['days']))
            yield ev, k['days']


F2 = ("F2: a special open/close whose instant is after midnight UTC of the "
      "range's last day is ignored (%s)")


def theorems(res, prop, tier):
    """Model check the specification of schedules and dates itself."""
    big = '' if tier == 'quick' else 'Big'
    if prop in ('C01', 'C02', 'C03', 'C04', 'C18'):
        res.add_tlc(common.tlc('MCSchedule', cfg='MCSchedule' + big,
                               workers=8, timeout=3000))
    if prop in ('C22', 'C30'):
        res.add_tlc(common.tlc('MCBlocks'))
    if prop == 'C29':
        res.add_tlc(common.tlc('MCLunar', workers=8))
    if prop in ('C01', 'C15', 'C29'):
        res.add_tlc(common.tlc('MCDates', cfg='MCDates' + big, workers=8,
                               timeout=3000))


def check(prop, tier, seed):
    res = common.Result(prop, tier, seed)
    theorems(res, prop, tier)
    if prop == 'C29':
        import festivals
        festivals.check(res)
    if prop in ('C22', 'C30'):
        import listings
        listings.check(res, prop, tier, seed)
    if prop in GENS:
        n = NCASES[tier][prop]
        jobs = [(prop, '%d-%d' % (seed, i), n // 32 + 1) for i in range(32)]
        batches = common.parallel(run_batch, jobs)
        shards = [[] for _ in range(8)]
        for i, b in enumerate(batches):
            shards[i % 8] += b
        evs = [e for s in shards for e in s]
        res.traces += len(evs)
        res.extra['calendars_built'] = len(evs)
        res.extra['refused'] = sum(e['k'] == 'err' for e in evs)
        res.extra['sessions_checked'] = sum(
            e['hi'] - e['lo'] + 1 - len(e['irr']) for e in evs)
        res.extra['special_sessions'] = sum(
            len(e['late']) + len(e['early']) for e in evs)
        res.assumptions = [
            'definitions sampled by seed; every wall-clock time used exists '
            'exactly once on its day']
    else:
        shards = shipped(res, prop, tier, seed)
    for e in (shards[0][:3]):
        res.sample({k: e[k] for k in ('x', 'start', 'end', 'k', 'late',
                                      'early')})
    example = None
    for ev, days in judge(res, prop, shards):
        if example is None:
            example = '%s built over %s..%s, %s' % (
                ev['x'] or 'a generated calendar', cals.date_of(ev['start']),
                cals.date_of(ev['end']), cals.date_of(min(days)))
    if example:
        res.known_finding(F2 % 'e.g. XNYS over 2019-11-20..2019-11-29 closes '
                          '21:00 instead of 18:00 UTC on 2019-11-29')
    return res


# ------------------------------------------------------------ shipped

LIMITS = {   # years for which an exchange's tables are computed
    'XKRX': (1986, 2021), 'XBOM': (1997, 2020), 'XSES': (1986, 2020),
    'XSHG': (1999, 2025), 'XHKG': (1970, 2049),
}


HEAVY = ('24/7', 'CMES', 'us_futures', 'IEPA')     # many minutes


class Factories(object):
    """Class of each shipped calendar, by registered name."""

    def __init__(self):
        try:
            from trading_calendars import calendar_utils
            self.known = {
                k: v for k, v in
                dict(calendar_utils._default_calendar_factories).items()
                if isinstance(v, type)}
        except Exception:
            self.known = {}

    def get(self, name):
        if name not in self.known:
            import trading_calendars
            try:
                self.known[name] = type(trading_calendars.get_calendar(name))
            except Exception:
                return None
        return self.known[name]


_factories = []


def factories():
    if not _factories:
        _factories.append(Factories())
    return _factories[0]


def shipped_names():
    import re
    with open(os.path.join(common.SPEC, 'Exchanges.tla')) as f:
        m = re.search(r'ExchangeNames == \{(.*)\}', f.read())
    return [x.strip().strip('"') for x in m.group(1).split(',')]


def one_shipped(job):
    name, lo, hi, limit, seed, nranges = job
    cls = factories().get(name)
    start = daynum(lo, 1, 1)
    end = min(daynum(hi + 1, 3, 31), daynum(limit, 12, 31))
    if cls is None:
        ev = cals.event(None, None, start, end, x=name)
        ev['err'] = 'no such calendar'
        return [ev]
    cal, err = cals.build(cls, start, end)
    if cal is None:
        ev = cals.event(None, err, start, end, x=name)
        ev['err'] = repr(err)[:300]
        return [ev]
    rec = cals.Recorded(cal)
    out = []
    for y in range(lo, hi + 1):
        out.append(cals.event(cal, None, start, end, x=name, rec=rec,
                              lo=daynum(y, 1, 1), hi=daynum(y, 12, 31)))
    # the same exchange over other ranges, most of them beginning or ending
    # on a special session or a holiday
    rng = random.Random('%s-%s-%s' % (name, lo, seed))
    if lo > 2100:
        nranges = 0
    days = [d for e in out for d in e['late'] + e['early']] or \
        [d for e in out for d in e['irr'] if cals.weekday(d) < 5]
    closed = [d for e in out for d in e['irr'] if cals.weekday(d) < 5]
    for n in range(nranges):
        length = rng.choice([rng.randint(20, 60), rng.randint(60, 400),
                             rng.randint(400, 1200)])
        pool = rng.choice([days, days, closed, [rng.randint(start, end)]])
        d = rng.choice(pool or [rng.randint(start, end)])
        s, e = rng.choice([(d, d + length), (d - length, d),
                           (d - length, d + 1)])
        s, e = max(s, start), min(e, end)
        if e - s < 20:
            continue
        cal, err = cals.build(cls, s, e)
        ya, yb = cals.date_of(s).year, cals.date_of(e).year
        if cal is None:
            ev = cals.event(None, err, s, e, x=name)
            ev['err'] = repr(err)[:300]
            out.append(ev)
            continue
        rec = cals.Recorded(cal)
        for y in range(ya, yb + 1):
            out.append(cals.event(cal, None, s, e, x=name, rec=rec,
                                  lo=max(s, daynum(y, 1, 1)),
                                  hi=min(e, daynum(y, 12, 31))))
    return out


def shipped(res, prop, tier, seed):
    jobs = []
    for n in shipped_names():
        first, last = LIMITS.get(n, (1970, 2100))
        whole = last == 2100
        if prop == 'C18' and tier == 'quick' and whole:
            last = 2053
        # some decades at a time, each reaching into the next piece
        long = 33 if n in HEAVY else 66
        for lo in range(first, last + 1, long):
            jobs.append((n, lo, min(lo + long - 1, last), last, seed,
                         20 if tier != 'quick' else 1 if prop == 'C18' else 2))
        if whole:              # and some years after these
            rng = random.Random('later-%s-%s' % (n, seed))
            for _ in range(1 if tier == 'quick' else 8):
                y = rng.randint(last + 1, 2194)
                jobs.append((n, y, y + 2, y + 3, seed, 0))
    jobs.sort(key=lambda j: (j[0] not in HEAVY, -(j[2] - j[1])))
    outs = common.parallel(one_shipped, jobs)
    shards = [[] for _ in range(8)]
    i = 0
    for evs in outs:
        for ev in evs:
            shards[i % 8].append(ev)
            i += 1
    res.traces = len(jobs)
    res.extra['other_ranges'] = len(set(
        (e['x'], e['start'], e['end']) for s in shards for e in s)) - len(jobs)
    res.extra['exchange_years'] = i
    res.extra['sessions_checked'] = sum(
        (e['hi'] - e['lo'] + 1) * 5 // 7 - len(e['irr'])
        for s in shards for e in s)
    res.extra['half_days'] = sum(len(e['early']) for s in shards for e in s)
    return shards
