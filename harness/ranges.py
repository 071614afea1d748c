"""C04: histories of constructions over overlapping ranges."""
import random

import cals
import common
import schedule
from cals import daynum


def pick_anchor(rng, special):
    if special and rng.random() < .6:
        return rng.choice(special)
    return None


def ranges_for(rng, lo, hi, special, n):
    """n overlapping ranges inside lo..hi around common anchors; ends drawn
    to special sessions, year ends and weekends."""
    out = []
    a = rng.choice(special) if special else rng.randint(lo, hi)
    for _ in range(n):
        k = rng.random()
        c = a + rng.randint(-40, 40) if k < .7 else rng.randint(lo, hi)
        if rng.random() < .2 and special:
            c = rng.choice(special)
        k = rng.random()
        w = (rng.randint(0, 8) if k < .3 else rng.randint(8, 90) if k < .7
             else rng.randint(90, 700))
        k = rng.random()
        if k < .35 and special:       # end exactly on a special day
            e = c
            s = e - w
        elif k < .6:
            s = c
            e = s + w
        elif k < .75:                 # ends at a year end
            y = cals.date_of(max(c, 0)).year
            e = daynum(y, 12, 31)
            s = e - w
        else:
            s = c - rng.randint(0, w)
            e = s + w
        s, e = max(lo, s), min(hi, e)
        if s <= e:
            out.append((s, e))
    return out


def ev_of(kind, cal, err, s, e):
    try:
        ev = cals.event(cal, err, s, e)
    except Exception as ex:
        ev = cals.event(None, err, s, e)
        ev['k'] = 'ok'
        ev['odd'] = 'schedule cannot be read: %r' % ex
    ev['kind'] = kind
    if err is not None:
        ev['err'] = repr(err)[:300]
    for k in ('def', 'base', 'probes', 'x'):
        ev.pop(k)
    return ev


def sibling(rng, d, lo, hi):
    """A definition that differs from d in one respect."""
    e = dict(d)
    k = rng.choice(['specials', 'specials', 'adhoc', 'close', 'break', 'tz',
                    'mask', 'rules'])
    if k == 'specials':
        for x in ('sopens', 'scloses', 'sopensA', 'sclosesA'):
            if rng.random() < .7:
                e[x] = []
    elif k == 'adhoc':
        e['adhoc'] = [] if d['adhoc'] else [rng.randint(lo, hi)]
        e.update(sopens=[], scloses=[], sopensA=[], sclosesA=[])
    elif k == 'rules':
        e['rules'] = []
        e.update(sopens=[], scloses=[], sopensA=[], sclosesA=[])
    elif k == 'close':
        e['closes'] = [[x, t - 60] for x, t in d['closes'] if t >= 60]
    elif k == 'break':
        e.update(bstarts=[], bends=[])
    elif k == 'tz':
        e['tz'] = 'UTC' if d['tz'] != 'UTC' else 'Asia/Tokyo'
    else:
        e['mask'] = list(range(7))
    return e


def without_specials(cls):
    return type('Plain' + cls.__name__, (cls,), dict(
        special_opens=[], special_closes=[], special_opens_adhoc=[],
        special_closes_adhoc=[]))


def history(job):
    seed, names, nsyn, nr = job
    rng = random.Random(seed)
    kinds = []
    for n in names:
        cls = schedule.factories().get(n)
        if cls is None:
            continue
        y0, y1 = schedule.LIMITS.get(n, (1970, 2060))
        kinds.append((n, cls, daynum(y0, 1, 1), daynum(y1, 12, 31)))
        if rng.random() < .3:
            kinds.append(('~' + n, without_specials(cls), daynum(y0, 1, 1),
                          daynum(y1, 12, 31)))
    for i in range(nsyn):
        d, lo, hi = schedule.gen_c03(rng)
        if hi - lo < 30:
            hi = lo + 400
        kinds.append(('syn%d' % i, cals.build_class(
            d, form=rng.choice(['utc', 'naive']),
            sform=rng.choice(['str', 'naive'])), lo, hi))
        if rng.random() < .75:
            kinds.append(('~syn%d' % i, cals.build_class(
                sibling(rng, d, lo, hi)), lo, hi))
    plan = []
    evs = []
    keep = {}
    wide = {}
    for kind, cls, lo, hi in kinds:
        # a wide build finds the special days worth aiming at
        if kind[1:] in wide:
            s, e = wide[kind[1:]][:2]
        elif 'syn' in kind:
            s, e = lo, hi
        else:
            y = rng.randint(cals.date_of(lo).year, cals.date_of(hi).year - 6)
            s, e = daynum(y, 1, 1), daynum(y + 6, 12, 31)
        cal, err = cals.build(cls, s, e)
        evs.append(ev_of(kind, cal, err, s, e))
        if cal is None:
            continue
        keep[kind] = (cal, s, e)
        ev = evs[-1]
        special = ev['late'] + ev['early'] + \
            [x for x in ev['irr'] if cals.weekday(x) < 5]
        rs = ranges_for(rng, s, e, sorted(set(special)), nr)
        if kind[1:] in wide:          # much the same ranges as its sibling
            rs = wide[kind[1:]][2][1:] + rs[:2]
        wide[kind] = (s, e, rs)
        for r in rs:
            plan.append((kind, cls) + r)
        if rng.random() < .5:
            for r in ranges_for(rng, max(lo, e - 20), min(hi, e + 500), [e], 1):
                plan.append((kind, cls) + r)
    rng.shuffle(plan)
    for kind, cls, s, e in plan:
        cal, err = cals.build(cls, s, e)
        evs.append(ev_of(kind, cal, err, s, e))
        if rng.random() < .15 and kind in keep:
            # an instance built earlier still says the same
            c0, s0, e0 = keep[kind]
            evs.append(ev_of(kind, c0, None, s0, e0))
        if cal is not None and rng.random() < .2:
            keep[kind] = (cal, s, e)
    for kind, (c0, s0, e0) in keep.items():
        evs.append(ev_of(kind, c0, None, s0, e0))
    # re-reading a synthetic refusal: drop kinds never built
    built = set(ev['kind'] for ev in evs if ev['k'] == 'ok')
    return [ev for ev in evs if ev['kind'] in built]


def check(prop, tier, seed):
    res = common.Result(prop, tier, seed)
    schedule.theorems(res, prop, tier)
    names = schedule.shipped_names()
    rng = random.Random('C04-%d' % seed)
    jobs = []
    rounds = 1 if tier == 'quick' else 8
    for r in range(rounds):
        rng.shuffle(names)
        for i in range(16):
            jobs.append(('C04-%d-%d-%d' % (seed, r, i), names[i::16], 3,
                         5 if tier == 'quick' else 12))
    traces = common.parallel(history, jobs)
    outs = common.tlc_env_traces('RangeTrace', traces, par=8, heap='2g')
    res.traces = len(traces)
    known = 0
    for evs, (v, r) in zip(traces, outs):
        res.add_tlc(r)
        if v['n'] != len(evs):
            raise common.MachineryError('trace not read to the end')
        known += v['known']
        for b in v['bad']:
            ev = evs[b['i'] - 1]
            res.violation('%s over %s..%s %s on %s (%d days): other ranges or '
                          'instances of the same calendar say otherwise' % (
                              ev['kind'], cals.date_of(ev['lo']),
                              cals.date_of(ev['hi']), b['why'],
                              cals.date_of(b['day']), b['n']),
                          dict(event=ev, verdict=b,
                               earlier=[e for e in evs[:b['i']]
                                        if e['kind'] == ev['kind']]))
    res.extra['calendars_built_or_reread'] = sum(len(t) for t in traces)
    res.extra['kinds'] = sum(len(set(e['kind'] for e in t)) for t in traces)
    res.extra['known_F2_instances'] = known
    for e in traces[0][:3]:
        res.sample(dict(kind=e['kind'], lo=str(cals.date_of(e['lo'])),
                        hi=str(cals.date_of(e['hi'])), k=e['k']))
    res.assumptions = ['ranges and definitions sampled by seed; each history '
                       'runs in one process']
    if known:
        res.known_finding(schedule.F2 % 'so XNYS 2019-11-29 closes at 18:00 '
                          'UTC in a range ending later but at 21:00 UTC in '
                          '2019-11-20..2019-11-29')
    return res
