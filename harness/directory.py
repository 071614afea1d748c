"""Conformance of the default registry with spec/Directory.tla (C14)."""
import random

import common
import registry
import schedule

ALIASES = {
    'NYSE': 'XNYS', 'NASDAQ': 'XNYS', 'BATS': 'XNYS', 'FWB': 'XFRA',
    'LSE': 'XLON', 'TSX': 'XTSE', 'BMF': 'BVMF', 'CME': 'CMES',
    'CBOT': 'CMES', 'COMEX': 'CMES', 'NYMEX': 'CMES', 'ICE': 'IEPA',
    'ICEUS': 'IEPA', 'NYFE': 'IEPA', 'CFE': 'XCBF', 'JKT': 'XIDX',
    'SIX': 'XSWX', 'JPX': 'XTKS', 'ASX': 'XASX', 'HKEX': 'XHKG',
    'OSE': 'XOSL', 'BSE': 'XBOM', 'SSE': 'XSHG', 'TASE': 'XTAE'}
USER = ['mine', 'yours', 'XXXX', 'nyse']
SLOW = ('24/7', 'CMES', 'us_futures', 'XHKG', 'IEPA', 'XTAE')


class World(object):
    def __init__(self, rng):
        import trading_calendars as tc
        from trading_calendars import calendar_utils as cu, errors
        self.errors = errors
        self.rng = rng
        self.faces = [tc, tc, cu]
        d = getattr(cu, 'global_calendar_dispatcher', None)
        if d is not None:
            self.faces.append(d)
        self.objs = {}
        self.seen = []
        self.types = {}
        self.limit = common.limit(200)

    def obj(self, x):
        if x not in self.objs:
            self.objs[x] = registry.fake_class()()
        return self.objs[x]

    def ident(self, c):
        for k, v in self.objs.items():
            if v is c:
                return k, '', ''
        for i, v in enumerate(self.seen):
            if v is c:
                break
        else:
            i = len(self.seen)
            self.seen.append(c)
        own = c.name
        return '%s#%d' % (own, i + 1), own, \
            getattr(c.tz, 'zone', None) or str(c.tz)

    def everywhere(self, op, *args):
        """The same reading through every way to the registry."""
        return [self.do(op, *args, face=f) for f in self.faces[1:]]

    def type(self, x):
        if x not in self.types:
            self.types[x] = type(x, (registry.fake_class(),), dict(name=x))
        return self.types[x]

    def do(self, op, n='', x='', force=False, face=None):
        d = self.rng.choice(self.faces) if face is None else face
        ev = dict(e='op', op=op, n=n, x=x, force=force, fails=False, own='',
                  zone='')
        try:
            self.limit.__enter__()
            if op == 'get':
                v, ev['own'], ev['zone'] = self.ident(d.get_calendar(n))
                res = dict(k='cal', v=v)
            elif op == 'resolve':
                res = dict(k='name', v=d.resolve_alias(n))
            elif op == 'names':
                res = dict(k='names', v=sorted(d.get_calendar_names()))
            else:
                if op == 'reg':
                    d.register_calendar(n, self.obj(x), force=force)
                elif op == 'regType':
                    d.register_calendar_type(n, self.type(x), force=force)
                elif op == 'regAlias':
                    d.register_calendar_alias(n, x, force=force)
                elif op == 'dereg':
                    d.deregister_calendar(n)
                elif op == 'clear':
                    d.clear_calendars()
                res = dict(k='ok', v='')
        except self.errors.CyclicCalendarAlias:
            res = dict(k='err', v='cycle')
        except self.errors.CalendarNameCollision:
            res = dict(k='err', v='collision')
        except self.errors.InvalidCalendarName:
            res = dict(k='err', v='invalid')
        except Exception as e:
            res = dict(k='err', v='other:%s: %s' % (type(e).__name__, e))
        finally:
            self.limit.__exit__()
        ev.update(res=res, nb=len(self.seen))
        return ev


def history(args):
    """A history over some exchanges and all their names."""
    seed, part, exchanges = args
    rng = random.Random('%d/%d' % (seed, part))
    w = World(rng)
    out = [dict(e='default', op='')]
    try:
        from trading_calendars.calendar_utils import default_calendar_names
        out.append(dict(e='advertised', op='', names=list(default_calendar_names)))
    except ImportError:
        pass
    out.append(w.do('names'))
    mine = [(n, x) for x in exchanges for n in
            [x] + [a for a in ALIASES if ALIASES[a] == x]]
    rng.shuffle(mine)
    for n in sorted(set(ALIASES) | set(schedule.shipped_names()) | set(USER)):
        out.append(w.do('resolve', n))
    # each change, through each way, is seen through all of them
    for k in range(14):
        n = rng.choice(USER)
        op = ['reg', 'regType', 'regAlias', 'dereg'][k % 4]
        out.append(w.do(op, n, dict(
            reg='o4', regType=rng.choice(['T1', 'T2']), dereg='',
            regAlias=rng.choice(sorted(ALIASES) + USER))[op],
            op != 'dereg' and rng.random() < .6))
        out += w.everywhere('resolve', n)
        out += w.everywhere('names')
        target = [e for e in out if e['op'] == 'resolve'][-1]['res']['v']
        if target in USER + [x for x, _ in mine]:
            out += w.everywhere('get', n)
    for n in USER:
        out.append(w.do('dereg', n))
    for i, (n, x) in enumerate(mine):
        # other uses of the registry in between
        k = rng.random()
        if k < .2:
            out.append(w.do('reg', rng.choice(USER), 'o1', rng.random() < .5))
        elif k < .4:
            out.append(w.do('regAlias', rng.choice(USER), n,
                            rng.random() < .5))
        elif k < .5:
            out.append(w.do('dereg', rng.choice(USER)))
        elif k < .6:
            out.append(w.do('reg', n, 'o2', False))
        elif k < .7:
            out.append(w.do('regAlias', n, rng.choice(USER), False))
        out.append(w.do('get', n))
        if rng.random() < .5:
            out.append(w.do('get', rng.choice(mine[:i + 1])[0]))
    for n, x in mine:
        out.append(w.do('get', n))
    # names that stay as they were while others are replaced or removed
    gone = rng.sample(mine, max(1, len(mine) // 4))
    for n, x in gone:
        k = rng.random()
        if k < .4:
            out.append(w.do('dereg', n))
        elif k < .7:
            out.append(w.do('reg', n, 'o3', True))
        else:
            out.append(w.do('regAlias', n, rng.choice(mine)[0], True))
    for n, x in mine:
        # only lookups that need no new construction (those are C13's)
        if n not in [g for g, _ in gone] or rng.random() < .3:
            out.append(w.do('get', n))
    out.append(w.do('names'))
    if rng.random() < .7:
        out.append(w.do('clear'))
        out.append(w.do('names'))
        for n, x in mine:
            out.append(w.do('get', n))
    return out


def check(prop, tier, seed):
    res = common.Result(prop, tier, seed)
    names = schedule.shipped_names()
    rounds = 1 if tier == 'quick' else 6
    jobs = []
    for k in range(rounds):
        rng = random.Random(seed * 100 + k)
        slow = [n for n in names if n in SLOW]
        rest = [n for n in names if n not in SLOW]
        rng.shuffle(rest)
        groups = [[] for _ in range(10)]
        for i, n in enumerate(slow):
            groups[i].append(n)
        order = groups[6:] + groups[:6] + groups[6:]
        for i, n in enumerate(rest):
            order[i % len(order)].append(n)
        jobs += [(seed * 100 + k, i, g) for i, g in enumerate(groups)]
    traces = common.parallel(history, jobs, fresh=True)
    for (v, r), tr in zip(common.tlc_env_traces('DirectoryTrace', traces),
                          traces):
        res.add_tlc(r)
        if v['n'] != len(tr):
            raise common.MachineryError('trace not read to the end')
        res.traces += 1
        res.count('events_validated', len(tr))
        for b in v['bad']:
            ev = tr[b['i'] - 1]
            what = ev.get('op') and '%s(%s)' % (ev['op'], ev['n'])
            if ev.get('op') == 'names':
                have, want = set(ev['res']['v']), set(b['exp']['v'])
                ev = dict(res='missing %s, unexpected %s' % (
                    sorted(want - have), sorted(have - want)))
                b['exp'] = dict(v='the advertised names')
            res.violation(
                'default registry: %s gives %s, specification %s (%s)'
                % (what or ev['e'], ev.get('res') or ev.get('names'),
                   b['exp'].get('v'), b['why']),
                dict(history=tr[:b['i']], expected=b['exp']))
    res.extra['names'] = len(names) + len(ALIASES)
    res.sample(['%s %s -> %s' % (e['op'], e['n'], e['res']['v'])
                for e in traces[0] if e.get('op') == 'get'][:10])
    res.extra['exhaustive'] = True
    res.assumptions = [
        'default construction ranges depend on the current date; only '
        'identity, own name and zone of the calendars are judged here']
    return res
