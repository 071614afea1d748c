"""Conformance of the calendar registry with spec/Registry.tla.

C11 resolution, C12 failed operations, C13 lazy single construction.

1. TLC checks the guarantees on the whole (bounded) state space of the model
   and prints every transition; each one is replayed into the real registry,
   followed by observations of the state it leads to.
2. Long random histories are recorded from the real registry and checked by
   TLC against the same model (RegistryTrace).
"""
import json
import random

from common import (Result, tlc, tlc_env_traces, parallel, scratch,
                    limit, Hung, MachineryError)

NONE = '-'


class BuildFailed(Exception):
    pass


class BuildFailedK(BuildFailed, KeyError):
    pass


class BuildFailedA(BuildFailed, AttributeError):
    pass


class BuildFailedV(BuildFailed, ValueError):
    pass


def _mods():
    from trading_calendars import calendar_utils as cu
    from trading_calendars import errors
    return cu, errors


_fake = []


def fake_class():
    """A calendar class that is cheap to build."""
    if not _fake:
        from trading_calendars import TradingCalendar
        import pytz

        class FakeCalendar(TradingCalendar):
            name = 'FAKE'
            tz = pytz.UTC
            open_times = ()
            close_times = ()

            def __init__(self):
                pass

            def __repr__(self):
                return '<fake>'
        _fake.append(FakeCalendar)
    return _fake[0]


class Real(object):
    """The real registry, driven by model operations."""

    def __init__(self, cal, typ, ali, names, module_level=False, errs=0):
        cu, errors = _mods()
        self.errors = errors
        self.names = names                      # model name -> real name
        self.back = {v: k for k, v in names.items()}
        self.objs = {}
        self.built = []
        self.fails = False
        self.types = {}
        self.exc = (BuildFailed, BuildFailedK, BuildFailedV,
                    BuildFailedA)[errs % 4]
        c = {names[k]: self.obj(v) for k, v in cal.items()}
        t = {names[k]: self.type(v) for k, v in typ.items()}
        a = {names[k]: names[v] for k, v in ali.items()}
        if module_level:
            cu.clear_calendars()
            for k, v in c.items():
                cu.register_calendar(k, v)
            for k, v in t.items():
                cu.register_calendar_type(k, v)
            for k, v in a.items():
                cu.register_calendar_alias(k, v)
            self.d = cu
        else:
            self.d = cu.TradingCalendarDispatcher(c, t, a)

    def obj(self, x):
        if x not in self.objs:
            self.objs[x] = fake_class()()
        return self.objs[x]

    def type(self, x):
        if x not in self.types:
            outer = self

            if x == 't2':
                class made(fake_class()):
                    def __init__(self):
                        if outer.fails:
                            raise outer.exc('no calendar today')
                        outer.built.append((x, self))
            else:
                def made():
                    if outer.fails:
                        raise outer.exc('no calendar today')
                    c = fake_class()()
                    outer.built.append((x, c))
                    return c
            self.types[x] = made
        return self.types[x]

    def ident(self, c):
        for k, v in self.objs.items():
            if v is c:
                return k
        for i, (t, v) in enumerate(self.built):
            if v is c:
                return '%s#%d' % (t, i + 1)
        return 'unknown:%r' % (c,)

    def do(self, o):
        try:
            with limit(10):
                return self.attempt(o)
        except Hung:
            return dict(k='err', v='other:hung')

    def attempt(self, o):
        n = self.names.get(o['n'])
        op = o['op']
        d = self.d
        self.fails = bool(o.get('fails'))
        try:
            if op == 'get':
                return dict(k='cal', v=self.ident(d.get_calendar(n)))
            if op == 'resolve':
                f = getattr(d, 'resolve_alias')
                r = f(n)
                return dict(k='name', v=self.back.get(r, '?%r' % (r,)))
            if op == 'names':
                return dict(k='names', v=sorted(
                    self.back.get(x, '?%r' % (x,))
                    for x in d.get_calendar_names()))
            if op == 'has':
                f = getattr(d, 'has_calendar', None)
                if f is None:       # not offered at module level
                    return dict(k='bool', v=n in d.get_calendar_names())
                return dict(k='bool', v=bool(f(n)))
            if op == 'reg':
                d.register_calendar(n, self.obj(o['x']), force=o['force'])
            elif op == 'regType':
                d.register_calendar_type(n, self.type(o['x']),
                                         force=o['force'])
            elif op == 'regAlias':
                d.register_calendar_alias(n, self.names[o['x']],
                                          force=o['force'])
            elif op == 'dereg':
                d.deregister_calendar(n)
            elif op == 'clear':
                d.clear_calendars()
            else:
                raise MachineryError(op)
            return dict(k='ok', v='')
        except self.errors.CyclicCalendarAlias:
            return dict(k='err', v='cycle')
        except self.errors.CalendarNameCollision:
            return dict(k='err', v='collision')
        except self.errors.InvalidCalendarName:
            return dict(k='err', v='invalid')
        except BuildFailed:
            return dict(k='err', v='build')
        except (MachineryError, Hung):
            raise
        except Exception as e:
            return dict(k='err', v='other:%s' % type(e).__name__)


NAMESETS = [
    ['a', 'b', 'c', 'd', 'e', 'f', 'g'],
    ['XNYS', 'xnys', 'NYSE', 'XNYS ', 'X', 'Xnys', 'NYS'],
    ['', ' ', '24/7', '24/5', '0', 'None', '-'],
    ['us_futures', 'US_FUTURES', 'us futures', 'us', 'futures', '_', 'u'],
]


def norm(r):
    return (r['k'], tuple(sorted(r['v'])) if r['k'] == 'names' else r['v'])


def opstr(o):
    a = [repr(o['n'])] if o['n'] else []
    if o['x']:
        a.append(repr(o['x']))
    if o.get('force'):
        a.append('force')
    if o.get('fails'):
        a.append('constructor fails')
    return '%s(%s)' % (o['op'], ', '.join(a))


class Graph(object):
    def __init__(self, lines):
        self.succ = {}
        self.init = []
        self.ntrans = 0
        for ln in lines:
            t = json.loads(ln)
            f = json.dumps(t['f'], sort_keys=True)
            to = json.dumps(t['t'], sort_keys=True)
            ok = json.dumps(t['o'], sort_keys=True)
            self.succ.setdefault(f, {})[ok] = (t['o'], t['r'], to, t['t']['nb'])
            self.ntrans += 1
        self.parent = {}

    def bfs(self, roots):
        self.parent = {r: None for r in roots}
        q = list(roots)
        while q:
            nq = []
            for s in q:
                for (o, r, to, _) in self.succ.get(s, {}).values():
                    if to not in self.parent:
                        self.parent[to] = (s, o, r)
                        nq.append(to)
            q = nq

    def path(self, s):
        p = []
        while self.parent[s] is not None:
            s, o, r = self.parent[s]
            p.append((o, r))
        return s, p[::-1]


def relevant(prop, o, exp, got, hist, nbdiff):
    """Does this disagreement concern the property?"""
    if prop == 'C11':
        return True
    if prop == 'C12':
        if exp['k'] == 'err' or got['k'] == 'err':
            return True
        # state observed after a refused operation
        for (ho, hr) in reversed(hist):
            if hr['k'] == 'err':
                return True
            if ho['op'] in ('reg', 'regType', 'regAlias', 'dereg', 'clear'):
                return False
        return False
    if prop == 'C13':
        return nbdiff or exp['k'] == 'cal' or got['k'] == 'cal'
    raise KeyError(prop)


def observe_ops(names):
    out = [dict(op='names', n='', x='', force=False, fails=False)]
    for op in ('has', 'resolve'):
        out += [dict(op=op, n=n, x='', force=False, fails=False)
                for n in names]
    return out


def loose(st, o):
    """Loose of Registry.tla: an alias into a cycle it is not part of."""
    if o['op'] != 'regAlias':
        return False
    ali = dict(st['ali'])
    ali[o['n']] = o['x']
    seen, n = [], o['x']
    while n != NONE and n not in seen:
        seen.append(n)
        n = ali[n]
    return n != NONE and o['n'] not in seen


def replay_graph(args):
    """Replay a slice of the model's transitions; returns disagreements."""
    prop, g, states, nameset, module_level = args
    bad = []
    n = 0
    checks = 0
    mnames = None
    for s in states:
        st = json.loads(s)
        if mnames is None:
            mnames = sorted(st['cal'])
        names = dict(zip(mnames, NAMESETS[nameset]))
        names[''] = None
        root, path = g.path(s)
        rt = json.loads(root)
        init = [{k: v for k, v in rt[m].items() if v != NONE}
                for m in ('cal', 'typ', 'ali')]
        for (o, r, to, tnb) in g.succ[s].values():
            if loose(st, o):
                continue
            n += 1
            real = Real(*init, names=names, module_level=module_level, errs=n)
            hist = []
            cur = root
            fine = True

            def step(o, exp, nb):
                got = real.do(o)
                nbd = len(real.built) != nb
                if norm(got) != norm(exp) or nbd:
                    if relevant(prop, o, exp, got, hist, nbd):
                        bad.append(dict(
                            history=[opstr(h) for h, _ in hist] + [opstr(o)],
                            initial=init, expected=exp, observed=got,
                            built_expected=nb, built_observed=len(real.built),
                            names=names, module_level=module_level))
                    return False
                hist.append((o, exp))
                return True
            for (po, pr) in path:
                ok = json.dumps(po, sort_keys=True)
                _, _, nxt, nnb = g.succ[cur][ok]
                if not step(po, pr, nnb):
                    fine = False
                    break
                cur = nxt
            if not fine:
                continue
            if not step(o, r, tnb):
                continue
            cur = to
            # observe the state reached: listing, membership, resolution, and
            # finally every lookup (which may build)
            probes = observe_ops(mnames)
            probes += [dict(op='get', n=x, x='', force=False, fails=False)
                       for x in mnames]
            for po in probes:
                ok = json.dumps(po, sort_keys=True)
                e = g.succ.get(cur, {}).get(ok)
                if e is None:       # beyond the explored bound
                    break
                checks += 1
                if not step(po, e[1], e[3]):
                    break
                cur = e[2]
            if len(bad) > 20:
                return bad, n, checks
    return bad, n, checks


def random_history(rng, nops, names, with_init):
    """A plan of operations over model names."""
    names = list(names)
    objs = ['o%d' % i for i in range(4)]
    types = ['t%d' % i for i in range(3)]
    cal, typ, ali = {}, {}, {}
    if with_init:
        for n in names:
            k = rng.random()
            if k < .3:
                cal[n] = rng.choice(objs)
            if .2 < k < .5:
                typ[n] = rng.choice(types)
            if .4 < k < .8:
                ali[n] = rng.choice(names)
    plan = []
    hot = rng.sample(names, min(len(names), rng.choice([2, 3, 5, 7])))
    pf = rng.choice([.1, .4, .8])
    for _ in range(nops):
        n = rng.choice(hot)
        k = rng.random()
        force = rng.random() < pf
        if k < .25:
            plan.append(dict(op='get', n=n, x='', force=False,
                             fails=rng.random() < .25))
        elif k < .35:
            plan.append(dict(op='resolve', n=n, x='', force=False))
        elif k < .42:
            plan.append(dict(op='names', n='', x='', force=False))
        elif k < .47:
            plan.append(dict(op='has', n=n, x='', force=False))
        elif k < .56:
            plan.append(dict(op='reg', n=n, x=rng.choice(objs), force=force))
        elif k < .67:
            plan.append(dict(op='regType', n=n, x=rng.choice(types),
                             force=force))
        elif k < .90:
            plan.append(dict(op='regAlias', n=n, x=rng.choice(hot),
                             force=force))
        elif k < .985:
            plan.append(dict(op='dereg', n=n, x='', force=False))
        else:
            plan.append(dict(op='clear', n='', x='', force=False))
    for p in plan:
        p.setdefault('fails', False)
    return cal, typ, ali, plan


LONG = ['n%02d' % i for i in range(26)]


def chain_history(rng):
    """Long chains of aliases, made in any order, then closed, cut, moved."""
    k = rng.randint(4, len(LONG))
    chain = rng.sample(LONG, k)
    op = lambda o, n, x='', force=False, fails=False: dict(  # noqa: E731
        op=o, n=n, x=x, force=force, fails=fails)
    links = list(zip(chain, chain[1:]))
    rng.shuffle(links)
    plan = [op('regAlias', a, b, rng.random() < .3) for a, b in links]
    plan.insert(rng.randint(0, len(plan)),
                op(rng.choice(['reg', 'regType']), chain[-1],
                   'o0', False))
    if plan[-1]['op'] != 'regAlias' or rng.random() < .5:
        plan.append(op('get', chain[0], fails=rng.random() < .3))
    for p in plan:
        if p['op'] == 'regType':
            p['x'] = 't0'
    for _ in range(10):
        i = rng.randrange(k)
        z = rng.random()
        if z < .4:         # point some name back at one above it
            j = rng.randint(0, i)
            plan.append(op('regAlias', chain[i], chain[j],
                           rng.random() < .8))
        elif z < .6:
            plan.append(op('get', chain[rng.choice([0, i])],
                           fails=rng.random() < .2))
        elif z < .7:
            plan.append(op('dereg', chain[i]))
        elif z < .8:
            plan.append(op('regAlias', chain[i], rng.choice(LONG),
                           rng.random() < .6))
        elif z < .9:
            plan.append(op('reg', chain[i], 'o1', rng.random() < .6))
        else:
            plan.append(op('resolve', chain[rng.choice([0, i])]))
    return {}, {}, {}, plan


def record_chains(args):
    seed, count = args
    rng = random.Random('chains-%s' % seed)
    out = []
    for h in range(count):
        names = dict(zip(LONG, LONG))
        names[''] = None
        cal, typ, ali, plan = chain_history(rng)
        if rng.random() < .4:      # supplied at construction instead
            k = rng.randint(3, len(LONG))
            ch = rng.sample(LONG, k)
            ali = dict(zip(ch, ch[1:]))
            if rng.random() < .3:
                ali[ch[-1]] = rng.choice(ch)
        module_level = not ali and rng.random() < .3
        real = Real(cal, typ, ali, names, module_level, errs=h)
        out.append(dict(e='new', cal=cal, typ=typ, ali=ali))
        for o in plan + observe_ops(LONG) + [
                dict(op='get', n=x, x='', force=False, fails=False)
                for x in LONG]:
            r = real.do(o)
            out.append(dict(e='op', res=r, nb=len(real.built), **o))
            if limit.hung > 5:
                return out
    return out


def record(args):
    seed, count, nops = args
    rng = random.Random(seed)
    out = []
    for h in range(count):
        ns = NAMESETS[rng.randrange(len(NAMESETS))]
        mnames = list('abcdefg')
        names = dict(zip(mnames, ns))
        names[''] = None
        module_level = rng.random() < .3
        cal, typ, ali, plan = random_history(
            rng, nops, mnames, with_init=not module_level)
        real = Real(cal, typ, ali, names, module_level, errs=h)
        out.append(dict(e='new', cal=cal, typ=typ, ali=ali))
        for o in plan + observe_ops(mnames) + [
                dict(op='get', n=x, x='', force=False, fails=False)
                for x in mnames]:
            r = real.do(o)
            out.append(dict(e='op', res=r, nb=len(real.built), **o))
            if limit.hung > 5:
                return out
    return out


def check(prop, tier, seed):
    res = Result(prop, tier, seed)
    # 1. exhaustive model + replay of every transition
    for cfg, nameset in ((('MCRegistry', 0), ('MCRegistryAny', 2))
                         if tier == 'quick' else
                         (('MCRegistryBig', 1), ('MCRegistryAny', 2))):
        r = tlc('MCRegistry', cfg=cfg, env=dict(LOG='1'), heap='4g')
        res.add_tlc(r)
        lines = [json.loads(ln)[2:] for ln in r.out.splitlines()
                 if ln.startswith('"T ')]
        g = Graph(lines)
        states = list(g.succ)
        if cfg == 'MCRegistryAny':
            roots = [s for s in states if json.loads(s)['nb'] == 0]
        else:
            roots = [s for s in states
                     if all(v == NONE for m in ('cal', 'typ', 'ali')
                            for v in json.loads(s)[m].values())
                     and json.loads(s)['nb'] == 0]
        if not roots or g.ntrans < 1000:
            raise MachineryError('model produced no transitions')
        g.bfs(roots)
        jobs = []
        for i in range(8):
            jobs.append((prop, g, states[i::8], nameset, False))
            if cfg != 'MCRegistryAny':
                jobs.append((prop, g, states[i::8][::3], (nameset + 1) % 4,
                             True))
        for bad, n, checks in parallel(replay_graph, jobs):
            res.count('transitions_replayed', n)
            res.count('state_observations', checks)
            res.traces += n
            for b in bad:
                res.violation(
                    'registry history %s: specification gives %s, code %s'
                    % (' ; '.join(b['history']), b['expected'],
                       b['observed']), b)
    # 2. recorded histories
    nchunks, count, nops = (8, 60, 50) if tier == 'quick' else (16, 400, 120)
    recs = parallel(record, [(seed * 1000 + i, count, nops)
                             for i in range(nchunks)])
    head = dict(names=list('abcdefg'))
    traces = [[head] + x for x in recs]
    recs = parallel(record_chains, [
        ('%s-%d' % (seed, i), 12 if tier == 'quick' else 150)
        for i in range(nchunks)])
    traces += [[dict(names=LONG)] + x for x in recs]
    for (v, r), tr in zip(tlc_env_traces('RegistryTrace', traces), traces):
        res.add_tlc(r)
        res.traces += sum(1 for e in tr if e.get('e') == 'new')
        res.count('events_validated', v['nok'])
        for b in v['bad']:
            i = b['i'] - 1
            j = i
            while tr[j]['e'] != 'new':
                j -= 1
            hist = [(e, e['res']) for e in tr[j + 1:i]]
            o = tr[i]
            if relevant(prop, o, b['exp'], o['res'], hist,
                        b['nb'] != o['nb']):
                res.violation(
                    'recorded history: %s after %s: specification gives %s '
                    '(%d built), code %s (%d built)'
                    % (opstr(o), [opstr(h) for h, _ in hist][-6:], b['exp'],
                       b['nb'], o['res'], o['nb']),
                    dict(initial=tr[j], history=tr[j + 1:i + 1],
                         expected=b['exp']))
    res.sample([opstr(e) + ' -> ' + str(e['res']['v'])
                for e in traces[0][2:14]])
    res.extra['exhaustive'] = True
    res.assumptions = [
        'names, calendars and types are opaque to the registry; three names '
        'exhaustively, seven in random histories',
        'single-threaded use of the registry']
    return res
