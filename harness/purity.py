"""C10: answers do not depend on earlier, failing or concurrent queries."""
import json
import os
import random
import sys
import threading

import cals
import common
import queries
import schedule
from queries import ask

PKG = os.path.join(common.REPO, 'trading_calendars')


def snapshot(cal):
    """Schedule, session list and minute list as one string."""
    out = []
    for c in cal.schedule.columns:
        out.append(cals.ints(cal.schedule[c]))
    out.append(cals.ints(cal.schedule.index))
    out.append(cals.ints(cal.all_sessions))
    out.append(queries.runs_of(cals.ints(cal.all_minutes)))
    out.append(cals.ints(cal.opens))
    out.append(cals.ints(cal.closes))
    out.append(cals.ints(cal.late_opens))
    out.append(cals.ints(cal.early_closes))
    return json.dumps(out)


def mixed_queries(rng, S, total, n):
    out = []
    for prop in ('C05', 'C06', 'C07', 'C08', 'C09', 'C19'):
        qs = [q for q in queries.make_queries(prop, rng, S, total, 4)]
        rng.shuffle(qs)
        out += qs[:n]
    # the same few instants through the session lookup in all directions
    for t in queries.instants(rng, S, n):
        for m in ('next', 'previous', 'none'):
            out.append((['to_session', t, m], rng.choice(['utc', 'int'])))
        out.append((['is_open', t, rng.random() < .5], 'utc'))
    rng.shuffle(out)
    return out


def families(rng, S, total, n):
    """Lists of queries that differ little from one another: one method, its
    arguments drawn from a few neighbouring values."""
    marks = [queries.untrip(t) for s in S for t in s[1:] if t != queries.NONE]
    days = [s[0] for s in S]
    out = []
    kinds = [(m, k[1]) for m, k in sorted(queries.Q.items()) if k[1]]
    picked = [('to_session', 'ti')] + rng.sample(kinds, min(n, len(kinds)))
    MIN = cals.MIN_NS
    for m, ks in picked:
        a = rng.choice(marks)
        b = rng.choice(marks)
        near = [a, a + 1, a - 1, a + MIN // 2, a - MIN // 2, a + MIN, a - MIN,
                b, b + 1, b + MIN // 2, a + cals.DAY_NS,
                a // cals.DAY_NS * cals.DAY_NS]
        size = 4 if ks in ('t', 'ti', 'd') else 3
        T = [queries.trip(x) for x in [a] + rng.sample(near[1:], size - 1)]
        if m == 'is_session':
            d = rng.choice(days) * cals.DAY_NS
            T = [queries.trip(x) for x in (d, d + cals.DAY_NS, d + 1,
                                           d + cals.DAY_NS // 2)]
        d = rng.choice(days)
        D = [d] + rng.sample([d + 1, d - 1, days[0], days[-1], d + 7,
                              rng.choice(days), rng.choice(days)], size - 1)
        I = {'is_open': [False, True], 'to_session': ['next', 'previous',
                                                      'none']}.get(
            m, rng.sample([0, 1, -1, 2, -2, 5, -5, total], 3))
        L = [sorted(rng.sample(T, rng.randint(1, 3))) for _ in range(5)]
        pools = dict(t=T, d=D, i=I, T=L)
        qs = [[m]]
        for k in ks:
            qs = [q + [x] for q in qs for x in pools[k]]
        rng.shuffle(qs)
        seen = []
        for q in qs[:12]:
            if q not in seen:
                seen.append(q)
        out.append(seen)
    return out


def mixtures(rng, S, total):
    """Lists of queries of different methods with the same arguments."""
    marks = [queries.untrip(t) for s in S for t in s[1:] if t != queries.NONE]
    a = rng.choice(marks) + rng.choice([0, 1, -1, cals.MIN_NS // 2])
    t, u = queries.trip(a), queries.trip(rng.choice(marks))
    d, e = rng.choice(S)[0], rng.choice(S)[0]
    args = dict(t=[t], tt=[t, u], d=[d], dd=[min(d, e), max(d, e)],
                di=[d, rng.choice([1, 2, -1])], ti=[t, rng.choice([1, -2])],
                T=[[t]])
    by = {}
    for m, k in sorted(queries.Q.items()):
        if not k[1]:
            continue
        x = {'is_open': [[t, False], [t, True]],
             'to_session': [[t, w] for w in ('next', 'previous', 'none')]
             }.get(m, [args[k[1]]])
        by.setdefault(k[1][0].lower(), []).extend([m] + y for y in x)
    out = []
    for qs in by.values():
        rng.shuffle(qs)
        out.append(qs[:13])
    return out


def all_pairs(rng, qs):
    """A sequence in which every ordered pair of the queries is adjacent."""
    left = {i: [j for j in range(len(qs))] for i in range(len(qs))}
    for v in left.values():
        rng.shuffle(v)
    # an Eulerian circuit of the complete directed graph with loops
    stack, path = [0], []
    while stack:
        v = stack[-1]
        if left[v]:
            stack.append(left[v].pop())
        else:
            path.append(stack.pop())
    return [qs[i] for i in reversed(path)]


class Preempt(object):
    """Runs func, and at its k-th traced step in package code runs `other`
    in another thread to completion (or until it blocks)."""
    blocked = 0         # seen so far: the code may hold locks

    def __init__(self, k, other, k2=None, other2=None):
        self.n = 0
        self.todo = {k: other}
        if k2 is not None:
            self.todo[k2] = other2
        self.threads = []

    def trace(self, frame, ev, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        frame.f_trace_opcodes = True
        if ev in ('opcode', 'line', 'call', 'return'):
            self.n += 1
            f = self.todo.pop(self.n, None)
            if f is not None:
                t = threading.Thread(target=f)
                t.daemon = True
                t.start()
                t.join(1.0 if Preempt.blocked < 3 else .02)
                Preempt.blocked += t.is_alive()
                self.threads.append(t)
        return self.trace

    def run(self, func):
        sys.settrace(self.trace)
        try:
            r = func()
        finally:
            sys.settrace(None)
        for t in self.threads:
            t.join(10)
        for f in self.todo.values():
            f()
        return r


def key(q):
    return json.dumps(q)


def one_object(rng, obj, make, label, tier, slow=False):
    """Events for one calendar definition."""
    evs = []
    cal = make()
    if cal is None:
        return [dict(obj=obj, q='build', r='failed', fresh=False,
                     how='rebuilding the calendar', label=label)]
    S = queries.sessions_of(cal)
    total = len(cal.all_minutes)
    qs = mixed_queries(rng, S, total, 2 if slow else 6)
    forms = {}
    uniq = []
    for q, form in qs:
        if key(q) not in forms:
            forms[key(q)] = form
            uniq.append(q)

    def put(q, r, how, fresh=False):
        evs.append(dict(obj=obj, q=key(q), r=json.dumps(r), fresh=fresh,
                        how=how, label=label))
    snap = snapshot(cal)
    evs.append(dict(obj=obj, q='snapshot', r=snap, fresh=True,
                    how='fresh', label=label))
    # reference answers, each on a calendar of its own
    for q in uniq:
        c = make()
        if c is None:
            put(q, ['unbuildable'], 'fresh', True)
            continue
        put(q, ask(c, q, forms[key(q)]), 'fresh', True)
    # sequences on one object
    hist = []
    for _ in range(len(uniq) * 2):
        q = rng.choice(uniq) if rng.random() < .8 or not hist else hist[-1]
        hist.append(q)
        put(q, ask(cal, q, rng.choice([forms[key(q)], 'utc'])),
            'after %d other queries, last %s' % (len(hist) - 1, hist[-4:-1]))
        if rng.random() < .05:
            evs.append(dict(obj=obj, q='snapshot', r=snapshot(cal),
                            fresh=False, how='after queries', label=label))
    evs.append(dict(obj=obj, q='snapshot', r=snapshot(cal), fresh=False,
                    how='after queries', label=label))
    # every ordered pair of neighbouring queries, one right after the other
    for fam in (families(rng, S, total, 2 if slow else 12) +
                mixtures(rng, S, total)):
        if slow and tier == 'quick':
            fam = fam[:5]
        form = rng.choice(['utc', 'utc', 'America/New_York'] + (
            ['int'] if all(q[0] in ('is_open', 'to_session')
                           for q in fam) else []))
        for q in fam:
            if key(q) not in forms:
                forms[key(q)] = form
                c = make()
                put(q, ask(c, q, form) if c is not None else
                    ['unbuildable'], 'fresh', True)
        last = None
        for q in all_pairs(rng, fam):
            put(q, ask(cal, q, form), 'right after %s' % (last,))
            last = q
    evs.append(dict(obj=obj, q='snapshot', r=snapshot(cal), fresh=False,
                    how='after queries', label=label))
    # preemption
    sess = [q for q in uniq if q[0] == 'to_session']
    nexts = [q for q in sess if q[2] == 'next'] or sess
    npairs = 10 if tier == 'quick' else 40
    for p in range(npairs):
        if p < npairs // 2 and len(nexts) > 1:
            a, b = rng.sample(nexts, 2)
            pre = rng.choice([a, b, rng.choice(nexts)])
        else:
            a, b, pre = (rng.choice(uniq), rng.choice(uniq),
                         rng.choice(uniq))
        c = make() if p % 2 and not slow else cal
        if c is None:
            continue
        # number of steps
        ask(c, pre)
        pr = Preempt(-1, None)
        pr.todo = {}
        pr.run(lambda: ask(c, a))
        steps = pr.n
        ks = list(range(1, steps + 1))
        lim = 60 if tier == 'quick' else 300
        if len(ks) > lim:
            ks = sorted(rng.sample(ks, lim))
        for k in ks:
            if p % 2 and k % 7 == 0 and not slow:      # first-use paths
                c = make()
                if c is None:
                    break
            got = []
            ask(c, pre)
            b2 = rng.choice(nexts)
            how = 'preempted at step %d of %d by %s (after %s)' % (
                k, steps, b, pre)

            def other():
                got.append((b, ask(c, b)))

            def other2():
                got.append((b2, ask(c, b2)))
            if rng.random() < .3 and k < steps:
                pr = Preempt(k, other, rng.randint(k + 1, steps), other2)
            else:
                pr = Preempt(k, other)
            r = pr.run(lambda: ask(c, a))
            put(a, r, how)
            for q, rr in got:
                put(q, rr, 'run inside %s at step %d' % (a, k))
            # what they left behind
            for q in (b, a):
                put(q, ask(c, q), 'repeated after %s was %s' % (a, how))
        evs.append(dict(obj=obj, q='snapshot', r=snapshot(c), fresh=False,
                        how='after preempted queries', label=label))
    return evs


def batch(job):
    seed, n, tier = job
    rng = random.Random('C10-%s' % seed)
    evs = []
    for i in range(n):
        obj = '%s-%d' % (seed, i)
        if rng.random() < .1:
            name = rng.choice(['XHKG', 'XNYS', 'us_futures'])
            lo = rng.randint(cals.daynum(1995, 1, 1), cals.daynum(2025, 1, 1))
            hi = lo + rng.randint(8, 15)
            cls = schedule.factories().get(name)
            label = '%s over %s..%s' % (name, cals.date_of(lo),
                                        cals.date_of(hi))
        else:
            d, lo, hi = queries.gen_small(rng, long=.15)
            cls = cals.build_class(d)
            label = 'generated calendar %s over %s..%s' % (
                cals.brief(d), cals.date_of(lo), cals.date_of(hi))

        def make():
            return cals.build(cls, lo, hi)[0] if cls else None
        if make() is None:
            continue          # not this property's business
        evs += one_object(rng, obj, make, label, tier,
                          slow=not label.startswith('generated'))
    return evs


def check(prop, tier, seed):
    res = common.Result(prop, tier, seed)
    for cfg in (['CalendarObject'] if tier == 'quick'
                else ['CalendarObject', 'CalendarObjectBig']):
        r = common.tlc('CalendarObject', cfg=cfg, workers=4)
        res.add_tlc(r)
    for cfg in ('CalendarObjectTornRead', 'CalendarObjectTornWrite'):
        r = common.tlc('CalendarObject', cfg=cfg, must_pass=False)
        if 'Invariant Pure is violated' not in r.out:
            raise common.MachineryError('%s should be violated' % cfg)
    n = 24 if tier == 'quick' else 128
    jobs = [('%d-%d' % (seed, i), 1 if tier == 'quick' else 3, tier)
            for i in range(n)]
    outs = common.parallel(batch, jobs)
    shards = [[] for _ in range(8)]
    for i, evs in enumerate(outs):
        shards[i % 8] += evs
    judged = common.tlc_env_traces(
        'PureTrace', [[{k: e[k] for k in ('obj', 'q', 'r', 'fresh')}
                       for e in s] for s in shards], par=8)
    for evs, (v, r) in zip(shards, judged):
        if v['n'] != len(evs):
            raise common.MachineryError('trace not read to the end')
        res.add_tlc(r)
        for b in v['bad']:
            ev = evs[b['i'] - 1]
            res.violation('%s %s gave %s, a fresh calendar gives %s; on %s' % (
                ev['q'][:200], ev['how'][:400], ev['r'][:200],
                str(b['exp'])[:200], ev['label'][:500]), ev)
    res.traces = len(set(e['obj'] for s in shards for e in s))
    res.extra['answers_checked'] = sum(not e['fresh'] for s in shards
                                       for e in s)
    res.extra['ordered_pairs'] = sum(
        e['how'].startswith('right after') for s in shards for e in s)
    res.extra['preempted_queries'] = sum(
        e['how'].startswith('preempted') for s in shards for e in s)
    for e in [e for e in shards[0] if e['how'].startswith('preempted')][:3]:
        res.sample(dict(q=e['q'], how=e['how']))
    res.assumptions = ['threads are preempted at bytecode boundaries of '
                       'package code']
    return res
