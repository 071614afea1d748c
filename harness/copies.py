"""C25: copies of calendars, and calendars that come and go, against
spec/Copies.tla (CopyTrace)."""
import base64
import copy
import gc
import json
import os
import pickle
import random
import subprocess
import sys

import cals
import common
import purity
import queries
import schedule
from queries import ask

MODULE = sys.modules[__name__]
SHIPPED = ['XHKG', 'XNYS', 'us_futures', 'XTKS', '24/7', 'XTAE']


def importable(cls, name):
    """Make a generated class one that can be written out and read back."""
    cls.__module__ = MODULE.__name__
    cls.__name__ = cls.__qualname__ = name
    setattr(MODULE, name, cls)
    return cls


def snapshot(cal):
    return purity.snapshot(cal)


def put(cal, q, form):
    if q == ['snapshot']:
        try:
            return snapshot(cal)
        except Exception as e:
            return 'snapshot failed: %r' % e
    return json.dumps(ask(cal, q, form))


class History(object):
    def __init__(self, rng, seed):
        self.rng = rng
        self.evs = []
        self.contents = {}        # name -> (class, lo, hi, queries)
        self.objs = {}            # object -> (calendar, content)
        self.learnt = set()
        self.n = 0
        self.seed = seed

    def ev(self, e, o='', c='', q='', r='', how=''):
        self.evs.append(dict(e=e, o=o, c=c, q=q, r=r, how=how))

    def make(self, c):
        cls, lo, hi, _ = self.contents[c]
        return cals.build(cls, lo, hi)[0]

    def add_contents(self):
        rng = self.rng
        if rng.random() < .2:
            name = rng.choice(SHIPPED)
            cls = schedule.factories().get(name)
            lo = rng.randint(cals.daynum(1995, 1, 1), cals.daynum(2019, 1, 1))
            hi = lo + rng.randint(8, 14)
            label = name
        else:
            d, lo, hi = queries.gen_small(rng, long=.02)
            label = 'generated %s' % cals.brief(d)
            cls = importable(cals.build_class(d), 'C%s_%d' % (
                self.seed.replace('-', '_'), len(self.contents)))
        other = None
        if label.startswith('generated') and rng.random() < .6:
            # another calendar of the same name for the same days
            d = dict(d, opens=[[x, max(0, t - 60)] for x, t in d['opens']])
            other = importable(cals.build_class(d), 'C%s_%d_' % (
                self.seed.replace('-', '_'), len(self.contents)))
        for cls, label, lo, hi in (
                (cls, label, lo, hi),
                (cls, label, lo + rng.randint(-2, 1), hi + rng.randint(1, 9)),
                (other, label + '(other)', lo, hi)):
            cal = cals.build(cls, lo, hi)[0] if cls else None
            if cal is None:
                continue
            S = queries.sessions_of(cal)
            qs = purity.mixed_queries(rng, S, len(cal.all_minutes), 3)
            c = '%s over %s..%s #%d' % (label, cals.date_of(lo),
                                        cals.date_of(hi), len(self.contents))
            self.contents[c] = (cls, lo, hi, qs)

    def query(self, o):
        cal, c = self.objs[o]
        rng = self.rng
        # questions another content also gets, now and then
        other = rng.choice(sorted(self.contents))
        q, form = rng.choice(self.contents[
            c if rng.random() < .7 else other][3] + [(['snapshot'], 'utc')])
        if (c, json.dumps(q)) not in self.learnt:
            fresh = self.make(c)
            if fresh is None:
                return
            self.learnt.add((c, json.dumps(q)))
            self.ev('learn', c=c, q=json.dumps(q), r=put(fresh, q, form))
        self.ev('ask', o=o, q=json.dumps(q), r=put(cal, q, form), how=c)

    def copy(self, o):
        rng = self.rng
        cal, c = self.objs[o]
        kind = rng.choice(['copy', 'deepcopy', 'pickle', 'pickle'])
        try:
            if kind == 'copy':
                new = copy.copy(cal)
            elif kind == 'deepcopy':
                new = copy.deepcopy(cal)
            else:
                p = rng.randint(0, pickle.HIGHEST_PROTOCOL)
                kind = 'pickle protocol %d' % p
                new = pickle.loads(pickle.dumps(cal, p))
            r = 'ok' if type(new) is type(cal) else 'odd'
        except Exception as e:
            new, r = self.make(c), 'failed: %r' % e
        n = 'o%d' % self.n
        self.n += 1
        self.ev('copy', o=n, c=o, r=r, how='%s of %s' % (kind, c))
        self.objs[n] = (new, c)

    def step(self):
        rng = self.rng
        k = rng.random()
        if not self.objs or k < .08 and len(self.objs) < 6:
            c = rng.choice(sorted(self.contents))
            n = 'o%d' % self.n
            self.n += 1
            cal = self.make(c)
            if cal is None:
                return
            self.objs[n] = (cal, c)
            self.ev('build', o=n, c=c)
            return
        o = rng.choice(sorted(self.objs))
        if k < .25 and len(self.objs) < 8:
            self.copy(o)
        elif k < .32 and len(self.objs) > 1:
            del self.objs[o]
            self.ev('drop', o=o)
            gc.collect()
        else:
            self.query(o)


def batch(job):
    seed, steps = job
    rng = random.Random('C25-%s' % seed)
    h = History(rng, seed)
    for _ in range(20):
        h.add_contents()
        if len(h.contents) >= 4:
            break
    if not h.contents:
        return []
    for _ in range(steps):
        h.step()
    return h.evs


def elsewhere(job):
    """Calendars written out here and read in another process."""
    seed = job
    rng = random.Random('C25-away-%s' % seed)
    h = History(rng, 'away-%s' % seed)
    evs, todo = h.evs, []
    for k, name in enumerate(rng.sample(SHIPPED, 3)):
        cls = schedule.factories().get(name)
        lo = rng.randint(cals.daynum(1995, 1, 1), cals.daynum(2019, 1, 1))
        hi = lo + rng.randint(8, 14)
        cal = cals.build(cls, lo, hi)[0] if cls else None
        if cal is None:
            continue
        S = queries.sessions_of(cal)
        qs = purity.mixed_queries(rng, S, len(cal.all_minutes), 1)[:9]
        c = '%s over %s..%s' % (name, cals.date_of(lo), cals.date_of(hi))
        h.contents[c] = (cls, lo, hi, qs)
        h.ev('build', o='a%d' % k, c=c)
        for q, form in qs:
            h.ev('learn', c=c, q=json.dumps(q), r=put(h.make(c), q, form))
        if k:
            for q, form in qs[:5]:
                ask(cal, q, form)
        try:
            data = base64.b64encode(pickle.dumps(cal, 2)).decode()
        except Exception as e:
            h.ev('copy', o='b%d' % k, c='a%d' % k, r='failed: %r' % e,
                 how='written out: ' + c)
            continue
        todo.append((k, c, data, qs))
    out = subprocess.run(
        [sys.executable, os.path.abspath(__file__)],
        input=json.dumps([(d, qs) for _, _, d, qs in todo]).encode(),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700)
    if out.returncode:
        raise common.MachineryError(out.stderr.decode()[-2000:])
    for (k, c, _, qs), got in zip(todo, json.loads(out.stdout.decode())):
        h.ev('copy', o='b%d' % k, c='a%d' % k, r=got[0],
             how='read in another process: ' + c)
        for (q, form), r in zip(qs, got[1:]):
            h.ev('ask', o='b%d' % k, q=json.dumps(q), r=r, how=c)
    return evs


def child():
    out = []
    for data, qs in json.loads(sys.stdin.read()):
        try:
            cal = pickle.loads(base64.b64decode(data))
        except Exception as e:
            out.append(['failed: %r' % e])
            continue
        out.append(['ok'] + [put(cal, q, form) for q, form in qs])
    print(json.dumps(out))


def check(prop, tier, seed):
    res = common.Result(prop, tier, seed)
    for cfg, good in (('Copies', True), ('Copies_table', True),
                      ('Copies_leak', False), ('Copies_name', False)):
        r = common.tlc('Copies', cfg=cfg, must_pass=good)
        res.add_tlc(r)
        if not good and 'Invariant Faithful is violated' not in r.out:
            raise common.MachineryError('%s should be violated' % cfg)
    n, steps = (40, 60) if tier == 'quick' else (240, 200)
    jobs = [(elsewhere, '%d-%d' % (seed, i))
            for i in range(2 if tier == 'quick' else 16)]
    jobs += [(batch, ('%d-%d' % (seed, i), steps)) for i in range(n)]
    outs = common.parallel(lambda j: j[0](j[1]), jobs)
    shards = [[] for _ in range(8)]
    for i, evs in enumerate(outs):
        shards[i % 8] += tagged(i, evs)
    judged = common.tlc_env_traces(
        'CopyTrace', [[{k: e[k] for k in 'eocqr'} for e in s]
                      for s in shards], par=8)
    for evs, (v, r) in zip(shards, judged):
        if v['n'] != len(evs):
            raise common.MachineryError('trace not read to the end')
        res.add_tlc(r)
        for b in v['bad']:
            ev = evs[b['i'] - 1]
            res.violation('%s %s %s (%s) gave %s; specification: %s' % (
                ev['e'], ev['o'], ev['q'][:200], ev['how'][:400],
                ev['r'][:200], str(b['exp'])[:200]),
                dict(event=ev, history=[
                    (e['e'], e['o'], e['c'], e['q'][:80]) for e in
                    evs[max(0, b['i'] - 60):b['i'] - 1] if e['e'] != 'learn']))
    evs = [e for s in shards for e in s]
    res.traces = len(jobs)
    for e in ('build', 'copy', 'drop', 'ask'):
        res.extra[e] = sum(x['e'] == e for x in evs)
    for e in [x for x in evs if x['e'] == 'copy'][:3]:
        res.sample(e['how'][:200])
    res.assumptions = ['generated classes are importable by name']
    return res


def tagged(i, evs):
    """Objects and contents of one history are its own."""
    out = []
    for e in evs:
        e = dict(e)
        if e['o']:
            e['o'] = '%d/%s' % (i, e['o'])
        if e['c']:
            e['c'] = '%d/%s' % (i, e['c'])
        out.append(e)
    return out


if __name__ == '__main__':
    child()
