"""Conformance of memoised attributes with spec/LazyVal.tla (C20)."""
import gc
import json
import random
import weakref

from common import Result, tlc, tlc_env_traces, parallel, MachineryError

ATTRS = ['Base.a', 'Base.b', 'Base.n', 'Sub.b', 'Base.x', 'Base.y', 'Sub.d',
         'Other.a']
OF = {'Base': ['Base.a', 'Base.b', 'Base.n', 'Base.x', 'Base.y'],
      'Sub': ['Base.a', 'Base.b', 'Base.n', 'Base.x', 'Base.y', 'Sub.b',
              'Sub.d'],
      'Leaf': ['Base.a', 'Base.b', 'Base.n', 'Base.x', 'Base.y', 'Sub.b',
               'Sub.d'],
      'Other': ['Other.a']}
NOTHING = [None, 0, False, '', (), 0.0]


class Boom(Exception):
    pass


class BoomKey(Boom, KeyError):
    pass


class BoomAttr(Boom, AttributeError):
    pass


class BoomType(Boom, TypeError):
    pass


class Value(object):
    """Result of one computation."""

    def __init__(self, n):
        self.n = n


class World(object):
    """Classes with memoised attributes, and objects in named slots."""

    def __init__(self, exc, empties=False):
        from trading_calendars.utils.memoize import lazyval
        self.ran = []
        self.fails = ()
        self.done = 0
        self.exc = exc
        self.objs = {}
        self.cls = {}
        self.refs = []
        self.empties = empties
        self.wanted = None
        w = self

        def finish(label):
            if label in w.fails:
                raise w.exc(label)
            w.done += 1
            if w.empties and label in ('Base.n', 'Sub.d', 'Other.a'):
                return NOTHING[w.done % len(NOTHING)]
            return Value(w.done)

        def shared(self):
            # one function behind two attributes: the one asked for is known
            label = w.wanted
            w.ran.append((label, self))
            return finish(label)

        class Base(object):
            @lazyval
            def a(self):
                w.ran.append(('Base.a', self))
                return finish('Base.a')

            @lazyval
            def b(self):
                w.ran.append(('Base.b', self))
                self.a
                return finish('Base.b')

            @lazyval
            def n(self):
                w.ran.append(('Base.n', self))
                return finish('Base.n')

            x = lazyval(shared)
            y = lazyval(shared)

        class Sub(Base):
            @lazyval
            def b(self):
                w.ran.append(('Sub.b', self))
                super(Sub, self).b
                self.n
                return finish('Sub.b')

            @lazyval
            def d(self):
                w.ran.append(('Sub.d', self))
                return finish('Sub.d')

        class Leaf(Sub):
            pass

        class Other(object):
            @lazyval
            def a(self):
                w.ran.append(('Other.a', self))
                return finish('Other.a')
        self.Sub = Sub
        self.classes = dict(Base=Base, Sub=Sub, Leaf=Leaf, Other=Other)

    def read(self, obj, a):
        c, n = a.split('.')
        if a == 'Base.b' and isinstance(obj, self.Sub):
            return super(self.Sub, obj).b
        return getattr(obj, n)

    def do(self, op, o, a, fails, cls=None):
        """Perform one operation; returns its outcome."""
        self.ran = []
        self.fails = tuple(fails)
        self.wanted = a
        k, v = 'ok', 0
        obj = self.objs.get(o)
        try:
            if op == 'new':
                self.objs[o] = self.classes[cls]()
                self.cls[o] = cls
            elif op == 'del':
                self.refs.append(weakref.ref(obj))
                obj = None
                del self.objs[o]
            elif op == 'get':
                r = self.read(obj, a)
                k = 'val'
                v = r.n if isinstance(r, Value) else -1
                if v == -1 and not (
                        self.empties and any(r is e or (type(r) is type(e)
                                                        and r == e)
                                             for e in NOTHING)):
                    k = 'odd:%r' % (r,)
            elif op == 'set':
                try:
                    setattr(obj, a.split('.')[1], Value(-7))
                except AttributeError:
                    k = 'refused'
            elif op == 'cls':
                getattr(self.classes[cls], a.split('.')[1])
            elif op == 'gc':
                obj = None
                for _ in range(4):
                    gc.collect()
                    if not any(r() is not None for r in self.refs):
                        break
                alive = sum(r() is not None for r in self.refs)
                if alive:
                    k = 'kept alive: %d of %d' % (alive, len(self.refs))
                self.refs = []
        except Boom:
            k = 'raise'
        except Exception as e:
            k = 'odd:%s' % type(e).__name__
        ran = [lab for lab, _ in self.ran]
        if any(s is not obj for _, s in self.ran):
            k = 'odd: computed for another object'
        self.ran = []
        return dict(k=k, v=v, ran=ran)


EXCS = [Boom, BoomKey, BoomAttr, BoomType]


def replay(args):
    """Replay model transitions: path to the state, then the operation."""
    g, states, first = args
    bad = []
    n = 0
    for s in states:
        path = g.path(s)
        for (o, r) in g.succ[s]:
            n += 1
            w = World(EXCS[(first + n) % 4])
            for (po, pr) in path + [(o, r)]:
                cls = ('Sub', 'Leaf')[n % 2]
                got = w.do(po['op'], po['o'], po['a'], po['fails'], cls)
                if got != pr:
                    bad.append(dict(
                        history=[p for p, _ in path] + [o], at=po,
                        expected=pr, observed=got))
                    break
            if len(bad) > 10:
                return bad, n
    return bad, n


class Graph(object):
    def __init__(self, lines):
        self.succ = {}
        self.parent = {}
        key = lambda s: json.dumps(  # noqa: E731
            [sorted(s['live']), s['nb'], sorted(s['val'])])
        edges = {}
        for ln in lines:
            t = json.loads(ln)
            f, to = key(t['f']), key(t['t'])
            self.succ.setdefault(f, []).append((t['o'], t['r']))
            edges.setdefault(f, []).append((t['o'], t['r'], to))
        root = key(dict(live=[], nb=0, val=[]))
        self.parent = {root: None}
        q = [root]
        while q:
            nq = []
            for s in q:
                for (o, r, to) in edges.get(s, ()):
                    if to not in self.parent:
                        self.parent[to] = (s, o, r)
                        nq.append(to)
            q = nq

    def path(self, s):
        p = []
        while self.parent[s] is not None:
            s, o, r = self.parent[s]
            p.append((o, r))
        return p[::-1]


def record(args):
    """Random histories over several classes, objects and attributes."""
    seed, count, nops = args
    rng = random.Random(seed)
    out = []
    for h in range(count):
        w = World(rng.choice(EXCS), empties=rng.random() < .4)
        out.append(dict(op='start'))
        slots = ['s%d' % i for i in range(rng.choice([1, 2, 3, 6]))]
        churn = rng.random() < .3
        pfail = rng.choice([0, .2, .6])

        def do(op, o='', a='', fails=(), cls=None):
            r = w.do(op, o, a, fails, cls)
            out.append(dict(op=op, o=o, a=a, fails=list(fails), cls=cls or '',
                            res=r))
        for i in range(nops):
            o = rng.choice(slots)
            if o not in w.objs:
                do('new', o, cls=rng.choice(sorted(OF)))
                continue
            mine = OF[w.cls[o]]
            k = rng.random()
            if k < (.45 if churn else .05):
                do('del', o)
                if churn and rng.random() < .02:
                    do('gc')
            elif k < .93:
                f = [x for x in mine if rng.random() < pfail]
                do('get', o, rng.choice(mine), f)
            elif k < .97:
                do('set', o, rng.choice(mine))
            else:
                cls = w.cls[o]
                do('cls', o, rng.choice([x for x in OF[cls]]), cls=cls)
        for o in list(w.objs):
            for a in OF[w.cls[o]]:
                do('get', o, a)
            do('del', o)
        if h % 4 == 0:
            do('gc')
    return out


def say(e):
    return '%s %s %s%s -> %s' % (e['op'], e['o'], e['a'], ' fails=%s'
                                 % e['fails'] if e['fails'] else '', e['res'])


def check(prop, tier, seed):
    res = Result(prop, tier, seed)
    cfg = 'MCLazyVal' if tier == 'quick' else 'MCLazyValBig'
    r = tlc('MCLazyVal', cfg=cfg, env=dict(LOG='1'), heap='4g')
    res.add_tlc(r)
    g = Graph([json.loads(ln)[2:] for ln in r.out.splitlines()
               if ln.startswith('"T ')])
    states = [s for s in g.succ if s in g.parent]
    if len(states) < 100 or len(states) != len(g.succ):
        raise MachineryError('model produced no usable transitions')
    for bad, n in parallel(replay, [(g, states[i::8], i) for i in range(8)]):
        res.count('transitions_replayed', n)
        res.traces += n
        for b in bad:
            res.violation('memoised attributes: %s gives %s, specification %s'
                          % (b['at'], b['observed'], b['expected']), b)
    nch, count, nops = (8, 40, 120) if tier == 'quick' else (16, 300, 200)
    recs = parallel(record, [(seed * 1000 + i, count, nops)
                             for i in range(nch)])
    for (v, r), tr in zip(tlc_env_traces('LazyTrace', recs), recs):
        res.add_tlc(r)
        if v['n'] != len(tr):
            raise MachineryError('trace not read to the end')
        res.count('events_validated', v['n'])
        res.traces += sum(e['op'] == 'start' for e in tr)
        for b in v['bad']:
            i = b['i'] - 1
            j = i
            while tr[j]['op'] != 'start':
                j -= 1
            res.violation('memoised attributes: %s where the specification '
                          'gives %s' % (say(tr[i]), b['exp']),
                          dict(history=[say(e) for e in tr[j + 1:i + 1]],
                               expected=b['exp']))
    res.sample([say(e) for e in recs[0][1:12]])
    res.extra['exhaustive'] = True
    res.assumptions = [
        'objects compare by identity; results do not refer to their object; '
        'single-threaded access (concurrent queries are C10)']
    return res
