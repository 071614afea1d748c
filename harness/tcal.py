"""Conformance of the command-line calendar with spec/Tcal.tla (C21)."""
import contextlib
import datetime
import io
import os
import random
import re
import runpy
import sys

import cals
import common
from cals import daynum

HEADER = re.compile(r'Su\s+Mo\s+Tu\s+We\s+Th\s+Fr\s+Sa')


def parse(text):
    """(heading, months, odd): the months shown, each with title and weeks."""
    lines = text.split('\n')
    heads = [(i, [m.start() - 1 for m in HEADER.finditer(ln)])
             for i, ln in enumerate(lines) if HEADER.search(ln)]
    if not heads:
        return '', [], 'no weekday header in %r' % text[:80]
    months = []
    above = []
    prev_end = -1
    for n, (i, starts) in enumerate(heads):
        t = i - 1
        while t > prev_end and not lines[t].strip():
            t -= 1
        titles = [lines[t][s:s + 28].strip() for s in starts]
        if n == 0:
            above = [ln.strip() for ln in lines[:t] if ln.strip()]
        end = heads[n + 1][0] - 1 if n + 1 < len(heads) else len(lines)
        while n + 1 < len(heads) and not lines[end].strip():
            end -= 1
        block = [dict(title=ti, grid=[]) for ti in titles]
        for ln in lines[i + 1:end]:
            if not ln.strip():
                continue
            rest = list(ln)
            for s, b in zip(starts, block):
                row = []
                for c in range(7):
                    p = s + 4 * c
                    cell = ln[max(p, 0):p + 4]
                    for q in range(max(p, 0), min(p + 4, len(rest))):
                        rest[q] = ' '
                    w = cell.strip()
                    if w == '':
                        row.append(0)
                    elif re.match(r'^\d{1,2}$', w):
                        row.append(int(w))
                    elif re.match(r'^\[ ?\d{1,2}\]$', w):
                        row.append(-int(w[1:-1]))
                    else:
                        return '', [], 'cell %r in %r' % (cell, ln)
                if any(row):
                    b['grid'].append(row)
            if ''.join(rest).strip():
                return '', [], 'text beside the grid: %r' % ln
        months += block
        prev_end = end - 1
    if len(above) > 1:
        return '', [], 'several lines above the grid: %r' % above
    return (above or [''])[0], months, ''


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.real)


@contextlib.contextmanager
def clock(y, m, d):
    """Make datetime's idea of now a given day."""
    rdt, rd = datetime.datetime, datetime.date

    class DT(rdt, metaclass=_Meta):
        real = rdt

        @classmethod
        def now(cls, tz=None):
            return rdt(y, m, d, 12, 0, 0, tzinfo=tz)

        @classmethod
        def today(cls):
            return rdt(y, m, d, 12)

        utcnow = today

    class D(rd, metaclass=_Meta):
        real = rd

        @classmethod
        def today(cls):
            return rd(y, m, d)
    datetime.datetime, datetime.date = DT, D
    try:
        yield
    finally:
        datetime.datetime, datetime.date = rdt, rd


def run(how, args):
    """Run the tool; (stdout, problem)."""
    out, err = io.StringIO(), io.StringIO()
    argv = ['tcal'] + args
    saved = sys.argv, sys.stdout, sys.stderr
    try:
        sys.argv, sys.stdout, sys.stderr = argv, out, err
        if how == 'script':
            runpy.run_path(os.path.join(common.REPO, 'etc', 'tcal'),
                           run_name='__main__')
        elif how == 'module':
            runpy.run_module('trading_calendars.tcal', run_name='__main__')
        else:
            from trading_calendars import tcal
            if how == 'entry':
                tcal.main()
            else:
                tcal.main(argv)
    except SystemExit as e:
        if e.code not in (None, 0):
            return '', 'exit %s: %s' % (e.code, err.getvalue()[:200])
    except Exception as e:
        return '', '%s: %s' % (type(e).__name__, e)
    finally:
        sys.argv, sys.stdout, sys.stderr = saved
    return out.getvalue(), ''


def show(how, name, days, form, y, m, style=0):
    """One run as an event; days are the calendar's sessions."""
    nows = []
    if form == 'month':
        args = [name, ('%d', '%02d')[style % 2] % m, '%d' % y]
        text, odd = run(how, args)
    elif form == 'year':
        args = [name, '%d' % y]
        text, odd = run(how, args)
    else:
        args = [name]
        n0 = datetime.datetime.now()
        with clock(y, m, 1 + style % 28):
            text, odd = run(how, args)
        n1 = datetime.datetime.now()
        nows = [[y, m], [n0.year, n0.month], [n1.year, n1.month]]
    heading, months = '', []
    if not odd:
        heading, months, odd = parse(text)
    spans = [(daynum(y, 1, 1) - 1, daynum(y, 12, 31) + 1)]
    for a, b in nows:
        spans.append((daynum(a, b, 1), daynum(a, b, 28) + 4))
    return dict(form=form, y=y, m=m, nows=nows, heading=heading, odd=odd,
                shown=months, how=how, args=args,
                open=sorted({x for a, b in spans for x in range(a, b)
                             if x in days}))


def synthetic(rng, lo, hi):
    a, b = daynum(lo, 1, 1), daynum(hi, 12, 31)
    mask = rng.choice([[0, 1, 2, 3, 4], [6, 0, 1, 2, 3], list(range(7)),
                       [0, 2, 4], [5, 6]])
    rules = [cals.random_rule(rng, a, b) for _ in range(rng.randint(0, 4))]
    rules += [cals.mkrule(m, d) for m, d in ((1, 1), (12, 31), (2, 28), (3, 1))
              if rng.random() < .4]
    adhoc = sorted({rng.randint(a, b) for _ in range((b - a) // 20)})
    # leap days and month ends closed or left open at random
    for y in range(lo, hi + 1):
        if y % 4 == 0 and y != 2100 and rng.random() < .5:
            adhoc.append(daynum(y, 2, 29))
    d = cals.mkdef(tz=rng.choice(cals.ZONES), mask=mask, rules=rules,
                   adhoc=sorted(set(adhoc)))
    return cals.build_class(d, name='Syn')(start=cals.ts(a), end=cals.ts(b))


def job(args):
    kind, seed, lo, hi, full = args
    import trading_calendars as tc
    rng = random.Random('%s-%d' % (kind, seed))
    if kind.startswith('syn'):
        name = rng.choice(['SYN', 'x y', '24/9', kind])
        cal = synthetic(rng, lo, hi)
        tc.register_calendar(name, cal, force=True)
    else:
        name = kind
        try:
            cal = tc.get_calendar(name)
        except Exception as e:
            return [dict(form='month', y=lo, m=1, nows=[], heading='',
                         odd='%s: %s' % (type(e).__name__, e), shown=[],
                         how='', args=[name], open=[])]
    days = set(cals.labels(cal.all_sessions))
    out = []
    k = 0
    for y in range(lo - 1, hi + 2):
        k += 1
        if full or y % 3 == seed % 3:
            out.append(show('main', name, days, 'year', y, 0))
        for m in (range(1, 13) if full or y % 4 == 0
                  else rng.sample(range(1, 13), 4)):
            how = 'entry' if (y + m) % 5 == 0 else 'main'
            out.append(show(how, name, days, 'month', y, m, y + m))
        m = rng.randint(1, 12)
        out.append(show('main', name, days, 'now', y, (1, 2, 12, m)[k % 4],
                        rng.randrange(28)))
        if k % 3 == 0:
            out.append(show('script', name, days, 'month', y, m))
            out.append(show('module', name, days, 'month', y, 2))
        if k % 6 == 0:
            out.append(show('script', name, days, 'year', y, 0))
            out.append(show('script', name, days, 'now', y, m))
    return out


def check(prop, tier, seed):
    res = common.Result(prop, tier, seed)
    quick = tier == 'quick'
    h = common.tlc_start('MCTcal', cfg='MCTcal' if quick else 'MCTcalBig',
                         env=dict(TRACE='/dev/null'))
    jobs = [('XNYS', seed, 2000, 2020, False), ('XTAE', seed, 1996, 2010,
                                                False),
            ('XHKG', seed, 2005, 2020, False)]
    if not quick:
        jobs = [(n, seed, 1990, 2026, True) for n in
                ('XNYS', 'XTAE', 'XHKG', '24/7', 'CMES', 'XSHG', 'XLON',
                 'XTKS')]
    jobs += [('syn%d' % i, seed, 1972 + 16 * i, 1972 + 16 * i + 15, False)
             for i in range(8)]
    if not quick:
        jobs += [('synF%d' % i, seed, 1972 + 8 * i, 1972 + 8 * i + 7, True)
                 for i in range(16)]
    outs = common.parallel(job, jobs)
    evs = [e for o in outs for e in o]
    res.add_tlc(common.tlc_wait(h))
    shards = [evs[i::6] for i in range(6)]
    for (v, r), tr in zip(common.tlc_env_traces('Tcal', shards), shards):
        res.add_tlc(r)
        if v['n'] != len(tr):
            raise common.MachineryError('trace not read to the end')
        res.traces += len(tr)
        for b in v['bad']:
            ev = tr[b['i'] - 1]
            res.violation('tcal %s (%s): %s, specification %s'
                          % (' '.join(ev['args']), ev['how'],
                             b['say'][0]['why'], b['say'][0]['exp']),
                          dict(event=ev, expected=b['say']))
    for f in ('month', 'year', 'now'):
        res.extra['runs_' + f] = sum(e['form'] == f for e in evs)
    res.extra['runs_script'] = sum(e['how'] == 'script' for e in evs)
    for e in evs[::max(1, len(evs) // 5)]:
        res.sample(' '.join(e['args']))
    res.assumptions = [
        'the output is read by columns under the weekday header; blank lines '
        'are ignored', "the calendar's own session list is taken as given"]
    return res
