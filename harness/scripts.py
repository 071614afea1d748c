"""The maintenance scripts in etc/: the holiday checker (C27) and the writer
of answer keys (C28), run on registered calendars of known content."""
import io
import os
import random
import re
import runpy
import shutil
import sys
import tempfile

import pandas as pd

import cals
import common
import schedule
from cals import date_of, daynum


def run(path, argv):
    """Run a script as the command it is; (stdout, problem)."""
    out = io.StringIO()
    saved = sys.argv, sys.stdout, sys.stderr
    try:
        sys.argv = [os.path.basename(path)] + argv
        sys.stdout = sys.stderr = out
        runpy.run_path(path, run_name='__main__')
    except SystemExit as e:
        if e.code not in (None, 0):
            return '', 'exit %s: %s' % (e.code, out.getvalue()[-300:])
    except Exception as e:
        return '', '%s: %s' % (type(e).__name__, e)
    finally:
        sys.argv, sys.stdout, sys.stderr = saved
    return out.getvalue(), ''


DATE = r'(\d{4}-\d\d-\d\d)'
CHECKING = re.compile(r'^Checking (\d+) holidays on the .*\((.*)\) calendar '
                      'between %s and %s' % (DATE, DATE))
NONE = re.compile(r'^No holidays found for (\S+) in the holiday key')
MATCH = re.compile(r'^(\S+) calendar matches the holiday key')


def day(text):
    return daynum(*[int(x) for x in text.split('-')])


def parse(text):
    """The reports in the tool's output, by calendar name."""
    reports = {}
    cur, under = None, None
    for ln in text.splitlines():
        m = CHECKING.match(ln)
        n = NONE.match(ln)
        if m or n:
            name = m.group(2) if m else n.group(1)
            if name in reports:
                return {}, '%s is reported twice' % name
            cur = reports[name] = dict(
                n=int(m.group(1)) if m else 0, none=bool(n), match=False,
                inkey=[], inopen=[], to=day(m.group(4)) if m else 0)
            cur['from'] = day(m.group(3)) if m else 0
            under = None
        elif not ln.strip():
            continue
        elif cur is None:
            return {}, 'unexpected line %r' % ln
        elif MATCH.match(ln):
            cur['match'] = True
        elif 'holidays in the given key, but trading days' in ln:
            under = 'inkey'
        elif 'trading days in the given key, but holidays' in ln:
            under = 'inopen'
        elif re.match(DATE + '$', ln.strip()) and under:
            cur[under].append(day(ln.strip()))
        else:
            return {}, 'unexpected line %r' % ln
    return reports, ''


def small(rng):
    """A calendar of a few weeks or months."""
    lo = rng.choice([daynum(rng.randint(1995, 2024), rng.randint(1, 12), 1),
                     rng.randint(daynum(2001, 11, 1), daynum(2002, 2, 1))])
    hi = lo + rng.choice([6, 15, 40, 120, 400])
    mask = rng.choice([[0, 1, 2, 3, 4]] * 4 + [[6, 0, 1, 2, 3], [1, 3, 5],
                                               list(range(7))])
    adhoc = sorted({rng.randint(lo, hi) for _ in range((hi - lo) // 12)})
    d = cals.mkdef(tz=rng.choice(cals.ZONES), mask=mask, adhoc=adhoc,
                   opens=[[cals.NEG, rng.randrange(4, 12) * 3600]],
                   closes=[[cals.NEG, rng.randrange(13, 20) * 3600 +
                            rng.choice([0, 900])]])
    return cals.build(cals.build_class(d, name='Small'), lo, hi)[0], lo, hi


def gen_key(rng, cal, lo, hi):
    """Days claimed to be holidays: the truth, bent."""
    days = set(cals.labels(cal.all_sessions))
    first, last = min(days), max(days)
    key = {x for x in range(first, last + 1)
           if x not in days and (cals.weekday(x) < 5 or rng.random() < .02)}
    k = rng.random()
    if k > .3:
        key = {x for x in key if rng.random() < .8}
        key |= {rng.randint(lo, hi) for _ in range(rng.randint(0, 4))}
    if rng.random() < .5:               # reaching outside the calendar
        key |= {first - rng.randint(1, 30), last + rng.randint(1, 30)}
    if rng.random() < .4:               # the span ends on a session
        key.add(rng.choice(sorted(days)))
    if rng.random() < .1:               # nothing in common with the calendar
        key = {last + rng.randint(1, 30) for _ in range(3)}
    if rng.random() < .1:
        key = set()
    return sorted(key)


def check_run(job):
    seed, rounds = job
    import trading_calendars as tc
    from trading_calendars.calendar_utils import default_calendar_names
    rng = random.Random('C27-%s' % seed)
    names = sorted(default_calendar_names)
    d = tempfile.mkdtemp(dir=common.scratch())
    evs = []
    script = os.path.join(common.REPO, 'etc', 'check_holidays.py')
    for r in range(rounds):
        pool = [c for c in (small(rng) for _ in range(10)) if c[0] is not None]
        content = {}
        for n in names:
            c = rng.choice(pool)
            content[n] = c + (gen_key(rng, *c),)
            tc.register_calendar(n, c[0], force=True)
        strip = rng.random() < .3
        other = rng.random() < .2
        fmt = rng.choice(['%Y%m%d', '%Y-%m-%d', '%d/%m/%Y', '%d%b%Y'])
        sep = rng.choice([',', ';', '|', '\t'])
        ccol, hcol = rng.choice([('cal', 'day'), ('exchange', 'holiday'),
                                 ('A', 'B')])
        sel = (rng.sample(names, 1) if other else
               [] if rng.random() < .3 else
               rng.sample(names, rng.randint(1, 5)))
        rows = []
        for n in names:
            code = n.lstrip('X') if strip else n
            if other:
                code = 'OTHER' if n == sel[0] else n
            for x in content[n][3]:
                rows += [(code, x)] * (2 if rng.random() < .05 else 1)
        rows += [('elsewhere', rng.randint(9000, 18000)) for _ in range(5)]
        rng.shuffle(rows)
        path = os.path.join(d, 'key%d.csv' % r)
        with open(path, 'w') as f:
            f.write(sep.join(['x', ccol, hcol]) + '\n')
            for code, x in rows:
                f.write(sep.join(['q', code, date_of(x).strftime(fmt)]) + '\n')
        argv = ['--calendar-column', ccol, '--holiday-column', hcol]
        if fmt != '%Y%m%d' or rng.random() < .5:
            argv += ['--date-format', fmt]
        if sep != ',':
            argv += ['--delimiter', sep]
        if strip:
            argv += ['--strip-x-from-cal-name']
        elif rng.random() < .2:
            argv += ['--no-strip-x-from-cal-name']
        if other:
            argv += ['--answer-key-calendar-name', 'OTHER']
        for n in sel:
            argv += ['--calendar', n]
        low = daynum(2002, 1, 1)
        if rng.random() < .7:
            low = rng.choice([daynum(1990, 1, 1),
                              rng.choice(pool)[1] + rng.randint(-3, 60)])
            argv += ['--min-date', str(date_of(low))]
        text, odd = run(script, argv + [path])
        got = {}
        if not odd:
            got, odd = parse(text)
        if not odd and set(got) != set(sel or names):
            odd = 'reports on %s, asked for %s' % (sorted(got),
                                                   sorted(sel or names))
        for n in sel or names:
            cal, lo, hi, key = content[n]
            days = cals.labels(cal.all_sessions)
            ev = dict(k='report', first=days[0], last=days[-1], open=days,
                      key=key, min=low, odd=odd, name=n, argv=argv)
            ev.update(got.get(n) or dict(n=0, none=False, match=False,
                                         inkey=[], inopen=[], to=0,
                                         **{'from': 0}))
            evs.append(ev)
            if odd:
                break
    return evs


def instant(text):
    """(minute, second) of a written moment; without zone it is in UTC."""
    t = pd.Timestamp(text)
    if t.tzinfo is not None:
        t = t.tz_convert('UTC')
    ns = t.value
    if ns % 10 ** 9:
        raise ValueError('fraction of a second in %r' % text)
    return [ns // cals.MIN_NS, ns % cals.MIN_NS // 10 ** 9]


def read_file(path):
    with open(path) as f:
        lines = f.read().split('\n')
    if lines[0].split(',')[1:] != ['market_open', 'market_close']:
        raise ValueError('heading %r' % lines[0])
    if lines[-1] != '':
        raise ValueError('last line not ended')
    rows = []
    for ln in lines[1:-1]:
        a, b, c = ln.split(',')
        rows.append([day(a), instant(b), instant(c)])
    return rows


def write_run(job):
    seed, rounds = job
    import trading_calendars as tc
    rng = random.Random('C28-%s' % seed)
    evs = []
    for r in range(rounds):
        # the script writes beside itself: run a copy of it in a scratch place
        root = tempfile.mkdtemp(dir=common.scratch())
        for sub in ('etc', 'tests/resources'):
            os.makedirs(os.path.join(root, sub))
        script = os.path.join(root, 'etc', 'make_trading_calendar_test_csv.py')
        shutil.copy(os.path.join(common.REPO, 'etc', os.path.basename(script)),
                    script)
        d, lo, hi = rng.choice([schedule.gen_c02, schedule.gen_c03])(rng)
        if rng.random() < .2:
            hi += 4000
        cal, err = cals.build(cals.build_class(d, name='Gen'), lo, hi)
        if cal is None:
            continue
        name = rng.choice(['XNYS', 'XLON', 'GEN', 'A-B', 'X9'])
        tc.register_calendar(name, cal, force=True)
        arg = rng.choice([name, name.lower(), name.capitalize()])
        sch = cal.schedule
        want = [[a, instant(b), instant(c)] for a, b, c in zip(
            cals.labels(sch.index), sch['market_open'], sch['market_close'])]
        cwd = os.getcwd()
        os.chdir(root)
        try:
            text, odd = run(script, [arg])
        finally:
            os.chdir(cwd)
        rows = []
        files = os.listdir(os.path.join(root, 'tests', 'resources'))
        if not odd and files != [name.lower() + '.csv']:
            odd = 'wrote %s' % files
        if not odd:
            try:
                rows = read_file(os.path.join(root, 'tests', 'resources',
                                              files[0]))
            except Exception as e:
                odd = '%s: %s' % (type(e).__name__, e)
        shutil.rmtree(root, ignore_errors=True)
        evs.append(dict(k='file', rows=rows, want=want, odd=odd, name=arg,
                        argv=[arg]))
    return evs


def check(prop, tier, seed):
    res = common.Result(prop, tier, seed)
    quick = tier == 'quick'
    if prop == 'C27':
        h = common.tlc_start('MCChecker',
                             cfg='MCChecker' if quick else 'MCCheckerBig')
        jobs = [('%d-%d' % (seed, i), 8 if quick else 60) for i in range(16)]
        outs = common.parallel(check_run, jobs)
        res.add_tlc(common.tlc_wait(h))
    else:
        jobs = [('%d-%d' % (seed, i), 10 if quick else 60) for i in range(16)]
        outs = common.parallel(write_run, jobs)
    shards = [[e for o in outs[i::6] for e in o] for i in range(6)]
    for evs, (v, r) in zip(shards, common.tlc_env_traces(
            'CheckerTrace', shards)):
        if v['n'] != len(evs):
            raise common.MachineryError('trace not read to the end')
        res.add_tlc(r)
        res.traces += len(evs)
        for b in v['bad']:
            ev = evs[b['i'] - 1]
            res.violation('%s of %s (%s): %s should be %s' % (
                ev['k'], ev['name'], ' '.join(ev['argv']), b['why'],
                b['exp']), dict(event=ev, verdict=b))
    evs = [e for s in shards for e in s]
    if prop == 'C27':
        res.extra['runs'] = sum(j[1] for j in jobs)
        res.extra['matching'] = sum(e['match'] for e in evs)
        res.extra['differences'] = sum(len(e['inkey']) + len(e['inopen'])
                                       for e in evs)
        res.assumptions = ['weekend sessions may or may not be shown']
    else:
        res.extra['lines'] = sum(len(e['rows']) for e in evs)
    for e in evs[:3]:
        res.sample(dict(name=e['name'], argv=e['argv']))
    return res
