#!/opt/venv/bin/python
"""One-off transcription aid: reads the shipped calendar definitions and
writes the exchange tables of the specification (spec/exchanges/EX_*.tla,
spec/Exchanges.tla) and the zone tables (spec/Zones.tla).

The result is committed and IS the specification from then on; no check runs
this tool.  Zone data comes from pytz (part of the environment, not of the
repository)."""
import os, sys, warnings, datetime
warnings.simplefilter('ignore')
sys.path.insert(0, '/repo')
import pandas as pd, pytz
from trading_calendars.calendar_utils import _default_calendar_factories as F
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
WD = ['MON', 'TUE', 'WED', 'THU', 'FRI', 'SAT', 'SUN']
OBS = {
 'nearest_workday': 'nearest_workday', 'next_monday': 'next_monday', 'next_monday_or_tuesday': 'next_monday_or_tuesday',
 'previous_friday': 'previous_friday', 'previous_workday': 'previous_workday', 'sunday_to_monday': 'sunday_to_monday',
 'weekend_to_monday': 'weekend_to_monday', 'four_day_weekend': 'four_day_weekend',
 'cultural_diversity_observance': 'cultural_diversity', 'not_2018': 'not_2018', 'not_2010': 'not_2010', 'not_2004': 'not_2004',
 'good_friday_unless_christmas_nye_friday': 'good_friday_unless_christmas_nye_friday', 'boxing_day_obs': 'boxing_day_hk',
 'process_queen_birthday': 'queens_birthday', 'defender_of_fatherland_observance': 'defender_of_fatherland',
 'new_years_holiday_observance': 'new_years_holiday_ru', 'orthodox_christmas_observance': 'orthodox_christmas',
 'only_friday': 'only_friday', 'nearest_monday': 'nearest_monday_cl', 'tuesday_and_wednesday_to_friday': 'tue_wed_to_friday',
 'taiwan_makeup_rule': 'taiwan_makeup', 'following_tuesday_every_four_years_observance': 'tuesday_every_four_years',
 'new_years_day_observance': 'new_years_day_th', 'songkran_festival_last_day_observance': 'songkran_last_day',
 'sunday_to_tuesday': 'sunday_to_tuesday', 'sunday_to_wednesday': 'sunday_to_wednesday',
}
HEB = {'_Purim': 'purim', '_Passover': 'passover', '_MemorialDay': 'memorial', '_Pentecost': 'pentecost', '_FastDay': 'fastday',
       '_NewYear': 'roshhashanah', '_YomKippur': 'yomkippur', '_Sukkoth': 'sukkoth', '_SimchatTorah': 'simchattorah'}

def obs(o):
    if o is None:
        return ''
    if isinstance(o, pd.DateOffset):
        assert str(o.kwds['weekday']) == 'MO(+1)'
        return 'monday_on_or_after'
    n = o.__qualname__
    if n == 'new_years_eve_observance':
        return 'new_years_eve_ru' if 'xmos' in o.__module__ else 'new_years_eve_th'
    if n == 'nearest_monday':
        assert 'xsgo' in o.__module__
    return OBS[n]

def off(o, r):
    if o is None:
        return []
    if isinstance(o, list):
        return [y for x in o for y in off(x, r)]
    t = type(o).__name__
    if t == 'Day':
        return ['<<"days", %d>>' % o.n]
    if t == 'Easter':
        assert (r.month, r.day, o.n) == (1, 1, 1)
        return ['<<"easter">>']
    if t in HEB:
        assert (r.month, r.day, o.n) == (1, 1, 1)
        return ['<<"%s">>' % HEB[t]]
    if t == 'DateOffset':
        assert list(o.kwds) == ['weekday'] and o.n == 1
        w = o.kwds['weekday']
        return ['<<"nth", %s, %d>>' % (WD[w.weekday], w.n or 1)]
    if t == 'LastWeekOfMonth':
        assert o.n == 1
        return ['<<"lastwd", %s>>' % WD[o.weekday]]
    if t == 'WeekOfMonth':
        assert o.n == 1
        return ['<<"weekof", %d, %s>>' % (o.week, WD[o.weekday])]
    raise ValueError(t)

def ymd(ts):
    return ts.year * 10000 + ts.month * 100 + ts.day

def rule(r):
    dow = '{%s}' % ', '.join(WD[i] for i in sorted(r.days_of_week)) if r.days_of_week else '{}'
    fr = 'YMD(%d)' % ymd(r.start_date) if r.start_date is not None else 'NegInf'
    to = 'YMD(%d)' % ymd(r.end_date) if r.end_date is not None else 'PosInf'
    name = ''.join(c for c in r.name if 32 <= ord(c) < 127).replace('\\', '').replace('*', '')
    return '[m |-> %d, d |-> %d, off |-> <<%s>>, obs |-> "%s", dow |-> %s, from |-> %s, to |-> %s, year |-> %d]   \\* %s' % (
        r.month, r.day, ', '.join(off(r.offset, r)), obs(r.observance), dow, fr, to, r.year or 0, name)

def rules(cal, ind):
    rs = [] if cal is None else list(cal.rules)
    if not rs:
        return '<<>>'
    out = []
    for i, r in enumerate(rs):
        body, com = rule(r).split('   \\*')
        out.append(' ' * ind + body + (',' if i < len(rs) - 1 else '') + '   \\*' + com)
    return '<<\n' + '\n'.join(out) + '\n' + ' ' * (ind - 2) + '>>'

def days(ds, ind):
    ds = sorted(set(ymd(pd.Timestamp(x.year, x.month, x.day)) for x in ds if x.year >= 1970))
    if not ds:
        return '{}'
    lines, cur = [], []
    for d in ds:
        if cur and (d // 10000 != cur[0] // 10000 or len(cur) >= 8):
            lines.append(cur); cur = []
        cur.append(d)
    lines.append(cur)
    return 'Days({\n' + ',\n'.join(' ' * ind + ', '.join(map(str, l)) for l in lines) + '})'

def stamp(x):
    return x if hasattr(x, 'month') else pd.Timestamp(x)

def secs(t):
    return 'HM(%d, %d)' % (t.hour, t.minute)

def regs(ts):
    if ts is None:
        return '<<>>'
    return '<<' + ', '.join('<<%s, %s>>' % ('NegInf' if s is None else 'YMD(%d)' % ymd(s), secs(t)) for s, t in ts) + '>>'

def ident(n):
    return {'24/7': 'ALWAYS', '24/5': 'WEEKDAYS'}.get(n, n)

zones = set()
idents = []
os.makedirs(os.path.join(SPEC, 'exchanges'), exist_ok=True)
for n, f in sorted(F.items()):
    x = f.__new__(f)
    i = ident(n)
    idents.append((n, i))
    zones.add(str(x.tz))
    wm = x.weekmask
    mask = ', '.join(WD[k] for k in range(7) if wm[k] == '1')
    assert not x.special_opens and not x.special_opens_adhoc
    mod = 'EX_' + i
    L = []
    L.append(('-' * 30 + ' MODULE ' + mod + ' ' + '-' * 30))
    L.append('EXTENDS RuleTables')
    L.append('')
    L.append('%s == [' % i)
    L.append('  name |-> "%s",' % x.name)
    L.append('  tz |-> "%s",' % x.tz)
    L.append('  mask |-> {%s},' % mask)
    L.append('  opens |-> %s,' % regs(x.open_times))
    L.append('  closes |-> %s,' % regs(x.close_times))
    L.append('  bstarts |-> %s,' % regs(x.break_start_times))
    L.append('  bends |-> %s,' % regs(x.break_end_times))
    L.append('  oo |-> %d, co |-> %d,' % (x.open_offset, x.close_offset))
    L.append('  rules |-> %s,' % rules(x.regular_holidays, 4))
    L.append('  adhoc |-> %s,' % days(map(stamp, x.adhoc_holidays), 4))
    L.append('  sopens |-> <<>>, sopensA |-> <<>>,')
    L.append('  scloses |-> <<%s>>,' % ', '.join('<<%s, %s>>' % (secs(t), rules(c, 6)) for t, c in x.special_closes))
    L.append('  sclosesA |-> <<%s>>' % ', '.join('<<%s, %s>>' % (secs(t), days(map(stamp, d), 6)) for t, d in x.special_closes_adhoc))
    L.append(']')
    L.append('=' * 77)
    with open(os.path.join(SPEC, 'exchanges', mod + '.tla'), 'w') as fo:
        fo.write('\n'.join(L) + '\n')
with open(os.path.join(SPEC, 'Exchanges.tla'), 'w') as fo:
    fo.write('-' * 29 + ' MODULE Exchanges ' + '-' * 29 + '\n')
    fo.write('(* The shipped exchanges by registered name; one table per exchange in    *)\n(* exchanges/EX_*.tla.                                                     *)\n')
    fo.write('EXTENDS ' + ', '.join('EX_' + i for _, i in idents) + '\n\n')
    fo.write('ExchangeNames == {' + ', '.join('"%s"' % n for n, _ in idents) + '}\n\n')
    fo.write('Exchange(x) ==\n')
    for k, (n, i) in enumerate(idents):
        fo.write('    %s x = "%s" -> %s\n' % ('CASE' if k == 0 else '  []', n, i))
    fo.write('=' * 77 + '\n')
# zones
extra = ['Australia/Lord_Howe', 'Asia/Kathmandu', 'America/St_Johns', 'Pacific/Auckland', 'Pacific/Honolulu', 'Africa/Casablanca', 'America/Los_Angeles', 'Asia/Kolkata', 'Pacific/Chatham']
with open(os.path.join(SPEC, 'Zones.tla'), 'w') as fo:
    fo.write('-' * 31 + ' MODULE Zones ' + '-' * 31 + '\n')
    fo.write('(* Time zone data: offset (minutes east of UTC) before the first listed    *)\n'
             '(* transition and <<UTC minute, offset from then on>> for each transition  *)\n'
             '(* since 1968.  From the zone database of the environment (pytz %s);   *)\n'
             '(* the repository only names zones.                                        *)\n' % pytz.__version__)
    fo.write('EXTENDS Integers, Sequences\n\n')
    fo.write('ZoneTable(tz) ==\n')
    for k, z in enumerate(sorted(zones | set(extra))):
        tz = pytz.timezone(z)
        base, tr = 0, []
        if hasattr(tz, '_utc_transition_times'):
            last = None
            for t, info in zip(tz._utc_transition_times, tz._transition_info):
                o = info[0].total_seconds() / 60
                if t.year < 1968:
                    base = o; last = o
                    continue
                if o == last:
                    continue
                assert o == int(o), (z, t)
                m = (t - datetime.datetime(1970, 1, 1)).total_seconds() / 60
                assert m == int(m)
                tr.append((int(m), int(o)))
                last = o
            base = int(round(base))
        fo.write('    %s tz = "%s" -> [base |-> %d, trans |-> <<%s>>]\n' % ('CASE' if k == 0 else '  []', z, base,
                 ', '.join('<<%d, %d>>' % t for t in tr)))
    fo.write('=' * 77 + '\n')
with open(os.path.join(SPEC, 'exchanges', 'RuleTables.tla'), 'w') as fo:
    fo.write('''----------------------------- MODULE RuleTables -----------------------------
(* Notation shared by the exchange tables.                                  *)
EXTENDS HolidayRules
YMD(n) == DayNum(n \\div 10000, (n \\div 100) % 100, n % 100)
Days(S) == {YMD(n) : n \\in S}
HM(h, m) == h * 3600 + m * 60
=============================================================================
''')
