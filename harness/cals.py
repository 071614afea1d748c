"""Calendar definitions as data, calendars built from them, and recording of
what a calendar's schedule actually is."""
import datetime
import random

import numpy as np
import pandas as pd
import pytz
from dateutil.relativedelta import FR, MO, SA, SU, TH, TU, WE
from pandas.tseries import holiday as ph
from pandas.tseries.holiday import Holiday
from pandas.tseries.offsets import DateOffset, Day, Easter

import common  # noqa: F401  (puts /repo on the path)
from trading_calendars import TradingCalendar
from trading_calendars.trading_calendar import HolidayCalendar

NEG, POS = -1000000, 1000000
DAY_NS = 86400 * 10 ** 9
MIN_NS = 60 * 10 ** 9
WDS = (MO, TU, WE, TH, FR, SA, SU)
EPOCH = datetime.date(1970, 1, 1)


def daynum(*ymd):
    return (datetime.date(*ymd) - EPOCH).days


def ts(day):
    return pd.Timestamp(day * DAY_NS, tz='UTC')


def date_of(day):
    return EPOCH + datetime.timedelta(days=day)


def weekday(day):
    return (day + 3) % 7


def as_time(secs):
    return datetime.time(secs // 3600, secs // 60 % 60, secs % 60)


# ---------------------------------------------------------------- rules

OBS = {
    'nearest_workday': ph.nearest_workday,
    'next_monday': ph.next_monday,
    'weekend_to_monday': ph.weekend_to_monday,
    'sunday_to_monday': ph.sunday_to_monday,
    'previous_friday': ph.previous_friday,
    'previous_workday': ph.previous_workday,
    'next_monday_or_tuesday': ph.next_monday_or_tuesday,
}


def mkrule(m, d, off=(), obs='', dow=(), frm=NEG, to=POS, year=0):
    return dict(m=m, d=d, off=[list(o) for o in off], obs=obs,
                dow=list(dow), to=to, year=year, **{'from': frm})


# the library's reusable holidays and the choices each offers its caller
BLOCKS = dict(
    [(n, 'od') for n in (
        'new_years_day', 'new_years_eve', 'epiphany', 'anzac_day',
        'european_labour_day', 'saint_peter_and_saint_paul_day',
        'assumption_day', 'all_saints_day', 'immaculate_conception',
        'christmas_eve', 'christmas', 'boxing_day')] +
    [(n, 'd') for n in ('holy_wednesday', 'maundy_thursday')] +
    [(n, '') for n in ('ascension_day', 'whit_monday', 'corpus_christi',
                       'midsummer_eve')] +
    [(n, 'o') for n in ('weekend_christmas', 'weekend_boxing_day')])


# the library's Jewish holidays
JEWISH = ['Purim', 'PassoverEve', 'Passover', 'Passover2Eve', 'Passover2',
          'MemorialDay', 'IndependenceDay', 'PentecostEve', 'Pentecost',
          'FastDay', 'NewYearsEve', 'NewYear', 'NewYear2', 'YomKippurEve',
          'YomKippur', 'SukkothEve', 'Sukkoth', 'SimchatTorahEve',
          'SimchatTorah']


# the library's United States holidays and lists of closings
US = ['USNewYearsDay', 'USMartinLutherKingJrAfter1998',
      'USLincolnsBirthDayBefore1954', 'USWashingtonsBirthDayBefore1964',
      'USWashingtonsBirthDay1964to1970', 'USPresidentsDay',
      'USThanksgivingDayBefore1939', 'USThanksgivingDay1939to1941',
      'USThanksgivingDay', 'USMemorialDayBefore1964',
      'USMemorialDay1964to1969', 'USMemorialDay',
      'USIndependenceDayBefore1954', 'USIndependenceDay',
      'USElectionDay1848to1967', 'USElectionDay1968to1980',
      'USVeteransDay1934to1953', 'USColumbusDayBefore1954',
      'ChristmasBefore1954', 'Christmas', 'ChristmasEveBefore1993',
      'ChristmasEveInOrAfter1993', 'MonTuesThursBeforeIndependenceDay',
      'FridayAfterIndependenceDayPre2013',
      'WednesdayBeforeIndependenceDayPost2013', 'USBlackFridayBefore1993',
      'USBlackFridayInOrAfter1993']
CLOSINGS = ['November29BacklogRelief', 'March33BankHoliday',
            'August45VictoryOverJapan', 'ChristmasEvesAdhoc',
            'DayAfterChristmasAdhoc', 'DayBeforeDecorationAdhoc',
            'LincolnsBirthDayAdhoc', 'PaperworkCrisis68',
            'DayAfterIndependenceDayAdhoc', 'WeatherSnowClosing',
            'FirstLunarLandingClosing', 'NewYorkCityBlackout77',
            'September11Closings', 'HurricaneSandyClosings',
            'HurricaneGloriaClosing', 'USNationalDaysofMourning']


def to_block(r):
    if r['name'] in US:
        from trading_calendars import us_holidays
        return getattr(us_holidays, r['name'])
    if r['name'] in JEWISH:
        from trading_calendars import tase_holidays
        return getattr(tase_holidays, r['name'])
    from trading_calendars import common_holidays
    func = getattr(common_holidays, r['name'])
    frm = None if r['from'] == NEG else pd.Timestamp(date_of(r['from']))
    to = None if r['to'] == POS else pd.Timestamp(date_of(r['to']))
    obs = OBS[r['obs']] if r['obs'] else None
    dow = tuple(r['dow']) or None
    can = BLOCKS[r['name']]
    if r['style']:
        return func(frm, to, *([obs] if 'o' in can else []) +
                    ([dow] if 'd' in can else []))
    kw = dict(start_date=frm, end_date=to, observance=obs, days_of_week=dow)
    return func(**{k: v for k, v in kw.items() if v is not None})


def to_holiday(r, name='h'):
    """The pandas rule for a rule record."""
    if 'name' in r:
        return to_block(r)
    off = []
    for o in r['off']:
        if o[0] == 'days':
            off.append(Day(o[1]))
        elif o[0] == 'easter':
            off.append(Easter())
        elif o[0] == 'nth':
            off.append(DateOffset(weekday=WDS[o[1]](o[2])))
        else:
            raise ValueError(o)
    kw = {}
    if r['year']:
        kw['year'] = r['year']
    if off:
        kw['offset'] = off if len(off) > 1 else off[0]
    elif r['obs']:
        kw['observance'] = OBS[r['obs']]
    if r['dow']:
        kw['days_of_week'] = tuple(r['dow'])
    if r['from'] != NEG:
        kw['start_date'] = pd.Timestamp(date_of(r['from']))
    if r['to'] != POS:
        kw['end_date'] = pd.Timestamp(date_of(r['to']))
    return Holiday(name, month=r['m'], day=r['d'], **kw)


def holiday_calendar(rules):
    return HolidayCalendar([to_holiday(r, 'h%d' % i)
                            for i, r in enumerate(rules)])


def random_rule(rng, lo, hi, simple=False):
    """A rule that tends to produce dates in the days lo..hi."""
    dow = ()
    frm, to = NEG, POS
    if rng.random() < .25:
        dow = sorted(rng.sample(range(7), rng.randint(1, 4)))
    if rng.random() < .3:
        frm = rng.randint(lo - 400, hi)
    if rng.random() < .3:
        to = rng.randint(lo, hi + 400)
    c = date_of(rng.randint(lo, hi))
    m, d = c.month, c.day
    if (m, d) == (2, 29):
        d = 28
    kind = rng.random()
    if kind < .1:
        return mkrule(m, d, year=c.year)
    if kind < .35:
        return mkrule(m, d, dow=dow, frm=frm, to=to)
    if kind < .65 and not simple:
        return mkrule(m, d, obs=rng.choice(sorted(OBS)), dow=dow, frm=frm,
                      to=to)
    if kind < .85:
        off = [('nth', rng.randrange(7), rng.choice([1, 1, 2, 3, 4, -1, -2]))]
        if rng.random() < .3:
            off.append(('days', rng.choice([1, -1, 2])))
        return mkrule(m, rng.choice([1, d]), off=off, frm=frm, to=to)
    off = [('easter',)]
    if rng.random() < .9:
        off.append(('days', rng.choice([-48, -47, -3, -2, 1, 39, 50, 60])))
    return mkrule(1, 1, off=off, frm=frm, to=to)


# ---------------------------------------------------------------- calendars

BASE = dict(tz='UTC', mask=[0, 1, 2, 3, 4], rules=[], adhoc=[],
            opens=[[NEG, 9 * 3600]], closes=[[NEG, 17 * 3600]], bstarts=[],
            bends=[], oo=0, co=0, sopens=[], scloses=[], sopensA=[],
            sclosesA=[])


def mkdef(**kw):
    d = dict(BASE)
    d.update(kw)
    return d


def _regimes(rs):
    return [(None if f == NEG else pd.Timestamp(date_of(f)), as_time(t))
            for f, t in rs] or None


def _days_form(days, form):
    if form == 'str':
        return [date_of(x).isoformat() for x in days]
    if form == 'naive':
        return [pd.Timestamp(date_of(x)) for x in days]
    if form == 'index':
        return pd.DatetimeIndex([pd.Timestamp(date_of(x)) for x in days])
    return [ts(x) for x in days]


def build_class(d, form='utc', sform='naive', base=TradingCalendar, name='Syn'):
    """A calendar class with definition d."""
    rules = d['rules']
    reg = holiday_calendar(rules) if rules else None
    adhoc = _days_form(d['adhoc'], form)
    if d.get('moved'):
        from trading_calendars.utils.pandas_utils import \
            vectorized_sunday_to_monday
        adhoc = list(adhoc) + list(vectorized_sunday_to_monday(
            _days_form(d['moved'], 'index')))
    if d.get('closings'):
        from trading_calendars import us_holidays
        adhoc = list(adhoc)
        for n in d['closings']:
            adhoc += getattr(us_holidays, n)
    attrs = dict(
        name=name,
        tz=pytz.timezone(d['tz']),
        open_times=_regimes(d['opens']),
        close_times=_regimes(d['closes']),
        break_start_times=_regimes(d['bstarts']),
        break_end_times=_regimes(d['bends']),
        weekmask=''.join('1' if i in d['mask'] else '0' for i in range(7)),
        open_offset=d['oo'],
        close_offset=d['co'],
        special_opens=[(as_time(t), holiday_calendar(r))
                       for t, r in d['sopens']],
        special_closes=[(as_time(t), holiday_calendar(r))
                        for t, r in d['scloses']],
        special_opens_adhoc=[(as_time(t), _days_form(x, sform))
                             for t, x in d['sopensA']],
        special_closes_adhoc=[(as_time(t), _days_form(x, sform))
                              for t, x in d['sclosesA']],
    )
    attrs = {k: property(lambda self, v=v: v) for k, v in attrs.items()}
    attrs['regular_holidays'] = property(lambda self: reg)
    attrs['adhoc_holidays'] = property(lambda self: adhoc)
    return type(str(name), (base,), attrs)


# ---------------------------------------------------------------- recording

def inst(v):
    """Nanoseconds since the epoch as <<minute, second>>."""
    if v == common_nat:
        return (NEG, 0)
    m, r = divmod(v, MIN_NS)
    s, ns = divmod(r, 10 ** 9)
    return (m, s if ns == 0 else -1)


common_nat = int(np.datetime64('NaT').astype('int64'))


def ints(values):
    """int64 nanoseconds of a datetime index/series/array."""
    a = np.asarray(values.values if hasattr(values, 'values') else values)
    return [int(v) for v in a.astype('datetime64[ns]').astype(np.int64).tolist()]


def labels(index):
    """Day numbers of an index of session labels; None if not midnights."""
    out = []
    for v in ints(index):
        if v == common_nat or v % DAY_NS:
            return None
        out.append(v // DAY_NS)
    return out


class Recorded(object):
    """Schedule of one calendar: days, rows, specials; `odd` describes what
    does not fit the encoding."""

    def __init__(self, cal):
        self.odd = ''
        self.days, self.rows, self.late, self.early = [], [], [], []
        self.first = self.last = -1
        days = labels(cal.schedule.index)
        if days is None:
            self.odd = 'session labels that are not midnights'
            return
        if getattr(cal.schedule.index, 'tz', None) is None or \
                str(cal.schedule.index.tz) != 'UTC':
            self.odd = 'session labels not in UTC'
            return
        if labels(cal.all_sessions) != days:
            self.odd = 'all_sessions differs from the schedule index'
            return
        if any(b <= a for a, b in zip(days, days[1:])):
            self.odd = 'sessions out of order or repeated'
            return
        self.days = days
        s = cal.schedule
        cols = [[inst(v) for v in ints(s[c])] for c in
                ('market_open', 'break_start', 'break_end', 'market_close')]
        self.rows = list(zip(*cols))
        self.late = labels(cal.late_opens)
        self.early = labels(cal.early_closes)
        if self.late is None or self.early is None:
            self.odd = 'late opens / early closes that are not midnights'
            return
        self.first = labels([np.datetime64(
            cal.first_trading_session.value, 'ns')])[0]
        self.last = labels([np.datetime64(
            cal.last_trading_session.value, 'ns')])[0]

    def rel(self, i):
        d = self.days[i]
        return tuple(t if t[0] == NEG else (t[0] - d * 1440, t[1])
                     for t in self.rows[i])

    def segs(self, lo, hi):
        out = []
        cur = None
        for i, d in enumerate(self.days):
            if d < lo or d > hi:
                continue
            r = self.rel(i)
            if cur is not None and cur[2] == r:
                cur[1] = d
            else:
                cur = [d, d, r]
                out.append(cur)
        return [[a, b] + [list(t) for t in r] for a, b, r in out]

    def irregular(self, lo, hi):
        have = set(self.days)
        return [x for x in range(lo, hi + 1)
                if (weekday(x) >= 5) == (x in have)]

    def outside(self, lo, hi):
        return [x for x in self.days if x < lo or x > hi]


def brief(d):
    """A definition to show to people."""
    if len(d['adhoc']) < 60:
        return d
    return dict(d, adhoc='%d days' % len(d['adhoc']))


def build(cls, lo, hi):
    """(calendar or None, error)"""
    try:
        with common.limit(200):
            return cls(start=ts(lo), end=ts(hi)), None
    except Exception as e:
        return None, e


def event(cal, err, start, end, x='', d=None, lo=None, hi=None, rec=None,
          probes=(), base=()):
    lo = start if lo is None else lo
    hi = end if hi is None else hi
    ev = dict(x=x, start=start, end=end, lo=lo, hi=hi, k='ok', odd='',
              irr=[], segs=[], base=list(base), late=[], early=[], first=-1,
              last=-1, probes=[list(p) for p in probes])
    ev['def'] = d or {}
    if cal is None and rec is None:
        ev['k'] = 'err'
        return ev
    if rec is None:
        rec = Recorded(cal)
    if rec.odd:
        ev['odd'] = rec.odd
        return ev
    if rec.outside(start, end):
        ev['odd'] = 'sessions outside the range: %s' % rec.outside(start, end)[:3]
        return ev
    ev['irr'] = rec.irregular(lo, hi)
    ev['segs'] = rec.segs(lo, hi)
    ev['late'] = [x for x in rec.late if lo <= x <= hi]
    ev['early'] = [x for x in rec.early if lo <= x <= hi]
    if lo == start and hi == end:
        ev['first'], ev['last'] = rec.first, rec.last
    return ev


# ---------------------------------------------------------------- zones

ZONES = ['UTC', 'America/New_York', 'America/Chicago', 'Europe/London',
         'Europe/Paris', 'Asia/Tokyo', 'Asia/Hong_Kong', 'Australia/Sydney',
         'Pacific/Auckland', 'America/Sao_Paulo', 'America/Santiago',
         'Asia/Kathmandu', 'America/St_Johns', 'Australia/Lord_Howe',
         'Africa/Casablanca', 'Asia/Tel_Aviv', 'Pacific/Chatham',
         'Pacific/Honolulu', 'Asia/Kolkata', 'Europe/Moscow',
         'Europe/Istanbul', 'America/Los_Angeles']


def local_ok(zone, day, secs):
    """The wall-clock time exists exactly once."""
    t = datetime.datetime.combine(
        date_of(day), datetime.time(0)) + datetime.timedelta(seconds=secs)
    try:
        pytz.timezone(zone).localize(t, is_dst=None)
        return True
    except pytz.exceptions.InvalidTimeError:
        return False


def zone_changes(zone, lo, hi):
    """Days in lo..hi on or next to which the zone's offset changes."""
    z = pytz.timezone(zone)
    out = []
    for t in getattr(z, '_utc_transition_times', []):
        if t.year < 1968:
            continue
        d = (t.date() - EPOCH).days
        if lo - 1 <= d <= hi + 1:
            out.append(d)
    return out
