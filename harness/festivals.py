"""C29: the library's tables of lunar festivals and equinoxes, as loaded and as they are
after calendars that read them have been built."""
import pandas as pd

import cals
import common

TABLES = ['chinese_lunar_new_year_dates', 'chinese_buddhas_birthday_dates',
          'dragon_boat_festival_dates', 'mid_autumn_festival_dates',
          'double_ninth_festival_dates', 'qingming_festival_dates',
          'VernalEquinoxes', 'AutumnalEquinoxes']


def read(when):
    from trading_calendars import lunisolar_holidays, xtks_holidays
    evs = []
    for n in TABLES:
        try:
            t = pd.DatetimeIndex(getattr(
                xtks_holidays if 'Equinox' in n else lunisolar_holidays, n))
        except AttributeError:
            continue
        except Exception as e:
            evs.append(dict(name=n, when=when, days=[],
                            odd='%s: %s' % (type(e).__name__, e)))
            continue
        evs.append(dict(name=n, when=when, odd='' if (
            t == t.normalize()).all() else 'a date with a time of day',
            days=[int(x) for x in t.normalize().asi8 // cals.DAY_NS]))
    return evs


def job(names):
    import trading_calendars
    evs = read('as loaded')
    for n in names:
        c = trading_calendars.get_calendar(n)
        evs += read('after building ' + n)
        type(c)(start=cals.ts(cals.daynum(2005, 1, 1)),
                end=cals.ts(cals.daynum(2012, 12, 31)))
        evs += read('after building %s again' % n)
    return evs


def check(res):
    evs = common.parallel(job, [[], ['XHKG'], ['XTAI', 'XTKS', 'XKLS'],
                                ['XIDX', 'XPHS', 'XSHG'],
                                ['XKLS', 'XHKG', 'XSES']], fresh=True)
    evs = [e for o in evs for e in o]
    v, r = common.tlc_env_traces('LunarTrace', [evs])[0]
    res.add_tlc(r)
    if v['n'] != len(evs):
        raise common.MachineryError('trace not read to the end')
    for b in v['bad']:
        ev = evs[b['i'] - 1]
        res.violation('%s (%s) in %s: %s' % (
            ev['name'], ev['when'], b['y'], b['why']), dict(event=ev,
                                                            verdict=b))
    res.traces += len(evs)
    res.extra['tables_read'] = len(evs)
    res.extra['table_entries'] = sum(len(e['days']) for e in evs)
