NOT_APPLICABLE = {}
TRUST = ' Trusts the driver that turns calls into events and the TLC model checker.'
claim(['C01', 'C02', 'C03'],
      'TLA+ specification of how a definition and a range determine the schedule; schedules recorded from calendars built from generated definitions are checked against it with TLC',
      'Definitions, ranges and zones are sampled; each recorded schedule is judged completely.' + TRUST)
claim(['C04'],
      'TLA+ trace specification that keeps what is known about each day of a definition and refuses a second, different account of it; traces of overlapping ranges and construction orders checked with TLC',
      'Definitions, ranges and orders are sampled, shipped and user-defined.' + TRUST)
claim(['C05', 'C06', 'C07', 'C08', 'C09', 'C19'],
      'TLA+ specification of every query over a schedule, its theorems checked with TLC on all small schedules; recorded query answers checked against it with TLC',
      'Theorems exhaustive for the stated bounds; recorded answers cover sampled schedules, with every boundary and one nanosecond either side.' + TRUST)
claim(['C10'],
      'TLA+ model of a calendar object with two threads sharing the lookup cache, checked with TLC; recorded answers after query histories and under preemption at every bytecode checked against it',
      'Every interleaving of two lookups in the model; preemption points of one query by others in the code are enumerated for chosen pairs.' + TRUST)
claim(['C11', 'C12', 'C13'],
      'TLA+ model of the registry checked with TLC; every model transition replayed into the code, recorded histories checked against the model',
      'Exhaustive for three names and two instances built, random histories of seven names beyond that.' + TRUST)
claim(['C14'],
      'TLA+ table of the default registry over the registry model; histories of the package-level functions checked against it with TLC',
      'Every default name and alias in every run; the surrounding histories are sampled.' + TRUST)
claim(['C15', 'C16', 'C18'],
      'TLA+ tables of rules and hours of every shipped exchange over the schedule specification; every session of every exchange checked against it with TLC',
      'Every shipped exchange and date from 1970 (or the start of its tables) to 2100 (or their end). The tables were transcribed from the pinned code, so they detect changes, not holidays that were already wrong; zone data comes from the environment.' + TRUST)
claim(['C17'],
      'TLA+ specification of the covered years; recorded constructions around the limits checked against it with TLC',
      'All shipped table-driven calendars and sampled user-defined ones around both limits.' + TRUST)
claim(['C20'],
      'TLA+ model of memoised attributes checked with TLC; every model transition replayed into the code, recorded histories checked against the model',
      'Exhaustive for two objects, four attributes and four computations; random histories of six objects beyond that.' + TRUST)
claim(['C21'],
      'TLA+ specification of the month grid checked with TLC for every month; recorded outputs of the tool checked against it',
      'Every year 1971-2100 on generated calendars, sampled months and argument forms.' + TRUST)
claim(['C22'],
      'TLA+ definitions of the reusable holidays over the schedule specification, with theorems checked by TLC for every year; schedules of calendars using them with generated parameters checked against it',
      'Theorems for every year 1860-2199; parameters and ranges are sampled.' + TRUST)
claim(['C23'],
      'TLA+ specification of the range of a calendar whose ends are left out; recorded constructions checked against it with TLC',
      'Every shipped calendar and sampled definitions, in processes in three time zones; only the day of the run serves as the load day.' + TRUST)
claim(['C24'],
      'TLA+ specification of which definitions leave a session undescribed; outcomes of generated constructions checked against it with TLC',
      'Definitions and ranges are sampled, drawn to regimes that begin at the ends of the range.' + TRUST)
claim(['C25'],
      'TLA+ model of calendars being built, copied, asked and discarded, checked with TLC together with broken variants; recorded histories of real calendars checked against it',
      'Model exhaustive for three places, two kinds and two ranges; histories are sampled.' + TRUST)
claim(['C26'],
      'TLA+ table of the kind of answer of every query; kinds of recorded answers checked against it with TLC',
      'Calendars and arguments are sampled; every query is asked with empty, whole-range and ordinary answers.' + TRUST)
claim(['C27'],
      'TLA+ specification of the comparison of a key with a calendar, with theorems checked by TLC for every small key and calendar; reports of the tool checked against it',
      'Theorems for all keys and calendars within eight days; keys, calendars and options of the real runs are sampled.' + TRUST)
claim(['C28'],
      'TLA+ trace specification of the written file against the recorded schedule, checked with TLC',
      'Calendars are sampled.' + TRUST)
claim(['C29'],
      'TLA+ computation of the Chinese and Hebrew calendars, checked with TLC for every year; the tables of the library and calendars using its Jewish holidays checked against it',
      'All table entries 1960-2049, before and after building calendars; calendars with Jewish holidays are sampled over 1970-2199. Mean motions of sun and moon after Meeus are trusted, with the margin to midnight checked.' + TRUST)
claim(['C30'],
      'TLA+ definitions of the United States holidays and closings, with theorems checked by TLC for every year 1860-2199; dates listed by the library and calendars using them checked against it',
      'All lists of closings; rules and ranges are sampled.' + TRUST)
