#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here, as data)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, state, mech, observe, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
TC = "trading_calendars/trading_calendar.py"
CU = "trading_calendars/calendar_utils.py"
CH = "trading_calendars/calendar_helpers.py"
PU = "trading_calendars/utils/pandas_utils.py"
SCHED = ("schedule", "one row per session: label, open, break start, break end, close (UTC)", TC + " TradingCalendar.__init__")

add("C01", "Sessions are exactly the open days of the calendar's definition",
    "For any calendar definition (trading week, recurring holidays, one-off closures) and any date range, the calendar's sessions are, in order and without repetition, exactly the dates of the range that fall in the trading week and are neither a recurring nor a one-off holiday. Each session is labelled by its date at midnight UTC, and membership tests, the first/last session and the business-day offset all describe that same set of days.",
    ["inputs", "configurations"], "every calendar definition x every date range (start/end on or off a session, one-day ranges, leap days, year ends)",
    "The tests check a fixed list of exchanges against tables over one fixed range each; they never vary the definition or put the range boundary on a holiday or weekend.",
    [TC], [SCHED, ("day", "business-day offset built from week mask and holidays", TC + " TradingCalendar.day")],
    [("date_range over the custom business day", TC + " TradingCalendar.__init__"), ("HolidayCalendar", TC)],
    ["all_sessions", "is_session", "first_session", "last_session", "session + calendar.day"])
add("C02", "Session times follow the exchange's local clock",
    "For every session the open, close and midday-break instants are the local wall-clock times of the time regime in force on that session's date, moved by the calendar's open/close day offsets and converted to UTC with the time zone's offset at that instant. This holds on both sides of every daylight-saving change and on the first day of every new regime.",
    ["inputs", "configurations"], "every calendar definition (any number of time regimes, offsets, zones, breaks) x every session date",
    "Existing tests check a handful of daylight-saving dates for shipped exchanges; several regimes, offsets and breaks are never combined.",
    [TC, PU], [SCHED], [("regime selection", TC + " selection/_group_times"), ("local time to UTC", PU + " days_at_time")],
    ["schedule", "opens", "closes", "session_open", "session_close", "session_break_start", "session_break_end"])
add("C03", "Special opens and closes change exactly their own sessions",
    "A late open or early close listed for a session inside the range replaces that session's open or close and nothing else, wherever in the range the session lies, including its first and last day. A session with a special close has no midday break, every other session keeps its regular times and break, and the late-open and early-close listings name exactly the affected sessions. A special time listed for an in-range day that is not a session is rejected when the calendar is built.",
    ["inputs", "configurations"], "every set of recurring and one-off special opens/closes x every date range x every zone",
    "Tests check a few known half-days in the middle of a long range; none lets the range start or end on a special day, or mixes late opens, early closes and breaks.",
    [TC], [SCHED, ("early_closes / late_opens", "labels of sessions with a special close/open", TC)],
    [("special-date collection", TC + " _special_dates/scheduled_special_times"), ("overwrite in place", TC + " _overwrite_special_dates"), ("break removal", TC + " _remove_breaks_for_special_dates")],
    ["schedule", "early_closes", "late_opens", "minutes_for_session"])
add("C04", "A day's schedule does not depend on the range or on other instances",
    "Two calendars of the same kind built over different ranges give identical sessions, times, breaks and special-session listings on every date both cover. The result does not depend on which other calendars were built before or how often.",
    ["inputs", "histories"], "every pair of overlapping ranges x every construction order of shipped and user-defined calendars",
    "Tests build each calendar once over one range and never compare two instances or construction orders.",
    [TC, "trading_calendars/exchange_calendar_xhkg.py", "trading_calendars/common_holidays.py", "trading_calendars/lunisolar_holidays.py"],
    [SCHED, ("module-level holiday tables", "shared date lists that instances read", "trading_calendars/*_holidays.py")],
    [("construction from a range", TC + " TradingCalendar.__init__")], ["schedule", "early_closes", "late_opens"])
add("C05", "The market is open exactly between open and close, outside breaks",
    "For every instant, at nanosecond granularity and in any time zone or integer form, the calendar reports open exactly when some session's open is not after it and that session's close not before it, and it does not lie in that session's break (break start included, break end excluded). When breaks are to be ignored, only open and close matter. Instants before the first open or after the last close are closed.",
    ["inputs"], "every schedule x every instant, including the exact boundaries, one nanosecond either side, and instants outside the calendar's range",
    "Tests probe whole minutes around a few opens and closes; breaks, sub-minute instants and range ends are untested for most calendars.",
    [TC], [SCHED], [("open test", TC + " is_open_on_minute")], ["is_open_on_minute"])
add("C06", "All minute queries describe one set of trading minutes",
    "There is a single ordered, duplicate-free set of trading minutes: for each session, every minute from open to close except those in the break. The full list, the minutes of one session, of a range of sessions, of an arbitrary instant range (including ranges starting or ending outside the calendar), windows counted forwards or backwards from an instant, and minute counts all agree with that set.",
    ["inputs"], "every schedule (with and without breaks, zero gaps between sessions) x every session, range, instant and window size including zero, negative and overrunning ones",
    "Tests compare a few ranges in the middle of long calendars; counting and windowing queries are not tested at all.",
    [TC, CH], [SCHED, ("trading minutes", "flat array of all trading minutes", TC + " all_minutes"), ("minutes per session", "memoised count per session", TC + " _minutes_per_session")],
    [("minute enumeration", CH + " compute_all_minutes"), ("range slice", TC + " minutes_in_range"), ("window", TC + " minutes_window")],
    ["all_minutes", "minutes_for_session", "minutes_in_range", "minutes_for_sessions_in_range", "minutes_count_for_sessions_in_range", "minutes_window"])
add("C07", "Next/previous open, close and minute are the nearest strict neighbours",
    "For every instant, the next (previous) open, close or trading minute is the earliest one strictly after (latest one strictly before) that instant. If none exists in the calendar an error is raised; a wrong or wrapped-around answer is never returned.",
    ["inputs"], "every schedule x every instant: on a boundary, one nanosecond either side, in breaks, gaps and outside the range",
    "Tests step from listed opens/closes only; they do not probe sub-minute offsets, breaks or the first/last elements.",
    [TC, CH], [SCHED], [("divider search", CH + " next_divider_idx/previous_divider_idx"), ("neighbour queries", TC + " next_open..previous_minute")],
    ["next_open", "next_close", "previous_open", "previous_close", "next_minute", "previous_minute"])
add("C08", "Every instant maps to the right session",
    "An instant inside a session maps to that session; otherwise 'next' gives the first session closing after it, 'previous' the last session closing before it, and 'none' an error, with an error too when no such session exists. The bulk mapping gives, element by element, the same session for every ordered list of in-session instants and rejects a list that is unordered or contains an out-of-session instant.",
    ["inputs", "histories"], "every schedule x every instant x every direction, in any order of calls; every ordered or unordered list of instants",
    "Tests check direction handling around one or two sessions in the middle of the range and the bulk mapping on well-formed lists.",
    [TC], [SCHED, ("label cache", "last (instant, label) answered in 'next' mode", TC + " _minute_to_session_label_cache")],
    [("single lookup", TC + " minute_to_session_label"), ("bulk lookup", TC + " minute_index_to_session_labels")],
    ["minute_to_session_label", "minute_index_to_session_labels"])
add("C09", "Session navigation and counting agree with the session list",
    "Next/previous session, sessions in a range, windows of sessions, session distance, and per-session and ranged open/close lookups all agree with the ordered session list, for session and non-session labels and ranges reaching outside the calendar. Asking for the neighbour beyond either end, or for details of a date that is not a session, raises an error.",
    ["inputs"], "every session list x every pair of labels (sessions or not, ordered or reversed) x every window size",
    "Tests use a few consecutive mid-range sessions; reversed ranges, ends of the calendar and non-session arguments are mostly untested.",
    [TC], [SCHED], [("navigation", TC + " next_session_label..session_closes_in_range")],
    ["next_session_label", "previous_session_label", "sessions_in_range", "sessions_window", "session_distance", "open_and_close_for_session", "session_opens_in_range", "session_closes_in_range"])
add("C10", "Queries are pure: answers never depend on earlier or concurrent queries",
    "Whatever sequence of queries was made before, successful or failing, and whatever other thread queries the same calendar at the same time, a query returns the same answer as on a freshly built calendar. Queries leave the schedule, the session list and the minute list unchanged.",
    ["histories", "schedules"], "every sequence of queries on one object, and every preemption of one query by others on the same object",
    "Unit tests make each query once on a fresh fixture and never interleave callers.",
    [TC], [SCHED, ("label cache", "last (instant, label) answered in 'next' mode", TC + " _minute_to_session_label_cache")],
    [("cache read/write", TC + " minute_to_session_label")], ["all query methods", "schedule"])
add("C11", "The registry resolves every name to what was registered",
    "After any history of registering calendars, calendar types and aliases, deregistering and clearing, looking a name up follows aliases to the end of the chain and yields the calendar registered or built there. Unknown or dangling names raise the invalid-name error, the listed names are exactly the registered ones including aliases, and re-registering a taken name is refused unless forced, in which case the new registration replaces every old meaning of the name.",
    ["histories"], "every sequence of registry operations over any names, including forced replacement of calendars, types and aliases by one another",
    "Tests exercise single operations on one prepared registry; interactions between the three kinds of registration appear only in longer histories.",
    [CU], [("calendars", "name -> built instance", CU), ("factories", "name -> calendar type", CU), ("aliases", "name -> name", CU)],
    [("dispatcher", CU + " TradingCalendarDispatcher")], ["get_calendar", "resolve_alias", "get_calendar_names", "has_calendar"])
add("C12", "A refused registry operation changes nothing; alias cycles cannot arise",
    "When any registry operation fails (name collision, alias cycle, unknown name, failing calendar constructor) the registry behaves afterwards exactly as if it had not been attempted, forced or not. No sequence of registrations can create a cyclic alias chain, and a cycle supplied at construction is reported as an error rather than looping.",
    ["histories", "fault_sequences"], "every history of registry operations, every failure point including constructors that raise",
    "Tests check that the error is raised, not the state it leaves behind.",
    [CU], [("aliases", "name -> name", CU)], [("alias registration", CU + " register_calendar_alias"), ("resolution", CU + " resolve_alias")],
    ["register_calendar", "register_calendar_type", "register_calendar_alias", "resolve_alias"])
add("C13", "A calendar type is built at most once and shared by all its names",
    "Nothing is built before it is first asked for. From then on the same instance is returned through the name and all of its aliases until the name is deregistered, cleared or replaced; a construction that fails is retried on the next request.",
    ["histories", "fault_sequences"], "every history of lookups through names and aliases, interleaved with registration, deregistration and failing constructors",
    "Tests look a calendar up twice; identity through alias chains after re-registration is a property of histories.",
    [CU], [("calendars", "name -> built instance", CU)], [("lazy build", CU + " get_calendar")], ["get_calendar"])
add("C14", "Every advertised calendar name works and means one exchange",
    "Every default name and alias resolves, all aliases of an exchange give the very same calendar, distinct exchanges give distinct calendars of the documented exchange and time zone, and the module-level functions all act on one shared default registry.",
    ["configurations"], "every default name and alias, through the package-level functions, after any other use of the shared registry",
    "Tests construct each calendar class directly or iterate the names once; which exchange a name denotes is not pinned.",
    [CU, "trading_calendars/__init__.py"], [("default tables", "shipped factories and aliases", CU)], [("module-level wrappers", CU)], ["get_calendar", "get_calendar_names", "calendar.name", "calendar.tz"])
add("C15", "Shipped exchanges are closed on exactly their holidays, in every year",
    "For each shipped exchange and every date its rules cover, the exchange has a session unless the date is outside its trading week, is a holiday by its documented rules (fixed dates, nth weekdays, Easter-based, Hebrew-calendar, weekend substitution, with their start and end years), or is a listed one-off closure.",
    ["inputs", "configurations"], "every shipped exchange x every date from 1970 to the end of its data or 2100, whichever is first",
    "Answer keys cover each exchange up to about 2020 only; rules for later years, leap patterns and rarely hit weekday alignments are never evaluated.",
    ["trading_calendars/exchange_calendar_*.py", "trading_calendars/common_holidays.py", "trading_calendars/us_holidays.py", "trading_calendars/tase_holidays.py", "trading_calendars/xtks_holidays.py", "trading_calendars/lunisolar_holidays.py"],
    [("rule tables", "recurring and one-off holidays per exchange", "trading_calendars/exchange_calendar_*.py")], [("regular_holidays/adhoc_holidays", "trading_calendars/exchange_calendar_*.py")],
    ["all_sessions", "is_session"])
add("C16", "Shipped exchanges keep their documented hours, half-days and breaks",
    "For each shipped exchange and every session, the open, close and lunch break are the documented local times in force on that date, and a shortened session occurs on exactly the dates its half-day rules or one-off listings give, at the documented early time.",
    ["inputs", "configurations"], "every shipped exchange x every session from 1970 to the end of its data or 2100, whichever is first",
    "Answer keys end around 2020 and do not record breaks; half-day rules in other years and time-zone changes are never evaluated.",
    ["trading_calendars/exchange_calendar_*.py", "trading_calendars/us_futures_calendar.py", "trading_calendars/weekday_calendar.py", "trading_calendars/always_open.py", TC],
    [SCHED], [("open_times/close_times/break_*_times/special_closes", "trading_calendars/exchange_calendar_*.py")], ["schedule", "early_closes", "late_opens"])
add("C17", "A calendar refuses ranges its holiday data does not cover",
    "Calendars that declare the years their holiday tables cover (precomputed calendars and Hong Kong) can be built for any range whose sessions all lie in the covered years, and building one that has a session in an earlier or later year raises an error naming the limit instead of silently giving wrong sessions. A precomputed calendar built without a start or end covers exactly its tables' years.",
    ["inputs", "configurations"], "every table-driven calendar, shipped or user-defined, x every start/end around the limits, including ranges starting or ending on holidays at a year boundary",
    "Tests check at most one out-of-range year per calendar.",
    ["trading_calendars/precomputed_trading_calendar.py", "trading_calendars/exchange_calendar_xhkg.py"], [("precomputed holidays", "table of dates, its first and last year", "trading_calendars/precomputed_trading_calendar.py")],
    [("bounds check", "trading_calendars/precomputed_trading_calendar.py __init__")], ["construction of XKRX, XBOM, XSES, XSHG, XHKG and subclasses"])
add("C18", "Every shipped schedule is ordered and non-overlapping",
    "In every shipped calendar over every range, each session opens before it closes and closes before the next session opens, a break lies strictly inside its session, and a session is labelled with the exchange-local date on which it closes. Hence every trading minute belongs to exactly one session.",
    ["inputs", "configurations"], "every shipped calendar x every range",
    "Answer keys sample finished schedules over one range; the ordering follows from rules and zone data that vary with the year.",
    ["trading_calendars/exchange_calendar_*.py", TC], [SCHED], [("construction", TC + " TradingCalendar.__init__")], ["schedule"])
add("C19", "Execution minutes are the trading minutes in the execution window",
    "For every session, execution minutes are exactly the trading minutes between the execution start and end derived from that session's open and close: the whole session for ordinary calendars, and from 6:31am to 5:00pm local on a regular session for the US futures calendar. Over a range of sessions they are the concatenation, in order, of those of each session.",
    ["inputs"], "every session and session range of the US futures calendar and of ordinary calendars, across daylight-saving changes",
    "No test calls the execution-minute queries.",
    ["trading_calendars/us_futures_calendar.py", TC], [SCHED], [("execution times", "trading_calendars/us_futures_calendar.py"), ("execution minutes", TC + " execution_minutes_for_session")],
    ["execution_minutes_for_session", "execution_minutes_for_sessions_in_range", "execution_time_from_open", "execution_time_from_close"])
add("C20", "Memoised attributes are computed once per object and never leak",
    "A memoised attribute runs its computation on first access of each object and returns that same result ever after; objects never see one another's values, subclasses and several memoised attributes on one object stay independent, assignment is refused, a computation that raises is retried at the next access, and a collected object's value is never handed to a later object. Memoising does not keep an object alive.",
    ["histories", "fault_sequences"], "every interleaving of accesses to several attributes of several objects, with raising computations and objects being garbage-collected",
    "Tests access one attribute of one object.",
    ["trading_calendars/utils/memoize.py"], [("cache", "instance -> value, weakly keyed", "trading_calendars/utils/memoize.py lazyval")], [("lazyval.__get__/__set__", "trading_calendars/utils/memoize.py")], ["attribute access"])
add("C21", "The command-line calendar shows exactly the closed days",
    "The command-line tool prints, for the requested exchange and month or year, a month grid in which every day of the month appears once under its weekday and is marked exactly when the exchange has no session that day. Without arguments it shows the current month; months, weekday alignment and leap days are correct for every month.",
    ["inputs", "configurations"], "every exchange x every year and month x argument form",
    "The tool has no tests.",
    ["trading_calendars/tcal.py", "etc/tcal"], [("rendered grid", "text output", "trading_calendars/tcal.py")], [("rendering", "trading_calendars/tcal.py")], ["standard output of the tool"])
add("C22", "Reusable holidays fall on their documented dates, however parametrised",
    "Each reusable holiday of the library (New Year's Day and Eve, Epiphany, Holy Wednesday, Maundy Thursday, Ascension, Whit Monday, Corpus Christi, Anzac Day, European Labour Day, Saints Peter and Paul, Assumption, All Saints, Immaculate Conception, Midsummer Eve, Christmas Eve, Christmas, Boxing Day and the weekend substitutes of the last two) closes a calendar, or shortens its session, on exactly its documented date in every year, for every choice of first and last date, observance and weekdays, and on no other day; the dates listed for it over any range, also before 1970 and whatever ranges were asked for before, are the same. Moving one-off days from Sundays moves exactly the Sundays, to the Monday after.",
    ["inputs", "configurations"], "every reusable holiday x every combination of its parameters x every year",
    "Tests see the holidays only with the parameters the shipped exchanges happen to use, in the years of their answer keys.",
    ["trading_calendars/common_holidays.py", "trading_calendars/utils/pandas_utils.py"], [("holiday rules", "month, day, offset, observance, weekdays, first and last date", "trading_calendars/common_holidays.py")],
    [("factories", "trading_calendars/common_holidays.py"), ("vectorized_sunday_to_monday", "trading_calendars/utils/pandas_utils.py")], ["all_sessions and early_closes of a calendar that uses the holiday"])
add("C23", "Ends of the range that are left out have their documented values",
    "A calendar built without a start begins with the first session on or after 1990-01-01 (2000-01-01 for Tokyo and the US futures calendar), and one built without an end reaches the last session on or before the day 365 days after the library was loaded; giving one end leaves the other at that value, and an end given with a time of day (to the microsecond) includes that day. A calendar obtained by name has the same range as one built without arguments. None of this depends on the time zone of the process.",
    ["inputs", "configurations"], "every shipped calendar without tables of its own and every definition x which ends are given x process time zone (table-driven calendars: see C17)",
    "Tests always give both ends or only look at sessions well inside the default range.",
    [TC, "trading_calendars/exchange_calendar_xtks.py", "trading_calendars/us_futures_calendar.py"], [("default range", "start_default, end_default", TC)], [("construction", TC + " TradingCalendar.__init__")], ["all_sessions", "first_session", "last_session", "get_calendar"])
add("C24", "A calendar that cannot be described is refused when it is built",
    "Building a calendar raises an error if its range contains no session, if some session lies before the first of its open, close or break time regimes, or if a session would have a break start without a break end or the reverse. No such calendar is ever returned with invented, repeated or missing times; a definition without such a gap can be built (as far as its special times allow, see C03).",
    ["inputs", "configurations"], "every definition x range, including ranges with one session and regimes that begin inside, at either end of or after the range",
    "Tests only build complete definitions.",
    [TC], [SCHED], [("time regimes", TC + " _group_times"), ("break check", TC + " _check_breaks_match")], ["construction", "schedule"])
add("C25", "Copies of a calendar answer like the original and independently of it",
    "A calendar copied shallowly or deeply, or pickled and read back in the same or another process, at whatever point of its use, gives the same answer to every query as a freshly built calendar of the same kind and range, before and after the original or other copies are queried or discarded. Several calendars of the same kind over different ranges that exist at the same time, or one after the other, never answer for one another.",
    ["histories"], "every history of building, copying, pickling, querying and discarding calendars",
    "No test copies or pickles a calendar, and tests keep one calendar per class alive.",
    [TC, "trading_calendars/utils/memoize.py"], [("calendar object", "schedule, minute lists, lookup cache, memoised attributes", TC)], [("instance state", TC + " TradingCalendar.__init__"), ("memoised attributes", "trading_calendars/utils/memoize.py")], ["copy, deepcopy, pickle", "all queries"])
add("C26", "Every moment a query returns is in UTC, whatever the arguments",
    "Every session label, open, close, break boundary and minute that a query returns, singly, in pairs, as an index or as a series, is a pandas value in UTC, also when the answer is empty, when the arguments are in another time zone or plain integers, and when the same query was made before in another form. A missing break is NaT, membership and open/closed answers are booleans, counts and distances are integers. (The whole-calendar open and close columns may be without a zone, meaning UTC.)",
    ["inputs", "histories"], "every query x every form of argument x calendars with and without breaks x empty and whole-range answers",
    "Tests compare values, which pandas lets pass for most mismatches of kind, and hardly ever ask for empty ranges.",
    [TC], [SCHED], [("queries", TC)], ["return values of all queries"])
add("C27", "The holiday checker reports exactly where a key and a calendar differ",
    "For each calendar asked for (all default ones if none is named) the holiday checker (etc/check_holidays.py) looks up the key's rows for that calendar and, over the weekdays from the first to the last of these that lie within the calendar and not before the minimum date, lists exactly the days that the key calls holidays but are sessions, and exactly the closed days missing from the key. It says that the calendar matches if it lists nothing, and that there are no holidays if the key has none for the calendar. Row order, repeated rows, other calendars' rows, delimiter, date format and column names make no difference.",
    ["inputs", "configurations"], "every calendar x key x minimum date x combination of options (for weekend sessions: whether they are listed is left open)",
    "The script has no tests.",
    ["etc/check_holidays.py"], [("key", "rows of calendar and holiday", "etc/check_holidays.py check_holidays")], [("comparison", "etc/check_holidays.py _check_range")], ["printed reports"])
add("C28", "The answer-key writer writes the calendar's own sessions and times",
    "The script that writes answer keys (etc/make_trading_calendar_test_csv.py) writes, for a calendar named in any case, one file named after it with one line per session of the calendar, in order, giving the session's date, open and close; read back as UTC these are exactly the calendar's opens and closes, whatever its zone, session length or closes on the next day.",
    ["inputs", "configurations"], "every registered calendar",
    "The script has no tests; the files it wrote are what other tests rely on.",
    ["etc/make_trading_calendar_test_csv.py"], [SCHED], [("writing", "etc/make_trading_calendar_test_csv.py")], ["the file written"])
add("C29", "Lunar and Jewish holidays fall on the days their calendars give",
    "The library's tables of Chinese festivals (lunar new year, Buddha's birthday, Dragon Boat, Mid-Autumn, Double Ninth, Qingming) hold exactly one date for each year from 1960 to 2049, the day on which the festival falls in the Chinese calendar (months from the new moon, numbering and leap months by the sun), and the tables of Japanese equinox days one for each year from 2000 to 2021, the day of the equinox in Japan or, when that is a Sunday, the Monday after; this holds when they are loaded and after any calendars were built. The Jewish holidays (Purim, Passover, Memorial and Independence Day, Pentecost, Tisha B'Av, New Year, Yom Kippur, Sukkoth, Simchat Torah and their eves) close a calendar, or shorten its session, on exactly their Hebrew dates in every year, with Tisha B'Av moved off the Sabbath and Memorial and Independence Day moved as the law prescribes.",
    ["inputs", "configurations"], "every festival x every year (Chinese 1960-2049, Jewish 1970-2199) x every trading week",
    "Tests see the dates only for the years of answer keys (none after 2020 or so) and only where they fall on weekdays.",
    ["trading_calendars/lunisolar_holidays.py", "trading_calendars/tase_holidays.py", "trading_calendars/xtks_holidays.py"], [("tables", "one date per year", "trading_calendars/lunisolar_holidays.py")],
    [("Hebrew dates", "trading_calendars/tase_holidays.py"), ("tables shared by XHKG, XTAI, XKLS, XIDX, XPHS", "trading_calendars/lunisolar_holidays.py")], ["the tables", "all_sessions and early_closes of a calendar that uses the holidays"])
add("C30", "US holidays, half-days and closings fall on their documented days",
    "Each United States holiday and half-day rule of the library (trading_calendars/us_holidays.py) gives, in every year from 1864 to 2199 in which it is in force, exactly the day the New York exchanges observe under that rule: fixed dates with their weekend substitution, n-th or last weekdays, election days (every fourth year from 1968), the half-days around Independence Day, Thanksgiving and Christmas Eve; and none in other years. The rules for successive eras of one holiday neither overlap nor leave a year out (save Memorial Day 1970). The named lists of one-off closings hold exactly the days of the event. This holds for dates listed over any range, in any order of asking, and for calendars of any trading week that use the rules and lists as holidays or half-days.",
    ["inputs", "configurations"], "every rule and list x every year 1864-2199 x every range x trading week (calendars apply recurring holidays from 1970)",
    "Tests see the rules only through the shipped calendars, from 1990 to 2020 or so and on weekdays.",
    ["trading_calendars/us_holidays.py"], [("holiday rules", "month, day, offset, observance, weekdays, first and last date", "trading_calendars/us_holidays.py")],
    [("rules", "trading_calendars/us_holidays.py"), ("HolidayCalendar", TC + " HolidayCalendar")], ["HolidayCalendar.holidays", "all_sessions and early_closes of a calendar that uses the rules"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
