From ec5e684161a65aace112ad72ef14833c1208d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:52 +0000
Subject: [PATCH 01/11] fix: allow minutes_in_range to end after the last
 calendar minute

Such a range raised IndexError although the arguments need not be calendar
minutes.
---
 trading_calendars/trading_calendar.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 40242a7..2f1c1a2 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -790,12 +790,10 @@ class TradingCalendar(with_metaclass(ABCMeta)):
         start_idx = searchsorted(self._trading_minutes_nanos,
                                  start_minute.value)
 
+        # side='right' so that an end minute that is a market minute is included
         end_idx = searchsorted(self._trading_minutes_nanos,
-                               end_minute.value)
-
-        if end_minute.value == self._trading_minutes_nanos[end_idx]:
-            # if the end minute is a market minute, increase by 1
-            end_idx += 1
+                               end_minute.value,
+                               side='right')
 
         return self.all_minutes[start_idx:end_idx]
 
-- 
2.43.0


From 64871da8dac5942a7dbe5d022adc9ccb1da3e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:52 +0000
Subject: [PATCH 02/11] fix: stop a backward minutes_window at the first
 calendar minute

A negative count reaching past the first minute produced a negative slice
bound and an empty or wrong window. A start after the last minute raised
IndexError instead of the intended KeyError.
---
 trading_calendars/trading_calendar.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 2f1c1a2..e76d022 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -663,15 +663,19 @@ class TradingCalendar(with_metaclass(ABCMeta)):
         all_minutes_nanos = self._trading_minutes_nanos
         start_idx = all_minutes_nanos.searchsorted(start_dt_nanos)
 
+        if start_idx >= len(all_minutes_nanos):
+            raise KeyError("Can't start minute window at {}".format(start_dt))
+
         # searchsorted finds the index of the minute **on or after** start_dt.
         # If the latter, push back to the prior minute.
         if all_minutes_nanos[start_idx] != start_dt_nanos:
             start_idx -= 1
 
-        if start_idx < 0 or start_idx >= len(all_minutes_nanos):
+        if start_idx < 0:
             raise KeyError("Can't start minute window at {}".format(start_dt))
 
-        end_idx = start_idx + count
+        # A window reaching past the first minute stops there.
+        end_idx = max(start_idx + count, -1)
 
         if start_idx > end_idx:
             return self.all_minutes[(end_idx + 1):(start_idx + 1)]
-- 
2.43.0


From 2d7904b7a9e0a4b1caf48a63b924386e79d01bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:52 +0000
Subject: [PATCH 03/11] fix: read the minute to session cache atomically

The cached pair was read twice. A concurrent lookup on the same calendar could
replace it in between, so that the label of another minute was returned.
---
 trading_calendars/trading_calendar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index e76d022..980c541 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -974,8 +974,10 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             dt = dt.value
 
         if direction == "next":
-            if self._minute_to_session_label_cache[0] == dt:
-                return self._minute_to_session_label_cache[1]
+            # Read the cache once: another thread may replace it meanwhile.
+            cached_dt, cached_session = self._minute_to_session_label_cache
+            if cached_dt == dt:
+                return cached_session
 
         idx = searchsorted(self.market_closes_nanos, dt)
         current_or_next_session = self.schedule.index[idx]
-- 
2.43.0


From edada04985d854b0103df25f57e070a225ee7d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:08 +0000
Subject: [PATCH 04/11] fix: resolve minutes outside the calendar's first and
 last session

Looking up the previous session of a minute before the first open wrapped
around and returned the last session of the calendar. After the last close the
lookup raised IndexError although a previous session exists.
---
 trading_calendars/trading_calendar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 980c541..6dea33b 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -980,15 +980,18 @@ class TradingCalendar(with_metaclass(ABCMeta)):
                 return cached_session
 
         idx = searchsorted(self.market_closes_nanos, dt)
-        current_or_next_session = self.schedule.index[idx]
 
         if direction == "next":
+            current_or_next_session = self.schedule.index[idx]
             self._minute_to_session_label_cache = (
                 dt, current_or_next_session
             )
             return current_or_next_session
         elif direction == "previous":
             if not self.is_open_on_minute(dt, ignore_breaks=True):
+                if idx == 0:
+                    raise ValueError("There is no previous session as this is"
+                                     " before the first session.")
                 return self.schedule.index[idx - 1]
         elif direction == "none":
             if not self.is_open_on_minute(dt):
@@ -999,7 +1002,7 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             raise ValueError("Invalid direction parameter: "
                              "{0}".format(direction))
 
-        return current_or_next_session
+        return self.schedule.index[idx]
 
     def minute_index_to_session_labels(self, index):
         """
-- 
2.43.0


From a637c13ab84efd6acbd49cc32ae7991bf1ee4a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:08 +0000
Subject: [PATCH 05/11] fix: keep the existing registration when a forced alias
 is rejected

register_calendar_alias(force=True) removed the old registration of the name
before checking for cycles, so a rejected alias lost it.
---
 trading_calendars/calendar_utils.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/trading_calendars/calendar_utils.py b/trading_calendars/calendar_utils.py
index 79988e1..e9dec35 100644
--- a/trading_calendars/calendar_utils.py
+++ b/trading_calendars/calendar_utils.py
@@ -309,22 +309,24 @@ class TradingCalendarDispatcher(object):
             If False, name collisions will raise an exception.
             Default is False.
         """
-        if force:
-            self.deregister_calendar(alias)
-
-        if self.has_calendar(alias):
+        if not force and self.has_calendar(alias):
             raise CalendarNameCollision(calendar_name=alias)
 
-        self._aliases[alias] = real_name
-
         # Ensure that the new alias doesn't create a cycle, and back it out if
         # we did.
+        previous_aliases = dict(self._aliases)
+        self._aliases[alias] = real_name
         try:
             self.resolve_alias(alias)
         except CyclicCalendarAlias:
-            del self._aliases[alias]
+            self._aliases = previous_aliases
             raise
 
+        if force:
+            # Drop whatever else was registered under this name.
+            self.deregister_calendar(alias)
+            self._aliases[alias] = real_name
+
     def resolve_alias(self, name):
         """
         Resolve a calendar alias for retrieval.
-- 
2.43.0


From 120744d581f5963b57e52a459a36e95584b9e619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:08 +0000
Subject: [PATCH 06/11] fix: drop unsupported date_range argument from etc/tcal

The script failed with a TypeError on every call.
---
 etc/tcal | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/etc/tcal b/etc/tcal
index 7e576de..ed6d383 100755
--- a/etc/tcal
+++ b/etc/tcal
@@ -43,7 +43,7 @@ def _render_month(calendar, year, month, print_year):
     else:
         end = '{year}-{month}'.format(year=year, month=month + 1)
 
-    days = pd.date_range(start, end, closed='left', utc=True)
+    days = pd.date_range(start, end, closed='left')
 
     title = months[month - 1]
     if print_year:
-- 
2.43.0


From fcf0b84a9cae7465f47611b548fd8e80cc1a9f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:29:32 +0000
Subject: [PATCH 07/11] fix: select special opens and closes by session at the
 start of the range

The lower bound compared the UTC instant of the special time with the
start of the range.  West of UTC that kept a special close listed for the
day before the range, so the calendar could not be built.  East of UTC it
dropped a special open or close on the first day.  Compare the session
label instead.
---
 trading_calendars/trading_calendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 6dea33b..bd0a407 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -1117,7 +1117,9 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             return pd.Series([], dtype="datetime64[ns, UTC]")
 
         result = pd.concat(merged).sort_index()
-        return result.loc[(result >= start_date) & (result <= end_date)]
+        return result.loc[
+            (result.index >= start_date) & (result <= end_date)
+        ]
 
     def _calculate_special_opens(self, start, end):
         return self._special_dates(
-- 
2.43.0


From 659bc6f80417172161858352e3793bbd7f43a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:26 +0000
Subject: [PATCH 08/11] fix: refuse time regimes that leave sessions without a
 time

A calendar whose only time regime applies to exactly one session of the
range used to get that session's time for every session.
---
 trading_calendars/trading_calendar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index bd0a407..e84e862 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -80,7 +80,12 @@ def _group_times(all_days, times, tz, offset=0):
             toolz.concatv(times, [(None, None)])
         )
     ]
-    return elements[0].append(elements[1:])
+    result = elements[0].append(elements[1:])
+    if len(result) != len(all_days):
+        raise ValueError(
+            "The times %s do not cover every session." % (times,)
+        )
+    return result
 
 
 class TradingCalendar(with_metaclass(ABCMeta)):
-- 
2.43.0


From 1544185ba48dcd1d3a3a84131afc7736ae43767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:26 +0000
Subject: [PATCH 09/11] fix: correct the Chinese festivals of 2034

The leap month of 2033/34 follows the eleventh month of 2033. The tables
placed Buddha's Birthday, the Dragon Boat, Mid-Autumn and Double Ninth
festivals of 2034 a month early.
---
 trading_calendars/lunisolar_holidays.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trading_calendars/lunisolar_holidays.py b/trading_calendars/lunisolar_holidays.py
index f962dd1..1f800c0 100644
--- a/trading_calendars/lunisolar_holidays.py
+++ b/trading_calendars/lunisolar_holidays.py
@@ -297,7 +297,7 @@ chinese_buddhas_birthday_dates = pd.to_datetime(
         "2031-05-28",
         "2032-05-16",
         "2033-05-06",
-        "2034-04-26",
+        "2034-05-25",
         "2035-05-15",
         "2036-05-03",
         "2037-05-22",
@@ -398,7 +398,7 @@ dragon_boat_festival_dates = pd.to_datetime(
         "2031-06-24",
         "2032-06-12",
         "2033-06-01",
-        "2034-05-22",
+        "2034-06-20",
         "2035-06-10",
         "2036-05-30",
         "2037-06-18",
@@ -500,7 +500,7 @@ mid_autumn_festival_dates = pd.to_datetime(
         "2031-10-01",
         "2032-09-19",
         "2033-09-08",
-        "2034-08-28",
+        "2034-09-27",
         "2035-09-16",
         "2036-10-04",
         "2037-09-24",
@@ -601,7 +601,7 @@ double_ninth_festival_dates = pd.to_datetime(
         "2031-10-24",
         "2032-10-12",
         "2033-10-01",
-        "2034-09-21",
+        "2034-10-20",
         "2035-10-09",
         "2036-10-27",
         "2037-10-17",
-- 
2.43.0


From aeff3a49b7b70beb585e85440e652ed84960e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:26 +0000
Subject: [PATCH 10/11] fix: correct the Dragon Boat Festival of 1987

The fifth day of the fifth lunar month of 1987 was 31 May.
---
 trading_calendars/lunisolar_holidays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading_calendars/lunisolar_holidays.py b/trading_calendars/lunisolar_holidays.py
index 1f800c0..f3a921b 100644
--- a/trading_calendars/lunisolar_holidays.py
+++ b/trading_calendars/lunisolar_holidays.py
@@ -351,7 +351,7 @@ dragon_boat_festival_dates = pd.to_datetime(
         "1984-06-04",
         "1985-06-22",
         "1986-06-11",
-        "1987-06-01",
+        "1987-05-31",
         "1988-06-18",
         "1989-06-08",
         "1990-05-28",
-- 
2.43.0


From cc86e78f84b54f1bfb3d49add0c1181b56b09aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:26 +0000
Subject: [PATCH 11/11] fix: move Israel's Memorial Day from Sunday to Monday
 since 2004

The day was never moved because the condition tested for a Saturday, on
which 4 Iyar cannot fall. Memorial and Independence Day were a day early
in 2004, 2007, 2010, 2011, 2013, 2014, 2017, 2024 and later such years.
---
 trading_calendars/tase_holidays.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/tase_holidays.py b/trading_calendars/tase_holidays.py
index a591b65..9360b85 100644
--- a/trading_calendars/tase_holidays.py
+++ b/trading_calendars/tase_holidays.py
@@ -147,8 +147,9 @@ def memorial_day(year):
         # Falls on a Friday, so Independence Day falls on the Saturday.
         # Moved down by two days.
         return d - 2
-    elif d.weekday() == 7:
-        # Falls on a Saturday, therefore moved up by one day.
+    elif d.weekday() == 1 and year >= 2004:
+        # Falls on a Sunday, so its eve is on the Saturday.
+        # Since 2004, moved up by one day.
         return d + 1
     else:
         return d
-- 
2.43.0

