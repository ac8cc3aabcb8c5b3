From a3def3706e1bc31c250a30780340ae0b2b9f1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:34 +0000
Subject: [PATCH 01/59] fix: roll month and year periods along the actual
 calendar

TimeOfMonth and TimeOfYear rolled on a fixed 31 day month/366 day year axis: the
next/previous interval was off in short months and non-leap years (for example
TimeOfMonth().rollforward(Feb 1st) ended on Mar 4th).
---
 rocketry/time/interval.py | 72 +++++++++++++++++++++++++++++++++------
 1 file changed, 62 insertions(+), 10 deletions(-)

diff --git a/rocketry/time/interval.py b/rocketry/time/interval.py
index ab8bb66..7f8d25d 100644
--- a/rocketry/time/interval.py
+++ b/rocketry/time/interval.py
@@ -1,5 +1,6 @@
 import calendar
 import datetime
+import itertools
 import re
 from dataclasses import dataclass
 from typing import ClassVar, List
@@ -216,8 +217,53 @@ class TimeOfWeek(AnchoredInterval):
         return to_microseconds(**d) + dayofweek * to_microseconds(day=1)
 
 
+class _CalendarMixin:
+    """Mixin for the intervals whose cycle does not have fixed length
+
+    The start and the end are put on the actual calendar: if the month
+    is too short to have the point, the point is on the end of the month.
+    """
+
+    def _get_cycle(self, dt, n):
+        "Get the start of the cycle that is n cycles from the one dt is in"
+        raise NotImplementedError
+
+    def _put_on_calendar(self, cycle, ms):
+        "Get the datetime of the point on the cycle"
+        raise NotImplementedError
+
+    def _put_on_month(self, month, ms):
+        end = datetime.timedelta(days=calendar.monthrange(month.year, month.month)[1])
+        return month + min(datetime.timedelta(microseconds=int(ms)), end)
+
+    @property
+    def _cycle_end(self):
+        # The interval may also end to the turn of the cycle, ie. on 31st
+        return self._end or self._scope_max
+
+    def _iter_points(self, dt, ms, step):
+        is_within_cycle = self._start < self._cycle_end and not self.is_full()
+        for n in itertools.count(0, step):
+            cycle = self._get_cycle(dt, n)
+            if is_within_cycle and self._put_on_calendar(cycle, self._start) == self._put_on_calendar(cycle, self._cycle_end):
+                # There is no interval on this cycle, ie. 31st in February
+                continue
+            yield self._put_on_calendar(cycle, ms)
+
+    def next_start(self, dt):
+        return next(point for point in self._iter_points(dt, self._start, step=1) if point > dt)
+
+    def next_end(self, dt):
+        return next(point for point in self._iter_points(dt, self._cycle_end, step=1) if point > dt)
+
+    def prev_start(self, dt):
+        return next(point for point in self._iter_points(dt, self._start, step=-1) if point <= dt)
+
+    def prev_end(self, dt):
+        return next(point for point in self._iter_points(dt, self._cycle_end, step=-1) if point <= dt)
+
 @dataclass(frozen=True, init=False)
-class TimeOfMonth(AnchoredInterval):
+class TimeOfMonth(_CalendarMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: first day of month, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -286,18 +332,15 @@ class TimeOfMonth(AnchoredInterval):
 
         return to_microseconds(**d)
 
-    def get_scope_forward(self, dt):
-        n_days = calendar.monthrange(dt.year, dt.month)[1]
-        return to_microseconds(day=1) * n_days
+    def _get_cycle(self, dt, n):
+        year, month = divmod(dt.year * 12 + dt.month - 1 + n, 12)
+        return datetime.datetime(year, month + 1, 1, tzinfo=dt.tzinfo)
 
-    def get_scope_back(self, dt):
-        month = 12 if dt.month == 1 else dt.month - 1
-        year = dt.year - 1 if dt.month == 1 else dt.year
-        n_days = calendar.monthrange(year, month)[1]
-        return to_microseconds(day=1) * n_days
+    def _put_on_calendar(self, cycle, ms):
+        return self._put_on_month(cycle, ms)
 
 @dataclass(frozen=True, init=False)
-class TimeOfYear(AnchoredInterval):
+class TimeOfYear(_CalendarMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: 1st Jan, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -401,6 +444,15 @@ class TimeOfYear(AnchoredInterval):
             d["day"] = d["day"] - 1
         return self._month_start_mapping[nth_month] + to_microseconds(**d)
 
+    def _get_cycle(self, dt, n):
+        return datetime.datetime(dt.year + n, 1, 1, tzinfo=dt.tzinfo)
+
+    def _put_on_calendar(self, cycle, ms):
+        if ms >= self._scope_max:
+            return cycle.replace(year=cycle.year + 1)
+        nth_month = max(month for month, start in self._month_start_mapping.items() if start <= ms)
+        return self._put_on_month(cycle.replace(month=nth_month + 1), ms - self._month_start_mapping[nth_month])
+
 
 @dataclass(frozen=True, init=False)
 class RelativeDay(TimeInterval):
-- 
2.43.0


From b5756ce53ee295c82089ce14f637c48e2fe4bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:13 +0000
Subject: [PATCH 02/59] fix: compare open-ended periods in the session's time
 zone

With config.timezone set, the open ends (TimePeriod.min/max) and the static intervals
were compared naive: 'running', 'scheduler_running(more_than=...)' and 'always'
raised TypeError.
---
 rocketry/core/time/base.py  | 11 +++++++----
 rocketry/core/time/utils.py |  4 +++-
 rocketry/time/delta.py      | 10 +++++-----
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index de57461..1c302d7 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -509,18 +509,21 @@ class StaticInterval(TimePeriod):
         start = to_datetime(self.start, timezone=tz)
         if start > dt:
             # The actual interval is in the future
-            return Interval(self.min, self.min)
+            min_ = to_datetime(self.min, timezone=tz)
+            return Interval(min_, min_)
         end = to_datetime(self.end, timezone=tz)
         end = min(end, dt)
         return Interval(start, end)
 
     def rollforward(self, dt):
         dt = to_datetime(dt)
-        end = to_datetime(self.end)
+        tz = dt.tzinfo
+        end = to_datetime(self.end, timezone=tz)
         if end < dt:
             # The actual interval is already gone
-            return Interval(self.max, self.max)
-        start = max(self.start, dt)
+            max_ = to_datetime(self.max, timezone=tz)
+            return Interval(max_, max_)
+        start = max(to_datetime(self.start, timezone=tz), dt)
         return Interval(start, end)
 
     @property
diff --git a/rocketry/core/time/utils.py b/rocketry/core/time/utils.py
index b27e6c4..0b64c6e 100644
--- a/rocketry/core/time/utils.py
+++ b/rocketry/core/time/utils.py
@@ -3,6 +3,7 @@ import time
 import datetime
 from typing import Tuple
 
+from rocketry.pybox.time import to_datetime
 from .base import TimePeriod
 
 def get_period_span(period:'TimePeriod', session=None) -> Tuple[datetime.datetime, datetime.datetime]:
@@ -11,7 +12,8 @@ def get_period_span(period:'TimePeriod', session=None) -> Tuple[datetime.datetim
     from rocketry.parse import parse_time
 
     if period is None:
-        return TimePeriod.min, TimePeriod.max
+        tz = session.config.timezone if session is not None else None
+        return to_datetime(TimePeriod.min, timezone=tz), to_datetime(TimePeriod.max, timezone=tz)
     if isinstance(period, str):
         period = parse_time(period)
 
diff --git a/rocketry/time/delta.py b/rocketry/time/delta.py
index 12ce7b5..69749e4 100644
--- a/rocketry/time/delta.py
+++ b/rocketry/time/delta.py
@@ -4,7 +4,7 @@ from dataclasses import dataclass, field
 from typing import Callable, Union
 
 from rocketry.core.time import TimeDelta
-from rocketry.pybox.time import to_timedelta, Interval
+from rocketry.pybox.time import to_datetime, to_timedelta, Interval
 
 @dataclass(frozen=True, init=False)
 class TimeSpanDelta(TimeDelta):
@@ -27,23 +27,23 @@ class TimeSpanDelta(TimeDelta):
         "Check whether the dt is period"
         reference = self.get_reference()
         if reference >= dt:
-            start = reference - self.far if self.far is not None else self.min
+            start = reference - self.far if self.far is not None else to_datetime(self.min, timezone=dt.tzinfo)
             end = reference - self.near
         else:
             start = reference + self.near
-            end = reference + self.far if self.far is not None else self.max
+            end = reference + self.far if self.far is not None else to_datetime(self.max, timezone=dt.tzinfo)
         return start <= dt <= end
 
     def rollback(self, dt):
         "Get previous interval (including currently ongoing)"
-        start = dt - self.far if self.far is not None else self.min
+        start = dt - self.far if self.far is not None else to_datetime(self.min, timezone=dt.tzinfo)
         end = dt - self.near
         return Interval(start, end)
 
     def rollforward(self, dt):
         "Get next interval (including currently ongoing)"
         start = dt + self.near
-        end = dt + self.far if self.far is not None else self.max
+        end = dt + self.far if self.far is not None else to_datetime(self.max, timezone=dt.tzinfo)
         return Interval(start, end)
 
     def __eq__(self, other):
-- 
2.43.0


From 89d7b85af438cbfcbd888295088f3a658a249872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:07 +0000
Subject: [PATCH 03/59] fix: combine periods that are empty or mutually
 exclusive

---
 rocketry/core/time/base.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index 1c302d7..ba18fa9 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -294,6 +294,9 @@ class All(TimePeriod):
 
         object.__setattr__(self, "periods", frozenset(periods))
 
+    def __contains__(self, dt):
+        return all(dt in period for period in self.periods)
+
     def rollback(self, dt):
 
         # We solve this iteratively
@@ -306,6 +309,10 @@ class All(TimePeriod):
             period.rollback(dt)
             for period in self.periods
         ]
+        for interval in intervals:
+            if interval.is_empty:
+                # Never occurred, cannot overlap with anything
+                return interval
         all_overlaps = all(a.overlaps(b) for a, b in itertools.combinations(intervals, 2))
         if all_overlaps:
             return reduce(lambda a, b: a & b, intervals)
@@ -339,6 +346,10 @@ class All(TimePeriod):
             period.rollforward(dt)
             for period in self.periods
         ]
+        for interval in intervals:
+            if interval.is_empty:
+                # Won't occur anymore, cannot overlap with anything
+                return interval
         all_overlaps = all(a.overlaps(b) for a, b in itertools.combinations(intervals, 2))
         if all_overlaps:
             return reduce(lambda a, b: a & b, intervals)
@@ -399,6 +410,9 @@ class Any(TimePeriod):
 
         object.__setattr__(self, "periods", frozenset(periods))
 
+    def __contains__(self, dt):
+        return any(dt in period for period in self.periods)
+
     def rollback(self, dt):
         intervals = [
             period.rollback(dt)
@@ -432,7 +446,7 @@ class Any(TimePeriod):
         # 3. Repeat 2 until there is none
 
         # Sorting the closest first (right is oldest)
-        intervals = sorted(intervals, key=lambda x: x.right, reverse=True)
+        intervals = sorted(intervals, key=lambda x: (not x.is_empty, x.right), reverse=True)
 
         curr_interval = intervals.pop(0)
         end_interval = curr_interval
@@ -441,12 +455,11 @@ class Any(TimePeriod):
             extends = interv.left < curr_interval.left
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             curr_interval.left,
-            end_interval.right
+            end_interval.right,
+            closed=end_interval.closed
         )
 
     def rollforward(self, dt):
@@ -461,7 +474,7 @@ class Any(TimePeriod):
         # 3. Repeat 2 until there is none
 
         # Sorting the closest first (left is newest)
-        intervals = sorted(intervals, key=lambda x: x.left, reverse=False)
+        intervals = sorted(intervals, key=lambda x: (x.is_empty, x.left), reverse=False)
 
         curr_interval = intervals.pop(0)
         start_interval = curr_interval
@@ -470,8 +483,6 @@ class Any(TimePeriod):
             extends = interv.right > curr_interval.right
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             start_interval.left,
-- 
2.43.0


From 39c6a150b185c517765ad3c3a619cc70a2be44dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:45 +0000
Subject: [PATCH 04/59] fix: keep the task return values out of the pickled
 session

---
 rocketry/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 8c315d3..837359c 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -539,7 +539,7 @@ class Session(RedBase):
         # Copy and remove typically unpicklable attrs.
         # Used when creating a child process
         unpicklable_conf = {'shut_cond'}
-        unpicklable = {'tasks', '_cond_cache', 'session', '_cond_parsers', 'parameters'}
+        unpicklable = {'tasks', '_cond_cache', 'session', '_cond_parsers', 'parameters', 'returns'}
         new_self = copy(self)
         for attr in unpicklable:
             setattr(new_self, attr, None)
-- 
2.43.0


From 50d5d484ab17ddb88c826c3c34778031695a5765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:19 +0000
Subject: [PATCH 05/59] fix: keep the run id on records of failed setups and
 restarts

---
 rocketry/core/task.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a3bd0b3..b8a4e7c 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -603,7 +603,7 @@ class Task(RedBase, BaseModel):
             self.process_success(output)
         except (SchedulerRestart, SchedulerExit):
             # SchedulerRestart is considered as successful task
-            self.log_success(task_run)
+            self.log_success(task_run=task_run)
             status = "succeeded"
             self.process_success(None)
             exc_info = sys.exc_info()
@@ -683,7 +683,7 @@ class Task(RedBase, BaseModel):
             # Logging failed
             task_run.exception = exc
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except Exception:
                 pass
             # Note that we don't raise the error as there is nothing
@@ -697,7 +697,7 @@ class Task(RedBase, BaseModel):
         except Exception:
             # Task crashed before actually running the execute.
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except TaskLoggingError as exc:
                 task_run.exception = exc
 
@@ -776,7 +776,7 @@ class Task(RedBase, BaseModel):
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="process", hooks=exec_hooks)
         except Exception as exc:
             # Task crashed before running execute (silence=True)
-            self.log_failure()
+            self.log_failure(task_run)
 
             # There is nothing to raise it
             # to :(
-- 
2.43.0


From 3cb4bce1c7d4b9eccca9f3f4569f0f195ddcde3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:46 +0000
Subject: [PATCH 06/59] fix: log a single outcome for a process terminated as
 it finishes

---
 rocketry/core/task.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index b8a4e7c..fca5a22 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -56,6 +56,9 @@ class TaskRun:
     event_running: Optional[threading.Event] = None
     exception: Exception = None
 
+    # Process related
+    finished: bool = False # Whether the process has reported its outcome
+
     def is_alive(self) -> bool:
         if self.is_main:
             return True
@@ -1018,7 +1021,8 @@ class Task(RedBase, BaseModel):
     async def _terminate_all(self, reason=None):
         "Terminate the whole run stack"
         for run in self._run_stack:
-            await self._terminate_run(run, reason=reason)
+            if run.is_alive():
+                await self._terminate_run(run, reason=reason)
         self._clean_run_stack()
         self.force_termination = False
         #self._run_stack = [] # Does not work with threads
@@ -1033,7 +1037,11 @@ class Task(RedBase, BaseModel):
         else:
             if run.is_process:
                 # Threaded tasks handle their termination themselves
-                self.log_termination(reason=reason, task_run=run)
+                # NOTE: the process may have reported its outcome just
+                # before the termination
+                self.session.scheduler.handle_logs()
+                if not run.finished:
+                    self.log_termination(reason=reason, task_run=run)
 
 # Logging
     def _lock_to_run_log(self, log_queue):
@@ -1109,6 +1117,11 @@ class Task(RedBase, BaseModel):
         cache_attr = f"_last_{record.action}"
         record_time = record.created
 
+        if record.action != "run":
+            for run in self._run_stack:
+                if run.is_process and run.run_id == getattr(record, "run_id", None):
+                    run.finished = True
+
         try:
             self.logger.handle(record)
         except Exception as exc:
-- 
2.43.0


From f535660337f3f5c2376343b38c8ea87ac0cb83ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:46 +0000
Subject: [PATCH 07/59] fix: store return values of processes finishing while
 another starts

---
 rocketry/core/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index fca5a22..333b384 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1067,6 +1067,10 @@ class Task(RedBase, BaseModel):
 
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
                 task = self.session[record.task_name]
+                if record.action == "success":
+                    # Another task finished meanwhile
+                    task._handle_return(record.__return__)
+                    del record.__return__
                 try:
                     task.log_record(record)
                 except Exception as exc:
-- 
2.43.0


From 9add89174a2d0a01ff1c3749be7226f6562591ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:16 +0000
Subject: [PATCH 08/59] fix: do not execute a task whose start could not be
 logged

---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 333b384..e8ec96f 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -489,6 +489,8 @@ class Task(RedBase, BaseModel):
 
             # Run the actual task
             if execution in ("main", "async"):
+                # NOTE: if logging fails, the task is not executed
+                self.log_running(task_run)
                 async_task = asyncio.create_task(
                     self._run_as_async(
                         params=params,
@@ -500,7 +502,6 @@ class Task(RedBase, BaseModel):
                 if execution == "async":
                     task_run.task = async_task
                 self._run_stack.append(task_run)
-                self.log_running(task_run)
                 if execution == "main":
                     await async_task
                 if _IS_WINDOWS:
-- 
2.43.0


From fb3d0baac2c453bc240899f766ddb5838caa6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:56 +0000
Subject: [PATCH 09/59] fix: log a failure if an async task crashes before its
 execution

---
 rocketry/core/task.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index e8ec96f..019071b 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -587,14 +587,21 @@ class Task(RedBase, BaseModel):
         else:
             hooks = self.session.hooks.task_execute
         hooker = _Hooker(hooks)
-        hooker.prerun(task=self)
 
         status = None
         output = None
         exc_info = (None, None, None)
-        params = self.postfilter_params(params)
-        params = Parameters(params) | Parameters(direct_params)
-        params = params.materialize(task=self, session=self.session)
+        try:
+            hooker.prerun(task=self)
+            params = self.postfilter_params(params)
+            params = Parameters(params) | Parameters(direct_params)
+            params = params.materialize(task=self, session=self.session)
+        except Exception:
+            if execution != "async":
+                raise
+            # Nothing is waiting for the async run to catch this
+            self.log_failure(task_run)
+            return
 
         try:
             if inspect.iscoroutinefunction(self.execute):
-- 
2.43.0


From 45539bc425f5317bb931689c7c218530d711f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:51 +0000
Subject: [PATCH 10/59] fix: log the start and the runtime of the run itself
 when runs overlap

---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 019071b..c17e088 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1186,7 +1186,8 @@ class Task(RedBase, BaseModel):
             }
             # self._last_run = now
         else:
-            start_time = self._get_last_action("run")
+            # NOTE: there may be other runs alive that started later
+            start_time = task_run.start if task_run is not None else self._get_last_action("run")
             runtime = time_now - start_time if start_time is not None else None
             extra = {"action": action, "start": start_time, "end": time_now, "runtime": runtime}
 
-- 
2.43.0


From f741a9bde1085eb40341e618d8cffa30729372bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:30 +0000
Subject: [PATCH 11/59] fix: a forced shutdown no longer makes the later
 shutdowns of the session forced

---
 rocketry/core/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 3adb3fc..672e090 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -110,6 +110,7 @@ class Scheduler(RedBase):
         session."""
         # Unsetting some flags
         self._flag_shutdown.clear()
+        self._flag_force_exit.clear()
         self._flag_restart.clear()
         self._flag_enabled.set()
 
-- 
2.43.0


From 138267f88f499a219e67f8a638f9ec577d7da987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:30 +0000
Subject: [PATCH 12/59] fix: force the shutdown also when the scheduler is
 already waiting for the runs to finish

---
 rocketry/core/schedule.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 672e090..8165101 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -369,6 +369,10 @@ class Scheduler(RedBase):
                     await self._hibernate() # This is the time async tasks can continue
 
                     self.handle_logs()
+                    if self._flag_force_exit.is_set():
+                        # Forced while waiting
+                        await self.terminate_all(reason="Instant shutdown of the scheduler")
+                        break
                     for task in self.tasks:
                         if task.permanent:
                             # Would never "finish" anyways
-- 
2.43.0


From 06b0fabdbdb3cfd98cf18a863bbdecfbc87dcf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:02 +0000
Subject: [PATCH 13/59] fix: log a process that dies in its setup as one failed
 run

---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index c17e088..69b1437 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1069,7 +1069,7 @@ class Task(RedBase, BaseModel):
             except Empty:
                 if not self.is_alive():
                     # There will be no "run" log record thus ending the task gracefully
-                    self.logger.critical(f"Task '{self.name}' crashed in setup", extra={"action": "fail"})
+                    # (the run is logged as failed where the error is caught)
                     raise TaskSetupError(f"Task '{self.name}' process crashed silently")
             else:
 
-- 
2.43.0


From 33c238612d9ce4df32bf61457cc4467e2875ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:30 +0000
Subject: [PATCH 14/59] fix: logging errors of async tasks are raised as those
 of the other executions

---
 rocketry/core/task.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 69b1437..f27f111 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -66,6 +66,11 @@ class TaskRun:
             return not self.task.done()
         return self.task.is_alive()
 
+    def set_exception(self, task):
+        "Store a logging error of a finished async run (there is nothing else to catch it)"
+        if not task.cancelled() and isinstance(task.exception(), TaskLoggingError):
+            self.exception = task.exception()
+
     async def terminate(self):
         task = self.task
         if self.is_async:
@@ -501,6 +506,7 @@ class Task(RedBase, BaseModel):
                 )
                 if execution == "async":
                     task_run.task = async_task
+                    async_task.add_done_callback(task_run.set_exception)
                 self._run_stack.append(task_run)
                 if execution == "main":
                     await async_task
-- 
2.43.0


From 2ef0da9582b3b36d7f1a7a70cb64e5ecf947f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:37 +0000
Subject: [PATCH 15/59] fix: call the task init hooks of the task's own session

---
 rocketry/core/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index f27f111..bcd249c 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -312,12 +312,13 @@ class Task(RedBase, BaseModel):
 
     def __init__(self, **kwargs):
 
-        hooker = _Hooker(self.session.hooks.task_init)
-        hooker.prerun(task=self)
-
         if kwargs.get("session") is None:
             warnings.warn("Task's session not defined. Creating new.", UserWarning)
             kwargs['session'] = _create_session()
+
+        hooker = _Hooker(kwargs['session'].hooks.task_init)
+        hooker.prerun(task=self)
+
         kwargs['name'] = self._get_name(**kwargs)
 
         if "permanent_task" in kwargs:
-- 
2.43.0


From 6a347d44b7aa2bf5231521080af40500de77467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:57 +0000
Subject: [PATCH 16/59] fix: finish the task execution hooks also when the
 parameters cannot be prepared

---
 rocketry/core/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index bcd249c..6161611 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -604,6 +604,7 @@ class Task(RedBase, BaseModel):
             params = Parameters(params) | Parameters(direct_params)
             params = params.materialize(task=self, session=self.session)
         except Exception:
+            hooker.postrun(*sys.exc_info())
             if execution != "async":
                 raise
             # Nothing is waiting for the async run to catch this
-- 
2.43.0


From 54bb5950b032eb33ca1619ed224be764f15333eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:57 +0000
Subject: [PATCH 17/59] fix: name a task by the settings of its own session

---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 6161611..6f5196a 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -342,7 +342,7 @@ class Task(RedBase, BaseModel):
 
     def _get_name(self, name=None, **kwargs):
         if name is None:
-            use_instance_naming = self.session.config.use_instance_naming
+            use_instance_naming = kwargs['session'].config.use_instance_naming
             if use_instance_naming:
                 return id(self)
             return self.get_default_name(**kwargs)
-- 
2.43.0


From 73e61a85467e4597b1512bfe9c7de2d43ac1a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:29 +0000
Subject: [PATCH 18/59] fix: count the cron ranges and steps by the values of
 cron

---
 rocketry/time/cron.py | 62 ++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index bc51434..14bc957 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -1,7 +1,7 @@
 from typing import Callable
 from dataclasses import dataclass
 
-from rocketry.core.time.base import TimePeriod, always
+from rocketry.core.time.base import Any, TimePeriod, always
 
 from .interval import TimeOfHour, TimeOfDay, TimeOfMinute, TimeOfWeek, TimeOfMonth, TimeOfYear
 
@@ -36,46 +36,50 @@ class Cron(TimePeriod):
 
     def _get_period_from_expr(self, cls, expression:str, conv:Callable=None, default=always):
 
+        is_converted = conv is not None
         conv = (lambda i: i) if conv is None else conv
         exprs = expression.split(",")
         full_period = None
         for expr in exprs:
             if expr == "*":
                 # Any
-                continue
+                return default
             if "/" in expr:
                 expr, step = expr.split("/")
-                step_period = cls.create_range(step=int(step))
             else:
                 step = None
 
             if "-" in expr:
                 # From to
                 start, end = expr.split("-")
-                if start.isdigit():
-                    start = conv(int(start))
-                if end.isdigit():
-                    end = conv(int(end))
-
-                if step is not None:
-                    # Unlike in traditional Python ranges,
-                    # cron includes also the endpoint thus
-                    # we convert to int (if needed) and add
-                    # one
-                    if isinstance(end, str):
-                        end = cls._unit_mapping[end.lower()]
-                    end += 1
-                    period = cls.create_range(start, end, step=int(step))
+                is_numeric = start.isdigit() or end.isdigit()
+                if step is not None or (is_converted and is_numeric):
+                    # The values are those of cron (ie. 0-7 is from
+                    # Sunday to Sunday) and, unlike in traditional Python
+                    # ranges, the endpoint is included
+                    period = self._get_range(
+                        cls, conv,
+                        start=self._get_value(cls, start),
+                        end=self._get_value(cls, end, is_end=True),
+                        step=1 if step is None else int(step)
+                    )
                 else:
-                    period = cls(start, end)
+                    period = cls(
+                        int(start) if start.isdigit() else start,
+                        int(end) if end.isdigit() else end
+                    )
+            elif expr == "*":
+                # Every nth
+                if is_converted:
+                    # Week starts from Sunday
+                    period = self._get_range(cls, conv, start=0, end=6, step=int(step))
+                else:
+                    period = cls.create_range(step=int(step))
             else:
                 # At
                 step_period = cls.create_range(step=int(step)) if step is not None else always
                 value = conv(int(expr)) if expr.isdigit() else expr
-                if value == "*":
-                    period = always & step_period
-                else:
-                    period = cls.at(value) & step_period
+                period = cls.at(value) & step_period
 
             if full_period is None:
                 full_period = period
@@ -86,6 +90,20 @@ class Cron(TimePeriod):
             return default
         return full_period
 
+    def _get_range(self, cls, conv, start:int, end:int, step:int):
+        if start > end:
+            raise ValueError(f"Invalid range: {start}-{end}")
+        return Any(*(cls.at(conv(i)) for i in range(start, end + 1, step)))
+
+    def _get_value(self, cls, expr:str, is_end=False) -> int:
+        "Get the number of the value in cron, ie. January is 1 and Monday is 1"
+        if expr.isdigit():
+            return int(expr)
+        value = cls._unit_mapping[expr.lower()] + 1
+        if cls is TimeOfWeek and value == 7 and not is_end:
+            return 0
+        return value
+
     def _convert_day_of_week(self, i:int):
         # In cron, 0 is Sunday but DayOfWeek don't allow zero
         return 7 if i == 0 else i
-- 
2.43.0


From a752018f7554cc80c9beb03f8c2033f8e9a55e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:29 +0000
Subject: [PATCH 19/59] fix: allow any whitespace between the fields of a cron
 expression

---
 rocketry/conditions/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/api.py b/rocketry/conditions/api.py
index e589e43..28791c2 100644
--- a/rocketry/conditions/api.py
+++ b/rocketry/conditions/api.py
@@ -232,7 +232,7 @@ def every(past:str, based="run"):
 
 def cron(__expr=None, **kwargs):
     if __expr:
-        args = __expr.split(" ")
+        args = __expr.split()
     else:
         args = ()
 
@@ -241,7 +241,7 @@ def cron(__expr=None, **kwargs):
 
 def crontime(__expr=None, **kwargs):
     if __expr:
-        args = __expr.split(" ")
+        args = __expr.split()
     else:
         args = ()
 
-- 
2.43.0


From 270d7200d0f03e53a5d99c79bf7f60a50f967460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 20/59] fix: reject malformed logical expressions in strings

---
 rocketry/parse/utils/string_parser.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/rocketry/parse/utils/string_parser.py b/rocketry/parse/utils/string_parser.py
index 4a85bb7..add6596 100644
--- a/rocketry/parse/utils/string_parser.py
+++ b/rocketry/parse/utils/string_parser.py
@@ -5,6 +5,7 @@ from typing import Callable, Dict, List
 
 from rocketry.pybox.string.parse import ClosureParser
 from rocketry.pybox.container.visitor import Visitor
+from .exception import ParserError
 
 
 class InstructionParser:
@@ -35,6 +36,9 @@ class InstructionParser:
         # 1. Split closures
         l = p.to_list(s)
 
+        # 1a. Remove blanks between closures, ie. "( (x) & y )"
+        v.apply(l, _remove_blanks)
+
         # 2. Split operations
         v.assign_elements(l, self._split_operations)
 
@@ -75,7 +79,9 @@ class InstructionParser:
 
         # TODO: Clean this mess (but be careful)
 
-        return s[0] if isinstance(s, tuple) else s
+        if len(s) != 1:
+            raise ParserError("Invalid expression: expected a single statement or statements combined with operators.")
+        return s[0]
 
     def _assemble_oper(self, s:list, oper_str:str, oper_func:Callable, side="both"):
         s = list(reversed(s))
@@ -84,6 +90,7 @@ class InstructionParser:
 
             # Set the comparison object to "|" in the list
 
+            self._check_operands(s, pos, side=side)
             if side == "both":
                 obj = oper_func(s[pos+1], s[pos-1])
                 s[pos] = obj
@@ -103,6 +110,16 @@ class InstructionParser:
 
         return tuple(reversed(s))
 
+    def _is_operator(self, e):
+        return isinstance(e, str) and e in self.symbols
+
+    def _check_operands(self, s:list, pos:int, side:str):
+        # NOTE: "s" is reversed
+        required = {"both": (pos-1, pos+1), "right": (pos-1,), "left": (pos+1,)}[side]
+        for i in required:
+            if not 0 <= i < len(s) or self._is_operator(s[i]):
+                raise IndexError(f"Invalid expression: missing operand for '{s[pos]}'.")
+
     @staticmethod
     def _contains_operator(s:list, oper_str:str):
         for e in s:
@@ -137,6 +154,9 @@ class InstructionParser:
         return s
 
 
+def _remove_blanks(cont):
+    cont[:] = [item for item in cont if not isinstance(item, str) or item.strip()]
+
 def _flatten_tuples(cont):
 
     for i, item in enumerate(cont):
-- 
2.43.0


From e3eccb096571b5fa3a6e09e9c11fc85ee56e0897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 21/59] fix: comparing a condition no longer changes the
 condition itself

---
 rocketry/core/condition/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/condition/base.py b/rocketry/core/condition/base.py
index 1c0cc50..b63766f 100644
--- a/rocketry/core/condition/base.py
+++ b/rocketry/core/condition/base.py
@@ -337,7 +337,7 @@ class BaseComparable(BaseCondition):
 
     def _set_comparison(self, key, val):
         obj = copy(self)
-        obj._comps[key] = val
+        obj._comps = {**self._comps, key: val}
         return obj
 
     @classmethod
-- 
2.43.0


From ef5bddc38f4edcc3f9be6b8f734f84cbe4d2ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 22/59] fix: evaluate the parameter condition also when the
 scheduler observes it

---
 rocketry/conditions/parameter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rocketry/conditions/parameter.py b/rocketry/conditions/parameter.py
index 326bee2..ff3643f 100644
--- a/rocketry/conditions/parameter.py
+++ b/rocketry/conditions/parameter.py
@@ -82,8 +82,9 @@ class ParamExists(BaseCondition):
         self.param_keys = args
         self.param_values = kwargs
 
-    def __bool__(self):
-        params = self.session.parameters
+    def get_state(self, session=Session(default=None)):
+        session = self.session if session is None else session
+        params = session.parameters
         for key in self.param_keys:
             if key not in params:
                 return False
@@ -97,7 +98,7 @@ class ParamExists(BaseCondition):
 
     @classmethod
     def _from_list(cls, l:Union[tuple, list]):
-        return cls(*l)
+        return cls(l) if isinstance(l, str) else cls(*l)
 
     @classmethod
     def _from_key_value(cls, key:str, value):
-- 
2.43.0


From ec42dc7df45167e0a10b307b2cfd815d8405e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:42 +0000
Subject: [PATCH 23/59] fix: 'starting' in the task status strings covers the
 whole cycle

---
 rocketry/time/construct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/time/construct.py b/rocketry/time/construct.py
index 9685ce4..66e0aa5 100644
--- a/rocketry/time/construct.py
+++ b/rocketry/time/construct.py
@@ -50,4 +50,4 @@ def get_on(type_, start):
 def get_full_cycle(type_, start=None):
     type_ = type_.lower()
     cls = TIME_CLASSES[type_]
-    return cls(start, start)
+    return cls() if start is None else cls.starting(start)
-- 
2.43.0


From 02945b3ae5621dbafbc3d924cfa8c952d3df96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:02 +0000
Subject: [PATCH 24/59] fix: allow always and never in the condition strings

---
 rocketry/parse/_setup_cond_parsers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rocketry/parse/_setup_cond_parsers.py b/rocketry/parse/_setup_cond_parsers.py
index 856e21d..693b579 100644
--- a/rocketry/parse/_setup_cond_parsers.py
+++ b/rocketry/parse/_setup_cond_parsers.py
@@ -11,6 +11,7 @@ from rocketry.time import TimeDelta
 
 from rocketry.session import Session
 from rocketry.core.condition import Not
+from rocketry.core.time import TimePeriod
 
 from rocketry.conds import (
     secondly, minutely, hourly, daily, weekly, monthly, every,
@@ -43,7 +44,11 @@ def _from_period_task_has(cls, span_type=None, inverse=False, **kwargs):
 def _set_is_period_parsing():
 
     def _get_is_period(period_constructor, *args, **kwargs):
-        period = period_constructor(*args, **kwargs)
+        if isinstance(period_constructor, TimePeriod):
+            # Already a period, ie. always
+            period = period_constructor
+        else:
+            period = period_constructor(*args, **kwargs)
         return IsPeriod(period=period)
 
     cond_parsers = Session._cls_cond_parsers
-- 
2.43.0


From 58175376776adab3c0aafd50392402e961bb5c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:57 +0000
Subject: [PATCH 25/59] fix: task status conditions obey force_status_from_logs
 of the session they are observed in

---
 rocketry/conditions/task/task.py  | 2 +-
 rocketry/conditions/task/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index 2e49de3..a6e2268 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -167,7 +167,7 @@ class TaskRunning(BaseComparable):
     def get_measurement(self, task=Task(default=None), session=Session()):
         task = session[self.task] if self.task is not None else task
 
-        allow_optimization = not self.session.config.force_status_from_logs
+        allow_optimization = not session.config.force_status_from_logs
         start, end = get_period_span(self.period, session=session)
         if allow_optimization:
             task = session[self.task] if self.task is not None else task
diff --git a/rocketry/conditions/task/utils.py b/rocketry/conditions/task/utils.py
index 637e424..9439526 100644
--- a/rocketry/conditions/task/utils.py
+++ b/rocketry/conditions/task/utils.py
@@ -63,7 +63,7 @@ class TaskStatusMixin(BaseComparable):
         task = session[self.task] if self.task is not None else task
         _start_, _end_ = get_period_span(self.period if self.period is not None else task.period, session=session)
 
-        allow_optimization = not self.session.config.force_status_from_logs
+        allow_optimization = not session.config.force_status_from_logs
 
         if allow_optimization:
 
-- 
2.43.0


From 3d0a708234f933a3fc8b2a40a0712ac9ad335650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:57 +0000
Subject: [PATCH 26/59] fix: task status conditions without a period cover the
 whole history also if the start condition is about the task's own status

---
 rocketry/conditions/task/utils.py | 3 ++-
 rocketry/core/task.py             | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rocketry/conditions/task/utils.py b/rocketry/conditions/task/utils.py
index 9439526..bcd2d27 100644
--- a/rocketry/conditions/task/utils.py
+++ b/rocketry/conditions/task/utils.py
@@ -4,6 +4,7 @@ from rocketry.core.condition import All, Any
 from rocketry.args import Task, Session
 from rocketry.core.condition import BaseCondition
 from rocketry.core.condition.base import BaseComparable
+from rocketry.core.time import StaticInterval
 from rocketry.core.time.utils import get_period_span
 from rocketry.pybox.time import to_timestamp
 from rocketry.log.utils import get_field_value
@@ -61,7 +62,7 @@ class TaskStatusMixin(BaseComparable):
 
     def get_measurement(self, task=Task(default=None), session=Session()):
         task = session[self.task] if self.task is not None else task
-        _start_, _end_ = get_period_span(self.period if self.period is not None else task.period, session=session)
+        _start_, _end_ = get_period_span(self.period if self.period is not None else StaticInterval(), session=session)
 
         allow_optimization = not session.config.force_status_from_logs
 
diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 6f5196a..5cef0f0 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1387,14 +1387,15 @@ class Task(RedBase, BaseModel):
         session = self.session
 
         if isinstance(cond, (TaskSucceeded, TaskFinished)):
-            if session[cond.kwargs["task"]] is self:
+            if cond.period is not None and (cond.task is None or session[cond.task] is self):
                 return cond.period
 
         elif isinstance(cond, All):
             task_periods = []
             for sub_stmt in cond:
-                if isinstance(sub_stmt, (TaskFinished, TaskFinished)) and session[sub_stmt.kwargs["task"]] is self:
-                    task_periods.append(sub_stmt.period)
+                if isinstance(sub_stmt, (TaskSucceeded, TaskFinished)) and sub_stmt.period is not None:
+                    if sub_stmt.task is None or session[sub_stmt.task] is self:
+                        task_periods.append(sub_stmt.period)
             if task_periods:
                 return AllTime(*task_periods)
 
-- 
2.43.0


From 65c8ac5d132cfac01db03661fad5c885245f8391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:09 +0000
Subject: [PATCH 27/59] fix: a run that is over is not running though it
 finished after the period of the condition

---
 rocketry/conditions/task/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index a6e2268..ca2d133 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -1,7 +1,7 @@
 from typing import Optional
 import datetime
 
-from redbird.oper import in_, greater_equal, between
+from redbird.oper import in_, greater_equal
 
 from rocketry.core.condition import BaseCondition, BaseComparable
 from rocketry.log.utils import get_field_value
@@ -178,8 +178,9 @@ class TaskRunning(BaseComparable):
             ]
             return runs
 
+        # NOTE: the period is about when the run started, it may have finished later
         records = task.logger.get_records(
-            created=between(to_timestamp(start), to_timestamp(end)),
+            created=greater_equal(to_timestamp(start)),
         )
         records = sorted(records, key=lambda x: get_field_value(x, "created"))
         runs = []
@@ -202,7 +203,7 @@ class TaskRunning(BaseComparable):
         for record in records:
             action = get_field_value(record, "action")
             is_run = action == "run"
-            if not is_run:
+            if not is_run or get_field_value(record, "created") > to_timestamp(end):
                 continue
             if has_run_id:
                 run_id = get_field_value(record, "run_id")
-- 
2.43.0


From 93bc11328166e266c4b2bfccfc0e777d0df5c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:37 +0000
Subject: [PATCH 28/59] fix: a run that finished at the instant it started has
 not crashed

---
 rocketry/core/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 5cef0f0..cc33b28 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -954,6 +954,10 @@ class Task(RedBase, BaseModel):
                 times,
                 key=times.get
             )
+            if list(times.values()).count(times[status]) > 1:
+                # Several actions at the same time: the latter is the status
+                record = logger.get_latest()
+                status = record["action"] if isinstance(record, dict) else record.action
             if status == "run":
                 # There has been a sudden crash
                 self.log_crash()
-- 
2.43.0


From 134900aa4dc61832c62465fce04e5eea3b6b50fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:37 +0000
Subject: [PATCH 29/59] fix: log the crash of a run with the id of the run

---
 rocketry/core/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index cc33b28..50be924 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -960,7 +960,9 @@ class Task(RedBase, BaseModel):
                 status = record["action"] if isinstance(record, dict) else record.action
             if status == "run":
                 # There has been a sudden crash
-                self.log_crash()
+                record = logger.get_latest(action="run")
+                run_id = record.get("run_id") if isinstance(record, dict) else getattr(record, "run_id", None)
+                self.log_crash(TaskRun(start=times["run"], task=None, run_id=run_id))
             else:
                 self.status = status
 
-- 
2.43.0


From 4ad46d38da2499f7728add5ad5a2b3f538112055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:37 +0000
Subject: [PATCH 30/59] fix: retry also when the log records are dicts

---
 rocketry/conditions/task/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index ca2d133..91dfd27 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -475,7 +475,7 @@ class Retry(BaseCondition):
             action=in_(['success', 'crash', 'inaction', 'terminate'])
         ).last()
 
-        last_non_fail_created = 0 if last_non_fail is None else last_non_fail.created
+        last_non_fail_created = 0 if last_non_fail is None else get_field_value(last_non_fail, "created")
 
         n_failed_in_row = task.logger.filter_by(
             created=greater_equal(last_non_fail_created),
-- 
2.43.0


From 22c9daac3a703e990f18b153e1f40244be44cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:50 +0000
Subject: [PATCH 31/59] fix: read the past of all tasks before running the
 start-up tasks

---
 rocketry/core/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 8165101..5d4b1c0 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -317,7 +317,8 @@ class Scheduler(RedBase):
                 self.logger.exception(f"Failed setting cache for task '{task.name}'")
                 if not self.session.config.silence_task_logging:
                     raise
-            
+
+        for task in self.tasks:
             if task.on_startup:
                 if isinstance(task.start_cond, AlwaysFalse) and not task.disabled:
                     # Make sure the tasks run if start_cond not set
-- 
2.43.0


From 82ad9d8039e0b2c37c1390e62529ca28924f4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:39 +0000
Subject: [PATCH 32/59] fix: a task created in a running session knows its past
 runs

---
 rocketry/core/task.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 50be924..876b938 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -334,9 +334,13 @@ class Task(RedBase, BaseModel):
         # Set default readable logger if missing
         self.session._check_readable_logger()
 
-        self.register()
         self._init_cache()
-        
+        if self.session.scheduler.is_alive and self.name not in self.session:
+            # The scheduler is already running: the past of
+            # the task is read here instead of the startup
+            self.set_cached()
+        self.register()
+
         # Hooks
         hooker.postrun()
 
-- 
2.43.0


From a3b95078529649d7e44a7db5535c23fc4438c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 33/59] fix: a missing return value can be piped to other
 arguments

---
 rocketry/args/builtin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/args/builtin.py b/rocketry/args/builtin.py
index 90b53b2..da671e2 100644
--- a/rocketry/args/builtin.py
+++ b/rocketry/args/builtin.py
@@ -179,7 +179,7 @@ class Return(BaseArgument):
             return session.returns[input_task]
         except KeyError:
             if self.default is NOTSET:
-                raise KeyError(f"Return value not found for {repr(task)}")
+                raise KeyError(f"Return value not found for {repr(self.task_name)}")
             return self.default
 
     def __repr__(self):
-- 
2.43.0


From 7623e193e76c0cc7c76d3330b92229dc8facec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 34/59] fix: termination flag in async tasks is a flag

---
 rocketry/args/builtin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/args/builtin.py b/rocketry/args/builtin.py
index da671e2..38e6668 100644
--- a/rocketry/args/builtin.py
+++ b/rocketry/args/builtin.py
@@ -262,8 +262,8 @@ class FuncArg(BaseArgument):
 class TerminationFlag(BaseArgument):
 
     def get_value(self, task=None, session=None, terminate_event=None, **kwargs) -> Any:
-        execution = task.execution
-        if execution in ("process", "main"):
+        execution = task.get_execution()
+        if execution in ("process", "main", "async"):
             warnings.warn(f"Termination flag passed to non-threaded task. Task with 'execution_type={execution}' cannot use termination flag.")
             return threading.Event()
         return terminate_event
-- 
2.43.0


From 828f866bc12dfc0bdc4a173fc69ea639534df84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 35/59] fix: parameters the function does not take are not
 materialized for lazy tasks

---
 rocketry/tasks/func.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/rocketry/tasks/func.py b/rocketry/tasks/func.py
index 101912f..36f0d54 100644
--- a/rocketry/tasks/func.py
+++ b/rocketry/tasks/func.py
@@ -9,6 +9,7 @@ from pydantic import Field, PrivateAttr, validator
 
 from rocketry.core.task import Task
 from rocketry.core.parameters import Parameters
+from rocketry.core.utils import filter_keyword_args
 from rocketry.pybox.pkg import find_package_root
 
 
@@ -284,17 +285,14 @@ class FuncTask(Task):
         return params
 
     def prefilter_params(self, params):
-        if not self.is_delayed():
-            # Filter the parameters now so that
-            # we pass as little as possible to
-            # pickling. If lazy, we filter after
-            # pickling to handle problems in
-            # pickling functions.
-            return {
-                key: val for key, val in params.items()
-                if key in self.kw_args
-            }
-        return params
+        # Filter the parameters now so that
+        # we pass as little as possible to
+        # pickling and we don't materialize
+        # parameters the function won't use.
+        # If lazy, the function is not cached
+        # as it may not be picklable.
+        func = self.get_func(cache=not self.is_delayed())
+        return filter_keyword_args(func, params)
 
     def postfilter_params(self, params:Parameters):
         if self._is_delayed:
-- 
2.43.0


From af53e8137c77d59bf059a776df2359d9ef2f998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 36/59] fix: parameters of a run no longer stay in the command
 of a CommandTask

---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index d58a45c..9fd16ae 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -79,7 +79,7 @@ class CommandTask(Task):
             if isinstance(command, str):
                 command += f" {param} \"{val}\""
             else:
-                command += [param] + [val]
+                command = command + [param, val]
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
-- 
2.43.0


From 74457d8ad747a50b0f7a43c53cb77d76b5654440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 37/59] fix: CommandTask takes parameters without argform

---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 9fd16ae..2c639d6 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -58,7 +58,7 @@ class CommandTask(Task):
         kwargs.update(self.kwds_popen)
         return kwargs
 
-    @validator('argform')
+    @validator('argform', always=True)
     def parse_argform(cls, value):
         return {
             "long": "--",
-- 
2.43.0


From f4f2d34dd37eaab544304620a3b07ca170cd8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:30 +0000
Subject: [PATCH 38/59] fix: CommandTask with a timeout runs

---
 rocketry/tasks/command.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 2c639d6..67339ec 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -1,4 +1,5 @@
 
+import datetime
 import subprocess
 from typing import List, Optional, Union
 
@@ -83,8 +84,10 @@ class CommandTask(Task):
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
+        has_timeout = self.timeout is not None and self.timeout != datetime.timedelta.max
+        timeout = self.timeout.total_seconds() if has_timeout else None
         try:
-            outs, errs = pipe.communicate(timeout=self.timeout)
+            outs, errs = pipe.communicate(timeout=timeout)
         except subprocess.TimeoutExpired:
             # https://docs.python.org/3.3/library/subprocess.html#subprocess.Popen.communicate
             pipe.kill()
-- 
2.43.0


From 6f88083ffdc26c058c838c3f22f76758ad7799d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:58 +0000
Subject: [PATCH 39/59] fix: filtering parameters does not materialize them

---
 rocketry/core/utils/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/utils/meta.py b/rocketry/core/utils/meta.py
index 30b5b2b..4ce163c 100644
--- a/rocketry/core/utils/meta.py
+++ b/rocketry/core/utils/meta.py
@@ -7,7 +7,7 @@ def filter_keyword_args(_func, _params:dict=None, **kwargs):
     """Filter only keyword arguments that the
     function requires."""
     if _params:
-        kwargs.update(_params)
+        kwargs.update(_params.items()) # items, not to materialize Parameters
     sig = inspect.signature(_func)
 
     kw_args = [
-- 
2.43.0


From 5691e73c7f632eb5c0e9f85ae66a049d50f1063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:21 +0000
Subject: [PATCH 40/59] fix: renaming a task cannot produce duplicate names or
 change to another name than given

---
 rocketry/core/task.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 876b938..5d91a4f 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -400,6 +400,16 @@ class Task(RedBase, BaseModel):
     def __hash__(self):
         return id(self)
 
+    def __setattr__(self, name, value):
+        is_rename = name == "name" and "name" in self.__dict__
+        if is_rename:
+            if value == self.name:
+                # The name is already taken by the task itself
+                return
+            if self.session.config.task_pre_exist == "ignore" and value in self.session:
+                raise ValueError(f"Task name '{value}' already exists. Please pick another")
+        super().__setattr__(name, value)
+
     def run(self, _params:Union[Parameters, Dict]=None, **kwargs):
         """Set the task running (with given parameters)
 
-- 
2.43.0


From 3f70b759d307c6daf8570bdd797d3fcdab3e2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:21 +0000
Subject: [PATCH 41/59] fix: adding an existing task with policy rename adds
 the task

---
 rocketry/session.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rocketry/session.py b/rocketry/session.py
index 837359c..79cd1b7 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -426,6 +426,16 @@ class Session(RedBase):
                 self.tasks.add(task)
             elif if_exists == 'raise':
                 raise KeyError(f"Task '{task.name}' already exists")
+            elif if_exists == 'rename' and task not in self.tasks:
+                basename = task.name
+                name = basename
+                num = 0
+                while name in self:
+                    num += 1
+                    name = f"{basename} - {num}"
+                task.session = self
+                task.name = name
+                self.tasks.add(task)
         else:
             self.tasks.add(task)
 
-- 
2.43.0


From 00b414b43f7f8db14cf71c143a954cea9e958816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:21 +0000
Subject: [PATCH 42/59] fix: the log times of a session come from its own time
 function

---
 rocketry/session.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 79cd1b7..9ca0ab2 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -372,11 +372,14 @@ class Session(RedBase):
         if logger is None:
             logger = logging.getLogger(self.config.task_logger_basename)
         attr = '__rocketry_wrapped__'
-        is_wrapped = getattr(logger, attr, False)
-        wrap_logger = self.config.time_func is not None and not is_wrapped
-        if wrap_logger:
+        orig = getattr(logger, attr, None)
+        if orig is not None:
+            # Wrapped by a previous session: its clock is not ours
+            logger.makeRecord = orig
+            delattr(logger, attr)
+        if self.config.time_func is not None:
+            setattr(logger, attr, logger.makeRecord)
             logger.makeRecord = TaskAdapter._modify_record(logger.makeRecord, session=self)
-            setattr(logger, attr, True)
 
     def get_tasks(self) -> list:
         """Get session tasks as list.
-- 
2.43.0


From df59b40737341a1f22a3274c54ff381699656659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:27 +0000
Subject: [PATCH 43/59] fix: a queued run whose parameters cannot be collected
 is not repeated forever

---
 rocketry/core/task.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 5d91a4f..1a41489 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -502,8 +502,9 @@ class Task(RedBase, BaseModel):
         task_run = TaskRun(start=self.session.get_time(), task=None)
         try:
             self.force_run = False
+            batch = self.batches.pop(0) if self.batches else None
             params = self.get_extra_params(params, execution=execution)
-            direct_params = self._get_direct_params()
+            direct_params = self._get_direct_params(batch)
 
             task_run.run_id = self.get_run_id(task_run, params=params | direct_params)
 
@@ -833,10 +834,10 @@ class Task(RedBase, BaseModel):
 
         return params
 
-    def _get_direct_params(self):
+    def _get_direct_params(self, batch=None):
         direct_params = self.get_task_params()
-        if self.batches:
-            direct_params.update(self.batches.pop(0))
+        if batch is not None:
+            direct_params.update(batch)
         return direct_params
 
     def get_task_params(self):
-- 
2.43.0


From 11fde776aef4d63260760463294e49f02c80cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:27 +0000
Subject: [PATCH 44/59] fix: a run failing before its start is logged as a run
 also if the task is already running

---
 rocketry/core/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 1a41489..4f85c94 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -500,6 +500,7 @@ class Task(RedBase, BaseModel):
         #   - Then params and direct_params are fed to the execute method
         execution = self.get_execution()
         task_run = TaskRun(start=self.session.get_time(), task=None)
+        is_logged = False
         try:
             self.force_run = False
             batch = self.batches.pop(0) if self.batches else None
@@ -512,6 +513,7 @@ class Task(RedBase, BaseModel):
             if execution in ("main", "async"):
                 # NOTE: if logging fails, the task is not executed
                 self.log_running(task_run)
+                is_logged = True
                 async_task = asyncio.create_task(
                     self._run_as_async(
                         params=params,
@@ -557,7 +559,8 @@ class Task(RedBase, BaseModel):
             # and it did not reach to log_running
             if task_run.run_id is None:
                 task_run.run_id = self.get_run_id(task_run)
-            if self.status != "run":
+            if not is_logged:
+                # NOTE: the status may be "run" due to another run
                 self.log_running(task_run)
             self.log_failure(task_run)
             raise TaskSetupError("Task failed before logging") from exc
-- 
2.43.0


From 06cc1133e231596fba92245a8c447a018586a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:27 +0000
Subject: [PATCH 45/59] fix: a process dying silently does not block the
 scheduler if the task has another run

---
 rocketry/core/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 4f85c94..ae4591f 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -772,7 +772,7 @@ class Task(RedBase, BaseModel):
         process.start()
         self._mark_running = False
 
-        self._lock_to_run_log(log_queue)
+        self._lock_to_run_log(log_queue, task_run)
         return log_queue
 
     def _run_as_process(self, params:Parameters, direct_params:Parameters, task_run, queue, config, exec_hooks):
@@ -1084,7 +1084,7 @@ class Task(RedBase, BaseModel):
                     self.log_termination(reason=reason, task_run=run)
 
 # Logging
-    def _lock_to_run_log(self, log_queue):
+    def _lock_to_run_log(self, log_queue, task_run):
         "Handle next run log to make sure the task started running before continuing (otherwise may cause accidential multiple launches)"
         action = None
         timeout = 10 # Seconds allowed the setup to take before declaring setup to crash
@@ -1099,7 +1099,7 @@ class Task(RedBase, BaseModel):
             try:
                 record = log_queue.get(block=True, timeout=timeout)
             except Empty:
-                if not self.is_alive():
+                if not task_run.is_alive():
                     # There will be no "run" log record thus ending the task gracefully
                     # (the run is logged as failed where the error is caught)
                     raise TaskSetupError(f"Task '{self.name}' process crashed silently")
-- 
2.43.0


From e995420770f7603b1aabb1c47e815b3f2750cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:25 +0000
Subject: [PATCH 46/59] fix: Session.run accepts tasks and functions as
 documented

---
 rocketry/session.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 9ca0ab2..bf7ce33 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -258,7 +258,7 @@ class Session(RedBase):
         self._set_configs()
         await self.scheduler.serve()
 
-    def run(self, *task_names:str, execution=None, obey_cond=False):
+    def run(self, *task_names:Union[str, Callable, 'Task'], execution=None, obey_cond=False):
         """Run specific task(s) manually.
 
         This method starts up the scheduler but only the given
@@ -268,8 +268,9 @@ class Session(RedBase):
 
         Parameters
         ----------
-        *task_names : variable length str args
-            Names of the tasks to run.
+        *task_names : variable length args
+            Names of the tasks to run. Can also be tasks
+            or the functions of the tasks.
         execution : str
             Execution method for all of the tasks.
             By default, whatever set to each task
@@ -287,6 +288,7 @@ class Session(RedBase):
         # To prevent circular import
         from rocketry.conditions.scheduler import SchedulerCycles
 
+        task_names = [self._get_task_name(task) for task in task_names]
         orig_vals = {}
         for task in self.tasks:
             name = task.name
-- 
2.43.0


From 568da9a91b20fb66cdd3bd796a08a94653608b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:25 +0000
Subject: [PATCH 47/59] fix: Session.run runs only the selected tasks and
 restores all of them

---
 rocketry/session.py | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index bf7ce33..6cf353a 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -287,32 +287,43 @@ class Session(RedBase):
         self._set_configs()
         # To prevent circular import
         from rocketry.conditions.scheduler import SchedulerCycles
+        from rocketry.core.condition import AlwaysFalse
 
         task_names = [self._get_task_name(task) for task in task_names]
-        orig_vals = {}
-        for task in self.tasks:
-            name = task.name
-            orig_vals[name] = {
-                attr: val for attr, val in task.__dict__.items()
-                if attr not in ("status", "last_run", "last_success", "last_fail", "last_terminate")
-            }
-            if name in task_names:
-                if not obey_cond:
-                    task.run()
-                if execution is not None:
-                    task.execution = execution
-            else:
-                task.disabled = True
-
+        orig_vals = {
+            task: {attr: getattr(task, attr) for attr in ("disabled", "execution", "batches")}
+            for task in self.tasks
+        }
         orig_shut_cond = self.config.shut_cond
         try:
+            for task, vals in orig_vals.items():
+                if task.name in task_names:
+                    if not obey_cond:
+                        # Run once regardless of what is already queued
+                        task.batches = []
+                        is_run_by_scheduler = (
+                            (task.on_startup or task.on_shutdown)
+                            and isinstance(task.start_cond, AlwaysFalse)
+                            and not task.disabled
+                        )
+                        if not is_run_by_scheduler:
+                            task.run()
+                    if execution is not None:
+                        task.execution = execution
+                else:
+                    task.disabled = True
+                    task.batches = []
+
             self.config.shut_cond = SchedulerCycles() >= 1
             self.start()
         finally:
             self.config.shut_cond = orig_shut_cond
             # Set back the disabled, execution etc.
-            for task in self.tasks:
-                task.__dict__.update(orig_vals[task.name])
+            for task, vals in orig_vals.items():
+                if task.batches is not vals["batches"]:
+                    # There may be runs queued meanwhile
+                    vals["batches"].extend(task.batches)
+                task.__dict__.update(vals)
 
     def restart(self):
         """Restart the scheduler
-- 
2.43.0


From 79fdacf148aae32e8bff63ffb089b984c804f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:17 +0000
Subject: [PATCH 48/59] fix: Session.run runs all selected tasks also if there
 are more of them than processes allowed

---
 rocketry/conditions/scheduler.py | 18 ++++++++++++++++++
 rocketry/session.py              |  8 ++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/scheduler.py b/rocketry/conditions/scheduler.py
index 3d82eda..707e52a 100644
--- a/rocketry/conditions/scheduler.py
+++ b/rocketry/conditions/scheduler.py
@@ -33,6 +33,24 @@ class SchedulerCycles(BaseComparable):
         kwargs = {key: int(value) for key, value in kwargs.items()}
         return super(SchedulerCycles, cls).from_magic(**kwargs)
 
+class RunsQueued(BaseCondition):
+    """Condition for whether any of the given runs
+    (elements of ``task.batches``) is still waiting
+    in the queue of a task.
+    """
+
+    def __init__(self, runs):
+        self.runs = list(runs)
+        super().__init__()
+
+    def get_state(self, session=Session()) -> bool:
+        return any(
+            queued is run
+            for task in session.get_tasks()
+            for queued in task.batches
+            for run in self.runs
+        )
+
 class SchedulerStarted(BaseCondition):
     """Condition for whether the scheduler had started
     in given period.
diff --git a/rocketry/session.py b/rocketry/session.py
index 6cf353a..f65f876 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -286,7 +286,7 @@ class Session(RedBase):
         """
         self._set_configs()
         # To prevent circular import
-        from rocketry.conditions.scheduler import SchedulerCycles
+        from rocketry.conditions.scheduler import SchedulerCycles, RunsQueued
         from rocketry.core.condition import AlwaysFalse
 
         task_names = [self._get_task_name(task) for task in task_names]
@@ -295,6 +295,7 @@ class Session(RedBase):
             for task in self.tasks
         }
         orig_shut_cond = self.config.shut_cond
+        queued = []
         try:
             for task, vals in orig_vals.items():
                 if task.name in task_names:
@@ -308,13 +309,16 @@ class Session(RedBase):
                         )
                         if not is_run_by_scheduler:
                             task.run()
+                        if not (task.on_startup or task.on_shutdown):
+                            queued.extend(task.batches)
                     if execution is not None:
                         task.execution = execution
                 else:
                     task.disabled = True
                     task.batches = []
 
-            self.config.shut_cond = SchedulerCycles() >= 1
+            # There may not be room for all of the runs in one cycle
+            self.config.shut_cond = (SchedulerCycles() >= 1) & ~RunsQueued(queued)
             self.start()
         finally:
             self.config.shut_cond = orig_shut_cond
-- 
2.43.0


From fab8360c7fe17f1b346b1758afbe921bf958efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:39 +0000
Subject: [PATCH 49/59] fix: renaming or removing a task running as process
 does not crash the scheduler

---
 rocketry/core/schedule.py | 20 +++++++++++++++++---
 rocketry/core/task.py     | 13 ++++++++++---
 rocketry/session.py       | 14 ++++++++++++++
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 5d4b1c0..5680f3f 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -264,7 +264,7 @@ class Scheduler(RedBase):
                 break
             else:
                 self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
-                task = self.session[record.task_name]
+                task = self.session._get_task_of_record(record)
                 if record.action == "fail":
                     # There is a caveat in logging
                     # https://github.com/python/cpython/blame/fad6af2744c0b022568f7f4a8afc93fed056d4db/Lib/logging/handlers.py#L1383
@@ -283,9 +283,14 @@ class Scheduler(RedBase):
                     # Take the return value from the record and delete
                     # Note that record has attr __return__ only if task running as process
                     return_value = record.__return__
-                    task._handle_return(return_value)
+                    if task is not None:
+                        task._handle_return(return_value)
                     del record.__return__
-                self._log_task(task, "log_record", record)
+                if task is not None:
+                    self._log_task(task, "log_record", record)
+                else:
+                    # The task was removed meanwhile
+                    self._log_removed_task(record)
 
     async def _hibernate(self):
         """Go to sleep and wake up when next task can be executed."""
@@ -522,6 +527,15 @@ class Scheduler(RedBase):
             if not self.session.config.silence_task_logging:
                 raise
 
+    def _log_removed_task(self, record):
+        logger = logging.getLogger(self.session.config.task_logger_basename)
+        try:
+            logger.handle(record)
+        except Exception:
+            self.logger.exception(f"Logging failed for task '{record.task_name}'")
+            if not self.session.config.silence_task_logging:
+                raise
+
     def check_thread_errors(self):
         silence_logging = self.session.config.silence_task_logging
         if not silence_logging:
diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index ae4591f..5c2c311 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -58,6 +58,7 @@ class TaskRun:
 
     # Process related
     finished: bool = False # Whether the process has reported its outcome
+    task_name: str = None # Name in the log records of the process
 
     def is_alive(self) -> bool:
         if self.is_main:
@@ -765,6 +766,7 @@ class Task(RedBase, BaseModel):
             daemon=daemon
         )
         task_run.task = process
+        task_run.task_name = self.name
 
         self._run_stack.append(task_run)
         self._mark_running = True # needed in pickling
@@ -1106,13 +1108,18 @@ class Task(RedBase, BaseModel):
             else:
 
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
-                task = self.session[record.task_name]
+                task = self.session._get_task_of_record(record)
                 if record.action == "success":
                     # Another task finished meanwhile
-                    task._handle_return(record.__return__)
+                    if task is not None:
+                        task._handle_return(record.__return__)
                     del record.__return__
                 try:
-                    task.log_record(record)
+                    if task is not None:
+                        task.log_record(record)
+                    else:
+                        # The task was removed meanwhile
+                        self.logger.handle(record)
                 except Exception as exc:
                     # It must be made sure the task is set running
                     # so we ignore logging errors until that's sure
diff --git a/rocketry/session.py b/rocketry/session.py
index f65f876..5a2aae9 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -232,6 +232,20 @@ class Session(RedBase):
                 return task
         raise KeyError(f"Task '{task_name}' not found")
 
+    def _get_task_of_record(self, record):
+        """Get the task a log record from a process is about (None
+        if there is no such: the task was removed). Note that the
+        task may have been renamed after the process was started."""
+        tasks = list(self.tasks)
+        for task in tasks:
+            for run in task._run_stack:
+                if run.is_process and run.task_name == record.task_name and run.run_id == getattr(record, "run_id", None):
+                    return task
+        for task in tasks:
+            if task.name == record.task_name:
+                return task
+        return None
+
     def __contains__(self, task: Union['Task', str]):
         "Check if task is in session"
         try:
-- 
2.43.0


From 1527a30b5e1a5541f2bed6a7c2b64726c4ae50ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:05 +0000
Subject: [PATCH 50/59] fix: looking up a task while another thread adds or
 removes tasks does not raise

---
 rocketry/conditions/scheduler.py | 2 +-
 rocketry/session.py              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rocketry/conditions/scheduler.py b/rocketry/conditions/scheduler.py
index 707e52a..864801c 100644
--- a/rocketry/conditions/scheduler.py
+++ b/rocketry/conditions/scheduler.py
@@ -46,7 +46,7 @@ class RunsQueued(BaseCondition):
     def get_state(self, session=Session()) -> bool:
         return any(
             queued is run
-            for task in session.get_tasks()
+            for task in list(session.get_tasks())
             for queued in task.batches
             for run in self.runs
         )
diff --git a/rocketry/session.py b/rocketry/session.py
index 5a2aae9..fee6cfb 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -227,7 +227,7 @@ class Session(RedBase):
     def __getitem__(self, task:Union['Task', str]):
         "Get a task from the session"
         task_name = self._get_task_name(task)
-        for task in self.tasks:
+        for task in list(self.tasks):
             if task.name == task_name:
                 return task
         raise KeyError(f"Task '{task_name}' not found")
@@ -306,7 +306,7 @@ class Session(RedBase):
         task_names = [self._get_task_name(task) for task in task_names]
         orig_vals = {
             task: {attr: getattr(task, attr) for attr in ("disabled", "execution", "batches")}
-            for task in self.tasks
+            for task in list(self.tasks)
         }
         orig_shut_cond = self.config.shut_cond
         queued = []
@@ -489,7 +489,7 @@ class Session(RedBase):
         ), DeprecationWarning)
 
         task_name = self._get_task_name(task)
-        for task in self.tasks:
+        for task in list(self.tasks):
             if task.name == task_name:
                 return True
         return False
-- 
2.43.0


From d212604a49a4ecc83c349d2250da44721b90ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:49 +0000
Subject: [PATCH 51/59] fix: Session.run runs a selected task only once and
 leaves no runs queued if it fails

---
 rocketry/session.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index fee6cfb..dd329f5 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -309,7 +309,7 @@ class Session(RedBase):
             for task in list(self.tasks)
         }
         orig_shut_cond = self.config.shut_cond
-        queued = []
+        queued = [] # Runs this method queued
         try:
             for task, vals in orig_vals.items():
                 if task.name in task_names:
@@ -323,8 +323,9 @@ class Session(RedBase):
                         )
                         if not is_run_by_scheduler:
                             task.run()
-                        if not (task.on_startup or task.on_shutdown):
                             queued.extend(task.batches)
+                            # Only the queued run is run
+                            task.disabled = True
                     if execution is not None:
                         task.execution = execution
                 else:
@@ -332,7 +333,14 @@ class Session(RedBase):
                     task.batches = []
 
             # There may not be room for all of the runs in one cycle
-            self.config.shut_cond = (SchedulerCycles() >= 1) & ~RunsQueued(queued)
+            in_cycles = [
+                run
+                for task in orig_vals
+                if not (task.on_startup or task.on_shutdown)
+                for run in task.batches
+                if any(run is own_run for own_run in queued)
+            ]
+            self.config.shut_cond = (SchedulerCycles() >= 1) & ~RunsQueued(in_cycles)
             self.start()
         finally:
             self.config.shut_cond = orig_shut_cond
@@ -340,7 +348,10 @@ class Session(RedBase):
             for task, vals in orig_vals.items():
                 if task.batches is not vals["batches"]:
                     # There may be runs queued meanwhile
-                    vals["batches"].extend(task.batches)
+                    vals["batches"].extend(
+                        run for run in task.batches
+                        if not any(run is own_run for own_run in queued)
+                    )
                 task.__dict__.update(vals)
 
     def restart(self):
-- 
2.43.0


From 135c9750caf81093c1e425a1ab82ba730e1d4875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:23 +0000
Subject: [PATCH 52/59] fix: a removed task is not started any more and its
 runs are still looked after

---
 rocketry/core/schedule.py | 12 +++++++++++-
 rocketry/core/task.py     |  2 +-
 rocketry/session.py       |  9 +++++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 5680f3f..a936c3d 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -94,7 +94,14 @@ class Scheduler(RedBase):
     def tasks(self):
 
         #! TODO: Is this needed?
-        tasks = self.session.get_tasks()
+        tasks = list(self.session.get_tasks())
+        # There may be runs left of tasks that were removed
+        removed = self.session._removed_tasks
+        for task in list(removed):
+            if not task._run_stack:
+                removed.discard(task)
+            elif task not in self.session.tasks:
+                tasks.append(task)
         # There may be extra rare situation that priority is not in the task
         # for short period if it is being modified thus we use getattr
         return sorted(tasks, key=lambda task: getattr(task, "priority", 0), reverse=True)
@@ -238,6 +245,9 @@ class Scheduler(RedBase):
     def is_task_runnable(self, task:Task):
         """Inspect whether the task should be run."""
         #! TODO: Can this be put to the Task?
+        if task not in self.session.tasks:
+            # Removed meanwhile
+            return False
         execution = task.get_execution()
         if execution == "process":
             has_free_processors = self.has_free_processors()
diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 5c2c311..5961f99 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -437,7 +437,7 @@ class Task(RedBase, BaseModel):
     def delete(self):
         """Delete the task from the session.
         Overried if needed additional cleaning."""
-        self.session.tasks.remove(self)
+        self.session.remove_task(self)
 
     def terminate(self):
         "Terminate the task"
diff --git a/rocketry/session.py b/rocketry/session.py
index dd329f5..95b7902 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -216,6 +216,7 @@ class Session(RedBase):
         self.parameters = self._get_parameters(parameters)
         self.scheduler = Scheduler(self)
         self.tasks = set()
+        self._removed_tasks = set() # Removed but possibly still running
         self.hooks = Hooks()
         self.returns = self._get_parameters(None)
         self._cond_parsers = self._cls_cond_parsers.copy()
@@ -237,7 +238,7 @@ class Session(RedBase):
         if there is no such: the task was removed). Note that the
         task may have been renamed after the process was started."""
         tasks = list(self.tasks)
-        for task in tasks:
+        for task in tasks + list(self._removed_tasks):
             for run in task._run_stack:
                 if run.is_process and run.task_name == record.task_name and run.run_id == getattr(record, "run_id", None):
                     return task
@@ -492,6 +493,9 @@ class Session(RedBase):
         if not isinstance(task, Task):
             task = self[task]
         self.tasks.remove(task)
+        if task._run_stack:
+            # The scheduler still looks after its runs
+            self._removed_tasks.add(task)
 
     def task_exists(self, task: 'Task'):
         warnings.warn((
@@ -583,6 +587,7 @@ class Session(RedBase):
         # the task.session. Therefore removing unpicklable here.
         state = self.__dict__.copy()
         state["tasks"] = set()
+        state["_removed_tasks"] = set()
         state["_cond_cache"] = None
         state["_cond_parsers"] = None
         state["session"] = None
@@ -594,7 +599,7 @@ class Session(RedBase):
         # Copy and remove typically unpicklable attrs.
         # Used when creating a child process
         unpicklable_conf = {'shut_cond'}
-        unpicklable = {'tasks', '_cond_cache', 'session', '_cond_parsers', 'parameters', 'returns'}
+        unpicklable = {'tasks', '_removed_tasks', '_cond_cache', 'session', '_cond_parsers', 'parameters', 'returns'}
         new_self = copy(self)
         for attr in unpicklable:
             setattr(new_self, attr, None)
-- 
2.43.0


From 0a76926153de992ebe649d5f15fa6e4d5b5f76a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:27 +0000
Subject: [PATCH 53/59] fix: a shut down called during a restart is not lost

---
 rocketry/core/schedule.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index a936c3d..8968a42 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -120,7 +120,9 @@ class Scheduler(RedBase):
         self._flag_force_exit.clear()
         self._flag_restart.clear()
         self._flag_enabled.set()
+        await self._serve()
 
+    async def _serve(self):
         self.is_alive = True
         exception = None
         try:
@@ -454,7 +456,7 @@ class Scheduler(RedBase):
             self.is_alive = False
             self.logger.info("Shutdown completed. Good bye.")
 
-        if isinstance(exception, SchedulerRestart):
+        if isinstance(exception, SchedulerRestart) and not self._flag_shutdown.is_set():
             # Clean up finished, restart is finally
             # possible
             await self._restart()
@@ -485,7 +487,10 @@ class Scheduler(RedBase):
         elif restarting == "recall":
             # Mostly useful for testing.
             # Restart by calling the self.__call__ again
-            await asyncio.create_task(self.serve())
+            # (a shut down called meanwhile is still obeyed)
+            self._flag_restart.clear()
+            self._flag_enabled.set()
+            await asyncio.create_task(self._serve())
         else:
             raise ValueError(f"Invalid restaring: {restarting}")
 
-- 
2.43.0


From 47cb76b93dec5fdf92a13b5212721e4cf3539677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:06 +0000
Subject: [PATCH 54/59] fix: setting an attribute of a task does not undo what
 another thread sets at the same time

---
 rocketry/core/task.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 5961f99..316c643 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -20,7 +20,7 @@ try:
 except ImportError: # pragma: no cover
     from typing_extensions import Literal
 
-from pydantic import BaseModel, Field, PrivateAttr, validator
+from pydantic import BaseModel, Field, PrivateAttr, ValidationError, validator
 
 from rocketry._base import RedBase
 from rocketry.core.condition import BaseCondition, AlwaysFalse, All
@@ -409,7 +409,18 @@ class Task(RedBase, BaseModel):
                 return
             if self.session.config.task_pre_exist == "ignore" and value in self.session:
                 raise ValueError(f"Task name '{value}' already exists. Please pick another")
-        super().__setattr__(name, value)
+        field = self.__fields__.get(name)
+        if field is None or self.__pre_root_validators__ or self.__post_root_validators__:
+            super().__setattr__(name, value)
+            return
+        # NOTE: Pydantic replaces the whole __dict__ when one attribute is set. Something
+        # another thread sets at the same time (ie. disabled) would be lost.
+        others = {key: val for key, val in self.__dict__.items() if key != name}
+        value, error = field.validate(value, others, loc=name, cls=type(self))
+        if error:
+            raise ValidationError([error], type(self))
+        self.__dict__[name] = value
+        self.__fields_set__.add(name)
 
     def run(self, _params:Union[Parameters, Dict]=None, **kwargs):
         """Set the task running (with given parameters)
-- 
2.43.0


From 0ef619567ff31dcc7844d59fe19f01345064918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 55/59] fix: a task removed while it is being started is looked
 after

---
 rocketry/core/schedule.py | 6 +++---
 rocketry/session.py       | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 8968a42..cc00ce9 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -247,9 +247,6 @@ class Scheduler(RedBase):
     def is_task_runnable(self, task:Task):
         """Inspect whether the task should be run."""
         #! TODO: Can this be put to the Task?
-        if task not in self.session.tasks:
-            # Removed meanwhile
-            return False
         execution = task.get_execution()
         if execution == "process":
             has_free_processors = self.has_free_processors()
@@ -263,6 +260,9 @@ class Scheduler(RedBase):
             if not allow_multilaunch and task.is_alive():
                 return False
         is_condition = self.check_task_cond(task)
+        if task not in self.session.tasks:
+            # Removed meanwhile
+            return False
         return is_condition
 
     def handle_logs(self):
diff --git a/rocketry/session.py b/rocketry/session.py
index 95b7902..aa747dd 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -493,9 +493,9 @@ class Session(RedBase):
         if not isinstance(task, Task):
             task = self[task]
         self.tasks.remove(task)
-        if task._run_stack:
-            # The scheduler still looks after its runs
-            self._removed_tasks.add(task)
+        # The scheduler still looks after its runs (it
+        # may be starting one right now)
+        self._removed_tasks.add(task)
 
     def task_exists(self, task: 'Task'):
         warnings.warn((
-- 
2.43.0


From 16b617f06c6970da7177a5ae9f4e89a4ecf9e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:53 +0000
Subject: [PATCH 56/59] fix: telling a task to terminate is not lost if one of
 its runs terminates meanwhile

A run that was terminated for another reason (ie. timeout) reset the flag when
it logged its termination. With multilaunch the other runs were never told.
---
 rocketry/core/task.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 316c643..9c808ca 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1160,9 +1160,6 @@ class Task(RedBase, BaseModel):
         msg = self.fmt_log_message.format(action="terminate", task=self.name)
         self._set_status("terminate", task_run, message=msg + f" ({reason})")
 
-        # Reset event and force_termination (for threads)
-        self.force_termination = False
-
     def log_inaction(self, task_run:TaskRun=None):
         """Make a log that the task did nothing."""
         self._set_status("inaction", task_run)
-- 
2.43.0


From 1e22c5434ad798a7dd41b39863dd820d1333a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:15 +0000
Subject: [PATCH 57/59] fix: a TaskCond can be used with different parameters

---
 rocketry/conditions/meta.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/meta.py b/rocketry/conditions/meta.py
index d12c585..ea885e0 100644
--- a/rocketry/conditions/meta.py
+++ b/rocketry/conditions/meta.py
@@ -101,10 +101,17 @@ class TaskCond(BaseCondition):
         "Recreate the condition using args and kwargs"
         new_self = copy.copy(self)
 
+        # Each set of parameters has its own task
+        basename = f"_condition-{self._get_func_name(self.func)}"
+        name = basename
+        num = 0
+        while name in self.session:
+            num += 1
+            name = f"{basename} - {num}"
+
         new_self.task = _FuncTaskCondWrapper(
             func=self.func,
-            #on_exists="rename",
-            name=f"_condition-{self._get_func_name(self.func)}",
+            name=name,
             parameters=kwargs,
             session=self.session,
             **self.kwds_task
-- 
2.43.0


From 4182dddf8e9cb313f2d5e863972d4d16a35e5849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:20 +0000
Subject: [PATCH 58/59] fix: the start condition of a Grouper can be a string

---
 rocketry/application.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/application.py b/rocketry/application.py
index 4ebfefd..5b99877 100644
--- a/rocketry/application.py
+++ b/rocketry/application.py
@@ -9,6 +9,7 @@ from rocketry.log.log_record import LogRecord
 
 from rocketry.conditions import FuncCond
 from rocketry.parameters import FuncParam
+from rocketry.parse import parse_condition
 from rocketry import Session
 
 class _AppMixin:
@@ -36,7 +37,7 @@ class _AppMixin:
             if group.prefix:
                 task.name = group.prefix + task.name
             if group.start_cond is not None:
-                task.start_cond &= group.start_cond
+                task.start_cond &= parse_condition(group.start_cond, session=group.session)
             task.execution = group.execution if task.execution is None else task.execution
 
             self.session.add_task(task)
-- 
2.43.0


From 23820be76e398a230a6deed7d4d3478e24a62598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:15 +0000
Subject: [PATCH 59/59] fix: a function still refers to its task after the task
 is renamed

---
 rocketry/tasks/func.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/func.py b/rocketry/tasks/func.py
index 36f0d54..e2cd10d 100644
--- a/rocketry/tasks/func.py
+++ b/rocketry/tasks/func.py
@@ -202,12 +202,20 @@ class FuncTask(Task):
             # As we return the function, the name of the
             # task might be missing. We set the name so
             # that condition API can identify the name.
-            # If the task is renamed, the link is lost. (TODO)
             func.__rocketry__ = {'name': self.name}
 
             return func
         return super().__call__(*args, **kwargs)
 
+    def __setattr__(self, name, value):
+        old_name = self.__dict__.get("name")
+        super().__setattr__(name, value)
+        if name == "name" and old_name is not None:
+            # The function should still refer to this task
+            link = getattr(self.func, "__rocketry__", {})
+            if link.get("name") == old_name:
+                link["name"] = self.name
+
     def _set_descr(self, is_delayed:bool):
         "Set description from func doc if desc missing"
         if self.description is None and hasattr(self.func, "__doc__"):
-- 
2.43.0

