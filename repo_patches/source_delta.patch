From ed06d5ba640f2c01809cbcd92c1406c89d0d42c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:31 +0000
Subject: [PATCH 01/22] fix: validate nanosecond in LocalDateTime constructor

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1ef0531..1fd2e44 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5284,6 +5284,8 @@ class LocalDateTime(_KnowsLocal):
         nanosecond: int = 0,
     ) -> None:
         self._py_dt = _datetime(year, month, day, hour, minute, second)
+        if nanosecond < 0 or nanosecond >= 1_000_000_000:
+            raise ValueError(f"nanosecond out of range: {nanosecond}")
         self._nanos = nanosecond
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From 7d49a75c9feacdba1a0b54bcf542bc863913ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:01 +0000
Subject: [PATCH 02/22] fix: rounding with odd nanosecond increments

---
 pysrc/whenever/_pywhenever.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1fd2e44..7010131 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1122,7 +1122,10 @@ class Time(_ImmutableBase):
         )
 
         if mode == "half_even":  # check the default mode first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            # odd increments have no exact halfway point
+            threshold_ns = (increment_ns + 1) // 2 + (
+                quotient % 2 == 0 and increment_ns % 2 == 0
+            )
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1130,7 +1133,7 @@ class Time(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
@@ -1553,7 +1556,10 @@ class TimeDelta(_ImmutableBase):
         quotient, remainder_ns = divmod(self._total_ns, increment_ns)
 
         if mode == "half_even":  # check the default case first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            # odd increments have no exact halfway point
+            threshold_ns = (increment_ns + 1) // 2 + (
+                quotient % 2 == 0 and increment_ns % 2 == 0
+            )
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1561,7 +1567,7 @@ class TimeDelta(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
-- 
2.43.0


From cfb9ff44c352635f99a01244e4bf62639c420fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 03/22] fix: Time.__lt__ ignored the other's nanoseconds

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 7010131..ca17e2f 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1176,7 +1176,7 @@ class Time(_ImmutableBase):
     def __lt__(self, other: Time) -> bool:
         if not isinstance(other, Time):
             return NotImplemented
-        return (self._py_time, self._nanos) < (other._py_time, self._nanos)
+        return (self._py_time, self._nanos) < (other._py_time, other._nanos)
 
     def __le__(self, other: Time) -> bool:
         if not isinstance(other, Time):
-- 
2.43.0


From 5d837e0410d47194500343ec6bbfbf8b1e6f69ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 04/22] fix: exact_eq takes the time zone into account

---
 pysrc/whenever/_pywhenever.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index ca17e2f..9ae5c57 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2993,12 +2993,12 @@ class _KnowsInstant(_BasicConversions):
             self._py_dt,  # type: ignore[attr-defined]
             self._py_dt.utcoffset(),  # type: ignore[attr-defined]
             self._nanos,  # type: ignore[attr-defined]
-            type(self._py_dt.tzinfo),  # type: ignore[attr-defined]
+            self._py_dt.tzinfo,  # type: ignore[attr-defined]
         ) == (
             other._py_dt,  # type: ignore[attr-defined]
             other._py_dt.utcoffset(),  # type: ignore[attr-defined]
             other._nanos,  # type: ignore[attr-defined]
-            type(other._py_dt.tzinfo),  # type: ignore[attr-defined]
+            other._py_dt.tzinfo,  # type: ignore[attr-defined]
         )
 
     def difference(
-- 
2.43.0


From 1a1453084d072cf7d9606702f3b7b979f1ca7b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 05/22] fix: OffsetDateTime arithmetic and assume_fixed_offset
 check the UTC range

---
 pysrc/whenever/_pywhenever.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 9ae5c57..8f0b105 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4161,7 +4161,9 @@ class OffsetDateTime(_KnowsInstantAndLocal):
             tdelta._total_ns + self._nanos, 1_000_000_000
         )
         return self._from_py_unchecked(
-            (py_dt_with_new_date + _timedelta(seconds=delta_secs)),
+            _check_utc_bounds(
+                py_dt_with_new_date + _timedelta(seconds=delta_secs)
+            ),
             nanos,
         )
 
@@ -5616,7 +5618,10 @@ class LocalDateTime(_KnowsLocal):
         OffsetDateTime(2020-08-15 23:12:00+02:00)
         """
         return OffsetDateTime._from_py_unchecked(
-            self._py_dt.replace(tzinfo=_load_offset(offset)), self._nanos
+            _check_utc_bounds(
+                self._py_dt.replace(tzinfo=_load_offset(offset))
+            ),
+            self._nanos,
         )
 
     def assume_tz(
-- 
2.43.0


From 043c89c072c666e20dfd528e6e9f7da98eb7bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 06/22] fix: SystemDateTime arithmetic near the range limits
 goes through UTC

---
 pysrc/whenever/_pywhenever.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 8f0b105..c421d46 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4997,12 +4997,15 @@ class SystemDateTime(_KnowsInstantAndLocal):
         for more information.
         """
         if isinstance(delta, TimeDelta):
-            py_dt = self._py_dt
             delta_secs, nanos = divmod(
                 delta._time_part._total_ns + self._nanos, 1_000_000_000
             )
             return self._from_py_unchecked(
-                (py_dt + _timedelta(seconds=delta_secs)).astimezone(), nanos
+                (
+                    self._py_dt.astimezone(_UTC)
+                    + _timedelta(seconds=delta_secs)
+                ).astimezone(),
+                nanos,
             )
         elif isinstance(delta, DateDelta):
             return self.replace_date(self.date() + delta)
-- 
2.43.0


From 593041587d6b1578297f180b0257e1dad229952f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 07/22] fix: ZonedDateTime keeps the offset across a gap when
 possible

---
 pysrc/whenever/_pywhenever.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index c421d46..e9dc4db 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5885,16 +5885,19 @@ def _resolve_ambiguity_using_prev_offset(
     dt: _datetime,
     prev_offset: _timedelta,
 ) -> _datetime:
-    if prev_offset == dt.utcoffset():
-        pass
-    elif prev_offset == dt.replace(fold=not dt.fold).utcoffset():
-        dt = dt.replace(fold=not dt.fold)
-    else:
-        # No offset match. Setting fold=0 adopts the 'compatible' strategy
-        dt = dt.replace(fold=0)
-
-    # This roundtrip ensures skipped times are shifted
-    return dt.astimezone(_UTC).astimezone(dt.tzinfo)
+    # The roundtrip ensures skipped times are shifted. Note this means that
+    # in a gap, the resulting offset differs from that of the skipped time.
+    norm = dt.astimezone(_UTC).astimezone(dt.tzinfo)
+    if norm.utcoffset() != prev_offset:
+        other = (
+            dt.replace(fold=not dt.fold)
+            .astimezone(_UTC)
+            .astimezone(dt.tzinfo)
+        )
+        # If there's no offset match, fold=0 adopts the 'compatible' strategy
+        if other.utcoffset() == prev_offset or dt.fold:
+            return other
+    return norm
 
 
 # Whether the fold of a system time needs to be flipped in a gap
-- 
2.43.0


From d5a7ee6a926d5ccc380ed5d820620ecf6c155529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:41 +0000
Subject: [PATCH 08/22] fix: rounding to the day on days shorter than 24 hours

---
 pysrc/whenever/_pywhenever.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index e9dc4db..6852bb7 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1117,8 +1117,9 @@ class Time(_ImmutableBase):
         day_in_ns: int,
     ) -> tuple[Time, int]:  # the time, and whether the result is "next day"
 
+        # on shortened days, the clock can show more than the day's length
         quotient, remainder_ns = divmod(
-            self._to_ns_since_midnight(), increment_ns
+            min(self._to_ns_since_midnight(), day_in_ns - 1), increment_ns
         )
 
         if mode == "half_even":  # check the default mode first
-- 
2.43.0


From b538a7085e3ddbe7b86746e51bf6768f3315284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 09/22] fix: dividing a TimeDelta by an integer lost
 nanoseconds

---
 pysrc/whenever/_pywhenever.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 6852bb7..30efb4c 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1716,7 +1716,15 @@ class TimeDelta(_ImmutableBase):
         """
         if isinstance(other, TimeDelta):
             return self._total_ns / other._total_ns
-        elif isinstance(other, (int, float)):
+        elif isinstance(other, int):
+            # floats would lose nanoseconds on large deltas
+            nanos = abs(self._total_ns) // abs(other)
+            return TimeDelta(
+                nanoseconds=(
+                    nanos if (self._total_ns < 0) == (other < 0) else -nanos
+                )
+            )
+        elif isinstance(other, float):
             return TimeDelta(nanoseconds=int(self._total_ns / other))
         return NotImplemented
 
-- 
2.43.0


From c16a1d69c9e16688dbbbefd8875809c9cc54b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 10/22] fix: date-time delta addition could produce mixed signs

---
 pysrc/whenever/_pywhenever.py | 36 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 30efb4c..4c5ad1e 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2009,19 +2009,13 @@ class DateDelta(_ImmutableBase):
                 days=self._days + other._days,
             )
         elif isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         else:
             return NotImplemented
 
     def __radd__(self, other: TimeDelta) -> DateTimeDelta:
         if isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         return NotImplemented
 
     @overload
@@ -2325,19 +2319,18 @@ class DateTimeDelta(_ImmutableBase):
         >>> d + DateTimeDelta(months=2, days=3, minutes=90)
         DateTimeDelta(P1M1W14DT5H30M)
         """
-        new = _object_new(DateTimeDelta)
         if isinstance(other, DateTimeDelta):
-            new._date_part = self._date_part + other._date_part
-            new._time_part = self._time_part + other._time_part
+            d = self._date_part + other._date_part
+            t = self._time_part + other._time_part
         elif isinstance(other, TimeDelta):
-            new._date_part = self._date_part
-            new._time_part = self._time_part + other
+            d = self._date_part
+            t = self._time_part + other
         elif isinstance(other, DateDelta):
-            new._date_part = self._date_part + other
-            new._time_part = self._time_part
+            d = self._date_part + other
+            t = self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __radd__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
         if isinstance(other, (TimeDelta, DateDelta)):
@@ -2369,16 +2362,15 @@ class DateTimeDelta(_ImmutableBase):
         return self._from_parts(d, t)
 
     def __rsub__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
-        new = _object_new(DateTimeDelta)
         if isinstance(other, TimeDelta):
-            new._date_part = -self._date_part
-            new._time_part = other - self._time_part
+            d = -self._date_part
+            t = other - self._time_part
         elif isinstance(other, DateDelta):
-            new._date_part = other - self._date_part
-            new._time_part = -self._time_part
+            d = other - self._date_part
+            t = -self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __eq__(self, other: object) -> bool:
         """Compare for equality
-- 
2.43.0


From 388cc094b67a6cd1be79e8e0f9aae6c5d63a163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 11/22] fix: in_months_days_secs_nanos lost nanoseconds on
 large deltas

---
 pysrc/whenever/_pywhenever.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 4c5ad1e..9930204 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2225,8 +2225,11 @@ class DateTimeDelta(_ImmutableBase):
         >>> d.in_months_days_secs_nanos()
         (0, 18, 14_400, 2000)
         """
-        subsec_nanos = int(fmod(self._time_part._total_ns, 1_000_000_000))
-        whole_seconds = int(self._time_part._total_ns / 1_000_000_000)
+        whole_seconds, subsec_nanos = divmod(
+            abs(self._time_part._total_ns), 1_000_000_000
+        )
+        if self._time_part._total_ns < 0:
+            whole_seconds, subsec_nanos = -whole_seconds, -subsec_nanos
         return self._date_part.in_months_days() + (whole_seconds, subsec_nanos)
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From 52b951b6199e75446d99d5d5d211399d0aaec6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 12/22] fix: ZonedDateTime.parse_common_iso accepted local
 times that don't exist

---
 pysrc/whenever/_pywhenever.py | 11 ++++++++---
 src/zoned_datetime.rs         |  6 +++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 9930204..645faa1 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4370,10 +4370,15 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             naive_dt = _fromisoformat(s[:19])
         except ValueError:
             raise ValueError(f"Invalid format: {s!r}")
-        dt = _check_utc_bounds(naive_dt.replace(tzinfo=ZoneInfo(match[12])))
-        return cls._from_py_unchecked(
-            _adjust_fold_to_offset(dt, offset), nanos
+        dt = _check_utc_bounds(
+            _adjust_fold_to_offset(
+                naive_dt.replace(tzinfo=ZoneInfo(match[12])), offset
+            )
         )
+        # In a gap, neither offset is valid: the local time doesn't exist
+        if dt.astimezone(_UTC).astimezone(dt.tzinfo) != dt:
+            raise InvalidOffset()
+        return cls._from_py_unchecked(dt, nanos)
 
     @classmethod
     def from_timestamp(cls, i: int, /, *, tz: str) -> ZonedDateTime:
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index b175a32..68abe41 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -1207,9 +1207,9 @@ unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn
     defer_decref!(zoneinfo);
     let offset_is_valid = match OffsetResult::for_tz(py_api, date, time, zoneinfo)? {
         OffsetResult::Unambiguous(o) => o == offset_secs,
-        OffsetResult::Gap(o1, o2) | OffsetResult::Fold(o1, o2) => {
-            o1 == offset_secs || o2 == offset_secs
-        }
+        OffsetResult::Fold(o1, o2) => o1 == offset_secs || o2 == offset_secs,
+        // the local time doesn't exist
+        OffsetResult::Gap(_, _) => false,
     };
     if offset_is_valid {
         ZonedDateTime::new(date, time, offset_secs, zoneinfo)
-- 
2.43.0


From 9fe36e85ad8072365c49d1ac0e749bdf9bb1ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 13/22] fix: parsing ISO durations lost nanoseconds

---
 pysrc/whenever/_pywhenever.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 645faa1..3bb9af9 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1801,7 +1801,7 @@ def _parse_timedelta_component(s: str, exc: Exception) -> tuple[str, int, str]:
         raise exc
     digits_maybe_fractional, unit = match.groups()
     if unit == "S":
-        value = int(float(digits_maybe_fractional) * 1_000_000_000)
+        value = _parse_seconds(digits_maybe_fractional)
     else:
         try:
             value = int(digits_maybe_fractional)
@@ -1810,6 +1810,12 @@ def _parse_timedelta_component(s: str, exc: Exception) -> tuple[str, int, str]:
     return s[len(digits_maybe_fractional) + 1 :], value, unit  # noqa[E203]
 
 
+def _parse_seconds(s: str) -> int:
+    """Nanoseconds in a decimal number of seconds (up to 9 decimals)"""
+    whole, _, fraction = s.partition(".")
+    return int(whole) * 1_000_000_000 + int(fraction.ljust(9, "0"))
+
+
 TimeDelta.ZERO = TimeDelta()
 TimeDelta.MAX = TimeDelta(seconds=9999 * 366 * 24 * 3_600)
 TimeDelta.MIN = TimeDelta(seconds=-9999 * 366 * 24 * 3_600)
@@ -2309,7 +2315,7 @@ class DateTimeDelta(_ImmutableBase):
             days=int(days or 0),
             hours=int(hours or 0),
             minutes=int(minutes or 0),
-            seconds=float(seconds or 0),
+            nanoseconds=_parse_seconds(seconds or "0"),
         )
         return -parsed if sign == "-" else parsed
 
-- 
2.43.0


From 3e758a0a03305cda65706fa038e3f0b797676b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 14/22] fix: DateTimeDelta.parse_common_iso accepted 'S'
 without a number

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 3bb9af9..2c6ea8a 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -6007,7 +6007,7 @@ _match_rfc3339 = re.compile(
 ).fullmatch
 _match_datetimedelta = re.compile(
     r"([-+]?)P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)W)?(?:(\d+)D)?"
-    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)?S)?)?",
+    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)S)?)?",
     re.ASCII,
 ).fullmatch
 _match_time = re.compile(
-- 
2.43.0


From d6c5dca5d47ed549b84d4d39a12e9822e65c8e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 15/22] fix: Date.parse_common_iso accepted other formats, or
 raised IndexError

---
 pysrc/whenever/_pywhenever.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 2c6ea8a..f2f8ed7 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -308,8 +308,8 @@ class Date(_ImmutableBase):
         >>> Date.parse_common_iso("2021-01-02")
         Date(2021-01-02)
         """
-        if s[5] == "W" or not s.isascii():
-            # prevent isoformat from parsing week dates
+        # prevent isoformat from parsing basic format, week dates, etc.
+        if not _match_date(s):
             raise ValueError(f"Invalid format: {s!r}")
         try:
             return cls._from_py_unchecked(_date.fromisoformat(s))
@@ -6010,6 +6010,7 @@ _match_datetimedelta = re.compile(
     r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)S)?)?",
     re.ASCII,
 ).fullmatch
+_match_date = re.compile(r"\d{4}-\d{2}-\d{2}", re.ASCII).fullmatch
 _match_time = re.compile(
     r"([0-2]\d):([0-5]\d):([0-5]\d)(?:\.(\d{1,9}))?", re.ASCII
 ).fullmatch
-- 
2.43.0


From a3810c09c511a646935aa5cd2e272a77f2e4995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 16/22] fix: OffsetDateTime.parse_rfc2822 accepted moments out
 of range

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index f2f8ed7..53737e0 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4005,7 +4005,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "RFC 2822 string with missing or -0000 offset "
                 f"cannot be parsed as OffsetDateTime: {s!r}"
             )
-        return cls._from_py_unchecked(parsed, 0)
+        return cls._from_py_unchecked(_check_utc_bounds(parsed), 0)
 
     def format_rfc3339(self) -> str:
         """Format as an RFC 3339 string ``YYYY-MM-DD HH:MM:SS±HH:MM``
-- 
2.43.0


From 0de87055311a34fc4ac2084913a8d712a7839906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 17/22] fix: a ticking time patch at an OffsetDateTime couldn't
 be shifted

---
 pysrc/whenever/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/__init__.py b/pysrc/whenever/__init__.py
index 9a6c035..8e82fef 100644
--- a/pysrc/whenever/__init__.py
+++ b/pysrc/whenever/__init__.py
@@ -63,9 +63,12 @@ class _TimePatch:
 
     def shift(self, *args, **kwargs):
         if self._keep_ticking:
-            self._pin = new = (self._pin + (Instant.now() - self._pin)).add(
-                *args, **kwargs
-            )
+            elapsed = Instant.now() - self._pin
+            if isinstance(self._pin, OffsetDateTime):
+                current = self._pin.add(elapsed, ignore_dst=True)
+            else:
+                current = self._pin + elapsed
+            self._pin = new = current.add(*args, **kwargs)
             _patch_time_keep_ticking(
                 new if isinstance(new, Instant) else new.instant()
             )
-- 
2.43.0


From ea4133b8bce3d7f98a2c10148cd9f4dc11bc3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:55 +0000
Subject: [PATCH 18/22] fix: Time.from_py_time silently dropped the tzinfo of
 datetime.time subclasses

---
 pysrc/whenever/_pywhenever.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 53737e0..b7240fd 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -996,14 +996,13 @@ class Time(_ImmutableBase):
 
         `fold` value is ignored.
         """
-        if type(t) is _time:
-            if t.tzinfo is not None:
-                raise ValueError("Time must be naive")
-        elif isinstance(t, _time):
+        if not isinstance(t, _time):
+            raise TypeError(f"Expected datetime.time, got {type(t)!r}")
+        elif t.tzinfo is not None:
+            raise ValueError("Time must be naive")
+        elif type(t) is not _time:
             # subclass-safe way to ensure we have exactly a datetime.time
             t = _time(t.hour, t.minute, t.second, t.microsecond)
-        else:
-            raise TypeError(f"Expected datetime.time, got {type(t)!r}")
         return cls._from_py_unchecked(
             t.replace(microsecond=0), t.microsecond * 1_000
         )
-- 
2.43.0


From a32a216e89f4b5185b67e099035fdb75d9f8ba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:31 +0000
Subject: [PATCH 19/22] fix: SystemDateTime.is_ambiguous was wrong for skipped
 times and times with a fold

---
 pysrc/whenever/_pywhenever.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index b7240fd..d47665a 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5157,8 +5157,15 @@ class SystemDateTime(_KnowsInstantAndLocal):
         ----
         This method may give a different result after a change to the system timezone.
         """
-        naive = self._py_dt.replace(tzinfo=None)
-        return naive.astimezone(_UTC) != naive.replace(fold=1).astimezone(_UTC)
+        # The original fold may be set, or (after a change to the system
+        # timezone) this local time may be skipped instead of repeated.
+        naive = self._py_dt.replace(tzinfo=None, fold=0)
+        utc = naive.astimezone(_UTC)
+        return (
+            utc != naive.replace(fold=1).astimezone(_UTC)
+            # skipped times don't survive a UTC roundtrip
+            and utc.astimezone().replace(tzinfo=None) == naive
+        )
 
     def day_length(self) -> TimeDelta:
         """The duration between the start of the current day and the next.
-- 
2.43.0


From 443f07df277a638254b6e2830969d7f30e17ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:17 +0000
Subject: [PATCH 20/22] fix: from_timestamp() of a tiny negative float no
 longer breaks the nanosecond invariant

divmod(i, 1) rounds the fraction of such a float up to 1.0, giving a
value with a billion nanoseconds in its second (or an AssertionError).
---
 pysrc/whenever/_pywhenever.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d47665a..7348671 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3271,10 +3271,8 @@ class Instant(_KnowsInstant):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
-        return cls._from_py_unchecked(
-            _fromtimestamp(secs, _UTC), int(fract * 1_000_000_000)
-        )
+        secs, nanos = _split_timestamp(i)
+        return cls._from_py_unchecked(_fromtimestamp(secs, _UTC), nanos)
 
     @classmethod
     def from_timestamp_millis(cls, i: int, /) -> Instant:
@@ -3773,10 +3771,9 @@ class OffsetDateTime(_KnowsInstantAndLocal):
         """
         if ignore_dst is not True:
             raise ImplicitlyIgnoringDST(TIMESTAMP_DST_MSG)
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _load_offset(offset)),
-            int(fract * 1_000_000_000),
+            _fromtimestamp(secs, _load_offset(offset)), nanos
         )
 
     @classmethod
@@ -4391,9 +4388,9 @@ class ZonedDateTime(_KnowsInstantAndLocal):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, ZoneInfo(tz)), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, ZoneInfo(tz)), nanos
         )
 
     @classmethod
@@ -4898,9 +4895,9 @@ class SystemDateTime(_KnowsInstantAndLocal):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _UTC).astimezone(), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, _UTC).astimezone(), nanos
         )
 
     @classmethod
@@ -5993,6 +5990,16 @@ def _load_offset(offset: int | TimeDelta, /) -> _timezone:
 _no_tzinfo_fold_or_ms = {"tzinfo", "fold", "microsecond"}.isdisjoint
 _fromisoformat = _datetime.fromisoformat
 _fromtimestamp = _datetime.fromtimestamp
+
+
+def _split_timestamp(i: int | float, /) -> tuple[int | float, int]:
+    # The fractional part of a tiny negative float is rounded up to 1.0,
+    # in which case the nanoseconds need to be carried to the seconds.
+    secs, fract = divmod(i, 1)
+    carry, nanos = divmod(int(fract * 1_000_000_000), 1_000_000_000)
+    return secs + carry, nanos
+
+
 _DT_RE_GROUPED = r"(\d{4})-([0-2]\d)-([0-3]\d)T([0-2]\d):([0-5]\d):([0-5]\d)(?:\.(\d{1,9}))?"
 _OFFSET_DATETIME_RE = (
     _DT_RE_GROUPED + r"(?:([+-])([0-2]\d):([0-5]\d)(?::([0-5]\d))?|Z)"
-- 
2.43.0


From b17b667b259da1b688ae0e6df9ee280a5be22e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 21/22] fix: OffsetDateTime.strptime() refuses sub-second
 offsets, like from_py_datetime()

Such a value could not be converted (AssertionError in instant()).
---
 pysrc/whenever/_pywhenever.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 7348671..57a4096 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3954,10 +3954,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "Parsed datetime must have an offset. "
                 "Use %z, %Z, or %:z in the format string"
             )
-        return cls._from_py_unchecked(
-            _check_utc_bounds(parsed.replace(microsecond=0)),
-            parsed.microsecond * 1_000,
-        )
+        return cls.from_py_datetime(parsed)
 
     def format_rfc2822(self) -> str:
         """Format as an RFC 2822 string.
-- 
2.43.0


From 98d245673a98ec9067599e0883d8a82666b620c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:06 +0000
Subject: [PATCH 22/22] fix: attributes can no longer be added to a
 LocalDateTime

Like all the other classes, it now has no instance dictionary.
---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 57a4096..7a9fee3 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5298,6 +5298,8 @@ class LocalDateTime(_KnowsLocal):
       time in a simulation game.
     """
 
+    __slots__ = ()
+
     def __init__(
         self,
         year: int,
-- 
2.43.0

