From a38a73a58b6f48037e415c90d54b8af7909c3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 01/23] fix: compare the nanoseconds of both operands in
 Time.__lt__

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1ef0531..d9cd4c0 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1173,7 +1173,7 @@ class Time(_ImmutableBase):
     def __lt__(self, other: Time) -> bool:
         if not isinstance(other, Time):
             return NotImplemented
-        return (self._py_time, self._nanos) < (other._py_time, self._nanos)
+        return (self._py_time, self._nanos) < (other._py_time, other._nanos)
 
     def __le__(self, other: Time) -> bool:
         if not isinstance(other, Time):
-- 
2.43.0


From 8326e90425f6ae5ea483186aec1dde2fcf9dbed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 02/23] fix: check the nanosecond range in the LocalDateTime
 constructor

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d9cd4c0..1b857fe 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5284,6 +5284,8 @@ class LocalDateTime(_KnowsLocal):
         nanosecond: int = 0,
     ) -> None:
         self._py_dt = _datetime(year, month, day, hour, minute, second)
+        if nanosecond < 0 or nanosecond >= 1_000_000_000:
+            raise ValueError(f"nanosecond out of range: {nanosecond}")
         self._nanos = nanosecond
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From 5d03efbaef1f28c9246f4662ced53edadc38b06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 03/23] fix: reject mixed-sign DateTimeDelta results of + and -

---
 pysrc/whenever/_pywhenever.py | 36 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1b857fe..76d5128 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1994,19 +1994,13 @@ class DateDelta(_ImmutableBase):
                 days=self._days + other._days,
             )
         elif isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         else:
             return NotImplemented
 
     def __radd__(self, other: TimeDelta) -> DateTimeDelta:
         if isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         return NotImplemented
 
     @overload
@@ -2310,19 +2304,18 @@ class DateTimeDelta(_ImmutableBase):
         >>> d + DateTimeDelta(months=2, days=3, minutes=90)
         DateTimeDelta(P1M1W14DT5H30M)
         """
-        new = _object_new(DateTimeDelta)
         if isinstance(other, DateTimeDelta):
-            new._date_part = self._date_part + other._date_part
-            new._time_part = self._time_part + other._time_part
+            d = self._date_part + other._date_part
+            t = self._time_part + other._time_part
         elif isinstance(other, TimeDelta):
-            new._date_part = self._date_part
-            new._time_part = self._time_part + other
+            d = self._date_part
+            t = self._time_part + other
         elif isinstance(other, DateDelta):
-            new._date_part = self._date_part + other
-            new._time_part = self._time_part
+            d = self._date_part + other
+            t = self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __radd__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
         if isinstance(other, (TimeDelta, DateDelta)):
@@ -2354,16 +2347,15 @@ class DateTimeDelta(_ImmutableBase):
         return self._from_parts(d, t)
 
     def __rsub__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
-        new = _object_new(DateTimeDelta)
         if isinstance(other, TimeDelta):
-            new._date_part = -self._date_part
-            new._time_part = other - self._time_part
+            d = -self._date_part
+            t = other - self._time_part
         elif isinstance(other, DateDelta):
-            new._date_part = other - self._date_part
-            new._time_part = -self._time_part
+            d = other - self._date_part
+            t = -self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __eq__(self, other: object) -> bool:
         """Compare for equality
-- 
2.43.0


From 97083a95c1aaf89170bc3cae040fda21fbf0fb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 04/23] fix: reject OffsetDateTime results whose UTC time is
 out of range

---
 pysrc/whenever/_pywhenever.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 76d5128..06a4397 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3981,7 +3981,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "RFC 2822 string with missing or -0000 offset "
                 f"cannot be parsed as OffsetDateTime: {s!r}"
             )
-        return cls._from_py_unchecked(parsed, 0)
+        return cls._from_py_unchecked(_check_utc_bounds(parsed), 0)
 
     def format_rfc3339(self) -> str:
         """Format as an RFC 3339 string ``YYYY-MM-DD HH:MM:SS±HH:MM``
@@ -4147,7 +4147,9 @@ class OffsetDateTime(_KnowsInstantAndLocal):
             tdelta._total_ns + self._nanos, 1_000_000_000
         )
         return self._from_py_unchecked(
-            (py_dt_with_new_date + _timedelta(seconds=delta_secs)),
+            _check_utc_bounds(
+                py_dt_with_new_date + _timedelta(seconds=delta_secs)
+            ),
             nanos,
         )
 
@@ -5602,7 +5604,10 @@ class LocalDateTime(_KnowsLocal):
         OffsetDateTime(2020-08-15 23:12:00+02:00)
         """
         return OffsetDateTime._from_py_unchecked(
-            self._py_dt.replace(tzinfo=_load_offset(offset)), self._nanos
+            _check_utc_bounds(
+                self._py_dt.replace(tzinfo=_load_offset(offset))
+            ),
+            self._nanos,
         )
 
     def assume_tz(
-- 
2.43.0


From efff80e9cf69b08223094b25614e8136816d40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 05/23] fix: Date.parse_common_iso accepts only YYYY-MM-DD,
 failing with ValueError

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 06a4397..87b287e 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -308,7 +308,7 @@ class Date(_ImmutableBase):
         >>> Date.parse_common_iso("2021-01-02")
         Date(2021-01-02)
         """
-        if s[5] == "W" or not s.isascii():
+        if len(s) != 10 or s[5] == "W" or not s.isascii():
             # prevent isoformat from parsing week dates
             raise ValueError(f"Invalid format: {s!r}")
         try:
-- 
2.43.0


From dda7ea143df8cf8b209f60ee024e89091fc6262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 06/23] fix: reject skipped local times when parsing a
 ZonedDateTime

---
 pysrc/whenever/_pywhenever.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 87b287e..0e652e2 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -6071,6 +6071,9 @@ def _adjust_fold_to_offset(dt: _datetime, offset: _timedelta) -> _datetime:
         dt = dt.replace(fold=1)
         if dt.utcoffset() != offset:
             raise InvalidOffset()
+    # a skipped local time doesn't survive the roundtrip: no offset is valid
+    if dt.astimezone(_UTC).astimezone(dt.tzinfo) != dt:
+        raise InvalidOffset()
     return dt
 
 
-- 
2.43.0


From 95c2217aa5455e1479033fa2f666592c58e0a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 07/23] fix: reject a seconds designator without digits in
 DateTimeDelta.parse_common_iso

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 0e652e2..0998574 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5972,7 +5972,7 @@ _match_rfc3339 = re.compile(
 ).fullmatch
 _match_datetimedelta = re.compile(
     r"([-+]?)P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)W)?(?:(\d+)D)?"
-    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)?S)?)?",
+    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)S)?)?",
     re.ASCII,
 ).fullmatch
 _match_time = re.compile(
-- 
2.43.0


From 12e95838f34885b42308fdc89384840e435b150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 08/23] fix: parse fractional seconds of deltas exactly

---
 pysrc/whenever/_pywhenever.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 0998574..1b3ebcd 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1781,12 +1781,18 @@ def _unpkl_tdelta(data: bytes) -> TimeDelta:
     return TimeDelta(seconds=s, nanoseconds=ns)
 
 
+# Floats aren't precise enough for this
+def _parse_secs_to_nanos(s: str) -> int:
+    whole, _, fraction = s.partition(".")
+    return int(whole) * 1_000_000_000 + int(fraction.ljust(9, "0"))
+
+
 def _parse_timedelta_component(s: str, exc: Exception) -> tuple[str, int, str]:
     if (match := _match_next_timedelta_component(s)) is None:
         raise exc
     digits_maybe_fractional, unit = match.groups()
     if unit == "S":
-        value = int(float(digits_maybe_fractional) * 1_000_000_000)
+        value = _parse_secs_to_nanos(digits_maybe_fractional)
     else:
         try:
             value = int(digits_maybe_fractional)
@@ -2291,7 +2297,7 @@ class DateTimeDelta(_ImmutableBase):
             days=int(days or 0),
             hours=int(hours or 0),
             minutes=int(minutes or 0),
-            seconds=float(seconds or 0),
+            nanoseconds=_parse_secs_to_nanos(seconds or "0"),
         )
         return -parsed if sign == "-" else parsed
 
-- 
2.43.0


From 1121585288cf3fc5efa849ebbd958e1b420ceb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 09/23] fix: exact result of
 DateTimeDelta.in_months_days_secs_nanos

---
 pysrc/whenever/_pywhenever.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1b3ebcd..eacfcef 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2216,8 +2216,11 @@ class DateTimeDelta(_ImmutableBase):
         >>> d.in_months_days_secs_nanos()
         (0, 18, 14_400, 2000)
         """
-        subsec_nanos = int(fmod(self._time_part._total_ns, 1_000_000_000))
-        whole_seconds = int(self._time_part._total_ns / 1_000_000_000)
+        whole_seconds, subsec_nanos = divmod(
+            abs(self._time_part._total_ns), 1_000_000_000
+        )
+        if self._time_part._total_ns < 0:
+            whole_seconds, subsec_nanos = -whole_seconds, -subsec_nanos
         return self._date_part.in_months_days() + (whole_seconds, subsec_nanos)
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From 007ed6249963ca52809a53a3c6b15dc43d10b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 10/23] fix: don't round up below the halfway point of odd
 increments

---
 pysrc/whenever/_pywhenever.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index eacfcef..30601ce 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1122,7 +1122,7 @@ class Time(_ImmutableBase):
         )
 
         if mode == "half_even":  # check the default mode first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            threshold_ns = (increment_ns + 1 + (quotient % 2 == 0)) // 2
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1130,7 +1130,7 @@ class Time(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
@@ -1553,7 +1553,7 @@ class TimeDelta(_ImmutableBase):
         quotient, remainder_ns = divmod(self._total_ns, increment_ns)
 
         if mode == "half_even":  # check the default case first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            threshold_ns = (increment_ns + 1 + (quotient % 2 == 0)) // 2
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1561,7 +1561,7 @@ class TimeDelta(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
-- 
2.43.0


From b0ee9c55df76f904f7225b410468aca67ada4ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 11/23] fix: preserve the offset of a ZonedDateTime shifted
 into a gap, if possible

---
 pysrc/whenever/_pywhenever.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 30601ce..79a000a 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5877,14 +5877,19 @@ def _resolve_ambiguity_using_prev_offset(
     dt: _datetime,
     prev_offset: _timedelta,
 ) -> _datetime:
-    if prev_offset == dt.utcoffset():
+    # NOTE: skipped times have a different offset after being shifted
+    if prev_offset == _normalize(dt).utcoffset():
         pass
-    elif prev_offset == dt.replace(fold=not dt.fold).utcoffset():
+    elif prev_offset == _normalize(dt.replace(fold=not dt.fold)).utcoffset():
         dt = dt.replace(fold=not dt.fold)
     else:
         # No offset match. Setting fold=0 adopts the 'compatible' strategy
         dt = dt.replace(fold=0)
 
+    return _normalize(dt)
+
+
+def _normalize(dt: _datetime) -> _datetime:
     # This roundtrip ensures skipped times are shifted
     return dt.astimezone(_UTC).astimezone(dt.tzinfo)
 
-- 
2.43.0


From c99de5ba370475ecc1d4b4e357da317c67b6f7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 12/23] fix: rounding to a day shorter than 24 hours late on
 that day

---
 pysrc/whenever/_pywhenever.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 79a000a..20048ce 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1120,13 +1120,17 @@ class Time(_ImmutableBase):
         quotient, remainder_ns = divmod(
             self._to_ns_since_midnight(), increment_ns
         )
+        if quotient and increment_ns == day_in_ns:
+            # on a day shorter than 24 hours, the clock time at the end of
+            # the day exceeds the day length. It's still the same day though.
+            quotient, remainder_ns = 0, self._to_ns_since_midnight()
 
         if mode == "half_even":  # check the default mode first
             threshold_ns = (increment_ns + 1 + (quotient % 2 == 0)) // 2
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
-            threshold_ns = increment_ns + 1  # Never round up
+            threshold_ns = remainder_ns + 1  # Never round up
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-- 
2.43.0


From 70448de6ba44bea888e2bfa08fd030db7988b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 13/23] fix: refuse aware instances of time subclasses in
 Time.from_py_time

---
 pysrc/whenever/_pywhenever.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 20048ce..f16ea0f 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -996,14 +996,13 @@ class Time(_ImmutableBase):
 
         `fold` value is ignored.
         """
-        if type(t) is _time:
-            if t.tzinfo is not None:
-                raise ValueError("Time must be naive")
-        elif isinstance(t, _time):
+        if not isinstance(t, _time):
+            raise TypeError(f"Expected datetime.time, got {type(t)!r}")
+        if t.tzinfo is not None:
+            raise ValueError("Time must be naive")
+        if type(t) is not _time:
             # subclass-safe way to ensure we have exactly a datetime.time
             t = _time(t.hour, t.minute, t.second, t.microsecond)
-        else:
-            raise TypeError(f"Expected datetime.time, got {type(t)!r}")
         return cls._from_py_unchecked(
             t.replace(microsecond=0), t.microsecond * 1_000
         )
-- 
2.43.0


From 50b3fa3acca9bb8a855799a718153161437a0104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 14/23] fix: shift of a ticking patched time given as
 OffsetDateTime

---
 pysrc/whenever/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/__init__.py b/pysrc/whenever/__init__.py
index 9a6c035..3e22034 100644
--- a/pysrc/whenever/__init__.py
+++ b/pysrc/whenever/__init__.py
@@ -63,9 +63,13 @@ class _TimePatch:
 
     def shift(self, *args, **kwargs):
         if self._keep_ticking:
-            self._pin = new = (self._pin + (Instant.now() - self._pin)).add(
-                *args, **kwargs
-            )
+            elapsed = Instant.now() - self._pin
+            self._pin = new = (
+                # fixed offset datetimes don't support the `+` operator
+                self._pin.add(elapsed, ignore_dst=True)
+                if isinstance(self._pin, OffsetDateTime)
+                else self._pin + elapsed
+            ).add(*args, **kwargs)
             _patch_time_keep_ticking(
                 new if isinstance(new, Instant) else new.instant()
             )
-- 
2.43.0


From 4cb057dfe9848583bdb24cac167b20e3f1671b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:39 +0000
Subject: [PATCH 15/23] fix: LocalDateTime accepted arbitrary new attributes
 (no __slots__)

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index f16ea0f..9bff467 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5278,6 +5278,8 @@ class LocalDateTime(_KnowsLocal):
       time in a simulation game.
     """
 
+    __slots__ = ()
+
     def __init__(
         self,
         year: int,
-- 
2.43.0


From b436933a213ab8b3cee8809a16b1d8ff2fdc7f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 16/23] fix: SystemDateTime.start_of_day was typed as returning
 a ZonedDateTime

---
 pysrc/whenever/__init__.pyi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/__init__.pyi b/pysrc/whenever/__init__.pyi
index 7023537..03f2c0c 100644
--- a/pysrc/whenever/__init__.pyi
+++ b/pysrc/whenever/__init__.pyi
@@ -872,7 +872,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
     ) -> SystemDateTime: ...
     def is_ambiguous(self) -> bool: ...
     def hours_in_day(self) -> float: ...
-    def start_of_day(self) -> ZonedDateTime: ...
+    def start_of_day(self) -> SystemDateTime: ...
     def round(
         self,
         unit: Literal[
-- 
2.43.0


From e48fd708a5d330f2b95ea222711d3f13a1c5167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 17/23] fix: day_length was missing from the type stub

---
 pysrc/whenever/__init__.pyi | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/__init__.pyi b/pysrc/whenever/__init__.pyi
index 03f2c0c..a71c1d9 100644
--- a/pysrc/whenever/__init__.pyi
+++ b/pysrc/whenever/__init__.pyi
@@ -715,6 +715,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
     ) -> ZonedDateTime: ...
     def is_ambiguous(self) -> bool: ...
     def hours_in_day(self) -> float: ...
+    def day_length(self) -> TimeDelta: ...
     def start_of_day(self) -> ZonedDateTime: ...
     def round(
         self,
@@ -872,6 +873,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
     ) -> SystemDateTime: ...
     def is_ambiguous(self) -> bool: ...
     def hours_in_day(self) -> float: ...
+    def day_length(self) -> TimeDelta: ...
     def start_of_day(self) -> SystemDateTime: ...
     def round(
         self,
-- 
2.43.0


From 50b4a6b8cd8cbced258188c474e7fc9846bd2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 18/23] fix: type stub allowed ignore_dst as a positional
 argument of add and subtract

---
 pysrc/whenever/__init__.pyi | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/__init__.pyi b/pysrc/whenever/__init__.pyi
index a71c1d9..05edd66 100644
--- a/pysrc/whenever/__init__.pyi
+++ b/pysrc/whenever/__init__.pyi
@@ -534,7 +534,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
     ) -> OffsetDateTime: ...
     @overload
     def add(
-        self, d: Delta, /, ignore_dst: Literal[True]
+        self, d: Delta, /, *, ignore_dst: Literal[True]
     ) -> OffsetDateTime: ...
     @overload
     def subtract(
@@ -554,7 +554,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
     ) -> OffsetDateTime: ...
     @overload
     def subtract(
-        self, d: Delta, /, ignore_dst: Literal[True]
+        self, d: Delta, /, *, ignore_dst: Literal[True]
     ) -> OffsetDateTime: ...
     def round(
         self,
-- 
2.43.0


From c3264ae3a9e5636f8c38ba74ce4d8f078a2ae68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 19/23] fix: names missing from __all__ of the type stub

---
 pysrc/whenever/__init__.pyi | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pysrc/whenever/__init__.pyi b/pysrc/whenever/__init__.pyi
index 05edd66..dd5c67f 100644
--- a/pysrc/whenever/__init__.pyi
+++ b/pysrc/whenever/__init__.pyi
@@ -17,6 +17,8 @@ __all__ = [
     "ZonedDateTime",
     "SystemDateTime",
     "LocalDateTime",
+    "YearMonth",
+    "MonthDay",
     "DateDelta",
     "TimeDelta",
     "DateTimeDelta",
@@ -27,10 +29,14 @@ __all__ = [
     "hours",
     "minutes",
     "seconds",
+    "milliseconds",
     "microseconds",
+    "nanoseconds",
     "SkippedTime",
     "RepeatedTime",
     "InvalidOffset",
+    "ImplicitlyIgnoringDST",
+    "Weekday",
     "MONDAY",
     "TUESDAY",
     "WEDNESDAY",
-- 
2.43.0


From 1f7ca9d3efd4746d1837c43b59dc992c3c04c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 20/23] fix: type stub declared hours_in_day, which no longer
 exists

---
 pysrc/whenever/__init__.pyi | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pysrc/whenever/__init__.pyi b/pysrc/whenever/__init__.pyi
index dd5c67f..576e737 100644
--- a/pysrc/whenever/__init__.pyi
+++ b/pysrc/whenever/__init__.pyi
@@ -720,7 +720,6 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         disambiguate: Literal["compatible", "raise", "earlier", "later"] = ...,
     ) -> ZonedDateTime: ...
     def is_ambiguous(self) -> bool: ...
-    def hours_in_day(self) -> float: ...
     def day_length(self) -> TimeDelta: ...
     def start_of_day(self) -> ZonedDateTime: ...
     def round(
@@ -878,7 +877,6 @@ class SystemDateTime(_KnowsInstantAndLocal):
         disambiguate: Literal["compatible", "raise", "earlier", "later"] = ...,
     ) -> SystemDateTime: ...
     def is_ambiguous(self) -> bool: ...
-    def hours_in_day(self) -> float: ...
     def day_length(self) -> TimeDelta: ...
     def start_of_day(self) -> SystemDateTime: ...
     def round(
-- 
2.43.0


From 028cf062d111f8d6483c05de48d1fa8f20cf63c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:24 +0000
Subject: [PATCH 21/23] fix: OffsetDateTime.strptime accepted sub-second
 offsets, giving values that break later

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 9bff467..488b9aa 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3946,6 +3946,8 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "Parsed datetime must have an offset. "
                 "Use %z, %Z, or %:z in the format string"
             )
+        elif parsed.utcoffset().microseconds:  # type: ignore[union-attr]
+            raise ValueError("Sub-second offsets are not supported")
         return cls._from_py_unchecked(
             _check_utc_bounds(parsed.replace(microsecond=0)),
             parsed.microsecond * 1_000,
-- 
2.43.0


From b757270a390a0151b0dcab65f60dd27864706d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:37 +0000
Subject: [PATCH 22/23] fix: from_timestamp raised AssertionError for tiny
 negative floats

---
 pysrc/whenever/_pywhenever.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 488b9aa..5d6348a 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3260,7 +3260,7 @@ class Instant(_KnowsInstant):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, fract = _split_timestamp(i)
         return cls._from_py_unchecked(
             _fromtimestamp(secs, _UTC), int(fract * 1_000_000_000)
         )
@@ -3762,7 +3762,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
         """
         if ignore_dst is not True:
             raise ImplicitlyIgnoringDST(TIMESTAMP_DST_MSG)
-        secs, fract = divmod(i, 1)
+        secs, fract = _split_timestamp(i)
         return cls._from_py_unchecked(
             _fromtimestamp(secs, _load_offset(offset)),
             int(fract * 1_000_000_000),
@@ -4377,7 +4377,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, fract = _split_timestamp(i)
         return cls._from_py_unchecked(
             _fromtimestamp(secs, ZoneInfo(tz)), int(fract * 1_000_000_000)
         )
@@ -4884,7 +4884,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, fract = _split_timestamp(i)
         return cls._from_py_unchecked(
             _fromtimestamp(secs, _UTC).astimezone(), int(fract * 1_000_000_000)
         )
@@ -6009,6 +6009,13 @@ _match_yearmonth = re.compile(r"\d{4}-\d{2}", re.ASCII).fullmatch
 _match_monthday = re.compile(r"--\d{2}-\d{2}", re.ASCII).fullmatch
 
 
+def _split_timestamp(i: float) -> tuple[float, float]:
+    """The whole seconds and the (non-negative) fraction of a timestamp"""
+    secs, fract = divmod(i, 1)
+    # The remainder of a tiny negative float is rounded to 1.0
+    return (secs + 1, 0) if fract == 1 else (secs, fract)
+
+
 def _check_utc_bounds(dt: _datetime) -> _datetime:
     try:
         dt.astimezone(_UTC)
-- 
2.43.0


From eae0815a3b07c1feac07ebfd75f74bbcbb50f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:49 +0000
Subject: [PATCH 23/23] fix: parse_rfc2822 raised OverflowError for texts with
 huge numbers

---
 pysrc/whenever/_pywhenever.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 5d6348a..84281b4 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -6068,9 +6068,17 @@ if sys.version_info < (3, 11):  # pragma: no cover
             if isinstance(s, str):
                 raise ValueError(f"Invalid RFC2822 string: {s!r}")
             raise
+        except OverflowError:  # numbers too large for a datetime
+            raise ValueError(f"Invalid RFC2822 string: {s!r}")
 
 else:
-    _parse_rfc2822 = parsedate_to_datetime
+
+    def _parse_rfc2822(s: str) -> _datetime:
+        try:
+            return parsedate_to_datetime(s)
+        except OverflowError:  # numbers too large for a datetime
+            raise ValueError(f"Invalid RFC2822 string: {s!r}")
+
 
 Instant.MIN = Instant._from_py_unchecked(
     _datetime.min.replace(tzinfo=_UTC),
-- 
2.43.0

