"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
PY = "pysrc/whenever/_pywhenever.py"
INIT = "pysrc/whenever/__init__.py"
PYI = "pysrc/whenever/__init__.pyi"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


prop("C01", "Sub-second component is always in range and never hidden",
     "Every Time, LocalDateTime, Instant, OffsetDateTime, ZonedDateTime and SystemDateTime that a constructor, from_utc, a timestamp, standard-library or ISO/RFC 3339 conversion, now(), arithmetic, replace, rounding or a conversion between types returns has a nanosecond component from 0 to 999,999,999. A nanosecond outside that range passed by the caller (constructors, from_utc, replace) raises ValueError. No precision is kept outside that component: the whole-second part of the value carries no microseconds of its own.",
     ["inputs", "histories"], "all argument values and all chains of operations producing a value",
     "tests construct a handful of values and only look at the nanosecond of some of them; an unnormalised carry shows up only for particular operand combinations",
     [PY], [("divmod carry before every unchecked constructor", "Instant/Offset/Zoned/System/Local __add__ and _shift_kwargs"),
            ("nanosecond range test", "constructors, Instant.from_utc, _pop_nanos_kwarg")],
     ["nanosecond property", "equality between values"])

prop("C02", "Values never lie outside the representable UTC range",
     "Every OffsetDateTime, ZonedDateTime and SystemDateTime the library returns, from any constructor, conversion, parser, replacement, rounding or arithmetic, denotes an instant that lies between 0001-01-01T00:00Z and 9999-12-31T23:59:59.999999999Z. An operation whose result would fall outside raises an exception instead of returning a value.",
     ["inputs"], "all local times, offsets and deltas, in particular those within a day of year 1 and year 9999",
     "tests probe the boundary for a few methods with a few offsets; each of the dozens of producing paths needs its own check",
     [PY], [("_check_utc_bounds", "OffsetDateTime producers, ZonedDateTime.parse_common_iso"),
            ("round trip through UTC", "zone and system resolution helpers")],
     ["instant() of the result", "OverflowError raised later by comparison"])

prop("C03", "Zoned and system values denote existing local times",
     "Every ZonedDateTime returned by any public operation (constructor, now, timestamps, parsing, conversions, replacement, arithmetic, rounding, start_of_day) denotes a local time that exists in its timezone, with the UTC offset that timezone has at that instant. The same holds, with the system timezone, for every SystemDateTime produced by the constructor, now, timestamps, assume_system_tz, to_system_tz, replacement, arithmetic, rounding and start_of_day. A local time skipped by a transition is shifted or rejected, never stored as is.",
     ["inputs", "configurations"], "all timezones, local times in gaps and folds, and system timezone settings",
     "tests use a few zones and the ordinary one-hour gap; each producing path must resolve skipped times for every zone",
     [PY], [("UTC round trip", "_resolve_ambiguity*, _resolve_system_ambiguity*, __add__"), ("roundtrip check on parse", "_adjust_fold_to_offset")],
     ["offset property", "instant()"])

prop("C04", "Deltas stay within their limits and never mix signs",
     "Every TimeDelta, DateDelta and DateTimeDelta obtained from a constructor, unit helper, parser or from +, -, *, unary minus, abs or % between deltas is within the documented limits (9999 years of months, 9999*366 days, and the same number of days in nanoseconds), and out-of-range results raise an exception. No DateDelta has months and days of opposite sign, and no DateTimeDelta has a date part and a time part of opposite sign: such results raise ValueError.",
     ["inputs", "histories"], "all component values and all chains of delta operations",
     "tests check limits and mixed signs for particular constructors; every arithmetic path has to re-check",
     [PY], [("range and sign tests", "TimeDelta.__init__, DateDelta.__init__, DateTimeDelta.__init__, DateTimeDelta._from_parts")],
     ["in_months_days(), in_nanoseconds(), format_common_iso()"])

prop("C05", "Adding exact time shifts the instant by exactly that amount",
     "For Instant, OffsetDateTime, ZonedDateTime and SystemDateTime, adding hours, minutes, seconds, milliseconds, microseconds and nanoseconds (as integers, or as a TimeDelta, through + or add) moves the instant by exactly their total, and subtracting moves it by exactly the opposite, across any transition of the timezone; the offset of an OffsetDateTime and the timezone of a ZonedDateTime are kept. For LocalDateTime the wall clock moves by exactly that total. An amount given as a float (of hours down to microseconds) counts to the nanosecond where its product with the unit is exact enough (below 2**52 ns). The difference of two instants-in-time (of any of the aware types), and of two LocalDateTimes, is exactly the elapsed nanoseconds.",
     ["inputs", "configurations"], "all start values, integer amounts of either sign and timezones",
     "tests sample amounts and transitions; unit factors, signs and carries must be right for every combination",
     [PY], [("divmod carry plus UTC round trip", "__add__, _shift_kwargs, __sub__, difference")],
     ["timestamp_nanos() of operands and result"])

prop("C06", "Calendar arithmetic: months first with clamping, then days, then time",
     "Adding years, months, weeks and days to a Date, LocalDateTime, OffsetDateTime, ZonedDateTime or SystemDateTime first moves by 12*years+months calendar months, keeping the day of month or the last day of the target month if that is earlier, then moves by 7*weeks+days days, and keeps the local time of day and nanoseconds (subject to timezone resolution) before any exact time units are added. Subtracting applies the negated amounts in the same order. The keyword form, the delta form, and the operators + and - agree.",
     ["inputs"], "all dates, all integer amounts of either sign, all spelling forms",
     "tests sample month ends; order of application, clamping and signs must hold for every date",
     [PY], [("_add_months/_add_days", "Date"), ("_shift/_shift_kwargs", "all date-bearing classes")],
     ["date(), time() of the result"])

prop("C07", "Conversions between types preserve the moment or the wall clock",
     "instant(), to_fixed_offset(), to_tz() and to_system_tz() return a value with the same instant and the same nanoseconds as the original; to_fixed_offset() without argument keeps the offset, and with one (as to_tz with a timezone) the result has the requested offset (timezone). local(), date(), time(), Date.at, Time.on, assume_utc(), assume_fixed_offset(), replace_date() and replace_time() of a LocalDateTime or OffsetDateTime, and year_month()/month_day()/on_day()/in_year() preserve every component they do not replace, including the nanoseconds.",
     ["inputs", "configurations"], "all values, offsets and timezones",
     "tests convert sample values, mostly with round offsets and coarse sub-second parts",
     [PY], [("to_*/local/instant/assume_*", "_KnowsInstant, _KnowsInstantAndLocal, LocalDateTime"), ("at/on", "Date, Time")],
     ["timestamp_nanos(), local components of the result"])

prop("C08", "Ambiguous and skipped local times follow the disambiguate argument",
     "Wherever a disambiguate argument is accepted (constructing a ZonedDateTime or SystemDateTime, assume_tz, assume_system_tz, replace, replace_date, replace_time, add, subtract) it decides the result: 'earlier' and 'later' give the earlier and later of the two candidate moments, 'compatible' gives the earlier one for a repeated time and the later one for a skipped time, and 'raise' raises RepeatedTime or SkippedTime respectively. Unambiguous times are returned unchanged under every setting. Any other setting raises ValueError.",
     ["inputs", "configurations"], "all settings, timezones and local times, in particular inside gaps and folds of any size",
     "tests use a few one-hour transitions; the mapping must be right on every path that resolves a local time",
     [PY], [("_resolve_ambiguity, _resolve_system_ambiguity, _as_fold", "module level")],
     ["offset and instant of the result, exception type"])

prop("C09", "Without disambiguate, the current offset is kept whenever it can be",
     "When replace, replace_date, replace_time, add, subtract or round on a ZonedDateTime or SystemDateTime is used without a disambiguate argument and the new local time is repeated, the result keeps the UTC offset of the original if that is one of the two candidates; if it is skipped, the candidate having the original's offset is chosen. If neither candidate has that offset (or replace switches a ZonedDateTime to another timezone) the 'compatible' choice is made.",
     ["inputs", "configurations"], "all values, timezones and target local times",
     "tests check one fold in one zone for some of the methods; each default path must agree",
     [PY], [("_resolve_ambiguity_using_prev_offset, _resolve_system_ambiguity_using_prev_offset", "module level")],
     ["offset of the result"])

prop("C10", "DST-unsafe operations refuse to run without ignore_dst=True",
     "OffsetDateTime.now, from_timestamp, from_timestamp_millis, from_timestamp_nanos, replace, replace_date, replace_time, add, subtract and round, LocalDateTime.difference, and LocalDateTime.add/subtract with a nonzero exact-time amount raise ImplicitlyIgnoringDST unless ignore_dst=True is passed explicitly; any other value, truthy or not, is refused. The operators that would do the same (OffsetDateTime minus a delta, LocalDateTime plus or minus a TimeDelta or DateTimeDelta, LocalDateTime minus LocalDateTime) raise ImplicitlyIgnoringDST. With ignore_dst=True none of them raises it.",
     ["inputs", "programs"], "all call forms and argument values of these operations",
     "tests omit the flag in one call form per method; no path may return a value or skip the guard",
     [PY], [("ignore_dst is not True guards", "OffsetDateTime, LocalDateTime")],
     ["exception type"])

prop("C11", "Equality, ordering and hashing agree and use the right key",
     "Instant, OffsetDateTime, ZonedDateTime and SystemDateTime values, mixed in any way, compare equal and order exactly by the moment in time they denote down to the nanosecond, regardless of timezone or offset; Date, YearMonth, MonthDay, Time, LocalDateTime and TimeDelta order by their own value, and the deltas are equal exactly if their components are. For each type ==, !=, <, <=, >, >= are consistent with one total order on that key, and equal values always have equal hashes.",
     ["inputs", "configurations"], "all pairs of values of all type combinations",
     "tests compare a few pairs; an operator using a wrong field or direction shows only for pairs differing in the dropped part",
     [PY], [("rich comparisons and __hash__", "every value class")],
     ["comparison operators, set/dict membership"])

prop("C12", "Comparison and arithmetic refuse foreign types",
     "Comparing (==, <, <=, >, >=) or combining (+, -, *, /, //, %) a value with an object of an unsupported type never yields a result: the operator methods return NotImplemented (so Python raises TypeError, or reports inequality for ==) or raise a TypeError. In particular naive local datetimes never compare with or subtract from aware ones, YearMonth/MonthDay never compare with Date, and the delta types never compare equal to each other.",
     ["inputs", "programs"], "all pairs of types of operands",
     "tests try some foreign objects for some operators",
     [PY], [("isinstance guards returning NotImplemented", "all operator methods")],
     ["operator result or TypeError"])

prop("C13", "Timestamps convert exactly in both directions",
     "timestamp(), timestamp_millis() and timestamp_nanos() of any aware value are the exact Unix time of its instant rounded down to the unit (also before 1970), and from_timestamp, from_timestamp_millis and from_timestamp_nanos with an integer produce exactly the instant of that Unix time, in the requested offset or timezone. Composing the two in nanoseconds is the identity. from_timestamp with a float gives that moment to within two nanoseconds, or raises ValueError or OverflowError when it is out of range; no other exception escapes.",
     ["inputs"], "all integer timestamps of either sign and all aware values",
     "tests use a few positive values and zero",
     [PY], [("divmod by the unit", "timestamp*/from_timestamp* of the four aware classes")],
     ["timestamp_nanos()"])

prop("C14", "Pickling is lossless and portable between implementations",
     "Unpickling a pickled value of any of the value types reproduces every component, including nanoseconds, offset, timezone and which side of a repeated hour it is on, for the whole range of representable values. The byte layout written is the one read back, every field is wide enough for its full range and signed where it can be negative, and it is the same layout that the Rust extension reads and writes.",
     ["inputs", "configurations"], "all values of all pickleable types, both implementations",
     "tests pickle one or two values per type, and the extension is not built here",
     [PY, "src/*.rs"], [("__reduce__ and _unpkl_* pairs", "each value class")],
     ["pickle.loads(pickle.dumps(x))"])

prop("C15", "Rounding returns the nearest multiple by the requested rule",
     "round() of Time, TimeDelta, Instant, LocalDateTime, OffsetDateTime, ZonedDateTime and SystemDateTime returns, for every supported unit, increment and mode, the adjacent multiple of the increment (counted from local midnight, or from zero for TimeDelta) that the mode prescribes: floor the lower, ceil the upper unless already exact, half_floor, half_ceil and half_even the nearest with ties down, up, or to the even multiple; values past midnight carry into the next day. Rounding a zoned or system value to a day compares its local time of day with the actual length of the day and picks local midnight of this day or the next. Unsupported units, modes and increments raise ValueError.",
     ["inputs"], "all values, units, increments and modes",
     "tests tabulate a few values per mode; thresholds, tie rules and carries must hold for every remainder, also for odd increments and negative deltas",
     [PY], [("threshold comparison", "Time._round_unchecked, TimeDelta.round"), ("increment validation", "increment_to_ns")],
     ["result of round()"])

prop("C16", "ISO 8601 and RFC 3339 output spells the value exactly",
     "format_common_iso(), str() and format_rfc3339() of the date, time and datetime types write zero-padded fields in the documented layout (YYYY-MM-DD, HH:MM:SS, fractional seconds only if the nanoseconds are nonzero, up to nine digits with trailing zeros removed, the UTC designator, offset or timezone name), and every field written is the corresponding component of the value. RFC 3339 output separates date and time by a space and writes offset hours and minutes only; repr() is the class name and, in parentheses, the ISO text with a space for the T. The text of ISO output is read back by the parser of the same type as the same value.",
     ["inputs"], "all values of all types",
     "tests format sample values; padding, digit count and trimming must hold for every field value",
     [PY], [("isoformat slices and the fraction f-string", "format_common_iso, format_rfc3339")],
     ["returned string"])

prop("C17", "Parsing ISO 8601 and RFC 3339 text recovers exactly what it says",
     "When parse_common_iso or parse_rfc3339 of a date, time or datetime type accepts a string, every component of the result is what the text says: date and clock fields, the fraction as decimal digits of a second (any of one to nine digits), and the offset with its sign applied to hours, minutes and seconds together. A ZonedDateTime is only returned if the written offset is one that the named timezone has at that local time (otherwise InvalidOffset is raised), and in a repeated hour the written offset selects the side (moments within two days of the limits of the range excepted).",
     ["inputs"], "all strings accepted by the parsers",
     "tests parse sample strings",
     [PY], [("regular expression groups and their decoding", "parse_common_iso, parse_rfc3339")],
     ["components of the parsed value"])

prop("C18", "Parsers accept only the documented language and fail with ValueError",
     "For any string at all, parse_common_iso of every type and parse_rfc3339 either return a value or raise ValueError (or a subclass; for an unknown or unreadable timezone name the timezone library's own error may surface): no IndexError, OverflowError, TypeError, AttributeError or assertion escapes. They accept no string outside the documented format: ASCII digits in the fixed-width fields and separators, at most nine fraction digits, nothing before or after. Exactly the documented designators are accepted for UTC in Instant (Z or +00:00 for ISO, any case of z for RFC 3339).",
     ["inputs"], "all strings",
     "tests list some bad strings per parser",
     [PY], [("anchored ASCII regular expressions", "module level _match_*"), ("try/except ValueError", "parsers")],
     ["exception type; language accepted"])

prop("C19", "Values are immutable and operations have no side effects",
     "No public operation modifies the value it is called on, its arguments, or any shared module state: a value's fields are written only while it is being created, copy and deepcopy return the value itself, no new attributes can be set on it, and classes cannot be subclassed; hidden caches in module state count as side effects. The only operations with a lasting side effect are the time-patching test helpers, which replace the clock used by now(), and nothing else.",
     ["inputs", "histories"], "all operations on all values",
     "tests observe results, not the absence of writes",
     [PY, INIT], [("__slots__, fields assigned only at construction", "all value classes"), ("_ImmutableBase.__copy__/__deepcopy__, final", "module level")],
     ["field values before and after"])

prop("C20", "Time patching affects every now() and is always undone",
     "While patch_current_time is active, Instant.now, OffsetDateTime.now, ZonedDateTime.now, SystemDateTime.now and Date.today_in_system_tz all report the patched time to the nanosecond (frozen: exactly the given moment; keep_ticking: that moment plus the elapsed real time), and shift moves it by exactly the given amount. On leaving the context in any way, normally or through an exception, the real clock is restored (patches are not nested; with keep_ticking a shift may lose the time spent inside the shift call itself). Outside patching the now functions read the real clock with nanosecond resolution.",
     ["inputs", "fault_sequences", "histories"], "all patched moments, all ways of leaving the context, all now functions",
     "tests leave the context normally and check few now functions",
     [PY, INIT], [("module global time_ns", "all now() methods"), ("try/finally", "patch_current_time")],
     ["now() inside and after the context"])

prop("C21", "Results do not depend on ambient state unless the API says so",
     "Apart from the now/today functions (clock), the operations of SystemDateTime and the methods named after the system timezone (to_system_tz, assume_system_tz, today_in_system_tz), no operation reads the clock, the system timezone, the environment, the locale or a random source. In particular no operation on Instant, OffsetDateTime, ZonedDateTime, LocalDateTime, the date and time types or the deltas changes its result when TZ changes.",
     ["configurations", "inputs"], "all system timezones, clocks and locales",
     "tests mostly run under one system timezone",
     [PY], [("explicit tz argument in every astimezone/fromtimestamp", "all non-system classes")],
     ["result under different TZ"])

prop("C22", "The type stubs describe the real API",
     "Every public class, method, property, class attribute and function declared in the type stub exists in the implementation with the same kind (method, classmethod, property), accepts every call its declared signature (with all overloads) allows, with parameters in the declared order and kind, and returns values of the declared class; conversely every public member and parameter of the implementation is declared. The names in __all__ of implementation, stub and package agree.",
     ["programs"], "all programs that type-check against the stub",
     "the typing tests check a handful of call expressions",
     [PY, PYI, INIT], [("stub file", PYI)],
     ["call signatures"])

prop("C23", "ISO 8601 durations are written and read exactly",
     "format_common_iso() of TimeDelta, DateDelta and DateTimeDelta writes a duration whose components add up to exactly the value (to the nanosecond, with one leading minus sign for negative values, zero as PT0S or P0D): minutes and seconds are below 60, months below 12, components that are zero are left out and at most nine fraction digits are written without trailing zeros; and parse_common_iso reads each component with its proper weight and the sign applied to the whole, without losing nanoseconds. Components may appear at most once and only in descending order.",
     ["inputs"], "all deltas and all accepted strings",
     "tests sample a few durations; precision loss and unit mix-ups depend on the value",
     [PY], [("format_common_iso / parse_common_iso", "TimeDelta, DateDelta, DateTimeDelta")],
     ["parse(format(x)) == x"])

prop("C24", "Delta construction, arithmetic and decomposition are exact",
     "Constructing a delta from integer components, and the helper functions years() to nanoseconds(), give each unit its exact weight (12 months per year, 7 days per week, and the exact number of nanoseconds for hours down to microseconds). Sum, difference, negation, absolute value, integer multiples, and remainder and floor-quotient of deltas act exactly on the totals (component-wise for date deltas), and in_nanoseconds, in_months_days, in_years_months_days, in_hrs_mins_secs_nanos and in_months_days_secs_nanos return components that recompose to exactly the value, each in its unit's range and all of the value's sign; in_days_of_24h, in_hours, in_minutes, in_seconds, in_milliseconds and in_microseconds return the total in their unit, exact up to the rounding of one float division. A component given as a float counts as its product with the unit, cut to a whole number of nanoseconds; multiplying or dividing by a float gives whole nanoseconds too.",
     ["inputs"], "all integer components and all pairs of deltas, of either sign",
     "tests sample values; sign handling and float rounding depend on magnitude",
     [PY], [("integer arithmetic on total nanoseconds, months, days", "TimeDelta, DateDelta, DateTimeDelta")],
     ["in_nanoseconds(), in_months_days()"])

prop("C25", "Nanosecond results never pass through floating point",
     "For integer arguments, every value, component or timestamp returned by the library is computed without rounding through binary floating point: no integer that can exceed 2**53, or fraction that is not exactly representable, is converted to float and back on its way into a date, time, delta, timestamp or string. Only the methods documented to return a float (in_hours and the like, TimeDelta / TimeDelta) produce floats.",
     ["inputs"], "all integer inputs, in particular beyond 2**53 nanoseconds (104 days)",
     "tests use magnitudes for which doubles happen to be exact",
     [PY], [("integer divmod arithmetic", "all classes")],
     ["last digits of nanosecond results"])

prop("C26", "Standard-library conversions keep the same moment and drop only nanoseconds",
     "py_date(), py_time(), py_datetime() and py_timedelta() return the standard-library value with the same components, the nanoseconds rounded down to microseconds, and the same offset or timezone; the from_py_* methods accept exactly the matching kind (naive or aware, date, time, timedelta) and produce a value with the same components and microseconds, rejecting the wrong kind (naive or aware) with ValueError. Instances of subclasses of the standard types are accepted but never stored.",
     ["inputs"], "all standard-library values including subclasses, folds and sub-second offsets",
     "tests convert sample values",
     [PY], [("from_py_* / py_*", "all classes"), ("_strip_subclasses", "module level")],
     ["components of the converted value"])

prop("C27", "Constructors, properties and replace() address the right component",
     "For every date, time and datetime type the constructor stores each argument in the component of that name (omitted time components are zero), each property (year, month, day, hour, minute, second, nanosecond, offset, tz) returns exactly that component, and replace() changes exactly the named components and keeps all others. Fields that the type does not have, and tzinfo, fold and microsecond, are rejected with TypeError.",
     ["inputs"], "all component values and all subsets of replaced fields",
     "tests replace one field at a time on sample values",
     [PY], [("properties, __init__, replace", "all classes"), ("_check_invalid_replace_kwargs, _pop_nanos_kwarg", "module level")],
     ["properties of the result"])

prop("C28", "Day-level queries of zoned and system datetimes follow the timezone",
     "start_of_day() is the first moment of the value's local date in its timezone, with zero nanoseconds; day_length() is the elapsed time between the starts of that date and of the next; is_ambiguous() is true exactly if the local time occurs twice. They depend only on the local date (is_ambiguous: local time) and the timezone, not on the time of day.",
     ["inputs", "configurations"], "all zoned and system values, in particular on dates with transitions",
     "tests use a few dates and zones",
     [PY], [("start_of_day, day_length, is_ambiguous", "ZonedDateTime, SystemDateTime")],
     ["results of the three methods"])

prop("C29", "Date difference and addition are inverse",
     "For any two dates a and b, b + (a - b) == a, and the months and days of a - b have the same sign and the months part is as large as possible; days_until and days_since count the days between.",
     ["inputs"], "all pairs of dates",
     "tests sample pairs around month ends",
     [PY], [("Date.__sub__, days_since, days_until", "Date")],
     ["b + (a - b)"])

prop("C30", "Offsets are those of the tz database, concurrently consistent",
     "UTC offsets reported for named timezones are those of the IANA database for every instant, and now() and patched clocks behave atomically when several threads patch, shift and read time.",
     ["schedules", "configurations"], "all zones, instants and thread interleavings",
     "tests are single-threaded and use the tzdata installed",
     [PY, INIT], [("ZoneInfo lookups; module global clock", "module level")],
     ["offset property, now()"])

prop("C31", "RFC 2822 and strptime: values and text agree with the standard codecs",
     "Instant and OffsetDateTime.format_rfc2822 write exactly 'Www, DD Mon YYYY HH:MM:SS ' of the value's own fields, with 4-digit years, English names and 'GMT' (Instant) or the offset as +HHMM (+HHMMSS if it has seconds). parse_rfc2822 and strptime return exactly the local time, the fraction and the offset that the standard library decodes from the text, and otherwise raise ValueError: if it rejects the text (for whatever reason, numbers too large included), if an offset is missing (OffsetDateTime; Instant, unless '-0000') or present (LocalDateTime) or not zero (Instant), if the offset has a fraction of a second, or if the UTC time is out of range.",
     ["inputs"], "all values; all outcomes of the standard library's decoders",
     "tests sample a few strings",
     [PY], [("format_rfc2822, parse_rfc2822, strptime", "Instant, OffsetDateTime, LocalDateTime")],
     ["text and parsed value"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
