"""The properties: source of properties.jsonl and MANIFEST.json (tools/gen.py)."""

INPUTS = "every value of the types involved, not the few dozen the tests name"

PROPERTIES = [
    dict(
        id="C01", title="Calendar shifts of dates follow the Gregorian calendar",
        statement="Adding or subtracting years, months, weeks and days to a date first moves the "
        "month (clamping the day to the length of the target month) and then counts days, "
        "exactly as the proleptic Gregorian calendar says. A result outside years 1 to 9999 is "
        "refused with an error, never wrapped. All spellings (keywords, DateDelta, operators) agree.",
        all="every date 0001-01-01..9999-12-31, every month and day count",
        why="Tests try a handful of dates; leap-century, month-end and range-limit combinations "
        "number in the billions.",
        mech=["Date.add/subtract/_add_months/_add_days", "Date.__add__/__sub__",
              "LocalDateTime.add/subtract"],
    ),
    dict(
        id="C02", title="Differences between dates invert addition and count days exactly",
        statement="For any two dates a and b, b plus (a - b) is a, where the difference is in months "
        "and days of one sign with the months maximal; days_since/days_until are the exact "
        "number of days between them.",
        all="every pair of dates 0001..9999",
        why="Pairs of dates: 10^13; tests list about twenty.",
        mech=["Date.__sub__", "Date.days_since/days_until"],
    ),
    dict(
        id="C03", title="Component types accept exactly the valid values and report them back",
        statement="Date, Time, YearMonth, MonthDay, LocalDateTime, OffsetDateTime and their "
        "replace methods accept exactly the field values that exist and raise ValueError for "
        "every other; an accepted value reports the same fields back, and replacing a field "
        "changes only that field. day_of_week, year_month and month_day agree with the calendar.",
        all="every combination of field values, valid and invalid",
        why="Validity depends on combinations (month, leap year, nanosecond, offset); tests name a few.",
        mech=["constructors", "replace methods", "Date.day_of_week/year_month/month_day",
              "Time.on", "Date.at"],
    ),
    dict(
        id="C04", title="Rounding returns the multiple of the increment that the mode asks for",
        statement="round() of Time, TimeDelta, Instant, LocalDateTime and OffsetDateTime returns the "
        "multiple of unit times increment, counted from the start of the day (from zero for "
        "TimeDelta), that the mode (ceil, floor, half_ceil, half_floor, half_even) selects, with "
        "carry into the next day (wrapping for Time). Increments that do not divide the next "
        "unit, unknown units and unknown modes raise ValueError, and results past the range raise.",
        all="every value, unit, valid increment and mode; invalid increments",
        why="Ties and carries appear at single nanoseconds; five modes times about 100 increments.",
        mech=["increment_to_ns", "Time.round", "TimeDelta.round", "Instant.round",
              "LocalDateTime.round", "OffsetDateTime.round"],
    ),
    dict(
        id="C05", title="Equality, order and hash of calendar, local and duration types agree",
        statement="For Date, Time, YearMonth, MonthDay, LocalDateTime, TimeDelta, DateDelta and "
        "DateTimeDelta, == holds exactly when the components are the same, equal values have "
        "equal hashes, and where an order exists it is the total order of the quantity "
        "represented, consistent across <, <=, >, >=. Values of different types are never equal.",
        all="every pair of values of each type",
        why="A comparison that drops one field is wrong only on pairs differing in that field alone.",
        mech=["__eq__/__lt__/__le__/__gt__/__ge__/__hash__"],
    ),
    dict(
        id="C06", title="Exact-time values compare by moment across types; exact_eq by everything",
        statement="Instant, OffsetDateTime, ZonedDateTime and SystemDateTime compare equal, order and "
        "hash by the moment they represent, in every combination of types, to the nanosecond. "
        "exact_eq holds exactly when type, moment, local time, offset and zone all coincide.",
        all="every pair of moments, offsets and zones",
        why="Repeated hours and sub-microsecond differences need coinciding values that tests "
        "rarely construct.",
        mech=["_KnowsInstant.__eq__/__lt__/...", "*.__hash__", "*.exact_eq"],
    ),
    dict(
        id="C07", title="Adding exact durations moves exactly that far on the time line",
        statement="Adding or subtracting a TimeDelta or time-unit keywords to any exact-time value moves "
        "the moment by exactly that number of nanoseconds, whatever transitions lie between, "
        "keeps the zone, and shows the zone's offset at the new moment; the difference of two "
        "exact-time values is the exact duration between them. Results outside the supported "
        "range raise and are never wrapped.",
        all="every moment, duration and zone",
        why="Results depend on where transitions lie relative to both ends.",
        mech=["__add__/__sub__/add/subtract/difference of the exact types"],
    ),
    dict(
        id="C08", title="Timestamps and the clock map to moments one to one",
        statement="timestamp, timestamp_millis and timestamp_nanos are the floor of the time since the "
        "Unix epoch in their unit, and from_timestamp, from_timestamp_millis and "
        "from_timestamp_nanos return exactly the moment given, in the requested offset or zone, "
        "or raise when out of range. now() returns the clock's reading to the nanosecond.",
        all="every moment (negative and sub-second included), zone and clock reading",
        why="Negative fractions and the range ends are single points.",
        mech=["timestamp*", "from_timestamp*", "now"],
    ),
    dict(
        id="C09", title="Conversions keep the moment, and local time = moment + offset",
        statement="Converting between Instant, OffsetDateTime, ZonedDateTime and SystemDateTime keeps the "
        "moment to the nanosecond and shows the offset the target has at that moment; the local "
        "date and time are always the moment plus the offset. A conversion whose local or UTC time "
        "falls outside years 1 to 9999, or whose offset is not a whole number of seconds under 24 "
        "hours, raises.",
        all="every moment, offset and zone, every pair and chain of types",
        why="Offsets with seconds, zone transitions and range ends combine freely.",
        mech=["instant/local/to_tz/to_fixed_offset/to_system_tz", "assume_utc/assume_fixed_offset",
              "_check_utc_bounds"],
    ),
    dict(
        id="C10", title="Local times map to moments by the documented gap and fold rules",
        statement="Turning a local time into a ZonedDateTime or SystemDateTime (by constructor or "
        "assume_tz/assume_system_tz) gives the only moment with that local time; in a repeated "
        "hour 'earlier' and 'compatible' give the first and 'later' the second moment, in a gap "
        "'earlier' is shifted back and 'later' and 'compatible' forward by the length of the gap, and "
        "'raise' raises SkippedTime or RepeatedTime exactly then. is_ambiguous reports repeated "
        "times. Results outside the range raise.",
        all="every local time, zone transition pattern and disambiguate value",
        why="Gaps and folds of arbitrary size and position, at their exact boundaries.",
        mech=["_resolve_ambiguity", "_resolve_system_ambiguity", "LocalDateTime.assume_tz",
              "is_ambiguous"],
    ),
    dict(
        id="C11", title="Calendar operations in a zone keep the wall clock and re-resolve",
        statement="replace, replace_date, replace_time, and add/subtract of years, months, weeks and days "
        "on ZonedDateTime and SystemDateTime change the local date and time as on a "
        "LocalDateTime, then resolve them in the zone: with disambiguate as documented, without it by keeping "
        "the offset when the new local time is ambiguous or skipped and that offset fits, "
        "otherwise as 'compatible'. Exact units are added afterwards on the time line. The "
        "nanosecond and the zone are kept.",
        all="every moment, new date/time or shift, zone and disambiguate value",
        why="The outcome depends on start offset, target and transitions together.",
        mech=["ZonedDateTime/SystemDateTime.replace*/add/subtract",
              "_resolve_ambiguity_using_prev_offset"],
    ),
    dict(
        id="C12", title="Start, length and rounding of days follow the zone's transitions",
        statement="On ZonedDateTime and SystemDateTime, start_of_day is the first moment of the local "
        "date, day_length the exact time from there to the start of the next date, and round() "
        "gives the multiple of the increment of local time that the mode selects (for 'day': one "
        "of the two day starts, halfway by day length), keeping the offset where possible.",
        all="every moment, zone, unit, increment and mode",
        why="Days of 23 or 25 hours, midnight gaps and folds; each only at certain moments.",
        mech=["start_of_day", "day_length", "round"],
    ),
    dict(
        id="C13", title="Local and fixed-offset arithmetic is plain calendar arithmetic",
        statement="LocalDateTime and OffsetDateTime add, subtract, replace, replace_date and "
        "replace_time change the date as Date does, then the time by the exact amount with carry into "
        "the date, and keep the offset; LocalDateTime.difference is the exact difference. Results "
        "out of range raise. Operations that ignore DST raise unless ignore_dst=True is given.",
        all="every value and shift",
        why="Carries across midnight, month ends and the range limits, to the nanosecond.",
        mech=["LocalDateTime.add/subtract/difference/replace*", "OffsetDateTime.add/subtract/replace*"],
    ),
    dict(
        id="C14", title="TimeDelta arithmetic is exact to the nanosecond or raises",
        statement="Building a TimeDelta from units, adding, subtracting, negating, abs, multiplying "
        "and dividing by an integer, floor division and modulo give the exact number of "
        "nanoseconds (division: to within one), or raise outside ±9999 years of 366 days. "
        "in_hrs_mins_secs_nanos, in_days_of_24h..in_nanoseconds and py_timedelta report the same "
        "duration.",
        all="every duration, factor and divisor",
        why="Precision is lost only for large values with odd nanoseconds.",
        mech=["TimeDelta.*", "hours()...nanoseconds()"],
    ),
    dict(
        id="C15", title="Calendar durations keep one sign and combine exactly",
        statement="DateDelta and DateTimeDelta hold months, days and time all of one sign and within "
        "±9999 years of 366 days; building, adding, subtracting, multiplying by an integer, negating and abs give the "
        "sum, multiple or absolute value of the parts exactly, and raise ValueError when signs would mix or the range is "
        "left. in_months_days, in_years_months_days, in_months_days_secs_nanos, date_part and "
        "time_part report the same duration.",
        all="every duration of every kind, every integer factor",
        why="Mixed signs appear only in sums; overflow and precision only at large values.",
        mech=["DateDelta.*", "DateTimeDelta.*", "years()...days()"],
    ),
    dict(
        id="C16", title="Pickled and copied values come back exactly, in the stable wire layout",
        statement="Every value of every type survives pickling, copy and deepcopy exactly (type, moment, "
        "local time, offset and zone), the pickled data has the fixed documented byte layout, and data "
        "pickled by earlier versions in that layout reads back as the value it states.",
        all="every value of every type; zoned values in every zone",
        why="Values in repeated hours, negative or sub-second offsets and odd nanoseconds each use different bytes.",
        mech=["__reduce__", "_unpkl_*"],
    ),
    dict(
        id="C17", title="Canonical ISO 8601 text states the value and reads back as the same value",
        statement="format_common_iso (and str) of Date, YearMonth, MonthDay, Time, LocalDateTime, Instant, "
        "OffsetDateTime, ZonedDateTime and SystemDateTime gives exactly the documented text, with the fraction of a "
        "second only as long as needed, and parse_common_iso of it gives back exactly the same value.",
        all="every value of every type",
        why="Fractions of every length, offsets with seconds, negative offsets and repeated hours.",
        mech=["format_common_iso", "__str__", "parse_common_iso"],
    ),
    dict(
        id="C18", title="Parsing ISO 8601 accepts exactly the documented forms",
        statement="parse_common_iso of the date and time types accepts exactly texts of the documented "
        "form (ASCII digits, fixed widths, 1 to 9 decimals) whose fields exist, returns the value the text states, and "
        "raises ValueError for every other text; for ZonedDateTime, text whose offset the zone does not have at that local time "
        "(including local times that do not exist) raises InvalidOffset. Text out of range raises.",
        all="every text up to the length bound, every field value, offset and zone",
        why="Malformed text is unbounded; fuzzing almost never hits near-valid text such as week dates or other digits.",
        mech=["parse_common_iso", "_match_* expressions", "_adjust_fold_to_offset"],
    ),
    dict(
        id="C19", title="ISO 8601 durations: canonical text and exact, strict reading",
        statement="format_common_iso of TimeDelta, DateDelta and DateTimeDelta gives the documented text and reads back as "
        "the same duration; parse_common_iso accepts exactly an optional sign, P, and units in "
        "order, each at most once (with decimals only on seconds), returns exactly the duration stated, to the "
        "nanosecond, and raises ValueError for any other text or when out of range.",
        all="every duration; every text up to the length bound",
        why="Decimals lose nanoseconds only for certain digits; unit orders and repeats are many.",
        mech=["TimeDelta/DateDelta/DateTimeDelta.format_common_iso/parse_common_iso"],
    ),
    dict(
        id="C20", title="RFC 3339 and RFC 2822 text states the moment and reads back",
        statement="format_rfc3339 and format_rfc2822 of Instant and OffsetDateTime give text in those "
        "formats that states the value (RFC 3339 offsets without seconds, RFC 2822 without fractions), which "
        "reads back as that value; parse_rfc3339 accepts exactly RFC 3339 text (separator T, t, space or _) and returns "
        "the stated moment and offset; parse_rfc2822 of well-formed text returns the stated moment and offset or raises ValueError when "
        "it is not in range; Instant refuses nonzero offsets.",
        all="every value; every RFC 3339 text up to the length bound, every RFC 2822 field value",
        why="Separators, letter case, zone names, signs and field values combine freely.",
        mech=["format_rfc3339/parse_rfc3339", "format_rfc2822/parse_rfc2822"],
    ),
    dict(
        id="C21", title="A patched clock shows the pin plus shifts, and is restored afterwards",
        statement="Inside patch_current_time, every now() (and Date.today_in_system_tz) shows the pinned moment plus all shifts, plus the "
        "real time elapsed when keep_ticking; shift moves it as add() on the pinned type would. "
        "It never runs backwards or faster than the real clock, and after leaving, "
        "also by an exception, now() shows the real clock again (the outer patch, when nested).",
        all="every pin, every history of ticks, shifts and readings up to the bound",
        why="Histories interleave ticks and shifts; errors accumulate only after several steps.",
        mech=["patch_current_time", "_TimePatch.shift", "_patch_time_*", "_unpatch_time"],
    ),
    dict(
        id="C22", title="Conversions from and to the standard library keep the value",
        statement="from_py_datetime of every type denotes exactly the datetime's moment (or clock time, for LocalDateTime), offset "
        "and zone, with the fold choosing among repeated or skipped times; unsuitable datetimes (naive or aware, "
        "tzinfo of the wrong kind, sub-second offsets, out of range) are refused. py_datetime is its inverse, to the "
        "microsecond. The same holds for Date, Time and TimeDelta (rounding down to microseconds). Subclass "
        "instances give plain values. A fold has no influence on anything done later with the value.",
        all="every datetime, date, time and timedelta; every fold, offset and zone",
        why="Folds, gaps, subclasses, sub-second offsets and range limits combine; tests name a few.",
        mech=["from_py_datetime/py_datetime", "from_py_date/py_date", "from_py_time/py_time",
              "from_py_timedelta/py_timedelta", "_strip_subclasses"],
    ),
    dict(
        id="C23", title="Kinds of values never mix silently, and DST is never ignored silently",
        statement="Values of unrelated kinds (dates, times, local, exact, durations, others) are unequal and can't be "
        "ordered (TypeError); adding, subtracting, multiplying or dividing is possible exactly for the documented pairs and gives the "
        "documented type. Operations on fixed-offset and local times that may be wrong due to DST raise "
        "ImplicitlyIgnoringDST unless ignore_dst=True is given, whatever the values.",
        all="every ordered pair of types, every operator, every value",
        why="144 pairs of types times twelve operators; a hole may open only for some values (zero, equal, folds).",
        mech=["operators of every class", "OffsetDateTime.add/replace/round/now/from_timestamp*",
              "LocalDateTime.add/subtract/difference/__sub__"],
    ),
    dict(
        id="C24", title="System times survive a change of the system time zone",
        statement="When the system time zone changes, an existing SystemDateTime keeps its moment, clock time, offset, text and "
        "pickle. Operations on it afterwards use the new zone: to_system_tz keeps the moment, "
        "replace, calendar shifts and rounding keep the clock time (and the old offset if that is possible in the new zone), exact shifts move the moment "
        "exactly, and start_of_day, day_length and is_ambiguous describe the local time in the new zone.",
        all="every value, every old offset, every new zone with the stated number of transitions",
        why="Needs a change of global state between two operations; tests do one such change.",
        mech=["SystemDateTime", "_resolve_system_ambiguity(_using_prev_offset)", "to_system_tz"],
    ),
    dict(
        id="C25", title="Values never change, and results do not depend on earlier operations",
        statement="All classes are immutable: attributes cannot be set, added or deleted, no operation changes its operands, a copy "
        "is the same value. An operation on a value, a parse or a conversion gives what it gives as the first thing done in "
        "a fresh process, whatever was done with other values, zones or arguments before; repeating it gives the same again.",
        all="every pair of values and arguments, in every order of two (quick) operations",
        why="Shared state (caches, defaults, remembered results) shows only when two particular calls meet; each test runs few.",
        mech=["every public method", "_ImmutableBase", "__slots__", "module-level state"],
    ),
]

NOT_APPLICABLE = []
