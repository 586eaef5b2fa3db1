#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

F, C, R, W = "src/dtfund.hpp", "src/dtcalendar.hpp", "src/datetime_read.hpp", "src/datetime_write.hpp"
FC, DC = "src/dtfund.cpp", "src/dat.cpp"

p("C01", "Calendar date <-> Modified Julian Day is the Gregorian bijection",
  "For every valid Gregorian calendar date (year -4799 onward) the Modified Julian Day computed from it is the proleptic Gregorian day count with 1858-11-17 as day 0, so consecutive days always get consecutive numbers. Converting a day number back to year, month and day gives exactly the date it came from, on its own and from within a date-time. The Julian Day is that number plus 2400000.5.",
  ["inputs"], "all valid dates from year -4799 up to years in the millions, and all day numbers in that range",
  "Tests look at about ten dates (one of them per era); an error confined to one century, one month end or one leap cycle is invisible to them.",
  [FC, F, C], [("calendar to MJD", FC + ": cal2mjd"), ("MJD to calendar", FC + ": modified_julian_day::to_ymd"), ("Julian day", F + ": modified_julian_day::to_julian_day")],
  ["cal2mjd(year,month,day_of_month)", "modified_julian_day::to_ymd", "datetime::as_ymd", "modified_julian_day::to_julian_day"])

p("C02", "Year/day-of-year, calendar date and MJD are views of one day",
  "Year plus day-of-year, year/month/day and Modified Julian Day are three views of the same day: every conversion among them, direct or by way of the third, designates the same day, for every valid day of every year from -4799 onward, including years before 1901 and after 2099. The day-of-year produced is always in 1..365, or 1..366 in a leap year. A date-time built from year and day-of-year equals the one built from the corresponding month and day.",
  ["inputs"], "all valid days from year -4799 up to years in the millions, all conversion paths",
  "Tests convert three year/day-of-year pairs from one century in one direction only; year boundaries, the last day of leap years and other centuries are never touched.",
  [FC, F, C], [("year/doy to MJD", FC + ": ydoy2mjd"), ("MJD to year/doy", FC + ": modified_julian_day::to_ydoy"), ("ymd to ydoy", FC + ": ymd_date::to_ydoy"), ("ydoy to ymd", FC + ": ydoy_date::to_ymd")],
  ["ydoy2mjd", "modified_julian_day::to_ydoy", "ymd_date::to_ydoy", "ydoy_date::to_ymd", "datetime::as_ydoy"])

p("C03", "Only real dates are valid; nonexistent calendar dates are refused",
  "A year is leap exactly when divisible by 4 but not by 100 unless by 400, and each validity predicate (month, day of month, day of year, whole date, GPS week) is true exactly for values that exist in the Gregorian calendar (week: not negative). Making a Modified Julian Day or a date-time from a year/month/day that does not exist always raises an exception the caller can catch, and never for one that does exist. It never yields a value and never ends the program.",
  ["inputs"], "all year/month/day and year/day-of-year integer combinations, valid and invalid, including negative and extreme values; every constructor and reader that takes a calendar date",
  "Tests check a handful of valid and invalid values of the predicates and never build a date-time from an invalid date.",
  [F, FC, C, R], [("leap rule", F + ": is_leap"), ("day of month validity", FC + ": day_of_month::is_valid"), ("range checks", FC + ": cal2mjd throws"), ("date-time constructors", C + ": datetime(year, month, day_of_month, ...)")],
  ["is_leap", "is_valid on month/day_of_month/day_of_year/ymd_date/ydoy_date/gps_week", "datetime constructors", "cal2mjd", "strptime_*"])

p("C04", "Every constructed date-time is the specified instant in normal form",
  "Whatever the constructor used (year/month/day, year/day-of-year, MJD or GPS week, with hours, minutes, seconds, fractional seconds or another resolution) the date-time denotes exactly the instant its arguments add up to, including time parts that are negative or exceed a day. Its time of day is always at least zero and less than one day, and its day is the day that instant falls on. Fractional seconds count down to the resolution of the target type; only finer digits are dropped, and a value that is a whole number of units is never one unit off.",
  ["inputs"], "all constructors of the three resolutions, day numbers over the whole range, time parts from negative to many days",
  "Tests build a few in-range date-times in 2015 and mostly print them.",
  [C, F], [("normalize", C + ": datetime::normalize"), ("constructors", C + ": datetime::datetime"), ("time-of-day constructors", F + ": seconds/milliseconds/microseconds(hours, minutes, ...)")],
  ["datetime::mjd", "datetime::sec", "datetime::sec_as_i"],
  [{"name": "m_mjd, m_sec", "meaning": "day and time of day of the instant", "where": C + ": datetime"}])

p("C05", "Adding and removing time is exact timeline arithmetic",
  "Adding or removing any amount of time (seconds, milliseconds, microseconds, days or an interval, positive or negative, of the same or a coarser resolution) moves a date-time by exactly that amount on the timeline, keeps it in normal form, and removing the same amount restores it. Chains of such operations give the same result as one operation with the total. Amounts of a finer resolution than the date-time move it to within less than one unit of its own resolution.",
  ["inputs", "histories"], "all sequences of add/remove operations from any date-time, all amounts whose result is representable, all resolution pairs",
  "Tests add single seconds from one date and random amounts within a week to a date-time in whole seconds only; other resolutions, day crossings from other start times and cross-resolution operations are not asserted.",
  [C], [("add/remove seconds", C + ": datetime::add_seconds, remove_seconds"), ("add days and seconds", C + ": datetime::add"), ("add interval", C + ": datetime::operator+="), ("normalize", C + ": datetime::normalize")],
  ["datetime::add_seconds", "datetime::remove_seconds", "datetime::add", "datetime::operator+="],
  [{"name": "m_mjd, m_sec", "meaning": "day and time of day of the instant", "where": C + ": datetime"}])

p("C06", "Differences between date-times are exact at any resolution mix",
  "The difference of two date-times, as a count of the finer of the two resolutions, is exactly the elapsed time between them, whatever their resolutions; it is antisymmetric and adds up along a chain. The difference as a day/time interval has a time part of at least zero and under one day, and adding it to the subtracted date-time gives back the other one.",
  ["inputs"], "all pairs (and triples) of date-times of any resolutions whose difference is representable",
  "Tests subtract six pairs that share the same second of the same day; differences across days, months or years are only printed.",
  [C, F], [("delta_sec same type", C + ": datetime::delta_sec"), ("delta_sec mixed", C + ": delta_sec(datetime<S1>, datetime<S2>)"), ("delta_date", C + ": datetime::delta_date"), ("day difference in seconds", F + ": mjd_sec_diff")],
  ["delta_sec", "delta_date", "mjd_sec_diff"])

p("C07", "Comparison of date-times and intervals is the order of the timeline",
  "For any two date-times (or two intervals) exactly one of less, equal, greater holds, all six comparison operators agree with it, and it is the order of the instants (durations) they denote. The fractional Modified Julian Date never decreases when the instant increases and matches the instant to double precision.",
  ["inputs"], "all pairs of date-times and intervals in normal form, all resolutions",
  "Tests use only equality, on a few values; the ordering operators of date-times and intervals are never executed.",
  [C], [("date-time comparisons", C + ": datetime::operator<,<=,>,>=,==,!="), ("interval comparisons", C + ": datetime_interval::operator<,..."), ("as_mjd", C + ": as_mjd")],
  ["comparison operators", "as_mjd"])

p("C08", "Changing resolution keeps the instant",
  "Converting a time amount to a finer resolution is exact and converting back restores it; converting to a coarser one drops only the part below one unit (toward zero); this holds for every amount whose result is representable and for every way of spelling the conversion. Converting a date-time to another resolution keeps its day and applies the same rule to its time of day.",
  ["inputs"], "all amounts representable in source and target, all ordered pairs of resolutions; all date-times",
  "Tests convert fewer than fifteen amounts, none negative, none large, and never a date-time.",
  [F, C], [("cast_to", F + ": cast_to<Ssrc,Strg>"), ("explicit conversions", F + ": milliseconds::operator seconds, microseconds::operator ..."), ("date-time cast", C + ": datetime::cast_to")],
  ["cast_to", "static_cast between second types", "datetime::cast_to"])

p("C09", "Splitting a time of day loses nothing",
  "Splitting a time of day into hours, minutes, seconds and a fraction gives fields in range (0-23, 0-59, 0-59, fraction below one second) that recombine to exactly the same amount, for every time of day at every resolution. Removing whole days leaves a remainder below one day such that days plus remainder is the original amount, and the day count, fractional days and fractional seconds agree with it; the same holds for removing days from hours and hours from minutes.",
  ["inputs"], "every time of day at second, millisecond and microsecond resolution; amounts of many days, positive and negative",
  "Tests print three splits and check day removal for two amounts of whole seconds.",
  [F, C], [("to_hmsf", F + ": to_hmsf"), ("remove_days / to_days", F + ": remove_days, to_days"), ("hours/minutes", F + ": hours::remove_days, minutes::remove_hours"), ("fractional", F + ": fractional_days, to_fractional_seconds, resolve_sec")],
  ["to_hmsf", "as_hmsf", "remove_days", "to_days", "remove_hours", "fractional_days", "to_fractional_seconds", "resolve_sec", "more_than_day"])

p("C10", "GPS week and time of week are exact and invertible",
  "For every instant from the GPS epoch (1980-01-06 00:00) on, the GPS week is the number of whole weeks since the epoch and the time of week is the remaining time, at least zero and under one week, in whole seconds or in the date-time's own resolution. Building a date-time from that week and time of week gives the same instant back, a time of week beyond one week carries into later weeks, and the day of week is 0 (Sunday) to 6 (Saturday).",
  ["inputs"], "every day from 1980-01-06 over centuries, every boundary time of day, all resolutions, weeks from 0 on",
  "Tests convert one instant of 2019 in one direction; week rollovers, the epoch itself and the inverse direction are never checked.",
  [C, F], [("to week/sow", C + ": datetime::as_gps_wsow"), ("from week/sow", C + ": datetime(gps_week, S)"), ("day_of_week", C + ": day_of_week")],
  ["datetime::as_gps_wsow(long&)", "datetime::as_gps_wsow(S&)", "datetime(gps_week,S)", "day_of_week"])

p("C11", "TAI-UTC is the official leap second table for every date since 1972",
  "For every date from 1972-01-01 on, TAI-UTC is the value published by the IERS: 10 s at first and one more second from each of the 27 leap-second dates through 2017-01-01, changing on exactly that day and at midnight. Asking by year and month, by Modified Julian Day or by date-time of any resolution gives the same answer.",
  ["inputs"], "every day and month from 1972 on, every overload, date-times at the first and last unit of each day",
  "Tests compare the overloads with each other on nine dates and never against the published values.",
  [DC, C], [("by year and month", DC + ": dat(year, month)"), ("by MJD", DC + ": dat(modified_julian_day)"), ("by date-time", C + ": dat(datetime<T>)")],
  ["dat"])

p("C12", "Reading a well-formed date string yields exactly the written instant",
  "Each of the five readers (year-month-day, year-day, and the three with time of day, including month names in any letter case) returns exactly the date and time written, for every valid date and time, any single-character separators, with or without zero padding, and with as many fractional digits as the resolution holds or more (further digits, up to twelve in all, are dropped). The end position reported is the last character interpreted, for every reader. Text after the last field does not change the result.",
  ["inputs"], "all valid dates and times of day, all separator characters, padded and unpadded fields, 0 to 9 fractional digits, all three resolutions, all five readers",
  "Tests read about ten strings, almost all for one date, with three separators and one fractional value.",
  [R, F], [("readers", R + ": strptime_ymd, strptime_ydoy, strptime_ymd_hms, strptime_yod_hms, strptime_ydoy_hms"), ("fractional seconds", F + ": constructors from hours, minutes, double")],
  ["strptime_*", "stop argument"])

p("C13", "Reading any text whatsoever is safe",
  "For every null-terminated text, each reader either returns a date-time in normal form or raises an exception the caller can catch: it never reads beyond the terminating null, never has undefined behaviour, and never ends the program. Text in which a required field is missing, a number does not fit, or the calendar date does not exist raises an exception. A reported end position always lies within the text.",
  ["inputs", "fault_sequences"], "all strings over small alphabets up to a length bound, all truncations and all one- and two-byte corruptions of well-formed strings, for all readers",
  "No test reads a malformed string.",
  [R, F, C], [("field scanning", R + ": strtol/strtod loops"), ("error reporting", R + ": std::invalid_argument"), ("calendar validation", FC + ": cal2mjd")],
  ["strptime_*"])

p("C14", "Formatting is correct and reads back to the same instant",
  "Every formatter writes the calendar date and time of day of the instant: fields zero-padded to the documented width (where documented), hours 00-23, minutes 00-59 and seconds from 0 to less than 60, with the requested date separator. The text with fractional seconds shows every digit of the resolution, so for years 0 to 9999 reading it back with the library gives exactly the same date-time; the one without drops only the fraction. The general-purpose string form shows the same date, hours, minutes and fractional seconds.",
  ["inputs"], "every time of day at second and millisecond resolution and all boundary microseconds, every day of years 0-9999, all separators",
  "Formatted text is only printed by tests, never compared with anything.",
  [W, C], [("formatters", W + ": strftime_ymd_hmfs, strftime_ymd_hms"), ("stringify", C + ": datetime::stringify")],
  ["strftime_ymd_hmfs", "strftime_ymd_hms", "datetime::stringify"])

p("C15", "Month names map to months and nothing else does",
  "A month built from text is the month whose three-letter or full English name the text spells in any letter case, and every other text, of any length and with any bytes, raises the documented exception. The short and long name of each month, read back, give that month.",
  ["inputs"], "all three-byte strings, all letter-case variants of all names, all one-byte edits and truncations of all names, all short strings",
  "Tests try three spellings of one month and four wrong names.",
  [FC, F], [("month from string", FC + ": month::month(const char*)"), ("names", F + ": month::short_name, long_name")],
  ["month(const char*)", "short_name", "long_name"])

p("C16", "Concurrent use from several threads gives the sequential results",
  "The library keeps no mutable state shared between threads: when threads use it at the same time on their own objects, every call returns exactly what it returns when run alone, whatever the interleaving, including calls that end in an exception, and no two threads' accesses to the same memory race.",
  ["schedules"], "all interleavings of two threads, each calling any operation of the library, up to a preemption bound",
  "All tests are single-threaded.",
  [FC, F, C, R, W, DC], [("no static mutable data", FC + ": constexpr tables"), ("locals only", W + ": _d2s_, _i2s_ local streams"), ("locals only", R + ": month_str, ints local buffers")],
  ["return values of every public operation under interleaving"],
  [{"name": "(none intended)", "meaning": "static tables are constant", "where": FC + ", " + DC}])

p("C17", "Results depend only on the arguments",
  "Every operation gives the same result whatever was called before it, including failed calls, and whatever ambient state the process is in: a stale error number, the C++ global locale, or the C locale. Operations do not change their arguments or that ambient state (other than the error number) behind the caller's back.",
  ["histories"], "all call sequences up to length three over an alphabet of valid and failing calls, under every combination of ambient error number and locale",
  "Each test runs one fixed sequence in the default environment.",
  [R, W, FC, C], [("errno handling", R + ": errno tests after strtol/strtod"), ("stream formatting", W + ": std::stringstream"), ("stringify", C + ": std::ostringstream")],
  ["strptime_*", "strftime_*", "stringify", "all conversions"],
  [{"name": "errno", "meaning": "ambient error number read by the readers", "where": R}])

p("C18", "Quantities of different kinds do not mix without an explicit conversion",
  "A program compiles only if it combines like with like: comparing, adding, subtracting or assigning two different time quantities, doing plus/minus between a quantity and a plain number where only in-place adjustment is offered, or turning a coarser resolution into a finer one by construction is rejected at compile time. The documented combinations (same-kind comparison, in-place adjustment by integers or same kind, explicit conversion to coarser resolutions, construction from convertible resolutions) all compile.",
  ["programs"], "every expression of the form A op B over all quantity types, integers and operators, and every construction of one quantity from another",
  "Tests uncomment about twenty erroneous lines; most type pairs and operators are never tried.",
  [F, C], [("restricted operator templates", F + ": operator templates enabled by is_dt_fundamental_type"), ("explicit constructors", F + ": explicit constructors"), ("deleted operators", F + ": modified_julian_day::operator+/- = delete"), ("convertibility", C + ": datetime constructors enabled by static_cast<S>(T)")],
  ["whether an expression is well-formed, and its result type"])

p("C19", "Each quantity behaves as the integer it wraps",
  "For every quantity type, comparison, in-place addition and subtraction (of integers and of the same kind), pre/post increment and decrement, assignment, plus, minus and literals give exactly the result of the same operation on the wrapped integers, over the full range that does not overflow; postfix forms return the old value and in-place forms return the modified object itself. The advertised number of days that fit a resolution really fits and one more does not.",
  ["inputs", "histories"], "all quantity types, all operand pairs from a range around zero plus type limits, all operation sequences up to a depth",
  "Tests run one fixed chain per type with values that differ by one.",
  [F], [("operator templates", F + ": operator==, !=, <, <=, >, >=, +=, -=, ++, --"), ("max_days_allowed", F + ": max_days_allowed"), ("literals", F + ": operator \"\" _Y etc.")],
  ["operators of year, month, day_of_month, day_of_year, gps_week, modified_julian_day, hours, minutes, seconds, milliseconds, microseconds"])

p("C20", "Intervals are exact durations",
  "An interval denotes exactly days plus time part; building or normalising it never changes that duration and leaves a time part of at least zero and under one day. Dividing a non-negative interval by a positive whole number gives the exact quotient rounded down to its resolution, and as a fractional day count it matches the duration to double precision.",
  ["inputs"], "all day/time parts over many days including negative time parts, all positive divisors over a wide range, all resolutions",
  "No test creates an interval except through one unused call.",
  [C], [("normalize", C + ": datetime_interval::normalize"), ("division", C + ": datetime_interval::operator/"), ("as_mjd", C + ": datetime_interval::as_mjd")],
  ["datetime_interval(modified_julian_day,S)", "days", "sec", "operator/", "as_mjd"])

p("C21", "Build configuration does not change results",
  "For every valid input the library gives the same results, and does not abort, whichever way it is built: debug or production flags, with or without the optional argument checks, at any optimisation level and with either supported compiler.",
  ["configurations"], "every combination of compiler, optimisation level, debug define and argument-check define, over a broad set of valid operations",
  "Tests run in one configuration, and debug-only assertions on valid dates late in the year are never reached.",
  [FC, F, C, DC], [("debug assertions", FC + ": assert under DEBUG"), ("optional checks", F + ", " + C + ": USE_DATETIME_CHECKS")],
  ["all public operations"])

p("C22", "The public headers compose in any order and in any number of units",
  "The public headers can be included alone, together, repeatedly and in any order, with either supported compiler and any of the build defines. They can be used from any number of translation units of one program: it links with the library, and every unit gets the same results.",
  ["configurations", "programs"], "every bounded sequence of public headers, every bounded program of several units over them",
  "Every test is one unit with one include order, so a missing include or inline is invisible until somebody links two units.",
  [F, C, R, W, "src/gnsstm.hpp"], [("include guards", "every header"), ("inline functions in headers", F + ", " + R + ", " + W)],
  ["compiling, linking and running programs over the headers"])

ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
