#!/usr/bin/env python3
"""The property list: writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    ALL.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "observe_at": observe, "hook_needed": None}})


prop("C01", "Calendar: days and year-month-day correspond one to one",
     "Over the whole supported range (4714-11-24 BC to 5874897-12-31 AD) dates and proleptic Gregorian year-month-day triples (years counted without a year zero, negative = BC) correspond one to one and in order. Building a date from a triple and writing it back gives the same triple; a triple that names no day, or a day outside the range, is refused.",
     ["inputs"], "every date of the range and every i32 year, month, day",
     "2.1 billion dates; the tests convert a few dozen. Century, 400-year and BC boundaries are reached by none or one of them.",
     ["src/date.rs", "src/common.rs"], [("julian day conversion both ways", "src/common.rs date2julian, julian2date"), ("range and day-of-month checks", "src/date.rs try_from_ymd")],
     ["Date::try_from_ymd", "i32::from(Date)", "Date::format(ISO)", "date_part(Year..Doy, JULIAN)"])
prop("C02", "Construction from fields is exact or an error",
     "Building a time, a timestamp or an interval from its fields gives exactly the value the fields name (seconds rounded to the microsecond), and fields that name no such time or timestamp, or one out of range, are refused (interval fields whose sums leave the interval's own fields are not covered: that constructor documents no check). 24:00:00 is the only time of day at hour 24; NaN and infinite seconds are refused.",
     ["inputs"], "every i32 field and every f64 second count",
     "The product of six or seven i32 fields and a double; tests name a handful of valid and out-of-range tuples.",
     ["src/time.rs", "src/timestamp.rs", "src/interval.rs"], [("field checks and composition", "src/time.rs try_from_hms, src/timestamp.rs try_from_ymd_hms, src/interval.rs try_from_ymwd_hms")],
     ["Time::try_from_hms", "Timestamp::try_from_ymd_hms", "Interval::try_from_ymwd_hms"])
prop("C03", "Text layout of dates, timestamps and times",
     "For each of the five date styles and three field orders, every date, timestamp and time of day is written in the documented layout of that style: field order, separators, zero padding, weekday and month names, BC marker, fraction with trailing zeros dropped, and the words for the infinities.",
     ["inputs", "configurations"], "every value, style and field order",
     "The layout depends on magnitudes (year width, BC, fraction digits, weekday); the tests format under ten values per style.",
     ["src/date.rs", "src/timestamp.rs", "src/time.rs", "src/common.rs"], [("writers", "src/date.rs format_date, src/timestamp.rs format_date_time, src/time.rs format_time"), ("digits", "src/common.rs pg_ltostr, pg_ltostr_zeropad, append_seconds")],
     ["Date::format", "Timestamp::format", "Time::format"])
prop("C04", "Text layout of intervals",
     "For each of the four interval styles every interval is written in the layout of that style, with the units, plurals, signs (including mixed signs and the leading-sign rules), zero handling and fractions that style prescribes. An interval whose hours do not fit is refused rather than written wrongly.",
     ["inputs", "configurations"], "every (months, days, microseconds) and style",
     "Sign and zero patterns over seven printed fields times four styles; tests cover a small sample with mostly positive fields.",
     ["src/interval.rs", "src/common.rs"], [("writers", "src/interval.rs format_interval, add_iso8601_int_part, add_postgres_int_part, add_verbose_int_part")],
     ["Interval::format"])
prop("C05", "Date, timestamp and time text reads back as the same value",
     "Any date, timestamp or time of day written in any style is read back as exactly the same value, whenever the reader's field order is one in which that text is unambiguous. The infinities are included.",
     ["inputs", "configurations"], "every value, style, writing order and compatible reading order",
     "Writer and reader are separate code; only a proof over all values or systematic exploration shows that every text one writes is read as the same value.",
     ["src/date.rs", "src/timestamp.rs", "src/time.rs", "src/parse.rs"], [("writer and reader agree", "src/date.rs format / try_from_str; src/timestamp.rs; src/time.rs; src/parse.rs decode_date_time, decode_time_only")],
     ["format then try_from_str"])
prop("C06", "Interval text reads back as the same interval",
     "An interval written in any of the four styles and read in the same style gives exactly the same months, days and microseconds, for every interval whose fields the text can carry (numbers in a text are 32-bit). Mixed signs and zero fields are no exception.",
     ["inputs", "configurations"], "every interval and style",
     "Mixed-sign and carried fields make the four writer/reader pairs asymmetric; tests read back a few values.",
     ["src/interval.rs", "src/parse.rs"], [("writer and reader agree", "src/interval.rs format_interval; src/parse.rs decode_interval, decode_iso8601_interval")],
     ["Interval::format then Interval::try_from_str"])
prop("C07", "Serialized values deserialize to the same value",
     "Serializing any value, in a human-readable or a binary format, and deserializing it gives the same value; human-readable form is the documented text (ISO date and timestamp, time, SQL-standard interval), binary form is the fixed-width integers. Malformed text is refused with an error.",
     ["inputs", "configurations"], "every value of the four types, both serde representations, and every text",
     "Serde paths are tested on one value per type.",
     ["src/serde.rs"], [("serde implementations", "src/serde.rs Serialize / Deserialize of Date, Time, Timestamp, Interval")],
     ["serde_json", "bincode"])
prop("C08", "Date input means what the grammar says",
     "Every accepted date text denotes the day its fields name under the given field order - separated or run-together digits, month names, two-digit years, day of year, Julian days, AD/BC, weekday names, infinity words - and text naming no such day is refused.",
     ["inputs", "configurations"], "every text and field order",
     "The set of texts is unbounded; tests list about a hundred.",
     ["src/parse.rs", "src/token.rs", "src/date.rs", "src/common.rs"], [("tokenizer", "src/parse.rs parse_date_time"), ("decoder", "src/parse.rs decode_date_time, DecodeDateTime"), ("checks", "src/common.rs validate_date"), ("keyword tables", "src/token.rs")],
     ["Date::try_from_str"])
prop("C09", "Timestamp input means what the grammar says",
     "Every accepted timestamp text denotes the date and time of day its fields name, with AM/PM, fractional seconds, ISO 'T' forms, Julian days with fractions and special words, and is rounded to the requested precision. Text that names no such instant, repeats a field, or is out of range is refused.",
     ["inputs", "configurations"], "every text, field order and precision",
     "The set of texts is unbounded; tests list well under a hundred.",
     ["src/parse.rs", "src/timestamp.rs", "src/token.rs", "src/common.rs"], [("decoder", "src/parse.rs decode_date_time"), ("assembly and range", "src/common.rs validate_date, to_timestamp")],
     ["Timestamp::try_from_str"])
prop("C10", "Time input means what the grammar says",
     "Every accepted time text denotes the time of day its fields name, between 00:00:00 and 24:00:00, with AM/PM, fractional seconds, run-together digits and ISO forms, rounded to the requested precision. Text that names no time of day or repeats a field is refused.",
     ["inputs", "configurations"], "every text, field order and precision",
     "The set of texts is unbounded; tests list a few dozen.",
     ["src/parse.rs", "src/time.rs"], [("decoder", "src/parse.rs decode_time_only, DecodeTimeOnly")],
     ["Time::try_from_str"])
prop("C11", "Interval input: units, signs, fractions and ago",
     "Every accepted interval text denotes the sum of its quantities, with signs, fractional amounts carried down to smaller units, year-month and clock forms, default units chosen by the range, the SQL-standard leading sign rule and 'ago' negating everything. Repeated or unknown units and amounts out of range are refused.",
     ["inputs", "configurations"], "every text, range/precision and style",
     "Unbounded texts with interacting signs, units and fractions.",
     ["src/parse.rs", "src/token.rs", "src/interval.rs"], [("decoder", "src/parse.rs decode_interval, decode_interval_number_field"), ("carrying fractions", "src/parse.rs adjust_fract_seconds, adjust_fract_days")],
     ["Interval::try_from_str"])
prop("C12", "Interval input: ISO 8601 durations",
     "Every accepted ISO 8601 duration, in the designator, basic and extended forms, denotes the sum of its parts with signs and fractions; malformed durations and amounts out of range are refused.",
     ["inputs"], "every text starting with P",
     "Unbounded texts; the two alternative forms are reached by a couple of tests.",
     ["src/parse.rs"], [("decoder", "src/parse.rs decode_iso8601_interval, parse_iso8601_number, decode_date_part_left, decode_time_part_left")],
     ["Interval::try_from_str"])
prop("C13", "Every input text gets a value in range or an error",
     "Reading any text as a date, time, timestamp or interval, with any options, returns: it never panics, overflows or loops. A value it returns is always one the type can hold, within the documented range.",
     ["inputs", "configurations"], "every UTF-8 text and option",
     "Totality is a statement about all texts.",
     ["src/parse.rs", "src/common.rs", "src/token.rs"], [("bounds and overflow checks", "src/parse.rs; src/common.rs; src/interval.rs try_from_str")],
     ["Date/Time/Timestamp/Interval::try_from_str"])
prop("C14", "Reading a text depends on that text and its options only",
     "The value read from a text does not depend on what was read before it or is read at the same time on other threads, nor on letter case or on the amount of white space between fields.",
     ["inputs", "histories", "schedules"], "every text, every sequence of earlier calls, every interleaving of threads, every respelling",
     "Keyword lookup keeps per-thread caches across calls; tests call each text once in a fresh state.",
     ["src/parse.rs", "src/token.rs"], [("cached keyword lookup", "src/parse.rs decode_special, decode_units; thread-local caches"), ("case folding", "src/parse.rs parse_date_time")],
     ["try_from_str, repeated, reordered, concurrently"])
prop("C15", "Adding intervals and times to timestamps and dates",
     "Adding an interval moves a timestamp by its months (clipping to the last day of the month), then its days, then its microseconds, and subtracting adds the negated interval; a time of day adds its microseconds. The result is exact or, when it leaves the range, an error, never a wrapped value.",
     ["inputs"], "every timestamp or date and every interval or time",
     "Three-way products over 64-bit ranges; tests sample common dates.",
     ["src/timestamp.rs", "src/date.rs"], [("month, day, time steps and range checks", "src/timestamp.rs add_interval, add_time, sub_interval, sub_time; src/date.rs add_interval, add_time, sub_interval")],
     ["Timestamp::add_interval/sub_interval/add_time/sub_time", "Date::add_interval/sub_interval/add_time"])
prop("C16", "Date arithmetic in days",
     "Adding or subtracting a number of days moves a date by exactly that many days, or is refused when the result leaves the range; the difference of two dates is that number. Infinite dates stay infinite under days and have no difference.",
     ["inputs"], "every date and every i32",
     "Pairs over 32-bit ranges; overflow is reached only at the ends.",
     ["src/date.rs"], [("checked day arithmetic", "src/date.rs add_days, sub_days, sub_date")],
     ["Date::add_days/sub_days/sub_date"])
prop("C17", "Time-of-day arithmetic wraps at midnight",
     "Adding an interval to a time of day, or subtracting it, uses only the interval's time part and reduces the result modulo 24 hours, for every interval; an interval converted to a time is its time part modulo 24 hours; the difference of two times is an interval of that many microseconds.",
     ["inputs"], "every time and interval",
     "Negative and multi-day time parts, and the 64-bit extremes, are hardly sampled.",
     ["src/time.rs"], [("modulo", "src/time.rs add_interval, sub_interval, sub_time, From<Interval>")],
     ["Time::add_interval/sub_interval/sub_time", "Time::from(Interval)"])
prop("C18", "Difference of timestamps",
     "Subtracting timestamps gives the exact number of elapsed microseconds, expressed as whole 24-hour days and a remainder with the same sign and no months. Infinite operands are refused.",
     ["inputs"], "every pair of timestamps (or timestamp and date)",
     "Pairs over 64-bit ranges.",
     ["src/timestamp.rs"], [("difference and justification", "src/timestamp.rs sub_timestamp, sub_date")],
     ["Timestamp::sub_timestamp/sub_date"])
prop("C19", "Age counts calendar years, months, days and time",
     "The age of two timestamps is the calendar difference: whole months, then days borrowed from the right month, then time, all of one sign, and negated when the operands are exchanged. Infinite operands are refused.",
     ["inputs"], "every pair of timestamps",
     "Borrowing depends on both months' lengths, leap years and the order; tests sample a few pairs.",
     ["src/timestamp.rs"], [("borrowing", "src/timestamp.rs age")],
     ["Timestamp::age"])
prop("C20", "Adding, subtracting and negating intervals",
     "Intervals add, subtract and negate field by field, exactly; a field that overflows is refused, never wrapped.",
     ["inputs"], "every pair of intervals",
     "Overflow of three fields in either direction.",
     ["src/interval.rs"], [("checked field arithmetic", "src/interval.rs add_interval, sub_interval, negate, Add")],
     ["Interval::add_interval/sub_interval/negate/+"])
prop("C21", "Justifying an interval keeps its length",
     "Justifying hours, days or the whole interval moves 24 hours to a day and 30 days to a month without changing the interval's total length, leaves the moved fields below the carry (under 24 hours, under 30 days), and makes signs agree.",
     ["inputs"], "every interval",
     "Sign and carry combinations over three wide fields.",
     ["src/interval.rs"], [("carrying", "src/interval.rs justify_hours, justify_days, justify_interval")],
     ["Interval::justify_hours/justify_days/justify_interval"])
prop("C22", "Ordering, equality and hashing agree",
     "Each type is totally ordered by the instant, day, time or length it denotes (an interval counting 30-day months and 24-hour days); comparison operators, equality and hashing all follow that one order, with the infinities at the ends.",
     ["inputs"], "every pair and triple of values",
     "Laws over pairs and triples of 64-bit values; tests hardly compare.",
     ["src/interval.rs", "src/date.rs", "src/time.rs", "src/timestamp.rs"], [("comparison value", "src/interval.rs From<Interval> for i128, Ord, PartialEq, Hash")],
     ["Ord, PartialOrd, Eq, Hash", "i128::from(Interval)"])
prop("C23", "Multiplying and dividing intervals",
     "Scaling an interval by a number scales every field, carrying the fraction of months into days (30 per month) and of days into time (24 hours), to within rounding of a microsecond; NaN, infinite or zero divisors and results that do not fit are refused.",
     ["inputs"], "every interval and every double",
     "Floating point over 128 bits of input.",
     ["src/interval.rs"], [("scaling and cascade", "src/interval.rs mul_f64, div_f64")],
     ["Interval::mul_f64/div_f64"])
prop("C24", "Truncating timestamps and dates",
     "Truncating to a unit gives the first instant (for a date, the first day) of the unit that contains the value - weeks start Monday, decades and centuries and millennia where the calendar starts them, BC included - so it is never later than the value and truncating again changes nothing. Units that make no sense are refused and infinities are unchanged.",
     ["inputs"], "every value and unit",
     "Week, BC, century and range-end boundaries; tests use a few recent dates.",
     ["src/timestamp.rs", "src/date.rs", "src/common.rs"], [("truncation", "src/timestamp.rs truncate; src/common.rs truncate_*, iso_week_to_date")],
     ["Timestamp::truncate", "Date::truncate"])
prop("C25", "Truncating intervals and times",
     "Truncating an interval or a time of day to a unit clears the smaller fields and rounds the unit's field towards zero, and truncating again changes nothing. Units that make no sense are refused.",
     ["inputs"], "every value and unit",
     "Negative fields and cascades; tests use a few positive values.",
     ["src/interval.rs", "src/time.rs", "src/common.rs"], [("truncation", "src/interval.rs truncate; src/time.rs truncate; src/common.rs truncate_*")],
     ["Interval::truncate", "Time::truncate"])
prop("C26", "Fields extracted from timestamps and dates",
     "Extracting a unit gives the value of that calendar field: year (BC negative, no zero), quarter, ISO week and ISO year, weekday, day of year, century and millennium counted from 1, Julian day, clock fields with fractions. Units that make no sense are refused; infinities give infinity or zero as documented.",
     ["inputs"], "every value and unit",
     "ISO week-year boundaries, BC centuries and range ends; tests use a few dates.",
     ["src/timestamp.rs", "src/date.rs", "src/common.rs"], [("extraction", "src/timestamp.rs date_part, infinite_part; src/common.rs date_to_iso_week, date_to_iso_year")],
     ["Timestamp::date_part", "Date::date_part"])
prop("C27", "Fields extracted from intervals and times",
     "Extracting a unit from an interval or a time gives that field of its year-month-day-clock decomposition, signed, with fractions for seconds and smaller, and the epoch is its length in seconds (a year counting 365.25 days, a remaining month 30). Units that make no sense are refused.",
     ["inputs"], "every value and unit",
     "Signed decomposition over wide fields.",
     ["src/interval.rs", "src/time.rs"], [("extraction", "src/interval.rs date_part; src/time.rs date_part")],
     ["Interval::date_part", "Time::date_part"])
prop("C28", "Conversions between types and the infinities",
     "A date converts to its midnight and back to itself, a timestamp to its date and time of day which add up to it, and a conversion that does not fit is refused. Infinite dates and timestamps convert to each other, report themselves infinite, stay infinite under arithmetic and never yield a finite value.",
     ["inputs"], "every value; every operation that takes an infinity",
     "Pre-2000 timestamps round down, range ends differ by type; tests convert a few values.",
     ["src/date.rs", "src/timestamp.rs", "src/time.rs"], [("conversions", "src/timestamp.rs TryFrom<Date>; src/date.rs TryFrom<Timestamp>; src/time.rs TryFrom<Timestamp>"), ("sentinels", "src/date.rs is_begin/is_end; src/timestamp.rs is_begin/is_end")],
     ["TryFrom", "is_finite/is_infinite"])
prop("C29", "Precision of times and timestamps",
     "With a precision of 0 to 6 digits a time or timestamp read from text is rounded to the nearest multiple of that many fractional digits (ties away from zero, relative to 2000-01-01 or midnight); other precisions are refused for timestamps or ignored, and the result stays in range.",
     ["inputs", "configurations"], "every value and every precision",
     "Rounding at ties, negative instants and range ends.",
     ["src/timestamp.rs", "src/time.rs"], [("rounding", "src/timestamp.rs adjust_by_typmod; src/time.rs adjust_by_typmod")],
     ["Timestamp::try_from_str(typmod)", "Time::try_from_str(typmod)"])
prop("C30", "Range and precision of intervals",
     "With a range (year to month, day to minute, ...) an interval read from text loses exactly the fields below the range, and with a precision its seconds are rounded to that many digits; the range also decides the unit of a bare number. An unknown range or precision is refused.",
     ["inputs", "configurations"], "every interval, range and precision",
     "Thirteen ranges times seven precisions times signs.",
     ["src/interval.rs", "src/parse.rs"], [("restriction and rounding", "src/interval.rs adjust_by_typmod")],
     ["Interval::try_from_str(typmod)"])
prop("C31", "Sequences of operations stay correct and in range",
     "Starting from any valid values, in any sequence of operations whose operands are results of earlier ones, every step gives the value its operands determine (the same as for these operands alone), and only valid values (dates and timestamps in range or infinite, times within 0..24 hours, intervals within their fields) or an error; an error leaves the operands as they were, and no operation panics except + of intervals when the sum does not fit.",
     ["histories", "inputs"], "every finite sequence of operations over values produced by earlier ones",
     "Sequences of operations are not tested at all.",
     ["src/date.rs", "src/time.rs", "src/timestamp.rs", "src/interval.rs"], [("range checks after every operation", "is_valid_date, is_valid_timestamp; src/*.rs")],
     ["the whole public API, chained"])

NOTE = ("TLC checks the property as invariants of the specification on bounded operand grids, and every call recorded from the "
        "library (the model's steps, and seeded executions aimed at the boundaries) is judged by the same specification. "
        "Exhaustive on the model's grids, sampled beyond them. Trusts TLC, the specification's own definitions and the "
        "i32/i64/bincode access to raw values.")
NOTES = {}


def main():
    import plan
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in ALL:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in ALL:
        i = p["id"]
        if i in plan.PLAN:
            checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                           "thorough_cmd": "python3 check.py %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": "TLA+ specification: TLC model checking + conformance (step replay and trace validation)",
                           "level": "model_checking", "level_note": NOTES.get(i, NOTE)})
        else:
            na.append({"property": i, "reason": "not claimed yet: the part of the specification it needs is being written"})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
         "notes": "TLA+ with TLC. No hooks in /repo: the harness crate in /verif uses the public API only."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
