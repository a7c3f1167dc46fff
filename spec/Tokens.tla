------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* The words of date/time and of interval input.  A word has a type and a  *)
(* value; a word longer than ten letters is looked up by its first ten.    *)
(***************************************************************************)
EXTENDS Output

MonthWords == <<{"jan", "january"}, {"feb", "february"}, {"mar", "march"}, {"apr", "april"}, {"may"}, {"jun", "june"},
                {"jul", "july"}, {"aug", "august"}, {"sep", "sept", "september"}, {"oct", "october"},
                {"nov", "november"}, {"dec", "december"}>>
DayWords == {"sun", "sunday", "mon", "monday", "tue", "tues", "tuesday", "wed", "weds", "wednesday", "thu", "thur",
             "thurs", "thursday", "fri", "friday", "sat", "saturday"}
\* Words naming a time zone are known, but there is no support for zones: they never decode.
ZoneWords == {
    "acsst", "acst", "act", "adt", "aesst", "aest", "aft", "ahst", "akdt", "akst", "almst", "almt",
    "amst", "amt", "anast", "anat", "art", "ast", "awsst", "awst", "awt", "azost", "azot", "azst",
    "azt", "bdst", "bdt", "bnt", "bort", "bot", "bra", "bst", "bt", "btt", "cadt", "cast", "cat",
    "cct", "cdt", "cest", "cet", "cetdst", "chadt", "chast", "ckt", "clst", "clt", "cot", "cst",
    "cvt", "cxt", "davt", "ddut", "dnt", "dst", "easst", "east", "eat", "edt", "eest", "eet",
    "eetdst", "egst", "egt", "est", "fjst", "fjt", "fkst", "fkt", "fst", "fwt", "galt", "gamt",
    "gest", "get", "gft", "gilt", "gmt", "gst", "gyt", "hdt", "hkt", "hst", "ict", "idle", "idlw",
    "iot", "irkst", "irkt", "irt", "ist", "it", "javt", "jayt", "jst", "jt", "kdt", "kgst", "kgt",
    "kost", "krast", "krat", "kst", "lhdt", "lhst", "ligt", "lint", "lkt", "magst", "magt", "mart",
    "mawt", "mdt", "mest", "met", "metdst", "mewt", "mez", "mht", "mmt", "mpt", "msd", "msk", "mst",
    "mt", "mut", "mvt", "myt", "nct", "ndt", "nft", "nor", "novst", "novt", "npt", "nst", "nt",
    "nut", "nzdt", "nzst", "nzt", "omsst", "omst", "pdt", "pet", "petst", "pett", "pgt", "phot",
    "pht", "pkt", "pmdt", "pont", "pst", "pwt", "pyst", "pyt", "ret", "sadt", "sast", "sct", "set",
    "sst", "swt", "tft", "that", "tjt", "tkt", "tmt", "tot", "truk", "tvt", "ulast", "ulat", "ut",
    "utc", "uyst", "uyt", "uzst", "uzt", "vet", "vlast", "vlat", "vut", "wadt", "wakt", "wast",
    "wat", "wdt", "west", "wet", "wetdst", "wft", "wgst", "wgt", "wst", "yakst", "yakt", "yapt",
    "ydt", "yekst", "yekt", "yst", "z", "zp4", "zp5", "zp6", "zulu"}
Table(type, words, val) == {<<w, type, val, "">> : w \in words}
Named(type, words, name) == {<<w, type, 0, name>> : w \in words}
DateTable ==
    UNION {Table("month", MonthWords[m], m) : m \in 1..12}
    \cup Table("dow", DayWords, 0) \cup Table("zone", ZoneWords, 0)
    \cup Table("adbc", {"ad"}, 0) \cup Table("adbc", {"bc"}, 1)
    \cup Named("ampm", {"am"}, "am") \cup Named("ampm", {"pm"}, "pm")
    \cup Table("ignore", {"at", "on"}, 0) \cup Named("isotime", {"t"}, "time")
    \cup Named("reserv", {"-infinity"}, "early") \cup Named("reserv", {"infinity"}, "late")
    \cup Named("reserv", {"allballs"}, "zulu") \cup Named("reserv", {"epoch"}, "epoch")
    \cup Named("reserv", {"invalid", "undefined"}, "invalid")
    \cup Named("reserv", {"now", "current", "today", "tomorrow", "yesterday"}, "now")
    \cup Named("units", {"y"}, "year") \cup Named("units", {"m"}, "month") \cup Named("units", {"d"}, "day")
    \cup Named("units", {"h"}, "hour") \cup Named("units", {"mm"}, "minute") \cup Named("units", {"s"}, "second")
    \cup Named("units", {"j", "jd", "julian"}, "julian") \cup Named("units", {"dow", "doy", "isodow"}, "other")
DeltaTable ==
    Table("ignore", {"@"}, 0) \cup Table("ago", {"ago"}, 0) \cup Named("reserv", {"invalid", "undefined"}, "invalid")
    \cup Named("units", {"us", "usec", "usecs", "usecond", "useconds", "microsecon"}, "micro")
    \cup Named("units", {"ms", "msec", "msecs", "msecond", "mseconds", "millisecon"}, "milli")
    \cup Named("units", {"s", "sec", "secs", "second", "seconds"}, "second")
    \cup Named("units", {"m", "min", "mins", "minute", "minutes"}, "minute")
    \cup Named("units", {"h", "hr", "hrs", "hour", "hours"}, "hour")
    \cup Named("units", {"d", "day", "days"}, "day")
    \cup Named("units", {"w", "week", "weeks"}, "week")
    \cup Named("units", {"mon", "mons", "month", "months"}, "month")
    \cup Named("units", {"y", "yr", "yrs", "year", "years"}, "year")
    \cup Named("units", {"dec", "decs", "decade", "decades"}, "decade")
    \cup Named("units", {"c", "cent", "century", "centuries"}, "century")
    \cup Named("units", {"mil", "mils", "millennia", "millennium"}, "millennium")
    \cup Named("units", {"qtr", "quarter", "timezone", "timezone_h", "timezone_m"}, "other")

\* By length, so that a lookup compares few words.
Index(table) ==
    [n \in 1..10 |-> LET T == {e \in table : Len(e[1]) = n}
                     IN  [w \in {B(e[1]) : e \in T} |->
                            LET e == CHOOSE x \in T : B(x[1]) = w IN [ty |-> e[2], val |-> e[3], name |-> e[4]]]]
DateIndex == Index(DateTable)
DeltaIndex == Index(DeltaTable)
Unknown == [ty |-> "unknown", val |-> 0, name |-> ""]
FindIn(index, w) ==
    LET key == IF Len(w) > 10 THEN SubSeq(w, 1, 10) ELSE w
    IN  IF key = <<>> THEN Unknown
        ELSE IF key \in DOMAIN index[Len(key)] THEN index[Len(key)][key] ELSE Unknown
DateWord(w) == FindIn(DateIndex, w)
DeltaWord(w) == FindIn(DeltaIndex, w)
=============================================================================
