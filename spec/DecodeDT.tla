------------------------------ MODULE DecodeDT ------------------------------
(***************************************************************************)
(* What a text means as a date, a timestamp or a time of day.              *)
(*                                                                         *)
(* The fields of the text are read from left to right into a state x:      *)
(*   y mo d yday h mi s us   calendar and clock fields read so far         *)
(*   m       which fields have been given (each may be given once)         *)
(*   tm      which fields the last field of the text gave                  *)
(*   label   the unit a word announced for the next number, or "none"      *)
(*   kind    what is denoted: "date" or an infinity (or an unusable word)  *)
(*   jul is2 bc text   Julian day given; year of <= 2 digits; BC; month    *)
(*           given as a word                                               *)
(*   mer     "am", "pm" or "24"                                            *)
(*   tie     a fraction whose rounding to microseconds is left open        *)
(*   low     the time may come out one microsecond low (Julian fractions)  *)
(***************************************************************************)
EXTENDS Lexer

DateM == {"year", "month", "day"}
TimeM == {"hour", "minute", "second", "milli", "micro"}
SecM == {"second", "milli", "micro"}
Bad == [ok |-> FALSE]
Start == [ok |-> TRUE, y |-> 0, mo |-> 0, d |-> 0, yday |-> 0, h |-> 0, mi |-> 0, s |-> 0, us |-> 0,
          m |-> {}, tm |-> {}, label |-> "none", kind |-> "date", jul |-> FALSE, is2 |-> FALSE, bc |-> FALSE,
          mer |-> "24", text |-> FALSE, tie |-> FALSE, low |-> FALSE]

(***************************************************************************)
(* Numbers.                                                                *)
(***************************************************************************)
RECURSIVE NatOf(_)
NatOf(s) == IF s = <<>> THEN 0 ELSE NatOf(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48
\* An optional sign and up to ten digits from i on: ok if it fits 32 bits; j is the position behind.
NoInt == [ok |-> FALSE, v |-> 0, j |-> 0]
ReadInt(s, i) ==
    IF i > Len(s) THEN [ok |-> TRUE, v |-> 0, j |-> i]
    ELSE LET neg == s[i] = cDash
             b == IF s[i] \in {cDash, cPlus} THEN i + 1 ELSE i
             e == Past(s, b, Digits)
             ds == SubSeq(s, b, e - 1)
             hi == NatOf(SubSeq(ds, 1, 9))
             lo == ds[10] - 48
         IN  IF Len(ds) > 10 THEN NoInt
             ELSE IF Len(ds) < 10 THEN [ok |-> TRUE, v |-> IF neg THEN -NatOf(ds) ELSE NatOf(ds), j |-> e]
             ELSE IF hi < 214748364 \/ (hi = 214748364 /\ lo <= 7) THEN
                 [ok |-> TRUE, v |-> IF neg THEN -(hi * 10 + lo) ELSE hi * 10 + lo, j |-> e]
             ELSE IF neg /\ hi = 214748364 /\ lo = 8 THEN [ok |-> TRUE, v |-> I32Min, j |-> e]
             ELSE NoInt
\* ".ddd" at i, up to seven digits, as num / 10^n.
ReadFrac(s, i) ==
    LET e == Past(s, i + 1, Digits)
        n == e - i - 1
    IN  IF n > 7 THEN [ok |-> FALSE, num |-> 0, n |-> 0, j |-> e]
        ELSE [ok |-> TRUE, num |-> NatOf(SubSeq(s, i + 1, e - 1)), n |-> n, j |-> e]
\* ... in microseconds, nearest.  Half a microsecond that is no double may go either way.
FracMicros(f) == IF f.n <= 6 THEN f.num * Pow10[7 - f.n] ELSE (f.num + 5) \div 10
FracTie(f) == f.n = 7 /\ f.num % 10 = 5 /\ f.num % 78125 # 0
DotAt(s) == Past(s, 1, (0..127) \ {cDot})

(***************************************************************************)
(* A number whose digits are a whole date or time run together:            *)
(* yyyymmdd, yymmdd, hhmmss, hhmm, the last two with a fraction.           *)
(***************************************************************************)
RunTogether(s, m, x) ==
    LET dot == DotAt(s)
        n == dot - 1
        frac == dot <= Len(s)
        f == ReadFrac(s, dot)
        yr == ReadInt(SubSeq(s, 1, n - 4), 1)
        x1 == IF frac THEN [x EXCEPT !.us = FracMicros(f), !.tie = @ \/ FracTie(f)] ELSE x
        two(i) == NatOf(SubSeq(s, i, i + 1))
    IN  IF frac /\ ~f.ok THEN Bad
        ELSE IF ~frac /\ ~(DateM \subseteq m) /\ n >= 6 THEN
            IF ~yr.ok THEN Bad
            ELSE [x EXCEPT !.tm = DateM, !.d = two(n - 1), !.mo = two(n - 3), !.y = yr.v, !.is2 = @ \/ n = 6]
        ELSE IF TimeM \subseteq m THEN Bad
        ELSE IF n = 6 THEN [x1 EXCEPT !.tm = TimeM, !.h = two(1), !.mi = two(3), !.s = two(5)]
        ELSE IF n = 4 THEN [x1 EXCEPT !.tm = TimeM, !.h = two(1), !.mi = two(3), !.s = 0]
        ELSE Bad

(***************************************************************************)
(* A number that is one field of a date, by what the date has already (m)  *)
(* and by the order of fields.                                             *)
(***************************************************************************)
DateNumber(s, text, m, order, x0) ==
    LET r == ReadInt(s, 1)
        f == ReadFrac(s, r.j)
        x == IF At(s, r.j) = cDot THEN [x0 EXCEPT !.us = FracMicros(f), !.tie = @ \/ FracTie(f)] ELSE x0
        n == Len(s)
        v == r.v
        has == m \cap DateM
        year == [x EXCEPT !.y = v, !.tm = {"year"}, !.is2 = n <= 2]
        month == [x EXCEPT !.mo = v, !.tm = {"month"}]
        day == [x EXCEPT !.d = v, !.tm = {"day"}]
    IN  IF ~r.ok \/ r.j = 1 THEN Bad
        ELSE IF r.j <= n /\ ~(s[r.j] = cDot /\ f.ok /\ f.j > n) THEN Bad
        ELSE IF n = 3 /\ has = {"year"} /\ v \in 1..366 THEN [x EXCEPT !.yday = v, !.tm = {"doy", "month", "day"}]
        ELSE CASE has = {} -> IF n >= 3 \/ order = YMDOrder THEN year ELSE IF order = DMYOrder THEN day ELSE month
               [] has = {"year"} -> month
               [] has = {"month"} -> IF ~text THEN day ELSE IF n >= 3 \/ order = YMDOrder THEN year ELSE day
               [] has = {"year", "month"} ->
                    IF text /\ n >= 3 /\ x.is2 THEN [x EXCEPT !.d = x.y, !.y = v, !.tm = {"day"}, !.is2 = FALSE]
                    ELSE day
               [] has = {"day"} -> month
               [] has = {"month", "day"} -> year
               [] has = DateM -> RunTogether(s, m, x)
               [] OTHER -> Bad

(***************************************************************************)
(* A date in one piece: runs of digits or of letters with anything between.*)
(***************************************************************************)
RECURSIVE Runs(_, _, _)
Runs(s, i, acc) ==
    LET b == Past(s, i, (0..255) \ Alnums)
        C == IF At(s, b) \in Digits THEN Digits ELSE Letters
        e == Past(s, b, C)
    IN  IF i > Len(s) \/ Len(acc) = MaxFields THEN [ok |-> TRUE, r |-> acc]
        ELSE IF b > Len(s) THEN [ok |-> FALSE, r |-> <<>>]
        ELSE Runs(s, e, Append(acc, SubSeq(s, b, e - 1)))
IsWord(r) == r[1] \in Letters
Ignored(r) == DateWord(r).ty = "ignore"
RECURSIVE DateRuns(_, _, _, _, _)
\* numbers, and ignored words, which are no numbers
DateRuns(rs, i, text, order, x) ==
    IF i > Len(rs) THEN x
    ELSE IF IsWord(rs[i]) /\ ~Ignored(rs[i]) THEN DateRuns(rs, i + 1, text, order, x)
    ELSE LET z == DateNumber(rs[i], text, x.m, order, x)
         IN  IF ~z.ok THEN Bad
             ELSE IF z.tm \cap x.m # {} THEN Bad
             ELSE DateRuns(rs, i + 1, text, order, [z EXCEPT !.m = x.m \cup z.tm])
WholeDate(s, order, x) ==
    LET q == Runs(s, 1, <<>>)
        rs == q.r
        words == {i \in 1..Len(rs) : IsWord(rs[i]) /\ ~Ignored(rs[i])}
        w == CHOOSE i \in words : TRUE
        x1 == IF words = {} THEN x
              ELSE [x EXCEPT !.mo = DateWord(rs[w]).val, !.m = @ \cup {"month"}]
        z == DateRuns(rs, 1, words # {}, order, x1)
    IN  IF ~q.ok THEN Bad
        ELSE IF Cardinality(words) > 1 THEN Bad
        ELSE IF words # {} /\ (DateWord(rs[w]).ty # "month" \/ "month" \in x.m) THEN Bad
        ELSE IF ~z.ok THEN Bad
        ELSE IF z.m \ {"doy", "tz"} # DateM THEN Bad
        \* a fraction inside a date counts for nothing
        ELSE [z EXCEPT !.m = x.m, !.tm = z.m \ x.m, !.us = x.us, !.tie = x.tie]

(***************************************************************************)
(* hh:mm, hh:mm:ss, hh:mm:ss.f, mm:ss.f; mmss: two fields are mm:ss.       *)
(***************************************************************************)
ReadClock(s, mmss, x) ==
    LET a == ReadInt(s, 1)
        b == ReadInt(s, a.j + 1)
        c == ReadInt(s, b.j + 1)
        fb == ReadFrac(s, b.j)
        fc == ReadFrac(s, c.j)
        Set(h, mi, sec, us, tie) ==
            IF h < 0 \/ mi \notin 0..59 \/ sec \notin 0..60 \/ us > 1000000 THEN Bad
            ELSE [x EXCEPT !.tm = TimeM, !.h = h, !.mi = mi, !.s = sec, !.us = us, !.tie = @ \/ tie]
    IN  IF ~a.ok THEN Bad
        ELSE IF At(s, a.j) # cColon THEN Bad
        ELSE IF ~b.ok THEN Bad
        ELSE IF b.j > Len(s) THEN IF mmss THEN Set(0, a.v, b.v, 0, FALSE) ELSE Set(a.v, b.v, 0, 0, FALSE)
        ELSE IF s[b.j] = cDot THEN
            IF ~fb.ok \/ fb.j <= Len(s) THEN Bad ELSE Set(0, a.v, b.v, FracMicros(fb), FracTie(fb))
        ELSE IF s[b.j] # cColon THEN Bad
        ELSE IF ~c.ok THEN Bad
        ELSE IF c.j > Len(s) THEN Set(a.v, b.v, c.v, 0, FALSE)
        ELSE IF s[c.j] # cDot \/ ~fc.ok \/ fc.j <= Len(s) THEN Bad
        ELSE Set(a.v, b.v, c.v, FracMicros(fc), FracTie(fc))

(***************************************************************************)
(* A number behind a label: y2001, m02, d04, h05, mm06, s07.8, j2451187.   *)
(***************************************************************************)
\* m is what counts as given for a run-together time behind "t".
Labelled(s, m, x) ==
    LET r == ReadInt(s, 1)
        dot == At(s, r.j) = cDot
        f == ReadFrac(s, r.j)
        v == r.v
        jd == YMD(v - 2451545)
        jt == BigRound(BigMul(Big(f.num), BigSpan(DayMicros)), Big(Pow10[f.n + 1]))
        js == SpanBig(jt)
        z == CASE x.label = "year" -> [x EXCEPT !.y = v, !.tm = {"year"}]
               [] x.label = "month" -> IF {"month", "hour"} \subseteq x.m THEN [x EXCEPT !.mi = v, !.tm = {"minute"}]
                                       ELSE [x EXCEPT !.mo = v, !.tm = {"month"}]
               [] x.label = "day" -> [x EXCEPT !.d = v, !.tm = {"day"}]
               [] x.label = "hour" -> [x EXCEPT !.h = v, !.tm = {"hour"}]
               [] x.label = "minute" -> [x EXCEPT !.mi = v, !.tm = {"minute"}]
               [] x.label = "second" ->
                    IF ~dot THEN [x EXCEPT !.s = v, !.tm = {"second"}]
                    ELSE IF ~f.ok \/ f.j <= Len(s) THEN Bad
                    ELSE [x EXCEPT !.s = v, !.us = FracMicros(f), !.tie = @ \/ FracTie(f), !.tm = SecM]
               [] x.label = "julian" ->
                    IF v < 0 THEN Bad
                    ELSE LET xj == [x EXCEPT !.y = jd[1], !.mo = jd[2], !.d = jd[3], !.jul = TRUE, !.tm = DateM]
                         IN  IF ~dot THEN xj
                             ELSE IF ~f.ok THEN Bad
                             ELSE [xj EXCEPT !.tm = DateM \cup TimeM, !.h = js[2] \div 3600,
                                      !.mi = (js[2] \div 60) % 60, !.s = js[2] % 60, !.us = js[3],
                                      !.low = f.num # 0]
               [] x.label = "time" ->
                    LET t == RunTogether(s, m \cup DateM, x)
                    IN  IF t.ok THEN IF t.tm = TimeM THEN t ELSE Bad ELSE Bad
               [] OTHER -> Bad
    IN  IF ~r.ok THEN Bad
        ELSE IF r.j <= Len(s) /\ (~dot \/ x.label \notin {"julian", "time", "second"}) THEN Bad
        ELSE IF ~z.ok THEN Bad
        ELSE [z EXCEPT !.label = "none", !.kind = "date"]

(***************************************************************************)
(* Fields of a date or timestamp.                                          *)
(***************************************************************************)
DtDate(s, order, x) ==
    IF x.label # "none" THEN Bad           \* only zone suffixes could stand here
    ELSE IF {"month", "day"} \subseteq x.m THEN
        \* only a zone could stand here; one that begins with a digit is passed over
        IF s[1] \in Digits THEN x ELSE Bad
    ELSE WholeDate(s, order, x)
DtTime(s, x) ==
    LET z == ReadClock(s, FALSE, [x EXCEPT !.label = "none"])
    IN  IF x.label \notin {"none", "time"} THEN Bad
        ELSE IF ~z.ok THEN Bad
        ELSE IF z.h > 24 \/ (z.h = 24 /\ (z.mi > 0 \/ z.s > 0 \/ z.us > 0)) THEN Bad
        ELSE z
DtNumber(s, order, x) ==
    LET dot == DotAt(s) <= Len(s)
        n == Len(s)
    IN  IF x.label # "none" THEN Labelled(s, x.m, x)
        ELSE IF dot /\ x.m \cap DateM = {} /\ n <= 14 THEN WholeDate(s, order, x)
        ELSE IF dot /\ DotAt(s) > 3 THEN RunTogether(s, x.m, x)
        ELSE IF n >= 6 /\ (x.m \cap DateM = {} \/ x.m \cap TimeM = {}) THEN RunTogether(s, x.m, x)
        ELSE DateNumber(s, FALSE, x.m, order, x)
\* next: the kind of the next field, "none" if there is none
TimeNext == {"number", "time", "date"}
DtWord(w, next, x) ==
    LET e == DateWord(w)
    IN  CASE e.ty = "reserv" ->
               (CASE e.name = "now" -> Bad
                  [] e.name = "zulu" -> [x EXCEPT !.tm = TimeM \cup {"tz"}, !.kind = "date", !.h = 0, !.mi = 0, !.s = 0]
                  [] OTHER -> [x EXCEPT !.tm = {"reserv"}, !.kind = e.name])
          [] e.ty = "month" ->
               LET sub == "month" \in x.m /\ ~x.text /\ "day" \notin x.m /\ x.mo \in 1..31
               IN  [x EXCEPT !.tm = IF sub THEN {"day"} ELSE {"month"}, !.d = IF sub THEN x.mo ELSE @,
                             !.text = TRUE, !.mo = e.val]
          [] e.ty = "ampm" -> [x EXCEPT !.tm = {"ampm"}, !.mer = e.name]
          [] e.ty = "adbc" -> [x EXCEPT !.tm = {"adbc"}, !.bc = e.val = 1]
          [] e.ty = "dow" -> [x EXCEPT !.tm = {"dow"}]
          [] e.ty = "units" -> [x EXCEPT !.tm = {}, !.label = e.name]
          [] e.ty = "isotime" -> IF DateM \subseteq x.m /\ next \in TimeNext THEN [x EXCEPT !.tm = {}, !.label = "time"]
                                 ELSE Bad
          [] OTHER -> Bad

(***************************************************************************)
(* Fields of a time of day.                                                *)
(***************************************************************************)
ToDate(s, i, fs, order, x) ==
    IF i = 1 /\ Len(fs) >= 2 /\ (fs[Len(fs)].t = "date" \/ fs[2].t = "time") THEN WholeDate(s, order, x) ELSE Bad
ToNumber(s, i, fs, order, x) ==
    LET dot == DotAt(s)
    IN  IF x.label # "none" THEN Labelled(s, x.m, x)
        ELSE IF dot <= Len(s) THEN
            IF i = 1 /\ Len(fs) >= 2 /\ fs[Len(fs)].t = "date" THEN WholeDate(s, order, x)
            ELSE IF dot > 3 THEN RunTogether(s, x.m \cup DateM, x) ELSE Bad
        ELSE IF Len(s) > 4 THEN RunTogether(s, x.m \cup DateM, x)
        ELSE DateNumber(s, FALSE, x.m \cup DateM, order, x)
ToWord(w, next, x) ==
    LET e == DateWord(w)
    IN  CASE e.ty = "reserv" /\ e.name = "zulu" -> [x EXCEPT !.tm = TimeM \cup {"tz"}, !.h = 0, !.mi = 0, !.s = 0]
          [] e.ty = "ampm" -> [x EXCEPT !.tm = {"ampm"}, !.mer = e.name]
          [] e.ty = "adbc" -> [x EXCEPT !.tm = {"adbc"}, !.bc = e.val = 1]
          [] e.ty = "units" -> [x EXCEPT !.tm = {}, !.label = e.name]
          [] e.ty = "isotime" -> IF next \in TimeNext THEN [x EXCEPT !.tm = {}, !.label = "time"] ELSE Bad
          [] OTHER -> Bad

(***************************************************************************)
(* All fields, each thing given at most once.                              *)
(***************************************************************************)
RECURSIVE ReadFields(_, _, _, _, _)
ReadFields(only, fs, i, order, x) ==
    IF i > Len(fs) THEN x
    ELSE LET f == fs[i]
             next == IF i < Len(fs) THEN fs[i + 1].t ELSE "none"
             z == CASE f.t = "date" -> IF only THEN ToDate(f.s, i, fs, order, x) ELSE DtDate(f.s, order, x)
                    [] f.t = "time" -> IF only THEN ReadClock(f.s, FALSE, x) ELSE DtTime(f.s, x)
                    [] f.t = "number" -> IF only THEN ToNumber(f.s, i, fs, order, x) ELSE DtNumber(f.s, order, x)
                    [] f.t = "tz" -> Bad
                    [] OTHER -> IF only THEN ToWord(f.s, next, x) ELSE DtWord(f.s, next, x)
         IN  IF f.t \in {"string", "special"} /\ Ignored(f.s) THEN ReadFields(only, fs, i + 1, order, x)
             ELSE IF ~z.ok THEN Bad
             ELSE IF z.tm \cap x.m # {} THEN Bad
             ELSE ReadFields(only, fs, i + 1, order, [z EXCEPT !.m = @ \cup z.tm])

\* The year as counted astronomically, the day of the year resolved, the fields in range.
Checked(x0) ==
    LET year == "year" \in x0.m
        okY == ~year \/ x0.jul \/ IF x0.bc THEN x0.y > 0 ELSE IF x0.is2 THEN x0.y >= 0 ELSE x0.y > 0
        y1 == IF ~year \/ x0.jul THEN x0.y
              ELSE IF x0.bc THEN 1 - x0.y
              ELSE IF x0.is2 THEN (IF x0.y < 70 THEN x0.y + 2000 ELSE IF x0.y < 100 THEN x0.y + 1900 ELSE x0.y)
              ELSE x0.y
        doy == "doy" \in x0.m
        okD == ~doy \/ (y1 >= -4713 /\ y1 <= 5874898 /\ DayNum(y1, 1, 1) + x0.yday - 1 >= -2451545)
        j == YMD(DayNum(y1, 1, 1) + x0.yday - 1)
        x == IF doy THEN [x0 EXCEPT !.y = j[1], !.mo = j[2], !.d = j[3]] ELSE [x0 EXCEPT !.y = y1]
    IN  IF ~okY THEN Bad
        ELSE IF ~okD THEN Bad
        ELSE IF "month" \in x.m /\ x.mo \notin 1..12 THEN Bad
        ELSE IF "day" \in x.m /\ x.d \notin 1..31 THEN Bad
        ELSE IF DateM \subseteq x.m /\ x.d > DaysIn(x.y, x.mo) THEN Bad
        ELSE IF x.mer # "24" /\ x.h > 12 THEN Bad
        ELSE [x EXCEPT !.h = IF x.mer = "am" /\ x.h = 12 THEN 0
                             ELSE IF x.mer = "pm" /\ x.h # 12 THEN x.h + 12 ELSE x.h]
ReadDT(only, s, order) ==
    LET q == Lex(s)
        x == ReadFields(only, q.f, 1, order, Start)
    IN  IF ~q.ok THEN Bad
        ELSE IF ~x.ok THEN Bad
        ELSE Checked(x)

(***************************************************************************)
(* Results.  A text with a time but only part of a date names no instant,  *)
(* and the specification leaves open what it reads as; so it does for a    *)
(* clock run together or labelled beyond 23:59:60.                         *)
(***************************************************************************)
YearOk(y) == y >= -4714 /\ y <= 5874898
DayOf(x) == DayNum(x.y, x.mo, x.d)
NoDate(x) == x.m \cap DateM = {}
\* No date at all: the library's year, month and day zero.
ZeroDay == DayNum(-1, 11, 30)
DateText2(s, order) ==
    LET x == ReadDT(FALSE, s, order)
    IN  IF ~x.ok THEN Fail
        ELSE IF x.kind = "date" THEN
            IF DateM \subseteq x.m THEN IF YearOk(x.y) THEN DateOk(DayOf(x)) ELSE Fail
            ELSE IF TimeM \subseteq x.m THEN IF NoDate(x) THEN Ok(<<ZeroDay>>) ELSE Open
            ELSE Fail
        ELSE IF x.kind = "late" THEN Ok(<<I32Max>>)
        ELSE IF x.kind = "early" THEN Ok(<<I32Min>>)
        ELSE Fail
ClockSane(x) == x.h <= 36 /\ x.mi <= 59 /\ x.s <= 60
Precise(t, typmod) ==
    IF TsInf(t) \/ typmod = -1 THEN Ok(t)
    ELSE IF typmod \notin 0..6 THEN Fail
    ELSE TsOk(SpanRound(t, typmod))
\* All outcomes allowed.
TsTexts(s, typmod, order) ==
    LET x == ReadDT(FALSE, s, order)
        day == IF DateM \subseteq x.m THEN DayOf(x) ELSE ZeroDay
        t == SpanAdd(<<day, 0, 0>>, SpanNorm(0, x.h * 3600 + x.mi * 60 + x.s, x.us))
        At2(v) == IF TsInRange(v) THEN Precise(v, typmod) ELSE Fail
    IN  IF ~x.ok THEN {Fail}
        ELSE IF x.kind = "late" THEN {Ok(Max64)}
        ELSE IF x.kind = "early" THEN {Ok(Min64)}
        ELSE IF x.kind # "date" THEN {Fail}
        ELSE IF ~(DateM \subseteq x.m) THEN
            IF ~(TimeM \subseteq x.m) THEN {Fail}
            ELSE IF NoDate(x) /\ ClockSane(x) /\ ~x.tie THEN {At2(t)} ELSE {Open}
        ELSE IF ~YearOk(x.y) THEN {Fail}
        ELSE IF day >= EndTsDay THEN {Fail}
        ELSE IF x.tie \/ ~ClockSane(x) THEN {Open}
        ELSE {At2(t)} \cup (IF x.low THEN {At2(SpanSub(t, <<0, 0, 1>>))} ELSE {})
TimeTexts(s, typmod, order) ==
    LET x == ReadDT(TRUE, s, order)
        t == SpanNorm(0, x.h * 3600 + x.mi * 60 + x.s, x.us)
        At2(v) == Ok(IF typmod \in 0..6 THEN SpanRound(v, typmod) ELSE v)
    IN  IF ~x.ok THEN {Fail}
        ELSE IF x.m \cap TimeM = {} THEN {Fail}
        ELSE IF x.mi > 59 \/ x.s > 60 \/ x.h > 24 \/ x.us > 1000000 THEN {Fail}
        ELSE IF x.h = 24 /\ (x.mi > 0 \/ x.s > 0 \/ x.us > 0) THEN {Fail}
        ELSE IF x.tie THEN {Open}
        ELSE IF ~TimeInRange(t) THEN {Fail}
        ELSE {At2(t)} \cup (IF x.low THEN {At2(SpanSub(t, <<0, 0, 1>>))} ELSE {})
=============================================================================
