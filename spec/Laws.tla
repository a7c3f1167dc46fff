-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The properties as laws of the specification, one section each.  The     *)
(* section to check is LAW.  A state is a choice of operands: first a,     *)
(* then b; the law must hold for every choice, and the calls in which the  *)
(* library meets these operands are printed, to be made on the real code.  *)
(***************************************************************************)
EXTENDS Grids

LAW == IOEnv.LAW

VARIABLES phase, a, b
vars == <<phase, a, b>>
Agree(s, t) == ~(s > 0 /\ t < 0) /\ ~(s < 0 /\ t > 0)

(***************************************************************************)
(* C01 dates and year-month-day correspond one to one                      *)
(***************************************************************************)
\* years as they are written: no year 0, -1 is 1 BC
C01A == {IF y > 0 THEN y ELSE y - 1 : y \in SomeYears} \cup {0, -4715, 5874898, I32Max, I32Min}
C01B == {<<m, d>> : m \in {0, 1, 2, 4, 11, 12, 13} \cup (IF Deep THEN 3..10 ELSE {}), d \in {-1, 0, 1, 2, 23, 24, 28, 29, 30, 31, 32, I32Max}}
C01Law ==
    LET r == DateYmd(a, b[1], b[2])
        y == IF a < 0 THEN a + 1 ELSE a
        lenY == IF y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0) THEN 366 ELSE 365
    IN  IF ~IsOk(r) THEN
            \/ a = 0 \/ b[1] \notin 1..12 \/ b[2] < 1 \/ b[2] > DaysIn(y, b[1])
            \/ a < -4714 \/ a > 5874897 \/ (a = -4714 /\ (b[1] < 11 \/ (b[1] = 11 /\ b[2] < 24)))
        ELSE LET n == r.v[1]
                 m2 == IF b[2] < DaysIn(y, b[1]) THEN b[1] ELSE (b[1] % 12) + 1
                 d2 == IF b[2] < DaysIn(y, b[1]) THEN b[2] + 1 ELSE 1
                 y2 == IF m2 = 1 /\ d2 = 1 THEN (IF a = -1 THEN 1 ELSE a + 1) ELSE a
                 next == DateYmd(y2, m2, d2)
             IN  /\ YMD(n) = <<y, b[1], b[2]>>
                 \* the day after it, if there is one, is the next number
                 /\ IF n = MaxDay THEN next = Fail ELSE next = Ok(<<n + 1>>)
                 /\ DayOfYear(n) \in 1..lenY
                 /\ b = <<12, 31>> => DayOfYear(n) = lenY
C01Calls ==
    LET r == DateYmd(a, b[1], b[2])
    IN  <<<<"d_ymd", <<a, b[1], b[2]>>>>>>
        \o (IF IsOk(r) THEN <<<<"d_fmt", <<r.v[1], stIso, YMDOrder>>>>, <<"d_part", <<r.v[1], fUnit, uYear>>>>,
                              <<"d_part", <<r.v[1], fUnit, uDoy>>>>>> ELSE <<>>)

(***************************************************************************)
(* C02 construction from fields                                            *)
(***************************************************************************)
C02A == {-1, 0, 1, 12, 23, 24, 25, I32Max}
C02B == {<<m, f, y>> : m \in {-1, 0, 1, 59, 60}, f \in SomeSeconds, y \in {-4714, 0, 1, 1999, 2000, 294276, 294277}}
C02Law ==
    LET r == TimeHms(a, b[1], b[2])
        s == TsYmdHms(b[3], 2, 28, a, b[1], b[2])
        i == IvYmwdHms(b[3], 2, 3, 4, a, b[1], b[2])
        d == DateYmd(b[3], 2, 28)
    IN  /\ IsOk(r) <=> (a \in 0..24 /\ b[1] \in 0..59 /\ FSecondOk(b[2]) /\ (a = 24 => b[1] = 0 /\ FZero(b[2])))
        /\ IsOk(r) => TimeInRange(r.v) /\ TimeSub(r.v, Hms(a, b[1], 0)) = Iv(0, 0, SpanBig(FMicros(b[2])))
        \* a timestamp is its date and its time
        /\ IsOk(s) <=> (IsOk(r) /\ IsOk(d) /\ b[3] > 0 /\ b[3] <= 294276)
        /\ IsOk(s) => s = TsAddTime(<<d.v[1], 0, 0>>, r.v)
        /\ IsOk(i) /\ IsOk(r) => i = IvAdd(Iv(b[3] * 12 + 2, 25, Zero), IvOfTime(r.v))
        /\ ~FFinite(b[2]) => i = Fail
C02Calls == <<<<"t_hms", <<a, b[1], b[2]>>>>, <<"s_ymdhms", <<b[3], 2, 28, a, b[1], b[2]>>>>,
              <<"i_ymwd", <<b[3], 2, 3, 4, a, b[1], b[2]>>>>>>

(***************************************************************************)
(* C03 text layout: the numbers and words of a text, taken apart           *)
(***************************************************************************)
RECURSIVE NumsFrom(_, _, _)
NumsFrom(s, i, acc) ==
    LET p == Past(s, i, (0..255) \ Digits)
        e == Past(s, p, Digits)
    IN  IF p > Len(s) THEN acc ELSE NumsFrom(s, e, Append(acc, SubSeq(s, p, e - 1)))
Nums(s) == NumsFrom(s, 1, <<>>)
Last3(s) == SubSeq(s, Len(s) - 2, Len(s))
C03A == Stamps(DaysOf(SomeYears), SomeClocks)
C03B == {<<st, o>> : st \in 0..4, o \in 0..2}
C03Law ==
    LET x == YMD(a[1])
        y4 == PadTo(Dig(IF x[1] > 0 THEN x[1] ELSE 1 - x[1]), 4)
        m2 == PadTo(Dig(x[2]), 2)
        d2 == PadTo(Dig(x[3]), 2)
        ymd == CASE b[1] \in {stIso, stXsd} -> <<y4, m2, d2>>
                 [] b[1] = stGerman \/ b[2] = DMYOrder -> <<d2, m2, y4>>
                 [] OTHER -> <<m2, d2, y4>>
        clk == Nums(TimeText(TsClock(a)))
        date == DateText(a[1], b[1], b[2])
        text == TsText(a, b[1], b[2])
    IN  /\ Nums(date) = ymd
        /\ Nums(text) = IF b[1] = stPostgres THEN <<d2>> \o clk \o <<y4>> ELSE ymd \o clk
        /\ Last3(date) = B(" BC") <=> x[1] <= 0
        /\ Last3(text) = B(" BC") <=> x[1] <= 0
        /\ b[1] = stPostgres => /\ SubSeq(text, 1, 3) = DayNames[Dow(a[1]) + 1]
                                /\ MonthNames[x[2]] \in {SubSeq(text, 5, 7), SubSeq(text, 8, 10)}
        /\ Len(clk) = IF a[3] = 0 THEN 3 ELSE 4
        /\ a[3] # 0 => clk[4][Len(clk[4])] # 48
C03Calls == <<<<"d_fmt", <<a[1], b[1], b[2]>>>>, <<"s_fmt", <<a, b[1], b[2]>>>>, <<"t_fmt", <<TsClock(a), b[1]>>>>>>

(***************************************************************************)
(* C04 interval texts: no two intervals share one                          *)
(***************************************************************************)
C04A == {<<i, st>> : i \in FewIvs \cup {j \in WideIvs : HoursFit(IvTime(j))}, st \in 0..3}
C04B == FewIvs \cup {IvZero, Iv(-1, 1, Zero), Iv(1, -1, Zero), Iv(0, 1, <<-1, 0, 0>>), Iv(12, 0, Zero), Iv(-12, 0, Zero)}
                 \cup (IF Deep THEN SomeIvs ELSE {})
C04Law ==
    LET r == IvText(a[1], a[2])
        q == IvText(b, a[2])
        neg == IvNeg(a[1])
    IN  /\ IsOk(r) /\ IsOk(q)
        /\ (r = q) <=> (a[1] = b)
        \* verbose: the negation differs by "ago"
        /\ (a[2] = isVerbose /\ IsOk(neg) /\ a[1] # IvZero) =>
              LET s == IvText(neg.v, isVerbose)
                  Ago(t) == Len(t) > 4 /\ SubSeq(t, Len(t) - 3, Len(t)) = B(" ago")
              IN  IsOk(s) => (Ago(s.v) # Ago(r.v))
C04Calls == <<<<"i_fmt", a>>, <<"i_fmt", <<b, a[2]>>>>>>

(***************************************************************************)
(* C05 date, timestamp and time text reads back                            *)
(***************************************************************************)
\* written in style st and order o, read in order p without doubt
Compat(st, o, p) ==
    IF st \in {stIso, stXsd} THEN TRUE
    ELSE IF st = stGerman THEN p = DMYOrder
    ELSE p = IF o = DMYOrder THEN DMYOrder ELSE MDYOrder
C05A == SomeStamps \cup InfStamps
C05B == {x \in (0..4) \X (0..2) \X (0..2) : Compat(x[1], x[2], x[3])}
C05Date == IF a = Min64 THEN I32Min ELSE IF a = Max64 THEN I32Max ELSE a[1]
C05Law == /\ Reread("s_rt", <<a, b[1], b[2], b[3]>>) = {Ok(a)}
          /\ Reread("d_rt", <<C05Date, b[1], b[2], b[3]>>) = {Ok(<<C05Date>>)}
          /\ ~TsInf(a) => Reread("t_rt", <<TsClock(a), b[1], b[3]>>) = {Ok(TsClock(a))}
C05Calls == <<<<"s_rt", <<a, b[1], b[2], b[3]>>>>, <<"d_rt", <<C05Date, b[1], b[2], b[3]>>>>>>
            \o (IF TsInf(a) THEN <<>> ELSE <<<<"t_rt", <<TsClock(a), b[1], b[3]>>>>>>)

(***************************************************************************)
(* C06 interval text reads back                                            *)
(***************************************************************************)
C06A == AllIvs \cup {Iv(m, d, t) : m \in {0, 1, -1}, d \in {0, 1, -1, I32Min}, t \in WideSpans}
C06B == 0..3
C06Law == LET t == IvText(a, b)
              r == IvTexts(t.v, -1, b)
          IN  IsOk(t) => r = {IvReads(a, b)} \/ (a \in WideIvs /\ Open \in r)
C06Calls == <<<<"i_rt", <<a, b>>>>, <<"i_fmt", <<a, b>>>>>>

(***************************************************************************)
(* C07 serialized values                                                   *)
(***************************************************************************)
C07A == SomeDays \cup InfDays
C07B == {<<t, i>> : t \in {<<0, 0, 0>>, <<0, 86399, 999999>>, <<1, 0, 0>>}, i \in {IvZero, Iv(-13, 31, <<-1, 81374, 321100>>), Iv(I32Max, I32Min, Max64)}}
C07Stamp == IF DateInf(a) THEN (IF a < 0 THEN Min64 ELSE Max64) ELSE <<Min2(a, EndTsDay - 1), b[1][2], b[1][3]>>
C07Orders == <<<<0, 1, 2>>, <<0, 2, 1>>, <<1, 0, 2>>, <<1, 2, 0>>, <<2, 0, 1>>, <<2, 1, 0>>>>
C07Vals(p) == [i \in 1..3 |-> IF p[i] = 0 THEN IvTime(b[2]) ELSE Span32(b[2][3 - p[i]])]
C07Law ==
    /\ Un32(LE32(a)) = a /\ Len(LE32(a)) = 4
    /\ Un64(LE64(C07Stamp)) = C07Stamp /\ Len(LE64(C07Stamp)) = 8
    /\ ExpectIv("i_unbin", <<ExpectIv("i_bin", <<b[2]>>).v>>) = Ok(b[2])
    /\ ExpectDate("d_ofint", <<Span32(a), 0>>) = Ok(<<a>>)
    /\ \A k \in 1..6 : LET p == C07Orders[k] IN IvOfMap(p, C07Vals(p)) = Ok(b[2]) /\ IvOfMap(Tail(p), Tail(C07Vals(p))) = Fail
    /\ Read("d_unjson", <<ExpectDate("d_json", <<a>>).v>>) = {Ok(<<a>>)}
    /\ Read("s_unjson", <<ExpectTs("s_json", <<C07Stamp>>).v>>) = {Ok(C07Stamp)}
    /\ Read("t_unjson", <<ExpectTime("t_json", <<b[1]>>).v>>) = {Ok(b[1])}
C07Calls == <<<<"d_json", <<a>>>>, <<"d_jrt", <<a>>>>, <<"d_bin", <<a>>>>, <<"d_unbin", <<LE32(a)>>>>,
              <<"s_json", <<C07Stamp>>>>, <<"s_jrt", <<C07Stamp>>>>, <<"s_bin", <<C07Stamp>>>>, <<"s_unbin", <<LE64(C07Stamp)>>>>,
              <<"t_json", <<b[1]>>>>, <<"t_jrt", <<b[1]>>>>, <<"t_bin", <<b[1]>>>>, <<"t_unbin", <<LE64(b[1])>>>>,
              <<"i_json", <<b[2]>>>>, <<"i_jrt", <<b[2]>>>>, <<"i_bin", <<b[2]>>>>, <<"i_unbin", <<ExpectIv("i_bin", <<b[2]>>).v>>>>,
              <<"d_cbor", <<a, 0>>>>, <<"d_ofint", <<Span32(a), 0>>>>, <<"s_cbor", <<C07Stamp, 0>>>>, <<"s_ofint", <<C07Stamp, 4>>>>,
              <<"t_cbor", <<b[1], 0>>>>, <<"i_cbor", <<b[2], 0>>>>, <<"i_cbor", <<b[2], 1>>>>>>
             \o [k \in 1..6 |-> LET p == C07Orders[k] IN <<"i_ofmap", <<p, C07Vals(p), k % 2>>>>]

(***************************************************************************)
(* C08 C09 C10 every way to write a day and a time reads as that           *)
(***************************************************************************)
FullMonths == <<"january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december">>
FullDays == <<"sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday">>
\* <<order, text>>
DateSpellings(n) ==
    LET x == YMD(n)
        y == Year4(x[1])
        e == Era(x[1])
        m == AbsPad(x[2], 2)
        d == AbsPad(x[3], 2)
        mon == MonthNames[x[2]]
        full == B(FullMonths[x[2]])
        y2 == SubSeq(y, 3, 4)
        doy == AbsPad(DayOfYear(n), 3)
        All(t) == {<<o, t>> : o \in 0..2}
        short == x[1] \in 1970..2069
        \* six digits standing alone are a date or a time run together
        spaced == Len(y) <= 5
    IN  UNION {All(y \o bDash \o m \o bDash \o d \o e), All(y \o bSlash \o m \o bSlash \o d \o e), All(y \o m \o d \o e),
               All(d \o bDash \o mon \o bDash \o y \o e), All(mon \o bDash \o d \o bDash \o y \o e), All(y \o bDash \o full \o bDash \o d \o e),
               All(y \o bDash \o m \o bDash \o d \o bSpace \o DayNames[Dow(n) + 1] \o e),
               All(B("y") \o y \o B("m") \o m \o B("d") \o d \o e),
               IF ~spaced THEN {} ELSE
                   All(mon \o bSpace \o d \o bSpace \o y \o e) \cup All(y \o bSpace \o mon \o bSpace \o d \o e)
                   \cup All(full \o bSpace \o Dig(x[3]) \o B(", ") \o y \o e)
                   \cup All(DayNames[Dow(n) + 1] \o bSpace \o mon \o bSpace \o d \o bSpace \o y \o e)
                   \* in YMDOrder the first number is the year
                   \cup {<<o, d \o bSpace \o mon \o bSpace \o y \o e>> : o \in 1..2}
                   \cup {<<o, B(FullDays[Dow(n) + 1]) \o B(", ") \o d \o bSpace \o full \o bSpace \o y \o e>> : o \in 1..2},
               All(B("J") \o Dig(Julian(n))), All(B("julian ") \o Dig(Julian(n))),
               IF Len(y) = 4 THEN All(y \o bDot \o doy \o e) ELSE {},
               {<<DMYOrder, d \o sep \o m \o sep \o y \o e>> : sep \in {bDash, bSlash, bDot} \cup (IF spaced THEN {bSpace} ELSE {})},
               {<<MDYOrder, m \o sep \o d \o sep \o y \o e>> : sep \in {bDash, bSlash, bDot} \cup (IF spaced THEN {bSpace} ELSE {})},
               {<<MDYOrder, Dig(x[2]) \o bSlash \o Dig(x[3]) \o bSlash \o y \o e>>},
               IF short THEN {<<YMDOrder, y2 \o bDash \o m \o bDash \o d>>, <<MDYOrder, m \o bSlash \o d \o bSlash \o y2>>,
                              <<DMYOrder, d \o bDot \o m \o bDot \o y2>>, <<DMYOrder, d \o bDash \o mon \o bDash \o y2>>,
                              <<YMDOrder, y2 \o m \o d>>, <<MDYOrder, y2 \o m \o d>>} ELSE {}}
Upper(s) == [j \in 1..Len(s) |-> IF s[j] \in Lowers THEN s[j] - 32 ELSE s[j]]
C08A == (SomeDays \ InfDays) \cup FewDays
C08B == 0..1
C08Texts == {<<x[1], IF b = 0 THEN x[2] ELSE Upper(x[2])>> : x \in DateSpellings(a)}
C08Law == \A x \in C08Texts : DateText2(x[2], x[1]) = Ok(<<a>>)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
C08Calls == LET q == SeqOf(C08Texts) IN [j \in 1..Len(q) |-> <<"d_parse", <<q[j][2], q[j][1]>>>>]

\* Spellings of a clock reading <<0, s, u>>; those that may follow a date.
ClockSpellings(c) ==
    LET h == c[2] \div 3600
        m == AbsPad((c[2] \div 60) % 60, 2)
        s == Sec(c[2] % 60, c[3])
        h12 == Dig(IF h % 12 = 0 THEN 12 ELSE h % 12)
        half == IF h < 12 THEN B("am") ELSE B("PM")
        hh == AbsPad(h, 2)
        col == B(":")
        whole == c[2] % 60 = 0 /\ c[3] = 0
    IN  {hh \o col \o m \o col \o s, Dig(h) \o col \o m \o col \o s,
         h12 \o col \o m \o col \o s \o bSpace \o half, h12 \o col \o m \o col \o s \o half, B("T") \o hh \o m \o s,
         hh \o m \o s}
        \cup (IF whole THEN {hh \o col \o m, h12 \o col \o m \o half, B("t") \o hh \o m} ELSE {})
        \cup (IF c = Zero THEN {B("allballs")} ELSE {})
        \cup (IF c[3] # 0 THEN {hh \o col \o m \o col \o AbsPad(c[2] % 60, 2) \o bDot \o AbsPad(c[3], 6),
                                hh \o col \o m \o col \o AbsPad(c[2] % 60, 2) \o bDot \o AbsPad(c[3], 6) \o B("0")} ELSE {})
C09A == SomeStamps
C09B == 0..3
C09Date == LET x == YMD(a[1])
           IN  CASE b = 0 -> DateBody(a[1], stIso, YMDOrder)
                 [] b = 1 -> MonthNames[x[2]] \o bDash \o AbsPad(x[3], 2) \o bDash \o Year4(x[1])
                 [] b = 2 -> Year4(x[1]) \o AbsPad(x[2], 2) \o AbsPad(x[3], 2)
                 [] OTHER -> B("J") \o Dig(Julian(a[1]))
C09Era == IF b = 3 THEN <<>> ELSE Era(YMD(a[1])[1])
C09Texts == {C09Date \o bSpace \o c \o C09Era : c \in ClockSpellings(TsClock(a))}
C09Law == \A x \in C09Texts : TsTexts(x, -1, YMDOrder) = {Ok(a)} /\ DateText2(x, YMDOrder) = Ok(<<a[1]>>)
C09Calls == LET q == SeqOf(C09Texts) IN [j \in 1..Len(q) |-> <<"s_parse", <<q[j], -1, YMDOrder>>>>]

C10A == SomeTimes \cup {<<0, 3600 * h, u>> : h \in 0..23, u \in {0, 250000}}
C10B == 0..2
C10Texts == IF a = <<1, 0, 0>> THEN {B("24:00:00"), B("24:00"), B("240000")} ELSE ClockSpellings(a)
C10Law == \A x \in C10Texts : TimeTexts(x, -1, b) = {Ok(a)}
C10Calls == LET q == SeqOf(C10Texts) IN [j \in 1..Len(q) |-> <<"t_parse", <<q[j], -1, b>>>>]

(***************************************************************************)
(* C11 C12 an interval is the sum of its quantities                        *)
(***************************************************************************)
\* <<unit words, the interval one of them is>>
UnitDefs == <<
    <<<<"us", "usec", "usecs", "microsecond", "microseconds">>, Iv(0, 0, <<0, 0, 1>>)>>,
    <<<<"ms", "msec", "millisecond", "milliseconds">>, Iv(0, 0, <<0, 0, 1000>>)>>,
    <<<<"s", "sec", "secs", "second", "seconds">>, Iv(0, 0, <<0, 1, 0>>)>>,
    <<<<"m", "min", "mins", "minute", "minutes">>, Iv(0, 0, <<0, 60, 0>>)>>,
    <<<<"h", "hr", "hrs", "hour", "hours">>, Iv(0, 0, <<0, 3600, 0>>)>>,
    <<<<"d", "day", "days">>, Iv(0, 1, Zero)>>,
    <<<<"w", "week", "weeks">>, Iv(0, 7, Zero)>>,
    <<<<"mon", "mons", "month", "months">>, Iv(1, 0, Zero)>>,
    <<<<"y", "yr", "yrs", "year", "years">>, Iv(12, 0, Zero)>>,
    <<<<"dec", "decs", "decade", "decades">>, Iv(120, 0, Zero)>>,
    <<<<"c", "cent", "century", "centuries">>, Iv(1200, 0, Zero)>>,
    <<<<"mil", "mils", "millennium", "millennia">>, Iv(12000, 0, Zero)>>>>
RECURSIVE SpanTimes(_, _)
SpanTimes(t, n) == IF n < 0 THEN SpanNeg(SpanTimes(t, -n)) ELSE IF n = 0 THEN Zero ELSE SpanAdd(t, SpanTimes(t, n - 1))
IvTimes(i, n) == Iv(i[1] * n, i[2] * n, SpanTimes(IvTime(i), n))
Qty(x) == SgnDig(x[1]) \o bSpace \o B(UnitDefs[x[2]][1][x[3]])      \* x = <<count, unit, word>>
QtyIv(x) == IvTimes(UnitDefs[x[2]][2], x[1])
\* a: one quantity of every word; b: another of another unit (or the same: refused)
C11A == {<<n, u, w>> : n \in {0, 1, -1, 5, -12}, u \in 1..12, w \in 1..5} \cap
        {x \in (-12..5) \X (1..12) \X (1..5) : x[3] <= Len(UnitDefs[x[2]][1])}
C11B == {<<n, u, 1>> : n \in {2, -7}, u \in 1..12}
C11Texts == {Qty(a) \o bSpace \o Qty(b), B("@ ") \o Qty(a) \o B(", ") \o Qty(b)}
C11Law ==
    LET sum == IvAdd(QtyIv(a), QtyIv(b)).v
        want == IF a[2] = b[2] THEN Fail ELSE Ok(sum)
        half == Qty(a) \o B(" 0.5 ") \o SubSeq(Qty(b), IF b[1] < 0 THEN 4 ELSE 3, Len(Qty(b)))
        h == IvTexts(half, -1, isPostgres)
        frac == CASE b[2] = 4 -> Iv(0, 0, <<0, 30, 0>>) [] b[2] = 5 -> Iv(0, 0, <<0, 1800, 0>>)
                  [] b[2] = 6 -> Iv(0, 0, <<0, 43200, 0>>) [] b[2] = 7 -> Iv(0, 3, <<0, 43200, 0>>)
                  [] b[2] = 8 -> Iv(0, 15, Zero) [] b[2] = 9 -> Iv(6, 0, Zero) [] b[2] = 10 -> Iv(60, 0, Zero)
                  [] b[2] = 11 -> Iv(600, 0, Zero) [] b[2] = 12 -> Iv(6000, 0, Zero) [] b[2] = 3 -> Iv(0, 0, <<0, 0, 500000>>)
                  [] b[2] = 2 -> Iv(0, 0, <<0, 0, 500>>) [] OTHER -> IvZero
    IN  /\ \A t \in C11Texts : \A st \in {isPostgres, isVerbose, isIso} : IvTexts(t, -1, st) = {want}
        /\ IsOk(want) => \A t \in C11Texts : IvTexts(t \o B(" ago"), -1, isPostgres) = {IvNeg(sum)}
        \* the order of the quantities does not matter
        /\ IvTexts(Qty(b) \o bSpace \o Qty(a), -1, isPostgres) = {want}
        \* a half of a unit
        /\ a[2] # b[2] /\ b[2] >= 2 /\ ~(b[2] = 3 /\ a[2] <= 2) => h = {IvAdd(QtyIv(a), frac)}
C11Calls == LET t1 == Qty(a) \o bSpace \o Qty(b)
            IN  <<<<"i_parse", <<t1, -1, isPostgres>>>>, <<"i_parse", <<Upper(t1 \o B(" ago")), -1, isVerbose>>>>,
                  <<"i_parse", <<Qty(a) \o B(" 0.5 ") \o SubSeq(Qty(b), IF b[1] < 0 THEN 4 ELSE 3, Len(Qty(b))), -1, isPostgres>>>>,
                  <<"i_parse", <<t1, -1, isSql>>>>>>

C12A == {<<y, m, w, d>> : y \in {0, 1, -2}, m \in {0, 3, -11}, w \in {0, 1}, d \in {0, -40, 9}}
C12B == {<<h, mi, s, u>> : h \in {0, 1, -30}, mi \in {0, 59, -61}, s \in {0, 5, -7}, u \in {0, 250000}}
C12P(n, c) == IF n = 0 THEN <<>> ELSE SgnDig(n) \o c
\* the designators; seconds with their fraction
C12Text ==
    LET sec == IF b[3] = 0 /\ b[4] = 0 THEN <<>> ELSE SgnDig(b[3]) \o Frac(b[4]) \o B("S")
        t == C12P(b[1], B("H")) \o C12P(b[2], B("M")) \o sec
    IN  B("P") \o C12P(a[1], B("Y")) \o C12P(a[2], B("M")) \o C12P(a[3], B("W")) \o C12P(a[4], B("D"))
        \o (IF t = <<>> THEN <<>> ELSE B("T") \o t)
C12Val ==
    LET u == IF b[3] < 0 THEN -b[4] ELSE b[4]
    IN  Iv(a[1] * 12 + a[2], a[3] * 7 + a[4], SpanNorm(0, b[1] * 3600 + b[2] * 60 + b[3], u))
C12Alt == /\ a[1] >= 0 /\ a[2] >= 0 /\ a[3] = 0 /\ a[4] >= 0 /\ \A j \in 1..4 : b[j] >= 0
C12Texts ==
    {C12Text}
    \cup IF ~C12Alt THEN {}
         ELSE {B("P") \o AbsPad(a[1], 4) \o bDash \o AbsPad(a[2], 2) \o bDash \o AbsPad(a[4], 2)
               \o B("T") \o AbsPad(b[1], 2) \o B(":") \o AbsPad(b[2], 2) \o B(":") \o Sec(b[3], b[4]),
               B("P") \o AbsPad(a[1], 4) \o AbsPad(a[2], 2) \o AbsPad(a[4], 2)
               \o B("T") \o AbsPad(b[1], 2) \o AbsPad(b[2], 2) \o Sec(b[3], b[4])}
C12Law == C12Text # B("P") => \A t \in C12Texts : IvTexts(t, -1, isIso) = {Ok(C12Val)}
C12Calls == LET q == SeqOf(C12Texts) IN [j \in 1..Len(q) |-> <<"i_parse", <<q[j], -1, isIso>>>>]

(***************************************************************************)
(* C13 every short text has a meaning in range or an error                 *)
(***************************************************************************)
C13Bytes == {48, 49, 57, 45, 46, 58, 32, 80, 84, 100, 109, 43} \cup (IF Deep THEN {47, 121, 97, 64, 50} ELSE {})
C13A == UNION {[1..n -> C13Bytes] : n \in 0..2}
C13B == UNION {[1..n -> C13Bytes] : n \in {0} \cup {IF Deep THEN 2 ELSE 1}}
C13Text == a \o b
InRange(op, r) ==
    r.k # "ok" \/ CASE op = "d" -> DateLegal(r.v[1]) [] op = "s" -> TsLegal(r.v) [] op = "t" -> TimeInRange(r.v)
                    [] OTHER -> SpanFits(IvTime(r.v))
C13Law == /\ \A o \in 0..2 : InRange("d", DateText2(C13Text, o))
          /\ \A o \in 0..2, r \in TsTexts(C13Text, -1, 0) : InRange("s", r)
          /\ \A r \in TimeTexts(C13Text, -1, 0) : InRange("t", r)
          /\ \A st \in 0..3 : \A r \in IvTexts(C13Text, -1, st) : InRange("i", r)
C13Calls == <<<<"d_parse", <<C13Text, (Len(a) + Len(b)) % 3>>>>, <<"s_parse", <<C13Text, -1, 2>>>>, <<"t_parse", <<C13Text, -1, 1>>>>,
              <<"i_parse", <<C13Text, -1, 2>>>>>>

(***************************************************************************)
(* C14 respelling does not matter                                          *)
(***************************************************************************)
Blank(s, c) == LET RECURSIVE G(_)
                   G(j) == IF j > Len(s) THEN <<>> ELSE (IF s[j] = 32 THEN c ELSE <<s[j]>>) \o G(j + 1)
               IN  G(1)
\* white space behind a sign that begins a field
Aside(s, c) == LET RECURSIVE G(_)
                   G(j) == IF j > Len(s) THEN <<>>
                           ELSE <<s[j]>> \o (IF s[j] \in {43, 45} /\ (j = 1 \/ s[j - 1] = 32) THEN c ELSE <<>>) \o G(j + 1)
               IN  G(1)
C14A == {<<"d", x>> : x \in UNION {DateSpellings(n) : n \in {0, 60, -730119, 8765}}}
        \cup {<<"t", <<0, x>>>> : x \in UNION {ClockSpellings(t) : t \in {Zero, <<0, 45296, 789000>>, <<0, 46800, 0>>}}}
        \cup {<<"i", <<st, IvText(i, st).v>>>> : i \in FewIvs, st \in 0..3}
C14B == {1, 2, 3, 4, 5}
C14Text == LET s == a[2][2]
           IN  CASE b = 1 -> Upper(s) [] b = 2 -> Fold(s) [] b = 3 -> Blank(s, <<9, 32>>) [] b = 4 -> Aside(s, <<32, 9, 32>>) [] OTHER -> <<32>> \o Blank(s, <<32, 32, 10>>) \o <<13>>
Exempt == \* ISO 8601 durations are in upper case
    a[1] = "i" /\ a[2][2][1] = cP
C14Read(s) == CASE a[1] = "d" -> {DateText2(s, a[2][1])} [] a[1] = "t" -> TimeTexts(s, -1, 0) [] OTHER -> IvTexts(s, -1, a[2][1])
C14Law == Exempt \/ C14Read(C14Text) = C14Read(a[2][2])
C14Calls == LET op == a[1] \o "_parse"
                A(s) == IF a[1] = "d" THEN <<s, a[2][1]>> ELSE IF a[1] = "t" THEN <<s, -1, 0>> ELSE <<s, -1, a[2][1]>>
            IN  <<<<op, A(C14Text)>>, <<op, A(a[2][2])>>>>

(***************************************************************************)
(* C15 timestamps plus intervals                                           *)
(***************************************************************************)
C15A == Stamps(SomeDays, {<<0, 0>>, <<86399, 999999>>}) \cup InfStamps
C15B == FewIvs \cup {Iv(m, 0, Zero) : m \in {I32Max, I32Min, 12, -12, 11, 1200, 3600000, -3600000}}
               \cup {Iv(0, d, Zero) : d \in {I32Max, I32Min, 146097, -146097}} \cup {Iv(0, 0, t) : t \in WideSpans}
               \cup (IF Deep THEN SomeIvs ELSE {})
C15Law ==
    LET r == TsAddIv(a, b)
        neg == IvNeg(b)
        x == YMD(a[1])
        z == YMD(r.v[1])
        lead == BigAdd(BigMulSmall(Big(x[1]), 12), Big(x[2]))
    IN  IF TsInf(a) THEN r = Ok(a)
        ELSE /\ IsOk(r) => TsInRange(r.v)
             \* days and time are exact: the way back is the same way
             /\ (b[1] = 0 /\ IsOk(neg) /\ IsOk(r)) => TsAddIv(r.v, neg.v) \in {Ok(a)} \cup (IF b[2] = 0 THEN {} ELSE {Fail})
             /\ (b[1] = 0 /\ IsOk(neg) /\ IsOk(r) /\ Agree(Sign(b[2]), SpanSign(IvTime(b)))) => TsAddIv(r.v, neg.v) = Ok(a)
             /\ b[1] = 0 /\ b[2] = 0 => IsOk(r) = TsInRange(SpanAdd(a, IvTime(b)))
             \* months alone: the month is that many further, the day the same or the month's last
             /\ (b[2] = 0 /\ IvTime(b) = Zero /\ IsOk(r)) =>
                    /\ BigAdd(BigMulSmall(Big(z[1]), 12), Big(z[2])) = BigAdd(lead, Big(b[1]))
                    /\ z[3] = Min2(x[3], DaysIn(z[1], z[2]))
                    /\ TsClock(r.v) = TsClock(a)
             \* subtraction adds the negation
             /\ TsSubIv(a, b) = IF IsOk(neg) THEN TsAddIv(a, neg.v) ELSE Fail
             /\ SpanCmp(IvTime(b), Zero) >= 0 /\ b[1] >= 0 /\ b[2] >= 0 /\ IsOk(r) => SpanLe(a, r.v)
C15Calls == <<<<"s_addiv", <<a, b>>>>, <<"s_subiv", <<a, b>>>>>>
            \o (IF TsInf(a) THEN <<>> ELSE <<<<"d_addiv", <<a[1], b>>>>, <<"d_subiv", <<a[1], b>>>>,
                <<"s_addtime", <<a, TimeOfIv(b)>>>>, <<"s_subtime", <<a, TimeOfIv(b)>>>>, <<"d_addtime", <<a[1], TimeOfIv(b)>>>>>>)

(***************************************************************************)
(* C16 dates plus days                                                     *)
(***************************************************************************)
C16A == SomeDays \cup InfDays
C16B == {0, 1, -1, 31, 365, -366, 146097, -146097, 2147483647, I32Min, 1000000000, -1000000000} \cup SomeDays
C16Law ==
    LET r == DateAddDays(a, b)
        s == DateSubDays(a, b)
        sum == BigAdd(Big(a), Big(b))
        dif == BigSub(Big(a), Big(b))
        Within(x) == BigCmp(x, Big(MinDay)) >= 0 /\ BigCmp(x, Big(MaxDay)) <= 0
    IN  IF DateInf(a) THEN r = Ok(<<a>>) /\ s = Ok(<<a>>) /\ DateSub(a, 0) = Fail /\ DateSub(0, a) = Fail
        ELSE /\ IsOk(r) = Within(sum) /\ IsOk(s) = Within(dif)
             /\ IsOk(r) => BigFitsI32(sum) /\ r.v[1] = BigInt(sum) /\ DateSub(r.v[1], a) = Ok(<<b>>)
                           /\ DateSubDays(r.v[1], b) = Ok(<<a>>)
             /\ IsOk(s) => s.v[1] = BigInt(dif) /\ DateSub(a, s.v[1]) = Ok(<<b>>) /\ DateAddDays(s.v[1], b) = Ok(<<a>>)
C16Calls == <<<<"d_adddays", <<a, b>>>>, <<"d_subdays", <<a, b>>>>>>
            \o (IF DateLegal(b) THEN <<<<"d_subdate", <<a, b>>>>>> ELSE <<>>)

(***************************************************************************)
(* C17 times wrap at midnight                                              *)
(***************************************************************************)
C17A == SomeTimes
C17B == AllIvs
C17Law ==
    LET r == TimeAddIv(a, b)
        s == TimeSubIv(a, b)
        \* a whole number of days apart
        Congruent(x, y) == LET d == BigSub(BigSpan(x), BigSpan(y)) IN BigMul(BigFloor(d, BigSpan(DayMicros)), BigSpan(DayMicros)) = d
    IN  /\ TimeInRange(r) /\ SpanLt(r, DayMicros) /\ TimeInRange(s) /\ SpanLt(s, DayMicros)
        /\ Congruent(r, SpanAdd(a, IvTime(b))) /\ Congruent(s, SpanSub(a, IvTime(b)))
        /\ a # DayMicros => TimeSubIv(r, b) = a /\ TimeAddIv(s, b) = a
        /\ TimeAddIv(Zero, b) = TimeOfIv(b)
C17Calls == <<<<"t_addiv", <<a, b>>>>, <<"t_subiv", <<a, b>>>>, <<"t_fromiv", <<b>>>>, <<"t_subt", <<a, TimeOfIv(b)>>>>,
              <<"i_fromt", <<a>>>>>>

(***************************************************************************)
(* C18 differences of timestamps, C19 age                                  *)
(***************************************************************************)
C18A == SomeStamps \cup InfStamps
C18B == FewStamps \cup InfStamps
C18Law ==
    LET r == TsSub(a, b)
    IN  IF TsInf(a) \/ TsInf(b) THEN r = Fail
        ELSE LET neg == TsSub(b, a)
                 t == IvTime(r.v)
             IN  IsOk(r) => /\ r.v[1] = 0
                            /\ SpanAdd(<<r.v[2], 0, 0>>, t) = SpanSub(a, b)
                            /\ SpanLt(SpanAbs(t), DayMicros)
                            /\ (r.v[2] > 0 => SpanSign(t) >= 0) /\ (r.v[2] < 0 => SpanSign(t) <= 0)
                            /\ neg = IvNeg(r.v)
                            /\ TsAddIv(b, r.v) = Ok(a)
C18Calls == <<<<"s_sub", <<a, b>>>>>> \o (IF TsInf(b) THEN <<>> ELSE <<<<"s_subdate", <<a, b[1]>>>>>>)

C19A == SomeStamps \cup InfStamps
C19B == {<<n, 45296, 789000>> : n \in DaysOf({-1, 0, 1900, 2000, 2001, 2004})} \cup InfStamps
C19Law ==
    LET r == Age(a, b)
    IN  IF TsInf(a) \/ TsInf(b) THEN r = Fail
        ELSE LET t == IvTime(r.v)
                 later == SpanLe(b, a)
                 s == IF later THEN r.v ELSE IvNeg(r.v).v       \* not negative
                 from == IF later THEN b ELSE a
                 to == IF later THEN a ELSE b
                 A == YMD(from[1])
                 Z == YMD(to[1])
                 borrow == A[3] > Z[3] \/ (A[3] = Z[3] /\ SpanLt(TsClock(to), TsClock(from)))
                 \* a borrowed month is as long as the one the way begins in, not the one it ends in
                 slip == IF borrow THEN DaysIn(A[1], A[2]) - (IF Z[2] = 1 THEN 31 ELSE DaysIn(Z[1], Z[2] - 1)) ELSE 0
             IN  /\ IsOk(r) /\ Age(b, a) = IvNeg(r.v)
                 /\ s[1] >= 0 /\ s[2] \in 0..30 /\ SpanSign(IvTime(s)) >= 0 /\ SpanLt(IvTime(s), DayMicros)
                 \* unless a month end clips the way, it leads from one to the other
                 /\ A[3] <= 28 => TsAddIv(from, s) = TsOk(SpanAdd(to, <<slip, 0, 0>>))
C19Calls == <<<<"s_age", <<a, b>>>>, <<"s_age", <<b, a>>>>>>

(***************************************************************************)
(* C20 interval sums                                                       *)
(***************************************************************************)
C20A == FewIvs \cup WideIvs
C20B == FewIvs \cup WideIvs
C20Law ==
    LET r == IvAdd(a, b)
        s == IvSub(a, b)
        neg == IvNeg(b)
        Fields(x) == <<Big(x[1]), Big(x[2]), BigSpan(IvTime(x))>>
        Sum(j) == BigAdd(Fields(a)[j], Fields(b)[j])
        fits == BigFitsI32(Sum(1)) /\ BigFitsI32(Sum(2)) /\ BigFits64(Sum(3))
    IN  /\ IsOk(r) = fits /\ (fits => Fields(r.v) = <<Sum(1), Sum(2), Sum(3)>>)
        /\ r = IvAdd(b, a)
        /\ IsOk(r) => IvSub(r.v, b) = Ok(a)
        /\ IsOk(neg) => s = IvAdd(a, neg.v) /\ IvNeg(neg.v) = Ok(b)
        /\ IvSub(a, a) = Ok(IvZero) /\ IvAdd(a, IvZero) = Ok(a)
C20Calls == <<<<"i_add", <<a, b>>>>, <<"i_sub", <<a, b>>>>, <<"i_neg", <<a>>>>>> \o (IF IsOk(IvAdd(a, b)) THEN <<<<"i_plus", <<a, b>>>>>> ELSE <<>>)

(***************************************************************************)
(* C21 justification                                                       *)
(***************************************************************************)
C21A == {<<m, d>> : m \in SomeMonths \cup {I32Max, I32Min}, d \in SomeDayCounts \cup {29, -29, -30, 60, I32Max, I32Min}}
C21B == SomeSpans \cup WideSpans \cup {<<30, 0, 0>>, <<-30, 0, 0>>, <<-31, 86399, 999999>>}
C21Iv == Iv(a[1], a[2], b)
C21Law ==
    LET h == JustifyHours(C21Iv)
        d == JustifyDays(C21Iv)
        j == JustifyInterval(C21Iv)
        Kept(r) == IvTotal(r.v) = IvTotal(C21Iv)
        Small(t) == SpanLt(SpanAbs(t), DayMicros)
    IN  /\ IsOk(h) => Kept(h) /\ Small(IvTime(h.v)) /\ h.v[1] = a[1] /\ Agree(Sign(h.v[2]), SpanSign(IvTime(h.v))) /\ JustifyHours(h.v) = h
        /\ IsOk(d) => Kept(d) /\ Abs(d.v[2]) < 30 /\ IvTime(d.v) = b /\ Agree(Sign(d.v[1]), Sign(d.v[2])) /\ JustifyDays(d.v) = d
        /\ IsOk(j) => Kept(j) /\ Small(IvTime(j.v)) /\ Abs(j.v[2]) < 30 /\ JustifyInterval(j.v) = j
                      /\ Agree(Sign(j.v[1]), Sign(j.v[2])) /\ Agree(Sign(j.v[1]), SpanSign(IvTime(j.v)))
                      /\ Agree(Sign(j.v[2]), SpanSign(IvTime(j.v)))
C21Calls == <<<<"i_jh", <<C21Iv>>>>, <<"i_jd", <<C21Iv>>>>, <<"i_ji", <<C21Iv>>>>>>

(***************************************************************************)
(* C22 the order of intervals is total and goes by length                  *)
(***************************************************************************)
C22Ivs == FewIvs \cup {Iv(1, 0, Zero), Iv(0, 30, Zero), Iv(0, 0, <<30, 0, 0>>), Iv(0, 31, Zero), Iv(I32Max, I32Max, Max64),
                       Iv(I32Min, I32Min, Min64), Iv(0, I32Max, Max64), Iv(0, 0, Min64), Iv(0, 29, <<0, 86399, 999999>>), Iv(-1, 60, Zero)}
C22A == C22Ivs
C22B == C22Ivs \X (IF Deep THEN C22Ivs ELSE {IvZero, Iv(1, 0, Zero), Iv(0, 30, Zero), Iv(-1, 60, Zero), Iv(0, 0, Max64)})
C22Law ==
    LET c == IvCmp(a, b[1])
        d == IvCmp(b[1], b[2])
        e == IvCmp(a, b[2])
    IN  /\ c = -IvCmp(b[1], a)
        /\ (c <= 0 /\ d <= 0) => e <= 0
        /\ (c = 0 /\ d = 0) => e = 0
        /\ IvCmp(a, a) = 0
        /\ (c = 0) = (IvTotal(a) = IvTotal(b[1]))
C22Calls == <<<<"i_cmp", <<a, b[1]>>>>, <<"i_cmp", <<b[1], b[2]>>>>, <<"i_i128", <<a>>>>, <<"d_cmp", <<a[2], b[1][2]>>>>,
              <<"s_cmp", <<IvTime(a), IvTime(b[1])>>>>, <<"t_cmp", <<TimeOfIv(a), TimeOfIv(b[1])>>>>>>

(***************************************************************************)
(* C23 scaling                                                             *)
(***************************************************************************)
C23A == FewIvs \cup {Iv(7, 11, <<0, 12345, 678901>>), Iv(-29, 3, <<-1, 5, 1>>), Iv(178956970, 0, Zero), Iv(0, 0, Max64), Iv(I32Min, 0, Zero)}
C23B == {-1000, -7, -1, 0, 1, 2, 3, 12, 30, 1000}
C23Law ==
    LET M == BigMulSmall(Big(a[1]), b)
        D == BigMulSmall(Big(a[2]), b)
        T == BigMulSmall(BigSpan(IvTime(a)), b)
        fits == BigFitsI32(M) /\ BigFitsI32(D) /\ BigFits64(T)
        small == BigCmp(BigAbs(T), BigPow2(40)) < 0
        want == Iv(BigInt(M), BigInt(D), SpanBig(T))
    IN  /\ fits => MulAdmits(a, FInt(b), "ok", want)
        /\ fits /\ small => ~MulAdmits(a, FInt(b), "err", <<>>)
                            /\ ~MulAdmits(a, FInt(b), "ok", Iv(want[1], want[2], SpanAdd(IvTime(want), <<0, 0, 1>>)))
                            /\ (want[1] < I32Max => ~MulAdmits(a, FInt(b), "ok", [want EXCEPT ![1] = @ + 1]))
                            /\ (want[2] < I32Max => ~MulAdmits(a, FInt(b), "ok", [want EXCEPT ![2] = @ + 1]))
        /\ ~(BigFitsI32(M) /\ BigFitsI32(D)) => MulAdmits(a, FInt(b), "err", <<>>)
        \* division undoes it
        /\ fits /\ small /\ b # 0 => DivAdmits(want, FInt(b), "ok", a)
        /\ b = 0 => DivAdmits(a, FInt(b), "err", <<>>)
        /\ \A f \in BadDoubles : MulAdmits(a, f, "err", <<>>)
C23Calls ==
    LET M == BigMulSmall(Big(a[1]), b)
        D == BigMulSmall(Big(a[2]), b)
        T == BigMulSmall(BigSpan(IvTime(a)), b)
        fits == BigFitsI32(M) /\ BigFitsI32(D) /\ BigFits64(T)
        s == IF b < 0 THEN -1 ELSE 1
    IN  <<<<"i_mul", <<a, FInt(b)>>>>, <<"i_div", <<a, FInt(b)>>>>, <<"i_mul", <<a, F(s, Abs(b), 1, 2)>>>>, <<"i_div", <<a, F(s, Abs(b), 1, 4)>>>>,
          <<"i_mul", <<a, F(s, 0, Abs(b), 10)>>>>>>
        \o (IF fits THEN <<<<"i_div", <<Iv(BigInt(M), BigInt(D), SpanBig(T)), FInt(b)>>>>>> ELSE <<>>)

(***************************************************************************)
(* C24 C25 truncation                                                      *)
(***************************************************************************)
PartInt(r) == BigInt(BigQuotT(r.v, BigMillion))
C24A == SomeStamps \cup InfStamps
C24B == Units
\* a step of one unit from its beginning
C24Next(t) ==
    CASE b = uMilli -> Ok(SpanAdd(t, <<0, 0, 1000>>)) [] b = uSecond -> Ok(SpanAdd(t, <<0, 1, 0>>)) [] b = uMinute -> Ok(SpanAdd(t, <<0, 60, 0>>))
      [] b = uHour -> Ok(SpanAdd(t, <<0, 3600, 0>>)) [] b = uDay -> Ok(SpanAdd(t, DayMicros)) [] b = uWeek -> Ok(SpanAdd(t, <<7, 0, 0>>))
      [] b = uMonth -> AddMonths(t, 1) [] b = uQuarter -> AddMonths(t, 3) [] b = uYear -> AddMonths(t, 12)
      [] b = uDecade -> AddMonths(t, 120) [] b = uCentury -> AddMonths(t, 1200) [] b = uMillennium -> AddMonths(t, 12000)
      [] OTHER -> Ok(SpanAdd(t, <<0, 0, 1>>))
C24Law ==
    LET r == TsTrunc(a, fUnit, b)
        Part(t, u) == TsPart(t, fUnit, u)
    IN  IF TsInf(a) THEN r = Ok(a)
        ELSE /\ b \in {uMicro, uMilli, uSecond, uMinute, uHour, uDay} => IsOk(r)
             \* the first beginning of a month in range
             /\ b \in {uWeek, uMonth, uQuarter, uYear} /\ a[1] >= -2451545 + 403 => IsOk(r)
             /\ b \in {uJulian, uDow, uIsoDow, uDoy, uTz, uTzMinute, uTzHour, uIsoYear, uEpoch, uDelta} => r = Fail
             /\ IsOk(r) =>
                  /\ TsInRange(r.v) /\ SpanLe(r.v, a)
                  /\ TsTrunc(r.v, fUnit, b) = r
                  \* the unit and those above it are kept
                  /\ \A u \in {uYear, uMonth, uDay, uHour, uMinute, uSecond} \cap
                              (CASE b = uSecond -> {uYear, uMonth, uDay, uHour, uMinute, uSecond}
                                 [] b = uMinute -> {uYear, uMonth, uDay, uHour, uMinute} [] b = uHour -> {uYear, uMonth, uDay, uHour}
                                 [] b = uDay -> {uYear, uMonth, uDay} [] b = uMonth -> {uYear, uMonth} [] b = uYear -> {uYear} [] OTHER -> {}) :
                        PartInt(Part(r.v, u)) = PartInt(Part(a, u))
                  /\ b \in {uQuarter, uDecade, uCentury, uMillennium, uWeek} => Part(r.v, b) = Part(a, b)
                  \* it is the last beginning of a unit up to a
                  /\ LET n == C24Next(r.v) IN IsOk(n) => SpanLt(a, n.v)
C24Calls == <<<<"s_trunc", <<a, fUnit, b>>>>>> \o (IF TsInf(a) THEN <<>> ELSE <<<<"d_trunc", <<a[1], fUnit, b>>>>>>)

C25A == SomeIvs \cup {i \in WideIvs : HoursFit(IvTime(i))}
C25B == Units
C25Law ==
    LET r == IvTrunc(a, fUnit, b)
        Toward(x, y) == (x >= 0 /\ y >= x) \/ (x <= 0 /\ y <= x)       \* x between 0 and y
    IN  IsOk(r) => /\ IvTrunc(r.v, fUnit, b) = r
                   /\ Toward(r.v[1], a[1]) /\ Toward(r.v[2], a[2])
                   /\ SpanLe(SpanAbs(IvTime(r.v)), SpanAbs(IvTime(a))) /\ (SpanSign(IvTime(r.v)) \in {0, SpanSign(IvTime(a))})
                   /\ b \in {uYear, uDecade, uCentury, uMillennium, uMonth, uQuarter} => r.v[2] = 0 /\ IvTime(r.v) = Zero
                   /\ b \in {uDay, uHour, uMinute, uSecond, uMilli, uMicro} => r.v[1] = a[1] /\ r.v[2] = a[2]
                   /\ b = uHour => IvFields(r.v)[4] = IvFields(a)[4] /\ IvFields(r.v)[5] = 0
                   /\ b = uYear => IvFields(r.v)[1] = IvFields(a)[1] /\ IvFields(r.v)[2] = 0
C25Calls == <<<<"i_trunc", <<a, fUnit, b>>>>, <<"t_trunc", <<TimeOfIv(a), fUnit, b>>>>>>

(***************************************************************************)
(* C26 C27 fields                                                          *)
(***************************************************************************)
C26A == SomeStamps
C26B == {0}
C26Law ==
    LET P(u) == PartInt(TsPart(a, fUnit, u))
        y == IF P(uYear) < 0 THEN P(uYear) + 1 ELSE P(uYear)
        jan4 == DayNum(P(uIsoYear), 1, 4)
    IN  /\ P(uYear) # 0 /\ DateYmd(P(uYear), P(uMonth), P(uDay)) = Ok(<<a[1]>>)
        /\ a[2] = P(uHour) * 3600 + P(uMinute) * 60 + P(uSecond)
        /\ TsPart(a, fUnit, uMicro).v = BigMul(BigAdd(BigMul(Big(P(uSecond)), BigMillion), Big(a[3])), BigMillion)
        /\ P(uQuarter) = (P(uMonth) + 2) \div 3 /\ P(uDoy) = a[1] - DayNum(y, 1, 1) + 1
        /\ P(uDow) = P(uIsoDow) % 7 /\ P(uIsoDow) \in 1..7
        \* the ISO week: week 1 holds 4 January, weeks begin on Monday
        /\ a[1] = Monday(jan4) + 7 * (P(uWeek) - 1) + P(uIsoDow) - 1 /\ P(uWeek) \in 1..53
        /\ a[1] < Monday(DayNum(P(uIsoYear) + 1, 1, 4))
        \* centuries and millennia count from 1, both ways; decades are the tens of the year
        /\ P(uCentury) # 0 /\ P(uMillennium) # 0
        /\ y > 0 => P(uCentury) = (y + 99) \div 100 /\ P(uMillennium) = (y + 999) \div 1000
        /\ y <= 0 => P(uCentury) = -((-y) \div 100) - 1 /\ P(uMillennium) = -((-y) \div 1000) - 1
        /\ y \in (10 * P(uDecade))..(10 * P(uDecade) + 9)
        /\ LET j == TsPart(a, fUnit, uJulian).v IN SpanSub(j, a) = <<2451545, 0, 0>>
C26Calls == LET q == SeqOf(Units)
            IN  [j \in 1..Len(q) |-> <<"s_part", <<a, fUnit, q[j]>>>>] \o [j \in 1..Len(q) |-> <<"d_part", <<a[1], fUnit, q[j]>>>>]
                \o <<<<"s_part", <<a, fEpoch, uEpoch>>>>, <<"d_part", <<a[1], fEpoch, uEpoch>>>>>>
C27A == AllIvs
C27B == {0}
C27Law ==
    LET P(u) == PartInt(IvPart(a, fUnit, u))
        f == IvFields(a)
        Sg(x) == IF x < 0 THEN -1 ELSE 1
    IN  HoursFit(IvTime(a)) =>
        /\ BigAdd(BigMulSmall(Big(P(uYear)), 12), Big(P(uMonth))) = Big(a[1]) /\ Abs(P(uMonth)) < 12 /\ Agree(Sign(P(uYear)), Sign(P(uMonth)))
        /\ P(uDay) = a[2]
        /\ BigAdd(BigMul(BigMul(Big(P(uHour)), Big(3600)), BigMillion),
                  BigAdd(BigMul(BigMulSmall(Big(P(uMinute)), 60), BigMillion), BigQuotT(IvPart(a, fUnit, uMicro).v, BigMillion)))
           = BigSpan(IvTime(a))
        /\ Abs(P(uMinute)) < 60
        /\ P(uDecade) = QuotT(P(uYear), 10) /\ P(uCentury) = QuotT(P(uYear), 100) /\ P(uMillennium) = QuotT(P(uYear), 1000)
        /\ BigSub(IvPart(a, fEpoch, uEpoch).v, IvTotal(Iv(RemT(a[1], 12), a[2], IvTime(a))))
           = BigMul(BigMul(Big(QuotT(a[1], 12)), Big(31557600)), BigMillion)
C27Calls == LET q == SeqOf(Units)
            IN  [j \in 1..Len(q) |-> <<"i_part", <<a, fUnit, q[j]>>>>] \o [j \in 1..Len(q) |-> <<"t_part", <<TimeOfIv(a), fUnit, q[j]>>>>]
                \o <<<<"i_part", <<a, fEpoch, uEpoch>>>>, <<"t_part", <<TimeOfIv(a), fEpoch, uEpoch>>>>>>

(***************************************************************************)
(* C28 conversions and infinities                                          *)
(***************************************************************************)
C28A == SomeStamps \cup InfStamps
C28B == {0, 1, -1}
C28Law ==
    LET d == DateOfTs(a)
        c == TimeOfTs(a)
        back == TsOfDate(d.v[1])
    IN  IF TsInf(a) THEN /\ back = Ok(a) /\ DateInf(d.v[1]) /\ c = Ok(<<>>)
                         /\ \A i \in FewIvs : TsAddIv(a, i) = Ok(a) /\ (IsOk(IvNeg(i)) => TsSubIv(a, i) = Ok(a))
                         /\ DateAddDays(d.v[1], b) = d
                         /\ \A u \in Units : TsTrunc(a, fUnit, u) = Ok(a)
        ELSE /\ back = Ok(<<a[1], 0, 0>>) /\ TsAddTime(back.v, c.v) = Ok(a)
             /\ IF DateInf(a[1] + b) \/ a[1] + b < EndTsDay THEN TRUE ELSE TsOfDate(a[1] + b) = Fail
             /\ SpanLe(back.v, a)
C28Calls ==
    LET d == DateOfTs(a).v[1]
    IN  <<<<"s_tod", <<a>>>>, <<"t_fromts", <<a>>>>, <<"d_tots", <<d>>>>, <<"s_fin", <<a>>>>, <<"d_fin", <<d>>>>, <<"d_adddays", <<d, b>>>>,
          <<"s_addiv", <<a, Iv(b, b, <<b, 0, 0>>)>>>>, <<"s_subiv", <<a, Iv(b, b, <<b, 0, 0>>)>>>>, <<"d_addiv", <<d, Iv(b, b, <<b, 0, 0>>)>>>>,
          <<"s_addtime", <<a, <<0, 1, 1>>>>>>, <<"s_trunc", <<a, fUnit, uDay>>>>, <<"d_trunc", <<d, fUnit, uMonth>>>>,
          <<"s_cmp", <<a, Max64>>>>, <<"d_cmp", <<d, I32Max>>>>, <<"s_cmp", <<Min64, a>>>>>>

(***************************************************************************)
(* C29 C30 precision and range                                             *)
(***************************************************************************)
C29A == Stamps({MinDay, -1, 0, 1, 8765, EndTsDay - 1}, {<<s, u>> : s \in {0, 59, 45296, 86399},
               u \in {0, 1, 4, 5, 49, 50, 499, 500, 4999, 5000, 49999, 50000, 499999, 500000, 500001, 999994, 999995, 999999}})
C29B == {-1, 0, 1, 2, 3, 4, 5, 6, 7, -2}
C29Half(p) == Pow10[7 - p] \div 2
C29Law ==
    LET r == TsTypmod(a, b)
        c == TimeTypmod(TsClock(a), b)
        d == SpanAbs(SpanSub(r.v, a))
    IN  IF b \notin -1..6 THEN r = Fail
        ELSE IF b \in {-1, 6} THEN r = Ok(a) /\ c = TsClock(a)
        ELSE /\ IsOk(r) => /\ r.v[3] % Pow10[7 - b] = 0
                           /\ d[1] = 0 /\ d[2] = 0 /\ d[3] <= C29Half(b)
                           \* a tie goes away from 2000-01-01
                           /\ d[3] = C29Half(b) => SpanLt(SpanAbs(a), SpanAbs(r.v))
             /\ ~IsOk(r) => a[1] \in {MinDay, EndTsDay - 1}
             /\ c[3] % Pow10[7 - b] = 0 /\ SpanLe(SpanAbs(SpanSub(c, TsClock(a))), <<0, 0, C29Half(b)>>)
C29Calls == <<<<"s_parse", <<TsText(a, stIso, YMDOrder), b, YMDOrder>>>>, <<"t_parse", <<TimeText(TsClock(a)), b, YMDOrder>>>>>>

Ranges == {bYear, bMonth, bYear + bMonth, bDay, bHour, bMinute, bSecond, bDay + bHour, bDay + bHour + bMinute,
           bDay + bHour + bMinute + bSecond, bHour + bMinute, bHour + bMinute + bSecond, bMinute + bSecond, RangeAll}
\* what a range keeps: 1 years 2 months 3 days 4 hours 5 minutes 6 seconds
Finest(r) == CASE r = bYear -> 1 [] r \in {bMonth, bYear + bMonth} -> 2 [] r = bDay -> 3 [] r \in {bHour, bDay + bHour} -> 4
               [] r \in {bMinute, bHour + bMinute, bDay + bHour + bMinute} -> 5 [] OTHER -> 6
C30A == FewIvs \cup {Iv(25, 3, <<0, 5025, 999999>>), Iv(-25, -3, <<-1, 81374, 1>>), Iv(14, 400, <<40, 3599, 500000>>)}
C30B == {<<r, p>> : r \in Ranges \cup {0, 1, bYear + bDay, bMonth + bSecond}, p \in {65535, 0, 1, 3, 6, 7, 65534}}
C30Mod == b[1] * 65536 + b[2]
C30Law ==
    LET r == IvTypmod(a, C30Mod)
        f == IvFields(a)
        n == Finest(b[1])
        whole == b[2] = 65535
    IN  IF b[1] \notin Ranges \/ (~whole /\ b[2] > 6) THEN r = Fail
        ELSE /\ IsOk(r)
             /\ LET g == IvFields(r.v)
                IN  /\ \A j \in 1..5 : j > n => g[j] = 0
                    /\ n < 6 => g[6] = 0 /\ g[7] = 0
                    /\ n < 6 \/ whole => \A j \in 1..n : g[j] = f[j]
                    /\ n = 6 /\ ~whole => g[1] = f[1] /\ g[2] = f[2] /\ g[3] = f[3] /\ g[7] % Pow10[7 - b[2]] = 0
                                         /\ SpanLe(SpanAbs(SpanSub(IvTime(r.v), IvTime(a))), <<0, 0, Pow10[7 - b[2]] \div 2>>)
             /\ IvTypmod(r.v, C30Mod) = r
C30Calls == <<<<"i_parse", <<IvText(a, isPostgres).v, C30Mod, isPostgres>>>>, <<"i_parse", <<IvText(a, isIso).v, C30Mod, isIso>>>>>>

(***************************************************************************)
(* The transition system.                                                  *)
(***************************************************************************)
FirstOf ==
    CASE LAW = "C01" -> C01A [] LAW = "C02" -> C02A [] LAW = "C03" -> C03A [] LAW = "C04" -> C04A [] LAW = "C05" -> C05A [] LAW = "C06" -> C06A
      [] LAW = "C07" -> C07A [] LAW = "C08" -> C08A [] LAW = "C09" -> C09A [] LAW = "C10" -> C10A [] LAW = "C11" -> C11A [] LAW = "C12" -> C12A
      [] LAW = "C13" -> C13A [] LAW = "C14" -> C14A [] LAW = "C15" -> C15A [] LAW = "C16" -> C16A [] LAW = "C17" -> C17A [] LAW = "C18" -> C18A
      [] LAW = "C19" -> C19A [] LAW = "C20" -> C20A [] LAW = "C21" -> C21A [] LAW = "C22" -> C22A [] LAW = "C23" -> C23A [] LAW = "C24" -> C24A
      [] LAW = "C25" -> C25A [] LAW = "C26" -> C26A [] LAW = "C27" -> C27A [] LAW = "C28" -> C28A [] LAW = "C29" -> C29A [] LAW = "C30" -> C30A
SecondOf ==
    CASE LAW = "C01" -> C01B [] LAW = "C02" -> C02B [] LAW = "C03" -> C03B [] LAW = "C04" -> C04B [] LAW = "C05" -> C05B [] LAW = "C06" -> C06B
      [] LAW = "C07" -> C07B [] LAW = "C08" -> C08B [] LAW = "C09" -> C09B [] LAW = "C10" -> C10B [] LAW = "C11" -> C11B [] LAW = "C12" -> C12B
      [] LAW = "C13" -> C13B [] LAW = "C14" -> C14B [] LAW = "C15" -> C15B [] LAW = "C16" -> C16B [] LAW = "C17" -> C17B [] LAW = "C18" -> C18B
      [] LAW = "C19" -> C19B [] LAW = "C20" -> C20B [] LAW = "C21" -> C21B [] LAW = "C22" -> C22B [] LAW = "C23" -> C23B [] LAW = "C24" -> C24B
      [] LAW = "C25" -> C25B [] LAW = "C26" -> C26B [] LAW = "C27" -> C27B [] LAW = "C28" -> C28B [] LAW = "C29" -> C29B [] LAW = "C30" -> C30B
Law ==
    CASE LAW = "C01" -> C01Law [] LAW = "C02" -> C02Law [] LAW = "C03" -> C03Law [] LAW = "C04" -> C04Law [] LAW = "C05" -> C05Law
      [] LAW = "C06" -> C06Law [] LAW = "C07" -> C07Law [] LAW = "C08" -> C08Law [] LAW = "C09" -> C09Law [] LAW = "C10" -> C10Law
      [] LAW = "C11" -> C11Law [] LAW = "C12" -> C12Law [] LAW = "C13" -> C13Law [] LAW = "C14" -> C14Law [] LAW = "C15" -> C15Law
      [] LAW = "C16" -> C16Law [] LAW = "C17" -> C17Law [] LAW = "C18" -> C18Law [] LAW = "C19" -> C19Law [] LAW = "C20" -> C20Law
      [] LAW = "C21" -> C21Law [] LAW = "C22" -> C22Law [] LAW = "C23" -> C23Law [] LAW = "C24" -> C24Law [] LAW = "C25" -> C25Law
      [] LAW = "C26" -> C26Law [] LAW = "C27" -> C27Law [] LAW = "C28" -> C28Law [] LAW = "C29" -> C29Law [] LAW = "C30" -> C30Law
Calls ==
    CASE LAW = "C01" -> C01Calls [] LAW = "C02" -> C02Calls [] LAW = "C03" -> C03Calls [] LAW = "C04" -> C04Calls [] LAW = "C05" -> C05Calls
      [] LAW = "C06" -> C06Calls [] LAW = "C07" -> C07Calls [] LAW = "C08" -> C08Calls [] LAW = "C09" -> C09Calls [] LAW = "C10" -> C10Calls
      [] LAW = "C11" -> C11Calls [] LAW = "C12" -> C12Calls [] LAW = "C13" -> C13Calls [] LAW = "C14" -> C14Calls [] LAW = "C15" -> C15Calls
      [] LAW = "C16" -> C16Calls [] LAW = "C17" -> C17Calls [] LAW = "C18" -> C18Calls [] LAW = "C19" -> C19Calls [] LAW = "C20" -> C20Calls
      [] LAW = "C21" -> C21Calls [] LAW = "C22" -> C22Calls [] LAW = "C23" -> C23Calls [] LAW = "C24" -> C24Calls [] LAW = "C25" -> C25Calls
      [] LAW = "C26" -> C26Calls [] LAW = "C27" -> C27Calls [] LAW = "C28" -> C28Calls [] LAW = "C29" -> C29Calls [] LAW = "C30" -> C30Calls

Init == phase = 0 /\ a \in FirstOf /\ b = "none"
Choose == phase = 0 /\ phase' = 1 /\ b' \in SecondOf /\ UNCHANGED a
Call == /\ phase = 1 /\ phase' = 2 /\ UNCHANGED <<a, b>>
        /\ \A j \in 1..Len(Calls) : PrintT("STEP " \o ToJson([op |-> Calls[j][1], a |-> Calls[j][2]]))
Next == Choose \/ Call
Spec == Init /\ [][Next]_vars
Holds == phase = 1 => Law
=============================================================================
