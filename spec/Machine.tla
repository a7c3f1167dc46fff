------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* A program using the library: four variables, one of each type, and any  *)
(* sequence of operations over them.  What an operation answers is stored  *)
(* in the variable of its type; an error leaves all of them as they were.  *)
(* Every state reached must hold legal values that satisfy the laws below, *)
(* and every step is printed, to be made on the real code.                 *)
(*                                                                         *)
(*   MODE = "all"   every operation in every state, DEPTH steps deep       *)
(*   MODE = "walk"  random operations with random operands (-simulate)     *)
(***************************************************************************)
EXTENDS Grids

DEPTH == atoi(IOEnv.DEPTH)
Walking == IOEnv.MODE = "walk"

VARIABLES d, s, t, i, made
vars == <<d, s, t, i, made>>
Regs == <<d, s, t, i>>

(***************************************************************************)
(* The operations: <<name, arguments, variable of the result>>.            *)
(***************************************************************************)
Counts == IF Walking THEN {RandomElement(-60..60), RandomElement({-1000000, -146097, -365, -31, -30, -1, 0, 1, 29, 30, 366, 36525, I32Max, I32Min})}
          ELSE {1, -31, 36525, I32Max}
Spare == IF Walking THEN {Iv(RandomElement(-30..30), RandomElement(-70..70), <<RandomElement({0, 0, 0, 1, -1, 30, -31}), RandomElement(0..86399), RandomElement({0, 1, 500000, 999999})>>)}
         ELSE {Iv(1, -1, <<0, 43200, 1>>), Iv(-13, 0, <<-2, 86399, 999999>>)}
DayUnits == {uDay, uWeek, uMonth, uYear, uCentury}
AnyUnits == {uHour, uMinute, uMilli, uQuarter, uDecade, uMillennium} \cup DayUnits
Some(units) == IF Walking THEN {RandomElement(units)} ELSE units
Shifts == {i} \cup Spare

DateSteps ==
    {<<"d_adddays", <<d, k>>, "d">> : k \in Counts} \cup {<<"d_subdays", <<d, k>>, "d">> : k \in Counts}
    \cup {<<"d_trunc", <<d, fUnit, u>>, "d">> : u \in Some(DayUnits)} \cup {<<"s_tod", <<s>>, "d">>}
TimeSteps ==
    {<<"t_addiv", <<t, j>>, "t">> : j \in Shifts} \cup {<<"t_subiv", <<t, j>>, "t">> : j \in Shifts}
    \cup {<<"t_trunc", <<t, fUnit, u>>, "t">> : u \in Some({uHour, uSecond, uMilli})}
    \cup {<<"t_fromts", <<s>>, "t">>, <<"t_fromiv", <<i>>, "t">>}
StampSteps ==
    {<<"s_addiv", <<s, j>>, "s">> : j \in Shifts} \cup {<<"s_subiv", <<s, j>>, "s">> : j \in Shifts}
    \cup {<<"s_addtime", <<s, t>>, "s">>, <<"s_subtime", <<s, t>>, "s">>, <<"d_tots", <<d>>, "s">>, <<"d_addtime", <<d, t>>, "s">>,
          <<"d_addiv", <<d, i>>, "s">>, <<"d_subiv", <<d, i>>, "s">>}
    \cup {<<"s_trunc", <<s, fUnit, u>>, "s">> : u \in Some(AnyUnits)}
SpanSteps ==
    {<<"i_add", <<i, j>>, "i">> : j \in Shifts} \cup {<<"i_sub", <<i, j>>, "i">> : j \in Spare}
    \cup {<<"i_neg", <<i>>, "i">>, <<"i_jh", <<i>>, "i">>, <<"i_jd", <<i>>, "i">>, <<"i_ji", <<i>>, "i">>, <<"i_fromt", <<t>>, "i">>,
          <<"t_subt", <<t, Clock(IvTime(i))>>, "i">>, <<"s_subdate", <<s, d>>, "i">>}
    \cup {<<op, x, "i">> : op \in {"s_sub", "s_age"}, x \in {<<s, <<0, 1, 1>>>>, <<<<-1, 86399, 999999>>, s>>}
                                                            \cup (IF IsOk(TsOfDate(d)) THEN {<<s, TsOfDate(d).v>>} ELSE {})}
    \cup {<<"i_trunc", <<i, fUnit, u>>, "i">> : u \in Some({uYear, uMonth, uDay, uMinute, uMilli})}
\* New values; walking only, where all would be too many.
Fresh ==
    IF ~Walking THEN {}
    ELSE LET y == RandomElement({-4713, -100, -1, 1, 4, 1900, 1999, 2000, 2024, 294276} \cup 1890..2110)
             m == RandomElement(1..12)
             n == RandomElement({1, 28, 29, 30, 31})
             h == RandomElement(0..24)
             x == RandomElement(0..59)
             f == RandomElement(SomeSeconds)
         IN  {<<"d_ymd", <<y, m, n>>, "d">>, <<"t_hms", <<h, x, f>>, "t">>, <<"s_ymdhms", <<y, m, n, h, x, f>>, "s">>,
              <<"i_ymwd", <<m - 6, y % 13, n - 29, h - 12, -x, x, f>>, "i">>}
Steps == DateSteps \cup TimeSteps \cup StampSteps \cup SpanSteps \cup Fresh

\* What a variable becomes: the answer, if there is one.  (An infinite timestamp has no time of day.)
Becomes(old, r) == IF IsOk(r) /\ r.v # <<>> THEN r.v ELSE old
Do(c) ==
    LET r == Expect(c[1], c[2])
    IN  /\ PrintT("STEP " \o ToJson([op |-> c[1], a |-> c[2]]))
        /\ d' = IF c[3] = "d" THEN Becomes(<<d>>, r)[1] ELSE d
        /\ t' = IF c[3] = "t" THEN Becomes(t, r) ELSE t
        /\ s' = IF c[3] = "s" THEN Becomes(s, r) ELSE s
        /\ i' = IF c[3] = "i" THEN Becomes(i, r) ELSE i
        /\ made' = made + 1

Starts == {<<0, <<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0, 0, 0>>>>,
           <<59, <<8824, 45296, 789000>>, <<0, 86399, 999999>>, <<1, 31, 0, 5025, 678900>>>>,
           <<MaxDay, <<EndTsDay - 1, 86399, 999999>>, <<1, 0, 0>>, <<0, 0, 0, 0, 1>>>>,
           <<MinDay, <<MinDay, 0, 0>>, <<0, 0, 1>>, <<-1, -1, -1, 86399, 999999>>>>,
           <<EndTsDay - 1, <<-730120, 1, 0>>, <<0, 43200, 0>>, Iv(I32Max, I32Min, Max64)>>,
           <<I32Max, Max64, <<0, 3599, 500000>>, Iv(12, -400, Min64)>>,
           <<I32Min, Min64, <<0, 0, 0>>, Iv(I32Min, 0, <<89478485, 25199, 999999>>)>>}
Init == made = 0 /\ \E x \in Starts : d = x[1] /\ s = x[2] /\ t = x[3] /\ i = x[4]
Next == made < DEPTH /\ \E c \in (IF Walking THEN {RandomElement(Steps)} ELSE Steps) : Do(c)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What holds in every state.                                              *)
(***************************************************************************)
Legal == /\ DateLegal(d) /\ TsLegal(s) /\ TimeInRange(t) /\ SpanFits(IvTime(i))
         /\ \A x \in {s, t, IvTime(i)} : x[2] \in 0..86399 /\ x[3] \in 0..999999
\* A timestamp is its date and its time of day.
Split == IF TsInf(s) THEN DateInf(DateOfTs(s).v[1]) /\ TimeOfTs(s) = Ok(<<>>)
         ELSE DateAddTime(DateOfTs(s).v[1], TimeOfTs(s).v) = Ok(s)
\* Adding a difference leads back.
Back == LET e == TsOfDate(d)
            x == IF IsOk(e) THEN TsSub(s, e.v) ELSE Fail
        IN  IsOk(x) => TsAddIv(e.v, x.v) = Ok(s) /\ (IsOk(IvNeg(x.v)) => TsSubIv(s, x.v) = e)
\* The age is the difference, counted in calendar units: both have one sign.
AgeSign == LET e == TsOfDate(d)
               x == IF IsOk(e) THEN Age(s, e.v) ELSE Fail
           IN  IsOk(x) => LET c == SpanCmp(s, e.v)
                          IN  IF c = 0 THEN x.v = IvZero ELSE IvCmp(x.v, IvZero) = c
\* Addition and subtraction undo each other; negation is subtraction from nothing.
Undo == \A j \in {Iv(1, -1, <<0, 43200, 1>>), Iv(I32Max, 0, Zero), IvOfTime(t)} :
            /\ LET x == IvAdd(i, j) IN IsOk(x) => IvSub(x.v, j) = Ok(i)
            /\ IvNeg(i) = IvSub(IvZero, i)
Turn == Clock(TimeAddIv(TimeSubIv(t, i), i)) = Clock(t)
\* Justifying keeps the length and settles.
Settle == \A r \in {JustifyHours(i), JustifyDays(i), JustifyInterval(i)} : IsOk(r) => IvCmp(r.v, i) = 0
\* Truncation goes down to a fixed point.
Down == \A u \in AnyUnits : LET r == TsTrunc(s, fUnit, u)
                            IN  IsOk(r) => SpanLe(r.v, s) /\ TsTrunc(r.v, fUnit, u) = r
\* Every variable can be written and read back.
Text == /\ DateText2(DateText(d, stIso, YMDOrder), YMDOrder) = Ok(<<d>>)
        /\ Ok(s) \in TsTexts(TsText(s, stPostgres, DMYOrder), -1, DMYOrder)
        /\ Ok(t) \in TimeTexts(TimeText(t), -1, YMDOrder)
        /\ \A st \in {isPostgres, isIso} : IvReads(i, st) = Ok(i) => Ok(i) \in IvTexts(IvText(i, st).v, -1, st)
=============================================================================
