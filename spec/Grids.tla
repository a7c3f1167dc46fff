-------------------------------- MODULE Grids --------------------------------
(***************************************************************************)
(* The operands the laws are checked on: every combination of the values   *)
(* around which the calendar, the types and the texts change.              *)
(***************************************************************************)
EXTENDS Api, IOUtils, Json

Deep == IOEnv.TIER = "thorough"
Pick(quick, more) == IF Deep THEN quick \cup more ELSE quick
Set(s) == {s[j] : j \in 1..Len(s)}
IsOk(r) == r.k = "ok"

\* Years (astronomical), within the range of dates.
SomeYears == Pick({-4713, -100, -1, 0, 1, 4, 100, 1900, 1999, 2000, 2004, 294276, 5874897},
                  {-4712, -4000, -1000, -999, -401, -400, -399, -99, -5, -4, -3, 2, 5, 69, 70, 99, 101, 400, 999, 1000, 1001, 1582,
                   1600, 1700, 1800, 1969, 1970, 2001, 2023, 2024, 2069, 2100, 2400, 9999, 10000, 99999, 100000, 294275, 294277,
                   1000000, 5874896})
MonthDays == Pick({<<1, 1>>, <<1, 31>>, <<2, 28>>, <<2, 29>>, <<3, 1>>, <<12, 31>>},
                  {<<1, 2>>, <<1, 4>>, <<3, 31>>, <<4, 30>>, <<6, 30>>, <<7, 1>>, <<10, 9>>, <<11, 24>>, <<12, 28>>, <<12, 29>>})
DaysOf(ys) == {n \in {DayNum(y, x[1], Min2(x[2], DaysIn(y, x[1]))) : y \in ys, x \in MonthDays} : DayInRange(n)}
RangeDays == {MinDay, MinDay + 1, EndTsDay - 1, EndTsDay, MaxDay - 1, MaxDay}
InfDays == {I32Min, I32Max}
SomeDays == DaysOf(SomeYears) \cup RangeDays
FewDays == {MinDay, -730119, -36525, -1, 0, 59, 60, 366, 8765, EndTsDay - 1, MaxDay}

\* Clock readings <<seconds, microseconds>>
SomeClocks == Pick({<<0, 0>>, <<45296, 789000>>, <<86399, 999999>>},
                   {<<0, 1>>, <<59, 500000>>, <<3600, 0>>, <<43200, 0>>, <<46800, 10>>, <<86340, 499999>>, <<86399, 0>>})
SomeTimes == {<<0, c[1], c[2]>> : c \in SomeClocks} \cup {<<1, 0, 0>>, <<0, 0, 1>>, <<0, 43200, 0>>, <<0, 3599, 999999>>}
Stamps(days, clocks) == {<<n, c[1], c[2]>> : n \in {x \in days : x < EndTsDay /\ ~DateInf(x)}, c \in clocks}
SomeStamps == Stamps(SomeDays, SomeClocks)
FewStamps == Stamps(FewDays, {<<0, 0>>, <<45296, 789000>>, <<86399, 999999>>})
InfStamps == {Min64, Max64}

SomeSpans == Pick({Zero, <<0, 0, 1>>, <<0, 5025, 678900>>, <<-1, 86399, 999999>>, <<-1, 81374, 321100>>, <<1, 0, 0>>, <<-3, 7, 500000>>},
                  {<<0, 86399, 999999>>, <<0, 59, 0>>, <<0, 0, 500000>>, <<29, 86399, 999999>>, <<31, 3600, 0>>, <<-1, 0, 0>>, <<-31, 1, 1>>,
                   <<100, 0, 0>>})
WideSpans == {Min64, Max64, SpanAdd(Min64, <<0, 0, 1>>), <<-53375996, 35972, 612096>>, <<53375995, 50427, 387904>>,
              <<89478485, 25199, 999999>>, <<89478485, 25200, 0>>, <<-89478486, 57600, 0>>, <<-89478486, 57599, 999999>>, <<-89478486, 54000, 1>>, <<-89478486, 61200, 1>>}
SomeMonths == Pick({0, 1, -1, 13, -25}, {11, 12, -11, -12, 24, 120, -1200, 11999})
SomeDayCounts == Pick({0, 1, -1, 30, -31}, {29, 31, -30, 59, 365, -366, 1000})
SomeIvs == {Iv(m, d, t) : m \in SomeMonths, d \in SomeDayCounts, t \in SomeSpans}
WideIvs == {Iv(m, d, t) : m \in {0, I32Max, I32Min, 178956970}, d \in {0, I32Max, I32Min}, t \in {Zero} \cup WideSpans}
FewIvs == {Iv(m, d, t) : m \in {0, 1, -13}, d \in {0, -1, 31}, t \in {Zero, <<0, 5025, 678900>>, <<-2, 81374, 321100>>}}
AllIvs == SomeIvs \cup WideIvs

\* Doubles
F(sign, whole, num, den) == <<0, sign, whole, num, den>>
FInt(n) == F(IF n < 0 THEN -1 ELSE 1, Abs(n), 0, 1)
BadDoubles == {<<1, 1, 0, 0, 1>>, <<2, 1, 0, 0, 1>>, <<3, -1, 0, 0, 1>>}
SomeSeconds == BadDoubles \cup {F(1, 0, 0, 1), F(1, 59, 999999, 1000000), F(1, 60, 0, 1), F(1, 60, 1, 4), F(1, 5, 3, 4), F(-1, 1, 0, 1),
                                F(1, 61, 0, 1), F(1, 30, 7, 100)}
Units == 0..22
=============================================================================
