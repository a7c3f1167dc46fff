------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar.  A day is numbered from 2000-01-01;   *)
(* years are astronomical (0 is 1 BC, -1 is 2 BC ...).                     *)
(* CalendarWalk checks these closed forms against counting days one by     *)
(* one.                                                                    *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLens == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysIn(y, m) == IF m = 2 /\ IsLeap(y) THEN 29 ELSE MonthLens[m]
DaysBefore == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
\* Day of the year of the first of month m, minus one.
Before(y, m) == DaysBefore[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)

\* 400 years have 146097 days; 2000-01-01 begins such a cycle.
CycleDays == 146097
\* Days before year i (0..400) of a cycle.
YearStart(i) == 365 * i + ((i + 3) \div 4) - ((i + 99) \div 100) + (IF i > 0 THEN 1 ELSE 0)

DayNum(y, m, d) ==
    LET c == (y - 2000) \div 400
        i == (y - 2000) % 400
    IN  c * CycleDays + YearStart(i) + Before(y, m) + d - 1

YMD(n) ==
    LET c == n \div CycleDays
        r == n % CycleDays
        g == r \div 366                \* the year is g or g + 1
        i == IF r >= YearStart(g + 1) THEN g + 1 ELSE g
        y == 2000 + 400 * c + i
        k == r - YearStart(i)          \* 0-based day of the year
        M == CHOOSE m \in 1..12 : Before(y, m) <= k /\ (m = 12 \/ k < Before(y, m + 1))
    IN  <<y, M, k - Before(y, M) + 1>>

ValidYMD(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
DayOfYear(n) == LET y == YMD(n)[1] IN n - DayNum(y, 1, 1) + 1
\* 0 = Sunday; 2000-01-01 was a Saturday.
Dow(n) == (n + 6) % 7
IsoDow(n) == IF Dow(n) = 0 THEN 7 ELSE Dow(n)
Monday(n) == n - ((n + 5) % 7)
\* ISO 8601: a week belongs to the year its Thursday falls in.
IsoYear(n) == YMD(Monday(n) + 3)[1]
IsoWeek(n) == (DayOfYear(Monday(n) + 3) - 1) \div 7 + 1

\* Julian day number of a day.
Julian(n) == n + 2451545
\* Ranges: 4714-11-24 BC .. 5874897-12-31 and .. 294276-12-31.
MinDay == -2451545
MaxDay == 2145031948
EndTsDay == 106751983
DayInRange(n) == MinDay <= n /\ n <= MaxDay

\* Years are written 1, 2, ... AD and 1, 2, ... BC.
EraYear(y) == IF y > 0 THEN y ELSE 1 - y
SignedYear(y) == IF y > 0 THEN y ELSE y - 1
=============================================================================
