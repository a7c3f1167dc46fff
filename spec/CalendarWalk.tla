---------------------------- MODULE CalendarWalk ----------------------------
(***************************************************************************)
(* The calendar as it is counted: one day after another, from Saturday,    *)
(* 2000-01-01 (in ISO week 52 of 1999), through one cycle of 400 years.    *)
(* The closed forms of Calendar must agree with the count on every day of  *)
(* the cycle, and in every other cycle with the year shifted by 400.  The  *)
(* days are printed: the table the library is compared with.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Calendar

VARIABLES n,            \* days since 2000-01-01
          y, m, d,      \* the date
          doy,          \* day of the year
          wd,           \* day of the week, Sunday = 0
          iy, iw,       \* ISO year and week
          end
vars == <<n, y, m, d, doy, wd, iy, iw, end>>

\* The count begins at 2000-01-01 and, so that it can be made in parallel, at the days the closed forms give for
\* some later moments: each part of the count must arrive (Closed) where the next one begins.
Parts == 16
PartDays == (CycleDays \div Parts) + 1
Init ==
    \E k \in 0..(Parts - 1) :
        /\ n = k * PartDays
        /\ end = IF k = Parts - 1 THEN CycleDays ELSE (k + 1) * PartDays
        /\ y = IF k = 0 THEN 2000 ELSE YMD(n)[1]
        /\ m = IF k = 0 THEN 1 ELSE YMD(n)[2]
        /\ d = IF k = 0 THEN 1 ELSE YMD(n)[3]
        /\ doy = IF k = 0 THEN 1 ELSE DayOfYear(n)
        /\ wd = IF k = 0 THEN 6 ELSE Dow(n)
        /\ iy = IF k = 0 THEN 1999 ELSE IsoYear(n)
        /\ iw = IF k = 0 THEN 52 ELSE IsoWeek(n)

Leap(x) == IF x % 100 = 0 THEN x % 400 = 0 ELSE x % 4 = 0
Length == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
MonthEnds == d = Length
YearEnds == m = 12 /\ MonthEnds
\* Tomorrow is a Monday whose week has the fourth of January in it.
WeekOne == (m = 12 /\ d + 1 >= 29) \/ (m = 1 /\ d + 1 <= 4) \/ YearEnds
Tick ==
    /\ n < end /\ UNCHANGED end
    /\ PrintT("DAY " \o ToString(<<n, y, m, d, doy, wd, iy, iw>>))
    /\ n' = n + 1
    /\ d' = IF MonthEnds THEN 1 ELSE d + 1
    /\ m' = IF MonthEnds THEN (m % 12) + 1 ELSE m
    /\ y' = IF YearEnds THEN y + 1 ELSE y
    /\ doy' = IF YearEnds THEN 1 ELSE doy + 1
    /\ wd' = (wd + 1) % 7
    /\ IF wd' # 1 THEN UNCHANGED <<iy, iw>>
       ELSE IF WeekOne THEN iw' = 1 /\ iy' = IF m = 1 THEN y ELSE y + 1
       ELSE iw' = iw + 1 /\ UNCHANGED iy
Spec == Init /\ [][Tick]_vars

\* The closed forms, in this cycle and in others (the first, the last and some between).
Cycles == {-17, -5, 0, 731, 14682}
Closed ==
    \A c \in Cycles :
        LET x == n + c * CycleDays
        IN  /\ YMD(x) = <<y + 400 * c, m, d>>
            /\ DayNum(y + 400 * c, m, d) = x
            /\ ValidYMD(y + 400 * c, m, d) /\ ~ValidYMD(y + 400 * c, m, Length + 1)
            /\ DayOfYear(x) = doy
            /\ Dow(x) = wd
            /\ IsoDow(x) = IF wd = 0 THEN 7 ELSE wd
            /\ IsoYear(x) = iy + 400 * c
            /\ IsoWeek(x) = iw
\* The cycle closes.
Closes == n = CycleDays => <<y, m, d, doy, wd, iy, iw>> = <<2400, 1, 1, 1, 6, 2399, 52>>
\* Weeks: 52 or 53 in a year, 53 only after a year that begins or ends on a Thursday.
Weeks == iw \in 1..53 /\ (iw = 53 => \E e \in {iy} : Dow(DayNum(e, 1, 1)) = 4 \/ Dow(DayNum(e, 12, 31)) = 4)
=============================================================================
