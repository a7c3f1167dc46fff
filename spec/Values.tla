------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* The four value types and what the operations on them mean.              *)
(*   Date       an integer, days since 2000-01-01; I32Min/I32Max = -/+inf  *)
(*   Timestamp  a Span since 2000-01-01 00:00; Min64/Max64 = -/+inf        *)
(*   Time       a Span, 0 .. 24:00:00                                      *)
(*   Interval   <<months, days, d, s, u>>: months, days and a Span         *)
(* An operation gives [k |-> "ok", v |-> sequence of integers] or an error.*)
(***************************************************************************)
EXTENDS Integers, Sequences, Wide, Calendar

Ok(v) == [k |-> "ok", v |-> v]
Fail == [k |-> "err", v |-> <<>>]
\* An outcome the specification leaves open (any value or error, but an orderly one).
Open == [k |-> "any", v |-> <<>>]

DayMicros == <<1, 0, 0>>
Hms(h, m, s) == SpanNorm(0, h * 3600 + m * 60 + s, 0)

(***************************************************************************)
(* Ranges.                                                                 *)
(***************************************************************************)
DateInf(d) == d = I32Min \/ d = I32Max
TsInf(t) == t = Min64 \/ t = Max64
TsInRange(t) == t[1] >= MinDay /\ t[1] < EndTsDay
TsOk(t) == IF TsInRange(t) THEN Ok(t) ELSE Fail
DateOk(d) == IF DayInRange(d) THEN Ok(<<d>>) ELSE Fail
TimeInRange(t) == SpanLe(Zero, t) /\ SpanLe(t, DayMicros)
\* Whether a value of each type is one of those the API promises to produce.
DateLegal(d) == DateInf(d) \/ DayInRange(d)
TsLegal(t) == TsInf(t) \/ TsInRange(t)
\* The year range in which a month lies that days of Julian day >= 0 begin in; the last days end.
JulianMonth(y, m) == (y > -4713 \/ (y = -4713 /\ m >= 11)) /\ (y < 5874898 \/ (y = 5874898 /\ m < 6))

(***************************************************************************)
(* Doubles given as arguments: <<kind, sign, whole, num, den>> stands for  *)
(* sign * (whole + num/den) (kind 0), NaN (1), inf (2), -inf (3) and       *)
(* sign * 2^whole, whole of either sign (4).                               *)
(***************************************************************************)
FNan(f) == f[1] = 1
FFinite(f) == f[1] \in {0, 4}
FZero(f) == f[1] = 0 /\ f[3] = 0 /\ f[4] = 0
FSign(f) == IF f[1] = 2 THEN 1 ELSE IF f[1] = 3 THEN -1 ELSE IF FZero(f) THEN 0 ELSE f[2]
\* Numerator and denominator as Bigs.
FNum(f) == IF f[1] = 4 THEN LET n == BigPow2(Max2(f[3], 0)) IN IF f[2] < 0 THEN BigNeg(n) ELSE n
           ELSE LET n == BigAdd(BigMul(Big(f[3]), Big(f[5])), Big(f[4]))
                IN  IF f[2] < 0 THEN BigNeg(n) ELSE n
FDen(f) == IF f[1] = 4 THEN BigPow2(Max2(-f[3], 0)) ELSE Big(f[5])
\* Seconds as a whole number of microseconds, nearest.
FMicros(f) == BigRound(BigMul(FNum(f), BigMillion), FDen(f))
\* A second count an hh:mm:ss may carry: 0 .. 60
FSecondOk(f) ==
    /\ FSign(f) >= 0
    /\ \/ f[1] = 0 /\ (f[3] < 60 \/ (f[3] = 60 /\ f[4] = 0))
       \/ f[1] = 4 /\ f[3] <= 5

(***************************************************************************)
(* Construction.                                                           *)
(***************************************************************************)
DateYmd(y, m, d) ==
    LET ay == IF y < 0 THEN y + 1 ELSE y
    IN  IF y = 0 \/ y < -4714 \/ y > 5874897 \/ ~ValidYMD(ay, m, d) THEN Fail
        ELSE DateOk(DayNum(ay, m, d))

HmsOk(h, m, f) ==
    /\ h \in 0..24 /\ m \in 0..59 /\ FSecondOk(f)
    /\ h = 24 => m = 0 /\ FZero(f)
HmsSpan(h, m, f) == SpanAdd(Hms(h, m, 0), SpanBig(FMicros(f)))
TimeHms(h, m, f) == IF HmsOk(h, m, f) THEN Ok(HmsSpan(h, m, f)) ELSE Fail
TsYmdHms(y, mo, d, h, m, f) ==
    IF y < 1 \/ y > 294276 \/ ~ValidYMD(y, mo, d) \/ ~HmsOk(h, m, f) THEN Fail
    ELSE TsOk(SpanAdd(<<DayNum(y, mo, d), 0, 0>>, HmsSpan(h, m, f)))
\* Fields that do not fit are documented to be unchecked.
IvYmwdHms(y, mo, w, d, h, m, f) ==
    IF ~FFinite(f) THEN Fail
    ELSE LET months == BigAdd(BigMulSmall(Big(y), 12), Big(mo))
             days == BigAdd(BigMulSmall(Big(w), 7), Big(d))
             time == BigAdd(BigMul(BigAdd(BigMulSmall(Big(h), 3600), BigMulSmall(Big(m), 60)), BigMillion),
                            FMicros(f))
         IN  IF BigFitsI32(months) /\ BigFitsI32(days) /\ BigFits64(time)
             THEN Ok(<<BigInt(months), BigInt(days)>> \o SpanBig(time))
             ELSE Open

(***************************************************************************)
(* Intervals.                                                              *)
(***************************************************************************)
Iv(m, d, t) == <<m, d>> \o t
IvTime(i) == SubSeq(i, 3, 5)
IvZero == <<0, 0, 0, 0, 0>>
IvNeg(i) ==
    IF FitsNeg(i[1]) /\ FitsNeg(i[2]) /\ SpanNegFits(IvTime(i))
    THEN Ok(Iv(-i[1], -i[2], SpanNeg(IvTime(i)))) ELSE Fail
IvAdd(i, j) ==
    LET t == SpanAdd(IvTime(i), IvTime(j))
    IN  IF FitsAdd(i[1], j[1]) /\ FitsAdd(i[2], j[2]) /\ SpanFits(t)
        THEN Ok(Iv(i[1] + j[1], i[2] + j[2], t)) ELSE Fail
IvSub(i, j) ==
    LET t == SpanSub(IvTime(i), IvTime(j))
    IN  IF FitsSub(i[1], j[1]) /\ FitsSub(i[2], j[2]) /\ SpanFits(t)
        THEN Ok(Iv(i[1] - j[1], i[2] - j[2], t)) ELSE Fail

\* Microseconds with months of 30 days and days of 24 hours: the order of intervals.
IvTotal(i) ==
    BigAdd(BigMul(BigMulSmall(BigAdd(BigMulSmall(Big(i[1]), 30), Big(i[2])), 86400), BigMillion),
           BigSpan(IvTime(i)))
IvCmp(i, j) == BigCmp(IvTotal(i), IvTotal(j))

\* Days and time with one sign and less than a day of time; same total.
Unify(day, t) ==                \* day + t[1] fits
    LET D == day + t[1]
        r == <<0, t[2], t[3]>>
    IN  IF D >= 0 \/ r = Zero THEN <<D, r>> ELSE <<D + 1, SpanSub(r, DayMicros)>>
\* Whole days in a span, towards zero.
WholeDays(t) == IF t[1] >= 0 \/ (t[2] = 0 /\ t[3] = 0) THEN t[1] ELSE t[1] + 1
JustifyHours(i) ==
    LET t == IvTime(i)
    IN  IF ~FitsAdd(i[2], WholeDays(t)) \/ ~FitsAdd(i[2], t[1]) THEN Open
        ELSE LET u == Unify(i[2], t) IN Ok(Iv(i[1], u[1], u[2]))
\* Months and days with one sign and less than 30 days; same total.
JustifyDays(i) ==
    LET q == i[2] \div 30
        r == i[2] % 30
    IN  IF ~FitsAdd(i[1], q) \/ ~FitsAdd(i[1], q + 1) THEN Open
        ELSE LET M == i[1] + q
             IN  IF M >= 0 \/ r = 0 THEN Ok(Iv(M, r, IvTime(i))) ELSE Ok(Iv(M + 1, r - 30, IvTime(i)))
JustifyInterval(i) ==
    LET t == IvTime(i)
    IN  IF ~FitsAdd(i[2], WholeDays(t)) \/ ~FitsAdd(i[2], t[1]) THEN Open
        ELSE LET D == i[2] + t[1]
                 q == D \div 30
                 rest == <<D % 30, t[2], t[3]>>
             IN  IF ~FitsAdd(i[1], q) \/ ~FitsAdd(i[1], q + 1) THEN Open
                 ELSE LET M == i[1] + q
                      IN  IF M >= 0 \/ rest = Zero THEN Ok(Iv(M, rest[1], <<0, rest[2], rest[3]>>))
                          ELSE LET n == SpanSub(<<30, 0, 0>>, rest)
                               IN  Ok(Iv(M + 1, -n[1], SpanNeg(<<0, n[2], n[3]>>)))

(***************************************************************************)
(* Timestamps.                                                             *)
(***************************************************************************)
TsDate(t) == t[1]
TsClock(t) == <<0, t[2], t[3]>>
\* Months first (clipping the day to the month), then days, then time; every step stays in range.
AddMonths(t, n) ==
    LET ymd == YMD(t[1])
        z == ymd[2] - 1
    IN  IF n > 6000000 * 12 \/ n < -6000000 * 12 THEN Fail
        ELSE LET m == ((z + n) % 12) + 1
                 y == ymd[1] + ((z + n) \div 12)
             IN  IF y < -4713 \/ y > 294276 THEN Fail
                 ELSE TsOk(<<DayNum(y, m, Min2(ymd[3], DaysIn(y, m))), t[2], t[3]>>)
AddDays(t, n) ==
    IF ~FitsAdd(t[1], n) THEN Fail ELSE TsOk(<<t[1] + n, t[2], t[3]>>)
TsAddIv(t, i) ==
    IF TsInf(t) THEN Ok(t)
    ELSE LET a == IF i[1] = 0 THEN Ok(t) ELSE AddMonths(t, i[1])
         IN  IF a.k # "ok" THEN Fail
             ELSE LET b == IF i[2] = 0 THEN a ELSE AddDays(a.v, i[2])
                  IN  IF b.k # "ok" THEN Fail ELSE TsOk(SpanAdd(b.v, IvTime(i)))
TsSubIv(t, i) == LET n == IvNeg(i) IN IF n.k = "ok" THEN TsAddIv(t, n.v) ELSE Fail
IvOfTime(c) == Iv(0, 0, c)
TsAddTime(t, c) == TsAddIv(t, IvOfTime(c))
TsSubTime(t, c) == TsSubIv(t, IvOfTime(c))
TsSub(t, r) ==
    IF TsInf(t) \/ TsInf(r) THEN Fail
    ELSE LET d == SpanSub(t, r)
         IN  IF ~SpanFits(d) THEN Fail ELSE LET u == Unify(0, d) IN Ok(Iv(0, u[1], u[2]))

\* The calendar difference: largest y-m, then d, then time, that leads back to the other one.
Age(t, r) ==
    IF TsInf(t) \/ TsInf(r) THEN Fail
    ELSE LET neg == SpanLt(t, r)
             a == IF neg THEN r ELSE t          \* later
             b == IF neg THEN t ELSE r          \* earlier
             A == YMD(a[1])
             B == YMD(b[1])
             c == SpanSub(TsClock(a), TsClock(b))   \* may be negative
             borrow == IF SpanSign(c) < 0 THEN 1 ELSE 0
             clock == IF borrow = 1 THEN SpanAdd(c, DayMicros) ELSE c
             d0 == A[3] - B[3] - borrow
             \* days are borrowed from the month of the earlier one
             d == IF d0 < 0 THEN d0 + DaysIn(B[1], B[2]) ELSE d0
             months == (A[1] - B[1]) * 12 + A[2] - B[2] - (IF d0 < 0 THEN 1 ELSE 0)
         IN  Ok(IF neg THEN Iv(-months, -d, SpanNeg(clock)) ELSE Iv(months, d, clock))

TsOfDate(d) ==
    IF d = I32Min THEN Ok(Min64) ELSE IF d = I32Max THEN Ok(Max64)
    ELSE IF d >= EndTsDay THEN Fail ELSE Ok(<<d, 0, 0>>)
DateOfTs(t) ==
    IF t = Min64 THEN Ok(<<I32Min>>) ELSE IF t = Max64 THEN Ok(<<I32Max>>) ELSE Ok(<<t[1]>>)
TimeOfTs(t) == IF TsInf(t) THEN Ok(<<>>) ELSE Ok(TsClock(t))

TsSubDate(t, d) == LET r == TsOfDate(d) IN IF r.k = "ok" THEN TsSub(t, r.v) ELSE Fail

(***************************************************************************)
(* Dates.                                                                  *)
(***************************************************************************)
DateAddDays(d, n) ==
    IF DateInf(d) THEN Ok(<<d>>) ELSE IF ~FitsAdd(d, n) THEN Fail ELSE DateOk(d + n)
DateSubDays(d, n) ==
    IF DateInf(d) THEN Ok(<<d>>) ELSE IF ~FitsSub(d, n) THEN Fail ELSE DateOk(d - n)
DateSub(d, e) == IF DateInf(d) \/ DateInf(e) THEN Fail ELSE Ok(<<d - e>>)
DateAddIv(d, i) == LET t == TsOfDate(d) IN IF t.k = "ok" THEN TsAddIv(t.v, i) ELSE Fail
DateSubIv(d, i) == LET t == TsOfDate(d) IN IF t.k = "ok" THEN TsSubIv(t.v, i) ELSE Fail
DateAddTime(d, c) == LET t == TsOfDate(d) IN IF t.k = "ok" THEN TsAddTime(t.v, c) ELSE Fail

(***************************************************************************)
(* Times of day: arithmetic modulo 24 hours.                               *)
(***************************************************************************)
Clock(t) == <<0, t[2], t[3]>>
TimeAddIv(c, i) == Clock(SpanAdd(c, IvTime(i)))
TimeSubIv(c, i) == Clock(SpanSub(c, IvTime(i)))
TimeSub(c, e) == Iv(0, 0, SpanSub(c, e))
TimeOfIv(i) == Clock(IvTime(i))

(***************************************************************************)
(* Precision (typmod).                                                     *)
(***************************************************************************)
\* -1 and 6 keep everything; 0..5 round to that many fractional digits.
TsTypmod(t, p) ==
    IF TsInf(t) \/ p = -1 \/ p = 6 THEN Ok(t)
    ELSE IF p < 0 \/ p > 6 THEN Fail
    ELSE TsOk(SpanRound(t, p))
TimeTypmod(c, p) == IF p \in 0..6 THEN SpanRound(c, p) ELSE c

=============================================================================
