-------------------------------- MODULE Parts --------------------------------
(***************************************************************************)
(* Truncation to a unit, extraction of a field, interval precision and     *)
(* scaling of intervals by a factor.                                       *)
(***************************************************************************)
EXTENDS Values

\* Units (the order of the DateUnit enumeration).
uDelta == 0
uSecond == 1
uMinute == 2
uHour == 3
uDay == 4
uWeek == 5
uMonth == 6
uQuarter == 7
uYear == 8
uDecade == 9
uCentury == 10
uMilli == 11
uMicro == 12
uJulian == 13
uDow == 14
uIsoDow == 15
uDoy == 16
uTz == 17
uTzMinute == 18
uTzHour == 19
uMillennium == 20
uIsoYear == 21
uEpoch == 22
\* Field types
fUnit == 0
fEpoch == 1

\* The year a century (n = 100) or millennium (n = 1000) begins in: 1, 101, 201 ... AD, 100, 200 ... BC.
\* There is no year zero.
EraIndex(y, n) == IF y > 0 THEN CeilDiv(y, n) ELSE -CeilDiv(1 - y, n)
EraStart(y, n) ==
    LET c == EraIndex(y, n)
    IN  IF c > 0 THEN (c - 1) * n + 1 ELSE c * n + 1
\* Decades are the years with the same digits but the last, counting 1 BC as year zero.
DecadeIndex(y) == y \div 10

(***************************************************************************)
(* Timestamps and dates.                                                   *)
(***************************************************************************)
TsTrunc(t, ft, u) ==
    IF ft # fUnit THEN Fail ELSE IF TsInf(t) THEN Ok(t)
    ELSE LET ymd == YMD(t[1])
             y == ymd[1]
             m == ymd[2]
             At(yy, mm) == TsOk(<<DayNum(yy, mm, 1), 0, 0>>)
         IN  CASE u = uMicro -> Ok(t)
               [] u = uMilli -> Ok(<<t[1], t[2], (t[3] \div 1000) * 1000>>)
               [] u = uSecond -> Ok(<<t[1], t[2], 0>>)
               [] u = uMinute -> Ok(<<t[1], (t[2] \div 60) * 60, 0>>)
               [] u = uHour -> Ok(<<t[1], (t[2] \div 3600) * 3600, 0>>)
               [] u = uDay -> Ok(<<t[1], 0, 0>>)
               [] u = uWeek -> TsOk(<<Monday(t[1]), 0, 0>>)
               [] u = uMonth -> At(y, m)
               [] u = uQuarter -> At(y, 3 * ((m - 1) \div 3) + 1)
               [] u = uYear -> At(y, 1)
               [] u = uDecade -> At(DecadeIndex(y) * 10, 1)
               [] u = uCentury -> At(EraStart(y, 100), 1)
               [] u = uMillennium -> At(EraStart(y, 1000), 1)
               [] OTHER -> Fail
DateTrunc(d, ft, u) ==
    LET t == TsOfDate(d)
    IN  IF t.k # "ok" THEN Fail
        ELSE LET r == TsTrunc(t.v, ft, u) IN IF r.k # "ok" THEN Fail ELSE DateOfTs(r.v)

\* A double result: [k |-> "num", v |-> a Big, in millionths] or "pinf" / "ninf" or an error.
\* A number b; a sum of numbers up to mag is as exact as these.
NumSum(b, mag) == [k |-> "num", v |-> b, mag |-> mag]
Num(b) == NumSum(b, BigAbs(b))
Whole(n) == Num(BigMul(Big(n), BigMillion))
PosInf == [k |-> "pinf", v |-> <<>>]
NegInf == [k |-> "ninf", v |-> <<>>]
\* sec (< 60) and us as seconds, milliseconds, microseconds
SecPart(s, us, u) ==
    LET m == BigAdd(BigMul(Big(s), BigMillion), Big(us))
    IN  CASE u = uSecond -> Num(m)
          [] u = uMilli -> Num(BigMulSmall(m, 1000))
          [] u = uMicro -> Num(BigMul(m, BigMillion))
TsPart(t, ft, u) ==
    IF TsInf(t) THEN
        CASE u \in {uMicro, uMilli, uSecond, uMinute, uHour, uDay, uMonth, uQuarter, uWeek, uDow,
                    uIsoDow, uDoy, uTz, uTzMinute, uTzHour} -> Whole(0)
          [] u \in {uYear, uDecade, uCentury, uMillennium, uJulian, uIsoYear, uEpoch} ->
                IF t = Min64 THEN NegInf ELSE PosInf
          [] OTHER -> Fail
    ELSE IF ft # fUnit THEN Fail
    ELSE LET n == t[1]
             ymd == YMD(n)
             y == ymd[1]
         IN  CASE u \in {uSecond, uMilli, uMicro} -> SecPart(t[2] % 60, t[3], u)
               [] u = uMinute -> Whole((t[2] \div 60) % 60)
               [] u = uHour -> Whole(t[2] \div 3600)
               [] u = uDay -> Whole(ymd[3])
               [] u = uMonth -> Whole(ymd[2])
               [] u = uQuarter -> Whole((ymd[2] + 2) \div 3)
               [] u = uWeek -> Whole(IsoWeek(n))
               [] u = uYear -> Whole(SignedYear(y))
               [] u = uDecade -> Whole(DecadeIndex(y))
               [] u = uCentury -> Whole(EraIndex(y, 100))
               [] u = uMillennium -> Whole(EraIndex(y, 1000))
               [] u = uIsoYear -> Whole(IsoYear(n))
               [] u = uDow -> Whole(Dow(n))
               [] u = uIsoDow -> Whole(IsoDow(n))
               [] u = uDoy -> Whole(DayOfYear(n))
               [] u = uJulian -> [k |-> "jul", v |-> <<Julian(n), t[2], t[3]>>]
               [] OTHER -> Fail
DatePart(d, ft, u) == LET t == TsOfDate(d) IN IF t.k = "ok" THEN TsPart(t.v, ft, u) ELSE Fail

(***************************************************************************)
(* Intervals and times.                                                    *)
(***************************************************************************)
\* Minus the number of whole hours in |t|, or "big" beyond 2^31 (kept negative to reach 2^31).
HoursFit(t) ==
    LET b == SpanAbs(t)
        h == b[2] \div 3600
    IN  /\ b[1] <= 89478485
        /\ -(b[1] * 24) >= I32Min + h
        /\ t[1] >= 0 => -(b[1] * 24) - h > I32Min
\* <<year, mon, day, hour, min, sec, usec>>, each with the sign of the part it comes from.
IvFields(i) ==
    LET t == IvTime(i)
        b == SpanAbs(t)
        nh == -(b[1] * 24) - (b[2] \div 3600)
        sg == IF t[1] < 0 THEN -1 ELSE 1
    IN  <<QuotT(i[1], 12), RemT(i[1], 12), i[2], IF sg < 0 THEN nh ELSE -nh,
          sg * ((b[2] \div 60) % 60), sg * (b[2] % 60), sg * b[3]>>

IvTruncUnit(i, u) ==
    LET M(n) == Ok(Iv(QuotT(i[1], n) * n, 0, Zero))
        T(t) == Ok(Iv(i[1], i[2], t))
        t == IvTime(i)
    IN  CASE u = uMillennium -> M(12000)
          [] u = uCentury -> M(1200)
          [] u = uDecade -> M(120)
          [] u = uYear -> M(12)
          [] u = uQuarter -> M(3)
          [] u = uMonth -> M(1)
          [] u = uDay -> T(Zero)
          [] u = uHour -> T(SpanTruncSecs(t, 3600))
          [] u = uMinute -> T(SpanTruncSecs(t, 60))
          [] u = uSecond -> T(SpanTruncSecs(t, 1))
          [] u = uMilli -> T(SpanTruncMicros(t, 1000))
          [] u = uMicro -> Ok(i)
          [] OTHER -> Fail
IvTrunc(i, ft, u) == IF ft # fUnit \/ ~HoursFit(IvTime(i)) THEN Fail ELSE IvTruncUnit(i, u)
TimeTrunc(c, ft, u) ==
    LET r == IvTrunc(IvOfTime(c), ft, u) IN IF r.k = "ok" THEN Ok(IvTime(r.v)) ELSE Fail

IvEpoch(i) ==    \* 365.25 days a year, 30 days a month
    LET time == BigSpan(IvTime(i))
        years == BigMul(BigMillion, BigMul(Big(31557600), Big(QuotT(i[1], 12))))
        months == BigMul(BigMillion, BigMulSmall(BigMulSmall(Big(RemT(i[1], 12)), 30), 86400))
        days == BigMul(BigMillion, BigMulSmall(Big(i[2]), 86400))
    IN  NumSum(BigAdd(BigAdd(time, years), BigAdd(months, days)),
               BigAdd(BigAdd(BigAbs(time), BigAbs(years)), BigAdd(BigAbs(months), BigAbs(days))))
IvPart(i, ft, u) ==
    IF ft = fEpoch THEN IF u = uEpoch THEN IvEpoch(i) ELSE Fail
    ELSE IF ~HoursFit(IvTime(i)) THEN Fail
    ELSE LET f == IvFields(i)
         IN  CASE u \in {uSecond, uMilli, uMicro} -> SecPart(f[6], f[7], u)
               [] u = uMinute -> Whole(f[5])
               [] u = uHour -> Whole(f[4])
               [] u = uDay -> Whole(f[3])
               [] u = uMonth -> Whole(f[2])
               [] u = uQuarter -> Whole(QuotT(f[2], 3) + 1)
               [] u = uYear -> Whole(f[1])
               [] u = uDecade -> Whole(QuotT(f[1], 10))
               [] u = uCentury -> Whole(QuotT(f[1], 100))
               [] u = uMillennium -> Whole(QuotT(f[1], 1000))
               [] OTHER -> Fail
TimePart(c, ft, u) ==
    IF ft = fEpoch THEN IF u = uEpoch THEN Num(BigSpan(c)) ELSE Fail
    ELSE IF u \in {uSecond, uMilli, uMicro, uMinute, uHour} THEN IvPart(IvOfTime(c), ft, u) ELSE Fail

\* Whether the recorded double (four limbs and the number of doubles it is away from that, or a Julian day and time) is the
\* number x up to rounding.  Whole numbers come out whole; others are next to it, unless terms of either sign cancel.
PartAdmits(x, k, v) ==
    CASE x.k = "num" ->
            /\ k = "ok" /\ Len(v) = 5
            /\ LET d == BigAbs(BigSub(BigLimbs(v), x.v))
               IN  IF BigMul(BigQuotT(x.v, BigMillion), BigMillion) = x.v THEN d = BigZero /\ v[5] = 0
                   ELSE /\ BigCmp(BigMul(d, BigPow2(50)), x.mag) <= 0
                        /\ BigAbs(x.v) = x.mag => v[5] <= 2
      [] x.k = "jul" ->
            /\ k = "ok" /\ Len(v) = 3
            /\ LET d == SpanAbs(SpanSub(SpanAdd(<<v[1], 0, 0>>, SpanNorm(0, v[2], v[3])), x.v))
               IN  d[1] = 0 /\ d[2] = 0
                   /\ d[3] <= (IF v[1] < 4194304 THEN 40 ELSE 2000)
      [] OTHER -> k = x.k

(***************************************************************************)
(* Interval typmods: a set of fields (16 bits, from bit 16) and a          *)
(* precision (low 16 bits).  Fields right of the last one named are zeroed.*)
(***************************************************************************)
RangeAll == 32767
\* Bits of MONTH, YEAR, DAY, HOUR, MINUTE, SECOND
bMonth == 2
bYear == 4
bDay == 8
bHour == 1024
bMinute == 2048
bSecond == 4096
TypmodRange(tm) == IF tm < 0 THEN RangeAll ELSE (tm \div 65536) % 32768
TypmodPrec(tm) == tm % 65536
IvTypmod(i, tm) ==
    IF tm < 0 THEN Ok(i)
    ELSE LET r == TypmodRange(tm)
             p == TypmodPrec(tm)
             t == IvTime(i)
             x == CASE r = RangeAll -> Ok(i)
                    [] r = bYear -> Ok(Iv(QuotT(i[1], 12) * 12, 0, Zero))
                    [] r \in {bMonth, bYear + bMonth} -> Ok(Iv(i[1], 0, Zero))
                    [] r = bDay -> Ok(Iv(i[1], i[2], Zero))
                    [] r \in {bHour, bDay + bHour} -> Ok(Iv(i[1], i[2], SpanTruncSecs(t, 3600)))
                    [] r \in {bMinute, bDay + bHour + bMinute, bHour + bMinute} ->
                         Ok(Iv(i[1], i[2], SpanTruncSecs(t, 60)))
                    [] r \in {bSecond, bDay + bHour + bMinute + bSecond, bHour + bMinute + bSecond,
                              bMinute + bSecond} -> Ok(i)
                    [] OTHER -> Fail
         IN  IF x.k # "ok" THEN Fail
             ELSE IF p = 65535 THEN x
             ELSE IF p > 6 THEN Fail
             ELSE Ok(Iv(x.v[1], x.v[2], SpanRound(IvTime(x.v), p)))

(***************************************************************************)
(* interval * n/d (n, d Bigs, d > 0).  Fractions of months become days     *)
(* (30 a month, rounded to 10^-6 day), fractions of days become time.  The *)
(* code computes in doubles, so the outcome is a predicate: exact up to the*)
(* documented rounding and the precision of a double.                      *)
(***************************************************************************)
BigLe(a, b) == BigCmp(a, b) <= 0
Beside(x) == {y \in {IF FitsAdd(x, j) THEN x + j ELSE x : j \in {-1, 1}} : x # 0 /\ y # x}
\* exact: n/d is what the double is, or divides by it, so that a whole product comes out whole.
ScaleAdmits(i, n, d, exact, k, v) ==
    LET M == BigMul(Big(i[1]), n)
        D == BigMul(Big(i[2]), n)
        m0 == BigQuotT(M, d)
        d0 == BigQuotT(D, d)
        InI32(x) == BigLe(BigMul(BigI32Min, d), x) /\ BigLe(x, BigMul(BigI32Max, d))
    IN  IF ~InI32(M) \/ ~InI32(D) THEN k = "err"
        ELSE LET mi == BigInt(m0)
                 di == BigInt(d0)
                 extra == Abs(QuotT(mi, 50000000))
                 \* what mm months leave, over d, in millionths of a day
                 MonthRest(mm) == BigMul(BigMulSmall(BigSub(M, BigMul(Big(mm), d)), 30), BigMillion)
                 Close(c, mr) == BigLe(BigMulSmall(BigAbs(BigSub(BigMul(Big(c), d), mr)), 1000),
                                   BigMulSmall(d, 501 + Abs(QuotT(mi, 50000))))
                 \* what dd days leave, over d, in microseconds
                 DayRest(dd) == BigMul(BigMulSmall(BigSub(D, BigMul(Big(dd), d)), 86400), BigMillion)
                 whole == exact /\ DayRest(di) = BigZero /\ MonthRest(mi) = BigZero
                 dayTol == BigMul(d, Big(2 * Abs(QuotT(di, 8192)) + 3))
                 timeNum == BigMul(BigSpan(IvTime(i)), n)                 \* over d
                 tf == BigRound(timeNum, d)
                 eps == BigQuotT(BigAbs(tf), BigPow2(41))   \* what a double cannot tell apart, in 1/1024 microsecond
                 loud == IF exact /\ DayRest(di) = BigZero THEN 0 ELSE Abs(IF di = I32Min THEN I32Max ELSE di)
                 rough == loud \div 8192                                  \* and for the fraction of a day
                 near == BigCmp(BigAbs(tf), BigSub(BigMax64, Big(100000))) > 0
                 Within(x, y, halves) ==   \* |x - y| <= d * (halves / 2 + (eps + 2) / 1024)
                    BigLe(BigMulSmall(BigAbs(BigSub(x, y)), 1024),
                          BigMul(d, BigAdd(Big(512 * halves + 2), eps)))
                 \* c: the fraction of the months in millionths of a day; s: that of months and days
                 \* beyond whole days in microseconds, rounded.
                 Adm2(mm, c, di1, dayNum1) ==
                    LET cd == QuotT(c, 1000000)
                        sn == BigAdd(dayNum1, BigMul(d, BigMulSmall(Big(RemT(c, 1000000)), 86400)))
                        sf == BigFloor(sn, d)
                        Fits(s, more) ==
                            LET span == SpanBig(s)
                                w == WholeDays(span)
                                E == BigAdd(Big(di1), Big(w + cd))
                                left == BigSub(s, BigSpan(<<w, 0, 0>>))
                                T == BigAdd(left, tf)
                            IN  IF ~BigFitsI32(E) \/ ~BigFits64(T) THEN k = "err"
                                ELSE \/ k = "err" /\ (near \/ (~whole /\ (di > I32Max - 64 \/ di < I32Min + 64)))
                                     \/ /\ k = "ok" /\ v[1] = mm /\ v[2] = BigInt(E)
                                        /\ Within(BigMul(d, BigSub(BigSpan(IvTime(v)), left)), timeNum, 1 + more)
                    IN  IF rough = 0
                        THEN \E j \in -1..2 :
                                LET s == BigAdd(sf, Big(j))
                                IN  /\ BigLe(BigMulSmall(BigAbs(BigSub(BigMul(s, d), sn)), 1024), BigMulSmall(d, 514 + (loud \div 8)))
                                    /\ Fits(s, 0)
                        ELSE \E s \in {sf, BigSpan(<<WholeDays(SpanBig(sf)), 0, 0>>),
                                       BigSpan(<<WholeDays(SpanBig(sf)) + 1, 0, 0>>),
                                       BigSub(BigSpan(<<WholeDays(SpanBig(sf)), 0, 0>>), Big(1)),
                                       BigAdd(BigSpan(<<WholeDays(SpanBig(sf)), 0, 0>>), Big(1)),
                                       BigSpan(<<WholeDays(SpanBig(sf)) - 1, 0, 0>>)} :
                                /\ BigLe(BigAbs(BigSub(BigMul(s, d), sn)), BigMul(d, Big(2 * rough)))
                                /\ Fits(s, 4 * rough)
                 \* Next to a whole number the double may be on the other side of it.
                 Adm(mm, c) == \/ Adm2(mm, c, di, DayRest(di))
                               \/ \E dd \in Beside(di) :
                                    /\ ~(exact /\ DayRest(di) = BigZero)
                                    /\ LET x == BigAbs(DayRest(dd))
                                       IN  \/ BigLe(x, dayTol)
                                           \/ /\ dd = di - Sign(di)
                                              /\ BigLe(x, BigAdd(BigMul(d, BigSpan(<<1, 0, 0>>)), dayTol))
                                    /\ Adm2(mm, c, dd, DayRest(dd))
                 AdmM(mm) ==
                    LET mr == MonthRest(mm)
                        c0 == BigInt(BigRound(mr, d))
                    IN  \E c \in (c0 - 1 - extra)..(c0 + 1 + extra) : Abs(c) <= 30000000 /\ Close(c, mr) /\ Adm(mm, c)
             IN  \/ AdmM(mi)
                 \/ /\ k = "ok" /\ v[1] \in Beside(mi) /\ ~(exact /\ MonthRest(mi) = BigZero)
                    /\ LET x == BigAbs(MonthRest(v[1]))
                           near1 == BigMulSmall(d, 2 + extra)
                       IN  BigLe(x, near1) \/ (v[1] = mi - Sign(mi) /\ BigLe(x, BigAdd(BigMul(d, Big(30000000)), near1)))
                    /\ AdmM(v[1])
FExact(f) == f[1] = 4 \/ (f[1] = 0 /\ f[5] \in {1, 2, 4, 8, 16})
MulAdmits(i, f, k, v) ==
    IF ~FFinite(f) THEN k = "err" ELSE ScaleAdmits(i, FNum(f), FDen(f), FExact(f), k, v)
DivAdmits(i, f, k, v) ==
    IF FNan(f) \/ FZero(f) THEN k = "err"
    ELSE IF ~FFinite(f) THEN k = "ok" /\ v = IvZero
    ELSE LET n == FNum(f) IN ScaleAdmits(i, IF n.s < 0 THEN BigNeg(FDen(f)) ELSE FDen(f), BigAbs(n), FExact(f), k, v)
=============================================================================
