------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* Text is a sequence of bytes.  Every value type has one text per style.  *)
(***************************************************************************)
EXTENDS Parts, TLC

\* Bytes of the characters used in this specification.
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Printable, j, j) : j \in 1..Len(Printable)} |->
             31 + CHOOSE j \in 1..Len(Printable) : SubSeq(Printable, j, j) = c]
B(str) == [j \in 1..Len(str) |-> CodeOf[SubSeq(str, j, j)]]

\* Decimal digits of a natural number, at least w of them.
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dig(n \div 10), 48 + (n % 10))
RECURSIVE PadTo(_, _)
PadTo(s, w) == IF Len(s) >= w THEN s ELSE PadTo(<<48>> \o s, w)
\* |n|, also for the least integer
AbsDig(n) == IF n = I32Min THEN Dig(214748364) \o <<56>> ELSE Dig(Abs(n))
AbsPad(n, w) == PadTo(AbsDig(n), w)
SgnDig(n) == IF n < 0 THEN <<45>> \o AbsDig(n) ELSE AbsDig(n)

RECURSIVE StripZeros(_)
StripZeros(s) == IF s # <<>> /\ s[Len(s)] = 48 THEN StripZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* ".ffffff" without trailing zeros, nothing if zero
Frac(us) == IF us = 0 THEN <<>> ELSE <<46>> \o StripZeros(AbsPad(us, 6))
Sec(s, us) == AbsPad(s, 2) \o Frac(us)
ClockText(h, m, s, us) == AbsPad(h, 2) \o <<58>> \o AbsPad(m, 2) \o <<58>> \o Sec(s, us)

\* Styles and orders
stPostgres == 0
stIso == 1
stSql == 2
stGerman == 3
stXsd == 4
YMDOrder == 0
DMYOrder == 1
MDYOrder == 2

bDash == B("-")
bSlash == B("/")
bDot == B(".")
bSpace == B(" ")
bT == B("T")
Infinity == B("infinity")
NegInfinity == B("-infinity")
Era(y) == IF y > 0 THEN <<>> ELSE B(" BC")
\* d and m in the order asked for, separated
DM(o, m, d, sep) == IF o = DMYOrder THEN AbsPad(d, 2) \o sep \o AbsPad(m, 2)
                    ELSE AbsPad(m, 2) \o sep \o AbsPad(d, 2)
Year4(y) == AbsPad(EraYear(y), 4)

\* Without the era
DateBody(d, st, o) ==
    LET x == YMD(d)
        y == x[1]
        m == x[2]
        dd == x[3]
    IN  CASE st \in {stIso, stXsd} -> Year4(y) \o bDash \o AbsPad(m, 2) \o bDash \o AbsPad(dd, 2)
          [] st = stSql -> DM(o, m, dd, bSlash) \o bSlash \o Year4(y)
          [] st = stGerman -> DM(DMYOrder, m, dd, bDot) \o bDot \o Year4(y)
          [] OTHER -> LET sep == IF o = DMYOrder THEN bDash ELSE bDot
                      IN  DM(o, m, dd, sep) \o sep \o Year4(y)
DateText(d, st, o) ==
    IF d = I32Min THEN NegInfinity ELSE IF d = I32Max THEN Infinity
    ELSE DateBody(d, st, o) \o Era(YMD(d)[1])

MonthNames == <<B("Jan"), B("Feb"), B("Mar"), B("Apr"), B("May"), B("Jun"), B("Jul"), B("Aug"),
                B("Sep"), B("Oct"), B("Nov"), B("Dec")>>
DayNames == <<B("Sun"), B("Mon"), B("Tue"), B("Wed"), B("Thu"), B("Fri"), B("Sat")>>
SpanClock(t) == ClockText(t[2] \div 3600, (t[2] \div 60) % 60, t[2] % 60, t[3])
TsText(t, st, o) ==
    IF t = Min64 THEN NegInfinity ELSE IF t = Max64 THEN Infinity
    ELSE LET x == YMD(t[1])
             y == x[1]
             m == x[2]
             dd == x[3]
             clk == SpanClock(t)
         IN  (CASE st = stIso -> DateBody(t[1], stIso, o) \o bSpace \o clk
                [] st = stXsd -> DateBody(t[1], stXsd, o) \o bT \o clk
                [] st \in {stSql, stGerman} -> DateBody(t[1], st, o) \o bSpace \o clk
                [] OTHER -> DayNames[Dow(t[1]) + 1] \o bSpace
                            \o (IF o = DMYOrder THEN AbsPad(dd, 2) \o bSpace \o MonthNames[m]
                                ELSE MonthNames[m] \o bSpace \o AbsPad(dd, 2))
                            \o bSpace \o clk \o bSpace \o Year4(y)) \o Era(y)

\* 24:00:00 keeps its hour
TimeText(c) ==
    IF c[1] = 1 THEN ClockText(24, 0, 0, 0) ELSE SpanClock(c)

(***************************************************************************)
(* Intervals.                                                              *)
(***************************************************************************)
isPostgres == 0
isVerbose == 1
isSql == 2
isIso == 3
Plural(n) == IF n = 1 THEN <<>> ELSE B("s")
\* Postgres: "1 year -2 mons +3 days -04:05:06"; a positive field behind a negative one is signed.
PgPart(acc, n, unit) ==     \* acc = <<text, before>>
    IF n = 0 THEN acc
    ELSE <<acc[1] \o (IF acc[1] = <<>> THEN <<>> ELSE bSpace)
                  \o (IF acc[2] /\ n > 0 THEN B("+") ELSE <<>>)
                  \o SgnDig(n) \o bSpace \o unit \o Plural(n), n < 0>>
PgIv(f) ==
    LET a == PgPart(PgPart(PgPart(<<<<>>, FALSE>>, f[1], B("year")), f[2], B("mon")), f[3], B("day"))
        neg == f[4] < 0 \/ f[5] < 0 \/ f[6] < 0 \/ f[7] < 0
        zero == f[4] = 0 /\ f[5] = 0 /\ f[6] = 0 /\ f[7] = 0
    IN  IF a[1] # <<>> /\ zero THEN a[1]
        ELSE a[1] \o (IF a[1] # <<>> THEN bSpace ELSE <<>>)
                  \o (IF neg THEN bDash ELSE IF a[2] THEN B("+") ELSE <<>>)
                  \o ClockText(f[4], f[5], f[6], f[7])
\* Verbose: "@ 1 year 2 mons ago"; the sign of the first field is carried by "ago".
VbPart(acc, n, unit) ==     \* acc = <<text, any, ago>>
    IF n = 0 THEN acc
    ELSE LET ago == IF acc[2] THEN acc[3] ELSE n < 0
             neg == (n < 0) # ago
         IN  <<acc[1] \o bSpace \o (IF neg THEN bDash ELSE <<>>) \o AbsDig(n) \o bSpace \o unit
                      \o (IF ~neg /\ n \in {1, -1} THEN <<>> ELSE B("s")), TRUE, ago>>
VbIv(f) ==
    LET a == VbPart(VbPart(VbPart(VbPart(VbPart(<<B("@"), FALSE, FALSE>>, f[1], B("year")), f[2], B("mon")),
                           f[3], B("day")), f[4], B("hour")), f[5], B("min"))
        neg == f[6] < 0 \/ f[7] < 0
        s == IF f[6] = 0 /\ f[7] = 0 THEN a
             ELSE LET ago == IF a[2] THEN a[3] ELSE neg
                  IN  <<a[1] \o bSpace \o (IF neg # ago THEN bDash ELSE <<>>)
                             \o AbsDig(f[6]) \o Frac(f[7]) \o B(" sec")
                             \o (IF Abs(f[6]) = 1 /\ f[7] = 0 THEN <<>> ELSE B("s")), TRUE, ago>>
    IN  s[1] \o (IF s[2] THEN <<>> ELSE B(" 0")) \o (IF s[3] THEN B(" ago") ELSE <<>>)
\* SQL: "-1-2", "-3 4:05:06", "4:05:06", "0", and with all three and mixed signs "+1-2 -3 +4:05:06".
SqClock(f) == AbsDig(f[4]) \o <<58>> \o AbsPad(f[5], 2) \o <<58>> \o Sec(f[6], f[7])
SqIv(f) ==
    LET neg == \E j \in 1..7 : f[j] < 0
        pos == \E j \in 1..7 : f[j] > 0
        ym == f[1] # 0 \/ f[2] # 0
        dt == \E j \in 3..7 : f[j] # 0
        sgn == IF neg THEN bDash ELSE <<>>
        S(b) == IF b THEN bDash ELSE B("+")
    IN  IF ~neg /\ ~pos THEN B("0")
        ELSE IF (neg /\ pos) \/ (ym /\ dt)
        THEN S(f[1] < 0 \/ f[2] < 0) \o AbsDig(f[1]) \o bDash \o AbsDig(f[2]) \o bSpace
             \o S(f[3] < 0) \o AbsDig(f[3]) \o bSpace
             \o S(\E j \in 4..7 : f[j] < 0) \o SqClock(f)
        ELSE IF ym THEN sgn \o AbsDig(f[1]) \o bDash \o AbsDig(f[2])
        ELSE IF f[3] # 0 THEN sgn \o AbsDig(f[3]) \o bSpace \o SqClock(f)
        ELSE sgn \o SqClock(f)
\* ISO 8601: "P1Y-2M3DT4H5M-6.7S"
IsoPart(n, c) == IF n = 0 THEN <<>> ELSE SgnDig(n) \o c
IsoIv(f) ==
    IF \A j \in 1..7 : f[j] = 0 THEN B("PT0S")
    ELSE B("P") \o IsoPart(f[1], B("Y")) \o IsoPart(f[2], B("M")) \o IsoPart(f[3], B("D"))
         \o (IF \E j \in 4..7 : f[j] # 0 THEN B("T") ELSE <<>>)
         \o IsoPart(f[4], B("H")) \o IsoPart(f[5], B("M"))
         \o (IF f[6] = 0 /\ f[7] = 0 THEN <<>>
             ELSE (IF f[6] < 0 \/ f[7] < 0 THEN bDash ELSE <<>>) \o AbsDig(f[6]) \o Frac(f[7]) \o B("S"))
IvText(i, st) ==
    IF ~HoursFit(IvTime(i)) THEN Fail
    ELSE LET f == IvFields(i)
         IN  Ok(CASE st = isPostgres -> PgIv(f) [] st = isVerbose -> VbIv(f) [] st = isSql -> SqIv(f)
                  [] OTHER -> IsoIv(f))
=============================================================================
