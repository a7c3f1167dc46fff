-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Numbers wider than the 32 bits TLC computes with.                       *)
(*                                                                         *)
(*  - a Span <<d, s, u>> is d days + s seconds + u microseconds in normal  *)
(*    form (0 <= s < 86400, 0 <= u < 10^6); it stands for every i64 count  *)
(*    of microseconds (Timestamp, Time, the time part of an Interval);     *)
(*  - a Big is an arbitrary integer, sign and base 10^4 magnitude.         *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt

I32Max == 2147483647
I32Min == -2147483647 - 1

\* Does a + b (a - b, a * k for k > 0) stay in 32 bits?
FitsAdd(a, b) == IF b >= 0 THEN a <= I32Max - b ELSE a >= I32Min - b
FitsSub(a, b) == IF b >= 0 THEN a >= I32Min + b ELSE a <= I32Max + b
FitsMul(a, k) == a <= I32Max \div k /\ a >= -(I32Max \div k) - (IF I32Max % k = k - 1 THEN 1 ELSE 0)
FitsNeg(a) == a # I32Min

Abs(n) == IF n < 0 THEN -n ELSE n
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
\* Division that truncates towards zero and its remainder (sign of the dividend).
QuotT(a, b) == IF a >= 0 THEN a \div b
               ELSE IF a = I32Min THEN -((-(a + b)) \div b) - 1
               ELSE -((-a) \div b)
RemT(a, b) == a - b * QuotT(a, b)
CeilDiv(a, b) == -((-a) \div b)
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(***************************************************************************)
(* Spans.                                                                  *)
(***************************************************************************)
Zero == <<0, 0, 0>>
SpanNorm(d, s, u) ==
    LET s1 == s + (u \div 1000000)
    IN  <<d + (s1 \div 86400), s1 % 86400, u % 1000000>>
SpanAdd(a, b) == SpanNorm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
SpanSub(a, b) == SpanNorm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
SpanNeg(a) == SpanNorm(-a[1], -a[2], -a[3])
SpanCmp(a, b) ==
    IF a[1] # b[1] THEN Sign(IF a[1] < b[1] THEN -1 ELSE 1)
    ELSE IF a[2] # b[2] THEN Sign(a[2] - b[2])
    ELSE Sign(a[3] - b[3])
SpanLt(a, b) == SpanCmp(a, b) < 0
SpanLe(a, b) == SpanCmp(a, b) <= 0
SpanSign(a) == SpanCmp(a, Zero)
SpanAbs(a) == IF a[1] < 0 THEN SpanNeg(a) ELSE a
\* The extremes of i64; as timestamps they stand for -infinity and infinity.
Min64 == <<-106751992, 71945, 224192>>
Max64 == <<106751991, 14454, 775807>>
SpanFits(a) == SpanLe(Min64, a) /\ SpanLe(a, Max64)
\* Spans of microseconds that are 32-bit integers.
Min32 == <<-1, 84252, 516352>>
Max32 == <<0, 2147, 483647>>
Int32(t) == IF t[1] = 0 THEN t[2] * 1000000 + t[3]
            ELSE (t[2] - 86399) * 1000000 + (t[3] - 1000000)
Span32(n) == SpanNorm(0, n \div 1000000, n % 1000000)
SpanNegFits(a) == a # Min64
\* Round |a| to a multiple of 10^(6-p) microseconds, halves away from zero.
Pow10 == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>
SpanRound(a, p) ==
    LET sc == Pow10[7 - p]
        b  == SpanAbs(a)
        \* sc divides 10^6, so only the microseconds matter.
        u  == ((b[3] + (sc \div 2)) \div sc) * sc
        r  == SpanNorm(b[1], b[2], u)
    IN  IF a[1] < 0 THEN SpanNeg(r) ELSE r
\* Truncate towards zero to a multiple of n seconds (n divides a day) or of m microseconds.
SpanTruncSecs(a, n) ==
    LET b == SpanAbs(a)
        r == <<b[1], (b[2] \div n) * n, 0>>
    IN  IF a[1] < 0 THEN SpanNeg(r) ELSE r
SpanTruncMicros(a, m) ==
    LET b == SpanAbs(a)
        r == <<b[1], b[2], (b[3] \div m) * m>>
    IN  IF a[1] < 0 THEN SpanNeg(r) ELSE r

(***************************************************************************)
(* Magnitudes: little-endian base 10^4, no leading (= last) zero limb.     *)
(***************************************************************************)
LOCAL BASE == 10000
LOCAL Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
RECURSIVE MStrip(_)
MStrip(m) == IF m = <<>> THEN m ELSE IF m[Len(m)] = 0 THEN MStrip(SubSeq(m, 1, Len(m) - 1)) ELSE m
RECURSIVE MCarry(_, _, _)
\* Append carry c (>= 0) to r and continue with the limbs of m from i.
MCarry(m, i, c) ==
    IF i > Len(m) THEN IF c = 0 THEN <<>> ELSE <<c % BASE>> \o MCarry(m, i, c \div BASE)
    ELSE <<(m[i] + c) % BASE>> \o MCarry(m, i + 1, (m[i] + c) \div BASE)
MNat(n) == MCarry(<<>>, 1, n)
MAdd(a, b) == MCarry([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)], 1, 0)
RECURSIVE MBorrow(_, _, _, _)
MBorrow(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET x == a[i] - Limb(b, i) - c
         IN  <<x % BASE>> \o MBorrow(a, b, i + 1, IF x < 0 THEN 1 ELSE 0)
\* a - b for a >= b
MSub(a, b) == MStrip(MBorrow(a, b, 1, 0))
RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(a, b, i) ==
    IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN Sign(a[i] - b[i]) ELSE MCmpFrom(a, b, i - 1)
MCmp(a, b) == IF Len(a) # Len(b) THEN Sign(Len(a) - Len(b)) ELSE MCmpFrom(a, b, Len(a))
RECURSIVE MMulFrom(_, _, _, _)
MMulFrom(m, k, i, c) ==
    IF i > Len(m) THEN MCarry(<<>>, 1, c)
    ELSE LET x == m[i] * k + c IN <<x % BASE>> \o MMulFrom(m, k, i + 1, x \div BASE)
\* m * k, 0 <= k <= 200000
MMulSmall(m, k) == IF k = 0 THEN <<>> ELSE MMulFrom(m, k, 1, 0)
RECURSIVE MMul(_, _)
MMul(a, b) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE LET hi == MMul(a, Tail(b))
         IN  MAdd(MMulSmall(a, b[1]), IF hi = <<>> THEN <<>> ELSE <<0>> \o hi)
RECURSIVE MDivFrom(_, _, _, _)
MDivFrom(m, k, i, r) ==
    IF i = 0 THEN <<<<>>, r>>
    ELSE LET x == r * BASE + m[i]
             rest == MDivFrom(m, k, i - 1, x % k)
         IN  <<Append(rest[1], x \div k), rest[2]>>
\* <<m div k, m mod k>>, 0 < k <= 200000
MDivSmall(m, k) == LET q == MDivFrom(m, k, Len(m), 0) IN <<MStrip(q[1]), q[2]>>
RECURSIVE MDigit(_, _, _, _)
\* The largest q in lo..hi with b * q <= r
MDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN  IF MCmp(MMulSmall(b, mid), r) <= 0 THEN MDigit(r, b, mid, hi) ELSE MDigit(r, b, lo, mid - 1)
RECURSIVE MDivBig(_, _, _, _)
MDivBig(a, b, i, r) ==
    IF i = 0 THEN <<<<>>, r>>
    ELSE LET r1 == MStrip(<<a[i]>> \o r)
             q  == IF MCmp(r1, b) < 0 THEN 0 ELSE MDigit(r1, b, 1, BASE - 1)
             rest == MDivBig(a, b, i - 1, MSub(r1, MMulSmall(b, q)))
         IN  <<Append(rest[1], q), rest[2]>>
MDiv(a, b) ==
    IF Len(b) = 1 THEN LET q == MDivSmall(a, b[1]) IN <<q[1], MNat(q[2])>>
    ELSE LET q == MDivBig(a, b, Len(a), <<>>) IN <<MStrip(q[1]), q[2]>>

(***************************************************************************)
(* Bigs.                                                                   *)
(***************************************************************************)
MkBig(s, m) == IF m = <<>> THEN [s |-> 0, m |-> <<>>] ELSE [s |-> s, m |-> m]
Big(n) == IF n >= 0 THEN MkBig(1, MNat(n))
          ELSE MkBig(-1, MAdd(MNat(-(n + 1)), <<1>>))
BigZero == [s |-> 0, m |-> <<>>]
BigNeg(a) == [s |-> -a.s, m |-> a.m]
BigAbs(a) == [s |-> Abs(a.s), m |-> a.m]
BigAdd(a, b) ==
    IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
    ELSE IF a.s = b.s THEN [s |-> a.s, m |-> MAdd(a.m, b.m)]
    ELSE LET c == MCmp(a.m, b.m)
         IN  IF c = 0 THEN BigZero
             ELSE IF c > 0 THEN [s |-> a.s, m |-> MSub(a.m, b.m)]
             ELSE [s |-> b.s, m |-> MSub(b.m, a.m)]
BigSub(a, b) == BigAdd(a, BigNeg(b))
BigCmp(a, b) == IF a.s # b.s THEN Sign(a.s - b.s) ELSE IF a.s = 0 THEN 0 ELSE a.s * MCmp(a.m, b.m)
BigMul(a, b) == MkBig(a.s * b.s, MMul(a.m, b.m))
BigMulSmall(a, k) == IF k >= 0 THEN MkBig(a.s, MMulSmall(a.m, k)) ELSE MkBig(-a.s, MMulSmall(a.m, -k))
\* Quotient truncated towards zero / rounded half away from zero.
BigQuotT(a, b) == MkBig(a.s * b.s, MDiv(a.m, b.m)[1])
BigRound(a, b) == MkBig(a.s * b.s, MDiv(MAdd(MMulSmall(a.m, 2), b.m), MMulSmall(b.m, 2))[1])
BigFloor(a, b) ==
    LET q == MDiv(a.m, b.m)
        sg == a.s * b.s
    IN  IF sg >= 0 \/ q[2] = <<>> THEN MkBig(sg, q[1]) ELSE MkBig(-1, MAdd(q[1], <<1>>))
\* The value of a Big known to fit in 32 bits.
RECURSIVE MInt(_)
MInt(m) == IF m = <<>> THEN 0 ELSE m[1] + BASE * MInt(Tail(m))
BigInt(a) == IF a.s >= 0 THEN MInt(a.m) ELSE -MInt(MSub(a.m, <<1>>)) - 1
BigMillion == [s |-> 1, m |-> <<0, 100>>]
BigI32Max == Big(I32Max)
BigI32Min == Big(I32Min)
BigFitsI32(a) == BigCmp(a, BigI32Min) >= 0 /\ BigCmp(a, BigI32Max) <= 0
\* Microseconds of a span and back.
BigSpan(t) ==
    BigAdd(BigMul(BigAdd(BigMulSmall(Big(t[1]), 86400), Big(t[2])), BigMillion), Big(t[3]))
BigMin64 == BigSpan(Min64)
BigMax64 == BigSpan(Max64)
BigFits64(a) == BigCmp(a, BigMin64) >= 0 /\ BigCmp(a, BigMax64) <= 0
SpanBig(a) ==
    LET f == MDiv(a.m, <<0, 100>>)
        g == MDivSmall(f[1], 86400)
        t == <<MInt(g[1]), g[2], MInt(f[2])>>
    IN  IF a.s >= 0 THEN t ELSE SpanNeg(t)
\* A Big from four base 10^6 limbs, most significant first, and back (floor form).
BigLimbs(v) ==
    LET F(acc, x) == BigAdd(BigMul(acc, BigMillion), Big(x))
    IN  F(F(F(Big(v[1]), v[2]), v[3]), v[4])
LimbsBig(a) ==
    LET q1 == BigFloor(a, BigMillion)
        q2 == BigFloor(q1, BigMillion)
        q3 == BigFloor(q2, BigMillion)
        R(x, q) == BigInt(BigSub(x, BigMul(q, BigMillion)))
    IN  <<BigInt(q3), R(q2, q3), R(q1, q2), R(a, q1)>>
RECURSIVE BigPow2(_)
BigPow2(n) == IF n = 0 THEN Big(1) ELSE IF n >= 16 THEN BigMulSmall(BigPow2(n - 16), 65536)
              ELSE BigMulSmall(BigPow2(n - 1), 2)
=============================================================================
