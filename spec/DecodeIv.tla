------------------------------ MODULE DecodeIv ------------------------------
(***************************************************************************)
(* What a text means as an interval.  The fields are read from right to    *)
(* left, so that units come before their amounts; a text that is not of    *)
(* that form and begins with P is an ISO 8601 duration.                    *)
(*                                                                         *)
(* State: y mo d h mi s (32-bit amounts, checked), f (a Span: microseconds *)
(* on top), m/tm (units given so far / by the last field), unit (of the    *)
(* next number), ago, word (an unusable word was given).                   *)
(* Fractions are doubles in the implementation; where a decimal fraction   *)
(* is not one, the specification allows both sides of a boundary:          *)
(*   utie  a microsecond more or less                                      *)
(*   dalt  a day (of this sign) may be left as 24 hours                    *)
(*   malt  a month (of this sign) may be missing from a decade's fraction  *)
(*   edge  a whole number of seconds carried down may be a second less and *)
(*         almost a second on top: the same, unless signs are forced later *)
(*   open  more than that                                                  *)
(***************************************************************************)
EXTENDS DecodeDT

IvStart == [ok |-> TRUE, y |-> 0, mo |-> 0, d |-> 0, h |-> 0, mi |-> 0, s |-> 0, f |-> Zero, m |-> {}, tm |-> {},
            unit |-> "default", ago |-> FALSE, word |-> FALSE, utie |-> FALSE, dalt |-> 0, malt |-> 0, edge |-> FALSE, open |-> FALSE]

\* The unit of a bare number, by the range asked for.
DefaultUnit(r) ==
    CASE r = bYear -> "year"
      [] r \in {bMonth, bYear + bMonth} -> "month"
      [] r = bDay -> "day"
      [] r \in {bHour, bDay + bHour} -> "hour"
      [] r \in {bMinute, bHour + bMinute, bDay + bHour + bMinute} -> "minute"
      [] OTHER -> "second"

\* With a day that may be 24 hours, whether the seconds overflow is as open.
NearLimit(v) == v > I32Max - 200000 \/ v < I32Min + 200000
Put(x, name, v) ==      \* v more of a field
    IF ~x.ok THEN x
    ELSE IF FitsAdd(x[name], v) THEN
        [x EXCEPT ![name] = @ + v, !.open = @ \/ (name = "s" /\ x.dalt # 0 /\ NearLimit(x.s + v))]
    ELSE IF x.open \/ x.dalt # 0 THEN [x EXCEPT !.open = TRUE]
    ELSE Bad
PutScaled(x, name, v, k) == IF FitsMul(v, k) THEN Put(x, name, v * k) ELSE Bad
PutF(x, t) == IF ~x.ok THEN x ELSE [x EXCEPT !.f = SpanAdd(@, t)]
Pow5 == <<1, 5, 25, 125, 625, 3125, 15625, 78125>>
\* A fraction q = [num, n, neg] stands for num / 10^n.  That much of scale seconds.
PutSecs(x, q, scale) ==
    LET t == SpanBig(BigRound(BigMul(BigMul(Big(q.num), Big(scale)), BigMillion), Big(Pow10[q.n + 1])))
        s == t[1] * 86400 + t[2]
        u == <<0, 0, t[3]>>
        z == PutF(Put(x, "s", IF q.neg THEN -s ELSE s), IF q.neg THEN SpanNeg(u) ELSE u)
        less == t[3] = 0 /\ q.num % Pow5[q.n + 1] # 0
    IN  IF q.num = 0 THEN x
        ELSE IF ~z.ok THEN IF x.ok /\ less THEN [x EXCEPT !.open = TRUE] ELSE Bad
        ELSE [z EXCEPT !.edge = @ \/ less]
\* ... of scale days: whole days and the rest as time
PutDays(x, q, scale) ==
    LET p == Pow10[q.n + 1]
        n == (q.num * scale) \div p
    IN  IF q.num = 0 THEN x
        ELSE PutSecs(Put(x, "d", IF q.neg THEN -n ELSE n), [q EXCEPT !.num = (q.num * scale) % p], 86400)
\* ... of scale months, whole months only
FracMonths(q, scale) == BigInt(BigQuotT(BigMul(Big(q.num), Big(scale)), Big(Pow10[q.n + 1])))
FracExact(q, scale) == BigCmp(BigMul(Big(FracMonths(q, scale)), Big(Pow10[q.n + 1])), BigMul(Big(q.num), Big(scale))) = 0
PutMonths(x, q, scale) ==
    LET n == FracMonths(q, scale)
    IN  IF q.num = 0 THEN x ELSE Put(x, "mo", IF q.neg THEN -n ELSE n)
Dyadic(q) == q.num % Pow5[q.n + 1] = 0
\* a fraction of a decade or more: a product that is a whole number may come out just below it
PutMonthsLoosely(x, q, scale) ==
    LET z == PutMonths(x, q, scale)
    IN  IF ~z.ok \/ q.num = 0 \/ Dyadic(q) \/ ~FracExact(q, scale) THEN z
        ELSE IF z.malt # 0 THEN [z EXCEPT !.open = TRUE]
        ELSE [z EXCEPT !.malt = IF q.neg THEN -1 ELSE 1]
Tie(x, b) == IF x.ok THEN [x EXCEPT !.utie = @ \/ b] ELSE x
Gave(x, units) == IF x.ok THEN [x EXCEPT !.tm = units] ELSE x

\* v and a fraction q of a unit.
Amount(x, unit, v, q) ==
    LET micros == BigRound(BigAdd(BigMul(Big(v), Big(Pow10[q.n + 1])), Big(IF q.neg THEN -q.num ELSE q.num)),
                           Big(Pow10[q.n + 1]))
        r == RemT(v, 1000)
        scaled == BigMulSmall(BigAdd(BigMul(Big(r), Big(Pow10[q.n + 1])), Big(IF q.neg THEN -q.num ELSE q.num)), 1000)
    IN  CASE unit = "micro" -> Tie(Gave(PutF(x, SpanBig(micros)), {"micro"}), q.n = 7 /\ Abs(QuotT(v, 4096)) >= 1024)
          [] unit = "milli" -> Tie(Gave(PutF(Put(x, "s", QuotT(v, 1000)), SpanBig(BigRound(scaled, Big(Pow10[q.n + 1])))),
                                        {"milli"}), q.n >= 4 /\ q.num % Pow10[q.n - 2] = Pow10[q.n - 2] \div 2)
          [] unit = "second" -> Tie(Gave(PutSecs(Put(x, "s", v), q, 1), IF q.num = 0 THEN {"second"} ELSE SecM), FracTie(q))
          [] unit = "minute" -> Gave(PutSecs(Put(x, "mi", v), q, 60), {"minute"})
          [] unit = "hour" -> Gave(PutSecs(Put(x, "h", v), q, 3600), {"hour"})
          [] unit = "day" -> Gave(PutSecs(Put(x, "d", v), q, 86400), {"day"})
          [] unit = "week" -> Gave(PutDays(PutScaled(x, "d", v, 7), q, 7), {"week"})
          [] unit = "month" -> Gave(PutDays(Put(x, "mo", v), q, 30), {"month"})
          [] unit = "year" -> Gave(PutMonths(Put(x, "y", v), q, 12), {"year"})
          [] unit = "decade" -> Gave(PutMonthsLoosely(PutScaled(x, "y", v, 10), q, 120), {"decade"})
          [] unit = "century" -> Gave(PutMonthsLoosely(PutScaled(x, "y", v, 100), q, 1200), {"century"})
          [] unit = "millennium" -> Gave(PutMonthsLoosely(PutScaled(x, "y", v, 1000), q, 12000), {"millennium"})
          [] OTHER -> Bad

NoFrac == [num |-> 0, n |-> 0, neg |-> FALSE]
\* A number: an amount of the unit, or years-months.
IvNumber(s, range, x) ==
    LET r == ReadInt(s, 1)
        neg == s[1] = cDash
        f == ReadFrac(s, r.j)
        r2 == ReadInt(s, r.j + 1)
        unit == IF x.unit = "default" THEN DefaultUnit(range) ELSE x.unit
        months == BigAdd(BigMulSmall(Big(r.v), 12), Big(IF neg THEN -r2.v ELSE r2.v))
        After(z, u) == IF z.ok THEN [z EXCEPT !.unit = IF u = "hour" THEN "day" ELSE u] ELSE z
    IN  IF ~r.ok THEN Bad
        ELSE IF r.j > Len(s) THEN After(Amount(x, unit, r.v, NoFrac), unit)
        ELSE IF s[r.j] = cDash THEN
            IF ~r2.ok \/ r2.v \notin 0..11 \/ r2.j <= Len(s) \/ ~BigFitsI32(months) THEN Bad
            ELSE After(Amount(x, "month", BigInt(months), NoFrac), "month")
        ELSE IF s[r.j] = cDot THEN
            IF ~f.ok \/ f.j <= Len(s) THEN Bad
            ELSE After(Amount(x, unit, r.v, [num |-> f.num, n |-> f.n, neg |-> neg]), unit)
        ELSE Bad
\* A clock, with a sign if s has one; what fractions carried down before stays.
IvClock(s, range, x) ==
    LET signed == s[1] \in {cDash, cPlus}
        neg == s[1] = cDash
        z == ReadClock(IF signed THEN From(s, 2) ELSE s, range = bMinute + bSecond, Start)
        G(v) == IF neg THEN -v ELSE v
        u == IF neg THEN SpanNeg(<<0, 0, z.us>>) ELSE SpanNorm(0, 0, z.us)
        us == IF neg THEN SpanNeg(SpanNorm(0, 0, z.us)) ELSE u
    IN  IF ~z.ok THEN Bad
        ELSE LET w == Put([x EXCEPT !.h = G(z.h), !.mi = G(z.mi), !.f = SpanAdd(us, @), !.unit = "day", !.tm = TimeM,
                              !.utie = @ \/ z.tie], "s", G(z.s))
             IN  w
IvWord(w, x) ==
    LET e == DeltaWord(w)
    IN  CASE e.ty = "units" -> [x EXCEPT !.unit = e.name, !.tm = {}]
          [] e.ty = "ago" -> [x EXCEPT !.unit = "none", !.ago = TRUE, !.tm = {}]
          [] e.ty = "reserv" -> [x EXCEPT !.word = TRUE, !.tm = DateM \cup TimeM]
          [] OTHER -> Bad
RECURSIVE IvFieldsFrom(_, _, _, _)
IvFieldsFrom(fs, i, range, x) ==
    IF i = 0 THEN x
    ELSE LET f == fs[i]
             word == f.t \in {"string", "special"}
             z == IF word THEN IvWord(f.s, x)
                  ELSE IF f.t = "time" \/ (f.t = "tz" /\ \E j \in 1..Len(f.s) : f.s[j] = cColon) THEN IvClock(f.s, range, x)
                  ELSE IvNumber(f.s, range, x)
         IN  IF word /\ DeltaWord(f.s).ty = "ignore" THEN IvFieldsFrom(fs, i - 1, range, x)
             ELSE IF ~z.ok THEN Bad
             ELSE IF z.tm \cap x.m # {} THEN Bad
             ELSE IvFieldsFrom(fs, i - 1, range, [z EXCEPT !.m = @ \cup z.tm])

\* Whole seconds of the microseconds go to the seconds.
CarryF(x) ==
    LET a == SpanAbs(x.f)
        neg == SpanSign(x.f) < 0
        q == a[1] * 86400 + a[2]
        u == <<0, 0, a[3]>>
        z == Put(x, "s", IF neg THEN -q ELSE q)
    IN  IF z.ok THEN [z EXCEPT !.f = IF neg THEN SpanNeg(u) ELSE u] ELSE Bad
AmountNames == {"y", "mo", "d", "h", "mi", "s"}
\* SQL: a leading minus is for all amounts unless another sign is given.
Minus(v) == IF v > 0 THEN -v ELSE v
AllMinus(x) == [x EXCEPT !.y = Minus(@), !.mo = Minus(@), !.d = Minus(@), !.h = Minus(@), !.mi = Minus(@), !.s = Minus(@),
                         !.f = IF SpanSign(@) > 0 THEN SpanNeg(@) ELSE @,
                         !.malt = IF x.mo > 0 THEN -@ ELSE @]
Negated(x) ==
    IF \E n \in AmountNames : ~FitsNeg(x[n]) THEN Bad
    ELSE [x EXCEPT !.y = -@, !.mo = -@, !.d = -@, !.h = -@, !.mi = -@, !.s = -@, !.f = SpanNeg(@), !.malt = -@]
General(fs, range, style) ==
    LET x == IvFieldsFrom(fs, Len(fs), range, IvStart)
        leading == style = isSql /\ fs[1].s[1] = cDash
                   /\ \A i \in 2..Len(fs) : fs[i].s[1] \notin {cDash, cPlus}
    IN  IF fs = <<>> \/ ~x.ok THEN Bad
        ELSE IF x.m = {} THEN Bad
        ELSE LET c == CarryF(x)
             IN  IF ~c.ok THEN Bad
                 ELSE LET d == IF ~leading THEN c
                               ELSE [AllMinus(c) EXCEPT !.open = @ \/ (c.edge /\ Len(fs) > 1)]
                      IN  IF x.ago THEN Negated(d) ELSE d

(***************************************************************************)
(* ISO 8601 durations, byte by byte.  x also has                           *)
(*   date  before T        have  a designated field since P or T           *)
(***************************************************************************)
cP == 80
cT == 84
\* A number at i: sign, up to ten digits, up to seven behind a point.
IsoNumber(s, i) ==
    LET neg == At(s, i) = cDash
        b == IF neg THEN i + 1 ELSE i
        e == Past(s, b, Digits)
        r == ReadInt(SubSeq(s, i, e - 1), 1)
        dot == At(s, e) = cDot
        f == ReadFrac(s, e)
        none == [ok |-> FALSE, v |-> 0, q |-> NoFrac, j |-> i, neg |-> FALSE, w |-> 0]
    IN  IF At(s, i) \notin Digits \cup {cDash, cDot} THEN none
        ELSE IF ~r.ok THEN none
        ELSE IF ~dot THEN [ok |-> TRUE, v |-> r.v, q |-> NoFrac, j |-> e, neg |-> neg, w |-> e - b]
        ELSE IF ~f.ok THEN none
        ELSE IF f.num # 0 /\ r.v \in {I32Max, I32Min} /\ BigCmp(BigMul(Big(f.num), Big(10000000)), BigMul(Big(5), Big(Pow10[f.n + 1]))) >= 0 THEN none
        ELSE [ok |-> TRUE, v |-> r.v, q |-> [num |-> f.num, n |-> f.n, neg |-> neg], j |-> f.j, neg |-> neg, w |-> e - b]
\* The fraction of such a number is what a double of both leaves.
Coarse(x, n, limit) == IF x.ok THEN [x EXCEPT !.open = @ \/ (n.q.num # 0 /\ Abs(QuotT(n.v, limit)) >= 1)] ELSE x
IsoYears(x, n) == Coarse(PutMonths(Put(x, "y", n.v), n.q, 12), n, 1000000)
IsoDays(x, n) == Coarse(PutSecs(Put(x, "d", n.v), n.q, 86400), n, 30000)
\* tenths of a month or week: whole days that may come out as a day less and 24 hours
WithDays(x, n, scale, limit) ==
    LET z == PutDays(x, n.q, scale)
        whole == (n.q.num * scale) % Pow10[n.q.n + 1] = 0
    IN  IF ~z.ok \/ n.q.num = 0 \/ n.v = 0 \/ Dyadic(n.q) \/ ~whole THEN Coarse(z, n, limit)
        ELSE IF z.dalt # 0 \/ NearLimit(z.s) THEN [z EXCEPT !.open = TRUE]
        ELSE Coarse([z EXCEPT !.dalt = IF n.q.neg THEN -1 ELSE 1], n, limit)
IsoMonths(x, n) == WithDays(Put(x, "mo", n.v), n, 30, 1000)
IsoWeeks(x, n) == WithDays(PutScaled(x, "d", n.v, 7), n, 7, 4000)
IsoHours(x, n) == Coarse(PutSecs(Put(x, "h", n.v), n.q, 3600), n, 1000000)
IsoMinutes(x, n) == Coarse(PutSecs(Put(x, "mi", n.v), n.q, 60), n, 60000000)
IsoSeconds(x, n) == Tie(PutSecs(Put(x, "s", n.v), n.q, 1), n.q.n = 7 /\ (FracTie(n.q) \/ Abs(QuotT(n.v, 1048576)) >= 1))


\* yyyy-mm-dd behind its year (the number n; at i what follows); then the time or the end
RECURSIVE IsoFrom(_, _, _, _, _)
IsoRestOfDate(s, i, n, x) ==
    LET a == IsoYears(x, n)
        m == IsoNumber(s, i + 1)
        b == IsoMonths(a, m)
        d == IsoNumber(s, m.j + 1)
        c == IsoDays(b, d)
    IN  IF ~a.ok THEN Bad
        ELSE IF i > Len(s) THEN a
        ELSE IF s[i] = cT THEN IsoFrom(s, i + 1, FALSE, FALSE, a)
        ELSE IF ~m.ok THEN Bad
        ELSE IF m.neg \/ ~b.ok THEN Bad
        ELSE IF m.j > Len(s) THEN b
        ELSE IF s[m.j] = cT THEN IsoFrom(s, m.j, FALSE, FALSE, b)
        ELSE IF s[m.j] # cDash THEN Bad
        ELSE IF ~d.ok THEN Bad
        ELSE IF d.neg \/ ~c.ok THEN Bad
        ELSE IF d.j > Len(s) THEN c
        ELSE IF s[d.j] = cT THEN IsoFrom(s, d.j, FALSE, FALSE, c)
        ELSE Bad
\* hh:mm:ss behind its hour
IsoRestOfTime(s, i, n, x) ==
    LET a == IsoHours(x, n)
        m == IsoNumber(s, i + 1)
        b == IsoMinutes(a, m)
        d == IsoNumber(s, m.j + 1)
        c == IsoSeconds(b, d)
    IN  IF ~a.ok THEN Bad
        ELSE IF i > Len(s) THEN a
        ELSE IF ~m.ok THEN Bad
        ELSE IF m.neg \/ ~b.ok THEN Bad
        ELSE IF m.j > Len(s) THEN b
        ELSE IF s[m.j] # cColon THEN Bad
        ELSE IF ~d.ok THEN Bad
        ELSE IF d.neg \/ ~c.ok \/ d.j <= Len(s) THEN Bad
        ELSE c
IsoFrom(s, i, date, have, x) ==
    LET n == IsoNumber(s, i)
        u == At(s, n.j)
        Go(z) == IF z.ok THEN IsoFrom(s, n.j + 1, date, TRUE, z) ELSE Bad
        basicD == IsoDays(PutScaled(Put(Put(x, "y", n.v \div 10000), "mo", (n.v \div 100) % 100), "d", 0, 1),
                          [n EXCEPT !.v = n.v % 100])
        basicT == IsoSeconds(Put(Put(x, "h", n.v \div 10000), "mi", (n.v \div 100) % 100), [n EXCEPT !.v = n.v % 100])
    IN  IF i > Len(s) THEN x
        ELSE IF s[i] = cT THEN IsoFrom(s, i + 1, FALSE, FALSE, x)
        ELSE IF ~n.ok THEN Bad
        ELSE IF date THEN
            CASE u = 89 -> Go(IsoYears(x, n))
              [] u = 77 -> Go(IsoMonths(x, n))
              [] u = 87 -> Go(IsoWeeks(x, n))
              [] u = 68 -> Go(IsoDays(x, n))
              [] u \in {cT, -1, cDash} ->
                    IF n.neg THEN Bad
                    ELSE IF u # cDash /\ n.w = 8 /\ ~have THEN
                        LET z == [basicD EXCEPT !.open = @ \/ n.q.num # 0]
                        IN  IF ~basicD.ok THEN Bad ELSE IF u = -1 THEN z ELSE IsoFrom(s, n.j + 1, FALSE, FALSE, z)
                    ELSE IF have THEN Bad
                    ELSE IsoRestOfDate(s, n.j, n, x)
              [] OTHER -> Bad
        ELSE
            CASE u = 72 -> Go(IsoHours(x, n))
              [] u = 77 -> Go(IsoMinutes(x, n))
              [] u = 83 -> Go(IsoSeconds(x, n))
              [] u \in {-1, cColon} ->
                    IF n.neg THEN Bad
                    ELSE IF u = -1 /\ n.w = 6 /\ ~have THEN basicT
                    ELSE IF have THEN Bad
                    ELSE IsoRestOfTime(s, n.j, n, x)
              [] OTHER -> Bad
Iso(s) == IF Len(s) < 2 \/ s[1] # cP THEN Bad ELSE IsoFrom(s, 2, TRUE, FALSE, IvStart)

(***************************************************************************)
(* Results.                                                                *)
(***************************************************************************)
\* Any number of h, mi, s as a Span.
ClockSpan(h, mi, s) ==
    SpanAdd(SpanNorm(h \div 24, (h % 24) * 3600, 0),
            SpanAdd(SpanNorm(mi \div 1440, (mi % 1440) * 60, 0), SpanNorm(s \div 86400, s % 86400, 0)))
IvTexts(s, typmod, style) ==
    LET q == Lex(s)
        g == General(q.f, TypmodRange(typmod), style)
        x == IF g.ok THEN g ELSE Iso(s)
        months == BigAdd(BigMulSmall(Big(x.y), 12), Big(x.mo))
        t == SpanAdd(ClockSpan(x.h, x.mi, x.s), x.f)
        M(b) == BigInt(b)
        tick == <<0, 0, 1>>
        base == {Iv(m, x.d, t) : m \in {M(months)} \cup IF x.malt = 0 THEN {} ELSE {M(months) - x.malt}}
        days == IF x.dalt = 0 THEN base
                ELSE base \cup {Iv(i[1], i[2] - x.dalt, SpanAdd(IvTime(i), <<x.dalt, 0, 0>>)) : i \in base}
        all == IF ~x.utie THEN days
               ELSE days \cup {Iv(i[1], i[2], SpanAdd(IvTime(i), tick)) : i \in days}
                         \cup {Iv(i[1], i[2], SpanSub(IvTime(i), tick)) : i \in days}
    IN  IF ~q.ok THEN {Fail}
        ELSE IF ~x.ok THEN {Fail}
        ELSE IF x.word THEN {Fail}
        ELSE IF ~BigFitsI32(months) THEN {Fail}
        ELSE IF x.open THEN {Open}
        ELSE {IvTypmod(i, typmod) : i \in all}
=============================================================================
