--------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* The public operations by name: what each one answers.                   *)
(*   Expect(op, a)        the outcome for arguments a                      *)
(*   Admits(op, a, k, v)  whether the observed outcome (k, v) is allowed   *)
(***************************************************************************)
EXTENDS DecodeIv

Bit(b) == IF b THEN 1 ELSE 0
\* What comparing two values with order c (-1, 0, 1) shows: cmp, partial_cmp, < <= > >=, ==, equal hashes.
Ordered(c) == Ok(<<c, c, (IF c < 0 THEN 1 ELSE 0) + (IF c <= 0 THEN 2 ELSE 0) + (IF c > 0 THEN 4 ELSE 0)
                         + (IF c >= 0 THEN 8 ELSE 0), Bit(c = 0), Bit(c = 0)>>)
IntCmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Finite(b) == Ok(<<Bit(b), Bit(~b)>>)

\* Little-endian two's complement bytes.
LE32(n) ==
    LET lo == n % 65536
        hi == (n \div 65536) % 65536
    IN  <<lo % 256, lo \div 256, hi % 256, hi \div 256>>
RECURSIVE LEBytes(_, _)
LEBytes(b, k) ==      \* k bytes of a Big, floor form
    IF k = 0 THEN <<>>
    ELSE LET q == BigFloor(b, Big(256))
         IN  <<BigInt(BigSub(b, BigMulSmall(q, 256)))>> \o LEBytes(q, k - 1)
LE64(t) == LEBytes(BigSpan(t), 8)
Un32(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (IF b[4] >= 128 THEN b[4] - 256 ELSE b[4])
Un64(b) ==
    LET F(acc, x) == BigAdd(BigMulSmall(acc, 256), Big(x))
    IN  SpanBig(F(F(F(F(F(F(F(Big(IF b[8] >= 128 THEN b[8] - 256 ELSE b[8]), b[7]), b[6]), b[5]), b[4]),
                      b[3]), b[2]), b[1]))

\* Written and read again: the same interval, unless a text cannot carry it.  Numbers in texts are i32: too many
\* hours are not written at all, and 2147483648 is not read where its sign stands apart: hours before a colon,
\* days and hours before "ago".
IvReads(i, style) ==
    LET lead == IF i[1] # 0 THEN Sign(i[1]) ELSE IF i[2] # 0 THEN Sign(i[2]) ELSE SpanSign(IvTime(i))
        hours == HoursFit(IvTime(i)) /\ IvFields(i)[4] = I32Min
    IN  IF IvText(i, style).k # "ok" THEN [k |-> "fmterr", v |-> <<>>]
        ELSE IF style = isVerbose /\ lead < 0 /\ (i[2] = I32Min \/ hours) THEN Fail
        ELSE IF style \in {isPostgres, isSql} /\ hours THEN Fail
        ELSE Ok(i)

\* Self-describing binary forms: an integer, and a map or a list of integers (given as microsecond Spans of any size).
Field32(t) == IF SpanLe(Min32, t) /\ SpanLe(t, Max32) THEN Ok(<<Int32(t)>>) ELSE Fail
IvOfFields(time, day, month) ==
    IF SpanFits(time) /\ Field32(day).k = "ok" /\ Field32(month).k = "ok"
    THEN Ok(<<Int32(month), Int32(day)>> \o time) ELSE Fail
IvOfMap(keys, vals) ==
    LET Val(k) == vals[CHOOSE i \in 1..Len(keys) : keys[i] = k]
    IN  IF Len(keys) = 3 /\ {keys[i] : i \in 1..3} = 0..2 THEN IvOfFields(Val(0), Val(1), Val(2)) ELSE Fail

ExpectDate(op, a) ==
    CASE op = "d_ymd" -> DateYmd(a[1], a[2], a[3])
      [] op = "d_fmt" -> Ok(DateText(a[1], a[2], a[3]))
      [] op = "d_adddays" -> DateAddDays(a[1], a[2])
      [] op = "d_subdays" -> DateSubDays(a[1], a[2])
      [] op = "d_subdate" -> DateSub(a[1], a[2])
      [] op = "d_addtime" -> DateAddTime(a[1], a[2])
      [] op = "d_addiv" -> DateAddIv(a[1], a[2])
      [] op = "d_subiv" -> DateSubIv(a[1], a[2])
      [] op = "d_part" -> DatePart(a[1], a[2], a[3])
      [] op = "d_trunc" -> DateTrunc(a[1], a[2], a[3])
      [] op = "d_tots" -> TsOfDate(a[1])
      [] op = "d_json" -> Ok(DateText(a[1], stIso, YMDOrder))
      [] op = "d_rt" -> Ok(<<a[1]>>)
      [] op = "d_jrt" -> Ok(<<a[1]>>)
      [] op = "d_bin" -> Ok(LE32(a[1]))
      [] op = "d_unbin" -> Ok(<<Un32(a[1])>>)
      [] op = "d_cbor" -> Ok(<<a[1]>>)
      [] op = "d_ofint" -> Field32(a[1])
      [] op = "d_cmp" -> Ordered(IntCmp(a[1], a[2]))
      [] op = "d_fin" -> Finite(~DateInf(a[1]))
ExpectTime(op, a) ==
    CASE op = "t_new" -> Ok(Zero)
      [] op = "t_hms" -> TimeHms(a[1], a[2], a[3])
      [] op = "t_fmt" -> Ok(TimeText(a[1]))
      [] op = "t_addiv" -> Ok(TimeAddIv(a[1], a[2]))
      [] op = "t_subiv" -> Ok(TimeSubIv(a[1], a[2]))
      [] op = "t_subt" -> Ok(TimeSub(a[1], a[2]))
      [] op = "t_part" -> TimePart(a[1], a[2], a[3])
      [] op = "t_trunc" -> TimeTrunc(a[1], a[2], a[3])
      [] op = "t_fromts" -> TimeOfTs(a[1])
      [] op = "t_fromiv" -> Ok(TimeOfIv(a[1]))
      [] op = "t_json" -> Ok(TimeText(a[1]))
      [] op = "t_rt" -> Ok(a[1])
      [] op = "t_jrt" -> Ok(a[1])
      [] op = "t_bin" -> Ok(LE64(a[1]))
      [] op = "t_unbin" -> Ok(Un64(a[1]))
      [] op = "t_cbor" -> Ok(a[1])
      [] op = "t_ofint" -> IF SpanFits(a[1]) THEN Ok(a[1]) ELSE Fail
      [] op = "t_cmp" -> Ordered(SpanCmp(a[1], a[2]))
      [] op = "t_fin" -> Finite(TRUE)
ExpectTs(op, a) ==
    CASE op = "s_ymdhms" -> TsYmdHms(a[1], a[2], a[3], a[4], a[5], a[6])
      [] op = "s_fmt" -> Ok(TsText(a[1], a[2], a[3]))
      [] op = "s_addiv" -> TsAddIv(a[1], a[2])
      [] op = "s_subiv" -> TsSubIv(a[1], a[2])
      [] op = "s_addtime" -> TsAddTime(a[1], a[2])
      [] op = "s_subtime" -> TsSubTime(a[1], a[2])
      [] op = "s_subdate" -> TsSubDate(a[1], a[2])
      [] op = "s_sub" -> TsSub(a[1], a[2])
      [] op = "s_age" -> Age(a[1], a[2])
      [] op = "s_part" -> TsPart(a[1], a[2], a[3])
      [] op = "s_trunc" -> TsTrunc(a[1], a[2], a[3])
      [] op = "s_tod" -> DateOfTs(a[1])
      [] op = "s_json" -> Ok(TsText(a[1], stIso, YMDOrder))
      [] op = "s_rt" -> Ok(a[1])
      [] op = "s_jrt" -> Ok(a[1])
      [] op = "s_bin" -> Ok(LE64(a[1]))
      [] op = "s_unbin" -> Ok(Un64(a[1]))
      [] op = "s_cbor" -> Ok(a[1])
      [] op = "s_ofint" -> IF SpanFits(a[1]) THEN Ok(a[1]) ELSE Fail
      [] op = "s_cmp" -> Ordered(SpanCmp(a[1], a[2]))
      [] op = "s_fin" -> Finite(~TsInf(a[1]))
ExpectIv(op, a) ==
    CASE op = "i_new" -> Ok(IvZero)
      [] op = "i_ymwd" -> IvYmwdHms(a[1], a[2], a[3], a[4], a[5], a[6], a[7])
      [] op = "i_fmt" -> IvText(a[1], a[2])
      [] op = "i_add" -> IvAdd(a[1], a[2])
      [] op = "i_sub" -> IvSub(a[1], a[2])
      [] op = "i_plus" -> LET r == IvAdd(a[1], a[2]) IN IF r.k = "ok" THEN r ELSE [k |-> "panic", v |-> <<>>]
      [] op = "i_neg" -> IvNeg(a[1])
      [] op = "i_jh" -> JustifyHours(a[1])
      [] op = "i_jd" -> JustifyDays(a[1])
      [] op = "i_ji" -> JustifyInterval(a[1])
      [] op = "i_part" -> IvPart(a[1], a[2], a[3])
      [] op = "i_trunc" -> IvTrunc(a[1], a[2], a[3])
      [] op = "i_fromt" -> Ok(IvOfTime(a[1]))
      [] op = "i_i128" -> Ok(LimbsBig(IvTotal(a[1])))
      [] op = "i_json" -> IvText(a[1], isSql)
      [] op = "i_rt" -> IvReads(a[1], a[2])
      [] op = "i_jrt" -> IvReads(a[1], isSql)
      [] op = "i_bin" -> Ok(LE64(IvTime(a[1])) \o LE32(a[1][2]) \o LE32(a[1][1]))
      [] op = "i_unbin" -> Ok(<<Un32(SubSeq(a[1], 13, 16)), Un32(SubSeq(a[1], 9, 12))>> \o Un64(SubSeq(a[1], 1, 8)))
      [] op = "i_cbor" -> Ok(a[1])
      [] op = "i_ofmap" -> IvOfMap(a[1], a[2])
      [] op = "i_oflist" -> IF Len(a[1]) = 3 THEN IvOfFields(a[1][1], a[1][2], a[1][3]) ELSE Fail
      [] op = "i_cmp" -> Ordered(IvCmp(a[1], a[2]))
      [] op = "i_fin" -> Finite(TRUE)
DateOps == {"d_ymd", "d_fmt", "d_adddays", "d_subdays", "d_subdate", "d_addtime", "d_addiv", "d_subiv",
            "d_part", "d_trunc", "d_tots", "d_json", "d_rt", "d_jrt", "d_bin", "d_unbin", "d_cbor", "d_ofint", "d_cmp", "d_fin"}
TimeOps == {"t_new", "t_hms", "t_fmt", "t_addiv", "t_subiv", "t_subt", "t_part", "t_trunc", "t_fromts",
            "t_fromiv", "t_json", "t_rt", "t_jrt", "t_bin", "t_unbin", "t_cbor", "t_ofint", "t_cmp", "t_fin"}
TsOps == {"s_ymdhms", "s_fmt", "s_addiv", "s_subiv", "s_addtime", "s_subtime", "s_subdate", "s_sub", "s_age",
          "s_part", "s_trunc", "s_tod", "s_json", "s_rt", "s_jrt", "s_bin", "s_unbin", "s_cbor", "s_ofint", "s_cmp", "s_fin"}
IvOps == {"i_new", "i_ymwd", "i_fmt", "i_add", "i_sub", "i_plus", "i_neg", "i_jh", "i_jd", "i_ji", "i_part",
          "i_trunc", "i_fromt", "i_i128", "i_json", "i_rt", "i_jrt", "i_bin", "i_unbin", "i_cbor", "i_ofmap", "i_oflist", "i_cmp", "i_fin"}
Expect(op, a) ==
    CASE op \in DateOps -> ExpectDate(op, a)
      [] op \in TimeOps -> ExpectTime(op, a)
      [] op \in TsOps -> ExpectTs(op, a)
      [] op \in IvOps -> ExpectIv(op, a)

\* Texts that are read: all outcomes allowed.
ReadOps == {"d_parse", "s_parse", "t_parse", "i_parse", "d_unjson", "s_unjson", "t_unjson", "i_unjson"}
Read(op, a) ==
    CASE op = "d_parse" -> {DateText2(a[1], a[2])}
      [] op = "s_parse" -> TsTexts(a[1], a[2], a[3])
      [] op = "t_parse" -> TimeTexts(a[1], a[2], a[3])
      [] op = "i_parse" -> IvTexts(a[1], a[2], a[3])
      [] op = "d_unjson" -> {DateText2(a[1], YMDOrder)}
      [] op = "s_unjson" -> TsTexts(a[1], -1, YMDOrder)
      [] op = "t_unjson" -> TimeTexts(a[1], -1, YMDOrder)
      [] op = "i_unjson" -> IvTexts(a[1], -1, isSql)
\* Written in one way and read in another.
RtOps == {"d_rt", "s_rt", "t_rt"}
Reread(op, a) ==
    CASE op = "d_rt" -> {DateText2(DateText(a[1], a[2], a[3]), a[4])}
      [] op = "s_rt" -> TsTexts(TsText(a[1], a[2], a[3]), -1, a[4])
      [] op = "t_rt" -> TimeTexts(TimeText(a[1]), -1, a[3])
One(x, k, v) == IF x.k = "any" THEN k \in {"ok", "err"} ELSE x.k = k /\ x.v = v
\* What is left open is still a legal value.
DateReads == {"d_parse", "d_unjson"}
TsReads == {"s_parse", "s_unjson"}
TimeReads == {"t_parse", "t_unjson"}
LegalFor(op, k, v) == k = "ok" => CASE op \in DateReads -> DateLegal(v[1])
                                    [] op \in TsReads -> TsLegal(v)
                                    [] op \in TimeReads -> TimeInRange(v)
                                    [] OTHER -> TRUE

Admits(op, a, k, v) ==
    CASE op \in ReadOps -> LegalFor(op, k, v) /\ \E x \in Read(op, a) : One(x, k, v)
      [] op \in RtOps -> One(Expect(op, a), k, v) /\ \E x \in Reread(op, a) : One(x, k, v)
      [] op = "i_mul" -> MulAdmits(a[1], a[2], k, v)
      [] op = "i_div" -> DivAdmits(a[1], a[2], k, v)
      [] op \in {"d_part", "t_part", "s_part", "i_part"} -> PartAdmits(Expect(op, a), k, v)
      \* calls made over and over, by many at once: none ever answers otherwise than the first time
      [] op = "soak" -> k = "ok" /\ v = <<0>>
      [] OTHER -> One(Expect(op, a), k, v)
\* Shown next to an outcome that is not admitted.
Shown(op, a) == IF op = "soak" THEN "the same answers every time" ELSE IF op \in {"i_mul", "i_div"} THEN "see MulAdmits / DivAdmits"
                ELSE IF op \in ReadOps THEN Read(op, a) ELSE Expect(op, a)
=============================================================================
