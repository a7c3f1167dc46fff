------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* From bytes to fields.  A field is [t, s]: its kind and its bytes.       *)
(*   number  digits, possibly with a decimal point                         *)
(*   date    digits and delimiters, or digits and letters                  *)
(*   time    digits, colons, points                                        *)
(*   string  letters                                                       *)
(*   tz      a sign and digits (also ':' '.' '-')                          *)
(*   special a sign and letters                                            *)
(***************************************************************************)
EXTENDS Tokens, FiniteSets

cDot == 46
cColon == 58
cDash == 45
cPlus == 43
cSlash == 47
Digits == 48..57
Uppers == 65..90
Lowers == 97..122
Letters == Uppers \cup Lowers
Alnums == Digits \cup Letters
Blanks == {32, 9, 10, 12, 13}
Puncts == (33..47) \cup (58..64) \cup (91..96) \cup (123..126)
Lower(c) == IF c \in Uppers THEN c + 32 ELSE c
Fold(s) == [j \in 1..Len(s) |-> Lower(s[j])]

\* The first position from i on whose byte is not in C.
RECURSIVE Past(_, _, _)
Past(s, i, C) == IF i <= Len(s) /\ s[i] \in C THEN Past(s, i + 1, C) ELSE i
From(s, i) == SubSeq(s, i, Len(s))
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
Field(t, s) == [t |-> t, s |-> s]

\* What starts at i: [f: the field, j: the position behind it]; no field if none can start there.
LexDigit(s, i) ==
    LET j == Past(s, i, Digits)
        c == At(s, j)
    IN  IF c = cColon THEN LET e == Past(s, j, Digits \cup {cColon, cDot})
                           IN  [f |-> Field("time", SubSeq(s, i, e - 1)), j |-> e]
        ELSE IF c \in {cDash, cSlash, cDot} THEN
            LET k == j + 1
                plain == IF c = cDot THEN "number" ELSE "date"
            IN  IF k > Len(s) THEN [f |-> Field(plain, SubSeq(s, i, j)), j |-> k]
                ELSE IF s[k] \in Digits THEN
                    LET m == Past(s, k, Digits)
                    IN  IF At(s, m) = c THEN LET e == Past(s, m, Digits \cup {c})
                                             IN  [f |-> Field("date", SubSeq(s, i, e - 1)), j |-> e]
                        ELSE [f |-> Field(plain, SubSeq(s, i, m - 1)), j |-> m]
                ELSE LET e == Past(s, k, Alnums \cup {c})
                     IN  [f |-> Field("date", SubSeq(s, i, j) \o Fold(SubSeq(s, k, e - 1))), j |-> e]
        ELSE [f |-> Field("number", SubSeq(s, i, j - 1)), j |-> j]
LexAlpha(s, i) ==
    LET j == Past(s, i, Letters)
        w == Fold(SubSeq(s, i, j - 1))
        c == At(s, j)
        isDate == \/ c \in {cDash, cSlash, cDot}
                  \/ (c = cPlus \/ c \in Digits) /\ DateWord(w) = Unknown
        e == Past(s, j, Alnums \cup {cPlus, cDash, cSlash, cDot, cColon, 95})
    IN  IF isDate THEN [f |-> Field("date", w \o SubSeq(s, j, e - 1)), j |-> e]
        ELSE [f |-> Field("string", w), j |-> j]
LexSign(s, i) ==
    LET k == Past(s, i + 1, Blanks)
        c == At(s, k)
    IN  IF c \in Digits THEN LET e == Past(s, k, Digits \cup {cColon, cDot, cDash})
                             IN  [f |-> Field("tz", <<s[i]>> \o SubSeq(s, k, e - 1)), j |-> e]
        ELSE IF c \in Letters THEN LET e == Past(s, k, Letters)
                                   IN  [f |-> Field("special", <<s[i]>> \o Fold(SubSeq(s, k, e - 1))), j |-> e]
        ELSE [f |-> Field("none", <<>>), j |-> k]

MaxFields == 25
MaxText == 128
BadLex == [ok |-> FALSE, f |-> <<>>]
RECURSIVE LexFrom(_, _, _)
LexFrom(s, i0, acc) ==
    LET i == Past(s, i0, Blanks)
    IN  IF i > Len(s) THEN [ok |-> TRUE, f |-> acc]
        ELSE IF Len(acc) >= MaxFields THEN BadLex
        ELSE LET c == s[i]
             IN  IF c \in {cPlus, cDash} THEN LET x == LexSign(s, i)
                                              IN  IF x.f.t = "none" THEN BadLex ELSE LexFrom(s, x.j, Append(acc, x.f))
                 ELSE IF c \in Digits THEN LET x == LexDigit(s, i) IN LexFrom(s, x.j, Append(acc, x.f))
                 ELSE IF c = cDot THEN LET e == Past(s, i + 1, Digits)
                                       IN  LexFrom(s, e, Append(acc, Field("number", SubSeq(s, i, e - 1))))
                 ELSE IF c \in Letters THEN LET x == LexAlpha(s, i) IN LexFrom(s, x.j, Append(acc, x.f))
                 ELSE IF c \in Puncts THEN LexFrom(s, i + 1, acc)
                 ELSE BadLex
Lex(s) ==
    IF s = <<>> \/ Cardinality({j \in 1..Len(s) : s[j] \notin Blanks}) > MaxText THEN BadLex
    ELSE LexFrom(s, 1, <<>>)
=============================================================================
