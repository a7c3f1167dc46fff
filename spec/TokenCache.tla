----------------------------- MODULE TokenCache -----------------------------
(***************************************************************************)
(* Words are looked up through a cache: each thread keeps, for each place  *)
(* in a text and each of the two tables, the entry last found there.  The  *)
(* places do not influence each other, so the history of a place is the    *)
(* content of its slot: the entry of the last known word, or nothing.      *)
(* This module explores the whole graph of a slot (every content, every    *)
(* next word) and checks that a lookup never depends on the content.       *)
(* Each step is printed as two texts read one after the other that have    *)
(* the two words at the same place.                                        *)
(***************************************************************************)
EXTENDS Grids

Pairs == atoi(IOEnv.PAIRS)       \* one in PAIRS of the unrelated word pairs is made on the real code

VARIABLES side, slot, word
vars == <<side, slot, word>>

Find(t, w) == IF t = "date" THEN DateWord(w) ELSE DeltaWord(w)
DateKnown == {B(e[1]) : e \in DateTable}
DeltaKnown == {B(e[1]) : e \in DeltaTable}
Known(t) == IF t = "date" THEN DateKnown ELSE DeltaKnown
Zones == {B(w) : w \in ZoneWords}
Main(t) == Known(t) \ Zones
Cut(w) == IF Len(w) > 10 THEN SubSeq(w, 1, 10) ELSE w
Starts(w) == {SubSeq(w, 1, n) : n \in 1..Len(w)}
\* Long words that have their first ten letters in common with a known one, or nearly.
Long == {B("microsecond"), B("microseconds"), B("millisecond"), B("milliseconds"), B("millenniums"), B("microseconx"), B("microsecox"),
         B("undefined"), B("undefinedx"), B("-infinityx"), B("infinityx"), B("septembers"), B("wednesdayx"), B("timezone_hour"), B("timezone_minute")}
Words(t) == Known(t) \cup UNION {Starts(w) : w \in Main(t)} \cup Long

\* The lookup as it is done.
Cached(t, s, w) ==
    LET key == Cut(w)
    IN  IF s # <<>> /\ key = s THEN Find(t, s) ELSE Find(t, key)
Init == side \in {"date", "delta"} /\ slot = <<>> /\ word = <<>>
Lookup == /\ word = <<>> /\ word' \in Words(side)
          /\ UNCHANGED <<side, slot>>
Store == /\ word # <<>>
         /\ slot' = IF Cached(side, slot, word) = Unknown THEN slot ELSE Cut(word)
         /\ word' = <<>> /\ UNCHANGED side

\* Does not depend on the content of the slot.
Right == word # <<>> => Cached(side, slot, word) = Find(side, word)
\* What is kept is an entry of the side, whole.
Entry == slot # <<>> => slot \in Known(side)

(***************************************************************************)
(* The texts: the word at the same place of both.                          *)
(***************************************************************************)
Prefix(v, w) == Len(v) <= Len(w) /\ SubSeq(w, 1, Len(v)) = v
Related(v, w) == \/ Prefix(v, w) \/ Prefix(w, v)
                 \/ Len(v) >= 2 /\ Len(w) >= 2 /\ v[1] = w[1] /\ v[2] = w[2]
                 \/ Len(v) >= 2 /\ Len(v) = Len(w) /\ SubSeq(v, 2, Len(v)) = SubSeq(w, 2, Len(w))
S(x) == B(x)
DateFrames == {<<"d_parse", <<>>, S(" 5 2000"), <<YMDOrder>>>>, <<"d_parse", S("5 "), S(" 2000"), <<DMYOrder>>>>,
               <<"d_parse", S("2000-02-05 "), <<>>, <<YMDOrder>>>>, <<"s_parse", S("2000-02-05 11:30 "), <<>>, <<-1, YMDOrder>>>>,
               <<"t_parse", S("11:30 "), <<>>, <<-1, YMDOrder>>>>, <<"s_parse", <<>>, <<>>, <<-1, YMDOrder>>>>}
DeltaFrames == {<<"i_parse", S("5 "), <<>>, <<-1, isPostgres>>>>, <<"i_parse", S("@ 3 days 5 "), S(" ago"), <<-1, isVerbose>>>>,
                <<"i_parse", S("2 1 day 5 "), <<>>, <<-1, isSql>>>>, <<"i_parse", S("5 days "), <<>>, <<-1, isPostgres>>>>}
Frames == IF side = "date" THEN DateFrames ELSE DeltaFrames
Read1(f, w) == [op |-> f[1], a |-> <<f[2] \o w \o f[3]>> \o f[4]]
RECURSIVE Sum(_)
Sum(w) == IF w = <<>> THEN 0 ELSE (31 * Sum(Tail(w)) + w[1]) % 100003
Chosen(v, w) == /\ v # w
                /\ \/ Related(v, w) /\ v \in Main(side)
                   \/ (Sum(v \o <<32>> \o w) + atoi(IOEnv.SEED)) % Pairs = 0
Show == IF slot = <<>> \/ ~Chosen(slot, word) THEN TRUE
        ELSE \A f \in Frames : PrintT("STEPS " \o ToJson(<<Read1(f, slot), Read1(f, word), Read1(f, slot)>>))
Spec == Init /\ [][Lookup \/ (Show /\ Store)]_vars
=============================================================================
