------------------------------ MODULE GuidText ------------------------------
(* Textual identifiers: 16 bytes as hex in groups 8-4-4-4-12; the zero       *)
(* identifier prints as "0". Texts are code point sequences.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Vals, Muts
VARIABLES g, mut
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Hex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Digits(bs) == Flat([j \in DOMAIN bs |-> <<Hex(bs[j] \div 16), Hex(bs[j] % 16)>>])
Zero(bs) == \A j \in DOMAIN bs : bs[j] = 0
Show(bs) == IF Zero(bs) THEN <<48>>
            ELSE LET d == Digits(bs) IN SubSeq(d, 1, 8) \o <<45>> \o SubSeq(d, 9, 12) \o <<45>> \o SubSeq(d, 13, 16) \o <<45>> \o SubSeq(d, 17, 20) \o <<45>> \o SubSeq(d, 21, 32)
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Strip(t) == LET u == SelectSeq(t, LAMBDA c : c # 45)
                RECURSIVE Trim(_)
                Trim(x) == IF x = <<>> THEN x ELSE IF x[1] = 32 THEN Trim(Tail(x)) ELSE IF x[Len(x)] = 32 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x
                v == Trim(u)
                w == IF v # <<>> /\ v[1] = 123 THEN Tail(v) ELSE v
            IN IF w # <<>> /\ w[Len(w)] = 125 THEN SubSeq(w, 1, Len(w) - 1) ELSE w
Parse(t) == LET c == Strip(t) IN
            IF c = <<48>> THEN [ok |-> TRUE, v |-> [j \in 1..16 |-> 0]]
            ELSE IF Len(c) # 32 \/ \E j \in DOMAIN c : ~IsHex(c[j]) THEN [ok |-> FALSE, v |-> <<>>]
            ELSE [ok |-> TRUE, v |-> [j \in 1..16 |-> 16 * HexVal(c[2 * j - 1]) + HexVal(c[2 * j])]]
Full(bs) == LET d == Digits(bs) IN SubSeq(d, 1, 8) \o <<45>> \o SubSeq(d, 9, 12) \o <<45>> \o SubSeq(d, 13, 16) \o <<45>> \o SubSeq(d, 17, 20) \o <<45>> \o SubSeq(d, 21, 32)
\* Variants of the printed form
Apply(bs, m) == LET t == Show(bs) f == Full(bs) IN
   CASE m[1] = "id" -> t
     [] m[1] = "full" -> f
     [] m[1] = "lower" -> [j \in DOMAIN f |-> Lower(f[j])]
     [] m[1] = "nodash" -> Digits(bs)
     [] m[1] = "brace" -> <<123>> \o f \o <<125>>
     [] m[1] = "space" -> <<32>> \o f \o <<32>>
     [] m[1] = "set" -> [f EXCEPT ![m[2]] = m[3]]
     [] m[1] = "drop" -> SubSeq(f, 1, m[2] - 1) \o SubSeq(f, m[2] + 1, Len(f))
     [] m[1] = "ins" -> SubSeq(f, 1, m[2]) \o <<m[3]>> \o SubSeq(f, m[2] + 1, Len(f))
     [] m[1] = "wide" -> LET d == Digits(bs) IN SubSeq(d, 1, m[2] - 1) \o <<m[3]>> \o SubSeq(d, m[2] + 2, Len(d))
Pats == {[j \in 1..16 |-> IF j = k THEN b ELSE a] : k \in 1..16, a \in Vals, b \in Vals}
MutSet == {<<"id">>, <<"full">>, <<"lower">>, <<"nodash">>, <<"brace">>, <<"space">>}
     \cup {<<"set", k, c>> : k \in Muts, c \in {43, 103, 233, 45, 32, 71, 64, 96, 58, 47}} \cup {<<"drop", k>> : k \in Muts} \cup {<<"ins", k, c>> : k \in Muts, c \in {48, 45}}
     \cup {<<"wide", k, 233>> : k \in 1..31}
Init == g \in Pats /\ mut = <<"id">>
Next == mut = <<"id">> /\ mut' \in MutSet /\ UNCHANGED g
Spec == Init /\ [][Next]_<<g, mut>>
T == Apply(g, mut)
ShowParse == Parse(Show(g)) = [ok |-> TRUE, v |-> g]
FormsAgree == mut[1] \in {"id", "full", "lower", "nodash", "brace", "space"} => Parse(T) = [ok |-> TRUE, v |-> g]
Out == CSVWrite("%1$s", <<ToJson([m |-> "guid", bytes |-> g, show |-> Show(g), text |-> T, parse |-> Parse(T)])>>, IOEnv.OUT)
=============================================================================
