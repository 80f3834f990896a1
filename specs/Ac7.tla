-------------------------------- MODULE Ac7 --------------------------------
(* Scrambling: a 32 bit name key from a feedback shift register over the     *)
(* upper-cased name selects a phase in a 217 x 1024 key table; byte number j *)
(* after the four byte marker is combined with the table cell at phase + j.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Chars, MaxName, MinName, LensA, LensB
VARIABLES name, out
Bit(x, k) == (x \div (2 ^ k)) % 2
Bits8(x) == [k \in 0..31 |-> IF k < 8 THEN Bit(x, k) ELSE 0]
Xor(a, b) == [k \in 0..31 |-> (a[k] + b[k]) % 2]
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Step(r, c) == LET x == Xor(r, Bits8(c)) IN [k \in 0..31 |-> IF k = 0 THEN 1 - ((x[4] + x[7]) % 2) ELSE x[k - 1]]
RECURSIVE Key(_, _)
Key(r, cs) == IF cs = <<>> THEN r ELSE Key(Step(r, Upper(Head(cs))), Tail(cs))
NameKey(cs) == Key([k \in 0..31 |-> 0], cs)
RECURSIVE Mod(_, _, _)
Mod(r, m, k) == IF k < 0 THEN 0 ELSE (Mod(r, m, k - 1) + r[k] * ((2 ^ (k % 16)) % m) * (IF k >= 16 THEN 65536 % m ELSE 1)) % m
P1(cs) == (7 * Mod(NameKey(cs), 217, 31) + 4) % 217
P2(cs) == (11 * Mod(NameKey(cs), 1024, 31) + 4) % 1024
Cell(p1, p2, j) == ((p1 + j) % 217) * 1024 + ((p2 + j) % 1024)
Init == name = <<>> /\ out = <<>>
Next == \/ /\ out = <<>> /\ Len(name) < MaxName /\ \E c \in Chars : name' = Append(name, c)
           /\ UNCHANGED out
        \/ /\ out = <<>> /\ Len(name) >= MinName /\ \E a \in LensA, b \in LensB : out' = <<a, b>>
           /\ UNCHANGED name
Spec == Init /\ [][Next]_<<name, out>>
\* the phase is inside the table and does not depend on letter case
PhaseOk == P1(name) \in 0..216 /\ P2(name) \in 0..1023 /\ P1([j \in DOMAIN name |-> Upper(name[j])]) = P1(name)
Out == out # <<>> => CSVWrite("%1$s", <<ToJson([m |-> "ac7", name |-> name, p1 |-> P1(name), p2 |-> P2(name), a |-> out[1], b |-> out[2]])>>, IOEnv.OUT)
=============================================================================
