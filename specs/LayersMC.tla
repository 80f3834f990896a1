------------------------------ MODULE LayersMC ------------------------------
EXTENDS Layers, Choice, Json, CSV, IOUtils
CONSTANTS Mode, Depth, Seeds, MaxPaks
VARIABLES hist, x
all == <<vars, hist, x>>
Pair(h, b) == [h |-> h, b |-> b]
Held == {None0} \cup {Pair(a, a) : a \in Split} \cup {Pair(a, "") : a \in Whole}
Given == Held \cup {Pair(a, "") : a \in Split} \cup {Pair("", a) : a \in Split}
Lists1(S) == UNION {[1..k -> [Names -> S]] : k \in 0..MaxPaks}
\* pseudo random set-ups
SplitSeq == <<"s1", "s2", "s3">>
WholeSeq == <<"u1", "u2">>
PairOf(y, broken) == LET k == Nat2(Sub(y, 1), IF broken THEN 8 ELSE 6) a == Pick(Sub(y, 2), SplitSeq) IN
  IF k < 2 THEN None0 ELSE IF k < 4 THEN Pair(a, a) ELSE IF k < 6 THEN Pair(Pick(Sub(y, 3), WholeSeq), "") ELSE IF k = 6 THEN Pair(a, "") ELSE Pair("", a)
NameSeq == CHOOSE s \in [1..Cardinality(Names) -> Names] : \A j, k \in 1..Cardinality(Names) : j # k => s[j] # s[k]
At(n) == CHOOSE j \in DOMAIN NameSeq : NameSeq[j] = n
Paks(y) == [j \in 1..Nat2(Sub(y, 1), 4) |-> [n \in Names |-> PairOf(Sub(y, (10 * j) + At(n)), TRUE)]]
MCInit == /\ x \in Seeds /\ last = [op |-> "", name |-> "", to |-> "", res |-> ""]
          /\ IF Mode = "all" THEN integ \in [Names -> Held] /\ mods \in Lists1(Given) /\ games \in Lists1(Given)
             ELSE integ = [n \in Names |-> PairOf(Sub(x, 500 + At(n)), FALSE)] /\ mods = Paks(Sub(x, 1)) /\ games = Paks(Sub(x, 2))
          /\ hist = <<[integ |-> integ, mods |-> mods, games |-> games]>>
MCNext == Len(hist) <= Depth /\ Next /\ hist' = Append(hist, last' @@ [integ |-> integ']) /\ UNCHANGED x
MCSpec == MCInit /\ [][MCNext]_all
Out == Len(hist) = Depth + 1 => CSVWrite("%1$s", <<ToJson([h |-> hist])>>, IOEnv.OUT)
=============================================================================
