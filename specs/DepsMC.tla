------------------------------- MODULE DepsMC -------------------------------
EXTENDS Deps, Choice, Json, CSV, IOUtils
CONSTANTS Mode, Ids, Lists, Reqs, Depth, Seeds, Universe
VARIABLES hist, x
all == <<vars, hist, x>>
\* what every step shows: the requirement on each dependency of the batch (as the versions of the universe it accepts), the fetch list, and the whole resolution
Obs == [batch |-> last,
        wants |-> {[id |-> id, accepts |-> {v \in Universe : Allowed(id, v)}, dl |-> dls[id]] : id \in Wanted(last)},
        chosen |-> {<<id, Choice1[id]>> : id \in Resolved},
        open |-> {[id |-> id, by |-> Blame(id)] : id \in Unresolved},
        deps |-> {[id |-> id, by |-> Blame(id)] : id \in Known}]
SetToSeq1(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A j, k \in 1..Cardinality(S) : j # k => s[j] # s[k]
\* small: every batch of one mod over all dependency tables
DepTables == UNION {[T -> Reqs] : T \in SUBSET Ids}
DepSeq(t) == LET ks == SetToSeq1(DOMAIN t) IN [j \in DOMAIN ks |-> [id |-> ks[j], req |-> t[ks[j]], dl |-> IF ks[j] = "B" THEN "u1" ELSE ""]]
Small == \E id \in Ids, vl \in Lists, t \in DepTables : AddMods(<<[id |-> id, versions |-> vl, deps |-> DepSeq(t)]>>)
\* large: pseudo random batches of several mods
Ops == <<"^", "", "~", "=", ">", ">=", "<", "<=", "*", "^", ">=">>
Nums == <<0, 0, 1, 1, 2, 3, 10>>
Comp(y) == LET op == Pick(Sub(y, 1), Ops) b == IF Flip(Sub(y, 2), 4) THEN -1 ELSE Pick(Sub(y, 3), Nums) c == IF b = -1 \/ op = "*" \/ Flip(Sub(y, 4), 4) THEN -1 ELSE Pick(Sub(y, 5), Nums) IN
   [op |-> op, a |-> Pick(Sub(y, 6), <<0, 1, 1, 1, 2>>), b |-> b, c |-> c]
Req(y) == LET n == Pick(Sub(y, 1), <<0, 1, 1, 1, 1, 2, 3, 12>>) IN [j \in 1..n |-> IF n > 4 THEN [op |-> ">=", a |-> 0, b |-> 0, c |-> j % 3] ELSE Comp(Sub(y, 10 + j))]
Vers(y) == LET n == Pick(Sub(y, 1), <<1, 1, 2, 3, 5, 8>>) IN
   TLCEval([j \in 1..n |-> <<Pick(Sub(y, 10 + j), <<0, 1, 1, 2>>), Pick(Sub(y, 30 + j), Nums), Pick(Sub(y, 50 + j), Nums)>>])
Names == <<"Core", "Map", "Hud", "Core.Author", "Tool", "core">>
Rest(y, n) == LET r == Nat2(Sub(y, 7), Len(Names)) IN [j \in 1..n |-> Names[((r + j) % Len(Names)) + 1]]
ModOf(y) == LET n == Pick(Sub(y, 1), <<0, 1, 1, 2, 2, 3, 5, 6>>) ids == Rest(y, n) IN
  [id |-> Pick(Sub(y, 2), Names), versions |-> Vers(Sub(y, 3)), deps |-> TLCEval([j \in 1..n |-> [id |-> ids[j], req |-> TLCEval(Req(Sub(y, 100 + j))), dl |-> Pick(Sub(y, 20 + j), <<"", "", "u1", "u2", "u3">>)]])]
BatchOf(y) == LET n == Pick(Sub(y, 1), <<1, 1, 2, 3, 4>>) IN [j \in 1..n |-> ModOf(Sub(y, 200 + j))]
Large == \E b \in {BatchOf(Sub(x, Len(hist)))} : AddMods(b)
MCInit == Init /\ hist = <<>> /\ x \in Seeds
Act == IF Mode = "small" THEN Small ELSE Large
MCNext == Len(hist) < Depth /\ Act /\ hist' = Append(hist, Obs') /\ UNCHANGED x
MCSpec == MCInit /\ [][MCNext]_all
DNext == Act /\ UNCHANGED <<hist, x>>
DSpec == MCInit /\ [][DNext]_all
View == <<own, reqs, dls>>
Out == (hist # <<>> /\ Len(hist) = Depth) => CSVWrite("%1$s", <<ToJson([h |-> hist, universe |-> Universe])>>, IOEnv.OUT)
=============================================================================
