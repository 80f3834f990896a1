---------------------------- MODULE IndexedMapMC ----------------------------
(* Exhaustive check of the design and generator of replayable behaviours.    *)
EXTENDS IndexedMap, Json, CSV, IOUtils
CONSTANTS Depth, Emit
VARIABLES hist, last
mvars == <<ents, hist, last>>

Proj(es) == [p \in DOMAIN es |-> <<es[p].i, es[p].k, es[p].v>>]
Log(op, k, n, v, ret) ==
   /\ last' = op
   /\ hist' = IF Emit THEN Append(hist, [op |-> op, k |-> k, n |-> n, v |-> v, ret |-> ret, st |-> Proj(ents')]) ELSE <<>>

Idx == 0 .. MaxIdx
MCInit == Init /\ hist = <<>> /\ last = "init"

RetK(k)  == IF Pos(k) # {} THEN <<ents[The(Pos(k))].v>> ELSE <<>>
MCFin == Emit /\ Len(hist) = Depth /\ UNCHANGED <<ents, last>> /\ hist' = Append(hist, [op |-> "fin"])
MCStep ==
  /\ (Emit => Len(hist) < Depth)
  /\ \/ \E k \in Keys, v \in Vals : LET r == <<>> IN Insert(k, v, r) /\ Log("insert", k, 0, v, r)
     \/ \E k \in Keys, v \in Vals : LET r == IF Pos(k) # {} THEN RetK(k) ELSE <<v>> IN OrInsert(k, v, r) /\ Log("or_insert", k, 0, v, r)
     \/ \E k \in Keys, v \in Vals : LET r == RetK(k) IN MutKey(k, v, r) /\ Log("mut_key", k, 0, v, r)
     \/ \E n \in Idx, v \in Vals : LET r == IF PosIdx(n) # {} THEN <<ents[The(PosIdx(n))].v>> ELSE <<>> IN MutIdx(n, v, r) /\ Log("mut_idx", "", n, v, r)
     \/ \E k \in Keys : LET r == IF Pos(k) # {} THEN Triple(ents[The(Pos(k))]) ELSE <<>> IN RemKey(k, r) /\ Log("rem_key", k, 0, 0, r)
     \/ \E n \in Idx : LET r == IF PosIdx(n) # {} THEN Triple(ents[The(PosIdx(n))]) ELSE <<>> IN RemIdx(n, r) /\ Log("rem_idx", "", n, 0, r)
     \/ \E k \in Keys : LET r == IF Pos(k) # {} THEN Triple(ents[The(Pos(k))]) ELSE <<>> IN EntRemove(k, r) /\ Log("ent_remove", k, 0, 0, r)
     \/ \E k \in Keys, v \in Vals : LET r == IF Pos(k) # {} THEN <<RetK(k)[1] + 1>> ELSE <<v>> IN EntBump(k, v, r) /\ Log("ent_bump", k, 0, v, r)
     \/ LET r == <<Len(ents)>> IN BumpAll(r) /\ Log("bump_all", "", 0, 0, r)
     \/ CloneIt(<<>>) /\ Log("clone", "", 0, 0, <<>>)
     \/ LET r == [p \in DOMAIN ents |-> ents[p].k] IN Rebuild(r) /\ Log("rebuild", "", 0, 0, r)
MCNext == MCStep \/ MCFin
MCSpec == MCInit /\ [][MCNext]_mvars

\* state constraint for the exhaustive run
Bound == /\ \A p \in DOMAIN ents : ents[p].i <= MaxIdx /\ ents[p].v <= 3
View  == <<ents, last>>
StepProps == [][Stable /\ OrderKept]_mvars
Out == (Emit /\ Len(hist) = Depth + 1) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
