----------------------------- MODULE IndexedMap -----------------------------
(* Insertion-ordered map (unreal_asset containers::indexed_map).             *)
(* Abstract state: the sequence of live entries in insertion order; each     *)
(* carries the insertion index it was given when it entered the map.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Vals, MaxIdx
VARIABLE ents            \* Seq([i : Nat, k : Keys, v : Int])

Pos(k)    == {p \in DOMAIN ents : ents[p].k = k}
PosIdx(n) == {p \in DOMAIN ents : ents[p].i = n}
The(S)    == CHOOSE x \in S : TRUE
NextIdx   == IF ents = <<>> THEN 0 ELSE ents[Len(ents)].i + 1
Drop(p)   == SubSeq(ents, 1, p - 1) \o SubSeq(ents, p + 1, Len(ents))
Triple(e) == <<e.i, e.k, e.v>>

Init == ents = <<>>

(* Each operator below is one public call: (new state, returned value). *)
Insert(k, v, ret) ==
  /\ ret = <<>>
  /\ ents' = IF Pos(k) # {} THEN [ents EXCEPT ![The(Pos(k))].v = v]
             ELSE Append(ents, [i |-> NextIdx, k |-> k, v |-> v])

\* entry(k).or_insert(v): keeps an existing value
OrInsert(k, v, ret) ==
  IF Pos(k) # {}
  THEN ret = <<ents[The(Pos(k))].v>> /\ UNCHANGED ents
  ELSE ret = <<v>> /\ ents' = Append(ents, [i |-> NextIdx, k |-> k, v |-> v])

MutKey(k, v, ret) ==
  IF Pos(k) # {} THEN ret = <<ents[The(Pos(k))].v>> /\ ents' = [ents EXCEPT ![The(Pos(k))].v = v]
  ELSE ret = <<>> /\ UNCHANGED ents

MutIdx(n, v, ret) ==
  IF PosIdx(n) # {} THEN ret = <<ents[The(PosIdx(n))].v>> /\ ents' = [ents EXCEPT ![The(PosIdx(n))].v = v]
  ELSE ret = <<>> /\ UNCHANGED ents

RemKey(k, ret) ==
  IF Pos(k) # {} THEN ret = Triple(ents[The(Pos(k))]) /\ ents' = Drop(The(Pos(k)))
  ELSE ret = <<>> /\ UNCHANGED ents

RemIdx(n, ret) ==
  IF PosIdx(n) # {} THEN ret = Triple(ents[The(PosIdx(n))]) /\ ents' = Drop(The(PosIdx(n)))
  ELSE ret = <<>> /\ UNCHANGED ents

\* entry(k) then remove_entry() when occupied
EntRemove(k, ret) == RemKey(k, ret)

\* entry(k).or_insert_with / get_mut through an occupied entry, adding one
EntBump(k, v, ret) ==
  IF Pos(k) # {} THEN ret = <<ents[The(Pos(k))].v + 1>> /\ ents' = [ents EXCEPT ![The(Pos(k))].v = @ + 1]
  ELSE ret = <<v>> /\ ents' = Append(ents, [i |-> NextIdx, k |-> k, v |-> v])

\* every mutable view visits every live entry exactly once
BumpAll(ret) == ret = <<Len(ents)>> /\ ents' = [p \in DOMAIN ents |-> [ents[p] EXCEPT !.v = @ + 1]]

\* continue with a clone: indistinguishable from the original
CloneIt(ret) == ret = <<>> /\ UNCHANGED ents

\* consume the map and collect its pairs into a fresh one: same order, indices renumbered
Rebuild(ret) == ret = [p \in DOMAIN ents |-> ents[p].k] /\ ents' = [p \in DOMAIN ents |-> [ents[p] EXCEPT !.i = p - 1]]

---------------------------------------------------------------------------
Live == {ents[p].k : p \in DOMAIN ents}
KeysUnique    == Cardinality(Live) = Len(ents)
IdxIncreasing == \A p, q \in DOMAIN ents : p < q => ents[p].i < ents[q].i
\* an entry that stays live keeps index and relative order unless the whole map is rebuilt
Stable == \A p \in DOMAIN ents, q \in DOMAIN ents' : ents[p].k = ents'[q].k =>
             \/ ents[p].i = ents'[q].i
             \/ [r \in DOMAIN ents |-> ents[r].k] = [r \in DOMAIN ents' |-> ents'[r].k]
OrderKept == \A p1, p2 \in DOMAIN ents, q1, q2 \in DOMAIN ents' :
               (ents[p1].k = ents'[q1].k /\ ents[p2].k = ents'[q2].k /\ p1 < p2) => q1 < q2
=============================================================================
