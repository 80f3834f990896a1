------------------------------- MODULE SlotsMC -------------------------------
(* Every choice of absent, stored and zero slots of a small type, at every       *)
(* interesting distance from the start of the type.                              *)
EXTENDS Usmap, Json, CSV, IOUtils
CONSTANTS Engs, N, Bases, Caps
VARIABLES st, base, cap, always, pad, e
vars == <<st, base, cap, always, pad, e>>
Init == st \in [1..N -> 0..2] /\ base \in Bases /\ cap \in Caps /\ always \in BOOLEAN /\ pad \in 0..1 /\ e \in Engs
Spec == Init /\ [][UNCHANGED vars]_vars
\* the type: an inherited array in the middle
Rename(k) == "P" \o S(k)
Own == [name |-> "Hero", super |-> "Actor", count |-> base + (N \div 2), props |-> [k \in 1..(N \div 2) |-> [name |-> Rename(k), slot |-> base + k - 1, dim |-> 1, type |-> [t |-> Int1]]], path |-> 0]
Sup == [name |-> "Actor", super |-> "None", count |-> N - (N \div 2), props |-> <<[name |-> "Tail", slot |-> 0, dim |-> N - (N \div 2), type |-> [t |-> Int161]]>>, path |-> 0]
D == [names |-> <<"Hero", "Actor", "None", "Tail">> \o [k \in 1..(N \div 2) |-> Rename(k)], enums |-> <<>>, schemas |-> <<Own, Sup>>, ext |-> "none", paths |-> <<>>, version |-> 0, versioning |-> {}, method |-> 0]
Ss == LET js == SelectSeq([j \in 1..N |-> j], LAMBDA j : st[j] > 0) IN [k \in DOMAIN js |-> [g |-> base + js[k] - 1, zero |-> st[js[k]] = 2]]
Hd == Header(Ss, cap, always, pad)
Keeps == Slots(Hd) = Ss
PropAt(g) == LET l == Linear(D, "Hero") IN SelectSeq(l, LAMBDA q : q.g = g)[1].p
Ps == [j \in DOMAIN Ss |-> LET p == PropAt(Ss[j].g) IN IF Ss[j].zero THEN [name |-> p.name, type |-> p.type.t, zero |-> TRUE] ELSE [name |-> p.name, type |-> p.type.t, zero |-> FALSE, idx |-> p.idx, v |-> Ss[j].g]]
Toks == Map(LAMBDA j : IF Ss[j].zero THEN <<>> ELSE IF PropAt(Ss[j].g).type.t = Int1 THEN I32(Ss[j].g) ELSE U16(Ss[j].g), Len(Ss))
Out == CSVWrite("%1$s", <<ToJson([eng |-> e, head |-> HeadT(D), method |-> 0, toks |-> PayloadT(D), look |-> <<>>, alls |-> <<>>,
  walks |-> <<[of |-> "Hero", head |-> HeaderT(Hd), toks |-> Toks, ps |-> Ps, ok |-> TRUE, h |-> [frs |-> Hd.frs, firsts |-> Firsts(Hd.frs, 0), bits |-> Hd.bits, values |-> HasValues(Hd)]]>>])>>, IOEnv.OUT)
=============================================================================
