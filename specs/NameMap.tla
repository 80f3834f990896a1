------------------------------- MODULE NameMap -------------------------------
(* Name tables. maps is the sequence of live tables (a deep clone appends one); *)
(* names is the sequence of FNames handed out so far. Which of several equal    *)
(* entries an addition or search answers with is left open (the Allowed set):   *)
(* the evolution of the tables does not depend on that choice.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Texts, Numbers, Batches, MaxMaps, MaxLen, MaxNames
VARIABLES maps, names, last
vars == <<maps, names, last>>
Has(m, t) == {i \in 1..Len(maps[m]) : maps[m][i] = t}
Idx(S) == {i - 1 : i \in S}                       \* indices are zero based for the user
Put(m, tab) == maps' = [maps EXCEPT ![m] = tab]
Init == \E b \in Batches : maps = <<b>> /\ names = <<>> /\ last = [op |-> "batch", m |-> 1, list |-> b]

AddAllowed(m, t, force) == IF force \/ Has(m, t) = {} THEN {Len(maps[m])} ELSE Idx(Has(m, t))
AddTab(m, t, force) == IF force \/ Has(m, t) = {} THEN Append(maps[m], t) ELSE maps[m]
Add(m, t, force) ==
  /\ Put(m, AddTab(m, t, force)) /\ UNCHANGED names
  /\ last' = [op |-> "add", m |-> m, text |-> t, force |-> force, allowed |-> AddAllowed(m, t, force)]
Search(m, t) == /\ UNCHANGED <<maps, names>>
                /\ last' = [op |-> "search", m |-> m, text |-> t, allowed |-> Idx(Has(m, t))]   \* empty: absent
Rename(m, i, t) == /\ i \in 1..Len(maps[m]) /\ Put(m, [maps[m] EXCEPT ![i] = t]) /\ UNCHANGED names
                   /\ last' = [op |-> "rename", m |-> m, idx |-> i - 1, text |-> t]
Clone(m) == /\ Len(maps) < MaxMaps /\ maps' = Append(maps, maps[m]) /\ UNCHANGED names
            /\ last' = [op |-> "clone", m |-> m]
\* FNames: a backed one is (table, text position, number); the position is one of allowed
FName(m, t, n) ==
  /\ Len(names) < MaxNames /\ Put(m, AddTab(m, t, FALSE))
  /\ names' = Append(names, [kind |-> "backed", m |-> m, number |-> n])
  /\ last' = [op |-> "fname", m |-> m, text |-> t, number |-> n, allowed |-> AddAllowed(m, t, FALSE)]
Create(m, i, n) ==
  /\ Len(names) < MaxNames /\ i \in 1..Len(maps[m]) /\ UNCHANGED maps
  /\ names' = Append(names, [kind |-> "backed", m |-> m, number |-> n])
  /\ last' = [op |-> "create", m |-> m, idx |-> i - 1, number |-> n]
Dummy(t, n) ==
  /\ Len(names) < MaxNames /\ UNCHANGED maps
  /\ names' = Append(names, [kind |-> "dummy", m |-> 0, number |-> n])
  /\ last' = [op |-> "dummy", text |-> t, number |-> n]
Next == \/ \E m \in DOMAIN maps, t \in Texts : \/ \E f \in BOOLEAN : Add(m, t, f)
                                               \/ Search(m, t)
                                               \/ \E n \in Numbers : FName(m, t, n)
                                               \/ \E i \in 1..MaxLen : Rename(m, i, t)
        \/ \E m \in DOMAIN maps : Clone(m) \/ \E i \in 1..MaxLen, n \in Numbers : Create(m, i, n)
        \/ \E t \in Texts, n \in Numbers : Dummy(t, n)
Spec == Init /\ [][Next]_vars
\* --- properties of the design
Handed == last.op \in {"add", "fname"} => last.allowed # {} /\ \A i \in last.allowed : maps[last.m][i + 1] = last.text
FoundRight == last.op = "search" => \A i \in last.allowed : maps[last.m][i + 1] = last.text
\* entries never move and change only when renamed; only one table changes per step
Stable == [][\A m \in DOMAIN maps : /\ Len(maps'[m]) >= Len(maps[m])
                                    /\ \A i \in DOMAIN maps[m] : maps'[m][i] # maps[m][i] => (last'.op = "rename" /\ last'.m = m /\ last'.idx = i - 1)]_vars
NoGrowth == [][\A m \in DOMAIN maps : (last'.op \in {"add", "fname"} /\ last'.m = m /\ Has(m, last'.text) # {} /\ ~(last'.op = "add" /\ last'.force)) => maps'[m] = maps[m]]_vars
=============================================================================
