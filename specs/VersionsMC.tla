----------------------------- MODULE VersionsMC -----------------------------
(* Enumerates the version tables, guesses over object versions and any partial *)
(* assignment of container values, and stored containers over defaults.        *)
EXTENDS Versions, Json, CSV, IOUtils, Randomization
CONSTANTS Mode, MaxStored
VARIABLE case
\* a partial assignment is consistent with engine g iff object versions and every listed value agree
Objects(o, o5) == {g \in Eng : Obj(g) = o /\ Obj5(g) = o5}
Consistent(o, o5, cv) == {g \in Objects(o, o5) : \A c \in DOMAIN cv : Cust(c, g) = cv[c]}
Allowed(o, o5, cv) == IF Consistent(o, o5, cv) # {} THEN Consistent(o, o5, cv)
                      ELSE IF Objects(o, o5) # {} THEN Objects(o, o5) ELSE {0}
List(cv) == {[n |-> c, v |-> cv[c]] : c \in DOMAIN cv}
Near(e) == {Cust(c, e) : c \in Conts}
Table == \E e \in Eng : case = [kind |-> "table", eng |-> e, name |-> Name(e), o |-> Obj(e), o5 |-> Obj5(e), c |-> Defaults(e)]
\* every subset of an engine's own containers
Guess == \E e \in Eng : \E D \in SUBSET Conts :
           LET cv == [c \in D |-> Cust(c, e)] IN
           case = [kind |-> "guess", o |-> Obj(e), o5 |-> Obj5(e), cv |-> List(cv), allowed |-> Allowed(Obj(e), Obj5(e), cv)]
\* one or two containers recorded by another engine, or with a number no engine has
Mixed == \E e, e2 \in Eng : \E c1, c2 \in Conts, d \in {0, 1} :
           LET cv == (c1 :> Cust(c1, e2) + d) @@ (c2 :> Cust(c2, e)) IN
           case = [kind |-> "guess", o |-> Obj(e), o5 |-> Obj5(e), cv |-> List(cv), allowed |-> Allowed(Obj(e), Obj5(e), cv)]
\* stored containers, in any order, unknown ones included; absent ones keep the default
Over(e, st) == [c \in Conts |-> LET J == {j \in DOMAIN st : st[j].n = c} IN IF J = {} THEN Cust(c, e) ELSE st[CHOOSE j \in J : TRUE].v]
Vals == {0, 3, 17, 99}
Store == \E e \in Eng : \E n \in 0..MaxStored : \E st \in [1..n -> [n : Conts \cup {"other"}, v : Vals]] :
           /\ \A i, j \in 1..n : i # j => st[i].n # st[j].n
           /\ case = [kind |-> "store", eng |-> e, stored |-> st, base |-> Defaults(e), want |-> Over(e, st)]
Init == CASE Mode = "table" -> Table [] Mode = "guess" -> Guess [] Mode = "mixed" -> Mixed [] Mode = "store" -> Store
Spec == Init /\ [][UNCHANGED case]_case
Out == CSVWrite("%1$s", <<ToJson(case)>>, IOEnv.OUT)
\* design: later engines never map to smaller values
Monotone == \A a, b \in Eng : a < b => /\ Obj(a) <= Obj(b) /\ Obj5(a) <= Obj5(b)
                                       /\ \A c \in Conts : Cust(c, a) <= Cust(c, b)
\* the full default container together with the object versions never contradicts itself
SelfConsistent == \A e \in Eng : e \in Consistent(Obj(e), Obj5(e), Defaults(e))
=============================================================================
