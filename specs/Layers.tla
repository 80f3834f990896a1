------------------------------- MODULE Layers -------------------------------
(* Where an asset comes from while mods are integrated. An asset is a header and *)
(* maybe a bulk part; the integrated pak, the mods' paks and the game's paks each *)
(* hold some of both. h and b name the asset a part belongs to ("": not there).   *)
(* Assets in Split consist of two parts, the others of a header only.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, Split, Whole
VARIABLES integ, mods, games, last
vars == <<integ, mods, games, last>>
None0 == [h |-> "", b |-> ""]
Sound(p) == p.h # "" /\ (p.h \in Split => p.b = p.h)
\* the first pak of a list that has the header
First(paks, n) == LET js == {j \in DOMAIN paks : paks[j][n].h # ""} IN IF js = {} THEN None0 ELSE paks[CHOOSE j \in js : \A k \in js : j <= k][n]
Source(n) == IF integ[n].h # "" THEN integ[n] ELSE IF First(mods, n).h # "" THEN First(mods, n) ELSE First(games, n)
Seen(n) == LET p == Source(n) IN IF p.h = "" THEN "missing" ELSE IF Sound(p) THEN p.h ELSE "broken"
Parts(a) == [h |-> a, b |-> IF a \in Split THEN a ELSE ""]
Request(n) == last' = [op |-> "request", name |-> n, to |-> "", res |-> Seen(n)] /\ UNCHANGED <<integ, mods, games>>
\* a name is stored in one form only
Fits(n, a) == integ[n].h = "" \/ (integ[n].h \in Split) = (a \in Split)
Store(n, a) == /\ Fits(n, a)
               /\ integ' = [integ EXCEPT ![n] = Parts(a)]
               /\ last' = [op |-> "store", name |-> n, to |-> "", res |-> a]
               /\ UNCHANGED <<mods, games>>
\* what is seen under one name is stored under another (or the same)
Move(n, m) == /\ Seen(n) \in Split \cup Whole
              /\ Fits(m, Seen(n))
              /\ integ' = [integ EXCEPT ![m] = Parts(Seen(n))]
              /\ last' = [op |-> "move", name |-> n, to |-> m, res |-> Seen(n)]
              /\ UNCHANGED <<mods, games>>
Next == \/ \E n \in Names : Request(n)
        \/ \E n \in Names, a \in Split \cup Whole : Store(n, a)
        \/ \E n, m \in Names : Move(n, m)

\* ---- properties of the design
OneSource == \A n \in Names : Seen(n) \in Split \cup Whole => \E p \in {integ[n]} \cup {mods[j][n] : j \in DOMAIN mods} \cup {games[j][n] : j \in DOMAIN games} : p.h = Seen(n) /\ Sound(p)
Precedence == \A n \in Names : /\ (integ[n].h # "" /\ Sound(integ[n])) => Seen(n) = integ[n].h
                               /\ (integ[n].h = "" /\ \E j \in DOMAIN mods : mods[j][n].h # "") => Seen(n) = "broken" \/ \E j \in DOMAIN mods : Seen(n) = mods[j][n].h
StoredIsSeen == [][\A n \in Names : integ'[n] # integ[n] => Seen(n)' = integ'[n].h]_vars
OthersKept == [][\A n \in Names : (n # last'.name /\ n # last'.to) => Seen(n)' = Seen(n)]_vars
=============================================================================
