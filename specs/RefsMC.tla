------------------------------- MODULE RefsMC -------------------------------
(* Histories of added imports on documents read from files, with everything    *)
(* every index denotes and every search finds after each step.                 *)
EXTENDS Refs, Json, CSV, IOUtils
CONSTANTS Engs, Seeds
VARIABLES x, e, adds
vars == <<x, e, adds>>
Init == x \in Seeds /\ e \in Engs /\ adds \in 0..3
Spec == Init /\ [][UNCHANGED vars]_vars
T == <<"A", "B">>
Nm3(y) == <<Pick(Sub(y, 1), T), Pick(Sub(y, 2), <<0, 0, 2>>)>>
Imp(y, k) == [cp |-> <<Pick(Sub(y, 1), T), 0>>, cn |-> <<Pick(Sub(y, 2), T), 0>>, on |-> Nm3(Sub(y, 3)), outer |-> Pick(Sub(y, 4), <<0, -1, 1>>), opt |-> B(y, 5)]
Y == Sub(x, e)
D0 == Frame(Y, e, "un", B(Y, 1), <<>>, [k \in 1..Nat2(Sub(Y, 2), 4) |-> [cls |-> 0, toks |-> Raw(<<255, 255, 255, 127, k>>), view |-> [t |-> "RawExport", data |-> <<255, 255, 255, 127, k>>]]])
Imps0 == [j \in 1..Nat2(Sub(Y, 3), 4) |-> Imp(Sub(Y, 700 + j), j)]
D == [D0 EXCEPT !.imports = Imps0]
NX == Len(D.exports)
RECURSIVE After(_)
After(n) == IF n = 0 THEN Imps0 ELSE Added(After(n - 1), Imp(Sub(Y, 800 + n), n)).imps
\* small indices and ones that a narrower integer would wrap to small ones
Asked == {-2147483647 - 1, -2147483647, -70000, 70000, 2147483647} \cup (-8..8) \cup UNION {{b + k, -b - k} : b \in {128, 256, 32768, 65536, 16777216}, k \in -1..3}
Queries == {[cp |-> a, cn |-> b, on |-> c, outer |-> o] : a \in {"A", "B", "Missing"}, b \in {"A", "B"}, c \in {"A", "B"}, o \in {0, -1, 1}}
Table(n) == LET im == After(n) IN
  [index |-> IF n = 0 THEN 0 ELSE Added(After(n - 1), Imp(Sub(Y, 800 + n), n)).index,
   added |-> IF n = 0 THEN 0 ELSE Imp(Sub(Y, 800 + n), n),
   imps |-> im,
   gets |-> {[i |-> i, d |-> Denotes(i, Len(im), NX)] : i \in Asked},
   finds |-> {[q |-> q, r |-> Find(im, q), any |-> FindAny(im, q)] : q \in Queries}]
\* laws of the model itself
Laws == LET im == After(adds) IN
  /\ \A n \in 1..adds : LET t == Added(After(n - 1), Imp(Sub(Y, 800 + n), n)) IN Denotes(t.index, Len(t.imps), NX) = [k |-> "import", n |-> Len(t.imps)]
  /\ \A i \in -8..8 : Denotes(i, Len(Imps0), NX).k # "nothing" => Denotes(i, Len(im), NX) = Denotes(i, Len(Imps0), NX)
  /\ \A q \in Queries : Find(im, q) # 0 => FindAny(im, q) # 0 /\ FindAny(im, q) >= Find(im, q)
LayoutOk == WellFormed(Tokens(D)) /\ Ordered(Tokens(D))
Out == CSVWrite("%1$s", <<ToJson(Case(D) @@ [nx |-> NX, steps |-> [n \in 1..(adds + 1) |-> Table(n - 1)]])>>, IOEnv.OUT)
=============================================================================
