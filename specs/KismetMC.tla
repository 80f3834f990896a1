------------------------------ MODULE KismetMC ------------------------------
(* Functions whose scripts contain every expression (Depth = 1) or random       *)
(* deeply nested ones.                                                          *)
EXTENDS Opaque, Json, CSV, IOUtils
CONSTANTS Engs, Seeds, Depth, Hows
VARIABLES x, e, how
vars == <<x, e, how>>
Init == x \in Seeds /\ e \in Engs /\ how \in Hows
Spec == Init /\ [][UNCHANGED vars]_vars
Y == Sub(x, (e * 3) + (IF how = "un" THEN 0 ELSE IF how = "ver" THEN 1 ELSE 2))
C == CtxH(Y, e, how)
\* every fourth operation, so that four consecutive seeds cover all of them
Mine == SelectSeq([j \in DOMAIN AllOps |-> <<j, AllOps[j]>>], LAMBDA p : (p[1] % 4) = (x % 4))
Code == IF Depth = 1 THEN [j \in DOMAIN Mine |-> EAs(Mine[j][2], Sub(Y, 2000 + j), C, 1)]
        ELSE [j \in 1..Nat2(Sub(Y, 3), 5) |-> E(Sub(Y, 2000 + j), C, Depth)]
Code2 == [j \in 1..Nat2(Sub(Y, 4), 3) |-> E(Sub(Y, 3000 + j), C, 1)]
Doc == LET a == FunctionB(Sub(Y, 1000), C, "a", Code, <<>>)
           b == FunctionB(Sub(Y, 1001), C, "b", Code2, <<>>)
       IN Frame(Y, e, how, B(Y, 1), <<"Function">>, <<[cls |-> 1, toks |-> a.toks, view |-> a.view], [cls |-> 1, toks |-> b.toks, view |-> b.view]>>)
LayoutOk == LET t == Tokens(Doc) IN WellFormed(t) /\ Ordered(t)
Out == CSVWrite("%1$s", <<ToJson(Case(Doc))>>, IOEnv.OUT)
OutH == CSVWrite("%1$s", <<ToJson(CaseH(Doc))>>, IOEnv.OUT)
\* the first script made undecodable
OutO == IF Code = <<>> \/ C.e < UE4(16) THEN TRUE
        ELSE LET d == Doc
                 b == d.exports[1]
                 dm == <<[how |-> "script", b |-> [toks |-> SwapScript(b.body, "a", BadScript(Sub(Y, 6000), Code, "a"))], view |-> RawScript(b.view)], [how |-> ""]>>
             IN CSVWrite("%1$s", <<ToJson(CaseO(Damaged(d, Y, dm), dm))>>, IOEnv.OUT)
=============================================================================
