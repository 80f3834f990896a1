------------------------------- MODULE PropsMC -------------------------------
(* Enumerates assets whose exports are property lists (Depth = 0: every type).   *)
EXTENDS Opaque, Json, CSV, IOUtils
CONSTANTS Engs, Seeds, Depth, Hows, Ops
VARIABLES x, e, how, split, op
vars == <<x, e, how, split, op>>
Init == x \in Seeds /\ e \in Engs /\ how \in Hows /\ split \in BOOLEAN /\ op \in Ops
Spec == Init /\ [][UNCHANGED vars]_vars
\* every type of property, and every native struct alone and as an array element, once per document
AllTypes == Prims \o <<"ByteProperty", "ByteProperty", "GameProperty", "RawStructProperty">>
ElemTypes == Prims \o <<"ByteProperty", "ByteProperty", "StructProperty">>
Every(y, c, k) ==
  LET id(j) == S(k) \o "." \o S(j)
      s == CASE k = 1 -> [j \in 1..Len(AllTypes) |-> TagAs(Sub(y, j), c, id(j), 0, AllTypes[j], "IntProperty", "Generic")]
             [] k = 2 -> [j \in 1..Len(Native) |-> TagAs(Sub(y, j), c, id(j), 0, "StructProperty", "", Native[j])]
             [] k = 3 -> [j \in 1..Len(ElemTypes) |-> TagAs(Sub(y, j), c, id(j), 1, "ArrayProperty", ElemTypes[j], "MyStruct")]
             [] k = 4 -> [j \in 1..Len(Native) |-> TagAs(Sub(y, j), c, id(j), 1, "ArrayProperty", "StructProperty", Native[j])]
             [] k = 5 -> [j \in 1..Len(ElemTypes) |-> TagAs(Sub(y, j), c, id(j), 1, "SetProperty", ElemTypes[j], "")]
             [] OTHER -> [j \in 1..8 |-> TagAs(Sub(y, j), c, id(j), 1, "MapProperty", "", "")] IN
  LET p == Close(Lst(c, s)) IN [cls |-> 1, toks |-> p.toks, view |-> [t |-> "NormalExport", extras |-> <<>>, properties |-> p.view], core |-> Len(p.toks)]
Body(y, c, k) == LET p == Close(Props(y, c, S(k), Depth, 4)) tail == RawOf(Sub(y, 1), Nat2(Sub(y, 2), 6)) IN
    [cls |-> 1, toks |-> p.toks \o Raw(tail), view |-> [t |-> "NormalExport", extras |-> tail, properties |-> p.view], core |-> Len(p.toks)]
Y == Sub(x, (e * 6) + (IF how = "un" THEN 0 ELSE IF how = "ver" THEN 2 ELSE 4) + (IF split THEN 1 ELSE 0))
Objs == LET c == [CtxH(Y, e, how) EXCEPT !.ed = op] IN
        IF Depth = 0 THEN <<Every(Sub(Y, 1000), c, (x % 6) + 1)>> ELSE [k \in 1..2 |-> Body(Sub(Y, 1000 + k), c, k)]
DocOf(o) == Frame(Y, e, how, split, <<"Thing">>, o)
Doc == DocOf(Objs)
LayoutOk == LET t == Tokens(Doc) IN WellFormed(t) /\ Ordered(t)
Out == CSVWrite("%1$s", <<ToJson(Case(Doc))>>, IOEnv.OUT)
OutM == CSVWrite("%1$s", <<ToJson(Case(Doc) @@ [key |-> <<x, e, how, split>>, op |-> op])>>, IOEnv.OUT)
OutH == CSVWrite("%1$s", <<ToJson(CaseH(Doc))>>, IOEnv.OUT)
OutO == LET o == TLCEval(Objs)
            first == Nat2(Sub(Y, 6000), Len(o)) + 1
            dm == TLCEval([k \in DOMAIN o |-> IF k # first /\ B(Sub(Y, 6000 + k), 1) THEN [how |-> ""] ELSE Damage(Sub(Y, 6100 + k), o[k], "-")])
        IN CSVWrite("%1$s", <<ToJson(CaseO(Damaged(DocOf(o), Y, dm), dm))>>, IOEnv.OUT)
=============================================================================
