------------------------------ MODULE ExportsMC -----------------------------
(* Documents with several specialised objects of every kind.                    *)
EXTENDS Opaque, Json, CSV, IOUtils
CONSTANTS Engs, Seeds, Hows, Ops
VARIABLES x, e, how, op
vars == <<x, e, how, op>>
Init == x \in Seeds /\ e \in Engs /\ how \in Hows /\ op \in Ops
Spec == Init /\ [][UNCHANGED vars]_vars
Y == Sub(x, (e * 3) + (IF how = "un" THEN 0 ELSE IF how = "ver" THEN 1 ELSE 2))
C == [CtxH(Y, e, how) EXCEPT !.ed = op]
RowTypes == <<"MyRow", "Vector", "Guid", "LinearColor", "SoftObjectPath">>
Base == <<"Function", "UserDefinedStruct", "BlueprintGeneratedClass", "WidgetBlueprintGeneratedClass", "Enum", "UserDefinedEnum", "StringTable", "MyStringTable", "DataTable", "CurveDataTable", "Level", "World", "Thing">>
Clss == Base \o UNames \o RowTypes
At(n) == CHOOSE j \in DOMAIN Clss : Clss[j] = n
Some3(y, id) == [j \in 1..Nat2(Sub(y, 1), 4) |-> E(Sub(y, 10 + j), C, 1)]
Fps(y) == [j \in 1..Nat2(Sub(y, 1), 4) |-> FProp(Sub(y, 10 + j), 2)]
\* every kind of member, once
AllFps(y) == LET k == FKinds \o FNest IN [j \in DOMAIN k |-> FPropAs(k[j], Sub(y, 10 + j), 1)]
Kind(n, y, id) ==
  CASE n = "Function" -> FunctionB(y, C, id, Some3(Sub(y, 8), id), Fps(Sub(y, 9)))
    [] n = "UserDefinedStruct" -> UStructB(y, C, id, Some3(Sub(y, 8), id), Fps(Sub(y, 9)))
    [] n \in {"BlueprintGeneratedClass", "WidgetBlueprintGeneratedClass"} -> ClassB(y, C, id, Some3(Sub(y, 8), id), Fps(Sub(y, 9)))
    [] n \in {"Enum", "UserDefinedEnum"} -> EnumB(y, C, id)
    [] n \in {"StringTable", "MyStringTable"} -> StringTableB(y, C, id)
    [] n \in {"DataTable", "CurveDataTable"} -> LET r == Pick(Sub(y, 7), RowTypes \o <<"">>) IN DataTableB(y, C, id, IF r = "" THEN "Generic" ELSE r, IF r = "" THEN 0 ELSE At(r))
    [] n = "Level" -> LevelB(y, C, id)
    [] n = "World" -> WorldB(y, C, id)
    [] n = "Thing" -> LET p == Close(Props(y, C, id, 1, 2)) IN TV(p.toks \o I32(0), [t |-> "NormalExport", properties |-> p.view, extras |-> <<0, 0, 0, 0>>])
    [] OTHER -> PropertyB(n, y, C, id)
\* trailing bytes belong to the object's own part, however deep it sits
WithTail(v, tail) == IF "properties" \in DOMAIN v THEN [extras |-> tail] @@ v
                     ELSE IF "normal_export" \in DOMAIN v THEN [v EXCEPT !.normal_export = [extras |-> tail] @@ @]
                     ELSE [v EXCEPT !.struct_export.normal_export = [extras |-> tail] @@ @]
Body(n, j) == LET y == Sub(Y, 1000 + j) b == Kind(n, y, S(j)) tail == RawOf(Sub(y, 60), Nat2(Sub(y, 61), 5)) IN
   IF n = "Thing" THEN [cls |-> At(n), toks |-> b.toks, view |-> b.view, core |-> Len(b.toks) - 1]
   ELSE [cls |-> At(n), toks |-> b.toks \o Raw(tail), view |-> WithTail(b.view, tail), core |-> Len(b.toks)]
\* a class that declares a map of structs tells what the maps of that name hold in the objects after it
MapDecl(y) == LET g == FGeneric(Sub(y, 1), NoneV)
                  m == [g EXCEPT !.toks = NmN("Lookup", 0) \o Tail(@), !.view.name = NmV(<<"Lookup", 0>>)]
                  sp(n, z) == LET h == FGeneric(z, NoneV) IN TV(Nm("StructProperty") \o h.toks \o I32(-At(n)), [t |-> "FStructProperty", generic_property |-> h.view, struct_value |-> Idx(-At(n))])
                  k == sp("Guid", Sub(y, 2)) v == sp("Vector", Sub(y, 3)) IN
              TV(Nm("MapProperty") \o m.toks \o k.toks \o v.toks, [t |-> "FMapProperty", generic_property |-> m.view, key_prop |-> k.view, value_prop |-> v.view])
Lookup(y) == LET b == ClassB(y, C, "c", <<>>, <<FProp(Sub(y, 90), 1), MapDecl(Sub(y, 91))>>) IN [cls |-> At("BlueprintGeneratedClass"), toks |-> b.toks, view |-> b.view, core |-> Len(b.toks)]
Uses(y, j) == LET known == C.cv["FCoreObjectVersion"] >= FPROPERTIES
                  mn == IF known THEN <<"Lookup", "Guid", "Vector">> ELSE <<"Lookup", "Generic", "Generic">>
                  v == MapV(Sub(y, 1), C, "u" \o S(j), 1, mn)
                  p == Close(Lst(C, <<TagOf(Sub(y, 2), C, "u" \o S(j), "MapProperty", <<"Lookup", 0>>, v)>>)) IN
              [cls |-> At("Thing"), toks |-> p.toks, view |-> [t |-> "NormalExport", properties |-> p.view, extras |-> <<>>], core |-> Len(p.toks)]
Objs ==
  LET m == x % 4 IN
  IF m = 0 THEN [j \in DOMAIN Base |-> Body(Base[j], j)]
  ELSE IF m = 1 THEN [j \in DOMAIN UNames |-> Body(UNames[j], j)]
  ELSE IF m = 3 /\ B(Y, 70) THEN <<Lookup(Sub(Y, 71)), Uses(Sub(Y, 72), 1), Uses(Sub(Y, 73), 2)>>
  ELSE IF m = 2 THEN << LET b == UStructB(Sub(Y, 1001), C, "a", <<>>, AllFps(Sub(Y, 5000))) IN [cls |-> At("UserDefinedStruct"), toks |-> b.toks, view |-> b.view, core |-> Len(b.toks)] >>
  ELSE [j \in 1..3 |-> Body(Pick(Sub(Y, 40 + j), Base), j)]
DocOf(o) == Frame(Y, e, how, B(Y, 1), Clss, o)
Doc == DocOf(Objs)
LayoutOk == LET t == Tokens(Doc) IN WellFormed(t) /\ Ordered(t)
Out == CSVWrite("%1$s", <<ToJson(Case(Doc))>>, IOEnv.OUT)
OutM == CSVWrite("%1$s", <<ToJson(Case(Doc) @@ [key |-> <<x, e, how>>, op |-> op])>>, IOEnv.OUT)
OutH == CSVWrite("%1$s", <<ToJson(CaseH(Doc))>>, IOEnv.OUT)
\* some of the objects made unreadable (what a class says about maps is lost with the class, so classes that say so stay whole)
Whole(k) == (x % 4) = 3 /\ B(Y, 70) /\ k = 1
OutO == LET o == TLCEval(Objs)
            dm == TLCEval([k \in DOMAIN o |-> IF Whole(k) \/ (Len(o) > 1 /\ B(Sub(Y, 6000 + k), 1)) THEN [how |-> ""] ELSE Damage(Sub(Y, 6100 + k), o[k], IF (x % 4) = 2 THEN "a" ELSE S(k))])
        IN CSVWrite("%1$s", <<ToJson(CaseO(Damaged(DocOf(o), Y, dm), dm))>>, IOEnv.OUT)
=============================================================================
