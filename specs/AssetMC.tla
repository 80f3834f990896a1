------------------------------- MODULE AssetMC -------------------------------
(* Enumerates frames of assets over engine versions and header variations.     *)
EXTENDS AssetDoc, Json, CSV, IOUtils
CONSTANTS Engs, Seeds, Hows
VARIABLES x, e, how, split
vars == <<x, e, how, split>>
Init == x \in Seeds /\ e \in Engs /\ how \in Hows /\ split \in BOOLEAN
Spec == Init /\ [][UNCHANGED vars]_vars
IntP(c, id, v) == Nm("Num") \o Nm("IntProperty") \o I32(4) \o I32(0) \o When(c.o >= PROPERTY_GUID_IN_PROPERTY_TAG, U8(0)) \o I32(v)
RawBytes(y) == [j \in 1..Nat2(y, 12) |-> Nat2(Sub(y, j), 256)]
\* bodies: tagged properties with trailing bytes, or content that is no property list at all (a name index past the table)
Body(y, c, k) ==
  LET nprop == Nat2(Sub(y, 1), 3)
      tail == RawBytes(Sub(y, 2))
      vals == [j \in 1..nprop |-> Num(Sub(y, 10 + j))]
      raw == <<255, 255, 255, 127>> \o RawBytes(Sub(y, 3))
  IN IF Flip(Sub(y, 4), 4)
     THEN [cls |-> IF B(y, 5) THEN 1 ELSE 0, toks |-> Raw(raw), view |-> [t |-> "RawExport", data |-> raw]]
     ELSE [cls |-> IF B(y, 5) THEN 1 ELSE 0, toks |-> Map(LAMBDA j : IntP(c, S(k) \o "." \o S(j), vals[j]), nprop) \o Nm("None") \o Raw(tail),
           view |-> [t |-> "NormalExport", extras |-> tail, properties |-> [j \in 1..nprop |-> [t |-> "IntProperty", name |-> [nm |-> "Num", n |-> 0], value |-> vals[j]]]]]
Doc == LET y == Sub(x, e)
           c == CtxH(y, e, how)
       IN Frame(y, e, how, split, <<"Thing">>, [k \in 1..Nat2(Sub(y, 2), 4) |-> Body(Sub(y, 1000 + k), c, k)])
LayoutOk == LET t == Tokens(Doc) IN WellFormed(t) /\ Ordered(t)
Out == CSVWrite("%1$s", <<ToJson(Case(Doc))>>, IOEnv.OUT)
=============================================================================
