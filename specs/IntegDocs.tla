------------------------------ MODULE IntegDocs -----------------------------
(* Stand-ins for the two assets the integrator fills in: the table of installed *)
(* mods (one row of eight columns) and the statics object.                      *)
EXTENDS Opaque, Json, CSV, IOUtils
VARIABLES which
Init == which \in {"ListOfMods", "IntegratorStatics_BP"}
Spec == Init /\ [][UNCHANGED which]_which
e == 25
C == Ctx(e, e, <<>>)
Clss == <<"DataTable", "Mod", "Thing", "BlueprintGeneratedClass">>
Tg(name, ty, hd, pay, id) == TV(NmN(name, 0) \o Nm(ty) \o Pos(4, "e" \o id, "s" \o id) \o I32(0) \o hd \o U8(0) \o Lbl("s" \o id) \o pay \o Lbl("e" \o id), <<>>)
Sg(name, id) == Tg(name, "StrProperty", <<>>, Str("x"), id)
Cols == Close(<<Sg("ModName_2_A", "1"), Sg("ModAuthor_4_B", "2"), Sg("ModDescription_6_C", "3"), Sg("ModVersion_8_D", "4"), Sg("GameBuild_10_E", "5"),
   Tg("Sync_12_F", "ByteProperty", Nm("SyncMode"), Nm("SyncMode::NewEnumerator0"), "6"), Sg("Homepage_14_G", "7"), Tg("IsOptional_16_H", "BoolProperty", U8(0), <<>>, "8")>>)
RowStruct == TV(Nm("RowStruct") \o Nm("ObjectProperty") \o I32(4) \o I32(0) \o U8(0) \o I32(-2), <<>>)
Table == [cls |-> 1, view |-> <<>>, toks |-> Close(<<RowStruct>>).toks \o I32(0) \o I32(1) \o Nm("Default") \o Cols.toks]
Thing == [cls |-> 3, view |-> <<>>, toks |-> Close(<<Sg("IntegratorVersion", "1")>>).toks \o I32(0)]
Named(d, k, n) == [d EXCEPT !.exports[k].name = <<n, 0>>]
Plain(d) == [d EXCEPT !.names = <<>>, !.alt = <<>>]
Doc == IF which = "ListOfMods" THEN Plain(Frame(77, e, "un", TRUE, Clss, <<Table>>))
       ELSE Plain(Named(Frame(78, e, "un", TRUE, Clss, <<[Thing EXCEPT !.toks = Close(<<>>).toks \o I32(0)], Thing, [Thing EXCEPT !.toks = Close(<<>>).toks \o I32(0)], [Thing EXCEPT !.toks = Close(<<>>).toks \o I32(0)]>>), 2, "Default__IntegratorStatics_BP_C"))
Out == CSVWrite("%1$s", <<ToJson([which |-> which] @@ Case(Doc))>>, IOEnv.OUT)
=============================================================================
