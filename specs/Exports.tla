------------------------------ MODULE Exports -------------------------------
(* Specialised export objects: layout and denotation. Every body starts with    *)
(* the object's own property list and a zero word.                              *)
EXTENDS Kismet, Flags
ObjFl(x) == FlagsA(x, 4, ObjectFlags, "EObjectFlags")
PropFl(x) == FlagsA(x, 8, PropertyFlags, "EPropertyFlags")
FuncFl(x) == LET f == FlagsA(x, 4, FunctionFlags, "EFunctionFlags") IN [f EXCEPT !.toks[1].free = 32]      \* every bit is a flag
ClassFl(x) == FlagsA(x, 4, ClassFlags, "EClassFlags")
StructFl(x) == FlagsA(x, 4, StructFlags, "EStructFlags")
DimA(x) == EnumA(x, I32, <<"NotAnArray", "TArray", "CArray">>)
Conds == << <<0, "CondNone">>, <<1, "CondInitialOnly">>, <<2, "CondOwnerOnly">>, <<3, "CondSkipOwner">>, <<4, "CondSimulatedOnly">>, <<5, "CondAutonomousOnly">>, <<6, "CondSimulatedOrPhysics">>, <<7, "CondInitialOrOwner">>,
  <<8, "CondCustom">>, <<9, "CondReplayOrOwner">>, <<10, "CondReplayOnly">>, <<11, "CondSimulatedOnlyNoReplay">>, <<12, "CondSimulatedOrPhysicsNoReplay">>, <<13, "CondSkipReplay">>, <<15, "CondNever">>, <<16, "CondMax">> >>
CondA(x) == LET v == Pick(x, Conds) IN TV(<<[en |-> TRUE] @@ U8(v[1])[1]>>, v[2])
U8A(x) == LET v == Nat2(x, 256) IN TV(U8(v), v)
U16A(x) == LET v == Pick(x, <<0, 1, 65535, 300>>) IN TV(U16(v), v)
Field(x, c) == IF c.cv["FFrameworkObjectVersion"] < REMOVE_UFIELD_NEXT THEN LET i == IdxA(x) IN TV(i.toks, [next |-> i.view]) ELSE TV(<<>>, [next |-> NoneV])

\* properties that live inside structs (since 4.25)
FGeneric(x, ser) == LET r == Rec(<< <<"name", NmA(Sub(x, 1))>>, <<"flags", ObjFl(Sub(x, 2))>>, <<"array_dim", DimA(Sub(x, 3))>>, <<"element_size", I32A(Sub(x, 4))>>, <<"property_flags", PropFl(Sub(x, 5))>>,
    <<"rep_index", U16A(Sub(x, 6))>>, <<"rep_notify_func", NmA(Sub(x, 7))>>, <<"blueprint_replication_condition", CondA(Sub(x, 8))>> >>) IN TV(r.toks, r.view @@ [serialized_type |-> ser])
FSimple == << <<"ObjectProperty", <<"property_class">> >>, <<"SoftObjectProperty", <<"property_class">> >>, <<"ClassProperty", <<"property_class", "meta_class">> >>, <<"SoftClassProperty", <<"property_class", "meta_class">> >>,
  <<"DelegateProperty", <<"signature_function">> >>, <<"MulticastDelegateProperty", <<"signature_function">> >>, <<"MulticastInlineDelegateProperty", <<"signature_function">> >>, <<"InterfaceProperty", <<"interface_class">> >>,
  <<"ByteProperty", <<"enum_value">> >>, <<"StructProperty", <<"struct_value">> >>, <<"NumericProperty", <<>> >> >>
FOther == <<"IntProperty", "StrProperty", "NameProperty", "FloatProperty", "TextProperty", "MyProperty">>
FNest == <<"EnumProperty", "ArrayProperty", "SetProperty", "MapProperty">>
FKinds == [j \in DOMAIN FSimple |-> FSimple[j][1]] \o FOther \o <<"BoolProperty">>
RECURSIVE FProp(_, _), FPropAs(_, _, _)
FPropAs(ty, x, dp) ==
  LET g == FGeneric(Sub(x, 1), NoneV)
      R(s) == LET r == Rec(<< <<"generic_property", g>> >> \o s) IN TV(Nm(ty) \o r.toks, [t |-> "F" \o ty] @@ r.view)
      in(k) == FProp(Sub(x, k), dp - 1) IN
  CASE ty = "EnumProperty" -> R(<< <<"enum_value", IdxA(Sub(x, 2))>>, <<"underlying_prop", in(3)>> >>)
    [] ty = "ArrayProperty" -> R(<< <<"inner", in(3)>> >>)
    [] ty = "SetProperty" -> R(<< <<"element_prop", in(3)>> >>)
    [] ty = "MapProperty" -> R(<< <<"key_prop", in(3)>>, <<"value_prop", in(4)>> >>)
    [] ty = "BoolProperty" -> R(<< <<"field_size", U8A(Sub(x, 2))>>, <<"byte_offset", U8A(Sub(x, 3))>>, <<"byte_mask", U8A(Sub(x, 4))>>, <<"field_mask", U8A(Sub(x, 5))>>, <<"native_bool", BoolA(Sub(x, 6))>>, <<"value", BoolA(Sub(x, 7))>> >>)
    [] \E j \in DOMAIN FOther : FOther[j] = ty -> LET o == FGeneric(Sub(x, 1), NmV(<<ty, 0>>)) IN TV(Nm(ty) \o o.toks, [t |-> "FGenericProperty"] @@ o.view)
    [] OTHER -> LET f == (CHOOSE j \in DOMAIN FSimple : FSimple[j][1] = ty) IN R([k \in 1..Len(FSimple[f][2]) |-> <<FSimple[f][2][k], IdxA(Sub(x, 10 + k))>>])
FProp(x, dp) == FPropAs(IF dp > 0 /\ B(x, 1) THEN Pick(Sub(x, 2), FNest) ELSE Pick(Sub(x, 2), FKinds), Sub(x, 3), dp)

\* properties that are objects of their own (before 4.25)
UKinds == << <<"EnumProperty", <<"value", "underlying_prop">> >>, <<"ArrayProperty", <<"inner">> >>, <<"SetProperty", <<"element_prop">> >>, <<"ObjectProperty", <<"property_class">> >>, <<"SoftObjectProperty", <<"property_class">> >>,
  <<"LazyObjectProperty", <<"property_class">> >>, <<"ClassProperty", <<"property_class", "meta_class">> >>, <<"SoftClassProperty", <<"property_class", "meta_class">> >>, <<"DelegateProperty", <<"signature_function">> >>,
  <<"MulticastDelegateProperty", <<"signature_function">> >>, <<"MulticastInlineDelegateProperty", <<"signature_function">> >>, <<"InterfaceProperty", <<"interface_class">> >>, <<"MapProperty", <<"key_prop", "value_prop">> >>,
  <<"ByteProperty", <<"enum_value">> >>, <<"StructProperty", <<"struct_value">> >>, <<"DoubleProperty", <<>> >>, <<"FloatProperty", <<>> >>, <<"IntProperty", <<>> >>, <<"Int8Property", <<>> >>, <<"Int16Property", <<>> >>,
  <<"Int64Property", <<>> >>, <<"UInt8Property", <<>> >>, <<"UInt16Property", <<>> >>, <<"UInt64Property", <<>> >>, <<"NameProperty", <<>> >>, <<"StrProperty", <<>> >> >>
UNames == [j \in DOMAIN UKinds |-> UKinds[j][1]] \o <<"BoolProperty", "TextProperty", "MyProperty">>
UGeneric(x, c) == LET cond == c.cv["FReleaseObjectVersion"] >= PROPERTIES_SERIALIZE_REP_CONDITION IN
   Rec(<< <<"u_field", Field(Sub(x, 1), c)>>, <<"array_dim", DimA(Sub(x, 2))>>, <<"property_flags", PropFl(Sub(x, 3))>>, <<"rep_notify_func", NmA(Sub(x, 4))>>,
          <<"blueprint_replication_condition", IF cond THEN CondA(Sub(x, 5)) ELSE TV(<<>>, NoneV)>> >>)
UProp(ty, x, c) ==
  LET g == UGeneric(Sub(x, 1), c)
      R(s) == LET r == Rec(<< <<"generic_property", g>> >> \o s) IN TV(r.toks, [t |-> "U" \o ty] @@ r.view) IN
  IF ty = "BoolProperty" THEN R(<< <<"element_size", U8A(Sub(x, 2))>>, <<"native_bool", BoolA(Sub(x, 3))>> >>)
  ELSE IF ty \in {"TextProperty", "MyProperty"} THEN TV(g.toks, [t |-> "UGenericProperty"] @@ g.view)
  ELSE LET f == CHOOSE j \in DOMAIN UKinds : UKinds[j][1] = ty IN R([k \in 1..Len(UKinds[f][2]) |-> <<UKinds[f][2][k], IdxA(Sub(x, 10 + k))>>])

\* the parts: NV is the normal part, then the fields of the kind
\* the word after the properties says whether an identifier follows; objects with one are not understood
NoGuid == <<[t |-> "i32", v |-> 0, word |-> TRUE]>>
NormalF(x, c, id, max) == LET p == Close(Props(Sub(x, 1), c, id, 1, max)) IN TV(p.toks \o NoGuid, [properties |-> p.view])
ScriptA(x, c, id, s) ==
  IF c.e >= UE4(16)
  THEN LET k == Script(s, id) IN TV(k.toks, [script_bytecode |-> k.view, script_bytecode_raw |-> NoneV])
  ELSE LET b == Lst(c, RawOf(x, Nat2(Sub(x, 300), 12))) m == Pos0(Sub(x, 301)) IN TV(I32(m) \o Num0(Len(b)) \o Raw(b), [script_bytecode |-> NoneV, script_bytecode_size |-> m, script_bytecode_raw |-> b])
\* s: expressions of the script, fp: loaded properties
StructF(x, c, id, s0, fp0) ==
  LET s == Lst(c, s0) fp == Lst(c, fp0) n == NormalF(Sub(x, 1), c, id, 2)
      f == Field(Sub(x, 2), c)
      su == IdxA(Sub(x, 3))
      ch == Members(c, Sub(x, 4), 3, IdxA)
      hasP == c.cv["FCoreObjectVersion"] >= FPROPERTIES
      sc == ScriptA(Sub(x, 6), c, id, s) IN
  TV(n.toks \o f.toks \o su.toks \o ch.toks \o When(hasP, Cnt(fp)) \o sc.toks,
     [normal_export |-> n.view, field |-> f.view, super_struct |-> su.view, children |-> ch.view, loaded_properties |-> IF hasP THEN Views(fp) ELSE <<>>] @@ sc.view)
Full(t, s) == LET r == Rec(s) IN TV(r.toks, [t |-> t] @@ r.view)
FunctionB(x, c, id, s, fp) == Full("FunctionExport", << <<"struct_export", StructF(Sub(x, 1), c, id, s, fp)>>, <<"function_flags", FuncFl(Sub(x, 2))>> >>)
UStructB(x, c, id, s, fp) == LET p == Close(Props(Sub(x, 3), c, id \o "d", 1, 2)) IN
    Full("UserDefinedStructExport", << <<"struct_export", StructF(Sub(x, 1), c, id, s, fp)>>, <<"flags", StructFl(Sub(x, 2))>>, <<"default_struct_instance", p>> >>)
ClassB(x, c, id, s, fp) ==
  LET n == Nat2(Sub(x, 7), 4)
      \* distinct names: functions of a class
      fn == Lst(c, [j \in 1..n |-> LET nm == <<NamePool[j], Pick(Sub(x, 70 + j), <<0, 1, 2>>)>> i == IdxA(Sub(x, 80 + j)) IN TV(NmN(nm[1], nm[2]) \o i.toks, <<NmV(nm), i.view>>)])
      ifs == Members(c, Sub(x, 8), 2, LAMBDA y : Rec(<< <<"class", IdxA(Sub(y, 1))>>, <<"pointer_offset", I32A(Sub(y, 2))>>, <<"implemented_by_k2", Bool4A(Sub(y, 3))>> >>))
      gen == IdxA(Sub(x, 9))
      old == c.o < UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING
      cfg == NmA(Sub(x, 11)) fo == Bool4A(Sub(x, 12)) ck == Bool4A(Sub(x, 13)) cdo == IdxA(Sub(x, 14)) wi == IdxA(Sub(x, 10)) fl == ClassFl(Sub(x, 2))
      st == StructF(Sub(x, 1), c, id, s, fp) IN
  TV(st.toks \o Cnt(fn) \o fl.toks \o wi.toks \o cfg.toks \o (IF old THEN ifs.toks \o gen.toks ELSE gen.toks \o ifs.toks) \o fo.toks \o Nm("None") \o ck.toks \o cdo.toks,
     [t |-> "ClassExport", struct_export |-> st.view, func_map |-> [map |-> Views(fn)], class_flags |-> fl.view, class_within |-> wi.view, class_config_name |-> cfg.view, interfaces |-> ifs.view,
      class_generated_by |-> gen.view, deprecated_force_script_order |-> fo.view, cooked |-> ck.view, class_default_object |-> cdo.view])
EnumB(x, c, id) ==
  LET n == Nat2(Sub(x, 2), 4)
      old == c.o < TIGHTLY_PACKED_ENUMS
      byte == c.cv["FCoreObjectVersion"] < ENUM_PROPERTIES
      it(j) == LET nm == NmA(Sub(x, 20 + j)) v == IF old THEN j - 1 ELSE IF byte THEN Nat2(Sub(x, 30 + j), 256) ELSE Pick(Sub(x, 30 + j), I64s)
               IN TV(nm.toks \o (IF old THEN <<>> ELSE IF byte THEN U8(v) ELSE I64(v)), <<nm.view, v>>)
      form == IF c.o < ENUM_CLASS_SUPPORT THEN LET v == Nat2(Sub(x, 3), 2) IN TV(I32(v), <<"Regular", "Namespaced">>[v + 1]) ELSE EnumA(Sub(x, 3), U8, <<"Regular", "Namespaced", "EnumClass">>)
      \* old enums store no values: names are stored in the order of their values
      ns0 == Lst(c, [j \in 1..n |-> it(j)])
      ns == IF old THEN [j \in DOMAIN ns0 |-> LET k == CHOOSE k \in DOMAIN ns0 : Cardinality({m \in DOMAIN ns0 : ns0[m].view[2] < ns0[k].view[2]}) = j - 1 IN TV(ns0[k].toks, <<ns0[k].view[1], j - 1>>)] ELSE ns0
      nf == NormalF(Sub(x, 1), c, id, 2) IN
  TV(nf.toks \o Cnt(ns) \o form.toks, [t |-> "EnumExport", normal_export |-> nf.view, value |-> [names |-> Views(ns), cpp_form |-> form.view]])
StringTableB(x, c, id) ==
  LET n == Nat2(Sub(x, 2), 4)
      en(j) == LET k == <<"K", "{65e5}", "a.b", "x y">>[j] v == Text(Sub(x, 20 + j)) IN TV(Str(k) \o Str(v), <<k, v>>)
      es == Lst(c, [j \in 1..n |-> en(j)])
      nf == NormalF(Sub(x, 1), c, id, 2) ns == StrA(Sub(x, 3)) IN
  TV(nf.toks \o ns.toks \o Cnt(es), [t |-> "StringTableExport", normal_export |-> nf.view, namespace |-> ns.view, table |-> [map |-> Views(es)]])
LevelB(x, c, id) ==
  LET nf == NormalF(Sub(x, 1), c, id, 2)
      ac == Members(c, Sub(x, 2), 4, IdxA)
      url == Rec(<< <<"protocol", StrA(Sub(x, 3))>>, <<"host", StrA(Sub(x, 4))>>, <<"map_", StrA(Sub(x, 5))>>, <<"portal", StrA(Sub(x, 6))>>, <<"options", Members(c, Sub(x, 7), 2, StrA)>>, <<"port", I32A(Sub(x, 8))>>, <<"valid", I32A(Sub(x, 9))>> >>) IN
  Full("LevelExport", << <<"normal_export", nf>>, <<"actors", ac>>, <<"url", url>>, <<"model", IdxA(Sub(x, 10))>>, <<"model_components", Members(c, Sub(x, 11), 3, IdxA)>>, <<"level_script", IdxA(Sub(x, 12))>>,
     <<"nav_list_start", IdxA(Sub(x, 13))>>, <<"nav_list_end", IdxA(Sub(x, 14))>> >>)
WorldB(x, c, id) == Full("WorldExport", << <<"normal_export", NormalF(Sub(x, 1), c, id, 2)>>, <<"persistent_level", IdxA(Sub(x, 2))>>, <<"extra_objects", Members(c, Sub(x, 3), 3, IdxA)>>, <<"streaming_levels", Members(c, Sub(x, 4), 3, IdxA)>> >>)
PropertyB(ty, x, c, id) == Full("PropertyExport", << <<"normal_export", NormalF(Sub(x, 1), c, id, 2)>>, <<"property", UProp(ty, Sub(x, 2), c)>> >>)
\* rows: rs is the name of the row struct, imp the import that names it (0: none given)
DataTableB(x, c, id, rs, imp) ==
  LET tag == IF imp = 0 THEN <<>> ELSE <<TV(Nm("RowStruct") \o Nm("ObjectProperty") \o I32(4) \o I32(0) \o When(c.o >= PROPERTY_GUID_IN_PROPERTY_TAG, U8(0)) \o I32(-imp),
                                        [t |-> "ObjectProperty", name |-> NmV(<<"RowStruct", 0>>), value |-> Idx(-imp)])>>
      p == Close(tag \o Props(Sub(x, 1), c, id, 1, 1))
      n == Nat2(Sub(x, 2), 4)
      row(j) == LET y == Sub(x, 20 + j) nm == NmOf(Sub(y, 1)) b == StructBody(rs, Sub(y, 2), c, id \o "r" \o S(j), 1, "") IN
                TV(NmN(nm[1], nm[2]) \o b.toks, [name |-> NmV(nm)] @@ StructView(rs, b))
      rows == Lst(c, [j \in 1..n |-> row(j)]) IN
  TV(p.toks \o NoGuid \o Cnt(rows), [t |-> "DataTableExport", normal_export |-> [properties |-> p.view], table |-> [data |-> Views(rows)]])
=============================================================================
