-------------------------------- MODULE Props --------------------------------
(* Tagged properties and natively serialised structs: layout and denotation.   *)
(* A value is [hd: tokens before the property guid, pay: payload, t, f: view].  *)
(* Every operator draws its shape from the choice tree node x; id makes the     *)
(* labels of nested lengths unique; dp bounds nesting.                          *)
EXTENDS AssetDoc
V(t, toks, f) == [hd |-> <<>>, pay |-> toks, t |-> t, f |-> f]
View1(v) == [t |-> v.t] @@ v.f
CatT(s) == Map(LAMBDA j : s[j].toks, Len(s))
Views(s) == [j \in DOMAIN s |-> s[j].view]
Num0(n) == <<[t |-> "i32", v |-> n, cnt |-> TRUE]>>          \* the number of things that follow
Cnt(s) == Num0(Len(s)) \o CatT(s)
TV(toks, view) == [toks |-> toks, view |-> view]
\* a list inside an object after the edit: its first or last element removed, or turned around
Lst(c, s) == CASE c.ed = "" \/ s = <<>> -> s [] c.ed = "drop" -> Tail(s) [] c.ed = "last" -> SubSeq(s, 1, Len(s) - 1) [] OTHER -> [j \in DOMAIN s |-> s[Len(s) + 1 - j]]
Kept(c) == [c EXCEPT !.ed = ""]
List(x, max, F(_)) == LET n == Nat2(Sub(x, 500), max + 1) IN [j \in 1..n |-> F(Sub(x, 500 + j))]

\* atoms
I32A(x) == LET v == Num(x) IN TV(I32(v), v)
U32A(x) == LET v == Pick(x, <<0, 1, 77, "4294967295", 2147483647>>) IN TV(U32(v), v)
F32A(x) == LET v == Fl(x) IN TV(F32(v), [f |-> v])
NmA(x) == LET n == NmOf(x) IN TV(NmN(n[1], n[2]), NmV(n))
StrA(x) == LET s == Opt(x, Text(Sub(x, 1))) IN TV(OptStr(s), OptV(s))
IdxA(x) == LET v == Pick(x, <<0, 1, -1, 2, -2, 77, -300>>) IN TV(I32(v), Idx(v))
RawOf(x, n) == [j \in 1..n |-> Nat2(Sub(x, j), 256)]
BytesA(x, max) == LET b == RawOf(x, Nat2(Sub(x, 400), max + 1)) IN TV(Raw(b), b)
EnumA(x, w(_), names) == LET v == Nat2(x, Len(names)) IN TV(<<[en |-> TRUE] @@ w(v)[1]>>, names[v + 1])
BoolA(x) == LET v == B(x, 1) IN TV(U8(IF v THEN 1 ELSE 0), v)
Bool4A(x) == LET v == B(x, 1) IN TV(Bool32(v), v)
RealA(c, x) == LET v == Fl(x) IN TV(IF c.o5 >= U5_LARGE_WORLD_COORDINATES THEN F64(v) ELSE F32(v), [f |-> v])
\* a record of fields, in order: s is a sequence of <<field name, atom>>
RECURSIVE RecV(_)
RecV(s) == IF s = <<>> THEN <<>> ELSE (Head(s)[1] :> Head(s)[2].view) @@ RecV(Tail(s))
Rec(s) == TV(Map(LAMBDA j : s[j][2].toks, Len(s)), RecV(s))
VRec(t, s) == LET r == Rec(s) IN V(t, r.toks, r.view)

VecA(c, x) == Rec(<< <<"x", RealA(c, Sub(x, 1))>>, <<"y", RealA(c, Sub(x, 2))>>, <<"z", RealA(c, Sub(x, 3))>> >>)
Vec2A(c, x) == Rec(<< <<"x", RealA(c, Sub(x, 1))>>, <<"y", RealA(c, Sub(x, 2))>> >>)
Vec4A(c, x) == Rec(<< <<"x", RealA(c, Sub(x, 1))>>, <<"y", RealA(c, Sub(x, 2))>>, <<"z", RealA(c, Sub(x, 3))>>, <<"w", RealA(c, Sub(x, 4))>> >>)
ValueOf(a) == TV(a.toks, [value |-> a.view])
\* stored as one little-endian word 0xAARRGGBB
ColorA(x) == LET b == RawOf(x, 4) IN TV(Raw(b), [b |-> b[1], g |-> b[2], r |-> b[3], a |-> b[4]])
SoftPathA(c, x) == LET p == NmA(Sub(x, 1)) a == NmA(Sub(x, 2)) s == StrA(Sub(x, 3)) new == c.o5 >= U5_FSOFTOBJECTPATH_REMOVE_FNAMES IN
    TV(When(new, p.toks) \o a.toks \o s.toks,
       [asset_path |-> [package_name |-> IF new THEN p.view ELSE NoneV, asset_name |-> a.view], sub_path_string |-> s.view])
SoftOldNew(c, x) == IF c.o < ADDED_SOFT_OBJECT_PATH THEN LET s == StrA(x) IN TV(s.toks, [variant |-> "Old", of |-> s.view])
                    ELSE LET s == SoftPathA(c, x) IN TV(s.toks, [variant |-> "New", of |-> s.view])
DelegateA(x) == LET o == IdxA(Sub(x, 1)) d == NmA(Sub(x, 2)) IN TV(o.toks \o d.toks, [object |-> o.view, delegate |-> d.view])
Counted(x, max, F(_)) == LET s == List(x, max, F) IN TV(Cnt(s), Views(s))
Members(c, x, max, F(_)) == LET s == Lst(c, List(x, max, F)) IN TV(Cnt(s), Views(s))
InterpN == <<"Linear", "Constant", "Cubic", "None">>
TangentN == <<"Auto", "User", "Break", "None">>
WeightN == <<"WeightedNone", "WeightedArrive", "WeightedLeave", "WeightedBoth">>
BoundN == <<"Exclusive", "Inclusive", "Open", "MAX">>
ExtrapN == <<"Cycle", "CycleWithOffset", "Oscillate", "Linear", "Constant", "None", "MAX">>
ExprA(x) == LET e == RawOf(Sub(x, 3), 20) IN
    LET r == Rec(<< <<"output_index", I32A(Sub(x, 1))>>, <<"input_name", NmA(Sub(x, 2))>>, <<"extras", TV(Raw(e), e)>>, <<"expression_name", NmA(Sub(x, 4))>> >>) IN r
SamplerF(x) == << <<"prob", Counted(Sub(x, 1), 3, F32A)>>, <<"alias", Counted(Sub(x, 2), 3, I32A)>>, <<"total_weight", F32A(Sub(x, 3))>> >>
BoundA(x) == Rec(<< <<"ty", EnumA(Sub(x, 1), I8, BoundN)>>, <<"value", I32A(Sub(x, 2))>> >>)
RangeF(x) == << <<"lower_bound", BoundA(Sub(x, 1))>>, <<"upper_bound", BoundA(Sub(x, 2))>> >>
RangeA(x) == Rec(RangeF(x))
FloatValueA(x) == LET tan == Rec(<< <<"arrive_tangent", F32A(Sub(x, 2))>>, <<"leave_tangent", F32A(Sub(x, 3))>>, <<"arrive_tangent_weight", F32A(Sub(x, 4))>>,
                                    <<"leave_tangent_weight", F32A(Sub(x, 5))>>, <<"tangent_weight_mode", EnumA(Sub(x, 6), I8, WeightN)>> >>)
                  IN Rec(<< <<"value", F32A(Sub(x, 1))>>, <<"tangent", tan>>, <<"interp_mode", EnumA(Sub(x, 7), I8, InterpN)>>, <<"tangent_mode", EnumA(Sub(x, 8), I8, TangentN)>> >>)
NodeA(x) == Rec(<< <<"range", RangeA(Sub(x, 1))>>, <<"parent", Rec(<< <<"children_handle", I32A(Sub(x, 2))>>, <<"index", I32A(Sub(x, 3))>> >>)>>,
                   <<"children_id", I32A(Sub(x, 4))>>, <<"data_id", I32A(Sub(x, 5))>> >>)
ContainerA(x, F(_)) == Rec(<< <<"entries", Counted(Sub(x, 1), 3, LAMBDA y : Rec(<< <<"start_index", I32A(Sub(y, 1))>>, <<"size", I32A(Sub(y, 2))>>, <<"capacity", I32A(Sub(y, 3))>> >>))>>,
                             <<"items", Counted(Sub(x, 2), 3, F)>> >>)
TreeA(x, F(_)) == Rec(<< <<"root_node", NodeA(Sub(x, 1))>>, <<"child_nodes", ContainerA(Sub(x, 2), NodeA)>>, <<"data", ContainerA(Sub(x, 3), F)>> >>)
MeshVertA(c, x) == LET p == ValueOf(Vec4A(c, Sub(x, 1))) n == ValueOf(Vec4A(c, Sub(x, 2))) t == ValueOf(Vec4A(c, Sub(x, 3)))
                       ix == [j \in 1..4 |-> Pick(Sub(x, 10 + j), <<0, 1, 65535, 300>>)] w == F32A(Sub(x, 5)) IN
    TV(p.toks \o n.toks \o t.toks \o Map(LAMBDA j : U16(ix[j]), 4) \o w.toks \o U32(0),
       [position_bary_coords_and_dist |-> p.view, normal_bary_coords_and_dist |-> n.view, tangent_bary_coords_and_dist |-> t.view, source_mesh_vert_indices |-> ix, weight |-> w.view])

\* natively serialised structs that are so under versions c
Native == <<"SkeletalMeshSamplingLODBuiltData", "SkeletalMeshAreaWeightedTriangleSampler", "SmartName", "SoftObjectPath", "WeightedRandomSampler", "SoftClassPath", "StringAssetReference",
  "Color", "ExpressionInput", "MaterialAttributesInput", "ColorMaterialInput", "ScalarMaterialInput", "ShadingModelMaterialInput", "VectorMaterialInput", "Vector2MaterialInput",
  "GameplayTagContainer", "PerPlatformBool", "PerPlatformInt", "RichCurveKey", "SoftAssetPath", "Timespan", "DateTime", "Guid", "IntPoint", "LinearColor", "Quat", "Rotator", "Vector2D", "Box",
  "PerPlatformFloat", "Vector4", "Vector", "ViewTargetBlendParams", "FontCharacter", "UniqueNetIdRepl", "NiagaraVariable", "NiagaraVariableWithOffset", "FontData", "ClothLODData", "FloatRange",
  "MovieSceneEvalTemplatePtr", "MovieSceneTrackImplementationPtr", "MovieSceneEvaluationFieldEntityTree", "MovieSceneSubSequenceTree", "MovieSceneSequenceInstanceDataPtr", "SectionEvaluationDataTree",
  "MovieSceneTrackFieldData", "MovieSceneEventParameters", "MovieSceneFloatChannel", "MovieSceneFloatValue", "MovieSceneFrameRange", "MovieSceneSegment", "MovieSceneSegmentIdentifier",
  "MovieSceneTrackIdentifier", "MovieSceneSequenceId", "MovieSceneEvaluationKey">>
IsNative(s, c) == CASE s = "RichCurveKey" -> c.o >= SERIALIZE_RICH_CURVE_KEY
                    [] s = "MovieSceneTrackIdentifier" -> c.cv["FEditorObjectVersion"] >= 19
                    [] s = "FontData" -> c.cv["FEditorObjectVersion"] >= 9
                    [] s = "MovieSceneFloatChannel" -> c.cv["FSequencerObjectVersion"] >= 12 \/ c.cv["FFortniteMainBranchObjectVersion"] >= 53
                    [] OTHER -> \E j \in DOMAIN Native : Native[j] = s
PlainStructs == <<"MyStruct", "Transform", "Plane", "Box2D", "Generic">>
Prims == <<"BoolProperty", "Int8Property", "Int16Property", "IntProperty", "Int64Property", "UInt16Property", "UInt32Property", "UInt64Property", "FloatProperty", "DoubleProperty",
  "EnumProperty", "NameProperty", "StrProperty", "TextProperty", "ObjectProperty", "AssetObjectProperty", "SoftObjectProperty", "DelegateProperty", "MulticastDelegateProperty",
  "MulticastSparseDelegateProperty", "MulticastInlineDelegateProperty">>
Containers == <<"StructProperty", "StructProperty", "StructProperty", "ArrayProperty", "ArrayProperty", "SetProperty", "MapProperty">>
U64s == <<0, 1, "18446744073709551615", "9223372036854775808", 77>>
I64s == <<0, -1, "9223372036854775807", "-9223372036854775808", 77, "4294967296">>
EnumVal(x) == Pick(x, << <<"EKind::A", 0>>, <<"EKind::B", 0>>, <<"EKind::Gr{00fc}n", 0>>, <<"NewEnumerator", 3>> >>)
Text16(c, x) ==
  LET fl == Pick(Sub(x, 1), <<0, 1, 2, 8, "4294967295">>) cu == StrA(Sub(x, 2)) ns == StrA(Sub(x, 3)) va == StrA(Sub(x, 4)) tb == NmA(Sub(x, 5)) fc == FullText(Sub(x, 6))
      key == c.cv["FEditorObjectVersion"] >= 32
      h == Nat2(Sub(x, 7), 3) IN
  IF c.o < FTEXT_HISTORY THEN TV(cu.toks \o ns.toks \o va.toks \o U32(fl), [culture_invariant_string |-> cu.view, namespace |-> ns.view, value |-> va.view, flags |-> fl, table_id |-> NoneV])
  ELSE IF h = 0 THEN LET has == key /\ B(x, 8) IN
       TV(U32(fl) \o I8(-1) \o When(key, Bool32(has)) \o When(has, Str(fc)),
          [history_type |-> "None", flags |-> fl, culture_invariant_string |-> IF has THEN fc ELSE NoneV, namespace |-> NoneV, value |-> NoneV, table_id |-> NoneV])
  ELSE IF h = 1 THEN TV(U32(fl) \o I8(0) \o ns.toks \o va.toks \o cu.toks,
          [history_type |-> "Base", flags |-> fl, culture_invariant_string |-> cu.view, namespace |-> ns.view, value |-> va.view, table_id |-> NoneV])
  ELSE TV(U32(fl) \o I8(11) \o tb.toks \o va.toks, [history_type |-> "StringTableEntry", flags |-> fl, culture_invariant_string |-> NoneV, namespace |-> NoneV, value |-> va.view, table_id |-> tb.view])

A1(t, a) == V(t, a.toks, [value |-> a.view])
NumV(t, W(_), v) == V(t, W(v), [value |-> v])
Prim(ty, x, c, h) ==
  CASE ty = "BoolProperty" -> LET v == B(x, 1) tk == U8(IF v THEN 1 ELSE 0) IN [hd |-> When(h, tk), pay |-> When(~h, tk), t |-> ty, f |-> [value |-> v]]
    [] ty = "Int8Property" -> NumV(ty, I8, Pick(x, <<0, 1, -1, 127, -128>>))
    [] ty = "Int16Property" -> NumV(ty, LAMBDA v : U16(IF v < 0 THEN v + 65536 ELSE v), Pick(x, <<0, 1, -1, 32767, -32768, 256>>))
    [] ty = "IntProperty" -> NumV(ty, I32, Num(x))
    [] ty = "Int64Property" -> NumV(ty, I64, Pick(x, I64s))
    [] ty = "UInt16Property" -> NumV(ty, U16, Pick(x, <<0, 1, 65535, 256>>))
    [] ty = "UInt32Property" -> NumV(ty, U32, Pick(x, <<0, 1, "4294967295", 65536>>))
    [] ty = "UInt64Property" -> NumV(ty, U64, Pick(x, U64s))
    [] ty = "FloatProperty" -> V(ty, F32(Fl(x)), [value |-> [f |-> Fl(x)]])
    [] ty = "DoubleProperty" -> V(ty, F64(Fl(x)), [value |-> [f |-> Fl(x)]])
    [] ty = "ByteProperty" -> LET e == NmA(Sub(x, 1)) n == NmA(Sub(x, 2)) b == Nat2(Sub(x, 3), 256) nm == B(x, 4) IN
         [hd |-> When(h, e.toks), pay |-> IF nm THEN n.toks ELSE U8(b), t |-> ty,
          f |-> [enum_type |-> IF h THEN e.view ELSE NoneV, value |-> IF nm THEN [variant |-> "FName", of |-> n.view] ELSE [variant |-> "Byte", of |-> b]]]
    [] ty = "EnumProperty" -> LET e == NmA(Sub(x, 1)) v == EnumVal(Sub(x, 2)) IN
         [hd |-> When(h, e.toks), pay |-> NmN(v[1], v[2]), t |-> ty, f |-> [enum_type |-> IF h THEN e.view ELSE NoneV, value |-> NmV(v)]]
    [] ty = "NameProperty" -> A1(ty, NmA(x))
    [] ty = "StrProperty" -> A1(ty, StrA(x))
    [] ty = "TextProperty" -> LET a == Text16(c, x) IN V(ty, a.toks, a.view)
    [] ty = "ObjectProperty" -> A1(ty, IdxA(x))
    [] ty = "AssetObjectProperty" -> A1(ty, StrA(x))
    [] ty = "SoftObjectProperty" -> A1(ty, SoftPathA(c, x))
    [] ty = "DelegateProperty" -> A1(ty, DelegateA(x))
    [] OTHER -> A1(ty, Counted(x, 3, DelegateA))            \* the multicast delegates

RECURSIVE Tagged(_, _, _, _), NativeV(_, _, _, _, _), StructBody(_, _, _, _, _, _), Props0(_, _, _, _, _), Props(_, _, _, _, _)
\* the closing name after a property list
Close(s) == TV(CatT(s) \o Nm("None"), Views(s))
Props0(x, c, id, dp, max) == LET n == Nat2(Sub(x, 500), max + 1) IN [j \in 1..n |-> Tagged(Sub(x, 500 + j), c, id \o "." \o S(j), dp)]
Props(x, c, id, dp, max) == Lst(c, Props0(x, c, id, dp, max))
NativeV(s, x, c, id, name) ==
  CASE s \in {"Vector"} -> A1("VectorProperty", VecA(c, x))
    [] s = "Rotator" -> A1("RotatorProperty", VecA(c, x))
    [] s = "Vector4" -> A1("Vector4Property", Vec4A(c, x))
    [] s = "Quat" -> A1("QuatProperty", Vec4A(c, x))
    [] s = "Vector2D" -> A1("Vector2DProperty", Vec2A(c, x))
    [] s = "IntPoint" -> A1("IntPointProperty", Rec(<< <<"x", I32A(Sub(x, 1))>>, <<"y", I32A(Sub(x, 2))>> >>))
    [] s = "Box" -> VRec("BoxProperty", << <<"v1", ValueOf(VecA(c, Sub(x, 1)))>>, <<"v2", ValueOf(VecA(c, Sub(x, 2)))>>, <<"is_valid", BoolA(Sub(x, 3))>> >>)
    [] s = "Color" -> VRec("ColorProperty", << <<"color", ColorA(x)>> >>)
    [] s = "LinearColor" -> VRec("LinearColorProperty", << <<"color", Rec(<< <<"r", F32A(Sub(x, 1))>>, <<"g", F32A(Sub(x, 2))>>, <<"b", F32A(Sub(x, 3))>>, <<"a", F32A(Sub(x, 4))>> >>)>> >>)
    [] s \in {"Timespan", "DateTime"} -> LET v == Pick(x, I64s) IN VRec(IF s = "DateTime" THEN "DateTimeProperty" ELSE "TimeSpanProperty", << <<"ticks", TV(I64(v), v)>> >>)
    [] s = "Guid" -> LET g == Nat2(x, 4) IN A1("GuidProperty", TV(GuidT(g), [guid |-> g]))
    [] s = "FloatRange" -> VRec("FloatRangeProperty", << <<"lower_bound", F32A(Sub(x, 1))>>, <<"upper_bound", F32A(Sub(x, 2))>> >>)
    [] s = "GameplayTagContainer" -> A1("GameplayTagContainerProperty", Counted(x, 3, NmA))
    [] s = "SmartName" -> LET d == NmA(Sub(x, 1)) u == Pick(Sub(x, 2), <<0, 1, 65535>>) g == Nat2(Sub(x, 3), 4) cv == c.cv["FAnimPhysObjectVersion"] IN
         V("SmartNameProperty", d.toks \o When(cv < 5, U16(u)) \o When(cv < 10, GuidT(g)),
           [display_name |-> d.view, smart_name_id |-> IF cv < 5 THEN u ELSE NoneV, temp_guid |-> IF cv < 10 THEN [guid |-> g] ELSE NoneV])
    [] s = "RichCurveKey" -> VRec("RichCurveKeyProperty", << <<"interp_mode", EnumA(Sub(x, 1), I8, InterpN)>>, <<"tangent_mode", EnumA(Sub(x, 2), I8, TangentN)>>, <<"tangent_weight_mode", EnumA(Sub(x, 3), I8, WeightN)>>,
         <<"time", F32A(Sub(x, 4))>>, <<"value", F32A(Sub(x, 5))>>, <<"arrive_tangent", F32A(Sub(x, 6))>>, <<"arrive_tangent_weight", F32A(Sub(x, 7))>>, <<"leave_tangent", F32A(Sub(x, 8))>>, <<"leave_tangent_weight", F32A(Sub(x, 9))>> >>)
    [] s = "SoftObjectPath" -> A1("SoftObjectPathProperty", SoftOldNew(c, x))
    [] s = "SoftClassPath" -> A1("SoftClassPathProperty", SoftOldNew(c, x))
    [] s = "SoftAssetPath" -> A1("SoftAssetPathProperty", SoftOldNew(c, x))
    [] s = "StringAssetReference" -> A1("StringAssetReferenceProperty", SoftOldNew(c, x))
    [] s = "PerPlatformBool" -> A1("PerPlatformBoolProperty", Counted(x, 3, BoolA))
    [] s = "PerPlatformInt" -> A1("PerPlatformIntProperty", Counted(x, 3, I32A))
    [] s = "PerPlatformFloat" -> A1("PerPlatformFloatProperty", Counted(x, 3, F32A))
    [] s = "ExpressionInput" -> VRec("ExpressionInputProperty", << <<"material_expression", ExprA(x)>> >>)
    [] s = "MaterialAttributesInput" -> VRec("MaterialAttributesInputProperty", << <<"material_expression", ExprA(x)>> >>)
    [] s \in {"ColorMaterialInput", "ScalarMaterialInput", "ShadingModelMaterialInput", "VectorMaterialInput", "Vector2MaterialInput"} ->
         LET ex == ExprA(Sub(x, 1)) y == Sub(x, 3)
             v == CASE s = "ColorMaterialInput" -> LET k == ColorA(y) IN TV(k.toks, [color |-> k.view])
                    [] s = "ScalarMaterialInput" -> F32A(y) [] s = "ShadingModelMaterialInput" -> U32A(y)
                    [] s = "VectorMaterialInput" -> ValueOf(VecA(c, y)) [] OTHER -> ValueOf(Vec2A(c, y)) IN
         V(s \o "Property", ex.toks \o Bool32(B(x, 2)) \o v.toks, [material_expression |-> ex.view, use_constant |-> IF B(x, 2) THEN 1 ELSE 0, value |-> v.view])
    [] s = "WeightedRandomSampler" -> VRec("WeightedRandomSamplerProperty", SamplerF(x))
    [] s = "SkeletalMeshAreaWeightedTriangleSampler" -> VRec("SkeletalMeshAreaWeightedTriangleSampler", SamplerF(x))
    [] s = "SkeletalMeshSamplingLODBuiltData" -> VRec("SkeletalMeshSamplingLODBuiltDataProperty", << <<"sampler_property", Rec(SamplerF(x))>> >>)
    [] s = "ClothLODData" -> LET p == Close(Props(Sub(x, 1), c, id, 0, 2)) IN
         VRec("ClothLodDataProperty", << <<"struct_property", TV(p.toks, [value |-> p.view])>>, <<"transition_up_skin_data", Counted(Sub(x, 2), 2, LAMBDA y : MeshVertA(c, y))>>, <<"transition_down_skin_data", Counted(Sub(x, 3), 2, LAMBDA y : MeshVertA(c, y))>> >>)
    [] s = "FontCharacter" -> LET b == Nat2(Sub(x, 5), 256) IN A1("FontCharacterProperty", Rec(<< <<"start_u", I32A(Sub(x, 1))>>, <<"start_v", I32A(Sub(x, 2))>>, <<"size_u", I32A(Sub(x, 3))>>, <<"size_v", I32A(Sub(x, 4))>>,
         <<"texture_index", TV(U8(b), b)>>, <<"vertical_offset", I32A(Sub(x, 6))>> >>))
    [] s = "FontData" -> IF B(x, 1) THEN A1("FontDataProperty", TV(I32(0), [is_cooked |-> FALSE]))
         ELSE LET ix == IF B(x, 2) THEN TV(I32(0), Idx(0)) ELSE TV(I32(-3), Idx(-3)) zero == B(x, 2) fn == StrA(Sub(x, 3)) hi == EnumA(Sub(x, 4), U8, <<"Default", "Auto", "AutoLight", "Monochrome", "None">>)
                  po == EnumA(Sub(x, 5), U8, <<"LazyLoad", "Stream", "Inline">>) sf == I32A(Sub(x, 6)) IN
              A1("FontDataProperty", TV(I32(1) \o ix.toks \o When(zero, fn.toks \o hi.toks \o po.toks) \o sf.toks,
                 [is_cooked |-> TRUE, local_font_face_asset |-> ix.view, sub_face_index |-> sf.view] @@ IF zero THEN [font_filename |-> fn.view, hinting |-> hi.view, loading_policy |-> po.view] ELSE <<>>))
    [] s = "UniqueNetIdRepl" -> IF B(x, 1) THEN A1("UniqueNetIdProperty", TV(I32(0), NoneV))
         ELSE LET ty == NmA(Sub(x, 2)) co == StrA(Sub(x, 3)) IN
              A1("UniqueNetIdProperty", TV(Lbl("us" \o id) \o Pos(4, "ue" \o id, "us" \o id) \o ty.toks \o co.toks \o Lbl("ue" \o id), [ty |-> ty.view, contents |-> co.view]))
    [] s \in {"NiagaraVariable", "NiagaraVariableWithOffset"} ->
         LET vn == NmA(Sub(x, 1)) p == Close(Props(Sub(x, 2), c, id, 0, 2)) of == I32A(Sub(x, 3))
             f == [variable_name |-> vn.view, struct_property |-> [value |-> p.view], variable_offset |-> of.view] IN
         V(s \o "Property", vn.toks \o p.toks \o of.toks, IF s = "NiagaraVariable" THEN f ELSE [niagara_variable |-> f])
    [] s = "ViewTargetBlendParams" -> VRec("ViewTargetBlendParamsProperty", << <<"blend_time", F32A(Sub(x, 1))>>,
         <<"blend_function", EnumA(Sub(x, 2), U8, <<"VtBlendLinear", "VtBlendCubic", "VtBlendEaseIn", "VtBlendEaseOut", "VtBlendEaseInOut", "VtBlendMax">>)>>, <<"blend_exp", F32A(Sub(x, 3))>>, <<"lock_outgoing", Bool4A(Sub(x, 4))>> >>)
    [] s \in {"MovieSceneEvalTemplatePtr", "MovieSceneTrackImplementationPtr"} ->
         IF Flip(Sub(x, 1), 3) THEN V(s \o "Property", NoStr, [value |-> <<>>])
         ELSE LET tn == Text(Sub(x, 2)) p == Close(Props(Sub(x, 3), c, id, 0, 2)) IN
              V(s \o "Property", Str(tn) \o p.toks, [value |-> << [t |-> "StrProperty", name |-> [nm |-> "TypeName", n |-> 0], value |-> tn] >> \o p.view])
    [] s = "MovieSceneEvaluationFieldEntityTree" -> A1("MovieSceneEvaluationFieldEntityTreeProperty", Rec(<< <<"serialized_data", TreeA(x, LAMBDA y : Rec(<< <<"entity_index", I32A(Sub(y, 1))>>, <<"meta_data_index", I32A(Sub(y, 2))>> >>))>> >>))
    [] s = "MovieSceneSubSequenceTree" -> A1("MovieSceneSubSequenceTreeProperty", Rec(<< <<"data", TreeA(x, LAMBDA y : Rec(<< <<"sequence_id", U32A(Sub(y, 1))>>, <<"flags", EnumA(Sub(y, 2), U8, <<"None", "PreRoll", "PostRoll", "ESectionEvaluationFlags_MAX">>)>> >>))>> >>))
    [] s = "MovieSceneTrackFieldData" -> A1("MovieSceneTrackFieldDataProperty", Rec(<< <<"field", TreeA(x, U32A)>> >>))
    [] s = "SectionEvaluationDataTree" -> A1("SectionEvaluationDataTreeProperty", Rec(<< <<"tree", TreeA(x, LAMBDA y : Close(Props(y, c, id \o "q" \o S(y), 0, 2)))>> >>))
    [] s = "MovieSceneSequenceInstanceDataPtr" -> A1("MovieSceneSequenceInstanceDataPtrProperty", IdxA(x))
    [] s = "MovieSceneEventParameters" -> LET p == SoftPathA(c, Sub(x, 1)) b == RawOf(Sub(x, 2), Nat2(Sub(x, 3), 9)) IN
         A1("MovieSceneEventParametersProperty", TV(p.toks \o Num0(Len(b)) \o Raw(b), [struct_type |-> p.view, struct_bytes |-> b]))
    [] s = "MovieSceneFloatChannel" -> LET nd == Rec(<< <<"numerator", I32A(Sub(x, 8))>>, <<"denominator", I32A(Sub(x, 9))>> >>) IN
         A1("MovieSceneFloatChannelProperty", Rec(<< <<"pre_infinity_extrap", EnumA(Sub(x, 1), U8, ExtrapN)>>, <<"post_infinity_extrap", EnumA(Sub(x, 2), U8, ExtrapN)>>,
           <<"times_struct_length", I32A(Sub(x, 3))>>, <<"times", Counted(Sub(x, 4), 3, I32A)>>, <<"values_struct_length", I32A(Sub(x, 5))>>, <<"values", Counted(Sub(x, 6), 3, FloatValueA)>>,
           <<"default_value", F32A(Sub(x, 7))>>, <<"has_default_value", Bool4A(Sub(x, 10))>>, <<"tick_resolution", nd>> >>))
    [] s = "MovieSceneFloatValue" -> A1("MovieSceneFloatValueProperty", FloatValueA(x))
    [] s = "MovieSceneFrameRange" -> VRec("MovieSceneFrameRangeProperty", RangeF(x))
    [] s = "MovieSceneSegment" -> A1("MovieSceneSegmentProperty", Rec(<< <<"range", RangeA(Sub(x, 1))>>, <<"id", I32A(Sub(x, 2))>>, <<"allow_empty", Bool4A(Sub(x, 3))>>,
         <<"impls", Counted(Sub(x, 4), 2, LAMBDA y : Close(Props(y, c, id \o "q" \o S(y), 0, 2)))>> >>))
    [] s = "MovieSceneSegmentIdentifier" -> A1("MovieSceneSegmentIdentifierProperty", I32A(x))
    [] s = "MovieSceneTrackIdentifier" -> A1("MovieSceneTrackIdentifierProperty", U32A(x))
    [] s = "MovieSceneSequenceId" -> A1("MovieSceneSequenceIdProperty", U32A(x))
    [] s = "MovieSceneEvaluationKey" -> A1("MovieSceneEvaluationKeyProperty", Rec(<< <<"sequence_id", U32A(Sub(x, 1))>>, <<"track_identifier", U32A(Sub(x, 2))>>, <<"section_index", U32A(Sub(x, 3))>> >>))

\* contents of a struct of type s: one native value, or a property list and the closing name
StructBody(s, x, c, id, dp, name) ==
  IF s = "FloatRange" /\ B(x, 77)
  THEN LET y == Sub(x, 1) IN     \* a float range may also be stored as a property list
       Close(<< TV(Nm("LowerBound") \o Nm("FloatProperty") \o I32(4) \o I32(0) \o When(c.o >= PROPERTY_GUID_IN_PROPERTY_TAG, U8(0)) \o F32(Fl(y)),
          [t |-> "FloatProperty", name |-> [nm |-> "LowerBound", n |-> 0], value |-> [f |-> Fl(y)]]) >>)
  ELSE IF IsNative(s, c) THEN LET v == NativeV(s, x, Kept(c), id, name) IN TV(v.pay, << View1(v) >>)
  ELSE Close(Props(x, c, id, dp, 2))
StructName(x) == Pick(x, Native \o PlainStructs \o PlainStructs \o PlainStructs)
StructView(s, b) == [t |-> "StructProperty", struct_type |-> [nm |-> s, n |-> 0], value |-> b.view]
\* elements of arrays, sets and maps carry no tag
Elem(ty, x, c, id, dp, s) == IF ty = "StructProperty" THEN LET b == StructBody(s, x, c, id, dp, "") IN TV(b.toks, StructView(s, b))
                             ELSE LET v == Prim(ty, x, c, FALSE) IN TV(v.pay, View1(v))
ByteElem(x, nm) == IF nm THEN LET n == NmA(x) IN TV(n.toks, [t |-> "ByteProperty", value |-> [variant |-> "FName", of |-> n.view]])
                   ELSE LET b == Nat2(x, 256) IN TV(U8(b), [t |-> "ByteProperty", value |-> [variant |-> "Byte", of |-> b]])
Elems(x, n, ty, c, id, dp, s) == LET nm == B(x, 88) IN [j \in 1..n |-> IF ty = "ByteProperty" THEN ByteElem(Sub(x, j), nm) ELSE Elem(ty, Sub(x, j), c, id \o "." \o S(j), dp, s)]
ElemTy(x, dp) == IF dp > 0 /\ Flip(Sub(x, 1), 3) THEN "StructProperty" ELSE Pick(Sub(x, 2), Prims \o <<"ByteProperty", "ByteProperty">>)

\* old arrays of structs do not name the struct: a property called Keys holds curve keys, any other a property list
ArrayV(x, c, id, dp, name, ty, s) ==
  LET n == Pick(Sub(x, 3), <<0, 0, 1, 2, 3, 7>>)
      es == Lst(c, Elems(Sub(x, 4), n, ty, c, id, dp - 1, s))
      tag == c.o >= INNER_ARRAY_TAG_INFO
      g == Nat2(Sub(x, 6), 4)
      inner == NmOf(Sub(x, 7)) IN
  IF ty # "StructProperty" THEN [hd |-> Nm(ty), pay |-> Cnt(es), t |-> "ArrayProperty", f |-> [array_type |-> [nm |-> ty, n |-> 0], value |-> Views(es)]]
  ELSE [hd |-> Nm(ty), t |-> "ArrayProperty",
        pay |-> Num0(Len(es)) \o When(tag, NmN(inner[1], inner[2]) \o Nm("StructProperty") \o Pos(8, "ae" \o id, "as" \o id) \o Nm(s) \o GuidT(g) \o When(c.o >= PROPERTY_GUID_IN_PROPERTY_TAG, U8(0)) \o Lbl("as" \o id))
                \o CatT(es) \o When(tag, Lbl("ae" \o id)),
        f |-> [array_type |-> [nm |-> ty, n |-> 0],
               value |-> [j \in DOMAIN es |-> es[j].view @@ IF tag THEN [name |-> NmV(inner), struct_guid |-> [guid |-> g]] ELSE <<>>]]]
SetV(x, c, id, dp, ty) ==
  LET rm == IF ty = "ByteProperty" THEN <<>> ELSE Lst(c, Elems(Sub(x, 4), Pick(Sub(x, 3), <<0, 0, 1, 2>>), ty, c, id \o ".r", dp - 1, "Generic"))
      es == Lst(c, Elems(Sub(x, 6), Pick(Sub(x, 5), <<0, 1, 2, 3>>), ty, c, id, dp - 1, "Generic")) IN
  [hd |-> Nm(ty), pay |-> Cnt(rm) \o Cnt(es), t |-> "SetProperty",
   f |-> [array_type |-> [nm |-> ty, n |-> 0], value |-> [value |-> Views(es)], removed_items |-> [value |-> Views(rm)]]]
\* maps whose struct types are known by property name: <<name, key struct, value struct>>
MapNames == << <<"PlayerCharacterIDs", "Guid", "Generic">>, <<"BindingIdToReferences", "Guid", "Generic">>, <<"ColorDatabase", "Generic", "LinearColor">>, <<"UserParameterRedirects", "NiagaraVariable", "NiagaraVariable">>,
  <<"RainChanceMinMaxPerWeatherState", "Generic", "FloatRange">>, <<"TrackSignatureToTrackIdentifier", "Guid", "MovieSceneTrackIdentifier">>, <<"Tracks", "MovieSceneTrackIdentifier", "Generic">>,
  <<"m_PerConditionValueToNodeMap", "Guid", "Generic">>, <<"ItemsToRefund", "Guid", "Generic">>, <<"PlayerCharacterIDMap", "Guid", "Generic">>, <<"SubSequences", "MovieSceneSequenceID", "Generic">>, <<"Hierarchy", "MovieSceneSequenceID", "Generic">> >>
Key(ty, j, c, id, s) ==
  CASE ty = "IntProperty" -> TV(I32(j * 100 - 300), [t |-> ty, value |-> j * 100 - 300])
    [] ty = "Int64Property" -> TV(I64(j), [t |-> ty, value |-> j])
    [] ty = "NameProperty" -> TV(NmN("Key", j), [t |-> ty, value |-> [nm |-> "Key", n |-> j]])
    [] ty = "StrProperty" -> TV(Str("k" \o S(j)), [t |-> ty, value |-> "k" \o S(j)])
    [] ty = "EnumProperty" -> TV(Nm("EKind::V" \o S(j)), [t |-> ty, value |-> [nm |-> "EKind::V" \o S(j), n |-> 0]])
    [] ty = "ObjectProperty" -> TV(I32(j - 2), [t |-> ty, value |-> Idx(j - 2)])
    [] ty = "StructProperty" /\ s = "Guid" -> TV(GuidT(j), StructView("Guid", [view |-> << [t |-> "GuidProperty", value |-> [guid |-> j]] >>]))
    [] ty = "StructProperty" /\ s = "MovieSceneTrackIdentifier" /\ IsNative(s, c) -> TV(U32(j), StructView(s, [view |-> << [t |-> "MovieSceneTrackIdentifierProperty", value |-> j] >>]))
    [] ty = "StructProperty" /\ s = "NiagaraVariable" -> TV(Nm("Var" \o S(j)) \o Nm("None") \o I32(j), StructView(s, [view |-> << [t |-> "NiagaraVariableProperty", variable_name |-> [nm |-> "Var" \o S(j), n |-> 0], variable_offset |-> j] >>]))
    [] OTHER -> TV(Nm("Id") \o Nm("IntProperty") \o I32(4) \o I32(0) \o When(c.o >= PROPERTY_GUID_IN_PROPERTY_TAG, U8(0)) \o I32(j) \o Nm("None"),
                   StructView(s, [view |-> << [t |-> "IntProperty", name |-> [nm |-> "Id", n |-> 0], value |-> j] >>]))
MapV(x, c, id, dp, mn) ==
  LET kt == IF mn[2] # "" /\ B(x, 1) THEN "StructProperty" ELSE Pick(Sub(x, 2), <<"IntProperty", "Int64Property", "NameProperty", "StrProperty", "EnumProperty", "ObjectProperty", "StructProperty">>)
      vt == IF mn[3] # "" /\ B(x, 3) THEN "StructProperty" ELSE ElemTy(Sub(x, 4), dp)
      vty == IF vt = "ByteProperty" THEN "IntProperty" ELSE vt
      rm == Lst(c, [j \in 1..Pick(Sub(x, 5), <<0, 0, 1, 2, 3>>) |-> Key(kt, 10 + j, c, id, mn[2])])
      es == Lst(c, [j \in 1..Pick(Sub(x, 6), <<0, 1, 2, 3, 5>>) |-> [k |-> Key(kt, j, c, id, mn[2]), v |-> Elem(vty, Sub(x, 10 + j), c, id \o "." \o S(j), dp - 1, mn[3])]]) IN
  [hd |-> Nm(kt) \o Nm(vty), pay |-> Cnt(rm) \o Num0(Len(es)) \o Map(LAMBDA j : es[j].k.toks \o es[j].v.toks, Len(es)), t |-> "MapProperty",
   f |-> [key_type |-> [nm |-> kt, n |-> 0], value_type |-> [nm |-> vty, n |-> 0], value |-> [map |-> [j \in DOMAIN es |-> <<es[j].k.view, es[j].v.view>>]],
          keys_to_remove |-> IF rm = <<>> THEN NoneV ELSE Views(rm)]]
StructV(x, c, id, dp, s) ==
  LET g == Nat2(Sub(x, 2), 4)
      empty == dp > 0 /\ Flip(Sub(x, 3), 12)
      b == IF empty THEN TV(<<>>, <<>>) ELSE StructBody(s, Sub(x, 4), c, id, dp - 1, "") IN
  [hd |-> Nm(s) \o When(c.o >= STRUCT_GUID_IN_PROPERTY_TAG, GuidT(g)), pay |-> b.toks, t |-> "StructProperty",
   f |-> [struct_type |-> [nm |-> s, n |-> 0], struct_guid |-> IF c.o >= STRUCT_GUID_IN_PROPERTY_TAG THEN [guid |-> g] ELSE NoneV, value |-> b.view]]
TagOf(x, c, id, ty, name, v) ==
  LET dup == Pick(Sub(x, 10), <<0, 0, 0, 1, 5>>)
      g == Flip(Sub(x, 11), 4)
      gv == Nat2(Sub(x, 12), 4)
      pg == c.o >= PROPERTY_GUID_IN_PROPERTY_TAG IN
  TV(NmN(name[1], name[2]) \o Nm(ty) \o Pos(4, "e" \o id, "s" \o id) \o I32(dup) \o v.hd \o When(pg, IF g THEN U8(1) \o GuidT(gv) ELSE U8(0)) \o Lbl("s" \o id) \o v.pay \o Lbl("e" \o id),
     [t |-> v.t, name |-> NmV(name), duplication_index |-> dup, property_guid |-> IF pg /\ g THEN [guid |-> gv] ELSE NoneV] @@ v.f)
\* one tagged property of type ty; ety: element type of arrays and sets; s: struct type of structs and struct arrays
TagAs(x, c, id, dp, ty, ety, s) ==
  LET old == c.o < INNER_ARRAY_TAG_INFO
      keys == ty = "ArrayProperty" /\ ety = "StructProperty" /\ old /\ B(x, 7)
      mn == IF B(x, 8) THEN Pick(Sub(x, 9), MapNames) ELSE <<"", "Generic", "Generic">>
      name == IF keys THEN <<"Keys", 0>> ELSE IF ty = "MapProperty" /\ mn[1] # "" THEN <<mn[1], 0>> ELSE NmOf(Sub(x, 3))
      bytes == RawOf(Sub(x, 5), Nat2(Sub(x, 4), 9))
      y == Sub(x, 5)
      v == CASE ty \in {"GameProperty", "WeakThing"} -> V("UnknownProperty", Raw(bytes), [serialized_type |-> [nm |-> ty, n |-> 0], value |-> bytes])
             [] ty = "RawStructProperty" -> V(ty, Raw(bytes), [value |-> bytes])
             [] ty = "StructProperty" -> StructV(y, c, id, dp, s)
             [] ty = "ArrayProperty" -> ArrayV(y, c, id, dp, name, ety, IF ~old THEN s ELSE IF keys THEN "RichCurveKey" ELSE "Generic")
             [] ty = "SetProperty" -> SetV(y, c, id, dp, ety)
             [] ty = "MapProperty" -> MapV(y, c, id, dp, mn)
             [] OTHER -> Prim(ty, y, c, TRUE) IN
  TagOf(x, c, id, ty, name, v)
Tagged(x, c, id, dp) ==
  LET r == Nat2(Sub(x, 1), 20) IN
  TagAs(x, c, id, dp,
        IF r = 0 THEN Pick(Sub(x, 2), <<"GameProperty", "WeakThing">>) ELSE IF r = 1 THEN "RawStructProperty" ELSE IF r = 2 THEN "ByteProperty"
            ELSE IF dp > 0 /\ r < 11 THEN Pick(Sub(x, 2), Containers) ELSE Pick(Sub(x, 2), Prims),
        ElemTy(Sub(x, 6), dp), StructName(Sub(x, 13)))
=============================================================================
