------------------------------- MODULE Kismet -------------------------------
(* Blueprint bytecode: encoding, meaning and in-memory size of expressions.     *)
(* An operand is [toks, view, mem]; mem is what the engine's loader allots:     *)
(* pointers 8, script names 12, everything else its own width.                  *)
EXTENDS Props
K(a, m) == [toks |-> a.toks, view |-> a.view, mem |-> m]
RECURSIVE MemOf(_)
MemOf(s) == IF s = <<>> THEN 0 ELSE Head(s)[2].mem + MemOf(Tail(s))
RECURSIVE SumMem(_)
SumMem(s) == IF s = <<>> THEN 0 ELSE Head(s).mem + SumMem(Tail(s))
\* operands: s lists <<field, operand>> in file order
Ex(name, op, s) == LET r == Rec(s) IN [toks |-> U8(op) \o r.toks, view |-> [t |-> name] @@ r.view, mem |-> 1 + MemOf(s)]
Bare(name, op) == Ex(name, op, <<>>)
Ix(x) == K(IdxA(x), 8)                                  \* object reference
Nme(x) == K(NmA(x), 12)
Skip32(x) == K(U32A(x), 4)                              \* code offset
Ptr(x, c) == IF c.o >= ADDED_PACKAGE_OWNER
             THEN LET p == List(Sub(x, 1), 2, NmA) o == IdxA(Sub(x, 2)) IN [toks |-> Cnt(p) \o o.toks, view |-> [old |-> NoneV, new |-> [path |-> Views(p), resolved_owner |-> o.view]], mem |-> 8]
             ELSE LET o == IdxA(x) IN [toks |-> o.toks, view |-> [old |-> o.view, new |-> NoneV], mem |-> 8]
Narrow == << <<"", 0>>, <<"a", 1>>, <<"Hello World", 11>>, <<"x=1;", 4>> >>
Wide == << <<"", 0>>, <<"a", 1>>, <<"{65e5}{672c}", 2>>, <<"Gr{00fc}n", 4>>, <<"{1f600}", 2>> >>
StrN(x) == LET s == Pick(x, Narrow) IN [toks |-> <<[t |-> "cstr", v |-> s[1]]>>, view |-> s[1], mem |-> s[2] + 1]
StrW(x) == LET s == Pick(x, Wide) IN [toks |-> <<[t |-> "cwstr", v |-> s[1]]>>, view |-> s[1], mem |-> 2 * (s[2] + 1)]
VecK(c, x) == LET big == c.o5 >= U5_LARGE_WORLD_COORDINATES IN K(VecA(c, x), IF big THEN 24 ELSE 12)
TransK(c, x) == LET big == c.o5 >= U5_LARGE_WORLD_COORDINATES IN
    K(Rec(<< <<"rotation", Vec4A(c, Sub(x, 1))>>, <<"translation", VecA(c, Sub(x, 2))>>, <<"scale", VecA(c, Sub(x, 3))>> >>), IF big THEN 80 ELSE 40)
Casts(c) == IF c.o5 >= U5_LARGE_WORLD_COORDINATES
            THEN << <<0, "ObjectToInterface">>, <<1, "ObjectToBool">>, <<2, "InterfaceToBool">>, <<3, "DoubleToFloat">>, <<6, "FloatToDouble">>, <<9, "VectorToVector3f">>, <<18, "FloatToDoubleKeysDoubleToFloatValuesMap">>, <<255, "Max">> >>
            ELSE << <<70, "ObjectToInterface">>, <<71, "ObjectToBool">>, <<73, "InterfaceToBool">>, <<255, "Max">> >>
Zeroary == << <<"ExNothing", 11>>, <<"ExEndParmValue", 21>>, <<"ExSelf", 23>>, <<"ExIntZero", 37>>, <<"ExIntOne", 38>>, <<"ExTrue", 39>>, <<"ExFalse", 40>>, <<"ExNoObject", 42>>, <<"ExNoInterface", 45>>,
  <<"ExDeprecatedOp4A", 74>>, <<"ExPopExecutionFlow", 77>>, <<"ExBreakpoint", 80>>, <<"ExEndOfScript", 83>>, <<"ExWireTracepoint", 90>>, <<"ExTracepoint", 94>> >>
Leaves == <<"ExLocalVariable", "ExInstanceVariable", "ExDefaultVariable", "ExLocalOutVariable", "ExClassSparseDataVariable", "ExPropertyConst", "ExJump", "ExPushExecutionFlow", "ExSkipOffsetConst",
  "ExIntConst", "ExInt64Const", "ExUInt64Const", "ExByteConst", "ExIntConstByte", "ExFloatConst", "ExDoubleConst", "ExStringConst", "ExUnicodeStringConst", "ExObjectConst", "ExNameConst",
  "ExRotationConst", "ExVectorConst", "ExTransformConst", "ExInstanceDelegate", "ExInstrumentationEvent">>
Inner == <<"ExReturn", "ExJumpIfNot", "ExAssert", "ExLet", "ExClassContext", "ExContext", "ExContextFailSilent", "ExMetaCast", "ExDynamicCast", "ExLetBool", "ExLetObj", "ExLetWeakObjPtr", "ExLetDelegate", "ExLetMulticastDelegate",
  "ExLetValueOnPersistentFrame", "ExSkip", "ExVirtualFunction", "ExLocalVirtualFunction", "ExFinalFunction", "ExLocalFinalFunction", "ExCallMath", "ExCallMulticastDelegate", "ExTextConst", "ExStructConst", "ExSetArray", "ExSetSet", "ExSetMap",
  "ExArrayConst", "ExSetConst", "ExMapConst", "ExPrimitiveCast", "ExStructMemberContext", "ExComputedJump", "ExPopExecutionFlowIfNot", "ExInterfaceContext", "ExObjToInterfaceCast", "ExCrossInterfaceCast", "ExInterfaceToObjCast",
  "ExAddMulticastDelegate", "ExRemoveMulticastDelegate", "ExClearMulticastDelegate", "ExBindDelegate", "ExSoftObjectConst", "ExFieldPathConst", "ExSwitchValue", "ExArrayGetByRef">>

RECURSIVE E(_, _, _), EAs(_, _, _, _)
\* expressions up to a closing token; n0: their number precedes them (divided by d)
Many(x, c, dp, max, even) == LET n == Nat2(Sub(x, 500), max + 1) m == IF even THEN 2 * n ELSE n IN [j \in 1..m |-> E(Sub(x, 500 + j), c, dp)]
Closed(s, end) == [toks |-> CatT(s) \o U8(end), view |-> Views(s), mem |-> SumMem(s) + 1]
CountOf(n) == [toks |-> I32(n), view |-> [any |-> TRUE], mem |-> 4]
EAs(op, x, c, dp) ==
  LET e(k) == E(Sub(x, k), c, dp - 1)
      args == Closed(Many(Sub(x, 90), c, dp - 1, 2, FALSE), 22)
      Var(n, k) == Ex(op, n, << <<"variable", Ptr(Sub(x, 1), c)>> >>)
      Two(n, a, b) == Ex(op, n, << <<a, e(1)>>, <<b, e(2)>> >>)
      One(n, a) == Ex(op, n, << <<a, e(1)>> >>)
      Cast(n, a) == Ex(op, n, << <<"class_ptr", Ix(Sub(x, 5))>>, <<a, e(1)>> >>)
      Context(n) == Ex(op, n, << <<"object_expression", e(1)>>, <<"offset", Skip32(Sub(x, 5))>>, <<"r_value_pointer", Ptr(Sub(x, 6), c)>>, <<"context_expression", e(2)>> >>)
      Call(n) == Ex(op, n, << <<"stack_node", Ix(Sub(x, 5))>>, <<"parameters", args>> >>)
      Virt(n) == Ex(op, n, << <<"virtual_function_name", Nme(Sub(x, 5))>>, <<"parameters", args>> >>)
      es == Many(Sub(x, 91), c, dp - 1, 2, op \in {"ExSetMap", "ExMapConst"}) IN
  CASE op = "ExLocalVariable" -> Var(0, 1) [] op = "ExInstanceVariable" -> Var(1, 1) [] op = "ExDefaultVariable" -> Var(2, 1) [] op = "ExLocalOutVariable" -> Var(72, 1) [] op = "ExClassSparseDataVariable" -> Var(108, 1)
    [] op = "ExPropertyConst" -> Ex(op, 51, << <<"property", Ptr(Sub(x, 1), c)>> >>)
    [] op = "ExJump" -> Ex(op, 6, << <<"code_offset", Skip32(x)>> >>)
    [] op = "ExPushExecutionFlow" -> Ex(op, 76, << <<"pushing_address", Skip32(x)>> >>)
    [] op = "ExSkipOffsetConst" -> Ex(op, 91, << <<"value", Skip32(x)>> >>)
    [] op = "ExIntConst" -> Ex(op, 29, << <<"value", K(I32A(x), 4)>> >>)
    [] op = "ExInt64Const" -> LET v == Pick(x, I64s) IN Ex(op, 53, << <<"value", K(TV(I64(v), v), 8)>> >>)
    [] op = "ExUInt64Const" -> LET v == Pick(x, U64s) IN Ex(op, 54, << <<"value", K(TV(U64(v), v), 8)>> >>)
    [] op \in {"ExByteConst", "ExIntConstByte"} -> LET v == Nat2(x, 256) IN Ex(op, IF op = "ExByteConst" THEN 36 ELSE 44, << <<"value", K(TV(U8(v), v), 1)>> >>)
    [] op = "ExFloatConst" -> Ex(op, 30, << <<"value", K(F32A(x), 4)>> >>)
    [] op = "ExDoubleConst" -> Ex(op, 55, << <<"value", K(TV(F64(Fl(x)), [f |-> Fl(x)]), 8)>> >>)
    [] op = "ExStringConst" -> Ex(op, 31, << <<"value", StrN(x)>> >>)
    [] op = "ExUnicodeStringConst" -> Ex(op, 52, << <<"value", StrW(x)>> >>)
    [] op = "ExObjectConst" -> Ex(op, 32, << <<"value", Ix(x)>> >>)
    [] op = "ExNameConst" -> Ex(op, 33, << <<"value", Nme(x)>> >>)
    [] op = "ExRotationConst" -> Ex(op, 34, << <<"rotator", VecK(c, x)>> >>)
    [] op = "ExVectorConst" -> Ex(op, 35, << <<"value", VecK(c, x)>> >>)
    [] op = "ExTransformConst" -> Ex(op, 43, << <<"value", TransK(c, x)>> >>)
    [] op = "ExInstanceDelegate" -> Ex(op, 75, << <<"function_name", Nme(x)>> >>)
    [] op = "ExInstrumentationEvent" -> LET v == Pick(x, << <<0, "Class">>, <<3, "Event">>, <<9, "NodeExit">>, <<16, "Stop">> >>) IN Ex(op, 106, << <<"event_type", K(TV(U8(v[1]), v[2]), 1)>>, <<"event_name", K(TV(<<>>, NoneV), 0)>> >>)
    [] op = "ExReturn" -> One(4, "return_expression")
    [] op = "ExJumpIfNot" -> Ex(op, 7, << <<"code_offset", Skip32(Sub(x, 5))>>, <<"boolean_expression", e(1)>> >>)
    [] op = "ExAssert" -> LET l == Pick(Sub(x, 5), <<0, 1, 65535>>) IN Ex(op, 9, << <<"line_number", K(TV(U16(l), l), 2)>>, <<"debug_mode", K(BoolA(Sub(x, 6)), 1)>>, <<"assert_expression", e(1)>> >>)
    [] op = "ExLet" -> Ex(op, 15, << <<"value", Ptr(Sub(x, 5), c)>>, <<"variable", e(1)>>, <<"expression", e(2)>> >>)
    [] op = "ExClassContext" -> Context(18) [] op = "ExContext" -> Context(25) [] op = "ExContextFailSilent" -> Context(26)
    [] op = "ExMetaCast" -> Cast(19, "target_expression") [] op = "ExDynamicCast" -> Cast(46, "target_expression")
    [] op = "ExObjToInterfaceCast" -> Cast(82, "target") [] op = "ExCrossInterfaceCast" -> Cast(84, "target") [] op = "ExInterfaceToObjCast" -> Cast(85, "target")
    [] op = "ExLetBool" -> Two(20, "variable_expression", "assignment_expression") [] op = "ExLetObj" -> Two(95, "variable_expression", "assignment_expression")
    [] op = "ExLetWeakObjPtr" -> Two(96, "variable_expression", "assignment_expression") [] op = "ExLetDelegate" -> Two(68, "variable_expression", "assignment_expression")
    [] op = "ExLetMulticastDelegate" -> Two(67, "variable_expression", "assignment_expression")
    [] op = "ExLetValueOnPersistentFrame" -> Ex(op, 100, << <<"destination_property", Ptr(Sub(x, 5), c)>>, <<"assignment_expression", e(1)>> >>)
    [] op = "ExSkip" -> Ex(op, 24, << <<"code_offset", Skip32(Sub(x, 5))>>, <<"skip_expression", e(1)>> >>)
    [] op = "ExVirtualFunction" -> Virt(27) [] op = "ExLocalVirtualFunction" -> Virt(69)
    [] op = "ExFinalFunction" -> Call(28) [] op = "ExLocalFinalFunction" -> Call(70) [] op = "ExCallMath" -> Call(104)
    [] op = "ExCallMulticastDelegate" -> Ex(op, 99, << <<"stack_node", Ix(Sub(x, 5))>>, <<"delegate", e(1)>>, <<"parameters", args>> >>)
    [] op = "ExStructConst" -> Ex(op, 47, << <<"struct_value", Ix(Sub(x, 5))>>, <<"struct_size", K(I32A(Sub(x, 6)), 4)>>, <<"value", Closed(es, 48)>> >>)
    [] op = "ExSetArray" -> Ex(op, 49, IF c.o >= CHANGE_SETARRAY_BYTECODE THEN << <<"assigning_property", e(1)>>, <<"elements", Closed(es, 50)>> >> ELSE << <<"array_inner_prop", Ix(Sub(x, 5))>>, <<"elements", Closed(es, 50)>> >>)
    [] op = "ExSetSet" -> Ex(op, 57, << <<"set_property", e(1)>>, <<"elements", [Closed(es, 58) EXCEPT !.toks = I32(Len(es)) \o @, !.mem = @ + 4]>> >>)
    [] op = "ExSetMap" -> Ex(op, 59, << <<"map_property", e(1)>>, <<"elements", [Closed(es, 60) EXCEPT !.toks = I32(Len(es) \div 2) \o @, !.mem = @ + 4]>> >>)
    [] op = "ExArrayConst" -> Ex(op, 101, << <<"inner_property", Ptr(Sub(x, 5), c)>>, <<"elements", [Closed(es, 102) EXCEPT !.toks = I32(Len(es)) \o @, !.mem = @ + 4]>> >>)
    [] op = "ExSetConst" -> Ex(op, 61, << <<"inner_property", Ptr(Sub(x, 5), c)>>, <<"elements", [Closed(es, 62) EXCEPT !.toks = I32(Len(es)) \o @, !.mem = @ + 4]>> >>)
    [] op = "ExMapConst" -> Ex(op, 63, << <<"key_property", Ptr(Sub(x, 5), c)>>, <<"value_property", Ptr(Sub(x, 6), c)>>, <<"elements", [Closed(es, 64) EXCEPT !.toks = I32(Len(es) \div 2) \o @, !.mem = @ + 4]>> >>)
    [] op = "ExPrimitiveCast" -> LET v == Pick(Sub(x, 5), Casts(c)) IN Ex(op, 56, << <<"conversion_type", K(TV(U8(v[1]), [variant |-> IF c.o5 >= U5_LARGE_WORLD_COORDINATES THEN "New" ELSE "Old", of |-> v[2]]), 1)>>, <<"target", e(1)>> >>)
    [] op = "ExStructMemberContext" -> Ex(op, 66, << <<"struct_member_expression", Ptr(Sub(x, 5), c)>>, <<"struct_expression", e(1)>> >>)
    [] op = "ExComputedJump" -> One(78, "code_offset_expression") [] op = "ExPopExecutionFlowIfNot" -> One(79, "boolean_expression") [] op = "ExInterfaceContext" -> One(81, "interface_value")
    [] op = "ExClearMulticastDelegate" -> One(93, "delegate_to_clear") [] op = "ExSoftObjectConst" -> One(103, "value") [] op = "ExFieldPathConst" -> One(109, "value")
    [] op = "ExAddMulticastDelegate" -> Two(92, "delegate", "delegate_to_add") [] op = "ExRemoveMulticastDelegate" -> Two(98, "delegate", "delegate_to_add")
    [] op = "ExArrayGetByRef" -> Two(107, "array_variable", "array_index")
    [] op = "ExBindDelegate" -> Ex(op, 97, << <<"function_name", Nme(Sub(x, 5))>>, <<"delegate", e(1)>>, <<"object_term", e(2)>> >>)
    [] op = "ExSwitchValue" ->
         LET n == Nat2(Sub(x, 7), 3)
             cs == [j \in 1..n |-> LET y == Sub(x, 700 + j) s == << <<"case_index_value_term", E(Sub(y, 1), c, dp - 1)>>, <<"next_offset", Skip32(Sub(y, 2))>>, <<"case_term", E(Sub(y, 3), c, dp - 1)>> >>
                                   IN LET r == Rec(s) IN [toks |-> r.toks, view |-> r.view, mem |-> MemOf(s)]] IN
         Ex(op, 105, << <<"cases", [toks |-> U16(n), view |-> Views(cs), mem |-> 2]>>, <<"end_goto_offset", Skip32(Sub(x, 5))>>, <<"index_term", e(1)>>,
                        <<"cases", [toks |-> CatT(cs), view |-> Views(cs), mem |-> SumMem(cs)]>>, <<"default_term", e(2)>> >>)
    [] op = "ExTextConst" ->
         LET ty == Nat2(Sub(x, 7), 5)
             s == CASE ty = 0 -> <<>> [] ty = 1 -> << <<"localized_source", e(1)>>, <<"localized_key", e(2)>>, <<"localized_namespace", e(3)>> >>
                    [] ty = 2 -> << <<"invariant_literal_string", e(1)>> >> [] ty = 3 -> << <<"literal_string", e(1)>> >>
                    [] OTHER -> << <<"string_table_asset", Ix(Sub(x, 5))>>, <<"string_table_id", e(1)>>, <<"string_table_key", e(2)>> >>
             r == Rec(s) IN
         Ex(op, 41, << <<"value", [toks |-> U8(ty) \o r.toks, view |-> [text_literal_type |-> <<"Empty", "LocalizedText", "InvariantText", "LiteralString", "StringTableEntry">>[ty + 1]] @@ r.view, mem |-> 1 + MemOf(s)]>> >>)
    [] OTHER -> LET j == CHOOSE j \in DOMAIN Zeroary : Zeroary[j][1] = op IN Bare(op, Zeroary[j][2])
Names0 == [j \in DOMAIN Zeroary |-> Zeroary[j][1]]
AllOps == Leaves \o Names0 \o Inner
E(x, c, dp) == EAs(IF dp > 0 /\ ~Flip(Sub(x, 2), 3) THEN Pick(Sub(x, 3), Inner) ELSE Pick(Sub(x, 3), Leaves \o Names0), Sub(x, 4), c, dp)
\* a script: in-memory size, stored size, expressions
Script(s, id) == TV(I32(SumMem(s)) \o Pos(4, "ke" \o id, "ks" \o id) \o Lbl("ks" \o id) \o CatT(s) \o Lbl("ke" \o id), Views(s))
=============================================================================
