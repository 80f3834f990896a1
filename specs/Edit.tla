-------------------------------- MODULE Edit --------------------------------
(* Documents that are edited. An editable document is a frame (AssetDoc) whose  *)
(* exports carry a list of property trees instead of finished tokens:           *)
(*   [kind "normal", props: Seq(Tree), tail: bytes] or [kind "raw", data]       *)
(*   Tree = [ty, name <<text, number>>, dup, gd (-1: none), v]                  *)
(* Edits are records applied by Apply; Lay gives the document its tokens back.  *)
EXTENDS Props

\* ---- trees: layout and denotation
PrimA(ty, v) ==
  CASE ty = "IntProperty" -> TV(I32(v), v)
    [] ty = "FloatProperty" -> TV(F32(v), [f |-> v])
    [] ty = "StrProperty" -> TV(OptStr(v), OptV(v))
    [] ty = "NameProperty" -> TV(NmN(v[1], v[2]), NmV(v))
    [] ty = "ObjectProperty" -> TV(I32(v), Idx(v))
    [] OTHER -> TV(U8(IF v THEN 1 ELSE 0), v)            \* BoolProperty
ItemA(ty, v) == LET a == PrimA(ty, v) IN TV(a.toks, [t |-> ty, value |-> a.view])
RECURSIVE TreesT(_, _, _)
TreeV(t, c, id) ==
  CASE t.ty \in {"IntProperty", "FloatProperty", "StrProperty", "NameProperty", "ObjectProperty"} -> A1(t.ty, PrimA(t.ty, t.v))
    [] t.ty = "BoolProperty" -> LET a == PrimA(t.ty, t.v) IN [hd |-> a.toks, pay |-> <<>>, t |-> t.ty, f |-> [value |-> t.v]]
    [] t.ty = "EnumProperty" -> [hd |-> NmN(t.v[1][1], t.v[1][2]), pay |-> NmN(t.v[2][1], t.v[2][2]), t |-> t.ty, f |-> [enum_type |-> NmV(t.v[1]), value |-> NmV(t.v[2])]]
    [] t.ty = "ByteProperty" -> [hd |-> NmN(t.v[1][1], t.v[1][2]), pay |-> U8(t.v[2]), t |-> t.ty, f |-> [enum_type |-> NmV(t.v[1]), value |-> [variant |-> "Byte", of |-> t.v[2]]]]
    [] t.ty = "StructProperty" -> LET p == Close(TreesT(t.v.kids, c, id)) sg == c.o >= STRUCT_GUID_IN_PROPERTY_TAG IN
         [hd |-> Nm(t.v.st) \o When(sg, GuidT(t.v.g)), pay |-> p.toks, t |-> t.ty, f |-> [struct_type |-> [nm |-> t.v.st, n |-> 0], struct_guid |-> IF sg THEN [guid |-> t.v.g] ELSE NoneV, value |-> p.view]]
    [] t.ty = "ArrayProperty" /\ t.v.et # "StructProperty" -> LET es == [j \in DOMAIN t.v.items |-> ItemA(t.v.et, t.v.items[j])] IN
         [hd |-> Nm(t.v.et), pay |-> Cnt(es), t |-> t.ty, f |-> [array_type |-> [nm |-> t.v.et, n |-> 0], value |-> Views(es)]]
    [] t.ty = "ArrayProperty" -> LET tag == c.o >= INNER_ARRAY_TAG_INFO st == IF tag THEN t.v.st ELSE "Generic"
                                     es == [j \in DOMAIN t.v.items |-> LET p == Close(TreesT(t.v.items[j], c, id \o "." \o S(j))) IN TV(p.toks, StructView(st, p))] IN
         [hd |-> Nm(t.v.et), t |-> t.ty,
          pay |-> I32(Len(es)) \o When(tag, NmN(t.name[1], t.name[2]) \o Nm("StructProperty") \o Pos(8, "ae" \o id, "as" \o id) \o Nm(st) \o GuidT(t.v.g) \o When(c.o >= PROPERTY_GUID_IN_PROPERTY_TAG, U8(0)) \o Lbl("as" \o id))
                  \o CatT(es) \o When(tag, Lbl("ae" \o id)),
          f |-> [array_type |-> [nm |-> t.v.et, n |-> 0], value |-> Views(es)]]
    [] t.ty = "MapProperty" -> [hd |-> Nm("NameProperty") \o Nm("IntProperty"), t |-> t.ty, pay |-> I32(0) \o I32(Len(t.v)) \o Map(LAMBDA j : NmN(t.v[j][1], t.v[j][2]) \o I32(t.v[j][3]), Len(t.v)),
         f |-> [key_type |-> [nm |-> "NameProperty", n |-> 0], value_type |-> [nm |-> "IntProperty", n |-> 0],
                value |-> [map |-> [j \in DOMAIN t.v |-> << [t |-> "NameProperty", value |-> [nm |-> t.v[j][1], n |-> t.v[j][2]]], [t |-> "IntProperty", value |-> t.v[j][3]] >>]]]]
\* opaque trees (ty "op") are properties of any type: they can be moved, copied and removed but not looked into
TreeT(t, c, id) ==
  IF t.ty = "op" THEN TagAs(t.v.x, c, id, 1, t.v.ty, t.v.ety, t.v.s)
  ELSE LET v == TreeV(t, c, id) pg == c.o >= PROPERTY_GUID_IN_PROPERTY_TAG g == pg /\ t.gd >= 0 IN
       TV(NmN(t.name[1], t.name[2]) \o Nm(t.ty) \o Pos(4, "e" \o id, "s" \o id) \o I32(t.dup) \o v.hd \o When(pg, IF g THEN U8(1) \o GuidT(t.gd) ELSE U8(0)) \o Lbl("s" \o id) \o v.pay \o Lbl("e" \o id),
          [t |-> v.t, name |-> NmV(t.name), duplication_index |-> t.dup, property_guid |-> IF g THEN [guid |-> t.gd] ELSE NoneV] @@ v.f)
TreesT(ts, c, id) == [j \in DOMAIN ts |-> TreeT(ts[j], c, id \o "." \o S(j))]
BodyT(b, c, id) == IF b.kind = "raw" THEN TV(Raw(b.data), [t |-> "RawExport", data |-> b.data])
                   ELSE LET p == Close(TreesT(b.props, c, id)) IN TV(p.toks \o Raw(b.tail), [t |-> "NormalExport", extras |-> b.tail, properties |-> p.view])
Lay(d) == [d EXCEPT !.exports = [k \in DOMAIN d.exports |-> LET b == BodyT(d.exports[k].ed, d.c, S(k)) IN [d.exports[k] EXCEPT !.body = b.toks, !.view = b.view]]]

\* ---- random trees
Val(ty, x) ==
  CASE ty = "IntProperty" -> Num(x) [] ty = "FloatProperty" -> Fl(x) [] ty = "StrProperty" -> Opt(x, Text(Sub(x, 1)))
    [] ty = "NameProperty" -> NmOf(x) [] ty = "ObjectProperty" -> Pick(x, <<0, 1, -1, 2, -2>>) [] ty = "BoolProperty" -> B(x, 1)
    [] ty = "EnumProperty" -> << <<"EKind", 0>>, EnumVal(x) >> [] ty = "ByteProperty" -> << <<"EByte", 0>>, Nat2(x, 256) >>
LeafTypes == <<"IntProperty", "FloatProperty", "StrProperty", "NameProperty", "ObjectProperty", "BoolProperty", "EnumProperty", "ByteProperty">>
ItemTypes == <<"IntProperty", "NameProperty", "StrProperty", "ObjectProperty", "FloatProperty">>
Leaf(x) == LET ty == Pick(Sub(x, 1), LeafTypes) IN [ty |-> ty, name |-> NmOf(Sub(x, 2)), dup |-> Pick(Sub(x, 3), <<0, 0, 1>>), gd |-> Pick(Sub(x, 4), <<-1, -1, 2>>), v |-> Val(ty, Sub(x, 5))]
Kids(x, max) == [j \in 1..Nat2(Sub(x, 500), max + 1) |-> Leaf(Sub(x, 500 + j))]
Shell(x, ty, v) == [ty |-> ty, name |-> NmOf(Sub(x, 2)), dup |-> Pick(Sub(x, 3), <<0, 0, 1>>), gd |-> Pick(Sub(x, 4), <<-1, -1, 2>>), v |-> v]
StructTr(x) == Shell(x, "StructProperty", [st |-> Pick(Sub(x, 6), <<"MyStruct", "Other">>), g |-> Nat2(Sub(x, 7), 4), kids |-> Kids(Sub(x, 5), 3)])
ArrayTr(x) == LET et == Pick(Sub(x, 6), ItemTypes) IN Shell(x, "ArrayProperty", [et |-> et, items |-> [j \in 1..Nat2(Sub(x, 7), 4) |-> Val(et, Sub(x, 10 + j))]])
StructsTr(x) == [Shell(x, "ArrayProperty", [et |-> "StructProperty", st |-> "MyStruct", g |-> Nat2(Sub(x, 7), 4), items |-> [j \in 1..Nat2(Sub(x, 8), 3) |-> Kids(Sub(x, 10 + j), 2)]]) EXCEPT !.name = <<"Items", 0>>]
MapTr(x) == Shell(x, "MapProperty", [j \in 1..Nat2(Sub(x, 6), 4) |-> <<"Key", j, Num(Sub(x, 10 + j))>>])
OpTr(x) == LET ty == Pick(Sub(x, 1), Prims \o Containers \o Containers) IN
           [ty |-> "op", name |-> <<"", 0>>, dup |-> 0, gd |-> -1, v |-> [x |-> Sub(x, 2), ty |-> ty, ety |-> Pick(Sub(x, 3), Prims), s |-> StructName(Sub(x, 4))]]
Tree(x) == LET r == Nat2(Sub(x, 90), 8) IN IF r < 3 THEN Leaf(x) ELSE IF r = 3 THEN StructTr(x) ELSE IF r = 4 THEN ArrayTr(x) ELSE IF r = 5 THEN StructsTr(x) ELSE IF r = 6 THEN MapTr(x) ELSE OpTr(x)

\* ---- places: <<j>> the j-th property of a list, <<j, i, ...>> inside it
Sel(s, n) == SubSeq(s, 1, n - 1) \o SubSeq(s, n + 1, Len(s))
Put(s, n, v) == SubSeq(s, 1, n - 1) \o <<v>> \o SubSeq(s, n, Len(s))
Act(s, n, a) == CASE a.a = "del" -> Sel(s, n) [] a.a = "ins" -> Put(s, n, a.tree) [] a.a = "set" -> [s EXCEPT ![n] = a.tree]
RECURSIVE Upd(_, _, _)
Upd(list, path, a) ==
  LET j == path[1] IN
  IF Len(path) = 1 THEN (IF a.a = "val" THEN [list EXCEPT ![j].v = a.v]
                         ELSE IF a.a = "meta" THEN [list EXCEPT ![j].name = a.name, ![j].dup = a.dup, ![j].gd = a.gd]
                         ELSE Act(list, j, a))
  ELSE LET t == list[j] IN
    IF t.ty = "StructProperty" THEN [list EXCEPT ![j].v.kids = Upd(t.v.kids, Tail(path), a)]
    ELSE IF t.ty = "MapProperty" THEN [list EXCEPT ![j].v = Act(t.v, path[2], a)]
    ELSE IF Len(path) = 2 THEN [list EXCEPT ![j].v.items = Act(t.v.items, path[2], a)]
    ELSE [list EXCEPT ![j].v.items[path[2]] = Upd(@, SubSeq(path, 3, Len(path)), a)]

\* all edits of a list of properties, at every place, with fresh values drawn from y
\* (sequences, not sets: the records are of different shapes)
IsLeaf(ty) == \E i \in DOMAIN LeafTypes : LeafTypes[i] = ty
LeafEdits(t, y, p) == When(IsLeaf(t.ty), <<[a |-> "val", path |-> p, ty |-> t.ty, v |-> Val(t.ty, Sub(y, 1))], [a |-> "meta", path |-> p, name |-> NmOf(Sub(y, 2)), dup |-> Pick(Sub(y, 3), <<0, 2>>), gd |-> Pick(Sub(y, 4), <<-1, 1>>)]>>)
Ins(p, tr) == <<[a |-> "ins", path |-> p, tree |-> tr]>>
Ends(n) == IF n = 0 THEN <<1>> ELSE <<1, n + 1>>
RECURSIVE ListEdits(_, _, _)
ListEdits(ts, y, p) ==
     Map(LAMBDA m : LET q == Append(p, Ends(Len(ts))[m]) IN
           Ins(q, Leaf(Sub(y, 50 + m))) \o When(p = <<>>, Ins(q, StructTr(Sub(y, 52 + m))) \o Ins(q, ArrayTr(Sub(y, 54 + m))) \o Ins(q, MapTr(Sub(y, 56 + m)))), Len(Ends(Len(ts))))
  \o Map(LAMBDA j : <<[a |-> "del", path |-> Append(p, j)]>> \o LeafEdits(ts[j], Sub(y, 100 + j), Append(p, j)), Len(ts))
  \o Map(LAMBDA j : LET t == ts[j] q == Append(p, j) z == Sub(y, 200 + j) IN
       IF t.ty = "StructProperty" THEN ListEdits(t.v.kids, z, q)
       ELSE IF t.ty = "MapProperty" THEN
              When(\A m \in DOMAIN t.v : t.v[m][2] # 20, <<[a |-> "ins", path |-> Append(q, Len(t.v) + 1), tree |-> <<"Key", 20, Num(Sub(z, 1))>>]>>)
              \o Map(LAMBDA i : <<[a |-> "del", path |-> Append(q, i)], [a |-> "set", path |-> Append(q, i), tree |-> <<t.v[i][1], t.v[i][2], Num(Sub(z, 3 + i))>>]>>, Len(t.v))
       ELSE IF t.ty # "ArrayProperty" THEN <<>>
       ELSE LET n == Len(t.v.items) IN
            Map(LAMBDA i : <<[a |-> "del", path |-> Append(q, i)]>>, n)
            \o (IF t.v.et # "StructProperty"
                THEN Map(LAMBDA m : <<[a |-> "ins", path |-> Append(q, Ends(n)[m]), et |-> t.v.et, tree |-> Val(t.v.et, Sub(z, m))]>>, Len(Ends(n)))
                     \o Map(LAMBDA i : <<[a |-> "set", path |-> Append(q, i), et |-> t.v.et, tree |-> Val(t.v.et, Sub(z, 9 + i))]>>, n)
                ELSE Map(LAMBDA f : <<[a |-> "ins", path |-> Append(q, 1), et |-> t.v.et, from |-> f, tree |-> t.v.items[f]], [a |-> "ins", path |-> Append(q, n + 1), et |-> t.v.et, from |-> f, tree |-> t.v.items[f]]>>, n)
                     \o Map(LAMBDA i : ListEdits(t.v.items[i], Sub(z, i), Append(q, i)), n)), Len(ts))

\* ---- edits of a document
IsNormal(d, k) == d.exports[k].ed.kind = "normal"
BaseFields(d, y) == LET ni == Len(d.imports) nx == Len(d.exports) IN
  <<[f |-> "outer", v |-> Ref(Sub(y, 1), ni, nx)], [f |-> "sup", v |-> Ref(Sub(y, 2), ni, nx)], [f |-> "tpl", v |-> Ref(Sub(y, 3), ni, nx)], [f |-> "name", v |-> NmOf(Sub(y, 4))], [f |-> "flags", v |-> Bits(Sub(y, 5))],
   [f |-> "forced", v |-> B(y, 6)], [f |-> "nfc", v |-> B(y, 7)], [f |-> "nfs", v |-> B(y, 8)], [f |-> "guid", v |-> Nat2(Sub(y, 9), 4)], [f |-> "inh", v |-> B(y, 10)], [f |-> "pflags", v |-> Pos0(Sub(y, 11))],
   [f |-> "nal", v |-> B(y, 12)], [f |-> "isasset", v |-> B(y, 13)], [f |-> "gph", v |-> B(y, 14)]>>
  \o When(d.split /\ d.c.o >= PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS, [l \in 1..4 |-> [f |-> "deps", l |-> l, v |-> Seq0(Sub(y, 20 + l), 3, LAMBDA z : Ref(z, ni, nx))]])
SetBase(x, s) == CASE s.f = "deps" -> [x EXCEPT !.deps[s.l] = s.v] [] s.f = "outer" -> [x EXCEPT !.outer = s.v] [] s.f = "sup" -> [x EXCEPT !.sup = s.v] [] s.f = "tpl" -> [x EXCEPT !.tpl = s.v]
   [] s.f = "name" -> [x EXCEPT !.name = s.v] [] s.f = "flags" -> [x EXCEPT !.flags = s.v] [] s.f = "forced" -> [x EXCEPT !.forced = s.v] [] s.f = "nfc" -> [x EXCEPT !.nfc = s.v] [] s.f = "nfs" -> [x EXCEPT !.nfs = s.v]
   [] s.f = "guid" -> [x EXCEPT !.guid = s.v] [] s.f = "inh" -> [x EXCEPT !.inh = s.v] [] s.f = "pflags" -> [x EXCEPT !.pflags = s.v] [] s.f = "nal" -> [x EXCEPT !.nal = s.v] [] s.f = "isasset" -> [x EXCEPT !.isasset = s.v]
   [] s.f = "gph" -> [x EXCEPT !.gph = s.v]
NewImport(d, y) == Import(y, Len(d.imports), Len(d.exports), NmOf(Sub(y, 9)))
PropEdits(d, y) == Map(LAMBDA k : When(IsNormal(d, k), LET es == ListEdits(d.exports[k].ed.props, Sub(y, 300 + k), <<>>) IN [m \in DOMAIN es |-> [op |-> "prop", k |-> k, e |-> es[m]]]), Len(d.exports))
CopyEdits(d, y) == Map(LAMBDA k : When(IsNormal(d, k), Map(LAMBDA k2 : When(IsNormal(d, k2), [j \in DOMAIN d.exports[k].ed.props |-> [op |-> "copy", k |-> k, j |-> j, to |-> k2]]), Len(d.exports))), Len(d.exports))
BaseEdits(d, y) == Map(LAMBDA k : LET fs == BaseFields(d, Sub(y, 10 + k)) IN [m \in DOMAIN fs |-> [op |-> "base", k |-> k, s |-> fs[m]]], Len(d.exports))
TableEdits(d, y) ==
     Map(LAMBDA k : When(IsNormal(d, k), <<[op |-> "extras", k |-> k, v |-> RawOf(Sub(y, 2), Nat2(Sub(y, 3), 9))]>>), Len(d.exports))
  \o When(Len(d.exports) < 5 /\ ~d.cut, [k \in DOMAIN d.exports |-> [op |-> "addexport", from |-> k, name |-> NmOf(Sub(y, 4)), outer |-> Ref(Sub(y, 5), Len(d.imports), Len(d.exports) + 1)]])
  \o When(d.exports # <<>>, <<[op |-> "delexport"]>>)
  \o <<[op |-> "addimport", v |-> NewImport(d, Sub(y, 6))]>>
  \o Map(LAMBDA j : When(j > 1, <<[op |-> "import", j |-> j, outer |-> Ref(Sub(y, 7), Len(d.imports), Len(d.exports)), on |-> NmOf(Sub(y, 8))]>>), Len(d.imports))
  \o <<[op |-> "addname", v |-> Pick(Sub(y, 9), <<"Fresh1", "Fresh{00e9}", "Alpha">>)]>>
  \o <<[op |-> "header", f |-> "folder", v |-> Pick(Sub(y, 11), <<"Elsewhere", "None", "Ordn{00fc}ng">>)], [op |-> "header", f |-> "guid", v |-> Nat2(Sub(y, 12), 9)], [op |-> "header", f |-> "source", v |-> Pos0(Sub(y, 13))]>>
Saves == <<[op |-> "save", reload |-> TRUE], [op |-> "save", reload |-> FALSE]>>
\* the families of edits; drawn from one after the other so that random histories do not drown in the many single properties
Family(d, y, f) == CASE f = 1 -> PropEdits(d, y) [] f = 2 -> CopyEdits(d, y) [] f = 3 -> BaseEdits(d, y) [] f = 4 -> TableEdits(d, y) [] f = 5 -> Saves
Apply(d, o) ==
  CASE o.op = "prop" -> [d EXCEPT !.exports[o.k].ed.props = Upd(@, o.e.path, o.e)]
    [] o.op = "copy" -> [d EXCEPT !.exports[o.to].ed.props = Append(@, d.exports[o.k].ed.props[o.j])]
    [] o.op = "extras" -> [d EXCEPT !.exports[o.k].ed.tail = o.v]
    [] o.op = "addexport" -> [d EXCEPT !.exports = Append(@, [d.exports[o.from] EXCEPT !.name = o.name, !.outer = o.outer]), !.depends = IF @.some THEN Some(Append(@.v, <<>>)) ELSE @]
    [] o.op = "delexport" -> [d EXCEPT !.exports = SubSeq(@, 1, Len(@) - 1), !.depends = IF @.some THEN Some(SubSeq(@.v, 1, Len(@.v) - 1)) ELSE @, !.cut = TRUE]
    [] o.op = "addimport" -> [d EXCEPT !.imports = Append(@, o.v)]
    [] o.op = "import" -> [d EXCEPT !.imports[o.j].outer = o.outer, !.imports[o.j].on = o.on]
    [] o.op = "base" -> [d EXCEPT !.exports[o.k] = SetBase(@, o.s)]
    [] o.op = "header" -> IF o.f = "folder" THEN [d EXCEPT !.folder = o.v] ELSE IF o.f = "guid" THEN [d EXCEPT !.guid = o.v] ELSE [d EXCEPT !.source = o.v]
    [] OTHER -> d                                             \* addname, save: the document itself is unchanged
\* the objects an edit is about; every other object, and every import but the edited one, must stay as it is
About(d, o) == CASE o.op \in {"prop", "extras", "base"} -> {o.k} [] o.op = "copy" -> {o.to} [] o.op = "delexport" -> {Len(d.exports)} [] OTHER -> {}
OnlyAbout(d, dd, o) ==
  /\ \A k \in DOMAIN d.exports \ About(d, o) : k \in DOMAIN dd.exports /\ dd.exports[k] = d.exports[k]
  /\ \A j \in DOMAIN d.imports : (o.op = "import" /\ o.j = j) \/ dd.imports[j] = d.imports[j]
=============================================================================
