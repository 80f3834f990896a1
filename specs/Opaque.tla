------------------------------- MODULE Opaque -------------------------------
(* Objects that cannot be interpreted. Damage takes an object of a document and *)
(* makes it unreadable in one way; what is denoted is the object as opaque      *)
(* bytes (or, for scripts, the object with an opaque script), everything else   *)
(* unchanged.                                                                   *)
EXTENDS Exports
AtLabel(toks, l) == LET J == {j \in DOMAIN toks : toks[j].t = "lbl" /\ toks[j].v = l} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : TRUE
Put(toks, j, s) == SubSeq(toks, 1, j - 1) \o s \o SubSeq(toks, j + 1, Len(toks))
Cut(toks, min, keep) == <<[t |-> "cut", toks |-> toks, min |-> min, keep |-> keep]>>
BadName(d) == <<[t |-> "badnm", v |-> d]>>
Opaques == {"GameProperty", "WeakThing", "RawStructProperty"}
\* where each kind of damage can be done in the interpreted part (the first core tokens), scripts aside
Spots(kind, toks, core, ks, ke) ==
  SelectSeq([j \in 1..core |-> j], LAMBDA j : (j < ks \/ j > ke) /\
     CASE kind = "name" -> toks[j].t = "nm" /\ toks[j].v # "LowerBound" \* (that name tells the two layouts of float ranges apart)
       [] kind = "count" -> "cnt" \in DOMAIN toks[j]
       [] kind = "enum" -> "en" \in DOMAIN toks[j]
       [] kind = "flags" -> toks[j].t = "bits" /\ toks[j].free < 8 * toks[j].w
       [] kind = "guid" -> "word" \in DOMAIN toks[j]
       [] kind = "size" -> j = ks - 1 \/ (j > 1 /\ toks[j].t = "pos" /\ toks[j - 1].t = "nm" /\ toks[j - 1].v \in Opaques)
       [] kind = "strlen" -> toks[j].t = "str"
       [] OTHER -> FALSE)
Kinds == <<"cut", "name", "count", "enum", "flags", "guid", "size", "strlen", "class">>
Hurt(y, kind, toks, j) ==
  CASE kind = "name" -> Put(toks, j, BadName(Pick(y, <<0, 1, 77, -1>>)))
    [] kind \in {"count", "size"} -> Put(toks, j, I32(Pick(y, <<-1, 2147483647, -2147483647>>)))
    [] kind = "enum" -> Put(toks, j, <<[toks[j] EXCEPT !.v = IF toks[j].t = "u8" THEN 200 ELSE 100]>>)
    [] kind = "flags" -> Put(toks, j, <<[toks[j] EXCEPT !.v = <<toks[j].free>>]>>)
    [] kind = "guid" -> Put(toks, j, I32(1) \o GuidT(3))
    [] OTHER -> Put(toks, j, I32(Pick(y, <<2147483647, -2147483647, 1073741824>>)) \o Raw(<<65, 0>>))
RawV == [t |-> "RawExport", data |-> [any |-> TRUE]]
\* b: [cls, toks, view, core]; id: what the labels of its script end in
Damage(y, b0, id) ==
  LET b == TLCEval(b0) ks == AtLabel(b.toks, "ks" \o id) ke == AtLabel(b.toks, "ke" \o id)
      k == Pick(Sub(y, 1), Kinds)
      spots == Spots(k, b.toks, b.core, ks, ke) IN
  IF k = "class" THEN [b |-> b, how |-> "class", view |-> RawV]
  ELSE IF k = "cut" \/ spots = <<>> THEN [b |-> [b EXCEPT !.toks = Cut(SubSeq(b.toks, 1, b.core), 0, Pick(Sub(y, 2), <<0, 999, Nat2(Sub(y, 3), 1000), Nat2(Sub(y, 4), 1000)>>))], how |-> "cut", view |-> RawV]
  ELSE [b |-> [b EXCEPT !.toks = Hurt(Sub(y, 2), k, b.toks, Pick(Sub(y, 3), spots))], how |-> k, view |-> RawV]
\* the same for a script: s are its expressions; the view of the struct part says that it stays raw
BadScript(y, s, id) ==
  LET n == Len(s)
      all == CatT(s)
      last == s[n].toks
      names == SelectSeq([j \in DOMAIN all |-> j], LAMBDA j : all[j].t = "nm")
      k == Nat2(Sub(y, 1), 3)
      body == IF k = 0 /\ names # <<>> THEN Put(all, Pick(Sub(y, 2), names), BadName(Pick(Sub(y, 3), <<0, 1, 77, -1>>)))
              ELSE IF k = 1 /\ Len(last) > 1 THEN CatT(SubSeq(s, 1, n - 1)) \o Cut(last, 1, Pick(Sub(y, 2), <<0, 999, Nat2(Sub(y, 3), 1000)>>))
              ELSE all \o U8(Pick(Sub(y, 2), <<3, 110, 200, 255>>)) \o Raw(RawOf(Sub(y, 4), Nat2(Sub(y, 5), 4))) IN
  TV(I32(SumMem(s)) \o Pos(4, "ke" \o id, "ks" \o id) \o Lbl("ks" \o id) \o body \o Lbl("ke" \o id), <<>>)
SwapScript(toks, id, sc) == LET ks == AtLabel(toks, "ks" \o id) ke == AtLabel(toks, "ke" \o id) IN SubSeq(toks, 1, ks - 3) \o sc.toks \o SubSeq(toks, ke + 1, Len(toks))
RawScript(v) == [v EXCEPT !.struct_export = [script_bytecode |-> NoneV, script_bytecode_raw |-> [any |-> TRUE]] @@ @]
\* a document with the damage done: dm[k] is [how, b, view] or [how |-> ""]
Damaged(d, y, dm) == [d EXCEPT !.exports = [k \in DOMAIN d.exports |->
   IF dm[k].how = "" THEN d.exports[k]
   ELSE [d.exports[k] EXCEPT !.body = dm[k].b.toks, !.view = dm[k].view, !.cls = IF dm[k].how = "class" THEN -999 ELSE @]]]
CaseO(d, dm) == Case(d) @@ [opaque |-> [k \in DOMAIN dm |-> dm[k].how]]
=============================================================================
