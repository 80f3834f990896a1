------------------------------- MODULE UsmapMC -------------------------------
(* Mappings files, look-ups in them, damage, and unversioned property lists.     *)
EXTENDS Usmap, Json, CSV, IOUtils
CONSTANTS Engs, Seeds
VARIABLES x, e, d
vars == <<x, e, d>>
Y == Sub(x, e)
Long == "ThisIsAnUnusuallyLongNameThatStillFitsIntoTheSingleByteThatIsUsedForTheLengthOfAName0123456789ThisIsAnUnusuallyLongNameThatStillFitsIntoTheSingleByteThatIsUsedForTheLengthOfAName0123456789ThisIsAnUnusuallyLongNameThatStillFitsIntoTheSingleByteThatIsUsedF"
PropNames == <<"Health", "Mesh", "0", "Gr{00fc}n", "", "Tags", "{65e5}{672c}", "health", "Inner", Long, "A", "B">>
Types0 == <<"Actor", "Pawn", "Hero", "Item", "Inner">>
Other == <<"None", "EColor", "EMode", "Red", "Blue", "ECol::Red", "Unused", "Vector">>
AllNames == PropNames \o <<"Actor", "Pawn", "Hero", "Item">> \o Other
Rot(s, r) == [j \in DOMAIN s |-> s[((j + r - 1) % Len(s)) + 1]]
Shallow == <<0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 27, 255>>
RECURSIVE TypeOf(_, _)
TypeOf(y, depth) == LET k == IF depth = 0 THEN 9 ELSE Nat2(Sub(y, 1), 9) IN
  CASE k = 0 -> [t |-> Array1, in |-> TypeOf(Sub(y, 2), depth - 1)]
    [] k = 1 -> [t |-> Set1, in |-> TypeOf(Sub(y, 2), depth - 1)]
    [] k = 2 -> [t |-> Map1, in |-> TypeOf(Sub(y, 2), depth - 1), val |-> TypeOf(Sub(y, 3), depth - 1)]
    [] k = 3 -> [t |-> Enum1, in |-> IF Flip(Sub(y, 2), 4) THEN TypeOf(Sub(y, 2), 0) ELSE [t |-> Byte1], n |-> Pick(Sub(y, 3), <<"EColor", "EMode", "None">>)]
    [] k = 4 -> [t |-> Struct1, n |-> Pick(Sub(y, 2), <<"Vector", "Inner", "Item">>)]
    [] k \in {5, 6} -> [t |-> Int1]
    [] OTHER -> [t |-> Pick(Sub(y, 2), Shallow)]
\* properties take ascending slots with gaps
RECURSIVE PropsOf(_, _, _, _)
PropsOf(y, n, at, off) == IF n = 0 THEN <<>> ELSE
  LET slot == at + Pick(Sub(y, 1), <<0, 0, 0, 1, 2, 130, 300>>) dim == Pick(Sub(y, 2), <<1, 1, 1, 1, 1, 1, 2, 2, 3, 3, 0, 17, 17, 80, 150>>) IN
  <<[name |-> PropNames[((off + n) % Len(PropNames)) + 1], slot |-> slot, dim |-> dim, type |-> TypeOf(Sub(y, 3), 3)]>> \o PropsOf(Sub(y, 4), n - 1, slot + dim, off)
SchemaFor(y, j, paths) ==
  LET n == Nat2(Sub(y, 1), 5) ps == TLCEval(PropsOf(Sub(y, 2), n, 0, Nat2(Sub(y, 3), 3))) end == IF ps = <<>> THEN 0 ELSE ps[n].slot + ps[n].dim
      ord == IF Flip(Sub(y, 7), 2) THEN ps ELSE [k \in DOMAIN ps |-> ps[Len(ps) + 1 - k]] IN
  [name |-> Types0[j], super |-> Pick(Sub(y, 4), <<"None", Types0[1], Types0[(j % 5) + 1], Types0[(j % 5) + 1], Types0[((j + 1) % 5) + 1], "Unused">>), count |-> end + Pick(Sub(y, 5), <<0, 0, 1, 3>>), props |-> ord, path |-> IF paths = 0 THEN 0 ELSE Nat2(Sub(y, 6), paths)]
Doc == LET paths == Pick(Sub(Y, 9), <<1, 2, 255, 256>>) n == Nat2(Sub(Y, 1), 6) ver == Nat2(Sub(Y, 2), 4) IN
  [names |-> Rot(AllNames, Nat2(Sub(Y, 3), Len(AllNames))),
   enums |-> [j \in 1..Nat2(Sub(Y, 4), 3) |-> [name |-> Pick(Sub(Y, 4), <<"EColor", "EMode">>), vals |-> [k \in 1..Nat2(Sub(Y, 40 + j), 4) |-> Pick(Sub(Y, 50 + (j * 10) + k), <<"Red", "Blue", "ECol::Red", "">>)]] ],
   schemas |-> TLCEval([j \in 1..n |-> SchemaFor(Sub(Y, 100 + j), j, paths)]),
   ext |-> Pick(Sub(Y, 5), <<"none", "zero", "paths", "paths">>), paths |-> [j \in 1..paths |-> Pick(Sub(Y, 700 + j), <<"/Script/Engine", "/Game/Gr{00fc}n", "">>) \o S(j)],
   version |-> ver, versioning |-> (IF Flip(Sub(Y, 6), 2) THEN {} ELSE {1}), ov |-> Pick(Sub(Y, 7), <<517, 522, 214>>), ov5 |-> Pick(Sub(Y, 8), <<1000, 1009>>), cvs |-> [j \in 1..Nat2(Sub(Y, 10), 3) |-> <<Pick(Sub(Y, 80 + j), <<"FCoreObjectVersion", "Unknown1", "FReleaseObjectVersion">>), Nat2(Sub(Y, 90 + j), 40)>>],
   netcl |-> Pick(Sub(Y, 11), <<"0", "123456", "4294967295">>), method |-> Pick(Sub(Y, 12), <<0, 0, 2, 3>>)]
EnumsOk(q) == Len(q.enums) < 2 \/ q.enums[1].name # q.enums[2].name
\* two enums of one name cannot be told apart: keep the first
Start == IF EnumsOk(Doc) THEN Doc ELSE [Doc EXCEPT !.enums = <<@[1]>>]
Init == x \in Seeds /\ e \in Engs /\ d = Start
Spec == Init /\ [][UNCHANGED vars]_vars

\* ---- look-ups: every name and array index in every type, and in every enclosing property
Ancs == {<<t>> : t \in {Types0[j] : j \in DOMAIN Types0} \cup {"Unused"}} \cup {<<Types0[(Nat2(Sub(Y, 20 + j), 5)) + 1], Pick(Sub(Y, 30 + j), PropNames)>> : j \in 1..6}
           \cup {<<"Actor", Pick(Sub(Y, 60 + j), PropNames), Pick(Sub(Y, 65 + j), <<"Tags", "Inner", "Item", "0">>)>> : j \in 1..4} \cup {<<>>}
Asked == {"0", "7", "Nope"} \cup UNION {{d.schemas[j].props[k].name : k \in DOMAIN d.schemas[j].props} : j \in DOMAIN d.schemas}
Chains0 == [t \in {Types0[j] : j \in DOMAIN Types0} |-> Chain(d, t, {})]
Lookups == LET ch == TLCEval(Chains0) ns == TLCEval(Asked) IN
  {[anc |-> a, n |-> n, dup |-> k, r |-> Find(ch, a, n, k)] : a \in Ancs, n \in ns, k \in {0, 1, 16}}
Alls == [j \in DOMAIN Types0 |-> [of |-> Types0[j], ps |-> LET l == Linear(d, Types0[j]) IN [k \in DOMAIN l |-> l[k].p]]]
View == [version |-> d.version, names |-> d.names, enums |-> [j \in DOMAIN d.enums |-> <<d.enums[j].name, d.enums[j].vals>>],
  schemas |-> [j \in DOMAIN d.schemas |-> [name |-> d.schemas[j].name, super |-> d.schemas[j].super, count |-> d.schemas[j].count, props |-> Elems(d.schemas[j]), path |-> IF d.ext = "paths" THEN d.paths[d.schemas[j].path + 1] ELSE ""]],
  hasver |-> Versioned(d), ov |-> d.ov, ov5 |-> d.ov5, cvs |-> d.cvs, netcl |-> d.netcl, method |-> d.method, ext |-> IF d.ext = "paths" THEN 1 ELSE 0]

\* ---- an unversioned property list of a type
Simple == <<Bool1, Int1, Float1, Name1, Double1, Str1, UInt641, UInt321, UInt161, Int641, Int161, Int81>>
Value(y, t) == LET n == Pick(y, <<0, 1, 7, 100>>) IN
  CASE t = Bool1 -> [toks |-> U8(n % 2), v |-> n % 2] [] t = Int1 -> [toks |-> I32(0 - n), v |-> 0 - n] [] t = Float1 -> [toks |-> F32(8 * n), v |-> n] [] t = Double1 -> [toks |-> F64(8 * n), v |-> n]
    [] t = UInt641 -> [toks |-> U64(n), v |-> n] [] t = UInt321 -> [toks |-> U32(n), v |-> n] [] t = UInt161 -> [toks |-> U16(n), v |-> n] [] t = Int641 -> [toks |-> I64(0 - n), v |-> 0 - n]
    [] t = Int161 -> [toks |-> <<[t |-> "i16", v |-> 0 - n]>>, v |-> 0 - n] [] t = Int81 -> [toks |-> <<[t |-> "i8", v |-> 0 - n]>>, v |-> 0 - n]
    [] t = Str1 -> LET s == Pick(Sub(y, 1), <<"a", "Gr{00fc}n", "x y">>) IN [toks |-> Str(s), v |-> s]
    [] OTHER -> LET s == Pick(Sub(y, 1), <<"Foo", "Bar">>) IN [toks |-> <<[t |-> "nm", v |-> s, n |-> 3]>>, v |-> s]
IsSimple(t) == \E j \in DOMAIN Simple : Simple[j] = t
Flat(t) == IsSimple(t) \/ t \in {Byte1, Obj1}
ByG(s) == SortSeq(s, LAMBDA a, b : a.g < b.g)
\* ---- values of every other type. Elements and fields of an object carry no tags either.
ValsOf(n) == LET m == SelectSeq(d.enums, LAMBDA q : q.name = n) IN IF m = <<>> THEN <<>> ELSE m[1].vals
ElemOk(t, depth) == Flat(t.t) \/ (t.t = Struct1 /\ (t.n = "Vector" \/ (depth > 0 /\ SchemaOf(d, t.n) # <<>>)))
Storable(t, depth) ==
  CASE Flat(t.t) -> TRUE
    [] t.t = Enum1 -> t.in.t = Byte1 /\ ValsOf(t.n) # <<>>
    [] t.t \in {Struct1} -> ElemOk(t, depth)
    [] t.t = Array1 -> ElemOk(t.in, depth)
    [] t.t = Set1 -> Flat(t.in.t)
    [] t.t = Map1 -> t.in.t \in {Int1, Str1, Name1, UInt161} /\ ElemOk(t.val, depth)
    [] OTHER -> FALSE
\* what a list may store: types are found by name, so a property hidden by a nearer type of that name must be of the same type
CanStore(of, p, depth) == Flat(p.type.t) \/ (Storable(p.type, depth) /\ LET f == InChain(Chain(d, of, {}), p.name, 0, 0) IN f.found /\ f.p.type = p.type)
RECURSIVE ValueOf(_, _, _), ListOf(_, _, _), Report(_, _, _, _, _)
Elements(y, t, n, depth) == LET es == [j \in 1..n |-> ValueOf(Sub(y, j), t, depth)] IN [toks |-> Cat([j \in 1..n |-> es[j].toks]), v |-> [j \in 1..n |-> es[j].v]]
ValueOf(y, t, depth) ==
  CASE t.t = Byte1 -> LET n == Pick(y, <<0, 1, 255, 7>>) IN [toks |-> U8(n), v |-> n]
    [] t.t = Obj1 -> LET n == Pick(y, <<0, 5, -3>>) IN [toks |-> I32(n), v |-> n]
    [] t.t = Enum1 -> LET vs == ValsOf(t.n) k == Nat2(y, Len(vs) + 1) IN IF k = Len(vs) THEN [toks |-> U8(255), v |-> <<t.n, "(no value)">>] ELSE [toks |-> U8(k), v |-> <<t.n, vs[k + 1]>>]
    [] t.t = Struct1 /\ t.n = "Vector" -> LET k == Nat2(y, 9) N(n) == IF e >= 30 THEN F64(8 * n) ELSE F32(8 * n) IN [toks |-> N(k) \o N(0 - k) \o N(3), v |-> <<"Vector", k, 0 - k, 3>>]
    [] t.t = Struct1 -> LET l == TLCEval(ListOf(y, t.n, depth - 1)) IN [toks |-> HeaderT(l.h) \o l.r.toks, v |-> <<t.n, l.r.ps>>]
    [] t.t = Array1 -> LET n == Nat2(y, 4) es == TLCEval(Elements(Sub(y, 1), t.in, n, depth)) IN [toks |-> I32(n) \o es.toks, v |-> es.v]
    [] t.t = Set1 -> LET a == Nat2(y, 3) b == Nat2(Sub(y, 2), 4) gone == Elements(Sub(y, 1), t.in, a, depth) es == Elements(Sub(y, 3), t.in, b, depth) IN [toks |-> I32(a) \o gone.toks \o I32(b) \o es.toks, v |-> <<gone.v, es.v>>]
    [] t.t = Map1 -> LET n == Nat2(y, 4)
                         K(j) == CASE t.in.t = Int1 -> [toks |-> I32(j), v |-> j] [] t.in.t = UInt161 -> [toks |-> U16(j), v |-> j] [] t.in.t = Str1 -> [toks |-> Str("k" \o S(j)), v |-> "k" \o S(j)]
                                   [] OTHER -> [toks |-> <<[t |-> "nm", v |-> "k" \o S(j), n |-> 0]>>, v |-> "k" \o S(j)]
                         gone == IF Flip(Sub(y, 9), 3) THEN <<K(77)>> ELSE <<>>
                         vs == TLCEval([j \in 1..n |-> ValueOf(Sub(y, j), t.val, depth)]) IN
                     [toks |-> I32(Len(gone)) \o Cat([j \in DOMAIN gone |-> gone[j].toks]) \o I32(n) \o Cat([j \in 1..n |-> K(j).toks \o vs[j].toks]), v |-> <<[j \in DOMAIN gone |-> gone[j].v], [j \in 1..n |-> <<K(j).v, vs[j].v>>]>>]
    [] OTHER -> Value(y, t.t)
\* what a reader of the list reports: elements until the end, or an error at the first slot that no type declares
Report(lin, ss, y, k, depth) ==
  IF ss = <<>> THEN [ps |-> <<>>, toks |-> <<>>, ok |-> TRUE]
  ELSE LET m == SelectSeq(lin, LAMBDA q : q.g = ss[1].g) IN
       IF m = <<>> THEN [ps |-> <<>>, toks |-> <<>>, ok |-> FALSE]
       \* a value that the enum does not declare is refused
       ELSE IF depth = 2 /\ ~ss[1].zero /\ m[1].p.type.t = Enum1 /\ Flip(Sub(y, 5000 + k), 6) THEN [ps |-> <<>>, toks |-> U8(Len(ValsOf(m[1].p.type.n)) + Nat2(Sub(y, k), 40)), ok |-> FALSE]
       ELSE LET p == m[1].p v == TLCEval(IF ss[1].zero THEN [toks |-> <<>>, v |-> 0] ELSE ValueOf(Sub(y, k), p.type, depth)) rest == TLCEval(Report(lin, Tail(ss), y, k + 1, depth)) IN
            [ps |-> <<IF ss[1].zero THEN [name |-> p.name, type |-> p.type.t, zero |-> TRUE] ELSE [name |-> p.name, type |-> p.type.t, zero |-> FALSE, idx |-> p.idx, v |-> v.v]>> \o rest.ps,
             toks |-> v.toks \o rest.toks, ok |-> rest.ok]
\* the list of a struct inside an object
ListOf(y, of, depth) ==
  LET lin == TLCEval(Linear(d, of)) srt == TLCEval(IF Len(lin) > 12 THEN ByG(SubSeq(lin, 1, 12)) ELSE ByG(lin))
      chosen == SelectSeq(srt, LAMBDA q : ~Flip(Sub(y, 1000 + q.g), 3))
      ss == [j \in DOMAIN chosen |-> [g |-> chosen[j].g, zero |-> ~CanStore(of, chosen[j].p, depth) \/ Flip(Sub(y, 2000 + chosen[j].g), 4)]] IN
  [h |-> TLCEval(Header(ss, Pick(Sub(y, 4), <<127, 127, 3, 1>>), Flip(Sub(y, 5), 4), 0)), r |-> Report(lin, ss, Sub(y, 7), 1, depth)]
Walk(y) ==
  LET of == Pick(Sub(y, 1), Types0) lin == TLCEval(Linear(d, of)) cap == Pick(Sub(y, 8), <<60, 60, 200>>) srt == TLCEval(IF Len(lin) > cap THEN ByG(SubSeq(lin, 1, cap)) ELSE ByG(lin))
      chosen == SelectSeq(srt, LAMBDA q : ~Flip(Sub(y, 1000 + q.g), Pick(Sub(y, 2), <<2, 3, 20>>)))
      ss0 == [j \in DOMAIN chosen |-> [g |-> chosen[j].g, zero |-> ~CanStore(of, chosen[j].p, 2) \/ Flip(Sub(y, 2000 + chosen[j].g), 3)]]
      ss == IF Flip(Sub(y, 3), 6) THEN Append(ss0, [g |-> (IF ss0 = <<>> THEN 0 ELSE ss0[Len(ss0)].g) + 1, zero |-> TRUE]) ELSE ss0
      h == TLCEval(Header(ss, Pick(Sub(y, 4), <<127, 127, 3, 1>>), Flip(Sub(y, 5), 4), Nat2(Sub(y, 6), 2))) r == TLCEval(Report(lin, ss, Sub(y, 7), 1, 2)) IN
  [of |-> of, declared |-> Chain(d, of, {}) # <<>>, h |-> h, ss |-> ss, head |-> HeaderT(h), toks |-> r.toks, ps |-> r.ps, ok |-> r.ok /\ (ss = <<>> \/ Chain(d, of, {}) # <<>>)]
HView(h) == [frs |-> h.frs, firsts |-> Firsts(h.frs, 0), bits |-> h.bits, values |-> HasValues(h)]
\* invariants: encoding keeps the slots; every look-up result lies in a declared type; array elements of one property are adjacent
HeaderKeeps == \A k \in 1..2 : LET w == TLCEval(Walk(Sub(Y, 3000 + k))) IN Slots(w.h) = w.ss
\* looking up an element of a type's own properties gives its slot, unless a nearer type hides it
Agree == LET ch == TLCEval(Chains0) IN \A t \in DOMAIN ch : LET l == TLCEval(Linear(d, t)) IN \A k \in DOMAIN l : LET f == InChain(ch[t], l[k].p.name, l[k].p.idx, 0) IN f.found /\ f.g <= l[k].g
\* a global slot belongs to one element
OneSlot == \A j \in DOMAIN Types0 : LET l == TLCEval(Linear(d, Types0[j])) IN Cardinality({l[k].g : k \in DOMAIN l}) = Len(l)
Out == CSVWrite("%1$s", <<ToJson([eng |-> e, head |-> HeadT(d), method |-> d.method, toks |-> PayloadT(d), view |-> View, look |-> Lookups, alls |-> Alls,
  walks |-> [k \in 1..2 |-> LET w == TLCEval(Walk(Sub(Y, 3000 + k))) IN [of |-> w.of, head |-> w.head, toks |-> w.toks, ps |-> w.ps, ok |-> w.ok, h |-> HView(w.h)]] ])>>, IOEnv.OUT)
\* ---- damage
Bad == <<"cut", "payload", "index", "type", "magic", "version", "method", "size", "csize", "count", "path", "ext", "length", "utf8">>
OutBad == CSVWrite("%1$s", <<ToJson([eng |-> e, head |-> HeadT(d), method |-> d.method, toks |-> PayloadT(d), ext |-> d.ext, whats |-> Bad, at |-> Nat2(Sub(Y, 900), 1000), by |-> Nat2(Sub(Y, 901), 1000)])>>, IOEnv.OUT)
=============================================================================
