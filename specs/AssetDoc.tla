------------------------------ MODULE AssetDoc ------------------------------
(* Random but reproducible asset documents: Frame(x, e, bodies) is the frame   *)
(* (header, tables, references) around given export bodies.                    *)
EXTENDS Asset, Choice
B(x, k) == Flip(Sub(x, k), 2)
NamePool == <<"Alpha", "Beta", "alpha", "Gr{00fc}n", "a.b", "X_1", "{65e5}{672c}", "Obj", "Default__Thing_C", "Zz">>
NmOf(x) == <<Pick(Sub(x, 1), NamePool), Pick(Sub(x, 2), <<0, 0, 0, 1, 2, 77, 2147483647>>)>>
\* a reference to any object of a document with ni imports and nx exports
Ref(x, ni, nx) == IF Flip(Sub(x, 1), 4) THEN 0
                  ELSE IF B(x, 2) \/ nx = 0 THEN (IF ni = 0 THEN 0 ELSE -(Nat2(Sub(x, 3), ni) + 1)) ELSE Nat2(Sub(x, 3), nx) + 1
Seq0(x, max, F(_)) == [j \in 1..Nat2(Sub(x, 500), max + 1) |-> F(Sub(x, 500 + j))]
\* longer than any length that fits in a byte
LongText == "0123456789abcdefghijklmnopqrstuvwxyz 0123456789abcdefghijklmnopqrstuvwxyz 0123456789abcdefghijklmnopqrstuvwxyz 0123456789abcdefghijklmnopqrstuvwxyz 0123456789abcdefghijklmnopqrstuvwxyz 0123456789abcdefghijklmnopqrstuvwxyz 0123456789abcdefghijklmnopqrstuvwxyz 0123456789abcdefghijklmnopqrstuvwxyz "
Text(x) == Pick(x, <<"a", "Hello World", "", "{65e5}{672c}", "Gr{00fc}n", "/Game/Foo/Bar.Bar_C", "x y", "{1f600}", "line{000a}tab{0009}{0022}quoted{0022}{005c}", LongText>>)
FullText(x) == Pick(x, <<"a", "Hello World", "{65e5}{672c}", "Gr{00fc}n", "/Game/Foo/Bar.Bar_C", "x y">>)
Opt(x, v) == IF Flip(Sub(x, 900), 4) THEN Nothing ELSE Some(v)
Num(x) == Pick(x, <<0, 1, -1, 7, 255, 256, 65536, -65536, 2147483647, -2147483647>>)
Pos0(x) == Pick(x, <<0, 1, 7, 300, 70000>>)
\* eighths, and codes for negative zero, the infinities, not-a-number, a third, the smallest and the least number
Fl(x) == Pick(x, <<0, 8, -8, 4, 1, -20, 8000, 80001, 2000000001, 2000000002, 2000000003, 2000000004, 2000000005, 2000000006, 2000000007>>)
Bits(x) == Pick(x, <<0, 1, 2, 3, 9, 64, 4096, 524289>>)
Ver(x) == [maj |-> Pick(Sub(x, 1), <<0, 4, 5>>), min |-> Nat2(Sub(x, 2), 28), pat |-> Nat2(Sub(x, 3), 4), bld |-> Pos0(Sub(x, 4)), br |-> Opt(Sub(x, 5), FullText(Sub(x, 6)))]
TileOf(x) == [pos |-> <<Num(Sub(x, 1)), Num(Sub(x, 2)), Num(Sub(x, 3))>>, min |-> <<Fl(Sub(x, 4)), Fl(Sub(x, 5)), Fl(Sub(x, 6))>>, max |-> <<Fl(Sub(x, 7)), Fl(Sub(x, 8)), Fl(Sub(x, 9))>>,
    valid |-> B(x, 10), layer |-> Opt(Sub(x, 11), FullText(Sub(x, 11))), res0 |-> Num(Sub(x, 12)), res1 |-> <<Num(Sub(x, 13)), Num(Sub(x, 14))>>, dist |-> Num(Sub(x, 15)), dse |-> B(x, 16),
    hide |-> B(x, 17), parent |-> Opt(Sub(x, 18), FullText(Sub(x, 18))), z |-> Num(Sub(x, 19)),
    lods |-> Seq0(Sub(x, 20), 2, LAMBDA y : <<Num(Sub(y, 1)), Fl(Sub(y, 2)), Fl(Sub(y, 3)), Num(Sub(y, 4)), Num(Sub(y, 5))>>)]
AllConts == <<"FCoreObjectVersion", "FEditorObjectVersion", "FFrameworkObjectVersion", "FFortniteMainBranchObjectVersion", "FAnimPhysObjectVersion", "FReleaseObjectVersion", "FSequencerObjectVersion">>
Has(e, n) == Cust(n, e) > 0
\* how the versions are stored: "un" not at all, "ver" some containers, "ver0" all of them and no engine given to the reader,
\* "mid" versions between those of the engine and of the one before it (engines under development), some containers
Stored(x, e, how) == LET all == SelectSeq(AllConts, LAMBDA n : Has(e, n)) IN
    IF how = "un" THEN <<>>
    ELSE LET some == IF how = "ver0" THEN all ELSE SelectSeq(all, LAMBDA n : B(x, CvIndex[n])) IN
         [j \in DOMAIN some |-> [n |-> some[j], v |-> IF how = "mid" THEN Nat2(Sub(x, 40 + CvIndex[some[j]]), Cust(some[j], e) + 1) ELSE Cust(some[j], e)]] \o (IF B(x, 20) THEN <<[n |-> "Unknown1", v |-> 5]>> ELSE <<>>)
Between(x, lo, hi) == IF lo >= hi THEN hi ELSE lo + Nat2(x, hi - lo + 1)
CtxH(x, e, how) ==
  LET c == Ctx(e, IF how = "ver0" THEN 0 ELSE e, Stored(Sub(x, 31), e, how)) IN
  IF how # "mid" THEN c
  ELSE [c EXCEPT !.o = IF e = 2 THEN @ ELSE Between(Sub(x, 28), Obj(e - 1), @), !.o5 = IF @ = 0 THEN 0 ELSE Between(Sub(x, 29), IF Obj5(e - 1) = 0 THEN 1000 ELSE Obj5(e - 1), @)]
Legacy(x, e) == IF Obj5(e) > 0 THEN -8 ELSE Pick(x, <<-7, -6, -7, -6, -5, -4>>)

\* clss: names of classes that must be importable, one import each, in this order
Import(x, ni, nx, on) == [cp |-> NmOf(Sub(x, 1)), cn |-> NmOf(Sub(x, 2)), outer |-> Ref(Sub(x, 3), ni, nx), on |-> on, opt |-> B(x, 4)]
Export(x, ni, nx, cls, body, view, preload) == [cls |-> cls, sup |-> Ref(Sub(x, 1), ni, nx), tpl |-> Ref(Sub(x, 2), ni, nx), outer |-> Ref(Sub(x, 3), ni, nx),
    name |-> NmOf(Sub(x, 4)), flags |-> Bits(Sub(x, 5)), forced |-> B(x, 6), nfc |-> B(x, 7), nfs |-> B(x, 8), guid |-> Nat2(Sub(x, 9), 4), inh |-> B(x, 10),
    pflags |-> Pos0(Sub(x, 11)), nal |-> B(x, 12), isasset |-> B(x, 13), gph |-> B(x, 14),
    deps |-> [j \in 1..4 |-> IF preload THEN Seq0(Sub(x, 20 + j), 3, LAMBDA y : Ref(y, ni, nx)) ELSE <<>>],
    body |-> body, view |-> view]
\* imports: one per class in clss, then extra; bodies: Seq([cls: index into clss or 0 for a positive class index, toks, view])
Frame(x, e, how, split, clss, bodies) ==
  LET extra == Nat2(Sub(x, 30), 4)
      ni == Len(clss) + extra
      nx == Len(bodies)
      st == Stored(Sub(x, 31), e, how)
      leg == IF how # "un" /\ st # <<>> THEN (IF Obj5(e) > 0 THEN -8 ELSE Pick(Sub(x, 32), <<-7, -6>>)) ELSE Legacy(Sub(x, 32), e)
      arg == IF how = "ver0" THEN 0 ELSE e
      c == TLCEval(CtxH(x, e, how))
      old == c.o < ADD_STRING_ASSET_REFERENCES_MAP
      dz == c.o \in PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS..(EXPORTMAP_64BIT_SERIALSIZES - 1)
  IN [c |-> c, arg |-> arg, un |-> how = "un", split |-> split, legacy |-> leg, stored |-> st, licensee |-> Pos0(Sub(x, 33)),
      folder |-> Pick(Sub(x, 34), <<"None", "Game", "F{00fc}">>), pflags |-> Pick(Sub(x, 35), <<"2147484160", "2147615232", "2149581312">>),
      opq |-> [j \in 1..8 |-> Pick(Sub(x, 70 + j), IF j > 6 THEN <<0, -1, 77>> ELSE <<0, 0, 300>>)],
      depends |-> IF dz \/ B(x, 36) THEN Some([k \in 1..nx |-> Seq0(Sub(x, 40 + k), 2, LAMBDA y : Ref(y, ni, nx))]) ELSE Nothing,
      nodepoff |-> dz /\ B(x, 37) ,
      soft |-> IF old \/ B(x, 38) THEN Nothing ELSE Some(Seq0(Sub(x, 39), 2, LAMBDA y : FullText(y))),
      guid |-> Nat2(Sub(x, 50), 4), gens |-> IF Flip(Sub(x, 52), 5) THEN <<>> ELSE Seq0(Sub(x, 51), 2, LAMBDA y : <<Nat2(Sub(y, 1), 9), Nat2(Sub(y, 2), 99)>>), curgen |-> ~Flip(Sub(x, 52), 5),
      rec |-> Ver(Sub(x, 53)), compat |-> Ver(Sub(x, 54)), cflags |-> Pos0(Sub(x, 55)), source |-> Pos0(Sub(x, 56)), areg |-> B(x, 57),
      tile |-> IF Flip(Sub(x, 58), 3) THEN Some(TileOf(Sub(x, 59))) ELSE Nothing, chunks |-> Seq0(Sub(x, 60), 2, LAMBDA y : Num(y)), nref |-> Pick(Sub(x, 61), <<-1, -1, 0, 1>>),
      names |-> Seq0(Sub(x, 62), 3, LAMBDA y : Pick(y, <<"Unused1", "None", "Unused{00e9}", "IntProperty">>)), alt |-> (IF B(x, 63) THEN <<[n |-> "Obj", h |-> 12345]>> ELSE <<>>) \o (IF B(x, 64) THEN <<[n |-> "Alpha", h |-> 0]>> ELSE <<>>),
      imports |-> TLCEval([j \in 1..ni |-> Import(Sub(x, 100 + j), ni, nx, IF j <= Len(clss) THEN <<clss[j], 0>> ELSE NmOf(Sub(x, 150 + j)))]),
      exports |-> TLCEval([k \in 1..nx |-> Export(Sub(x, 200 + k), ni, nx, IF bodies[k].cls = 0 THEN k ELSE -bodies[k].cls, bodies[k].toks, bodies[k].view, split /\ c.o >= PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS)])]
=============================================================================
