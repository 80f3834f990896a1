----------------------------- MODULE RegPartsMC -----------------------------
(* The tag store of the newer registry formats, and asset bundles.              *)
EXTENDS Registry, Json, CSV, IOUtils
CONSTANTS Engs, Seeds, Kinds
VARIABLES x, e, kind
vars == <<x, e, kind>>
Init == x \in Seeds /\ e \in Engs /\ kind \in Kinds
Spec == Init /\ [][UNCHANGED vars]_vars
Y == Sub(x, (e * 2) + (IF kind = "store" THEN 1 ELSE 0))
C == Ctx(e, e, <<>>)
\* texts of a store are kept in one buffer, each ends with a zero; any text can be referred to by its offset
Narrow == <<"a", "Hello World", "", "x y", "/Game/Foo">>
Wide == <<"{65e5}{672c}", "Gr{00fc}n", "ab", "", "{00ff}{0100}z">>
CStr(s) == <<[t |-> "cstr", v |-> s]>>
CWStr(s) == <<[t |-> "cwstr", v |-> s]>>
Texts(y, pool) == [j \in 1..Nat2(Sub(y, 1), 4) |-> Pick(Sub(y, 10 + j), pool)]
\* offsets in characters: labels mark where each text starts
Buf(p, ss, one(_)) == Lbl(p) \o Map(LAMBDA j : Lbl(p \o S(j)) \o one(ss[j]), Len(ss)) \o Lbl(p \o "end")
Offs(p, ord, w) == Map(LAMBDA j : <<[t |-> "pos", w |-> 4, a |-> p \o S(ord[j]), b |-> p, div |-> w]>>, Len(ord))
Order(y, ss) == LET n == Len(ss) r == IF n = 0 THEN 0 ELSE Nat2(y, n) IN [j \in 1..n |-> ((j + r - 1) % n) + 1]
Id(y) == LET t == Nat2(Sub(y, 1), 7) i == Pick(Sub(y, 2), <<0, 1, 2, 77, 268435455>>) IN [t |-> t, i |-> i]
IdT(v) == I32((v.i * 8) + v.t)
IdV(v) == <<v.t, v.i>>
Big(y) == Pick(y, <<0, 1, 300, 70000>>)
StoreOf ==
  LET old == B(Y, 1)
      nn == Seq0(Sub(Y, 2), 3, LAMBDA z : Big(z))  nm == Seq0(Sub(Y, 3), 3, LAMBDA z : NmOf(z))
      np == Seq0(Sub(Y, 4), 2, LAMBDA z : <<Big(Sub(z, 1)), Big(Sub(z, 2)), Big(Sub(z, 3))>>)  ep == Seq0(Sub(Y, 5), 2, LAMBDA z : <<NmOf(Sub(z, 1)), NmOf(Sub(z, 2)), NmOf(Sub(z, 3))>>)
      tx == Seq0(Sub(Y, 6), 3, LAMBDA z : Opt(z, FullText(Sub(z, 1))))
      an == Texts(Sub(Y, 7), Narrow)  wi == Texts(Sub(Y, 8), Wide)  ao == Order(Sub(Y, 9), an)  wo == Order(Sub(Y, 10), wi)
      qn == Seq0(Sub(Y, 11), 3, LAMBDA z : [k |-> Big(Sub(z, 1)), v |-> Id(Sub(z, 2))])  qp == Seq0(Sub(Y, 12), 3, LAMBDA z : [k |-> NmOf(Sub(z, 1)), v |-> Id(Sub(z, 2))])
      txt == Lbl("tx") \o Map(LAMBDA j : OptStr(tx[j]), Len(tx)) \o Lbl("txend")
  IN [toks |-> U32(IF old THEN 305419896 ELSE 305419897) \o I32(Len(nn)) \o I32(Len(nm)) \o I32(Len(np)) \o I32(Len(ep)) \o I32(Len(tx)) \o I32(Len(an)) \o I32(Len(wi))
        \o Pos(4, "anend", "an") \o <<[t |-> "pos", w |-> 4, a |-> "wiend", b |-> "wi", div |-> 2]>> \o I32(Len(qn)) \o I32(Len(qp))
        \o (IF old THEN <<>> ELSE Pos(4, "txend", "tx") \o txt)
        \o Map(LAMBDA j : U32(nn[j]), Len(nn)) \o Map(LAMBDA j : N2(nm[j]), Len(nm)) \o Map(LAMBDA j : U32(np[j][1]) \o U32(np[j][2]) \o U32(np[j][3]), Len(np))
        \o Map(LAMBDA j : N2(ep[j][1]) \o N2(ep[j][2]) \o N2(ep[j][3]), Len(ep)) \o (IF old THEN txt ELSE <<>>)
        \o Offs("an", ao, 1) \o Offs("wi", wo, 2) \o Buf("an", an, CStr) \o Buf("wi", wi, CWStr)
        \o Map(LAMBDA j : U32(qn[j].k) \o IdT(qn[j].v), Len(qn)) \o Map(LAMBDA j : N2(qp[j].k) \o IdT(qp[j].v), Len(qp)) \o U32("2271560481"),
      view |-> [nnames |-> nn, names |-> nm, npaths |-> np, paths |-> ep, texts |-> [j \in DOMAIN tx |-> OptV(tx[j])], ansi |-> [j \in DOMAIN ao |-> an[ao[j]]], wide |-> [j \in DOMAIN wo |-> wi[wo[j]]],
                npairs |-> [j \in DOMAIN qn |-> <<qn[j].k, IdV(qn[j].v)>>], pairs |-> [j \in DOMAIN qp |-> <<qp[j].k, IdV(qp[j].v)>>]]]
BundlesOf ==
  LET bs == Seq0(Sub(Y, 1), 3, LAMBDA z : [n |-> NmOf(Sub(z, 1)), a |-> TLCEval(Seq0(Sub(z, 2), 3, LAMBDA q : SoftOldNew(C, q)))]) IN
  [toks |-> I32(Len(bs)) \o Map(LAMBDA j : N2(bs[j].n) \o I32(Len(bs[j].a)) \o Map(LAMBDA k : bs[j].a[k].toks, Len(bs[j].a)), Len(bs)),
   view |-> [bundles |-> [j \in DOMAIN bs |-> [bundle_name |-> NmV(bs[j].n), bundle_assets |-> [k \in DOMAIN bs[j].a |-> [value |-> bs[j].a[k].view]]]]]]
Out == LET r == IF kind = "store" THEN StoreOf ELSE BundlesOf IN CSVWrite("%1$s", <<ToJson([eng |-> e, what |-> kind, toks |-> r.toks, view |-> r.view])>>, IOEnv.OUT)
=============================================================================
