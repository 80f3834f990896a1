------------------------------ MODULE PathBits ------------------------------
(* Game path conversion and bit range copies.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Mode, Comps, MaxC, Roots, Games, MaxN
VARIABLES st
RECURSIVE Join(_)
Join(cs) == IF Len(cs) = 1 THEN cs[1].c ELSE cs[1].c \o "/" \o Join(Tail(cs))
\* a component is [c |-> text, ext |-> whether the text has an extension]
Convert(root, cs, game) ==
   IF root # "/Game/" THEN [some |-> FALSE, v |-> ""]
   ELSE [some |-> TRUE, v |-> game \o "/Content/" \o Join(cs) \o (IF cs[Len(cs)].ext THEN "" ELSE ".uasset")]
\* copy num bits of src starting at off to dst starting at at; bits past the end of src count as 0
Copy(dst, at, num, src, off) == [j \in DOMAIN dst |-> IF j - 1 >= at /\ j - 1 < at + num
                                                        THEN (LET k == off + (j - 1 - at) + 1 IN IF k \in DOMAIN src THEN src[k] ELSE 0)
                                                        ELSE dst[j]]
BitSeqs(n) == [1..n -> {0, 1}]
Init == st \in (IF Mode = "path" THEN [root : Roots, cs : UNION {[1..n -> Comps] : n \in 1..MaxC}, game : Games]
                ELSE UNION {UNION {[dst : BitSeqs(n), src : BitSeqs(m), at : 0..n, num : 0..n, off : 0..m] : m \in 0..MaxN} : n \in 0..MaxN})
Next == FALSE /\ UNCHANGED st
Spec == Init /\ [][Next]_<<st>>
Fits == Mode # "bits" \/ st.at + st.num <= Len(st.dst)
\* frame condition and idempotence of the copy
CopyOk == Mode = "bits" /\ Fits => LET r == Copy(st.dst, st.at, st.num, st.src, st.off) IN
             /\ \A j \in DOMAIN st.dst : (j <= st.at \/ j > st.at + st.num) => r[j] = st.dst[j]
             /\ Copy(r, st.at, st.num, st.src, st.off) = r
Out == Fits => CSVWrite("%1$s", <<ToJson(IF Mode = "path" THEN [m |-> "path", path |-> st.root \o Join(st.cs), game |-> st.game, want |-> Convert(st.root, st.cs, st.game)]
          ELSE [m |-> "bits", dst |-> st.dst, src |-> st.src, at |-> st.at, num |-> st.num, off |-> st.off, want |-> Copy(st.dst, st.at, st.num, st.src, st.off)])>>, IOEnv.OUT)
=============================================================================
