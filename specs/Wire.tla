-------------------------------- MODULE Wire --------------------------------
(* Token language of the layout specifications. A file is a sequence of      *)
(* tokens; positions, lengths and digests are symbolic references to labels. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
U8(x)   == <<[t |-> "u8",  v |-> x]>>
U16(x)  == <<[t |-> "u16", v |-> x]>>
U32(x)  == <<[t |-> "u32", v |-> x]>>
I32(x)  == <<[t |-> "i32", v |-> x]>>
U64(x)  == <<[t |-> "u64", v |-> x]>>
I64(x)  == <<[t |-> "i64", v |-> x]>>
F32(x)  == <<[t |-> "f32", v |-> x]>>      \* denotes x/8, or a special number (Fl in AssetDoc)
F64(x)  == <<[t |-> "f64", v |-> x]>>
Str(x)  == <<[t |-> "str", v |-> x]>>      \* length-prefixed string, wide iff not ASCII
NoStr   == <<[t |-> "nostr"]>>
Raw(x)  == <<[t |-> "raw", v |-> x]>>
Zeros(n) == <<[t |-> "zeros", v |-> n]>>
GuidT(x) == <<[t |-> "guid", v |-> x]>>
Lbl(l)  == <<[t |-> "lbl", v |-> l]>>
Pos(w, a, b) == <<[t |-> "pos", w |-> w, a |-> a, b |-> b]>>          \* pos(a) - pos(b), w bytes
Pos64(a, b) == Pos(8, a, b)
Sha1(a, b) == <<[t |-> "sha1", a |-> a, b |-> b]>>                   \* digest of [a, b)

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Map(f(_), n) == Cat([j \in 1..n |-> f(j)])
S(n) == ToString(n)

\* Well-formedness of a layout: every label is defined once, every reference is defined,
\* and every length reference is non-negative (its end does not precede its start).
Labels(toks) == {toks[j].v : j \in {k \in DOMAIN toks : toks[k].t = "lbl"}}
LblPos(toks, l) == IF l = "0" THEN 0 ELSE CHOOSE j \in DOMAIN toks : toks[j].t = "lbl" /\ toks[j].v = l
WellFormed(toks) ==
  /\ Cardinality(Labels(toks)) = Cardinality({k \in DOMAIN toks : toks[k].t = "lbl"})
  /\ \A j \in DOMAIN toks : toks[j].t = "pos" =>
        /\ {toks[j].a, toks[j].b} \subseteq Labels(toks) \cup {"0"}
        /\ LblPos(toks, toks[j].b) <= LblPos(toks, toks[j].a)
  /\ \A j \in DOMAIN toks : toks[j].t = "sha1" => {toks[j].a, toks[j].b} \subseteq Labels(toks)
=============================================================================
