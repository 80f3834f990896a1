-------------------------------- MODULE Refs --------------------------------
(* Package indices: what an index denotes in a document with imports imps and  *)
(* nx exports, what searching finds, and what adding an import changes.        *)
EXTENDS AssetDoc
\* an index denotes an import (negative), an export (positive) or nothing
Denotes(i, ni, nx) == IF i < 0 THEN (IF i >= -ni THEN [k |-> "import", n |-> -i] ELSE [k |-> "nothing"])
                      ELSE IF i > 0 THEN (IF i <= nx THEN [k |-> "export", n |-> i] ELSE [k |-> "nothing"])
                      ELSE [k |-> "nothing"]
\* names are compared by text; the first match wins; 0 when there is none
First(P(_), n) == LET J == {j \in 1..n : P(j)} IN IF J = {} THEN 0 ELSE -(CHOOSE j \in J : \A k \in J : j <= k)
Find(imps, q) == First(LAMBDA j : imps[j].cp[1] = q.cp /\ imps[j].cn[1] = q.cn /\ imps[j].on[1] = q.on /\ imps[j].outer = q.outer, Len(imps))
FindAny(imps, q) == First(LAMBDA j : imps[j].cp[1] = q.cp /\ imps[j].cn[1] = q.cn /\ imps[j].on[1] = q.on, Len(imps))
Added(imps, m) == [index |-> -(Len(imps) + 1), imps |-> Append(imps, m)]
=============================================================================
