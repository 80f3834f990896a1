------------------------------- MODULE Chain -------------------------------
(* Two byte sources presented as one seekable stream (containers::chain).    *)
(* Abstract state: total contents and one position; the split point must be  *)
(* unobservable.                                                             *)
EXTENDS Integers, Sequences, TLC
VARIABLES l1, l2, pos        \* l2 = -1: no second part
Total == l1 + (IF l2 > 0 THEN l2 ELSE 0)
Min(a, b) == IF a < b THEN a ELSE b

\* ret = <<new position>> or <<-1>> for a refused seek, which moves nothing
SeekTo(t, ret) == IF t < 0 THEN ret = <<-1>> /\ UNCHANGED <<l1, l2, pos>>
                  ELSE ret = <<t>> /\ pos' = t /\ UNCHANGED <<l1, l2>>
SeekStart(n, ret) == SeekTo(n, ret)
SeekCur(d, ret)   == SeekTo(pos + d, ret)
SeekEnd(d, ret)   == SeekTo(Total + d, ret)
\* reading n bytes yields the bytes [pos, min(pos+n, Total)) of the concatenation
ReadN(n, ret) == LET e == IF pos >= Total THEN pos ELSE Min(pos + n, Total) IN
                 ret = <<pos, e>> /\ pos' = e /\ UNCHANGED <<l1, l2>>
=============================================================================
