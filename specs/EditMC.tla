------------------------------- MODULE EditMC -------------------------------
(* Histories of edits on documents read from files. With Emit = "all" every     *)
(* history up to Depth is put out; with "end" one random history per seed,      *)
(* engine and layout, up to length Depth. Saving is itself a step, after which  *)
(* the document may be loaded again from the file.                              *)
EXTENDS Edit, Json, CSV, IOUtils
CONSTANTS Engs, Seeds, Hows, Depth, Emit
VARIABLES x, e, how, split, d, hist
vars == <<x, e, how, split, d, hist>>
EdBody(y, k, n) == IF k = 2 /\ Flip(Sub(y, 1), 3) THEN [kind |-> "raw", data |-> <<255, 255, 255, 127, k>>]
                   ELSE [kind |-> "normal", tail |-> RawOf(Sub(y, 2), Nat2(Sub(y, 3), 6)), props |-> [j \in 1..n |-> Tree(Sub(y, 20 + j))]]
Doc0(y, ee, h, sp) ==
  LET nx == Pick(Sub(y, 2), <<2, 2, 1, 3>>)
      fr == Frame(y, ee, h, sp, <<"Thing">>, [k \in 1..nx |-> [cls |-> IF B(Sub(y, 60 + k), 1) THEN 1 ELSE 0, toks |-> <<>>, view |-> <<>>]])
      fr2 == [fr EXCEPT !.exports = [k \in 1..nx |-> fr.exports[k] @@ [ed |-> EdBody(Sub(y, 1000 + k), k, Nat2(Sub(y, 40 + k), 5))]]] IN
  fr2 @@ [cut |-> FALSE]
Z == Sub(x, (e * 6) + (IF how = "un" THEN 0 ELSE IF how = "ver" THEN 2 ELSE 4) + (IF split THEN 1 ELSE 0))
Init == /\ x \in Seeds /\ e \in Engs /\ how \in Hows /\ split \in BOOLEAN
        /\ d = Doc0(Z, e, how, split)
        /\ hist = <<[op |-> "load", d |-> d]>>
Y == Sub(Z, 7000 + Len(hist))
Do(o) == d' = Apply(d, o) /\ hist' = Append(hist, IF o.op = "save" THEN o @@ [d |-> d] ELSE o) /\ UNCHANGED <<x, e, how, split>>
\* random walks draw a family first; they end early when it has no edits
Drawn == Family(d, Y, Nat2(Sub(Y, 1), 5) + 1)
Next == /\ Len(hist) <= Depth
        /\ IF Emit = "end" THEN LET es == Drawn IN es # <<>> /\ Do(es[Nat2(Sub(Y, 2), Len(es)) + 1])
           ELSE LET es == Cat([f \in 1..5 |-> Family(d, Y, f)]) IN \E m \in DOMAIN es : Do(es[m])
Spec == Init /\ [][Next]_vars
\* laws of the model
Local == [][OnlyAbout(d, d', hist'[Len(hist')])]_vars
LayoutOk == LET t == Tokens(Lay(d)) IN WellFormed(t) /\ Ordered(t)
Step(o) == IF "d" \in DOMAIN o THEN LET l == Lay(o.d) IN [op |-> o.op, reload |-> (o.op = "save" /\ o.reload), toks |-> Tokens(l), view |-> View(l)] ELSE o
Out == IF Len(hist) = 1 \/ (Emit = "end" /\ Len(hist) <= Depth /\ Drawn # <<>>) THEN TRUE
       ELSE CSVWrite("%1$s", <<ToJson([eng |-> Lay(d).arg, split |-> split, steps |-> [j \in DOMAIN hist |-> Step(hist[j])] \o <<Step([op |-> "save", reload |-> FALSE, d |-> d])>>])>>, IOEnv.OUT)
=============================================================================
