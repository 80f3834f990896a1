------------------------------- MODULE PrimMC -------------------------------
EXTENDS Prim
CONSTANTS Cps, MaxText, Lens, Bytes, MaxBody, Mode, BigLens
VARIABLES st, done
\* ---- Mode "text": every text; Mode "bytes": every prefix and body; Mode "arr": arrays of texts
Need(len) == IF len = 0 THEN 0 ELSE IF len > 0 THEN len ELSE IF len < -MaxUnits THEN 1 ELSE -2 * len
Cap(len) == IF Need(len) > MaxBody THEN 1 ELSE Need(len)
Init == done = FALSE /\ st \in (CASE Mode = "text" -> {[cps |-> <<>>]}
                                   [] Mode = "bytes" -> [len : Lens, body : {<<>>}]
                                   [] Mode = "big" -> [cp : Cps, n : BigLens]
                                   [] Mode = "arr" -> {[texts |-> <<>>]})
Next == \/ /\ Mode = "text" /\ Len(st.cps) < MaxText /\ \E c \in Cps : st' = [cps |-> Append(st.cps, c)]
           /\ UNCHANGED done
        \/ /\ Mode = "bytes" /\ Len(st.body) < Cap(st.len) /\ \E b \in Bytes : st' = [st EXCEPT !.body = Append(@, b)]
           /\ UNCHANGED done
        \/ /\ Mode = "arr" /\ Len(st.texts) < MaxText /\ \E c \in Cps, n \in 0..2 : st' = [texts |-> Append(st.texts, [j \in 1..n |-> c])]
           /\ UNCHANGED done
Spec == Init /\ [][Next]_<<st, done>>
\* the codec is injective and self-delimiting, with any bytes following
RoundTrip == Mode = "text" => LET e == EncStr(st.cps) IN
                /\ Dec(e) = Ok(st.cps, Len(e))
                /\ Dec(e \o <<65, 0>>) = Ok(st.cps, Len(e))
                /\ \A k \in 0..(Len(e) - 1) : Dec(SubSeq(e, 1, k)) = Err
BoundOk == Mode = "bytes" => LET r == DecBody(st.len, st.body) IN r.ok => r.used <= 4 + Len(st.body)
Case == CASE Mode = "text" -> [m |-> "text", cps |-> st.cps, bytes |-> EncStr(st.cps)]
          [] Mode = "bytes" -> LET r == DecBody(st.len, st.body) IN [m |-> "bytes", bytes |-> LE32(st.len) \o st.body, ok |-> r.ok, none |-> r.ok /\ r.none, cps |-> r.v, used |-> r.used]
          [] Mode = "big" -> LET u == IF st.cp < 65536 THEN st.n ELSE 2 * st.n IN
                             [m |-> "big", cp |-> st.cp, n |-> st.n, units |-> u, wide |-> st.cp >= 128, ok |-> u <= MaxUnits,
                              head |-> IF st.cp >= 128 THEN LE32(-(u + 1)) ELSE LE32(u + 1), size |-> IF st.cp >= 128 THEN 4 + 2 * (u + 1) ELSE 4 + u + 1]
          [] Mode = "arr" -> [m |-> "arr", texts |-> st.texts, bytes |-> LE32(Len(st.texts)) \o Flat([j \in DOMAIN st.texts |-> EncStr(st.texts[j])])]
Out == CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.OUT)
=============================================================================
