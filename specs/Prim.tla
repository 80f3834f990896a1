-------------------------------- MODULE Prim --------------------------------
(* Primitive encodings as functions on byte sequences. A text is a sequence  *)
(* of code points. Dec* return [ok, v, used]; used counts consumed bytes.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
MaxUnits == 131072
LE(w, x) == [j \in 1..w |-> (x \div (256 ^ (j - 1))) % 256]
\* two's complement of a (possibly negative) 32 bit value
LE32(x) == IF x >= 0 THEN LE(4, x)
           ELSE LET y == -(x + 1) IN [j \in 1..4 |-> 255 - ((y \div (256 ^ (j - 1))) % 256)]
Err == [ok |-> FALSE, v |-> <<>>, used |-> 0]
None == [ok |-> TRUE, v |-> <<>>, none |-> TRUE, used |-> 4]
Ok(v, u) == [ok |-> TRUE, v |-> v, none |-> FALSE, used |-> u]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* ---- UTF-8 and UTF-16
RECURSIVE Utf8(_)
Cont(b) == b \in 128..191
Utf8(bs) ==   \* <<ok, cps>>
  IF bs = <<>> THEN <<TRUE, <<>>>>
  ELSE LET a == bs[1] n == Len(bs)
           more(k, cp) == LET r == Utf8(SubSeq(bs, k + 1, n)) IN <<r[1], <<cp>> \o r[2]>>
       IN IF a < 128 THEN more(1, a)
          ELSE IF a \in 194..223 /\ n >= 2 /\ Cont(bs[2]) THEN more(2, (a - 192) * 64 + bs[2] - 128)
          ELSE IF a \in 224..239 /\ n >= 3 /\ Cont(bs[2]) /\ Cont(bs[3]) /\ (a = 224 => bs[2] >= 160) /\ (a = 237 => bs[2] < 160)
               THEN more(3, (a - 224) * 4096 + (bs[2] - 128) * 64 + bs[3] - 128)
          ELSE IF a \in 240..244 /\ n >= 4 /\ Cont(bs[2]) /\ Cont(bs[3]) /\ Cont(bs[4]) /\ (a = 240 => bs[2] >= 144) /\ (a = 244 => bs[2] < 144)
               THEN more(4, (a - 240) * 262144 + (bs[2] - 128) * 4096 + (bs[3] - 128) * 64 + bs[4] - 128)
          ELSE <<FALSE, <<>>>>
RECURSIVE Utf16(_)
Hi(u) == u \in 55296..56319
Lo(u) == u \in 56320..57343
Utf16(us) == IF us = <<>> THEN <<TRUE, <<>>>>
             ELSE LET a == us[1] n == Len(us)
                      more(k, cp) == LET r == Utf16(SubSeq(us, k + 1, n)) IN <<r[1], <<cp>> \o r[2]>>
                  IN IF ~Hi(a) /\ ~Lo(a) THEN more(1, a)
                     ELSE IF Hi(a) /\ n >= 2 /\ Lo(us[2]) THEN more(2, 65536 + (a - 55296) * 1024 + us[2] - 56320)
                     ELSE <<FALSE, <<>>>>
Units(cps) == Flat([j \in DOMAIN cps |-> IF cps[j] < 65536 THEN <<cps[j]>> ELSE <<55296 + ((cps[j] - 65536) \div 1024), 56320 + ((cps[j] - 65536) % 1024)>>])
Narrow(cps) == \A j \in DOMAIN cps : cps[j] < 128

\* ---- length-prefixed strings
EncStr(cps) == IF Narrow(cps) THEN LE32(Len(cps) + 1) \o cps \o <<0>>
               ELSE LET us == Units(cps) IN LE32(-(Len(us) + 1)) \o Flat([j \in DOMAIN us |-> LE(2, us[j])]) \o <<0, 0>>
EncNone == LE32(0)
Int32(bs) == LET u == bs[1] + bs[2] * 256 + bs[3] * 65536 IN IF bs[4] < 128 THEN u + bs[4] * 16777216 ELSE u + (bs[4] - 256) * 16777216
\* len: decoded prefix, body: the bytes that follow it
DecBody(len, body) ==
  IF len = 0 THEN None
  ELSE IF len > MaxUnits + 1 \/ len < -(MaxUnits + 1) THEN Err
  ELSE IF len > 0
       THEN LET n == len - 1 IN
            IF Len(body) < len THEN Err
            ELSE LET r == Utf8(SubSeq(body, 1, n)) IN IF ~r[1] \/ body[len] # 0 THEN Err ELSE Ok(r[2], 4 + len)
       ELSE LET n == -len - 1 IN
            IF Len(body) < 2 * (n + 1) THEN Err
            ELSE LET us == [j \in 1..n |-> body[2 * j - 1] + 256 * body[2 * j]]  r == Utf16(us)
                 IN IF ~r[1] \/ body[2 * n + 1] # 0 \/ body[2 * n + 2] # 0 THEN Err ELSE Ok(r[2], 4 + 2 * (n + 1))
Dec(bs) == IF Len(bs) < 4 THEN Err ELSE DecBody(Int32(bs), SubSeq(bs, 5, Len(bs)))
=============================================================================
