------------------------------ MODULE PakNames ------------------------------
(* Entry names used by the pak models, in ascending byte order of the name;  *)
(* a model refers to a name by its rank in this list.                        *)
EXTENDS Integers, Sequences
Names == << [n |-> "A/B/c.uasset", d |-> "A/B/", f |-> "c.uasset"],
            [n |-> "A/B/c.uexp",   d |-> "A/B/", f |-> "c.uexp"],
            [n |-> "A/b",          d |-> "A/",   f |-> "b"],
            [n |-> "a.txt",        d |-> "/",    f |-> "a.txt"],
            [n |-> "m{00e9}ta.json", d |-> "/",  f |-> "m{00e9}ta.json"],
            [n |-> "z z/{4e16}{754c}.bin", d |-> "z z/", f |-> "{4e16}{754c}.bin"] >>
DirList == <<"/", "A/", "A/B/", "z z/">>
=============================================================================
