------------------------------- MODULE PakCli -------------------------------
(* The command line tool: a directory tree is packed, a pak is extracted.    *)
(* A path is a sequence of components; extraction maps an entry name below   *)
(* the output directory or refuses it.                                       *)
EXTENDS PakLayout, Json, CSV, IOUtils
CONSTANTS Comps, MaxLen, Conts, MaxF, Vers, Abs, Tree
VARIABLES files, out
\* where a name leads, relative to the output directory; depth -1 means outside
RECURSIVE Walk(_, _)
Walk(st, cs) == IF cs = <<>> \/ st = <<"OUT">> THEN st
                ELSE LET c == Head(cs) IN
                     Walk(IF c \in {"", "."} THEN st ELSE IF c = ".." THEN (IF st = <<>> THEN <<"OUT">> ELSE SubSeq(st, 1, Len(st) - 1)) ELSE Append(st, c), Tail(cs))
Plain(f) == ~f.abs /\ f.p # <<>> /\ \A j \in DOMAIN f.p : f.p[j] \notin {"", ".", ".."}
Target(f) == IF f.abs THEN <<"OUT">> ELSE Walk(<<>>, f.p)
Escapes(f) == Target(f) = <<"OUT">>
IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* two names that cannot both be files of one tree
Clash(f, g) == IsPrefix2(f.p, g.p) \/ IsPrefix2(g.p, f.p)
IsTree(fs) == /\ \A k \in DOMAIN fs : Plain(fs[k])
              /\ \A j, k \in DOMAIN fs : j # k => ~Clash(fs[j], fs[k])
Paths == UNION {[1..n -> Comps] : n \in 1..MaxLen}
Add == /\ out = <<>> /\ Len(files) < MaxF
       /\ \E p \in Paths, c \in Conts, a \in Abs :
            LET f == [p |-> p, abs |-> a, k |-> c[1], n |-> c[2]] IN
            /\ (Tree => IsTree(Append(files, f)))
            /\ \A k \in DOMAIN files : <<files[k].p, files[k].abs>> # <<p, a>>
            /\ files' = Append(files, f)
       /\ UNCHANGED out
\* the outcome the tool owes for an archive holding these names
Must(fs) == IF IsTree(fs) THEN "extract" ELSE "contain"
Entries(fs, z) == [k \in DOMAIN fs |-> [name |-> "@" \o S(k), k |-> fs[k].k, n |-> fs[k].n, z |-> z /\ fs[k].n >= 32]]
Pack == /\ out = <<>>
        /\ \E z \in BOOLEAN, given \in BOOLEAN, stale \in BOOLEAN, ver \in Vers, hurt \in BOOLEAN :
             /\ (Tree => ver = 8)
             /\ (hurt => Tree /\ z /\ \E k \in DOMAIN files : files[k].n \in 32..65535)
             /\ LET o == [bs |-> 65536, mp |-> "../../../", unc |-> 65536, meth |-> 1, names |-> ZlibOnly, wide |-> FALSE, phi |-> FALSE]
                    E == Entries(files, z /\ ver >= 3)
                    toks == IF Tree THEN <<>>
                            ELSE IF ver >= 10 THEN Hashed(ver, E, o, <<[d |-> "/", fs |-> [k \in DOMAIN E |-> [f |-> E[k].name, k |-> k]]]>>)
                            ELSE Classic(ver, E, o, [k \in DOMAIN E |-> k])
                IN out' = <<[kind |-> IF Tree THEN "tree" ELSE "pak", must |-> Must(files), files |-> files, zip |-> z, given |-> given, stale |-> stale, hurt |-> hurt, toks |-> toks]>>
        /\ UNCHANGED files
CInit == files = <<>> /\ out = <<>>
CNext == Add \/ Pack
CSpec == CInit /\ [][CNext]_<<files, out>>
Out == out # <<>> => CSVWrite("%1$s", <<ToJson(out[1])>>, IOEnv.OUT)
\* a tree never contains a name that leads out of the output directory, and its targets are the names themselves
TreeSafe == \A k \in DOMAIN files : Plain(files[k]) => ~Escapes(files[k]) /\ Target(files[k]) = files[k].p
OwedOk == out # <<>> /\ out[1].must = "extract" => \A k \in DOMAIN files : ~Escapes(files[k])
=============================================================================
