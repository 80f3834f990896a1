------------------------------- MODULE Choice -------------------------------
(* Choice trees: a node x (0..46336) determines its own choice and those of   *)
(* its children, so a whole random document is a function of one number and   *)
(* ranges of documents can be enumerated exhaustively and reproducibly.       *)
EXTENDS Integers, Sequences
Mod == 46337
H(x) == ((x * 16807) + 12345) % Mod
Sub(x, k) == H(((x * 43) + (k * 5741) + 11) % Mod)
Nat2(x, n) == (H(x) \div 5) % n
Pick(x, s) == s[Nat2(x, Len(s)) + 1]
Flip(x, n) == Nat2(x, n) = 0          \* true for one in n
=============================================================================
