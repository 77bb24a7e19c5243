------------------------------ MODULE TickSet ------------------------------
(* What the bitmap of active ticks stands for: a set of numbers.             *)
EXTENDS Integers, FiniteSets

None == -1
\* the nearest member strictly below (d = 0) or strictly above (d = 1) t
NextOf(S, t, d) ==
    LET C == IF d = 0 THEN {s \in S : s < t} ELSE {s \in S : s > t}
    IN IF C = {} THEN None
       ELSE IF d = 0 THEN CHOOSE s \in C : \A r \in C : r <= s
       ELSE CHOOSE s \in C : \A r \in C : s <= r
=============================================================================
