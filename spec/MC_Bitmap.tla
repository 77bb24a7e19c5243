----------------------------- MODULE MC_Bitmap -----------------------------
(* The bitmap: words of Width bits; a tick is bit (t mod Width) of word       *)
(* (t div Width), and the next tick is looked for in the rest of its own word *)
(* and then word by word.  It implements TickSet.  Every step is printed for  *)
(* the harness to replay on the real bitmap, with words of eight bits.        *)
EXTENDS TickSet, Sequences, TLC, Json

CONSTANTS Width, Words,
          Used,        \* the ticks that are changed
          Bug, Emit

VARIABLES map, act
Tick == 0 .. (Width * Words - 1)
Bit(t) == t % Width
Word(t) == t \div Width
Set == {t \in Tick : Bit(t) \in map[Word(t)]}

InWord(w, from, d) == \* bits of a word strictly below / above a position
    IF d = 0 THEN {b \in w : b < from} ELSE {b \in w : IF Bug = "not strict" THEN b >= from ELSE b > from}
Best(B, d) == IF d = 0 THEN CHOOSE b \in B : \A c \in B : c <= b ELSE CHOOSE b \in B : \A c \in B : b <= c
RECURSIVE Look(_, _, _)
Look(k, from, d) ==
    IF k \notin 0 .. Words - 1 THEN None
    ELSE LET B == InWord(map[k], from, d)
         IN IF B # {} THEN k * Width + Best(B, d)
            ELSE Look(IF d = 0 THEN k - 1 ELSE k + 1, IF Bug = "same bit" THEN from ELSE IF d = 0 THEN Width ELSE -1, d)
Next_(t, d) == Look(Word(t), Bit(t), d)

Init == map = [k \in 0 .. Words - 1 |-> {}] /\ act = <<"none", 0>>
On(t) == map' = [map EXCEPT ![Word(t)] = @ \union {Bit(t)}] /\ act' = <<"act", t>>
Off(t) == map' = [map EXCEPT ![Word(t)] = IF Bug = "clear word" THEN {} ELSE @ \ {Bit(t)}] /\ act' = <<"unset", t>>
Next == \E t \in Used : On(t) \/ Off(t)
Spec == Init /\ [][Next]_<<map, act>>
View == map

\* refinement: the set is the one that the steps would give, and queries answer as it would
Queries == \A t \in Tick, d \in {0, 1} : Next_(t, d) = NextOf(Set, t, d)
Changes == [][Set' = IF act'[1] = "act" THEN Set \union {act'[2]} ELSE Set \ {act'[2]}]_<<map, act>>
Edge == Emit => PrintT("EDGE" \o ToJson(<<Set, act', Set'>>))
=============================================================================
