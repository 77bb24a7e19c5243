------------------------------ MODULE GenText ------------------------------
(* Every text up to a length, for the harness to parse.                       *)
EXTENDS Numeral, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLES txt, st
Init == txt = <<>> /\ st = "start"
Next == Len(txt) < MaxLen /\ \E c \in Alphabet : txt' = Append(txt, c) /\ st' = Move(st, c)
Spec == Init /\ [][Next]_<<txt, st>>
\* the automaton accepts exactly what can be written as sign, digits, point, digits, exponent
Split == (st \in Accepting) <=>
    \E s \in {0, 1} : s <= Len(txt) /\ (s = 1 => txt[1] \in {"-", "+"}) /\
    \E k \in s .. Len(txt) : (\A j \in s + 1 .. k : txt[j] \in Digits) /\
    \E m \in k .. Len(txt) : (m > k => txt[k + 1] = "." /\ \A j \in k + 2 .. m : txt[j] \in Digits) /\ (m = k \/ m = k + 1 => k > s) /\
       \/ m = Len(txt)
       \/ /\ txt[m + 1] \in {"e", "E"}
          /\ \E x \in {0, 1} : m + 1 + x < Len(txt) /\ (x = 1 => txt[m + 2] \in {"-", "+"}) /\ \A j \in m + 2 + x .. Len(txt) : txt[j] \in Digits
Out == PrintT("TEXT" \o Cat(txt))
=============================================================================
