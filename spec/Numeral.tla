------------------------------ MODULE Numeral ------------------------------
(* The text of a number: an optional sign, digits with at most one point, and *)
(* an optional exponent.  A text is a sequence of characters.                  *)
(* The automaton reads it character by character; Meaning says what it stands  *)
(* for: <<negative, digits, decimals, exponent>>, the numeral of all digits    *)
(* without the point, how many of them are decimals, and the exponent.         *)
EXTENDS Integers, Sequences

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitOf(c) == CHOOSE k \in 0 .. 9 : c = <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[k + 1]

\* states of the automaton
Move(st, c) ==
    CASE st = "start" /\ c = "-" -> "sign"
      [] st = "start" /\ c = "+" -> "plus"
      [] st \in {"start", "sign", "plus", "lead"} /\ c \in Digits -> "lead"
      [] st = "lead" /\ c = "." -> "point"
      [] st \in {"start", "sign", "plus"} /\ c = "." -> "barepoint"
      [] st \in {"point", "barepoint", "frac"} /\ c \in Digits -> "frac"
      [] st \in {"lead", "point", "frac"} /\ c \in {"e", "E"} -> "exp"
      [] st = "exp" /\ c \in {"-", "+"} -> "expsign"
      [] st \in {"exp", "expsign", "expdigits"} /\ c \in Digits -> "expdigits"
      [] OTHER -> "wrong"
Accepting == {"lead", "point", "frac", "expdigits"}
RECURSIVE Reads(_, _)
Reads(st, t) == IF t = <<>> THEN st ELSE Reads(Move(st, Head(t)), Tail(t))
WellFormed(t) == Reads("start", t) \in Accepting

At(t, S) == IF \E k \in DOMAIN t : t[k] \in S THEN CHOOSE k \in DOMAIN t : t[k] \in S /\ \A j \in 1 .. k - 1 : t[j] \notin S ELSE Len(t) + 1
RECURSIVE Cat(_)
Cat(t) == IF t = <<>> THEN "" ELSE Head(t) \o Cat(Tail(t))
RECURSIVE Number(_)
Number(t) == IF t = <<>> THEN 0 ELSE LET n == Number(SubSeq(t, 1, Len(t) - 1)) IN IF n > 9999 THEN 99999 ELSE 10 * n + DigitOf(t[Len(t)])
\* plainly written: no plus sign, digits on both sides of a point
Plain(t) == WellFormed(t) /\ t[1] # "+" /\ LET k == At(t, {"."}) IN k <= Len(t) => k > 1 /\ t[k - 1] \in Digits /\ k < Len(t) /\ t[k + 1] \in Digits
Meaning(t) ==
    LET e == At(t, {"e", "E"})
        base == SubSeq(t, 1, e - 1)
        ex == SubSeq(t, e + 1, Len(t))
        signed == base[1] \in {"-", "+"}
        b == IF signed THEN Tail(base) ELSE base
        p == At(b, {"."})
        ds == SubSeq(b, 1, p - 1) \o SubSeq(b, p + 1, Len(b))
        exs == ex # <<>> /\ ex[1] \in {"-", "+"}
        exn == Number(IF exs THEN Tail(ex) ELSE ex)
    IN [neg |-> base[1] = "-", digits |-> Cat(ds), decimals |-> IF p > Len(b) THEN 0 ELSE Len(b) - p,
        exp |-> IF exs /\ ex[1] = "-" THEN 0 - exn ELSE exn]
=============================================================================
