---------------------------- MODULE TraceBitmap ----------------------------
(* Recorded calls of the real bitmap.  Events: [op |-> "act" or "unset", t,    *)
(* on |-> the ticks reported active afterwards], and [op |-> "ask", q |->      *)
(* queries <<t, d, answer>>], and [op |-> "byte", q |-> <<byte, d, ix,         *)
(* contain, answer>>] for the search in one byte.                              *)
EXTENDS TickSet, Sequences, TLC, Json, IOUtils
CONSTANT Report
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, S, bad
vars == <<tr, i, S, bad>>
T == Traces[tr]
IfB(c, b) == IF c THEN {b} ELSE {}
ToSetOf(s) == {s[k] : k \in DOMAIN s}
BitsOf(n) == {b \in 0 .. 7 : (n \div (2 ^ b)) % 2 = 1}
\* the search in one byte: strictly past the position when it is the byte of the position, else in all of it
ByteNext(q) == NextOf(BitsOf(q[1]), IF q[4] = 1 THEN q[3] ELSE IF q[2] = 0 THEN 8 ELSE -1, q[2])

Init == tr \in DOMAIN Traces /\ i = 1 /\ S = {} /\ bad = {}
Step ==
    /\ i < Len(T.ev)
    /\ LET e == T.ev[i + 1]
           S2 == CASE e.op = "act" -> S \union {e.t} [] e.op = "unset" -> S \ {e.t} [] OTHER -> S
       IN /\ S' = S2
          /\ bad' = IfB(e.res # "ok", <<"C18", "call failed">>)
                \union (IF e.res # "ok" THEN {} ELSE
                 CASE e.op \in {"act", "unset"} -> IfB(ToSetOf(e.on) # S2, <<"C18", "active ticks after a change">>)
                   [] e.op = "ask" -> IfB(\E k \in DOMAIN e.q : e.q[k][3] # NextOf(S, e.q[k][1], e.q[k][2]), <<"C18", "next active tick">>)
                   [] e.op = "byte" -> IfB(\E k \in DOMAIN e.q : e.q[k][5] # ByteNext(e.q[k]), <<"C18", "next tick in a byte">>))
    /\ i' = i + 1 /\ tr' = tr
Spec == Init /\ [][Step]_vars
C18 == \A b \in bad : b[1] # "C18"
=============================================================================
