---------------------------- MODULE TraceDecimal ----------------------------
(* Recorded calls of the real decimals.  An event is a batch of calls          *)
(* [op, a |-> arguments, o |-> outcome].                                        *)
EXTENDS Decimal, TLC, Json, IOUtils
CONSTANT Report
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, bad
vars == <<tr, i, bad>>
T == Traces[tr]
Wrong(c) == IF c.op \in Arithmetic THEN (IF Ok(c.op, c.a, c.o) THEN {} ELSE {<<"C19", c.op>>})
            ELSE IF c.op \in Functions THEN (IF OkF(c.op, c.a, c.o) THEN {} ELSE {<<"C20", c.op>>})
            ELSE (IF OkT(c.op, c.a, c.o) THEN {} ELSE {<<"C22", c.op>>})
Init == tr \in DOMAIN Traces /\ i = 1 /\ bad = {}
Step == /\ i < Len(T.ev)
        /\ LET e == T.ev[i + 1] IN
           bad' = UNION {LET w == Wrong(e.calls[k]) IN IF w # {} /\ Report /\ PrintT(<<"WRONG", ToJson(e.calls[k])>>) THEN w ELSE w : k \in DOMAIN e.calls}
        /\ i' = i + 1 /\ tr' = tr
Spec == Init /\ [][Step]_vars
Holds(p) == \A b \in bad : b[1] # p
C19 == Holds("C19")
C20 == Holds("C20")
C22 == Holds("C22")
=============================================================================
