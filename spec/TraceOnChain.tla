---------------------------- MODULE TraceOnChain ----------------------------
(* Recorded runs of the on-chain program, one instruction per step.           *)
EXTENDS OnChainBig, Json, IOUtils, Sequences

CONSTANT Report
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, ids, bad
vars == <<tr, i, ids, bad>>
T == Traces[tr]
ToSetOf(s) == {s[k] : k \in DOMAIN s}
Ins(e) == [e EXCEPT !.sig = ToSetOf(@)]
W(k) == T.ev[k].w

Init == tr \in DOMAIN Traces /\ i = 1 /\ ids = {} /\ bad = {}
Step ==
    /\ i < Len(T.ev)
    /\ LET e == Ins(T.ev[i + 1])
           ids2 == IF e.op = "pos" /\ e.res = "ok" THEN ids \union {<<e.acc.pool_state, e.acc.user, e.arg.lo, e.arg.hi>>} ELSE ids
           j == B!Judged(W(i), e, e.res, W(i + 1)) \union B!JudgedSaid(W(i), e, e.res, W(i + 1), e.said)
       IN /\ ids' = ids2
          \* the last position opened may be the only one not yet in its place
          /\ bad' = j \union (IF j = {} THEN B!Standing(W(i + 1), ids2, "0") ELSE {})
    /\ i' = i + 1 /\ tr' = tr
Spec == Init /\ [][Step]_vars
Holds(p) == \A b \in bad : b[1] # p
C14 == Holds("C14")
C15 == Holds("C15")
C16 == Holds("C16")
C17 == Holds("C17")
C25 == Holds("C25")
All == bad = {}
=============================================================================
