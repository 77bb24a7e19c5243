------------------------------ MODULE TracePool ------------------------------
(* Every recorded history of a real pool, one event per step.                 *)
EXTENDS Judge, Json, IOUtils, Sequences

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr,    \* which history
          i,     \* events judged so far
          st,    \* the ledger
          bad    \* what the last event broke
vars == <<tr, i, st, bad>>

T == Traces[tr]
Ev == T.ev[i + 1]

\* behaviours of CLPoolMech come with the state the specification is in: ticks are numbers of
\* T.grid (from 0), at is twice a tick, plus one between two ticks
Foreseen(o, x) ==
    LET g == T.grid
        n == Len(g)
        P(k) == Price(T.P, g[k + 1])
        exact == T.cfg.imp = "dec"
        tiny == nMul(nSci(1, -12), o.rp)
        on(k) == IF exact THEN Eq(o.rp, P(k)) ELSE Near(o.rp, P(k), tiny)
    IN  Same("C02", "active ticks foreseen", ToSet(o.ticks), ToSet(x.active))
        \union Same("C02", "number of positions foreseen", o.np, x.np)
        \union If(IF exact THEN ~Eq(o.liq, x.liq) ELSE ~Near(o.liq, x.liq, nMul(nSci(1, -9), nAdd(One, x.liq))), <<"C02", "liquidity foreseen">>)
        \union If(~((x.tick < 0 \/ g[x.tick + 1] <= o.tick) /\ (x.tick + 2 > n \/ o.tick < g[x.tick + 2])), <<"C03", "tick foreseen">>)
        \union If(~(IF x.at < 0 THEN Lt(o.rp, P(0))
                    ELSE IF x.at % 2 = 0 THEN on(x.at \div 2)
                    ELSE Gt(o.rp, P(x.at \div 2)) /\ (x.at = 2 * n - 1 \/ Lt(o.rp, P(x.at \div 2 + 1)))), <<"C03", "price foreseen">>)

\* the prices of the ticks are the implementation's own: are they right?
OkPrice(imp, t, r) == t > 262143 \/ Near(r, nTickPrice(t), nAdd(nMul(nTickPrice(t), IF imp = "dec" THEN nMul(nInt((2 * t) + 4), nSci(1, -12)) ELSE nMul(nInt((4 * (IF t < 0 THEN -t ELSE t)) + 64), nSci(3, -16))), nSci(1, -12)))

Init == /\ tr \in DOMAIN Traces
        /\ i = 1
        /\ st = NewSt(T.ev[1])
        /\ bad = (IF "pt" \in DOMAIN T THEN If(\E k \in DOMAIN T.pt : ~OkPrice(T.cfg.imp, T.pt[k], Price(T.P, T.pt[k])), <<"C21", "price of a tick">>) ELSE {})
                 \union Standing(T.P, T.cfg, <<>>, T.ev[1].o, [x |-> e, y |-> e, p |-> e])

Step(ops) ==
    /\ i < Len(T.ev) /\ ~st.dead /\ Ev.op \in ops
    /\ LET j == JudgeOp(T.P, T.cfg, st, Ev) IN /\ st' = j.st
                                          /\ bad' = j.bad \union (IF "exp" \in DOMAIN Ev /\ Ev.res = "ok" THEN Foreseen(Ev.o, Ev.exp) ELSE {})
    /\ i' = i + 1
    /\ UNCHANGED tr

DepositStep == Step({"dep"})
WithdrawStep == Step({"wit"})
SwapStep == Step({"swx", "swy"})
MakeStep == Step({"mk"})
Next == MakeStep \/ DepositStep \/ WithdrawStep \/ SwapStep

Spec == Init /\ [][Next]_vars

Holds(p) == \A b \in bad : b[1] # p
C01 == Holds("C01")
C02 == Holds("C02")
C03 == Holds("C03")
C04 == Holds("C04")
C05 == Holds("C05")
C06 == Holds("C06")
C07 == Holds("C07")
C08 == Holds("C08")
C09 == Holds("C09")
C10 == Holds("C10")
C11 == Holds("C11")
C12 == Holds("C12")
All == bad = {}
=============================================================================
