------------------------------ MODULE TraceMath ------------------------------
(* Recorded calls of the formulas of both pools.                                *)
EXTENDS PoolFormulas, TLC, Json, IOUtils
CONSTANT Report
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, bad
vars == <<tr, i, bad>>
T == Traces[tr]
N(s) == iMul(s, "1000000000000")    \* units of 1e-12
Args(c) == [k \in 1 .. 5 |-> IF k <= Arity(c.op) THEN N(c.a[k]) ELSE Zero]
OkBy(op, a, o) == IF T.imp = "dec" THEN OkDec(op, a, o) ELSE OkFloat(op, a, o)
\* tolerance of the conversions that go through logarithms
Loose(t) == IF T.imp = "dec" THEN nAdd(nSci(1, -9), nMul(nInt(t), nSci(1, -9))) ELSE nAdd(nSci(1, -12), nMul(nInt(IF t < 0 THEN -t ELSE t), nSci(1, -15)))
Sound(c) == \* the prices the code gives the ticks of a range
    \A k \in DOMAIN c.pr : LET t == c.a[k + Len(c.a) - 3] IN t > 262143 \/ (Has(c.pr[k]) /\ Near(c.pr[k], nTickPrice(t), nAdd(TolTick(T.imp, t), eps)))
\* the price 1 is that of tick 0 in every number format, and its logarithm is 0
OfOne(c) == c.op \in {"p2t", "p2tl", "pposs"} /\ N(c.a[1]) = One /\ T.start <= 0 /\ (T.imp # "dec" \/ c.op = "p2t" \/ c.a[IF c.op = "p2tl" THEN 3 ELSE 4] = 0)
Ok(c) ==
    LET o == c.o IN
    (OfOne(c) => IsI(o) /\ iInt(o[2]) = 0) /\
    CASE c.op = "t2p" -> OkTickPrice(T.imp, c.a[1], o, c.near)
      [] c.op = "p2t" -> IsI(o) /\ LET r == iInt(o[2]) IN Found(N(c.a[1]), c.a[2], r, c.near, T.start, 1, Loose(r))
      [] c.op = "p2tl" -> IsI(o) /\ LET r == iInt(o[2]) IN
                          IF T.imp = "dec" THEN r >= c.a[3] /\ Found(N(c.a[1]), c.a[2], r, c.near, c.a[3], 1, Zero)
                          ELSE Found(N(c.a[1]), c.a[2], r, c.near, T.start, 1, Loose(r))
      [] c.op = "tposs" -> LET t == c.a[1]  s == c.a[2] IN
                          IF s = 0 THEN T.imp = "float" \/ Refused(o)
                          ELSE IsI(o) /\ iInt(o[2]) = (IF c.a[3] THEN ((t + s - 1) \div s) * s ELSE (t \div s) * s)
      [] c.op = "pposs" -> IsI(o) /\ LET r == iInt(o[2])  s == c.a[2] IN
                          /\ r % s = 0
                          /\ IF T.imp = "dec" THEN Found(N(c.a[1]), c.a[3], r, c.near, c.a[4], s, Zero)
                             ELSE Found(N(c.a[1]), c.a[3], r, c.near, T.start, s, Loose(r))
      [] c.op = "liqt" -> Sound(c) /\ OkBy("liq", <<N(c.a[1]), N(c.a[2]), c.pr[1], c.pr[2], c.pr[3]>>, o)
      [] c.op = "xlt" -> Sound(c) /\ OkBy("xl", <<N(c.a[1]), c.pr[1], c.pr[2], c.pr[3], Zero>>, o)
      [] c.op = "ylt" -> Sound(c) /\ OkBy("yl", <<N(c.a[1]), c.pr[1], c.pr[2], c.pr[3], Zero>>, o)
      [] OTHER -> OkBy(c.op, Args(c), o)
OfTicks == {"t2p", "p2t", "p2tl", "tposs", "pposs"}
Wrong(c) == IF Ok(c) THEN {} ELSE {<<IF c.op \in OfTicks THEN "C21" ELSE "C23", T.imp \o " " \o c.op>>}
Init == tr \in DOMAIN Traces /\ i = 1 /\ bad = {}
Step == /\ i < Len(T.ev)
        /\ LET e == T.ev[i + 1] IN
           bad' = UNION {LET w == Wrong(e.calls[k]) IN IF w # {} /\ Report /\ PrintT(<<"WRONG", T.imp, ToJson(e.calls[k])>>) THEN w ELSE w : k \in DOMAIN e.calls}
        /\ i' = i + 1 /\ tr' = tr
Spec == Init /\ [][Step]_vars
Holds(p) == \A b \in bad : b[1] # p
C21 == Holds("C21")
C23 == Holds("C23")
All == bad = {}
=============================================================================
