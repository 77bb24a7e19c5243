------------------------------- MODULE CLPool -------------------------------
(* A concentrated-liquidity pool with HMM adjustment: the ledger view.        *)
(*                                                                            *)
(* What a pool is, seen from outside: a set of positions (owner, price range, *)
(* liquidity, fees owed so far), a root price, the tick it is accounted in,   *)
(* two reserves and four pots (swap fees and HMM adjustments in X and Y).     *)
(* How the implementations get there (net/gross liquidity of ticks, fee       *)
(* growth outside of ticks, checkpoints) is in CLPoolMech.tla, which is       *)
(* checked to agree with this ledger.                                         *)
(*                                                                            *)
(* Amounts are ideal: 24 decimals.  The implementations compute with 12       *)
(* decimals or with binary floating point, see Judge.tla for how far they may *)
(* be off.                                                                    *)
EXTENDS BigNum, FiniteSets, TLC

\* prices of ticks: a function from the numeral of the tick
Price(P, t) == P[ToString(t)]

MaxOf(S) == CHOOSE m \in S : \A n \in S : n <= m
MinOf(S) == CHOOSE m \in S : \A n \in S : m <= n
FloorTo(t, sp) == (t \div sp) * sp

-----------------------------------------------------------------------------
\* positions: a function from <<owner, lower, upper>> to [L, owed, slk]
Ids(pos) == DOMAIN pos
InRng(id, tick) == id[2] <= tick /\ tick < id[3]
LiqAt(pos, tick) == LET in == {id \in DOMAIN pos : InRng(id, tick)}
                    IN nSumOver([id \in in |-> pos[id].L], in)
Active(pos) == {id[2] : id \in DOMAIN pos} \union {id[3] : id \in DOMAIN pos}

-----------------------------------------------------------------------------
\* what liquidity is worth, and what amounts buy which liquidity
Clamp(r, ra, rb) == nMax(ra, nMin(rb, r))
XOf(L, rp, ra, rb) == LET r == Clamp(rp, ra, rb)
                      IN nMulDiv(L, nSub(rb, r), nMul(r, rb))
YOf(L, rp, ra, rb) == nMul(L, nSub(Clamp(rp, ra, rb), ra))
LiqX(x, ra, rb) == nMulDiv(x, nMul(ra, rb), nSub(rb, ra))
LiqY(y, ra, rb) == nDiv(y, nSub(rb, ra))
LiqOf(x, y, rp, ra, rb) ==
    IF Le(rp, ra) THEN LiqX(x, ra, rb)
    ELSE IF Lt(rp, rb) THEN nMin(LiqX(x, rp, rb), LiqY(y, ra, rp))
    ELSE LiqY(y, ra, rb)

WorthX(P, pos, rp) == nSumOver([id \in DOMAIN pos |->
        XOf(pos[id].L, rp, Price(P, id[2]), Price(P, id[3]))], DOMAIN pos)
WorthY(P, pos, rp) == nSumOver([id \in DOMAIN pos |->
        YOf(pos[id].L, rp, Price(P, id[2]), Price(P, id[3]))], DOMAIN pos)
Owed(pos, k) == nSumOver([id \in DOMAIN pos |-> pos[id].owed[k]], DOMAIN pos)

-----------------------------------------------------------------------------
\* moving the price from a to b (a >= b when X is supplied, a <= b for Y)
InX(L, a, b)  == nMulDiv(L, nSub(a, b), nMul(a, b))
OutY(L, a, b) == nMul(L, nSub(a, b))
InY(L, a, b)  == nMul(L, nSub(b, a))
OutX(L, a, b) == nMulDiv(L, nSub(b, a), nMul(a, b))
EndX(L, a, in) == nMulDiv(L, a, nAdd(L, nMul(in, a)))
EndY(L, a, in) == nAdd(a, nDiv(in, L))

\* c as a number of quarters: the implementations' power function knows no finer exponent
Quarters(c) == iInt(iDiv(iMul(c, "4"), One))

\* output when every infinitesimal part is priced between the pool and the oracle
HmmY(L, a, b, c, o) ==
    LET q == Quarters(c) IN
    IF q = 4 THEN nMul(nMul(L, o), nLn(nDiv(a, b)))
    ELSE nDiv(nMul(nMul(L, nPow4(o, q)), nSub(nPow4(a, 4 - q), nPow4(b, 4 - q))), nSub(One, c))
HmmX(L, a, b, c, o) ==
    LET q == Quarters(c) IN
    IF q = 4 THEN nMul(nDiv(L, o), nLn(nDiv(b, a)))
    ELSE nDiv(nMul(nDiv(L, nPow4(o, q)), nSub(nPow4(a, q - 4), nPow4(b, q - 4))), nSub(One, c))

\* what is paid out; the adjustment applies only while the price moves toward the oracle
PaidY(L, a, b, c, o) ==
    IF Eq(c, Zero) \/ Eq(o, Zero) \/ Ge(o, a) THEN OutY(L, a, b)
    ELSE IF Ge(o, b) THEN nAdd(HmmY(L, a, o, c, o), OutY(L, o, b))
    ELSE HmmY(L, a, b, c, o)
PaidX(L, a, b, c, o) ==
    IF Eq(c, Zero) \/ Eq(o, Zero) \/ Le(o, a) THEN OutX(L, a, b)
    ELSE IF Le(o, b) THEN nAdd(HmmX(L, a, o, c, o), OutX(L, o, b))
    ELSE HmmX(L, a, b, c, o)

-----------------------------------------------------------------------------
(* One swap = a run of segments, each between two consecutive active ticks.   *)
(* dir is "x" (X supplied, price falls) or "y".  A run record:                *)
(*   tick, rp, rem (gross input left), segs, why (how the swap ended)         *)
(* hint resolves what numbers within rounding distance of a tick leave open:  *)
(* [on |-> FALSE], or the tick a real pool ended in and the dust it may be    *)
(* off by per unit of liquidity.                                              *)
NoHint == [on |-> FALSE]

\* input that moves the price over the whole way to the goal
Doable(dir, L, a, b) == IF dir = "x" THEN InX(L, a, b) ELSE InY(L, a, b)

Goal(dir, act, tick) == IF dir = "x" THEN {t \in act : t <= tick}
                        ELSE {t \in act : t > tick}
Nearest(dir, S) == IF dir = "x" THEN MaxOf(S) ELSE MinOf(S)

\* is the observed end beyond tick g ?
Beyond(dir, hint, g) == IF dir = "x" THEN hint.tick < g ELSE hint.tick >= g

\* is tick g the last one there is going down? The Python prototype has ticks below 0
Bottom(cfg, dir, g) == dir = "x" /\ g = 0 /\ cfg.floor

Segment(cfg, dir, L, a, b, rem, hint, g, big) ==
    LET fee  == cfg.fee
        net  == nMul(rem, nSub(One, fee))
        full == Doable(dir, L, a, b)
        dusty == hint.on /\ Near(full, net, nMul(hint.dust, nAdd(One, nMax(L, big))))
        cross == IF dusty /\ ~Bottom(cfg, dir, g) THEN Beyond(dir, hint, g) ELSE Lt(full, net)
        in   == IF cross THEN full ELSE net
    IN [L |-> L, from |-> a, g |-> g, cross |-> cross, in |-> in,
        near |-> Near(full, net, nMul(nSci(1, -9), nAdd(One, nMax(L, big)))),
        fee |-> IF cross THEN nMulDiv(in, fee, nSub(One, fee)) ELSE nSub(rem, net),
        to |-> IF cross THEN b ELSE IF dir = "x" THEN nMax(b, EndX(L, a, in)) ELSE nMin(b, EndY(L, a, in))]

RECURSIVE Run(_, _, _, _, _, _, _)
Run(P, cfg, act, pos, dir, r, hint) ==
    LET L == LiqAt(pos, r.tick)
        S == Goal(dir, act, r.tick)
        dustRem == hint.on /\ Le(r.rem, nMul(hint.dust, nAdd(One, r.big)))
    IN
    IF S = {} THEN [r EXCEPT !.why = "exhausted"]
    ELSE LET g == Nearest(dir, S)
             b == Price(P, g)
             beyond == IF dir = "x" THEN FloorTo(g - 1, cfg.spacing) ELSE g
    IN
    IF Eq(L, Zero)
    THEN \* a gap: go to the next active tick and cross it, nothing is traded
         IF dustRem /\ ~Beyond(dir, hint, g) THEN [r EXCEPT !.why = "filled"]
         ELSE Run(P, cfg, act, pos, dir, [r EXCEPT !.tick = beyond, !.rp = b], hint)
    ELSE LET seg == Segment(cfg, dir, L, r.rp, b, r.rem, hint, g, r.big)
             r2 == [r EXCEPT !.rem = nMax(Zero, nSub(@, nAdd(seg.in, seg.fee))),
                             !.segs = Append(@, seg @@ [tick |-> r.tick]),
                             !.rp = seg.to, !.big = nMax(@, L)]
         IN IF ~seg.cross
            THEN [r2 EXCEPT !.why = "filled"]
            ELSE IF Bottom(cfg, dir, g)
            THEN [r2 EXCEPT !.why = "floor", !.tick = 0]     \* no tick below
            ELSE Run(P, cfg, act, pos, dir, [r2 EXCEPT !.tick = beyond], hint)

SwapRun(P, cfg, pos, dir, tick, rp, d, hint) ==
    Run(P, cfg, Active(pos), pos, dir,
        [tick |-> tick, rp |-> rp, rem |-> d, segs |-> <<>>, why |-> "filled", big |-> Zero], hint)

\* amounts of a segment
SegOut(dir, s) == IF dir = "x" THEN OutY(s.L, s.from, s.to) ELSE OutX(s.L, s.from, s.to)
SegPaid(dir, s, c, o) == IF dir = "x" THEN PaidY(s.L, s.from, s.to, c, o)
                         ELSE PaidX(s.L, s.from, s.to, c, o)

\* what a segment adds to what position p is owed: <<fee x, fee y, adj x, adj y>>
Share(amount, Lp, L) == nMulDiv(amount, Lp, L)
SegOwed(dir, s, c, o) ==
    LET adj == nSub(SegOut(dir, s), SegPaid(dir, s, c, o))
    IN IF dir = "x" THEN <<s.fee, Zero, Zero, adj>> ELSE <<Zero, s.fee, adj, Zero>>
=============================================================================
