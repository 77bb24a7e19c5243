------------------------------ MODULE CLPoolMech ------------------------------
(* How the pools keep the ledger of CLPool.tla: net and gross liquidity and   *)
(* growth outside of every tick in use, a global growth, and a checkpoint per *)
(* position.  One action per step the code takes: a swap is a sequence of     *)
(* moves within a tick interval, crossings, and jumps over gaps.              *)
(*                                                                            *)
(* Prices are abstract: `at` is 2t on tick t and 2t+1 strictly between the    *)
(* ticks t and t+1.  Amounts are whole units; every move within an interval   *)
(* earns one unit of fees per unit of liquidity in range (one pot stands for  *)
(* the four of the pools, which are treated alike).                           *)
(*                                                                            *)
(* The ledger rides along in `owed` (what each position has earned), and the  *)
(* invariants say that the mechanism computes just that.                      *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Users, N,          \* ticks 0 .. N-1
          MaxL,              \* liquidity of a position, at most
          MaxPos,            \* positions open at a time
          MaxOps,            \* operations of liquidity providers and swaps
          Fees,              \* TRUE: growth is modelled
          Exact,             \* TRUE: fills may end exactly on a tick
          Floor,             \* TRUE: tick 0 is the lowest there is
          Bug                \* "" or the name of a planted design error

Ticks == 0 .. N - 1
Ids == {<<u, lo, hi>> \in Users \X Ticks \X Ticks : lo < hi}

VARIABLES tick,   \* the tick the pool is accounted in (-1: below all)
          at,     \* the price
          liq,    \* liquidity in range
          net, gross, f0,   \* of every tick; gross = 0: not in use
          fg,     \* global growth
          L, fr,  \* liquidity and checkpoint of every position (L = 0: not open)
          owed,   \* ledger: what the position has earned and not been paid
          phase,  \* "idle", "x", "y" (in a swap), "cross" (at a tick to be crossed)
          dir, ops, act
vars == <<tick, at, liq, net, gross, f0, fg, L, fr, owed, phase, dir, ops, act>>
\* what the label adds is no state
View == <<tick, at, liq, net, gross, f0, fg, L, fr, owed, phase, dir, ops>>

Active == {t \in Ticks : gross[t] # 0}
Open == {id \in Ids : L[id] > 0}
In(id) == id[2] <= tick /\ tick < id[3]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

TypeOK ==
    /\ tick \in -1 .. N - 1 /\ at \in -1 .. 2 * N - 1
    /\ phase \in {"idle", "x", "y", "cross"}
    /\ \A id \in Ids : L[id] \in 0 .. MaxL

Init ==
    /\ at \in -1 .. 2 * N - 1
    /\ tick = at \div 2
    /\ (Floor => at >= 0)
    /\ liq = 0 /\ fg = 0 /\ phase = "idle" /\ dir = "x" /\ ops = 0
    /\ net = [t \in Ticks |-> 0] /\ gross = net /\ f0 = net
    /\ L = [id \in Ids |-> 0] /\ fr = L /\ owed = L
    /\ act = <<"new", at>>

-----------------------------------------------------------------------------
\* growth below and above a tick; a tick not in use is taken to lie above all growth
Below(t) == IF gross[t] = 0 THEN fg ELSE IF tick >= t THEN f0[t] ELSE fg - f0[t]
Above(t) == IF gross[t] = 0 THEN 0 ELSE IF tick >= t THEN fg - f0[t] ELSE f0[t]
Inside(id) == fg - Below(id[2]) - Above(id[3])

\* growth outside of a tick that comes into use
F0(t) == IF gross[t] # 0 THEN f0[t]
         ELSE IF (IF Bug = "init at tick" THEN tick > t ELSE tick >= t) THEN fg ELSE 0
Released(n, g) == IF Bug = "release on net" THEN n = 0 ELSE g = 0

\* an operation on a position: d is the change of its liquidity, also zero or negative
Touch(id, d) ==
    LET new == L[id] + d
        lo == id[2]  hi == id[3]
    IN /\ L' = [L EXCEPT ![id] = new]
       /\ LET n == [net EXCEPT ![lo] = @ + d, ![hi] = @ - d]
              g == [gross EXCEPT ![lo] = @ + d, ![hi] = @ + d]
              rel(t) == t \in {lo, hi} /\ Released(n[t], g[t])
          IN /\ net' = [t \in Ticks |-> IF rel(t) THEN 0 ELSE n[t]]
             /\ gross' = [t \in Ticks |-> IF rel(t) THEN 0 ELSE g[t]]
             /\ f0' = [t \in Ticks |-> IF rel(t) THEN 0 ELSE IF t \in {lo, hi} THEN F0(t) ELSE f0[t]]
       /\ fr' = [fr EXCEPT ![id] = IF new = 0 THEN 0
                                   ELSE IF Bug = "no checkpoint" /\ L[id] = 0 THEN 0 ELSE Inside(id)]
       /\ liq' = IF In(id) THEN liq + d ELSE liq
       \* the mechanism pays L * (inside - checkpoint), see Paid
       /\ owed' = [owed EXCEPT ![id] = 0]

Busy == IF MaxOps = 0 THEN ops' = 0 ELSE ops < MaxOps /\ ops' = ops + 1   \* 0: no bound
Deposit(id, d) ==
    /\ phase = "idle" /\ Busy
    /\ L[id] + d <= MaxL /\ (L[id] > 0 \/ (d > 0 /\ Cardinality(Open) < MaxPos))
    /\ Touch(id, d)
    /\ act' = <<"dep", id, d>>
    /\ UNCHANGED <<tick, at, fg, phase, dir>>
Withdraw(id, d) ==
    /\ phase = "idle" /\ Busy
    /\ L[id] > 0 /\ d <= L[id]
    /\ Touch(id, -d)
    /\ act' = <<"wit", id, d>>
    /\ UNCHANGED <<tick, at, fg, phase, dir>>

-----------------------------------------------------------------------------
Earn == IF Fees
        THEN /\ fg' = fg + 1
             /\ owed' = [id \in Ids |-> IF In(id) THEN owed[id] + L[id] ELSE owed[id]]
        ELSE UNCHANGED <<fg, owed>>
Book == <<liq, net, gross, f0, L, fr>>

Begin(d) ==
    /\ phase = "idle" /\ Busy
    /\ phase' = d /\ dir' = d
    /\ act' = <<"begin", d>>
    /\ UNCHANGED <<tick, at, fg, owed>> /\ UNCHANGED Book

GoalX == {t \in Active : t <= tick}
GoalY == {t \in Active : t > tick}
Max(S) == CHOOSE m \in S : \A n \in S : n <= m
Min(S) == CHOOSE m \in S : \A n \in S : m <= n
Goal == IF phase = "x" THEN Max(GoalX) ELSE Min(GoalY)
HasGoal == IF phase = "x" THEN GoalX # {} ELSE GoalY # {}

\* the rest of the order is filled before the goal
Fill ==
    /\ phase \in {"x", "y"} /\ liq > 0 /\ HasGoal
    /\ at' \in (IF phase = "x" THEN 2 * Goal .. at ELSE at .. 2 * Goal)
    /\ (Exact \/ at' % 2 = 1)
    \* the tick of the end price, not above the current one and not below the goal
    /\ tick' = LET e == at' \div 2
               IN IF phase = "x" THEN (IF e > tick THEN tick ELSE e)
                  ELSE IF e > Goal - 1 THEN Goal - 1 ELSE e
    /\ Earn
    /\ phase' = "idle"
    /\ act' = <<"fill", at'>>
    /\ UNCHANGED <<dir, ops>> /\ UNCHANGED Book

\* the order reaches the goal with something left
Reach ==
    /\ phase \in {"x", "y"} /\ liq > 0 /\ HasGoal
    /\ at' = 2 * Goal
    /\ tick' = Goal
    /\ fg' = IF Fees THEN fg + 1 ELSE fg
    /\ owed' = IF Fees THEN [id \in Ids |-> IF In(id) THEN owed[id] + L[id] ELSE owed[id]] ELSE owed
    /\ phase' = IF Floor /\ phase = "x" /\ Goal = 0 THEN "idle" ELSE "cross"
    /\ act' = <<IF phase' = "idle" THEN "floor" ELSE "reach", at'>>
    /\ UNCHANGED <<dir, ops>> /\ UNCHANGED Book

Flip(t) == [f0 EXCEPT ![t] = IF Bug = "flip right only" /\ dir = "x" THEN @ ELSE fg - @]
\* the price is on the tick: take in or let go of the liquidity on the other side
Cross ==
    /\ phase = "cross"
    /\ f0' = Flip(tick)
    /\ liq' = IF dir = "x" THEN liq - net[tick] ELSE liq + net[tick]
    /\ tick' = IF dir = "x" THEN tick - 1 ELSE tick
    /\ phase' = dir
    /\ act' = <<"cross", tick>>
    /\ UNCHANGED <<at, net, gross, fg, L, fr, owed, dir, ops>>

\* no liquidity here: go to the next tick in use
Gap ==
    /\ phase \in {"x", "y"} /\ liq = 0 /\ HasGoal
    /\ at' = 2 * Goal /\ tick' = Goal
    /\ phase' = "cross"
    /\ act' = <<"gap", Goal>>
    /\ UNCHANGED <<fg, owed, dir, ops>> /\ UNCHANGED Book

Exhausted ==
    /\ phase \in {"x", "y"} /\ ~HasGoal
    /\ phase' = "idle"
    /\ act' = <<"exhausted", at>>
    /\ UNCHANGED <<tick, at, fg, owed, dir, ops>> /\ UNCHANGED Book

Next ==
    \/ \E id \in Ids, d \in 0 .. MaxL : Deposit(id, d)
    \/ \E id \in Ids, d \in 0 .. MaxL : Withdraw(id, d)
    \/ \E d \in {"x", "y"} : Begin(d)
    \/ Fill \/ Reach \/ Cross \/ Gap \/ Exhausted

Spec == Init /\ [][Next]_vars
\* every swap ends
Fair == Spec /\ WF_vars(Reach \/ Cross \/ Gap \/ Exhausted)
SwapEnds == phase \in {"x", "y", "cross"} ~> phase = "idle"

-----------------------------------------------------------------------------
Paid(id) == L[id] * (Inside(id) - fr[id])
Between == phase # "cross"   \* during a crossing the tick is ahead of the liquidity

LiquidityInRange == Between => liq = Sum(L, {id \in Ids : In(id)})
TicksInUse == Active = {id[2] : id \in Open} \union {id[3] : id \in Open}
NetAndGross == \A t \in Ticks :
    /\ net[t] = Sum(L, {id \in Ids : id[2] = t}) - Sum(L, {id \in Ids : id[3] = t})
    /\ gross[t] = Sum(L, {id \in Ids : id[2] = t}) + Sum(L, {id \in Ids : id[3] = t})
PriceAndTick == Between =>
    /\ 2 * tick <= at /\ at <= 2 * tick + 2
    /\ (\A t \in Active : t > tick => at <= 2 * t)
    /\ (\A t \in Active : t <= tick => at >= 2 * t)
FeesToThoseWhoEarnedThem == Between => \A id \in Ids : L[id] > 0 => Paid(id) = owed[id]
GrowthConsistent == \A t \in Active : Below(t) + Above(t) = fg
NothingNegative == liq >= 0 /\ fg >= 0 /\ \A t \in Ticks : gross[t] >= 0
\* while no price is on a tick that is left, a swap X then Y (or back) undoes the ticks crossed
=============================================================================
