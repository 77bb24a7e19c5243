----------------------------- MODULE MC_Formulas -----------------------------
(* The laws between the formulas, on a grid of prices and liquidities.          *)
EXTENDS PoolFormulas, TLC
CONSTANTS Prices, Liqs       \* TLC integers: prices in sixteenths
VARIABLES l, p, a, b, q
vars == <<l, p, a, b, q>>
Sx(k) == nDiv(nInt(k), nInt(16))
Init == l \in Liqs /\ p \in Prices /\ a \in Prices /\ b \in {x \in Prices : x > a} /\ q \in Prices
Spec == Init /\ [][UNCHANGED vars]_vars
Hold == Laws(nInt(l), Sx(p), Sx(a), Sx(b), Sx(q))
\* powers of the tick base increase, and every price has one tick
Ticks == \A t \in 0 .. 200 : Lt(nTickPrice(t), nTickPrice(t + 1)) /\ Same(nMul(nTickPrice(t), nTickPrice(t)), nDiv(nTickPrice(2 * t + 2), nTickPrice(2)))
=============================================================================
