----------------------------- MODULE PoolFormulas -----------------------------
(* The formulas of a position and of the curve, exactly, and how far the code   *)
(* may be from them.                                                            *)
(*                                                                             *)
(* All numbers are fixed-point with 24 decimals (BigNum).  Prices are root      *)
(* prices: p the current one, a and b the ends of a range; l is liquidity.      *)
EXTENDS BigNum, FiniteSets

n3(x, y, z) == nMul(nMul(x, y), z)
nDist(x, y) == nAbs(nSub(x, y))
Clamp(p, a, b) == nMax(nMin(p, b), a)

-----------------------------------------------------------------------------
\* the exact formulas (in one division of integers, so that no digit is lost before it)
T24 == iPow("10", 24)
T48 == iPow("10", 48)
LiqX(x, a, b) == iDiv(iMul(iMul(x, a), b), iMul(nSub(b, a), T24))
LiqY(y, a, b) == nDiv(y, nSub(b, a))
Liq(x, y, p, a, b) == IF Le(p, a) THEN LiqX(x, a, b)
                      ELSE IF Lt(p, b) THEN nMin(LiqX(x, p, b), LiqY(y, a, p))
                      ELSE LiqY(y, a, b)
XOf(l, p, a, b) == LET q == Clamp(p, a, b) IN iDiv(iMul(iMul(l, nSub(b, q)), T24), iMul(q, b))
YOf(l, p, a, b) == LET q == Clamp(p, a, b) IN nMul(l, nSub(q, a))
LowEnd(l, p, y) == nSub(p, nDiv(y, l))
HighEnd(l, p, x) == iDiv(iMul(iMul(l, p), T24), iSub(iMul(l, T24), iMul(p, x)))
LowEnd2(x, y, p, b) == nSub(nAdd(iDiv(iMul(y, T48), iMul(b, x)), p), iDiv(iMul(y, T48), iMul(p, x)))
HighEnd2(x, y, p, a) == iDiv(iMul(iMul(p, y), T48), iSub(iMul(y, T48), iMul(iMul(nSub(p, a), p), x)))
DX(l, p, q) == iDiv(iMul(iMul(l, nSub(p, q)), T24), iMul(p, q))
DY(l, p, q) == nMul(l, nSub(q, p))
PriceDX(l, p, dx) == iDiv(iMul(iMul(l, p), T24), iAdd(iMul(dx, p), iMul(l, T24)))
PriceDY(l, p, dy) == nAdd(p, nDiv(dy, l))
\* toward an oracle price o with coefficient c = k/4
HmmX(l, p, q, k, o) ==
    IF k = 4 THEN nMul(nDiv(l, o), nLn(nDiv(p, q)))
    ELSE nDiv(nMulDiv(l, nSub(nPow4(q, k - 4), nPow4(p, k - 4)), nPow4(o, k)), nDiv(nInt(4 - k), nInt(4)))
HmmY(l, p, q, k, o) ==
    IF k = 4 THEN n3(l, o, nLn(nDiv(q, p)))
    ELSE nDiv(n3(l, nPow4(o, k), nSub(nPow4(q, 4 - k), nPow4(p, 4 - k))), nDiv(nInt(4 - k), nInt(4)))

-----------------------------------------------------------------------------
\* how these depend on each other (checked on a grid by MC_Formulas)
Same(v, w) == Near(v, w, nMul(nSci(1, -15), nAdd(One, nAbs(v))))
Laws(l, p, a, b, q) ==
    LET x == XOf(l, p, a, b)  y == YOf(l, p, a, b)  inside == Lt(a, p) /\ Lt(p, b) IN
    /\ Same(Liq(x, y, p, a, b), l)
    /\ (Ge(p, b) => x = Zero) /\ (Le(p, a) => y = Zero) /\ Ge(x, Zero) /\ Ge(y, Zero)
    /\ inside => /\ Same(LowEnd(l, p, y), a) /\ Same(HighEnd(l, p, x), b)
                 /\ Same(LowEnd2(x, y, p, b), a) /\ Same(HighEnd2(x, y, p, a), b)
    \* a move of the price within the range changes the position's tokens by DX and DY
    /\ (Le(a, p) /\ Le(p, b) /\ Le(a, q) /\ Le(q, b)) =>
         /\ Same(DX(l, p, q), nSub(XOf(l, q, a, b), x)) /\ Same(DY(l, p, q), nSub(YOf(l, q, a, b), y))
    /\ Same(PriceDX(l, p, DX(l, p, q)), q) /\ Same(PriceDY(l, p, DY(l, p, q)), q)
    \* the adjusted amounts lie between nothing and the unadjusted ones when the price moves toward the oracle
    /\ \A k \in {4, 5, 6, 8} :
         /\ Lt(p, q) => LET h == HmmX(l, p, q, k, q) IN Le(h, Zero) /\ Ge(h, nSub(DX(l, p, q), nSci(1, -15)))
         /\ Lt(q, p) => LET h == HmmY(l, p, q, k, q) IN Le(h, Zero) /\ Ge(h, nSub(DY(l, p, q), nSci(1, -15)))

-----------------------------------------------------------------------------
\* Outcomes: <<"n", numeral with 24 decimals>>, <<"i", numeral>>, <<"nan">>, <<"p">> a panic, <<"hang">>
Room == nSci(1, 14)
u == nSci(1, -12)
eps == nSci(3, -22)   \* of the 24 decimals themselves
Refused(o) == o[1] = "p"
Val(o) == o[2]
IsN(o) == o[1] = "n"
IsI(o) == o[1] = "i"
Times(k, v) == nMul(nInt(k), v)
Fit(S) == \A v \in S : Lt(nAbs(v), Room)

\* below the exact value (in magnitude), by no more than t
Below(o, E, t) == IsN(o) /\ Le(nAbs(Val(o)), nAdd(nAbs(E), nAdd(eps, nMul(nAbs(E), nSci(1, -20))))) /\ Near(Val(o), E, nAdd(t, eps))
Within(o, E, t) == IsN(o) /\ Near(Val(o), E, nAdd(t, eps))
Gives(o, right, must) == IF Refused(o) THEN ~must ELSE right

\* ---- decimals: arguments and outcomes have twelve decimals
TolLiqX(x, a, b) == nAdd(nDiv(nMul(nAdd(nAdd(a, b), nInt(3)), u), nSub(b, a)), Times(2, u))
TolXOf(E, d) == nAdd(Times(2, nDiv(nMul(u, nAdd(One, E)), d)), Times(2, u))
\* error of the power x^(q/4), q in 0..8, of an argument of moderate size
TolPow(x, q) ==
    LET r4 == nPow4(x, 1)  t4 == nAdd(Times(3, u), nDiv(Times(3, u), nMax(r4, u))) IN
    CASE q \in {0, 4} -> Zero
      [] q = 1 -> t4
      [] q = 2 -> Times(2, u)
      [] q = 8 -> Times(2, u)
      [] q = 5 -> nAdd(nMul(x, t4), Times(2, u))
      [] q = 6 -> nAdd(nMul(x, Times(2, u)), Times(2, u))
\* prices the logarithm and the powers are accurate for
Usable(S) == \A v \in S : Gt(v, nSci(1, -1)) /\ Lt(v, nSci(1, 6))
Quarters(c) == iInt(iDiv(iMul("4", c), One))
KnownC(c) == Ge(c, Zero) /\ Le(c, nInt(2)) /\ iSgn(iMod(iMul("4", c), One)) = 0 /\ Quarters(c) \in {4, 5, 6, 8}

OkDec(op, a, o) ==
    LET A == a[1]  B == a[2]  C == a[3]  P == a[4]  Q == a[5] IN
    CASE op = "liqx" -> IF Le(C, B) THEN Refused(o)
                        ELSE Gives(o, Below(o, LiqX(A, B, C), TolLiqX(A, B, C)), Fit({A, B, C, nMul(A, B), n3(A, B, C)}))
      [] op = "liqy" -> IF Le(C, B) THEN Refused(o) ELSE Gives(o, Below(o, LiqY(A, B, C), Times(2, u)), Fit({A}))
      [] op = "liq" ->
           LET x == A  y == B  p == C  lo == P  hi == Q IN
           IF Le(hi, lo) THEN Refused(o)
           ELSE IF Le(p, lo) THEN Gives(o, Below(o, LiqX(x, lo, hi), TolLiqX(x, lo, hi)), Fit({x, nMul(x, lo), n3(x, lo, hi)}))
           ELSE IF Ge(p, hi) THEN Gives(o, Below(o, LiqY(y, lo, hi), Times(2, u)), Fit({y}))
           ELSE LET X == LiqX(x, p, hi)  Y == LiqY(y, lo, p) IN
                Gives(o, IsN(o) /\ Le(Val(o), nAdd(nMin(X, Y), nAdd(eps, nMul(nMin(X, Y), nSci(1, -20)))))
                         /\ Ge(Val(o), nSub(nMin(nSub(X, TolLiqX(x, p, hi)), nSub(Y, Times(2, u))), eps)),
                      Fit({x, y, nMul(x, p), n3(x, p, hi)}))
      [] op = "xl" ->
           IF Zero \in {B, C, P} THEN Refused(o)
           ELSE IF Lt(P, C) THEN TRUE
           ELSE LET q == Clamp(B, C, P)  d == nMul(q, P)  E == XOf(A, B, C, P) IN
                Gives(o, Below(o, E, TolXOf(E, d)) /\ (Ge(B, P) => Val(o) = Zero), Fit({A, d, nMul(A, nSub(P, q))}))
      [] op = "yl" ->
           IF Lt(P, C) THEN TRUE
           ELSE LET E == YOf(A, B, C, P) IN
                Gives(o, Below(o, E, Times(2, u)) /\ (Le(B, C) => Val(o) = Zero), Fit({A, E}))
      [] op = "rpa1" ->
           IF A = Zero THEN Refused(o)
           ELSE LET E == LowEnd(A, B, C) IN
                IF Lt(E, nNeg(Times(3, u))) THEN Refused(o) ELSE Gives(o, Within(o, E, Times(3, u)), Fit({C}) /\ Gt(E, Times(3, u)))
      [] op = "rpb1" ->
           LET d == nSub(A, nMul(B, C)) IN
           IF Lt(nAbs(d), Times(9, u)) THEN TRUE
           ELSE LET E == HighEnd(A, B, C)  t == nAdd(Times(3, nDiv(nMul(u, nAdd(One, nAbs(E))), nAbs(d))), Times(3, u)) IN
                IF Lt(E, nNeg(t)) THEN Refused(o) ELSE Gives(o, Within(o, E, t), Fit({nMul(A, B), nMul(B, C)}) /\ Gt(d, Zero))
      [] op = "rpa2" ->
           LET x == A  y == B  p == C  hi == P IN
           IF x = Zero THEN Refused(o)
           ELSE IF Lt(nMul(p, x), Times(9, u)) \/ Lt(nMul(hi, x), Times(9, u)) THEN TRUE
           ELSE LET E == LowEnd2(x, y, p, hi)
                    T1 == nDiv(y, nMul(hi, x))  T2 == nDiv(y, nMul(p, x))
                    t == nAdd(nAdd(Times(2, nDiv(nMul(T1, u), nMul(hi, x))), Times(2, nDiv(nMul(T2, u), nMul(p, x)))), Times(5, u))
                IN IF Lt(E, nNeg(t)) THEN Refused(o) ELSE Gives(o, Within(o, E, t), Fit({y, nMul(hi, x), nMul(p, x)}) /\ Gt(E, t))
      [] op = "rpb2" ->
           LET x == A  y == B  p == C  lo == P
               d == nSub(y, n3(nSub(p, lo), p, x))  du == nMul(Times(2, u), nAdd(x, nInt(2)))
           IN IF Lt(p, lo) THEN Refused(o)
              ELSE IF Lt(d, nNeg(du)) THEN Refused(o)
              ELSE IF Lt(d, Times(4, du)) THEN TRUE
              ELSE LET E == HighEnd2(x, y, p, lo)  t == nAdd(Times(2, nDiv(nAdd(u, nMul(E, du)), d)), Times(3, u)) IN
                   Gives(o, Within(o, E, t), Fit({nMul(p, y), n3(p, p, x), nMul(p, p)}))
      [] op = "dx" ->
           IF Zero \in {B, C} THEN Refused(o)
           ELSE LET E == DX(A, B, C)  d == nMul(B, C) IN Gives(o, Below(o, E, TolXOf(nAbs(E), d)), Fit({A, d, nMul(A, nDist(B, C))}))
      [] op = "dy" -> LET E == DY(A, B, C) IN Gives(o, Below(o, E, Times(2, u)), Fit({A, E}))
      [] op = "dxh" ->
           IF Lt(P, One) THEN Refused(o)
           ELSE IF Eq(B, C) THEN IsN(o) /\ Val(o) = Zero
           ELSE IF Q = Zero THEN Refused(o)
           ELSE IF ~KnownC(P) \/ ~Usable({B, C, Q}) THEN TRUE
           ELSE LET k == Quarters(P)  E == HmmX(A, B, C, k, Q)
                    L == nDiv(A, nPow4(Q, k))
                    diff == IF k = 4 THEN nLn(nDiv(B, C)) ELSE nSub(nPow4(C, k - 4), nPow4(B, k - 4))
                    td == IF k = 4 THEN nSci(1, -9) ELSE nAdd(TolPow(C, k - 4), nAdd(TolPow(B, k - 4), u))
                    tL == nAdd(nDiv(nMul(L, Times(2, TolPow(Q, k))), nPow4(Q, k)), Times(2, u))
                    t == Times(5, nAdd(nAdd(nMul(L, td), nMul(tL, nAbs(diff))), u))
                IN Gives(o, Within(o, E, t),
                         Fit({A, B, C, L, Times(4, nMul(L, diff))}))
      [] op = "dyh" ->
           IF Lt(P, One) THEN Refused(o)
           ELSE IF Eq(B, C) THEN IsN(o) /\ Val(o) = Zero
           ELSE IF Zero \in {B, C} THEN Refused(o)
           ELSE IF ~KnownC(P) \/ ~Usable({B, C, Q}) THEN TRUE
           ELSE LET k == Quarters(P)  E == HmmY(A, B, C, k, Q)
                    L == nMul(A, nPow4(Q, k))
                    inv(v) == nDiv(One, nPow4(v, k - 4))
                    diff == IF k = 4 THEN nLn(nDiv(C, B)) ELSE nSub(inv(C), inv(B))
                    ti(v) == nAdd(nMul(Times(2, TolPow(v, k - 4)), nMul(inv(v), inv(v))), Times(2, u))
                    td == IF k = 4 THEN nSci(1, -9) ELSE nAdd(ti(B), ti(C))
                    tL == nAdd(nMul(A, TolPow(Q, k)), Times(2, u))
                    t == Times(5, nAdd(nAdd(nMul(L, td), nMul(tL, nAbs(diff))), u))
                IN Gives(o, Within(o, E, t),
                         Fit({A, B, C, L, Times(4, nMul(L, diff))}))
      [] op = "rpdx" ->
           LET d == nAdd(nMul(C, B), A) IN
           IF Lt(nAbs(d), Times(9, u)) THEN TRUE
           ELSE LET E == PriceDX(A, B, C)  t == nAdd(Times(3, nDiv(nMul(u, nAdd(One, nAbs(E))), nAbs(d))), Times(3, u)) IN
                IF Lt(E, nNeg(t)) THEN Refused(o) ELSE Gives(o, Within(o, E, t), Fit({nMul(A, B), nMul(B, C), nAdd(nAbs(A), nAbs(nMul(B, C)))}) /\ Gt(d, Zero))
      [] op = "rpdy" ->
           IF A = Zero THEN Refused(o)
           ELSE LET E == PriceDY(A, B, C) IN
                IF Lt(E, nNeg(Times(3, u))) THEN Refused(o) ELSE Gives(o, Within(o, E, Times(3, u)), Fit({C}) /\ Gt(E, Times(3, u)))

\* ---- floating point: relative to the size of what is added and subtracted
f == nSci(15, -15)     \* 64 times 2.2e-16
OkFloat(op, a, o) ==
    LET A == a[1]  B == a[2]  C == a[3]  P == a[4]  Q == a[5]
        Is(E, size) == Within(o, E, nAdd(nMul(f, nAbs(size)), nSci(1, -20)))
        Spread(E, n, d) == nMul(nAbs(E), nAdd(One, nDiv(n, nAbs(d))))   \* E = ../d, with n the size of what makes d
    IN
    CASE op = "liqx" -> IF Le(C, B) THEN TRUE ELSE Is(LiqX(A, B, C), Spread(LiqX(A, B, C), C, nSub(C, B)))
      [] op = "liqy" -> IF Le(C, B) THEN TRUE ELSE Is(LiqY(A, B, C), Spread(LiqY(A, B, C), C, nSub(C, B)))
      [] op = "liq" -> IF Le(Q, P) THEN TRUE
                       ELSE IF Le(C, P) THEN Is(LiqX(A, P, Q), Spread(LiqX(A, P, Q), Q, nSub(Q, P)))
                       ELSE IF Ge(C, Q) THEN Is(LiqY(B, P, Q), Spread(LiqY(B, P, Q), Q, nSub(Q, P)))
                       ELSE LET X == LiqX(A, C, Q)  Y == LiqY(B, P, C) IN
                            Is(nMin(X, Y), nAdd(Spread(X, Q, nSub(Q, C)), Spread(Y, C, nSub(C, P))))
      [] op = "xl" -> IF Lt(P, C) \/ Zero \in {B, C, P} THEN TRUE
                      ELSE Is(XOf(A, B, C, P), nAdd(nDiv(A, Clamp(B, C, P)), nDiv(A, P))) /\ (Ge(B, P) => Val(o) = Zero) /\ Ge(Val(o), Zero)
      [] op = "yl" -> IF Lt(P, C) THEN TRUE
                      ELSE Is(YOf(A, B, C, P), nMul(A, nAdd(C, Clamp(B, C, P)))) /\ (Le(B, C) => Val(o) = Zero) /\ Ge(Val(o), Zero)
      [] op = "rpa1" -> IF A = Zero THEN TRUE ELSE Is(LowEnd(A, B, C), nAdd(B, nDiv(C, A)))
      [] op = "rpb1" -> LET d == nSub(A, nMul(B, C)) IN
                        IF A = Zero \/ Lt(nAbs(d), nMul(A, nSci(1, -12))) THEN TRUE ELSE Is(HighEnd(A, B, C), Spread(HighEnd(A, B, C), nAdd(A, nMul(B, C)), d))
      [] op = "rpa2" -> IF Zero \in {A, C, P} THEN TRUE
                        ELSE Is(LowEnd2(A, B, C, P), nAdd(C, nAdd(nDiv(B, nMul(P, A)), nDiv(B, nMul(C, A)))))
      [] op = "rpb2" -> LET m == n3(nSub(C, P), C, A)  d == nSub(B, m)  s == nAdd(B, n3(nAdd(C, P), C, A)) IN
                        IF Lt(C, P) \/ Zero \in {A, B} \/ iSgn(B) < 0 \/ Lt(nAbs(d), nMul(s, nSci(1, -12))) THEN TRUE ELSE Is(HighEnd2(A, B, C, P), Spread(HighEnd2(A, B, C, P), s, d))
      [] op = "dx" -> IF Zero \in {B, C} THEN TRUE ELSE Is(DX(A, B, C), nAdd(nDiv(A, B), nDiv(A, C)))
      [] op = "dy" -> Is(DY(A, B, C), nMul(A, nAdd(B, C)))
      [] op = "dxh" -> IF ~Usable({B, C, Q}) \/ ~KnownC(P) THEN TRUE
                       ELSE LET k == Quarters(P)  L == nDiv(A, nPow4(Q, k)) IN
                            Is(HmmX(A, B, C, k, Q), IF k = 4 THEN nMul(L, nAdd(nInt(2), nAbs(nLn(nDiv(B, C)))))
                                                    ELSE Times(32, nMul(L, nAdd(nPow4(B, k - 4), nPow4(C, k - 4)))))
      [] op = "dyh" -> IF ~Usable({B, C, Q}) \/ ~KnownC(P) THEN TRUE
                       ELSE LET k == Quarters(P)  L == nMul(A, nPow4(Q, k)) IN
                            Is(HmmY(A, B, C, k, Q), IF k = 4 THEN nMul(L, nAdd(nInt(2), nAbs(nLn(nDiv(B, C)))))
                                                    ELSE Times(32, nMul(L, nAdd(nPow4(B, 4 - k), nPow4(C, 4 - k)))))
      [] op = "rpdx" -> LET d == nAdd(nMul(C, B), A) IN
                        IF A = Zero \/ B = Zero \/ Lt(nAbs(d), nMul(A, nSci(1, -12))) THEN TRUE
                        ELSE Is(PriceDX(A, B, C), Spread(PriceDX(A, B, C), nAdd(nAbs(nMul(C, B)), A), d))
      [] op = "rpdy" -> IF A = Zero THEN TRUE ELSE Is(PriceDY(A, B, C), nAdd(B, nDiv(nAbs(C), A)))

Formulas == {"liqx", "liqy", "liq", "xl", "yl", "rpa1", "rpb1", "rpa2", "rpb2", "dx", "dy", "dxh", "dyh", "rpdx", "rpdy"}
Arity(op) == CASE op \in {"liq", "dxh", "dyh"} -> 5 [] op \in {"xl", "yl", "rpa2", "rpb2"} -> 4 [] OTHER -> 3

-----------------------------------------------------------------------------
(* Ticks.  pr are prices of the code itself: of the ticks r - s, r and r + s    *)
(* around an outcome r ("nan" where there is none).                             *)
Has(v) == nNum(v)
TolTick(imp, t) == nMul(nTickPrice(t), IF imp = "dec" THEN Times((2 * t) + 4, u) ELSE Times((4 * (IF t < 0 THEN -t ELSE t)) + 64, nSci(3, -16)))
OkTickPrice(imp, t, o, pr) ==
    \* (a price beyond that of tick 262143 may not be held)
    \/ t > 262143 /\ Refused(o)
    \/   /\ IsN(o) /\ Near(Val(o), nTickPrice(t), nAdd(TolTick(imp, t), eps))
         /\ Has(pr[1]) => Lt(pr[1], Val(o))
         /\ Has(pr[3]) => Lt(Val(o), pr[3])
\* v <= w, up to a relative error
LeUp(v, w, d) == Le(v, nAdd(w, nMul(w, d)))
\* the highest (left to right: the lowest) of the ticks start, start + s, .. whose price is not above (below) p
Found(p, left, r, pr, start, s, d) ==
    IF left THEN /\ Has(pr[2]) /\ LeUp(p, pr[2], d)
                 /\ (r - s < start \/ (Has(pr[1]) => LeUp(pr[1], p, d) /\ (d = Zero => pr[1] # p)))
    ELSE /\ r <= start \/ (Has(pr[2]) /\ LeUp(pr[2], p, d))
         /\ Has(pr[3]) => LeUp(p, pr[3], d) /\ (d = Zero => pr[3] # p)
=============================================================================
