------------------------------ MODULE Decimal ------------------------------
(* Decimals: <<v, s, n>>, the number v / 10^s, or its negative when n.  What   *)
(* every operation must give, and when it may fail.                            *)
(*                                                                            *)
(* Outcomes: <<"d", v, s, n>> a decimal, <<"i", numeral>>, <<"b", boolean>>,   *)
(* <<"t", text>>, <<"e">> an error, <<"p">> a panic.                           *)
EXTENDS BigNum, Numeral, FiniteSets

Top == iPow("2", 128)
Top64 == iPow("2", 64)
Ten(k) == iPow("10", k)
V(d) == d[1]
S(d) == d[2]
Sv(d) == IF d[3] THEN iNeg(d[1]) ELSE d[1]
IsD(o) == o[1] = "d"
D(o) == <<o[2], o[3], o[4]>>
Refused(o) == o[1] \in {"e", "p"}
\* a decimal of that scale and signed value
IsDec(o, v, s) == IsD(o) /\ o[3] = s /\ Eq(Sv(D(o)), v)
IsInt(o, v) == o[1] = "i" /\ Eq(o[2], v)
IsBool(o, b) == o[1] = "b" /\ o[2] = b
Signed(mag, neg) == IF neg THEN iNeg(mag) ELSE mag
Fits(v) == Lt(iAbs(v), Top)
Near1(a, b) == Le(iAbs(iSub(a, b)), "1")

\* the outcome is `right` when it is one, and there is one when `must`
Gives(o, right, must) == IF Refused(o) THEN ~must ELSE right

Ok(op, a, o) ==
    LET x == a[1]  y == a[2] IN
    CASE op = "add" -> IF S(x) # S(y) THEN Refused(o)
                       ELSE LET r == iAdd(Sv(x), Sv(y)) IN IF Fits(r) THEN IsDec(o, r, S(x)) ELSE Refused(o)
      [] op = "sub" -> IF S(x) # S(y) THEN Refused(o)
                       ELSE LET r == iSub(Sv(x), Sv(y)) IN IF Fits(r) THEN IsDec(o, r, S(x)) ELSE Refused(o)
      [] op = "neg" -> IsDec(o, iNeg(Sv(x)), S(x))
      [] op = "mul" -> LET m == iMul(V(x), V(y)) IN Gives(o, IsDec(o, Signed(iDiv(m, Ten(S(y))), x[3] # y[3]), S(x)), Lt(m, Top))
      [] op = "mulup" -> LET m == iMul(V(x), V(y)) IN Gives(o, IsDec(o, Signed(iDivUp(m, Ten(S(y))), x[3] # y[3]), S(x)), Lt(iAdd(m, Ten(S(y))), Top))
      [] op = "muli" -> LET m == iMul(V(x), y) IN Gives(o, IsDec(o, Signed(m, x[3]), S(x)), Lt(m, Top))
      [] op = "div" -> IF Eq(V(y), "0") THEN Refused(o)
                       ELSE LET m == iMul(V(x), Ten(S(y))) IN Gives(o, IsDec(o, Signed(iDiv(m, V(y)), x[3] # y[3]), S(x)), Lt(m, Top))
      [] op = "divup" -> IF Eq(V(y), "0") THEN Refused(o)
                       ELSE LET m == iMul(V(x), Ten(S(y))) IN Gives(o, IsDec(o, Signed(iDivUp(m, V(y)), x[3] # y[3]), S(x)), Lt(iAdd(m, V(y)), Top))
      [] op = "divs" -> IF Eq(V(y), "0") THEN Refused(o)
                       ELSE LET k == a[3]  e == k + S(y) - S(x)
                                num == IF e >= 0 THEN iMul(V(x), Ten(e)) ELSE V(x)
                                den == IF e >= 0 THEN V(y) ELSE iMul(V(y), Ten(0 - e))
                            IN Gives(o, IsDec(o, Signed(iDiv(num, den), x[3] # y[3]), k), Lt(num, Top) /\ e <= 38 /\ e >= -38)
      [] op = "toscale" -> LET k == a[2] IN
                       IF k >= S(x) THEN LET m == iMul(V(x), Ten(k - S(x))) IN Gives(o, IsDec(o, Signed(m, x[3]), k), Lt(m, Top) /\ k - S(x) <= 38)
                       ELSE Gives(o, IsDec(o, Signed(iDiv(V(x), Ten(S(x) - k)), x[3]), k), S(x) - k <= 38)
      [] op = "toscaleup" -> LET k == a[2] IN
                       IF k >= S(x) THEN LET m == iMul(V(x), Ten(k - S(x))) IN Gives(o, IsDec(o, Signed(m, x[3]), k), Lt(m, Top) /\ k - S(x) <= 38)
                       ELSE Gives(o, IsDec(o, Signed(iDivUp(V(x), Ten(S(x) - k)), x[3]), k), S(x) - k <= 38 /\ Lt(iAdd(V(x), Ten(S(x) - k)), Top))
      [] op = "tocompute" -> IF S(x) <= 12 THEN LET m == iMul(V(x), Ten(12 - S(x))) IN Gives(o, IsDec(o, Signed(m, x[3]), 12), Lt(m, Top))
                             ELSE IsDec(o, Signed(iDiv(V(x), Ten(S(x) - 12)), x[3]), 12)
      [] op = "abs" -> LET m == iDiv(V(x), Ten(S(x))) IN IF Lt(m, Top64) THEN IsInt(o, m) ELSE Refused(o)
      [] op = "absup" -> LET m == iDivUp(V(x), Ten(S(x))) IN IF Lt(m, Top64) THEN Gives(o, IsInt(o, m), Lt(iAdd(V(x), Ten(S(x))), Top)) ELSE Refused(o)
      [] op = "scaled" -> LET k == a[2]  m == IF k >= S(x) THEN iMul(V(x), Ten(k - S(x))) ELSE iDiv(V(x), Ten(S(x) - k))
                          IN IF Lt(m, Top64) THEN IsInt(o, m) ELSE Refused(o)
      [] op = "scaledup" -> LET k == a[2]  m == IF k >= S(x) THEN iMul(V(x), Ten(k - S(x))) ELSE iDivUp(V(x), Ten(S(x) - k))
                          IN IF Lt(m, Top64) THEN Gives(o, IsInt(o, m), Lt(iAdd(V(x), Ten(S(x))), Top)) ELSE Refused(o)
      [] op = "denominator" -> IsInt(o, Ten(S(x)))
      [] op = "ispos" -> IsBool(o, iSgn(Sv(x)) > 0)
      [] op = "isneg" -> IsBool(o, iSgn(Sv(x)) < 0)
      [] op = "iszero" -> IsBool(o, iSgn(V(x)) = 0)
      [] op = "isint" -> IsBool(o, iSgn(iMod(V(x), Ten(S(x)))) = 0)
      \* conversions of the stored value
      [] op = "tou64" -> IF Lt(V(x), Top64) THEN x[3] \/ IsInt(o, V(x)) ELSE Refused(o)
      [] op = "intou64" -> IF Lt(V(x), Top64) THEN x[3] \/ IsInt(o, V(x)) ELSE Refused(o)
      [] op = "intousize" -> IF Lt(V(x), Top64) THEN x[3] \/ IsInt(o, V(x)) ELSE Refused(o)
      [] op = "intou128" -> x[3] \/ IsInt(o, V(x))
      [] op = "intoi32" -> LET v == Sv(x) IN IF Lt(iAbs(v), iPow("2", 31)) THEN IsInt(o, v) ELSE Refused(o) \/ Eq(v, iNeg(iPow("2", 31)))
      [] op = "fromu64" -> IsDec(o, a[1], 0)
      [] op = "fromu128" -> IsDec(o, a[1], 0)
      [] op = "fromscaled" -> IsDec(o, a[1], a[2])
      [] op = "one" -> IsDec(o, Ten(12), 12)
      [] op = "two" -> IsDec(o, iMul("2", Ten(12)), 12)
      [] op = "eq" -> IF S(x) # S(y) THEN Refused(o) ELSE IsBool(o, Eq(Sv(x), Sv(y)))
      [] op = "lt" -> IF S(x) # S(y) THEN Refused(o) ELSE IsBool(o, Lt(Sv(x), Sv(y)))
      [] op = "gt" -> IF S(x) # S(y) THEN Refused(o) ELSE IsBool(o, Gt(Sv(x), Sv(y)))
      [] op = "lte" -> IF S(x) # S(y) THEN Refused(o) ELSE IsBool(o, Le(Sv(x), Sv(y)))
      [] op = "gte" -> IF S(x) # S(y) THEN Refused(o) ELSE IsBool(o, Ge(Sv(x), Sv(y)))
      [] op = "min" -> IF S(x) # S(y) THEN Refused(o) ELSE IsDec(o, nMin(Sv(x), Sv(y)), S(x))
      [] op = "max" -> IF S(x) # S(y) THEN Refused(o) ELSE IsDec(o, nMax(Sv(x), Sv(y)), S(x))
      [] OTHER -> FALSE
Arithmetic == {"add", "sub", "neg", "mul", "mulup", "muli", "div", "divup", "divs", "toscale", "toscaleup", "tocompute", "abs", "absup", "scaled", "scaledup",
               "denominator", "ispos", "isneg", "iszero", "isint", "tou64", "intou64", "intousize", "intou128", "intoi32", "fromu64", "fromu128", "fromscaled",
               "one", "two", "eq", "lt", "gt", "lte", "gte", "min", "max"}

-----------------------------------------------------------------------------
\* roots, logarithms and powers; N(d) is the number with 24 decimals
Ulp(d) == iDiv(Ten(24), Ten(S(d)))
N(d) == iMul(Sv(d), Ulp(d))
\* |base|^n by squaring needs no larger product than this
RoomFor(P, u) == Lt(nDiv(nDiv(P, u), u), nSci(3, 38))
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN One ELSE IF n % 2 = 1 THEN nMul(x, Power(x, n - 1)) ELSE LET h == Power(x, n \div 2) IN nMul(h, h)
\* n times two units, relative to what is larger than one
PowTol(P, n, u) == nMul(nInt(2 * n), nMul(u, nMax(One, nAbs(P))))
\* value and tolerance of the q-th quarter power, 0 <= q <= 6
Quarter(x, q, u) ==
    LET r4 == nPow4(x, 1)
        t4 == nAdd(nMul(u, "3000000000000000000000000"), nDiv(nMul(u, "3000000000000000000000000"), nMax(r4, u)))
    IN CASE q = 0 -> <<One, Zero>>
         [] q = 1 -> <<r4, t4>>
         [] q = 2 -> <<nSqrt(x), nMul(u, "2000000000000000000000000")>>
         [] q = 4 -> <<x, Zero>>
         [] q = 5 -> <<nMul(x, r4), nAdd(nMul(x, t4), nAdd(u, u))>>
         [] q = 6 -> <<nMul(x, nSqrt(x)), nAdd(nMul(x, nAdd(u, u)), nAdd(u, u))>>
\* 1 / (P +- t), rounded to u
Inverse(o, P, t, u) ==
    LET lo == nDiv(One, nAdd(P, t))
        hi == IF Gt(P, t) THEN nDiv(One, nSub(P, t)) ELSE nSci(1, 60)
    IN IF Le(P, t) THEN TRUE ELSE Le(nSub(lo, u), o) /\ Le(o, nAdd(hi, u))

OkF(op, a, o) ==
    LET x == a[1]  u == Ulp(x) IN
    CASE op = "sqrt" ->
             IF iSgn(Sv(x)) < 0 THEN Refused(o)
             ELSE LET m == iMul(V(x), Ten(S(x))) IN
                  Gives(o, IsD(o) /\ o[3] = S(x) /\ Ge(Sv(D(o)), "0") /\ Near1(V(D(o)), iSqrt(m)), Lt(m, Top))
      [] op = "ln" ->
             IF iSgn(Sv(x)) <= 0 THEN Refused(o)
             ELSE LET n == N(x) usable == Ge(n, nSci(1, -1)) /\ Le(n, nSci(3, 13)) /\ S(x) <= 12 IN
                  Gives(o, ~usable \/ (IsD(o) /\ o[3] = S(x) /\ Near(N(D(o)), nLn(n), nAdd(nSci(1, -9), u))), usable)
      [] op = "powi" ->
             LET n == a[2]  b == nAbs(N(x))
             IN IF n > 20 /\ Gt(b, nSci(5, 0)) THEN TRUE     \* out of range, or nearly
                ELSE LET P == Power(b, n) IN
                     Gives(o, IsD(o) /\ o[3] = S(x) /\ Near(N(D(o)), Signed(P, x[3] /\ n % 2 = 1), PowTol(P, n, u)),
                           RoomFor(nMax(P, One), u) /\ RoomFor(nMax(b, One), u))
      [] op = "pow" ->
             LET y == a[2]
                 q == iDiv(iMul("4", V(y)), Ten(S(y)))          \* quarters
                 exact == iSgn(iMod(iMul("4", V(y)), Ten(S(y)))) = 0
                 n == IF Lt(q, "80000") THEN iInt(q) ELSE 80000
                 b == nAbs(N(x))
                 whole == n % 4 = 0
                 known == exact /\ n < 80000 /\ (whole \/ n \in {1, 2, 5, 6})
                 neg == y[3] /\ n # 0
             IN IF S(x) # S(y) \/ ~known \/ (n > 80 /\ Gt(b, nSci(5, 0))) THEN TRUE
                ELSE IF iSgn(V(x)) = 0 /\ neg THEN Refused(o)
                ELSE IF iSgn(Sv(x)) < 0 /\ ~whole THEN Refused(o)
                ELSE LET k == n \div 4
                         Pt == IF whole THEN LET P == Power(b, k) IN <<P, PowTol(P, k, u)>> ELSE Quarter(b, n, u)
                         room == RoomFor(nMax(Pt[1], One), u) /\ RoomFor(nMax(b, One), u)
                         sign == x[3] /\ iSgn(V(x)) # 0 /\ k % 2 = 1
                     IN IF ~neg THEN Gives(o, IsD(o) /\ o[3] = S(x) /\ Near(N(D(o)), Signed(Pt[1], whole /\ sign), Pt[2]), room)
                        ELSE Gives(o, IsD(o) /\ o[3] = S(x) /\ (Le(Pt[1], Pt[2]) \/ Inverse(Signed(N(D(o)), whole /\ sign), Pt[1], Pt[2], u)),
                                   room /\ Gt(Pt[1], nAdd(Pt[2], u)))
      [] op = "bitlen" ->
             IF iSgn(Sv(x)) < 0 THEN Refused(o)
             ELSE IF iSgn(V(x)) = 0 THEN IsDec(o, "0", 0)
             ELSE LET w == iDiv(V(x), Ten(S(x)))  b == iBits(w) - 1 IN
                  IF iSgn(w) = 0 THEN TRUE
                  \* (computed in floating point: just below a power of two it may be that of the power)
                  ELSE IsDec(o, iStr(b), 0) \/ (IsDec(o, iStr(b + 1), 0) /\ Lt(iMul(iSub(iMul(iPow("2", b + 1), Ten(S(x))), V(x)), "100000000000"), V(x)))
      [] OTHER -> FALSE
Functions == {"sqrt", "ln", "powi", "pow", "bitlen"}

-----------------------------------------------------------------------------
\* texts: a[1] is the text (a sequence of characters) or the decimal
SameNumber(d, m) ==  \* v / 10^s = digits / 10^(decimals - exp)
    LET e == m.decimals - m.exp IN
    /\ Eq(iMul(V(d), Ten(IF e > 0 THEN e ELSE 0)), iMul(iMul(m.digits, Ten(IF e < 0 THEN 0 - e ELSE 0)), Ten(S(d))))
    /\ d[3] = m.neg \/ Eq(V(d), "0")
OkT(op, a, o) ==
    CASE op = "parse" ->
             LET t == a[1] IN
             IF ~WellFormed(t) THEN o[1] = "e"
             ELSE LET m == Meaning(t)
                      easy == /\ Plain(t) /\ m.exp \in -30 .. 19 /\ m.decimals - m.exp <= 38
                              /\ Lt(iMul(m.digits, IF m.exp > 0 THEN Ten(2 * m.exp) ELSE "1"), Top)
                  IN IF Refused(o) THEN o[1] = "e" /\ ~easy ELSE SameNumber(D(o), m)
      [] op = "show" ->
             LET x == a[1]  t == o[2] IN
             o[1] = "t" /\ WellFormed(t) /\ LET m == Meaning(t) IN SameNumber(x, m) /\ m.decimals - m.exp = S(x)
      \* print and parse
      [] op = "trip" -> LET x == a[1] IN S(x) > 38 \/ IsDec(o, Sv(x), S(x))
Texts == {"parse", "show", "trip"}
=============================================================================
