------------------------------- MODULE BigNum -------------------------------
(* Exact arithmetic on numbers of any size.                                   *)
(*                                                                            *)
(* TLC's integers are 32-bit; pools deal in amounts of 128 bits.  A number is *)
(* here the decimal numeral of an integer, as a string.  The i-operators      *)
(* compute on those integers; the n-operators read the integer as a           *)
(* fixed-point number with 24 decimals.  TLC evaluates all of them with the   *)
(* class java/BigNum.java (arbitrary precision); the definitions below state  *)
(* what they mean over the rationals of TLA+ and are never evaluated.         *)
EXTENDS Integers, Sequences

Opaque == CHOOSE x : x \notin STRING   \* placeholder, overridden

\* integers; Div rounds toward zero, DivUp away from zero
iAdd(a, b) == Opaque
iSub(a, b) == Opaque
iMul(a, b) == Opaque
iNeg(a) == Opaque
iAbs(a) == Opaque
iSgn(a) == Opaque          \* -1, 0 or 1
iDiv(a, b) == Opaque
iDivUp(a, b) == Opaque
iMod(a, b) == Opaque
iPow(a, n) == Opaque       \* n a TLC integer
iSqrt(a) == Opaque         \* floor of the root
iCmp(a, b) == Opaque       \* -1, 0 or 1
iBits(a) == Opaque
iStr(a) == Opaque          \* TLC integer to numeral
iInt(a) == Opaque          \* numeral to TLC integer

\* fixed point, 24 decimals, rounded to nearest
nMul(a, b) == Opaque
nDiv(a, b) == Opaque
nMulDiv(a, b, c) == Opaque \* a*b/c
nSqrt(a) == Opaque
nInt(i) == Opaque          \* TLC integer to fixed point
nSci(m, e) == Opaque       \* m * 10^e
nLn(a) == Opaque
nPow4(a, q) == Opaque      \* a^(q/4)
nTickPrice(t) == Opaque    \* sqrt(1.0001^t)
nNum(a) == Opaque          \* FALSE for "nan"

nAdd(a, b) == iAdd(a, b)
nSub(a, b) == iSub(a, b)
nNeg(a) == iNeg(a)
nAbs(a) == iAbs(a)
Lt(a, b) == iCmp(a, b) < 0
Le(a, b) == iCmp(a, b) <= 0
Gt(a, b) == iCmp(a, b) > 0
Ge(a, b) == iCmp(a, b) >= 0
Eq(a, b) == iCmp(a, b) = 0
nMin(a, b) == IF Le(a, b) THEN a ELSE b
nMax(a, b) == IF Ge(a, b) THEN a ELSE b
Zero == "0"
One == nInt(1)
nInv(a) == nDiv(One, a)
Near(a, b, tol) == Le(nAbs(nSub(a, b)), tol)

RECURSIVE nSumSeq(_)
nSumSeq(s) == IF s = <<>> THEN Zero ELSE nAdd(Head(s), nSumSeq(Tail(s)))

\* sum of f over the domain D
RECURSIVE nSumOver(_, _)
nSumOver(f, D) == IF D = {} THEN Zero
                  ELSE LET d == CHOOSE d \in D : TRUE
                       IN nAdd(f[d], nSumOver(f, D \ {d}))
=============================================================================
