----------------------------- MODULE OnChainBig -----------------------------
(* The numbers of the real program: tokens are whole (numerals), liquidity    *)
(* has 24 decimals, one LP token stands for one unit of liquidity.            *)
(* Prices of ticks are those of the definition.                               *)
EXTENDS CLPool

bigLP(L) == iDiv(L, One)
bigOfLP(n) == iMul(n, One)
\* how far off are 12 decimals: prices carry a relative error of 1e-12 per tick
bigEps(hi) == nMul(nSci(1, -12), nInt(hi + 20))
bigSlack(L, hi, ra, rb) == nMul(nMul(bigEps(hi), nAdd(L, One)), nAdd(One, nInv(nSub(rb, ra))))
bigTok(n) == iMul(n, One)
bigCeil(v) == IF iSgn(v) <= 0 THEN Zero ELSE iDivUp(v, One)
bigFloor(v) == IF iSgn(v) <= 0 THEN Zero ELSE iDiv(v, One)
bigIdeal(L, t, lo, hi) == LET r == nTickPrice(t) ra == nTickPrice(lo) rb == nTickPrice(hi)
                          IN <<XOf(L, r, ra, rb), YOf(L, r, ra, rb)>>
bigErr(L, hi) == nMul(bigEps(hi), nMul(nAdd(L, One), nTickPrice(hi)))
bigLiq(x, y, t, lo, hi) == LiqOf(bigTok(x), bigTok(y), nTickPrice(t), nTickPrice(lo), nTickPrice(hi))
bigFitsLiq(L, t, r, xy) ==
    LET ra == nTickPrice(r[1]) rb == nTickPrice(r[2])  rp == nTickPrice(t)
        lo == nMax(ra, nMin(rp, rb))
        \* the narrower part of the range decides how well the liquidity is known
        gap == IF t <= r[1] \/ t >= r[2] THEN nSub(rb, ra) ELSE nMin(nSub(rb, rp), nSub(rp, ra))
        want == bigLiq(xy[1], xy[2], t, r[1], r[2])
    IN Near(L, want, nMul(nMul(bigEps(r[2]), nAdd(nAdd(want, One), nMul(rb, rb))), nAdd(One, nInv(gap))))
bigFitsIn(xy, L, t, lo, hi) ==
    LET id == bigIdeal(L, t, lo, hi)  d == bigErr(L, hi)
        fits(n, v) == Le(bigCeil(nSub(v, d)), n) /\ Le(n, bigCeil(nAdd(v, d)))
    IN fits(xy[1], id[1]) /\ fits(xy[2], id[2])
bigFitsOut(xy, L, t, lo, hi) ==
    LET id == bigIdeal(L, t, lo, hi)  d == bigErr(L, hi)
        fits(n, v) == Le(bigFloor(nSub(v, d)), n) /\ Le(n, bigFloor(nAdd(v, d)))
    IN fits(xy[1], id[1]) /\ fits(xy[2], id[2])
bigFitsPrice(rp, t) == Near(rp, nTickPrice(t), nMul(nTickPrice(t), bigEps(t)))
\* amounts for which the program's 128 bits and the tokens' 64 bits are enough
Trillion == "1000000000000"
bigPayable(x, y, t, lo, hi) ==
    /\ Le(x, Trillion) /\ Le(y, Trillion) /\ hi <= 100000
    /\ Le(bigLiq(x, y, t, lo, hi), nSci(1, 17))
bigClaim(L, t, lo, hi) == IF Le(L, Zero) THEN <<Zero, Zero>> ELSE LET id == bigIdeal(bigOfLP(bigLP(L)), t, lo, hi)  d == bigErr(L, hi)
                          IN <<bigFloor(nSub(id[1], d)), bigFloor(nSub(id[2], d))>>
B == INSTANCE OnChain WITH Plus <- iAdd, Minus <- iSub, Leq <- Le, Nil <- "0", Whole <- bigLP, OfLP <- bigOfLP,
        FitsLiq <- bigFitsLiq, FitsIn <- bigFitsIn, FitsOut <- bigFitsOut, FitsPrice <- bigFitsPrice,
        Payable <- bigPayable, Claim <- bigClaim
=============================================================================
