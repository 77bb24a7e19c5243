-------------------------------- MODULE Judge --------------------------------
(* Is an observed operation of a real pool one that the ledger of CLPool      *)
(* allows?  Judging an event yields the set of <<property, what>> it breaks   *)
(* and the ledger to go on with.  After every event the ledger takes over the *)
(* numbers the pool shows (price, reserves, pots), so that rounding does not  *)
(* add up over a history, while what cannot be seen (who is owed what) stays  *)
(* with the ledger.                                                           *)
EXTENDS CLPool, TLCExt

CONSTANT Report   \* TRUE: print how far off every number is, in units (to calibrate K)

\* An implementation with 12 decimals may be off by K units, see DESIGN.md for how K was set.
e == nSci(1, -12)
K == nInt(20)
Unit(L) == nMul(e, nAdd(L, One))                       \* amounts
UnitY(L, rp) == nMul(Unit(L), nAdd(One, rp))           \* amounts of Y
\* when a reserve runs dry the last one out is paid what is left: this may be short by
Dry(left, L) == IF Le(left, Zero) THEN nDiv(nAdd(nMul(nSci(16, -12), L), nSci(1, -6)), K) ELSE Zero
Sq(r) == nAdd(One, nMul(r, r))                         \* conditioning of the price

If(c, b) == IF c THEN {b} ELSE {}
Off(prop, what, got, want, unit) ==
    LET ok == nNum(got) /\ Near(got, want, nMul(K, unit)) IN
    IF Report /\ nNum(got) /\ Gt(nAbs(nSub(got, want)), nMul(unit, nInt(2)))
    THEN IF PrintT(<<"RATIO", prop, what, iDiv(nDiv(nAbs(nSub(got, want)), unit), One)>>) THEN If(~ok, <<prop, what>>) ELSE {}
    ELSE If(~ok, <<prop, what>>)
AtMost(prop, what, got, most, unit) ==
    If(~(nNum(got) /\ Le(got, nAdd(most, nMul(K, unit)))), <<prop, what>>)
Same(prop, what, got, want) == If(got # want, <<prop, what>>)

\* floating-point pools lose the last digits of what is small against their holdings
Fl(cfg, o) == IF cfg.imp = "dec" THEN Zero
              ELSE nMul(nSci(1, -13), nAdd(One, nAdd(nAdd(o.x, o.y), nAdd(nAdd(o.xf, o.yf), nAdd(o.xa, o.ya)))))
\* rounding never favours the user: the decimal pool may be off the other way by one last digit
\* and a fifth of a unit
Tight(cfg, u) == IF cfg.imp = "dec" THEN nAdd(nSci(6, -14), nMul(nSci(1, -2), u)) ELSE u
\* (an amount of X is a product and a quotient, each cut off: two last digits)
TightX(cfg, u) == IF cfg.imp = "dec" THEN nAdd(nSci(11, -14), nMul(nSci(15, -3), u)) ELSE u
Numbers == {"x", "xa", "xf", "y", "ya", "yf", "liq", "rp", "gfx", "gfy", "ghx", "ghy"}
Pots == <<"xf", "yf", "xa", "ya">>        \* fee x, fee y, adjustment x, adjustment y
Growth == <<"gfx", "gfy", "ghx", "ghy">>
ToSet(s) == {s[j] : j \in DOMAIN s}
Neg(a) == iSgn(a) < 0
Pos(a) == iSgn(a) > 0

-----------------------------------------------------------------------------
\* what must hold in every state: pos is the ledger, o what the pool shows
Standing(P, cfg, pos, o, tol) ==
    IF \E n \in Numbers : ~nNum(o[n]) THEN {<<"C01", "not a number">>} ELSE
    LET exact == cfg.imp = "dec"
        ra == Active(pos)
        noise == nMul(nInt(100), e)
    IN  \* liquidity and ticks
        (IF exact THEN Same("C02", "liquidity in range", o.liq, LiqAt(pos, o.tick))
                  ELSE If(~Near(o.liq, LiqAt(pos, o.tick), nMul(nSci(1, -9), nAdd(One, nSumOver([id \in DOMAIN pos |-> pos[id].L], DOMAIN pos)))), <<"C02", "liquidity in range">>))
        \union Same("C02", "active ticks", ToSet(o.ticks), ra)
        \union Same("C02", "number of positions", o.np, Cardinality(DOMAIN pos))
        \* price against tick
        \union If(~Le(o.rt, nAdd(o.rp, nMul(noise, o.rp))), <<"C03", "price below its tick">>)
        \union If(~Le(o.rp, nAdd(o.rts, nMul(noise, o.rp))), <<"C03", "price above its tick">>)
        \union If(\E t \in ra : t > o.tick /\ Gt(o.rp, nAdd(Price(P, t), nMul(noise, o.rp))), <<"C03", "above an active tick that is not crossed">>)
        \union If(\E t \in ra : t <= o.tick /\ Lt(o.rp, nSub(Price(P, t), nMul(noise, o.rp))), <<"C03", "below an active tick that is not crossed">>)
        \* nothing is ever negative
        \union If(\E n \in {"x", "y"} : Neg(o[n]), <<"C01", "negative reserve">>)
        \union If(\E n \in {"xa", "xf", "ya", "yf"} : Lt(o[n], nNeg(IF exact THEN Zero ELSE nSci(1, -6))), <<"C01", "negative pot">>)
        \* the reserves are what the positions are worth
        \union Off("C05", "reserve of X against worth of positions", o.x, WorthX(P, pos, o.rp), tol.x)
        \union Off("C05", "reserve of Y against worth of positions", o.y, WorthY(P, pos, o.rp), tol.y)
        \union (IF exact THEN AtMost("C05", "less X than the positions are worth", WorthX(P, pos, o.rp), o.x, nMul(nSci(6, -2), tol.x))
                             \union AtMost("C05", "less Y than the positions are worth", WorthY(P, pos, o.rp), o.y, nMul(nSci(6, -2), tol.y))
                  ELSE {})
        \union UNION {Off("C04", "pot against what is owed", o[Pots[k]], Owed(pos, k), tol.p) : k \in 1..4}

\* operations of a liquidity provider leave the market alone
Unmoved(o, q) == UNION {Same("C10", "deposit or withdrawal moved " \o n, q[n], o[n]) : n \in {"rp", "gfx", "gfy", "ghx", "ghy"}}
                 \union Same("C10", "deposit or withdrawal moved the tick", q.tick, o.tick)

\* fees handed to the touched position, and the ledger of that position afterwards
Fresh(L) == [L |-> L, owed |-> <<Zero, Zero, Zero, Zero>>, slk |-> Zero]
Entry(pos, id) == IF id \in DOMAIN pos THEN pos[id] ELSE Fresh(Zero)
Claimed(cfg, pos, id, o, q) ==
    UNION {Off("C04", "fees handed out: " \o Pots[k], nSub(o[Pots[k]], q[Pots[k]]), Entry(pos, id).owed[k],
               nAdd(nAdd(Unit(Entry(pos, id).L), Entry(pos, id).slk), Fl(cfg, o))) : k \in 1..4}
Put(pos, id, L) == IF Pos(L) THEN (id :> Fresh(L)) @@ pos
                   ELSE [i \in DOMAIN pos \ {id} |-> pos[i]]
\* an operation on a position leaves rounding dust behind
Touch(tol, L, rp, slk) == [x |-> nAdd(tol.x, Unit(L)), y |-> nAdd(tol.y, UnitY(L, rp)), p |-> nAdd(tol.p, nAdd(Unit(L), slk))]

\* a proper operation is not carried out: that is against C12, and against what promises its result
Refused(is, props, what) == IF is THEN {<<p, what>> : p \in props} ELSE {}
\* fees are due, and with the operation they are not paid
Unpaid(old) == IF \E k \in 1 .. 4 : Gt(old.owed[k], nMul(K, nAdd(Unit(old.L), old.slk))) THEN {"C04"} ELSE {}

Deposit(P, cfg, st, ev) ==
    LET o == st.o  q == ev.o
        id == <<ev.u, ev.lo, ev.hi>>
        valid == ev.lo < ev.hi /\ ~Neg(ev.x) /\ ~Neg(ev.y) /\ ~Neg(ev.rpa) /\ ~Neg(ev.rpb)
        old == Entry(st.pos, id)
        ra == Price(P, ev.lo)  rb == Price(P, ev.hi)
        L == ev.liq
        xin == nSub(q.x, o.x)  yin == nSub(q.y, o.y)
        one == IF cfg.imp = "dec" THEN Zero ELSE One      \* the float pools deal in whole liquidity
        ux == nAdd(Unit(L), nDiv(nMul(nAdd(one, Zero), nSub(nInv(ra), nInv(rb))), K))
        uy == nAdd(UnitY(L, rb), nDiv(nMul(one, nSub(rb, ra)), K))
        fl == nAdd(Fl(cfg, o), Fl(cfg, q))
        usesX == Lt(o.rp, rb)  usesY == Gt(o.rp, ra)
        tolX == nMul(K, nAdd(fl, ux))  tolY == nMul(K, nAdd(fl, uy))
        spentX == usesX /\ Le(nSub(ev.x, xin), tolX)
        spentY == usesY /\ Le(nSub(ev.y, yin), tolY)
    IN IF ev.res # "ok" THEN [bad |-> Refused(valid, {"C12", "C10"} \union Unpaid(old), "valid deposit refused"), st |-> [st EXCEPT !.lst = [op |-> "none"]]]
       ELSE IF ~valid THEN [bad |-> {<<"C11", "invalid deposit accepted">>}, st |-> [st EXCEPT !.dead = TRUE]]
       ELSE [bad |->
                Off("C10", "X taken for the liquidity", xin, XOf(L, o.rp, ra, rb), nAdd(fl, Unit(L)))
                \union Off("C10", "Y taken for the liquidity", yin, YOf(L, o.rp, ra, rb), nAdd(fl, UnitY(L, rb)))
                \union AtMost("C10", "takes less X than the liquidity is worth", XOf(L, o.rp, ra, rb), xin, TightX(cfg, nAdd(fl, Unit(L))))
                \union AtMost("C10", "takes less Y than the liquidity is worth", YOf(L, o.rp, ra, rb), yin, Tight(cfg, nAdd(fl, UnitY(L, rb))))
                \union If(~(spentX \/ spentY), <<"C10", "less liquidity than the amounts buy">>)
                \union If(Neg(L), <<"C10", "negative liquidity">>)
                \union If(Gt(xin, nAdd(ev.x, fl)) \/ Gt(yin, nAdd(ev.y, fl)) \/ Neg(xin) \/ Neg(yin), <<"C01", "took more than offered">>)
                \union Unmoved(o, q)
                \union Claimed(cfg, st.pos, id, o, q),
             st |-> [st EXCEPT !.pos = Put(st.pos, id, nAdd(old.L, L)),
                               !.tol = Touch(@, nAdd(old.L, L), rb, old.slk),
                               !.lst = [op |-> "dep", id |-> id, L |-> L, x |-> xin, y |-> yin]]]

Withdraw(P, cfg, st, ev) ==
    LET o == st.o  q == ev.o
        id == <<ev.u, ev.lo, ev.hi>>
        old == Entry(st.pos, id)
        known == id \in DOMAIN st.pos
        valid == ~Neg(ev.l) /\ Le(ev.l, old.L) /\ ev.lo < ev.hi
        ra == Price(P, ev.lo)  rb == Price(P, ev.hi)
        xout == nSub(o.x, q.x)  yout == nSub(o.y, q.y)
        wx == XOf(ev.l, o.rp, ra, rb)  wy == YOf(ev.l, o.rp, ra, rb)
        fl == Fl(cfg, o)
        ux == nAdd(fl, nAdd(Unit(ev.l), nMul(e, wx)))  uy == nAdd(fl, nAdd(UnitY(ev.l, rb), nMul(e, wy)))
        lx == Dry(q.x, ev.l)  ly == Dry(q.y, ev.l)
        back == st.lst.op = "dep" /\ st.lst.id = id /\ st.lst.L = ev.l
    IN IF ev.res # "ok"
       THEN [bad |-> Refused(valid /\ known, {"C12", "C05", "C10"} \union Unpaid(old), "valid withdrawal refused"),
             st |-> [st EXCEPT !.lst = [op |-> "none"]]]
       ELSE IF ~valid THEN [bad |-> {<<"C11", "invalid withdrawal accepted">>}, st |-> [st EXCEPT !.dead = TRUE]]
       ELSE [bad |->
                Off("C10", "X paid for the liquidity", xout, wx, nAdd(ux, lx))
                \union Off("C10", "Y paid for the liquidity", yout, wy, nAdd(uy, ly))
                \union If(Neg(xout) \/ Neg(yout), <<"C01", "withdrawal took tokens in">>)
                \union AtMost("C10", "pays more X than the liquidity is worth", xout, wx, Tight(cfg, ux))
                \union AtMost("C10", "pays more Y than the liquidity is worth", yout, wy, Tight(cfg, uy))
                \union If(back /\ (Gt(xout, nAdd(st.lst.x, fl)) \/ Gt(yout, nAdd(st.lst.y, fl))), <<"C09", "more out than in: deposit and withdraw">>)
                \union Unmoved(o, q)
                \union Claimed(cfg, st.pos, id, o, q),
             st |-> [st EXCEPT !.pos = Put(st.pos, id, nSub(old.L, ev.l)),
                               !.tol = LET t == Touch(@, old.L, rb, old.slk) IN [t EXCEPT !.x = nAdd(@, lx), !.y = nAdd(@, ly)],
                               !.lst = [op |-> "none"]]]

-----------------------------------------------------------------------------
SumSegs(run, f(_)) == nSumSeq([j \in DOMAIN run.segs |-> f(run.segs[j])])
MaxL(run) == nMax(run.big, Zero)

Swap(P, cfg, st, ev) ==
    LET o == st.o  q == ev.o
        dir == IF ev.op = "swx" THEN "x" ELSE "y"
        valid == Pos(ev.d) /\ ~Neg(ev.orc)
        plain == SwapRun(P, cfg, st.pos, dir, o.tick, o.rp, ev.d, NoHint)
        \* a trade of rounding dust need not be accepted
        tiny(s) == LET in == s.in  out == SegOut(dir, s)
                       u == nMul(nMul(K, Unit(s.L)), Sq(s.from))
                       \* the logarithm of a ratio close to one is good to nine decimals only
                       v == IF Eq(cfg.c, Zero) \/ Eq(ev.orc, Zero) THEN Zero
                            ELSE nMul(K, nMul(nMul(nSci(1, -11), nAdd(s.L, One)), nAdd(One, o.rp)))
                   IN Le(in, u) \/ Le(out, nAdd(u, v)) \/ s.near
        \* nor, for a floating-point pool, one that drains a reserve that is short of rounding dust
        left == LET all == nSumSeq([j \in DOMAIN plain.segs |-> SegOut(dir, plain.segs[j])])
                IN nSub(IF dir = "x" THEN o.y ELSE o.x, all)
        dry == cfg.imp # "dec" /\ Le(left, nMul(K, nAdd(Fl(cfg, o), IF dir = "x" THEN st.tol.y ELSE st.tol.x)))
        dusty == dry \/ \E j \in DOMAIN plain.segs : tiny(plain.segs[j])
    IN IF ev.res # "ok"
       THEN [bad |-> Refused(ev.res = "hang" \/ (valid /\ ~dusty),
                             {"C12", "C06"} \union (IF \E j \in DOMAIN plain.segs : ~Eq(SegPaid(dir, plain.segs[j], cfg.c, ev.orc), SegOut(dir, plain.segs[j])) THEN {"C08"} ELSE {}),
                             IF ev.res = "hang" THEN "swap does not end" ELSE "valid swap refused"),
             st |-> [st EXCEPT !.lst = [op |-> "none"]]]
       ELSE IF ~valid THEN [bad |-> {<<"C11", "invalid swap accepted">>}, st |-> [st EXCEPT !.dead = TRUE]]
       ELSE IF \E n \in Numbers : ~nNum(q[n]) THEN [bad |-> {<<"C01", "not a number">>}, st |-> [st EXCEPT !.dead = TRUE]]
       ELSE
       LET run0 == SwapRun(P, cfg, st.pos, dir, o.tick, o.rp, ev.d,
                           [on |-> TRUE, tick |-> q.tick, dust |-> nMul(K, e)])
           n == Len(run0.segs)
           L == MaxL(run0)
           \* the last price is taken from the pool, when it is about right
           ratio == IF n = 0 THEN Zero ELSE nDiv(L, nMax(run0.segs[n].L, e))
           up == IF n = 0 THEN e ELSE nMul(nMul(e, Sq(run0.rp)), nAdd(nAdd(One, nInv(nMax(run0.segs[n].L, e))), ratio))
           ended == n > 0 /\ ~run0.segs[n].cross
           priced == Near(q.rp, run0.rp, nMul(K, up))
           run == IF ended /\ priced THEN [run0 EXCEPT !.segs[n].to = q.rp, !.rp = q.rp] ELSE run0
           out == SumSegs(run, LAMBDA s : SegOut(dir, s))
           paid == SumSegs(run, LAMBDA s : SegPaid(dir, s, cfg.c, ev.orc))
           fee == SumSegs(run, LAMBDA s : s.fee)
           net == SumSegs(run, LAMBDA s : s.in)
           u == nMul(nInt(n + 1), Unit(L))
           uout == nAdd(nMul(nInt(n + 1), IF dir = "x" THEN UnitY(L, o.rp) ELSE Unit(L)),
                        Dry(IF dir = "x" THEN q.y ELSE q.x, L))
           \* logarithms and roots are good to nine decimals
           hmm == ~Eq(cfg.c, Zero) /\ ~Eq(ev.orc, Zero)
           uadj == IF hmm THEN nAdd(nMul(nInt(n + 1), nMul(nMul(nSci(1, -11), nAdd(L, One)), nAdd(One, nMax(o.rp, q.rp)))), uout) ELSE uout
           ufee == nAdd(u, nMul(nMul(u, cfg.fee), nInv(nSub(One, cfg.fee))))
           in_ == IF dir = "x" THEN "x" ELSE "y"    out_ == IF dir = "x" THEN "y" ELSE "x"
           inFee == in_ \o "f"  outAdj == out_ \o "a"
           D(name) == nSub(q[name], o[name])
           tin == nAdd(nAdd(D(in_), D(in_ \o "f")), D(in_ \o "a"))
           tout == nAdd(nAdd(D(out_), D(out_ \o "f")), D(out_ \o "a"))
           fl == IF cfg.imp = "dec" THEN Zero ELSE nAdd(Fl(cfg, o), nMul(nSci(1, -13), ev.d))
           r == ev.out
           send == nNeg(r.send)
           \* the ledger: each segment's fees and adjustments go to the positions in its range
           bump(id) == LET segs == {j \in DOMAIN run.segs : InRng(id, run.segs[j].tick)}
                       IN [k \in 1..4 |-> nSumOver([j \in segs |->
                              Share(SegOwed(dir, run.segs[j], cfg.c, ev.orc)[k], st.pos[id].L, run.segs[j].L)], segs)]
           slack(id) == LET segs == {j \in DOMAIN run.segs : InRng(id, run.segs[j].tick)}
                        IN nSumOver([j \in segs |-> nAdd(Unit(st.pos[id].L),
                               nMulDiv(nAdd(uadj, ufee), st.pos[id].L, run.segs[j].L))], segs)
           pos2 == [id \in DOMAIN st.pos |->
                      LET b == bump(id) IN [st.pos[id] EXCEPT !.owed = [k \in 1..4 |-> nAdd(@[k], b[k])],
                                                              !.slk = nAdd(@, slack(id))]]
           gro == [k \in 1..4 |-> nSumOver([j \in DOMAIN run.segs |->
                      nDiv(SegOwed(dir, run.segs[j], cfg.c, ev.orc)[k], run.segs[j].L)], DOMAIN run.segs)]
           ugro == nSumOver([j \in DOMAIN run.segs |-> nAdd(e, nDiv(nAdd(uadj, ufee), run.segs[j].L))], DOMAIN run.segs)
           rt == st.lst
           P2 == IF dir = "x" THEN nDiv(send, nMax(r.recv, e)) ELSE nDiv(r.recv, nMax(send, e))
       IN [bad |->
             \* conservation
             If(~Near(tin, r.recv, fl), <<"C01", "tokens in against what the pool holds more">>)
             \union If(~Near(tout, r.send, fl), <<"C01", "tokens out against what the pool holds less">>)
             \union If(Neg(r.recv) \/ Gt(r.recv, nAdd(ev.d, fl)), <<"C01", "took more than offered">>)
             \union If(Pos(r.send), <<"C01", "swap took the output token in">>)
             \union If(~Eq(D(in_ \o "a"), Zero) \/ ~Eq(D(out_ \o "f"), Zero), <<"C01", "moved a pot it should not touch">>)
             \* where the price goes and what is paid
             \union If(IF dir = "x" THEN Gt(q.rp, o.rp) /\ n > 0 ELSE Lt(q.rp, o.rp) /\ n > 0, <<"C06", "price moved the wrong way">>)
             \union Off("C06", "end price", q.rp, run0.rp, up)
             \union If(~ended /\ q.tick # run.tick, <<"C06", "end tick">>)
             \union If(run.why = "filled" /\ ~Near(r.recv, ev.d, nAdd(fl, nMul(nMul(K, e), nAdd(One, L)))), <<"C06", "order not filled although there is liquidity">>)
             \union Off("C06", "input taken", r.recv, nAdd(net, fee), ufee)
             \union Off("C06", "input added to the reserve", D(in_), net, nAdd(u, fl))
             \union Off("C06", "output taken from the reserve", nNeg(D(out_)), out, nAdd(uout, fl))
             \union (IF cfg.imp = "dec" THEN AtMost("C06", "more output than the curve gives", nNeg(D(out_)), out, Tight(cfg, uout)) ELSE {})
             \union Off("C06", "reported end price", r.end, nMul(q.rp, q.rp), nMul(e, Sq(q.rp)))
             \union (IF Pos(send) /\ Pos(r.recv) /\ Gt(nMin(send, r.recv), nSci(1, -6))
                     THEN Off("C06", "reported average price", r.avg, P2, nAdd(e, nMul(P2, nMul(nSci(1, -12), nAdd(One, nInv(nMin(send, r.recv))))))) ELSE {})
             \* end tick of a fill
             \union If(ended /\ ~Le(q.rt, nAdd(q.rp, nMul(nMul(K, e), q.rp))), <<"C03", "end tick above the price">>)
             \* (a price just under a crossed tick stays accounted in the tick one spacing below)
             \union If(ended /\ q.tick # run.segs[n].tick /\ ~Le(q.rp, nAdd(q.rt1, nMul(nMul(K, e), q.rp))), <<"C03", "end tick below the price">>)
             \* fees
             \union Off("C07", "fee", r.fee, fee, ufee)
             \union (IF cfg.imp = "dec" THEN Same("C07", "fee pot", D(inFee), r.fee) ELSE Off("C07", "fee pot", D(inFee), r.fee, nAdd(e, fl)))
             \union If(Neg(r.fee), <<"C07", "negative fee">>)
             \* adjustment
             \union Off("C08", "adjustment", r.adj, nSub(out, paid), uadj)
             \union (IF cfg.imp = "dec" THEN Same("C08", "adjustment pot", D(outAdj), r.adj) ELSE Off("C08", "adjustment pot", D(outAdj), r.adj, nAdd(e, fl)))
             \union If(Neg(r.adj), <<"C08", "negative adjustment">>)
             \union AtMost("C08", "adjustment exceeds the output", r.adj, out, uout)
             \union (IF ~hmm THEN If(~Near(r.adj, Zero, fl), <<"C08", "adjustment without oracle or coefficient">>) ELSE {})
             \union Off("C08", "paid out", send, paid, nAdd(uadj, fl))
             \* growth per unit of liquidity
             \union UNION {Off("C04", "growth " \o Growth[k], D(Growth[k]), gro[k], ugro) : k \in 1..4}
             \* there and back again
             \union (IF rt.op = ev.op \/ rt.op \notin {"swx", "swy"} \/ Gt(ev.d, rt.send) THEN {}
                     ELSE AtMost("C09", "round trip makes a profit", send, rt.recv, nMul(nSci(1, -1), nAdd(nAdd(u, UnitY(L, o.rp)), fl))))
             \* two halves against the whole
             \union (IF "whole" \in DOMAIN ev /\ rt.op = ev.op
                     THEN Off("C09", "split order pays differently", nAdd(rt.send, send), ev.whole.send, nAdd(nAdd(rt.u, uadj), nAdd(fl, u)))
                     ELSE {}),
           st |-> [st EXCEPT !.pos = pos2,
                             !.tol = [x |-> nAdd(@.x, nAdd(fl, IF dir = "x" THEN u ELSE uout)),
                                      y |-> nAdd(@.y, nAdd(fl, IF dir = "y" THEN u ELSE uout)),
                                      p |-> nAdd(@.p, nAdd(fl, nAdd(uadj, nAdd(ufee, nMul(nInt(Cardinality(DOMAIN st.pos)), Unit(L))))))],
                             !.lst = [op |-> ev.op, recv |-> r.recv, send |-> send, u |-> uadj]]]

-----------------------------------------------------------------------------
NewSt(ev) == [pos |-> <<>>, o |-> ev.o, dead |-> FALSE, lst |-> [op |-> "none"],
              tol |-> [x |-> e, y |-> e, p |-> e]]

\* setting up a pool: it starts empty, on a multiple of the spacing, at the price of that tick
Make(cfg, st, ev) ==
    LET valid == (IF cfg.floor THEN ~Neg(ev.boot) ELSE Gt(ev.boot, Zero)) /\ ~Neg(ev.c) /\ Le(ev.c, nInt(2)) /\ ~Neg(ev.fee)
        m == ev.made
        eps == IF cfg.imp = "dec" THEN Zero ELSE nMul(nSci(1, -12), nAdd(One, ev.boot))
    IN [bad |-> IF ~valid THEN If(ev.res = "ok", <<"C11", "invalid pool accepted">>)
                ELSE IF ev.res # "ok" THEN {<<"C12", "valid pool refused">>, <<"C11", "valid pool refused">>}
                ELSE Standing(<<>>, [cfg EXCEPT !.boot = ev.boot], <<>>, m, [x |-> e, y |-> e, p |-> e])
                     \union Same("C03", "a pool starts on a multiple of the spacing", m.tick % ev.spacing, 0)
                     \union If(~Near(m.rp, m.rt, eps), <<"C03", "a pool starts at the price of its tick">>)
                     \union If((Ge(ev.boot, One) \/ ~cfg.floor) /\ ev.boot # Zero /\ ~(Le(m.rp, nAdd(ev.boot, eps)) /\ Lt(ev.boot, nAdd(m.rts, eps))), <<"C03", "a pool starts at the price given">>)
                     \union If(cfg.floor /\ Lt(ev.boot, One) /\ m.tick # 0, <<"C03", "a pool starts at the price given">>),
        st |-> st]

JudgeOp(P, cfg, st, ev) ==
    LET j == CASE ev.op = "mk" -> Make(cfg, st, ev)
               [] ev.op = "dep" -> Deposit(P, cfg, st, ev)
               [] ev.op = "wit" -> Withdraw(P, cfg, st, ev)
               [] ev.op \in {"swx", "swy"} -> Swap(P, cfg, st, ev)
        st2 == [j.st EXCEPT !.o = ev.o]
    IN IF j.st.dead THEN [bad |-> j.bad, st |-> st2]
       ELSE [bad |-> j.bad \union (IF ev.res = "hang" THEN {} ELSE Standing(P, cfg, st2.pos, ev.o, st2.tol)), st |-> st2]
=============================================================================
