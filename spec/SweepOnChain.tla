---------------------------- MODULE SweepOnChain ----------------------------
(* For the harness: in a world with two pools of the same mints, with ticks,  *)
(* positions and deposits of two users, each kind of instruction with every   *)
(* single account replaced by every other account there is, with every signer *)
(* missing and with every other tick, one after the other.                    *)
EXTENDS GenOnChain
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
RECURSIVE After(_, _)
After(v, s) == IF s = <<>> THEN v ELSE After(B!Effect(v, Head(s), IF Head(s).op = "pool" THEN nTickPrice(Head(s).arg.tick) ELSE "0", "0", "0", "0"), Tail(s))

Far == 2147483647   \* as far as TLC's integers go
TicksOf(ml) == IF ml = "ml1" THEN <<100, 150, 160, 200, 300, Far>> ELSE <<100, 150, 160, 200>>
Ranges == <<<<100, 200>>, <<160, 200>>, <<100, 150>>>>
SetUpSeq ==
    <<PoolIns3("ml1", 160, "mx", "my"), PoolIns3("ml2", 150, "mx", "my"), PoolIns3("ml3", 160, "mx", "mz"), BmIns("ml1"), BmIns("ml2")>>
    \o [k \in 1 .. 6 |-> TickIns("ml1", TicksOf("ml1")[k])] \o [k \in 1 .. 4 |-> TickIns("ml2", TicksOf("ml2")[k])]
    \o [k \in 1 .. 3 |-> PosIns("ml1", "a", Ranges[k][1], Ranges[k][2])] \o [k \in 1 .. 3 |-> PosIns("ml1", "b", Ranges[k][1], Ranges[k][2])]
    \o [k \in 1 .. 3 |-> PosIns("ml2", "a", Ranges[k][1], Ranges[k][2])] \o <<PosIns("ml2", "b", 100, 200)>>
Dep(ml, u, lo, hi, x, y) == LpIns("dep", ml, u, [lo |-> lo, hi |-> hi, cur |-> CurOf(P(ml)), x |-> x, y |-> y])
Wit(ml, u, lo, hi, n) == LpIns("wit", ml, u, [lo |-> lo, hi |-> hi, cur |-> CurOf(P(ml)), lp |-> n])
Deposits == <<Dep("ml1", "a", 100, 200, "1000000", "1000000"), Dep("ml1", "b", 100, 200, "2000000", "3000000"), Dep("ml1", "a", 160, 200, "500000", "0"),
              Dep("ml1", "b", 100, 150, "0", "700000"), Dep("ml2", "a", 100, 200, "1000000", "1000000"), Dep("ml2", "b", 100, 200, "1000000", "1000000")>>
Base == <<Dep("ml1", "a", 100, 200, "1000", "1000"), Wit("ml1", "a", 100, 200, "1000"), Dep("ml2", "b", 100, 200, "1000", "1000"), Wit("ml2", "b", 100, 200, "1000"),
          Wit("ml1", "a", 160, 200, "1000"), Dep("ml1", "b", 100, 150, "1000", "1000"),
          PosIns("ml1", "a", 150, 300), TickIns("ml2", 300), TickIns("ml2", Far), PosIns("ml1", "b", 300, Far), BmIns("ml3"), PoolIns3("ml4", 160, "mx", "my")>>
Wrong(i) ==
    {[i EXCEPT !.acc[rn[1]] = rn[2], !.sig = IF rn[1] \in Signers /\ rn[2] \in {"a", "b", "adm"} THEN @ \union {rn[2]} ELSE @] :
        rn \in (DOMAIN i.acc) \X (B!Names(w) \union {"a", "b", "adm", "system", "token", "rent"})}
    \* (something that looks the same)
    \union {[i EXCEPT !.acc[r] = "fake/" \o @] : r \in DOMAIN i.acc}
    \union {[i EXCEPT !.sig = @ \ {s}] : s \in i.sig}
    \union {[i EXCEPT !.acc[r] = s] : r \in (DOMAIN i.acc) \intersect Signers, s \in {"a", "b"}}
    \union (IF "cur" \in DOMAIN i.arg THEN {[i EXCEPT !.arg.cur = t, !.acc.current_tick_state = B!TickN(i.acc.pool_state, t)] : t \in {100, 150, 160, 200}} ELSE {})
    \union (IF "lo" \in DOMAIN i.arg THEN {[i EXCEPT !.arg.lo = t] : t \in {100, 150, 160, 200}} \union {[i EXCEPT !.arg.hi = t] : t \in {100, 150, 160, 200}}
              \union {[i EXCEPT !.arg.lo = t, !.acc.lower_tick_state = B!TickN(i.acc.pool_state, t)] : t \in {100, 150, 160, 200}}
              \union {[i EXCEPT !.arg.hi = t, !.acc.upper_tick_state = B!TickN(i.acc.pool_state, t)] : t \in {100, 150, 160, 200}} ELSE {})
    \union (IF i.op = "tick" THEN {[i EXCEPT !.arg.tick = t] : t \in {100, 301, 1, 0}} ELSE {})

Init_S == /\ reg = <<100, 150, 160, 200, 300>> /\ cur = 160 /\ hist = <<>> /\ w = After(Empty, SetUpSeq)
\* (Base needs the world for the mints of a pool)
Next_S == hist = <<>> /\ \E k \in DOMAIN Base : \E W \in {Wrong(Base[k])} : hist' = SetUpSeq \o Deposits \o ToSeq(W) \o <<Base[k]>> \o (IF Base[k].op = "pool" THEN [n \in 1 .. 3 |-> PoolIns3(<<"mb", "mc", "md">>[n], 160, "mx", "my")] ELSE <<>>) /\ UNCHANGED <<w, reg, cur>>
Spec_S == Init_S /\ [][Next_S]_vars
Out_S == hist # <<>> => PrintT("RUN" \o ToJson([setup |-> Setup, ev |-> hist]))
-----------------------------------------------------------------------------
\* a pool at every tick where something could change: small ones, around powers of two, the last
\* whose price the representation of ticks was made for, and some in between
TopTick == 262143
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
PoolTicks == {0, 3, TopTick} \union UNION {{Pow2(k) - 1, Pow2(k), Pow2(k) + 1} : k \in 1 .. 17} \union {R(0 .. TopTick) : n \in 1 .. 30}
             \* beyond: the right price, or none
             \union {TopTick + 1, 2 * TopTick, 4 * TopTick, 100000000, Far} \union {R(TopTick .. 1000000) : n \in 1 .. 8}
RECURSIVE Zip(_, _)
Zip(S, mls) == IF S = {} \/ mls = {} THEN <<>> ELSE
    LET t == CHOOSE t \in S : TRUE  ml == CHOOSE ml \in mls : TRUE IN <<PoolIns3(ml, t, "mx", "my")>> \o Zip(S \ {t}, mls \ {ml})
Next_P == hist = <<>> /\ \E S \in {PoolTicks} : hist' = Zip(S, Pools) /\ UNCHANGED <<w, reg, cur>>
Spec_P == /\ reg = <<100, 150, 160, 200, 300>> /\ cur = 160 /\ hist = <<>> /\ w = Empty
          /\ [][Next_P]_vars
=============================================================================
