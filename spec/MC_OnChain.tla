------------------------------ MODULE MC_OnChain ------------------------------
(* OnChain with small numbers, exhaustively: every proper instruction and      *)
(* every instruction that differs from a proper one in one account, argument   *)
(* or signature, in every world that can be reached.                           *)
(*                                                                             *)
(* Liquidity counts halves of LP tokens; one of it is worth a third of a token *)
(* for each tick of a range above (X) or below (Y) the tick of the pool.       *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Users, Ticks, Cur,     \* the tick pools are made with
          Pools,                 \* LP mints
          Ready,                 \* TRUE: pools, bitmaps and ticks are there from the start
          Purse,                 \* tokens a user has of each mint
          Bug                    \* "" or a planted design error

plus(a, b) == a + b
minus(a, b) == a - b
leq(a, b) == a <= b
whole(L) == L \div 2
oflp(n) == 2 * n
max(a, b) == IF a > b THEN a ELSE b
min(a, b) == IF a < b THEN a ELSE b
wx(t, lo, hi) == max(0, hi - max(lo, t))
wy(t, lo, hi) == max(0, min(hi, t) - lo)
up(n) == (n + 2) \div 3
buys(x, y, t, lo, hi) == LET a == wx(t, lo, hi)  b == wy(t, lo, hi)
                         IN IF a = 0 THEN (3 * y) \div b ELSE IF b = 0 THEN (3 * x) \div a
                            ELSE min((3 * x) \div a, (3 * y) \div b)
taken(L, t, lo, hi) == IF Bug = "round down" THEN <<(L * wx(t, lo, hi)) \div 3, (L * wy(t, lo, hi)) \div 3>>
                       ELSE <<up(L * wx(t, lo, hi)), up(L * wy(t, lo, hi))>>
paid(L, t, lo, hi) == IF Bug = "pay rounded up" THEN <<up(L * wx(t, lo, hi)), up(L * wy(t, lo, hi))>>
                      ELSE <<(L * wx(t, lo, hi)) \div 3, (L * wy(t, lo, hi)) \div 3>>
claim(L, t, lo, hi) == paid(2 * (L \div 2), t, lo, hi)

O == INSTANCE OnChain WITH Plus <- plus, Minus <- minus, Leq <- leq, Nil <- 0, Whole <- whole, OfLP <- oflp,
        FitsLiq <- LAMBDA L, t, r, xy : L = buys(xy[1], xy[2], t, r[1], r[2]),
        FitsIn <- LAMBDA xy, L, t, lo, hi : xy = taken(L, t, lo, hi),
        FitsOut <- LAMBDA xy, L, t, lo, hi : xy = paid(L, t, lo, hi),
        FitsPrice <- LAMBDA rp, t : rp = t,
        Payable <- LAMBDA x, y, t, lo, hi : TRUE,
        Claim <- claim

Mints == {"mx", "my"}
TokN(u, m) == u \o "." \o m
Funds == [n \in {TokN(u, m) : u \in Users, m \in Mints \union Pools} |->
            LET um == CHOOSE um \in Users \X (Mints \union Pools) : n = TokN(um[1], um[2])
            IN [mint |-> um[2], owner |-> um[1], amt |-> IF um[2] \in Mints THEN Purse ELSE 0, free |-> TRUE]]
Empty == [pool |-> <<>>, bm |-> <<>>, tick |-> <<>>, pos |-> <<>>, tok |-> Funds,
          mint |-> [m \in Mints \union Pools \union {"mb"} |-> [auth |-> IF m \in Pools THEN O!PoolN(m) ELSE "adm", supply |-> 0]]]

\* proper instructions (whether they can be carried out is another question)
PoolIns(ml) == [op |-> "pool", arg |-> [tick |-> Cur], sig |-> {"adm"},
    acc |-> [authority |-> "adm", payer |-> "adm", pool_state |-> O!PoolN(ml), token_x_mint |-> "mx", token_y_mint |-> "my", lp_token_mint |-> ml,
             token_x_vault |-> O!VaultN("mx", ml), token_y_vault |-> O!VaultN("my", ml), lp_token_vault |-> O!LpVaultN(O!PoolN(ml)),
             system_program |-> "system", token_program |-> "token", rent |-> "rent"]]
BmIns(ml) == [op |-> "bm", arg |-> [none |-> 0], sig |-> {"adm"},
    acc |-> [pool_state |-> O!PoolN(ml), tick_bitmap |-> O!BmN(O!PoolN(ml)), payer |-> "adm", system_program |-> "system"]]
TickIns(ml, t) == [op |-> "tick", arg |-> [tick |-> t], sig |-> {"adm"},
    acc |-> [pool_state |-> O!PoolN(ml), tick_state |-> O!TickN(O!PoolN(ml), t), payer |-> "adm", system_program |-> "system"]]
PosIns(ml, u, lo, hi) == [op |-> "pos", arg |-> [lo |-> lo, hi |-> hi], sig |-> {u},
    acc |-> [pool_state |-> O!PoolN(ml), position_state |-> O!PosN(O!PoolN(ml), u, lo, hi), lower_tick_state |-> O!TickN(O!PoolN(ml), lo),
             upper_tick_state |-> O!TickN(O!PoolN(ml), hi), user |-> u, payer |-> u, system_program |-> "system"]]
LpIns(op, ml, u, arg) == LET p == O!PoolN(ml) IN
    [op |-> op, arg |-> arg, sig |-> {u},
     acc |-> [pool_state |-> p, tick_bitmap |-> O!BmN(p), position_state |-> O!PosN(p, u, arg.lo, arg.hi),
              lower_tick_state |-> O!TickN(p, arg.lo), upper_tick_state |-> O!TickN(p, arg.hi), current_tick_state |-> O!TickN(p, arg.cur),
              lp_token_mint |-> ml, user_token_x |-> TokN(u, "mx"), user_token_y |-> TokN(u, "my"),
              token_x_vault |-> O!VaultN("mx", ml), token_y_vault |-> O!VaultN("my", ml), lp_token_vault |-> O!LpVaultN(p),
              lp_token_acc |-> TokN(u, ml), token_program |-> "token", user |-> u, payer |-> u]]
DepIns(ml, u, lo, hi, x, y) == LpIns("dep", ml, u, [lo |-> lo, hi |-> hi, cur |-> Cur, x |-> x, y |-> y])
WitIns(ml, u, lo, hi, n) == LpIns("wit", ml, u, [lo |-> lo, hi |-> hi, cur |-> Cur, lp |-> n])

Inits == {PoolIns(ml) : ml \in Pools \union {"mb"}} \union {BmIns(ml) : ml \in Pools} \union {TickIns(ml, t) : ml \in Pools, t \in Ticks}
         \union {PosIns(ml, u, lo, hi) : ml \in Pools, u \in Users, lo \in Ticks, hi \in Ticks}
Moves == {DepIns(ml, u, r[1], r[2], x, y) : ml \in Pools, u \in Users, r \in {r \in Ticks \X Ticks : r[1] # r[2]}, x \in 0 .. Purse, y \in 0 .. Purse}
         \union {WitIns(ml, u, r[1], r[2], n) : ml \in Pools, u \in Users, r \in {r \in Ticks \X Ticks : r[1] # r[2]}, n \in 0 .. (3 * Purse) \div 2}

Signers == {"user", "payer", "authority"}
\* i, wrong in one way: another account, nobody's signature, another argument
Wrong(w, i) ==
    {[i EXCEPT !.acc[rn[1]] = rn[2], !.sig = IF rn[1] \in Signers THEN @ \union {rn[2]} ELSE @] :
        rn \in (DOMAIN i.acc) \X (O!Names(w) \union Users \union {"adm", "system", "token"})}
    \union {[i EXCEPT !.sig = {}]}
    \union (IF "cur" \in DOMAIN i.arg THEN {[i EXCEPT !.arg.cur = t] : t \in Ticks} \union {[i EXCEPT !.arg.cur = t, !.acc.current_tick_state = O!TickN(i.acc.pool_state, t)] : t \in Ticks} ELSE {})
    \union (IF "lo" \in DOMAIN i.arg THEN {[i EXCEPT !.arg.lo = t] : t \in Ticks} \union {[i EXCEPT !.arg.hi = t] : t \in Ticks} ELSE {})
    \union (IF i.op = "tick" THEN {[i EXCEPT !.arg.tick = t] : t \in Ticks} ELSE {})

VARIABLES w, ids, ins, res, bad
vars == <<w, ids, ins, res, bad>>
View == <<w, ids, bad>>   \* (bad decides too: what is found wrong on the way to a known world counts)

Apply(v, i) ==
    IF i.op = "dep" THEN LET L == buys(i.arg.x, i.arg.y, i.arg.cur, i.arg.lo, i.arg.hi)
                             t == taken(L, i.arg.cur, i.arg.lo, i.arg.hi) IN O!Effect(v, i, L, t[1], t[2], whole(L))
    ELSE IF i.op = "wit" THEN LET t == paid(oflp(i.arg.lp), i.arg.cur, i.arg.lo, i.arg.hi) IN O!Effect(v, i, oflp(i.arg.lp), t[1], t[2], i.arg.lp)
    ELSE O!Effect(v, i, i.arg.tick, 0, 0, 0)
ApplyInit(v, i) == IF i.op = "pool" THEN O!Effect(v, i, i.arg.tick, 0, 0, 0) ELSE O!Effect(v, i, 0, 0, 0, 0)
\* what it reports, from what it works out (not from what was moved)
SaidOf(v, i) ==
    IF i.op = "dep" THEN LET L == buys(i.arg.x, i.arg.y, i.arg.cur, i.arg.lo, i.arg.hi)
                             t == IF Bug = "report what was offered" THEN <<i.arg.x, i.arg.y>> ELSE taken(L, i.arg.cur, i.arg.lo, i.arg.hi)
                         IN O!Report("dep", t[1], t[2], whole(L))
    ELSE IF i.op = "wit" THEN LET t == paid(oflp(i.arg.lp), i.arg.cur, i.arg.lo, i.arg.hi) IN O!Report("wit", t[1], t[2], i.arg.lp)
    ELSE <<>>

Do(i) ==
    /\ ins' = i
    /\ IF O!MustPass(w, i)
       THEN /\ w' = (IF i.op \in {"dep", "wit"} THEN Apply(w, i) ELSE ApplyInit(w, i))
            /\ res' = "ok"
            /\ ids' = IF i.op = "pos" THEN ids \union {<<i.acc.pool_state, i.acc.user, i.arg.lo, i.arg.hi>>} ELSE ids
       ELSE w' = w /\ res' = "rej" /\ ids' = ids
    /\ bad' = O!Judged(w, i, res', w') \union O!JudgedSaid(w, i, res', w', IF res' = "ok" THEN SaidOf(w, i) ELSE <<>>)

RECURSIVE Run(_, _)
Run(v, s) == IF s = <<>> THEN v ELSE Run(ApplyInit(v, Head(s)), Tail(s))
SetUp == LET ps == CHOOSE s \in [1 .. Cardinality(Pools) -> Pools] : {s[k] : k \in DOMAIN s} = Pools
             ts == CHOOSE s \in [1 .. Cardinality(Ticks) -> Ticks] : {s[k] : k \in DOMAIN s} = Ticks
             all(ml) == <<PoolIns(ml), BmIns(ml)>> \o [k \in DOMAIN ts |-> TickIns(ml, ts[k])]
             RECURSIVE cat(_)
             cat(k) == IF k = 0 THEN <<>> ELSE cat(k - 1) \o all(ps[k])
         IN Run(Empty, cat(Len(ps)))

Init == /\ w = (IF Ready THEN SetUp ELSE Empty)
        /\ ids = {} /\ ins = [op |-> "new", sig |-> {}] /\ res = "ok" /\ bad = {}
Proper == Inits \union Moves
\* an instruction that could not be carried out in its proper form is not worth spoiling
Next == \/ \E i \in Proper : Do(i)
        \/ \E i \in {i \in Proper : O!MustPass(w, i)} : \E j \in Wrong(w, i) : Do(j)
Spec == Init /\ [][Next]_vars

Sound == bad = {}
Stands == O!Standing(w, ids, 0) = {}
\* nobody loses anything without having signed
UserOf(n) == CHOOSE u \in Users : \E m \in Mints \union Pools : n = TokN(u, m)
NoTheft == [][
    /\ \A u \in Users : u \notin ins'.sig =>
         /\ \A n \in DOMAIN w.tok : w.tok[n].owner = u => w'.tok[n].amt >= w.tok[n].amt
         /\ \A id \in ids : id[2] = u => O!LOf(w', id) >= O!LOf(w, id)
    \* and tokens are neither made nor lost
    /\ \A m \in Mints : LET S == {n \in DOMAIN w.tok : w.tok[n].mint = m}  S2 == {n \in DOMAIN w'.tok : w'.tok[n].mint = m}
                        IN O!SumOf([n \in S |-> w.tok[n].amt], S) = O!SumOf([n \in S2 |-> w'.tok[n].amt], S2)
    ]_w
=============================================================================
