----------------------------- MODULE GenOnChain -----------------------------
(* Random behaviours of the on-chain program for the harness to replay, made  *)
(* by TLC's simulator.  Most instructions are proper, others differ from a    *)
(* proper one in one account, signature or argument.                          *)
EXTENDS OnChainBig, Json, Sequences

CONSTANTS Steps,     \* instructions of a behaviour
          Spoiled,   \* in ten: how many instructions are spoiled
          Pools      \* LP mints

Users == {"a", "b"}
Mints == {"mx", "my", "mz"}
\* ticks: by regime, with the one the pools are made with
Regimes == {<<100, 150, 160, 200, 300>>, <<0, 1, 2, 40, 100>>, <<20000, 21000, 22000, 22001, 30000>>, <<5, 6, 7, 8, 9>>, <<60000, 60010, 61000, 65000, 70000>>}
Amounts == {"0", "1", "2", "7", "100", "9999", "1000000", "123456789", "1000000000", "77777777777", "1000000000000"}

TokN(u, m) == u \o "." \o m
UT(u) == {TokN(u, m) : m \in Mints \union Pools}
AllTok == UNION {UT(u) : u \in Users} \union {"a.mx.2", "a.ml1.2", "b.my.2"}
TokOf(n) == CASE n = "a.mx.2" -> <<"a", "mx">> [] n = "a.ml1.2" -> <<"a", "ml1">> [] n = "b.my.2" -> <<"b", "my">>
              [] OTHER -> CHOOSE um \in Users \X (Mints \union Pools) : n = TokN(um[1], um[2])
\* mints that no pool may have for its LP tokens: of somebody else, of another pool, of nobody
Strange == [m \in {"mb", "mc", "md"} |-> [auth |-> CASE m = "mb" -> "adm" [] m = "mc" -> B!PoolN("ml1") [] OTHER -> "-", supply |-> "0"]]
Setup == [users |-> <<"a", "b", "adm">>,
          mint |-> Strange @@ [m \in Mints \union Pools |-> [auth |-> IF m \in Mints THEN "adm" ELSE B!PoolN(m), supply |-> "0"]],
          tok |-> [n \in AllTok |-> [mint |-> TokOf(n)[2], owner |-> TokOf(n)[1],
                                     amt |-> IF TokOf(n)[2] \in Pools THEN "0" ELSE IF n \in {"a.mx.2", "b.my.2"} THEN "1000" ELSE "5000000000000"]]]
Empty == [pool |-> <<>>, bm |-> <<>>, tick |-> <<>>, pos |-> <<>>,
          tok |-> [n \in AllTok |-> Setup.tok[n] @@ [free |-> TRUE]], mint |-> Setup.mint]

VARIABLES w, reg, cur, hist
vars == <<w, reg, cur, hist>>
Ticks == {reg[k] : k \in DOMAIN reg}
R(S) == RandomElement(S)
\* Op of an element of S (drawn once: a definition could be drawn again at every use)
With(S, Op(_)) == CHOOSE v \in {Op(x) : x \in {R(S)}} : TRUE
P(ml) == B!PoolN(ml)

PoolIns3(ml, c, x, y) == [op |-> "pool", arg |-> [tick |-> c], sig |-> {"adm", "a"},
    acc |-> [authority |-> "adm", payer |-> "a", pool_state |-> P(ml), token_x_mint |-> x, token_y_mint |-> y, lp_token_mint |-> ml,
             token_x_vault |-> B!VaultN(x, ml), token_y_vault |-> B!VaultN(y, ml), lp_token_vault |-> B!LpVaultN(P(ml)),
             system_program |-> "system", token_program |-> "token", rent |-> "rent"]]
PoolIns(ml) == With({cur, reg[2]}, LAMBDA c : With({<<"mx", "my">>, <<"mx", "mz">>, <<"mx", "mx">>, <<"my", "mx">>, <<"mz", "my">>}, LAMBDA m : PoolIns3(ml, c, m[1], m[2])))
BmIns(ml) == [op |-> "bm", arg |-> [none |-> 0], sig |-> {"adm"},
    acc |-> [pool_state |-> P(ml), tick_bitmap |-> B!BmN(P(ml)), payer |-> "adm", system_program |-> "system"]]
TickIns(ml, t) == [op |-> "tick", arg |-> [tick |-> t], sig |-> {"b"},
    acc |-> [pool_state |-> P(ml), tick_state |-> B!TickN(P(ml), t), payer |-> "b", system_program |-> "system"]]
PosIns(ml, u, lo, hi) == [op |-> "pos", arg |-> [lo |-> lo, hi |-> hi], sig |-> {u, "adm"},
    acc |-> [pool_state |-> P(ml), position_state |-> B!PosN(P(ml), u, lo, hi), lower_tick_state |-> B!TickN(P(ml), lo),
             upper_tick_state |-> B!TickN(P(ml), hi), user |-> u, payer |-> "adm", system_program |-> "system"]]
LpIns(op, ml, u, arg) ==
    LET p == P(ml)
        mx == IF p \in DOMAIN w.pool THEN w.pool[p].mx ELSE "mx"
        my == IF p \in DOMAIN w.pool THEN w.pool[p].my ELSE "my"
    IN [op |-> op, arg |-> arg, sig |-> {u},
     acc |-> [pool_state |-> p, tick_bitmap |-> B!BmN(p), position_state |-> B!PosN(p, u, arg.lo, arg.hi),
              lower_tick_state |-> B!TickN(p, arg.lo), upper_tick_state |-> B!TickN(p, arg.hi), current_tick_state |-> B!TickN(p, arg.cur),
              lp_token_mint |-> ml, user_token_x |-> TokN(u, mx), user_token_y |-> TokN(u, my),
              token_x_vault |-> B!VaultN(mx, ml), token_y_vault |-> B!VaultN(my, ml), lp_token_vault |-> B!LpVaultN(p),
              lp_token_acc |-> TokN(u, ml), token_program |-> "token", user |-> u, payer |-> u]]

Opened == {<<p, u, lo, hi>> \in (DOMAIN w.pool) \X Users \X Ticks \X Ticks : B!PosN(p, u, lo, hi) \in DOMAIN w.pos}
CurOf(p) == IF p \in DOMAIN w.pool THEN w.pool[p].tick ELSE cur
MlOf(p) == CHOOSE ml \in Pools : P(ml) = p
DepIns(id) == LpIns("dep", MlOf(id[1]), id[2], [lo |-> id[3], hi |-> id[4], cur |-> CurOf(id[1]), x |-> R(Amounts), y |-> R(Amounts)])
\* all of it, a part, none, too much
WitIns(id) == With({w.pos[B!PosN(id[1], id[2], id[3], id[4])].L},
                   LAMBDA L : LpIns("wit", MlOf(id[1]), id[2], [lo |-> id[3], hi |-> id[4], cur |-> CurOf(id[1]),
                       lp |-> R({bigLP(L), iDiv(bigLP(L), "2"), iDiv(iMul(bigLP(L), "7"), "9"), "0", "1", iAdd(bigLP(L), "1")})]))

Pick(k, ml, u) ==
    LET fresh == {x \in Pools : P(x) \notin DOMAIN w.pool}
        nobm == {x \in Pools : P(x) \in DOMAIN w.pool /\ B!BmN(P(x)) \notin DOMAIN w.bm}
        notick == {mt \in Pools \X Ticks : P(mt[1]) \in DOMAIN w.pool /\ B!TickN(P(mt[1]), mt[2]) \notin DOMAIN w.tick}
        nocur == {P(x) : x \in {x \in Pools : P(x) \in DOMAIN w.pool /\ B!TickN(P(x), CurOf(P(x))) \notin DOMAIN w.tick}}
        full == {id \in Opened : w.pos[B!PosN(id[1], id[2], id[3], id[4])].L # "0"}
        nopos == {x \in Pools \X Users \X Ticks \X Ticks : x[3] < x[4] /\ B!TickN(P(x[1]), x[3]) \in DOMAIN w.tick
                      /\ B!TickN(P(x[1]), x[4]) \in DOMAIN w.tick /\ B!PosN(P(x[1]), x[2], x[3], x[4]) \notin DOMAIN w.pos}
    IN IF fresh # {} /\ (DOMAIN w.pool = {} \/ k <= 30) THEN With(fresh, PoolIns)
       ELSE IF nobm # {} /\ k <= 70 THEN With(nobm, BmIns)
       ELSE IF nocur # {} /\ k <= 80 THEN With(nocur, LAMBDA p : TickIns(MlOf(p), CurOf(p)))
       ELSE IF notick # {} /\ k <= 60 /\ (Cardinality(notick) > 3 \/ k <= 10) THEN With(notick, LAMBDA x : TickIns(x[1], x[2]))
       ELSE IF nopos # {} /\ (k <= 18 \/ Opened = {}) THEN With(nopos, LAMBDA x : PosIns(x[1], x[2], x[3], x[4]))
       ELSE IF k <= 21 \/ Opened = {}
            THEN With(Ticks \union {8, 12345}, LAMBDA t : With(Ticks, LAMBDA t2 : R({PoolIns(ml), With(DOMAIN Strange, PoolIns), BmIns(ml), TickIns(ml, t), PosIns(ml, u, t, t2)})))
       ELSE IF k <= 65 \/ (full = {} /\ k <= 95) THEN With(Opened, DepIns) ELSE With(IF full # {} /\ k <= 95 THEN full ELSE Opened, WitIns)

Signers == {"user", "payer", "authority"}
Kin(n) ==   \* accounts that could be mistaken for n
    LET same == {m \in {DOMAIN w.pool, DOMAIN w.bm, DOMAIN w.tick, DOMAIN w.pos, DOMAIN w.tok, DOMAIN w.mint} : n \in m}
    IN (UNION same) \ {n}
Instead(role, n) == IF role \in Signers THEN R((Users \union {"adm"}) \ {n})
                    ELSE IF Kin(n) # {} /\ R(1 .. 10) <= 9 THEN R(Kin(n)) ELSE R(B!Names(w) \union {"a", "b", "system", "token"})
Other(u) == CHOOSE v \in Users : v # u
Of(v, n) == IF n \in DOMAIN w.tok THEN TokN(v, w.tok[n].mint) ELSE n
Spoil(i, how, role, pick, lo) ==
    IF how <= 8 THEN [i EXCEPT !.acc[role] = pick, !.sig = IF role \in Signers /\ R(1 .. 2) = 1 THEN @ \union {pick} ELSE @]
    ELSE IF how = 9 THEN [i EXCEPT !.sig = @ \ {R(i.sig)}]
    ELSE IF how = 10 /\ "cur" \in DOMAIN i.arg THEN [i EXCEPT !.arg.cur = lo, !.acc.current_tick_state = B!TickN(i.acc.pool_state, lo)]
    ELSE IF how = 11 /\ "lo" \in DOMAIN i.arg THEN
         \* the range the other way round, all accounts to match
         [i EXCEPT !.arg.lo = i.arg.hi, !.arg.hi = i.arg.lo, !.acc.lower_tick_state = i.acc.upper_tick_state, !.acc.upper_tick_state = i.acc.lower_tick_state,
                   !.acc.position_state = B!PosN(i.acc.pool_state, i.acc.user, i.arg.hi, i.arg.lo)]
    ELSE IF "user" \in DOMAIN i.acc /\ i.acc.user \in Users THEN
         \* somebody else signs and names their own token accounts
         LET v == Other(i.acc.user) IN
         IF i.op = "pos" THEN [i EXCEPT !.acc.user = v, !.sig = @ \union {v}]
         ELSE [i EXCEPT !.acc.user = v, !.sig = {v}, !.acc.payer = v, !.acc.user_token_x = Of(v, @), !.acc.user_token_y = Of(v, @), !.acc.lp_token_acc = Of(v, @)]
    ELSE [i EXCEPT !.acc[role] = pick]
Spoilt(i) == With(1 .. 12, LAMBDA how : With(DOMAIN i.acc, LAMBDA role : With({Instead(role, i.acc[role])}, LAMBDA pick : With(Ticks, LAMBDA lo : Spoil(i, how, role, pick, lo)))))

Apply(i) ==
    IF ~B!MustPass(w, i) THEN w
    ELSE IF i.op = "dep" THEN LET L == bigLiq(i.arg.x, i.arg.y, i.arg.cur, i.arg.lo, i.arg.hi)
                                  id == bigIdeal(L, i.arg.cur, i.arg.lo, i.arg.hi)
                              IN B!Effect(w, i, L, bigCeil(id[1]), bigCeil(id[2]), bigLP(L))
    ELSE IF i.op = "wit" THEN LET id == bigIdeal(bigOfLP(i.arg.lp), i.arg.cur, i.arg.lo, i.arg.hi)
                              IN B!Effect(w, i, bigOfLP(i.arg.lp), bigFloor(id[1]), bigFloor(id[2]), i.arg.lp)
    ELSE IF i.op = "pool" THEN B!Effect(w, i, nTickPrice(i.arg.tick), "0", "0", "0")
    ELSE B!Effect(w, i, "0", "0", "0", "0")

Init == /\ reg = R(Regimes) /\ cur = R({reg[2], reg[3], reg[4]}) /\ w = Empty /\ hist = <<>>
Next ==
    /\ Len(hist) < Steps
    \* (bound in sets of one, so that what was drawn is not drawn again)
    /\ \E k \in {R(1 .. 100)} : \E ml \in {R(Pools)} : \E u \in {R(Users)} : \E i0 \in {Pick(k, ml, u)} :
       \E s \in {R(1 .. 10)} : \E i1 \in {IF s <= Spoiled THEN Spoilt(i0) ELSE i0} : \E i \in {IF s = 1 THEN Spoilt(i1) ELSE i1} :
          /\ w' = Apply(i)
          /\ hist' = Append(hist, i)
    /\ UNCHANGED <<reg, cur>>
Spec == Init /\ [][Next]_vars
Out == Len(hist) = Steps => PrintT("RUN" \o ToJson([setup |-> Setup, ev |-> hist]))
=============================================================================
