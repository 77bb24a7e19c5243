------------------------------- MODULE OnChain -------------------------------
(* The on-chain program: which instructions it carries out, and what they do  *)
(* to its accounts and to the token accounts.                                 *)
(*                                                                            *)
(* A world is a record of maps from account names to accounts:                *)
(*   pool "pool/ML"            [mx, my, ml, vx, vy, auth, liq, rp, tick, ..]  *)
(*   bm   "bm/pool/ML"         [..]                                           *)
(*   tick "tick/pool/ML/T"     [t, net, gross, ..]                            *)
(*   pos  "pos/pool/ML/U/LO/HI" [lo, hi, L, ..]                               *)
(*   tok  token accounts       [mint, owner, amt]                             *)
(*   mint "ML" ..              [auth, supply]                                 *)
(* An account that the program derives bears the name that says from what; so *)
(* a name stands for an address.  ML is the mint of the pool's LP tokens.     *)
(*                                                                            *)
(* An instruction says which account it is given in every role, and who signs *)
(*   [op, arg, acc (role -> name), sig (set of names)]                        *)
(*                                                                            *)
(* What numbers are is left open: amounts of tokens and liquidity are small   *)
(* integers in MC_OnChain and numerals of any size in TraceOnChain.           *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS
    Plus(_, _), Minus(_, _), Leq(_, _), Nil,     \* amounts, liquidity
    Whole(_),                \* LP tokens of an amount of liquidity, rounded down
    OfLP(_),                 \* liquidity of a number of LP tokens
    FitsLiq(_, _, _, _),     \* L, tick of the pool, position, <<x, y>>: is L what x and y buy?
    FitsIn(_, _, _, _, _),   \* <<x, y>> taken for L at tick in lo, hi
    FitsOut(_, _, _, _, _),  \* <<x, y>> paid for L at tick in lo, hi
    FitsPrice(_, _),         \* root price, tick
    Payable(_, _, _, _, _),  \* may a deposit of x, y be expected to be carried out?
    Claim(_, _, _, _)        \* <<x, y>> that can be withdrawn for L at tick in lo, hi

TokenProgram == "token"
SystemProgram == "system"
RentSysvar == "rent"
\* the names of derived accounts, by the LP mint of the pool
PoolN(ml) == "pool/" \o ml
BmN(p) == "bm/" \o p
TickN(p, t) == "tick/" \o p \o "/" \o ToString(t)
PosN(p, u, lo, hi) == "pos/" \o p \o "/" \o u \o "/" \o ToString(lo) \o "/" \o ToString(hi)
VaultN(m, ml) == "vault/" \o m \o "/" \o ml
LpVaultN(p) == "lpv/" \o p

Names(w) == DOMAIN w.pool \union DOMAIN w.bm \union DOMAIN w.tick \union DOMAIN w.pos \union DOMAIN w.tok \union DOMAIN w.mint
Has(m, n) == n \in DOMAIN m
IfB(c, b) == IF c THEN {b} ELSE {}

-----------------------------------------------------------------------------
\* which instructions are in order
Signed(i, role) == i.acc[role] \in i.sig
\* is this a token account of that mint that belongs to that owner?
TokenOf(w, n, mint, owner) == Has(w.tok, n) /\ w.tok[n].mint = mint /\ w.tok[n].owner = owner

\* the accounts of a deposit or withdrawal
Accounts(w, i) ==
    LET p == i.acc.pool_state  a == i.arg  u == i.acc.user
        P == w.pool[p]
    IN  /\ Has(w.pool, p)
        /\ i.acc.tick_bitmap = BmN(p) /\ Has(w.bm, BmN(p))
        /\ a.lo < a.hi
        /\ i.acc.position_state = PosN(p, u, a.lo, a.hi) /\ Has(w.pos, i.acc.position_state)
        /\ i.acc.lower_tick_state = TickN(p, a.lo) /\ Has(w.tick, i.acc.lower_tick_state)
        /\ i.acc.upper_tick_state = TickN(p, a.hi) /\ Has(w.tick, i.acc.upper_tick_state)
        /\ i.acc.current_tick_state = TickN(p, a.cur) /\ Has(w.tick, i.acc.current_tick_state)
        /\ a.cur = P.tick
        /\ i.acc.lp_token_mint = P.ml
        /\ TokenOf(w, i.acc.user_token_x, P.mx, u)
        /\ TokenOf(w, i.acc.user_token_y, P.my, u)
        /\ i.acc.token_x_vault = P.vx /\ i.acc.token_y_vault = P.vy
        /\ i.acc.lp_token_vault = LpVaultN(p)
        /\ Has(w.tok, i.acc.lp_token_acc) /\ w.tok[i.acc.lp_token_acc].mint = P.ml
        /\ i.acc.token_program = TokenProgram
        /\ Signed(i, "user") /\ Signed(i, "payer")

PosOf(w, i) == w.pos[i.acc.position_state]
\* what only the amounts decide
Affordable(w, i) ==
    IF i.op = "dep"
    THEN Payable(i.arg.x, i.arg.y, i.arg.cur, i.arg.lo, i.arg.hi)
         /\ Leq(i.arg.x, w.tok[i.acc.user_token_x].amt) /\ Leq(i.arg.y, w.tok[i.acc.user_token_y].amt)
    ELSE Leq(OfLP(i.arg.lp), PosOf(w, i).L)
         /\ Leq(i.arg.lp, w.tok[i.acc.lp_token_acc].amt)
         /\ w.tok[i.acc.lp_token_acc].owner = i.acc.user

\* must be refused / must be carried out (in between, amounts decide)
MayPass(w, i) ==
    CASE i.op \in {"dep", "wit"} -> Accounts(w, i) /\ (i.op = "wit" => Affordable(w, i))
      [] i.op = "pool" ->
           LET a == i.acc IN
           /\ a.pool_state = PoolN(a.lp_token_mint) /\ ~Has(w.pool, a.pool_state)
           /\ \A r \in {"token_x_mint", "token_y_mint", "lp_token_mint"} : Has(w.mint, a[r])
           /\ w.mint[a.lp_token_mint].auth = a.pool_state
           /\ a.token_x_vault = VaultN(a.token_x_mint, a.lp_token_mint) /\ ~Has(w.tok, a.token_x_vault)
           /\ a.token_y_vault = VaultN(a.token_y_mint, a.lp_token_mint) /\ ~Has(w.tok, a.token_y_vault)
           /\ a.token_x_vault # a.token_y_vault
           /\ a.lp_token_vault = LpVaultN(a.pool_state)
           /\ a.system_program = SystemProgram /\ a.token_program = TokenProgram /\ a.rent = RentSysvar
           /\ Signed(i, "authority") /\ Signed(i, "payer")
      [] i.op = "bm" ->
           /\ Has(w.pool, i.acc.pool_state) /\ i.acc.tick_bitmap = BmN(i.acc.pool_state)
           /\ ~Has(w.bm, i.acc.tick_bitmap)
           /\ i.acc.system_program = SystemProgram /\ Signed(i, "payer")
      [] i.op = "tick" ->
           /\ Has(w.pool, i.acc.pool_state) /\ i.acc.tick_state = TickN(i.acc.pool_state, i.arg.tick)
           /\ ~Has(w.tick, i.acc.tick_state)
           /\ i.acc.system_program = SystemProgram /\ Signed(i, "payer")
      [] i.op = "pos" ->
           LET p == i.acc.pool_state  a == i.arg IN
           /\ Has(w.pool, p) /\ a.lo < a.hi
           /\ i.acc.position_state = PosN(p, i.acc.user, a.lo, a.hi) /\ ~Has(w.pos, i.acc.position_state)
           /\ i.acc.lower_tick_state = TickN(p, a.lo) /\ Has(w.tick, i.acc.lower_tick_state)
           /\ i.acc.upper_tick_state = TickN(p, a.hi) /\ Has(w.tick, i.acc.upper_tick_state)
           /\ i.acc.system_program = SystemProgram /\ Signed(i, "user") /\ Signed(i, "payer")
MustPass(w, i) == MayPass(w, i) /\ (i.op = "pool" => i.arg.tick <= 262143) /\ (i.op \in {"dep", "wit"} => Affordable(w, i))

-----------------------------------------------------------------------------
\* what an instruction does; D is the change of liquidity, X and Y the tokens moved (into the
\* vaults for a deposit, out of them for a withdrawal), N the LP tokens minted or burnt
Ext(m, n, v) == [k \in DOMAIN m \union {n} |-> IF k = n THEN v ELSE m[k]]
Add(m, n, d) == [m EXCEPT ![n].amt = Plus(@, d)]
Take(m, n, d) == [m EXCEPT ![n].amt = Minus(@, d)]
InRange(a) == a.lo <= a.cur /\ a.cur < a.hi
Neg(v) == Minus(Nil, v)

Effect(w, i, D, X, Y, N) ==
    LET c == i.acc  a == i.arg IN
    IF i.op \in {"dep", "wit"} THEN
        LET d == IF i.op = "dep" THEN D ELSE Neg(D)
            n == IF i.op = "dep" THEN N ELSE Neg(N)
            x == IF i.op = "dep" THEN X ELSE Neg(X)
            y == IF i.op = "dep" THEN Y ELSE Neg(Y)
        IN [w EXCEPT
              !.pos[c.position_state].L = Plus(@, d),
              !.tick = [@ EXCEPT ![c.lower_tick_state].net = Plus(@, d), ![c.lower_tick_state].gross = Plus(@, d),
                                 ![c.upper_tick_state].net = Minus(@, d), ![c.upper_tick_state].gross = Plus(@, d)],
              !.pool[c.pool_state].liq = IF InRange(a) THEN Plus(@, d) ELSE @,
              !.tok = Add(Take(Add(Take(Add(@, c.lp_token_acc, n), c.user_token_x, x), c.token_x_vault, x), c.user_token_y, y), c.token_y_vault, y),
              !.mint[c.lp_token_mint].supply = Plus(@, n)]
    ELSE IF i.op = "pool" THEN
        [w EXCEPT
            !.pool = Ext(@, c.pool_state, [mx |-> c.token_x_mint, my |-> c.token_y_mint, ml |-> c.lp_token_mint,
                                           vx |-> c.token_x_vault, vy |-> c.token_y_vault, auth |-> c.authority,
                                           liq |-> Nil, rp |-> D, tick |-> a.tick, bumps |-> TRUE, fees |-> TRUE]),
            !.tok = LET t(m, o) == [mint |-> m, owner |-> c.pool_state, amt |-> Nil, free |-> TRUE]
                    IN Ext(Ext(Ext(@, c.token_x_vault, t(c.token_x_mint, 0)), c.token_y_vault, t(c.token_y_mint, 0)),
                           c.lp_token_vault, t(c.lp_token_mint, 0))]
    ELSE IF i.op = "bm" THEN [w EXCEPT !.bm = Ext(@, c.tick_bitmap, [bumps |-> TRUE])]
    ELSE IF i.op = "tick" THEN
        [w EXCEPT !.tick = Ext(@, c.tick_state, [t |-> a.tick, net |-> Nil, gross |-> Nil, bumps |-> TRUE, fees |-> TRUE])]
    ELSE [w EXCEPT !.pos = Ext(@, c.position_state, [lo |-> a.lo, hi |-> a.hi, L |-> Nil, bumps |-> TRUE, fees |-> TRUE])]

-----------------------------------------------------------------------------
\* judging a step from w by i to w2
Parts == {"pool", "bm", "tick", "pos", "tok", "mint"}
Book == {"pool", "tick", "pos", "bm"}
Init_(op) == op \in {"pool", "bm", "tick", "pos"}

Judged(w, i, res, w2) ==
    IF res # "ok"
    THEN IfB(w2 # w, <<"C14", "a failed instruction had an effect">>)
         \union IfB(MustPass(w, i), IF Init_(i.op) THEN <<"C17", "initialization refused">> ELSE <<"C15", "proper " \o i.op \o " refused">>)
    ELSE IF ~MayPass(w, i)
    THEN {IF Init_(i.op) THEN <<"C17", "improper initialization accepted">>
          ELSE IF Accounts(w, i) THEN <<"C15", "more withdrawn than the user has">>
          ELSE <<"C16", "accepted with a wrong account, argument or signature">>}
    ELSE IF Init_(i.op)
    THEN IF i.op = "pool"
         THEN IfB(~Has(w2.pool, i.acc.pool_state), <<"C17", "no pool">>)
              \union (IF Has(w2.pool, i.acc.pool_state)
                      THEN LET rp == w2.pool[i.acc.pool_state].rp
                           IN IfB(~FitsPrice(rp, i.arg.tick), <<"C17", "price of a new pool">>)
                              \union IfB(w2 # Effect(w, i, rp, Nil, Nil, Nil), <<"C17", "accounts of a new pool">>)
                      ELSE {})
         ELSE IfB(w2 # Effect(w, i, Nil, Nil, Nil, Nil), <<"C17", "initialized account (" \o i.op \o ")">>)
    ELSE
    LET c == i.acc  a == i.arg
        L1 == w.pos[c.position_state].L
        L2 == w2.pos[c.position_state].L
        x == Minus(w2.tok[c.token_x_vault].amt, w.tok[c.token_x_vault].amt)
        y == Minus(w2.tok[c.token_y_vault].amt, w.tok[c.token_y_vault].amt)
        D == IF i.op = "dep" THEN Minus(L2, L1) ELSE OfLP(a.lp)
        N == IF i.op = "dep" THEN Whole(D) ELSE a.lp
        xy == IF i.op = "dep" THEN <<x, y>> ELSE <<Neg(x), Neg(y)>>
        ideal == Effect(w, i, D, xy[1], xy[2], N)
    IN  (IF DOMAIN w2.pos # DOMAIN w.pos \/ DOMAIN w2.tok # DOMAIN w.tok THEN {<<"C14", "accounts appeared or vanished">>} ELSE
        IfB(\E k \in Book : w2[k] # ideal[k], <<"C14", "bookkeeping of " \o i.op>>)
        \union (IF i.op = "dep"
                THEN IfB(~Leq(Nil, D) \/ ~FitsLiq(D, a.cur, <<a.lo, a.hi>>, <<a.x, a.y>>), <<"C15", "liquidity for the tokens">>)
                     \union IfB(~FitsIn(xy, D, a.cur, a.lo, a.hi) \/ ~Leq(x, a.x) \/ ~Leq(y, a.y), <<"C15", "tokens taken">>)
                ELSE IfB(~FitsOut(xy, D, a.cur, a.lo, a.hi), <<"C15", "tokens paid">>))
        \union IfB(w2.tok # ideal.tok \/ w2.mint # ideal.mint, <<"C15", "tokens moved by " \o i.op>>))

-----------------------------------------------------------------------------
\* what an instruction reports: a sequence of [ev, v], v the numbers of the event.
\* A step from w by i to w2 that said s: a deposit or withdrawal that was carried out reports once
\* what was moved, nothing else reports that anything was; and what is said of a failure is true
Moving == {"LiquidityAdded", "LiquidityRemoved"}
Report(op, X, Y, N) == <<[ev |-> IF op = "dep" THEN "LiquidityAdded" ELSE "LiquidityRemoved", v |-> <<X, Y, N>>]>>
TrueOfFailure(w, i, e) ==
    CASE e.ev = "InsufficientPositionLiquidity" ->
           i.op = "wit" /\ e.v = <<Whole(PosOf(w, i).L), i.arg.lp>> /\ ~Leq(OfLP(i.arg.lp), PosOf(w, i).L)
      [] e.ev = "DepositAmountExceeded" -> i.op = "dep" /\ Len(e.v) = 2 /\ e.v[1] \in {i.arg.x, i.arg.y} /\ Leq(e.v[1], e.v[2])
      [] e.ev \in {"NegativeGlobalLiquidity", "NegativeTickGrossLiquidity"} -> i.op = "wit" /\ Len(e.v) = 2 /\ Leq(e.v[1], e.v[2])
      [] e.ev = "TickMismatch" -> Len(e.v) = 2 /\ e.v[1] # e.v[2]
      [] OTHER -> FALSE
JudgedSaid(w, i, res, w2, s) ==
    IF res # "ok"
    THEN IfB(\E k \in DOMAIN s : s[k].ev \in Moving, <<"C25", "a failed instruction reported a movement">>)
         \union IfB(\E k \in DOMAIN s : s[k].ev \notin Moving /\ ~TrueOfFailure(w, i, s[k]), <<"C25", "wrong report of a failure">>)
    ELSE IF Init_(i.op) THEN IfB(s # <<>>, <<"C25", "report of an initialization">>)
    ELSE
    LET c == i.acc
        into(v) == LET d == Minus(w2.tok[v].amt, w.tok[v].amt) IN IF i.op = "dep" THEN d ELSE Neg(d)
        n == LET d == Minus(w2.mint[c.lp_token_mint].supply, w.mint[c.lp_token_mint].supply) IN IF i.op = "dep" THEN d ELSE Neg(d)
        \* (as far as the accounts are what they should be; else C16)
    IN  IF ~MayPass(w, i) THEN {} ELSE
        IfB(s # Report(i.op, into(c.token_x_vault), into(c.token_y_vault), n), <<"C25", "report of " \o i.op>>)

-----------------------------------------------------------------------------
\* what holds in every world
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN Nil ELSE LET s == CHOOSE s \in S : TRUE IN Plus(f[s], SumOf(f, S \ {s}))

\* positions of a pool: the world of the specification keeps a list of what was opened
OfPool(w, p, ids) == {id \in ids : id[1] = p /\ Has(w.pos, PosN(id[1], id[2], id[3], id[4]))}
LOf(w, id) == w.pos[PosN(id[1], id[2], id[3], id[4])].L

Standing(w, ids, extra) ==
    UNION {
      LET mine == OfPool(w, p, ids)
          P == w.pool[p]
          f == [id \in mine |-> LOf(w, id)]
          cx == [id \in mine |-> Claim(f[id], P.tick, id[3], id[4])[1]]
          cy == [id \in mine |-> Claim(f[id], P.tick, id[3], id[4])[2]]
          ticks == {id[3] : id \in mine} \union {id[4] : id \in mine}
      IN  IfB(P.liq # SumOf(f, {id \in mine : id[3] <= P.tick /\ P.tick < id[4]}), <<"C14", "liquidity in range">>)
          \union IfB(\E t \in ticks : LET T == w.tick[TickN(p, t)] IN
                      \/ T.gross # Plus(SumOf(f, {id \in mine : id[3] = t}), SumOf(f, {id \in mine : id[4] = t}))
                      \/ T.net # Minus(SumOf(f, {id \in mine : id[3] = t}), SumOf(f, {id \in mine : id[4] = t})), <<"C14", "liquidity of a tick">>)
          \union IfB(~Leq(SumOf(cx, mine), w.tok[P.vx].amt) \/ ~Leq(SumOf(cy, mine), w.tok[P.vy].amt), <<"C15", "vault short of what the positions are worth">>)
          \union IfB(~Leq(Minus(w.mint[P.ml].supply, extra), Whole(SumOf(f, mine))), <<"C15", "more LP tokens than liquidity">>)
          \union IfB(\E id \in mine : ~Leq(Nil, f[id]), <<"C14", "negative position">>)
      : p \in DOMAIN w.pool}
=============================================================================
