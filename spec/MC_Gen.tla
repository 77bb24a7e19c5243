-------------------------------- MODULE MC_Gen --------------------------------
(* Every step of the mechanism, written out: the state graph from which       *)
(* check.py makes histories for the real pools.                               *)
EXTENDS CLPoolMech, Sequences, Json

Open1(Lq) == {<<id[1], id[2], id[3], Lq[id]>> : id \in {i \in Ids : Lq[i] > 0}}
S == <<tick, at, phase, dir, liq, Open1(L)>>
S1 == <<tick', at', phase', dir', liq', Open1(L')>>
Emit == PrintT("EDGE" \o ToJson(<<S, act', S1>>))
=============================================================================
